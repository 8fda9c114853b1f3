#!/bin/bash
# triage.sh MODULE TRACE : run the trace spec without invariants, print differences
cd /verif/spec; d=$(mktemp -d)
TRACE=$2 tlc -noGenerateSpecTE -workers 1 -metadir $d -config ${3:-${1%Trace}Triage.cfg} $1.tla
rm -rf $d
