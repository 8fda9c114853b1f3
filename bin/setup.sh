#!/bin/bash
# builds the driver once (warms the go build cache) and parses the specifications
set -e
cd "$(dirname "$0")/.."
. harness/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r harness "$d/h"; (cd "$d/h" && go build -o "$d/vdrv" .)
java -version 2>/dev/null
echo ready
