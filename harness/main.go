// vdrv drives the real code of /repo/ecore and records what it does, as the
// traces that the TLA+ specifications in /verif/spec accept or reject.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type Config struct {
	Seed   int64
	N      int    // size knob: number of histories
	Len    int    // size knob: length of histories
	Mode   string // scenario variant
	Out    string
	Budget time.Duration
	Tmp    string
	Facets string
	Shard  int // this process is shard Shard of Shards
	Shards int
}

type scenario func(c *Config) error

var scenarios = map[string]scenario{}

var cfg Config

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrv SCENARIO [flags]")
		os.Exit(2)
	}
	name := os.Args[1]
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	fs.Int64Var(&cfg.Seed, "seed", 1, "")
	fs.IntVar(&cfg.N, "n", 10, "")
	fs.IntVar(&cfg.Len, "len", 30, "")
	fs.StringVar(&cfg.Mode, "mode", "", "")
	fs.StringVar(&cfg.Out, "out", "", "")
	fs.IntVar(&cfg.Shard, "shard", 0, "")
	fs.IntVar(&cfg.Shards, "shards", 1, "")
	fs.StringVar(&cfg.Facets, "facets", "ret,val,cont,opp,notes,res,rlog,kids,hang", "")
	fs.StringVar(&cfg.Tmp, "tmp", "", "")
	fs.DurationVar(&cfg.Budget, "budget", time.Minute, "")
	fs.Parse(os.Args[2:])
	s := scenarios[name]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", name)
		os.Exit(2)
	}
	startWatchdog()
	debug.SetMaxStack(256 << 20)
	if err := s(&cfg); err != nil {
		fmt.Fprintln(os.Stderr, "driver error:", err)
		os.Exit(3)
	}
}
