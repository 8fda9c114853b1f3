package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"
)

type M = map[string]any

// Trace writes one JSON object per line.
type Trace struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	N  int
}

func NewTrace(path string) *Trace {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	t := &Trace{f: f, w: bufio.NewWriterSize(f, 1<<16)}
	watched.Store(t)
	return t
}

func (t *Trace) Emit(e M) {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	t.mu.Lock()
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.N++
	t.mu.Unlock()
}

func (t *Trace) Flush() {
	t.mu.Lock()
	t.w.Flush()
	t.mu.Unlock()
}

func (t *Trace) Close() {
	t.mu.Lock()
	t.w.Flush()
	t.f.Close()
	t.mu.Unlock()
}

// The watchdog: an operation of the code under test that does not return, or
// that allocates without bound, ends the process. The pending operation is
// written as a "hang" event, which no specification accepts.

var watched atomic.Pointer[Trace]
var pending atomic.Pointer[pendingOp]

type pendingOp struct {
	what  M
	since time.Time
}

const opLimit = 60 * time.Second
const memLimit = 3 << 30

// Enter announces an operation of the code under test; Leave its return.
func Enter(what M) { pending.Store(&pendingOp{what, time.Now()}) }
func Leave()       { pending.Store(nil) }

func startWatchdog() {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			p := pending.Load()
			if p == nil {
				continue
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			why := ""
			if time.Since(p.since) > opLimit {
				why = "does not return"
			} else if ms.HeapAlloc > memLimit {
				why = "allocates without bound"
			}
			if why != "" {
				if os.Getenv("VERIF_STACKS") != "" {
					pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
				}
				if t := watched.Load(); t != nil {
					b, _ := json.Marshal(M{"ev": "hang", "what": p.what, "why": why})
					t.mu.Lock()
					t.w.Write(b)
					t.w.WriteByte('\n')
					t.w.Flush()
				}
				os.Exit(4)
			}
		}
	}()
}
