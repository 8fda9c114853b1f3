package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
	"time"
)

// crash: a child process works with a database store and is killed; the store is then
// opened again. The child logs what it is about to do and the waits that it has done.

type crashLog struct {
	f     *os.File
	n     int
	last  int    // the process kills itself once it has logged so many lines,
	event string // if the last one is of this kind
	pause time.Duration
}

func (l *crashLog) emit(e M) {
	b, err := json.Marshal(e)
	if err == nil {
		_, err = l.f.Write(append(b, '\n'))
	}
	if err != nil {
		panic(err)
	}
	if l.n++; l.last >= 0 && l.n >= l.last && (l.event == "" || l.event == e["ev"]) {
		time.Sleep(l.pause)
		l.kill()
	}
}

func (l *crashLog) kill() {
	syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

func crashWorld(seed int64, dir string) (*storeWorld, *rand.Rand) {
	rnd := rand.New(rand.NewSource(seed))
	return newStoreWorld(rnd, dir, 3+rnd.Intn(3), "disk"), rnd
}

func (w *storeWorld) logged(l *crashLog, p storeOp) {
	l.emit(M{"ev": "issue", "op": p.json()})
	Enter(p.json())
	w.call(p)
	Leave()
	w.note(p)
	w.failed = w.failed || p.K == "BadAdd" || p.K == "BadQuery"
}

func runCrashChild(c *Config) error {
	t := NewTrace(os.DevNull) // the waits are recorded in the log
	defer t.Close()
	f, err := os.OpenFile(c.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	if err != nil {
		return err
	}
	l := &crashLog{f: f, last: -1}
	if c.Mode != "" && c.Mode != "timer" {
		rnd := rand.New(rand.NewSource(c.Seed + 1))
		l.last, l.event = c.N, c.Mode
		if l.event == "any" {
			l.event = ""
		}
		if rnd.Intn(3) == 0 {
			l.pause = time.Duration(rnd.Intn(1000)) * time.Microsecond
		}
	}
	w, rnd := crashWorld(c.Seed, c.Tmp)
	l.emit(M{"ev": "begin"})
	if err := w.open(); err != nil {
		return err
	}
	wait := func(o int) {
		e := w.wait(t, o)
		l.emit(M{"ev": "wait", "o": o, "err": e["err"], "failed": e["failed"]})
	}
	w.logged(l, storeOp{K: "AddRoot", O: 1})
	for o := 2; o <= len(w.objs); o++ {
		w.logged(l, storeOp{K: "SetContainer", O: o})
	}
	w.stored()
	wait(0)
	l.emit(M{"ev": "main"})
	focus, focusObj := 1+rnd.Intn(len(w.m.feats)), 0
	if c.Mode == "timer" {
		// a list is edited all the time
		many := w.plainFeats(true)
		focus, focusObj = many[rnd.Intn(len(many))], 1+rnd.Intn(len(w.objs))
		rnd := rand.New(rand.NewSource(c.Seed + 1))
		go func() {
			time.Sleep(time.Duration(1000+rnd.Intn(30000)) * time.Microsecond)
			l.kill()
		}()
	}
	for step := 0; step < c.Len; step++ {
		switch k := rnd.Intn(20); {
		case focusObj > 0 && step%4 > 0:
			w.narrow = step > 4 && step%4 > 1
			if p, ok := w.randomWrite(rnd, focusObj, focus); ok {
				w.logged(l, p)
			}
			w.narrow = false
		case k == 0:
			wait(rnd.Intn(len(w.objs) + 1))
		case k == 3:
			// something, and a wait at once
			o := 1 + rnd.Intn(len(w.objs))
			p, ok := w.randomWrite(rnd, o, focus)
			if rnd.Intn(3) == 0 && o > 1 {
				p, ok = storeOp{K: "AddRoot", O: o}, true
				if w.roots[o] {
					p.K = "RemoveRoot"
				}
			}
			if ok {
				w.logged(l, p)
				wait(o * rnd.Intn(2))
			}
		case k == 1:
			w.logged(l, storeOp{K: "BadQuery", O: 1})
		case k == 2 && rnd.Intn(4) == 0:
			// closed and opened again
			Enter(M{"reopen": w.path})
			if err := w.store.Close(); err != nil {
				return err
			}
			l.emit(M{"ev": "wait", "o": 0, "err": "", "failed": true})
			if err := w.open(); err != nil {
				return err
			}
			if err := w.find(); err != nil {
				return err
			}
			Leave()
		default:
			if p, ok := w.randomWrite(rnd, 1+rnd.Intn(len(w.objs)), focus); ok {
				w.logged(l, p)
			}
		}
	}
	l.kill()
	return nil
}

type logLine struct {
	Ev     string
	Op     json.RawMessage
	O      int
	Err    string
	Failed bool
}

func killed(err error) bool {
	var e *exec.ExitError
	if !errors.As(err, &e) {
		return false
	}
	s, ok := e.Sys().(syscall.WaitStatus)
	return ok && s.Signaled() && s.Signal() == syscall.SIGKILL
}

func crashHistory(c *Config, t *Trace, seed int64, dir string) error {
	rnd := rand.New(rand.NewSource(seed + 1))
	logPath := filepath.Join(dir, "log")
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	ln := c.Len/4 + rnd.Intn(c.Len)
	// the moment: once so many lines are logged, maybe a bit later
	lines := rnd.Intn(ln + 12)
	if rnd.Intn(6) > 0 && lines < 12 {
		lines += 12
	}
	mode := []string{"", "any", "wait", "timer", "timer"}[rnd.Intn(5)]
	if mode == "timer" {
		ln *= 10
	}
	cmd := exec.Command(exe, "crashchild", "-seed", strconv.FormatInt(seed, 10), "-len", strconv.Itoa(ln), "-out", logPath, "-tmp", dir,
		"-n", strconv.Itoa(lines), "-mode", mode)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	died := make(chan error, 1)
	go func() { died <- cmd.Wait() }()
	later := time.Duration(rnd.Intn(2)*rnd.Intn(1500)) * time.Microsecond
	if lines < 2 {
		later *= 20 // while the store is being opened
	}
	deadline := time.Now().Add(30 * time.Second)
	var childErr error
	dead := false
	for !dead {
		b, _ := os.ReadFile(logPath)
		n := bytes.Count(b, []byte("\n"))
		if (mode == "" && n >= lines) || time.Now().After(deadline) {
			time.Sleep(later)
			break
		}
		select {
		case childErr = <-died:
			dead = true
		case <-time.After(100 * time.Microsecond):
		}
	}
	if !dead {
		cmd.Process.Kill()
		<-died
	} else if !killed(childErr) {
		// it ended by itself
		os.Stderr.Write(stderr.Bytes())
		t.Emit(M{"ev": "hang", "child": fmt.Sprint(childErr)})
		t.Close()
		os.Exit(2)
	}

	// the history up to the kill
	w, _ := crashWorld(seed, dir)
	b, err := os.ReadFile(logPath)
	if err != nil {
		b = nil
	}
	var events []M
	main, waits := false, 0
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var e logLine
		if json.Unmarshal(sc.Bytes(), &e) != nil {
			break
		}
		switch e.Ev {
		case "main":
			main = true
		case "issue":
			var p storeOp
			if err := json.Unmarshal(e.Op, &p); err != nil {
				return err
			}
			w.note(p)
			events = append(events, M{"ev": "issue", "op": p.json()})
		case "wait":
			waits++
			events = append(events, M{"ev": "acked", "o": e.O, "err": e.Err, "failed": e.Failed})
		}
	}
	if !main {
		// the store can be used whatever is left of it
		w, _ = crashWorld(seed, dir)
		t.Emit(M{"ev": "reset", "v": w.v, "own": w.own, "path": "s.sqlite", "mem": false})
		Enter(M{"open": w.path})
		err := w.open()
		Leave()
		e := M{"ev": "wait", "o": -1, "err": "", "failed": false}
		if err != nil {
			e["err"] = "opening after a kill: " + err.Error()
		}
		t.Emit(e)
		if err != nil {
			return nil
		}
		w.do(t, storeOp{K: "AddRoot", O: 1})
	} else {
		w0, _ := crashWorld(seed, dir)
		t.Emit(M{"ev": "reset", "v": w0.v, "own": w.own, "path": "s.sqlite", "mem": false})
		t.Emit(M{"ev": "watch"})
		for _, e := range events {
			t.Emit(e)
		}
		if !w.reopen(t, false) {
			return nil
		}
		e, missing := M{"ev": "cut"}, 0
		cont := [][]int{}
		for o := range w.objs {
			for f, ft := range w.m.feats {
				if !w.has(o+1, f+1) {
					continue
				}
				k := "Get"
				if ft.Many {
					k = "All"
				}
				ret, _ := w.call(storeOp{K: k, O: o + 1, F: f + 1})
				if fmt.Sprint(w.v[o][f]) != fmt.Sprint(ret) {
					missing++
				}
				w.v[o][f] = append([]int{}, ret...)
			}
			ret, _ := w.call(storeOp{K: "GetContainer", O: o + 1})
			cont = append(cont, ret)
		}
		roots, _ := w.call(storeOp{K: "GetRoots", O: 1})
		e["missing"] = missing // features without the last operations issued
		e["v"], e["cont"], e["roots"] = w.v, cont, roots
		t.Emit(e)
		w.roots = map[int]bool{}
		for _, o := range roots {
			w.roots[o] = true
		}
		w.nall = len(w.store.ToArray(w.objs[0], w.m.all))
	}
	// and used further
	for i := 0; i < 6; i++ {
		if p, ok := w.randomWrite(rnd, 1+rnd.Intn(len(w.objs)), 0); ok && w.known[p.O-1] && (main || p.F == 0 || !w.m.feats[p.F-1].Ref) {
			w.do(t, p)
		}
	}
	w.wait(t, 0)
	if main {
		if !w.reopen(t, true) {
			return nil
		}
	}
	for o := range w.objs {
		if w.known[o] {
			for _, p := range w.reads(o+1, rnd, false) {
				w.do(t, p)
			}
		}
	}
	Enter(M{"close": w.path})
	defer Leave()
	return w.store.Close()
}

func runCrash(c *Config) error {
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "m": newStoreModel(false).json()})
	for h := 0; h < c.N; h++ {
		if h%c.Shards != c.Shard {
			continue
		}
		dir, err := os.MkdirTemp(c.Tmp, "crash")
		if err != nil {
			return err
		}
		if err := crashHistory(c, t, c.Seed+int64(h)*104729, dir); err != nil {
			return err
		}
		os.RemoveAll(dir)
	}
	return nil
}

func init() { scenarios["crash"], scenarios["crashchild"] = runCrash, runCrashChild }
