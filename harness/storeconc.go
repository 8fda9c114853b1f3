package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"zombiezen.com/go/sqlite"
	"zombiezen.com/go/sqlite/sqlitex"
)

// storeconc: several callers of a database store, failing operations, and what
// is in the database file once a wait has returned.

// fileQuery: queries of a database file
func fileQuery(path string) func(string, *sqlitex.ExecOptions) error {
	return func(query string, opts *sqlitex.ExecOptions) error {
		conn, err := sqlite.OpenConn(path, sqlite.OpenReadOnly)
		if err != nil {
			return err
		}
		defer conn.Close()
		return sqlitex.ExecuteTransient(conn, query, opts)
	}
}

// disk: the value of a feature, read with a query of the database
func (w *storeWorld) disk(o, f int, execute func(string, *sqlitex.ExecOptions) error) (ret []int, err error) {
	ft := w.m.feats[f-1]
	class := strings.ToLower(ft.F.GetEContainingClass().GetName())
	column := strings.ToLower(ft.F.GetName())
	id := fmt.Sprintf("(SELECT nodeID FROM node WHERE tag=%d)", o)
	query := fmt.Sprintf(`SELECT "%s" FROM "%s" WHERE "%sID" IN %s`, column, class, class, id)
	if ft.Many {
		query = fmt.Sprintf(`SELECT "%s" FROM "%s_%s" WHERE "%sID" IN %s ORDER BY idx`, column, class, column, class, id)
	}
	ret = []int{}
	err = execute(query, &sqlitex.ExecOptions{ResultFunc: func(stmt *sqlite.Stmt) error {
		x := 91
		for i, v := range ft.Vals {
			if stmt.ColumnText(0) == fmt.Sprint(v) {
				x = i
			}
		}
		if stmt.ColumnType(0) == sqlite.TypeNull && !ft.Many {
			x = 0
		}
		ret = append(ret, x)
		return nil
	}})
	if !ft.Many && len(ret) == 0 {
		ret = []int{0}
	}
	return ret, err
}

// features whose values can be told from the columns of the database
func (w *storeWorld) plainFeats(many bool) (r []int) {
	for f, ft := range w.m.feats {
		if ft.Ref || ft.Many != many {
			continue
		}
		n := ft.F.GetName()
		if n == "label" || n == "words" || n == "num" || n == "nums" || n == "dnum" || n == "dtext" {
			r = append(r, f+1)
		}
	}
	return
}

type storeConc struct {
	w  *storeWorld
	t  *Trace
	mu sync.Mutex
	n0 map[[2]int]int // elements of the lists at the start of the round
	rm map[[2]int]int // elements removed in the round
}

func (c *storeConc) emit(e M) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.t.Emit(e)
}

func (c *storeConc) run(k int, p storeOp) {
	c.emit(M{"ev": "call", "c": k, "op": p.json()})
	ret, msg := c.w.call(p)
	c.emit(M{"ev": "return", "c": k, "ret": ret, "msg": msg})
}

// op: an operation that is valid whatever the others do
func (c *storeConc) op(rnd *rand.Rand, os, fs []int) (p storeOp, ok bool) {
	w := c.w
	p = storeOp{O: os[rnd.Intn(len(os))], F: fs[rnd.Intn(len(fs))]}
	if !w.has(p.O, p.F) {
		return p, false
	}
	f := w.m.feats[p.F-1]
	if rnd.Intn(16) == 0 {
		p.F = 0
		switch rnd.Intn(4) {
		case 0:
			p.K = "GetRoots"
		case 1:
			p.K = "GetContainer"
		case 2:
			p.K = "SetContainer"
			if rnd.Intn(4) > 0 {
				p.I = os[rnd.Intn(len(os))]
				for i, ft := range w.m.feats {
					if ft.F.GetName() == []string{"own", "kids"}[rnd.Intn(2)] {
						p.F = i + 1
					}
				}
				return p, p.I != p.O && p.F > 0
			}
		default:
			p.K = "BadQuery"
		}
		return p, true
	}
	x := w.pickValue(rnd, f, true)
	if f.Ref && !f.Many && rnd.Intn(4) == 0 {
		x = 0
	}
	p.X = []int{x}
	if !f.Many {
		switch k := rnd.Intn(12); {
		case k < 5:
			p.K, p.R = "Set", rnd.Intn(2) == 0
		case k == 5:
			p.K, p.X = "UnSet", nil
		case k == 6:
			p.K, p.X = "IsSet", nil
		default:
			p.K, p.X = "Get", nil
		}
		return p, true
	}
	key := [2]int{p.O, p.F}
	least := c.n0[key] - 2 // indexes below are always valid: at most 2 removals in a round
	switch k := rnd.Intn(16); {
	case k < 3 && !f.Ref:
		p.K = "Add"
		p.I = rnd.Intn(least + 1)
	case k < 5 && !f.Ref:
		p.K, p.I = "AddAll", rnd.Intn(least+1)
		for i := rnd.Intn(3); i > 0; i-- {
			p.X = append(p.X, w.pickValue(rnd, f, true))
		}
	case k < 7 && c.rm[key] < 2:
		c.rm[key]++
		p.K, p.I, p.X, p.R = "Remove", 0, nil, rnd.Intn(2) == 0
		if least > 0 {
			p.I = rnd.Intn(least)
		}
	case k < 9 && least > 1:
		p.K, p.I, p.J, p.X, p.R = "Move", rnd.Intn(least), rnd.Intn(least), nil, rnd.Intn(2) == 0
	case k == 9 && least > 0 && !f.Ref:
		p.K, p.I, p.R = "Set", rnd.Intn(least), rnd.Intn(2) == 0
	case k == 10 && least > 0:
		p.K, p.I, p.X = "At", rnd.Intn(least), nil
	case k == 11:
		p.K, p.X = "Size", nil
	case k == 12:
		p.K = "Contains"
	case k == 13:
		p.K = []string{"IndexOf", "LastIndexOf"}[rnd.Intn(2)]
	case k == 14 && rnd.Intn(2) == 0:
		p.K, p.I = "BadAdd", 1000
	default:
		p.K, p.X = "All", nil
	}
	return p, true
}

func runStoreConc(c *Config) error {
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "m": newStoreModel(false).json()})
	for h := 0; h < c.N; h++ {
		if h%c.Shards != c.Shard {
			continue
		}
		rnd := rand.New(rand.NewSource(c.Seed + int64(h)*104729))
		dir, err := os.MkdirTemp(c.Tmp, "storeconc")
		if err != nil {
			return err
		}
		w := newStoreWorld(rnd, dir, 3+rnd.Intn(3), c.Mode)
		if err := w.open(); err != nil {
			return err
		}
		if c.Mode == "disk" {
			storeDisk(c, t, w, rnd)
		} else {
			storeRounds(c, t, w, rnd)
		}
		Enter(M{"close": filepath.Base(w.path)})
		w.store.Close()
		Leave()
		os.RemoveAll(dir)
	}
	return nil
}

// storeRounds: rounds of several callers
func storeRounds(c *Config, t *Trace, w *storeWorld, rnd *rand.Rand) {
	w.prelude(t, rnd)
	for o := 2; o <= len(w.objs); o++ {
		w.do(t, storeOp{K: "SetContainer", O: o})
	}
	w.stored()
	if rnd.Intn(3) == 0 {
		w.wait(t, 0)
		w.reopen(t, true)
	}
	sc := &storeConc{w: w, t: t}
	sc.n0 = map[[2]int]int{}
	os := []int{1, 2, 3}[:2+rnd.Intn(2)]
	fs := rnd.Perm(len(w.m.feats))[:2+rnd.Intn(2)]
	for i := range fs {
		fs[i]++
	}
	for _, o := range os {
		for _, f := range fs {
			ft := w.m.feats[f-1]
			if !ft.Many || !w.has(o, f) {
				continue
			}
			n := 3
			if ft.Ref {
				n = len(w.objs)
			}
			if w.v[o-1][f-1] = []int{}; true {
				w.do(t, storeOp{K: "Clear", O: o, F: f})
			}
			for i := 0; i < n; i++ {
				x := i + 1
				if !ft.Ref {
					x = w.norm(ft, rnd.Intn(len(ft.Vals)))
				}
				w.do(t, storeOp{K: "Add", O: o, F: f, I: i, X: []int{x}})
			}
			sc.n0[[2]int{o, f}] = n
		}
	}
	sc.rm = map[[2]int]int{}
	t.Emit(M{"ev": "fork"})
	callers := 2 + rnd.Intn(3)
	progs := make([][]storeOp, callers)
	for k := range progs {
		for i := 0; i < 2+rnd.Intn(5); i++ {
			if p, ok := sc.op(rnd, os, fs); ok {
				progs[k] = append(progs[k], p)
			}
		}
	}
	Enter(M{"callers": callers})
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k, prog := range progs {
		wg.Add(1)
		waits := rnd.Intn(4) == 0
		go func() {
			defer wg.Done()
			<-start
			for i, p := range prog {
				sc.run(k+1, p)
				if waits && i == len(prog)/2 {
					w.store.WaitOperations(context.Background(), w.objs[p.O-1])
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, o := range os {
		for _, f := range fs {
			if w.has(o, f) {
				k := "Get"
				if w.m.feats[f-1].Many {
					k = "All"
				}
				sc.run(1, storeOp{K: k, O: o, F: f})
			}
		}
		sc.run(1, storeOp{K: "GetContainer", O: o})
	}
	Leave()
}

// storeDisk: writes are made without waiting, some of them fail; after a wait, the
// database file has the values of the object that was waited for
func storeDisk(c *Config, t *Trace, w *storeWorld, rnd *rand.Rand) {
	w.prelude(t, rnd)
	for o := 2; o <= len(w.objs); o++ {
		w.do(t, storeOp{K: "SetContainer", O: o})
	}
	w.stored()
	w.wait(t, 0)
	single, many := w.plainFeats(false), w.plainFeats(true)
	for step := 0; step < c.Len; step++ {
		for i := rnd.Intn(12); i > 0; i-- {
			o := 1 + rnd.Intn(len(w.objs))
			p, ok := storeOp{}, false
			if rnd.Intn(12) == 0 {
				p = storeOp{K: "BadAdd", O: o, F: many[rnd.Intn(len(many))], I: 1000, X: []int{0}}
				if rnd.Intn(3) == 0 {
					p = storeOp{K: "BadQuery", O: o}
				}
				ok = true
			} else if w.own && rnd.Intn(10) == 0 {
				p, ok = storeOp{K: "UnRegister", O: o}, true
			} else {
				p, ok = w.randomWrite(rnd, o, append(single, many...)[rnd.Intn(len(single)+len(many))])
				p.R = false
			}
			if ok && p.K != "AddRoot" && p.K != "RemoveRoot" {
				w.do(t, p)
			}
		}
		o := rnd.Intn(len(w.objs) + 1)
		forget := rnd.Intn(6) == 0
		if forget {
			// these objects aren't used any more until the store is opened again
			for x := range w.objs {
				if rnd.Intn(2) == 0 {
					for i := rnd.Intn(6); i > 0; i-- {
						if p, ok := w.randomWrite(rnd, x+1, many[rnd.Intn(len(many))]); ok && p.F > 0 && p.K != "SetContainer" && !w.m.feats[p.F-1].Ref {
							p.R = false
							w.do(t, p)
						}
					}
					w.store.UnRegister(w.objs[x], false)
				}
			}
			o = 0
		}
		// the file, a query ordered with the operations or an image of the whole database
		execute := fileQuery(w.path)
		switch k := rnd.Intn(4); {
		case k == 0:
			execute = func(query string, opts *sqlitex.ExecOptions) error {
				return w.store.ExecuteQuery(context.Background(), query, opts)
			}
		case k == 1:
			Enter(M{"serialize": filepath.Base(w.path)})
			b, err := w.store.Serialize(context.Background()).Await(context.Background())
			Leave()
			image := filepath.Join(filepath.Dir(w.path), "image.sqlite")
			if err == nil {
				err = os.WriteFile(image, *b, 0o600)
			}
			if err != nil {
				t.Emit(M{"ev": "wait", "o": 0, "err": "serialize: " + err.Error(), "failed": false})
				return
			}
			execute, o = fileQuery(image), 0
		default:
			w.wait(t, o)
		}
		for p := 1; p <= len(w.objs); p++ {
			if o == 0 || o == p {
				for _, f := range append(append([]int{}, single...), many...) {
					ret, err := w.disk(p, f, execute)
					e := M{"ev": "disk", "o": p, "f": f, "ret": ret, "err": ""}
					if err != nil {
						e["err"], e["ret"] = err.Error(), []int{}
					}
					t.Emit(e)
				}
			}
		}
		if forget {
			w.wait(t, 0)
			if !w.reopen(t, true) {
				return
			}
		}
	}
}

func init() { scenarios["storeconc"] = runStoreConc }
