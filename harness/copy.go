package main

import (
	"fmt"
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// copy: deep copies and deep equality of object graphs, with edits of the
// originals and of the copies in between.

const maxCopyObjs = 26

type copyWorld struct {
	*world
	of map[int]int // object to its last copy
	px map[int]int // unresolvable proxies
}

func (w *copyWorld) look() M {
	vals, cont, cls, px := []M{}, []int{}, []string{}, []int{}
	for i, o := range w.objs {
		v := M{}
		for _, f := range w.feats[i] {
			if f.Attr && !o.EIsSet(f.F) {
				v[f.Name] = []int{} // and not the default value
			} else {
				v[f.Name] = w.seq(w.get(o, f))
			}
		}
		vals = append(vals, v)
		c := 0
		if p := o.EContainer(); p != nil {
			c = w.id(p)
		}
		cont = append(cont, c)
		cls = append(cls, o.EClass().GetName())
		n := 0
		if o.EIsProxy() {
			fmt.Sscanf(o.(ecore.EObjectInternal).EProxyURI().String(), "proxy:%d", &n)
		}
		px = append(px, n)
	}
	return M{"val": vals, "cont": cont, "cls": cls, "px": px}
}

func (w *copyWorld) setProxy(o, n int) {
	w.objs[o-1].(ecore.EObjectInternal).ESetProxyURI(ecore.NewURI(fmt.Sprintf("proxy:%d", n)))
}

// join registers what a copy made, in the order of its tree
func (w *copyWorld) join(x ecore.EObject, feats map[ecore.EClass][]*feat) {
	if _, known := w.ids[x]; known || x == nil {
		return
	}
	fs := feats[x.EClass()]
	w.reg(x, fs)
	for _, f := range fs {
		if f.Cont {
			switch v := w.get(x, f).(type) {
			case ecore.EList:
				for i := 0; i < v.Size(); i++ {
					w.join(v.Get(i).(ecore.EObject), feats)
				}
			case ecore.EObject:
				w.join(v, feats)
			}
		}
	}
}

func (w *copyWorld) tree(x int, m map[int]bool) []int {
	r := []int{x}
	m[x] = true
	for _, f := range w.feats[x-1] {
		if f.Cont {
			for _, k := range w.seq(w.get(w.objs[x-1], f)) {
				if k <= len(w.objs) {
					r = append(r, w.tree(k, m)...)
				}
			}
		}
	}
	return r
}

// guarded runs f, reporting a panic
func guarded(f func()) (msg string) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprint("panic: ", x)
		}
	}()
	f()
	return ""
}

func (w *copyWorld) copy(t *Trace, rnd *rand.Rand) bool {
	feats := map[ecore.EClass][]*feat{}
	for i, o := range w.objs {
		feats[o.EClass()] = w.feats[i]
	}
	roots, below, size := []int{}, map[int]bool{}, 0
	n := 1 + rnd.Intn(2)
	for try := 0; try < 8 && len(roots) < n; try++ {
		x := 1 + rnd.Intn(len(w.objs))
		if try < 4 && w.objs[x-1].EContainer() != nil && rnd.Intn(2) == 0 {
			continue
		}
		mine := map[int]bool{}
		q := w.tree(x, mine)
		clash := below[x]
		for _, r := range roots {
			clash = clash || mine[r]
		}
		if clash || size+len(q) > maxCopyObjs-len(w.objs) {
			continue
		}
		size += len(q)
		roots = append(roots, x)
		for k := range mine {
			below[k] = true
		}
	}
	if len(roots) == 0 {
		return false
	}
	all := len(roots) != 1 || rnd.Intn(2) == 0
	e := M{"ev": "copy", "roots": roots, "all": all, "new": []int{}}
	Enter(e)
	defer Leave()
	before := len(w.objs)
	src := []int{}
	for _, r := range roots {
		src = append(src, w.tree(r, map[int]bool{})...)
	}
	msg := guarded(func() {
		res := []ecore.EObject{}
		if all {
			l := []any{}
			for _, r := range roots {
				l = append(l, w.objs[r-1])
			}
			c := ecore.CopyAll(ecore.NewImmutableEList(l))
			for i := 0; i < c.Size(); i++ {
				o, _ := c.Get(i).(ecore.EObject)
				res = append(res, o)
			}
		} else {
			res = append(res, ecore.Copy(w.objs[roots[0]-1]))
		}
		ids := []int{}
		for _, o := range res {
			w.join(o, feats)
			ids = append(ids, w.id(o))
		}
		e["new"] = ids
		e["obs"] = w.look()
	})
	if msg != "" {
		t.Emit(M{"ev": "hang", "what": e, "why": msg})
		return false
	}
	if len(w.objs)-before == len(src) {
		w.of = map[int]int{}
		for i, x := range src {
			w.of[x] = before + 1 + i
		}
	}
	t.Emit(e)
	return true
}

func (w *copyWorld) eq(t *Trace, rnd *rand.Rand) bool {
	pair := func() (int, int) {
		a := 1 + rnd.Intn(len(w.objs))
		b := 1 + rnd.Intn(len(w.objs))
		if len(w.of) > 0 && rnd.Intn(8) > 0 {
			for try := 0; try < 5; try++ {
				if c := w.of[a]; c != 0 {
					b = c
					if rnd.Intn(3) == 0 {
						a, b = b, a
					}
					break
				}
				a = 1 + rnd.Intn(len(w.objs))
			}
		}
		return a, b
	}
	a, b := []int{}, []int{}
	all := rnd.Intn(4) == 0
	n := 1
	if all {
		n = rnd.Intn(4)
	}
	for i := 0; i < n; i++ {
		x, y := pair()
		a, b = append(a, x), append(b, y)
	}
	if all && n > 0 && rnd.Intn(6) == 0 {
		b = b[:n-1]
	}
	e := M{"ev": "eq", "a": a, "b": b, "all": all}
	Enter(e)
	defer Leave()
	msg := guarded(func() {
		var r bool
		if all {
			l := func(q []int) ecore.EList {
				x := []any{}
				for _, k := range q {
					x = append(x, w.objs[k-1])
				}
				return ecore.NewImmutableEList(x)
			}
			r = ecore.EqualsAll(l(a), l(b))
		} else {
			r = ecore.Equals(w.objs[a[0]-1], w.objs[b[0]-1])
		}
		e["got"] = r
		e["obs"] = w.look()
	})
	if msg != "" {
		t.Emit(M{"ev": "hang", "what": e, "why": msg})
		return false
	}
	t.Emit(e)
	return true
}

func (w *copyWorld) edit(t *Trace, p op) bool {
	Enter(p.json())
	defer Leave()
	w.apply(p)
	var obs M
	if msg := guarded(func() { obs = w.look() }); msg != "" {
		t.Emit(M{"ev": "hang", "what": p.json(), "why": msg})
		return false
	}
	t.Emit(M{"ev": "op", "op": p.json(), "obs": obs})
	return true
}

// mirrored is the edit of the copies that corresponds to an edit of the originals
func (w *copyWorld) mirrored(p op) (op, bool) {
	q := p
	q.O = w.of[p.O]
	q.X = []int{}
	for _, x := range p.X {
		if y := w.of[x]; y != 0 {
			x = y
		} else if x < 100 && w.all[p.F].Opp != "" || w.all[p.F].Cont {
			return p, false
		}
		q.X = append(q.X, x)
	}
	if q.O == 0 || p.K == "Batch" {
		return p, false
	}
	ok := map[int]bool{}
	for _, x := range w.candidates(q.O, w.all[p.F]) {
		ok[x] = true
	}
	for _, x := range q.X {
		if !ok[x] {
			return p, false
		}
	}
	return q, true
}

func copyModel(multi bool) *dynModel {
	m := newDynModel(multi, false)
	mkAttr(m.base, "dflt", false, true).SetDefaultValueLiteral("c")
	return m
}

func runCopy(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	for h := 0; h < c.N; h++ {
		w := &copyWorld{of: map[int]int{}, px: map[int]int{}}
		switch c.Mode {
		case "static":
			w.world = staticWorld()
		case "multi":
			w.world = dynWorldOf(copyModel(true), 3, 4)
		default:
			w.world = dynWorldOf(copyModel(false), 5, 3)
		}
		if h == 0 {
			cls := M{}
			for i, o := range w.objs {
				q := []string{}
				for _, f := range w.feats[i] {
					q = append(q, f.Name)
				}
				cls[o.EClass().GetName()] = q
			}
			t.Emit(M{"ev": "meta", "meta": w.meta(), "cls": cls, "facets": facets()})
		}
		if h%3 == 1 && c.Mode != "static" {
			for i := 1 + rnd.Intn(2); i > 0; i-- {
				w.setProxy(1+rnd.Intn(len(w.objs)), 1+rnd.Intn(2))
			}
		}
		t.Emit(M{"ev": "reset", "obs": w.look()})
		start := 12 + rnd.Intn(20)
		for i := 0; i < c.Len; {
			ok := true
			switch r := rnd.Intn(12); {
			case i >= start && r < 2 && len(w.objs) < maxCopyObjs && (len(w.of) == 0 || rnd.Intn(3) == 0):
				if !w.copy(t, rnd) {
					continue
				}
			case i >= start && r < 7:
				ok = w.eq(t, rnd)
			default:
				p, found := w.randomOp(rnd)
				if !found || p.K == "Deliver" || p.O < 0 {
					continue
				}
				q, both := op{}, false
				if len(w.of) > 0 && rnd.Intn(3) > 0 && p.F != "" {
					q, both = w.mirrored(p)
				}
				ok = w.edit(t, p)
				if ok && both {
					q, both = w.mirrored(p) // as things are now
				}
				if ok && both {
					ok = w.edit(t, q)
				}
			}
			if !ok {
				break
			}
			i++
		}
	}
	return nil
}

func init() { scenarios["copy"] = runCopy }
