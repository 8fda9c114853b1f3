package main

import (
	"fmt"
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// Scenario "meta": edits of classes, features, operations and a package,
// interleaved with reads of the derived views.
// Numbers: classes 1.., features 11.., operations 31.., none 0.

type mworld struct {
	pkg   ecore.EPackage
	cls   []ecore.EClass
	feats []ecore.EStructuralFeature
	ops   []ecore.EOperation
	num   map[any]int
}

var mnames = []string{"", "a", "b", "c", "d"}

func newMWorld(rnd *rand.Rand) *mworld {
	w := &mworld{num: map[any]int{}}
	f := ecore.GetFactory()
	w.pkg = f.CreateEPackage()
	for i := 0; i < 4; i++ {
		c := f.CreateEClass()
		c.SetName(mnames[1+rnd.Intn(3)])
		w.cls = append(w.cls, c)
		w.num[c] = 1 + i
	}
	for i := 0; i < 7; i++ {
		var x ecore.EStructuralFeature
		if i < 3 {
			a := f.CreateEAttribute()
			a.SetEType(ecore.GetPackage().GetEString())
			x = a
		} else {
			r := f.CreateEReference()
			r.SetEType(w.cls[rnd.Intn(4)])
			x = r
		}
		x.SetName(mnames[1+rnd.Intn(4)])
		w.feats = append(w.feats, x)
		w.num[x] = 11 + i
	}
	for i := 0; i < 4; i++ {
		o := f.CreateEOperation()
		o.SetName(mnames[1+rnd.Intn(2)])
		w.ops = append(w.ops, o)
		w.num[o] = 31 + i
	}
	return w
}

func (w *mworld) seq(l ecore.EList) []int {
	r := []int{}
	for it := l.Iterator(); it.HasNext(); {
		r = append(r, w.of(it.Next()))
	}
	return r
}

func (w *mworld) of(x any) int {
	if x == nil {
		return 0
	}
	if n, ok := w.num[x]; ok {
		return n
	}
	return 99
}

func nameNum(s string) int {
	for i, n := range mnames {
		if n == s {
			return i
		}
	}
	return 99
}

var mviews = []string{"super", "feats", "attrs", "refs", "conts", "xrefs", "ops", "own", "cf", "id", "name", "num", "count", "over", "is"}

func (w *mworld) read(c ecore.EClass, k string) any {
	switch k {
	case "super":
		return w.seq(c.GetEAllSuperTypes())
	case "feats":
		return w.seq(c.GetEAllStructuralFeatures())
	case "attrs":
		return w.seq(c.GetEAllAttributes())
	case "refs":
		return w.seq(c.GetEAllReferences())
	case "conts":
		return w.seq(c.GetEAllContainments())
	case "xrefs":
		return w.seq(c.GetEAllCrossReferences())
	case "ops":
		return w.seq(c.GetEAllOperations())
	case "own":
		return [][]int{w.seq(c.GetEAttributes()), w.seq(c.GetEReferences())}
	case "cf":
		return [][]int{w.seq(c.GetEContainmentFeatures()), w.seq(c.GetECrossReferenceFeatures())}
	case "id":
		if a := c.GetEIDAttribute(); a != nil {
			return w.of(a)
		}
		return 0
	case "name":
		r := []int{}
		for _, n := range mnames[1:] {
			if x := c.GetEStructuralFeatureFromName(n); x != nil {
				r = append(r, w.of(x))
			} else {
				r = append(r, 0)
			}
		}
		return r
	case "num":
		r := []int{}
		for _, f := range w.feats {
			r = append(r, c.GetFeatureID(f))
		}
		q := []int{}
		for _, o := range w.ops {
			q = append(q, c.GetOperationID(o))
		}
		return [][]int{r, q}
	case "count":
		at := []int{}
		for i := -1; i <= c.GetFeatureCount(); i++ {
			if x := c.GetEStructuralFeature(i); x != nil {
				at = append(at, w.of(x))
			} else {
				at = append(at, 0)
			}
		}
		oat := []int{}
		for i := -1; i <= c.GetOperationCount(); i++ {
			if x := c.GetEOperation(i); x != nil {
				oat = append(oat, w.of(x))
			} else {
				oat = append(oat, 0)
			}
		}
		return [][]int{at, oat}
	case "over":
		r := []int{}
		for _, o := range w.ops {
			if x := c.GetOverride(o); x != nil {
				r = append(r, w.of(x))
			} else {
				r = append(r, 0)
			}
		}
		return r
	case "is":
		r := []bool{}
		for _, d := range w.cls {
			r = append(r, c.IsSuperTypeOf(d))
		}
		return r
	}
	panic(k)
}

func (w *mworld) state() M {
	sup, own, ops, name, fname, id, cont, der, op, oname, typ := [][]int{}, [][]int{}, [][]int{}, []int{}, []int{}, []bool{}, []bool{}, []bool{}, []int{}, []int{}, []int{}
	for _, c := range w.cls {
		sup = append(sup, w.seq(c.GetESuperTypes()))
		own = append(own, w.seq(c.GetEStructuralFeatures()))
		ops = append(ops, w.seq(c.GetEOperations()))
		name = append(name, nameNum(c.GetName()))
	}
	for _, f := range w.feats {
		fname = append(fname, nameNum(f.GetName()))
		der = append(der, f.IsDerived())
		a, _ := f.(ecore.EAttribute)
		r, _ := f.(ecore.EReference)
		id = append(id, a != nil && a.IsID())
		cont = append(cont, r != nil && r.IsContainment())
		if r != nil && r.GetEOpposite() != nil {
			op = append(op, w.of(r.GetEOpposite()))
		} else {
			op = append(op, 0)
		}
		if r != nil {
			typ = append(typ, w.of(r.GetEReferenceType()))
		} else {
			typ = append(typ, 0)
		}
	}
	for _, o := range w.ops {
		oname = append(oname, nameNum(o.GetName()))
	}
	return M{"sup": sup, "own": own, "ops": ops, "name": name, "fname": fname, "id": id, "cont": cont, "der": der, "opp": op, "oname": oname, "typ": typ, "pkg": w.seq(w.pkg.GetEClassifiers())}
}

func (w *mworld) views(rnd *rand.Rand) []M {
	r := []M{}
	all := rnd.Intn(2) == 0
	for _, c := range w.cls {
		m := M{"z": 0}
		for _, k := range rnd.Perm(len(mviews)) {
			if all || rnd.Intn(4) == 0 {
				m[mviews[k]] = w.read(c, mviews[k])
			}
		}
		r = append(r, m)
	}
	return r
}

func (w *mworld) lookup() []int {
	r := []int{}
	for _, n := range mnames[1:] {
		if x := w.pkg.GetEClassifier(n); x != nil {
			r = append(r, w.of(x))
		} else {
			r = append(r, 0)
		}
	}
	return r
}

func (w *mworld) isSuper(x, c int) bool { // c reaches x
	if x == c {
		return true
	}
	for _, s := range w.seq(w.cls[c-1].GetESuperTypes()) {
		if w.isSuper(x, s) {
			return true
		}
	}
	return false
}

func (w *mworld) obj(n int) any {
	switch {
	case n < 10:
		return w.cls[n-1]
	case n < 30:
		return w.feats[n-11]
	}
	return w.ops[n-31]
}

func (w *mworld) apply(p op) (ret int, msg string) {
	defer func() {
		if e := recover(); e != nil {
			ret, msg = PANIC, fmt.Sprint(e)
		}
	}()
	b := p.I != 0
	switch p.K {
	case "FName":
		w.feats[p.O-11].SetName(mnames[p.I])
	case "OName":
		w.ops[p.O-31].SetName(mnames[p.I])
	case "CName":
		w.cls[p.O-1].SetName(mnames[p.I])
	case "ID":
		w.feats[p.O-11].(ecore.EAttribute).SetID(b)
	case "Cont":
		w.feats[p.O-11].(ecore.EReference).SetContainment(b)
	case "Der":
		w.feats[p.O-11].SetDerived(b)
	case "Opp":
		r := w.feats[p.O-11].(ecore.EReference)
		s := w.feats[p.J-11].(ecore.EReference)
		if b {
			r.SetEOpposite(s)
			s.SetEOpposite(r)
		} else {
			r.SetEOpposite(nil)
			s.SetEOpposite(nil)
		}
	case "Type":
		w.feats[p.O-11].SetEType(w.cls[p.I-1])
	default:
		var l ecore.EList
		switch p.F {
		case "sup":
			l = w.cls[p.O-1].GetESuperTypes()
		case "own":
			l = w.cls[p.O-1].GetEStructuralFeatures()
		case "ops":
			l = w.cls[p.O-1].GetEOperations()
		case "pkg":
			l = w.pkg.GetEClassifiers()
		}
		xs := []any{}
		for _, x := range p.X {
			xs = append(xs, w.obj(x))
		}
		switch p.K {
		case "Add":
			return b2i(l.Add(xs[0])), ""
		case "Insert":
			return b2i(l.Insert(p.I, xs[0])), ""
		case "AddAll":
			return b2i(l.AddAll(ecore.NewImmutableEList(xs))), ""
		case "InsertAll":
			return b2i(l.InsertAll(p.I, ecore.NewImmutableEList(xs))), ""
		case "Remove":
			return b2i(l.Remove(xs[0])), ""
		case "RemoveAt":
			return w.of(l.RemoveAt(p.I)), ""
		case "RemoveRange":
			l.RemoveRange(p.I, p.J)
		case "RemoveAll":
			return b2i(l.RemoveAll(ecore.NewImmutableEList(xs))), ""
		case "Set":
			return w.of(l.Set(p.I, xs[0])), ""
		case "Move":
			return w.of(l.Move(p.I, p.J)), ""
		case "MoveObject":
			l.MoveObject(p.I, xs[0])
		case "Clear":
			l.Clear()
		}
	}
	return 0, ""
}

func (w *mworld) randomOp(rnd *rand.Rand) (op, bool) {
	g := &world{}
	c := 1 + rnd.Intn(4)
	refs := []int{14, 15, 16, 17}
	switch k := rnd.Intn(20); k {
	case 0, 1:
		return op{K: "FName", O: 11 + rnd.Intn(7), I: 1 + rnd.Intn(4), X: []int{}}, true
	case 2:
		return op{K: "OName", O: 31 + rnd.Intn(4), I: 1 + rnd.Intn(2), X: []int{}}, true
	case 3:
		return op{K: "CName", O: c, I: 1 + rnd.Intn(3), X: []int{}}, true
	case 4:
		return op{K: "ID", O: 11 + rnd.Intn(3), I: rnd.Intn(2), X: []int{}}, true
	case 5:
		r := w.feats[refs[rnd.Intn(4)]-11].(ecore.EReference)
		if o := r.GetEOpposite(); o != nil && o.IsContainment() {
			return op{}, false
		}
		return op{K: "Cont", O: w.of(r), I: rnd.Intn(2), X: []int{}}, true
	case 6:
		return op{K: "Der", O: refs[rnd.Intn(4)], I: rnd.Intn(2), X: []int{}}, true
	case 7:
		a := 14 + 2*rnd.Intn(2)
		r, s := w.feats[a-11].(ecore.EReference), w.feats[a-10].(ecore.EReference)
		if r.IsContainment() && s.IsContainment() {
			return op{}, false
		}
		return op{K: "Opp", O: a, J: a + 1, I: rnd.Intn(2), X: []int{}}, true
	case 8:
		return op{K: "Type", O: refs[rnd.Intn(4)], I: c, X: []int{}}, true
	case 9, 10:
		cur := w.seq(w.pkg.GetEClassifiers())
		return w.small(g.randomListOp(rnd, op{F: "pkg"}, len(cur), []int{1, 2, 3, 4}, cur))
	case 11, 12, 13, 14:
		cands := []int{}
		for x := 1; x <= 4; x++ {
			if !w.isSuper(c, x) {
				cands = append(cands, x)
			}
		}
		cur := w.seq(w.cls[c-1].GetESuperTypes())
		return w.small(g.randomListOp(rnd, op{O: c, F: "sup"}, len(cur), cands, cur))
	case 15, 16, 17:
		cur := w.seq(w.cls[c-1].GetEStructuralFeatures())
		return g.randomListOp(rnd, op{O: c, F: "own"}, len(cur), []int{11, 12, 13, 14, 15, 16, 17}, cur)
	default:
		cur := w.seq(w.cls[c-1].GetEOperations())
		return g.randomListOp(rnd, op{O: c, F: "ops"}, len(cur), []int{31, 32, 33, 34}, cur)
	}
}

func (w *mworld) small(p op, ok bool) (op, bool) { return p, ok }

func runMeta(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "facets": facets()})
	for h := 0; h < c.N; h++ {
		w := newMWorld(rnd)
		t.Emit(M{"ev": "reset", "obs": w.state(), "views": w.views(rnd), "lookup": w.lookup()})
		for i := 0; i < c.Len; i++ {
			p, ok := w.randomOp(rnd)
			if !ok {
				continue
			}
			Enter(p.json())
			ret, msg := w.apply(p)
			vs := w.views(rnd)
			Leave()
			t.Emit(M{"ev": "op", "op": p.json(), "ret": ret, "msg": msg, "obs": w.state(), "views": vs, "lookup": w.lookup()})
		}
	}
	return nil
}

func init() { scenarios["meta"] = runMeta }
