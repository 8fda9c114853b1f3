package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	"github.com/masagroup/soft.go/ecore"
)

// store: the database store, through the EStore interface.

const storeNone = -1 // no value at all

type storeFeat struct {
	F    ecore.EStructuralFeature
	Many bool
	Ref  bool
	Uniq bool
	Vals []any // the values of an attribute, the default value first (single valued)
}

type storeModel struct {
	pkg   ecore.EPackage
	node  ecore.EClass
	sub   ecore.EClass
	tag   ecore.EAttribute
	all   ecore.EReference
	feats []*storeFeat
}

// an object with its own database identifier
type sqlNode struct {
	ecore.DynamicEObjectImpl
	id    int64
	store ecore.EStore
}

func newSQLNode() *sqlNode {
	o := new(sqlNode)
	o.SetInterfaces(o)
	o.Initialize()
	return o
}
func (o *sqlNode) SetSQLID(id int64)            { o.id = id }
func (o *sqlNode) GetSQLID() int64              { return o.id }
func (o *sqlNode) SetEStore(store ecore.EStore) { o.store = store }
func (o *sqlNode) GetEStore() ecore.EStore      { return o.store }

type sqlNodeFactory struct{ ecore.EFactoryExt }

func newSQLNodeFactory() *sqlNodeFactory {
	f := new(sqlNodeFactory)
	f.SetInterfaces(f)
	f.Initialize()
	return f
}

func (f *sqlNodeFactory) Create(c ecore.EClass) ecore.EObject {
	o := newSQLNode()
	o.SetEClass(c)
	return o
}

func newStoreModel(own bool) *storeModel {
	m := &storeModel{}
	f, p := ecore.GetFactory(), ecore.GetPackage()
	m.pkg = f.CreateEPackage()
	m.pkg.SetName("store")
	m.pkg.SetNsPrefix("s")
	m.pkg.SetNsURI("http://verif/store")
	if own {
		m.pkg.SetEFactoryInstance(newSQLNodeFactory())
	}
	color := f.CreateEEnum()
	color.SetName("Color")
	m.pkg.GetEClassifiers().Add(color)
	for i, n := range []string{"RED", "GREEN", "BLUE", "GREY"} {
		l := f.CreateEEnumLiteral()
		l.SetName(n)
		l.SetLiteral(n)
		l.SetValue(i)
		color.GetELiterals().Add(l)
	}
	class := func(name string, super ...ecore.EClass) ecore.EClass {
		c := f.CreateEClass()
		c.SetName(name)
		m.pkg.GetEClassifiers().Add(c)
		for _, s := range super {
			c.GetESuperTypes().Add(s)
		}
		return c
	}
	mixin := class("Mixin")
	mixin.SetAbstract(true)
	n := class("Node", mixin)
	m.node, m.sub = n, class("Sub", n)
	day := func(s int64) *time.Time { t := time.Unix(s, 5000).UTC(); return &t }
	attr := func(c ecore.EClass, name string, t ecore.EDataType, dflt string, vals ...any) {
		a := typedAttr(c, name, t, false)
		if dflt != "" {
			a.SetDefaultValueLiteral(dflt)
		}
		m.feats = append(m.feats, &storeFeat{F: a, Vals: vals})
	}
	attrs := func(c ecore.EClass, name string, t ecore.EDataType, vals ...any) {
		m.feats = append(m.feats, &storeFeat{F: typedAttr(c, name, t, true), Many: true, Vals: vals})
	}
	ref := func(c ecore.EClass, name string, many, cont bool) {
		m.feats = append(m.feats, &storeFeat{F: mkRef(c, name, n, many, cont, !cont), Many: many, Ref: true})
	}
	attr(mixin, "label", p.GetEString(), "", "", "x", "12", "1e3")
	attrs(mixin, "words", p.GetEString(), "", "a", "b'\"", "007")
	ref(mixin, "own", false, true)
	m.tag = typedAttr(n, "tag", p.GetEInt(), false)
	attr(n, "num", p.GetEInt(), "", 0, 1, -5, 1<<40)
	attr(n, "long", p.GetELong(), "", int64(0), int64(1), int64(-1), int64(1)<<62)
	attr(n, "small", p.GetEShort(), "", int16(0), int16(1), int16(-7), int16(300))
	attr(n, "flag", p.GetEBoolean(), "", false, true, true, true)
	attr(n, "dbl", p.GetEDouble(), "", 0.0, 1.5, -2e300, 3.0)
	attr(n, "flt", p.GetEFloat(), "", float32(0), float32(0.1), float32(-2e30), float32(3))
	attr(n, "color", color, "", 0, 1, 2, 3)
	attr(n, "day", p.GetEDate(), "", nil, day(0), day(1700000000), day(-5))
	attr(n, "dtext", p.GetEString(), "dd", "dd", "a", "", "b")
	attr(n, "dnum", p.GetEInt(), "7", 7, 0, 1, -1)
	attr(n, "dflag", p.GetEBoolean(), "true", true, false, false, false)
	attrs(n, "nums", p.GetEInt(), 0, 1, -5, 70)
	attrs(n, "colors", color, 0, 1, 2, 3)
	ref(n, "ref", false, false)
	ref(n, "refs", true, false)
	ref(n, "kids", true, true)
	ref(m.sub, "subref", false, false)
	ref(m.sub, "subkids", true, true)
	m.all = mkRef(n, "all", n, true, true, false)
	// what the metamodel computes on demand isn't the store's
	for _, f := range m.feats {
		f.F.GetDefaultValue()
	}
	for _, c := range []ecore.EClass{mixin, n, m.sub} {
		c.GetEAllStructuralFeatures()
		c.GetEAllSuperTypes()
	}
	return m
}

func (m *storeModel) json() M {
	many, ref := []bool{}, []bool{}
	for _, f := range m.feats {
		many, ref = append(many, f.Many), append(ref, f.Ref)
	}
	return M{"many": many, "ref": ref}
}

type storeOp struct {
	K       string
	O, F    int
	I, J    int
	X       []int
	R       bool
	collect ecore.Collection
}

func (p storeOp) json() M {
	x := p.X
	if x == nil {
		x = []int{}
	}
	return M{"k": p.K, "o": p.O, "f": p.F, "i": p.I, "j": p.J, "x": x, "r": p.R}
}

type storeWorld struct {
	m      *storeModel
	own    bool // objects have their own database identifiers
	opts   map[string]any
	path   string
	store  *ecore.SQLStore
	objs   []ecore.EObject // objs[i] is object i+1, object 1 is the root that has all the others
	known  []bool
	v      [][][]int // the values of the specification
	roots  map[int]bool
	nall   int
	inAll  []bool
	failed bool // a failing operation was made since the last wait for everything
	narrow bool // a list is edited again and again at the same place
}

func (w *storeWorld) has(o, f int) bool {
	return w.objs[o-1] == nil || w.m.feats[f-1].F.GetEContainingClass() != w.m.sub || o%3 == 0
}

func (w *storeWorld) create(o int) ecore.EObject {
	c := w.m.node
	if o%3 == 0 {
		c = w.m.sub
	}
	x := w.m.pkg.GetEFactoryInstance().Create(c)
	x.ESet(w.m.tag, o)
	return x
}

func (w *storeWorld) open() error {
	reg := ecore.NewEPackageRegistryImpl()
	reg.RegisterPackage(w.m.pkg)
	s, err := ecore.NewSQLStore(w.path, ecore.NewURI("file:///store.sqlite"), nil, reg, w.opts)
	if err != nil {
		return err
	}
	w.store = s
	return nil
}

func newStoreWorld(rnd *rand.Rand, dir string, n int, mode string) *storeWorld {
	w := &storeWorld{own: rnd.Intn(2) == 0, roots: map[int]bool{}, opts: map[string]any{}}
	w.m = newStoreModel(w.own)
	w.path = filepath.Join(dir, "s.sqlite")
	if mode == "mem" || (mode == "" && rnd.Intn(4) == 0) {
		w.opts[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = true
	}
	if rnd.Intn(3) == 0 {
		w.opts[ecore.SQL_OPTION_KEEP_DEFAULTS] = true
	}
	w.objs = make([]ecore.EObject, n)
	w.known = make([]bool, n)
	w.inAll = make([]bool, n)
	for o := 1; o <= n; o++ {
		w.objs[o-1] = w.create(o)
		vs := make([][]int, len(w.m.feats))
		for f, ft := range w.m.feats {
			if !ft.Many {
				vs[f] = []int{0}
			} else {
				vs[f] = []int{}
			}
			if ft.Ref || rnd.Intn(4) > 0 || !w.has(o, f+1) {
				continue
			}
			// a value held in memory until the store meets the object
			if ft.Many {
				l := w.objs[o-1].EGet(ft.F).(ecore.EList)
				for k := rnd.Intn(3); k >= 0; k-- {
					x := rnd.Intn(4)
					vs[f] = append(vs[f], x)
					l.Add(ft.Vals[x])
				}
			} else {
				x := w.norm(ft, rnd.Intn(4))
				vs[f] = []int{x}
				w.objs[o-1].ESet(ft.F, ft.Vals[x])
			}
		}
		w.v = append(w.v, vs)
	}
	return w
}

// norm: the first of the equal values
func (w *storeWorld) norm(f *storeFeat, x int) int {
	for i, v := range f.Vals {
		if valueToken(v) == valueToken(f.Vals[x]) {
			return i
		}
	}
	return x
}

func (w *storeWorld) value(f *storeFeat, x int) any {
	if f.Ref {
		if x == 0 {
			return nil
		}
		return w.objs[x-1]
	}
	return f.Vals[x]
}

// code of a value that the store gave
func (w *storeWorld) code(f *storeFeat, v any) int {
	if f.Ref {
		if v == nil {
			return 0
		}
		o, ok := v.(ecore.EObject)
		if !ok {
			return 90
		}
		return w.num(o)
	}
	for i, x := range f.Vals {
		if valueToken(x) == valueToken(v) {
			return i
		}
	}
	if v == nil {
		return storeNone
	}
	return 91
}

func (w *storeWorld) num(o ecore.EObject) int {
	for i, x := range w.objs {
		if x == o {
			return i + 1
		}
	}
	return 92
}

func (w *storeWorld) codes(f *storeFeat, vs []any) []int {
	r := []int{}
	for _, v := range vs {
		r = append(r, w.code(f, v))
	}
	return r
}

func bint(b bool) []int { return []int{b2i(b)} }

// call makes one operation on the store
func (w *storeWorld) call(p storeOp) (ret []int, msg string) {
	defer func() {
		if r := recover(); r != nil {
			ret, msg = []int{93}, fmt.Sprint(r)
		}
	}()
	s := w.store
	o := w.objs[p.O-1]
	ret = []int{}
	var f *storeFeat
	var ft ecore.EStructuralFeature
	if p.F > 0 {
		f = w.m.feats[p.F-1]
		ft = f.F
	}
	old := func(v any) {
		if p.R {
			ret = []int{w.code(f, v)}
		}
	}
	idx := p.I
	if f != nil && !f.Many {
		idx = -1
	}
	switch p.K {
	case "Set":
		old(s.Set(o, ft, idx, w.value(f, p.X[0]), p.R))
	case "UnSet":
		s.UnSet(o, ft)
	case "Add":
		s.Add(o, ft, p.I, w.value(f, p.X[0]))
	case "AddAll":
		vs := []any{}
		for _, x := range p.X {
			vs = append(vs, w.value(f, x))
		}
		s.AddAll(o, ft, p.I, ecore.NewImmutableEList(vs))
	case "Remove":
		old(s.Remove(o, ft, p.I, p.R))
	case "Move":
		old(s.Move(o, ft, p.I, p.J, p.R))
	case "Clear":
		s.Clear(o, ft)
	case "SetContainer":
		if p.I == 0 {
			s.SetContainer(o, nil, nil)
		} else {
			s.SetContainer(o, w.objs[p.I-1], ft)
		}
	case "AddRoot":
		s.AddRoot(o)
	case "RemoveRoot":
		s.RemoveRoot(o)
	case "Get":
		ret = []int{w.code(f, s.Get(o, ft, -1))}
	case "At":
		ret = []int{w.code(f, s.Get(o, ft, p.I))}
	case "All":
		ret = w.codes(f, s.ToArray(o, ft))
	case "IsSet":
		ret = bint(s.IsSet(o, ft))
	case "Size":
		ret = []int{s.Size(o, ft)}
	case "IsEmpty":
		ret = bint(s.IsEmpty(o, ft))
	case "Contains":
		ret = bint(s.Contains(o, ft, w.value(f, p.X[0])))
	case "IndexOf":
		ret = []int{s.IndexOf(o, ft, w.value(f, p.X[0]))}
	case "LastIndexOf":
		ret = []int{s.LastIndexOf(o, ft, w.value(f, p.X[0]))}
	case "GetContainer":
		c, cf := s.GetContainer(o)
		ret = []int{0, 0}
		if c != nil {
			ret[0] = w.num(c)
		}
		if cf != nil {
			ret[1] = 94
			for i, f := range w.m.feats {
				if f.F == cf {
					ret[1] = i + 1
				}
			}
		}
	case "GetRoots":
		for _, r := range s.GetRoots() {
			ret = append(ret, w.num(r))
		}
	case "BadAdd": // an operation that fails
		s.Add(o, ft, p.I, w.value(f, p.X[0]))
	case "UnRegister": // the object has its database identifier, the store finds it again
		s.UnRegister(o, false)
		if p.R {
			s.GetContainer(o)
		}
	case "BadQuery":
		err := s.ExecuteQuery(context.Background(), `INSERT INTO "nothing" VALUES (1)`, nil)
		ret = bint(err != nil)
	default:
		panic("unknown operation " + p.K)
	}
	return ret, ""
}

// note: the state of the specification after the operation
func (w *storeWorld) note(p storeOp) {
	meet := func(o int) {
		if o > 0 {
			w.known[o-1] = true
		}
	}
	switch p.K {
	case "Set", "UnSet", "Add", "AddAll", "Remove", "Move", "Clear", "SetContainer", "AddRoot", "RemoveRoot":
		meet(p.O)
	default:
		return
	}
	if p.K == "SetContainer" {
		meet(p.I)
		return
	}
	if p.K == "AddRoot" || p.K == "RemoveRoot" {
		w.roots[p.O] = p.K == "AddRoot"
		return
	}
	f := w.m.feats[p.F-1]
	if f.Ref {
		for _, x := range p.X {
			meet(x)
		}
	}
	q := &w.v[p.O-1][p.F-1]
	ins := func(i int, xs []int) {
		r := append([]int{}, (*q)[:i]...)
		r = append(r, xs...)
		*q = append(r, (*q)[i:]...)
	}
	del := func(i int) int {
		x := (*q)[i]
		*q = append(append([]int{}, (*q)[:i]...), (*q)[i+1:]...)
		return x
	}
	switch p.K {
	case "Set":
		i := 0
		if f.Many {
			i = p.I
		}
		*q = append([]int{}, *q...)
		(*q)[i] = p.X[0]
	case "UnSet", "Clear":
		*q = []int{}
		if !f.Many {
			*q = []int{0}
		}
	case "Add", "AddAll":
		ins(p.I, p.X)
	case "Remove":
		del(p.I)
	case "Move":
		x := del(p.I)
		ins(p.J, []int{x})
	}
}

// stored: every object is in the list of the first one, to be found again.
func (w *storeWorld) stored() {
	for i := 1; i < len(w.objs); i++ {
		if w.known[i] && !w.inAll[i] {
			w.store.Add(w.objs[0], w.m.all, w.nall, w.objs[i])
			w.nall++
			w.inAll[i] = true
		}
	}
}

func (w *storeWorld) reads(o int, rnd *rand.Rand, deep bool) (q []storeOp) {
	for f, ft := range w.m.feats {
		f++
		if !w.has(o, f) {
			continue
		}
		if !ft.Many {
			q = append(q, storeOp{K: "Get", O: o, F: f}, storeOp{K: "IsSet", O: o, F: f})
			continue
		}
		q = append(q, storeOp{K: "All", O: o, F: f})
		if !deep {
			continue
		}
		q = append(q, storeOp{K: "IsSet", O: o, F: f}, storeOp{K: "Size", O: o, F: f}, storeOp{K: "IsEmpty", O: o, F: f})
		if n := len(w.v[o-1][f-1]); n > 0 && w.known[o-1] {
			q = append(q, storeOp{K: "At", O: o, F: f, I: rnd.Intn(n)})
		}
		if x := w.pickValue(rnd, ft, true); x >= 0 {
			for _, k := range []string{"Contains", "IndexOf", "LastIndexOf"} {
				q = append(q, storeOp{K: k, O: o, F: f, X: []int{x}})
			}
		}
	}
	return append(q, storeOp{K: "GetContainer", O: o})
}

// pickValue: a value for the feature; stored objects only when asked
func (w *storeWorld) pickValue(rnd *rand.Rand, f *storeFeat, stored bool) int {
	if !f.Ref {
		return w.norm(f, rnd.Intn(len(f.Vals)))
	}
	c := []int{}
	for i := range w.objs {
		if w.known[i] || (!stored && (i < 2 || w.known[i-1])) {
			c = append(c, i+1)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return c[rnd.Intn(len(c))]
}

func (w *storeWorld) randomWrite(rnd *rand.Rand, o int, focus int) (storeOp, bool) {
	p := storeOp{O: o}
	switch k := rnd.Intn(20); {
	case k == 0:
		p.K = "AddRoot"
		if w.roots[o] {
			p.K = "RemoveRoot"
		}
		return p, o != 1
	case k == 1:
		p.K = "SetContainer"
		if rnd.Intn(3) > 0 {
			p.I = w.pickValue(rnd, &storeFeat{Ref: true}, false)
			if p.I < 1 || p.I == o {
				return p, false
			}
			c := []int{}
			for f, ft := range w.m.feats {
				if r, _ := ft.F.(ecore.EReference); r != nil && r.IsContainment() && w.has(p.I, f+1) {
					c = append(c, f+1)
				}
			}
			p.F = c[rnd.Intn(len(c))]
		}
		return p, true
	}
	p.F = 1 + rnd.Intn(len(w.m.feats))
	if focus > 0 && rnd.Intn(3) > 0 {
		p.F = focus
	}
	if !w.has(o, p.F) {
		return p, false
	}
	f := w.m.feats[p.F-1]
	n := len(w.v[o-1][p.F-1])
	p.R = rnd.Intn(2) == 0
	val := func() bool {
		x := w.pickValue(rnd, f, false)
		if f.Ref && !f.Many && rnd.Intn(4) == 0 {
			x = 0
		}
		if f.Ref && f.Many && x > 0 {
			for _, y := range append(w.v[o-1][p.F-1], p.X...) {
				if y == x {
					return false
				}
			}
		}
		p.X = append(p.X, x)
		return x >= 0
	}
	if !f.Many {
		if rnd.Intn(5) == 0 {
			p.K, p.R = "UnSet", false
			return p, true
		}
		p.K = "Set"
		return p, val()
	}
	if w.narrow && p.F == focus && n > 2 {
		p.K, p.I, p.J = "Move", n-1-rnd.Intn(2), 1
		if !f.Ref && rnd.Intn(4) == 0 {
			p.K, p.I, p.R = "AddAll", 1, false
			return p, val() && val()
		}
		return p, true
	}
	switch k := rnd.Intn(16); {
	case k < 5:
		p.K, p.R = "Add", false
		p.I = at(rnd, n)
		return p, val()
	case k < 9:
		p.K, p.R = "AddAll", false
		p.I = at(rnd, n)
		for i := rnd.Intn(4); i > 0; i-- {
			if !val() {
				if len(p.X) > 0 && p.X[len(p.X)-1] < 0 {
					return p, false
				}
			}
		}
		return p, true
	case n == 0:
		return p, false
	case k < 11:
		p.K, p.I = "Remove", rnd.Intn(n)
		return p, true
	case k < 14:
		p.K, p.I, p.J = "Move", rnd.Intn(n), rnd.Intn(n)
		return p, true
	case k == 14:
		p.K, p.I = "Set", rnd.Intn(n)
		return p, val()
	}
	p.K, p.R = "Clear", false
	if rnd.Intn(2) == 0 {
		p.K = "UnSet"
	}
	return p, rnd.Intn(3) == 0
}

// at: an insertion index, often one of the ends
func at(rnd *rand.Rand, n int) int {
	switch rnd.Intn(4) {
	case 0:
		return 0
	case 1:
		return n
	}
	return rnd.Intn(n + 1)
}

func (w *storeWorld) do(t *Trace, p storeOp) bool {
	Enter(p.json())
	ret, msg := w.call(p)
	Leave()
	t.Emit(M{"ev": "op", "op": p.json(), "ret": ret, "msg": msg})
	w.note(p)
	w.failed = w.failed || p.K == "BadAdd" || p.K == "BadQuery"
	return msg == ""
}

func (w *storeWorld) wait(t *Trace, o int) M {
	var x any
	if o > 0 {
		x = w.objs[o-1]
	}
	Enter(M{"wait": o})
	err := w.store.WaitOperations(context.Background(), x)
	Leave()
	e := M{"ev": "wait", "o": o, "err": "", "failed": w.failed}
	if err != nil {
		e["err"] = err.Error()
	}
	if o == 0 {
		w.failed = false
	}
	t.Emit(e)
	return e
}

// reopen closes the store and finds the objects in the store opened again
func (w *storeWorld) reopen(t *Trace, close bool) bool {
	e := M{"ev": "wait", "o": -1, "err": "", "failed": false}
	fail := func(err error) bool {
		if err != nil {
			e["err"] = err.Error()
			t.Emit(e)
			return false
		}
		return true
	}
	Enter(M{"reopen": w.path})
	defer Leave()
	if close {
		if !fail(w.store.Close()) {
			return false
		}
	}
	if !fail(w.open()) {
		return false
	}
	if !fail(w.find()) {
		return false
	}
	t.Emit(e)
	return true
}

func (w *storeWorld) find() error {
	for i := range w.objs {
		if w.known[i] {
			w.objs[i] = nil
		}
	}
	for _, r := range w.store.GetRoots() {
		if w.store.Get(r, w.m.tag, -1) == any(1) {
			w.objs[0] = r
		}
	}
	if w.objs[0] == nil {
		return fmt.Errorf("the root is lost")
	}
	for _, x := range w.store.ToArray(w.objs[0], w.m.all) {
		o, ok := x.(ecore.EObject)
		if !ok {
			return fmt.Errorf("not an object: %v", x)
		}
		n, _ := w.store.Get(o, w.m.tag, -1).(int)
		if n < 2 || n > len(w.objs) || w.objs[n-1] != nil {
			return fmt.Errorf("no object %d", n)
		}
		w.objs[n-1] = o
	}
	for i := range w.objs {
		if w.objs[i] == nil {
			return fmt.Errorf("object %d is lost", i+1)
		}
	}
	return nil
}

func (w *storeWorld) prelude(t *Trace, rnd *rand.Rand) {
	t.Emit(M{"ev": "reset", "v": w.v, "own": w.own, "path": filepath.Base(w.path), "mem": w.opts[ecore.SQL_OPTION_IN_MEMORY_DATABASE] == true})
	w.do(t, storeOp{K: "AddRoot", O: 1})
}

func runStore(c *Config) error {
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "m": newStoreModel(false).json()})
	for h := 0; h < c.N; h++ {
		if h%c.Shards != c.Shard {
			continue
		}
		rnd := rand.New(rand.NewSource(c.Seed + int64(h)*104729))
		dir, err := os.MkdirTemp(c.Tmp, "store")
		if err != nil {
			return err
		}
		w := newStoreWorld(rnd, dir, 4+rnd.Intn(3), c.Mode)
		var other *storeWorld // another store, of a file with the same name
		if rnd.Intn(3) == 0 {
			d := filepath.Join(dir, "other")
			os.Mkdir(d, 0o700)
			other = newStoreWorld(rnd, d, 2, c.Mode)
			other.opts = w.opts
			if err := other.open(); err != nil {
				return err
			}
		}
		if err := w.open(); err != nil {
			return err
		}
		w.prelude(t, rnd)
		focus, focusObj := 0, 0
		if rnd.Intn(2) == 0 {
			// a single list, edited again and again
			many := []int{}
			for f, ft := range w.m.feats {
				if ft.Many {
					many = append(many, f+1)
				}
			}
			focus, focusObj = many[rnd.Intn(len(many))], 1+rnd.Intn(len(w.objs))
			w.narrow = rnd.Intn(2) == 0
		}
		ok := true
		for step := 0; step < c.Len && ok; step++ {
			if w.narrow && step > c.Len/4 {
				// until there is no room left between two elements
				if p, good := w.randomWrite(rnd, focusObj, focus); good {
					ok = w.do(t, p)
					w.stored()
				}
				if step%10 == 0 {
					ok = ok && w.do(t, storeOp{K: "All", O: focusObj, F: focus})
				}
				if step%100 != 0 {
					continue
				}
			}
			switch k := rnd.Intn(30); {
			case k < 22:
				o := 1 + rnd.Intn(len(w.objs))
				if focusObj > 0 && rnd.Intn(3) > 0 {
					o = focusObj
				}
				if p, good := w.randomWrite(rnd, o, focus); good {
					ok = w.do(t, p)
					w.stored()
				}
				if rnd.Intn(2) == 0 {
					q := w.reads(o, rnd, true)
					for i := rnd.Intn(4); i > 0 && ok; i-- {
						ok = w.do(t, q[rnd.Intn(len(q))])
					}
				}
			case k < 26:
				o := 1 + rnd.Intn(len(w.objs))
				for _, p := range w.reads(o, rnd, true) {
					ok = ok && w.do(t, p)
				}
				ok = ok && w.do(t, storeOp{K: "GetRoots", O: 1})
			case k < 28 && w.own && rnd.Intn(3) == 0:
				ok = w.do(t, storeOp{K: "UnRegister", O: 1 + rnd.Intn(len(w.objs)), R: true})
			case k < 28:
				w.wait(t, rnd.Intn(len(w.objs)+1))
			case k == 28 && other != nil:
				other.store.AddRoot(other.objs[rnd.Intn(2)])
				other.store.Set(other.objs[0], other.m.feats[0].F, -1, "other", false)
			default:
				if ok = w.reopen(t, true); !ok {
					break
				}
				for o := range w.objs {
					for _, p := range w.reads(o+1, rnd, false) {
						ok = ok && w.do(t, p)
					}
				}
				ok = ok && w.do(t, storeOp{K: "GetRoots", O: 1})
			}
		}
		Enter(M{"close": w.path})
		w.store.Close()
		if other != nil {
			other.store.Close()
		}
		Leave()
		os.RemoveAll(dir)
	}
	return nil
}

func init() { scenarios["store"] = runStore }
