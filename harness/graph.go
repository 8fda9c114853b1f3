package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/masagroup/soft.go/ecore"
)

// ---------------------------------------------------------------- metamodel

// feat describes one tracked feature; it is what the specification is told
// about it (record Meta[name] of Graph.tla).
type feat struct {
	Name      string
	Attr      bool
	Many      bool
	Uniq      bool
	Cont      bool   // containment end
	Container bool   // opposite of a containment end
	Opp       string // opposite feature, "" when none
	Res       bool   // resolves proxies
	Unset     bool   // unsettable
	Fixed     bool   // not changeable through ESet
	F         ecore.EStructuralFeature
}

func (f *feat) json() M {
	return M{"attr": f.Attr, "many": f.Many, "uniq": f.Uniq, "cont": f.Cont, "container": f.Container, "opp": f.Opp, "res": f.Res}
}

func mkAttr(c ecore.EClass, name string, many, uniq bool) ecore.EAttribute {
	a := ecore.GetFactory().CreateEAttribute()
	a.SetName(name)
	a.SetEType(ecore.GetPackage().GetEString())
	if many {
		a.SetUpperBound(ecore.UNBOUNDED_MULTIPLICITY)
	}
	a.SetUnique(uniq)
	c.GetEStructuralFeatures().Add(a)
	return a
}

func mkRef(c ecore.EClass, name string, t ecore.EClass, many, cont, res bool) ecore.EReference {
	r := ecore.GetFactory().CreateEReference()
	r.SetName(name)
	r.SetEType(t)
	if many {
		r.SetUpperBound(ecore.UNBOUNDED_MULTIPLICITY)
	}
	r.SetContainment(cont)
	r.SetResolveProxies(res)
	c.GetEStructuralFeatures().Add(r)
	return r
}

func opp(a, b ecore.EReference) {
	a.SetEOpposite(b)
	b.SetEOpposite(a)
}

// dynModel is the dynamic metamodel used by the object graph scenarios: every
// kind of feature, spread over a class and its super class.
type dynModel struct {
	pkg        ecore.EPackage
	base, node ecore.EClass
	leaf       ecore.EClass
}

func newDynModel(multi, keys bool) *dynModel {
	m := &dynModel{}
	f := ecore.GetFactory()
	m.pkg = f.CreateEPackage()
	m.pkg.SetName("graph")
	m.pkg.SetNsPrefix("g")
	m.pkg.SetNsURI("http://verif/graph")
	m.base, m.node, m.leaf = f.CreateEClass(), f.CreateEClass(), f.CreateEClass()
	m.base.SetName("Base")
	m.node.SetName("Node")
	m.leaf.SetName("Leaf")
	m.pkg.GetEClassifiers().AddAll(ecore.NewImmutableEList([]any{m.base, m.node, m.leaf}))
	m.node.GetESuperTypes().Add(m.base)
	m.leaf.GetESuperTypes().Add(m.node)

	b, n, l := m.base, m.node, m.leaf
	mkAttr(b, "name", false, true)
	if keys {
		mkAttr(b, "key", false, true).SetID(true)
	}
	mkRef(b, "kids", b, true, true, false)
	subs := mkRef(b, "subs", b, true, true, false)
	owner := mkRef(b, "owner", b, false, false, false)
	opp(subs, owner)
	members := mkRef(b, "members", b, true, false, false)
	group := mkRef(b, "group", b, false, false, false)
	opp(members, group)
	mkAttr(n, "tags", true, true)
	mkAttr(n, "vals", true, false)
	mkRef(n, "kid", b, false, true, false)
	sub := mkRef(n, "sub", n, false, true, false)
	holder := mkRef(n, "holder", n, false, false, false)
	opp(sub, holder)
	next := mkRef(n, "next", n, false, false, false)
	prev := mkRef(n, "prev", n, false, false, false)
	opp(next, prev)
	likes := mkRef(n, "likes", n, true, false, false)
	likedBy := mkRef(n, "likedBy", n, true, false, false)
	opp(likes, likedBy)
	mkRef(n, "link", b, false, false, false)
	mkRef(n, "links", b, true, false, false)
	mkRef(l, "rkids", b, true, true, true)
	rsubs := mkRef(l, "rsubs", l, true, true, true)
	rowner := mkRef(l, "rowner", l, false, false, true)
	opp(rsubs, rowner)
	mkRef(l, "rkid", b, false, true, true)
	if multi {
		// a second branch of super types, sharing its root with the first one
		x := f.CreateEClass()
		x.SetName("Extra")
		m.pkg.GetEClassifiers().Add(x)
		x.GetESuperTypes().Add(b)
		l.GetESuperTypes().Add(x)
		mkAttr(x, "xname", false, true)
		xmembers := mkRef(x, "xmembers", x, true, false, false)
		xgroup := mkRef(x, "xgroup", x, false, false, false)
		opp(xmembers, xgroup)
		xsub := mkRef(x, "xsub", n, false, true, false)
		xholder := mkRef(n, "xholder", x, false, false, false)
		opp(xsub, xholder)
		xparts := mkRef(n, "xparts", x, true, true, true)
		xwhole := mkRef(x, "xwhole", n, false, false, true)
		opp(xparts, xwhole)
		mkRef(x, "xrefs", b, true, false, false)
	}
	return m
}

// ---------------------------------------------------------------- world

type world struct {
	objs              []ecore.EObject
	feats             [][]*feat // per object
	all               map[string]*feat
	byF               map[ecore.EStructuralFeature]*feat
	ress              []ecore.EResource
	ids               map[any]int
	attrV             []string // attribute values, value v<i> is number 101+i
	notes             []M
	rlog              [][]int // per resource, +-id
	quiet             bool
	partial           bool // some features are not tracked
	set               ecore.EResourceSet
	focusO, focusLeft int // the list being edited for a while
	focusF            string
	watch             []*observer
	walks             bool
	mgrs              []*resIDs
	addr              *addrPool
	turn              int
	store             *memStore // the store of the objects that have one
	held              map[memKey]ecore.EList
}

func (w *world) id(v any) int {
	if v == nil {
		return 0
	}
	if s, ok := v.(string); ok {
		if s == "" {
			return 0
		}
		for i, a := range w.attrV {
			if a == s {
				return 101 + i
			}
		}
		return 100
	}
	if i, ok := w.ids[v]; ok {
		return i
	}
	return 99
}

func (w *world) seq(v any) []int {
	if v == nil {
		return []int{}
	}
	if l, ok := v.(ecore.EList); ok {
		r := []int{}
		for i := 0; i < l.Size(); i++ {
			r = append(r, w.id(l.Get(i)))
		}
		return r
	}
	if l, ok := v.([]any); ok {
		r := []int{}
		for _, x := range l {
			r = append(r, w.id(x))
		}
		return r
	}
	if o, ok := v.(ecore.EObject); ok && o == nil {
		return []int{}
	}
	if i := w.id(v); i != 0 {
		return []int{i}
	}
	return []int{}
}

// tracked drops, in worlds with untracked features, the objects of these
func (w *world) tracked(ids []int) []int {
	if !w.partial {
		return ids
	}
	r := []int{}
	for _, i := range ids {
		if i != 99 {
			r = append(r, i)
		}
	}
	return r
}

type noteAdapter struct {
	ecore.AbstractEAdapter
	w *world
	o int
}

func (a *noteAdapter) NotifyChanged(n ecore.ENotification) {
	if e := a.w.noteOf(n); e != nil {
		e["at"] = a.o
		a.w.notes = append(a.w.notes, e)
	}
}

// noteOf describes a notification about a tracked feature
func (w *world) noteOf(n ecore.ENotification) M {
	t := n.GetEventType()
	if t == ecore.REMOVING_ADAPTER {
		return nil
	}
	ft := w.byF[n.GetFeature()]
	if ft == nil {
		return nil
	}
	name := ft.Name
	e := M{"n": w.ids[n.GetNotifier()], "f": name, "t": t.String(), "pos": n.GetPosition(), "old": []int{}, "new": []int{}, "ps": []int{}}
	switch t {
	case ecore.MOVE:
		op, _ := n.GetOldValue().(int)
		e["old"] = []int{op}
		e["new"] = w.seq(n.GetNewValue())
	case ecore.REMOVE_MANY:
		e["old"] = w.seq(n.GetOldValue())
		ps := []int{}
		if l, ok := n.GetNewValue().([]any); ok {
			for _, p := range l {
				ps = append(ps, p.(int))
			}
		} else if l, ok := n.GetNewValue().([]int); ok {
			ps = append(ps, l...)
		}
		e["ps"] = ps
	default:
		e["old"] = w.seq(n.GetOldValue())
		e["new"] = w.seq(n.GetNewValue())
	}
	return e
}

type resListener struct {
	w *world
	r int
}

func (l *resListener) Attached(o ecore.EObject) { l.w.rlog[l.r] = append(l.w.rlog[l.r], l.w.id(o)) }
func (l *resListener) Detached(o ecore.EObject) { l.w.rlog[l.r] = append(l.w.rlog[l.r], -l.w.id(o)) }

func (w *world) reg(o ecore.EObject, feats []*feat) {
	w.objs = append(w.objs, o)
	w.ids[o] = len(w.objs)
	w.feats = append(w.feats, feats)
	for _, f := range feats {
		w.all[f.Name] = f
		w.byF[f.F] = f
	}
}

func plainName(f ecore.EStructuralFeature) string { return f.GetName() }
func qualName(f ecore.EStructuralFeature) string {
	return f.GetEContainingClass().GetName() + "." + f.GetName()
}

func describe(f ecore.EStructuralFeature) *feat { return describeAs(f, plainName) }
func describeAs(f ecore.EStructuralFeature, name func(ecore.EStructuralFeature) string) *feat {
	x := &feat{Name: name(f), Many: f.IsMany(), F: f, Unset: f.IsUnsettable()}
	if r, ok := f.(ecore.EReference); ok {
		x.Cont = r.IsContainment()
		x.Res = r.IsResolveProxies()
		x.Uniq = true
		if o := r.GetEOpposite(); o != nil {
			x.Opp = name(o)
			x.Container = o.IsContainment()
		}
	} else {
		x.Attr = true
		x.Uniq = f.IsUnique()
	}
	return x
}

func newWorld() *world {
	return &world{ids: map[any]int{}, all: map[string]*feat{}, byF: map[ecore.EStructuralFeature]*feat{}, attrV: []string{"a", "b", "c", "d", "e"}}
}

func (w *world) addResources(n int, listen bool) {
	for i := 0; i < n; i++ {
		r := ecore.NewEResourceImpl()
		r.SetURI(ecore.NewURI(fmt.Sprintf("file:///r%d", i+1)))
		w.ress = append(w.ress, r)
		w.ids[ecore.EResource(r)] = -(i + 1)
		if listen {
			w.rlog = append(w.rlog, nil)
			r.GetResourceListeners().Add(&resListener{w, i})
		}
	}
}

func (w *world) attach() {
	for i, o := range w.objs {
		a := &noteAdapter{w: w, o: i + 1}
		o.EAdapters().Add(a)
	}
}

func (w *world) meta() M {
	r := M{}
	for n, f := range w.all {
		r[n] = f.json()
	}
	return r
}

// features of each object, in feature order
func (w *world) featsOf() [][]string {
	r := [][]string{}
	for i := range w.objs {
		m := []string{}
		for _, f := range w.feats[i] {
			m = append(m, f.Name)
		}
		r = append(r, m)
	}
	return r
}

func (w *world) nameOf(f ecore.EStructuralFeature) string {
	if x := w.byF[f]; x != nil {
		return x.Name
	}
	return "?" + f.GetName()
}

func (w *world) get(o ecore.EObject, f *feat) any { return o.EGetResolve(f.F, false) }

// safeObserve is observe, reporting a panic of the code under test
func (w *world) safeObserve() (obs M, crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprint(e)
		}
	}()
	return w.observe(), ""
}

// observe projects the whole reachable state through the public API.
func (w *world) observe() M {
	vals, isset, cont, cfeat, cmfeat, res, dres, kids, xrefs := []M{}, []M{}, []int{}, []string{}, []string{}, []int{}, []int{}, [][]int{}, [][]int{}
	for i, o := range w.objs {
		v, s := M{}, M{}
		for _, f := range w.feats[i] {
			x := w.get(o, f)
			v[f.Name] = w.seq(x)
			s[f.Name] = o.EIsSet(f.F)
		}
		vals = append(vals, v)
		isset = append(isset, s)
		if c := o.EContainer(); c != nil {
			cont = append(cont, w.id(c))
		} else {
			cont = append(cont, 0)
		}
		if cf := o.EContainingFeature(); cf != nil {
			cfeat = append(cfeat, w.nameOf(cf))
		} else {
			cfeat = append(cfeat, "")
		}
		if cf := o.EContainmentFeature(); cf != nil {
			cmfeat = append(cmfeat, w.nameOf(cf))
		} else {
			cmfeat = append(cmfeat, "")
		}
		if r := o.EResource(); r != nil {
			res = append(res, -w.id(r))
		} else {
			res = append(res, 0)
		}
		if r := o.(ecore.EObjectInternal).EInternalResource(); r != nil {
			dres = append(dres, -w.id(r))
		} else {
			dres = append(dres, 0)
		}
		kids = append(kids, w.tracked(w.seq(o.EContents())))
		xrefs = append(xrefs, w.tracked(w.seq(o.ECrossReferences())))
	}
	rc := [][]int{}
	loaded := []bool{}
	for _, r := range w.ress {
		rc = append(rc, w.seq(r.GetContents()))
		loaded = append(loaded, r.IsLoaded())
	}
	set, watch, att := []int{}, []int{}, [][]int{}
	if w.set != nil {
		set = w.seq(w.set.GetResources())
	}
	for _, ob := range w.watch {
		watch = append(watch, ob.target)
		att = append(att, w.attachedTo(ob))
	}
	obs := M{"set": set, "watch": watch, "att": att, "val": vals, "isset": isset, "cont": cont, "cfeat": cfeat, "cmfeat": cmfeat, "res": res, "dres": dres, "kids": kids, "xrefs": xrefs, "rc": rc, "loaded": loaded}
	if w.walks {
		w.observeWalks(obs)
	}
	w.observeIDs(obs)
	w.observeAddresses(obs)
	w.storedValues(obs)
	return obs
}

func (w *world) walk(it ecore.EIterator) []int {
	r := []int{}
	for it.HasNext() {
		r = append(r, w.id(it.Next()))
	}
	return w.tracked(r)
}

// classes of the objects, most specific first, then their super types
func (w *world) classes() []ecore.EClass {
	r := []ecore.EClass{}
	add := func(c ecore.EClass) {
		for _, x := range r {
			if x == c {
				return
			}
		}
		r = append(r, c)
	}
	for _, o := range w.objs {
		add(o.EClass())
	}
	for _, o := range w.objs {
		for it := o.EClass().GetEAllSuperTypes().Iterator(); it.HasNext(); {
			add(it.Next().(ecore.EClass))
		}
	}
	return r
}

// resIDs numbers the identifiers the manager of a resource gives
type resIDs struct {
	num  map[string]int
	last []any // last identifier known of an object
}

// manage gives every resource an identifier manager
func (w *world) manage() {
	for i, r := range w.ress {
		var m ecore.EObjectIDManager
		switch i % 3 {
		case 0:
			m = ecore.NewIncrementalIDManager()
		case 1:
			m = ecore.NewUUIDManager()
		default:
			m = ecore.NewULIDManager()
		}
		r.SetObjectIDManager(m)
		w.mgrs = append(w.mgrs, &resIDs{num: map[string]int{}, last: make([]any, len(w.objs))})
	}
}

func (w *world) observeIDs(obs M) {
	if w.mgrs == nil {
		return
	}
	rid, rfind := [][]int{}, [][]int{}
	for i, m := range w.mgrs {
		a, f := []int{}, []int{}
		mgr := w.ress[i].GetObjectIDManager()
		for j, o := range w.objs {
			n := 0
			if id := mgr.GetID(o); id != nil {
				k := fmt.Sprint(id)
				if n = m.num[k]; n == 0 {
					n = len(m.num) + 1
					m.num[k] = n
				}
				m.last[j] = id
			}
			a = append(a, n)
			if m.last[j] == nil {
				f = append(f, 0)
			} else if x := mgr.GetEObject(m.last[j]); x == nil {
				f = append(f, 0)
			} else {
				f = append(f, w.id(x))
			}
		}
		rid, rfind = append(rid, a), append(rfind, f)
	}
	obs["rid"], obs["rfind"] = rid, rfind
}

// observeWalks traverses the contents of every object and resource, also
// restricted to some class, and tells who is above whom
func (w *world) observeWalks(obs M) {
	all, typed, up, anc := [][]int{}, []M{}, [][]bool{}, []int{}
	cs := w.classes()
	w.turn++
	for i, o := range w.objs {
		all = append(all, w.walk(o.EAllContents()))
		c := cs[(w.turn+i)%len(cs)]
		typed = append(typed, M{"c": c.GetName(), "x": w.walk(ecore.EAllContentsWithClass(o, c))})
		u := []bool{}
		for _, a := range w.objs {
			u = append(u, ecore.IsAncestor(a, o))
		}
		up = append(up, u)
		if a := ecore.GetAncestor(o, c); a != nil {
			anc = append(anc, w.id(a))
		} else {
			anc = append(anc, 0)
		}
	}
	rall := [][]int{}
	for _, r := range w.ress {
		rall = append(rall, w.walk(r.GetAllContents()))
	}
	obs["all"], obs["typed"], obs["rall"], obs["up"], obs["anc"] = all, typed, rall, up, anc
}

// ---------------------------------------------------------------- operations

// op is one edit: on feature F of object O, or on the contents of resource -O.
type op struct {
	K    string
	O    int
	F    string
	I, J int
	X    []int
	Subs []op // Batch: edits of features of O whose notifications are dispatched together
}

func (p op) json() M {
	if p.Subs != nil {
		subs := []M{}
		for _, q := range p.Subs {
			subs = append(subs, q.json())
		}
		return M{"k": p.K, "o": p.O, "f": p.F, "i": p.I, "j": p.J, "x": p.X, "subs": subs}
	}
	return M{"k": p.K, "o": p.O, "f": p.F, "i": p.I, "j": p.J, "x": p.X}
}

func (w *world) val(attr bool, x int) any {
	if attr {
		return w.attrV[x-101]
	}
	if x < 0 {
		return w.ress[-x-1]
	}
	return w.objs[x-1]
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

const PANIC = -999

// apply runs the operation on the real code; a refusal (panic) is an outcome.
func (w *world) apply(p op) (ret int, msg string) {
	defer func() {
		if e := recover(); e != nil {
			ret, msg = PANIC, fmt.Sprint(e)
		}
	}()
	if p.K == "Batch" {
		var chain ecore.ENotificationChain
		for _, q := range p.Subs {
			f := w.all[q.F]
			l := w.get(w.objs[p.O-1], f).(ecore.ENotifyingList)
			switch q.K {
			case "Add":
				chain = l.AddWithNotification(w.val(f.Attr, q.X[0]), chain)
			case "Remove":
				chain = l.RemoveWithNotification(w.val(f.Attr, q.X[0]), chain)
			case "Set":
				chain = l.SetWithNotification(q.I, w.val(f.Attr, q.X[0]), chain)
			}
		}
		if chain != nil {
			chain.Dispatch()
		}
		return 0, ""
	}
	if p.K == "Unload" {
		w.ress[-p.O-1].Unload()
		return 0, ""
	}
	if p.K == "Out" {
		ecore.Remove(w.objs[p.O-1])
		return 0, ""
	}
	if p.K == "Cache" {
		w.cacheOp(p)
		return 0, ""
	}
	if p.K == "Deliver" {
		w.objs[p.O-1].ESetDeliver(p.I != 0)
		return 0, ""
	}
	var list ecore.EList
	var f *feat
	attr := false
	if p.K == "Watch" {
		w.moveObserver(p.I-1, p.O)
		return 0, ""
	}
	if p.O == SET {
		list = w.set.GetResources()
	} else if p.O < 0 {
		list = w.ress[-p.O-1].GetContents()
	} else {
		o := w.objs[p.O-1]
		f = w.all[p.F]
		attr = f.Attr
		switch p.K {
		case "SetS":
			if len(p.X) == 0 {
				o.ESet(f.F, nil)
			} else {
				o.ESet(f.F, w.val(attr, p.X[0]))
			}
			return 0, ""
		case "Unset":
			o.EUnset(f.F)
			return 0, ""
		case "SetM":
			xs := []any{}
			for _, x := range p.X {
				xs = append(xs, w.val(attr, x))
			}
			o.ESet(f.F, ecore.NewImmutableEList(xs))
			return 0, ""
		}
		list = w.get(o, f).(ecore.EList)
	}
	xs := []any{}
	for _, x := range p.X {
		xs = append(xs, w.val(attr, x))
	}
	switch p.K {
	case "Add":
		return b2i(list.Add(xs[0])), ""
	case "Insert":
		return b2i(list.Insert(p.I, xs[0])), ""
	case "AddAll":
		return b2i(list.AddAll(ecore.NewImmutableEList(xs))), ""
	case "InsertAll":
		return b2i(list.InsertAll(p.I, ecore.NewImmutableEList(xs))), ""
	case "Remove":
		return b2i(list.Remove(xs[0])), ""
	case "RemoveAt":
		return w.id(list.RemoveAt(p.I)), ""
	case "RemoveRange":
		list.RemoveRange(p.I, p.J)
		return 0, ""
	case "RemoveAll":
		return b2i(list.RemoveAll(ecore.NewImmutableEList(xs))), ""
	case "Set":
		return w.id(list.Set(p.I, xs[0])), ""
	case "Move":
		return w.id(list.Move(p.I, p.J)), ""
	case "MoveObject":
		list.MoveObject(p.I, xs[0])
		return 0, ""
	case "Clear":
		list.Clear()
		return 0, ""
	}
	panic("unknown op " + p.K)
}

// ancestors-or-self through the observed containers
func (w *world) upward(o int) map[int]bool {
	r := map[int]bool{}
	for o > 0 && !r[o] {
		r[o] = true
		c := w.objs[o-1].(ecore.EObjectInternal).EInternalContainer()
		if c == nil {
			break
		}
		o = w.id(c)
	}
	return r
}

func (w *world) compatible(f *feat, x int) bool {
	c, ok := f.F.GetEType().(ecore.EClass)
	if !ok {
		return false
	}
	oc := w.objs[x-1].EClass()
	return c == oc || c.IsSuperTypeOf(oc)
}

// candidates for being put in feature f of object o
func (w *world) candidates(o int, f *feat) []int {
	r := []int{}
	if f.Attr {
		for i := range w.attrV {
			r = append(r, 101+i)
		}
		return r
	}
	var up map[int]bool
	if f.Cont {
		up = w.upward(o)
	}
	for x := 1; x <= len(w.objs); x++ {
		if !w.compatible(f, x) {
			continue
		}
		if f.Cont && up[x] {
			continue // recursive containment is outside the contract
		}
		if f.Container && w.upward(x)[o] {
			continue
		}
		r = append(r, x)
	}
	return r
}

func pick(rnd *rand.Rand, c []int, n int) []int {
	r := []int{}
	for i := 0; i < n && len(c) > 0; i++ {
		r = append(r, c[rnd.Intn(len(c))])
	}
	return r
}

var listKinds = []string{"Add", "Add", "Add", "Insert", "Insert", "AddAll", "InsertAll", "InsertAll", "Remove", "RemoveAt", "RemoveRange", "RemoveAll", "Set", "Set", "Move", "Move", "MoveObject", "Clear"}

func (w *world) randomListOp(rnd *rand.Rand, p op, size int, cands []int, cur []int) (op, bool) {
	p.K = listKinds[rnd.Intn(len(listKinds))]
	idx := func(n int) int { // mostly valid, sometimes just outside
		if rnd.Intn(12) == 0 {
			return []int{-1, n, n + 1}[rnd.Intn(3)]
		}
		if n <= 0 {
			return 0
		}
		return rnd.Intn(n)
	}
	p.X = []int{}
	switch p.K {
	case "Add":
		p.X = pick(rnd, cands, 1)
	case "Insert":
		p.I = idx(size + 1)
		p.X = pick(rnd, cands, 1)
	case "AddAll":
		p.X = pick(rnd, cands, rnd.Intn(w.bulk()))
	case "InsertAll":
		p.I = idx(size + 1)
		p.X = pick(rnd, cands, rnd.Intn(w.bulk()))
	case "Remove", "MoveObject":
		if rnd.Intn(4) > 0 && size > 0 {
			p.X = pick(rnd, cur, 1)
		} else {
			p.X = pick(rnd, cands, 1)
		}
		p.I = idx(size)
		if p.K == "Remove" {
			p.I = 0
		}
	case "RemoveAt":
		p.I = idx(size)
	case "RemoveRange":
		p.I = idx(size)
		p.J = idx(size + 1)
		if p.J < p.I && rnd.Intn(3) > 0 {
			p.I, p.J = p.J, p.I
		}
	case "RemoveAll":
		if rnd.Intn(2) == 0 {
			p.X = pick(rnd, cur, rnd.Intn(w.bulk()))
		} else {
			p.X = pick(rnd, cands, rnd.Intn(w.bulk()))
		}
	case "Set":
		p.I = idx(size)
		p.X = pick(rnd, cands, 1)
	case "Move":
		p.I = idx(size)
		p.J = idx(size)
	case "Clear":
	}
	switch p.K {
	case "Add", "Insert", "Remove", "MoveObject", "Set":
		if len(p.X) == 0 {
			return p, false
		}
	}
	return p, true
}

// randomBatch edits the plain lists of an object through the notification chain
// methods, keeping the sequences of the lists to stay valid
func (w *world) randomBatch(rnd *rand.Rand, o int) (op, bool) {
	p := op{K: "Batch", O: o, X: []int{}, Subs: []op{}}
	plain := []*feat{}
	cur := map[string][]int{}
	for _, f := range w.feats[o-1] {
		if f.Many && !f.Cont && f.Opp == "" && !f.Fixed {
			plain = append(plain, f)
			cur[f.Name] = w.seq(w.get(w.objs[o-1], f))
		}
	}
	if len(plain) == 0 {
		return p, false
	}
	only := plain[rnd.Intn(len(plain))]
	for n := 2 + rnd.Intn(5); n > 0; n-- {
		f := only
		if rnd.Intn(5) == 0 {
			f = plain[rnd.Intn(len(plain))]
		}
		q := cur[f.Name]
		has := func(x int) int {
			for i, y := range q {
				if x == y {
					return i
				}
			}
			return -1
		}
		cands := w.candidates(o, f)
		if len(cands) == 0 {
			return p, false
		}
		x := cands[rnd.Intn(len(cands))]
		s := op{O: o, F: f.Name, X: []int{x}}
		switch k := rnd.Intn(5); {
		case k <= 1 && len(q) > 0:
			s.K, s.X = "Remove", []int{q[rnd.Intn(len(q))]}
			i := has(s.X[0])
			cur[f.Name] = append(append([]int{}, q[:i]...), q[i+1:]...)
		case k == 2 && len(q) > 0 && (has(x) < 0 || !f.Uniq):
			s.K, s.I = "Set", rnd.Intn(len(q))
			q = append([]int{}, q...)
			q[s.I] = x
			cur[f.Name] = q
		default:
			if has(x) >= 0 && f.Uniq {
				continue
			}
			s.K = "Add"
			cur[f.Name] = append(append([]int{}, q...), x)
		}
		p.Subs = append(p.Subs, s)
	}
	return p, len(p.Subs) > 0
}

func (w *world) off() []int {
	r := []int{}
	for i, o := range w.objs {
		if !o.EDeliver() {
			r = append(r, i+1)
		}
	}
	return r
}

// bulk bounds the number of elements of one operation
func (w *world) bulk() int {
	if w.focusLeft > 0 {
		return 8
	}
	return 4
}

// focused edits one list for a while, so that it grows long
func (w *world) focused(rnd *rand.Rand) (op, bool) {
	var f *feat
	var p op
	if w.focusLeft == 0 {
		if rnd.Intn(14) != 0 {
			return p, false
		}
		w.focusO, w.focusF = 1+rnd.Intn(len(w.objs)), ""
		if len(w.ress) > 0 && rnd.Intn(5) == 0 {
			w.focusO = -1 - rnd.Intn(len(w.ress))
		} else {
			many := []*feat{}
			for _, f := range w.feats[w.focusO-1] {
				if f.Many && !f.Fixed && (w.watch == nil || f.Cont) {
					many = append(many, f)
				}
			}
			if len(many) == 0 {
				return p, false
			}
			w.focusF = many[rnd.Intn(len(many))].Name
		}
		w.focusLeft = 5 + rnd.Intn(10)
	} else if rnd.Intn(4) == 0 {
		return p, false
	}
	w.focusLeft--
	p = op{O: w.focusO, F: w.focusF, X: []int{}}
	if p.O < 0 {
		cur := w.seq(w.ress[-p.O-1].GetContents())
		all := []int{}
		for i := range w.objs {
			all = append(all, i+1)
		}
		return w.randomListOp(rnd, p, len(cur), all, cur)
	}
	for _, g := range w.feats[p.O-1] {
		if g.Name == p.F {
			f = g
		}
	}
	cur := w.seq(w.get(w.objs[p.O-1], f))
	return w.randomListOp(rnd, p, len(cur), w.candidates(p.O, f), cur)
}

// crowded takes several objects out of a list at once, or first makes one of them the root of a resource
func (w *world) crowded(rnd *rand.Rand) (op, bool) {
	type list struct {
		o   int
		f   string
		cur []int
	}
	ls := []list{}
	for r := range w.ress {
		if cur := w.seq(w.ress[r].GetContents()); len(cur) > 1 {
			ls = append(ls, list{-(r + 1), "", cur})
		}
	}
	for o, fs := range w.feats {
		for _, f := range fs {
			if f.Cont && f.Many && !f.Fixed {
				if cur := w.seq(w.get(w.objs[o], f)); len(cur) > 1 {
					ls = append(ls, list{o + 1, f.Name, cur})
				}
			}
		}
	}
	if len(ls) == 0 {
		return op{}, false
	}
	l := ls[rnd.Intn(len(ls))]
	p := op{O: l.o, F: l.f, X: []int{}}
	if l.o > 0 && len(w.ress) > 0 && rnd.Intn(2) == 0 {
		return op{O: -1 - rnd.Intn(len(w.ress)), K: "Add", X: []int{l.cur[rnd.Intn(len(l.cur))]}}, true
	}
	switch rnd.Intn(4) {
	case 0:
		p.K = "Clear"
	case 1:
		p.K, p.X = "RemoveAll", append(p.X, l.cur[rnd.Intn(2):]...)
	default:
		p.K = "RemoveRange"
		p.I = rnd.Intn(len(l.cur) - 1)
		p.J = p.I + 2 + rnd.Intn(len(l.cur)-p.I-1)
	}
	return p, true
}

func (w *world) randomOp(rnd *rand.Rand) (op, bool) {
	if p, ok := w.focused(rnd); ok {
		return p, ok
	}
	if w.watch != nil && rnd.Intn(8) == 0 {
		if p, ok := w.crowded(rnd); ok {
			return p, ok
		}
	}
	if w.watch != nil && rnd.Intn(9) == 0 {
		switch k := rnd.Intn(3); k {
		case 0:
			cur := w.seq(w.set.GetResources())
			return w.randomListOp(rnd, op{O: SET}, len(cur), []int{-1, -2, -3}, cur)
		default:
			p := op{K: "Watch", I: 1 + rnd.Intn(len(w.watch)), X: []int{}}
			if w.watch[p.I-1].target == 0 || rnd.Intn(2) == 0 {
				switch rnd.Intn(4) {
				case 0:
					p.O = SET
				case 1:
					p.O = -1 - rnd.Intn(3)
				default:
					p.O = 1 + rnd.Intn(len(w.objs))
				}
			}
			return p, true
		}
	}
	if len(w.ress) > 0 && rnd.Intn(6) == 0 {
		r := rnd.Intn(len(w.ress))
		if rnd.Intn(12) == 0 {
			return op{K: "Unload", O: -(r + 1), X: []int{}}, true
		}
		cur := w.seq(w.ress[r].GetContents())
		all := []int{}
		for i := range w.objs {
			all = append(all, i+1)
		}
		return w.randomListOp(rnd, op{O: -(r + 1), F: ""}, len(cur), all, cur)
	}
	if w.store != nil && rnd.Intn(8) == 0 {
		return w.randomCache(rnd), true
	}
	o := 1 + rnd.Intn(len(w.objs))
	fs := w.feats[o-1]
	switch rnd.Intn(30) {
	case 0:
		if w.watch != nil {
			return op{}, false
		}
		p := op{K: "Deliver", O: o, X: []int{}}
		if !w.objs[o-1].EDeliver() || rnd.Intn(3) == 0 {
			p.I = 1
		}
		return p, true
	case 1, 2:
		return w.randomBatch(rnd, o)
	case 3:
		return op{K: "Out", O: o, X: []int{}}, true
	}
	f := fs[rnd.Intn(len(fs))]
	if w.watch != nil && !f.Cont && !f.Container && rnd.Intn(3) > 0 {
		return op{}, false
	}
	if f.Fixed {
		return op{}, false
	}
	p := op{O: o, F: f.Name, X: []int{}}
	if f.Many {
		switch rnd.Intn(24) {
		case 0:
			p.K = "Unset"
			return p, true
		case 1:
			p.K = "SetM"
			seen := map[int]bool{}
			for _, x := range pick(rnd, w.candidates(o, f), rnd.Intn(4)) {
				if !seen[x] || !f.Uniq {
					p.X = append(p.X, x)
				}
				seen[x] = true
			}
			return p, true
		}
		cur := w.seq(w.get(w.objs[o-1], f))
		return w.randomListOp(rnd, p, len(cur), w.candidates(o, f), cur)
	}
	switch rnd.Intn(6) {
	case 0:
		p.K = "SetS"
		if f.Attr && w.partial { // a string attribute of a generated class takes strings
			p.K = "Unset"
		}
	case 1:
		p.K = "Unset"
	default:
		p.K = "SetS"
		p.X = pick(rnd, w.candidates(o, f), 1)
		if len(p.X) == 0 {
			return p, false
		}
	}
	return p, true
}

func (w *world) step(t *Trace, p op) M { return w.stepAs(t, p, "op") }

type efeature = ecore.EStructuralFeature

func (w *world) stepAs(t *Trace, p op, ev string) M {
	w.notes = []M{}
	for _, ob := range w.watch {
		ob.seen = []M{}
	}
	for i := range w.rlog {
		w.rlog[i] = []int{}
	}
	Enter(p.json())
	defer Leave()
	off := w.off()
	ret, msg := w.apply(p)
	w.unheld(p)
	rl := [][]int{}
	for i := range w.rlog {
		rl = append(rl, append([]int{}, w.rlog[i]...))
	}
	notes := w.notes
	obs, crash := w.safeObserve()
	if crash != "" {
		t.Emit(M{"ev": "hang", "what": p.json(), "why": "reading the state panics: " + crash})
		return nil
	}
	seen := [][]M{}
	for _, ob := range w.watch {
		seen = append(seen, ob.seen)
	}
	e := M{"seen": seen, "ev": ev, "op": p.json(), "ret": ret, "obs": obs, "notes": notes, "rlog": rl, "quiet": w.quiet, "off": off}
	if msg != "" {
		e["msg"] = msg
	}
	t.Emit(e)
	return e
}

func dynWorld(nodes, leaves int, multi bool) *world {
	return dynWorldOf(newDynModel(multi, false), nodes, leaves)
}

func dynWorldOf(m *dynModel, nodes, leaves int) *world {
	w := newWorld()
	fs := func(c ecore.EClass) []*feat {
		r := []*feat{}
		for it := c.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			r = append(r, describe(it.Next().(ecore.EStructuralFeature)))
		}
		return r
	}
	for i := 0; i < nodes; i++ {
		w.reg(m.pkg.GetEFactoryInstance().Create(m.node), fs(m.node))
	}
	for i := 0; i < leaves; i++ {
		w.reg(m.pkg.GetEFactoryInstance().Create(m.leaf), fs(m.leaf))
	}
	return w
}

func facets() []string { return strings.Split(cfg.Facets, ",") }

var staticFeats = map[string]bool{
	"EModelElement.eAnnotations": true, "ENamedElement.name": true,
	"EPackage.eClassifiers": true, "EPackage.eSubPackages": true, "EPackage.eSuperPackage": true,
	"EClassifier.ePackage": true, "EClass.eStructuralFeatures": true, "EClass.eOperations": true,
	"EStructuralFeature.eContainingClass": true, "EOperation.eContainingClass": true,
	"EOperation.eParameters": true, "EParameter.eOperation": true,
	"EAnnotation.eModelElement": true, "EAnnotation.contents": true, "EAnnotation.references": true, "EAnnotation.source": true,
	"EEnum.eLiterals": true, "EEnumLiteral.eEnum": true, "EReference.eKeys": true,
}

// staticWorld: instances of the metamodel itself, i.e. of generated classes
func staticWorld() *world {
	w := newWorld()
	w.partial = true
	f := ecore.GetFactory()
	for _, o := range []ecore.EObject{f.CreateEPackage(), f.CreateEPackage(), f.CreateEClass(), f.CreateEClass(), f.CreateEAttribute(),
		f.CreateEReference(), f.CreateEOperation(), f.CreateEParameter(), f.CreateEAnnotation(), f.CreateEAnnotation(), f.CreateEEnum(), f.CreateEEnumLiteral()} {
		fs := []*feat{}
		for it := o.EClass().GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			if x := describeAs(it.Next().(ecore.EStructuralFeature), qualName); staticFeats[x.Name] {
				x.Fixed = !x.F.IsChangeable()
				fs = append(fs, x)
			}
		}
		w.reg(o, fs)
	}
	return w
}

func (w *world) header(t *Trace) {
	inst := [][]string{}
	for _, o := range w.objs {
		r := []string{o.EClass().GetName()}
		for it := o.EClass().GetEAllSuperTypes().Iterator(); it.HasNext(); {
			r = append(r, it.Next().(ecore.EClass).GetName())
		}
		inst = append(inst, r)
	}
	t.Emit(M{"ev": "meta", "inst": inst, "meta": w.meta(), "feats": w.featsOf(), "nobj": len(w.objs), "nres": len(w.ress), "facets": facets()})
}

// grow makes deep trees, the last objects having several children each
func (w *world) grow(t *Trace, rnd *rand.Rand) {
	perm := rnd.Perm(len(w.objs))
	for i := 1; i < len(perm); i++ {
		x := perm[i] + 1
		o := perm[max(0, i-1-rnd.Intn(3)*rnd.Intn(2))] + 1
		fs := w.feats[o-1]
		for try := 0; try < 20; try++ {
			f := fs[rnd.Intn(len(fs))]
			cur := w.seq(w.get(w.objs[o-1], f))
			if !f.Cont || f.Fixed || !w.compatible(f, x) || w.upward(o)[x] || (!f.Many && len(cur) > 0) {
				continue
			}
			p := op{K: "SetS", O: o, F: f.Name, X: []int{x}}
			if f.Many {
				p.K = "Add"
				if rnd.Intn(3) == 0 {
					p.K, p.I = "Insert", rnd.Intn(len(cur)+1)
				}
			}
			w.step(t, p)
			break
		}
	}
}

func runGraph(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	for h := 0; h < c.N; h++ {
		var w *world
		switch c.Mode {
		case "static":
			w = staticWorld()
		case "keys":
			w = dynWorldOf(newDynModel(false, true), 4, 2)
		case "multi":
			w = dynWorld(2, 4, true)
		case "deep":
			w = dynWorld(5, 5, true)
		case "estore":
			w = estoreWorld(rnd, false)
		case "estoremulti":
			w = estoreWorld(rnd, true)
		case "watch":
			w = dynWorld(3, 3, false)
		case "watchmulti":
			w = dynWorld(2, 4, true)
		case "watchstatic":
			w = staticWorld()
		default:
			w = dynWorld(4, 2, false)
		}
		if strings.HasPrefix(c.Mode, "watch") {
			w.addResources(3, false)
			w.addObservers(rnd, 3)
		} else {
			w.addResources(2, true)
		}
		for _, f := range facets() {
			w.walks = w.walks || f == "walk"
			if f == "ids" {
				w.manage()
			}
			if f == "addr" {
				w.address(rnd, c.Mode == "static")
				if h%3 == 2 {
					w.manage()
				}
			}
		}
		quiet := h%4 == 3
		w.quiet = quiet
		if !quiet {
			w.attach()
		}
		if h == 0 {
			w.header(t)
		}
		t.Emit(M{"ev": "reset", "obs": w.observe(), "quiet": quiet})
		if c.Mode == "deep" {
			w.grow(t, rnd)
		}
		for i := 0; i < c.Len; {
			p, ok := w.randomOp(rnd)
			if !ok {
				continue
			}
			if w.step(t, p) == nil {
				break
			}
			i++
		}
	}
	return nil
}

func init() { scenarios["graph"] = runGraph }
