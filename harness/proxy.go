package main

import (
	"fmt"
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// proxy: references whose values are addresses, read and edited while the
// documents they point to come and go.

type pfeat struct {
	F               ecore.EStructuralFeature
	Many, Res, Cont bool
}

type pdesc struct{ D, T int }

type proxyWorld struct {
	rnd    *rand.Rand
	rs     *ecore.EResourceSetImpl
	conv   *memConverter
	docs   []*ecore.URI
	roots  [][]int
	pool   []ecore.EObject // targets and proxies
	prox   []pdesc
	ids    map[ecore.EObject]int
	owners []ecore.EObject
	feats  [][]pfeat
	in     []bool
	up     []bool // the owner is an object whose container is an address
	notes  []M
	static bool
}

type proxyWatch struct {
	*ecore.AbstractEAdapter
	w *proxyWorld
	o int
}

func (a *proxyWatch) NotifyChanged(n ecore.ENotification) {
	f := -1
	for k, x := range a.w.feats[a.o] {
		if n.GetFeature() == x.F {
			f = k + 1
		}
	}
	if f < 0 {
		return
	}
	a.w.notes = append(a.w.notes, M{"t": int(n.GetEventType()), "f": f, "o": a.w.num(n.GetOldValue()), "n": a.w.num(n.GetNewValue()), "p": n.GetPosition()})
}

func (w *proxyWorld) num(v any) int {
	o, _ := v.(ecore.EObject)
	if o == nil {
		return 0
	}
	if n, ok := w.ids[o]; ok {
		return n
	}
	return -1
}

func (w *proxyWorld) obj(n int) ecore.EObject { return w.pool[n-1] }

func (w *proxyWorld) add(o ecore.EObject, d pdesc) int {
	w.pool = append(w.pool, o)
	w.prox = append(w.prox, d)
	w.ids[o] = len(w.pool)
	return len(w.pool)
}

func newProxyWorld(rnd *rand.Rand, static bool) *proxyWorld {
	w := &proxyWorld{rnd: rnd, ids: map[ecore.EObject]int{}, static: static}
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://proxy")
	p.SetNsPrefix("p")
	node := f.CreateEClassFromContainer(p)
	node.SetName("Node")
	ref := func(c ecore.EClass, name string, many, cont, res bool) ecore.EReference {
		r := f.CreateEReference()
		r.SetName(name)
		r.SetEType(node)
		if many {
			r.SetUpperBound(-1)
		}
		r.SetContainment(cont)
		r.SetResolveProxies(res)
		c.GetEStructuralFeatures().Add(r)
		return r
	}
	owner := f.CreateEClassFromContainer(p)
	owner.SetName("Owner")
	ref(owner, "ref", false, false, true)
	ref(owner, "refs", true, false, true)
	ref(owner, "nref", false, false, false)
	ref(owner, "nrefs", true, false, false)
	ref(owner, "kid", false, true, true)
	ref(owner, "kids", true, true, true)
	ref(owner, "nkids", true, true, false)
	parts := ref(owner, "parts", true, true, true)
	whole := ref(node, "whole", false, false, true)
	whole.SetEType(owner)
	whole.SetEOpposite(parts)
	parts.SetEOpposite(whole)
	mate := ref(owner, "mate", false, false, true)
	mates := ref(owner, "mates", true, false, true)
	back := ref(node, "back", false, false, true)
	back.SetEType(owner)
	backs := ref(node, "backs", true, false, true)
	backs.SetEType(owner)
	for _, x := range [][2]ecore.EReference{{mate, back}, {mates, backs}} {
		x[0].SetEOpposite(x[1])
		x[1].SetEOpposite(x[0])
	}
	n := 0
	make := func() ecore.EObject {
		n++
		if static {
			c := f.CreateEClass()
			c.SetName(fmt.Sprintf("C%d", n))
			return c
		}
		return p.GetEFactoryInstance().Create(node)
	}

	w.conv = &memConverter{EURIConverterImpl: ecore.NewEURIConverterImpl(), docs: map[comps]bool{}}
	w.conv.GetURIMap()[*ecore.NewURI("alias:/")] = *ecore.NewURI("mem:/")
	w.rs = ecore.NewEResourceSetImpl()
	w.rs.SetURIConverter(w.conv)
	if rnd.Intn(2) == 0 {
		w.rs.SetURIResourceMap(map[*ecore.URI]ecore.EResource{})
	}
	codec := &memCodec{func(r ecore.EResource) {
		u := w.conv.Normalize(r.GetURI())
		for d, x := range w.docs {
			if x.Equals(u) {
				for _, t := range w.roots[d] {
					r.GetContents().Add(w.obj(t))
				}
			}
		}
	}}
	w.rs.GetCodecRegistry().GetExtensionToCodecMap()[ecore.DEFAULT_EXTENSION] = codec
	nd := 2 + rnd.Intn(2)
	for d := 0; d < nd; d++ {
		w.docs = append(w.docs, ecore.NewURI(fmt.Sprintf("mem:/d%d", d+1)))
		w.roots = append(w.roots, nil)
		w.conv.docs[compsOf(w.docs[d])] = rnd.Intn(3) > 0
	}
	addr := func(d int, frag string) *ecore.URI {
		return ecore.NewURI(choose(rnd, "mem", "alias") + fmt.Sprintf(":/d%d#%s", d, frag))
	}
	proxyTo := func(d, root, t int) int {
		o := make()
		o.(ecore.EObjectInternal).ESetProxyURI(addr(d, fmt.Sprintf("/%d", root)))
		return w.add(o, pdesc{d, t})
	}
	// targets; the first roots of a document may be addresses in the next one
	for d := nd; d >= 1; d-- {
		for k := 0; k < 3; k++ {
			if d < nd && k == 0 && rnd.Intn(2) == 0 {
				w.roots[d-1] = append(w.roots[d-1], proxyTo(d+1, 1, w.roots[d][1]))
			} else {
				w.roots[d-1] = append(w.roots[d-1], w.add(make(), pdesc{0, 0}))
			}
		}
	}
	for d := 1; d <= nd; d++ {
		for k, t := range w.roots[d-1] {
			proxyTo(d, k, t)
		}
		if rnd.Intn(2) == 0 {
			o := make()
			o.(ecore.EObjectInternal).ESetProxyURI(addr(d, choose(rnd, "/7", "//@none", "id", "/-1", "/0/@kids.3")))
			w.add(o, pdesc{d, 0})
		}
	}
	own := w.rs.CreateResource(ecore.NewURI("own:/o"))
	addOwner := func(o ecore.EObject, in bool, fs []pfeat, up bool) {
		w.owners = append(w.owners, o)
		w.feats = append(w.feats, fs)
		w.in = append(w.in, in)
		w.up = append(w.up, up)
		if in {
			own.GetContents().Add(o)
		}
		a := &proxyWatch{ecore.NewAbstractAdapter(), w, len(w.owners) - 1}
		o.EAdapters().Add(a)
	}
	fof := func(c ecore.EClass, names ...string) []pfeat {
		fs := []pfeat{}
		for _, n := range names {
			r := c.GetEStructuralFeatureFromName(n).(ecore.EReference)
			fs = append(fs, pfeat{r, r.IsMany(), r.IsResolveProxies(), r.IsContainment()})
		}
		return fs
	}
	if static {
		e := ecore.GetPackage()
		addOwner(f.CreateEAnnotation(), true, fof(e.GetEAnnotationClass(), "references"), false)
		addOwner(f.CreateEAttribute(), true, nil, false)
		w.feats[1] = nil
		addOwner(f.CreateEReference(), true, fof(e.GetEReference(), "eType"), false)
		addOwner(f.CreateEOperation(), true, fof(e.GetEOperation(), "eExceptions"), false)
		sub := f.CreateEClass()
		sub.SetName("Sub")
		addOwner(sub, true, fof(e.GetEClass(), "eSuperTypes"), false)
		addOwner(f.CreateEAnnotation(), false, fof(e.GetEAnnotationClass(), "references"), false)
	} else {
		names := []string{}
		for it := owner.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			names = append(names, it.Next().(ecore.EStructuralFeature).GetName())
		}
		for k := 0; k < 3; k++ {
			addOwner(p.GetEFactoryInstance().Create(owner), k < 2, fof(owner, names...), false)
		}
		// objects whose container is an address: the documents hold owners there
		for k := 0; k < 2; k++ {
			c := p.GetEFactoryInstance().Create(node)
			whole := p.GetEFactoryInstance().Create(owner)
			d := 1 + rnd.Intn(nd)
			t := w.add(whole, pdesc{0, 0})
			w.roots[d-1] = append(w.roots[d-1], t)
			px := p.GetEFactoryInstance().Create(owner)
			px.(ecore.EObjectInternal).ESetProxyURI(addr(d, fmt.Sprintf("/%d", len(w.roots[d-1])-1)))
			w.add(px, pdesc{d, t})
			addOwner(c, true, fof(node, "whole"), true)
			c.(ecore.EObjectInternal).ESetInternalContainer(px, c.EClass().GetFeatureID(c.EClass().GetEStructuralFeatureFromName("whole")))
		}
	}
	return w
}

func (w *proxyWorld) raw(o int, f pfeat) []any {
	v := w.owners[o].EGetResolve(f.F, false)
	if !f.Many {
		if x, _ := v.(ecore.EObject); x != nil {
			return []any{x}
		}
		return nil
	}
	l := v.(ecore.EList)
	if ol, _ := l.(ecore.EObjectList); ol != nil {
		l = ol.GetUnResolvedList()
	}
	r := []any{}
	for i := 0; i < l.Size(); i++ {
		r = append(r, l.Get(i))
	}
	return r
}

func (w *proxyWorld) nums(vs []any) []int {
	r := []int{}
	for _, v := range vs {
		r = append(r, w.num(v))
	}
	return r
}

func (w *proxyWorld) observe() (obs M, crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprint(e)
		}
	}()
	val := [][][]int{}
	for o := range w.owners {
		v := [][]int{}
		for _, f := range w.feats[o] {
			v = append(v, w.nums(w.raw(o, f)))
		}
		val = append(val, v)
	}
	stat := []int{}
	for _, d := range w.docs {
		s := 0
		for _, x := range w.rs.GetResources().ToArray() {
			r := x.(ecore.EResource)
			if u := r.GetURI(); u != nil && u.Path() == d.Path() {
				s = 1
				if r.IsLoaded() {
					s = 2
				}
			}
		}
		stat = append(stat, s)
	}
	cont := []int{}
	for _, x := range w.pool {
		c := x.(ecore.EObjectInternal).EInternalContainer()
		n := 0
		for k, o := range w.owners {
			if c == o {
				n = k + 1
			}
		}
		if n == 0 && c != nil {
			n = -1
		}
		cont = append(cont, n)
	}
	return M{"val": val, "stat": stat, "cont": cont}, ""
}

type proxyOp struct {
	K       string
	O       int // 0-based
	Fs      []int
	I, J    int
	X       []int
	B, Raw  bool
	Variant int
}

func (w *proxyWorld) typed(o ecore.EObject, f ecore.EStructuralFeature) (any, bool) {
	switch x := o.(type) {
	case ecore.EReference:
		if f.GetName() == "eType" {
			return x.GetEType(), true
		}
	case ecore.EAnnotation:
		if f.GetName() == "references" {
			return x.GetReferences(), true
		}
	case ecore.EOperation:
		return x.GetEExceptions(), true
	case ecore.EClass:
		return x.GetESuperTypes(), true
	}
	return nil, false
}

func (w *proxyWorld) value(p proxyOp, f pfeat) any {
	o := w.owners[p.O]
	if p.Raw {
		v := o.EGetResolve(f.F, false)
		if l, _ := v.(ecore.EObjectList); l != nil {
			return l.GetUnResolvedList()
		}
		return v
	}
	if w.up[p.O] && p.Variant%2 == 0 {
		return o.EContainer()
	}
	if w.static && p.Variant%2 == 0 {
		if v, ok := w.typed(o, f.F); ok {
			return v
		}
	}
	switch p.Variant % 4 {
	case 0, 1:
		return o.EGet(f.F)
	case 2:
		return o.EGetResolve(f.F, true)
	}
	return o.(ecore.EObjectInternal).EGetFromID(o.EClass().GetFeatureID(f.F), true)
}

func (w *proxyWorld) apply(p proxyOp) (ret []int, msg string) {
	edit := false
	defer func() {
		if e := recover(); e != nil {
			ret, msg = []int{PANIC}, fmt.Sprint(e)
			if edit {
				msg = ""
			}
		}
	}()
	var f pfeat
	if len(p.Fs) > 0 {
		f = w.feats[p.O][p.Fs[0]]
	}
	switch p.K {
	case "Avail":
		w.conv.docs[compsOf(w.docs[p.I-1])] = p.B
		return []int{}, ""
	case "Load":
		w.rs.GetResource(ecore.NewURI(choose(w.rnd, "mem", "alias")+w.docs[p.I-1].Path()[:0]+":"+w.docs[p.I-1].Path()), true)
		return []int{}, ""
	case "Read":
		if len(p.Fs) != 1 || p.J == 1 { // several features at once
			o := w.owners[p.O]
			var l ecore.EList
			cross := !f.Cont
			if cross {
				l = o.ECrossReferences()
			} else {
				l = o.EContents()
			}
			if p.Raw {
				l = l.(ecore.EObjectList).GetUnResolvedList()
			}
			return w.nums(w.each(l, p.Variant)), ""
		}
		v := w.value(p, f)
		if !f.Many {
			if x, _ := v.(ecore.EObject); x != nil {
				return []int{w.num(x)}, ""
			}
			return []int{}, ""
		}
		if p.I >= 0 {
			return []int{w.num(v.(ecore.EList).Get(p.I))}, ""
		}
		return w.nums(w.each(v.(ecore.EList), p.Variant)), ""
	case "IndexOf":
		return []int{w.value(p, f).(ecore.EList).IndexOf(w.obj(p.X[0]))}, ""
	case "Contains":
		return []int{b2i(w.value(p, f).(ecore.EList).Contains(w.obj(p.X[0])))}, ""
	case "Size":
		l := w.value(p, f).(ecore.EList)
		if l.Empty() != (l.Size() == 0) {
			return []int{-1}, ""
		}
		return []int{l.Size()}, ""
	case "Set1":
		w.owners[p.O].ESet(f.F, w.obj(p.X[0]))
		return []int{}, ""
	case "Unset1":
		if p.Variant%2 == 0 {
			w.owners[p.O].EUnset(f.F)
		} else {
			w.owners[p.O].ESet(f.F, nil)
		}
		return []int{}, ""
	}
	edit = true
	xs := []any{}
	for _, x := range p.X {
		xs = append(xs, w.obj(x))
	}
	p.Variant, p.Raw = 0, false
	return []int{applyList(w.value(p, f).(ecore.EList), p.K, p.I, p.J, xs, w.num)}, ""
}

func applyList(l ecore.EList, k string, i, j int, xs []any, num func(any) int) int {
	switch k {
	case "Add":
		return b2i(l.Add(xs[0]))
	case "Insert":
		return b2i(l.Insert(i, xs[0]))
	case "AddAll":
		return b2i(l.AddAll(ecore.NewImmutableEList(xs)))
	case "InsertAll":
		return b2i(l.InsertAll(i, ecore.NewImmutableEList(xs)))
	case "Remove":
		return b2i(l.Remove(xs[0]))
	case "RemoveAt":
		return num(l.RemoveAt(i))
	case "RemoveRange":
		l.RemoveRange(i, j)
	case "RemoveAll":
		return b2i(l.RemoveAll(ecore.NewImmutableEList(xs)))
	case "Set":
		return num(l.Set(i, xs[0]))
	case "Move":
		return num(l.Move(i, j))
	case "MoveObject":
		l.MoveObject(i, xs[0])
	case "Clear":
		l.Clear()
	default:
		panic("unknown op " + k)
	}
	return 0
}

func (w *proxyWorld) each(l ecore.EList, variant int) []any {
	r := []any{}
	switch variant % 4 {
	case 0:
		for it := l.Iterator(); it.HasNext(); {
			r = append(r, it.Next())
		}
	case 1:
		for x := range l.All() {
			r = append(r, x)
		}
	case 2:
		r = append(r, l.ToArray()...)
	case 3:
		for n := l.Size(); len(r) < n; {
			r = append(r, l.Get(len(r)))
		}
	}
	return r
}

// where an address leads when every document can be read
func (w *proxyWorld) end(x int) int {
	for x > 0 && w.prox[x-1].D != 0 && w.prox[x-1].T != 0 {
		x = w.prox[x-1].T
	}
	return x
}

// an address that leads to x now
func (w *proxyWorld) reaches(o, p, x int) bool {
	if !w.in[o] {
		return false
	}
	stat := map[int]bool{}
	for _, v := range w.rs.GetResources().ToArray() {
		for d, u := range w.docs {
			if r := v.(ecore.EResource); r.GetURI() != nil && r.GetURI().Path() == u.Path() && r.IsLoaded() {
				stat[d+1] = true
			}
		}
	}
	for p > 0 && p != x {
		d := w.prox[p-1]
		if d.D == 0 || d.T == 0 || !(stat[d.D] || w.conv.docs[compsOf(w.docs[d.D-1])]) {
			return false
		}
		p = d.T
	}
	return p == x
}

func hasOpp(f pfeat) bool { r, _ := f.F.(ecore.EReference); return r != nil && r.GetEOpposite() != nil }

// x is the root of a document that is not there yet
func (w *proxyWorld) early(x int) bool {
	for d, q := range w.roots {
		for _, t := range q {
			if t == x {
				for _, v := range w.rs.GetResources().ToArray() {
					if r := v.(ecore.EResource); r.GetURI() != nil && r.GetURI().Path() == w.docs[d].Path() && r.IsLoaded() {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

func (w *proxyWorld) isRoot(x int) bool {
	for _, q := range w.roots {
		for _, t := range q {
			if t == x {
				return true
			}
		}
	}
	return false
}

// x may be put into feature f of owner o, whose values are cur
func (w *proxyWorld) fits(o int, f pfeat, x int, cur []int) bool {
	for _, c := range cur {
		if w.end(c) == w.end(x) && c != x && !(f.Res && w.reaches(o, c, x)) {
			return false
		}
	}
	for _, c := range cur {
		if c == x {
			return true
		}
	}
	if !w.static && w.obj(x).EClass() != w.owners[0].EClass().GetEStructuralFeatureFromName("ref").GetEType() {
		return false
	}
	if w.static && w.owners[o].EClass() == ecore.GetPackage().GetEClass() {
		// classes that inherit from each other are outside
		if x, _ := w.obj(x).(ecore.EClass); x == nil {
			return false
		}
	}
	if f.Cont && (w.early(x) || (!f.Res && w.isRoot(x))) {
		return false
	}
	if f.Cont || hasOpp(f) {
		for k := range w.owners {
			for _, g := range w.feats[k] {
				if (g.Cont || (hasOpp(f) && g.F == f.F)) && (k != o || g.F != f.F) {
					for _, c := range w.nums(w.raw(k, g)) {
						if w.end(c) == w.end(x) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func (w *proxyWorld) next(rnd *rand.Rand) (p proxyOp, ok bool) {
	p = proxyOp{O: rnd.Intn(len(w.owners)), I: -1, X: []int{}, Fs: []int{}, Variant: rnd.Intn(4)}
	if n := rnd.Intn(40); n < 3 {
		p.K, p.I, p.B = "Avail", 1+rnd.Intn(len(w.docs)), rnd.Intn(2) == 0
		return p, true
	} else if n == 3 {
		p.K, p.I = "Load", 1+rnd.Intn(len(w.docs))
		return p, true
	}
	fs := w.feats[p.O]
	if len(fs) == 0 {
		return p, false
	}
	k := rnd.Intn(len(fs))
	f := fs[k]
	p.Fs = []int{k}
	cur := w.nums(w.raw(p.O, f))
	p.Raw = rnd.Intn(4) == 0
	all := []int{}
	for x := range w.pool {
		all = append(all, x+1)
	}
	switch n := rnd.Intn(100); {
	case n < 8 && !w.static && !w.up[p.O]:
		p.K, p.J, p.Fs = "Read", 1, []int{}
		for k, g := range fs {
			if g.Cont == f.Cont {
				p.Fs = append(p.Fs, k)
			}
		}
		if p.Variant == 3 { // by index, each read starts again
			p.Variant = 0
		}
	case n < 22 && f.Many && len(cur) > 0:
		p.K, p.I = "Read", rnd.Intn(len(cur))
	case n < 36:
		p.K = "Read"
		if !f.Many {
			p.I = -1
		}
	case n < 46 && f.Many:
		p.K, p.X = choose(rnd, "IndexOf", "Contains"), pick(rnd, all, 1)
		if len(cur) > 0 && rnd.Intn(3) > 0 {
			p.X = pick(rnd, cur, 1)
			if rnd.Intn(2) == 0 {
				p.X = []int{w.end(p.X[0])}
			}
		}
	case n < 50 && f.Many:
		p.K = "Size"
	case w.up[p.O]:
		p.K = "Read"
	case !f.Many:
		p.Raw = false
		if rnd.Intn(4) == 0 {
			p.K = "Unset1"
			if w.static && p.Variant%2 == 1 {
				p.Variant = 0
			}
			return p, true
		}
		p.K, p.X = "Set1", pick(rnd, all, 1)
		if len(cur) == 1 && w.end(cur[0]) == w.end(p.X[0]) {
			return p, false
		}
		return p, w.fits(p.O, f, p.X[0], nil)
	default:
		p.Raw = false
		g := &world{}
		o, ok := g.randomListOp(rnd, op{}, len(cur), all, cur)
		if !ok || (o.K == "Clear" && rnd.Intn(2) > 0) {
			return p, false
		}
		p.K, p.I, p.J, p.X = o.K, o.I, o.J, o.X
		if rnd.Intn(3) == 0 && len(p.X) == 1 && len(cur) > 0 { // the object behind an address of the list
			p.X[0] = w.end(cur[rnd.Intn(len(cur))])
		}
		if p.K == "AddAll" || p.K == "InsertAll" || p.K == "RemoveAll" { // the search for one element may replace the address that is another one
			for _, x := range p.X {
				for _, c := range cur {
					if c == x && w.prox[x-1].D != 0 {
						return p, false
					}
				}
			}
		}
		switch p.K {
		case "Add", "Insert", "AddAll", "InsertAll", "Set":
			seq := append([]int{}, cur...)
			for i, x := range p.X {
				if !w.fits(p.O, f, x, seq) {
					return p, false
				}
				for _, y := range p.X[:i] { // the elements of a batch are not searched for in the batch
					if y != x && w.end(y) == w.end(x) {
						return p, false
					}
				}
				seq = append(seq, x)
			}
			if len(seq) > 7 {
				return p, false
			}
		}
	}
	return p, true
}

func (p proxyOp) event() M {
	fs := []int{}
	for _, f := range p.Fs {
		fs = append(fs, f+1)
	}
	return M{"k": p.K, "o": p.O + 1, "fs": fs, "i": p.I, "j": p.J, "x": p.X, "b": p.B, "raw": p.Raw, "v": p.Variant}
}

func runProxy(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "facets": facets()})
	for h := 0; h < c.N; h++ {
		w := newProxyWorld(rnd, c.Mode == "static")
		obs, _ := w.observe()
		prox, feats, avail := []M{}, [][]M{}, []bool{}
		for _, d := range w.prox {
			prox = append(prox, M{"d": d.D, "t": d.T})
		}
		for _, fs := range w.feats {
			l := []M{}
			for _, f := range fs {
				l = append(l, M{"many": f.Many, "res": f.Res, "cont": f.Cont})
			}
			feats = append(feats, l)
		}
		for _, d := range w.docs {
			avail = append(avail, w.conv.docs[compsOf(d)])
		}
		t.Emit(M{"ev": "reset", "obs": obs, "prox": prox, "feats": feats, "in": w.in, "avail": avail})
		for n := 0; n < c.Len; n++ {
			p, ok := w.next(rnd)
			if !ok {
				continue
			}
			w.notes = []M{}
			Enter(p.event())
			ret, msg := w.apply(p)
			notes := w.notes
			obs, crash := w.observe()
			Leave()
			if crash != "" {
				t.Emit(M{"ev": "hang", "what": p.event(), "why": "reading panics: " + crash})
				break
			}
			t.Emit(M{"ev": "op", "op": p.event(), "ret": ret, "obs": obs, "msg": msg, "notes": notes})
			if msg != "" {
				break
			}
		}
	}
	return nil
}

func init() { scenarios["proxy"] = runProxy }
