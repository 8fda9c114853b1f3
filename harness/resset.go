package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/masagroup/soft.go/ecore"
)

// resset: two resource sets that share a URI converter, with chains of package
// and codec registries.

// memConverter serves the documents of a set of addresses and records the reads
type memConverter struct {
	*ecore.EURIConverterImpl
	docs  map[comps]bool
	reads []M
}

func (c *memConverter) CreateReader(uri *ecore.URI) (io.ReadCloser, error) {
	n := c.Normalize(uri)
	c.reads = append(c.reads, uriEvent(n))
	if c.docs[compsOf(n)] {
		return io.NopCloser(strings.NewReader("")), nil
	}
	return nil, errors.New("no document")
}

// memCodec: a decoder that fills the resource
type memCodec struct {
	fill func(r ecore.EResource)
}

type memDecoder struct {
	codec    *memCodec
	resource ecore.EResource
}

func (c *memCodec) NewEncoder(r ecore.EResource, w io.Writer, o map[string]any) ecore.EEncoder {
	return nil
}

func (c *memCodec) NewDecoder(r ecore.EResource, rd io.Reader, o map[string]any) ecore.EDecoder {
	return &memDecoder{c, r}
}

func (d *memDecoder) DecodeResource() { d.codec.fill(d.resource) }

func (d *memDecoder) DecodeObject() (ecore.EObject, error) { return nil, nil }

type rsWorld struct {
	rnd    *rand.Rand
	conv   *memConverter
	sets   []ecore.EResourceSet
	packs  []ecore.EPackageRegistry
	codecs []ecore.ECodecRegistry
	pool   []ecore.EPackage
	cpool  []*memCodec
	res    []ecore.EResource
	ids    map[ecore.EResource]int
	uris   []*ecore.URI
	ns     []string
	global bool
	pres   []int
}

func (w *rsWorld) id(r ecore.EResource) int {
	if r == nil {
		return 0
	}
	if n, ok := w.ids[r]; ok {
		return n
	}
	w.res = append(w.res, r)
	w.ids[r] = len(w.res)
	return len(w.res)
}

func newRSWorld(rnd *rand.Rand) *rsWorld {
	w := &rsWorld{rnd: rnd, ids: map[ecore.EResource]int{}, global: rnd.Intn(2) == 0}
	w.conv = &memConverter{EURIConverterImpl: ecore.NewEURIConverterImpl(), docs: map[comps]bool{}}
	f := ecore.GetFactory()
	paths := []string{"/x", "/x/y.m", "/xy", "/x/z", "/x/y.n", "", "/y", "/z/y.m"}
	for _, s := range []string{"a", "b", "c"} {
		for _, p := range paths {
			if rnd.Intn(3) == 0 {
				continue
			}
			u := uriText(comps{s, "", "", "h", "", p, "", ""})
			if rnd.Intn(8) == 0 {
				u += "?q"
			}
			for n := 1 + rnd.Intn(2); n > 0; n-- { // equal addresses, distinct URIs
				v, err := ecore.ParseURI(u)
				if err != nil {
					panic(err)
				}
				w.uris = append(w.uris, v)
			}
		}
	}
	for _, u := range w.uris {
		if rnd.Intn(3) > 0 {
			w.conv.docs[compsOf(u)] = true
		}
	}
	w.ns = append(w.ns, "http://other")
	for i := 0; i < 3; i++ {
		p := f.CreateEPackage()
		p.SetName(fmt.Sprintf("p%d", i))
		u := w.uris[rnd.Intn(len(w.uris))]
		p.SetNsURI(u.String())
		p.SetNsPrefix("p")
		p.SetEFactoryInstance(f.CreateEFactory())
		w.pool = append(w.pool, p)
		w.ns = append(w.ns, u.String())
		w.pres = append(w.pres, 0)
		if rnd.Intn(2) == 0 {
			r := ecore.NewEResourceImpl()
			r.SetURI(w.uris[rnd.Intn(len(w.uris))])
			r.GetContents().Add(p)
			w.pres[i] = w.id(r)
		}
	}
	for i := 0; i < 4; i++ {
		w.cpool = append(w.cpool, &memCodec{func(r ecore.EResource) {
			o := f.CreateEAnnotation()
			r.GetContents().Add(o)
		}})
	}
	for i := 0; i < 2; i++ {
		rs := ecore.NewEResourceSetImpl()
		rs.SetURIConverter(w.conv)
		if !w.global {
			if i == 0 {
				w.packs = append(w.packs, nil, nil, ecore.NewEPackageRegistryImpl())
				w.codecs = append(w.codecs, nil, nil, ecore.NewECodecRegistryImpl())
			}
			rs.SetPackageRegistry(ecore.NewEPackageRegistryImplWithDelegate(w.packs[2]))
			rs.SetCodecRegistry(ecore.NewECodecRegistryImplWithDelegate(w.codecs[2]))
		} else if i == 0 {
			w.packs = append(w.packs, nil, nil, ecore.GetPackageRegistry())
			w.codecs = append(w.codecs, nil, nil, ecore.GetCodecRegistry())
		}
		w.sets = append(w.sets, rs)
		w.packs[i], w.codecs[i] = rs.GetPackageRegistry(), rs.GetCodecRegistry()
	}
	return w
}

// leave the registries of the process as they were
func (w *rsWorld) close() {
	for _, ns := range w.ns {
		w.packs[2].Remove(ns)
	}
	for _, m := range []map[string]ecore.ECodec{w.codecs[2].GetProtocolToCodecMap(), w.codecs[2].GetExtensionToCodecMap()} {
		for k, c := range m {
			if _, ok := c.(*memCodec); ok {
				delete(m, k)
			}
		}
	}
}

func (w *rsWorld) observe() (M, string) {
	crash := ""
	obs := M{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				crash = fmt.Sprint(e)
			}
		}()
		sets := [][]int{}
		for _, s := range w.sets {
			q := []int{}
			for _, r := range s.GetResources().ToArray() {
				q = append(q, w.id(r.(ecore.EResource)))
			}
			sets = append(sets, q)
		}
		uris, loaded, rset := [][]M{}, []bool{}, []int{}
		for i := 0; i < len(w.res); i++ {
			r := w.res[i]
			u := []M{}
			if x := r.GetURI(); x != nil {
				u = append(u, uriEvent(x))
			}
			uris = append(uris, u)
			loaded = append(loaded, r.IsLoaded())
			n := 0
			for k, s := range w.sets {
				if r.GetResourceSet() == s {
					n = k + 1
				}
			}
			if n == 0 && r.GetResourceSet() != nil {
				n = -1
			}
			rset = append(rset, n)
		}
		obs = M{"sets": sets, "uri": uris, "loaded": loaded, "rset": rset}
	}()
	return obs, crash
}

type rsOp struct {
	K, Kind, Key string
	Text         string
	O, I, J      int
	X            []int
	U, V         *ecore.URI
	D            bool
	Variant      int
}

func (p rsOp) event() M {
	e := M{"k": p.K, "kind": p.Kind, "key": codes(p.Key), "text": p.Text, "o": p.O, "i": p.I, "j": p.J, "x": p.X, "d": p.D, "v2": p.Variant}
	if p.K == "SetURI" {
		e["us"] = []M{}
		if p.U != nil {
			e["us"] = []M{uriEvent(p.U)}
		}
		return e
	}
	if p.U != nil {
		e["u"] = uriEvent(p.U)
	}
	if p.V != nil {
		e["v"] = uriEvent(p.V)
	}
	return e
}

func (w *rsWorld) apply(p rsOp) (ret any, msg string) {
	list := false
	defer func() {
		if e := recover(); e != nil {
			ret, msg = PANIC, fmt.Sprint(e)
			if list {
				msg = ""
			}
		}
	}()
	switch p.K {
	case "Get":
		return w.id(w.sets[p.O-1].GetResource(p.U, p.D)), ""
	case "GetObj":
		o := w.sets[p.O-1].GetEObject(ecore.NewURIBuilder(p.U).SetFragment("/").URI(), p.D)
		if o == nil {
			return 0, ""
		}
		return w.id(o.EResource()), ""
	case "Create":
		return w.id(w.sets[p.O-1].CreateResource(p.U)), ""
	case "SetURI":
		w.res[p.O-1].SetURI(p.U)
	case "Map":
		w.conv.GetURIMap()[*p.U] = *p.V
	case "Unmap":
		for k := range w.conv.GetURIMap() {
			if k.Equals(p.U) {
				delete(w.conv.GetURIMap(), k)
			}
		}
	case "Norm":
		return uriEvent(w.conv.Normalize(p.U)), ""
	case "Load":
		w.res[p.O-1].Load()
	case "Unload":
		w.res[p.O-1].Unload()
	case "Cache":
		var m map[*ecore.URI]ecore.EResource
		if p.D {
			m = map[*ecore.URI]ecore.EResource{}
		}
		w.sets[p.O-1].(*ecore.EResourceSetImpl).SetURIResourceMap(m)
	case "PutPack":
		r, q := w.packs[p.O-1], w.pool[p.I-1]
		switch {
		case p.Variant == 0 && q.GetNsURI() == p.Text:
			r.RegisterPackage(q)
		case p.Variant == 1:
			r.PutSupplier(p.Text, func() ecore.EPackage { return q })
		default:
			r.PutPackage(p.Text, q)
		}
	case "RemPack":
		r := w.packs[p.O-1]
		if p.Variant == 0 {
			for _, q := range w.pool {
				if q.GetNsURI() == p.Text {
					r.UnregisterPackage(q)
					return 0, ""
				}
			}
		}
		r.Remove(p.Text)
	case "FindPack":
		if p.Variant == 0 {
			q := w.packs[p.O-1].GetFactory(p.Text)
			for i, x := range w.pool {
				if q != nil && x.GetEFactoryInstance() == q {
					return i + 1, ""
				}
			}
			return b2i(q != nil) * -1, ""
		}
		q := w.packs[p.O-1].GetPackage(p.Text)
		for i, x := range w.pool {
			if x == q {
				return i + 1, ""
			}
		}
		return b2i(q != nil) * -1, ""
	case "PutCodec":
		switch p.Kind {
		case "p":
			w.codecs[p.O-1].GetProtocolToCodecMap()[p.Key] = w.cpool[p.I-1]
		case "e":
			w.codecs[p.O-1].GetExtensionToCodecMap()[p.Key] = w.cpool[p.I-1]
		case "*":
			w.codecs[p.O-1].GetExtensionToCodecMap()[ecore.DEFAULT_EXTENSION] = w.cpool[p.I-1]
		}
	case "RemCodec":
		switch p.Kind {
		case "p":
			delete(w.codecs[p.O-1].GetProtocolToCodecMap(), p.Key)
		case "e":
			delete(w.codecs[p.O-1].GetExtensionToCodecMap(), p.Key)
		case "*":
			delete(w.codecs[p.O-1].GetExtensionToCodecMap(), ecore.DEFAULT_EXTENSION)
		}
	case "FindCodec":
		q := w.codecs[p.O-1].GetCodec(p.U)
		for i, x := range w.cpool {
			if q == ecore.ECodec(x) {
				return i + 1, ""
			}
		}
		return b2i(q != nil) * -1, ""
	default:
		list = true
		l := w.sets[p.O-1].GetResources()
		xs := []any{}
		for _, x := range p.X {
			xs = append(xs, w.res[x-1])
		}
		switch p.K {
		case "Add":
			return b2i(l.Add(xs[0])), ""
		case "Insert":
			return b2i(l.Insert(p.I, xs[0])), ""
		case "AddAll":
			return b2i(l.AddAll(ecore.NewImmutableEList(xs))), ""
		case "InsertAll":
			return b2i(l.InsertAll(p.I, ecore.NewImmutableEList(xs))), ""
		case "Remove":
			return b2i(l.Remove(xs[0])), ""
		case "RemoveAt":
			return w.id(l.RemoveAt(p.I).(ecore.EResource)), ""
		case "RemoveRange":
			l.RemoveRange(p.I, p.J)
		case "RemoveAll":
			return b2i(l.RemoveAll(ecore.NewImmutableEList(xs))), ""
		case "Set":
			return w.id(l.Set(p.I, xs[0]).(ecore.EResource)), ""
		case "Move":
			return w.id(l.Move(p.I, p.J).(ecore.EResource)), ""
		case "MoveObject":
			l.MoveObject(p.I, xs[0])
		case "Clear":
			l.Clear()
		default:
			panic("unknown op " + p.K)
		}
	}
	return 0, ""
}

func (w *rsWorld) isPres(n int) bool {
	for _, x := range w.pres {
		if x == n {
			return true
		}
	}
	return false
}

func (w *rsWorld) next(rnd *rand.Rand) (p rsOp, ok bool) {
	uri := func() *ecore.URI { return w.uris[rnd.Intn(len(w.uris))] }
	p = rsOp{O: 1 + rnd.Intn(2), X: []int{}, Variant: rnd.Intn(3), D: rnd.Intn(2) == 0, Text: w.ns[rnd.Intn(len(w.ns))]}
	level := 1 + rnd.Intn(3)
	switch n := rnd.Intn(100); {
	case n < 26:
		p.K, p.U = "Get", uri()
		p.Text = p.U.String()
		if len(w.res) > 10 && p.D {
			p.D = false
		}
	case n < 32:
		p.K, p.U = "GetObj", uri()
		p.Text = p.U.String()
		if len(w.res) > 10 && p.D {
			p.D = false
		}
	case n < 36:
		if len(w.res) > 9 {
			return p, false
		}
		p.K, p.U = "Create", uri()
	case n < 44:
		if len(w.res) == 0 {
			return p, false
		}
		p.K, p.O, p.U = "SetURI", 1+rnd.Intn(len(w.res)), uri()
		if rnd.Intn(8) == 0 {
			p.U = nil
		}
	case n < 54:
		p.K, p.U = "Map", w.prefix(uri())
		if rnd.Intn(3) == 0 { // within a scheme; a later first letter, so that no mapping leads back
			u := uri()
			from := rnd.Intn(2)
			to := from + 1 + rnd.Intn(2-from)
			p.U = ecore.NewURIBuilder(u).SetPath("/" + "xyz"[from:from+1] + choose(rnd, "", "", "/y")).SetQuery("").SetFragment("").URI()
			p.V = ecore.NewURIBuilder(u).SetPath("/" + "xyz"[to:to+1] + choose(rnd, "", "", "/y")).SetQuery("").SetFragment("").URI()
			return p, len(p.U.Scheme()) > 0
		}
		if len(p.U.Scheme()) == 0 || p.U.Scheme() == "c" {
			return p, false
		}
		to := "b"
		if p.U.Scheme() == "b" || rnd.Intn(2) == 0 {
			to = "c"
		}
		p.V = w.prefix(ecore.NewURIBuilder(uri()).SetScheme(to).URI())
	case n < 57:
		if len(w.conv.GetURIMap()) == 0 {
			return p, false
		}
		p.K = "Unmap"
		for k := range w.conv.GetURIMap() { // the choice does not matter, but it must be reproducible
			if p.U == nil || k.String() < p.U.String() {
				c := k
				p.U = &c
			}
		}
	case n < 62:
		p.K, p.U = "Norm", uri()
	case n < 66:
		if len(w.res) == 0 {
			return p, false
		}
		p.K, p.O = "Load", 1+rnd.Intn(len(w.res))
		if w.res[p.O-1].GetResourceSet() == nil {
			return p, false
		}
	case n < 69:
		if len(w.res) == 0 {
			return p, false
		}
		p.K, p.O = "Unload", 1+rnd.Intn(len(w.res))
		if w.isPres(p.O) {
			return p, false
		}
	case n < 72:
		p.K = "Cache"
		p.D = rnd.Intn(3) > 0
	case n < 76:
		p.K, p.O, p.I = "PutPack", level, 1+rnd.Intn(3)
	case n < 78:
		p.K, p.O = "RemPack", level
	case n < 82:
		p.K, p.O = "FindPack", level
	case n < 85:
		p.K, p.O, p.I = "PutCodec", level, 1+rnd.Intn(4)
		p.Kind, p.Key = w.codecKey(rnd)
	case n < 87:
		p.K, p.O = "RemCodec", level
		p.Kind, p.Key = w.codecKey(rnd)
	case n < 90:
		p.K, p.O, p.U = "FindCodec", level, uri()
	default:
		all, cur := []int{}, []int{}
		for x := range w.res {
			all = append(all, x+1)
		}
		for _, r := range w.sets[p.O-1].GetResources().ToArray() {
			cur = append(cur, w.id(r.(ecore.EResource)))
		}
		if len(all) == 0 {
			return p, false
		}
		g := &world{}
		o, ok := g.randomListOp(rnd, op{}, len(cur), all, cur)
		if !ok || (o.K == "Clear" && rnd.Intn(3) > 0) {
			return p, false
		}
		p.K, p.I, p.J, p.X = o.K, o.I, o.J, o.X
	}
	return p, true
}

// a prefix of an address; one per text
func (w *rsWorld) prefix(u *ecore.URI) *ecore.URI {
	p := u.Path()
	if p != "" {
		p = p[:w.rnd.Intn(len(p)+1)]
	}
	return ecore.NewURIBuilder(u).SetPath(p).SetQuery("").SetFragment("").URI()
}

func (w *rsWorld) codecKey(rnd *rand.Rand) (string, string) {
	switch rnd.Intn(4) {
	case 0:
		return "p", choose(rnd, "a", "b", "c")
	case 1:
		return "*", ""
	}
	return "e", choose(rnd, "m", "n")
}

func runResSet(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "facets": facets()})
	for h := 0; h < c.N; h++ {
		w := newRSWorld(rnd)
		obs, _ := w.observe()
		avail := []M{}
		for _, u := range w.uris {
			if w.conv.docs[compsOf(u)] {
				avail = append(avail, uriEvent(u))
			}
		}
		t.Emit(M{"ev": "reset", "uri": obs["uri"], "loaded": obs["loaded"], "avail": avail, "pres": w.pres})
		for n := 0; n < c.Len; n++ {
			p, ok := w.next(rnd)
			if !ok {
				continue
			}
			if p.K == "SetURI" {
				p.V = nil
			}
			e := p.event()
			w.conv.reads = []M{}
			Enter(e)
			ret, msg := w.apply(p)
			reads := w.conv.reads
			obs, crash := w.observe()
			Leave()
			if crash != "" {
				t.Emit(M{"ev": "hang", "what": e, "why": "reading panics: " + crash})
				break
			}
			t.Emit(M{"ev": "op", "op": e, "ret": ret, "obs": obs, "msg": msg, "reads": reads})
			if msg != "" {
				break
			}
		}
		w.close()
	}
	return nil
}

func init() { scenarios["resset"] = runResSet }
