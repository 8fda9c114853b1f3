package main

import (
	"fmt"
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// maps: maps of every kind, edited by key and through the list of their entries.

const mapKeys = 5
const mapVals = 4

type mapWorld struct {
	maps    []ecore.EMap
	owners  []ecore.EObject
	feats   []ecore.EStructuralFeature
	kinds   []string
	entries []ecore.EMapEntry
	ids     map[ecore.EMapEntry]int
	pool    []ecore.EObject // the values that are objects
	entryC  map[string]ecore.EClass
	free    map[int]bool
}

func mapEntryClass(p ecore.EPackage, name string, value ecore.EStructuralFeature) ecore.EClass {
	f := ecore.GetFactory()
	c := f.CreateEClassFromContainer(p)
	c.SetName(name)
	c.SetInstanceTypeName("java.util.Map.Entry")
	k := f.CreateEAttribute()
	k.SetName("key")
	k.SetEType(ecore.GetPackage().GetEString())
	c.GetEStructuralFeatures().Add(k)
	value.SetName("value")
	c.GetEStructuralFeatures().Add(value)
	return c
}

func newMapWorld(rnd *rand.Rand) *mapWorld {
	w := &mapWorld{ids: map[ecore.EMapEntry]int{}, entryC: map[string]ecore.EClass{}, free: map[int]bool{}}
	f := ecore.GetFactory()
	p := f.CreateEPackage()
	p.SetName("p")
	p.SetNsURI("http://maps")
	p.SetNsPrefix("p")
	val := f.CreateEAttribute()
	val.SetEType(ecore.GetPackage().GetEString())
	w.entryC["attr"] = mapEntryClass(p, "AttrEntry", val)
	item := f.CreateEClassFromContainer(p)
	item.SetName("Item")
	ref := f.CreateEReference()
	ref.SetEType(item)
	w.entryC["ref"] = mapEntryClass(p, "RefEntry", ref)
	// entries that know their map
	val2 := f.CreateEAttribute()
	val2.SetEType(ecore.GetPackage().GetEString())
	w.entryC["bidi"] = mapEntryClass(p, "BidiEntry", val2)
	owner := f.CreateEClassFromContainer(p)
	owner.SetName("Owner")
	feats := map[string]ecore.EStructuralFeature{}
	for _, k := range []string{"attr", "ref", "bidi"} {
		r := f.CreateEReference()
		r.SetName(k)
		r.SetEType(w.entryC[k])
		r.SetUpperBound(-1)
		r.SetContainment(true)
		owner.GetEStructuralFeatures().Add(r)
		feats[k] = r
		if k == "bidi" {
			b := f.CreateEReference()
			b.SetName("owner")
			b.SetEType(owner)
			w.entryC[k].GetEStructuralFeatures().Add(b)
			b.SetEOpposite(r)
			r.SetEOpposite(b)
		}
	}
	for i := 0; i < mapVals; i++ {
		w.pool = append(w.pool, p.GetEFactoryInstance().Create(item))
	}
	o := []ecore.EObject{p.GetEFactoryInstance().Create(owner), p.GetEFactoryInstance().Create(owner)}
	a := []ecore.EAnnotation{f.CreateEAnnotation(), f.CreateEAnnotation()}
	kind := []string{"basic", "details", "attr", "ref", "bidi"}[rnd.Intn(5)]
	for i := 0; i < 2; i++ {
		w.kinds = append(w.kinds, kind)
		switch kind {
		case "basic":
			w.owners = append(w.owners, nil)
			w.feats = append(w.feats, nil)
			w.maps = append(w.maps, ecore.NewBasicEMap())
		case "details":
			w.owners = append(w.owners, a[i])
			w.feats = append(w.feats, a[i].EClass().GetEStructuralFeatureFromName("details"))
			w.maps = append(w.maps, a[i].GetDetails())
		default:
			w.owners = append(w.owners, o[i])
			w.feats = append(w.feats, feats[kind])
			if rnd.Intn(2) == 0 {
				w.maps = append(w.maps, nil) // first reached by an operation
			} else {
				w.maps = append(w.maps, o[i].EGet(feats[kind]).(ecore.EMap))
			}
		}
	}
	return w
}

func (w *mapWorld) m(i int) ecore.EMap {
	if w.maps[i] == nil || (w.owners[i] != nil) {
		w.maps[i] = w.owners[i].EGet(w.feats[i]).(ecore.EMap)
	}
	return w.maps[i]
}

func (w *mapWorld) key(k int) any { return fmt.Sprintf("k%d", k) }
func (w *mapWorld) keyN(k any) int {
	n := 0
	if s, ok := k.(string); ok {
		fmt.Sscanf(s, "k%d", &n)
	}
	return n
}
func (w *mapWorld) val(v int) any {
	if w.kinds[0] == "ref" {
		if v == 0 {
			return nil
		}
		return w.pool[v-1]
	}
	if w.kinds[0] == "basic" && v == 0 {
		return nil
	}
	if v == 0 {
		return ""
	}
	return fmt.Sprintf("v%d", v)
}
func (w *mapWorld) valN(v any) int {
	n := 0
	if s, ok := v.(string); ok {
		fmt.Sscanf(s, "v%d", &n)
	} else if o, ok := v.(ecore.EObject); ok {
		for i, x := range w.pool {
			if x == o {
				n = i + 1
			}
		}
	}
	return n
}

type plainEntry struct{ k, v any }

func (e *plainEntry) GetKey() any    { return e.k }
func (e *plainEntry) SetKey(k any)   { e.k = k }
func (e *plainEntry) GetValue() any  { return e.v }
func (e *plainEntry) SetValue(v any) { e.v = v }

func (w *mapWorld) newEntry(k, v int) int {
	var e ecore.EMapEntry
	switch w.kinds[0] {
	case "basic":
		e = &plainEntry{}
	case "details":
		e = ecore.GetFactory().CreateEStringToStringMapEntry().(ecore.EMapEntry)
	default:
		c := w.entryC[w.kinds[0]]
		e = c.GetEPackage().GetEFactoryInstance().Create(c).(ecore.EMapEntry)
	}
	e.SetKey(w.key(k))
	e.SetValue(w.val(v))
	w.id(e)
	return len(w.entries)
}

func (w *mapWorld) id(e ecore.EMapEntry) int {
	if n := w.ids[e]; n != 0 {
		return n
	}
	w.entries = append(w.entries, e)
	w.ids[e] = len(w.entries)
	return len(w.entries)
}

func (w *mapWorld) ent(l ecore.EList) (r []int) {
	r = []int{}
	for i := 0; i < l.Size(); i++ {
		e, _ := l.Get(i).(ecore.EMapEntry)
		r = append(r, w.id(e))
	}
	return
}

func (w *mapWorld) observe(e M) (crash string) {
	defer func() {
		if x := recover(); x != nil {
			crash = fmt.Sprint(x)
		}
	}()
	obs := [][][]int{}
	for i := range w.maps {
		r := [][]int{}
		if w.owners[i] != nil && w.maps[i] == nil && !w.owners[i].EIsSet(w.feats[i]) {
			obs = append(obs, r)
			continue
		}
		m := w.m(i)
		for _, n := range w.ent(m) {
			x := w.entries[n-1]
			r = append(r, []int{n, w.keyN(x.GetKey()), w.valN(x.GetValue())})
		}
		obs = append(obs, r)
	}
	own := []int{}
	for _, x := range w.entries {
		n := 0
		if o, _ := x.(ecore.EObject); o != nil && o.EContainer() != nil {
			n = -1
			for i, c := range w.owners {
				if c == o.EContainer() && o.EContainingFeature() == w.feats[i] {
					n = i + 1
				}
			}
		}
		own = append(own, n)
	}
	e["obs"], e["own"] = obs, own
	return ""
}

func (w *mapWorld) read(m ecore.EMap, order *rand.Rand) M {
	val, has, hasv, dict := make([]int, mapKeys), make([]int, mapKeys), make([]int, mapVals), make([]int, mapKeys)
	fs := []func(){
		func() {
			for k := range val {
				val[k] = w.valN(m.GetValue(w.key(k + 1)))
			}
		},
		func() {
			for k := range val {
				has[k] = b2i(m.ContainsKey(w.key(k + 1)))
			}
		},
		func() {
			for k := range hasv {
				hasv[k] = b2i(m.ContainsValue(w.val(k + 1)))
			}
		},
		func() {
			d := m.ToMap()
			for k := range dict {
				dict[k] = -1
			}
			for k, v := range d {
				if n := w.keyN(k); n > 0 {
					dict[n-1] = w.valN(v)
				} else {
					dict[0] = -99
				}
			}
		},
	}
	for _, i := range order.Perm(4) {
		fs[i]()
	}
	return M{"size": m.Size(), "val": val, "has": has, "hasv": hasv, "dict": dict}
}

func (w *mapWorld) apply(p op, e M, rnd *rand.Rand) (ret int, msg string) {
	defer func() {
		if x := recover(); x != nil {
			ret, msg = PANIC, fmt.Sprint(x)
		}
	}()
	m := w.m(p.O - 1)
	x := func() any { return w.entries[p.X[0]-1] }
	xs := []any{}
	for _, n := range p.X {
		xs = append(xs, w.entries[n-1])
	}
	c := ecore.NewImmutableEList(xs)
	rid := func(v any) int {
		en, _ := v.(ecore.EMapEntry)
		if en == nil {
			return 0
		}
		return w.id(en)
	}
	switch p.K {
	case "Put":
		m.Put(w.key(p.I), w.val(p.J))
	case "RemoveKey":
		return w.valN(m.RemoveKey(w.key(p.I))), ""
	case "Read":
		e["read"] = w.read(m, rnd)
	case "ReadImm":
		xs := []any{}
		for i := 0; i < m.Size(); i++ {
			xs = append(xs, m.Get(i))
		}
		e["read"] = w.read(ecore.NewImmutableEMap(xs), rnd)
	case "Spoil":
		d := m.ToMap()
		d[w.key(p.I)] = w.val(1)
		delete(d, w.key(p.J))
	case "Add":
		return b2i(m.Add(x())), ""
	case "Insert":
		return b2i(m.Insert(p.I, x())), ""
	case "AddAll":
		return b2i(m.AddAll(c)), ""
	case "InsertAll":
		return b2i(m.InsertAll(p.I, c)), ""
	case "Remove":
		return b2i(m.Remove(x())), ""
	case "RemoveAt":
		return rid(m.RemoveAt(p.I)), ""
	case "RemoveRange":
		m.RemoveRange(p.I, p.J)
	case "RemoveAll":
		return b2i(m.RemoveAll(c)), ""
	case "Set":
		return rid(m.Set(p.I, x())), ""
	case "Move":
		return rid(m.Move(p.I, p.J)), ""
	case "MoveObject":
		m.MoveObject(p.I, x())
	case "Clear":
		m.Clear()
	case "SetM":
		w.owners[p.O-1].ESet(w.feats[p.O-1], c)
	case "Unset":
		w.owners[p.O-1].EUnset(w.feats[p.O-1])
	default:
		panic("unknown op " + p.K)
	}
	return 0, ""
}

func runMaps(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "facets": facets()})
	g := &world{}
	for h := 0; h < c.N; h++ {
		w := newMapWorld(rnd)
		obj := w.kinds[0] != "basic"
		t.Emit(M{"ev": "reset", "obj": []bool{obj, obj}, "nk": mapKeys, "nv": mapVals, "kind": w.kinds[0]})
		for n := 0; n < c.Len; n++ {
			p := op{O: 1 + rnd.Intn(2), X: []int{}}
			nk, nv := []int{}, []int{}
			m := w.m(p.O - 1)
			cur := w.ent(m)
			keyOf := func(e int) int { return w.keyN(w.entries[e-1].GetKey()) }
			switch r := rnd.Intn(10); {
			case r < 3:
				p.K, p.I, p.J = "Put", 1+rnd.Intn(mapKeys), rnd.Intn(mapVals+1)
			case r < 4:
				p.K, p.I = "RemoveKey", 1+rnd.Intn(mapKeys)
			case r < 6:
				p.K = []string{"Read", "Read", "ReadImm"}[rnd.Intn(3)]
			case r == 6 && rnd.Intn(3) == 0:
				p.K, p.I, p.J = "Spoil", 1+rnd.Intn(mapKeys), 1+rnd.Intn(mapKeys)
			default:
				// candidates: entries whose key is free here, with distinct keys, some new
				used := map[int]bool{}
				for _, e := range cur {
					used[keyOf(e)] = true
				}
				cands := []int{}
				perm := rnd.Perm(len(w.entries))
				replace := obj && rnd.Intn(12) == 0
				if replace {
					used = map[int]bool{}
				}
				inOther := map[int]bool{}
				for _, e := range w.ent(w.m(2 - p.O)) {
					inOther[e] = true
				}
				for _, e := range perm {
					k := keyOf(e + 1)
					if len(cands) < 3 && !used[k] && (obj || !inOther[e+1]) {
						used[k] = true
						cands = append(cands, e+1)
					}
				}
				for i := 0; i < 3; i++ {
					if k := 1 + rnd.Intn(mapKeys); !used[k] && len(w.entries) < 40 {
						used[k] = true
						v := rnd.Intn(mapVals + 1)
						nk, nv = append(nk, k), append(nv, v)
						cands = append(cands, w.newEntry(k, v))
					}
				}
				if replace {
					p.K, p.X = "SetM", pick(rnd, cands, rnd.Intn(4))
					if rnd.Intn(3) == 0 {
						p.K, p.X = "Unset", []int{}
					}
					break
				}
				q, ok := g.randomListOp(rnd, op{O: p.O}, len(cur), cands, cur)
				if !ok || (q.K == "Clear" && rnd.Intn(3) > 0) {
					q = op{K: "Read", O: p.O, X: []int{}}
				}
				p = q
				if len(cur) > 0 && rnd.Intn(6) == 0 && len(w.entries) < 40 {
					// another entry for the key of the one it replaces
					at := rnd.Intn(len(cur))
					k, v := keyOf(cur[at]), rnd.Intn(mapVals+1)
					nk, nv = append(nk, k), append(nv, v)
					p = op{K: "Set", O: p.O, I: at, X: []int{w.newEntry(k, v)}}
				}
			}
			e := M{"k": p.K, "o": p.O, "i": p.I, "j": p.J, "x": p.X, "nk": nk, "nv": nv}
			ev := M{"ev": "op", "op": e, "read": M{}}
			Enter(e)
			ret, msg := w.apply(p, ev, rnd)
			crash := w.observe(ev)
			Leave()
			if crash != "" {
				t.Emit(M{"ev": "hang", "what": e, "why": "reading panics: " + crash})
				break
			}
			ev["ret"], ev["msg"] = ret, msg
			t.Emit(ev)
		}
	}
	return nil
}

func init() { scenarios["maps"] = runMaps }
