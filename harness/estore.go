package main

import (
	"iter"
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// memStore is a store that keeps values in memory and refuses positions that
// are not in its lists.
type memKey struct {
	o ecore.EObject
	f ecore.EStructuralFeature
}
type memPlace struct {
	o ecore.EObject
	f ecore.EStructuralFeature
}
type memStore struct {
	one  map[memKey]any
	many map[memKey][]any
	in   map[ecore.EObject]memPlace
	root []ecore.EObject
}

func newMemStore() *memStore {
	return &memStore{one: map[memKey]any{}, many: map[memKey][]any{}, in: map[ecore.EObject]memPlace{}}
}

func (s *memStore) AddRoot(o ecore.EObject) { s.root = append(s.root, o) }
func (s *memStore) RemoveRoot(o ecore.EObject) {
	for i, r := range s.root {
		if r == o {
			s.root = append(s.root[:i:i], s.root[i+1:]...)
			return
		}
	}
}
func (s *memStore) Get(o ecore.EObject, f ecore.EStructuralFeature, i int) any {
	if f.IsMany() {
		return s.many[memKey{o, f}][i]
	}
	if v, ok := s.one[memKey{o, f}]; ok {
		return v
	}
	return f.GetDefaultValue()
}
func (s *memStore) Set(o ecore.EObject, f ecore.EStructuralFeature, i int, v any, need bool) (old any) {
	k := memKey{o, f}
	if f.IsMany() {
		old = s.many[k][i]
		s.many[k][i] = v
	} else {
		old = s.one[k]
		s.one[k] = v
	}
	if !need {
		return nil
	}
	return old
}
func (s *memStore) IsSet(o ecore.EObject, f ecore.EStructuralFeature) bool {
	k := memKey{o, f}
	return len(s.many[k]) > 0 || s.one[k] != nil
}
func (s *memStore) UnSet(o ecore.EObject, f ecore.EStructuralFeature) {
	delete(s.many, memKey{o, f})
	delete(s.one, memKey{o, f})
}
func (s *memStore) Size(o ecore.EObject, f ecore.EStructuralFeature) int {
	return len(s.many[memKey{o, f}])
}
func (s *memStore) IsEmpty(o ecore.EObject, f ecore.EStructuralFeature) bool {
	return s.Size(o, f) == 0
}
func (s *memStore) IndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	for i, x := range s.many[memKey{o, f}] {
		if x == v {
			return i
		}
	}
	return -1
}
func (s *memStore) LastIndexOf(o ecore.EObject, f ecore.EStructuralFeature, v any) int {
	l := s.many[memKey{o, f}]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == v {
			return i
		}
	}
	return -1
}
func (s *memStore) Contains(o ecore.EObject, f ecore.EStructuralFeature, v any) bool {
	return s.IndexOf(o, f, v) >= 0
}
func (s *memStore) put(k memKey, i int, vs []any) {
	l := s.many[k]
	r := append([]any{}, l[:i]...)
	r = append(r, vs...)
	s.many[k] = append(r, l[i:]...)
}
func (s *memStore) Add(o ecore.EObject, f ecore.EStructuralFeature, i int, v any) {
	s.put(memKey{o, f}, i, []any{v})
}
func (s *memStore) AddAll(o ecore.EObject, f ecore.EStructuralFeature, i int, c ecore.Collection) {
	s.put(memKey{o, f}, i, append([]any{}, c.ToArray()...))
}
func (s *memStore) Remove(o ecore.EObject, f ecore.EStructuralFeature, i int, need bool) any {
	k := memKey{o, f}
	l := s.many[k]
	v := l[i]
	s.many[k] = append(append([]any{}, l[:i]...), l[i+1:]...)
	if !need {
		return nil
	}
	return v
}
func (s *memStore) Move(o ecore.EObject, f ecore.EStructuralFeature, from int, to int, need bool) any {
	if size := s.Size(o, f); from < 0 || from >= size || to < 0 || to >= size {
		panic("position not in the list of the store")
	}
	v := s.Remove(o, f, from, true)
	s.Add(o, f, to, v)
	if !need {
		return nil
	}
	return v
}
func (s *memStore) Clear(o ecore.EObject, f ecore.EStructuralFeature) {
	delete(s.many, memKey{o, f})
}
func (s *memStore) SetContainer(o ecore.EObject, c ecore.EObject, f ecore.EStructuralFeature) {
	s.in[o] = memPlace{c, f}
}
func (s *memStore) GetContainer(o ecore.EObject) (ecore.EObject, ecore.EStructuralFeature) {
	p := s.in[o]
	return p.o, p.f
}
func (s *memStore) ToArray(o ecore.EObject, f ecore.EStructuralFeature) []any {
	return append([]any{}, s.many[memKey{o, f}]...)
}
func (s *memStore) All(o ecore.EObject, f ecore.EStructuralFeature) iter.Seq[any] {
	l := s.ToArray(o, f)
	return func(yield func(any) bool) {
		for _, v := range l {
			if !yield(v) {
				return
			}
		}
	}
}

// estoreWorld: objects whose values are in a store (cached, uncached, cached
// by turns), and some that are held in memory
func estoreWorld(rnd *rand.Rand, multi bool) *world {
	w := newWorld()
	w.store = newMemStore()
	m := newDynModel(multi, false)
	for i := 0; i < 6; i++ {
		c := m.node
		if i > 3 || multi && i > 1 {
			c = m.leaf
		}
		fs := []*feat{}
		for it := c.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			fs = append(fs, describe(it.Next().(ecore.EStructuralFeature)))
		}
		if rnd.Intn(6) == 0 {
			w.reg(m.pkg.GetEFactoryInstance().Create(c), fs)
			continue
		}
		o := ecore.NewEStoreEObjectImpl(rnd.Intn(2) == 0)
		o.SetEClass(c)
		o.SetEStore(w.store)
		w.reg(o, fs)
	}
	return w
}

// storedValues: what the store has, feature by feature, with the container
func (w *world) storedValues(obs M) {
	if w.store == nil {
		return
	}
	r, in := []M{}, []M{}
	for i, o := range w.objs {
		v := M{}
		if _, ok := o.(*ecore.EStoreEObjectImpl); ok {
			for _, f := range w.feats[i] {
				if f.Container {
					continue
				}
				if f.Many {
					v[f.Name] = w.seq(w.store.ToArray(o, f.F))
				} else {
					v[f.Name] = w.seq(w.store.one[memKey{o, f.F}])
				}
			}
			p, f := w.store.GetContainer(o)
			n := ""
			if f != nil {
				n = w.nameOf(f)
			}
			c := 0
			if p != nil {
				c = w.id(p)
			}
			in = append(in, M{"on": true, "o": c, "f": n})
		} else {
			in = append(in, M{"on": false, "o": 0, "f": ""})
		}
		r = append(r, v)
	}
	obs["stored"], obs["storedin"] = r, in
	// lists got earlier, and every way to read one, for one object after the other
	w.turn++
	i := w.turn % len(w.objs)
	o, lists := w.objs[i], []M{}
	for _, f := range w.feats[i] {
		if !f.Many {
			continue
		}
		l := o.EGetResolve(f.F, false).(ecore.EList)
		k := memKey{o, f.F}
		if w.held == nil {
			w.held = map[memKey]ecore.EList{}
		}
		if w.held[k] == nil {
			w.held[k] = l
		}
		for n, l := range []ecore.EList{w.held[k], l} {
			e := M{"o": i + 1, "f": f.Name, "size": l.Size(), "empty": l.Empty(), "arr": w.seq(l.ToArray()), "got": w.seq(l)}
			it, all, idx, cont := []int{}, []int{}, []int{}, []int{}
			for j := l.Iterator(); j.HasNext(); {
				it = append(it, w.id(j.Next()))
			}
			for v := range l.All() {
				all = append(all, w.id(v))
			}
			if n == 0 {
				vs := []any{}
				for _, x := range w.objs {
					vs = append(vs, x)
				}
				if f.Attr {
					vs = vs[:0]
					for _, x := range w.attrV {
						vs = append(vs, x)
					}
				}
				for _, v := range vs {
					idx = append(idx, l.IndexOf(v))
					if l.Contains(v) {
						cont = append(cont, w.id(v))
					}
				}
				e["dom"] = w.seq(vs)
			} else {
				e["dom"] = []int{}
			}
			e["it"], e["all"], e["idx"], e["cont"] = it, all, idx, cont
			lists = append(lists, e)
		}
	}
	obs["lists"] = lists
}

// unheld forgets the lists of a feature that is unset: what they hold is no
// longer the value of the feature
func (w *world) unheld(p op) {
	if p.K == "Unset" && p.O > 0 {
		delete(w.held, memKey{w.objs[p.O-1], w.all[p.F].F})
	}
	for _, s := range p.Subs {
		w.unheld(s)
	}
}

// cacheOp switches the cache of an object or of one of its lists
func (w *world) cacheOp(p op) {
	o := w.objs[p.O-1]
	if c, ok := o.(ecore.ECacheProvider); ok {
		c.SetCache(p.I != 0)
	}
}

func (w *world) randomCache(rnd *rand.Rand) op {
	return op{K: "Cache", O: 1 + rnd.Intn(len(w.objs)), I: rnd.Intn(2), X: []int{}}
}
