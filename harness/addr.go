package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/masagroup/soft.go/ecore"
)

// Addresses of objects in their resources: what GetURIFragment gives, what
// GetEObject makes of it, and what it makes of addresses seen earlier or made up.

// aseg is one step of an address: the value (number I) of feature F, or the
// I-th child with name N, or the I-th annotation with source N.
type aseg struct {
	K string `json:"k"`
	F string `json:"f"`
	I int    `json:"i"`
	N int    `json:"n"`
}

type address struct {
	Text string `json:"-"`
	R    int    `json:"r"`
	Root int    `json:"root"` // -1: none written, -2: not an address at all, -3: by identifier
	Key  int    `json:"key"`
	Segs []aseg `json:"segs"`
}

type addrPool struct {
	rnd   *rand.Rand
	named bool
	set   ecore.EResourceSet
	seen  map[string]bool
	pool  []*address
}

func (w *world) address(rnd *rand.Rand, named bool) {
	w.addr = &addrPool{rnd: rnd, named: named, set: ecore.NewEResourceSetImpl(), seen: map[string]bool{}}
	for _, r := range w.ress {
		w.addr.set.GetResources().Add(r)
	}
	if named {
		w.attrV = []string{"a", "a.1", "é/ %", "@a", "%"}
	}
}

// path computes the steps that lead from the resource to the object
func (w *world) path(o ecore.EObject, r ecore.EResource) *address {
	a := &address{R: -w.id(r), Root: -1, Segs: []aseg{}}
	for o.(ecore.EObjectInternal).EInternalResource() != r {
		c := o.EContainer()
		if c == nil {
			return nil
		}
		f := o.EContainingFeature()
		s := aseg{K: "f", F: w.nameOf(f), I: -1}
		if w.addr.named {
			// count the elder siblings of the same name
			s = aseg{}
			for it := c.EContents().Iterator(); it.HasNext(); {
				x := it.Next().(ecore.EObject)
				if n, ok := o.(ecore.ENamedElement); ok {
					s.K, s.N = "n", w.id(n.GetName())
					if m, ok := x.(ecore.ENamedElement); ok && x != o && m.GetName() == n.GetName() {
						s.I++
					}
				} else if n, ok := o.(ecore.EAnnotation); ok {
					s.K, s.N = "a", w.id(n.GetSource())
					if m, ok := x.(ecore.EAnnotation); ok && x != o && m.GetSource() == n.GetSource() {
						s.I++
					}
				} else {
					return nil
				}
				if x == o {
					break
				}
			}
		} else if f.IsMany() {
			s.I = c.EGetResolve(f, false).(ecore.EList).IndexOf(o)
		}
		a.Segs = append([]aseg{s}, a.Segs...)
		o = c
	}
	if r.GetContents().Size() > 1 {
		a.Root = r.GetContents().IndexOf(o)
	}
	return a
}

func (w *world) lookup(r ecore.EResource, text string) (n int, crash string) {
	defer func() {
		if e := recover(); e != nil {
			n, crash = 98, fmt.Sprint(e)
		}
	}()
	if x := r.GetEObject(text); x != nil {
		return w.id(x), ""
	}
	return 0, ""
}

// invent makes an address up
func (w *world) invent() *address {
	rnd := w.addr.rnd
	a := &address{R: 1 + rnd.Intn(len(w.ress)), Segs: []aseg{}}
	switch rnd.Intn(12) {
	case 0:
		a.Text, a.Root = "/-1", -2
		return a
	case 1:
		a.Text, a.Root = []string{"/x", "/0x", "/1-", "/%"}[rnd.Intn(4)], -2
		return a
	case 2:
		a.Text, a.Root = []string{"", "?", "??", "no such?", "no such id"}[rnd.Intn(5)], -2
		return a
	case 3:
		if !w.addr.named {
			// a question mark at the end alone belongs to the identifier
			k, q := rnd.Intn(len(w.attrV)), rnd.Intn(3)
			a.Text, a.Root, a.Key = w.attrV[k]+[]string{"", "?", "?query?"}[q], -3, 101+k
			if q == 1 {
				a.Key = 0
			}
			return a
		}
	}
	a.Root = rnd.Intn(4) - 1
	a.Text = "/"
	if a.Root >= 0 {
		a.Text += fmt.Sprint(a.Root)
	}
	names := []string{"nofeature"}
	for n, f := range w.all {
		if !w.addr.named || f.Cont {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for k := rnd.Intn(3); k >= 0; k-- {
		n := names[rnd.Intn(len(names))]
		s := aseg{K: "f", F: n, I: rnd.Intn(4) - 1}
		text := "/@" + n[strings.LastIndex(n, ".")+1:]
		if rnd.Intn(8) == 0 {
			s.F = "" // malformed
			text += []string{".-1", ".x1", ".99999999999999999999", ".0.0"}[rnd.Intn(4)]
		} else if s.I >= 0 {
			text += fmt.Sprintf(".%d", s.I)
		}
		a.Segs = append(a.Segs, s)
		a.Text += text
	}
	return a
}

func (w *world) observeAddresses(obs M) {
	p := w.addr
	if p == nil {
		return
	}
	addrs := []M{}
	for _, o := range w.objs {
		r := o.EResource()
		if r == nil {
			addrs = append(addrs, M{"a": "", "back": 0, "back2": 0})
			continue
		}
		text := r.GetURIFragment(o)
		back, crash := w.lookup(r, text)
		back2 := 0
		if x := p.set.GetEObject(ecore.GetURI(o), true); x != nil {
			back2 = w.id(x)
		}
		m := M{"a": text, "back": back, "back2": back2}
		if crash != "" {
			m["crash"] = crash
		}
		if a := w.path(o, r); a != nil && strings.HasPrefix(text, "/") {
			a.Text = text
			m["self"] = a
			if k := fmt.Sprint(*a); !p.seen[k] {
				p.seen[k] = true
				p.pool = append(p.pool, a)
			}
		}
		addrs = append(addrs, m)
	}
	look := []M{}
	for k := 0; k < 6 && len(w.ress) > 0; k++ {
		var a *address
		if k < 4 && len(p.pool) > 0 {
			a = p.pool[p.rnd.Intn(len(p.pool))]
		} else {
			a = w.invent()
		}
		got, crash := w.lookup(w.ress[a.R-1], a.Text)
		m := M{"a": a, "got": got, "text": a.Text}
		if crash != "" {
			m["crash"] = crash
		}
		look = append(look, m)
	}
	obs["addr"], obs["look"] = addrs, look
}
