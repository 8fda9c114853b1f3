package main

import (
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// Observers (EContentAdapter) on the objects, the resources or the resource
// set of a graph world.

const SET = -9 // the resource set, as a notifier

type observer struct {
	adapter ecore.EAdapter
	target  int
	seen    []M
}

// recorder is an observer as users write them: derived from EContentAdapter
type recorder struct {
	*ecore.EContentAdapter
	w  *world
	ob *observer
}

func (r *recorder) NotifyChanged(n ecore.ENotification) {
	r.EContentAdapter.NotifyChanged(n)
	if e := r.w.noteOf(n); e != nil {
		r.ob.seen = append(r.ob.seen, e)
	}
}

func (w *world) addObservers(rnd *rand.Rand, n int) {
	w.set = ecore.NewEResourceSetImpl()
	for i := 0; i < n; i++ {
		ob := &observer{seen: []M{}}
		if i == 0 {
			ob.adapter = ecore.NewEContentAdapter()
			ob.seen = nil
		} else {
			r := &recorder{EContentAdapter: ecore.NewEContentAdapter(), w: w, ob: ob}
			r.SetInterfaces(r)
			r.SetResolveProxies(i == 2)
			ob.adapter = r
		}
		w.watch = append(w.watch, ob)
	}
}

func (w *world) notifier(n int) ecore.ENotifier {
	switch {
	case n == SET:
		return w.set
	case n < 0:
		return w.ress[-n-1]
	}
	return w.objs[n-1]
}

func (w *world) moveObserver(k, target int) {
	ob := w.watch[k]
	if ob.target != 0 {
		old := ob.target
		ob.target = 0
		w.notifier(old).EAdapters().Remove(ob.adapter)
	}
	if target != 0 {
		ob.target = target
		w.notifier(target).EAdapters().Add(ob.adapter)
	}
}

// attachedTo lists the notifiers having the observer, once per occurrence
func (w *world) attachedTo(ob *observer) []int {
	r := []int{}
	see := func(id int) {
		l := w.notifier(id).EAdapters()
		for i := 0; i < l.Size(); i++ {
			if l.Get(i) == any(ob.adapter) {
				r = append(r, id)
			}
		}
	}
	for i := range w.objs {
		see(i + 1)
	}
	for i := range w.ress {
		see(-(i + 1))
	}
	see(SET)
	return r
}
