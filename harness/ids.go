package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/masagroup/soft.go/ecore"
	"github.com/oklog/ulid/v2"
)

// Scenario "ids": identifier managers, mode KIND, KIND:conc (concurrent
// callers) or KIND:gc (objects that are forgotten and collected), KIND one of
// inc, uuid, ulid, attr.

type idWorld struct {
	kind string
	m    ecore.EObjectIDManager
	objs []ecore.EObject
	attr ecore.EAttribute
	num  map[string]int // canonical text of an identifier -> its number
	raw  []any          // number-1 -> identifier
}

func newIDWorld(kind string, n int) *idWorld {
	w := &idWorld{kind: kind, num: map[string]int{}}
	f := ecore.GetFactory()
	c := f.CreateEClass()
	c.SetName("C")
	w.attr = f.CreateEAttribute()
	w.attr.SetName("id")
	w.attr.SetEType(ecore.GetPackage().GetEString())
	w.attr.SetID(true)
	c.GetEStructuralFeatures().Add(w.attr)
	p := f.CreateEPackage()
	p.GetEClassifiers().Add(c)
	fact := f.CreateEFactory()
	p.SetEFactoryInstance(fact)
	for i := 0; i < n; i++ {
		w.objs = append(w.objs, fact.Create(c))
	}
	switch kind {
	case "inc":
		w.m = ecore.NewIncrementalIDManager()
	case "uuid":
		w.m = ecore.NewUUIDManager()
	case "ulid":
		w.m = ecore.NewULIDManager()
	case "attr":
		w.m = ecore.NewEObjectIDManagerImpl()
	}
	return w
}

func (w *idWorld) number(id any) int {
	if id == nil || id == "" {
		return 0
	}
	k := fmt.Sprint(id)
	if n, ok := w.num[k]; ok {
		return n
	}
	w.raw = append(w.raw, id)
	w.num[k] = len(w.raw)
	return len(w.raw)
}

func (w *idWorld) objNum(o ecore.EObject) int {
	if o == nil {
		return 0
	}
	for i, x := range w.objs {
		if x == o {
			return i + 1
		}
	}
	return 99
}

// form gives an identifier in one of the forms a manager accepts
func (w *idWorld) form(rnd *rand.Rand, id any) any {
	switch v := id.(type) {
	case int64:
		switch rnd.Intn(5) {
		case 0:
			return fmt.Sprint(v)
		case 1:
			return int(v)
		case 2:
			if v >= 0 {
				return uint64(v)
			}
		case 3:
			if v >= 0 && v < 100 {
				return []any{int8(v), uint8(v), int16(v), uint16(v), int32(v), uint32(v), uint(v)}[rnd.Intn(7)]
			}
		}
		return v
	case uuid.UUID:
		switch rnd.Intn(3) {
		case 0:
			return v.String()
		case 1:
			return v[:]
		}
		return v
	case ulid.ULID:
		switch rnd.Intn(3) {
		case 0:
			return v.String()
		case 1:
			return v[:]
		}
		return v
	}
	return id
}

func (w *idWorld) newRaw(rnd *rand.Rand) any {
	switch w.kind {
	case "inc":
		if rnd.Intn(6) == 0 {
			return int64(1)<<62 + int64(rnd.Intn(3))
		}
		return int64(rnd.Intn(12))
	case "uuid":
		u, _ := uuid.NewRandomFromReader(rnd)
		return u
	case "ulid":
		return ulid.MustNew(uint64(rnd.Intn(1000)), rnd)
	}
	return fmt.Sprintf("k%d", rnd.Intn(6))
}

// bad is a value that is not an identifier for the manager, or one that clears
func (w *idWorld) odd(rnd *rand.Rand) (any, int) {
	switch w.kind {
	case "inc":
		switch rnd.Intn(5) {
		case 0:
			return nil, 0
		case 1:
			return -5, 0
		case 2:
			return "x", -1
		case 3:
			return 1.5, -1
		}
		return true, -1
	case "attr":
		switch rnd.Intn(3) {
		case 0:
			return nil, 0
		case 1:
			return "", 0
		}
		return 12, -1
	}
	return []any{nil, "x", 12, []byte{1}, ""}[rnd.Intn(5)], -1
}

func (w *idWorld) obs() M {
	id, det, val := []int{}, []int{}, []int{}
	for _, o := range w.objs {
		id = append(id, w.number(w.m.GetID(o)))
		det = append(det, w.number(w.m.GetDetachedID(o)))
		val = append(val, w.number(o.EGet(w.attr)))
	}
	find := []int{}
	for _, raw := range w.raw {
		find = append(find, w.objNum(w.m.GetEObject(raw)))
	}
	return M{"id": id, "det": det, "val": val, "find": find}
}

// do performs one operation and gives its event form and result
func (w *idWorld) do(rnd *rand.Rand, k string, o int, raw any, id int) int {
	switch k {
	case "Register":
		w.m.Register(w.objs[o-1])
	case "UnRegister":
		w.m.UnRegister(w.objs[o-1])
	case "Clear":
		w.m.Clear()
	case "SetID":
		return b2i(w.m.SetID(w.objs[o-1], raw) != nil)
	case "SetAttr":
		if raw == nil {
			w.objs[o-1].EUnset(w.attr)
		} else {
			w.objs[o-1].ESet(w.attr, raw)
		}
	case "GetEObject":
		return w.objNum(w.m.GetEObject(raw))
	}
	return 0
}

func (w *idWorld) pick(rnd *rand.Rand) (k string, o int, raw any, id int) {
	o = 1 + rnd.Intn(len(w.objs))
	switch p := rnd.Intn(20); {
	case p < 7:
		k = "Register"
	case p < 11:
		k = "UnRegister"
	case p < 12 && rnd.Intn(3) == 0:
		k = "Clear"
	case w.kind == "attr" && p < 14:
		k = "SetAttr"
		raw = w.newRaw(rnd)
		if rnd.Intn(5) == 0 {
			raw = nil
		}
		id = w.number(raw)
	default:
		k = "SetID"
		if p == 19 {
			k = "GetEObject"
		}
		switch {
		case rnd.Intn(5) == 0:
			raw, id = w.odd(rnd)
		case len(w.raw) > 0 && rnd.Intn(3) > 0:
			id = 1 + rnd.Intn(len(w.raw))
			raw = w.form(rnd, w.raw[id-1])
		default:
			r := w.newRaw(rnd)
			id = w.number(r)
			raw = w.form(rnd, r)
		}
	}
	return
}

func init() {
	scenarios["ids"] = func(c *Config) error {
		t := NewTrace(c.Out)
		defer t.Close()
		rnd := rand.New(rand.NewSource(c.Seed))
		kind, how := c.Mode, ""
		for i := range c.Mode {
			if c.Mode[i] == ':' {
				kind, how = c.Mode[:i], c.Mode[i+1:]
			}
		}
		t.Emit(M{"ev": "head"})
		for n := 0; n < c.N; n++ {
			switch how {
			case "":
				idSequential(t, rnd, kind, c.Len)
			case "conc":
				idConcurrent(t, rnd, kind, c.Len)
			case "gc":
				idCollected(t, rnd, kind, c.Len)
			}
		}
		return nil
	}
}

func (w *idWorld) start(t *Trace) {
	val := []int{}
	for _, o := range w.objs {
		val = append(val, w.number(o.EGet(w.attr)))
	}
	t.Emit(M{"ev": "reset", "n": len(w.objs), "kind": w.kind, "val": val})
}

func idSequential(t *Trace, rnd *rand.Rand, kind string, length int) {
	w := newIDWorld(kind, 2+rnd.Intn(4))
	if kind == "attr" {
		for _, o := range w.objs {
			if rnd.Intn(2) == 0 {
				o.ESet(w.attr, w.newRaw(rnd))
			}
		}
	}
	w.start(t)
	for j := 0; j < length; j++ {
		k, o, raw, id := w.pick(rnd)
		what := M{"k": k, "o": o, "id": id}
		Enter(what)
		ret := w.do(rnd, k, o, raw, id)
		obs := w.obs()
		Leave()
		t.Emit(M{"ev": "op", "op": what, "ret": ret, "obs": obs})
	}
	runtime.KeepAlive(w)
}

// idConcurrent: several callers at once; what they see has to be explained by
// some order of their calls
func idConcurrent(t *Trace, rnd *rand.Rand, kind string, length int) {
	w := newIDWorld(kind, 2+rnd.Intn(2))
	w.start(t)
	type call struct {
		caller, o, id int
		k             string
		raw           any
		ret           any
		fresh         map[int]bool
	}
	type event struct {
		c      *call
		isCall bool
	}
	// identifiers are numbered after the run: what callers assign first
	explicit := []any{}
	for i := 0; i < 3; i++ {
		r := w.newRaw(rnd)
		if kind == "inc" {
			r = int64(i * 2)
		}
		explicit = append(explicit, r)
		w.number(r)
	}
	const callers = 3
	var events []event
	var mu sync.Mutex
	record := func(c *call, isCall bool) {
		mu.Lock()
		events = append(events, event{c, isCall})
		mu.Unlock()
	}
	run := func(c *call) {
		record(c, true)
		o := w.objs[c.o-1]
		switch c.k {
		case "Register":
			w.m.Register(o)
			c.ret = 0
		case "UnRegister":
			w.m.UnRegister(o)
			c.ret = 0
		case "Clear":
			w.m.Clear()
			c.ret = 0
		case "SetID":
			c.ret = b2i(w.m.SetID(o, c.raw) != nil)
		case "GetID":
			c.ret = w.m.GetID(o)
		case "GetDetachedID":
			c.ret = w.m.GetDetachedID(o)
		case "GetEObject":
			c.ret = w.objNum(w.m.GetEObject(c.raw))
		}
		record(c, false)
	}
	Enter(M{"k": "concurrent"})
	var wg sync.WaitGroup
	for caller := 1; caller <= callers; caller++ {
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < length; j++ {
				c := &call{caller: caller, o: 1 + r.Intn(len(w.objs))}
				switch p := r.Intn(12); {
				case p < 4:
					c.k = "Register"
				case p < 6:
					c.k = "UnRegister"
				case p < 8:
					c.k = "SetID"
					c.raw = explicit[r.Intn(len(explicit))]
				case p < 9 && r.Intn(3) == 0:
					c.k = "Clear"
				case p < 10:
					c.k = "GetID"
				case p < 11:
					c.k = "GetEObject"
					c.raw = explicit[r.Intn(len(explicit))]
				default:
					c.k = "GetID"
				}
				run(c)
				if r.Intn(4) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	for o := range w.objs {
		c := &call{caller: 1, o: o + 1, k: "GetID"}
		run(c)
		if c.ret != nil {
			run(&call{caller: 1, o: o + 1, k: "GetEObject", raw: c.ret})
		}
	}
	Leave()
	// number everything; which identifiers an object was seen with
	seen := make([]map[int]bool, len(w.objs)+1)
	for i := range seen {
		seen[i] = map[int]bool{}
		if kind == "inc" {
			// assigned and taken over before anyone looked
			seen[i] = map[int]bool{1: true, 2: true, 3: true}
		}
	}
	for _, e := range events {
		c := e.c
		if e.isCall {
			if c.raw != nil {
				c.id = w.number(c.raw)
			}
			switch c.k {
			case "GetID", "GetDetachedID":
				c.ret = w.number(c.ret)
				seen[c.o][c.ret.(int)] = true
			case "GetEObject":
				if o := c.ret.(int); o > 0 && o < len(seen) {
					seen[o][c.id] = true
				}
			}
		}
	}
	for n, e := range events {
		c := e.c
		if e.isCall {
			fresh := []int{}
			if c.k == "Register" {
				for id := range seen[c.o] {
					if id > 0 {
						fresh = append(fresh, id)
					}
				}
				fresh = append(fresh, 1000+n)
			}
			t.Emit(M{"ev": "call", "k": c.caller, "op": M{"k": c.k, "o": c.o, "id": c.id, "fresh": fresh}})
		} else {
			t.Emit(M{"ev": "return", "k": c.caller, "ret": c.ret})
		}
	}
}

// idCollected: objects leave, nothing refers to them any more, others arrive
func idCollected(t *Trace, rnd *rand.Rand, kind string, length int) {
	w := newIDWorld(kind, 500)
	w.start(t)
	c := w.objs[0].EClass()
	for _, o := range w.objs {
		w.m.Register(o)
	}
	t.Emit(M{"ev": "arrive", "obs": w.obs()})
	for _, o := range w.objs {
		w.m.UnRegister(o)
	}
	t.Emit(M{"ev": "leave", "obs": w.obs()})
	for o := range w.objs {
		w.objs[o] = nil
	}
	for i := 0; i < 3; i++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	f := c.GetEPackage().GetEFactoryInstance()
	for o := range w.objs {
		w.objs[o] = f.Create(c)
		w.m.Register(w.objs[o])
	}
	t.Emit(M{"ev": "arrive", "obs": w.obs()})
	_ = length
}
