package main

import (
	"fmt"
	"math/rand"

	"github.com/masagroup/soft.go/ecore"
)

// lists: the list types on their own. A world holds several lists of one kind
// each; bulk operations take their argument from a fresh collection or from
// another list of the world, whose content must not be affected, now or later.

type lworld struct {
	lists []ecore.EList
	kinds []string
	uniq  []bool
	dom   int
}

func lval(i int) any { return fmt.Sprintf("e%d", i) }
func lnum(v any) int {
	s, ok := v.(string)
	if !ok {
		return 0
	}
	n := 0
	fmt.Sscanf(s, "e%d", &n)
	return n
}
func lnums(vs []any) []int {
	r := []int{}
	for _, v := range vs {
		r = append(r, lnum(v))
	}
	return r
}

func (w *lworld) add(kind string) {
	var l ecore.EList
	uniq := true
	switch kind {
	case "basic":
		l, uniq = ecore.NewEmptyBasicEList(), false
	case "basicdata":
		l, uniq = ecore.NewBasicEList([]any{}), false
	case "unique":
		l = ecore.NewUniqueBasicEList([]any{})
	case "notifying":
		l = ecore.NewBasicENotifyingList()
	case "dataunique":
		l = ecore.NewBasicEDataTypeList(ecore.GetFactory().CreateEAnnotation().(ecore.EObjectInternal), 0, true)
	case "data":
		l, uniq = ecore.NewBasicEDataTypeList(ecore.GetFactory().CreateEAnnotation().(ecore.EObjectInternal), 0, false), false
	case "object":
		l = ecore.NewBasicEObjectList(ecore.GetFactory().CreateEAnnotation().(ecore.EObjectInternal), 0, -1, false, false, false, false, false)
	}
	w.lists = append(w.lists, l)
	w.kinds = append(w.kinds, kind)
	w.uniq = append(w.uniq, uniq)
}

func lread(l ecore.EList, dom int) M {
	size := l.Size()
	get, idx, cont, it, all := []int{}, []int{}, []int{}, []int{}, []int{}
	for i := 0; i < size; i++ {
		get = append(get, lnum(l.Get(i)))
	}
	for i := l.Iterator(); i.HasNext(); {
		it = append(it, lnum(i.Next()))
	}
	for v := range l.All() {
		all = append(all, lnum(v))
	}
	for x := 1; x <= dom; x++ {
		idx = append(idx, l.IndexOf(lval(x)))
		cont = append(cont, b2i(l.Contains(lval(x))))
	}
	return M{"size": size, "empty": l.Empty(), "get": get, "it": it, "all": all, "arr": lnums(l.ToArray()), "idx": idx, "cont": cont}
}

func (w *lworld) observe() (r []M, crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprint(e)
		}
	}()
	r = []M{}
	for _, l := range w.lists {
		r = append(r, lread(l, w.dom))
	}
	return r, ""
}

type lop struct {
	K       string
	L       int
	I, J    int
	X       []int
	From    int // bulk argument: list From of the world, 0: a fresh collection
	Variant int
}

func (w *lworld) apply(p lop) (ret int, msg string) {
	defer func() {
		if e := recover(); e != nil {
			ret, msg = PANIC, fmt.Sprint(e)
		}
	}()
	l := w.lists[p.L-1]
	var c ecore.Collection
	if p.From > 0 {
		c = w.lists[p.From-1]
	} else {
		xs := make([]any, 0, len(p.X)+p.Variant*3)
		for _, x := range p.X {
			xs = append(xs, lval(x))
		}
		if p.Variant == 1 {
			c = ecore.NewBasicEList(xs)
		} else {
			c = ecore.NewImmutableEList(xs)
		}
	}
	x := func() any { return lval(p.X[0]) }
	switch p.K {
	case "Add":
		return b2i(l.Add(x())), ""
	case "Insert":
		return b2i(l.Insert(p.I, x())), ""
	case "AddAll":
		return b2i(l.AddAll(c)), ""
	case "InsertAll":
		return b2i(l.InsertAll(p.I, c)), ""
	case "Remove":
		return b2i(l.Remove(x())), ""
	case "RemoveAt":
		return lnum(l.RemoveAt(p.I)), ""
	case "RemoveRange":
		l.RemoveRange(p.I, p.J)
	case "RemoveAll":
		return b2i(l.RemoveAll(c)), ""
	case "Set":
		return lnum(l.Set(p.I, x())), ""
	case "Move":
		return lnum(l.Move(p.I, p.J)), ""
	case "MoveObject":
		l.MoveObject(p.I, x())
	case "Clear":
		l.Clear()
	case "Get":
		return lnum(l.Get(p.I)), ""
	default:
		panic("unknown op")
	}
	return 0, ""
}

var lkinds = []string{"basic", "basicdata", "unique", "notifying", "dataunique", "data", "object"}

func runLists(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "facets": facets()})
	for h := 0; h < c.N; h++ {
		w := &lworld{dom: []int{4, 6, 12, 24}[rnd.Intn(4)]}
		for i := 0; i < 3; i++ {
			w.add(lkinds[rnd.Intn(len(lkinds))])
		}
		obs, _ := w.observe()
		t.Emit(M{"ev": "reset", "obs": obs, "uniq": w.uniq, "kinds": w.kinds, "dom": w.dom})
		all := []int{}
		for x := 1; x <= w.dom; x++ {
			all = append(all, x)
		}
		for n := 0; n < c.Len; n++ {
			p := lop{L: 1 + rnd.Intn(3)}
			l := w.lists[p.L-1]
			cur := lnums(l.ToArray())
			g := &world{}
			o, ok := g.randomListOp(rnd, op{}, len(cur), all, cur)
			if !ok || (o.K == "Clear" && rnd.Intn(3) > 0) {
				continue
			}
			p.K, p.I, p.J, p.X, p.Variant = o.K, o.I, o.J, o.X, rnd.Intn(3)
			if rnd.Intn(25) == 0 {
				p.K, p.I, p.X = "Get", rnd.Intn(len(cur)+3)-1, []int{}
			}
			switch p.K {
			case "AddAll", "InsertAll", "RemoveAll":
				if rnd.Intn(3) == 0 {
					p.X = pick(rnd, all, rnd.Intn(9))
				}
				if rnd.Intn(4) == 0 {
					p.From = 1 + rnd.Intn(3)
					if p.K == "RemoveAll" && p.From == p.L {
						p.From = 0 // an argument that changes while it is read is outside the contract
					} else {
						p.X = lnums(w.lists[p.From-1].ToArray())
					}
				}
				if len(cur)+len(p.X) > 40 {
					p.K, p.I, p.X, p.From = "Clear", 0, []int{}, 0
				}
			}
			e := M{"k": p.K, "o": p.L, "i": p.I, "j": p.J, "x": p.X, "from": p.From, "v": p.Variant}
			Enter(e)
			ret, msg := w.apply(p)
			obs, crash := w.observe()
			Leave()
			if crash != "" {
				t.Emit(M{"ev": "hang", "what": e, "why": "reading panics: " + crash})
				break
			}
			t.Emit(M{"ev": "op", "op": e, "ret": ret, "obs": obs, "msg": msg})
		}
	}
	return nil
}

func init() { scenarios["lists"] = runLists }
