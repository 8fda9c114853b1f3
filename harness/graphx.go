package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// graphx explores the implementation exhaustively at the bound of GraphMC.tla:
// breadth first over observed states, every operation of the same alphabet
// tried in every state. mode is "set:objects:resources:edited".

var featSets = map[string][]string{
	"tree":   {"kids", "subs", "owner", "kid"},
	"single": {"kid", "sub", "holder"},
	"res":    {"kids", "rkids"},
	"group":  {"members", "group"},
	"chain":  {"next", "prev"},
	"likes":  {"likes", "likedBy"},
	"list":   {"links"},
	"lists":  {"links", "tags"},
	"bag":    {"vals"},
}

const maxBag = 3

func (w *world) enumList(o int, f *feat, size int, vs []int) []op {
	r := []op{}
	name := ""
	bag := false
	if f != nil {
		name = f.Name
		bag = !f.Uniq
	}
	add := func(k string, i, j int, x ...int) {
		if x == nil {
			x = []int{}
		}
		r = append(r, op{K: k, O: o, F: name, I: i, J: j, X: x})
	}
	if !bag || size < maxBag {
		for _, x := range vs {
			add("Add", 0, 0, x)
			for i := 0; i <= size; i++ {
				add("Insert", i, 0, x)
			}
		}
	}
	if !bag || size < maxBag-1 {
		for _, x := range vs {
			for _, y := range vs {
				add("AddAll", 0, 0, x, y)
				for i := 0; i <= size; i++ {
					add("InsertAll", i, 0, x, y)
				}
			}
		}
	}
	for _, x := range vs {
		add("Remove", 0, 0, x)
		for _, y := range vs {
			add("RemoveAll", 0, 0, x, y)
		}
		for i := 0; i < size; i++ {
			add("Set", i, 0, x)
			add("MoveObject", i, 0, x)
		}
	}
	for i := 0; i < size; i++ {
		add("RemoveAt", i, 0)
		for j := 0; j <= size; j++ {
			add("RemoveRange", i, j)
			add("Move", i, j)
		}
	}
	add("Clear", 0, 0)
	return r
}

func (w *world) enumOps(edited int) []op {
	r := []op{}
	for o := 1; o <= edited; o++ {
		for _, f := range w.feats[o-1] {
			vs := w.candidates(o, f)
			if f.Attr {
				vs = []int{101, 102, 103}
			}
			if f.Many {
				cur := w.seq(w.get(w.objs[o-1], f))
				r = append(r, w.enumList(o, f, len(cur), vs)...)
				r = append(r, op{K: "Unset", O: o, F: f.Name, X: []int{}})
				if !f.Uniq {
					r = append(r, op{K: "SetM", O: o, F: f.Name, X: []int{101, 101}})
				}
				continue
			}
			for _, x := range vs {
				r = append(r, op{K: "SetS", O: o, F: f.Name, X: []int{x}})
			}
			r = append(r, op{K: "SetS", O: o, F: f.Name, X: []int{}}, op{K: "Unset", O: o, F: f.Name, X: []int{}})
		}
	}
	all := []int{}
	for i := range w.objs {
		all = append(all, i+1)
	}
	for i, res := range w.ress {
		r = append(r, w.enumList(-(i+1), nil, res.GetContents().Size(), all)...)
	}
	return r
}

func stateKey(obs M) string {
	b, _ := json.Marshal([]any{obs["val"], obs["rc"]})
	return string(b)
}

func runGraphX(c *Config) error {
	p := strings.Split(c.Mode, ":")
	set := featSets[p[0]]
	nobj, _ := strconv.Atoi(p[1])
	nres, _ := strconv.Atoi(p[2])
	edited, _ := strconv.Atoi(p[3])
	in := map[string]bool{}
	for _, f := range set {
		in[f] = true
	}
	m := newDynModel(false, false)
	var feats []*feat
	for it := m.leaf.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
		if f := describe(it.Next().(efeature)); in[f.Name] {
			feats = append(feats, f)
		}
	}
	fresh := func() *world {
		w := newWorld()
		for i := 0; i < nobj; i++ {
			w.reg(m.pkg.GetEFactoryInstance().Create(m.leaf), feats)
		}
		w.addResources(nres, true)
		w.attach()
		return w
	}
	replay := func(path []op) *world {
		w := fresh()
		for _, p := range path {
			w.apply(p)
		}
		return w
	}
	t := NewTrace(c.Out)
	defer t.Close()
	// the shards of one exploration split the states between them
	shard, shards := c.Shard, c.Shards
	w := fresh()
	w.header(t)
	seen := map[string]bool{stateKey(w.observe()): true}
	queue := [][]op{{}}
	for n := 0; len(queue) > 0; n++ {
		path := queue[0]
		queue = queue[1:]
		w := replay(path)
		obs := w.observe()
		ops := w.enumOps(edited)
		mine := n%shards == shard
		if mine {
			t.Emit(M{"ev": "reset", "obs": obs, "quiet": false})
		}
		for _, p := range ops {
			w := replay(path)
			var e M
			if mine {
				e = w.stepAs(t, p, "try")
			} else {
				w.apply(p)
			}
			var after M
			if e != nil {
				after = e["obs"].(M)
			} else {
				after = w.observe()
			}
			if k := stateKey(after); !seen[k] {
				seen[k] = true
				queue = append(queue, append(append([]op{}, path...), p))
			}
			if len(seen) > c.Len {
				return fmt.Errorf("more than %d states", c.Len)
			}
		}
	}
	t.Emit(M{"ev": "count", "states": len(seen)})
	return nil
}

func init() { scenarios["graphx"] = runGraphX }
