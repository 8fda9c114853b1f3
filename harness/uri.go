package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"

	"github.com/masagroup/soft.go/ecore"
)

// uri: every operation of the URI type on enumerated and random URIs.

type comps [8]string // scheme user password host port path query fragment

func codes(s string) []int {
	r := []int{}
	for _, b := range []byte(s) {
		r = append(r, int(b))
	}
	return r
}

func compsOf(u *ecore.URI) comps {
	return comps{u.Scheme(), u.Username(), u.Password(), u.Host(), u.Port(), u.Path(), u.Query(), u.Fragment()}
}

func compsEvent(c comps, text string) M {
	e := M{"text": codes(text), "raw": text}
	for i, k := range []string{"s", "u", "w", "h", "t", "p", "q", "f"} {
		e[k] = codes(c[i])
	}
	return e
}

func uriEvent(u *ecore.URI) M { return compsEvent(compsOf(u), u.String()) }

// text of a URI with these components, written without the code under test
func uriText(c comps) string {
	var s strings.Builder
	if c[0] != "" {
		s.WriteString(c[0] + ":")
	}
	auth := c[1] != "" || c[2] != "" || c[3] != "" || c[4] != ""
	if auth || (strings.HasPrefix(c[5], "//") && c[0] != "") {
		s.WriteString("//")
	}
	if c[1] != "" || c[2] != "" {
		s.WriteString(url.PathEscape(c[1]))
		if c[2] != "" {
			s.WriteString(":" + strings.ReplaceAll(url.PathEscape(c[2]), ":", "%3A"))
		}
		s.WriteString("@")
	}
	s.WriteString(c[3])
	if c[4] != "" {
		s.WriteString(":" + c[4])
	}
	p := strings.NewReplacer("%", "%25", "?", "%3F", "#", "%23", ":", "%3A", " ", "%20").Replace(c[5])
	if !auth && c[0] == "" && strings.HasPrefix(p, "//") && !strings.HasPrefix(p, "///") {
		p = "/%2F" + p[2:]
	}
	s.WriteString(p)
	if c[6] != "" {
		s.WriteString("?" + c[6])
	}
	if c[7] != "" {
		s.WriteString("#" + c[7])
	}
	return s.String()
}

func buildURI(c comps) *ecore.URI {
	return ecore.NewURIBuilder(nil).SetScheme(c[0]).SetUsername(c[1]).SetPassword(c[2]).SetHost(c[3]).SetPort(c[4]).SetPath(c[5]).SetQuery(c[6]).SetFragment(c[7]).URI()
}

type uriRun struct {
	t   *Trace
	rnd *rand.Rand
}

func (r *uriRun) emit(k string, f func(e M)) {
	e := M{"ev": "case", "k": k}
	defer func() {
		if x := recover(); x != nil {
			e["k"], e["op"], e["msg"] = "failed", k, fmt.Sprint(x)
			r.t.Emit(e)
		}
	}()
	Enter(e)
	f(e)
	Leave()
	r.t.Emit(e)
}

func (r *uriRun) parse(c comps) *ecore.URI {
	text := uriText(c)
	var u *ecore.URI
	r.emit("parse", func(e M) {
		e["t"] = text
		var err error
		u, err = ecore.ParseURI(text)
		if err != nil {
			panic(err.Error())
		}
		e["r"] = uriEvent(u)
	})
	return u
}

func (r *uriRun) build(c comps) *ecore.URI {
	var u *ecore.URI
	r.emit("build", func(e M) {
		e["a"] = compsEvent(c, "")
		u = buildURI(c)
		e["r"] = uriEvent(u)
	})
	return u
}

func (r *uriRun) make(c comps) *ecore.URI {
	if r.rnd.Intn(2) == 0 {
		return r.parse(c)
	}
	return r.build(c)
}

func (r *uriRun) unary(u *ecore.URI) {
	r.emit("norm", func(e M) { e["a"] = uriEvent(u); e["r"] = uriEvent(u.Normalize()) })
	r.emit("build", func(e M) { e["a"] = uriEvent(u); e["r"] = uriEvent(ecore.NewURIBuilder(u).URI()) })
	r.emit("trim", func(e M) { e["a"] = uriEvent(u); e["r"] = uriEvent(u.TrimFragment()); e["m"] = uriEvent(u.TrimQuery()) })
	r.emit("auth", func(e M) { e["a"] = uriEvent(u); e["r"] = codes(u.Authority()) })
}

func (r *uriRun) resolve(b, x *ecore.URI) {
	r.emit("resolve", func(e M) { e["a"] = uriEvent(b); e["b"] = uriEvent(x); e["r"] = uriEvent(b.Resolve(x)) })
}

func (r *uriRun) back(b, x *ecore.URI) {
	r.emit("back", func(e M) {
		e["a"] = uriEvent(b)
		e["b"] = uriEvent(x)
		m := b.Relativize(x)
		e["m"] = uriEvent(m)
		e["r"] = uriEvent(b.Resolve(m))
	})
}

func (r *uriRun) equal(b, x *ecore.URI) {
	r.emit("equal", func(e M) { e["a"] = uriEvent(b); e["b"] = uriEvent(x); e["r"] = b.Equals(x) })
}

func (r *uriRun) prefix(u, o, n *ecore.URI) {
	r.emit("prefix", func(e M) {
		e["a"], e["b"], e["c"] = uriEvent(u), uriEvent(o), uriEvent(n)
		e["r"] = []M{}
		if x := u.ReplacePrefix(o, n); x != nil {
			e["r"] = []M{uriEvent(x)}
		}
	})
}

var plainSegs = []string{"a", "b", "", ".", ".."}
var oddSegs = []string{"a", "b", "ab", "", "", ".", "..", "..", "...", ".a", "a.", "..b", "a:b", "b:", "%2F", "a%b", "c?d", "?", "e#f", "é", "x y", "@", "a@b", "b.xmi"}

// every path of up to n plain segments
func allPaths(n int) []string {
	r := []string{}
	layer := []string{}
	for _, s := range plainSegs {
		layer = append(layer, s)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		next := []string{}
		for _, p := range layer {
			if !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
			for _, s := range plainSegs {
				next = append(next, p+"/"+s)
			}
		}
		layer = next
	}
	return r
}

func (r *uriRun) randomPath(abs bool) string {
	n := r.rnd.Intn(6)
	s := []string{}
	segs := oddSegs
	if r.rnd.Intn(2) == 0 {
		segs = plainSegs
	}
	for i := 0; i < n; i++ {
		s = append(s, segs[r.rnd.Intn(len(segs))])
	}
	p := strings.Join(s, "/")
	if abs {
		p = "/" + p
	}
	return p
}

func choose(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func (r *uriRun) random() comps {
	c := comps{}
	c[0] = choose(r.rnd, "", "", "http", "file", "x+y")
	if r.rnd.Intn(2) == 0 {
		c[3] = choose(r.rnd, "", "h", "http", "a.b", "[::1]")
		if c[3] != "" {
			c[4] = choose(r.rnd, "", "", "80", "8080")
			c[1] = choose(r.rnd, "", "", "u", "h", "http", "u@v", "a/b")
			if c[1] != "" {
				c[2] = choose(r.rnd, "", "p", "a:b", "p@")
			}
		}
	}
	auth := c[3] != ""
	c[5] = r.randomPath(auth || r.rnd.Intn(2) == 0)
	if auth && r.rnd.Intn(6) == 0 {
		c[5] = ""
	}
	c[6] = choose(r.rnd, "", "", "q", "k=v&w=a/b", "?")
	c[7] = choose(r.rnd, "", "", "f", "//@a.0/b", "x?y", "%2Fz", "a:b")
	return c
}

// another URI, often close to c
func (r *uriRun) near(c comps) comps {
	d := r.random()
	if r.rnd.Intn(3) > 0 {
		d[0], d[1], d[2], d[3], d[4] = c[0], c[1], c[2], c[3], c[4]
		d[5] = r.randomPath(c[3] != "" || strings.HasPrefix(c[5], "/"))
		if r.rnd.Intn(3) == 0 {
			if i := strings.LastIndexByte(c[5], '/'); i >= 0 {
				d[5] = c[5][:i+1] + strings.TrimPrefix(d[5], "/")
			}
		}
		if r.rnd.Intn(5) == 0 {
			d[5] = c[5]
		}
		if r.rnd.Intn(3) == 0 {
			d[6] = c[6]
		}
	}
	return d
}

func runURI(c *Config) error {
	r := &uriRun{NewTrace(c.Out), rand.New(rand.NewSource(c.Seed))}
	defer r.t.Close()
	r.t.Emit(M{"ev": "meta", "facets": facets()})
	if c.Mode == "all" { // every pair of paths of up to Len segments
		n := 0
		paths := allPaths(c.Len)
		for _, p := range paths {
			for _, q := range paths {
				if n++; n%c.Shards != c.Shard {
					continue
				}
				s := choose(r.rnd, "", "http")
				h := choose(r.rnd, "", "h")
				if h != "" && (!strings.HasPrefix(p, "/") || !strings.HasPrefix(q, "/")) {
					h = ""
				}
				b, x := buildURI(comps{s, "", "", h, "", p, "", ""}), buildURI(comps{s, "", "", h, "", q, "", ""})
				r.resolve(b, buildURI(comps{"", "", "", "", "", q, "", ""}))
				r.back(b, x)
			}
		}
		for n, p := range allPaths(c.Len + 2) {
			if n%c.Shards == c.Shard {
				r.unary(buildURI(comps{choose(r.rnd, "", "http"), "", "", "", "", p, "", ""}))
			}
		}
		return nil
	}
	for h := 0; h < c.N; h++ {
		a := r.random()
		b := r.near(a)
		// a different text of the same kind, so that texts built wrongly meet the ones parsed
		u, v := r.make(a), r.make(b)
		if u == nil || v == nil {
			continue
		}
		r.unary(u)
		r.resolve(u, v)
		r.back(u, v)
		r.back(v, u)
		r.equal(u, v)
		r.equal(u, r.make(a))
		o := a
		if i := r.rnd.Intn(len(a[5]) + 1); a[5] != "" {
			o[5] = a[5][:i]
		}
		if r.rnd.Intn(3) == 0 {
			o = b
		}
		o[6], o[7] = "", ""
		r.prefix(u, buildURI(o), v)
	}
	return nil
}

func init() { scenarios["uri"] = runURI }
