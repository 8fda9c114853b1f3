package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/masagroup/soft.go/ecore"
)

// codec: object graphs in two documents that refer to each other, saved and
// loaded in each format, in each way, with edits in between.

type codecModel struct {
	pkgs  []ecore.EPackage
	node  ecore.EClass
	cls   []ecore.EClass // what can be created
	entry ecore.EClass
	color ecore.EEnum
	shade ecore.EEnum
}

func typedAttr(c ecore.EClass, name string, t ecore.EDataType, many bool) ecore.EAttribute {
	a := mkAttr(c, name, many, false)
	a.SetEType(t)
	return a
}

func newCodecModel(format string) *codecModel {
	m := &codecModel{}
	f, p := ecore.GetFactory(), ecore.GetPackage()
	pkg := func(name, prefix string) ecore.EPackage {
		x := f.CreateEPackage()
		x.SetName(name)
		x.SetNsPrefix(prefix)
		x.SetNsURI("http://verif/" + name)
		m.pkgs = append(m.pkgs, x)
		return x
	}
	class := func(x ecore.EPackage, name string, super ...ecore.EClass) ecore.EClass {
		c := f.CreateEClass()
		c.SetName(name)
		x.GetEClassifiers().Add(c)
		for _, s := range super {
			c.GetESuperTypes().Add(s)
		}
		return c
	}
	lib, sub, alt := pkg("lib", "m"), pkg("sub", "m"), pkg("alt", "m")
	m.color = f.CreateEEnum()
	m.color.SetName("Color")
	lib.GetEClassifiers().Add(m.color)
	for i, n := range []string{"RED", "GREEN", "BLUE"} {
		l := f.CreateEEnumLiteral()
		l.SetName(n)
		l.SetLiteral(strings.ToLower(n))
		l.SetValue(i)
		m.color.GetELiterals().Add(l)
	}
	// an enumeration with the same literals for other values
	m.shade = f.CreateEEnum()
	m.shade.SetName("Shade")
	lib.GetEClassifiers().Add(m.shade)
	for i, n := range []string{"BLUE", "RED", "DARK"} {
		l := f.CreateEEnumLiteral()
		l.SetName("S_" + n)
		l.SetLiteral(strings.ToLower(n))
		l.SetValue(i + 1)
		m.shade.GetELiterals().Add(l)
	}
	mixin := class(lib, "Mixin")
	mixin.SetAbstract(true)
	n := class(lib, "Node", mixin)
	s := class(lib, "Sub", n)
	l := class(sub, "Leaf", n)
	n2 := class(alt, "Node", n) // the name of another class
	if format == "sql" {        // tables are called by the name of the class alone, saving reports it
		n2.SetName("Other")
	}
	m.entry = class(lib, "Entry")
	m.entry.SetInstanceTypeName("java.util.Map.Entry")
	m.node, m.cls = n, []ecore.EClass{n, s, l, n2}

	typedAttr(m.entry, "key", p.GetEString(), false)
	typedAttr(m.entry, "value", p.GetEString(), false)
	typedAttr(mixin, "label", p.GetEString(), false)
	mkRef(mixin, "peer", mixin, false, false, true)
	mkRef(mixin, "part", mixin, false, true, false)

	typedAttr(n, "name", p.GetEString(), false)
	typedAttr(n, "text", p.GetEString(), false).SetUnsettable(true)
	typedAttr(n, "dflt", p.GetEString(), false).SetDefaultValueLiteral("d<>&\"x")
	typedAttr(n, "tags", p.GetEString(), true)
	typedAttr(n, "utags", p.GetEString(), true).SetUnsettable(true)
	typedAttr(n, "order", p.GetEInt(), false)
	typedAttr(n, "unum", p.GetEInt(), false).SetUnsettable(true)
	typedAttr(n, "dnum", p.GetEInt(), false).SetDefaultValueLiteral("7")
	typedAttr(n, "nums", p.GetEInt(), true)
	typedAttr(n, "long", p.GetELong(), false)
	typedAttr(n, "short", p.GetEShort(), false)
	typedAttr(n, "byte", p.GetEByte(), false)
	typedAttr(n, "char", p.GetEChar(), false)
	typedAttr(n, "bool", p.GetEBoolean(), false)
	typedAttr(n, "dbool", p.GetEBoolean(), false).SetDefaultValueLiteral("true")
	typedAttr(n, "double", p.GetEDouble(), false)
	typedAttr(n, "float", p.GetEFloat(), false)
	typedAttr(n, "floats", p.GetEFloat(), true)
	typedAttr(n, "date", p.GetEDate(), false)
	typedAttr(n, "dates", p.GetEDate(), true)
	typedAttr(n, "blob", p.GetEByteArray(), false)
	typedAttr(n, "blobs", p.GetEByteArray(), true)
	typedAttr(n, "color", m.color, false)
	typedAttr(n, "colors", m.color, true)
	typedAttr(n, "shade", m.shade, false)
	typedAttr(n, "ucolor", m.color, false).SetUnsettable(true)
	typedAttr(n, "tattr", p.GetEString(), false).SetTransient(true)

	mkRef(n, "kid", n, false, true, false)
	mkRef(n, "kids", n, true, true, false)
	mkRef(n, "pkid", n, false, true, true)
	mkRef(n, "pkids", n, true, true, true)
	mkRef(n, "ukid", n, false, true, false).SetUnsettable(true)
	mkRef(n, "ukids", n, true, true, false).SetUnsettable(true)
	children, parent := mkRef(n, "children", n, true, true, false), mkRef(n, "parent", n, false, false, false)
	opp(children, parent)
	mkRef(n, "any", p.GetEObject(), false, true, false)
	mkRef(n, "anys", p.GetEObject(), true, true, false)
	mkRef(n, "entries", m.entry, true, true, false)
	mkRef(n, "ref", n, false, false, true)
	mkRef(n, "refs", n, true, false, true)
	mkRef(n, "uref", n, false, false, true).SetUnsettable(true)
	mkRef(n, "urefs", n, true, false, true).SetUnsettable(true)
	mkRef(n, "lref", n, false, false, false)
	mkRef(n, "lrefs", n, true, false, false)
	mkRef(n, "aref", p.GetEObject(), false, false, true)
	mkRef(n, "arefs", p.GetEObject(), true, false, true)
	mkRef(n, "tref", n, false, false, true).SetTransient(true)
	opp(mkRef(n, "next", n, false, false, true), mkRef(n, "prev", n, false, false, true))
	opp(mkRef(n, "members", n, true, false, true), mkRef(n, "group", n, false, false, true))
	opp(mkRef(n, "likes", n, true, false, true), mkRef(n, "likedBy", n, true, false, true))
	typedAttr(s, "extra", p.GetEString(), false)
	mkRef(s, "subs", s, true, true, false)
	typedAttr(l, "select", p.GetEString(), true)
	mkRef(l, "leaf", l, false, false, true)
	typedAttr(n2, "Size", p.GetEInt(), false)
	return m
}

// ------------------------------------------------------------- observation

type codecWorld struct {
	set ecore.EResourceSet
	res map[string]ecore.EResource // A, B
}

// codecFeat: what the specification knows about a feature
func codecFeat(f ecore.EStructuralFeature) M {
	k := "a"
	if r, _ := f.(ecore.EReference); r != nil {
		k = "r"
		if r.IsContainment() {
			k = "c"
		} else if o := r.GetEOpposite(); o != nil && o.IsContainment() {
			k = "o"
		}
	}
	return M{"k": k, "t": f.IsTransient() || f.IsDerived() || f.IsVolatile(), "u": f.IsUnsettable(), "m": f.IsMany()}
}

func className(c ecore.EClass) string { return c.GetEPackage().GetNsURI() + "|" + c.GetName() }

func valueToken(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return "string:" + strconv.QuoteToASCII(x)
	case []byte:
		return "bytes:" + hex.EncodeToString(x)
	case *time.Time:
		if x == nil {
			return "nil"
		}
		return "time:" + strconv.FormatInt(x.UnixNano(), 10)
	case time.Time:
		return "timevalue:" + strconv.FormatInt(x.UnixNano(), 10)
	case float64:
		return "float64:" + strconv.FormatFloat(x, 'g', -1, 64)
	case float32:
		return "float32:" + strconv.FormatFloat(float64(x), 'g', -1, 32)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// addressText is the same for file:/path and file:///path
func addressText(u *ecore.URI) string { return strings.Replace(u.String(), "file:///", "file:/", 1) }

type codecObs struct {
	w    *codecWorld
	ids  map[ecore.EObject]int
	objs []ecore.EObject
	meta M // classes seen
}

func (b *codecObs) num(o ecore.EObject) int {
	if o == nil {
		return 0
	}
	if n, ok := b.ids[o]; ok {
		return n
	}
	b.objs = append(b.objs, o)
	b.ids[o] = len(b.objs)
	return len(b.objs)
}

func (b *codecObs) elems(v any) (r []any, isList bool) {
	if l, ok := v.(ecore.EList); ok {
		if d, ok := l.(ecore.EObjectList); ok {
			l = d.GetUnResolvedList()
		}
		for i := 0; i < l.Size(); i++ {
			r = append(r, l.Get(i))
		}
		return r, true
	}
	if v != nil {
		r = []any{v}
	}
	return r, false
}

// look reads the world without resolving any proxy
func (w *codecWorld) look(meta M) M {
	b := &codecObs{w: w, ids: map[ecore.EObject]int{}, meta: meta}
	res, uris := M{}, map[string]string{}
	for _, k := range []string{"A", "B"} {
		r := w.res[k]
		if r == nil {
			continue
		}
		q := []int{}
		for i := 0; i < r.GetContents().Size(); i++ {
			q = append(q, b.num(r.GetContents().Get(i).(ecore.EObject)))
		}
		u := addressText(r.GetURI())
		uris[u] = k
		res[k] = M{"u": u, "r": q}
	}
	objs := []M{}
	for i := 0; i < len(b.objs); i++ {
		o := b.objs[i].(ecore.EObjectInternal)
		c := o.EClass()
		e := M{"c": className(c), "i": "", "px": "", "pt": 0, "dr": "", "ad": ""}
		objs = append(objs, e)
		if o.EIsProxy() {
			u := o.EProxyURI()
			e["px"] = addressText(u)
			if k := uris[addressText(u.TrimFragment())]; k != "" {
				if t := w.res[k].GetEObject(u.Fragment()); t != nil {
					e["pt"] = b.num(t)
				}
			}
			e["f"] = []M{}
			continue
		}
		if r := o.EInternalResource(); r != nil {
			e["dr"] = r.GetURI().String()
		}
		r := o.EResource()
		if r != nil {
			e["ad"] = addressText(r.GetURI()) + "#" + r.GetURIFragment(o)
			if m := r.GetObjectIDManager(); m != nil {
				if id := m.GetID(o); id != nil {
					e["i"] = fmt.Sprint(id)
				}
			}
			if uris[addressText(r.GetURI())] == "" { // not one of our documents
				e["f"] = []M{}
				continue
			}
		}
		fs := []M{}
		for it := c.GetEAllStructuralFeatures().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EStructuralFeature)
			d := codecFeat(f)
			if d["k"] == "o" || d["t"] == true {
				continue
			}
			set := o.EIsSet(f)
			vs, many := b.elems(o.EGetResolve(f, false))
			if !set && (!many || len(vs) == 0) {
				continue
			}
			fe := M{"n": f.GetName(), "s": set, "k": d["k"]}
			if d["k"] == "a" {
				q := []string{}
				for _, v := range vs {
					q = append(q, valueToken(v))
				}
				fe["v"] = q
				fe["o"] = []int{}
			} else {
				q := []int{}
				for _, v := range vs {
					x, _ := v.(ecore.EObject)
					q = append(q, b.num(x))
				}
				fe["v"] = []string{}
				fe["o"] = q
			}
			fs = append(fs, fe)
		}
		e["f"] = fs
	}
	return M{"objs": objs, "res": res}
}

func (w *codecWorld) errs(names ...string) []string {
	q := []string{}
	for k, r := range w.res {
		if len(names) > 0 && names[0] != k {
			continue
		}
		for i := 0; i < r.GetErrors().Size(); i++ {
			q = append(q, r.GetErrors().Get(i).(ecore.EDiagnostic).GetMessage())
		}
	}
	return q
}

// -------------------------------------------------------------- generation

type codecGen struct {
	*codecWorld
	rnd    *rand.Rand
	fmt    string
	m      *codecModel
	objs   []ecore.EObject
	ids    int
	values map[string]bool
}

func codecSet(m *codecModel) ecore.EResourceSet {
	s := ecore.NewEResourceSetImpl()
	for _, p := range m.pkgs {
		s.GetPackageRegistry().RegisterPackage(p)
	}
	return s
}

func codecExt(format string) string {
	return map[string]string{"xml": "xml", "xmi": "ecore", "binary": "bin", "sql": "sqlite"}[format]
}

func (g *codecGen) manager() ecore.EObjectIDManager {
	switch g.ids {
	case 1:
		return ecore.NewIncrementalIDManager()
	case 2:
		return ecore.NewUUIDManager()
	case 3:
		return ecore.NewULIDManager()
	}
	return nil
}

func (g *codecGen) resource(s ecore.EResourceSet, k string) ecore.EResource {
	path := map[string]string{"A": "a", "B": "dir/b"}[k]
	r := s.CreateResource(ecore.NewURI("file:///m/" + path + "." + codecExt(g.fmt)))
	if m := g.manager(); m != nil {
		r.SetObjectIDManager(m)
	}
	return r
}

func (g *codecGen) str() string {
	q := []string{"", "a", "a b", " lead", "trail ", "<&>\"'", "é≠𝄞", "line\nbreak", "tab\tx", "cr\rx", "crlf\r\nx", "]]>", "&amp;", "  ", "#x", "x:y", "'';--", "null", "0", "a\u00a0b", "\n"}
	return q[g.rnd.Intn(len(q))]
}

func (g *codecGen) value(t ecore.EDataType) any {
	r := g.rnd
	pickInt := func(q ...int64) int64 { return q[r.Intn(len(q))] }
	p := ecore.GetPackage()
	switch t {
	case p.GetEString():
		return g.str()
	case p.GetEInt():
		return int(pickInt(0, 1, -1, 127, 128, -129, 65536, math.MaxInt32, math.MinInt32, 1<<40, -(1 << 40)))
	case p.GetELong():
		return pickInt(0, 1, -1, 255, 1<<33, math.MaxInt64, math.MinInt64)
	case p.GetEShort():
		return int16(pickInt(0, 1, -1, 300, math.MaxInt16, math.MinInt16))
	case p.GetEByte():
		if g.text() {
			return byte(pickInt(48, 65, 60, 38, 122)) // a character
		}
		return byte(pickInt(0, 1, 65, 127, 128, 255))
	case p.GetEChar():
		return byte(pickInt(33, 65, 60, 38, 122))
	case p.GetEBoolean():
		return r.Intn(2) == 0
	case p.GetEDouble():
		return []float64{0, 1, -1.5, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 123456789.125, 1.0 / 3}[r.Intn(9)]
	case p.GetEFloat():
		return []float32{0, 1, -1.5, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777217, 1.0 / 3}[r.Intn(8)]
	case p.GetEDate():
		d := time.Date(2020+r.Intn(3), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		switch r.Intn(3) {
		case 0:
			d = d.Add(time.Duration(r.Intn(1000)) * time.Millisecond)
		case 1:
			d = d.In(time.FixedZone("x", 3600*5))
		}
		return &d
	case p.GetEByteArray():
		if g.text() {
			return []byte(g.str())
		}
		return [][]byte{{}, {1}, []byte("abc"), {0}, {255, 254, 0, 10, 13}, []byte("<&é")}[r.Intn(6)]
	case g.m.shade:
		return 1 + r.Intn(3)
	case g.m.color:
		return r.Intn(3)
	}
	panic("no value for " + t.GetName())
}

func (g *codecGen) tree(o ecore.EObject) map[ecore.EObject]bool {
	r := map[ecore.EObject]bool{o: true}
	for it := o.EAllContents(); it.HasNext(); {
		r[it.Next().(ecore.EObject)] = true
	}
	return r
}

// alive: the objects of the two documents
func (g *codecGen) alive() (q []ecore.EObject) {
	for _, o := range g.objs {
		if o.EResource() != nil {
			q = append(q, o)
		}
	}
	return
}

// place moves or adds an object below another or as a root
func (g *codecGen) place(o ecore.EObject) {
	g.detach(o)
	q := g.alive()
	mine := g.tree(o)
	for try := 0; try < 20; try++ {
		if len(q) == 0 {
			break
		}
		p := q[g.rnd.Intn(len(q))]
		if mine[p] {
			continue
		}
		var fs []ecore.EReference
		for it := p.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EReference)
			if !f.IsContainment() || f.GetName() == "entries" || !f.GetEReferenceType().IsSuperTypeOf(o.EClass()) && f.GetEType() != ecore.GetPackage().GetEObject() {
				continue
			}
			if !f.IsMany() && p.EGetResolve(f, false) != nil {
				continue
			}
			fs = append(fs, f)
		}
		if len(fs) == 0 {
			continue
		}
		f := fs[g.rnd.Intn(len(fs))]
		if f.IsMany() {
			l := p.EGetResolve(f, false).(ecore.EList)
			l.Insert(g.rnd.Intn(l.Size()+1), o)
		} else {
			p.ESet(f, o)
		}
		// in a document of its own
		if f.IsResolveProxies() && g.rnd.Intn(4) == 0 {
			k := "A"
			if p.EResource() == g.res["A"] {
				k = "B"
			}
			if g.fmt == "binary" || k == "B" && g.res["B"].GetContents().Size() < 6 {
				if g.multi() {
					g.res[k].GetContents().Add(o)
				}
			}
		}
		return
	}
	if g.multi() {
		g.res[[]string{"A", "B"}[g.rnd.Intn(2)]].GetContents().Add(o)
	}
}

// text: the format writes every value as text
func (g *codecGen) text() bool { return g.fmt == "xml" || g.fmt == "xmi" }

// multi: the format holds several roots
func (g *codecGen) multi() bool { return g.fmt == "binary" || g.fmt == "sql" }

func (g *codecGen) detach(o ecore.EObject) {
	if r := o.(ecore.EObjectInternal).EInternalResource(); r != nil {
		r.GetContents().Remove(o)
	}
	if o.EContainer() != nil {
		ecore.Remove(o)
	}
}

func (g *codecGen) fill(o ecore.EObject, f ecore.EStructuralFeature) {
	if !f.IsChangeable() {
		return
	}
	d := codecFeat(f)
	rnd := g.rnd
	if d["k"] == "c" && f.GetName() == "entries" {
		l := o.EGetResolve(f, false).(ecore.EList)
		if m, ok := l.(ecore.EMap); ok {
			m.Put(g.str(), g.str())
		}
		return
	}
	if d["k"] == "o" {
		return
	}
	if d["k"] == "c" {
		if l, ok := o.EGetResolve(f, false).(ecore.EList); ok && l.Size() > 1 && rnd.Intn(2) == 0 {
			l.Move(rnd.Intn(l.Size()), rnd.Intn(l.Size()))
		} else if ok && l.Size() == 0 && f.IsUnsettable() && rnd.Intn(2) == 0 {
			l.Clear()
		}
		return
	}
	if rnd.Intn(8) == 0 {
		o.EUnset(f)
		return
	}
	var one func() any
	if d["k"] == "a" {
		t := f.(ecore.EAttribute).GetEAttributeType()
		one = func() any { return g.value(t) }
	} else {
		r := f.(ecore.EReference)
		q := []any{}
		for _, x := range g.alive() {
			same := x.EResource() == o.EResource()
			if (r.IsResolveProxies() || same) && (r.GetEReferenceType().IsSuperTypeOf(x.EClass()) || r.GetEType() == ecore.GetPackage().GetEObject()) {
				q = append(q, x)
			}
		}
		if r.IsResolveProxies() && r.GetEOpposite() == nil && rnd.Intn(4) == 0 {
			p := g.m.pkgs[0].GetEFactoryInstance().Create(g.m.node).(ecore.EObjectInternal)
			at := []string{"file:///m/c.%s", "file:///m/c.%s?v=1", "file:///m/c.%s?v=2", "file:///m/dir/c.%s", "file:///d.%s", "file://host/m/c.%s", "http://host/m/c.%s"}[rnd.Intn(7)]
			p.ESetProxyURI(ecore.NewURI(fmt.Sprintf(at+"#//@kids.%d", codecExt(g.fmt), rnd.Intn(3))))
			q = []any{p}
		}
		if len(q) == 0 {
			return
		}
		one = func() any { return q[rnd.Intn(len(q))] }
	}
	if l, ok := o.EGetResolve(f, false).(ecore.EList); ok {
		switch k := rnd.Intn(6); {
		case l.Size() > 0 && k == 0:
			l.RemoveAt(rnd.Intn(l.Size()))
		case l.Size() > 1 && k == 1:
			l.Move(rnd.Intn(l.Size()), rnd.Intn(l.Size()))
		case k == 2 && f.IsUnsettable():
			l.Clear()
		default:
			for i := 1 + rnd.Intn(3); i > 0; i-- {
				l.Insert(rnd.Intn(l.Size()+1), one())
			}
		}
		return
	}
	o.ESet(f, one())
}

func (g *codecGen) edit(n int) {
	for ; n > 0; n-- {
		q := g.alive()
		switch {
		case len(q) == 0 || len(q) < 14 && g.rnd.Intn(12) == 0:
			c := g.m.cls[g.rnd.Intn(len(g.m.cls))]
			o := c.GetEPackage().GetEFactoryInstance().Create(c)
			g.objs = append(g.objs, o)
			g.place(o)
		case g.rnd.Intn(14) == 0:
			o := q[g.rnd.Intn(len(q))]
			if o.EContainer() != nil {
				g.place(o)
			}
		default:
			o := q[g.rnd.Intn(len(q))]
			fs := o.EClass().GetEAllStructuralFeatures()
			f := fs.Get(g.rnd.Intn(fs.Size())).(ecore.EStructuralFeature)
			g.fill(o, f)
		}
	}
	// references must not be left to objects of no document
	for _, o := range g.alive() {
		for it := o.EClass().GetEAllReferences().Iterator(); it.HasNext(); {
			f := it.Next().(ecore.EReference)
			vs, many := (&codecObs{}).elems(o.EGetResolve(f, false))
			for _, v := range vs {
				x := v.(ecore.EObjectInternal)
				if !x.EIsProxy() && (x.EResource() == nil || x.EResource() != o.EResource() && !f.IsResolveProxies()) {
					if many {
						o.EGetResolve(f, false).(ecore.EList).Remove(v)
					} else {
						o.EUnset(f)
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- formats

func (g *codecGen) options() map[string]any {
	o := map[string]any{}
	switch g.fmt {
	case "xml", "xmi":
		if g.ids > 0 {
			o[ecore.XML_OPTION_ID_ATTRIBUTE_NAME] = "id"
		}
		if g.rnd.Intn(3) == 0 {
			o[ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION] = true
		}
		if g.rnd.Intn(3) == 0 {
			o[ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT] = true
		}
	case "binary":
		if g.ids > 0 {
			o[ecore.BINARY_OPTION_ID_ATTRIBUTE] = true
		}
	case "sql":
		if g.ids > 0 {
			o[ecore.SQL_OPTION_OBJECT_ID] = "esyncID"
		}
		if g.rnd.Intn(2) == 0 {
			o[ecore.SQL_OPTION_CONTAINER_ID] = true
		}
		if g.rnd.Intn(2) == 0 {
			o[ecore.SQL_OPTION_IN_MEMORY_DATABASE] = true
		}
	}
	return o
}

func (g *codecGen) save(r ecore.EResource, o map[string]any) []byte {
	var b bytes.Buffer
	r.SaveWithWriter(&b, o)
	return b.Bytes()
}

func (g *codecGen) codec() ecore.ECodec {
	switch g.fmt {
	case "xml":
		return &ecore.XMLCodec{}
	case "xmi":
		return &ecore.XMICodec{}
	case "binary":
		return &ecore.BinaryCodec{}
	}
	return &ecore.SQLCodec{}
}

type codecDoc struct {
	bytes []byte
	opts  map[string]any
}

func optNames(o map[string]any) []string {
	q := []string{}
	for _, k := range []string{ecore.XML_OPTION_ID_ATTRIBUTE_NAME, ecore.XML_OPTION_DEFERRED_REFERENCE_RESOLUTION, ecore.XML_OPTION_DEFERRED_ROOT_ATTACHMENT,
		ecore.BINARY_OPTION_ID_ATTRIBUTE, ecore.SQL_OPTION_OBJECT_ID, ecore.SQL_OPTION_CONTAINER_ID, ecore.SQL_OPTION_IN_MEMORY_DATABASE} {
		if o[k] != nil {
			q = append(q, k)
		}
	}
	return q
}

func same(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("writer failed")
	}
	w.left -= len(p)
	return len(p), nil
}

// failOnceWriter fails when a byte is reached, and works afterwards
type failOnceWriter struct{ left int }

func (w *failOnceWriter) Write(p []byte) (int, error) {
	if w.left >= 0 && len(p) > w.left {
		n := w.left
		w.left = -1
		return n, errors.New("writer failed")
	}
	if w.left >= 0 {
		w.left -= len(p)
	}
	return len(p), nil
}

// failCloseConverter gives writers that take everything and fail when they are closed
type failCloseConverter struct{ ecore.EURIConverter }

type failCloseWriter struct{ io.Writer }

func (w failCloseWriter) Close() error { return errors.New("writer failed") }

func (c *failCloseConverter) CreateWriter(uri *ecore.URI) (io.WriteCloser, error) {
	return failCloseWriter{io.Discard}, nil
}

type failReader struct {
	b []byte
}

func (r *failReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, errors.New("reader failed")
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func (g *codecGen) event(t *Trace, e M, f func()) bool {
	Enter(M{"ev": e["ev"], "how": fmt.Sprint(e["how"]), "fmt": g.fmt})
	defer Leave()
	if msg := guarded(f); msg != "" {
		e["why"] = msg
		e["what"] = e["ev"]
		e["ev"] = "crash"
	}
	t.Emit(e)
	return e["ev"] != "crash"
}

func (g *codecGen) loaded(docs map[string]*codecDoc, rd func([]byte) io.Reader, names ...string) *codecWorld {
	w := &codecWorld{set: codecSet(g.m), res: map[string]ecore.EResource{}}
	for _, k := range names {
		w.res[k] = g.resource(w.set, k)
		w.res[k].LoadWithReader(rd(docs[k].bytes), docs[k].opts)
	}
	return w
}

func plainReader(b []byte) io.Reader { return bytes.NewReader(b) }

func (g *codecGen) round(t *Trace, docs map[string]*codecDoc, facets map[string]bool) bool {
	rnd := g.rnd
	// save
	for _, k := range []string{"A", "B"} {
		d := &codecDoc{opts: g.options()}
		e := M{"ev": "save", "doc": k, "fmt": g.fmt, "ids": g.ids > 0, "opts": optNames(d.opts)}
		if !g.event(t, e, func() {
			before := g.look(nil)
			d.bytes = g.save(g.res[k], d.opts)
			e["errs"] = g.errs(k)
			e["w"] = g.look(nil)
			e["same"] = same(before, e["w"])
			if g.text() {
				e["text"] = string(d.bytes)
			}
		}) {
			return false
		}
		docs[k] = d
		if len(e["errs"].([]string)) > 0 {
			return true
		}
		if g.fmt != "sql" {
			e := M{"ev": "det", "doc": k, "fmt": g.fmt}
			g.event(t, e, func() { e["eq"] = bytes.Equal(d.bytes, g.save(g.res[k], d.opts)) })
		}
	}
	// load
	for _, how := range [][]string{{"A"}, {"B", "A"}} {
		e := M{"ev": "load", "fmt": g.fmt, "how": "", "docs": how, "ids": g.ids > 0}
		rd := plainReader
		if rnd.Intn(4) == 0 && g.fmt != "sql" {
			e["how"] = "bytewise"
			rd = func(b []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(b)) }
		}
		var w *codecWorld
		if !g.event(t, e, func() {
			w = g.loaded(docs, rd, how...)
			e["errs"] = w.errs()
			e["w"] = w.look(nil)
		}) {
			return false
		}
		if (g.fmt == "xml" || g.fmt == "xmi") && len(w.errs()) == 0 {
			x := how[rnd.Intn(len(how))]
			e := M{"ev": "again", "doc": x, "fmt": g.fmt}
			if !g.event(t, e, func() { e["eq"] = bytes.Equal(docs[x].bytes, g.save(w.res[x], docs[x].opts)) }) {
				return false
			}
		}
		if len(how) == 2 && len(w.errs()) == 0 {
			e := M{"ev": "load", "fmt": g.fmt, "how": "resolved", "docs": how, "ids": g.ids > 0}
			if !g.event(t, e, func() {
				for _, k := range how {
					resolveAll(w.res[k])
				}
				e["errs"] = w.errs()
				e["w"] = w.look(nil)
			}) {
				return false
			}
		}
	}
	// object by object
	if g.fmt != "sql" {
		root := g.res["A"].GetContents().Get(0).(ecore.EObject)
		if g.res["A"].GetContents().Size() == 1 {
			e := M{"ev": "object", "fmt": g.fmt, "ids": g.ids > 0, "errs": []string{}}
			if !g.event(t, e, func() {
				var b bytes.Buffer
				if err := g.codec().NewEncoder(g.res["A"], &b, docs["A"].opts).EncodeObject(root); err != nil {
					e["errs"] = []string{err.Error()}
				}
				w := &codecWorld{set: codecSet(g.m), res: map[string]ecore.EResource{}}
				w.res["A"] = g.resource(w.set, "A")
				o, err := g.codec().NewDecoder(w.res["A"], &b, docs["A"].opts).DecodeObject()
				if err != nil {
					e["errs"] = append(e["errs"].([]string), err.Error())
				}
				if o != nil {
					w.res["A"].GetContents().Add(o)
				}
				e["w"] = w.look(nil)
			}) {
				return false
			}
		}
	}
	if facets["cut"] || facets["fault"] {
		return g.cuts(t, docs["A"], rnd)
	}
	return true
}

func resolveAll(r ecore.EResource) {
	for it := r.GetAllContents(); it.HasNext(); {
		o := it.Next().(ecore.EObject)
		for x := o.EClass().GetEAllReferences().Iterator(); x.HasNext(); {
			f := x.Next().(ecore.EReference)
			if l, ok := o.EGet(f).(ecore.EList); ok {
				for i := 0; i < l.Size(); i++ {
					l.Get(i)
				}
			}
		}
	}
}

// cuts: documents that end too early, readers and writers that fail
func (g *codecGen) cuts(t *Trace, d *codecDoc, rnd *rand.Rand) bool {
	whole := g.loaded(map[string]*codecDoc{"A": d}, plainReader, "A").look(nil)
	ks := []int{}
	if g.fmt == "sql" {
		for i := 0; i < 40; i++ {
			ks = append(ks, rnd.Intn(len(d.bytes)))
		}
		for i := 0; i < len(d.bytes); i += 4096 {
			ks = append(ks, i)
		}
	} else {
		for k := 0; k < len(d.bytes); k++ {
			ks = append(ks, k)
		}
	}
	type probe struct {
		name string
		rd   func(b []byte, k int) io.Reader
	}
	for _, p := range []probe{
		{"cut", func(b []byte, k int) io.Reader { return bytes.NewReader(b[:k]) }},
		{"fail", func(b []byte, k int) io.Reader { return &failReader{b[:k:k]} }},
	} {
		e := M{"ev": "cuts", "fmt": g.fmt, "how": p.name, "n": len(ks)}
		bad := []M{}
		for _, k := range ks {
			var w *codecWorld
			Enter(M{"ev": "cuts", "how": p.name, "at": k, "fmt": g.fmt, "doc": hex.EncodeToString(d.bytes)})
			msg := guarded(func() {
				w = g.loaded(map[string]*codecDoc{"A": d}, func(b []byte) io.Reader { return p.rd(b, k) }, "A")
				if len(w.errs()) == 0 {
					bad = append(bad, M{"at": k, "of": len(d.bytes), "same": same(w.look(nil), whole), "why": "no error"})
				}
			})
			Leave()
			if msg != "" {
				bad = append(bad, M{"at": k, "of": len(d.bytes), "same": false, "why": msg})
			}
		}
		e["bad"] = bad
		t.Emit(e)
	}
	e := M{"ev": "cuts", "fmt": g.fmt, "how": "write", "n": len(ks)}
	bad := []M{}
	for i, k := range ks {
		if g.fmt == "sql" && k%7 != 0 {
			continue
		}
		// a writer fails from some byte on, or once
		var wr io.Writer = &failWriter{k}
		if i%2 == 1 {
			wr = &failOnceWriter{k}
		}
		Enter(M{"ev": "cuts", "how": "write", "at": k, "fmt": g.fmt})
		msg := guarded(func() {
			g.res["A"].SaveWithWriter(wr, d.opts)
			if g.res["A"].GetErrors().Size() == 0 {
				bad = append(bad, M{"at": k, "of": len(d.bytes), "same": false, "why": "no error"})
			}
		})
		Leave()
		if msg != "" {
			bad = append(bad, M{"at": k, "of": len(d.bytes), "same": false, "why": msg})
		}
	}
	e["bad"] = bad
	t.Emit(e)
	// nothing is kept when the writer cannot be closed
	e = M{"ev": "cuts", "fmt": g.fmt, "how": "close", "n": 1}
	bad = []M{}
	converter := g.set.GetURIConverter()
	g.set.SetURIConverter(&failCloseConverter{converter})
	msg := guarded(func() {
		g.res["A"].SaveWithOptions(d.opts)
		if g.res["A"].GetErrors().Size() == 0 {
			bad = append(bad, M{"at": len(d.bytes), "of": len(d.bytes), "same": false, "why": "no error"})
		}
	})
	g.set.SetURIConverter(converter)
	if msg != "" {
		bad = append(bad, M{"at": len(d.bytes), "of": len(d.bytes), "same": false, "why": msg})
	}
	e["bad"] = bad
	g.res["A"].GetErrors().Clear()
	t.Emit(e)
	return true
}

func runCodec(c *Config) error {
	rnd := rand.New(rand.NewSource(c.Seed))
	t := NewTrace(c.Out)
	defer t.Close()
	t.Emit(M{"ev": "meta", "facets": facets(), "fmt": c.Mode})
	want := map[string]bool{}
	for _, f := range facets() {
		want[f] = true
	}
	for h := 0; h < c.N; h++ {
		g := &codecGen{codecWorld: &codecWorld{res: map[string]ecore.EResource{}}, rnd: rnd, fmt: c.Mode, m: newCodecModel(c.Mode), ids: rnd.Intn(4)}
		g.set = codecSet(g.m)
		g.res["A"], g.res["B"] = g.resource(g.set, "A"), g.resource(g.set, "B")
		docs := map[string]*codecDoc{}
		rounds := c.Len / 30
		for _, k := range []string{"A", "B"} {
			for i := 0; i == 0 || g.multi() && i < 3 && rnd.Intn(2) == 0; i++ {
				c := g.m.cls[rnd.Intn(4)]
				o := c.GetEPackage().GetEFactoryInstance().Create(c)
				g.objs = append(g.objs, o)
				g.res[k].GetContents().Add(o)
			}
		}
		for i := 0; i < rounds; i++ {
			if msg := guarded(func() { g.edit(5 + rnd.Intn(30)) }); msg != "" {
				return fmt.Errorf("generation: %s", msg)
			}
			if g.res["A"].GetContents().Size() == 0 || g.res["B"].GetContents().Size() == 0 {
				continue
			}
			if !g.round(t, docs, want) {
				break
			}
		}
	}
	return nil
}

func init() { scenarios["codec"] = runCodec }
