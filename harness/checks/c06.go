package checks

import (
	"strings"

	"vh/core"
)

// typ is a Go type with what has to be documented for it under each binding.
type typ struct {
	name  string
	src   string // expression
	decls string
	imps  []string
	x     func(b string) *X
}

func same(x *X) func(string) *X { return func(string) *X { return x } }

// fld is a field of a struct.
type fld struct {
	name string // Go name; the type's name when embedded
	tags map[string]string
	emb  bool
	t    typ
}

var bindings = []string{"json", "xml", "yaml", "form", "header"}

func (f fld) key(b string) (key string, hidden, named bool) {
	tag, ok := f.tags[b]
	if !ok {
		return f.name, false, false
	}
	n := strings.Split(tag, ",")[0]
	if n == "-" {
		return "", true, true
	}
	if n == "" {
		return f.name, false, false
	}
	return n, false, n != f.name
}

func (f fld) line() string {
	s := "\t"
	if !f.emb {
		s += f.name + " "
	}
	s += f.t.src
	if len(f.tags) > 0 {
		var parts []string
		for _, b := range bindings {
			if v, ok := f.tags[b]; ok {
				parts = append(parts, pr("%s:%q", b, v))
			}
		}
		s += " `" + strings.Join(parts, " ") + "`"
	}
	return s + "\n"
}

func structSrc(name string, fs ...fld) string {
	s := "type " + name + " struct {\n"
	for _, f := range fs {
		s += f.line()
	}
	return s + "}\n"
}

// structX is the reference model of a struct: the keys of a binding.
// When one of the fields has tags for other bindings only, it is at most there under its own name, and there may be nothing at all.
func structX(b string, fs ...fld) *X {
	partial := false
	for _, f := range fs {
		if _, ok := f.tags[b]; !ok && len(f.tags) > 0 {
			if f.emb {
				return core.FreeOpt()
			}
			partial = true
		}
		if f.emb && f.t.x(b).Kind == "free" {
			return core.FreeOpt()
		}
	}
	props := map[string]*X{}
	for _, f := range fs { // promoted fields first: the struct's own ones win
		if !f.emb {
			continue
		}
		if _, hidden, named := f.key(b); hidden || named {
			continue
		}
		for k, v := range f.t.x(b).Props {
			props[k] = v
		}
	}
	for _, f := range fs {
		if f.name[0] >= 'a' && f.name[0] <= 'z' {
			continue
		}
		k, hidden, named := f.key(b)
		if hidden || (f.emb && !named) {
			continue
		}
		props[k] = f.t.x(b)
	}
	if partial {
		x := core.FreeOpt()
		x.Props = props
		for _, f := range fs {
			if _, ok := f.tags[b]; ok && !f.emb {
				if k, hidden, _ := f.key(b); !hidden {
					x.Need = append(x.Need, k)
				}
			}
		}
		return x
	}
	return core.Obj(props)
}

func structTyp(name string, fs ...fld) typ {
	t := typ{name: name, src: name, decls: structSrc(name, fs...), x: func(b string) *X { return structX(b, fs...) }}
	for _, f := range fs {
		t.decls += f.t.decls
		t.imps = append(t.imps, f.t.imps...)
	}
	return t
}

func scalarTyp(n string) typ { return typ{name: n, src: n, x: same(scalar(n))} }

func ptrTo(t typ) typ { t.name, t.src = "ptr-"+t.name, "*"+t.src; return t }
func wrap(t typ, name, pre string, f func(*X) *X) typ {
	x := t.x
	t.name, t.src = name+"-"+t.name, pre+t.src
	t.x = func(b string) *X { return f(x(b)) }
	return t
}
func sliceOf(t typ) typ    { return wrap(t, "slice", "[]", core.Arr) }
func slicePtrOf(t typ) typ { return wrap(t, "sliceptr", "[]*", core.Arr) }
func arrayOf(t typ) typ    { return wrap(t, "array", "[3]", func(x *X) *X { return core.ArrN(x, 3) }) }
func mapOf(t typ) typ      { return wrap(t, "map", "map[string]", core.Map) }
func mapIntOf(t typ) typ   { return wrap(t, "mapint", "map[int]", core.Map) }
func named(n string, t typ) typ {
	d := "type " + n + " " + t.src + "\n"
	return typ{name: "named-" + t.name, src: n, decls: t.decls + d, imps: t.imps, x: t.x}
}

// leafTypes are the types without a container.
func leafTypes() []typ {
	var out []typ
	for _, n := range core.ScalarNames {
		out = append(out, scalarTyp(n))
	}
	tagged := structTyp("Tg$N", fld{name: "A", t: scalarTyp("string"), tags: map[string]string{"json": "ja", "xml": "xa", "yaml": "ya", "form": "fa", "header": "Ha"}},
		fld{name: "B", t: scalarTyp("int64"), tags: map[string]string{"json": "jb,omitempty", "xml": "-"}})
	tagged.name = "tagged"
	plain := structTyp("Pl$N", fld{name: "A", t: scalarTyp("int8")}, fld{name: "B", t: scalarTyp("string")})
	plain.name = "plain"
	out = append(out, plain, tagged,
		typ{name: "extplain", src: "ext.Plain", imps: []string{impExt}, x: same(xPlain())},
		typ{name: "enum", src: "ext.Color", imps: []string{impExt}, x: same(xColor())},
		typ{name: "enumint", src: "ext.Level", imps: []string{impExt}, x: same(xLevel())},
		typ{name: "exttags", src: "ext.Tags", imps: []string{impExt}, x: same(core.Arr(scalar("string")))},
		typ{name: "time", src: "time.Time", imps: []string{`"time"`}, x: same(core.Prim("string", "date-time"))},
	)
	for _, n := range []string{"string", "int", "int64", "float32", "bool", "uint16"} {
		out = append(out, named("Ns$N", scalarTyp(n)))
	}
	return out
}

// rename makes the declarations of a type distinct from those of another field's type.
func rename(t typ, sfx string) typ {
	r := func(s string) string { return strings.ReplaceAll(s, "$N", sfx+"$N") }
	t.src, t.decls = r(t.src), r(t.decls)
	return t
}

const placesBody = "\tvar v %s\n\t_ = c.ShouldBind(&v)\n\tc.JSON(200, v)\n\tc.XML(200, v)\n\tc.YAML(200, v)\n"

// everyPlace is the expectation for a value that is bound and returned in every format.
func everyPlace(t typ) core.Expect {
	e := core.Expect{Body: map[string]*X{}}
	for _, p := range [][2]string{{"json", "application/json"}, {"xml", "application/xml"}, {"yaml", "application/yaml"}} {
		e.Resp = append(e.Resp, Resp{Status: 200, CT: p[1], X: t.x(p[0])})
		e.Body[p[1]] = t.x(p[0])
	}
	e.Body["application/x-www-form-urlencoded"] = t.x("form")
	e.Body["multipart/form-data"] = t.x("form")
	e.FreeIn = map[string]bool{"query": t.x("form").Kind == "free", "header": t.x("header").Kind == "free"}
	for b, in := range map[string]string{"form": "query", "header": "header"} {
		x := t.x(b)
		if x.Kind == "free" {
			if x.Props != nil {
				if e.PartIn == nil {
					e.PartIn = map[string]*X{}
				}
				e.PartIn[in] = x
			}
			continue
		}
		for k, px := range x.Props {
			e.Params = append(e.Params, Par{In: in, Name: k, X: px})
		}
	}
	return e
}

func c06Units(thorough bool) []Unit {
	var units []Unit
	n := 0
	add := func(id string, t typ, body string, e core.Expect) {
		n++
		sfx := pr("R%04d", n)
		units = append(units, Unit{ID: id, Imports: t.imps, Src: sub(t.decls, sfx) + handler(sfx, pr(body, t.src)),
			Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}, Check: core.Is(e)})
	}
	all := func(id string, t typ) { add(id, t, placesBody, everyPlace(t)) }
	resp := func(id string, t typ) {
		e := core.Expect{}
		for _, p := range [][2]string{{"json", "application/json"}, {"xml", "application/xml"}, {"yaml", "application/yaml"}} {
			e.Resp = append(e.Resp, Resp{Status: 200, CT: p[1], X: t.x(p[0])})
		}
		add(id, t, "\tvar v %s\n\tc.JSON(200, v)\n\tc.XML(200, v)\n\tc.YAML(200, v)\n", e)
	}

	// every type of depth two as a field, as a value and behind a name
	leaves := leafTypes()
	cons := []func(typ) typ{func(t typ) typ { return t }, ptrTo, sliceOf, slicePtrOf, arrayOf, mapOf, mapIntOf}
	for _, l := range leaves {
		for ci, c := range cons {
			if l.src == "uint8" && ci >= 2 && ci <= 4 {
				continue // []byte is encoded as a string
			}
			t := c(l)
			if l.name == "tagged" && ci > 0 {
				continue // see leak
			}
			tagged := map[string]string{}
			for _, b := range bindings {
				tagged[b] = b + "k"
			}
			// the untagged field only when the type does not depend on the binding
			if l.name != "tagged" {
				all("field/"+t.name, structTyp("S$N", fld{name: "F", t: t}, fld{name: "Z", t: scalarTyp("bool")}))
			}
			all("tagfield/"+t.name, structTyp("S$N", fld{name: "F", t: t, tags: tagged}, fld{name: "Z", t: scalarTyp("bool"), tags: tagged2("z")}))
			if l.name != "time" { // a position of C23
				resp("value/"+t.name, t)
			}
			if ci >= 2 {
				resp("named/"+t.name, named("Nm$N", t))
				all("namedfield/"+t.name, structTyp("S$N", fld{name: "F", t: named("Nm$N", t)}))
			}
		}
	}
	// a format's keys do not leak through values that have none themselves
	var tagged typ
	for _, l := range leaves {
		if l.name == "tagged" {
			tagged = l
		}
	}
	for ci, c := range cons {
		t := c(tagged)
		all("leak/field/"+t.name, structTyp("S$N", fld{name: "F", t: t}))
		if ci != 1 { // a named pointer
			resp("leak/named/"+t.name, named("Nm$N", t))
		}
		all("tagfield/"+t.name+"/in", structTyp("S$N", fld{name: "F", t: t, tags: tagged2("f")}))
		resp("value/"+t.name+"/in", t)
	}

	// tags of one field: all combinations of two bindings, all of three over a smaller alphabet
	tagForms := []string{"", "n", "-", ",omitempty", "n,omitempty"}
	second := fld{name: "Other", t: scalarTyp("int")}
	one := func(id string, tags map[string]string) {
		all("tags/"+id, structTyp("S$N", fld{name: "Field", t: scalarTyp("string"), tags: tags}, second))
	}
	mk := func(choice []string) (string, map[string]string) {
		tags := map[string]string{}
		id := ""
		for i, f := range choice {
			id += "|" + f
			if f == "" {
				continue
			}
			if f[0] == 'n' {
				f = bindings[i] + f
			}
			tags[bindings[i]] = f
		}
		return id, tags
	}
	seen := map[string]bool{}
	var rec func(choice []string)
	rec = func(choice []string) {
		if len(choice) == len(bindings) {
			set := 0
			small := true
			for _, f := range choice {
				if f != "" {
					set++
				}
				if f != "" && f != "n" && f != "-" {
					small = false
				}
			}
			if !thorough && set > 2 && !(set == 3 && small) {
				return
			}
			id, tags := mk(choice)
			if !seen[id] {
				seen[id] = true
				one(id, tags)
			}
			return
		}
		for _, f := range tagForms {
			rec(append(append([]string{}, choice...), f))
		}
	}
	rec(nil)
	// names in tags: every word of one and two letters over a small alphabet, and the punctuation that a format allows
	words := []string{}
	abc := []string{"a", "Z", "1", "-", ".", "_"}
	for _, a := range abc {
		words = append(words, a)
		for _, b := range abc {
			words = append(words, a+b)
			if thorough {
				for _, c := range abc {
					words = append(words, a+b+c)
				}
			}
		}
	}
	for i, word := range words {
		if word == "-" {
			continue
		}
		tags := map[string]string{}
		for _, b := range bindings {
			tags[b] = word
		}
		other := words[(i+1)%len(words)]
		if other == "-" {
			other = words[(i+2)%len(words)]
		}
		tags2 := map[string]string{}
		for _, b := range bindings {
			tags2[b] = other + ",omitempty"
		}
		all("words/"+word, structTyp("S$N", fld{name: "Field", t: scalarTyp("string"), tags: tags}, fld{name: "Second", t: scalarTyp("int8"), tags: tags2}))
	}
	for _, word := range []string{"!", "#", "$", "%", "&", "(", ")", "*", "+", "/", ":", ";", "<", "=", ">", "?", "@", "[", "]", "^", "{", "|", "}", "~", "a b", "é", "日本", "a/b", "$ref", "--", "-,", "-x,omitempty"} {
		if word == "-," {
			continue // for JSON this is a field named "-"
		}
		tags := map[string]string{"json": word, "form": "f", "xml": "x", "yaml": "y", "header": "h"}
		all("punct/"+word, structTyp("S$N", fld{name: "Field", t: scalarTyp("string"), tags: tags}, fld{name: "Second", t: scalarTyp("int8")}))
	}
	// tags of two fields
	sets := []map[string]string{nil, {"json": "a"}, {"xml": "a"}, {"form": "a"}, {"json": "a", "xml": "a"}, {"json": "a", "xml": "b", "yaml": "c", "form": "d", "header": "E"}, {"json": "-"}, {"json": "-", "xml": "-"}, {"header": "X-A"}, {"yaml": ",omitempty"}, {"json": "Field1"}}
	for i, a := range sets {
		for j, b := range sets {
			bb := map[string]string{}
			for k, v := range b {
				if v != "-" && v[0] != ',' {
					v += "2"
				}
				bb[k] = v
			}
			if b == nil {
				bb = nil
			}
			all(pr("twotags/%d/%d", i, j), structTyp("S$N", fld{name: "Field1", t: scalarTyp("string"), tags: a}, fld{name: "Field2", t: scalarTyp("float64"), tags: bb}, fld{name: "hidden", t: scalarTyp("int")}))
		}
	}
	// embedding
	inner := func(n string, tags bool, first string) typ {
		var f1, f2 map[string]string
		if tags {
			f1, f2 = tagged2("i1"), tagged2("i2")
		}
		t := structTyp(n, fld{name: first, t: scalarTyp("int16"), tags: f1}, fld{name: "In2", t: scalarTyp("string"), tags: f2})
		return t
	}
	for _, ptr := range []bool{false, true} {
		for _, tags := range []bool{false, true} {
			for _, nm := range []string{"Emb$N", "emb$N"} {
				for ti, tag := range []map[string]string{nil, {"json": "own"}, {"json": "-"}, {"xml": "own", "json": "own"}, {"json": ",omitempty"}, tagged2("own")} {
					for fi, outer := range [][]fld{nil, {{name: "Own", t: scalarTyp("bool")}}, {{name: "In2", t: scalarTyp("float64")}}, {{name: "Own", t: scalarTyp("bool"), tags: tagged2("o")}}} {
						if nm == "emb$N" && ti > 0 {
							continue // an embedded field of an unexported type with a name is not encoded
						}
						e := inner(nm, tags, "In1")
						if ptr {
							e = ptrTo(e)
						}
						f := fld{name: strings.TrimPrefix(nm, "*"), emb: true, t: e, tags: tag}
						id := pr("embed/%s/ptr=%v/tags=%v/%d/%d", nm[:1], ptr, tags, ti, fi)
						all(id+"/before", structTyp("S$N", append([]fld{f}, outer...)...))
						if outer != nil {
							all(id+"/after", structTyp("S$N", append(append([]fld{}, outer...), f)...))
						}
					}
				}
			}
		}
	}
	// two and three levels, two embedded structs, another package
	for _, tags := range []bool{false, true} {
		l1 := inner("La$N", tags, "Deep")
		l2 := structTyp("Lb$N", fld{name: "La$N", emb: true, t: l1}, fld{name: "Mid", t: scalarTyp("uint32")})
		l3 := structTyp("Lc$N", fld{name: "Lb$N", emb: true, t: ptrTo(l2)}, fld{name: "Top", t: scalarTyp("int")})
		all(pr("embed/two/%v", tags), l2)
		all(pr("embed/three/%v", tags), l3)
		all(pr("embed/only/%v", tags), structTyp("Le$N", fld{name: "Lc$N", emb: true, t: l3}))
		sib := structTyp("Lf$N", fld{name: "Sib", t: scalarTyp("int8")})
		all(pr("embed/siblings/%v", tags), structTyp("Lg$N", fld{name: "La$N", emb: true, t: l1}, fld{name: "Lf$N", emb: true, t: sib}))
		all(pr("embed/fieldof/%v", tags), structTyp("Lh$N", fld{name: "F", t: l2, tags: tagged2("f")}))
		all(pr("embed/both/%v", tags), structTyp("Li$N", fld{name: "La$N", emb: true, t: l1}, fld{name: "G", t: typ{name: "x", src: "La$N", x: l1.x}, tags: tagged2("g")}))
	}
	for _, ptr := range []string{"", "*"} {
		all("embed/ext/"+ptr, structTyp("Lx$N", fld{name: "Plain", emb: true, t: typ{src: ptr + "ext.Plain", imps: []string{impExt}, x: same(xPlain())}}, fld{name: "Own", t: scalarTyp("int")}))
		all("embed/scalar/"+ptr, structTyp("Ly$N", fld{name: "Sc$N", emb: true, tags: tagged2("sc"), t: func() typ { t := named("Sc$N", scalarTyp("int64")); t.src = ptr + t.src; return t }()}, fld{name: "Own", t: scalarTyp("int")}))
	}
	// anonymous struct fields
	anon := typ{name: "anon", src: "struct {\n\tP int\n\tQ string `json:\"q\"`\n}", x: func(b string) *X {
		if b == "json" {
			return obj("P", scalar("int"), "q", scalar("string"))
		}
		return obj("P", scalar("int"), "Q", scalar("string"))
	}}
	all("anon/tagged", structTyp("S$N", fld{name: "F", t: anon, tags: tagged2("f")}))
	// interfaces
	all("iface/any", structTyp("S$N", fld{name: "F", t: typ{src: "any", x: same(core.Any())}}, fld{name: "G", t: typ{src: "interface{ M() }", x: same(core.Any())}}))
	all("iface/named", structTyp("S$N", fld{name: "F", t: typ{src: "If$N", decls: "type If$N interface{ M() }\n", x: same(core.Any())}}))
	all("iface/containers", structTyp("S$N", fld{name: "F", t: sliceOf(typ{src: "any", x: same(core.Any())})}, fld{name: "G", t: mapOf(typ{src: "any", x: same(core.Any())})}))
	// recursion
	rx := func(f func(self *X) map[string]*X) func(string) *X {
		x := core.Obj(nil)
		x.Props = f(x)
		return same(x)
	}
	for _, r := range []struct {
		id, decl string
		x        func(string) *X
	}{
		{"ptr", "type T$N struct {\n\tV int\n\tNext *T$N\n}\n", rx(func(s *X) map[string]*X { return map[string]*X{"V": scalar("int"), "Next": s} })},
		{"slice", "type T$N struct {\n\tV int\n\tKids []T$N\n}\n", rx(func(s *X) map[string]*X { return map[string]*X{"V": scalar("int"), "Kids": core.Arr(s)} })},
		{"map", "type T$N struct {\n\tKids map[string]*T$N\n}\n", rx(func(s *X) map[string]*X { return map[string]*X{"Kids": core.Map(s)} })},
		{"mutual", "type T$N struct {\n\tB *U$N\n}\ntype U$N struct {\n\tA *T$N\n\tN int8\n}\n", rx(func(s *X) map[string]*X {
			return map[string]*X{"B": core.Obj(map[string]*X{"A": s, "N": scalar("int8")})}
		})},
		{"namedslice", "type T$N struct {\n\tKids L$N\n}\ntype L$N []T$N\n", rx(func(s *X) map[string]*X { return map[string]*X{"Kids": core.Arr(s)} })},
		{"tree", "type T$N struct {\n\tL, R *T$N\n\tUp []*U$N\n}\ntype U$N struct {\n\tTs map[string]T$N\n\tSelf *U$N\n}\n", rx(func(s *X) map[string]*X {
			u := core.Obj(nil)
			u.Props = map[string]*X{"Ts": core.Map(s), "Self": u}
			return map[string]*X{"L": s, "R": s, "Up": core.Arr(u)}
		})},
	} {
		all("rec/"+r.id, typ{src: "T$N", decls: r.decl, x: r.x})
	}
	// generics, aliases, local types
	all("generic", typ{src: "Box$N[int]", decls: "type Box$N[E any] struct {\n\tV E\n\tL []E\n}\n", x: same(obj("V", scalar("int"), "L", core.Arr(scalar("int"))))})
	all("alias", structTyp("S$N", fld{name: "F", t: typ{src: "Al$N", decls: "type Al$N = ext.Plain\n", imps: []string{impExt}, x: same(xPlain())}}))
	// sizes
	for _, k := range []int{0, 1, 2, 5, 9, 17, 33, 65} {
		var fs []fld
		for i := 0; i < k; i++ {
			f := fld{name: pr("F%02d", i), t: scalarTyp(core.ScalarNames[i%len(core.ScalarNames)])}
			if i%2 == 1 {
				f.tags = tagged2(pr("t%02d", i))
			}
			fs = append(fs, f)
		}
		all(pr("size/%d", k), structTyp("S$N", fs...))
	}
	// chains of named structs
	for _, k := range []int{2, 4, 8, 16} {
		t := structTyp("C0$N", fld{name: "V", t: scalarTyp("int")})
		for i := 1; i <= k; i++ {
			t = structTyp(pr("C%d$N", i), fld{name: "V", t: scalarTyp("int")}, fld{name: "Sub", t: t})
		}
		all(pr("chain/%d", k), t)
	}
	return units
}

// tagged2 gives a key to a field for every binding.
func tagged2(k string) map[string]string {
	tags := map[string]string{}
	for _, b := range bindings {
		tags[b] = b + k
	}
	return tags
}

func init() {
	core.Register(&core.Check{
		ID:   "C06",
		Rule: "One case is one generated type that is bound from the request and returned in every format by a generated handler; every type expression, tag combination and embedding shape within the bounds is generated.",
		Run: func(w *core.W) error {
			return core.RunUnits(w, c06Units(w.Thorough()), support)
		},
		Assumptions: []string{"the key of a field is the name in its tag for the place, or the field's name", "no containers of containers, no []byte, no field of the error type"},
	})
}
