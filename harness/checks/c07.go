package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"vh/core"
)

// lit is a literal with its value.
type lit struct {
	src string
	val any
}

func c07Literals(kind string) []lit {
	switch kind {
	case "string":
		return []lit{{`"plain"`, "plain"}, {`"with space"`, "with space"}, {`"q\"uote"`, `q"uote`}, {"`raw`", "raw"}, {"`raw \"x\"`", `raw "x"`}, {`""`, ""}, {`"\u00e9\t\x41"`, "\u00e9\tA"},
			{`"'"`, "'"}, {`"\\"`, `\`}, {`"\"quoted\""`, `"quoted"`}, {"`\\n`", `\n`}, {`"10"`, "10"}, {"`\"`", `"`}, {`" pad "`, " pad "}}
	case "float32", "float64":
		return []lit{{"1.5", 1.5}, {"1", 1}, {"1e3", 1000}, {".5", 0.5}, {"0x1p-2", 0.25}, {"1_0.5", 10.5}, {"'a'", 97}, {"0", 0}, {"0x10", 16}, {"2.", 2}, {"-1.5", -1.5}, {"-.5e1", -5}, {"0.1", 0.1}}
	}
	r := []lit{{"0", 0}, {"7", 7}, {"010", 8}, {"0x1F", 31}, {"0b101", 5}, {"0o17", 15}, {"'a'", 97}, {"1_00", 100}, {"1e2", 100}, {"4.0", 4}, {`'\n'`, 10}}
	if strings.HasPrefix(kind, "int") {
		r = append(r, lit{"-1", -1}, lit{"-0x10", -16}, lit{"- 128", -128})
	}
	switch kind {
	case "int8":
		return append(r, lit{"127", 127})
	case "uint8":
		return append(r, lit{"255", 255})
	case "int16", "int", "int32":
		return append(r, lit{"32767", 32767})
	case "uint16":
		return append(r, lit{"65535", 65535})
	case "uint32", "uint":
		return append(r, lit{"4294967295", 4294967295}, lit{"'\u00e9'", 233})
	case "int64":
		return append(r, lit{"9007199254740992", 9007199254740992})
	}
	return append(r, lit{"18446744073709551615", uint64(math.MaxUint64)})
}

var c07Kinds = []string{"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

// c07Styles are ways of declaring constants of a type.
var c07Styles = []struct {
	name string
	src  func(typ string, lits []lit) string
}{
	{"single", func(typ string, lits []lit) string {
		s := ""
		for i, l := range lits {
			s += pr("const K%d$N %s = %s\n", i, typ, l.src)
		}
		return s
	}},
	{"group", func(typ string, lits []lit) string {
		s := "const (\n"
		for i, l := range lits {
			s += pr("\tK%d$N %s = %s // note\n", i, typ, l.src)
		}
		return s + ")\n"
	}},
	{"list", func(typ string, lits []lit) string {
		var names, vals []string
		for i, l := range lits {
			names, vals = append(names, pr("k%d$N", i)), append(vals, l.src)
		}
		return pr("const %s %s = %s\n", strings.Join(names, ", "), typ, strings.Join(vals, ", "))
	}},
	{"blank", func(typ string, lits []lit) string {
		s := "const (\n"
		for _, l := range lits {
			s += pr("\n\t// value\n\t_ %s = %s\n", typ, l.src)
		}
		return s + ")\n"
	}},
}

// c07Noise are declarations that are no constants of the type E$N by literals.
var c07Noise = []struct{ name, src string }{
	{"untyped", "const N1$N = %s\n"},
	{"other type", "type Other$N %k\n\nconst N2$N Other$N = %s\n"},
	{"variable", "var N3$N E$N = %s\n"},
	{"local", "func f$N() {\n\tconst n E$N = %s\n\t_ = n\n}\n"},
	{"local type", "func f$N() {\n\ttype L$N %k\n\tconst n L$N = %s\n\t_ = n\n}\n"},
	{"basic type", "const N4$N %k = %s\n"},
	{"derived type", "type D$N E$N\n\nconst N5$N D$N = %s\n"},
	{"struct", "type S5$N struct{ E E$N }\n\nvar N6$N = S5$N{E: %s}\n"},
}

// c07Uses are ways of using the type %T in a handler, with what is expected there.
var c07Uses = []struct {
	name, decls, body string
	e                 func(x *X) core.Expect
}{
	{"value", "", "\tvar v %T\n\tc.JSON(200, v)\n", func(x *X) core.Expect { return core.Expect{Resp: []Resp{{200, "application/json", x}}} }},
	{"slice", "", "\tvar v []%T\n\tc.XML(200, v)\n", func(x *X) core.Expect { return core.Expect{Resp: []Resp{{200, "application/xml", core.Arr(x)}}} }},
	{"array", "", "\tvar v [2]%T\n\tc.YAML(200, v)\n", func(x *X) core.Expect { return core.Expect{Resp: []Resp{{200, "application/yaml", core.ArrN(x, 2)}}} }},
	{"map", "", "\tvar v map[string]%T\n\tc.JSON(200, v)\n", func(x *X) core.Expect { return core.Expect{Resp: []Resp{{200, "application/json", core.Map(x)}}} }},
	{"pointer", "", "\tvar v *%T\n\tc.JSON(200, v)\n", func(x *X) core.Expect { return core.Expect{Resp: []Resp{{200, "application/json", x}}} }},
	{"fields", "type S$N struct {\n\tA %T\n\tB []%T\n\tC map[string]%T\n\tD *%T\n\tP string\n\tQ int\n\tR []float64\n}\n", "\tvar v S$N\n\t_ = c.ShouldBindJSON(&v)\n\t_ = c.ShouldBindQuery(&v)\n\t_ = c.ShouldBindHeader(&v)\n\tc.JSON(200, v)\n\tc.XML(200, v)\n\tc.YAML(200, v)\n", func(x *X) core.Expect {
		props := map[string]*X{"A": x, "B": core.Arr(x), "C": core.Map(x), "D": x, "P": scalar("string"), "Q": scalar("int"), "R": core.Arr(scalar("float64"))}
		o := core.Obj(props)
		e := core.Expect{Resp: []Resp{{200, "application/json", o}, {200, "application/xml", o}, {200, "application/yaml", o}}, Body: map[string]*X{"application/json": o}}
		for k, p := range props {
			e.Params = append(e.Params, Par{In: "query", Name: k, X: p}, Par{In: "header", Name: k, X: p})
		}
		return e
	}},
	{"tagged field", "type S$N struct {\n\tA %T `json:\"ja\" xml:\"xa\" yaml:\"ya\" form:\"fa\" header:\"ha\"`\n}\n", "\tvar v S$N\n\t_ = c.ShouldBindJSON(&v)\n\tc.JSON(200, v)\n\tc.XML(200, []S$N{})\n", func(x *X) core.Expect {
		return core.Expect{Resp: []Resp{{200, "application/json", obj("ja", x)}, {200, "application/xml", core.Arr(obj("xa", x))}}, Body: map[string]*X{"application/json": obj("ja", x)}}
	}},
	{"named slice", "type L$N []%T\n", "\tc.JSON(200, L$N{})\n", func(x *X) core.Expect { return core.Expect{Resp: []Resp{{200, "application/json", core.Arr(x)}}} }},
	{"embedded", "type B$N struct{ A %T }\n\ntype S$N struct {\n\tB$N\n\tZ %T\n}\n", "\tc.JSON(200, S$N{})\n", func(x *X) core.Expect {
		return core.Expect{Resp: []Resp{{200, "application/json", obj("A", x, "Z", x)}}}
	}},
}

func c07Units(thorough bool) []Unit {
	var units []Unit
	n := 0
	add := func(id string, imps []string, decls, body string, extra map[string]string, check func(r *core.Result) error) {
		n++
		sfx := pr("R%04d", n)
		ex := map[string]string{}
		for k, v := range extra {
			ex[sub(k, sfx)] = sub(v, sfx)
		}
		units = append(units, Unit{ID: id, Imports: imps, Extra: ex, Src: sub(decls, sfx) + handler(sfx, body),
			Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}, Check: check})
	}
	values := func(lits []lit) []any {
		var r []any
		for _, l := range lits {
			r = append(r, l.val)
		}
		return r
	}
	use := func(i int, typ string) (decls, body string) {
		u := c07Uses[i]
		return subAll(u.decls, "%T", typ), subAll(u.body, "%T", typ)
	}
	enum := func(id string, imps []string, decls string, extra map[string]string, ui int, typ string, kind string, lits []lit) {
		d, b := use(ui, typ)
		x := scalar(kind)
		if len(lits) > 0 {
			x = core.EnumOf(x, values(lits)...)
		}
		add(id, imps, decls+d, b, extra, core.Is(c07Uses[ui].e(x)))
	}
	typeDecl := func(kind string) string { return "type E$N " + kind + "\n" }
	// unique values: 1e2 and 1_00 are the same one
	unique := func(lits []lit) []lit {
		seen := map[string]bool{}
		var r []lit
		for _, l := range lits {
			k := fmt.Sprint(l.val)
			if !seen[k] {
				seen[k] = true
				r = append(r, l)
			}
		}
		return r
	}
	for _, kind := range c07Kinds {
		lits := c07Literals(kind)
		enum("none/"+kind, nil, typeDecl(kind), nil, 0, "E$N", kind, nil)
		for li, l := range lits {
			for si, st := range c07Styles {
				if !thorough && si > 0 && li > 1 {
					continue
				}
				enum(pr("literal/%s/%s/%s", kind, l.src, st.name), nil, typeDecl(kind)+st.src("E$N", []lit{l}), nil, 0, "E$N", kind, []lit{l})
			}
		}
		all := unique(lits)
		for si, st := range c07Styles {
			enum(pr("all/%s/%s", kind, st.name), nil, st.src("E$N", all)+typeDecl(kind), nil, si%len(c07Uses), "E$N", kind, all)
			// two declarations of constants around the type
			enum(pr("around/%s/%s", kind, st.name), nil, st.src("E$N", all[:2])+typeDecl(kind)+subAll(c07Styles[0].src("E$N", all[2:4]), "K", "Q"), nil, 0, "E$N", kind, all[:4])
			// another file
			enum(pr("file/%s/%s", kind, st.name), []string{`en$N "vapp/en$N"`}[:0], typeDecl(kind), map[string]string{"h/x$N.go": "package h\n\n" + st.src("E$N", all)}, 0, "E$N", kind, all)
			// another package: its constants count, those of this package do not; a type and constants of the same name are here
			pkg := map[string]string{"en$N/a.go": "package en\n\ntype E$N " + kind + "\n", "en$N/b.go": "package en\n\n" + st.src("E$N", all[1:3])}
			n1 := pr("R%04d", n+1)
			enum(pr("package/%s/%s", kind, st.name), []string{sub(`en$N "vapp/en$N"`, n1)}, typeDecl(kind)+c07Styles[0].src("E$N", all[:1])+subAll(c07Styles[0].src("en$N.E$N", all[3:4]), "K", "Q"), pkg, 5, "en$N.E$N", kind, all[1:3])
		}
		for ui, u := range c07Uses {
			enum(pr("use/%s/%s", kind, u.name), nil, typeDecl(kind)+c07Styles[1].src("E$N", all[:3]), nil, ui, "E$N", kind, all[:3])
			enum(pr("use/none/%s/%s", kind, u.name), nil, typeDecl(kind), nil, ui, "E$N", kind, nil)
		}
		for mask := 1; mask < 1<<len(c07Noise); mask++ {
			if bits := mask & (mask - 1); !thorough && bits&(bits-1) != 0 && mask != 1<<len(c07Noise)-1 {
				continue
			}
			decls := ""
			both := 0
			for i, no := range c07Noise {
				if mask>>i&1 == 1 {
					if strings.Contains(no.src, "func f$N") {
						both++
						decls += subAll(subAll(subAll(no.src, "%k", kind), "%s", lits[1].src), "func f$N", pr("func f%d$N", i))
						continue
					}
					decls += subAll(subAll(no.src, "%k", kind), "%s", lits[1].src)
				}
			}
			for _, k := range []int{0, 1} {
				if !thorough && mask&(mask-1) != 0 && k == 0 && kind != "string" && kind != "int" {
					continue
				}
				own := all[:k]
				src := ""
				if k > 0 {
					src = c07Styles[0].src("E$N", own)
				}
				enum(pr("noise/%s/%d/%d", kind, mask, k), nil, decls+typeDecl(kind)+src, nil, 0, "E$N", kind, own)
			}
		}
	}
	// types that have no constants of their own, next to one that has
	d := "type E$N string\n\nconst K$N E$N = \"k\"\n\ntype St$N struct{ V string }\n\ntype Sl$N []E$N\n\ntype Plain$N string\n"
	for _, v := range []struct {
		typ string
		x   *X
	}{{"St$N", obj("V", scalar("string"))}, {"Sl$N", core.Arr(core.EnumOf(scalar("string"), "k"))}, {"Plain$N", scalar("string")}, {"string", scalar("string")}, {"map[E$N]string", core.Map(scalar("string"))}, {"map[string]E$N", core.Map(core.EnumOf(scalar("string"), "k"))}} {
		for ui := range c07Uses {
			if c07Uses[ui].name == "pointer" || strings.Contains(v.typ, "[") && ui != 0 {
				continue
			}
			if v.typ == "Sl$N" && ui != 0 && c07Uses[ui].name != "fields" {
				continue
			}
			if v.typ == "St$N" && c07Uses[ui].name == "fields" {
				continue // parameters of structs
			}
			if v.typ == "Sl$N" && c07Uses[ui].name == "fields" {
				continue
			}
			dd, b := use(ui, v.typ)
			add(pr("beside/%s/%s", v.typ, c07Uses[ui].name), nil, d+dd, b, nil, core.Is(c07Uses[ui].e(v.x)))
		}
	}
	return append(units, c07Docs(thorough)...)
}

// c07Texts are comments with the text that they stand for.
var c07Texts = []struct{ src, text string }{
	{"", ""},
	{"// One line of $D.\n", "One line of $D."},
	{"// Two lines\n// of $D.\n", "Two lines\nof $D."},
	{"// Paragraphs of $D:\n//\n//\twith code\n//\n// and \"quotes\", <angles> & \\ signs.\n", "Paragraphs of $D:\n\n\twith code\n\nand \"quotes\", <angles> & \\ signs."},
	{"/* A block of $D. */\n", "A block of $D."},
	{"/*\nA longer block\nof $D.\n*/\n", "A longer block\nof $D."},
	{"// Text of $D.\n//\n//nolint:all\n", "Text of $D."},
	{"// Another comment, of nothing.\n\n", ""},
	{"// Another comment.\n\n// The one of $D.\n", "The one of $D."},
	{"//lint:ignore U1000 unused\n", ""},
	{"//without a space $D\n", "without a space $D"},
	{"// // slashes $D\n", "slashes $D"},
}

// c07Docs are handlers and types with comments.
func c07Docs(thorough bool) []Unit {
	var units []Unit
	n := 0
	add := func(id, decls, doc, body, text string, types map[string]string, extra map[string]string) {
		n++
		sfx := pr("D%04d", n)
		want := map[string]string{}
		for k, v := range types {
			want[sub(k, sfx)] = v
		}
		ex := map[string]string{}
		for k, v := range extra {
			ex[sub(k, sfx)] = sub(v, sfx)
		}
		units = append(units, Unit{ID: id, Extra: ex, Src: sub(decls, sfx) + "\n" + doc + handler(sfx, body),
			Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}, Check: func(r *core.Result) error {
				if r.Err != nil {
					return r.Err
				}
				return c07Descriptions(r.Doc.Root, text, want)
			}})
	}
	fill := func(s, d string) string { return subAll(s, "$D", d) }
	// a type in every place: its marker is the property or the value with its name
	places := []string{
		"\tc.JSON(200, %T{})\n",
		"\tc.JSON(200, []%T{})\n\tc.XML(201, map[string]%T{})\n",
		"\tvar v %T\n\t_ = c.ShouldBindJSON(&v)\n\tc.Status(200)\n",
		"\tvar v %T\n\t_ = c.ShouldBindQuery(&v)\n\tc.YAML(200, &v)\n",
		"\tvar v %T\n\t_ = c.ShouldBindHeader(&v)\n\t_ = c.Query(\"q\")\n\tc.Header(\"X\", \"y\")\n\tc.XML(200, v)\n\tc.JSON(404, v)\n",
	}
	kinds := []struct{ name, decl string }{
		{"struct", "type T$N struct {\n\t// Comment of a field.\n\tMark_T$N string // trailing\n}\n"},
		{"group", "type (\n\tG$N int\n\n%t\tT$N struct {\n\t\tMark_T$N string\n\t}\n)\n"},
		{"after", "// Comment of another type.\ntype A$N struct{ X int }\n\n%tT_\ntype B$N struct{ Y int }\n"},
	}
	for ti, t := range c07Texts {
		for hi, h := range c07Texts {
			if !thorough && ti > 3 && hi > 3 && ti != hi {
				continue
			}
			for pi, p := range places {
				if !thorough && (ti+hi)%len(places) != pi && ti != hi {
					continue
				}
				add(pr("doc/%d/%d/%d", ti, hi, pi), fill(t.src, "the type")+kinds[0].decl, fill(h.src, "the handler"), subAll(p, "%T", "T$N"), fill(h.text, "the handler"), map[string]string{"T$N": fill(t.text, "the type")}, nil)
			}
		}
		// in a group
		grouped := ""
		for _, line := range strings.SplitAfter(fill(t.src, "the type"), "\n") {
			if line != "" {
				grouped += "\t" + line
			}
		}
		if !strings.HasPrefix(t.src, "/*\n") {
			add(pr("group/%d", ti), "type (\n\t// Comment of the first one.\n\tG$N int\n\n"+grouped+"\tT$N struct {\n\t\tMark_T$N string\n\t}\n)\n", "", "\tc.JSON(200, T$N{})\n", "", map[string]string{"T$N": fill(t.text, "the type")}, nil)
		}
		// two types, one in the other, and a handler that calls a function with a comment
		for ui, u := range c07Texts {
			two := fill(t.src, "outer") + "type T$N struct {\n\tMark_T$N string\n\t// Comment of a field.\n\tIn U$N\n\tIns []U$N\n}\n\n" + fill(u.src, "inner") + "type U$N struct{ Mark_U$N string }\n"
			types := map[string]string{"T$N": fill(t.text, "outer"), "U$N": fill(u.text, "inner")}
			add(pr("two/%d/%d", ti, ui), two, "", "\tc.JSON(200, T$N{})\n", "", types, nil)
			if thorough || ti < 4 {
				add(pr("helper/%d/%d", ti, ui), two+"\n// Comment of a helper.\nfunc help$N(c *gin.Context) {\n\t// Comment inside.\n\tc.JSON(200, T$N{})\n}\n", fill(u.src, "the handler"), "\thelp$N(c)\n", fill(u.text, "the handler"), types, nil)
			}
		}
		// neighbours with comments: other types, functions and constants
		noisy := "// Comment of another type.\ntype A$N struct{ T$N }\n\n// Comment of a constant.\nconst C$N = \"x\"\n\n// Comment of a variable.\nvar V$N = T$N{}\n\n// Comment of a function.\nfunc F$N() T$N { return T$N{} }\n\n"
		for vi, v := range []string{"V$N", "F$N()", "A$N{}.T$N"} {
			add(pr("neighbours/%d/%d", ti, vi), noisy+fill(t.src, "the type")+kinds[0].decl+"\n// Comment of a method.\nfunc (t T$N) M() {}\n\n// Comment below.\ntype Z$N struct{}\n", "", "\tc.JSON(200, "+v+")\n", "", map[string]string{"T$N": fill(t.text, "the type")}, nil)
		}
		// kinds of types
		for ki, k := range []string{"[]string", "map[string]int", "string", "[3]bool"} {
			types := map[string]string{"only": fill(t.text, "the type")}
			add(pr("kind/%d/%d", ti, ki), fill(t.src, "the type")+"type T$N "+k+"\n", "", "\tvar v T$N\n\tc.JSON(200, v)\n", "", types, nil)
		}
	}
	return units
}

// c07Descriptions compares all the descriptions of a document: of the operation and of the components that have the
// mark of a type, and there are no others.
func c07Descriptions(root map[string]any, operation string, types map[string]string) error {
	var got []string
	var walk func(at string, v any)
	walk = func(at string, v any) {
		switch t := v.(type) {
		case map[string]any:
			for k, c := range t {
				if text, ok := c.(string); ok && k == "description" && text != "" {
					got = append(got, pr("%s = %q", at, text))
				}
				walk(at+"/"+k, c)
			}
		case []any:
			for i, c := range t {
				walk(pr("%s/%d", at, i), c)
			}
		}
	}
	walk("", root)
	want := []string{`/info = "Generated by astra"`}
	if operation != "" {
		want = append(want, pr("/paths//x/post = %q", operation))
	}
	components, _ := root["components"].(map[string]any)
	schemas, _ := components["schemas"].(map[string]any)
	for name, s := range schemas {
		props, _ := s.(map[string]any)["properties"].(map[string]any)
		for typ, text := range types {
			if _, ok := props["Mark_"+typ]; (ok || typ == "only") && text != "" {
				want = append(want, pr("/components/schemas/%s = %q", name, text))
			}
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if g, w := strings.Join(got, "; "), strings.Join(want, "; "); g != w {
		return fmt.Errorf("descriptions: %s, expected: %s", g, w)
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID: "C07",
		Rule: "a case is a generated handler with a type: kind x literal x way of declaring the constants x place of the declaration x use, every set of declarations that do not count, " +
			"or a combination of comments of types and handlers; enumerations and all descriptions of the document are compared.",
		Run: func(w *core.W) error {
			return core.RunUnits(w, c07Units(w.Thorough()), support)
		},
		Assumptions: []string{"constants are declared at package level, with the name of the type", "types are declared at package level", "no comment on a group of types"},
	})
}
