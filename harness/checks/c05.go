package checks

import (
	"strings"

	"vh/core"
)

// fn is a function of a split handler: it has statements of its own before, between and after its calls.
type fn struct {
	loc   string // same, file, pkg, pkg2, deep
	ctx   string // name of the context parameter
	pos   int    // its position among the parameters (0, 1, 2)
	form  string // how it is called
	calls []int  // functions that it calls
}

var locPkg = map[string]string{"same": "h", "file": "h", "pkg": "hx", "pkg2": "hx", "deep": "deephx"}
var pkgRank = map[string]int{"h": 0, "hx": 1, "deephx": 2}

// pkgDecls are what every package has under the same names.
func pkgDecls(p string) string {
	switch p {
	case "h":
		return "type T$N struct {\n\tH int `json:\"h\"`\n}\nconst K$N = \"k-h\"\nvar V$N []T$N\n"
	case "hx":
		return "type T$N struct {\n\tX string `json:\"x\"`\n}\nconst K$N = \"k-hx\"\nvar V$N []T$N\n"
	}
	return "type T$N struct {\n\tD bool `json:\"d\"`\n}\nconst K$N = \"k-deep\"\nvar V$N []T$N\n"
}

var pkgX = map[string]*X{"h": obj("h", scalar("int")), "hx": obj("x", scalar("string")), "deephx": obj("d", scalar("bool"))}
var pkgK = map[string]string{"h": "k-h", "hx": "k-hx", "deephx": "k-deep"}

// split builds the unit of a handler (function 0) that is split into functions.
func split(id, sfx string, n int, fns []fn) Unit {
	files := map[string]string{} // by location
	imports := map[string]map[string]bool{}
	addImp := func(loc, imp string) {
		if imports[loc] == nil {
			imports[loc] = map[string]bool{}
		}
		imports[loc][imp] = true
	}
	r := newReads()
	var resps []Resp
	reach := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if reach[i] {
			return
		}
		reach[i] = true
		p := locPkg[fns[i].loc]
		resps = append(resps, Resp{Status: 200 + 2*i, CT: "application/json", X: pkgX[p]}, Resp{Status: 201 + 2*i, CT: "application/json", X: core.Arr(pkgX[p])})
		r.name(inputCalls[0], pkgK[p])
		r.name(inputCalls[0], pr("q%d", i))
		r.name(inputCalls[6], pkgK[p])
		r.name(inputCalls[7], pr("f%d", i))
		for _, j := range fns[i].calls {
			visit(j)
			r.name(inputCalls[0], pr("m%d", i))
		}
	}
	visit(0)
	name := func(i int) string {
		if i == 0 {
			return "H$N"
		}
		return pr("F%d$N", i)
	}
	for i, f := range fns {
		c := f.ctx
		params := []string{"", "n int", "s string"}
		switch f.pos {
		case 0:
			params = []string{c + " *gin.Context"}
		case 1:
			params = []string{"n int", c + " *gin.Context"}
		case 2:
			params = []string{"n int", c + " *gin.Context", "rest ...string"}
		case 3:
			params = []string{"n, m int", c + " *gin.Context"}
		}
		res := ""
		ret := ""
		if i > 0 {
			switch f.form {
			case "assign", "cond", "arg", "return":
				res, ret = " bool", "\treturn true\n"
			case "two":
				res, ret = " (ok bool, err error)", "\treturn\n"
			}
		}
		body := ""
		body += pr("\t%s.JSON(%d, T$N{})\n\t_ = %s.Query(K$N)\n\tq := \"q%d\"\n\t_ = %s.Query(q)\n", c, 200+2*i, c, i, c)
		for _, j := range f.calls {
			g := fns[j]
			callee := name(j)
			if pa, pb := locPkg[f.loc], locPkg[g.loc]; pa != pb {
				// the name of a package differs from file to file
				alias := map[string]string{"hx": "hx", "deephx": "hx2"}[pb]
				if f.loc == "pkg2" || f.loc == "file" {
					alias = map[string]string{"hx": "hx2", "deephx": "hx"}[pb] // the other way round
				}
				path := map[string]string{"hx": "vapp/hx", "deephx": "vapp/deep/hx"}[pb]
				if f.loc == "same" {
					addImp("same", pr("%s%s %q", alias, "", path))
				} else {
					addImp(f.loc, pr("%s %q", alias, path))
				}
				callee = alias + "." + callee
			}
			args := [][]string{{c}, {"1", c}, {"1", c, `"x"`}, {"1", "2", c}}[g.pos]
			call := callee + "(" + strings.Join(args, ", ") + ")"
			switch g.form {
			case "stmt":
				body += "\t" + call + "\n"
			case "assign":
				body += pr("\tv%d := %s\n\t_ = v%d\n", j, call, j)
			case "cond":
				body += pr("\tif !%s {\n\t\t%s.Abort()\n\t}\n", call, c)
			case "two":
				body += pr("\tif ok, err := %s; err != nil || !ok {\n\t\t%s.Abort()\n\t}\n", call, c)
			case "arg":
				body += pr("\tprintln(%s)\n", call)
			case "return":
				body += pr("\tif %s.IsAborted() {\n\t\tfunc() bool { return %s }()\n\t}\n", c, call)
			case "defer":
				body += "\tdefer " + call + "\n"
			case "go":
				body += "\tgo " + call + "\n"
			case "closure":
				body += pr("\tfunc() {\n\t\t%s\n\t}()\n", call)
			case "loop":
				body += pr("\tfor i := 0; i < 2; i++ {\n\t\t%s\n\t}\n", call)
			case "case":
				body += pr("\tswitch {\n\tcase %s.IsAborted():\n\t\t%s\n\t}\n", c, call)
			}
			body += pr("\t_ = %s.Query(\"m%d\")\n", c, i)
		}
		body += pr("\t%s.JSON(%d, V$N)\n\t_ = %s.GetHeader(K$N)\n\t_ = %s.PostForm(\"f%d\")\n", c, 201+2*i, c, c, i)
		switch {
		case i > 0 && (n+i)%3 > 0:
			files[f.loc] += pr("// Helper %d must not be seen.\n", i)
		case i == 0 && n%2 == 0:
			files[f.loc] += "// All parts\n// of it.\n"
		}
		files[f.loc] += pr("func %s(%s)%s {\n%s%s}\n\n", name(i), strings.Join(params, ", "), res, body, ret)
	}
	u := Unit{ID: id, Extra: map[string]string{}, Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}}
	decls := map[string]bool{}
	for _, f := range fns {
		decls[locPkg[f.loc]] = true
	}
	for imp := range imports["same"] {
		u.Imports = append(u.Imports, imp)
	}
	u.Src = sub(files["same"]+pkgDecls("h"), sfx)
	where := map[string]string{"file": "h/z" + sfx + ".go", "pkg": "hx/a" + sfx + ".go", "pkg2": "hx/b" + sfx + ".go", "deep": "deep/hx/d" + sfx + ".go"}
	declared := map[string]bool{"h": true}
	for _, loc := range []string{"file", "pkg", "pkg2", "deep"} {
		if files[loc] == "" {
			continue
		}
		p := locPkg[loc]
		src := "package " + map[string]string{"h": "h", "hx": "hx", "deephx": "hx"}[p] + "\n\nimport (\n\t\"github.com/gin-gonic/gin\"\n"
		for imp := range imports[loc] {
			src += "\t" + imp + "\n"
		}
		src += ")\n\n" + files[loc]
		if !declared[p] {
			src += pkgDecls(p)
			declared[p] = true
		}
		u.Extra[where[loc]] = sub(src, sfx)
	}
	e := r.expect()
	e.Resp = resps
	desc := ""
	if n%2 == 0 {
		desc = "All parts\nof it."
	}
	e.Desc = &desc
	u.Check = core.Is(e)
	return u
}

var callForms = []string{"stmt", "assign", "cond", "two", "arg", "return", "defer", "go", "closure", "loop", "case"}

func c05Units(thorough bool) []Unit {
	var units []Unit
	n := 0
	add := func(id string, fns ...fn) {
		n++
		units = append(units, split(id, pr("R%04d", n), n, fns))
	}
	locs := []string{"same", "file", "pkg", "pkg2", "deep"}
	after := func(a, b string) bool { return pkgRank[locPkg[b]] >= pkgRank[locPkg[a]] }
	h := func(ctx string, calls ...int) fn { return fn{loc: "same", ctx: ctx, form: "stmt", calls: calls} }
	// one level: every place x form of the call x parameter list x name
	for _, l := range locs {
		for fi, form := range callForms {
			for pos := 0; pos < 4; pos++ {
				for ni, ctx := range []string{"c", "ctx", "q", "T"} {
					if !thorough && fi > 0 && pos > 0 && ni != 1 {
						continue
					}
					if ctx == "q" {
						ctx = "context" // also the name of a package
					}
					if ctx == "T" {
						ctx = "x1"
					}
					add(pr("one/%s/%s/%d/%s", l, form, pos, ctx), h("c", 1), fn{loc: l, ctx: ctx, pos: pos, form: form})
				}
			}
		}
	}
	// names of the handler's parameter
	for _, hc := range []string{"c", "ctx", "g"} {
		for _, fc := range []string{"c", "ctx", "g"} {
			for _, l := range locs {
				add(pr("names/%s/%s/%s", hc, fc, l), h(hc, 1), fn{loc: l, ctx: fc, pos: 1, form: "assign"})
			}
		}
	}
	// chains over every sequence of places
	depth := 3
	if thorough {
		depth = 5
	}
	var chain func(path []string)
	chain = func(path []string) {
		if len(path) > 1 {
			fs := []fn{h("c", 1)}
			for i, l := range path {
				f := fn{loc: l, ctx: []string{"c", "ctx", "cc"}[i%3], pos: i % 4, form: callForms[(i*3+len(path))%len(callForms)]}
				if i+1 < len(path) {
					f.calls = []int{i + 2}
				}
				fs = append(fs, f)
			}
			add("chain/"+strings.Join(path, "-"), fs...)
		}
		if len(path) == depth {
			return
		}
		for _, l := range locs {
			if len(path) == 0 || after(path[len(path)-1], l) {
				chain(append(append([]string{}, path...), l))
			}
		}
	}
	chain(nil)
	// two helpers of one handler, in every pair of places; shared, nested and recursive ones
	for _, a := range locs {
		for _, b := range locs {
			add(pr("two/%s/%s", a, b), h("c", 1, 2), fn{loc: a, ctx: "ctx", form: "stmt"}, fn{loc: b, ctx: "c", pos: 1, form: "cond"})
			add(pr("again/%s/%s", a, b), h("c", 1, 2, 1, 2), fn{loc: a, ctx: "c", form: "stmt"}, fn{loc: b, ctx: "d", form: "stmt"})
			if after(a, b) {
				add(pr("nest/%s/%s", a, b), h("c", 1, 2), fn{loc: a, ctx: "ctx", form: "stmt", calls: []int{2}}, fn{loc: b, ctx: "c", pos: 1, form: "stmt"})
				add(pr("diamond/%s/%s", a, b), h("c", 1, 2), fn{loc: a, ctx: "ctx", form: "stmt", calls: []int{3}}, fn{loc: a, ctx: "c", form: "cond", calls: []int{3}}, fn{loc: b, ctx: "c", form: "assign"})
				add(pr("double/%s/%s", a, b), h("c", 1), fn{loc: a, ctx: "ctx", form: "stmt", calls: []int{2, 3, 2}}, fn{loc: b, ctx: "c", form: "cond"}, fn{loc: b, ctx: "cx", pos: 1, form: "stmt"})
				if thorough {
					for _, d := range locs {
						if after(b, d) {
							add(pr("diamond3/%s/%s/%s", a, b, d), h("c", 1, 2, 3), fn{loc: a, ctx: "ctx", form: "stmt", calls: []int{2, 3}}, fn{loc: b, ctx: "c", form: "cond", calls: []int{3}}, fn{loc: d, ctx: "c", form: "assign"})
						}
					}
				}
			}
			if locPkg[a] == locPkg[b] {
				for _, form := range []string{"stmt", "cond", "defer"} {
					add(pr("mutual/%s/%s/%s", a, b, form), h("c", 1), fn{loc: a, ctx: "ctx", form: form, calls: []int{2}}, fn{loc: b, ctx: "c", form: form, calls: []int{1}})
					add(pr("cycle3/%s/%s/%s", a, b, form), h("c", 1), fn{loc: a, ctx: "ctx", form: form, calls: []int{2}}, fn{loc: b, ctx: "c", form: form, calls: []int{3}}, fn{loc: a, ctx: "c", form: form, calls: []int{1, 2}})
				}
			}
		}
		for _, form := range callForms {
			add(pr("self/%s/%s", a, form), h("c", 1), fn{loc: a, ctx: "ctx", form: form, calls: []int{1}})
		}
		for _, k := range []int{6, 12, 24} { // deep chains and many helpers
			fs, flat := []fn{h("c", 1)}, []fn{h("c")}
			for i := 1; i <= k; i++ {
				f := fn{loc: a, ctx: "ctx", form: "stmt"}
				flat[0].calls = append(flat[0].calls, i)
				flat = append(flat, f)
				if i < k {
					f.calls = []int{i + 1}
				}
				fs = append(fs, f)
			}
			add(pr("deepchain/%s/%d", a, k), fs...)
			add(pr("flat/%s/%d", a, k), flat...)
		}
	}
	special := func(id, decls, body string, e core.Expect) {
		n++
		sfx := pr("R%04d", n)
		units = append(units, Unit{ID: "special/" + id, Src: sub(decls, sfx) + handler(sfx, body), Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}, Check: core.Is(e)})
	}
	st := func(k ...int) core.Expect {
		e := core.Expect{}
		for _, s := range k {
			e.Resp = append(e.Resp, Resp{Status: s})
		}
		return e
	}
	special("generic", "func do$N[T any](c *gin.Context, t T) { c.Status(201) }\n", "\tdo$N(c, 1)\n\tc.Status(200)\n", st(200, 201))
	special("genericinst", "func do$N[T any](c *gin.Context, t T) { c.Status(201) }\n", "\tdo$N[int](c, 1)\n\tc.Status(200)\n", st(200, 201))
	special("genericinst2", "func do$N[T, U any](c *gin.Context, t T, u U) { c.Status(201) }\n", "\tdo$N[int, string](c, 1, \"\")\n\tc.Status(200)\n", st(200, 201))
	special("litvar", "", "\tf := func(d *gin.Context) { d.Status(201) }\n\tf(c)\n\tc.Status(200)\n", st(200, 201))
	special("litcall", "", "\tfunc(d *gin.Context) { d.Status(201) }(c)\n\tc.Status(200)\n", st(200, 201))
	special("litcallhelper", "func do$N(c *gin.Context) { c.Status(201) }\n", "\tfunc(d *gin.Context) { do$N(d) }(c)\n\tc.Status(200)\n", st(200, 201))
	special("param", "type T$N struct{ A int }\nfunc do$N(c *gin.Context, v T$N) { c.JSON(201, v) }\n", "\tdo$N(c, T$N{})\n\tc.Status(200)\n", core.Expect{Resp: []Resp{{Status: 200}, {Status: 201, CT: "application/json", X: obj("A", scalar("int"))}}})
	special("argcall", "func do$N(c *gin.Context, n int) { c.Status(201) }\nfunc num$N(c *gin.Context) int { c.Status(202); return 0 }\n", "\tdo$N(c, num$N(c))\n\tc.Status(200)\n", st(200, 201, 202))
	special("argquery", "func do$N(c *gin.Context, n string) { c.Status(201) }\n", "\tdo$N(c, c.Query(\"a\"))\n\tc.Status(200)\n", core.Expect{Resp: st(200, 201).Resp, Params: []Par{{In: "query", Name: "a", X: scalar("string")}}})
	special("unresolvedfirst", "func do$N(c *gin.Context) { c.Status(201) }\n", "\tc.Next()\n\tc.Set(\"a\", 1)\n\tdo$N(c)\n\tc.Status(200)\n", st(200, 201))
	special("stdcall", "func do$N(c *gin.Context) { c.Status(201) }\n", "\t_, _ = gin.CreateTestContext(c.Writer)\n\tprintln(c)\n\tdo$N(c)\n\tc.Status(200)\n", st(200, 201))
	special("conv", "func do$N(c *gin.Context) { c.Status(201) }\n", "\tvar i any = any(c)\n\t_ = i\n\tdo$N(c)\n\tc.Status(200)\n", st(200, 201))
	return append(units, c05Names(n)...)
}

// c05Names are helpers in other packages: where the packages are, what they are called and under which names they are imported.
// The packages are shared by the units, as each of them takes a while to load.
func c05Names(n int) []Unit {
	var units []Unit
	lane := 0
	add := func(id string, imports []string, decls, body string, extra map[string]string, statuses ...int) {
		n++
		sfx := pr("R%04d", n)
		u := Unit{ID: "import/" + id, Imports: imports, Big: true, Lane: lane, Src: sub(decls, sfx) + handler(sfx, sub(body, sfx)), Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}, Extra: map[string]string{}}
		for k, v := range extra {
			u.Extra[sub(k, sfx)] = sub(v, sfx)
		}
		e := core.Expect{}
		for _, s := range statuses {
			e.Resp = append(e.Resp, Resp{Status: s})
		}
		u.Check = core.Is(e)
		units = append(units, u)
	}
	pkg := func(name string, imports string, body string) string {
		return "package " + name + "\n\nimport (\n\t\"github.com/gin-gonic/gin\"\n" + imports + ")\n\n" + body
	}
	does := func(fn string, status int, more string) string {
		return pr("func %s(c *gin.Context) {\n\tc.Status(%d)\n%s}\n", fn, status, more)
	}
	for _, dir := range []string{"imp/go-imp", "imp/imp/v2", "imp/imp.v3", "imp/other"} {
		lane++
		path := pr("%q", "vapp/"+dir)
		for _, style := range [][3]string{{"plain", path, "imp."}, {"same", "imp " + path, "imp."}, {"alias", "al " + path, "al."}, {"dot", ". " + path, ""}} { // import spec and prefix of the calls
			st, sp := style[0], style[1:]
			f := map[string]string{dir + "/a$N.go": pkg("imp", "", does("F$N", 201, ""))}
			// in the handler itself
			add(pr("direct/%s/%s", dir, st), []string{sp[0]}, "", "\t"+sp[1]+"F$N(c)\n\tc.Status(200)\n", f, 200, 201)
			// in a helper of the same package, or of another one
			add(pr("own/%s/%s", dir, st), []string{sp[0]}, "func own$N(c *gin.Context) {\n\t"+sp[1]+"F$N(c)\n\tc.Status(203)\n}\n", "\town$N(c)\n\tc.Status(200)\n", f, 200, 201, 203)
			add(pr("through/%s/%s", dir, st), []string{`"vapp/imp/a"`}, "", "\ta.G$N(c)\n\tc.Status(200)\n", map[string]string{
				dir + "/a$N.go": f[dir+"/a$N.go"],
				"imp/a/a$N.go":  pkg("a", "\t"+sp[0]+"\n", does("G$N", 202, "\t"+sp[1]+"F$N(c)\n\tc.Status(203)\n"))}, 200, 201, 202, 203)
			// a function in another file of the package, and what it calls there
			add(pr("files/%s/%s", dir, st), []string{sp[0]}, "", "\t"+sp[1]+"F$N(c)\n\tc.Status(200)\n", map[string]string{
				dir + "/a$N.go": pkg("imp", "", does("F$N", 201, "\tG$N(c)\n")),
				dir + "/b$N.go": pkg("imp", "", does("G$N", 202, ""))}, 200, 201, 202)
		}
	}
	lane++ // 5
	// two packages with the same functions: the name of each is that of the other one
	two := map[string]string{"imp/a/a$N.go": pkg("a", "", does("F$N", 201, "")), "imp/b/a$N.go": pkg("b", "", does("F$N", 202, ""))}
	for _, names := range [][2]string{{"", ""}, {"b", "a"}, {"b", "x"}, {"x", "a"}, {"_", "a"}, {"x", "y"}, {"y", "x"}} {
		id := "as-" + strings.Join(names[:], "-")
		im := []string{names[0] + ` "vapp/imp/a"`, names[1] + ` "vapp/imp/b"`, names[0], names[1]}
		if names[0] == "" {
			im = []string{`"vapp/imp/a"`, `"vapp/imp/b"`, "a", "b"}
		}
		imports, body, want := im[:2], "\t"+im[2]+".F$N(c)\n", []int{200, 201, 202}
		if im[2] == "_" { // imported for its effects only
			body, want = "", []int{200, 202}
		}
		add("two/"+id, imports, "", body+"\t"+im[3]+".F$N(c)\n\tc.Status(200)\n", two, want...)
		add("tworeverse/"+id, imports, "", "\tc.Status(200)\n\t"+im[3]+".F$N(c)\n"+body, two, want...)
		if body != "" {
			add("one/"+id, imports, "var _ = "+im[2]+".F$N\n", "\t"+im[3]+".F$N(c)\n\tc.Status(200)\n", two, 200, 202)
			add("oneother/"+id, imports, "var _ = "+im[3]+".F$N\n", "\t"+im[2]+".F$N(c)\n\tc.Status(200)\n", two, 200, 201)
		}
	}
	// a function of the package itself with the name of one that is imported, or of one of the other package
	add("dot/names", []string{`. "vapp/imp/a"`}, "func own$N(c *gin.Context) { c.Status(204) }\n", "\tF$N(c)\n\town$N(c)\n\tc.Status(200)\n", map[string]string{"imp/a/a$N.go": pkg("a", "", does("F$N", 201, "\town$N(c)\n")+does("own$N", 202, ""))}, 200, 201, 202, 204)
	lane++ // what is imported with a dot must not be declared in any file of the package
	add("qualified/both", []string{`"vapp/imp/a"`}, "func F$N(c *gin.Context) { c.Status(204) }\n", "\ta.F$N(c)\n\tF$N(c)\n\tc.Status(200)\n", two, 200, 201, 204)
	add("qualified/one", []string{`"vapp/imp/a"`}, "func F$N(c *gin.Context) { c.Status(204) }\n\nvar _ = F$N\n", "\ta.F$N(c)\n\tc.Status(200)\n", two, 200, 201)
	return units
}

func init() {
	core.Register(&core.Check{
		ID:   "C05",
		Rule: "One case is one handler split into functions; every split within the bounds (place of the function x form of the call x parameter list x name; chains over every sequence of places; call graphs with sharing and recursion) is put through the real pipeline and compared with the model of the handler with all bodies written in place.",
		Run: func(w *core.W) error {
			return core.RunUnits(w, c05Units(w.Thorough()), support)
		},
		Assumptions: []string{"helpers are functions, not methods or function values", "statuses do not come from parameters"},
	})
}
