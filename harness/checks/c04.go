package checks

import (
	"sort"
	"strings"

	"vh/core"
)

// input is a context call that reads from the request or sets a response header.
type input struct {
	method string
	place  string // query, header, urlencoded, multipart, resp, bind
	shape  string // single, array, map, file
	pat    string // with the name as %s
	binds  []string
}

var inputCalls = []input{
	{method: "Query", place: "query", shape: "single", pat: "\t_ = c.Query(%s)\n"},
	{method: "GetQuery", place: "query", shape: "single", pat: "\t_, _ = c.GetQuery(%s)\n"},
	{method: "QueryArray", place: "query", shape: "array", pat: "\t_ = c.QueryArray(%s)\n"},
	{method: "GetQueryArray", place: "query", shape: "array", pat: "\t_, _ = c.GetQueryArray(%s)\n"},
	{method: "QueryMap", place: "query", shape: "map", pat: "\t_ = c.QueryMap(%s)\n"},
	{method: "GetQueryMap", place: "query", shape: "map", pat: "\t_, _ = c.GetQueryMap(%s)\n"},
	{method: "GetHeader", place: "header", shape: "single", pat: "\t_ = c.GetHeader(%s)\n"},
	{method: "PostForm", place: "urlencoded", shape: "single", pat: "\t_ = c.PostForm(%s)\n"},
	{method: "GetPostForm", place: "urlencoded", shape: "single", pat: "\t_, _ = c.GetPostForm(%s)\n"},
	{method: "PostFormArray", place: "urlencoded", shape: "array", pat: "\t_ = c.PostFormArray(%s)\n"},
	{method: "GetPostFormArray", place: "urlencoded", shape: "array", pat: "\t_, _ = c.GetPostFormArray(%s)\n"},
	{method: "PostFormMap", place: "urlencoded", shape: "map", pat: "\t_ = c.PostFormMap(%s)\n"},
	{method: "GetPostFormMap", place: "urlencoded", shape: "map", pat: "\t_, _ = c.GetPostFormMap(%s)\n"},
	{method: "FormFile", place: "multipart", shape: "file", pat: "\t_, _ = c.FormFile(%s)\n"},
	{method: "Header", place: "resp", shape: "single", pat: "\tc.Header(%s, \"x\")\n"},
	{method: "ShouldBindQuery", place: "bind", pat: "\t_ = c.ShouldBindQuery(%s)\n", binds: []string{"query"}},
	{method: "BindQuery", place: "bind", pat: "\t_ = c.BindQuery(%s)\n", binds: []string{"query"}},
	{method: "ShouldBindHeader", place: "bind", pat: "\tif err := c.ShouldBindHeader(%s); err != nil {\n\t\treturn\n\t}\n", binds: []string{"header"}},
	{method: "BindHeader", place: "bind", pat: "\t_ = c.BindHeader(%s)\n", binds: []string{"header"}},
	{method: "ShouldBindJSON", place: "bind", pat: "\tif err := c.ShouldBindJSON(%s); err != nil {\n\t\treturn\n\t}\n", binds: []string{"json"}},
	{method: "BindJSON", place: "bind", pat: "\tif c.BindJSON(%s) != nil {\n\t\treturn\n\t}\n", binds: []string{"json"}},
	{method: "ShouldBindXML", place: "bind", pat: "\t_ = c.ShouldBindXML(%s)\n", binds: []string{"xml"}},
	{method: "BindXML", place: "bind", pat: "\t_ = c.BindXML(%s)\n", binds: []string{"xml"}},
	{method: "ShouldBindYAML", place: "bind", pat: "\t_ = c.ShouldBindYAML(%s)\n", binds: []string{"yaml"}},
	{method: "BindYAML", place: "bind", pat: "\t_ = c.BindYAML(%s)\n", binds: []string{"yaml"}},
	{method: "ShouldBind", place: "bind", pat: "\t_ = c.ShouldBind(%s)\n", binds: []string{"query", "header", "json", "xml", "yaml", "urlencoded", "multipart"}},
	{method: "Bind", place: "bind", pat: "\tif err := c.Bind(%s); err != nil {\n\t\tc.Abort()\n\t}\n", binds: []string{"query", "header", "json", "xml", "yaml", "urlencoded", "multipart"}},
}

var mediaOf = map[string]string{"json": "application/json", "xml": "application/xml", "yaml": "application/yaml", "urlencoded": "application/x-www-form-urlencoded", "multipart": "multipart/form-data"}
var tagOf = map[string]string{"query": "form", "header": "header", "json": "json", "xml": "xml", "yaml": "yaml", "urlencoded": "form", "multipart": "form"}

// reads is the reference model of what a handler reads.
type reads struct {
	params  map[[2]string]*X // place, name
	named   map[string]map[string]*X
	bound   map[string][]*X
	headers map[string]bool
}

func newReads() *reads {
	return &reads{map[[2]string]*X{}, map[string]map[string]*X{}, map[string][]*X{}, map[string]bool{}}
}

func sameX(a, b *X) bool {
	return a == b || (a.Kind == "prim" && *&a.Type == b.Type && a.Format == b.Format)
}

func put[K comparable](m map[K]*X, k K, x *X) {
	if old, ok := m[k]; ok && !(old.Kind == x.Kind && (old.Kind != "prim" || sameX(old, x)) && old.Kind != "obj" && (old.Elem == nil || sameX(old.Elem, x.Elem))) {
		x = core.Free() // two shapes of one name: it is there once
	}
	m[k] = x
}

func (r *reads) name(in input, name string) {
	x := scalar("string")
	switch in.shape {
	case "array":
		x = core.Arr(x)
	case "map":
		x = core.Map(x)
	case "file":
		x = core.Prim("string", "binary")
	}
	switch in.place {
	case "query", "header":
		put(r.params, [2]string{in.place, name}, x)
	case "resp":
		r.headers[name] = true
	default:
		if r.named[in.place] == nil {
			r.named[in.place] = map[string]*X{}
		}
		put(r.named[in.place], name, x)
	}
}

func (r *reads) bind(in input, t typ) {
	for _, b := range in.binds {
		x := t.x(tagOf[b])
		if b == "query" || b == "header" {
			for k, v := range x.Props {
				put(r.params, [2]string{b, k}, v)
			}
			continue
		}
		r.bound[b] = append(r.bound[b], x)
	}
}

func (r *reads) expect() core.Expect {
	e := core.Expect{Resp: []Resp{{Status: 200}}, Body: map[string]*X{}}
	for k, x := range r.params {
		e.Params = append(e.Params, Par{In: k[0], Name: k[1], X: x})
	}
	sort.Slice(e.Params, func(i, j int) bool { return e.Params[i].In+e.Params[i].Name < e.Params[j].In+e.Params[j].Name })
	for b, ct := range mediaOf {
		named, bound := r.named[b], r.bound[b]
		switch {
		case len(named) == 0 && len(bound) == 0:
		case len(named) == 0 && len(bound) == 1:
			e.Body[ct] = bound[0]
		case b != "urlencoded" && b != "multipart" && len(bound) > 1:
			e.Body[ct] = bound[0]
			for _, x := range bound {
				if x != bound[0] {
					e.Body[ct] = core.Free() // alternatives
				}
			}
		default:
			props := map[string]*X{}
			for _, x := range bound {
				for k, v := range x.Props {
					put(props, k, v)
				}
			}
			for k, v := range named {
				put(props, k, v)
			}
			e.Body[ct] = core.Obj(props)
		}
	}
	for h := range r.headers {
		e.Headers = append(e.Headers, h)
	}
	return e
}

func nameForms() []form {
	return []form{
		{name: "lit", expr: `"na"`, str: "na"},
		{name: "dashes", expr: `"X-Na-Me.1_b"`, str: "X-Na-Me.1_b"},
		{name: "raw", expr: "`na`", str: "na"},
		{name: "escape", expr: `"n\x61\u00e9"`, str: "naé"},
		{name: "quote", expr: `"n\"a"`, str: `n"a`},
		{name: "const", decls: "const kn$N = \"cname\"\n", expr: "kn$N", str: "cname"},
		{name: "constgroup", decls: "const (\n\tka$N = \"one\"\n\tkb$N = ka$N + \"-two\"\n)\n", expr: "kb$N", str: "one-two"},
		{name: "localconst", pre: "\tconst ln = \"ln\"\n", expr: "ln", str: "ln"},
		{name: "typedconst", decls: "const kt$N string = \"kt\"\n", expr: "kt$N", str: "kt"},
		{name: "concat", expr: `"a" + "b"`, str: "ab"},
		{name: "paren", expr: `("p")`, str: "p"},
		{name: "ext", imports: []string{impExt}, expr: "ext.Name", str: "ext-name"},
		{name: "extvar", imports: []string{impExt}, expr: "ext.VarName", str: "ext-var"},
		{name: "localvar", pre: "\tlv := \"lv\"\n", expr: "lv", str: "lv"},
		{name: "localvar2", pre: "\tva, vb := \"va\", \"vb\"\n\t_ = va\n", expr: "vb", str: "vb"},
		{name: "vardecl", pre: "\tvar vd = \"vd\"\n", expr: "vd", str: "vd"},
		{name: "pkgvar", decls: "var pv$N = \"pv\"\n", expr: "pv$N", str: "pv"},
		{name: "rawvar", decls: "var rv$N = `rv`\n", expr: "rv$N", str: "rv"},
		{name: "escvar", decls: "var ev$N = \"e\\\"v\"\n", expr: "ev$N", str: `e"v`},
		{name: "shadow", decls: "const sh$N = \"outer\"\n", pre: "\tconst sh$N = \"inner\"\n", expr: "sh$N", str: "inner"},
		{name: "shadowvar", decls: "var sh$N = \"outer\"\n", pre: "\tsh$N := \"inner\"\n", expr: "sh$N", str: "inner"},
		{name: "shadowinner", pre: "\tin := \"outer\"\n\tif in := \"inner\"; in != \"\" {\n\t}\n", expr: "in", str: "outer"},
		{name: "conversion", expr: "string(\"conv\")", str: "conv"},
		{name: "namedconversion", imports: []string{impExt}, expr: "string(ext.Red)", str: "red"},
		{name: "typedlocal", pre: "\tvar tl string = \"typed\"\n", expr: "tl", str: "typed"},
		{name: "varofvar", pre: "\tv1 := \"first\"\n\tv2 := v1\n", expr: "v2", str: "first"},
		{name: "varofpkgvar", decls: "var pw$N = \"outer\"\n", pre: "\tv3 := pw$N\n", expr: "v3", str: "outer"},
		{name: "varofconcat", decls: "const pk$N = \"k\"\n", pre: "\tv4 := pk$N + \"-4\"\n", expr: "v4", str: "k-4"},
		{name: "varofext", imports: []string{impExt}, pre: "\tv5 := ext.Name\n", expr: "v5", str: "ext-name"},
		{name: "varofextvar", imports: []string{impExt}, pre: "\tv6 := ext.VarName\n", expr: "v6", str: "ext-var"},
		{name: "extvarofconst", imports: []string{impExt}, expr: "ext.VarOfConst", str: "ext-name"},
		{name: "extvarofvar", imports: []string{impExt}, expr: "ext.VarOfVar", str: "ext-var"},
		{name: "extvarofexpr", imports: []string{impExt}, expr: "ext.VarOfExpr", str: "ext-name-expr-hidden"},
		{name: "varofextvarofconst", imports: []string{impExt}, pre: "\tv7 := ext.VarOfConst\n", expr: "v7", str: "ext-name"},
		{name: "dotconst", imports: []string{". \"vapp/ext\""}, expr: "Name", str: "ext-name"},
		{name: "dotvar", imports: []string{". \"vapp/ext\""}, expr: "VarName", str: "ext-var"},
		{name: "dotvarofconst", imports: []string{". \"vapp/ext\""}, expr: "VarOfConst", str: "ext-name"},
		{name: "later", expr: "lt$N", str: "later", after: "const lt$N = \"later\"\n"},
		{name: "latervar", expr: "lt$N", str: "later", after: "var lt$N = \"later\"\n"},
		{name: "group", decls: "var (\n\tga$N = \"ga\"\n\tgb$N = \"gb\"\n)\n", expr: "gb$N", str: "gb"},
		{name: "localgroup", pre: "\tvar (\n\t\tla = \"la\"\n\t\tlb = \"lb\"\n\t)\n\t_ = la\n", expr: "lb", str: "lb"},
		{name: "repeated", decls: "const (\n\trp$N = \"rep\"\n\trq$N\n)\n", expr: "rq$N", str: "rep"},
		{name: "spaces", expr: "\" two words \"", str: " two words "},
		{name: "unicode", expr: "\"日本\"", str: "日本"},
		{name: "empty backslash", expr: "`a\\b`", str: `a\b`},
		{name: "pkgvar2", decls: "var (\n\tpva$N, pvb$N = \"pva\", \"pvb\"\n)\n", expr: "pvb$N", str: "pvb"},
	}
}

// bindTypes are structs that are bound.
func bindTypes(k string) []typ {
	tags := func(n string) map[string]string {
		t := map[string]string{}
		for _, b := range bindings {
			t[b] = b + "_" + n
		}
		return t
	}
	ren := func(t typ) typ { return rename(t, k) }
	plain := structTyp("Bp"+k+"$N", fld{name: "Aa" + k, t: scalarTyp("string")}, fld{name: "Bb" + k, t: scalarTyp("int64")})
	tagged := structTyp("Bt"+k+"$N", fld{name: "A", t: scalarTyp("string"), tags: tags("a" + k)}, fld{name: "B", t: sliceOf(scalarTyp("int")), tags: tags("b" + k)}, fld{name: "C", t: scalarTyp("bool"), tags: map[string]string{"json": "-", "xml": "-", "yaml": "-", "form": "-", "header": "-"}})
	base := structTyp("Ba"+k+"$N", fld{name: "Id" + k, t: scalarTyp("int"), tags: tags("id" + k)}, fld{name: "Er" + k, t: scalarTyp("float64"), tags: tags("er" + k)})
	emb := structTyp("Be"+k+"$N", fld{name: "Ba" + k + "$N", t: base, emb: true}, fld{name: "Own" + k, t: scalarTyp("string"), tags: tags("own" + k)})
	ptrs := structTyp("Bq"+k+"$N", fld{name: "P", t: ptrTo(scalarTyp("int64")), tags: tags("p" + k)}, fld{name: "T", t: typ{name: "time", src: "time.Time", imps: []string{`"time"`}, x: same(core.Prim("string", "date-time"))}, tags: tags("t" + k)}, fld{name: "E", t: typ{name: "enum", src: "ext.Color", imps: []string{impExt}, x: same(xColor())}, tags: tags("e" + k)})
	plain.name, tagged.name, emb.name, ptrs.name = "plain", "tagged", "embedded", "pointers"
	_ = ren
	return []typ{plain, tagged, emb, ptrs}
}

type bindForm struct{ name, decls, pre, expr string }

func bindForms(src string) []bindForm {
	return []bindForm{
		{"addr", "", "\tvar b %T\n", "&b"},
		{"lit", "", "\tb := %T{}\n", "&b"},
		{"ptr", "", "\tb := &%T{}\n", "b"},
		{"new", "", "\tb := new(%T)\n", "b"},
		{"varptr", "", "\tvar b *%T = &%T{}\n", "b"},
		{"inline", "", "", "&%T{}"},
		{"inlinenew", "", "", "new(%T)"},
		{"pkgvar", "var gb$N %T\n", "", "&gb$N"},
		{"field", "type bw$N struct{ In %T }\n", "\tvar w bw$N\n", "&w.In"},
		{"call", "func mkb$N() *%T { return nil }\n", "", "mkb$N()"},
		{"callvar", "func mkb$N() (*%T, error) { return nil, nil }\n", "\tb, err := mkb$N()\n\tif err != nil {\n\t\treturn\n\t}\n", "b"},
		{"block", "", "\tvar (\n\t\tx int\n\t\tb %T\n\t)\n\t_ = x\n", "&b"},
	}
}

type position struct {
	name, decls, body string
	imports           []string
	resp              []Resp
	header            string
}

// positions are the places of a handler where a value can be.
func positions() []position {
	mk := "func mk$N(s string) int { return len(s) }\n"
	return []position{
		{name: "init", body: "\tif v := %C; v != \"\" {\n\t\treturn\n\t}\n"},
		{name: "cond", body: "\tif %C != \"\" {\n\t\treturn\n\t}\n"},
		{name: "elseif", body: "\tif c.IsAborted() {\n\t} else if %C != \"\" {\n\t}\n"},
		{name: "builtin", body: "\tprintln(len(%C))\n"},
		{name: "conversion", body: "\t_ = []byte(%C)\n"},
		{name: "argument", imports: []string{`"strings"`}, body: "\t_ = strings.ToLower(%C)\n"},
		{name: "nested", imports: []string{`"strconv"`, `"strings"`}, body: "\tn, err := strconv.Atoi(strings.TrimSpace(%C))\n\t_, _ = n, err\n"},
		{name: "chain", imports: []string{`"strings"`}, body: "\t_ = strings.NewReplacer(\"a\", \"b\").Replace(%C)\n"},
		{name: "own", decls: mk, body: "\t_ = mk$N(%C)\n"},
		{name: "method", decls: "type m$N struct{}\nfunc (m$N) f(s string) m$N { return m$N{} }\n", body: "\tm$N{}.f(\"\").f(%C).f(\"x\")\n"},
		{name: "generic", decls: "func id$N[A any](a A) A { return a }\n", body: "\t_ = id$N(%C)\n"},
		{name: "genericexplicit", decls: "func id$N[A any](a A) A { return a }\n", body: "\t_ = id$N[string](%C)\n"},
		{name: "functionvar", body: "\tf := func(s string) {}\n\tf(%C)\n"},
		{name: "composite", body: "\t_ = gin.H{\"a\": %C}\n"},
		{name: "key", body: "\t_ = gin.H{%C: 1}\n"},
		{name: "field", decls: "type f$N struct{ A, B string }\n", body: "\t_ = &f$N{B: %C}\n"},
		{name: "element", body: "\t_ = []string{\"\", %C}\n"},
		{name: "response", body: "\tc.JSON(201, gin.H{\"a\": %C})\n", resp: []Resp{{201, "application/json", core.Map(core.Any())}}},
		{name: "responsecall", decls: mk, body: "\tc.XML(201, mk$N(%C))\n", resp: []Resp{{201, "application/xml", scalar("int")}}},
		{name: "responseonly", body: "\tc.YAML(201, %C)\n", resp: []Resp{{201, "application/yaml", scalar("string")}}},
		{name: "format", body: "\tc.String(201, \"%s\", %C)\n", resp: []Resp{{201, "text/plain", scalar("string")}}},
		{name: "data", body: "\tc.Data(201, \"text/csv\", []byte(%C))\n", resp: []Resp{{201, "text/csv", core.Free()}}},
		{name: "abort", imports: []string{`"errors"`}, body: "\tc.AbortWithError(201, errors.New(%C))\n", resp: []Resp{{Status: 201}}},
		{name: "headervalue", body: "\tc.Header(\"X-Pos\", %C)\n", header: "X-Pos"},
		{name: "set", body: "\tc.Set(\"k\", %C)\n"},
		{name: "writer", body: "\t_, _ = c.Writer.WriteString(%C)\n"},
		{name: "request", body: "\t_ = c.Request.FormValue(%C)\n"},
		{name: "switch", body: "\tswitch %C {\n\tcase \"a\":\n\t}\n"},
		{name: "case", body: "\tswitch \"a\" {\n\tcase \"b\", %C:\n\t}\n"},
		{name: "switchtrue", body: "\tswitch {\n\tcase %C == \"\":\n\t}\n"},
		{name: "typeswitch", body: "\tswitch any(%C).(type) {\n\tcase string:\n\t}\n"},
		{name: "for", body: "\tfor %C == \"x\" {\n\t\tbreak\n\t}\n"},
		{name: "forinit", body: "\tfor s := %C; s == \"x\"; {\n\t\tbreak\n\t}\n"},
		{name: "forpost", body: "\tfor s := \"\"; s == \"x\"; s = %C {\n\t\tbreak\n\t}\n"},
		{name: "range", body: "\tfor range %C {\n\t}\n"},
		{name: "index", body: "\t_ = map[string]int{}[%C]\n"},
		{name: "indexed", body: "\t_ = (%C)[0]\n"},
		{name: "sliced", body: "\t_ = (%C)[:0]\n"},
		{name: "literalresult", body: "\tf := func() string { return %C }\n\t_ = f\n"},
		{name: "literalargument", body: "\tfunc(s string) {}(%C)\n"},
		{name: "go", body: "\tgo func(s string) {}(%C)\n"},
		{name: "defer", body: "\tdefer func(s string) {}(%C)\n"},
		{name: "deferprint", body: "\tdefer println(%C)\n"},
		{name: "send", body: "\tch := make(chan string, 1)\n\tch <- %C\n"},
		{name: "select", body: "\tch := make(chan string, 1)\n\tselect {\n\tcase ch <- %C:\n\tdefault:\n\t}\n"},
		{name: "assign", body: "\ts := \"\"\n\ts += %C\n\t_ = s\n"},
		{name: "binary", body: "\t_ = \"a\" + %C + \"b\"\n"},
		{name: "or", body: "\t_ = c.IsAborted() || %C == \"a\"\n"},
		{name: "multi", body: "\ta, b := 1, %C\n\t_, _ = a, b\n"},
		{name: "decl", body: "\tvar a, b = 1, %C\n\t_, _ = a, b\n"},
		{name: "label", body: "loop:\n\tfor {\n\t\t_ = %C\n\t\tbreak loop\n\t}\n"},
		{name: "block", body: "\t{\n\t\t{\n\t\t\t_ = %C\n\t\t}\n\t}\n"},
		{name: "dynamicname", body: "\t_ = c.Query(%C)\n"},
		{name: "dynamicheadername", body: "\tc.Header(%C, \"x\")\n"},
		{name: "dynamicstatus", decls: mk, body: "\tc.Status(mk$N(%C))\n"},
		{name: "dynamicstatusresponse", decls: mk, body: "\tc.JSON(mk$N(%C), 1)\n"},
		{name: "dynamiccontenttype", body: "\tc.Data(200, %C, nil)\n"},
		{name: "dynamicfile", body: "\tc.File(%C)\n"},
		{name: "methodhelper", decls: "type m$N struct{}\nfunc (m$N) f(c *gin.Context, s string) {}\n", body: "\tm$N{}.f(c, %C)\n"},
		{name: "functionhelper", body: "\tf := func(c *gin.Context, s string) {}\n\tf(c, %C)\n"},
		{name: "fieldhelper", decls: "type m$N struct{ f func(string, *gin.Context) }\n", body: "\tm$N{}.f(%C, c)\n"},
		{name: "parameterhelper", decls: "func use$N(s string, c *gin.Context) { _ = c.GetHeader(s) }\n", body: "\tuse$N(%C, c)\n"},
		{name: "unnamedhelper", decls: "func use$N(string, *gin.Context) {}\n", body: "\tuse$N(%C, c)\n"},
		{name: "2init", body: "\tif v, ok := %C; ok {\n\t\t_ = v\n\t}\n"},
		{name: "2switch", body: "\tswitch v, ok := %C; ok {\n\tcase true:\n\t\t_ = v\n\t}\n"},
		{name: "2arguments", decls: "func two$N(s string, ok bool) {}\n", body: "\ttwo$N(%C)\n"},
		{name: "2result", body: "\tf := func() (string, bool) { return %C }\n\t_ = f\n"},
		{name: "2decl", body: "\tvar a, b = %C\n\t_, _ = a, b\n"},
		{name: "2go", body: "\tgo func(s string, ok bool) {}(%C)\n"},
	}
}

func c04Units(thorough bool) []Unit {
	var units []Unit
	n := 0
	whole := func(id, method string, imports []string, decls, body string, e core.Expect) {
		n++
		sfx := pr("R%04d", n)
		decls, after, _ := strings.Cut(decls, "//after\n")
		units = append(units, Unit{ID: id, Imports: imports, Src: sub(decls, sfx) + handler(sfx, body) + sub(after, sfx),
			Routes: []core.Route{{Method: method, Path: "/x", Func: "H" + sfx}}, Check: core.Is(e)})
	}
	add := func(id string, imports []string, decls, body string, e core.Expect) {
		whole(id, "POST", imports, decls, body+"\tc.Status(200)\n", e)
	}
	// every call before, after and between every response of some statuses and formats, with every method
	type answer struct {
		name, first, second string
		resp                []Resp
	}
	answers := []answer{
		{"500", "\tc.JSON(500, 1)\n", "", []Resp{{500, "application/json", scalar("int")}}},
		{"404", "\tc.Status(404)\n", "", []Resp{{Status: 404}}},
		{"302", "\tc.Status(302)\n", "", []Resp{{Status: 302}}},
		{"204", "\tc.Status(204)\n", "", []Resp{{Status: 204}}},
		{"100", "\tc.Status(100)\n", "", []Resp{{Status: 100}}},
		{"201", "\tc.XML(201, \"\")\n", "", []Resp{{201, "application/xml", scalar("string")}}},
		{"aborted", "\tc.AbortWithStatus(401)\n", "", []Resp{{Status: 401}}},
		{"500 200", "\tif c.IsAborted() {\n\t\tc.Status(500)\n\t\treturn\n\t}\n", "\tc.JSON(200, 1)\n", []Resp{{Status: 500}, {200, "application/json", scalar("int")}}},
		{"200 503", "\tc.YAML(200, true)\n", "\tc.AbortWithStatusJSON(503, \"\")\n", []Resp{{200, "application/yaml", scalar("bool")}, {503, "application/json", scalar("string")}}},
		{"same status", "\tc.JSON(400, 1)\n", "\tc.YAML(400, 1)\n", []Resp{{400, "application/json", scalar("int")}, {400, "application/yaml", scalar("int")}}},
	}
	for _, in := range inputCalls {
		r := newReads()
		var decls, call string
		var imps []string
		if in.place == "bind" {
			t := bindTypes("")[1]
			r.bind(in, t)
			decls, imps, call = t.decls, t.imps, pr("\tb := &%s{}\n", t.src)+pr(in.pat, "b")
		} else {
			r.name(in, "X-Name")
			call = pr(in.pat, `"X-Name"`)
		}
		for _, a := range answers {
			for order, body := range []string{call + a.first + a.second, a.first + call + a.second, a.first + a.second + call} {
				if order == 1 && a.second == "" {
					continue
				}
				for _, method := range []string{"POST", "GET", "DELETE"} {
					if method != "POST" && (in.place != "resp" || order > 0) && !thorough {
						continue
					}
					e := r.expect()
					e.Resp = a.resp
					whole(pr("answer/%s/%s/%d/%s", in.method, a.name, order, method), method, imps, decls, body, e)
				}
			}
		}
	}
	// every call with every form of its name
	for _, in := range inputCalls {
		if in.place == "bind" {
			continue
		}
		for _, f := range nameForms() {
			r := newReads()
			r.name(in, f.str)
			add(pr("name/%s/%s", in.method, f.name), f.imports, f.decls+"//after\n"+f.after, f.pre+pr(in.pat, f.expr), r.expect())
		}
	}
	// every bind with every struct in every form of the argument
	fill := func(s string, t typ) string { return subAll(s, "%T", t.src) }
	for _, in := range inputCalls {
		if in.place != "bind" {
			continue
		}
		for ti, t := range bindTypes("") {
			for fi, f := range bindForms(t.src) {
				if !thorough && ti > 0 && fi > 0 && in.method != "ShouldBind" && in.method != "ShouldBindJSON" {
					continue
				}
				r := newReads()
				r.bind(in, t)
				add(pr("bind/%s/%s/%s", in.method, t.name, f.name), t.imps, t.decls+fill(f.decls, t), fill(f.pre, t)+pr(in.pat, fill(f.expr, t)), r.expect())
			}
		}
		// bodies that are no structs
		if len(in.binds) == 1 && in.binds[0] != "query" && in.binds[0] != "header" {
			st := bindTypes("")[1]
			for _, t := range []typ{sliceOf(st), slicePtrOf(st), mapOf(st), mapOf(scalarTyp("string")), sliceOf(scalarTyp("int64")), scalarTyp("string"), named("Nb$N", sliceOf(st)), arrayOf(scalarTyp("int"))} {
				r := newReads()
				r.bind(in, t)
				add(pr("bindvalue/%s/%s", in.method, t.name), t.imps, t.decls, pr("\tvar b %s\n", t.src)+pr(in.pat, "&b"), r.expect())
			}
		}
	}
	// a call in every place of a handler where a value can be
	for _, in := range inputCalls {
		if in.shape != "single" || in.place == "resp" {
			continue
		}
		call, two := strings.TrimSpace(pr(in.pat, "\"in\"")), false
		if call, two = strings.CutPrefix(call, "_, _ = "); !two {
			call = strings.TrimPrefix(call, "_ = ")
		}
		for _, p := range positions() {
			if (p.name[0] == '2') != two {
				continue
			}
			r := newReads()
			r.name(in, "in")
			if p.header != "" {
				r.headers[p.header] = true
			}
			e := r.expect()
			e.Resp = append(e.Resp, p.resp...)
			add(pr("position/%s/%s", in.method, p.name), p.imports, p.decls, subAll(p.body, "%C", call), e)
		}
	}
	// every ordered pair of calls, with different names and with the same one, in shapes of control flow
	shapes := []struct{ name, pat string }{
		{"seq", "%s%s"},
		{"if", "\tif c.IsAborted() {\n%s\t}\n%s"},
		{"else", "\tif c.IsAborted() {\n%s\t} else {\n%s\t}\n"},
		{"loop", "\tfor i := 0; i < 3; i++ {\n%s\t}\n%s"},
		{"switch", "\tswitch c.Request.Method {\n\tcase \"A\":\n%s\tdefault:\n%s\t}\n"},
		{"closure", "\tfunc() {\n%s\t}()\n%s"},
	}
	one := func(in input, k int, r *reads, name string) (decls, body string, imps []string) {
		if in.place != "bind" {
			r.name(in, name)
			return "", pr(in.pat, pr("%q", name)), nil
		}
		t := bindTypes(pr("%d", k))[k%2]
		r.bind(in, t)
		return t.decls, pr("\tvar b%d %s\n", k, t.src) + pr(in.pat, pr("&b%d", k)), t.imps
	}
	for _, a := range inputCalls {
		for _, b := range inputCalls {
			for si, sh := range shapes {
				if !thorough && si > 0 && !(a.method == "ShouldBind" || b.method == "ShouldBind" || (a.method == "Query" && b.shape != "")) {
					continue
				}
				if !thorough && si > 1 && (a.place == "bind") == (b.place == "bind") {
					continue
				}
				for _, nb := range []string{"second", "first"} {
					if nb == "first" && (a.place == "bind" || b.place == "bind" || si > 0) {
						continue
					}
					r := newReads()
					d1, b1, i1 := one(a, 0, r, "first")
					d2, b2, i2 := one(b, 1, r, nb)
					add(pr("two/%s/%s/%s/%s", a.method, b.method, sh.name, nb), append(append([]string{}, i1...), i2...), d1+d2, pr(sh.pat, b1, b2), r.expect())
				}
			}
		}
	}
	// a bind of what is not a struct, next to every other call
	for _, in := range inputCalls {
		if in.place != "bind" || len(in.binds) == 1 && in.binds[0] != "query" && in.binds[0] != "header" {
			continue
		}
		st := bindTypes("0")[1]
		for ti, t := range []typ{mapOf(scalarTyp("string")), mapOf(st), sliceOf(st), scalarTyp("string")} {
			for _, o := range inputCalls {
				if !thorough && ti > 0 && o.method != "Query" && o.method != "ShouldBindQuery" && o.method != "ShouldBind" {
					continue
				}
				for _, first := range []bool{true, false} {
					r := newReads()
					d1, b1, i1 := t.decls, pr("\tvar v %s\n", t.src)+pr(in.pat, "&v"), t.imps
					if first {
						r.bind(in, t)
					}
					d2, b2, i2 := one(o, 1, r, "other")
					body := b1 + b2
					if !first {
						r.bind(in, t)
						body = b2 + b1
					}
					add(pr("other/%s/%s/%s/%v", in.method, t.name, o.method, first), append(append([]string{}, i1...), i2...), d1+d2, body, r.expect())
				}
			}
		}
	}
	// triples of the different places
	var reps []input
	for _, in := range inputCalls {
		switch in.method {
		case "Query", "QueryMap", "GetHeader", "PostForm", "PostFormArray", "FormFile", "Header", "ShouldBindQuery", "ShouldBindHeader", "ShouldBindJSON", "ShouldBind":
			reps = append(reps, in)
		}
	}
	for ai, a := range reps {
		for bi, b := range reps {
			for ci, c := range reps {
				if !thorough && (ai > bi || bi > ci) {
					continue
				}
				r := newReads()
				d1, b1, i1 := one(a, 0, r, "first")
				d2, b2, i2 := one(b, 1, r, "second")
				d3, b3, i3 := one(c, 2, r, "third")
				add(pr("three/%s/%s/%s", a.method, b.method, c.method), append(append(append([]string{}, i1...), i2...), i3...), d1+d2+d3, b1+b2+b3, r.expect())
			}
		}
	}
	// many inputCalls of one place
	for _, in := range inputCalls {
		if in.place == "bind" {
			continue
		}
		for _, k := range []int{5, 17} {
			r := newReads()
			body := ""
			for i := 0; i < k; i++ {
				_, b, _ := one(in, i, r, pr("n%02d", (i*7)%k))
				body += b
			}
			add(pr("many/%s/%d", in.method, k), nil, "", body, r.expect())
		}
	}
	// the inputCalls of nested calls
	for _, a := range inputCalls {
		if a.shape != "single" || a.place == "resp" {
			continue
		}
		r := newReads()
		r.name(a, "outer-in")
		r.headers["H"] = true
		expr := pr(a.pat, `"outer-in"`)
		expr = expr[indexOf(expr, "c.") : len(expr)-1]
		if a.method[:3] == "Get" && a.method != "GetHeader" {
			continue
		}
		add("nested/"+a.method, nil, "", pr("\tc.Header(\"H\", %s)\n", expr), r.expect())
		r2 := newReads()
		r2.name(a, "outer-in")
		add("cond/"+a.method, nil, "", pr("\tif v := %s; v != \"\" && len(v) > 2 {\n\t\treturn\n\t}\n", expr), r2.expect())
		add("arg/"+a.method, []string{`"strings"`}, "", pr("\t_ = strings.ToLower(%s)\n", expr), r2.expect())
		add("ret/"+a.method, nil, "", pr("\tf := func() string { return %s }\n\t_ = f()\n", expr), r2.expect())
	}
	return units
}

func init() {
	core.Register(&core.Check{
		ID:   "C04",
		Rule: "One case is one generated handler; every handler within the bounds is generated (input method x form of the name or of the bound value; ordered pairs of calls in every control-flow shape; triples of places), put through the real pipeline and compared with the reference model.",
		Run: func(w *core.W) error {
			return core.RunUnits(w, c04Units(w.Thorough()), support)
		},
		Assumptions: []string{"names are constants or single-assignment variables", "the type of a body other than a form that is bound twice is not specified", "the shape of a name that is read in two shapes is not specified"},
	})
}
