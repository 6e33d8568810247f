package checks

import (
	"strings"

	"vh/core"
)

// form is a way of writing an argument, with what it stands for.
type form struct {
	name    string
	imports []string
	decls   string // package level
	pre     string // statements before the call
	expr    string
	code    int
	str     string
	x       *X
	json    bool   // it has the keys of JSON only
	after   string // package level, behind the handler
}

func codeForms() []form {
	return []form{
		{name: "lit", expr: "200", code: 200},
		{name: "http", imports: []string{impHTTP}, expr: "http.StatusNotFound", code: 404},
		{name: "pkgconst", decls: "const code$N = 201\n", expr: "code$N", code: 201},
		{name: "iota", decls: "const (\n\tca$N = iota + 500\n\tcb$N\n\tcc$N\n)\n", expr: "cc$N", code: 502},
		{name: "typed", decls: "const ct$N int = 418\n", expr: "ct$N", code: 418},
		{name: "localconst", pre: "\tconst lc = 203\n", expr: "lc", code: 203},
		{name: "expr", expr: "200 + 4", code: 204},
		{name: "paren", expr: "(205)", code: 205},
		{name: "hex", expr: "0xC8", code: 200},
		{name: "ext", imports: []string{impExt}, expr: "ext.Code", code: 202},
		{name: "extexpr", imports: []string{impExt}, expr: "ext.CodeExpr", code: 203},
		{name: "extiota", imports: []string{impExt}, expr: "ext.Iota1", code: 301},
		{name: "alias", imports: []string{impDeep}, expr: "deepext.Code", code: 409},
		{name: "localvar", pre: "\tlv := 422\n", expr: "lv", code: 422},
		{name: "localvar2", pre: "\tla, lb := 410, 411\n\t_ = la\n", expr: "lb", code: 411},
		{name: "vardecl", pre: "\tvar vd = 412\n", expr: "vd", code: 412},
		{name: "pkgvar", decls: "var pv$N = 413\n", expr: "pv$N", code: 413},
		{name: "pkgvar2", decls: "var pva$N, pvb$N = 414, 415\n", expr: "pvb$N", code: 415},
		{name: "varofconst", imports: []string{impHTTP}, pre: "\tvc := http.StatusConflict\n", expr: "vc", code: 409},
		{name: "extvar", imports: []string{impExt}, expr: "ext.VarCode", code: 206},
		{name: "shadow", decls: "const sh$N = 420\n", pre: "\tconst sh$N = 421\n", expr: "sh$N", code: 421},
		{name: "shadowvar", decls: "var sh$N = 423\n", pre: "\tsh$N := 424\n", expr: "sh$N", code: 424},
		{name: "shadowvarbyconst", decls: "var sh$N = 425\n", pre: "\tconst sh$N = 426\n", expr: "sh$N", code: 426},
		{name: "shadowinner", pre: "\tin := 427\n\t_ = in\n\tif in := 428; in > 0 {\n\t\tin := 429\n\t\t_ = in\n\t}\n", expr: "in", code: 427},
		{name: "conversion", expr: "int(430)", code: 430},
		{name: "typedlocal", pre: "\tvar tl int = 431\n", expr: "tl", code: 431},
		{name: "varofvar", pre: "\tv1 := 432\n\tv2 := v1\n", expr: "v2", code: 432},
		{name: "varofpkgvar", decls: "var pw$N = 433\n", pre: "\tv3 := pw$N\n", expr: "v3", code: 433},
		{name: "pkgvarofconst", decls: "const pk$N = 434\nvar px$N = pk$N\n", expr: "px$N", code: 434},
		{name: "pkgvarofext", imports: []string{impExt}, decls: "var pe$N = ext.Code\n", expr: "pe$N", code: 202},
		{name: "pkgvarofextvar", imports: []string{impExt}, decls: "var pe$N = ext.VarCode\n", expr: "pe$N", code: 206},
		{name: "lenconst", expr: "len(\"four\") + 431", code: 435},
		{name: "char", expr: "'\u01b4'", code: 436},
		{name: "extvarofconst", imports: []string{impExt}, expr: "ext.CodeOfConst", code: 202},
		{name: "extvarofhttp", imports: []string{impExt}, expr: "ext.CodeOfHTTP", code: 418},
		{name: "extvarofvar", imports: []string{impExt}, expr: "ext.CodeOfVar", code: 418},
		{name: "dotconst", imports: []string{". \"vapp/ext\""}, expr: "Code", code: 202},
		{name: "dotvar", imports: []string{". \"vapp/ext\""}, expr: "VarCode", code: 206},
		{name: "dotvarofhttp", imports: []string{". \"vapp/ext\""}, expr: "CodeOfHTTP", code: 418},
		{name: "importedtwice", imports: []string{impExt, `ext2 "vapp/ext"`}, pre: "\t_ = ext.Code\n", expr: "ext2.Iota0", code: 300},
		{name: "later", decls: "", expr: "lt$N", code: 437, after: "const lt$N = 437\n"},
		{name: "latervar", decls: "", expr: "lt$N", code: 438, after: "var lt$N = 438\n"},
		{name: "group", decls: "var (\n\tga$N = 439\n\tgb$N = 440\n)\n", expr: "gb$N", code: 440},
		{name: "localconstgroup", pre: "\tconst (\n\t\tlca = 441\n\t\tlcb = 442\n\t)\n", expr: "lcb", code: 442},
		{name: "localvargroup", pre: "\tvar (\n\t\tlva = 443\n\t\tlvb = 444\n\t)\n\t_ = lva\n", expr: "lvb", code: 444},
		{name: "parenvar", pre: "\tpv := (445)\n", expr: "pv", code: 445},
		{name: "vartyped", decls: "type ty$N int\n", pre: "\ttv := 446\n", expr: "tv", code: 446},
		{name: "constofext", imports: []string{impExt}, decls: "const ce$N = ext.Code + 245\n", expr: "ce$N", code: 447},
		{name: "constofbig", decls: "const cb$N = 1<<40 >> 31\n", expr: "cb$N", code: 512},
		{name: "iotaskip", decls: "const (\n\t_ = iota + 448\n\tis$N\n\t_\n\tit$N\n)\n", expr: "it$N", code: 451},
		{name: "constofconst", decls: "const c1$N = 416\nconst c2$N = c1$N + 1\n", expr: "c2$N", code: 417},
	}
}

// tri is a type whose keys differ by format.
const triDecl = "type Tri$N struct {\n\tA string `json:\"ja\" xml:\"xa\" yaml:\"ya\"`\n\tB int `json:\"jb\" xml:\"xb\" yaml:\"yb\"`\n}\n"

func valueForms() []form {
	st := "type T$N struct {\n\tA int\n\tB string\n}\n"
	x := func() *X { return obj("A", scalar("int"), "B", scalar("string")) }
	return []form{
		{name: "lit", decls: st, expr: "T$N{}", x: x()},
		{name: "ptr", decls: st, expr: "&T$N{A: 1}", x: x()},
		{name: "var", decls: st, pre: "\tv := T$N{}\n", expr: "v", x: x()},
		{name: "vardecl", decls: st, pre: "\tvar v T$N\n", expr: "v", x: x()},
		{name: "varptr", decls: st, pre: "\tv := &T$N{}\n", expr: "v", x: x()},
		{name: "addr", decls: st, pre: "\tvar v T$N\n", expr: "&v", x: x()},
		{name: "deref", decls: st, pre: "\tv := &T$N{}\n", expr: "*v", x: x()},
		{name: "new", decls: st, expr: "new(T$N)", x: x()},
		{name: "call", decls: st + "func mk$N() T$N { return T$N{} }\n", expr: "mk$N()", x: x()},
		{name: "callvar", decls: st + "func mk$N() (int, *T$N) { return 0, nil }\n", pre: "\tn, v := mk$N()\n\t_ = n\n", expr: "v", x: x()},
		{name: "slice", decls: st, expr: "[]T$N{}", x: core.Arr(x())},
		{name: "sliceptr", decls: st, expr: "[]*T$N{}", x: core.Arr(x())},
		{name: "make", decls: st, expr: "make([]T$N, 0)", x: core.Arr(x())},
		{name: "array", decls: st, pre: "\tvar v [3]T$N\n", expr: "v", x: core.ArrN(x(), 3)},
		{name: "map", decls: st, expr: "map[string]T$N{}", x: core.Map(x())},
		{name: "mapstr", expr: "map[string]string{}", x: core.Map(scalar("string"))},
		{name: "mapany", expr: "map[string]any{}", x: core.Map(core.Any())},
		{name: "ginH", expr: "gin.H{\"a\": 1}", x: core.Map(core.Any())},
		{name: "strlit", expr: "\"text\"", x: scalar("string")},
		{name: "intlit", expr: "42", x: scalar("int")},
		{name: "floatlit", expr: "1.5", x: scalar("float64")},
		{name: "boolconst", expr: "true", x: scalar("bool")},
		{name: "untypedconst", decls: "const k$N = \"s\"\n", expr: "k$N", x: scalar("string")},
		{name: "scalarvar", pre: "\tvar v int64\n", expr: "v", x: scalar("int64")},
		{name: "ints", expr: "[]int64{1}", x: core.Arr(scalar("int64"))},
		{name: "len", pre: "\tq := []int{1}\n", expr: "len(q)", x: scalar("int")},
		{name: "field", decls: st + "type W$N struct{ In T$N }\n", pre: "\tvar w W$N\n", expr: "w.In", x: x()},
		{name: "pkgvar", decls: st + "var g$N T$N\n", expr: "g$N", x: x()},
		{name: "ext", imports: []string{impExt}, expr: "ext.Plain{}", x: xPlain()},
		{name: "extcall", imports: []string{impExt}, pre: "\tv, _ := ext.MakePair()\n", expr: "v", x: xPlain()},
		{name: "extslice", imports: []string{impExt}, expr: "[]ext.Plain{}", x: core.Arr(xPlain())},
		{name: "paren", decls: st, pre: "\tv := T$N{}\n", expr: "(v)", x: x()},
		{name: "append", decls: st, pre: "\tvar v []T$N\n", expr: "append(v, T$N{})", x: core.Arr(x())},
		{name: "index", decls: st, pre: "\tvar v []T$N\n", expr: "v[0]", x: x()},
		{name: "indexaddr", decls: st, pre: "\tvar v []T$N\n", expr: "&v[0]", x: x()},
		{name: "indexmap", decls: st, pre: "\tvar v map[string]T$N\n", expr: "v[\"a\"]", x: x()},
		{name: "indexarray", decls: st, pre: "\tvar v [2]*T$N\n", expr: "v[1]", x: x()},
		{name: "sliceexpr", decls: st, pre: "\tvar v []T$N\n", expr: "v[:1]", x: core.Arr(x())},
		{name: "substring", pre: "\tv := \"abc\"\n", expr: "v[1:]", x: scalar("string")},
		{name: "assertion", decls: st, pre: "\tvar v any\n", expr: "v.(T$N)", x: x()},
		{name: "assertionptr", decls: st, pre: "\tvar v any\n\tw, ok := v.(*T$N)\n\t_ = ok\n", expr: "w", x: x()},
		{name: "conversion", decls: st + "type C$N T$N\n", pre: "\tvar v T$N\n", expr: "C$N(v)", x: x()},
		{name: "convptr", decls: st + "type C$N T$N\n", pre: "\tvar v T$N\n", expr: "(*C$N)(&v)", x: x()},
		{name: "convslice", decls: st + "type C$N []T$N\n", expr: "C$N{}", x: core.Arr(x())},
		{name: "convscalar", pre: "\tvar v int\n", expr: "float64(v)", x: scalar("float64")},
		{name: "method", decls: st + "type M$N struct{}\nfunc (M$N) Get() T$N { return T$N{} }\n", expr: "M$N{}.Get()", x: x()},
		{name: "methodptr", decls: st + "type M$N struct{}\nfunc (*M$N) Get() *T$N { return nil }\n", pre: "\tm := &M$N{}\n", expr: "m.Get()", x: x()},
		{name: "methodvar", decls: st + "type M$N struct{}\nfunc (M$N) Get() (T$N, error) { return T$N{}, nil }\nvar m$N M$N\n", pre: "\tv, err := m$N.Get()\n\t_ = err\n", expr: "v", x: x()},
		{name: "methodfield", decls: st + "type M$N struct{}\nfunc (M$N) Get() T$N { return T$N{} }\ntype O$N struct{ m M$N }\n", pre: "\tvar o O$N\n", expr: "o.m.Get()", x: x()},
		{name: "methodembedded", decls: st + "type M$N struct{}\nfunc (M$N) Get() T$N { return T$N{} }\ntype O$N struct{ M$N }\n", pre: "\tvar o O$N\n", expr: "o.Get()", x: x()},
		{name: "methodinterface", decls: st + "type I$N interface{ Get() T$N }\n", pre: "\tvar i I$N\n", expr: "i.Get()", x: x()},
		{name: "methodchain", decls: st + "type M$N struct{}\nfunc (m M$N) With() M$N { return m }\nfunc (M$N) Get() T$N { return T$N{} }\n", expr: "M$N{}.With().With().Get()", x: x()},
		{name: "functionvar", decls: st, pre: "\tf := func() T$N { return T$N{} }\n", expr: "f()", x: x()},
		{name: "functionpkgvar", decls: st + "var f$N = func() T$N { return T$N{} }\n", expr: "f$N()", x: x()},
		{name: "functionlit", decls: st, expr: "func() T$N { return T$N{} }()", x: x()},
		{name: "functionfield", decls: st + "type F$N struct{ f func() T$N }\n", pre: "\tvar f F$N\n", expr: "f.f()", x: x()},
		{name: "functionmap", decls: st, pre: "\tvar f map[string]func() T$N\n", expr: "f[\"a\"]()", x: x()},
		{name: "functionresult", decls: st + "func f$N() func() T$N { return nil }\n", expr: "f$N()()", x: x()},
		{name: "generic", decls: st + "func id$N[A any](a A) A { return a }\n", expr: "id$N(T$N{})", x: x()},
		{name: "genericexplicit", decls: st + "func mk$N[A any]() *A { return nil }\n", expr: "mk$N[T$N]()", x: x()},
		{name: "genericslice", decls: st + "func all$N[A any](a ...A) []A { return a }\n", expr: "all$N(T$N{}, T$N{})", x: core.Arr(x())},
		{name: "genericvar", decls: st + "func id$N[A any](a A) (A, error) { return a, nil }\n", pre: "\tv, err := id$N(T$N{})\n\t_ = err\n", expr: "v", x: x()},
		{name: "extcalldirect", imports: []string{impExt}, expr: "ext.MakeItem()", x: xItem(), json: true},
		{name: "extvar", imports: []string{impExt}, expr: "ext.Shared", x: xItem(), json: true},
		{name: "extvarptr", imports: []string{impExt}, expr: "&ext.Shared", x: xItem(), json: true},
		{name: "extfield", imports: []string{impExt}, expr: "ext.Shared.Price", x: scalar("float64")},
		{name: "extconst", imports: []string{impExt}, expr: "ext.Red", x: xColor()},
		{name: "extnew", imports: []string{impExt}, expr: "new(ext.Item)", x: xItem(), json: true},
		{name: "extmake", imports: []string{impExt}, expr: "make(map[string]ext.Item)", x: core.Map(xItem()), json: true},
		{name: "extconversion", imports: []string{impExt}, expr: "ext.Tags(nil)", x: core.Arr(scalar("string"))},
		{name: "deepcomposite", imports: []string{impExt, impDeep}, expr: "deepext.Wrap{Up: ext.Item{}}", x: xWrap(), json: true},
		{name: "min", pre: "\tvar q float64\n", expr: "max(1, q)", x: scalar("float64")},
		{name: "cap", pre: "\tvar q []int\n", expr: "cap(q)", x: scalar("int")},
		{name: "receive", decls: st, pre: "\tvar q chan T$N\n", expr: "<-q", x: x()},
		{name: "receivevar", decls: st, pre: "\tvar q chan T$N\n\tv, ok := <-q\n\t_ = ok\n", expr: "v", x: x()},
		{name: "compare", pre: "\tvar q int\n", expr: "q == 1", x: scalar("bool")},
		{name: "not", pre: "\tvar q bool\n", expr: "!q", x: scalar("bool")},
		{name: "sum", pre: "\tvar q int64\n", expr: "q + 1", x: scalar("int64")},
		{name: "sumofconst", pre: "\tvar q float32\n", expr: "1 + q", x: scalar("float32")},
		{name: "concat", pre: "\tvar q string\n", expr: "\"a\" + q", x: scalar("string")},
		{name: "negative", pre: "\tvar q int8\n", expr: "-q", x: scalar("int8")},
		{name: "shift", pre: "\tvar q uint16\n", expr: "q << 2", x: scalar("uint16")},
		{name: "sprintf", imports: []string{"\"fmt\""}, expr: "fmt.Sprintf(\"%d\", 1)", x: scalar("string")},
		{name: "itoa", imports: []string{"\"strconv\""}, pre: "\tn, err := strconv.Atoi(\"1\")\n\t_ = err\n", expr: "n", x: scalar("int")},
		{name: "errtext", imports: []string{"\"errors\""}, pre: "\terr := errors.New(\"x\")\n", expr: "err.Error()", x: scalar("string")},
		{name: "rangevar", decls: st, pre: "\tvar q []T$N\n\tvar v T$N\n\tfor _, v = range q {\n\t}\n", expr: "v", x: x()},
		{name: "shadow", decls: st + "var v$N int\n", pre: "\tvar v$N T$N\n", expr: "v$N", x: x()},
		{name: "shadowtype", decls: st, pre: "\tvar v T$N\n\ttype T$N int\n\tvar w T$N\n\t_ = w\n", expr: "v", x: x()},
		{name: "shadownew", decls: st, pre: "\tnew := func() T$N { return T$N{} }\n", expr: "new()", x: x()},
		{name: "shadowlen", decls: st, pre: "\tlen := func(int) T$N { return T$N{} }\n", expr: "len(1)", x: x()},
		{name: "shadowmake", decls: st, pre: "\tmake := func(s string) T$N { return T$N{} }\n", expr: "make(\"a\")", x: x()},
		{name: "shadowstring", decls: st, pre: "\tstring := func(int) T$N { return T$N{} }\n", expr: "string(1)", x: x()},
		{name: "reassignedvar", decls: st, pre: "\tv := T$N{}\n\tv = T$N{A: 2}\n", expr: "v", x: x()},
		{name: "elided", decls: st, expr: "[]T$N{{A: 1}}[0]", x: x()},
		{name: "alias", decls: st + "type A$N = T$N\n", expr: "A$N{}", x: x()},
		{name: "aliasslice", decls: st + "type A$N = []T$N\n", expr: "A$N{}", x: core.Arr(x())},
		{name: "promoted", decls: st + "type I$N struct{ In T$N }\ntype O$N struct{ *I$N }\n", pre: "\tvar o O$N\n", expr: "o.In", x: x()},
		{name: "fieldchain", decls: st + "type I$N struct{ In T$N }\ntype O$N struct{ A []I$N }\n", pre: "\tvar o *O$N\n", expr: "o.A[0].In", x: x()},
		{name: "fieldofcall", decls: st + "type I$N struct{ In T$N }\nfunc mk$N() *I$N { return nil }\n", expr: "mk$N().In", x: x()},
		{name: "derefcall", decls: st + "func mk$N() *T$N { return nil }\n", expr: "*mk$N()", x: x()},
		{name: "pointerpointer", decls: st, pre: "\tv := &T$N{}\n", expr: "&v", x: x()},
		{name: "namedconst", decls: "type E$N string\nconst (\n\tE1$N E$N = \"a\"\n\tE2$N E$N = \"b\"\n)\n", expr: "E2$N", x: core.EnumOf(scalar("string"), "a", "b")},
		{name: "namedconversion", decls: "type E$N string\nconst (\n\tE1$N E$N = \"a\"\n\tE2$N E$N = \"b\"\n)\n", expr: "E$N(\"a\")", x: core.EnumOf(scalar("string"), "a", "b")},
		{name: "namedsum", decls: "type E$N int\nconst E1$N E$N = 1\n", expr: "E1$N + 1", x: core.EnumOf(scalar("int"), 1)},
		{name: "laterfunc", decls: st, expr: "mk$N()", x: x(), after: "func mk$N() T$N { return T$N{} }\n"},
		{name: "closurevar", decls: st, pre: "\tvar v T$N\n\tfunc() { v.A = 1 }()\n", expr: "v", x: x()},
		{name: "switchvar", decls: st, pre: "\tvar q any\n\tvar v T$N\n\tswitch w := q.(type) {\n\tcase T$N:\n\t\tv = w\n\tcase int:\n\t\t_ = w\n\t}\n", expr: "v", x: x()},
		{name: "wide", decls: wideDecl(33), expr: "Wide$N{}", x: wideX(33)},
	}
}

func wideDecl(n int) string {
	s := "type Wide$N struct {\n"
	for i := 0; i < n; i++ {
		s += pr("\tF%02d %s\n", i, core.ScalarNames[i%len(core.ScalarNames)])
	}
	return s + "}\n"
}

func wideX(n int) *X {
	props := map[string]*X{}
	for i := 0; i < n; i++ {
		props[pr("F%02d", i)] = scalar(core.ScalarNames[i%len(core.ScalarNames)])
	}
	return core.Obj(props)
}

type responder struct {
	name string
	ct   string
	val  bool // takes a value
	pat  string
}

var responders = []responder{
	{"JSON", "application/json", true, "\tc.JSON(%s, %s)\n"},
	{"XML", "application/xml", true, "\tc.XML(%s, %s)\n"},
	{"YAML", "application/yaml", true, "\tc.YAML(%s, %s)\n"},
	{"ProtoBuf", "application/protobuf", true, "\tc.ProtoBuf(%s, %s)\n"},
	{"AbortWithStatusJSON", "application/json", true, "\tc.AbortWithStatusJSON(%s, %s)\n"},
	{"Data", "text/csv", false, "\tc.Data(%s, \"text/csv\", []byte(\"x\"))\n"},
	{"String", "text/plain", false, "\tc.String(%s, \"x %%d\", 1)\n"},
	{"Status", "", false, "\tc.Status(%s)\n"},
	{"AbortWithStatus", "", false, "\tc.AbortWithStatus(%s)\n"},
	{"AbortWithError", "", false, "\tc.AbortWithError(%s, nil)\n"},
}

func (r responder) call(code, val string) string {
	if r.val {
		return pr(r.pat, code, val)
	}
	return pr(r.pat, code)
}

func (r responder) resp(code int, x *X) Resp {
	switch r.name {
	case "Data":
		x = core.Free()
	case "String":
		x = scalar("string")
	}
	return Resp{Status: code, CT: r.ct, X: x}
}

func c03Units(thorough bool) []Unit {
	var units []Unit
	n := 0
	codes, vals := codeForms(), valueForms()
	add := func(id string, imports []string, decls, body string, resps []Resp) {
		n++
		sfx := pr("R%04d", n)
		decls, after, _ := strings.Cut(decls, "//after\n")
		units = append(units, Unit{ID: id, Imports: imports, Src: sub(decls, sfx) + handler(sfx, body) + sub(after, sfx),
			Routes: []core.Route{{Method: "GET", Path: "/x", Func: "H" + sfx}}, Check: core.Is(core.Expect{Resp: resps})})
	}
	cat := func(a, b []string) []string { return append(append([]string{}, a...), b...) }
	// one response: every method with every form of the code, and with every form of the value
	for _, r := range responders {
		for _, c := range codes {
			for vi, v := range vals {
				full := thorough || r.name == "JSON"
				if vi > 0 && (!r.val || (!full && c.name != "lit" && vi > 0)) {
					continue
				}
				if !r.val {
					v = form{name: "-"}
				}
				if r.name == "ProtoBuf" && (v.name == "ginH" || v.name == "convslice" || v.name == "extconst" || v.name == "extconversion" || strings.HasPrefix(v.name, "named")) {
					continue // not a message
				}
				if r.ct != "application/json" && v.json {
					continue // the keys of the type are those of JSON only
				}
				if !thorough && r.name == "JSON" && vi > 0 && c.name != "lit" && c.name != "ext" && c.name != "localvar" && c.name != "http" {
					continue
				}
				add(pr("one/%s/%s/%s", r.name, c.name, v.name), cat(c.imports, v.imports), c.decls+v.decls+"//after\n"+c.after+v.after, c.pre+v.pre+r.call(c.expr, v.expr),
					[]Resp{r.resp(c.code, v.x)})
			}
		}
	}
	// formats with different keys
	for i, r := range responders[:3] {
		k := []string{"j", "x", "y"}[i]
		add("keys/"+r.name, nil, triDecl, r.call("200", "Tri$N{}"), []Resp{r.resp(200, obj(k+"a", scalar("string"), k+"b", scalar("int")))})
	}
	add("keys/all", nil, triDecl, responders[0].call("200", "Tri$N{}")+responders[1].call("200", "Tri$N{}")+responders[2].call("200", "Tri$N{}"), []Resp{
		{200, "application/json", obj("ja", scalar("string"), "jb", scalar("int"))},
		{200, "application/xml", obj("xa", scalar("string"), "xb", scalar("int"))},
		{200, "application/yaml", obj("ya", scalar("string"), "yb", scalar("int"))}})
	// two and three responses: every ordered pair of methods, equal and different codes, in every shape of control flow
	two := "func run$N(f func()) { f() }\ntype TA$N struct{ A int }\ntype TB$N struct{ B string }\n"
	xa, xb := obj("A", scalar("int")), obj("B", scalar("string"))
	shapes := []struct{ name, pat string }{
		{"seq", "%s%s"},
		{"if", "\tif c.IsAborted() {\n%s\treturn\n\t}\n%s"},
		{"else", "\tif c.IsAborted() {\n%s\t} else {\n%s\t}\n"},
		{"switch", "\tswitch {\n\tcase c.IsAborted():\n%s\tdefault:\n%s\t}\n"},
		{"loop", "\tfor i := 0; i < 3; i++ {\n%s\t}\n%s"},
		{"defer", "\tdefer func() {\n%s\t}()\n%s"},
		{"closure", "\tf := func() {\n%s\t}\n\tf()\n%s"},
		{"go", "\tgo func() {\n%s\t}()\n%s"},
		{"select", "\tselect {\n\tcase <-c.Done():\n%s\tdefault:\n%s\t}\n"},
		{"typeswitch", "\tswitch v := any(c).(type) {\n\tcase nil:\n\t\t_ = v\n%s\tdefault:\n%s\t}\n"},
		{"elseif", "\tif c.IsAborted() {\n\t} else if 1 > 2 {\n%s\t} else {\n%s\t}\n"},
		{"label", "retry:\n\tfor {\n%s\t\tif c.IsAborted() {\n\t\t\tcontinue retry\n\t\t}\n\t\tbreak\n\t}\n%s"},
		{"range", "\tfor range c.Errors {\n%s\t}\n%s"},
		{"fallthrough", "\tswitch 1 {\n\tcase 1:\n%s\t\tfallthrough\n\tcase 2:\n%s\t}\n"},
		{"literalargument", "\trun$N(func() {\n%s\t})\n%s"},
		{"literalfield", "\tv := struct{ f, g func() }{func() {\n%s\t}, func() {\n%s\t}}\n\tv.f()\n\tv.g()\n"},
		{"literalmap", "\tv := map[string]func(){\"a\": func() {\n%s\t}, \"b\": func() {\n%s\t}}\n\tv[\"a\"]()\n"},
		{"literalnested", "\tfunc() {\n\t\tdefer func() {\n%s\t\t}()\n%s\t}()\n"},
		{"afterreturn", "%s\treturn\n%s"},
		{"recover", "\tdefer func() {\n\t\tif err := recover(); err != nil {\n%s\t\t}\n\t}()\n%s"},
		{"goto", "\tif c.IsAborted() {\n\t\tgoto end\n\t}\n%send:\n%s"},
		{"block", "\t{\n%s\t}\n\t{\n\t\t{\n%s\t\t}\n\t}\n"},
		{"constantcond", "\tif false {\n%s\t}\n%s"},
		{"shadowedcontext", "\t{\n\t\tc := c\n%s\t}\n%s"},
		{"othercontext", "\tfunc(ctx *gin.Context) {\n\t\tc := ctx\n%s\t}(c)\n%s"},
	}
	for _, a := range responders {
		for _, b := range responders {
			for si, sh := range shapes {
				if !thorough && si > 2 && (a.name != "JSON" || b.name != "Status") && (a.name != "String" || b.name != "JSON") {
					continue
				}
				for _, same := range []bool{false, true} {
					if same && a.ct == b.ct && a.ct != "" {
						// one status and content type with two types is not defined; the same type is
						add(pr("two/%s/%s/%s/sametype", a.name, b.name, sh.name), nil, two, pr(sh.pat, a.call("200", "TA$N{}"), b.call("200", "TA$N{}")), []Resp{a.resp(200, xa)})
						continue
					}
					cb := "404"
					code := 404
					if same {
						cb, code = "200", 200
					}
					add(pr("two/%s/%s/%s/%s", a.name, b.name, sh.name, cb), nil, two, pr(sh.pat, a.call("200", "TA$N{}"), b.call(cb, "TB$N{}")), []Resp{a.resp(200, xa), b.resp(code, xb)})
				}
			}
		}
	}
	// many responses of one type under different codes (9, 17, 33)
	for _, k := range []int{3, 9, 17, 33} {
		body, resps := "", []Resp{}
		for i := 0; i < k; i++ {
			r := responders[i%len(responders)]
			body += r.call(pr("%d", 200+i), "TA$N{}")
			resps = append(resps, r.resp(200+i, xa))
		}
		add(pr("many/%d", k), nil, two, body, resps)
	}
	// the same type repeated after others (set semantics)
	for _, a := range responders[:2] {
		for _, b := range responders[:2] {
			add(pr("three/%s/%s", a.name, b.name), nil, two, a.call("200", "TA$N{}")+b.call("500", "TB$N{}")+a.call("200", "TA$N{}")+b.call("500", "TB$N{}"), []Resp{a.resp(200, xa), b.resp(500, xb)})
		}
	}
	return units
}

func init() {
	core.Register(&core.Check{
		ID:   "C03",
		Rule: "One case is one generated handler; every handler within the bounds is generated (method x form of the status x form of the value; pairs of calls in every control-flow shape), put through the real pipeline and compared with the reference model.",
		Run: func(w *core.W) error {
			return core.RunUnits(w, c03Units(w.Thorough()), support)
		},
		Assumptions: []string{"statuses and content types are constants or single-assignment variables", "one type per status and content type"},
	})
}
