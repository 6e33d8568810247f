package checks

import (
	"fmt"
	"reflect"
	"strings"

	"vh/core"
)

// odd is a piece of a handler that is unusual: declarations, statements and the imports of them.
type odd struct {
	id, decls, body string
	imports         []string
	also            func(r *core.Result, op map[string]any) error // what else has to be documented
}

type oddType struct {
	id, decls, expr string
	imports         []string
}

func c20Types() []oddType {
	t := func(id, decls, expr string, imports ...string) oddType { return oddType{id, decls, expr, imports} }
	return []oddType{
		t("func", "", "func(int) error"),
		t("namedfunc", "type F$N func(F$N) F$N\n", "F$N"),
		t("chan", "", "chan int"),
		t("recvchan", "", "<-chan map[string][]int"),
		t("namedchan", "type C$N chan C$N\n", "C$N"),
		t("pointer", "", "unsafe.Pointer", `"unsafe"`),
		t("uintptr", "", "uintptr"),
		t("complex", "", "complex128"),
		t("namedcomplex", "type Z$N complex64\nconst ZA$N Z$N = 1i\n", "Z$N"),
		t("any", "", "any"),
		t("error", "", "error"),
		t("iface", "type I$N interface{ M() I$N }\n", "I$N"),
		t("anoniface", "", "interface{ M(int) string }"),
		t("emptystruct", "", "struct{}"),
		t("anonstruct", "", "struct{ A int; B struct{ C []struct{ D string } } }"),
		t("selfslice", "type R$N []R$N\n", "R$N"),
		t("selfmap", "type R$N map[string]R$N\n", "R$N"),
		t("selfptr", "type R$N *R$N\n", "R$N"),
		t("selfarray", "type R$N [2]*R$N\n", "R$N"),
		t("mutualslice", "type R$N []Q$N\ntype Q$N map[string]R$N\n", "R$N"),
		t("selfstruct", "type R$N struct { A *R$N; B []R$N; C map[string]R$N; D [2]*R$N; E func(R$N) }\n", "R$N"),
		t("selfembed", "type R$N struct { *R$N; A int }\n", "R$N"),
		t("mutualembed", "type R$N struct { *Q$N; A int }\ntype Q$N struct { *R$N; B int }\n", "R$N"),
		t("embediface", "type I$N interface{ M() }\ntype R$N struct { I$N; error; fmt.Stringer; A int }\n", "R$N", `"fmt"`),
		t("embedbasic", "type R$N struct { int; string; *bool }\n", "R$N"),
		t("embedmap", "type M$N map[string]int\ntype R$N struct { M$N; A int }\n", "R$N"),
		t("embedgeneric", "type B$N[T any] struct { V T }\ntype R$N struct { B$N[int]; *B$NX[string] }\ntype B$NX[T any] struct { W T }\n", "R$N"),
		t("embedalias", "type Q$N struct { A int }\ntype S$NA = Q$N\ntype R$N struct { S$NA }\n", "R$N"),
		t("embedctx", "type R$N struct { *gin.Context; A int }\n", "R$N"),
		t("generic", "type G$N[T any] struct { V T; P *T; S []T; M map[string]T }\n", "G$N[int]"),
		t("generic2", "type G$N[K comparable, V any] struct { M map[K]V }\n", "G$N[string, []float64]"),
		t("genericself", "type G$N[T any] struct { V T; Next *G$N[T] }\n", "G$N[string]"),
		t("genericnested", "type G$N[T any] struct { V T }\n", "G$N[G$N[map[string]G$N[int]]]"),
		t("genericslice", "type G$N[T any] []T\n", "G$N[int]"),
		t("genericmap", "type G$N[T any] map[string]T\n", "G$N[struct{ A int }]"),
		t("genericfunc", "type G$N[T any] func(T) T\n", "G$N[int]"),
		t("genericconstraint", "type Num$N interface{ ~int | ~float64 }\ntype G$N[T Num$N] struct { V T }\n", "G$N[int]"),
		t("crtp", "type G$N[T any] struct { V *T }\ntype R$N struct { G$N[R$N] }\n", "R$N"),
		t("alias", "type A$N = struct { A int }\n", "A$N"),
		t("aliasalias", "type A$N = []int\ntype B$N = A$N\ntype C$N = map[string]B$N\n", "C$N"),
		t("aliasany", "type A$N = any\n", "A$N"),
		t("aliasptr", "type A$N = *Q$N\ntype Q$N struct { B A$N }\n", "A$N"),
		t("structkey", "type K$N struct { A, B int }\n", "map[K$N]string"),
		t("anykey", "", "map[any]any"),
		t("arraykey", "", "map[[2]int][][][]string"),
		t("zeroarray", "", "[0]int"),
		t("constarray", "const L$N = 1 << 3\n", "[L$N + len(\"ab\")]string"),
		t("bigarray", "", "[1 << 40]struct{}"),
		t("ptrs", "", "*****int"),
		t("ptrptrstruct", "type R$N struct { A **R$N; B ***int }\n", "**R$N"),
		t("time", "", "time.Time", `"time"`),
		t("duration", "", "time.Duration", `"time"`),
		t("rawjson", "", "json.RawMessage", `"encoding/json"`),
		t("number", "", "json.Number", `"encoding/json"`),
		t("bigint", "", "big.Int", `"math/big"`),
		t("url", "", "url.URL", `"net/url"`),
		t("header", "", "http.Header", `"net/http"`),
		t("mutex", "", "*sync.Mutex", `"sync"`),
		t("file", "", "*multipart.FileHeader", `"mime/multipart"`),
		t("weekday", "", "time.Weekday", `"time"`),
		t("ctx", "", "context.Context", `"context"`),
		t("reflecttype", "", "reflect.Type", `"reflect"`),
		t("filemode", "", "fs.FileMode", `"io/fs"`),
		t("atomic", "", "*atomic.Pointer[int]", `"sync/atomic"`),
		t("blank", "type R$N struct { _ int; _ [0]func(); A int }\n", "R$N"),
		t("badtags", "type R$N struct { A int `json`; B int `json:`; C int `json:\"c`; D int `json:\"\"`; E int `json:\",\"`; F int `:`; G int `json:\"g\\u0000\"`; H int ` json:\"h\"  xml:\"x\"y`; I int `json:\"i\" json:\"j\"` }\n", "R$N"),
		t("oddtags", "type R$N struct { A int \"json:\\\"a\\nb\\\"\"; B int `json:\"b c\"`; C int `json:\"日本\"`; D int `json:\"a/b~c\"`; E int `form:\"{x}\" json:\"$ref\" binding:\"required,oneof=1 2,,\"` }\n", "R$N"),
		t("bindtags", "type R$N struct { A int `json:\"a\" binding:\"\"`; B string `json:\"b\" binding:\"required_with=A,dive,keys,max=,endkeys\"`; C []string `json:\"c\" validate:\"omitempty,,dive,required\"`; D int `binding:\"-\"`; E int `json:\"e\" binding:\"gte=x,min=-\"` }\n", "R$N"),
		t("samejson", "type R$N struct { A int `json:\"x\"`; B string `json:\"x\"`; X bool `json:\"X\"` }\n", "R$N"),
		t("unexported", "type r$N struct { a int; b *r$N }\n", "r$N"),
		t("unicode", "type Ünïcode$N struct { Größe int; 世界 string }\n", "Ünïcode$N"),
		t("longname", "type R$N"+strings.Repeat("x", 300)+" struct { A int }\n", "R$N"+strings.Repeat("x", 300)),
		t("marshaler", "type R$N struct { A int }\nfunc (R$N) MarshalJSON() ([]byte, error) { return nil, nil }\n", "R$N"),
		t("enumiota", "type E$N int\nconst (\n\tEA$N E$N = iota\n\tEB$N\n\t_\n\tEC$N\n)\n", "E$N"),
		t("enumodd", "type E$N float64\nconst (\n\tEA$N E$N = 1 << 3\n\tEB$N = EA$N * 2\n\tEC$N = E$N('x')\n\tED$N E$N = 0x1p-2\n)\n", "E$N"),
		t("enumbool", "type E$N bool\nconst EA$N E$N = true\nconst EB$N = !EA$N\n", "E$N"),
		t("enumstring", "type E$N string\nconst (\n\tEA$N E$N = \"a\" + \"b\"\n\tEB$N E$N = `q\"`\n\tEC$N = E$N(\"\\x00\\xff\")\n\tED$N E$N = \"\"\n)\n", "E$N"),
		t("enumrune", "type E$N rune\nconst EA$N E$N = 'a'\nconst EB$N E$N = '\\n'\n", "E$N"),
		t("enumuint", "type E$N uint64\nconst EA$N E$N = 1<<64 - 1\nconst EB$N E$N = 18446744073709551615\n", "E$N"),
		t("enumlocal", "type E$N int\nfunc fe$N() { const EA$N E$N = 1; _ = EA$N }\n", "E$N"),
		t("shadowint", "type int$N = int8\ntype R$N struct { A int$N }\n", "R$N"),
		t("deep", deepTypes(40), "T0x$N"),
	}
}

func deepTypes(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += pr("type T%dx$N struct { A T%dx$N; B []T%dx$N }\n", i, i+1, i+1)
	}
	return s + pr("type T%dx$N struct { Z int }\n", n)
}

// hasG checks that the property g of a struct with an odd field is there.
func hasG(status int) func(r *core.Result, op map[string]any) error {
	return func(r *core.Result, op map[string]any) error {
		resps, _ := op["responses"].(map[string]any)
		resp, _ := resps[fmt.Sprint(status)].(map[string]any)
		content, _ := resp["content"].(map[string]any)
		ct, _ := content["application/json"].(map[string]any)
		schema, _ := ct["schema"].(map[string]any)
		return propG(r, schema)
	}
}

func propG(r *core.Result, schema map[string]any) error {
	if ref, ok := schema["$ref"].(string); ok {
		schema, _ = r.Doc.Schemas()[strings.TrimPrefix(ref, "#/components/schemas/")].(map[string]any)
	}
	props, _ := schema["properties"].(map[string]any)
	if !reflect.DeepEqual(props["g"], map[string]any{"type": "boolean"}) {
		return fmt.Errorf("the field next to it is documented as %v, in %v", props["g"], schema)
	}
	return nil
}

func bodyG(r *core.Result, op map[string]any) error {
	body, _ := op["requestBody"].(map[string]any)
	content, _ := body["content"].(map[string]any)
	ct, _ := content["application/json"].(map[string]any)
	schema, _ := ct["schema"].(map[string]any)
	return propG(r, schema)
}

func queryG(r *core.Result, op map[string]any) error {
	params, _ := op["parameters"].([]any)
	for _, p := range params {
		if p, _ := p.(map[string]any); p["name"] == "g" {
			return nil
		}
	}
	return fmt.Errorf("the field next to it is not documented, in %v", params)
}

func c20Odds(thorough bool) []odd {
	var odds []odd
	for _, t := range c20Types() {
		use := func(id, decls, body string, also func(r *core.Result, op map[string]any) error) {
			odds = append(odds, odd{"type/" + t.id + "/" + id, t.decls + strings.ReplaceAll(decls, "$T", t.expr), strings.ReplaceAll(body, "$T", t.expr), t.imports, also})
		}
		s := "type S$N struct {\n\tF $T `json:\"f\" form:\"f\"`\n\tG bool `json:\"g\" form:\"g\"`\n}\n"
		use("value", "", "\tvar x $T\n\tc.JSON(203, x)\n", nil)
		use("pointer", "", "\tvar x $T\n\tc.XML(203, &x)\n", nil)
		use("slice", "", "\tc.JSON(203, []$T{})\n", nil)
		use("map", "", "\tc.JSON(203, map[string]$T{})\n", nil)
		use("field", s, "\tc.JSON(203, S$N{})\n", hasG(203))
		use("bindjson", "", "\tvar x $T\n\t_ = c.ShouldBindJSON(&x)\n", nil)
		use("bindfield", s, "\tvar x S$N\n\t_ = c.ShouldBindJSON(&x)\n", bodyG)
		use("queryfield", s, "\tvar x S$N\n\t_ = c.ShouldBindQuery(&x)\n", queryG)
		use("result", "func get$N() (r $T, err error) { return }\n", "\tx, _ := get$N()\n\tc.JSON(203, x)\n", nil)
		if thorough {
			use("call", "func get$N() (r $T) { return }\n", "\tc.JSON(203, get$N())\n", nil)
			use("index", "", "\tvar x []$T\n\tc.JSON(203, x[0])\n", nil)
			use("pkgvar", "var v$N struct { F map[string][]$T }\n", "\tc.JSON(203, v$N.F[\"a\"][0])\n", nil)
			use("ginh", "", "\tvar x $T\n\tc.JSON(203, gin.H{\"a\": x})\n", nil)
			use("query", "", "\tvar x $T\n\t_ = c.ShouldBindQuery(&x)\n", nil)
			use("generic", "type W$N[E any] struct {\n\tF E `json:\"f\"`\n\tG bool `json:\"g\"`\n}\n", "\tc.JSON(203, W$N[$T]{})\n", hasG(203))
			use("anonfield", "", "\tc.JSON(203, struct {\n\t\tF $T\n\t}{})\n", nil)
			use("array", s, "\tvar x [3]*S$N\n\tc.JSON(203, x)\n", nil)
			use("conv", "", "\tvar x $T\n\tc.JSON(203, any(x))\n", nil)
			use("local", "", "\ttype Lo$N struct {\n\t\tF $T\n\t}\n\tc.JSON(203, Lo$N{})\n", nil)
			use("param", "func do$N(c *gin.Context, x $T) { c.JSON(203, x) }\n", "\tvar x $T\n\tdo$N(c, x)\n", nil)
			use("form", s, "\tvar x S$N\n\t_ = c.Bind(&x)\n", nil)
			use("header", s, "\tvar x S$N\n\t_ = c.ShouldBindHeader(&x)\n", nil)
		}
	}
	st := func(id, decls, body string, imports ...string) {
		odds = append(odds, odd{id: id, decls: decls, body: body, imports: imports})
	}
	// expressions where a string, a status or a value is expected
	strs := []oddType{
		{"concat", "const K$N = \"k\"\n", "K$N + \"x\"", nil}, {"call", "func k$N() string { return \"\" }\n", "k$N()", nil}, {"sprintf", "", "fmt.Sprintf(\"%d\", 1)", []string{`"fmt"`}},
		{"index", "var ks$N []string\n", "ks$N[0]", nil}, {"mapindex", "var ks$N map[string]map[int]string\n", "ks$N[\"a\"][0]", nil}, {"slice", "", "\"abc\"[1:2]", nil}, {"conv", "type s$N string\nvar v$N s$N\n", "string(v$N)", nil},
		{"bytes", "", "string([]byte{1, 2})", nil}, {"assert", "var a$N any\n", "a$N.(string)", nil}, {"deref", "var p$N *string\n", "*p$N", nil}, {"field", "var v$N struct{ A struct{ B string } }\n", "v$N.A.B", nil},
		{"method", "type m$N struct{}\nfunc (m$N) S() string { return \"\" }\n", "m$N{}.S()", nil}, {"chain", "type m$N struct{}\nfunc (m m$N) N() m$N { return m }\nfunc (m$N) S() string { return \"\" }\n", "m$N{}.N().N().S()", nil},
		{"methodexpr", "type m$N struct{}\nfunc (m$N) S() string { return \"\" }\n", "m$N.S(m$N{})", nil}, {"closure", "", "func() string { return \"\" }()", nil}, {"generic", "func id$N[T any](t T) T { return t }\n", "id$N(\"a\")", nil},
		{"genericinst", "func id$N[T any](t T) T { return t }\n", "id$N[string](\"a\")", nil}, {"receive", "var ch$N chan string\n", "<-ch$N", nil}, {"paren", "", "((\"a\"))", nil}, {"lit", "", "[]string{\"a\"}[0]", nil}, {"maplit", "", "map[string]string{\"a\": \"b\"}[\"a\"]", nil},
		{"structlit", "", "struct{ A string }{\"a\"}.A", nil}, {"ptrlit", "type q$N struct{ A string }\n", "(&q$N{}).A", nil}, {"ctx", "", "c.FullPath()", nil}, {"ctxchain", "", "c.Request.URL.Query().Get(\"z\")", nil}, {"env", "", "os.Getenv(\"x\")", []string{`"os"`}},
		{"rune", "", "string(rune(65))", nil}, {"max", "", "max(\"a\", \"b\")", nil}, {"embedded", "type e$N struct{ A string }\ntype f$N struct{ e$N }\nvar v$N f$N\n", "v$N.A", nil}, {"pkgfunc", "var fn$N = func() string { return \"\" }\n", "fn$N()", nil},
		{"raw", "", "`a\n\"b`", nil}, {"empty", "", "\"\"", nil}, {"nul", "", "\"\\x00\\xff\\u2028\"", nil}, {"long", "", "\"" + strings.Repeat("x", 5000) + "\"", nil}, {"self", "var v$N = w$N\nvar w$N string\n", "v$N", nil},
		{"constiota", "const (\n\tka$N = \"a\"\n\tkb$N\n)\n", "kb$N", nil}, {"multivar", "var va$N, vb$N = \"a\", \"b\"\n", "vb$N", nil}, {"tuplevar", "func two$N() (int, string) { return 0, \"\" }\nvar _, vb$N = two$N()\n", "vb$N", nil}, {"generictype", "type gt$N[T any] struct{ V T }\n", "gt$N[string]{}.V", nil},
	}
	for _, s := range strs {
		for _, call := range [][2]string{{"query", "\t_ = c.Query($E)\n"}, {"default", "\t_ = c.DefaultQuery(\"dq\", $E)\n"}, {"header", "\tc.Header($E, $E)\n"}, {"getheader", "\t_ = c.GetHeader($E)\n"}, {"postform", "\t_ = c.PostForm($E)\n"}, {"value", "\tc.JSON(203, $E)\n"}, {"string", "\tc.String(203, $E)\n"}, {"data", "\tc.Data(203, $E, nil)\n"}, {"arg", "\toddArg$N(c, $E)\n"}, {"local", "\tv := $E\n\tc.JSON(203, v)\n\t_ = c.Query(v)\n"}, {"status", "\tc.Status(len($E))\n"}, {"cookie", "\t_, _ = c.Cookie($E)\n"}, {"file", "\t_, _ = c.FormFile($E)\n"}} {
			if !thorough && strings.Contains(" default cookie file data ", " "+call[0]+" ") {
				continue
			}
			decls := s.decls
			if call[0] == "arg" {
				decls += "func oddArg$N(c *gin.Context, s string) { c.JSON(203, s); _ = c.Query(s) }\n"
			}
			st("string/"+s.id+"/"+call[0], decls, strings.ReplaceAll(call[1], "$E", s.expr), s.imports...)
		}
	}
	ints := []oddType{
		{"arith", "", "200 + 3", nil}, {"const", "const K$N = 100 * 2\n", "K$N | 3", nil}, {"call", "func k$N() int { return 0 }\n", "k$N()", nil}, {"tuple", "var ks$N []int\n", "ks$N[len(ks$N)-1]", nil}, {"conv", "", "int(203.0)", nil}, {"named", "type n$N int\nconst K$N n$N = 203\n", "int(K$N)", nil},
		{"neg", "", "-203", nil}, {"hex", "", "0xcb", nil}, {"rune", "", "'\\xcb'", nil}, {"big", "", "1 << 40", nil}, {"zero", "", "0", nil}, {"unary", "", "+203", nil}, {"xor", "", "^0", nil}, {"closure", "", "func() int { return 203 }()", nil}, {"field", "var v$N struct{ A int }\n", "v$N.A", nil},
		{"deref", "var p$N *int\n", "*p$N", nil}, {"map", "", "map[bool]int{true: 203}[true]", nil}, {"writer", "", "c.Writer.Status()", nil}, {"iota", "const (\n\tia$N = iota + 200\n\tib$N\n)\n", "ib$N", nil}, {"var", "var vi$N = 203\n", "vi$N", nil}, {"assert", "var a$N any\n", "a$N.(int)", nil},
		{"method", "type m$N struct{}\nfunc (m$N) S() int { return 203 }\n", "m$N{}.S()", nil}, {"err", "type e$N struct{ error }\nfunc (e$N) Code() int { return 0 }\nvar er$N error\n", "er$N.(interface{ Code() int }).Code()", nil}, {"min", "", "min(203, 204)", nil}, {"floatconst", "const K$N = 203.0\n", "K$N", nil}, {"generic", "func id$N[T any](t T) T { return t }\n", "id$N(203)", nil},
	}
	for _, s := range ints {
		for _, call := range [][2]string{{"status", "\tc.Status($E)\n"}, {"json", "\tc.JSON($E, 1)\n"}, {"abort", "\tc.AbortWithStatusJSON($E, gin.H{})\n"}, {"data", "\tc.Data($E, \"text/plain\", nil)\n"}, {"redirect", "\tc.Redirect($E, \"/\")\n"}, {"local", "\tv := $E\n\tc.Status(int(v))\n"}, {"arg", "\toddArg$N(c, $E)\n"}, {"value", "\tc.JSON(203, $E)\n"}} {
			if !thorough && strings.Contains(" data redirect ", " "+call[0]+" ") {
				continue
			}
			decls := s.decls
			if call[0] == "arg" {
				decls += "func oddArg$N(c *gin.Context, n int) { c.Status(n) }\n"
			}
			st("int/"+s.id+"/"+call[0], decls, strings.ReplaceAll(call[1], "$E", s.expr), s.imports...)
		}
	}
	vals := []oddType{
		{"nil", "", "nil", nil}, {"bool", "", "1 < 2", nil}, {"not", "", "!c.IsAborted()", nil}, {"func", "", "func(c *gin.Context) { c.Status(1) }", nil}, {"funcname", "func fn$N() {}\n", "fn$N", nil}, {"methodvalue", "", "c.JSON", nil}, {"methodexpr", "", "(*gin.Context).JSON", nil}, {"ctx", "", "c", nil}, {"addr", "", "&gin.H{}", nil},
		{"make", "", "make([]int, 3)", nil}, {"makemap", "", "make(map[string][]gin.H)", nil}, {"makechan", "", "make(chan int)", nil}, {"new", "", "new(struct{ A int })", nil}, {"append", "", "append([]int{}, 1, 2)", nil}, {"len", "", "len(\"a\")", nil}, {"cap", "", "cap([]int{})", nil}, {"complex", "", "complex(1, 2)", nil}, {"real", "", "real(1i)", nil},
		{"imag", "", "3i", nil}, {"float", "", "1e400 / 1e399", nil}, {"bigint", "", "uint64(1<<64 - 1)", nil}, {"rune", "", "'x'", nil}, {"errors", "", "errors.New(\"x\")", []string{`"errors"`}}, {"slicelit", "", "[]any{1, \"a\", nil, []any{}}", nil}, {"nested", "", "map[string]any{\"a\": map[string]any{\"b\": []gin.H{{}}}}", nil}, {"arraylit", "", "[...]string{2: \"a\"}", nil},
		{"elided", "type e$N struct{ A int }\n", "[]*e$N{{1}, {A: 2}}", nil}, {"elidedmap", "type e$N struct{ A int }\n", "map[e$N]*e$N{{1}: {2}}", nil}, {"slice3", "var s$N []int\n", "s$N[1:2:3]", nil}, {"slicearr", "var s$N [4]string\n", "s$N[:]", nil}, {"slicestr", "", "\"abc\"[1]", nil}, {"star", "var s$N ***[]int\n", "***s$N", nil}, {"receive", "var s$N chan struct{ A int }\n", "<-s$N", nil},
		{"assertstruct", "type e$N struct{ A int }\nvar s$N any\n", "s$N.(*e$N)", nil}, {"assertanon", "var s$N any\n", "s$N.(struct{ A int })", nil}, {"convfunc", "", "(func())(nil)", nil}, {"convptr", "type e$N struct{ A int }\n", "(*e$N)(nil)", nil}, {"convslice", "", "[]byte(\"a\")", nil}, {"convarr", "", "[1]byte([]byte{1})", nil}, {"generic", "func id$N[T any](t T) T { return t }\n", "id$N(id$N(gin.H{}))", nil},
		{"genericptr", "func p$N[T any](t T) *T { return &t }\n", "p$N(p$N([]int{}))", nil}, {"genericmethod", "type g$N[T any] struct{ v T }\nfunc (g g$N[T]) Get() T { return g.v }\n", "g$N[[]string]{}.Get()", nil}, {"genericmulti", "func m$N[T, U any](t []T, f func(T) U) []U { return nil }\n", "m$N([]int{}, func(i int) string { return \"\" })", nil}, {"variadic", "func v$N(a ...int) []int { return a }\n", "v$N([]int{1}...)", nil},
		{"recfunc", "func r$N() []any { return []any{r$N()} }\n", "r$N()", nil}, {"deepcall", "func f$N() func() func() gin.H { return nil }\n", "f$N()()()", nil}, {"funcmap", "var f$N map[string]func() gin.H\n", "f$N[\"a\"]()", nil}, {"funcfield", "var f$N struct{ F func() gin.H }\n", "f$N.F()", nil}, {"ifacemethod", "var f$N interface{ M() gin.H }\n", "f$N.M()", nil}, {"embeddedmethod", "type e$N struct{}\nfunc (*e$N) M() gin.H { return nil }\ntype f$N struct{ *e$N }\n", "f$N{}.M()", nil},
		{"std", "", "strings.Split(\"a\", \"b\")", []string{`"strings"`}}, {"stdstruct", "", "time.Now().Add(time.Second)", []string{`"time"`}}, {"stdgeneric", "", "slices.Clone([]int{1})", []string{`"slices"`}}, {"stdvar", "", "http.DefaultClient", []string{`"net/http"`}}, {"stdconst", "", "math.MaxInt64", []string{`"math"`}}, {"unsafe", "", "unsafe.Sizeof(1)", []string{`"unsafe"`}}, {"request", "", "c.Request", nil}, {"keys", "", "c.Keys", nil}, {"params", "", "c.Params", nil}, {"mustget", "", "c.MustGet(\"x\")", nil}, {"errs", "", "c.Errors", nil},
		{"selfvar", "type sv$N struct{ N *sv$N }\nvar s$N = &sv$N{s$NB()}\nfunc s$NB() *sv$N { return nil }\n", "s$N.N.N.N", nil}, {"anonembedded", "", "struct{ *gin.Context }{c}", nil}, {"xmlname", "type x$N struct { XMLName struct{} `xml:\"x\"`; A int `xml:\"a,attr\"` }\n", "x$N{}", nil},
	}
	for _, s := range vals {
		for _, call := range [][2]string{{"json", "\tc.JSON(203, $E)\n"}, {"xml", "\tc.XML(203, $E)\n"}, {"yaml", "\tc.YAML(203, $E)\n"}, {"any", "\tvar v any = $E\n\tc.JSON(203, v)\n"}, {"ginh", "\tc.JSON(203, gin.H{\"a\": $E})\n"}, {"set", "\tc.Set(\"x\", $E)\n"}, {"bind", "\t_ = c.ShouldBindJSON($E)\n"}, {"bindquery", "\t_ = c.ShouldBindQuery($E)\n"}, {"arg", "\toddArg$N(c, $E)\n"}, {"variadic", "\tc.String(203, \"%v\", $E)\n"}} {
			if !thorough && strings.Contains(" yaml any bindquery variadic ", " "+call[0]+" ") {
				continue
			}
			decls := s.decls
			if call[0] == "arg" {
				decls += "func oddArg$N(c *gin.Context, v any) { c.JSON(203, v); _ = c.ShouldBindJSON(v) }\n"
			}
			st("value/"+s.id+"/"+call[0], decls, strings.ReplaceAll(call[1], "$E", s.expr), s.imports...)
		}
	}
	// statements and forms of calls
	st("stmt/nothing", "", "\t_ = c\n")
	st("stmt/inputsonly", "", "\t_ = c.Query(\"a\")\n")
	st("stmt/unfollowed", "", "\tfm := map[string]func(*gin.Context){}\n\tfm[\"a\"](c)\n")
	st("stmt/goto", "", "\ti := 0\nL$N:\n\ti++\n\tif i < 3 {\n\t\tgoto L$N\n\t}\n\tc.Status(203)\n")
	st("stmt/labels", "", "outer$N:\n\tfor {\n\t\tfor range []int{} {\n\t\t\tc.Status(203)\n\t\t\tcontinue outer$N\n\t\t}\n\t\tbreak outer$N\n\t}\n")
	st("stmt/select", "", "\tch := make(chan int)\n\tselect {\n\tcase v := <-ch:\n\t\tc.JSON(203, v)\n\tcase ch <- 1:\n\tdefault:\n\t\tc.Status(204)\n\t}\n")
	st("stmt/typeswitch", "", "\tswitch v := c.MustGet(\"a\").(type) {\n\tcase int, string:\n\t\tc.JSON(203, v)\n\tcase error:\n\t\tc.JSON(204, v)\n\tcase nil:\n\tcase func():\n\t\tv()\n\tcase []gin.H:\n\t\tc.JSON(205, v[0])\n\t}\n")
	st("stmt/rangemap", "", "\tfor k, v := range map[string][]int{} {\n\t\tc.JSON(203, v)\n\t\t_ = c.Query(k)\n\t}\n")
	st("stmt/rangechan", "", "\tfor v := range make(chan gin.H) {\n\t\tc.JSON(203, v)\n\t}\n")
	st("stmt/rangestring", "", "\tfor i, r := range \"abc\" {\n\t\tc.JSON(203, r)\n\t\tc.Status(i)\n\t}\n")
	st("stmt/recover", "", "\tdefer func() {\n\t\tif r := recover(); r != nil {\n\t\t\tc.JSON(203, r)\n\t\t}\n\t}()\n\tpanic(c)\n")
	st("stmt/deferresult", "", "\tdefer func(d *gin.Context) { d.Status(203) }(c)\n")
	st("stmt/goroutine", "", "\tgo func() { c.Copy().JSON(203, 1) }()\n")
	st("stmt/shadow", "", "\tif c := 1; c > 0 {\n\t\t_ = c\n\t}\n")
	st("stmt/shadowstruct", "", "\tfunc() {\n\t\tvar c struct{ JSON func(int, any) }\n\t\tc.JSON(203, 1)\n\t}()\n")
	st("stmt/reassign", "", "\td := c\n\td.JSON(203, 1)\n\tc = d.Copy()\n")
	st("stmt/methodvalue", "", "\tf := c.JSON\n\tf(203, 1)\n")
	st("stmt/methodexpr", "", "\t(*gin.Context).JSON(c, 203, 1)\n")
	st("stmt/paren", "", "\t(c).JSON(203, 1)\n\t(c.JSON)(203, 1)\n\t(*c).Status(204)\n\t(&*c).Status(205)\n")
	st("stmt/funcmap", "var fm$N = map[string]func(*gin.Context){}\n", "\tfm$N[\"a\"](c)\n")
	st("stmt/funcslice", "var fs$N []func(*gin.Context)\n", "\tfs$N[0](c)\n")
	st("stmt/funcfield", "var ff$N struct{ F func(*gin.Context) }\n", "\tff$N.F(c)\n")
	st("stmt/funcvar", "var fv$N = func(c *gin.Context) { c.Status(203) }\n", "\tfv$N(c)\n")
	st("stmt/funcparam", "func hp$N(f func(*gin.Context), c *gin.Context) { f(c) }\n", "\thp$N(func(c *gin.Context) { c.Status(203) }, c)\n")
	st("stmt/iface", "type If$N interface{ Do(*gin.Context) }\nvar iv$N If$N\n", "\tiv$N.Do(c)\n")
	st("stmt/method", "type M$N struct{}\nfunc (m *M$N) Do(c *gin.Context) { c.Status(203); m.Do(c) }\n", "\tm := &M$N{}\n\tm.Do(c)\n")
	st("stmt/embeddedmethod", "type M$N struct{}\nfunc (m M$N) Do(c *gin.Context) { c.Status(203) }\ntype E$N struct{ M$N }\n", "\tE$N{}.Do(c)\n")
	st("stmt/genericmethod", "type M$N[T any] struct{}\nfunc (m M$N[T]) Do(c *gin.Context, t T) { c.JSON(203, t) }\n", "\tM$N[[]int]{}.Do(c, nil)\n")
	st("stmt/generichelper", "func gh$N[T any](c *gin.Context) { var t T; c.JSON(203, t); _ = c.ShouldBindJSON(&t) }\n", "\tgh$N[map[string]int](c)\n")
	st("stmt/genericfield", "type GF$N[T any] struct { A T }\nfunc gh$N[T any](c *gin.Context) { c.JSON(203, GF$N[T]{}) }\n", "\tgh$N[string](c)\n")
	st("stmt/returnsfunc", "func rf$N(c *gin.Context) func(*gin.Context) { return rf$N(c) }\n", "\trf$N(c)(c)\n")
	st("stmt/variadicctx", "func vc$N(cs ...*gin.Context) { cs[0].Status(203) }\n", "\tvc$N(c, c)\n")
	st("stmt/twoctx", "func tc$N(a, b *gin.Context) { a.Status(203); b.Status(204) }\n", "\ttc$N(c, c)\n")
	st("stmt/blankctx", "func bc$N(_ *gin.Context) {}\n", "\tbc$N(c)\n")
	st("stmt/unnamedctx", "func bc$N(*gin.Context) {}\n", "\tbc$N(c)\n")
	st("stmt/ifacectx", "func ic$N(c context.Context) {}\n", "\tic$N(c)\n", `"context"`)
	st("stmt/anyctx", "func ic$N(c any) { c.(*gin.Context).Status(203) }\n", "\tic$N(c)\n")
	st("stmt/writer", "func ic$N(w http.ResponseWriter, r *http.Request) { w.WriteHeader(203) }\n", "\tic$N(c.Writer, c.Request)\n", `"net/http"`)
	st("stmt/stdhelper", "", "\thttp.Error(c.Writer, \"a\", 203)\n\thttp.NotFound(c.Writer, c.Request)\n", `"net/http"`)
	st("stmt/ginhelper", "", "\tgin.WrapF(nil)(c)\n\tgin.Logger()(c)\n\tgin.BasicAuth(nil)(c)\n")
	st("stmt/closurerec", "", "\tvar f func(int)\n\tf = func(i int) {\n\t\tc.JSON(203, i)\n\t\tf(i - 1)\n\t}\n\tf(3)\n")
	st("stmt/helperrec", "func hr$N(c *gin.Context, n int) { c.Status(203); hr$N(c, n-1); hr$N(c, n-2) }\n", "\thr$N(c, 3)\n")
	st("stmt/helpermutual", "func ha$N(c *gin.Context) { hb$N(c); hc$N(c) }\nfunc hb$N(c *gin.Context) { ha$N(c); hc$N(c); c.Status(203) }\nfunc hc$N(c *gin.Context) { ha$N(c); hb$N(c) }\n", "\tha$N(c)\n")
	st("stmt/selfcall", "", "\tif c.IsAborted() {\n\t\tH$N(c)\n\t}\n\tc.Status(203)\n")
	st("stmt/embedctx", "type X$N struct{ *gin.Context }\nfunc (x X$N) OK(v any) { x.JSON(203, v) }\n", "\tx := X$N{c}\n\tx.OK(1)\n\tx.JSON(204, x)\n")
	st("stmt/sub", "", "\tc.Request.Header.Get(\"a\")\n\tc.Request.URL.Query().Get(\"b\")\n\tc.Writer.Header().Set(\"a\", \"b\")\n\tc.Writer.WriteString(\"x\")\n\tc.Errors.JSON()\n")
	st("stmt/localtypes", "", "\ttype a struct{ X *a }\n\ttype b = []a\n\ttype d[T any] struct{ V T }\n\tc.JSON(203, d[b]{})\n\tc.JSON(204, a{})\n")
	st("stmt/localconst", "", "\tconst (\n\t\ta = iota + 203\n\t\tb\n\t)\n\tc.Status(b)\n\tc.Status(a)\n")
	st("stmt/empty", "", "\t;\n\t{\n\t}\n\tif true {\n\t}\n\tswitch {\n\t}\n\tfor false {\n\t}\n\tselect {\n\tdefault:\n\t}\n")
	st("stmt/builtins", "", "\tm := map[string]int{}\n\tdelete(m, \"a\")\n\tclear(m)\n\tprintln(len(m), min(1, 2))\n\tcopy([]int{}, []int{})\n\tc.JSON(203, m)\n")
	st("stmt/multiassign", "func ma$N() (a int, b string, d []gin.H, err error) { return }\n", "\ta, b, d, err := ma$N()\n\tc.JSON(203, d)\n\tc.JSON(204, err)\n\tc.JSON(a, b)\n")
	st("stmt/commaok", "", "\tv, ok := c.Get(\"x\")\n\tc.JSON(203, v)\n\tw, ok := v.(gin.H)\n\tc.JSON(204, w)\n\tx, ok := w[\"a\"]\n\tc.JSON(205, x)\n\tc.JSON(206, ok)\n")
	st("stmt/swap", "", "\ta, b := 1, \"x\"\n\tp := struct{ A int }{}\n\tp.A, a = a, p.A\n\tc.JSON(203, p)\n\tc.JSON(a, b)\n")
	st("stmt/varblock", "", "\tvar (\n\t\ta, b int\n\t\td, e = \"x\", []int{}\n\t)\n\tc.JSON(203, a)\n\tc.JSON(204, b)\n\tc.JSON(205, d)\n\tc.JSON(206, e)\n")
	st("stmt/long", "", strings.Repeat("\tc.JSON(203, gin.H{\"a\": []int{1, 2, 3}})\n", 300))
	st("stmt/deepnest", "", strings.Repeat("\tif c.IsAborted() {\n", 60)+"\tc.Status(203)\n"+strings.Repeat("\t}\n", 60))
	st("stmt/deepclosure", "", strings.Repeat("\tfunc() {\n", 40)+"\tc.Status(203)\n"+strings.Repeat("\t}()\n", 40))
	st("stmt/deepexpr", "", "\t_ = c.Query("+strings.Repeat("(", 200)+"\"a\""+strings.Repeat(")", 200)+")\n\tc.JSON(203, "+strings.Repeat("[]any{", 50)+strings.Repeat("}", 50)+")\n")
	st("stmt/sum", "", "\t_ = c.Query("+strings.Repeat("\"a\" + ", 200)+"\"b\")\n")
	st("stmt/nobody", "//go:linkname nb$N runtime.nb$N\nfunc nb$N(c *gin.Context)\n", "\tnb$N(c)\n", `_ "unsafe"`)
	st("stmt/nobodyresult", "//go:linkname nb$N runtime.nb$N\nfunc nb$N() (a, b int)\n", "\ta, b := nb$N()\n\tc.JSON(203, a)\n\tc.JSON(204, b)\n", `_ "unsafe"`)
	st("stmt/dotimport", "", "\tc.JSON(203, Item{})\n\tc.JSON(204, MakeItem())\n\tRespond(c)\n", `. "vapp/ext"`)
	st("stmt/unicode", "func größe$N(ctx *gin.Context) { ctx.Status(203) }\nvar 世界$N = \"a\"\n", "\tgröße$N(c)\n\t_ = c.Query(世界$N)\n")
	st("stmt/onlyblank", "", "\t_ = c\n\t_, _ = c, c\n\t_ = func() { _ = c }\n")
	st("stmt/stream", "", "\tc.Stream(func(w io.Writer) bool { c.SSEvent(\"a\", 1); return false })\n\tc.Render(203, nil)\n\tc.DataFromReader(203, 1, \"a\", nil, nil)\n", `"io"`)
	st("stmt/negotiate", "", "\tc.Negotiate(203, gin.Negotiate{Offered: []string{\"a\"}, Data: 1})\n\tc.HTML(203, \"a\", gin.H{})\n\tc.SecureJSON(203, 1)\n\tc.JSONP(203, 1)\n\tc.AsciiJSON(203, 1)\n\tc.PureJSON(203, 1)\n\tc.IndentedJSON(203, 1)\n\tc.ProtoBuf(203, 1)\n\tc.TOML(203, 1)\n\tc.File(\"x\")\n\tc.FileAttachment(\"x\", \"y\")\n")
	st("stmt/bindwith", "", "\tvar v struct{ A int }\n\t_ = c.ShouldBindWith(&v, nil)\n\t_ = c.MustBindWith(&v, nil)\n\t_ = c.ShouldBindBodyWith(&v, nil)\n\t_ = c.BindUri(&v)\n\t_ = c.ShouldBindUri(&v)\n\t_ = c.BindHeader(&v)\n")
	return odds
}

const c20Normal = `
type Item$N struct {
	Name string   ` + "`json:\"name\"`" + `
	Tags []string ` + "`json:\"tags\"`" + `
}
`

func c20Units(thorough bool) []Unit {
	var units []Unit
	known := obj("name", scalar("string"), "tags", core.Arr(scalar("string")))
	for i, o := range c20Odds(thorough) {
		for j, place := range []string{"alone", "between", "helper", "last"} {
			if !thorough && (place == "alone" && !strings.HasPrefix(o.id, "stmt/") && i%5 != 0 || place == "last" && !strings.HasPrefix(o.id, "stmt/") && i%5 != 2) {
				continue
			}
			o := o
			sfx := pr("R%04d", 4*i+j)
			body := o.body
			decls := o.decls
			switch place {
			case "between":
				body = "\t_ = c.Query(\"before\")\n\tc.Status(281)\n" + o.body + "\t_ = c.Query(\"after\")\n\tc.JSON(282, Item$N{})\n"
			case "last":
				body = "\t_ = c.Query(\"before\")\n\tc.Status(281)\n\t_ = c.Query(\"after\")\n\tc.JSON(282, Item$N{})\n" + o.body
			case "helper":
				decls += "func part$N(c *gin.Context) {\n" + o.body + "}\n"
				body = "\t_ = c.Query(\"before\")\n\tc.Status(281)\n\tpart$N(c)\n\t_ = c.Query(\"after\")\n\tc.JSON(282, Item$N{})\n"
			}
			src := sub(c20Normal+decls, sfx) + handler(sfx, sub(body, sfx)) +
				sub("func First$N(c *gin.Context) {\n\tc.JSON(200, Item$N{})\n\t_ = c.Query(\"one\")\n}\n\nfunc Last$N(c *gin.Context) {\n\tvar in Item$N\n\t_ = c.ShouldBindJSON(&in)\n\tc.JSON(200, []Item$N{})\n}\n", sfx)
			units = append(units, Unit{
				ID: o.id + "/" + place, Src: src, Imports: o.imports,
				Routes: []core.Route{{Method: "GET", Path: "/first", Func: "First" + sfx}, {Method: "POST", Path: "/odd", Func: "H" + sfx}, {Method: "PUT", Path: "/last", Func: "Last" + sfx}},
				Check: func(r *core.Result) error {
					if r.Err != nil {
						return fmt.Errorf("the generation fails: %w", r.Err)
					}
					for k, e := range map[int]core.Expect{
						0: {Resp: []Resp{{Status: 200, CT: "application/json", X: known}}, Params: []Par{{In: "query", Name: "one", X: scalar("string")}}},
						2: {Resp: []Resp{{Status: 200, CT: "application/json", X: core.Arr(known)}}, Body: map[string]*X{"application/json": known}},
					} {
						op, err := r.Op(k)
						if err != nil {
							return err
						}
						if err := r.Doc.MatchResponses(op, e.Resp); err != nil {
							return fmt.Errorf("another route: %w", err)
						}
						if err := r.Doc.MatchParams(op, e.Params); err != nil {
							return fmt.Errorf("another route: %w", err)
						}
						if err := r.Doc.MatchBody(op, e.Body); err != nil {
							return fmt.Errorf("another route: %w", err)
						}
					}
					op, err := r.Op(1)
					if err != nil {
						return err
					}
					if o.also != nil {
						if err := o.also(r, op); err != nil {
							return err
						}
					}
					if place == "alone" {
						return nil
					}
					params, _ := op["parameters"].([]any)
					for _, name := range []string{"before", "after"} {
						n := 0
						for _, p := range params {
							if p, _ := p.(map[string]any); p["name"] == name && p["in"] == "query" {
								n++
							}
						}
						if n != 1 {
							return fmt.Errorf("the parameter %q is documented %d times", name, n)
						}
					}
					resps, _ := op["responses"].(map[string]any)
					for _, status := range []string{"281", "282"} {
						if resps[status] == nil {
							return fmt.Errorf("the response %s is missing", status)
						}
					}
					resp, _ := resps["282"].(map[string]any)
					content, _ := resp["content"].(map[string]any)
					ct, _ := content["application/json"].(map[string]any)
					schema, _ := ct["schema"].(map[string]any)
					return r.Doc.Match(schema, known)
				},
			})
		}
	}
	return units
}

func init() {
	core.Register(&core.Check{
		ID: "C20",
		Rule: "One case is one handler with an unusual piece (type x use, expression x place, statement, form of a call), directly or in a helper, between understood calls and between understood routes; " +
			"every one within the bounds is put through the real pipeline, and the understood calls and routes are compared with their models.",
		Run: func(w *core.W) error {
			files := map[string]string{}
			for k, v := range support {
				files[k] = v
			}
			files["h/empty.s"] = ""
			return core.RunUnits(w, c20Units(w.Thorough()), files)
		},
	})
}
