package checks

import (
	"errors"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"

	"vh/core"
)

// Custom functions. The reference model reads a handler as a tree of calls.
type c22Call struct {
	src  string
	imps []string
	name string        // of the function that is called, for the custom functions
	code int           // status argument
	arg  string        // string argument
	x    *X            // what the last argument is documented as
	add  func(*c22Doc) // what the built-in rules make of the call itself
	args []c22Call     // calls in its arguments
	body []c22Call     // calls in the body of the function, when it's followed
}

type c22Doc struct{ e core.Expect }

func (d *c22Doc) resp(code int, ct string, x *X) {
	for _, r := range d.e.Resp {
		if r.Status == code && r.CT == ct {
			return
		}
	}
	d.e.Resp = append(d.e.Resp, Resp{Status: code, CT: ct, X: x})
}

func (d *c22Doc) param(in, name string) {
	for _, p := range d.e.Params {
		if p.In == in && p.Name == name {
			return
		}
	}
	d.e.Params = append(d.e.Params, Par{In: in, Name: name, X: scalar("string")})
}

func (d *c22Doc) header(name string) {
	for _, h := range d.e.Headers {
		if h == name {
			return
		}
	}
	d.e.Headers = append(d.e.Headers, name)
}

const c22Helpers = `package cust

import (
	"github.com/gin-gonic/gin"

	"vapp/ext"
)

type T struct{}

// HandleError has a body of its own.
func HandleError(ctx *gin.Context, code int, err error) {
	_ = ctx.GetHeader("X-In")
	ctx.String(418, err.Error())
}

func HandleSuccess(ctx *gin.Context, code int, v any) {
	ctx.XML(299, ext.Plain{})
}

func Note(s string) string { return s }

func Two(c *gin.Context) {
	_ = c.Query("two-before")
	HandleSuccess(c, 203, ext.Item{})
	_ = Note("two")
	_ = c.Query("two-after")
}

func Three(x *gin.Context) {
	Two(x)
	HandleError(x, ext.Code, nil)
	_ = x.PostForm
	x.YAML(208, ext.Plain{})
}
`

func c22Alphabet() []c22Call {
	q := func(n string) c22Call {
		return c22Call{src: pr("_ = c.Query(%q)", n), name: "Query", arg: n, add: func(d *c22Doc) { d.param("query", n) }}
	}
	handleError := func(code string, n int) c22Call {
		return c22Call{src: pr("cust.HandleError(c, %s, nil)", code), name: "HandleError", code: n, imps: []string{`"vapp/cust"`},
			body: []c22Call{{name: "GetHeader", add: func(d *c22Doc) { d.param("header", "X-In") }}, {name: "String", add: func(d *c22Doc) { d.resp(418, "text/plain", scalar("string")) }, args: []c22Call{{name: "Error"}}}}}
	}
	handleSuccess := func(code string, n int, v string, x *X, imps ...string) c22Call {
		return c22Call{src: pr("cust.HandleSuccess(c, %s, %s)", code, v), name: "HandleSuccess", code: n, x: x, imps: append(imps, `"vapp/cust"`),
			body: []c22Call{{name: "XML", add: func(d *c22Doc) { d.resp(299, "application/xml", xPlain()) }}}}
	}
	note := func(s string, args ...c22Call) c22Call {
		return c22Call{src: pr("_ = cust.Note(%q)", s), name: "Note", arg: s, imps: []string{`"vapp/cust"`}, args: args}
	}
	two := []c22Call{q("two-before"), handleSuccess("203", 203, "ext.Item{}", xItem()), note("two"), q("two-after")}
	three := []c22Call{{name: "Two", body: two}, handleError("ext.Code", 202), {name: "YAML", add: func(d *c22Doc) { d.resp(208, "application/yaml", xPlain()) }}}
	return []c22Call{
		{src: "c.JSON(200, ext.Item{})", name: "JSON", imps: []string{impExt}, add: func(d *c22Doc) { d.resp(200, "application/json", xItem()) }},
		q("own"),
		handleError("400", 400),
		handleError("http.StatusConflict", 409),
		handleSuccess("http.StatusCreated", 201, "ext.Item{}", xItem(), impExt),
		handleSuccess("ext.Iota1", 301, "[]string{}", core.Arr(scalar("string")), impExt),
		note("plain"),
		{src: `_ = len(c.Query("in-len"))`, name: "", args: []c22Call{q("in-len")}},
		{src: `_ = []byte(c.GetHeader("X-Conv"))`, name: "", args: []c22Call{{name: "GetHeader", add: func(d *c22Doc) { d.param("header", "X-Conv") }}}},
		{src: `func() { c.Status(207); cust.HandleError(c, 400, nil) }()`, name: "", imps: []string{`"vapp/cust"`}, args: []c22Call{{name: "Status", add: func(d *c22Doc) { d.resp(207, "", nil) }}, handleError("400", 400)}},
		{src: "cust.Two(c)", name: "Two", imps: []string{`"vapp/cust"`}, body: two},
		{src: "cust.Three(c)", name: "Three", imps: []string{`"vapp/cust"`}, body: three},
		{src: `if cust.Note("cond") != "" { cust.HandleError(c, 404, nil); return }`, name: "Note", arg: "cond", imps: []string{`"vapp/cust"`}, args: []c22Call{handleError("404", 404)}},
		{src: `_ = cust.Note(c.Query("note-arg"))`, name: "Note", arg: "?", imps: []string{`"vapp/cust"`}, args: []c22Call{q("note-arg")}},
		{src: `cust.HandleError(c, 410, errors.New(c.Query("err-arg")))`, name: "HandleError", code: 410, imps: []string{`"vapp/cust"`, `"errors"`}, body: handleError("", 0).body, args: []c22Call{q("err-arg")}},
		{src: `cust.HandleSuccess(c, 212, cust.Note("deep"))`, name: "HandleSuccess", code: 212, x: scalar("string"), imps: []string{`"vapp/cust"`}, body: handleSuccess("", 0, "", nil).body, args: []c22Call{note("deep")}},
		{src: "local$N(c)", name: "local", body: []c22Call{handleSuccess("211", 211, "ext.Plain{}", xPlain()), q("local-after")}},
	}
}

// c22Func is a custom function and what it does in the model: whether it recognises the call.
type c22Func struct {
	name  string
	real  astra.CustomFunc
	model func(*c22Doc, c22Call) bool
}

func c22Funcs() []c22Func {
	named := func(b *astra.ContextFuncBuilder, name string) bool {
		f, err := b.Traverser.Type()
		return err == nil && f.Name() == name && f.Pkg() != nil && f.Pkg().Path() == "vapp/cust"
	}
	return []c22Func{
		{"nothing", func(string, *astra.ContextFuncBuilder) (*astra.Route, error) { return nil, nil }, func(*c22Doc, c22Call) bool { return false }},
		{"looks", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // at everything there is
			b.Traverser.Args()
			b.Traverser.ArgIndex(ctx)
			b.Traverser.Type()
			b.Traverser.Function()
			if len(b.Traverser.Args()) > 0 {
				b.Traverser.ArgType(0)
			}
			b.Traverser.ReturnType(0)
			return nil, nil
		}, func(*c22Doc, c22Call) bool { return false }},
		{"fails", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // like the example, for calls that are no functions
			_, err := b.Traverser.Type()
			return nil, err
		}, func(*c22Doc, c22Call) bool { return false }},
		{"errors", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
			if !named(b, "HandleError") {
				return nil, nil
			}
			return b.Ignored().StatusCode().Ignored().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
				r.ReturnTypes = astra.AddReturnType(r.ReturnTypes, astra.ReturnType{StatusCode: p[1].(int), ContentType: "text/plain", Field: astra.Field{Type: "string"}})
				return r, nil
			})
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "HandleError" {
				d.resp(c.code, "text/plain", scalar("string"))
				return true
			}
			return false
		}},
		{"some errors", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // nil from the mapper
			if !named(b, "HandleError") {
				return nil, nil
			}
			return b.Ignored().StatusCode().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
				if p[1].(int) != 400 {
					return nil, nil
				}
				r.RequestHeaders = append(r.RequestHeaders, astra.Param{Name: "X-Some", Field: astra.Field{Type: "string"}})
				return r, nil
			})
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "HandleError" && c.code == 400 {
				d.param("header", "X-Some")
				return true
			}
			return false
		}},
		{"no errors", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // recognised, nothing to add
			if !named(b, "HandleError") {
				return nil, nil
			}
			return b.Route, nil
		}, func(d *c22Doc, c c22Call) bool { return c.name == "HandleError" }},
		{"success", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
			if !named(b, "HandleSuccess") {
				return nil, nil
			}
			return b.Ignored().StatusCode().ExpressionResult().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
				r.ReturnTypes = astra.AddReturnType(r.ReturnTypes, astra.ReturnType{StatusCode: p[1].(int), ContentType: "application/json", Field: astra.ParseResultToField(p[2].(astTraversal.Result))})
				return r, nil
			})
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "HandleSuccess" {
				d.resp(c.code, "application/json", c.x)
				return true
			}
			return false
		}},
		{"fresh success", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // a route of its own
			if !named(b, "HandleSuccess") {
				return nil, nil
			}
			return b.Ignored().StatusCode().Ignored().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
				n := *r
				n.ResponseHeaders = append(append([]astra.Param{}, r.ResponseHeaders...), astra.Param{Name: "X-Fresh", Field: astra.Field{Type: "string"}})
				n.ReturnTypes = astra.AddReturnType(append([]astra.ReturnType{}, r.ReturnTypes...), astra.ReturnType{StatusCode: p[1].(int), Field: astra.Field{Type: "nil"}})
				return &n, nil
			})
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "HandleSuccess" {
				d.header("X-Fresh")
				d.resp(c.code, "", nil)
				return true
			}
			return false
		}},
		{"notes", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // a call without the context
			if !named(b, "Note") {
				return nil, nil
			}
			return b.Value().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
				r.QueryParams = append(r.QueryParams, astra.Param{Name: "note-" + p[0].(string), Field: astra.Field{Type: "string"}})
				return r, nil
			})
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "Note" && c.arg != "?" { // it has to be a literal
				d.param("query", "note-"+c.arg)
				return true
			}
			return false
		}},
		{"quiet notes", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // recognised, nothing to add or to read
			if !named(b, "Note") {
				return nil, nil
			}
			return b.Route, nil
		}, func(d *c22Doc, c c22Call) bool { return c.name == "Note" }},
		{"two", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // a helper that has more in it
			if !named(b, "Two") {
				return nil, nil
			}
			if i, ok := b.Traverser.ArgIndex(ctx); !ok || i != 0 {
				return nil, errors.New("the context is not the argument")
			}
			b.Route.ResponseHeaders = append(b.Route.ResponseHeaders, astra.Param{Name: "X-Two", Field: astra.Field{Type: "string"}})
			return b.Route, nil
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "Two" {
				d.header("X-Two")
				return true
			}
			return false
		}},
		{"queries", func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) { // instead of a built-in rule
			f, err := b.Traverser.Type()
			if err != nil || f.Name() != "Query" {
				return nil, nil
			}
			return b.Value().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
				r.RequestHeaders = append(r.RequestHeaders, astra.Param{Name: "Q-" + p[0].(string), Field: astra.Field{Type: "string"}})
				return r, nil
			})
		}, func(d *c22Doc, c c22Call) bool {
			if c.name == "Query" {
				d.param("header", "Q-"+c.arg)
				return true
			}
			return false
		}},
	}
}

func c22Model(d *c22Doc, calls []c22Call, funcs []c22Func) {
	for _, c := range calls {
		recognised := false
		for _, f := range funcs {
			if f.model(d, c) {
				recognised = true
				break
			}
		}
		if !recognised {
			if c.add != nil {
				c.add(d)
			}
			c22Model(d, c.body, funcs)
		}
		c22Model(d, c.args, funcs)
	}
}

func c22Units(thorough bool) []Unit {
	alphabet, funcs := c22Alphabet(), c22Funcs()
	var lists [][]int
	for i := range funcs {
		lists = append(lists, []int{i})
		for j := range funcs {
			if i != j {
				lists = append(lists, []int{i, j})
			}
		}
	}
	var long [][]int
	for i := range funcs {
		for j := range funcs {
			for k := range funcs {
				if i != j && j != k && i != k && (thorough || (i+2*j+3*k)%11 == 0) {
					long = append(long, []int{i, j, k})
				}
			}
		}
	}
	long = append(long, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, []int{11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0})
	var bodies [][]int
	for i := range alphabet {
		bodies = append(bodies, []int{i})
		for j := range alphabet {
			bodies = append(bodies, []int{i, j})
			if thorough {
				for k := range alphabet {
					bodies = append(bodies, []int{i, j, k})
				}
			}
		}
	}
	var units []Unit
	for n, body := range bodies {
		sfx := pr("R%04d", n)
		var calls []c22Call
		var src []string
		var imps []string
		for _, i := range body {
			calls = append(calls, alphabet[i])
			src = append(src, "\t"+alphabet[i].src)
			imps = append(imps, alphabet[i].imps...)
			if strings.Contains(alphabet[i].src, "http.") {
				imps = append(imps, impHTTP)
			}
		}
		// a response that is always there, so that the handler is complete without custom functions
		calls = append(calls, c22Call{name: "JSON", add: func(d *c22Doc) { d.resp(226, "application/json", scalar("bool")) }})
		src = append(src, "\tc.JSON(226, true)")
		text := handler(sfx, strings.Join(src, "\n"))
		if strings.Contains(text, "local") {
			imps = append(imps, `"vapp/cust"`, impExt)
			text += sub("func local$N(gc *gin.Context) {\n\tcust.HandleSuccess(gc, 211, ext.Plain{})\n\t_ = gc.Query(\"local-after\")\n}\n", sfx)
		}
		mk := func(list []int) Unit {
			var fs []c22Func
			var names []string
			var opts []astra.Option
			for _, f := range list {
				fs = append(fs, funcs[f])
				names = append(names, funcs[f].name)
				opts = append(opts, astra.WithCustomFunc(funcs[f].real))
			}
			var d c22Doc
			c22Model(&d, calls, fs)
			return Unit{ID: pr("calls %v custom %s", body, strings.Join(names, ", ")), Imports: imps, Src: text, Opts: opts,
				Routes: []core.Route{{Method: "GET", Path: "/x", Func: "H" + sfx}}, Check: core.Is(d.e)}
		}
		u := mk(nil)
		l := lists
		if len(body) > 1 && !thorough {
			l = nil
			for k, list := range lists {
				if len(list) == 1 || (k+n)%6 == 0 {
					l = append(l, list)
				}
			}
		}
		if len(body) == 1 {
			l = append(append([][]int{}, lists...), long...)
		}
		for _, list := range l {
			u.Also = append(u.Also, mk(list))
		}
		units = append(units, u)
	}
	return units
}

func init() {
	core.Register(&core.Check{
		ID:   "C22",
		Rule: "One case is a generated handler, a sequence of calls, together with an ordered list of custom functions.",
		Run: func(w *core.W) error {
			common := map[string]string{"cust/cust.go": strings.Replace(c22Helpers, "\t_ = x.PostForm\n", "", 1)}
			for k, v := range support {
				common[k] = v
			}
			return core.RunUnits(w, c22Units(w.Thorough()), common)
		},
		Assumptions: []string{"custom functions change the route that they are given only when they return one"},
	})
}
