package checks

import (
	"fmt"
	"path/filepath"
	"strings"

	"vh/core"
)

const c02Src = `package h

import "github.com/gin-gonic/gin"

func Plain(c *gin.Context) { c.Status(200) }

func Reads(c *gin.Context) {
	_ = c.Param("id")
	_ = c.Param("unknown")
	_ = c.Query("id")
	_ = c.GetHeader("id")
	c.Status(200)
}

type Bound struct {
	ID   string ` + "`uri:\"id\" form:\"id\" json:\"id\" header:\"id\" xml:\"id\" yaml:\"id\"`" + `
	More string ` + "`uri:\"more\" form:\"more\" json:\"more\" header:\"more\" xml:\"more\" yaml:\"more\"`" + `
}

func Binds(c *gin.Context) {
	var b Bound
	_ = c.ShouldBind(&b)
	c.Status(200)
}
`

func init() {
	type segment struct{ src, doc, param string }
	segs := []segment{
		{"a", "a", ""}, {"users", "users", ""}, {"v1.2", "v1.2", ""}, {"id", "id", ""}, {"x-y_z~0", "x-y_z~0", ""}, {"{b}", "", ""},
		{":id", "{id}", "id"}, {":i", "{i}", "i"}, {":id2", "{id2}", "id2"}, {":userId", "{userId}", "userId"}, {":user_id", "{user_id}", "user_id"},
		{":user-id", "{user-id}", "user-id"}, {":u.v", "{u.v}", "u.v"}, {":0", "{0}", "0"}, {":more", "{more}", "more"}, {"pre:pid", "pre{pid}", "pid"}, {"p_:ppid", "p_{ppid}", "ppid"},
	}
	segs = append(segs[:5], segs[6:]...)
	ends := []segment{{}, {src: "*id", doc: "{id*}", param: "id"}, {src: "*rest", doc: "{rest*}", param: "rest"}}
	core.Register(&core.Check{
		ID:   "C02",
		Rule: "One case is one path with one handler; every path over the alphabet of segments up to the length in the bounds is put through the real pipeline and the documented template and path parameters are compared with the reference model.",
		Run: func(w *core.W) error {
			dir := filepath.Join(w.Dir, "mod")
			if err := core.WriteModule(dir, map[string]string{"h/h.go": c02Src}); err != nil {
				return err
			}
			n := 0
			one := func(path []segment, end segment, slash bool, handler string) {
				n++
				if !w.Mine(n) {
					return
				}
				src, doc := "", ""
				var want []Par
				seen := map[string]bool{}
				for _, s := range append(append([]segment{}, path...), end) {
					if s.src == "" {
						continue
					}
					src, doc = src+"/"+s.src, doc+"/"+s.doc
					if s.param != "" {
						if seen[s.param] {
							return // a name twice is not specified
						}
						seen[s.param] = true
						want = append(want, Par{In: "path", Name: s.param, Required: s.src[0] != '*', X: scalar("string")})
					}
				}
				if slash || src == "" {
					src, doc = src+"/", doc+"/"
				}
				id := handler + " " + src
				if !w.Start(id) {
					return
				}
				others := map[string]bool{"query": true, "header": true}
				method := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"}[n%7]
				u := &Unit{ID: id, Routes: []core.Route{{Method: method, Path: src, Func: handler}}}
				u.Check = func(r *core.Result) error {
					if r.Err != nil {
						return r.Err
					}
					ops := r.Doc.Operations()
					if len(ops) != 1 || ops[0] != strings.ToLower(method)+" "+doc {
						return fmt.Errorf("operations %q, expected %s %s", ops, method, doc)
					}
					op, _ := r.Doc.Operation(method, doc)
					return r.Doc.MatchParams(op, want, others)
				}
				line := core.Line(c02Src, "func "+handler+"(")
				res := core.RunOne(dir, u, func(core.Route) (string, string, int) { return "vapp/h." + handler, "h/h.go", line })
				if err := core.CheckResult(u, res); err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, doc, 4)
				w.Sample(map[string]any{"case": id, "documented": doc})
			}
			depth := 3
			if w.Thorough() {
				depth = 4
			}
			var build func(path []segment)
			build = func(path []segment) {
				for _, e := range ends {
					if len(path) == 4 && e.src != "" {
						continue
					}
					for _, h := range []string{"Plain", "Reads", "Binds"} {
						if h != "Plain" && len(path) > 2 && (len(path) > 3 || !w.Thorough()) {
							continue
						}
						one(path, e, false, h)
						if e.src == "" && len(path) > 0 && len(path) < 4 {
							one(path, e, true, h)
						}
					}
				}
				if len(path) == depth {
					return
				}
				for _, s := range segs {
					build(append(append([]segment{}, path...), s))
				}
			}
			build(nil)
			return nil
		},
		Assumptions: []string{"the names of one path are distinct"},
	})
}
