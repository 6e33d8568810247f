package checks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra/inputs"

	"vh/core"
)

// own is the reference model of a registered handler.
type own struct {
	name string // in reg.Handlers
	opID string // "" for literals
	doc  string
	e    core.Expect
}

func c09Handlers() []own {
	js := "application/json"
	item, sub, loc := obj("name", scalar("string")), obj("other", scalar("bool")), obj("b", scalar("int"))
	q := func(n string) []Par { return []Par{{In: "query", Name: n, X: scalar("string")}} }
	hd := func(n string) []Par { return []Par{{In: "header", Name: n, X: scalar("string")}} }
	r := func(k int, x *X) Resp { return Resp{k, js, x} }
	ginH := core.Map(core.Any())
	return []own{
		{"get", "get", "Get gets.", core.Expect{Resp: []Resp{r(200, item)}, Params: q("get")}},
		{"getall", "getAll", "GetAll gets all.", core.Expect{Resp: []Resp{r(202, core.Arr(item))}, Params: q("getall")}},
		{"create", "create", "Create creates.", core.Expect{Resp: []Resp{r(400, ginH), {201, "application/xml", obj("Name", scalar("string"))}}, Body: map[string]*X{js: item}, Headers: []string{"X-Shared"}}},
		{"update", "update", "Update updates.", core.Expect{Resp: []Resp{r(400, ginH), r(207, sub), {Status: 204}}, Params: q("remote"), Body: map[string]*X{"application/x-www-form-urlencoded": obj("field", scalar("string"))}, Headers: []string{"X-Shared"}}},
		{"remote", "remote", "Remote does everything in another package.", core.Expect{Resp: []Resp{r(207, sub)}, Params: q("remote")}},
		{"undoc", "undocumented", "", core.Expect{Resp: []Resp{{200, "text/plain", scalar("string")}}, Params: hd("X-U")}},
		{"delete", "delete", "Delete deletes.", core.Expect{Resp: []Resp{{200, "application/yaml", core.FreeOpt()}, r(400, ginH)}, Headers: []string{"X-Shared"}}},
		{"other", "otherItem", "OtherItem responds with the item of the other package.", core.Expect{Resp: []Resp{r(200, sub), r(201, item)}}},
		{"first", "", "", core.Expect{Resp: []Resp{{Status: 211}}, Params: q("first")}},
		{"second", "", "", core.Expect{Resp: []Resp{{Status: 212}}, Params: q("second")}},
		{"one", "", "", core.Expect{Resp: []Resp{r(221, item)}}},
		{"two", "", "", core.Expect{Resp: []Resp{r(222, loc)}, Headers: []string{"X-Two"}}},
		{"nested", "", "", core.Expect{Resp: []Resp{r(223, sub)}, Params: []Par{{In: "query", Name: "nested", X: core.Arr(scalar("string"))}}}},
		{"init0", "", "", core.Expect{Resp: []Resp{{Status: 231}}}},
		{"init1", "", "", core.Expect{Resp: []Resp{{Status: 232}}, Params: hd("X-Init1")}},
		{"subget", "get", "Get gets another item.", core.Expect{Resp: []Resp{r(200, sub)}, Params: q("other-get")}},
		{"subdel", "delete", "Delete deletes another item.", core.Expect{Resp: []Resp{{Status: 204}}}},
		{"small", "", "", core.Expect{Resp: []Resp{{Status: 241}}}},
		{"one-line", "", "", core.Expect{Resp: []Resp{{Status: 242}}, Params: q("one-line")}},
		{"global", "", "", core.Expect{Resp: []Resp{{Status: 243}}, Params: hd("X-Global")}},
		{"kept", "", "", core.Expect{Resp: []Resp{{Status: 244}}}},
		{"here", "", "", core.Expect{Resp: []Resp{r(245, item)}}},
		{"factory", "", "", core.Expect{Resp: []Resp{r(203, loc)}, Params: q("factory")}},
	}
}

func init() {
	core.Register(&core.Check{
		ID:   "C09",
		Rule: "One case is one list of routes on a real engine; every ordered selection of handlers within the bounds, on paths of their own and on one path with different methods, is generated and each operation is compared with the reference model of its own handler and with what it is alone.",
		Run: func(w *core.W) error {
			dir, err := core.FixModule(w)
			if err != nil {
				return err
			}
			all := c09Handlers()
			alone := map[string]string{}
			n := 0
			methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"}
			generate := func(sel []own, samePath bool) (*core.Doc, []core.Route, error) {
				e := gin.New()
				var routes []core.Route
				for i, o := range sel {
					rt := core.Route{Method: "POST", Path: pr("/p%d", i)}
					if samePath {
						rt = core.Route{Method: methods[i], Path: "/same"}
					}
					routes = append(routes, rt)
					e.Handle(rt.Method, rt.Path, hs[o.name])
				}
				doc, _, err := core.Generate(dir, inputs.WithGinInput(e))
				return doc, routes, err
			}
			expand := func(doc *core.Doc, rt core.Route) (map[string]any, string, error) {
				op, ok := doc.Operation(rt.Method, rt.Path)
				if !ok {
					return nil, "", fmt.Errorf("operation %s %s is missing", rt.Method, rt.Path)
				}
				return op, doc.Expand(op), nil
			}
			check := func(doc *core.Doc, rt core.Route, o own) error {
				op, text, err := expand(doc, rt)
				if err != nil {
					return err
				}
				if a, ok := alone[o.name]; ok && a != text {
					return fmt.Errorf("handler %s is documented as %s, alone as %s", o.name, text, a)
				}
				if id, _ := op["operationId"].(string); id != o.opID {
					return fmt.Errorf("handler %s has the operation ID %q, expected %q", o.name, id, o.opID)
				}
				if d, _ := op["description"].(string); d != o.doc {
					return fmt.Errorf("handler %s has the description %q, expected %q", o.name, d, o.doc)
				}
				for _, f := range []func() error{
					func() error { return doc.MatchResponses(op, o.e.Resp) },
					func() error { return doc.MatchParams(op, o.e.Params) },
					func() error { return doc.MatchBody(op, o.e.Body) },
					func() error { return doc.MatchHeaders(op, append([]string{}, o.e.Headers...)) },
				} {
					if err := f(); err != nil {
						return fmt.Errorf("handler %s: %w", o.name, err)
					}
				}
				return nil
			}
			run := func(sel []own, samePath bool) {
				n++
				if !w.Mine(n) {
					return
				}
				var names []string
				for _, o := range sel {
					names = append(names, o.name)
				}
				id := strings.Join(names, ",")
				if samePath {
					id = "same/" + id
				}
				if !w.Start(id) {
					return
				}
				for _, o := range sel { // what each of them is alone
					if _, ok := alone[o.name]; !ok {
						if doc, routes, err := generate([]own{o}, false); err == nil {
							if _, text, err := expand(doc, routes[0]); err == nil {
								alone[o.name] = text
							}
						}
					}
				}
				doc, routes, err := generate(sel, samePath)
				var outcome []string
				if err == nil {
					err = doc.DanglingRefs()
				}
				for i := range sel {
					if err == nil {
						err = check(doc, routes[i], sel[i])
						b, _ := json.Marshal(doc.Root)
						outcome = append(outcome, string(b))
					}
				}
				if err != nil {
					w.Violation(id, err.Error(), nil)
				}
				sort.Strings(outcome)
				w.Done(id, strings.Join(outcome, "\n"), 4+len(sel))
				w.Sample(map[string]any{"case": id})
			}
			quickPool := all[:len(all)-1] // factory is loaded by its file each time
			for _, o := range all {
				run([]own{o}, false)
			}
			for _, a := range all {
				for _, b := range all {
					if (a.name == "factory" || b.name == "factory") && !w.Thorough() && a.name != "get" && b.name != "here" {
						continue
					}
					run([]own{a, b}, false)
					run([]own{a, b}, true)
				}
			}
			core3 := quickPool
			if !w.Thorough() {
				core3 = nil
				for _, o := range quickPool {
					switch o.name {
					case "get", "create", "update", "delete", "first", "two", "subget", "init1", "other", "global":
						core3 = append(core3, o)
					}
				}
			}
			for _, a := range core3 {
				for _, b := range core3 {
					for _, c := range core3 {
						run([]own{a, b, c}, false)
						run([]own{a, b, c}, true)
					}
				}
			}
			// all of them, in every rotation, forwards and backwards, and without each one
			for k := range quickPool {
				rot := append(append([]own{}, quickPool[k:]...), quickPool[:k]...)
				run(rot, false)
				back := []own{}
				for _, o := range rot {
					back = append([]own{o}, back...)
				}
				run(back, false)
				run(rot[1:], false)
			}
			return nil
		},
		Assumptions: []string{"two function literals are not on one line", "handlers are functions or function literals, not methods"},
	})
}
