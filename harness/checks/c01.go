package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"

	"vh/core"
	"vh/fix/reg"
)

// registration is a way of registering routes, with the routes that it makes.
type registration struct {
	name string
	do   func(r *gin.Engine)
	made [][2]string // method, gin path
}

var hs = reg.Handlers()

func mw(c *gin.Context) { c.Next() }

func registrations() []registration {
	handle := func(m, p string, h ...gin.HandlerFunc) registration {
		return registration{m + p, func(r *gin.Engine) { r.Handle(m, p, h...) }, [][2]string{{m, p}}}
	}
	all := []registration{
		handle("GET", "/", hs["get"]),
		handle("POST", "/", hs["create"]),
		handle("GET", "/a", hs["getall"]),
		handle("GET", "/a/", hs["get"]),
		handle("DELETE", "/a/:id", mw, hs["delete"]),
		handle("GET", "/a/:id/b", hs["kept"]),
		handle("PUT", "/a/b", hs["one"]),
		{"group", func(r *gin.Engine) {
			g := r.Group("/g", mw)
			g.PATCH("/a", hs["update"])
			g.Group("/h").HEAD("", hs["two"])
		}, [][2]string{{"PATCH", "/g/a"}, {"HEAD", "/g/h"}}},
		handle("OPTIONS", "/files/*rest", hs["nested"]),
		handle("TRACE", "/a", hs["small"]),
	}
	return all
}

func anyRegistration() registration {
	r := registration{name: "any", do: func(r *gin.Engine) { r.Any("/any/:x", hs["get"]) }}
	for _, m := range []string{"GET", "POST", "PUT", "PATCH", "HEAD", "OPTIONS", "DELETE", "TRACE"} {
		r.made = append(r.made, [2]string{m, "/any/:x"})
	}
	return r
}

func methodsRegistration() registration {
	r := registration{name: "methods"}
	for _, m := range []string{"GET", "POST", "PUT", "PATCH", "HEAD", "OPTIONS", "DELETE", "TRACE"} {
		r.made = append(r.made, [2]string{m, "/same"})
	}
	r.do = func(e *gin.Engine) {
		for i, m := range r.made {
			e.Handle(m[0], m[1], []gin.HandlerFunc{hs["get"], hs["create"], hs["delete"]}[i%3])
		}
	}
	return r
}

func staticRegistration() registration {
	return registration{"static", func(r *gin.Engine) {
		r.Static("/assets", ".")
		r.StaticFile("/one.txt", "one.txt")
	}, [][2]string{{"GET", "/assets/*filepath"}, {"HEAD", "/assets/*filepath"}, {"GET", "/one.txt"}, {"HEAD", "/one.txt"}}}
}

type denyRule struct {
	name  string
	opt   astra.Option
	match func(p string) bool
}

func denyRules() []denyRule {
	exact := func(s string) denyRule {
		return denyRule{"exact:" + s, astra.WithPathDenyList(s), func(p string) bool { return p == s }}
	}
	re := func(s string, m func(string) bool) denyRule {
		return denyRule{"re:" + s, astra.WithPathDenyListRegex(regexp.MustCompile(s)), m}
	}
	return []denyRule{
		exact("/"), exact("/a"), exact("/a/:id"),
		re("^/a/", func(p string) bool { return strings.HasPrefix(p, "/a/") }),
		re("^/g|rest$", func(p string) bool { return strings.HasPrefix(p, "/g") || strings.HasSuffix(p, "rest") }),
		{"func:params", astra.WithPathDenyListFunc(func(p string) bool { return strings.Contains(p, ":") }), func(p string) bool { return strings.Contains(p, ":") }},
		{"func:none", astra.WithPathDenyListFunc(func(p string) bool { return false }), func(p string) bool { return false }},
		exact("/nowhere"),
	}
}

func c01Case(w *core.W, dir, id string, regs []registration, rules []denyRule, split bool) {
	if !w.Start(id) {
		return
	}
	opts := []astra.Option{}
	engines := []*gin.Engine{gin.New()}
	if split {
		engines = append(engines, gin.New())
	}
	want := []string{}
	for i, r := range regs {
		r.do(engines[i%len(engines)])
	}
	for _, r := range regs {
	next:
		for _, m := range r.made {
			for _, d := range rules {
				if d.match(m[1]) {
					continue next
				}
			}
			want = append(want, strings.ToLower(m[0])+" "+templated(m[1]))
		}
	}
	// rules before, between and after the inputs
	for i, e := range engines {
		for j, d := range rules {
			if j%(len(engines)+1) == i {
				opts = append(opts, d.opt)
			}
		}
		opts = append(opts, inputs.WithGinInput(e))
	}
	for j, d := range rules {
		if j%(len(engines)+1) == len(engines) {
			opts = append(opts, d.opt)
		}
	}
	sort.Strings(want)
	doc, _, err := core.Generate(dir, opts...)
	if err == nil {
		got := doc.Operations()
		if len(got) == 0 {
			got = []string{}
		}
		if !reflect.DeepEqual(got, want) {
			err = fmt.Errorf("operations %q, expected %q", got, want)
		}
	}
	if err != nil {
		w.Violation(id, err.Error(), nil)
	}
	w.Done(id, strings.Join(want, ",")+pr("/%d", len(regs)), 4+len(regs))
	w.Sample(map[string]any{"case": id, "operations": want})
}

// templated is the reference model of a documented path.
func templated(p string) string {
	out := ""
	for i := 0; i < len(p); {
		if p[i] != ':' && p[i] != '*' {
			out += string(p[i])
			i++
			continue
		}
		j := i + 1
		for j < len(p) && p[j] != '/' {
			j++
		}
		if p[i] == ':' {
			out += "{" + p[i+1:j] + "}"
		} else {
			out += "{" + p[i+1:j] + "*}"
		}
		i = j
	}
	return out
}

func init() {
	core.Register(&core.Check{
		ID:   "C01",
		Rule: "One case is one engine (a set of registrations) with one list of deny rules; every subset of the registrations with every ordered list of rules within the bounds is registered on a real engine, generated and compared with the expected set of operations.",
		Run: func(w *core.W) error {
			dir, err := core.FixModule(w)
			if err != nil {
				return err
			}
			regs, rules := registrations(), denyRules()
			n := 0
			run := func(id string, rs []registration, ds []denyRule, split bool) {
				n++
				if w.Mine(n) {
					c01Case(w, dir, id, rs, ds, split)
				}
			}
			var lists [][]denyRule
			maxRules := 2
			if w.Thorough() {
				maxRules = 3
			}
			var build func(l []denyRule)
			build = func(l []denyRule) {
				lists = append(lists, append([]denyRule{}, l...))
				if len(l) == maxRules {
					return
				}
				for _, d := range rules {
					dup := false
					for _, e := range l {
						dup = dup || e.name == d.name
					}
					if !dup {
						build(append(l, d))
					}
				}
			}
			build(nil)
			for set := 0; set < 1<<len(regs); set++ {
				var rs []registration
				for i, r := range regs {
					if set>>i&1 == 1 {
						rs = append(rs, r)
					}
				}
				for li, ds := range lists {
					// all lists of up to one rule with all sets; longer ones with the sets of up to two or all but one
					if len(ds) > 1 && !w.Thorough() && len(rs) != 2 && len(rs) < len(regs)-1 {
						continue
					}
					if len(ds) > 2 && len(rs) > 3 && len(rs) < len(regs)-1 {
						continue
					}
					names := []string{}
					for _, d := range ds {
						names = append(names, d.name)
					}
					id := pr("set/%03x/%s", set, strings.Join(names, "+"))
					run(id, rs, ds, false)
					if len(rs) >= 2 && (w.Thorough() || li%7 == set%7) {
						run(id+"/two", rs, ds, true)
					}
				}
			}
			for _, r := range []registration{anyRegistration(), methodsRegistration(), staticRegistration()} {
				for li, ds := range lists {
					run(pr("%s/%d", r.name, li), []registration{r}, ds, false)
					run(pr("%s/%d/more", r.name, li), append([]registration{r}, regs...), ds, false)
				}
			}
			return nil
		},
		Assumptions: []string{"CONNECT has no place in OpenAPI", "handlers are functions or function literals of packages that load"},
	})
}
