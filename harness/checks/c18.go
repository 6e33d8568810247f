package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/ls6-events/astra"

	"vh/core"
)

// The state of an accumulating list is the list itself. Every reachable state over an alphabet of elements is visited,
// and from each of them every addition of one and of two elements (also of the same one) is made by the real code.

type setKind[T any] struct {
	name     string
	identity func(T) string
	add      func(prev []T, n ...T) []T
	alphabet []T
	longest  int // list to start from
}

func retType(status int, ct, typ, pkg, payload string) astra.ReturnType {
	return astra.ReturnType{StatusCode: status, ContentType: ct, Field: astra.Field{Type: typ, Package: pkg, Doc: payload}}
}

func addModel[T any](identity func(T) string, prev []T, n ...T) []T {
	r := append([]T{}, prev...)
next:
	for _, e := range n {
		for _, o := range r {
			if identity(o) == identity(e) {
				continue next
			}
		}
		r = append(r, e)
	}
	return r
}

func show[T any](l []T) string {
	s := []string{}
	for _, e := range l {
		s = append(s, fmt.Sprintf("%+v", e))
	}
	return strings.Join(s, " ; ")
}

func c18Explore[T any](w *core.W, k setKind[T]) {
	if w.Only != "" && !strings.HasPrefix(w.Only, k.name) {
		return
	}
	seen := map[string]bool{}
	index := map[string]int{}
	for i, e := range k.alphabet {
		index[fmt.Sprintf("%+v", e)] = i
	}
	key := func(l []T) string {
		b := make([]byte, len(l))
		for i, e := range l {
			b[i] = 'a' + byte(index[fmt.Sprintf("%+v", e)])
		}
		return string(b)
	}
	n, bad := 0, 0
	frontier := [][]T{nil}
	seen[""] = true
	for len(frontier) > 0 && bad < 20 {
		state := frontier[0]
		frontier = frontier[1:]
		id := k.name + ":" + key(state)
		mine := w.Mine(n)
		n++
		try := func(batch ...T) []T {
			want := addModel(k.identity, state, batch...)
			if !mine {
				return want
			}
			// exact capacity, and spare capacity: an addition may not change what is there
			for _, spare := range []int{0, 3} {
				prev := make([]T, len(state), len(state)+spare)
				copy(prev, state)
				var got []T
				err := func() (err error) {
					defer func() {
						if r := recover(); r != nil {
							err = fmt.Errorf("panic: %v", r)
						}
					}()
					got = k.add(prev, batch...)
					return nil
				}()
				switch {
				case err != nil:
				case len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)):
					err = fmt.Errorf("%s: adding %s to %s gives %s, expected %s", k.name, show(batch), show(state), show(got), show(want))
				case len(state) > 0 && !reflect.DeepEqual(prev, state):
					err = fmt.Errorf("%s: adding %s changed the list that was there to %s", k.name, show(batch), show(prev))
				}
				if err != nil {
					bad++
					w.Violation(id+"+"+key(batch), err.Error(), nil)
				}
			}
			return want
		}
		if mine && !w.Start(id) {
			mine = false
		}
		try()
		for _, a := range k.alphabet {
			next := try(a)
			if s := key(next); !seen[s] && (k.longest == 0 || len(next) <= k.longest) {
				seen[s] = true
				frontier = append(frontier, next)
			}
			if mine {
				for _, b := range k.alphabet {
					try(a, b)
					if len(state) < 3 && k.longest == 0 {
						for _, c := range k.alphabet {
							try(a, b, c)
						}
					}
				}
			}
		}
		if mine {
			m := len(k.alphabet)
			t := 1 + m + m*m
			if len(state) < 3 && k.longest == 0 {
				t += m * m * m
			}
			w.Done(id, id, 2*t)
		}
	}
	w.Count("reachable states of "+k.name, func() int {
		if w.Shard == 0 {
			return len(seen)
		}
		return 0
	}())
}

// c18Routes explores every sequence of AddRoute and ReplaceRoute; an added route is new.
func c18Routes(w *core.W, paths, methods []string, depth int) {
	type rt = astra.Route
	routes := []rt{}
	for _, p := range paths {
		for _, m := range methods {
			for _, h := range []string{"one", "two"} {
				routes = append(routes, rt{Path: p, Method: m, Handler: h, File: h + ".go", LineNo: len(h), Doc: h + m})
			}
		}
	}
	n := 0
	seen := map[string]bool{}
	key := func(l []rt) string {
		s := ""
		for _, r := range l {
			s += r.Method + r.Path + r.Handler + " "
		}
		return s
	}
	frontier := [][]rt{nil}
	for len(frontier) > 0 {
		state := frontier[0]
		frontier = frontier[1:]
		id := "routes:" + key(state)
		mine := w.Mine(n) && w.Start(id)
		n++
		for _, r := range routes {
			at := -1
			for i, o := range state {
				if o.Path == r.Path && o.Method == r.Method {
					at = i
				}
			}
			want := append([]rt{}, state...)
			if at >= 0 {
				want[at] = r
			}
			apply := func(what string, f func(s *astra.Service)) {
				if !mine {
					return
				}
				s := astra.New(core.Quiet())
				s.Routes = append(make([]rt, 0, len(state)+2), state...)
				err := func() (err error) {
					defer func() {
						if p := recover(); p != nil {
							err = fmt.Errorf("panic: %v", p)
						}
					}()
					f(s)
					return nil
				}()
				if err == nil && (len(s.Routes) != len(want) || (len(want) > 0 && !reflect.DeepEqual(s.Routes, want))) {
					err = fmt.Errorf("%s of %s on %s gives %s", what, key([]rt{r}), key(state), key(s.Routes))
				}
				if err != nil {
					w.Violation(id+what+" "+key([]rt{r}), err.Error(), nil)
				}
			}
			apply("replace", func(s *astra.Service) { s.ReplaceRoute(r) })
			next := want
			if at < 0 {
				want = append(want, r)
				next = want
				apply("add", func(s *astra.Service) { s.AddRoute(r) })
			}
			if k := key(next); !seen[k] && len(next) <= depth {
				seen[k] = true
				frontier = append(frontier, next)
			}
		}
		if mine {
			w.Done(id, id, 2*len(routes))
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID:    "C18",
		Level: "exhaustive within bounds",
		Rule: "a case is a reachable state of the list (every ordered list of elements of the alphabet that additions can make); from each of them " +
			"every addition of no, one and two elements (three, from short lists) is made by the real code, with and without spare capacity, and compared with the set model",
		Run: func(w *core.W) error {
			rid := func(r astra.ReturnType) string {
				return fmt.Sprint(r.StatusCode, "|", r.ContentType, "|", r.Field.Type, "|", r.Field.Package)
			}
			rets := []astra.ReturnType{
				retType(200, "application/json", "T", "p", "first"), retType(200, "application/json", "T", "p", "second"),
				retType(404, "application/json", "T", "p", "first"), retType(200, "application/xml", "T", "p", "first"),
				retType(200, "application/json", "U", "p", "first"), retType(200, "application/json", "T", "q", "first"),
				retType(0, "", "", "", ""), retType(404, "application/xml", "U", "q", "first"),
			}
			cid := func(f astra.Field) string { return f.Name + "|" + f.Package }
			comps := []astra.Field{
				{Name: "T", Package: "p", Type: "struct"}, {Name: "T", Package: "p", Type: "slice"}, {Name: "U", Package: "p", Type: "struct"},
				{Name: "T", Package: "q", Type: "struct"}, {Name: "U", Package: "q", Type: "struct"}, {Type: "struct"}, {Name: "T"}, {Package: "p"},
			}
			size := 7
			if w.Thorough() {
				size = 8
			}
			c18Explore(w, setKind[astra.ReturnType]{"responses", rid, astra.AddReturnType, rets[:size], 0})
			c18Explore(w, setKind[astra.Field]{"components", cid, astra.AddComponent, comps[:size], 0})
			// parts that are close to each other
			near := []string{"T", "t", "T ", "TT", ""}
			pkgs := []string{"a/p", "b/p", "a/b/p", "a/P", "p", "a/p/", "p/a"}
			rets, comps = nil, nil
			for i, n := range near {
				for j, p := range pkgs {
					if !w.Thorough() && i*j > 6 {
						continue
					}
					comps = append(comps, astra.Field{Name: n, Package: p})
					rets = append(rets, astra.ReturnType{StatusCode: 200, Field: astra.Field{Type: n, Package: p, Name: "other", ValuePackage: "v"}})
				}
			}
			for _, ct := range []string{"text/plain", "Text/Plain", "text/plain; charset=utf-8", "text/html", "plain"} {
				for _, st := range []int{20, 200, 201, 2000} {
					rets = append(rets, astra.ReturnType{StatusCode: st, ContentType: ct, Field: astra.Field{Type: "string"}})
				}
			}
			longest := 1
			if w.Thorough() {
				longest = 2
			}
			c18Explore(w, setKind[astra.ReturnType]{"close responses", rid, astra.AddReturnType, rets, longest})
			c18Explore(w, setKind[astra.Field]{"close components", cid, astra.AddComponent, comps, longest})
			depth := 0
			if w.Thorough() {
				depth = 1
			}
			c18Routes(w, []string{"/a", "/a/:id", "/a/"}, []string{"GET", "POST"}, 5+depth)
			c18Routes(w, []string{"/a", "/A", "/b", "/ab", "/a/:id", "/a/:ID", "/a/:x", "/a/*id", "/a/", "a", ""}, []string{"GET", "get", "POST"}, 2+depth)
			return nil
		},
		Assumptions: []string{"no two routes with the same path and method are added (gin refuses them)"},
	})
}
