package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/outputs/azureFunctions"
	"github.com/ls6-events/astra/utils"

	"vh/core"
)

// azureTypes is the documented mapping of types to route constraints.
var azureTypes = map[string]string{"string": "alpha", "int": "long", "int32": "int", "int64": "long", "uint": "long", "uint32": "int", "uint64": "long",
	"float32": "float", "float64": "double", "bool": "bool"}

// azureRoute is the model of the route of a trigger.
func azureRoute(r astra.Route) string {
	parts := strings.Split(r.Path, "/")
	for i, p := range parts {
		at := strings.IndexAny(p, ":*")
		if at < 0 {
			continue
		}
		name := p[at+1:]
		for _, par := range r.PathParams {
			if par.Name != name {
				continue
			}
			c := ""
			if t, ok := azureTypes[par.Field.Type]; ok {
				c = ":" + t
			}
			if !par.IsRequired {
				c += "?"
			}
			parts[i] = p[:at] + "{" + name + c + "}"
		}
	}
	return strings.Join(parts, "/")
}

func azureBinding(r astra.Route) string {
	return fmt.Sprintf("%s [%s options]", azureRoute(r), strings.ToLower(r.Method))
}

// azureRead reads the function directories of an output.
func azureRead(dir string) (map[string]string, error) {
	got := map[string]string{}
	files := tree(dir, nil)
	for name, text := range files {
		if strings.HasSuffix(name, "/") {
			if strings.Count(name, "/") != 1 {
				return nil, fmt.Errorf("unexpected directory %s", name)
			}
			if _, ok := files[name+"function.json"]; !ok {
				return nil, fmt.Errorf("%s has no function.json", name)
			}
			continue
		}
		d, f := filepath.Split(name)
		if f != "function.json" || strings.Count(d, "/") != 1 {
			return nil, fmt.Errorf("unexpected file %s", name)
		}
		var v struct {
			Bindings []struct {
				Type, Direction, Name, Route string
				Methods                      []string
			}
		}
		dec := json.NewDecoder(strings.NewReader(text))
		dec.DisallowUnknownFields()
		if err := dec.Decode(&v); err != nil {
			return nil, fmt.Errorf("%s: %w", name, err)
		}
		if len(v.Bindings) != 2 {
			return nil, fmt.Errorf("%s: %d bindings", name, len(v.Bindings))
		}
		in, out := v.Bindings[0], v.Bindings[1]
		if in.Type != "httpTrigger" || in.Direction != "in" || in.Name == "" || out.Type != "http" || out.Direction != "out" || out.Route != "" || out.Methods != nil {
			return nil, fmt.Errorf("%s: bindings %+v", name, v.Bindings)
		}
		got[strings.TrimSuffix(d, "/")] = fmt.Sprintf("%s %v", in.Route, in.Methods)
	}
	return got, nil
}

func c24Check(dir, out string, routes []astra.Route) error {
	got, err := azureRead(filepath.Join(dir, out))
	if err != nil {
		return err
	}
	var a, b []string
	for _, v := range got {
		a = append(a, v)
	}
	names := map[string]int{}
	for _, r := range routes {
		b = append(b, azureBinding(r))
		names[r.Handler[strings.LastIndex(r.Handler, ".")+1:]]++
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("bindings %q, expected %q", a, b)
	}
	for _, r := range routes {
		name := r.Handler[strings.LastIndex(r.Handler, ".")+1:]
		if names[name] != 1 {
			continue
		}
		// a name that only one route has is the name of its function, unless another one was numbered like it
		if v, ok := got[name]; !ok {
			return fmt.Errorf("there is no function %s: %v", name, got)
		} else if v != azureBinding(r) && !strings.Contains(name, "_") {
			return fmt.Errorf("function %s is %s, expected %s", name, v, azureBinding(r))
		}
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID:    "C24",
		Level: "exhaustive within bounds",
		Rule: "a case is an ordered list of handlers with routes, a path with types of its parameters, or an earlier content of the output directory, written by the real generator; " +
			"or a subset of routes of a real engine through the whole pipeline",
		Run: func(w *core.W) error {
			n := 0
			dir := filepath.Join(w.Dir, "work", "dir")
			os.MkdirAll(dir, 0o755)
			gen := func(s *astra.Service, out string) error {
				return guard(func() error {
					if err := os.MkdirAll(filepath.Join(dir, ".astra"), 0o755); err != nil {
						return err
					}
					return azureFunctions.Generate(out)(s)
				})
			}
			// 1. handlers that share names
			handlers := []string{"a/h.Get", "b/h.Get", "h.Get_2", "h.Get_3", "h.Get_2_2", "main.main.func1", "h.init.func1", "h.(*T).Get-fm", "a.b/h.get", "h.G[...]"}
			methods := []string{"GET", "POST", "DELETE", "PATCH", "TRACE"}
			length := 4
			if w.Thorough() {
				length = 6
				handlers = handlers[:9]
			}
			var rec func(list []int)
			rec = func(list []int) {
				n++
				if w.Mine(n) {
					s := c12New()
					s.WorkDir = dir
					names := []string{}
					for i, h := range list {
						names = append(names, handlers[h])
						s.Routes = append(s.Routes, astra.Route{Handler: handlers[h], Method: methods[i%len(methods)], Path: fmt.Sprintf("/r%d/:id", i), PathParams: utils.ExtractParamsFromPath(fmt.Sprintf("/r%d/:id", i))})
					}
					id := "handlers " + strings.Join(names, " ")
					if w.Start(id) {
						err := gen(s, "out")
						if err == nil {
							err = c24Check(dir, "out", s.Routes)
						}
						if err != nil {
							w.Violation(id, err.Error(), nil)
						}
						w.Done(id, id, 1+len(list))
					}
				}
				if len(list) < length {
					for h := range handlers {
						rec(append(append([]int{}, list...), h))
					}
				}
			}
			rec(nil)
			// 2. paths and types
			types := []string{"string", "int", "int8", "int32", "int64", "uint", "uint32", "uint64", "float32", "float64", "bool", "Other"}
			segs := []string{"a", ":id", ":id2", ":i", ":name", "x-y", "v1.0", "~a"}
			depth := 3
			if w.Thorough() {
				depth = 4
			}
			var paths func(parts []string)
			paths = func(parts []string) {
				for _, end := range []string{"", "/", "/*rest", "/*i"} {
					p := "/" + strings.Join(parts, "/") + end
					p = strings.ReplaceAll(p, "//", "/")
					params := utils.ExtractParamsFromPath(p)
					names := map[string]bool{}
					for _, x := range params {
						names[x.Name] = true
					}
					if len(names) != len(params) {
						continue
					}
					for t := range types {
						if t > 0 && len(params) == 0 {
							break
						}
						n++
						id := fmt.Sprintf("path %s %s", p, types[t])
						if !w.Mine(n) || !w.Start(id) {
							continue
						}
						r := astra.Route{Handler: "h.Get", Method: "GET", Path: p}
						for i, x := range params {
							x.Field.Type = types[(t+i*5)%len(types)]
							r.PathParams = append(r.PathParams, x)
						}
						s := c12New()
						s.WorkDir, s.Routes = dir, []astra.Route{r}
						err := gen(s, "out")
						if err == nil {
							err = c24Check(dir, "out", s.Routes)
						}
						if err != nil {
							w.Violation(id, err.Error(), nil)
						}
						w.Done(id, azureRoute(r), 1)
					}
				}
				if len(parts) < depth {
					for _, s := range segs {
						paths(append(append([]string{}, parts...), s))
					}
				}
			}
			paths(nil)
			c24Before(w, &n)
			return c24Real(w)
		},
		Assumptions: []string{"the output directory is on the same file system and its parent exists"},
	})
}

// c24Before has something at the place of the output, or names that are not one directory below the working directory.
func c24Before(w *core.W, n *int) {
	earlier := map[string]func(dir, out string){
		"nothing": func(dir, out string) {},
		"empty":   func(dir, out string) { os.MkdirAll(filepath.Join(dir, out), 0o755) },
		"file":    func(dir, out string) { os.WriteFile(filepath.Join(dir, out), []byte("x"), 0o644) },
		"old": func(dir, out string) {
			os.MkdirAll(filepath.Join(dir, out, "Get"), 0o755)
			os.WriteFile(filepath.Join(dir, out, "Get", "function.json"), []byte("old"), 0o644)
			os.WriteFile(filepath.Join(dir, out, "Get", "index.js"), []byte("old"), 0o644)
			os.MkdirAll(filepath.Join(dir, out, "Old", "deep"), 0o755)
			os.WriteFile(filepath.Join(dir, out, "host.json"), []byte("old"), 0o644)
		},
		"link": func(dir, out string) { os.Symlink(filepath.Join(dir, "elsewhere"), filepath.Join(dir, out)) },
		"left over": func(dir, out string) {
			os.MkdirAll(filepath.Join(dir, ".astra", "azure", "Get", "x"), 0o755)
			os.WriteFile(filepath.Join(dir, ".astra", "azure", "f"), []byte("x"), 0o644)
		},
	}
	for _, out := range []string{"out", "sub/out", "./out", "out/", "a b", "sub/../out", "", ".", "./", "sub/..", ".astra", "..", "../dir", ".astra/azure", "sub/../../dir"} {
		for name, prepare := range earlier {
			for times := 1; times <= 2; times++ {
				*n++
				id := fmt.Sprintf("earlier %q %s %d", out, name, times)
				if !w.Mine(*n) || !w.Start(id) {
					continue
				}
				outer := filepath.Join(w.Dir, "before")
				os.RemoveAll(outer)
				dir := filepath.Join(outer, "up", "dir")
				os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
				os.MkdirAll(filepath.Join(dir, "elsewhere"), 0o755)
				os.MkdirAll(filepath.Join(dir, ".astra"), 0o755)
				for _, f := range []string{"main.go", "sub/x.go", "elsewhere/y", "../z"} {
					os.WriteFile(filepath.Join(dir, f), []byte("kept "+f), 0o644)
				}
				kept := tree(outer, nil)
				// a place that has the sources in it can't be the output
				own := strings.HasPrefix(filepath.Clean(dir)+"/.astra/", filepath.Join(dir, out)+"/") || strings.HasPrefix(filepath.Join(dir, out), dir+"/.astra")
				if !own {
					prepare(dir, out)
				}
				s := c12New()
				s.WorkDir = dir
				s.Routes = []astra.Route{{Handler: "h.Get", Method: "GET", Path: "/a"}, {Handler: "h.Put", Method: "PUT", Path: "/a"}}
				err := guard(func() error {
					for i := 0; i < times; i++ {
						if err := azureFunctions.Generate(out)(s); err != nil {
							return err
						}
					}
					return nil
				})
				switch {
				case own && err == nil:
					err = fmt.Errorf("there is no error")
				case own:
					err = nil
				case err == nil:
					err = c24Check(dir, out, s.Routes)
				}
				if err == nil {
					inAstra := "up/dir/.astra"
					rel, _ := filepath.Rel(outer, filepath.Join(dir, out))
					got := tree(outer, func(p string) bool {
						return strings.HasPrefix(p, inAstra+"/") || (!own && (p == rel || strings.HasPrefix(p, rel+"/")))
					})
					err = diffTrees(got, kept)
				}
				if err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, id, times)
			}
		}
	}
	os.RemoveAll(filepath.Join(w.Dir, "before"))
}

// c24Real runs the whole pipeline.
func c24Real(w *core.W) error {
	if w.Shard > 0 {
		return nil
	}
	dir, err := core.FixModule(w)
	if err != nil {
		return err
	}
	sources := tree(dir, nil)
	for mask := 0; mask <= richAll; mask++ {
		id := fmt.Sprintf("real %05b", mask)
		if !w.Start(id) {
			continue
		}
		s := astra.New(append(richOptions(mask), astra.WithCustomWorkDir(dir), outputs.WithAzureFunctionsOutput("az"))...)
		err := guard(s.Parse)
		if err == nil {
			err = c24Check(dir, "az", s.Routes)
		}
		if err == nil && len(s.Routes) != strings.Count(fmt.Sprintf("%b", mask), "1") {
			err = fmt.Errorf("%d routes", len(s.Routes))
		}
		os.RemoveAll(filepath.Join(dir, "az"))
		if err == nil {
			err = diffTrees(tree(dir, nil), sources)
		}
		if err != nil {
			w.Violation(id, err.Error(), nil)
		}
		w.Done(id, id, 6)
	}
	return nil
}
