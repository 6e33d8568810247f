package checks

import (
	stdjson "encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"
	"gopkg.in/yaml.v3"

	"vh/core"
)

// sameContent compares two parsed documents; numbers by value.
func sameContent(at string, a, b any) error {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return fmt.Errorf("%s: %v in JSON, %v in YAML", at, a, b)
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				return fmt.Errorf("%s.%s is only in the JSON", at, k)
			}
			if err := sameContent(at+"."+k, x[k], y[k]); err != nil {
				return err
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				return fmt.Errorf("%s.%s is only in the YAML", at, k)
			}
		}
		return nil
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return fmt.Errorf("%s: %v in JSON, %v in YAML", at, a, b)
		}
		for i := range x {
			if err := sameContent(fmt.Sprintf("%s[%d]", at, i), x[i], y[i]); err != nil {
				return err
			}
		}
		return nil
	case stdjson.Number:
		for _, f := range []string{fmt.Sprint(b)} {
			if f == x.String() {
				return nil
			}
		}
		f, err := x.Float64()
		g := reflect.ValueOf(b)
		if err != nil || !g.IsValid() || !isNum(g.Kind()) || g.Kind() < reflect.Float32 || g.Float() != f {
			return fmt.Errorf("%s: %v in JSON, %v in YAML", at, a, b)
		}
		return nil
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("%s: %#v in JSON, %#v in YAML", at, a, b)
	}
	return nil
}

func parseJSON(b []byte) (any, error) {
	var v any
	d := stdjson.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func c17Write(s *astra.Service, dir string) error {
	s.WorkDir = dir
	for _, f := range []string{"o.json", "o.yaml", "j.json"} {
		os.Remove(filepath.Join(dir, f))
	}
	errJ := guard(func() error { return openapi.Generate("o.json")(s) })
	errY := guard(func() error { return openapi.Generate("o.yaml")(s) })
	if (errJ == nil) != (errY == nil) {
		return fmt.Errorf("JSON: %v, YAML: %v", errJ, errY)
	}
	if errJ != nil {
		return nil // the same in both
	}
	b, err := os.ReadFile(filepath.Join(dir, "o.json"))
	if err != nil {
		return err
	}
	j, err := parseJSON(b)
	if err != nil {
		return fmt.Errorf("the JSON can't be read: %w", err)
	}
	if b, err = os.ReadFile(filepath.Join(dir, "o.yaml")); err != nil {
		return err
	}
	var y any
	if err := yaml.Unmarshal(b, &y); err != nil {
		return fmt.Errorf("the YAML can't be read: %w", err)
	}
	if err := sameContent("document", j, y); err != nil {
		return err
	}
	if err := guard(func() error { return json.Generate("j.json")(s) }); err != nil {
		return err
	}
	if b, err = os.ReadFile(filepath.Join(dir, "j.json")); err != nil {
		return err
	}
	var back json.JSONOutput
	d := stdjson.NewDecoder(strings.NewReader(string(b)))
	d.DisallowUnknownFields()
	if err := d.Decode(&back); err != nil {
		return fmt.Errorf("the JSON output can't be read: %w", err)
	}
	if err := c12Same("routes", reflect.ValueOf(s.Routes), reflect.ValueOf(back.Routes)); err != nil {
		return err
	}
	return c12Same("components", reflect.ValueOf(s.Components), reflect.ValueOf(back.Components))
}

// c17Names are file names with the name and the format that is written.
var c17Names = []struct {
	name, file string
	yaml       bool
}{
	{"o", "o.json", false}, {"o.json", "o.json", false}, {"o.yaml", "o.yaml", true}, {"o.yml", "o.yml", true}, {"o.txt", "o.txt.json", false},
	{"sub/o", "sub/o.json", false}, {"sub/o.yml", "sub/o.yml", true}, {"./sub/o.json", "sub/o.json", false}, {"o.yaml.json", "o.yaml.json", false},
	{"o.json.yaml", "o.json.yaml", true}, {"o.json.bak", "o.json.bak.json", false}, {"json", "json.json", false}, {"yaml", "yaml.json", false},
	{"o.yaml.old", "o.yaml.old.json", false}, {"a b.yaml", "a b.yaml", true}, {"v1.2", "v1.2.json", false},
}

func init() {
	core.Register(&core.Check{
		ID:    "C17",
		Level: "exhaustive within bounds",
		Rule: "a case is a service with one part (found by reflection) set to one value, or two parts set, whose JSON, YAML and JSON output are compared as documents; " +
			"or a file name; or an ordered list of outputs of one real generation, each compared with the output alone",
		Run: func(w *core.W) error {
			dir := filepath.Join(w.Dir, "out")
			if err := os.MkdirAll(filepath.Join(dir, "sub"), 0o755); err != nil {
				return err
			}
			leaves := c12Leaves("service", reflect.TypeFor[astra.Service](), map[reflect.Type]int{}, func(root reflect.Value) (reflect.Value, func()) { return root, func() {} })
			n := 0
			one := func(id string, prepare func(s *astra.Service)) {
				n++
				if !w.Mine(n) || !w.Start(id) {
					return
				}
				s := c12New()
				prepare(s)
				if err := c17Write(s, dir); err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, id, 3)
			}
			// a service that has everything else: a part is seen only where there is a path or a component for it
			around := func(s *astra.Service) {
				if s.Config == nil {
					s.Config = &astra.Config{Port: 1}
				}
				for i := range s.Routes {
					if s.Routes[i].Path == "" {
						s.Routes[i].Path = "/p/:id"
					}
					if s.Routes[i].Method == "" {
						s.Routes[i].Method = "POST"
					}
				}
				for i := range s.Components {
					if s.Components[i].Name == "" {
						s.Components[i].Name, s.Components[i].Package = "T", "p"
					}
				}
				s.Components = append(s.Components, astra.Field{Name: "value", Package: "value", Type: "struct", Doc: "of all kinds", StructFields: map[string]astra.Field{
					"A": {Type: "any", StructFieldBindingTags: c08Tags("none", "A")}, "S": {Type: "string", StructFieldBindingTags: c08Tags("all", "S")},
				}})
			}
			set := func(s *astra.Service, l leaf, v reflect.Value) {
				at, done := l.at(reflect.ValueOf(s).Elem())
				at.Set(v)
				done()
			}
			for _, l := range leaves {
				for i, v := range c12Values(l) {
					one(fmt.Sprintf("%s=%d:%.20v", l.path, i, v), func(s *astra.Service) { set(s, l, v); around(s) })
				}
			}
			for i, f := range c12Keys() {
				one(fmt.Sprintf("keys %d", i), func(s *astra.Service) { f(s); around(s) })
			}
			leaves = c12Pairable(leaves, w.Thorough())
			for i, a := range leaves {
				for _, b := range leaves[i+1:] {
					va, vb := c12Values(a), c12Values(b)
					if !w.Thorough() {
						va, vb = va[:1], vb[:1]
					} else {
						va, vb = va[:min(6, len(va))], vb[:min(4, len(vb))]
					}
					for x, av := range va {
						for y, bv := range vb {
							one(fmt.Sprintf("%s=%d %s=%d", a.path, x, b.path, y), func(s *astra.Service) { set(s, a, av); set(s, b, bv); around(s) })
						}
					}
				}
			}
			// every kind of field in every place, together with every kind of component
			kinds := c17Kinds()
			for i, f := range kinds {
				for p, place := range c17Places {
					for j, c := range kinds {
						if !w.Thorough() && j > 0 && i > 0 && c17PlaceNames[p] != "component field" && c17PlaceNames[p] != "body" {
							continue
						}
						one(fmt.Sprintf("kind %d %s %d", i, c17PlaceNames[p], j), func(s *astra.Service) {
							c := c
							c.Name, c.Package = "T", "p"
							s.Components = append(s.Components, c)
							place(s, f)
							around(s)
						})
					}
				}
			}
			c17FileNames(w, &n)
			return c17Lists(w, &n)
		},
		Assumptions: []string{"text is valid UTF-8", "the directory of an output exists"},
	})
}

func c17FileNames(w *core.W, n *int) {
	for _, f := range c17Names {
		for _, kind := range []string{"openapi", "json"} {
			for _, before := range []bool{false, true} {
				*n++
				id := fmt.Sprintf("name %s %s before=%v", kind, f.name, before)
				if !w.Mine(*n) || !w.Start(id) {
					continue
				}
				dir := filepath.Join(w.Dir, "names")
				os.RemoveAll(dir)
				os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
				file, isYAML := f.file, f.yaml
				if kind == "json" {
					isYAML = false
					if !strings.HasSuffix(f.name, ".json") {
						file = strings.TrimPrefix(f.name, "./") + ".json"
					}
				}
				if before {
					os.WriteFile(filepath.Join(dir, file), []byte(strings.Repeat("old content that is longer than the new one\n", 500)), 0o644)
				}
				err := guard(func() error {
					s := c12New()
					s.WorkDir = dir
					gen := openapi.Generate(f.name)
					if kind == "json" {
						gen = json.Generate(f.name)
					}
					if err := gen(s); err != nil {
						return err
					}
					got := tree(dir, nil)
					delete(got, "sub/")
					if len(got) != 1 {
						return fmt.Errorf("%d files: %v", len(got), got)
					}
					text, ok := got[file]
					if !ok {
						return fmt.Errorf("%s was not written", file)
					}
					if _, err := parseJSON([]byte(text)); (err == nil) == isYAML {
						return fmt.Errorf("%s: yaml=%v expected, reading as JSON: %v", file, isYAML, err)
					}
					var v map[string]any
					return yaml.Unmarshal([]byte(text), &v)
				})
				if err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, id, 1)
			}
		}
	}
}

// c17Lists generates several outputs at once.
func c17Lists(w *core.W, n *int) error {
	if w.Shard > 1 {
		return nil
	}
	dir, err := core.FixModule(w)
	if err != nil {
		return err
	}
	kinds := []struct {
		name string
		opt  func() astra.Option
	}{
		{"o.json", func() astra.Option { return outputs.WithOpenAPIOutput("o.json") }},
		{"o.yaml", func() astra.Option { return outputs.WithOpenAPIOutput("o.yaml") }},
		{"noext", func() astra.Option { return outputs.WithOpenAPIOutput("noext") }},
		{"j", func() astra.Option { return outputs.WithJSONOutput("j") }},
		{"azure-out", func() astra.Option { return outputs.WithAzureFunctionsOutput("azure-out") }},
		{"second", func() astra.Option { return outputs.WithAzureFunctionsOutput("second") }},
	}
	sources := tree(dir, nil)
	run := func(mask int, list []int) (map[string]string, error) {
		opts := append(richOptions(mask), astra.WithCustomWorkDir(dir))
		for _, k := range list {
			opts = append(opts, kinds[k].opt())
		}
		if err := guard(astra.New(opts...).Parse); err != nil {
			return nil, err
		}
		got := tree(dir, nil)
		for f := range sources {
			delete(got, f)
		}
		for f := range got {
			os.RemoveAll(filepath.Join(dir, f))
		}
		return got, nil
	}
	length := 3
	if w.Thorough() {
		length = 4
	}
	for _, mask := range []int{richAll, 1, 0b01010} {
		alone := make([]map[string]string, len(kinds))
		var lists func(cur []int) error
		lists = func(cur []int) error {
			if len(cur) > 0 {
				*n++
				id := fmt.Sprintf("outputs %d %v", mask, cur)
				if w.Few(*n, 2) && w.Start(id) {
					err := func() error {
						want := map[string]string{}
						for _, k := range cur {
							if alone[k] == nil {
								m, err := run(mask, []int{k})
								if err != nil {
									return err
								}
								alone[k] = m
							}
							for f, b := range alone[k] {
								want[f] = b
							}
						}
						got, err := run(mask, cur)
						if err != nil {
							return err
						}
						return diffTrees(got, want)
					}()
					if err != nil {
						w.Violation(id, err.Error(), nil)
					}
					w.Done(id, id, 4+len(cur))
				}
			}
			if len(cur) == length {
				return nil
			}
			for k := range kinds {
				if err := lists(append(append([]int{}, cur...), k)); err != nil {
					return err
				}
			}
			return nil
		}
		if err := lists(nil); err != nil {
			return err
		}
	}
	return nil
}

// c17Kinds are fields of every kind that can be documented.
func c17Kinds() []astra.Field {
	var r []astra.Field
	for _, of := range []string{"string", "int64", "T", "any", "nil", "float32", "bool"} {
		r = append(r, astra.Field{Type: of, Package: "p"}, astra.Field{Type: "slice", SliceType: of, Package: "p"},
			astra.Field{Type: "array", ArrayType: of, ArrayLength: 3, Package: "p"}, astra.Field{Type: "array", ArrayType: of, Package: "p"},
			astra.Field{Type: "map", MapKeyType: "string", MapValueType: of, Package: "p"}, astra.Field{Type: "slice", SliceType: of, Package: "q", ValuePackage: "p", Doc: "a: doc\n# of two lines"})
	}
	tags := c08Tags("all", "F")
	r = append(r,
		astra.Field{Type: "struct"}, astra.Field{Type: "Time", Package: "time"}, astra.Field{Type: "file"},
		astra.Field{Type: "string", EnumValues: []any{"a", "null", "1", "x: y", ""}}, astra.Field{Type: "int", EnumValues: []any{1, -2, 1 << 40}},
		astra.Field{Type: "float64", EnumValues: []any{1.0, 2.5, 1e21, 1e-9}}, astra.Field{Type: "bool", EnumValues: []any{true}},
		astra.Field{Type: "struct", Doc: "doc", StructFields: map[string]astra.Field{"F": {Type: "T", Package: "p", StructFieldBindingTags: tags, IsRequired: true}, "G": {Type: "string", Doc: "field doc"}}},
		astra.Field{Type: "struct", StructFields: map[string]astra.Field{"T": {Type: "T", Package: "p", IsEmbedded: true}}},
		astra.Field{Type: "struct", StructFields: map[string]astra.Field{"T": {Type: "T", Package: "p", IsEmbedded: true}, "G": {Type: "array", ArrayType: "uint8", ArrayLength: 16}, "y": {Type: "any"}}})
	return r
}

var c17PlaceNames = []string{"component", "component field", "body", "named body", "array body", "map body", "response", "query", "array query", "map query", "bound query", "header", "response header", "path", "optional path"}

// c17Places put a field into a service.
var c17Places = func() []func(s *astra.Service, f astra.Field) {
	route := func(add func(r *astra.Route, f astra.Field)) func(s *astra.Service, f astra.Field) {
		return func(s *astra.Service, f astra.Field) {
			r := astra.Route{Handler: "main.h", Method: "PUT", Path: "/k/:id/*rest", OperationID: "h", Doc: "text"}
			add(&r, f)
			s.Routes = append(s.Routes, r)
		}
	}
	param := func(list func(r *astra.Route) *[]astra.Param, p astra.Param) func(s *astra.Service, f astra.Field) {
		return route(func(r *astra.Route, f astra.Field) {
			p.Name, p.Field = "n", f
			*list(r) = append(*list(r), p)
		})
	}
	query := func(r *astra.Route) *[]astra.Param { return &r.QueryParams }
	body := func(b astra.BodyParam) func(s *astra.Service, f astra.Field) {
		return route(func(r *astra.Route, f astra.Field) {
			b.Field = f
			for _, ct := range []string{"application/json", "application/yaml", "multipart/form-data"} {
				b.ContentType = ct
				r.Body = append(r.Body, b)
			}
		})
	}
	return []func(s *astra.Service, f astra.Field){
		func(s *astra.Service, f astra.Field) {
			f.Name, f.Package = "K", "p"
			s.Components = append(s.Components, f)
		},
		func(s *astra.Service, f astra.Field) {
			f.StructFieldBindingTags = c08Tags("all", "F")
			s.Components = append(s.Components, astra.Field{Name: "K", Package: "p", Type: "struct", Doc: "K", StructFields: map[string]astra.Field{"F": f}})
		},
		body(astra.BodyParam{}), body(astra.BodyParam{Name: "n"}), body(astra.BodyParam{Name: "n", IsArray: true}), body(astra.BodyParam{Name: "n", IsMap: true}),
		route(func(r *astra.Route, f astra.Field) {
			for _, ct := range []string{"application/json", "application/xml", "text/plain", ""} {
				r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 200, ContentType: ct, Field: f})
			}
		}),
		param(query, astra.Param{}), param(query, astra.Param{IsArray: true, IsRequired: true}), param(query, astra.Param{IsMap: true}), param(query, astra.Param{IsBound: true}),
		param(func(r *astra.Route) *[]astra.Param { return &r.RequestHeaders }, astra.Param{}),
		func(s *astra.Service, f astra.Field) {
			route(func(r *astra.Route, f astra.Field) {
				r.ResponseHeaders = []astra.Param{{Name: "n", Field: f}}
				r.ReturnTypes = []astra.ReturnType{{StatusCode: 204, Field: astra.Field{Type: "nil"}}}
			})(s, f)
		},
		param(func(r *astra.Route) *[]astra.Param { return &r.PathParams }, astra.Param{IsRequired: true}),
		param(func(r *astra.Route) *[]astra.Param { return &r.PathParams }, astra.Param{}),
	}
}()
