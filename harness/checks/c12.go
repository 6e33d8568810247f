package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"

	"vh/core"
)

// leaf is one part of a service that a cache has to keep.
type leaf struct {
	path string
	typ  reflect.Type
	// at returns the settable place in a service, making what is on the way to it; done has to be called when it's set.
	at func(root reflect.Value) (reflect.Value, func())
}

var c12Skipped = map[string]bool{"Log": true, "WorkDir": true, "CacheEnabled": true, "CachePath": true, "CLIMode": true,
	"PathDenyList": true, "CustomFuncs": true, "CreateRoutes": true, "ParseRoutes": true, "Generate": true}

// c12Leaves finds every part of a type. Slices have one element, maps one key; types that contain themselves are followed once more.
func c12Leaves(path string, t reflect.Type, depth map[reflect.Type]int, at func(reflect.Value) (reflect.Value, func())) []leaf {
	switch t.Kind() {
	case reflect.Pointer:
		return c12Leaves(path, t.Elem(), depth, func(root reflect.Value) (reflect.Value, func()) {
			v, done := at(root)
			if v.IsNil() {
				v.Set(reflect.New(t.Elem()))
			}
			return v.Elem(), done
		})
	case reflect.Struct:
		if depth[t] >= 2 {
			return nil
		}
		depth[t]++
		defer func() { depth[t]-- }()
		var r []leaf
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || c12Skipped[f.Name] {
				continue
			}
			r = append(r, c12Leaves(path+"."+f.Name, f.Type, depth, func(root reflect.Value) (reflect.Value, func()) {
				v, done := at(root)
				return v.Field(i), done
			})...)
		}
		return r
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Interface {
			break
		}
		return c12Leaves(path+"[]", t.Elem(), depth, func(root reflect.Value) (reflect.Value, func()) {
			v, done := at(root)
			if v.Len() == 0 {
				v.Set(reflect.Append(v, reflect.Zero(t.Elem())))
			}
			return v.Index(0), done
		})
	case reflect.Map:
		if t.Elem().Kind() == reflect.Interface {
			break
		}
		key := reflect.ValueOf("key").Convert(t.Key())
		return c12Leaves(path+"{}", t.Elem(), depth, func(root reflect.Value) (reflect.Value, func()) {
			v, done := at(root)
			if v.IsNil() {
				v.Set(reflect.MakeMap(t))
			}
			e := reflect.New(t.Elem()).Elem()
			if old := v.MapIndex(key); old.IsValid() {
				e.Set(old)
			}
			return e, func() { v.SetMapIndex(key, e); done() }
		})
	}
	return []leaf{{path, t, at}}
}

// c12Values are the values of a leaf. The first is the one used in combinations.
func c12Values(l leaf) []reflect.Value {
	var r []reflect.Value
	add := func(vs ...any) {
		for _, v := range vs {
			r = append(r, reflect.ValueOf(v).Convert(l.typ))
		}
	}
	switch l.typ.Kind() {
	case reflect.String:
		add("value", "null", "~", "true", "no", "y", "12", "0x1F", "1e3", ".5", "a: b", "- a", "# a", " lead", "trail ", "two\nlines\n", "tab\t", "\"q\"", "'q'", "<a&b>", "%", "{a}", "[a]", "*a", "&a", "!a", "|", "\u2028é日", "\\n", "2020-01-01", "=")
		if strings.HasSuffix(l.path, ".Type") {
			add("string", "struct", "slice", "map", "array", "T")
		}
	case reflect.Int, reflect.Int64:
		add(1, -1, 200, 1<<31, 1<<40, (1<<53)+1, 1<<62)
	case reflect.Bool:
		add(true)
	case reflect.Slice: // enum values, of one type each
		r = append(r, reflect.ValueOf([]any{int64(1), int64(2)}))
		for _, e := range [][]any{{"a", "1", "null", ""}, {1, 0, -7}, {int64(1) << 40, int64(1)<<53 + 1, int64(1)<<62 + 1}, {uint64(1)<<63 + 1, uint64(3)}, {1000000, 25000000}, {true, false}} {
			r = append(r, reflect.ValueOf(e))
		}
	case reflect.Map: // configuration of an output
		for _, k := range []astra.IOConfigurationKey{astra.IOConfigurationKeyFilePath, astra.IOConfigurationKeyDirectoryPath} {
			for _, v := range []string{"out.json", "true", "a b/c.yaml", "1"} {
				r = append(r, reflect.ValueOf(astra.IOConfiguration{k: v}))
			}
		}
	}
	return r
}

// c12Pairable are the parts that are combined: the fields of structs only where they are used, in components.
func c12Pairable(leaves []leaf, all bool) []leaf {
	var r []leaf
	for _, l := range leaves {
		if all || !strings.Contains(l.path, "StructField") || strings.HasPrefix(l.path, "service.Components") {
			r = append(r, l)
		}
	}
	return r
}

// c12Keys sets the keys of the maps: names of fields, types and bindings.
func c12Keys() []func(s *astra.Service) {
	var r []func(s *astra.Service)
	for _, k := range []string{"a", "y", "no", "12", "null", "a: b", "A.B/c", "", "~", "é", "key.T"} {
		r = append(r,
			func(s *astra.Service) { s.CustomTypeMapping[k] = astra.TypeFormat{Type: "string", Format: "f-" + k} },
			func(s *astra.Service) {
				s.Components = append(s.Components, astra.Field{Name: "T", Package: "p", Type: "struct", StructFields: map[string]astra.Field{k: {Type: "string",
					StructFieldBindingTags: astTraversal.BindingTagMap{astTraversal.NoBindingTag: {Name: k}}}}})
			})
	}
	for _, b := range append([]astTraversal.BindingTagType{astTraversal.NoBindingTag}, astTraversal.BindingTags...) {
		for _, tag := range []astTraversal.BindingTag{{Name: "n"}, {NotShown: true}, {Name: "n", ReturnOptional: true}} {
			for _, v := range append([]astTraversal.ValidationTagType{astTraversal.NoValidationTag}, astTraversal.ValidationTags...) {
				r = append(r, func(s *astra.Service) {
					s.Components = append(s.Components, astra.Field{Name: "T", Package: "p", Type: "struct", StructFields: map[string]astra.Field{"F": {Type: "string",
						StructFieldBindingTags:    astTraversal.BindingTagMap{b: tag},
						StructFieldValidationTags: astTraversal.ValidationTagMap{v: {IsRequired: true}}}}})
				})
			}
		}
	}
	for _, f := range []astra.Field{
		{Type: "float64", EnumValues: []any{1.0, 2.5, 1e6, 1e22, -3.0, 0.1}}, {Type: "float32", EnumValues: []any{float64(1), 1e-7}},
		{Type: "int", EnumValues: []any{1, 1000000, -1}}, {Type: "int64", EnumValues: []any{int64(1)<<53 + 1, int64(-1) << 62}},
		{Type: "uint64", EnumValues: []any{uint64(1)<<63 + 1, uint64(0)}}, {Type: "uint8", EnumValues: []any{uint64(255)}},
		{Type: "string", EnumValues: []any{"1", "1e3", "", "null", "<a>"}}, {Type: "bool", EnumValues: []any{true}},
	} {
		r = append(r, func(s *astra.Service) { f.Name, f.Package = "T", "p"; s.Components = append(s.Components, f) })
	}
	return r
}

// c12Same compares two values without telling nil from empty, or the Go types of equal numbers apart.
func c12Same(path string, a, b reflect.Value) error {
	for a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Errorf("%s: %v became %v", path, a, b)
		}
		return nil
	}
	bad := fmt.Errorf("%s: %#v became %#v", path, a, b)
	if isNum(a.Kind()) && isNum(b.Kind()) {
		if a.CanInt() != b.CanInt() || a.CanUint() != b.CanUint() {
			if fmt.Sprint(a) != fmt.Sprint(b) {
				return bad
			}
			return nil
		}
		if !a.Equal(b.Convert(a.Type())) {
			return bad
		}
		return nil
	}
	if a.Type() != b.Type() {
		return bad
	}
	switch a.Kind() {
	case reflect.Func:
		return nil
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return bad
			}
			return nil
		}
		return c12Same(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if !f.IsExported() || (c12Skipped[f.Name] && a.Type() != reflect.TypeFor[astra.Route]()) {
				continue
			}
			if err := c12Same(path+"."+f.Name, a.Field(i), b.Field(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Slice:
		if a.Len() != b.Len() {
			return bad
		}
		for i := 0; i < a.Len(); i++ {
			if err := c12Same(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() {
			return bad
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return fmt.Errorf("%s: key %q was lost", path, k)
			}
			if err := c12Same(path+"."+k.String(), a.MapIndex(k), b.MapIndex(k)); err != nil {
				return err
			}
		}
		return nil
	}
	if !a.Equal(b) {
		return bad
	}
	return nil
}

func isNum(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 }

// c12Outputs writes the outputs of a service; what fails is a part of the result.
func c12Outputs(s *astra.Service, dir string) []string {
	var r []string
	s.WorkDir = dir
	for _, o := range []struct {
		file string
		gen  astra.ServiceFunction
	}{{"o.json", openapi.Generate("o.json")}, {"o.yaml", openapi.Generate("o.yaml")}, {"j.json", json.Generate("j.json")}} {
		os.Remove(filepath.Join(dir, o.file))
		err := func() (err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			return o.gen(s)
		}()
		b, _ := os.ReadFile(filepath.Join(dir, o.file))
		r = append(r, fmt.Sprint(o.file, ": ", err, "\n", string(b)))
	}
	return r
}

func c12New() *astra.Service {
	return astra.New(core.Quiet(), astra.WithConfig(&astra.Config{Title: "t", Port: 1}))
}

// c12Trip stores a service, restores it in another one (fresh, or one that has other contents) and compares them.
func c12Trip(s *astra.Service, dir, file string, dirty bool) error {
	cachePath := filepath.Join(dir, file)
	s.CachePath = cachePath
	if err := s.Cache(); err != nil {
		return fmt.Errorf("storing: %w", err)
	}
	t := astra.New(core.Quiet())
	if dirty {
		t = astra.New(core.Quiet(), astra.WithConfig(&astra.Config{Title: "other", Contact: astra.Contact{Name: "other"}}), astra.WithCustomTypeMappingSingle("other.T", "string", "other"),
			outputs.WithJSONOutput("other.json"), outputs.WithJSONOutput("another.json"))
		t.Routes = []astra.Route{{Path: "/other", Doc: "other"}, {Path: "/another", OperationID: "other"}}
		t.Components = []astra.Field{{Name: "Other", Package: "other", Doc: "other"}, {Name: "T", Package: "other", Type: "string", EnumValues: []any{"other"}}}
		t.GetTypeMapping("T", "other")
	}
	if err := t.LoadCacheFromCustomPath(cachePath); err != nil {
		return fmt.Errorf("restoring: %w", err)
	}
	if err := c12Same("service", reflect.ValueOf(s).Elem(), reflect.ValueOf(t).Elem()); err != nil {
		return err
	}
	a, b := c12Outputs(s, dir), c12Outputs(t, dir)
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("outputs differ: %.300q became %.300q", diffFrom(a[i], b[i]), diffFrom(b[i], a[i]))
		}
	}
	return nil
}

// diffFrom returns the part of a where it starts to differ from b.
func diffFrom(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[max(0, i-40):min(len(a), i+100)]
}

func init() {
	core.Register(&core.Check{
		ID:    "C12",
		Level: "exhaustive within bounds",
		Rule: "a case is a service with one part (of every part that there is, found by reflection) set to one value, or two parts set, or the state of a real generation at one of its phases, " +
			"with the format of the cache and what was in the service that it is loaded into; the restored service must be equal and write byte-identical outputs",
		Run: func(w *core.W) error {
			dir := filepath.Join(w.Dir, "out")
			if err := os.MkdirAll(dir, 0o755); err != nil {
				return err
			}
			leaves := c12Leaves("service", reflect.TypeFor[astra.Service](), map[reflect.Type]int{}, func(root reflect.Value) (reflect.Value, func()) { return root, func() {} })
			if w.Shard == 0 {
				w.Count("parts", len(leaves))
			}
			n := 0
			// seen tells services that can't be told apart, so that every case is a different one
			one := func(id string, prepare func(s *astra.Service), variants int) {
				for v := 0; v < variants; v++ {
					n++
					if !w.Mine(n) {
						continue
					}
					file := []string{"c.json", "c.yaml", "c.yml"}[v%3]
					dirty := v >= 3 || variants == 2 && n/2%2 == 0
					name := fmt.Sprintf("%s %s dirty=%v", id, file, dirty)
					if !w.Start(name) {
						continue
					}
					s := c12New()
					prepare(s)
					if err := c12Trip(s, dir, file, dirty); err != nil {
						w.Violation(name, err.Error(), nil)
					}
					w.Done(name, name, 5)
				}
			}
			set := func(s *astra.Service, l leaf, v reflect.Value) {
				at, done := l.at(reflect.ValueOf(s).Elem())
				at.Set(v)
				done()
			}
			one("empty", func(s *astra.Service) {}, 6)
			one("no config", func(s *astra.Service) { s.Config = nil }, 6)
			for _, l := range leaves {
				for i, v := range c12Values(l) {
					one(fmt.Sprintf("%s=%d:%.20v", l.path, i, v), func(s *astra.Service) { set(s, l, v) }, 6)
				}
			}
			for i, f := range c12Keys() {
				one(fmt.Sprintf("keys %d", i), f, 6)
			}
			// two parts, with the values that are used for it
			leaves = c12Pairable(leaves, w.Thorough())
			for i, a := range leaves {
				for _, b := range leaves[i+1:] {
					va, vb := c12Values(a), c12Values(b)
					if !w.Thorough() {
						va, vb = va[:1], vb[:1]
					} else {
						va, vb = va[:min(3, len(va))], vb[:min(2, len(vb))]
					}
					for x, av := range va {
						for y, bv := range vb {
							one(fmt.Sprintf("%s=%d %s=%d", a.path, x, b.path, y), func(s *astra.Service) { set(s, a, av); set(s, b, bv) }, 2)
						}
					}
				}
			}
			return c12Phases(w)
		},
		Assumptions: []string{"deny rules and custom functions are code and are not stored", "text is valid UTF-8"},
	})
}
