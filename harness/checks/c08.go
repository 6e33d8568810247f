package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/openapi"

	"vh/core"
)

// comp is a component of a service that is made by hand.
type comp struct {
	pkg, name string
	style     string // none, json, all, hidden: the tags of a struct; slice, map, enum: other kinds of types
}

func (c comp) String() string { return c.pkg + ":" + c.name + ":" + c.style }

func (c comp) isStruct() bool { return c.style != "slice" && c.style != "map" && c.style != "enum" }

var c08Bindings = []struct {
	tag astTraversal.BindingTagType
	ct  string
}{
	{astTraversal.JSONBindingTag, "application/json"},
	{astTraversal.XMLBindingTag, "application/xml"},
	{astTraversal.YAMLBindingTag, "application/yaml"},
	{astTraversal.FormBindingTag, "application/x-www-form-urlencoded"},
	{astTraversal.HeaderBindingTag, ""},
}

// c08Tags are the tags of a field and its key under every binding.
func c08Tags(style, field string) astTraversal.BindingTagMap {
	t := astTraversal.BindingTagMap{}
	switch style {
	case "json":
		t[astTraversal.JSONBindingTag] = astTraversal.BindingTag{Name: "j" + field}
	case "all":
		for _, b := range astTraversal.BindingTags {
			t[b] = astTraversal.BindingTag{Name: string(b)[:1] + field}
		}
	case "hidden":
		t[astTraversal.JSONBindingTag] = astTraversal.BindingTag{Name: "j" + field}
		t[astTraversal.XMLBindingTag] = astTraversal.BindingTag{NotShown: true}
	default:
		t[astTraversal.NoBindingTag] = astTraversal.BindingTag{Name: field}
	}
	return t
}

// c08Says is whether the tags of a component say anything about a binding (the same rule as for C06).
func c08Says(style string, b astTraversal.BindingTagType) bool {
	tags := c08Tags(style, "F")
	_, untagged := tags[astTraversal.NoBindingTag]
	_, tagged := tags[b]
	return untagged || tagged
}

func c08Key(style, field string, b astTraversal.BindingTagType) (string, bool) {
	tags := c08Tags(style, field)
	if t, ok := tags[b]; ok {
		return t.Name, !t.NotShown
	}
	return field, true
}

// c08Build makes the components and the model of each of them under each binding.
// ref is how a component uses the next one.
func c08Build(comps []comp, ref string) ([]astra.Field, map[astTraversal.BindingTagType][]*X) {
	n := len(comps)
	next := func(i int) int { return (i + 1) % n }
	fields := make([]astra.Field, n)
	for i, c := range comps {
		marker := fmt.Sprintf("M%d", i)
		target := comps[next(i)]
		f := astra.Field{Name: c.name, Package: c.pkg, Doc: "doc " + marker}
		switch c.style {
		case "enum":
			f.Type, f.EnumValues = "string", []any{marker}
		case "slice":
			f.Type, f.SliceType, f.ValuePackage = "slice", target.name, target.pkg
		case "map":
			f.Type, f.MapKeyType, f.MapValueType, f.ValuePackage = "map", "string", target.name, target.pkg
		default:
			f.Type = "struct"
			f.StructFields = map[string]astra.Field{
				marker: {Type: "string", Package: c.pkg, StructFieldBindingTags: c08Tags(c.style, marker)},
			}
			var r astra.Field
			switch ref {
			case "":
				break
			case "direct":
				r = astra.Field{Type: target.name}
			case "slice":
				r = astra.Field{Type: "slice", SliceType: target.name}
			case "array":
				r = astra.Field{Type: "array", ArrayType: target.name, ArrayLength: 2}
			case "map":
				r = astra.Field{Type: "map", MapKeyType: "string", MapValueType: target.name}
			case "embed":
				if i == n-1 || !target.isStruct() {
					break
				}
				r = astra.Field{Type: target.name, IsEmbedded: true}
			}
			if r.Type != "" {
				name := fmt.Sprintf("R%d", i)
				r.Package = target.pkg
				r.StructFieldBindingTags = c08Tags(c.style, name)
				if r.IsEmbedded {
					name = target.name
					r.StructFieldBindingTags = c08Tags("none", name)
				}
				f.StructFields[name] = r
			}
		}
		fields[i] = f
	}
	models := map[astTraversal.BindingTagType][]*X{}
	for _, b := range c08Bindings {
		xs := make([]*X, n)
		for i := range xs {
			xs[i] = &X{}
		}
		for i := n - 1; i >= 0; i-- {
			c := comps[i]
			marker := fmt.Sprintf("M%d", i)
			doc := "doc " + marker
			target := xs[next(i)]
			var x *X
			switch c.style {
			case "enum":
				x = core.EnumOf(scalar("string"), marker)
			case "slice":
				x = core.Arr(target)
			case "map":
				x = core.Map(target)
			default:
				if !c08Says(c.style, b.tag) || (ref == "embed" && i != n-1 && comps[next(i)].isStruct() && target.Kind == "free") {
					x = core.FreeOpt()
					break
				}
				x = core.Obj(map[string]*X{})
				if k, ok := c08Key(c.style, marker, b.tag); ok {
					x.Props[k] = scalar("string")
				}
				var r *X
				switch ref {
				case "direct":
					r = target
				case "slice":
					r = core.Arr(target)
				case "array":
					r = core.ArrN(target, 2)
				case "map":
					r = core.Map(target)
				case "embed":
					if i != n-1 && comps[next(i)].isStruct() {
						for k, p := range target.Props {
							x.Props[k] = p
						}
					}
				}
				if r != nil {
					if k, ok := c08Key(c.style, fmt.Sprintf("R%d", i), b.tag); ok {
						x.Props[k] = r
					}
				}
			}
			*xs[i] = *x
			xs[i].Doc = &doc
		}
		models[b.tag] = xs
	}
	return fields, models
}

// c08Service gives a service the components of a list and a route for each of them, which uses it in every place.
func c08Service(s *astra.Service, comps []comp, ref string) map[astTraversal.BindingTagType][]*X {
	fields, models := c08Build(comps, ref)
	s.Components, s.Routes = fields, nil
	for i, c := range comps {
		r := astra.Route{Method: "POST", Path: fmt.Sprintf("/r%d", i)}
		for _, b := range c08Bindings {
			if b.ct == "" {
				continue
			}
			f := astra.Field{Type: c.name, Package: c.pkg}
			r.ReturnTypes = append(r.ReturnTypes,
				astra.ReturnType{StatusCode: 200, ContentType: b.ct, Field: f},
				astra.ReturnType{StatusCode: 201, ContentType: b.ct, Field: astra.Field{Type: "slice", SliceType: c.name, Package: c.pkg}},
				astra.ReturnType{StatusCode: 202, ContentType: b.ct, Field: astra.Field{Type: "map", MapKeyType: "string", MapValueType: c.name, Package: c.pkg}})
			r.Body = append(r.Body, astra.BodyParam{Field: f, ContentType: b.ct, IsBound: true})
		}
		if c.isStruct() {
			p := astra.Param{Field: astra.Field{Type: c.name, Package: c.pkg}, IsBound: true}
			r.QueryParams, r.RequestHeaders = []astra.Param{p}, []astra.Param{p}
		}
		s.Routes = append(s.Routes, r)
	}
	return models
}

func c08Case(w *core.W, s *astra.Service, dir, id string, comps []comp, ref string) {
	if !w.Start(id) {
		return
	}
	models := c08Service(s, comps, ref)
	fields := s.Components
	var outcome []string // the names of the components
	check := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		if err := openapi.Generate("o.json")(s); err != nil {
			return err
		}
		b, err := os.ReadFile(filepath.Join(dir, "o.json"))
		if err != nil {
			return err
		}
		doc := &core.Doc{}
		if err := json.Unmarshal(b, &doc.Root); err != nil {
			return err
		}
		if err := doc.DanglingRefs(); err != nil {
			return err
		}
		for i, c := range comps {
			op, _ := doc.Operation("POST", fmt.Sprintf("/r%d", i))
			var want []Resp
			body := map[string]*X{}
			for _, b := range c08Bindings {
				if b.ct == "" {
					continue
				}
				x := models[b.tag][i]
				want = append(want, Resp{200, b.ct, x}, Resp{201, b.ct, core.Arr(x)}, Resp{202, b.ct, core.Map(x)})
				body[b.ct] = x
			}
			if err := doc.MatchResponses(op, want); err != nil {
				return fmt.Errorf("%s: %w", c, err)
			}
			if err := doc.MatchBody(op, body); err != nil {
				return fmt.Errorf("%s: %w", c, err)
			}
			var pars []Par
			free := map[string]bool{}
			if c.isStruct() {
				for in, b := range map[string]astTraversal.BindingTagType{"query": astTraversal.FormBindingTag, "header": astTraversal.HeaderBindingTag} {
					free[in] = models[b][i].Kind == "free"
					for k, x := range models[b][i].Props {
						pars = append(pars, Par{in, k, false, x})
					}
				}
			}
			if err := doc.MatchParams(op, pars, free); err != nil {
				return fmt.Errorf("%s: %w", c, err)
			}
		}
		w.Count("component names", len(doc.Schemas()))
		for name := range doc.Schemas() {
			outcome = append(outcome, name)
		}
		sort.Strings(outcome)
		return nil
	}
	if err := check(); err != nil {
		w.Violation(id, err.Error(), fields)
	}
	w.Done(id, strings.Join(outcome, " "), 4+len(comps))
}

// c08Lists calls f with every ordered list of n different components.
func c08Lists(all []comp, n int, f func([]comp)) {
	var list []comp
	var rec func()
	rec = func() {
		if len(list) == n {
			f(append([]comp{}, list...))
			return
		}
	next:
		for _, c := range all {
			for _, o := range list {
				if o.pkg == c.pkg && o.name == c.name {
					continue next
				}
			}
			list = append(list, c)
			rec()
			list = list[:len(list)-1]
		}
	}
	rec()
}

func c08Product(pkgs, names, styles []string) []comp {
	var r []comp
	for _, p := range pkgs {
		for _, n := range names {
			for _, s := range styles {
				r = append(r, comp{p, n, s})
			}
		}
	}
	return r
}

func init() {
	core.Register(&core.Check{
		ID:    "C08",
		Level: "exhaustive within bounds",
		Rule: "a case is an ordered list of components (package path x name x kind and tags) and a way in which each uses the next one; " +
			"the service made of them, with one route per component that uses it under every binding, is written by the real generator, " +
			"and every reference must resolve to the component with the marker of the type that is meant; a second part generates real packages",
		Run: func(w *core.W) error {
			dir := filepath.Join(w.Dir, "out")
			if err := os.MkdirAll(dir, 0o755); err != nil {
				return err
			}
			s := astra.New(core.Quiet(), astra.WithCustomWorkDir(dir), astra.WithConfig(&astra.Config{Title: "t", Version: "1", Host: "h", Port: 1, BasePath: "/"}))
			n := 0
			run := func(all []comp, length int, refs ...string) {
				c08Lists(all, length, func(list []comp) {
					for _, ref := range refs {
						n++
						if !w.Mine(n) {
							continue
						}
						names := make([]string, len(list))
						for i, c := range list {
							names[i] = c.String()
						}
						c08Case(w, s, dir, strings.Join(names, " ")+" "+ref, list, ref)
					}
				})
			}
			paths := []string{"main", "x", "a/x", "b/x", "b/a/x", "c/b/a/x", "a.x", "x.json", "m/x.json", "x/json", "y", "b/y", "a/b/y"}
			core8 := []string{"a/x", "b/a/x", "c/x", "a.x", "x", "x/json", "x.json"}
			kinds := []string{"none", "json", "all", "hidden", "slice", "map", "enum"}
			allRefs := []string{"", "direct", "slice", "array", "map", "embed"}
			run(c08Product(paths, []string{"T"}, kinds), 1, allRefs...)
			run(c08Product(paths, []string{"T", "U"}, []string{"none", "json", "all"}), 2, "direct")
			run(c08Product(core8, []string{"T"}, kinds), 2, allRefs...)
			run(c08Product(core8, []string{"T"}, []string{"none", "json", "all"}), 3, "direct")
			run(c08Product([]string{"a", "aB", "x/a", "x/aB", "a/B", "a.B", "A", "x/A", "X/a"}, []string{"T", "t", "BT", "B_T", "json"}, []string{"none", "all"}), 2, "direct")
			if w.Thorough() {
				run(c08Product(paths, []string{"T", "U"}, kinds), 2, allRefs...)
				run(c08Product(paths, []string{"T"}, []string{"none", "json", "all"}), 3, "direct", "slice", "embed")
				run(c08Product(core8, []string{"T", "U"}, []string{"none", "json", "all"}), 3, "", "direct")
				run(c08Product(paths, []string{"T"}, []string{"none"}), 4, "direct")
				run(c08Product(core8, []string{"T"}, []string{"none", "all"}), 4, "direct", "embed")
			}
			return c08Real(w)
		},
		Assumptions: []string{"the components of a service have different identities (C18)"},
	})
}

// c08Real documents types of real packages whose names and paths collide.
func c08Real(w *core.W) error {
	pkgs := []string{"x", "a/x", "b/x", "b/a/x", "a.x", "y/json", "y"}
	files := map[string]string{}
	for i, p := range pkgs {
		base := p[strings.LastIndex(p, "/")+1:]
		base = strings.ReplaceAll(base, ".", "")
		imports, fields := "", ""
		if i+1 < len(pkgs) {
			imports = fmt.Sprintf("import next %q\n", core.ModuleName+"/"+pkgs[i+1])
			fields = "\tNext next.T\n\tMany []next.U `json:\"many\" xml:\"lots\"`\n"
		}
		files[p+"/t.go"] = fmt.Sprintf("package %s\n\n%s\ntype T struct {\n\tM%d string `json:\"m%d\" xml:\"x%d\"`\n%s}\n\ntype U struct { N%d int }\n", base, imports, i, i, i, fields, i)
	}
	src := "package h\n\nimport (\n\t\"github.com/gin-gonic/gin\"\n"
	for i, p := range pkgs {
		src += fmt.Sprintf("\tp%d %q\n", i, core.ModuleName+"/"+p)
	}
	src += ")\n\n"
	for i := range pkgs {
		src += fmt.Sprintf("func H%d(c *gin.Context) {\n\tc.JSON(200, p%d.T{})\n\tc.XML(200, p%d.T{})\n\tc.JSON(201, []p%d.U{})\n}\n\n", i, i, i, i)
	}
	files["h/h.go"] = src
	if w.Shard > 2 {
		return nil
	}
	dir := filepath.Join(w.Dir, "real")
	if err := core.WriteModule(dir, files); err != nil {
		return err
	}
	ts := map[string][]*X{"json": make([]*X, len(pkgs)), "xml": make([]*X, len(pkgs))}
	us := make([]*X, len(pkgs))
	for i := len(pkgs) - 1; i >= 0; i-- {
		us[i] = obj(fmt.Sprintf("N%d", i), scalar("int"))
		for b := range ts {
			marker, many := fmt.Sprintf("x%d", i), "lots"
			if b == "json" {
				marker, many = fmt.Sprintf("m%d", i), "many"
			}
			ts[b][i] = obj(marker, scalar("string"))
			if i+1 < len(pkgs) {
				ts[b][i].Props["Next"], ts[b][i].Props[many] = ts[b][i+1], core.Arr(us[i+1])
			}
		}
	}
	depth := 2
	if w.Thorough() {
		depth = 4
	}
	var subsets [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			subsets = append(subsets, append([]int{}, cur...))
		}
		if len(cur) == depth {
			return
		}
	next:
		for i := range pkgs {
			for _, c := range cur {
				if c == i {
					continue next
				}
			}
			rec(append(append([]int{}, cur...), i))
		}
	}
	rec(nil)
	sort.Slice(subsets, func(i, j int) bool { return len(subsets[i]) < len(subsets[j]) })
	for n, set := range subsets {
		if !w.Few(n, 3) {
			continue
		}
		names := []string{}
		u := &Unit{}
		for _, i := range set {
			names = append(names, pkgs[i])
			u.Routes = append(u.Routes, core.Route{Method: "GET", Path: fmt.Sprintf("/r%d", i), Func: fmt.Sprintf("H%d", i)})
		}
		u.ID = "real " + strings.Join(names, " ")
		if !w.Start(u.ID) {
			continue
		}
		u.Check = func(r *core.Result) error {
			if r.Err != nil {
				return r.Err
			}
			if err := r.Doc.DanglingRefs(); err != nil {
				return err
			}
			for _, i := range set {
				op, _ := r.Doc.Operation("GET", fmt.Sprintf("/r%d", i))
				if err := r.Doc.MatchResponses(op, []Resp{
					{200, "application/json", ts["json"][i]}, {200, "application/xml", ts["xml"][i]}, {201, "application/json", core.Arr(us[i])},
				}); err != nil {
					return fmt.Errorf("%s: %w", pkgs[i], err)
				}
			}
			return nil
		}
		res := core.RunOne(dir, u, func(r core.Route) (string, string, int) {
			return core.ModuleName + "/h." + r.Func, "h/h.go", core.Line(src, "func "+r.Func+"(")
		})
		if err := core.CheckResult(u, res); err != nil {
			w.Violation(u.ID, err.Error(), nil)
		}
		w.Done(u.ID, "ok", 4)
	}
	return nil
}
