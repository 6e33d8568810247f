package checks

import (
	"fmt"
	"strings"

	"github.com/ls6-events/astra"

	"vh/core"
)

// c23Type is a type that can be mapped.
type c23Type struct {
	name string
	typ
	key string // of the mapping, $N for the unit
}

func c23Types() []c23Type {
	jsonOnly := func(t c23Type) c23Type { // nothing is said about the other formats of a type with JSON tags only
		x := t.x("json")
		t.x = func(b string) *X { return jsonX(b, x) }
		return t
	}
	named := func(name, src, key, decls string, x *X, imps ...string) c23Type {
		return c23Type{name, typ{name: name, src: src, decls: decls, imps: imps, x: same(x)}, key}
	}
	return []c23Type{
		jsonOnly(named("struct", "ext.Item", "vapp/ext.Item", "", xItem(), impExt)),
		jsonOnly(named("other", "deepext.Item", "vapp/deep/ext.Item", "", xDeepItem(), impDeep)),
		jsonOnly(named("outer", "deepext.Wrap", "vapp/deep/ext.Wrap", "", xWrap(), impDeep)),
		named("enum", "ext.Color", "vapp/ext.Color", "", xColor(), impExt),
		named("slice", "ext.Tags", "vapp/ext.Tags", "", core.Arr(scalar("string")), impExt),
		named("local", "Lt$N", "vapp/h.Lt$N", "type Lt$N struct {\n\tA int8\n}\n", obj("A", scalar("int8"))),
		named("localmap", "Lm$N", "vapp/h.Lm$N", "type Lm$N map[string]bool\n", core.Map(scalar("bool"))),
		named("localscalar", "Ls$N", "vapp/h.Ls$N", "type Ls$N int64\n", scalar("int64")),
		named("iface", "Li$N", "vapp/h.Li$N", "type Li$N interface{ M() }\n", core.Any()),
		named("time", "time.Time", "time.Time", "", core.Prim("string", "date-time"), `"time"`),
		named("duration", "time.Duration", "time.Duration", "", scalar("int"), `"time"`),
		named("month", "time.Month", "time.Month", "", scalar("int"), `"time"`),
		named("uuid", "uuid.UUID", "github.com/google/uuid.UUID", "", core.Prim("string", "uuid"), `"github.com/google/uuid"`),
		// types that are called like the ones with a mapping, in packages that are called like theirs
		named("own time", "owntime.Time", "vapp/time.Time", "", obj("Hour", scalar("int"), "Minute", scalar("int")), `owntime "vapp/time"`),
		named("own duration", "owntime.Duration", "vapp/time.Duration", "", scalar("float64"), `owntime "vapp/time"`),
		named("own uuid", "ownuuid.UUID", "vapp/google/uuid.UUID", "", core.Arr(scalar("string")), `ownuuid "vapp/google/uuid"`),
	}
}

// c23Map is a way to give mappings, and what the last one for the key is.
type c23Map struct {
	name string
	opts func(key string) []astra.Option
	x    *X // nil when there is none for the key
}

func c23Maps() []c23Map {
	tf := func(t, f string) astra.TypeFormat { return astra.TypeFormat{Type: t, Format: f} }
	single := astra.WithCustomTypeMappingSingle
	all := astra.WithCustomTypeMapping
	type m = map[string]astra.TypeFormat
	return []c23Map{
		{"single", func(k string) []astra.Option { return []astra.Option{single(k, "string", "own")} }, core.Prim("string", "own")},
		{"single without format", func(k string) []astra.Option { return []astra.Option{single(k, "number", "")} }, core.Prim("number", "")},
		{"any", func(k string) []astra.Option { return []astra.Option{single(k, "", "")} }, core.Any()},
		{"map", func(k string) []astra.Option {
			return []astra.Option{all(m{k: tf("integer", "unix"), "vapp/none.X": tf("string", "")})}
		}, core.Prim("integer", "unix")},
		{"single then single", func(k string) []astra.Option {
			return []astra.Option{single(k, "string", "old"), single(k, "boolean", "")}
		}, core.Prim("boolean", "")},
		{"map then single", func(k string) []astra.Option {
			return []astra.Option{all(m{k: tf("string", "old")}), single(k, "integer", "new")}
		}, core.Prim("integer", "new")},
		{"single then map", func(k string) []astra.Option {
			return []astra.Option{single(k, "string", "old"), all(m{k: tf("integer", "new")})}
		}, core.Prim("integer", "new")},
		{"map then map without it", func(k string) []astra.Option {
			return []astra.Option{all(m{k: tf("string", "kept")}), all(m{"vapp/none.X": tf("integer", "")})}
		}, core.Prim("string", "kept")},
		{"of similar names", func(k string) []astra.Option {
			pkg, name := k[:strings.LastIndex(k, ".")], k[strings.LastIndex(k, ".")+1:]
			var o []astra.Option
			for _, s := range []string{name, pkg, pkg + "/" + name, pkg + "." + name + "s", pkg + "." + strings.ToLower(name), "x/" + k, pkg + "x." + name, "main." + name, "." + name, pkg[strings.LastIndex(pkg, "/")+1:] + "/" + name, strings.ReplaceAll(k, "/", "."), pkg + ".*" + name, "*" + k, "[]" + k} {
				if s != k {
					o = append(o, single(s, "boolean", "wrong"))
				}
			}
			if i := strings.Index(pkg, "/"); i >= 0 {
				o = append(o, single(k[i+1:], "boolean", "wrong"))
			}
			return o
		}, nil},
	}
}

// c23Positions are the places of a type t in the documentation. named is whether a component of the unit refers to it.
func c23Positions() []struct {
	name string
	mk   func(t typ) (typ, bool)
} {
	tags := tagged2("k")
	return []struct {
		name string
		mk   func(t typ) (typ, bool)
	}{
		{"value", func(t typ) (typ, bool) { return t, true }},
		{"pointer", func(t typ) (typ, bool) { return ptrTo(t), true }},
		{"slice", func(t typ) (typ, bool) { return sliceOf(t), true }},
		{"slice of pointers", func(t typ) (typ, bool) { return slicePtrOf(t), true }},
		{"array", func(t typ) (typ, bool) { return arrayOf(t), true }},
		{"map", func(t typ) (typ, bool) { return mapOf(t), true }},
		{"field", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "F", t: t}, fld{name: "Z", t: scalarTyp("bool")}), false
		}},
		{"tagged field", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "F", t: t, tags: tags}, fld{name: "Z", t: scalarTyp("bool"), tags: tagged2("z")}), false
		}},
		{"pointer field", func(t typ) (typ, bool) { return structTyp("S$N", fld{name: "F", t: ptrTo(t)}), false }},
		{"container fields", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "A", t: sliceOf(t)}, fld{name: "B", t: noDecl(arrayOf(t))}, fld{name: "C", t: noDecl(mapOf(t))}, fld{name: "D", t: noDecl(mapIntOf(t))}, fld{name: "E", t: noDecl(slicePtrOf(t))}), false
		}},
		{"several fields", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "F", t: t}, fld{name: "G", t: noDecl(t), tags: tags}, fld{name: "H", t: scalarTyp("int")}), false
		}},
		{"named slice", func(t typ) (typ, bool) { return named("Nm$N", sliceOf(t)), true }},
		{"named map field", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "F", t: named("Nm$N", mapOf(t))}), false
		}},
		{"nested", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "F", t: structTyp("In$N", fld{name: "G", t: t})}), false
		}},
		{"embedded struct", func(t typ) (typ, bool) {
			return structTyp("S$N", fld{name: "In$N", emb: true, t: structTyp("In$N", fld{name: "G", t: t})}, fld{name: "H", t: scalarTyp("int")}), false
		}},
		{"alias", func(t typ) (typ, bool) {
			a := typ{name: "al", src: "Al$N", decls: t.decls + "type Al$N = " + t.src + "\n", imps: t.imps, x: t.x}
			return structTyp("S$N", fld{name: "F", t: a}), false
		}},
	}
}

func noDecl(t typ) typ { t.decls = ""; return t }

func jsonX(b string, x *X) *X {
	if b == "json" {
		return x
	}
	return core.FreeOpt()
}

func c23Units(thorough bool) []Unit {
	var units []Unit
	n := 0
	for _, t := range c23Types() {
		for _, p := range c23Positions() {
			n++
			sfx := pr("R%04d", n)
			mk := func(m *c23Map, other bool) Unit {
				tt := t.typ
				id := t.name + " as " + p.name
				var opts []astra.Option
				if m != nil {
					opts = m.opts(sub(t.key, sfx))
					id += ", mapped " + m.name
					if m.x != nil {
						tt.x = same(m.x)
					}
				}
				if other { // a mapping for the type of the same name in another package, or for the parts of the type
					key := map[string]string{"struct": "vapp/deep/ext.Item", "other": "vapp/ext.Item"}[t.name]
					if key == "" {
						key = sub("vapp/h.S$N/none", sfx)
					}
					opts = append(opts, astra.WithCustomTypeMappingSingle(key, "boolean", "wrong"))
					id += ", and the other one"
				}
				shape, value := p.mk(tt)
				body := placesBody
				e := everyPlace(shape)
				if value {
					body = "\tvar v %s\n\t_ = c.ShouldBindJSON(&v)\n\tc.JSON(200, v)\n\tc.XML(200, v)\n\tc.YAML(200, v)\n"
					e.Body = map[string]*X{"application/json": shape.x("json")}
					e.Params = nil
				}
				return Unit{ID: id, Imports: t.imps, Src: sub(shape.decls, sfx) + handler(sfx, pr(body, shape.src)), Opts: opts,
					Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + sfx}}, Check: core.Is(e)}
			}
			u := mk(nil, false)
			for _, m := range c23Maps() {
				u.Also = append(u.Also, mk(&m, false))
			}
			o := mk(nil, true)
			u.Also = append(u.Also, o)
			if thorough {
				for _, m := range c23Maps() {
					u.Also = append(u.Also, mk(&m, true))
				}
			}
			units = append(units, u)
		}
	}
	// a type declared with a mapped one as its underlying type is another type, and a mapped struct hides its fields' types
	n++
	sfx := pr("R%04d", n)
	for i, c := range []struct {
		id, src string
		opts    []astra.Option
		x       func(string) *X
	}{
		{"declared from", "type D$N ext.Item\ntype S$N struct {\n\tF D$N\n\tG ext.Item\n}\n", []astra.Option{astra.WithCustomTypeMappingSingle("vapp/ext.Item", "string", "item")}, func(b string) *X { return obj("F", jsonX(b, xItem()), "G", core.Prim("string", "item")) }},
		{"parts", "type S$N struct {\n\tF deepext.Wrap\n\tG ext.Item\n}\n", []astra.Option{astra.WithCustomTypeMappingSingle("vapp/ext.Item", "string", "item")}, func(b string) *X {
			return obj("F", jsonX(b, obj("up", core.Prim("string", "item"), "mine", xDeepItem())), "G", core.Prim("string", "item"))
		}},
		{"whole", "type S$N struct {\n\tF deepext.Wrap\n\tG ext.Item\n}\n", []astra.Option{astra.WithCustomTypeMappingSingle("vapp/deep/ext.Wrap", "string", "wrap")}, func(b string) *X { return obj("F", core.Prim("string", "wrap"), "G", jsonX(b, xItem())) }},
		{"both", "type S$N struct {\n\tF deepext.Wrap\n\tG ext.Item\n}\n", []astra.Option{astra.WithCustomTypeMapping(map[string]astra.TypeFormat{"vapp/deep/ext.Wrap": {Type: "string", Format: "w"}, "vapp/ext.Item": {Type: "integer", Format: "i"}, "vapp/deep/ext.Item": {Type: "number", Format: "d"}})}, same(obj("F", core.Prim("string", "w"), "G", core.Prim("integer", "i")))},
	} {
		s := sfx + string(rune('a'+i))
		t := typ{src: "S$N", decls: c.src, x: c.x}
		u := Unit{ID: c.id, Imports: []string{impExt, impDeep}, Src: sub(t.decls, s) + "var _ deepext.Item\n" + handler(s, pr(placesBody, t.src)), Opts: c.opts,
			Routes: []core.Route{{Method: "POST", Path: "/x", Func: "H" + s}}, Check: core.Is(everyPlace(t))}
		if c.id == "declared from" {
			u.Src = strings.ReplaceAll(u.Src, "var _ deepext.Item\n", "")
			u.Imports = u.Imports[:1]
		}
		units = append(units, u)
	}
	return units
}

// c23Table looks at the mapping itself: every sequence of options over an alphabet, and every name.
func c23Table(w *core.W) {
	keys := []string{"string", "int", "time.Time", "vapp/ext.Item", "vapp/deep/ext.Item", "github.com/google/uuid.UUID", "Item", "file"}
	lookups := [][2]string{{"string", ""}, {"string", "vapp/ext"}, {"int", ""}, {"int64", ""}, {"Time", "time"}, {"Time", "vapp/time"}, {"Item", "vapp/ext"}, {"Item", "vapp/deep/ext"}, {"Item", ""}, {"Item", "ext"}, {"UUID", "github.com/google/uuid"}, {"UUID", "other/uuid"}, {"file", ""}, {"Nothing", "vapp/ext"}}
	predefined := map[string]astra.TypeFormat{}
	for k, v := range astra.PredefinedTypeMap {
		predefined[k] = v
	}
	type call struct {
		id   string
		keys []string
		all  bool
	}
	var calls []call
	for i, k := range keys {
		calls = append(calls, call{"one " + k, []string{k}, false})
		calls = append(calls, call{"all " + k, []string{k, keys[(i+1)%len(keys)]}, true})
	}
	calls = append(calls, call{"all", nil, true})
	depth := 3
	if w.Thorough() {
		depth = 4
	}
	n := 0
	var rec func(path []call)
	rec = func(path []call) {
		n++
		if w.Mine(n) {
			id := fmt.Sprint("table ", path)
			if w.Start(id) {
				err := guard(func() error {
					want := map[string]astra.TypeFormat{}
					for k, v := range predefined {
						want[k] = v
					}
					opts := []astra.Option{Quiet()}
					for i, c := range path {
						given := map[string]astra.TypeFormat{}
						for j, k := range c.keys {
							v := astra.TypeFormat{Type: "t" + fmt.Sprint(i), Format: fmt.Sprint("f", j)}
							given[k], want[k] = v, v
							if !c.all {
								opts = append(opts, astra.WithCustomTypeMappingSingle(k, v.Type, v.Format))
							}
						}
						if c.all {
							opts = append(opts, astra.WithCustomTypeMapping(given))
						}
					}
					s := astra.New(opts...)
					for round := 0; round < 2; round++ {
						for _, l := range lookups {
							key := l[1] + "." + l[0]
							if astra.IsAcceptedType(l[0]) {
								key = l[0]
							}
							v, ok := want[key]
							if got, found := s.GetTypeMapping(l[0], l[1]); found != ok || got != v {
								return fmt.Errorf("%s of %q is %v %v, expected %v %v", l[0], l[1], got, found, v, ok)
							}
						}
					}
					if len(astra.PredefinedTypeMap) != len(predefined) {
						return fmt.Errorf("the predefined mapping has %d types, it had %d", len(astra.PredefinedTypeMap), len(predefined))
					}
					for k, v := range predefined {
						if astra.PredefinedTypeMap[k] != v {
							return fmt.Errorf("the predefined mapping of %s is %v", k, astra.PredefinedTypeMap[k])
						}
					}
					return nil
				})
				if err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, id, len(path)+2*len(lookups))
			}
		}
		if len(path) < depth {
			for _, c := range calls {
				rec(append(append([]call{}, path...), c))
			}
		}
	}
	rec(nil)
}

func init() {
	core.Register(&core.Check{
		ID:   "C23",
		Rule: "One case is a type in a position with a way of mapping it, or a sequence of mapping options.",
		Run: func(w *core.W) error {
			c23Table(w)
			return core.RunUnits(w, c23Units(w.Thorough()), support)
		},
		Assumptions: []string{"mapped types are declared in a package, not embedded without a name"},
	})
}
