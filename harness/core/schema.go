// Package core holds what every check shares: the reference model of schemas, the generated source
// modules, the worker pool and the evidence.
package core

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// X is the expected schema of a value: the reference model of what a document has to say.
// Named types are compared by structure (through $ref), never by the name of their component.
type X struct {
	Kind   string // any, prim, arr, map, obj, free
	Type   string
	Format string
	Elem   *X
	Len    int // fixed length of arr, 0 when not fixed
	Props  map[string]*X
	Enum   []any // nil means: no enum allowed
	Doc    *string
	Opt    bool     // free: it may be missing altogether
	Need   []string // free: with Props, which are the keys that there can be, those that there are if there are any
	ID     string
}

func Any() *X { return &X{Kind: "any"} }

func Free() *X                   { return &X{Kind: "free"} }
func FreeOpt() *X                { return &X{Kind: "free", Opt: true} }
func Prim(t, f string) *X        { return &X{Kind: "prim", Type: t, Format: f} }
func Arr(e *X) *X                { return &X{Kind: "arr", Elem: e} }
func ArrN(e *X, n int) *X        { return &X{Kind: "arr", Elem: e, Len: n} }
func Map(e *X) *X                { return &X{Kind: "map", Elem: e} }
func Obj(props map[string]*X) *X { return &X{Kind: "obj", Props: props} }
func EnumOf(x *X, v ...any) *X   { c := *x; c.Enum = v; return &c }

// Scalars is the documented mapping of the Go types (PredefinedTypeMap in the original code).
var Scalars = map[string]*X{
	"string": Prim("string", ""), "bool": Prim("boolean", ""),
	"int": Prim("integer", "int32"), "int8": Prim("integer", "int8"), "int16": Prim("integer", "int16"),
	"int32": Prim("integer", "int32"), "int64": Prim("integer", "int64"),
	"uint": Prim("integer", "uint"), "uint8": Prim("integer", "uint8"), "uint16": Prim("integer", "uint16"),
	"uint32": Prim("integer", "uint32"), "uint64": Prim("integer", "uint64"),
	"float32": Prim("number", "float32"), "float64": Prim("number", "float64"),
	"byte": Prim("string", "byte"), "rune": Prim("string", "rune"),
	"any": Any(),
}

// ScalarNames is the fixed order of the scalar alphabet.
var ScalarNames = []string{"string", "int", "bool", "float64", "int64", "uint", "int8", "int16", "int32", "uint8", "uint16", "uint32", "uint64", "float32"}

// Doc is a parsed OpenAPI document.
type Doc struct {
	Root map[string]any
}

func m(v any) map[string]any { r, _ := v.(map[string]any); return r }
func l(v any) []any          { r, _ := v.([]any); return r }
func s(v any) string         { r, _ := v.(string); return r }

func (d *Doc) Paths() map[string]any   { return m(d.Root["paths"]) }
func (d *Doc) Schemas() map[string]any { return m(m(d.Root["components"])["schemas"]) }

// Methods are the operations a path item can have.
var Methods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

// Operation returns an operation of the document.
func (d *Doc) Operation(method, path string) (map[string]any, bool) {
	op, ok := m(d.Paths()[path])[strings.ToLower(method)].(map[string]any)
	return op, ok
}

// Operations lists "method path" of all operations.
func (d *Doc) Operations() []string {
	var ops []string
	for p, item := range d.Paths() {
		for _, mth := range Methods {
			if _, ok := m(item)[mth]; ok {
				ops = append(ops, mth+" "+p)
			}
		}
	}
	sort.Strings(ops)
	return ops
}

const refPrefix = "#/components/schemas/"

func (d *Doc) resolve(ref string) (map[string]any, error) {
	if !strings.HasPrefix(ref, refPrefix) {
		return nil, fmt.Errorf("$ref %q is not a component", ref)
	}
	c, ok := d.Schemas()[strings.TrimPrefix(ref, refPrefix)].(map[string]any)
	if !ok {
		return nil, fmt.Errorf("$ref %q does not resolve", ref)
	}
	return c, nil
}

// Refs collects every $ref of the document with the place where it is.
func (d *Doc) Refs() map[string]string {
	out := map[string]string{}
	var walk func(at string, v any)
	walk = func(at string, v any) {
		switch t := v.(type) {
		case map[string]any:
			for k, c := range t {
				if k == "$ref" {
					if r, ok := c.(string); ok {
						out[at] = r
						continue
					}
				}
				walk(at+"/"+k, c)
			}
		case []any:
			for i, c := range t {
				walk(fmt.Sprintf("%s/%d", at, i), c)
			}
		}
	}
	walk("", d.Root)
	return out
}

// DanglingRefs reports the references that do not resolve.
func (d *Doc) DanglingRefs() error {
	refs := d.Refs()
	var at []string
	for k := range refs {
		at = append(at, k)
	}
	sort.Strings(at)
	for _, k := range at {
		if _, err := d.resolve(refs[k]); err != nil {
			return fmt.Errorf("%s at %s", err, k)
		}
	}
	return nil
}

type visit struct {
	ref string
	x   *X
}

// Match compares a schema of the document with the expected one, through references.
func (d *Doc) Match(schema map[string]any, x *X) error {
	return d.match("schema", schema, x, map[visit]bool{})
}

func keys(v map[string]any) []string {
	var r []string
	for k := range v {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func num(v any) any {
	switch n := v.(type) {
	case int:
		return float64(n)
	case int64:
		return float64(n)
	case uint64:
		return float64(n)
	}
	return v
}

func (d *Doc) match(at string, schema map[string]any, x *X, seen map[visit]bool) error {
	if x.Kind == "free" && x.Props == nil {
		return nil
	}
	doc := ""
	for {
		ref, ok := schema["$ref"].(string)
		if !ok {
			break
		}
		if seen[visit{ref, x}] {
			return nil
		}
		seen[visit{ref, x}] = true
		c, err := d.resolve(ref)
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		if dd := s(c["description"]); dd != "" && doc == "" {
			doc = dd
		}
		schema = c
	}
	if x.Doc != nil && doc != *x.Doc {
		return fmt.Errorf("%s: description %q, expected %q", at, doc, *x.Doc)
	}
	typ, format := s(schema["type"]), s(schema["format"])
	if x.Kind != "free" && !matchEnum(schema["enum"], x.Enum) {
		return fmt.Errorf("%s: enum %v, expected %v", at, schema["enum"], x.Enum)
	}
	switch x.Kind {
	case "free":
		props := map[string]any{}
		if err := d.flatten(at, schema, props, 0); err != nil {
			return err
		}
		return d.partial(at, props, x, seen)
	case "any":
		if typ != "" || schema["properties"] != nil || schema["allOf"] != nil || schema["items"] != nil {
			return fmt.Errorf("%s: %v, expected no constraint", at, schema)
		}
	case "prim":
		if typ != x.Type || format != x.Format {
			return fmt.Errorf("%s: type %q format %q, expected %q %q", at, typ, format, x.Type, x.Format)
		}
	case "arr":
		if typ != "array" {
			return fmt.Errorf("%s: type %q (%v), expected array", at, typ, schema)
		}
		items, ok := schema["items"].(map[string]any)
		if !ok {
			return fmt.Errorf("%s: no items", at)
		}
		if x.Len > 0 && num(schema["maxItems"]) != float64(x.Len) && num(schema["maxLength"]) != float64(x.Len) {
			return fmt.Errorf("%s: %v does not have the length %d", at, schema, x.Len)
		}
		return d.match(at+"[]", items, x.Elem, seen)
	case "map":
		ap, ok := schema["additionalProperties"].(map[string]any)
		if typ != "object" || !ok {
			return fmt.Errorf("%s: %v, expected an object with additionalProperties", at, schema)
		}
		return d.match(at+"{}", ap, x.Elem, seen)
	case "obj":
		props := map[string]any{}
		if err := d.flatten(at, schema, props, 0); err != nil {
			return err
		}
		if typ != "object" && schema["allOf"] == nil {
			return fmt.Errorf("%s: %v, expected an object", at, schema)
		}
		if schema["additionalProperties"] != nil {
			return fmt.Errorf("%s: unexpected additionalProperties", at)
		}
		want := map[string]any{}
		for k := range x.Props {
			want[k] = nil
		}
		if g, w := keys(props), keys(want); !reflect.DeepEqual(g, w) {
			return fmt.Errorf("%s: properties %v, expected %v", at, g, w)
		}
		for _, k := range keys(props) {
			if err := d.match(at+"."+k, m(props[k]), x.Props[k], seen); err != nil {
				return err
			}
		}
	default:
		return fmt.Errorf("bad kind %q", x.Kind)
	}
	return nil
}

// partial checks the properties of a type of which only some keys are known to be there.
func (d *Doc) partial(at string, props map[string]any, x *X, seen map[visit]bool) error {
	for _, k := range keys(props) {
		if x.Props[k] == nil {
			return fmt.Errorf("%s: unexpected property %q", at, k)
		}
		if err := d.match(at+"."+k, m(props[k]), x.Props[k], seen); err != nil {
			return err
		}
	}
	for _, k := range x.Need {
		if props[k] == nil {
			return fmt.Errorf("%s: no property %q", at, k)
		}
	}
	return nil
}

// MatchPartial checks the parameters of places of which only some names are known.
func (d *Doc) MatchPartial(op map[string]any, want map[string]*X) error {
	for in, x := range want {
		props := map[string]any{}
		for _, p := range l(op["parameters"]) {
			if s(m(p)["in"]) == in {
				props[s(m(p)["name"])] = m(p)["schema"]
			}
		}
		if len(props) == 0 {
			continue
		}
		if err := d.partial(in+" parameters", props, x, map[visit]bool{}); err != nil {
			return err
		}
	}
	return nil
}

// flatten collects the properties of a schema and of its allOf parts.
func (d *Doc) flatten(at string, schema map[string]any, props map[string]any, depth int) error {
	if depth > 50 {
		return fmt.Errorf("%s: allOf is infinite", at)
	}
	if ref, ok := schema["$ref"].(string); ok {
		c, err := d.resolve(ref)
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		return d.flatten(at, c, props, depth+1)
	}
	for _, part := range l(schema["allOf"]) {
		if err := d.flatten(at, m(part), props, depth+1); err != nil {
			return err
		}
	}
	for k, v := range m(schema["properties"]) {
		props[k] = v
	}
	return nil
}

func matchEnum(got any, want []any) bool {
	g := l(got)
	if len(g) != len(want) {
		return false
	}
	count := map[string]int{}
	for i := range g {
		count[fmt.Sprintf("%T:%v", num(g[i]), num(g[i]))]++
		count[fmt.Sprintf("%T:%v", num(want[i]), num(want[i]))]--
	}
	for _, c := range count {
		if c != 0 {
			return false
		}
	}
	return true
}

// Resp is an expected response body of one content type.
type Resp struct {
	Status int
	CT     string // "" when there is no body
	X      *X
}

// MatchResponses checks that an operation has exactly the expected responses.
func (d *Doc) MatchResponses(op map[string]any, want []Resp) error {
	got := m(op["responses"])
	exp := map[string]map[string]*X{}
	for _, r := range want {
		k := fmt.Sprint(r.Status)
		if exp[k] == nil {
			exp[k] = map[string]*X{}
		}
		if r.CT != "" {
			exp[k][r.CT] = r.X
		}
	}
	var a, b []string
	for k := range got {
		a = append(a, k)
	}
	for k := range exp {
		b = append(b, k)
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("responses %v, expected %v", a, b)
	}
	for _, code := range b {
		content := m(m(got[code])["content"])
		var ca, cb []string
		for k := range content {
			if x := exp[code][k]; x == nil || x.Kind != "free" || !x.Opt {
				ca = append(ca, k)
			}
		}
		for k, x := range exp[code] {
			if x.Kind != "free" || !x.Opt {
				cb = append(cb, k)
			}
		}
		sort.Strings(ca)
		sort.Strings(cb)
		if !reflect.DeepEqual(ca, cb) {
			return fmt.Errorf("response %s content %q, expected %q", code, ca, cb)
		}
		for ct, x := range exp[code] {
			if content[ct] != nil && x.Kind == "free" && x.Opt && m(content[ct])["schema"] != nil {
				if err := d.Match(m(m(content[ct])["schema"]), x); err != nil {
					return fmt.Errorf("response %s %s: %w", code, ct, err)
				}
			}
		}
		for _, ct := range cb {
			if err := d.Match(m(m(content[ct])["schema"]), exp[code][ct]); err != nil {
				return fmt.Errorf("response %s %s: %w", code, ct, err)
			}
		}
	}
	return nil
}

// Par is an expected parameter.
type Par struct {
	In, Name string
	Required bool
	X        *X
}

// MatchParams checks that an operation has exactly the expected parameters, each once.
func (d *Doc) MatchParams(op map[string]any, want []Par, free ...map[string]bool) error {
	var a, b []string
	byKey := map[string]map[string]any{}
	for _, p := range l(op["parameters"]) {
		if len(free) > 0 && free[0][s(m(p)["in"])] {
			continue
		}
		k := s(m(p)["in"]) + ":" + s(m(p)["name"])
		a = append(a, k)
		byKey[k] = m(p)
	}
	for _, p := range want {
		b = append(b, p.In+":"+p.Name)
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("parameters %q, expected %q", a, b)
	}
	for _, p := range want {
		g := byKey[p.In+":"+p.Name]
		req, _ := g["required"].(bool)
		if req != p.Required {
			return fmt.Errorf("parameter %s:%s required=%v, expected %v", p.In, p.Name, req, p.Required)
		}
		if err := d.Match(m(g["schema"]), p.X); err != nil {
			return fmt.Errorf("parameter %s:%s: %w", p.In, p.Name, err)
		}
	}
	return nil
}

// MatchBody checks that an operation has exactly the expected request bodies by content type.
func (d *Doc) MatchBody(op map[string]any, want map[string]*X) error {
	content := m(m(op["requestBody"])["content"])
	var a, b []string
	for k := range content {
		if x := want[k]; x == nil || x.Kind != "free" || !x.Opt {
			a = append(a, k)
		}
	}
	for k, x := range want {
		if x.Kind != "free" || !x.Opt {
			b = append(b, k)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("request body %q, expected %q", a, b)
	}
	for ct, x := range want {
		if content[ct] != nil && x.Kind == "free" && x.Opt && m(content[ct])["schema"] != nil {
			if err := d.Match(m(m(content[ct])["schema"]), x); err != nil {
				return fmt.Errorf("request body %s: %w", ct, err)
			}
		}
	}
	for _, ct := range b {
		if err := d.Match(m(m(content[ct])["schema"]), want[ct]); err != nil {
			return fmt.Errorf("request body %s: %w", ct, err)
		}
	}
	return nil
}

// MatchHeaders checks the response headers of every response of an operation.
func (d *Doc) MatchHeaders(op map[string]any, want []string) error {
	sort.Strings(want)
	for code, r := range m(op["responses"]) {
		var got []string
		for k := range m(m(r)["headers"]) {
			got = append(got, k)
		}
		sort.Strings(got)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			return fmt.Errorf("response %s headers %q, expected %q", code, got, want)
		}
	}
	return nil
}
