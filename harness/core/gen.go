package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/ls6-events/astra"
	astraGin "github.com/ls6-events/astra/inputs/gin"
	"github.com/ls6-events/astra/outputs"
	"github.com/rs/zerolog"
	"gopkg.in/yaml.v3"
)

// ModuleName is the module of the generated services.
const ModuleName = "vapp"

// WriteModule writes a module with the given files that can import gin.
func WriteModule(dir string, files map[string]string) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	mod, err := os.ReadFile("/repo/go.mod")
	if err != nil {
		return err
	}
	gomod := strings.Replace(string(mod), "module github.com/ls6-events/astra", "module "+ModuleName, 1)
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(gomod), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile("/repo/go.sum")
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return err
	}
	for name, content := range files {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// Quiet is a service without a log.
func Quiet() astra.Option {
	return func(s *astra.Service) { s.Log = zerolog.Nop() }
}

// GinParse binds the gin input without an engine: the routes are added by the check, as they are when loaded from a cache.
func GinParse() astra.Option {
	return func(s *astra.Service) {
		s.Inputs = append(s.Inputs, astra.Input{Mode: "gin", CreateRoutes: func(*astra.Service) error { return nil }, ParseRoutes: astraGin.ParseRoutes()})
	}
}

// Route is a route of a unit: the handler is a function of the unit's source.
type Route struct {
	Method, Path, Func string
	Marker             string // when set: the handler is the function literal on the line with this marker, inside Func
}

// Unit is one generated service (one to a few handlers) with the answer that is expected from it.
type Unit struct {
	ID      string
	Imports []string // import specs, e.g. `"net/http"` or `foo "a/b"`
	Src     string
	Extra   map[string]string // further files of the module
	Routes  []Route
	Opts    []astra.Option
	Check   func(r *Result) error
	Outcome string
	Lane    int                                                                // when set: the units of a lane are run by one worker (each package that is loaded takes memory)
	Big     bool                                                               // goes in a file of its own
	Also    []Unit                                                             // the same source with other options and checks
	Repeat  func(run func(opts ...astra.Option) *Result) (runs int, err error) // runs the unit as often as it wants to, Check is for the last run
}

// Result is what the real code made of a unit.
type Result struct {
	Doc  *Doc
	Svc  *astra.Service
	Err  error
	Unit *Unit
	Raw  []byte
}

// Op returns the only (or the first) operation.
func (r *Result) Op(i int) (map[string]any, error) {
	rt := r.Unit.Routes[i]
	op, ok := r.Doc.Operation(rt.Method, ginPath(rt.Path))
	if !ok {
		return nil, fmt.Errorf("operation %s %s is missing (have %q)", rt.Method, rt.Path, r.Doc.Operations())
	}
	return op, nil
}

func ginPath(p string) string {
	parts := strings.Split(p, "/")
	for i, part := range parts {
		if strings.HasPrefix(part, ":") {
			parts[i] = "{" + part[1:] + "}"
		} else if strings.HasPrefix(part, "*") {
			parts[i] = "{" + part[1:] + "*}"
		}
	}
	return strings.Join(parts, "/")
}

// Line finds the line of a text in a source file.
func Line(src, needle string) int {
	i := strings.Index(src, needle)
	if i < 0 {
		return 0
	}
	return 1 + strings.Count(src[:i], "\n")
}

// RunUnits generates the units of this worker in one package and puts each of them through the real pipeline.
// common are the files of the support packages.
func RunUnits(w *W, units []Unit, common map[string]string) error {
	return RunUnitsIn(w, "h", units, common)
}

// RunUnitsIn is RunUnits with another package than h: the packages are loaded once in a process. The package main is the
// root of the module.
func RunUnitsIn(w *W, pkg string, units []Unit, common map[string]string) error {
	var mine []*Unit
	ids := map[string]bool{}
	for i := range units {
		if ids[units[i].ID] {
			return fmt.Errorf("duplicate unit %s", units[i].ID)
		}
		ids[units[i].ID] = true
		only := w.Only == "" || w.Only == units[i].ID
		for _, a := range units[i].Also {
			if ids[a.ID] {
				return fmt.Errorf("duplicate unit %s", a.ID)
			}
			ids[a.ID] = true
			only = only || w.Only == a.ID
		}
		mineToo := w.Mine(i)
		if units[i].Lane > 0 {
			mineToo = w.Mine(units[i].Lane - 1)
		}
		if mineToo && only && (len(units[i].Also) > 0 || !w.skip[units[i].ID]) {
			mine = append(mine, &units[i])
		}
	}
	if len(mine) == 0 {
		return nil
	}
	dir := filepath.Join(w.Dir, "mod")
	files := map[string]string{}
	for k, v := range common {
		files[k] = v
	}
	pkgDir, pkgPath, perFile := pkg+"/", ModuleName+"/"+pkg, 25
	if pkg == "main" {
		pkgDir, pkgPath, perFile = "", "main", 100 // they are all copied each time
		files["main.go"] = "package main\n\nfunc main() {}\n"
	}
	type place struct{ file, src string }
	where := map[string]place{}
	for i := 0; i < len(mine); {
		j := i
		var chunk []*Unit
		for j < len(mine) && j-i < perFile {
			if mine[j].Big && j > i {
				break
			}
			chunk = append(chunk, mine[j])
			j++
			if mine[j-1].Big {
				break
			}
		}
		imports := map[string]bool{`"github.com/gin-gonic/gin"`: true}
		var body strings.Builder
		for _, u := range chunk {
			for _, imp := range u.Imports {
				imports[imp] = true
			}
			for k, v := range u.Extra {
				if own, ok := strings.CutPrefix(k, "h/"); ok && pkg == "main" {
					k, v = own, strings.Replace(v, "package h\n", "package main\n", 1)
				}
				files[k] = v
			}
			body.WriteString("\n" + u.Src + "\n")
		}
		var imps []string
		for k := range imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		src := "package " + pkg + "\n\nimport (\n\t" + strings.Join(imps, "\n\t") + "\n)\n\nvar _ *gin.Context\n" + body.String()
		name := fmt.Sprintf("f%03d.go", i)
		files[pkgDir+name] = src
		for _, u := range chunk {
			where[u.ID] = place{name, src}
		}
		i = j
	}
	if err := WriteModule(dir, files); err != nil {
		return err
	}
	if keep := os.Getenv("VH_KEEP"); keep != "" { // debugging: where to keep the generated modules
		os.CopyFS(fmt.Sprintf("%s/w%d", keep, w.Shard), os.DirFS(dir))
	}
	var all []*Unit
	for _, u := range mine {
		all = append(all, u)
		for i := range u.Also {
			a := &u.Also[i]
			a.Imports, a.Src, a.Routes = u.Imports, u.Src, u.Routes
			where[a.ID] = where[u.ID]
			all = append(all, a)
		}
	}
	for _, u := range all {
		if !w.Start(u.ID) {
			continue
		}
		pl := where[u.ID]
		locate := func(rt Route) (string, string, int) {
			needle := "func " + rt.Func + "("
			if rt.Marker != "" {
				needle = rt.Marker
			}
			return pkgPath + "." + rt.Func, pkgDir + pl.file, Line(pl.src, needle)
		}
		runs := 1
		var res *Result
		var err error
		if u.Repeat == nil {
			res = RunOne(dir, u, locate)
			err = CheckResult(u, res)
		} else {
			runs, err = u.Repeat(func(opts ...astra.Option) *Result {
				with := *u
				with.Opts = append(append([]astra.Option{}, u.Opts...), opts...)
				res = RunOne(dir, &with, locate)
				return res
			})
			w.Count("runs", runs)
			if err == nil && u.Check != nil {
				err = CheckResult(u, res)
			}
		}
		outcome := u.Outcome
		if outcome == "" && res.Doc != nil {
			outcome = outcomeOf(res.Doc)
		}
		if err != nil {
			w.Violation(u.ID, err.Error(), map[string]any{"imports": u.Imports, "source": u.Src, "routes": u.Routes, "document": json.RawMessage(orNull(res.Raw))})
		}
		w.Done(u.ID, outcome, runs*(3+len(u.Routes)))
		w.Sample(map[string]any{"case": u.ID, "source": u.Src, "outcome": outcome})
	}
	return nil
}

func orNull(b []byte) []byte {
	if len(b) == 0 || !json.Valid(b) {
		return []byte("null")
	}
	return b
}

// unitSuffix is what makes the names of a unit unique in its package.
var unitSuffix = regexp.MustCompile(`R[0-9]{4}`)

func outcomeOf(d *Doc) string {
	b, _ := json.Marshal(map[string]any{"p": d.Root["paths"], "c": d.Root["components"]})
	return fmt.Sprintf("%x", hash(unitSuffix.ReplaceAll(b, nil)))
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// CheckResult applies the check of a unit, turning a panic of the real code into a violation.
func CheckResult(u *Unit, res *Result) (err error) {
	if res.Err != nil && strings.HasPrefix(res.Err.Error(), "panic: ") {
		return res.Err
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("check panicked: %v", r)
		}
	}()
	return u.Check(res)
}

// RunOne puts one unit through the pipeline.
func RunOne(dir string, u *Unit, locate func(Route) (handler, file string, line int)) (res *Result) {
	res = &Result{Unit: u}
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Errorf("panic: %v", r)
		}
	}()
	out := filepath.Join(dir, "openapi.json")
	os.Remove(out)
	opts := []astra.Option{Quiet(), astra.WithCustomWorkDir(dir), GinParse(), outputs.WithOpenAPIOutput("openapi.json"),
		astra.WithConfig(&astra.Config{Title: "t", Version: "1", Host: "h", Port: 1, BasePath: "/"})}
	opts = append(opts, u.Opts...)
	s := astra.New(opts...)
	res.Svc = s
	for _, rt := range u.Routes {
		h, f, line := locate(rt)
		s.AddRoute(astra.Route{Handler: h, File: f, LineNo: line, Method: rt.Method, Path: rt.Path})
	}
	if err := s.Setup(); err != nil {
		res.Err = err
		return res
	}
	if err := s.CompleteParse(); err != nil {
		res.Err = err
		return res
	}
	b, err := os.ReadFile(out)
	if err != nil {
		res.Err = err
		return res
	}
	res.Raw = b
	var root map[string]any
	if err := json.Unmarshal(b, &root); err != nil {
		res.Err = err
		return res
	}
	res.Doc = &Doc{Root: root}
	return res
}

// Expect is the usual check of a unit: its first operation has exactly these responses and inputs.
type Expect struct {
	Resp    []Resp
	Params  []Par
	Body    map[string]*X
	Headers []string        // response headers
	FreeIn  map[string]bool // places of parameters about which nothing is said
	PartIn  map[string]*X   // places of parameters of which not all names are known
	Desc    *string         // description of the operation
}

// Is builds a check from the expectations of each route.
func Is(exp ...Expect) func(r *Result) error {
	return func(r *Result) error {
		if r.Err != nil {
			return fmt.Errorf("the service could not be documented: %w", r.Err)
		}
		if err := r.Doc.DanglingRefs(); err != nil {
			return err
		}
		for i, e := range exp {
			op, err := r.Op(i)
			if err != nil {
				return err
			}
			if got, _ := op["description"].(string); e.Desc != nil && got != *e.Desc {
				return fmt.Errorf("description is %q, expected %q", got, *e.Desc)
			}
			if err := r.Doc.MatchResponses(op, e.Resp); err != nil {
				return err
			}
			if err := r.Doc.MatchParams(op, e.Params, e.FreeIn); err != nil {
				return err
			}
			if err := r.Doc.MatchPartial(op, e.PartIn); err != nil {
				return err
			}
			if err := r.Doc.MatchBody(op, e.Body); err != nil {
				return err
			}
			if err := r.Doc.MatchHeaders(op, append([]string{}, e.Headers...)); err != nil {
				return err
			}
		}
		return nil
	}
}

// FromYAML reads a YAML mapping.
func FromYAML(text string) map[string]any {
	var m map[string]any
	yaml.Unmarshal([]byte(text), &m)
	return m
}

// KeyLike is the key of a mapping that differs at most in case and in what is between words.
func KeyLike(m map[string]any, key string) string {
	plain := func(s string) string { return strings.NewReplacer("_", "", "-", "").Replace(strings.ToLower(s)) }
	for k := range m {
		if plain(k) == plain(key) {
			return k
		}
	}
	return key
}
