package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vh/core"
)

// c13Place is where the cache is and how the CLI is told of it.
type c13Place struct {
	name  string
	cache string   // of the program; $DIR is its directory
	cwd   string   // of the CLI, relative to the directory above the program's
	args  []string // of the CLI
}

var c13Places = []c13Place{
	{name: "default", cwd: "app"},
	{name: "default, from the directory above", cwd: ".", args: []string{"-d", "app", "-c", "app/.astra/cache.json"}},
	{name: "default, from elsewhere", cwd: "elsewhere/deep", args: []string{"--dir", "../../app", "--cache", "../../app/.astra/cache.json"}},
	{name: "default, absolute", cwd: "elsewhere", args: []string{"--dir=$DIR", "--cache=$DIR/.astra/cache.json"}},
	{name: "default, from a package", cwd: "app/sub", args: []string{"-d", "..", "-c", "../.astra/cache.json"}},
	{name: "default, dot", cwd: "app", args: []string{"-d", "./", "-c", "./.astra/cache.json"}},
	{name: "json", cache: "cache.json", cwd: "app", args: []string{"-c", "cache.json"}},
	{name: "yaml", cache: "docs/my.yaml", cwd: "app", args: []string{"-c", "docs/my.yaml", "-d", "."}},
	{name: "yml", cache: "../elsewhere/x.yml", cwd: "app", args: []string{"-c", "../elsewhere/x.yml"}},
	{name: "json absolute", cache: "$DIR/sub/c.json", cwd: "elsewhere", args: []string{"-d", "../app", "-c", "$DIR/sub/c.json"}},
}

type c13Case struct {
	outs  []string
	place int
	conf  int
	maps  int
	sub   bool
	dir   int // the program's way of giving its directory
}

func (c c13Case) id() string {
	return fmt.Sprintf("%s, %s, config %d, mapping %d, sub %v, dir %d", strings.Join(c.outs, " "), c13Places[c.place].name, c.conf, c.maps, c.sub, c.dir)
}

var c13Dirs = []string{"", "none", "."}

func c13Cases(thorough bool) []c13Case {
	kinds := []string{"openapi:openapi.json", "openapi:docs/api.yaml", "json:routes", "azure:functions2"}
	var sets [][]string
	for m := 1; m < 1<<len(kinds); m++ {
		var s []string
		for i, k := range kinds {
			if m&(1<<i) != 0 {
				s = append(s, k)
			}
		}
		sets = append(sets, s)
	}
	sets = append(sets, []string{"azure:functions2", "openapi:api", "azure:docs/f", "openapi:a.yml", "json:docs/../r.json"})
	var r []c13Case
	for si, s := range sets {
		for p := range c13Places {
			for conf := range fsConfigs {
				for maps := range fsMaps {
					for _, sub := range []bool{false, true} {
						for d := range c13Dirs {
							// all values of each part together with all of each other one
							if !thorough && ((conf+2*p+si)%4 != 0 || (maps+p+conf)%3 != 0 || (d+si+p)%3 != 0) {
								continue
							}
							if thorough && (d+si+p+conf)%3 != 0 {
								continue
							}
							r = append(r, c13Case{s, p, conf, maps, sub, d})
						}
					}
				}
			}
		}
	}
	return r
}

func vhcli() string { return filepath.Join(filepath.Dir(os.Getenv("VH_HARNESS")), "vhcli") }

// c13Two generates in one step and in two and compares.
func c13Two(root string, c c13Case) (int, error) {
	dir := filepath.Join(root, "app")
	place := c13Places[c.place]
	prog := fsProg{Dir: dir, WorkDir: c13Dirs[c.dir], Outs: c.outs, Conf: c.conf, Maps: c.maps, Sub: c.sub, Do: "parse"}
	reset := func() (map[string]string, error) {
		if err := putTree(root, map[string]string{"elsewhere/deep/x": "x"}); err != nil {
			return nil, err
		}
		if err := putTree(dir, fsFiles("app.example/m")); err != nil {
			return nil, err
		}
		return tree(root, nil), nil
	}
	before, err := reset()
	if err != nil {
		return 0, err
	}
	if res := prog.start(nil); res.err != nil {
		return 1, fmt.Errorf("in one step: %v", res)
	}
	want := tree(root, nil)
	if diffTrees(want, before) == nil {
		return 1, errors.New("there are no outputs")
	}
	if _, err = reset(); err != nil {
		return 1, err
	}
	prog.CLI, prog.Do = true, "setup"
	at := func(s string) string { return strings.ReplaceAll(s, "$DIR", dir) }
	prog.Cache = at(place.cache)
	if res := prog.start(nil); res.err != nil {
		return 2, fmt.Errorf("the first step: %v", res)
	}
	cachePath := place.cache
	switch {
	case cachePath == "":
		cachePath = "app/.astra/cache.json"
	case strings.HasPrefix(cachePath, "$DIR"):
		cachePath = strings.Replace(cachePath, "$DIR", "app", 1)
	default:
		cachePath = filepath.Join("app", cachePath)
	}
	first := tree(root, nil)
	if _, ok := first[cachePath]; !ok {
		return 2, fmt.Errorf("the first step has not written the cache %s", cachePath)
	}
	for round := 1; round <= 2; round++ {
		args := []string{vhcli(), "generate"}
		for _, a := range place.args {
			args = append(args, at(a))
		}
		if res := startProc(nil, filepath.Join(root, place.cwd), args...); res.err != nil {
			return 2 + round, fmt.Errorf("the second step: %v", res)
		}
		got := tree(root, nil)
		for _, own := range []string{cachePath, "app/.astra/", "app/.astra/.gitignore"} {
			if got[own] != first[own] {
				return 2 + round, fmt.Errorf("%s is not as the first step has left it", own)
			}
			delete(got, own)
		}
		if err := diffTrees(got, want); err != nil {
			return 2 + round, fmt.Errorf("compared with one step: %w", err)
		}
	}
	return 4, nil
}

// c13Bad is a cache that the CLI has to refuse.
type c13Bad struct {
	name string
	file string
	text func(cache string) (string, bool) // false: there is none
}

// c13Bads are ways of spoiling a cache.
func c13Bads(cache string, yaml bool, thorough bool) []c13Bad {
	var r []c13Bad
	file := "cache.json"
	if yaml {
		file = "cache.yaml"
	}
	to := func(name, text string) {
		r = append(r, c13Bad{name, file, func(string) (string, bool) { return text, true }})
	}
	change := func(name string, f func(m map[string]any)) {
		r = append(r, c13Bad{name, file, func(c string) (string, bool) {
			var m map[string]any
			if yaml {
				m = core.FromYAML(c)
			} else {
				json.Unmarshal([]byte(c), &m)
			}
			f(m)
			b, _ := json.Marshal(m) // which is YAML as well
			return string(b), true
		}})
	}
	r = append(r, c13Bad{"missing", file, func(string) (string, bool) { return "", false }})
	to("empty", "")
	to("a string", "\"x\"")
	to("a number", "7")
	to("a list", "[]")
	to("binary", "\x00\x01\x02\xff")
	to("a tab", "\t{")
	to("an empty object", "{}")
	to("another text", "not: [a cache")
	if !yaml {
		r = append(r, c13Bad{"other extension", "cache.txt", func(c string) (string, bool) { return c, true }},
			c13Bad{"no extension", "cache", func(c string) (string, bool) { return c, true }},
			c13Bad{"missing directory", "nowhere/cache.json", func(c string) (string, bool) { return "", false }})
		step := 37
		if thorough {
			step = 3
		}
		for n := 1; n < len(cache); n += step {
			to(fmt.Sprintf("cut after %d bytes", n), cache[:n])
		}
		inString := false
		k := 0
		for i, ch := range cache {
			if ch == '"' && (i == 0 || cache[i-1] != '\\') {
				inString = !inString
			}
			if strings.ContainsRune("{}[]:\"", ch) && (!inString || ch == '"') {
				if k++; k%9 == 0 || thorough {
					to(fmt.Sprintf("without the %c at %d", ch, i), cache[:i]+cache[i+1:])
				}
			}
		}
	}
	for _, key := range []string{"inputs", "outputs", "config", "routes", "components", "customTypeMapping"} {
		for _, v := range []any{5, "x", true} {
			change(fmt.Sprintf("%s is %v", key, v), func(m map[string]any) { m[core.KeyLike(m, key)] = v })
		}
	}
	for _, key := range []string{"inputs", "outputs"} {
		change("no "+key, func(m map[string]any) { delete(m, core.KeyLike(m, key)) })
		change("empty "+key, func(m map[string]any) { m[core.KeyLike(m, key)] = []any{} })
		change(key+" null", func(m map[string]any) { m[core.KeyLike(m, key)] = nil })
		for i := 0; i < 3; i++ {
			if key == "inputs" && i > 0 {
				break
			}
			entry := func(m map[string]any) map[string]any {
				l, _ := m[core.KeyLike(m, key)].([]any)
				if i >= len(l) {
					return map[string]any{}
				}
				e, _ := l[i].(map[string]any)
				return e
			}
			for _, mode := range []any{"fiber", "", "GIN", "OpenAPI", "gin ", nil, 7, "jsonn"} {
				change(fmt.Sprintf("%s %d has the mode %v", key, i, mode), func(m map[string]any) { e := entry(m); e[core.KeyLike(e, "mode")] = mode })
			}
			change(fmt.Sprintf("%s %d has no mode", key, i), func(m map[string]any) { e := entry(m); delete(e, core.KeyLike(e, "mode")) })
			if key == "outputs" {
				change(fmt.Sprintf("output %d has no configuration", i), func(m map[string]any) { e := entry(m); delete(e, core.KeyLike(e, "configuration")) })
				change(fmt.Sprintf("output %d has an empty configuration", i), func(m map[string]any) { e := entry(m); e[core.KeyLike(e, "configuration")] = map[string]any{} })
				change(fmt.Sprintf("output %d has the setting of another one", i), func(m map[string]any) {
					e := entry(m)
					e[core.KeyLike(e, "configuration")] = map[string]any{"other": "x"}
				})
				for _, v := range []any{"", 7, nil, true, []any{"x"}} {
					change(fmt.Sprintf("output %d has the path %#v", i, v), func(m map[string]any) {
						e := entry(m)
						conf, _ := e[core.KeyLike(e, "configuration")].(map[string]any)
						for k := range conf {
							conf[k] = v
						}
					})
				}
			}
		}
	}
	return r
}

func c13Refused(dir string, b c13Bad, cache string) error {
	if err := putTree(dir, fsFiles("app.example/m")); err != nil {
		return err
	}
	text, there := b.text(cache)
	if there {
		if err := os.WriteFile(filepath.Join(dir, b.file), []byte(text), 0o644); err != nil {
			return err
		}
	}
	before := tree(dir, skipSums)
	res := startProc(nil, dir, vhcli(), "generate", "-c", b.file)
	if res.killed || strings.Contains(res.out, "goroutine ") {
		return fmt.Errorf("it dies: %v", res)
	}
	if res.err == nil {
		return fmt.Errorf("it ends with the status 0")
	}
	if err := diffTrees(tree(dir, skipSums), before); err != nil {
		return fmt.Errorf("it fails but the directory is not as before: %w", err)
	}
	return nil
}

const c13RealMain = `package main

import (
	"os"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"

	"vapp/regs"
)

// Item is documented.
type Item struct {
	Name string ` + "`json:\"name\"`" + `
	Kind Kind   ` + "`json:\"kind\"`" + `
	Deep regs.Deep
}

type Kind string

const KindA Kind = "a"

// Post posts.
func Post(c *gin.Context) {
	var item Item
	if err := c.ShouldBindJSON(&item); err != nil {
		c.AbortWithStatus(422)
		return
	}
	c.JSON(201, item)
}

func (i Item) Get(c *gin.Context) { c.String(200, "x") }

func main() {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	r.POST("/items/:id", Post)
	r.GET("/items/*rest", func(c *gin.Context) { _ = c.Query("inline"); c.XML(206, Item{}) })
	g := r.Group("/group")
	g.GET("/made", regs.Make("a"))
	g.PUT("/named", regs.Named)
	g.DELETE("/hidden", regs.Named)
	regs.Register(g)
	opts := []astra.Option{inputs.WithGinInput(r), astra.WithPathDenyList("/group/hidden"), astra.WithConfig(&astra.Config{Title: "T", Port: 80}), astra.WithCustomTypeMappingSingle("vapp/regs.Other", "string", "other")}
	for _, o := range os.Args[2:] {
		switch {
		case o == "azure":
			opts = append(opts, outputs.WithAzureFunctionsOutput("azure"))
		case o == "routes.json":
			opts = append(opts, outputs.WithJSONOutput(o))
		default:
			opts = append(opts, outputs.WithOpenAPIOutput(o))
		}
	}
	if os.Args[1] == "setup" {
		if err := astra.New(append(opts, cli.WithCLI())...).SetupParse(); err != nil {
			panic(err)
		}
		return
	}
	if err := astra.New(opts...).Parse(); err != nil {
		panic(err)
	}
}
`

const c13RealRegs = `package regs

import "github.com/gin-gonic/gin"

type Deep struct {
	Up *Deep
	O  Other
}

type Other struct{ A, B int }

func Make(name string) gin.HandlerFunc {
	return func(c *gin.Context) { c.JSON(207, []Deep{}) }
}

// Named is named.
func Named(c *gin.Context) { c.YAML(208, Other{}) }

func Register(g *gin.RouterGroup) {
	g.GET("/registered", func(c *gin.Context) { c.Header("X-Reg", "1"); c.Status(204) })
}
`

// c13Real runs a program with the real gin.
func c13Real(root string, outs []string, cwd string, args []string) error {
	dir := filepath.Join(root, "app")
	if err := os.MkdirAll(filepath.Join(root, "elsewhere"), 0o755); err != nil {
		return err
	}
	if err := core.WriteModule(dir, map[string]string{"main.go": c13RealMain, "regs/regs.go": c13RealRegs, "docs/x": "x"}); err != nil {
		return err
	}
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(string(b)+"\nrequire github.com/ls6-events/astra v0.0.0\n\nreplace github.com/ls6-events/astra => /repo\n"), 0o644); err != nil {
		return err
	}
	if res := startProcFor(300*time.Second, nil, dir, "go", "build", "-o", "../prog", "."); res.err != nil {
		return fmt.Errorf("go build: %v", res)
	}
	before := tree(root, nil)
	prog := filepath.Join(root, "prog")
	if res := startProcFor(200*time.Second, nil, dir, append([]string{prog, "parse"}, outs...)...); res.err != nil {
		return fmt.Errorf("in one step: %v", res)
	}
	want := tree(root, nil)
	for k := range want {
		if _, ok := before[k]; !ok {
			os.RemoveAll(filepath.Join(root, k))
		}
	}
	if len(want) < len(before)+len(outs) {
		return errors.New("outputs are missing")
	}
	for _, part := range []string{"/group/made", "/group/registered", "regs.Deep", "204", "206", "207", "208", "422"} {
		found := false
		for k, v := range want {
			found = found || before[k] != v && strings.Contains(v, part)
		}
		if !found && outs[0] != "azure" {
			return fmt.Errorf("the output in one step does not have %s", part)
		}
	}
	if res := startProcFor(200*time.Second, nil, dir, append([]string{prog, "setup"}, outs...)...); res.err != nil {
		return fmt.Errorf("the first step: %v", res)
	}
	if res := startProcFor(200*time.Second, nil, filepath.Join(root, cwd), append([]string{vhcli(), "generate"}, args...)...); res.err != nil {
		return fmt.Errorf("the second step: %v", res)
	}
	got := tree(root, nil)
	for k := range got {
		if strings.HasPrefix(k, "app/.astra/") {
			delete(got, k)
		}
	}
	return diffTrees(got, want)
}

func init() {
	core.Register(&core.Check{
		ID: "C13",
		Rule: "a case is a set of outputs, a configuration, a type mapping, a place of the cache and of the process of the CLI, for which the program is run in one step and in two, in processes of their own; " +
			"or a way of spoiling a cache that the CLI has to refuse; or a program with the real gin.",
		Run: func(w *core.W) error {
			for i, c := range c13Cases(w.Thorough()) {
				id := c.id()
				if !w.Mine(i) && w.Only == "" || !w.Start(id) {
					continue
				}
				n, err := c13Two(filepath.Join(w.Dir, "two"), c)
				if err != nil {
					w.Violation(id, err.Error(), c)
				}
				w.Done(id, id, n)
				w.Sample(id)
			}
			real := [][]string{{"openapi.json", "routes.json", "azure"}, {"docs/api.yaml"}, {"azure"}, {"api", "b.yml", "routes.json"}}
			for i, outs := range real {
				for k, from := range []string{"app", "elsewhere"} {
					if !w.Thorough() && (i > 1 || k != i) {
						continue
					}
					id := "real program: " + strings.Join(outs, " ") + " from " + from
					if !w.Mine(2*i+k) && w.Only == "" || !w.Start(id) {
						continue
					}
					var args []string
					if k == 1 {
						args = []string{"-d", "../app", "-c", "../app/.astra/cache.json"}
					}
					if err := c13Real(filepath.Join(w.Dir, "real"), outs, from, args); err != nil {
						w.Violation(id, err.Error(), outs)
					}
					w.Done(id, id, 3)
					os.RemoveAll(filepath.Join(w.Dir, "real"))
				}
			}
			// the caches that are spoiled
			dir := filepath.Join(w.Dir, "refused")
			for _, yaml := range []bool{false, true} {
				prog := fsProg{Dir: dir, Outs: []string{"openapi:openapi.json", "json:routes.json", "azure:functions2"}, CLI: true, Do: "setup", Cache: "cache.json", Maps: 1}
				if yaml {
					prog.Cache = "cache.yaml"
				}
				if err := putTree(dir, fsFiles("app.example/m")); err != nil {
					return err
				}
				if res := prog.start(nil); res.err != nil {
					return fmt.Errorf("the program to be refused: %v", res)
				}
				b, err := os.ReadFile(filepath.Join(dir, prog.Cache))
				if err != nil {
					return err
				}
				for i, bad := range c13Bads(string(b), yaml, w.Thorough()) {
					id := fmt.Sprintf("refuses %s, yaml %v", bad.name, yaml)
					if !w.Mine(i) && w.Only == "" || !w.Start(id) {
						continue
					}
					if err := c13Refused(dir, bad, string(b)); err != nil {
						w.Violation(id, err.Error(), bad.name)
					}
					w.Done(id, id, 1)
				}
			}
			return nil
		},
		Assumptions: []string{"custom functions and deny rules that are functions are not part of a cache (the documentation of the CLI says that it takes no options)"},
	})
}
