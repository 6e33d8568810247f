package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	astraGin "github.com/ls6-events/astra/inputs/gin"
	"github.com/ls6-events/astra/outputs"

	"vh/core"
)

// fsProg is a program that generates the documentation of the service in its directory.
type fsProg struct {
	Dir      string
	WorkDir  string   // given to astra; Dir when it's empty
	Cwd      string   // where the program runs, below Dir
	Outs     []string // kind:path
	Cache    string   // "", "default" or a path
	CLI      bool
	Do       string // parse: everything, setup: only the first step of the CLI
	Sub      bool   // the handlers of the package sub only
	Conf     int    // one of fsConfigs
	Maps     int    // one of fsMaps
	Versions string // directory that the cache is copied to after each phase
}

const fsMain = `package main

import "github.com/gin-gonic/gin"

func main() {
	r := gin.New()
	r.POST("/item/:id", PostItem)
	r.GET("/thing", nil)
	_ = r.Run
}
`

const fsHandlers = `package main

import (
	"github.com/gin-gonic/gin"

	"$MOD/sub"
)

// Item is documented.
type Item struct {
	Name string    ` + "`json:\"name\"`" + `
	Kind Kind      ` + "`json:\"kind\"`" + `
	Sub  sub.Thing ` + "`json:\"sub\"`" + `
}

type Kind string

// PostItem posts.
func PostItem(c *gin.Context) {
	var item Item
	_ = c.ShouldBindJSON(&item)
	_ = c.Query("q")
	c.JSON(201, item)
}
`

const fsSub = `package sub

import "github.com/gin-gonic/gin"

// Thing is documented too.
type Thing struct {
	T    bool
	Next *Thing
	Opts map[string]Opt
}

type Opt int

// GetThing gets.
func GetThing(c *gin.Context) {
	c.JSON(200, []Thing{})
	fail(c)
}
`

const fsSub2 = `package sub

import "github.com/gin-gonic/gin"

func fail(ctx *gin.Context) { ctx.String(404, "no") }
`

// The packages compile without these.
const fsKinds = `package main

const KindA Kind = "a"
`

const fsOpts = `package sub

const One Opt = 1
`

// fsFiles is the directory before a generation.
func fsFiles(mod string) map[string]string {
	r := map[string]string{
		"go.mod": core.StubModule, "gin/gin.go": core.StubGin, "gin/go.mod": "module github.com/gin-gonic/gin\n",
		"main.go": fsMain, "handlers.go": fsHandlers, "sub/sub.go": fsSub, "sub/fail.go": fsSub2, "kinds.go": fsKinds, "sub/opts.go": fsOpts,
		"main_test.go": "package main\n", "notes.txt": "notes\n", "docs/keep.md": "keep\n", "functions2/Old/function.json": "{}\n",
	}
	for k, v := range r {
		r[k] = strings.ReplaceAll(v, "$MOD", mod)
	}
	return r
}

// putTree makes a directory have exactly these files.
func putTree(dir string, files map[string]string) error {
	if err := os.RemoveAll(dir); err != nil {
		return err
	}
	for name, text := range files {
		p := filepath.Join(dir, name)
		if strings.HasSuffix(name, "/") {
			if err := os.MkdirAll(p, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if to, ok := strings.CutPrefix(text, "-> "); ok {
			if err := os.Symlink(to, p); err != nil {
				return err
			}
			continue
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (p fsProg) opts() []astra.Option {
	config := fsConfigs[p.Conf]
	opts := []astra.Option{core.Quiet(), astra.WithConfig(&config)}
	if p.WorkDir == "" {
		opts = append(opts, astra.WithCustomWorkDir(p.Dir))
	} else if p.WorkDir != "none" {
		opts = append(opts, astra.WithCustomWorkDir(p.WorkDir))
	}
	for _, o := range p.Outs {
		kind, file, _ := strings.Cut(o, ":")
		switch kind {
		case "openapi":
			opts = append(opts, outputs.WithOpenAPIOutput(file))
		case "json":
			opts = append(opts, outputs.WithJSONOutput(file))
		case "azure":
			opts = append(opts, outputs.WithAzureFunctionsOutput(file))
		}
	}
	if p.Maps > 0 {
		mod, _ := os.ReadFile(filepath.Join(p.Dir, "go.mod"))
		m := map[string]astra.TypeFormat{}
		for k, v := range fsMaps[p.Maps] {
			m[strings.ReplaceAll(k, "$MOD", strings.Fields(string(mod))[1])] = v
		}
		opts = append(opts, astra.WithCustomTypeMapping(m))
	}
	if p.CLI {
		opts = append(opts, cli.WithCLI())
	}
	switch p.Cache {
	case "":
	case "default":
		opts = append(opts, cache.WithCache())
	default:
		opts = append(opts, cache.WithCustomCachePath(p.Cache))
	}
	return append(opts, func(s *astra.Service) {
		s.Inputs = append(s.Inputs, astra.Input{Mode: "gin", CreateRoutes: p.routes, ParseRoutes: astraGin.ParseRoutes()})
	})
}

// routes are what the engine of the program would have.
func (p fsProg) routes(s *astra.Service) error {
	add := func(handler, file, fn, method, path string) error {
		b, err := os.ReadFile(filepath.Join(p.Dir, file))
		if err != nil {
			return err
		}
		cwd, err := os.Getwd()
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(cwd, filepath.Join(p.Dir, file))
		if err != nil {
			return err
		}
		s.AddRoute(astra.Route{Handler: handler, File: rel, LineNo: core.Line(string(b), "func "+fn+"("), Method: method, Path: path,
			PathParams: []astra.Param{}, Body: []astra.BodyParam{}, QueryParams: []astra.Param{}, ReturnTypes: []astra.ReturnType{}})
		return nil
	}
	mod, err := os.ReadFile(filepath.Join(p.Dir, "go.mod"))
	if err != nil {
		return err
	}
	name := strings.Fields(string(mod))[1]
	if !p.Sub {
		if err := add("main.PostItem", "handlers.go", "PostItem", "POST", "/item/:id"); err != nil {
			return err
		}
	}
	return add(name+"/sub.GetThing", "sub/sub.go", "GetThing", "GET", "/thing")
}

func (p fsProg) run() error {
	s := astra.New(p.opts()...)
	if p.Versions == "" {
		if p.Do == "setup" {
			return s.SetupParse()
		}
		return s.Parse()
	}
	cachePath := p.Cache
	if p.Cache == "default" || p.Cache == "" {
		cachePath = filepath.Join(p.Dir, ".astra", "cache.json")
	}
	phases := []func() error{s.Setup, s.CreateRoutes}
	if p.Do != "setup" {
		phases = append(phases, s.ParseRoutes, s.Clean, s.Generate, s.Teardown)
	}
	for i, phase := range phases {
		if err := phase(); err != nil {
			return err
		}
		if b, err := os.ReadFile(cachePath); err == nil {
			if err := os.WriteFile(filepath.Join(p.Versions, fmt.Sprint(i)), b, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

var fsConfigs = []astra.Config{
	{Title: "t", Version: "1", Host: "h", Port: 1, BasePath: "/"},
	{Title: "A: \"b\"", Description: "two\nlines\n", Version: "1.0", Contact: astra.Contact{Name: "N", URL: "https://example.com/?a=b&c", Email: "a@b.c"},
		License: astra.License{Name: "MIT", URL: "https://example.com/license"}, Secure: true, Host: "example.com", BasePath: "/base", Port: 443},
	{Port: 8080},
	{Title: "null", Description: "~", Version: "1e3", Host: "0x1F", BasePath: "true", Port: 65535, Contact: astra.Contact{Email: "- x"}},
}

var fsMaps = []map[string]astra.TypeFormat{
	nil,
	{"$MOD/sub.Opt": {Type: "string", Format: "opt"}},
	{"$MOD/sub.Thing": {Type: "string"}, "$MOD/sub.Opt": {Type: "number", Format: "null"}, "other/x.Opt": {Type: "boolean"}},
}

// start runs the program in a process of its own.
func (p fsProg) start(plan *core.FSPlan) procResult {
	b, _ := json.Marshal(p)
	self, _ := os.Executable()
	return startProc(plan, filepath.Join(p.Dir, p.Cwd), self, "prog", string(b))
}

type procResult struct {
	err    error // nil when it ended with the status 0
	killed bool
	code   int
	out    string
	ops    []core.FSOp
}

func startProc(plan *core.FSPlan, dir string, args ...string) procResult {
	return startProcFor(120*time.Second, plan, dir, args...)
}

func startProcFor(limit time.Duration, plan *core.FSPlan, dir string, args ...string) procResult {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = os.Environ()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = time.Second
	if plan != nil {
		b, _ := json.Marshal(plan)
		cmd.Env = append(cmd.Env, "VH_FSPLAN="+string(b))
	}
	if err := cmd.Start(); err != nil {
		return procResult{err: err}
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	r := procResult{err: err, out: out.String(), code: cmd.ProcessState.ExitCode()}
	if !timer.Stop() {
		r.err = errors.New("it does not end")
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // what it started
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		r.killed = true
	}
	if plan != nil && plan.Record != "" {
		b, _ := os.ReadFile(plan.Record)
		for _, line := range bytes.Split(b, []byte("\n")) {
			var o core.FSOp
			if len(line) > 0 && json.Unmarshal(line, &o) == nil {
				r.ops = append(r.ops, o)
			}
		}
	}
	return r
}

func (r procResult) String() string {
	out := strings.TrimSpace(r.out)
	if len(out) > 600 {
		out = out[:300] + " ... " + out[len(out)-300:]
	}
	return fmt.Sprintf("%v (%s)", r.err, out)
}

func init() {
	core.Sub["prog"] = func(args []string) int {
		core.ArmFS()
		var p fsProg
		if err := json.Unmarshal([]byte(args[0]), &p); err != nil {
			fmt.Println(err)
			return 3
		}
		if err := p.run(); err != nil {
			fmt.Println("error:", err)
			return 1
		}
		return 0
	}
}
