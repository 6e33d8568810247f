package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"

	"vh/core"
)

// c25Sets are the handlers of other checks, which are put in the package main.
var c25Sets = []struct {
	name    string
	workers int // of 8
	units   func(thorough bool) []Unit
}{
	{"responses", 1, c03Units},
	{"inputs", 1, c04Units},
	{"helpers", 3, c05Units},
	{"types", 2, c06Units},
	{"enumerations", 1, c07Units},
}

// noCopy is an error if something speaks of the copy of the package main.
func noCopy(raw []byte) error {
	for _, s := range []string{"astramain", ".astra"} {
		if i := bytes.Index(raw, []byte(s)); i >= 0 {
			return fmt.Errorf("the output speaks of the copy of the package main: %q", raw[max(0, i-60):min(len(raw), i+60)])
		}
	}
	return nil
}

func c25Units(set int, thorough bool) []Unit {
	var r []Unit
	for _, u := range c25Sets[set].units(false) {
		if !thorough && crc32.ChecksumIEEE([]byte(u.ID))%4 == 0 {
			continue
		}
		u.ID = "main " + c25Sets[set].name + " " + u.ID
		check := u.Check
		u.Check = func(res *core.Result) error {
			if err := check(res); err != nil {
				return err
			}
			return noCopy(res.Raw)
		}
		r = append(r, u)
	}
	return r
}

// layout is a form of a module with a package main.
type layout struct {
	name  string
	files map[string]string // relative to the directory of the package main; "" removes a file
	gomod func(mod string) string
	dir   string // of the package main in the module
	edit  func(name, src string) string
	links map[string]string // symbolic links: name and target
	dirs  []string
	rel   bool // the directory is given relative to the one of the process
}

const c25Main = `package main

import "github.com/gin-gonic/gin"

func main() {
	r := gin.New()
	r.POST("/get", Get)
	r.POST("/literal", func(c *gin.Context) { // the literal
		c.JSON(208, []Inner{})
	})
	_ = r.Run
}
`

const c25Handlers = `package main

import (
	"github.com/gin-gonic/gin"

	"$MOD/sub"
)

// Item is documented.
type Item struct {
	Name string    ` + "`json:\"name\"`" + `
	Kind Kind      ` + "`json:\"kind\"`" + `
	In   []Inner   ` + "`json:\"in\"`" + `
	Sub  sub.Thing ` + "`json:\"sub\"`" + `
	Map  map[string]Inner ` + "`json:\"map\"`" + `
}

type Inner struct {
	N int
}

type Kind string

const KindA Kind = "a"

// Get gets.
func Get(c *gin.Context) {
	var item Item
	_ = c.ShouldBindJSON(&item)
	c.JSON(200, item)
	help(c)
}
`

const c25Help = `package main

import "github.com/gin-gonic/gin"

const code, name = 207, "the name"

func help(c *gin.Context) {
	c.XML(code, []Inner{})
	_ = c.Query(name)
}
`

const c25Sub = `package sub

// Thing is documented too.
type Thing struct {
	T bool
}
`

func c25Layouts() []layout {
	file := func(name, src string) layout {
		return layout{name: "file " + name, files: map[string]string{name: src}}
	}
	clause := func(name, to string) layout {
		return layout{name: "clause " + name, edit: func(f, src string) string {
			if f != "handlers.go" {
				return src
			}
			return strings.Replace(src, "package main", to, 1)
		}}
	}
	mod := func(name string, f func(string) string) layout { return layout{name: "go.mod " + name, gomod: f} }
	return []layout{
		{name: "plain"},
		{name: "relative", rel: true},
		file("main_test.go", "package main\n\nimport \"testing\"\n\nfunc TestMain(t *testing.T) { help(nil) }\n\nfunc get() {}\n"),
		file("ext_test.go", "package main_test\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n"),
		file("ignored.go", "//go:build ignore\n\npackage main\n\nfunc main() {}\n"),
		file("tool.go", "//go:build tools\n\npackage tools\n\nimport _ \"nothing/there\"\n"),
		file("x_windows.go", "package main\n\nfunc help() {}\n"),
		file("_junk.go", "this is no Go\n"),
		file(".hidden.go", "this is no Go either\n"),
		file("generated.go", "// Code generated; DO NOT EDIT.\n\n/*\nThis is not the clause:\npackage main\n*/\n\npackage main\n\nvar _ = code\n"),
		file("raw.go", "package main\n\nvar text = `\npackage main\n`\n\nvar _ = text\n"),
		file("init.go", "package main\n\nfunc init() { _ = help }\n"),
		file("generic.go", "package main\n\ntype Pair[A, B any] struct {\n\tA A\n\tB B\n}\n\nvar _ Pair[int, Item]\n"),
		file("zzz.mod", "module other.example/zzz\n\ngo 1.21\n"),
		file("tools.mod", "module tools\n"),
		file("README.md", "package main\n"),
		file("asm.s", ""),
		file("sub/main.go", "package sub\n"),
		file("cmd/other/main.go", "package main\n\nfunc main() {}\n\nfunc Get() {}\n"),
		file("internal/deep/x.go", "package deep\n"),
		file("main/x.go", "package main\n"),
		file("astramain/x.go", "package astramain\n\nfunc Get() {}\n"),
		{name: "directory x.go", dirs: []string{"x.go"}},
		{name: "directory x.mod", dirs: []string{"x.mod"}},
		{name: "link", files: map[string]string{"help.go": "", "other/help.txt": c25Help}, links: map[string]string{"help.go": "other/help.txt"}},
		{name: "one file", files: map[string]string{"help.go": "", "handlers.go": ""}, edit: func(f, src string) string {
			if f != "main.go" {
				return src
			}
			return strings.Replace(c25Handlers, "func Get", "// Main starts it.\n"+strings.TrimPrefix(src, "package main\n\nimport \"github.com/gin-gonic/gin\"\n")+"\n// Get gets.\nfunc Get", 1) + strings.TrimPrefix(c25Help, "package main\n\nimport \"github.com/gin-gonic/gin\"\n")
		}},
		clause("comment", "package main // the main package"),
		clause("block comment", "package main /* the main package */"),
		clause("doc", "// Package main is the main package.\npackage main"),
		clause("doc in a block", "/*\nPackage main is\npackage main\n*/\npackage main"),
		clause("comment in between", "package /* of the program */ main"),
		clause("comment before", "/* license */ package main"),
		clause("spaces", "package   main"),
		clause("tab", "package\tmain"),
		clause("semicolon", "package main;"),
		clause("newlines", "\n\n\npackage main"),
		clause("byte order mark", "\ufeffpackage main"),
		clause("build tag", "//go:build go1.18\n\npackage main"),
		{name: "CRLF", edit: func(f, src string) string { return strings.ReplaceAll(src, "\n", "\r\n") }},
		mod("quoted", func(m string) string { return strings.Replace(m, "module $MOD", "module \"$MOD\"", 1) }),
		mod("comment", func(m string) string {
			return strings.Replace(m, "module $MOD", "// The module of:\n// module no\nmodule $MOD // module no", 1)
		}),
		mod("deprecated", func(m string) string {
			return strings.Replace(m, "module $MOD", "// Deprecated: use\n// another module\n\nmodule   $MOD", 1)
		}),
		mod("tab", func(m string) string { return strings.Replace(m, "module $MOD", "module\t$MOD", 1) }),
		mod("CRLF", func(m string) string { return strings.ReplaceAll(m, "\n", "\r\n") }),
		mod("last", func(m string) string { return strings.Replace(m, "module $MOD", "", 1) + "\nmodule $MOD\n" }),
		{name: "subdirectory", dir: "cmd/app"},
		{name: "subdirectory with another main", dir: "cmd/app", files: map[string]string{"../../main.go": "package main\n\nfunc main() {}\n\nfunc Get() {}\n", "../other/main.go": "package main\n\nfunc main() {}\n"}},
		{name: "subdirectory relative", dir: "app", rel: true},
		{name: "directory with a dot", dir: "x.y/app.go"},
	}
}

// c25Layout makes a module of a layout and documents its handlers.
func c25Layout(w *core.W, n int, l layout) error {
	mod := fmt.Sprintf("layout%d.example/a-b/v2", n)
	root := filepath.Join(w.Dir, fmt.Sprintf("layout%d", n))
	dir := filepath.Join(root, l.dir)
	defer os.RemoveAll(root)
	files := map[string]string{"main.go": c25Main, "handlers.go": c25Handlers, "help.go": c25Help}
	for k, v := range l.files {
		if v == "" && files[k] != "" {
			delete(files, k)
		} else {
			files[k] = v
		}
	}
	all := map[string]string{"sub/thing.go": c25Sub, "gin/gin.go": core.StubGin, "gin/go.mod": "module github.com/gin-gonic/gin\n"}
	for k, v := range files {
		if l.edit != nil {
			v = l.edit(k, v)
		}
		files[k] = strings.ReplaceAll(v, "$MOD", mod)
		all[filepath.Join(l.dir, k)] = files[k]
	}
	if err := core.WriteModule(root, all); err != nil {
		return err
	}
	text := core.StubModule
	if l.gomod != nil {
		text = l.gomod(text)
	}
	if err := os.WriteFile(filepath.Join(root, "go.mod"), []byte(strings.ReplaceAll(text, "$MOD", mod)), 0o644); err != nil {
		return err
	}
	for _, d := range l.dirs {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			return err
		}
	}
	for k, v := range l.links {
		if err := os.Symlink(v, filepath.Join(dir, k)); err != nil {
			return err
		}
	}
	workDir := dir
	if l.rel {
		wd, err := os.Getwd()
		if err != nil {
			return err
		}
		if workDir, err = filepath.Rel(wd, dir); err != nil {
			return err
		}
	}
	sums := func(rel string) bool { return rel == "go.sum" } // the go command adds to it
	before := tree(root, sums)

	s := astra.New(core.Quiet(), astra.WithCustomWorkDir(workDir), core.GinParse(), outputs.WithOpenAPIOutput("openapi.json"), outputs.WithJSONOutput("routes.json"),
		astra.WithConfig(&astra.Config{Title: "t", Version: "1", Host: "h", Port: 1, BasePath: "/"}))
	handlers := "handlers.go"
	if files[handlers] == "" {
		handlers = "main.go"
	}
	s.AddRoute(astra.Route{Handler: "main.Get", File: filepath.Join(dir, handlers), LineNo: core.Line(files[handlers], "func Get("), Method: "POST", Path: "/get"})
	s.AddRoute(astra.Route{Handler: "main.main.func1", File: filepath.Join(dir, "main.go"), LineNo: core.Line(files["main.go"], "// the literal"), Method: "POST", Path: "/literal"})
	if err := guard(func() error {
		if err := s.Setup(); err != nil {
			return err
		}
		return s.CompleteParse()
	}); err != nil {
		return err
	}
	var raw []byte
	for _, f := range []string{"openapi.json", "routes.json"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return err
		}
		if err := noCopy(b); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
		os.Remove(filepath.Join(dir, f))
		if f == "openapi.json" {
			raw = b
		}
	}
	if err := diffTrees(tree(root, sums), before); err != nil {
		return fmt.Errorf("the module is not as before: %w", err)
	}
	doc := &core.Doc{}
	if err := json.Unmarshal(raw, &doc.Root); err != nil {
		return err
	}
	inner := obj("N", scalar("int"))
	item := obj("name", scalar("string"), "kind", core.EnumOf(scalar("string"), "a"), "in", core.Arr(inner), "sub", obj("T", scalar("bool")), "map", core.Map(inner))
	get := "Get gets."
	res := &core.Result{Doc: doc, Unit: &Unit{Routes: []core.Route{{Method: "POST", Path: "/get"}, {Method: "POST", Path: "/literal"}}}}
	if err := core.Is(
		core.Expect{Desc: &get, Params: []Par{{In: "query", Name: "the name", X: scalar("string")}}, Body: map[string]*X{"application/json": item},
			Resp: []Resp{{200, "application/json", item}, {207, "application/xml", core.Arr(inner)}}},
		core.Expect{Resp: []Resp{{208, "application/json", core.Arr(inner)}}},
	)(res); err != nil {
		return err
	}
	main, _ := doc.Schemas()["main.Item"].(map[string]any)
	if d, _ := main["description"].(string); d != "Item is documented." {
		return errors.New("the component main.Item is not there with its description")
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID: "C25",
		Rule: "a case is a handler of the other checks (responses, inputs, helpers, types, enumerations) put in the package main, with the reference model that it has in any other package; " +
			"or a form of a module with a package main (files, package clauses, go.mod, directory of the package).",
		Run: func(w *core.W) error {
			shard, of := w.Shard, w.Of
			k := 0
			for i, s := range c25Sets {
				w.Shard, w.Of = shard-k, s.workers
				k += s.workers
				if of < 8 { // all sets one after the other do not fit in a process, so only for a replay
					if i != shard%len(c25Sets) && w.Only == "" {
						continue
					}
					if w.Only != "" && !strings.HasPrefix(w.Only, "main "+s.name+" ") {
						continue
					}
					w.Shard, w.Of = 0, 1
				}
				if w.Shard < 0 || w.Shard >= w.Of {
					continue
				}
				if err := core.RunUnitsIn(w, "main", c25Units(i, w.Thorough()), support); err != nil {
					return err
				}
			}
			w.Shard, w.Of = shard, of
			for i, l := range c25Layouts() {
				id := "layout " + l.name
				if !w.Mine(i) || !w.Start(id) {
					continue
				}
				if err := c25Layout(w, i, l); err != nil {
					w.Violation(id, err.Error(), nil)
				}
				w.Done(id, id, 6)
			}
			return nil
		},
		Assumptions: []string{"no file of the package main embeds files (go:embed)", "a worker has one generated package main in its process"},
	})
}
