package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"gopkg.in/yaml.v3"

	"vh/core"
)

// entry is what there is to know about a file.
type entry struct {
	kind    string
	mode    os.FileMode
	inode   uint64
	mtime   time.Time
	content string
}

func entries(dir string) map[string]entry {
	r := map[string]entry{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil || rel == "." || rel == "go.sum" {
			return nil
		}
		e := entry{kind: "file", mode: info.Mode(), mtime: info.ModTime()}
		if st, ok := info.Sys().(*syscall.Stat_t); ok {
			e.inode = st.Ino
		}
		switch {
		case info.IsDir():
			e.kind, e.mtime = "directory", time.Time{}
		case info.Mode()&os.ModeSymlink != 0:
			e.kind = "link"
			e.content, _ = os.Readlink(p)
		default:
			b, err := os.ReadFile(p)
			e.content = string(b)
			if err != nil {
				e.content = err.Error()
			}
		}
		r[rel] = e
		return nil
	})
	return r
}

// c16Out is an output with the files that it has.
type c16Out struct {
	spec  string
	files []string // what is there afterwards
	whole string   // the directory that is replaced
}

func c16Outs(sub bool) []c16Out {
	azure := func(dir string) c16Out {
		o := c16Out{spec: "azure:" + dir, whole: dir, files: []string{dir, dir + "/GetThing", dir + "/GetThing/function.json"}}
		if !sub {
			o.files = append(o.files, dir+"/PostItem", dir+"/PostItem/function.json")
		}
		return o
	}
	return []c16Out{
		{spec: "openapi:openapi.json", files: []string{"openapi.json"}},
		{spec: "openapi:docs/api.yaml", files: []string{"docs/api.yaml"}},
		{spec: "openapi:api", files: []string{"api.json"}},
		{spec: "json:routes.json", files: []string{"routes.json"}},
		{spec: "json:docs/routes", files: []string{"docs/routes.json"}},
		{spec: "json:docs/../up.json", files: []string{"up.json"}},
		azure("functions2"),
		azure("docs/functions"),
		azure("new"),
	}
}

// c16Inits are contents of the directory beforehand.
var c16Inits = []struct {
	name  string
	files map[string]string
	modes map[string]os.FileMode
}{
	{name: "clean"},
	{name: "earlier outputs", files: map[string]string{"openapi.json": strings.Repeat("{\"old\": 1}\n", 2000), "docs/api.yaml": strings.Repeat("old: 1\n", 2000), "api": "mine\n", "api.json": "x", "routes.json": "[]", "docs/routes.json": strings.Repeat("{}\n", 9000),
		"docs/routes": "mine\n", "up.json": "\n", "functions2/PostItem/function.json": strings.Repeat("{}", 5000), "functions2/PostItem/index.js": "x", "functions2/host.json": "{}", "docs/functions/x/function.json": "{}"}},
	{name: "leftovers", files: map[string]string{".astra/astramain/main.go": "package astramain\n", ".astra/astramain/gone.go": "package gone\n", ".astra/azure/Gone/function.json": "{}", ".astra/.gitignore": "*\n"}},
	{name: "look-alikes", files: map[string]string{"astramain/x.go": "package astramain\n", "azure/PostItem/function.json": "{}", "cache.json": "{}", "cache.json.tmp": "{", "openapi.json.tmp": "x", "astra/.astra/cache.json": "{}", "sub/.astra/cache.json": "{}",
		".astra.bak/cache.json": "{}", ".astraX": "x", "functions/PostItem/function.json": "{}", "openapi.yaml": "x", "openapi.yml": "x", "openapi": "x", "routes": "x", ".gitignore": "none\n", "my.yaml": "x", "other.json.tmp": "x"}},
	{name: "modes", modes: map[string]os.FileMode{"main.go": 0o444, "handlers.go": 0o400, "sub": 0o555, "sub/sub.go": 0o755, "notes.txt": 0o600, "go.mod": 0o444, "docs/keep.md": 0o000}},
	{name: "links", files: map[string]string{"dangling": "-> nowhere", "loop": "-> loop", "up": "-> ..", "subdir": "-> sub", "dangling.txt": "-> x.go", "linked.txt": "-> notes.txt", "docs/main.go": "-> ../main.go"}},
	{name: "other things", files: map[string]string{".git/config": "[core]\n", ".env": "A=1\n", "x_test.go": "package main_test\n", "_x.go": "junk", "vendor.txt": "x", "testdata/a.go": "junk", "nested/go.mod": "module nested\n", "nested/main.go": "package main\n",
		"cmd/x/main.go": "package main\n\nfunc main() {}\n", "empty/": "", "deep/er/and/deeper/": ""}},
}

// c16Mode is a way of caching.
type c16Mode struct {
	name  string
	prog  fsProg
	cli   []string
	files []string // what stays besides the outputs
}

var c16Modes = []c16Mode{
	{name: "plain"},
	{name: "plain in the process's directory", prog: fsProg{WorkDir: "none"}},
	{name: "plain relative", prog: fsProg{WorkDir: "."}},
	{name: "cache", prog: fsProg{Cache: "default"}, files: []string{".astra", ".astra/.gitignore", ".astra/cache.json"}},
	{name: "custom cache", prog: fsProg{Cache: "my.json"}, files: []string{".astra", ".astra/.gitignore", "my.json"}},
	{name: "yaml cache", prog: fsProg{Cache: "docs/my.yaml"}, files: []string{".astra", ".astra/.gitignore", "docs/my.yaml"}},
	{name: "cli", prog: fsProg{CLI: true}, cli: []string{"generate"}, files: []string{".astra", ".astra/.gitignore", ".astra/cache.json"}},
	{name: "elsewhere", prog: fsProg{Cwd: "docs"}},
	{name: "elsewhere, relative", prog: fsProg{Cwd: "docs", WorkDir: ".."}},
	{name: "elsewhere with the cache", prog: fsProg{Cwd: "docs", Cache: "default"}, files: []string{".astra", ".astra/.gitignore", ".astra/cache.json"}},
	{name: "elsewhere with a cache", prog: fsProg{Cwd: "docs", WorkDir: "..", Cache: "my.json"}, files: []string{".astra", ".astra/.gitignore", "docs/my.json"}},
	{name: "cli elsewhere", prog: fsProg{CLI: true, Cwd: "docs", WorkDir: ".."}, cli: []string{"generate", "-c", "../.astra/cache.json", "-d", ".."}, files: []string{".astra", ".astra/.gitignore", ".astra/cache.json"}},
	{name: "cli with a cache", prog: fsProg{CLI: true, Cache: "my.yml"}, cli: []string{"generate", "-c", "my.yml", "-d", "."}, files: []string{".astra", ".astra/.gitignore", "my.yml"}},
}

// c16Case is a generation, run once or twice.
type c16Case struct {
	mode  c16Mode
	init  int
	outs  []c16Out
	sub   bool
	twice bool
}

func (c c16Case) id() string {
	var o []string
	for _, x := range c.outs {
		o = append(o, x.spec)
	}
	s := fmt.Sprintf("%s, %s, %s", c.mode.name, c16Inits[c.init].name, strings.Join(o, " "))
	if c.sub {
		s += ", no handlers in main"
	}
	if c.twice {
		s += ", twice"
	}
	return s
}

func c16Cases(thorough bool) []c16Case {
	var r []c16Case
	for _, m := range c16Modes {
		for i := range c16Inits {
			for _, sub := range []bool{false, true} {
				outs := c16Outs(sub)
				var sets [][]c16Out
				for a, o := range outs {
					sets = append(sets, []c16Out{o})
					for b, p := range outs {
						if a < b && (thorough || (a+b+i)%5 == 0) {
							sets = append(sets, []c16Out{o, p})
						}
					}
				}
				sets = append(sets, []c16Out{outs[0], outs[1], outs[3], outs[4], outs[6], outs[7]})
				for k, s := range sets {
					if !thorough && (sub && k%3 != i%3 || !sub && k%2 != i%2) {
						continue
					}
					r = append(r, c16Case{m, i, s, sub, false})
					if thorough || k == 0 || k == len(sets)-1 {
						r = append(r, c16Case{m, i, s, sub, true})
					}
				}
			}
		}
	}
	return r
}

// wellFormed is an error if a file that was asked for is not a whole document.
func wellFormed(name, text string) error {
	var v map[string]any
	if strings.HasSuffix(name, ".yaml") || strings.HasSuffix(name, ".yml") {
		if err := yaml.Unmarshal([]byte(text), &v); err != nil {
			return err
		}
	} else if err := json.Unmarshal([]byte(text), &v); err != nil {
		return err
	}
	if len(v) == 0 {
		return fmt.Errorf("it is empty")
	}
	return nil
}

func c16Run(w *core.W, dir, mod string, c c16Case) (int, error) {
	files := fsFiles(mod)
	init := c16Inits[c.init]
	for k, v := range init.files {
		files[k] = v
	}
	if err := putTree(dir, files); err != nil {
		return 0, err
	}
	for k, m := range init.modes {
		if err := os.Chmod(filepath.Join(dir, k), m); err != nil {
			return 0, err
		}
		defer os.Chmod(filepath.Join(dir, k), 0o755)
	}
	past := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			os.Chtimes(p, past, past)
		}
		return nil
	})
	before := entries(dir)
	tmp := filepath.Join(w.Dir, "tmp")
	os.RemoveAll(tmp)
	os.MkdirAll(tmp, 0o755)
	os.Setenv("TMPDIR", tmp)

	// the model: what is there afterwards, and what of it may be another file than before
	want, owned := map[string]bool{}, map[string]bool{}
	for k := range before {
		want[k] = true
	}
	drop := func(d string) {
		for k := range want {
			if k == d || strings.HasPrefix(k, d+"/") {
				delete(want, k)
			}
		}
	}
	if c.mode.prog.Cache == "" && !c.mode.prog.CLI {
		drop(".astra")
	}
	drop(".astra/astramain")
	for _, o := range c.outs {
		if o.whole != "" {
			drop(o.whole)
			drop(".astra/azure")
		}
	}
	for _, f := range c.mode.files {
		want[f], owned[f] = true, true
	}
	for _, o := range c.outs {
		for _, f := range o.files {
			want[f], owned[f] = true, true
		}
	}

	r := &fsRun{fsScenario: fsScenario{prog: c.mode.prog, cli: c.mode.cli}, record: filepath.Join(w.Dir, "record")}
	r.prog.Dir, r.prog.Sub, r.prog.Do = dir, c.sub, "parse"
	if c.mode.cli != nil {
		r.prog.Do = "setup"
	}
	for _, o := range c.outs {
		r.prog.Outs = append(r.prog.Outs, o.spec)
	}
	steps, rounds := 0, 1
	if c.twice {
		rounds = 2
	}
	for i := 0; i < rounds*r.steps(); i++ {
		os.Remove(r.record)
		res := r.step(i%r.steps(), &core.FSPlan{Record: r.record})
		steps += len(res.ops)
		if res.err != nil {
			return steps, fmt.Errorf("it fails: %v", res)
		}
		for _, o := range res.ops {
			if o.Mut && filepath.IsAbs(o.Path) && !strings.HasPrefix(o.Path, tmp+"/") {
				return steps, fmt.Errorf("it changes what is outside of its directory: %s %s", o.Op, o.Path)
			}
		}
	}
	after := entries(dir)
	var diffs []string
	for k := range want {
		a, ok := after[k]
		if !ok {
			diffs = append(diffs, k+" is missing")
			continue
		}
		b, was := before[k]
		if owned[k] {
			if a.kind == "file" && strings.HasSuffix(k, ".gitignore") {
				if a.content != "*\n" {
					diffs = append(diffs, k+" does not ignore everything")
				}
			} else if a.kind == "file" {
				if err := wellFormed(k, a.content); err != nil {
					diffs = append(diffs, fmt.Sprintf("%s: %v", k, err))
				}
			}
			continue
		}
		if a != b || !was {
			diffs = append(diffs, fmt.Sprintf("%s is not as before (%s %v, was %s %v)", k, a.kind, a.mode, b.kind, b.mode))
		}
	}
	for k := range after {
		if !want[k] {
			diffs = append(diffs, k+" is left")
		}
	}
	for k := range entries(tmp) {
		diffs = append(diffs, "temporary file "+k+" is left")
	}
	if len(diffs) > 0 {
		sort.Strings(diffs)
		if len(diffs) > 8 {
			diffs = append(diffs[:8], "...")
		}
		return steps, fmt.Errorf("%s", strings.Join(diffs, "; "))
	}
	if git, err := exec.LookPath("git"); err == nil && len(c.mode.files) > 0 && len(c.outs) == 1 && c.init == 0 {
		return steps, c16Git(git, dir, want, before)
	}
	return steps, nil
}

// c16Git asks git what it sees of the tool's own directory.
func c16Git(git, dir string, want map[string]bool, before map[string]entry) error {
	run := func(args ...string) (string, error) {
		cmd := exec.Command(git, args...)
		cmd.Dir = dir
		b, err := cmd.CombinedOutput()
		return string(b), err
	}
	if out, err := run("init", "-q"); err != nil {
		return fmt.Errorf("git: %v %s", err, out)
	}
	out, err := run("status", "--porcelain", "-uall")
	if err != nil {
		return fmt.Errorf("git: %v %s", err, out)
	}
	if strings.Contains(out, ".astra") {
		return fmt.Errorf("git does not ignore the tool's own directory: %s", out)
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID: "C16",
		Rule: "a case is a way of caching, a content of the directory beforehand, a set of outputs, and whether the package main has handlers, generated once or twice by processes of their own; " +
			"it counts when every entry of the directory (kind, mode, time, inode, content) was compared with the model and no operation changed anything outside.",
		Run: func(w *core.W) error {
			for i, c := range c16Cases(w.Thorough()) {
				id := c.id()
				if !w.Mine(i) && w.Only == "" || !w.Start(id) {
					continue
				}
				dir := filepath.Join(w.Dir, "case")
				steps, err := c16Run(w, dir, "case.example/m", c)
				if err != nil {
					w.Violation(id, err.Error(), c.id())
				}
				w.Done(id, id, steps)
				w.Sample(id)
			}
			return nil
		},
		Assumptions: []string{"the program runs as root, so modes do not keep it from anything", "a custom cache file's path with .tmp appended belongs to the cache"},
	})
}
