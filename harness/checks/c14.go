package checks

import (
	"errors"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/ls6-events/astra"

	"vh/core"
)

// fsScenario is a generation: what is asked for and in what directory.
type fsScenario struct {
	name  string
	prog  fsProg
	cli   []string          // arguments of the second step with the CLI
	init  map[string]string // further files of the directory before
	owned []string          // what the generation may change besides .astra
	heavy bool              // only in the thorough tier
}

func fsScenarios() []fsScenario {
	all := []string{"openapi:openapi.json", "json:routes.json", "azure:functions2"}
	old := map[string]string{"openapi.yaml": strings.Repeat("old: content\n", 500), "functions2/Old/more.txt": "more\n"}
	return []fsScenario{
		{name: "plain", prog: fsProg{Outs: []string{"openapi:openapi.json"}}, owned: []string{"openapi.json"}},
		{name: "cached", prog: fsProg{Outs: []string{"openapi:openapi.yaml", "json:routes"}, Cache: "default"}, init: old, owned: []string{"openapi.yaml", "routes.json"}},
		{name: "azure", prog: fsProg{Outs: []string{"azure:functions2"}, Cache: "my.json", Sub: true}, owned: []string{"functions2", "my.json", "my.json.tmp"}},
		{name: "yaml cache", prog: fsProg{Outs: []string{"openapi:docs/openapi.json"}, Cache: "docs/my.yaml"}, owned: []string{"docs/openapi.json", "docs/my.yaml", "docs/my.yaml.tmp"}, heavy: true},
		{name: "cli", prog: fsProg{Outs: all, CLI: true}, cli: []string{"generate"}, owned: []string{"openapi.json", "routes.json", "functions2"}},
		{name: "cli yaml", prog: fsProg{Outs: all[:2], CLI: true, Cache: "my.yml", Sub: true}, cli: []string{"generate", "-c", "my.yml"}, owned: []string{"openapi.json", "routes.json", "my.yml", "my.yml.tmp"}, heavy: true},
		{name: "leftovers", prog: fsProg{Outs: all}, owned: []string{"openapi.json", "routes.json", "functions2"}, init: map[string]string{".astra/astramain/handlers.go": "package astramain\n\nfunc",
			".astra/astramain/other.go": "package other\n", ".astra/azure/PostItem/function.json": "", ".astra/azure/Old/function.json": "{}", ".astra/cache.json": "{\"routes\": [", ".astra/cache.json.tmp": "{"}, heavy: true},
		{name: "cached leftovers", prog: fsProg{Outs: all, Cache: "default"}, owned: []string{"openapi.json", "routes.json", "functions2"}, init: map[string]string{".astra/astramain/handlers.go": "package astramain\n\nfunc",
			".astra/astramain/sub/other.go": "package other\n", ".astra/azure/Old": "{}", ".astra/.gitignore": "*\n", ".astra/cache.json": "{\"routes\": ["}, heavy: true},
	}
}

// fsRun is a scenario in a directory of a worker.
type fsRun struct {
	fsScenario
	init     map[string]string
	want     []map[string]string // the directory after each step
	versions map[string]bool     // contents that the cache has after the phases
	ops      [][]core.FSOp       // of each step
	record   string
}

// cachePath is where the cache is, relative to the directory.
func (r *fsRun) cachePath() string {
	if r.prog.Cache == "" || r.prog.Cache == "default" {
		return ".astra/cache.json"
	}
	return r.prog.Cache
}

// step runs a step of the scenario: the program, or the CLI after it.
func (r *fsRun) step(i int, plan *core.FSPlan) procResult {
	if plan != nil {
		plan.Root = r.prog.Dir
	}
	if i == 0 {
		return r.prog.start(plan)
	}
	return startProc(plan, filepath.Join(r.prog.Dir, r.prog.Cwd), append([]string{filepath.Join(filepath.Dir(os.Getenv("VH_HARNESS")), "vhcli")}, r.cli...)...)
}

func (r *fsRun) steps() int {
	if r.cli != nil {
		return 2
	}
	return 1
}

func skipSums(rel string) bool { return rel == "go.sum" } // the go command adds to it

// prepare runs a scenario undisturbed.
func (sc fsScenario) prepare(w *core.W, n int) (*fsRun, error) {
	r := &fsRun{fsScenario: sc, record: filepath.Join(w.Dir, "record"), versions: map[string]bool{}}
	r.prog.Dir = filepath.Join(w.Dir, fmt.Sprintf("scenario%d", n))
	r.prog.Do = "parse"
	if sc.cli != nil {
		r.prog.Do = "setup"
	}
	r.init = fsFiles(fmt.Sprintf("scenario%d.example/m", n))
	for k, v := range sc.init {
		r.init[k] = v
	}
	vdir := filepath.Join(w.Dir, fmt.Sprintf("versions%d", n))
	os.MkdirAll(vdir, 0o755)
	if err := putTree(r.prog.Dir, r.init); err != nil {
		return nil, err
	}
	r.init = tree(r.prog.Dir, skipSums) // with the directories
	counted := r.prog
	counted.Versions = vdir
	if res := counted.start(nil); res.err != nil {
		return nil, fmt.Errorf("the undisturbed run: %v", res)
	}
	for _, v := range tree(vdir, nil) {
		r.versions[v] = true
	}
	if err := putTree(r.prog.Dir, r.init); err != nil {
		return nil, err
	}
	for i := 0; i < r.steps(); i++ {
		os.Remove(r.record)
		res := r.step(i, &core.FSPlan{Record: r.record})
		if res.err != nil {
			return nil, fmt.Errorf("the undisturbed run: %v", res)
		}
		r.ops = append(r.ops, inOrder(res.ops))
		r.want = append(r.want, tree(r.prog.Dir, skipSums))
	}
	return r, nil
}

// inOrder has the operations that only read after the others, in an order that does not depend on the schedule.
func inOrder(ops []core.FSOp) []core.FSOp {
	var muts, reads []core.FSOp
	for _, o := range ops {
		if o.Mut {
			muts = append(muts, o)
		} else {
			reads = append(reads, o)
		}
	}
	sort.Slice(reads, func(i, j int) bool { return reads[i].ID < reads[j].ID })
	return append(muts, reads...)
}

// mineByName distributes cases whose number can differ between the workers.
func mineByName(w *core.W, id string) bool {
	return w.Only != "" || int(crc32.ChecksumIEEE([]byte(id))>>3)%w.Of == w.Shard
}

// owns is whether a path is one that the generation may change.
func (r *fsRun) owns(rel string) bool {
	for _, o := range append([]string{".astra"}, r.owned...) {
		if rel == o || rel == o+"/" || strings.HasPrefix(rel, o+"/") {
			return true
		}
	}
	return false
}

// intact is an error if what the generation does not own is not as before.
func (r *fsRun) intact(got map[string]string) error {
	keep := func(t map[string]string) map[string]string {
		k := map[string]string{}
		for name, text := range t {
			if !r.owns(name) {
				k[name] = text
			}
		}
		return k
	}
	return diffTrees(keep(got), keep(r.init))
}

// cacheComplete is an error if there is a cache that can be loaded but is not one of those of the undisturbed run.
func (r *fsRun) cacheComplete(got map[string]string) error {
	text, ok := got[r.cachePath()]
	if !ok || r.versions[text] || text == r.init[r.cachePath()] {
		return nil
	}
	loaded := func(text string) (*astra.Service, error) {
		p := filepath.Join(filepath.Dir(r.record), "loaded"+filepath.Ext(r.cachePath()))
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return nil, err
		}
		s := astra.New(core.Quiet())
		return s, s.LoadCacheFromCustomPath(p)
	}
	s, err := loaded(text)
	if err != nil {
		return nil
	}
	for v := range r.versions {
		if o, err := loaded(v); err == nil && reflect.DeepEqual(s.Routes, o.Routes) && reflect.DeepEqual(s.Components, o.Components) && reflect.DeepEqual(s.Outputs, o.Outputs) && reflect.DeepEqual(s.Config, o.Config) {
			return nil
		}
	}
	return errors.New("the cache after the crash is partial but is loaded")
}

// crash is a point at which the process is stopped.
type crash struct {
	step int
	op   core.FSOp
	cut  int
}

func (c crash) String() string {
	s := fmt.Sprintf("step %d %s %s %s", c.step, c.op.ID, c.op.Op, c.op.Path)
	if c.cut > 0 {
		s += fmt.Sprintf(" cut %d", c.cut)
	}
	return s
}

// crashes are the points of a run that leave different states.
func (r *fsRun) crashes(thorough bool) []crash {
	var list []crash
	for step, ops := range r.ops {
		for _, o := range ops {
			if !o.Mut {
				continue
			}
			list = append(list, crash{step, o, 0})
			if o.Op != "write" {
				continue
			}
			cuts := []int{1, o.Size / 2, o.Size - 1}
			if thorough {
				for k := 1; k < 8; k++ {
					cuts = append(cuts, o.Size*k/8)
				}
				cuts = append(cuts, 2, o.Size-2)
			}
			seen := map[int]bool{}
			for _, c := range cuts {
				if c > 0 && c < o.Size && !seen[c] {
					seen[c] = true
					list = append(list, crash{step, o, c})
				}
			}
		}
	}
	return list
}

// crashRun brings the directory in the state after a crash.
func (r *fsRun) crashRun(c crash) (bool, error) {
	res := r.step(c.step, &core.FSPlan{At: c.op.ID, Act: "crash", Cut: c.cut})
	if !res.killed {
		if res.err != nil {
			return false, fmt.Errorf("step %d: %v", c.step, res)
		}
		return false, nil
	}
	got := tree(r.prog.Dir, skipSums)
	if err := r.intact(got); err != nil {
		return true, fmt.Errorf("after the crash: %w", err)
	}
	return true, r.cacheComplete(got)
}

// recover runs everything once more from a step on and compares.
func (r *fsRun) recover(from int) error {
	for i := from; i < r.steps(); i++ {
		if res := r.step(i, nil); res.err != nil {
			return fmt.Errorf("the run after the crash: %v", res)
		}
		if i < r.steps()-1 {
			continue
		}
		if err := diffTrees(tree(r.prog.Dir, skipSums), r.want[i]); err != nil {
			return fmt.Errorf("after the run after the crash: %w", err)
		}
	}
	return nil
}

// c14Twice stops the run after a crash once more, at each of its points.
func c14Twice(w *core.W, r *fsRun) error {
	for _, c := range r.crashes(false) {
		if c.cut > 1 {
			continue
		}
		if !mineByName(w, c.String()) || w.Only != "" && !strings.HasPrefix(w.Only, r.name+" "+c.String()+" then ") {
			continue
		}
		state, ops, err := func() (map[string]string, []core.FSOp, error) {
			if err := putTree(r.prog.Dir, r.init); err != nil {
				return nil, nil, err
			}
			for i := 0; i < c.step; i++ {
				if res := r.step(i, nil); res.err != nil {
					return nil, nil, res.err
				}
			}
			if _, err := r.crashRun(c); err != nil {
				return nil, nil, err
			}
			state := tree(r.prog.Dir, skipSums)
			os.Remove(r.record)
			res := r.step(c.step, &core.FSPlan{Record: r.record})
			return state, res.ops, res.err
		}()
		if err != nil {
			continue // reported where it is the only crash
		}
		again := *r
		again.ops = make([][]core.FSOp, c.step+1)
		again.ops[c.step] = ops
		for _, d := range again.crashes(false) {
			if d.cut > 1 {
				continue
			}
			id := r.name + " " + c.String() + " then " + d.String()
			if !w.Start(id) {
				continue
			}
			if err := putTree(r.prog.Dir, state); err != nil {
				return err
			}
			_, err := r.crashRun(d)
			if err == nil {
				err = r.recover(d.step)
			}
			if err != nil {
				w.Violation(id, err.Error(), []crash{c, d})
			}
			w.Done(id, id, 2)
		}
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID: "C14",
		Rule: "a case is a generation in a process of its own that is killed before a file operation that changes something, or within a write after a number of bytes, and run again by another process; " +
			"it counts when the process was killed at that point and both directories (after the crash, after the second run) were compared. Thorough: also two crashes one after the other.",
		Run: func(w *core.W) error {
			for si, sc := range fsScenarios() {
				if sc.heavy && !w.Thorough() {
					continue
				}
				if w.Only != "" && !strings.HasPrefix(w.Only, sc.name+" ") {
					continue
				}
				r, err := sc.prepare(w, si)
				if err != nil {
					id := sc.name + " undisturbed"
					if w.Start(id) {
						w.Violation(id, err.Error(), nil)
						w.Done(id, "", 1)
					}
					continue
				}
				list := r.crashes(w.Thorough())
				if w.Thorough() && !sc.heavy {
					if err = c14Twice(w, r); err != nil {
						return err
					}
				}
				for _, c := range list {
					id := sc.name + " " + c.String()
					if !mineByName(w, id) || !w.Start(id) {
						continue
					}
					if err := putTree(r.prog.Dir, r.init); err != nil {
						return err
					}
					steps := 2
					err := func() error {
						for i := 0; i < c.step; i++ {
							if res := r.step(i, nil); res.err != nil {
								return fmt.Errorf("the run before: %v", res)
							}
							steps++
						}
						hit, err := r.crashRun(c)
						if err != nil {
							return err
						}
						if !hit {
							w.Count("not_reached", 1)
						}
						state := tree(r.prog.Dir, skipSums)
						w.Sample(map[string]any{"case": id, "files": len(state)})
						if err := r.recover(c.step); err != nil {
							return err
						}
						if c.step > 0 && c.cut == 0 { // also from the start
							if err := putTree(r.prog.Dir, state); err != nil {
								return err
							}
							return r.recover(0)
						}
						return nil
					}()
					if err != nil {
						w.Violation(id, err.Error(), c)
					}
					w.Done(id, id, steps)
				}
			}
			return nil
		},
		Assumptions: []string{"a process that is stopped loses nothing that it has written (no loss of power)", "a file operation other than a write is done or not done"},
	})
}
