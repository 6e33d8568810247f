package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/outputs"

	"vh/core"
)

// c11Service is one of the services that live in a process.
type c11Service struct {
	name  string
	files []string // what it writes
	opts  func() []astra.Option
}

func c11Services() []c11Service {
	outs := func(prefix string) ([]string, []astra.Option) {
		return []string{prefix + ".json", prefix + ".yaml", prefix + "-routes.json", prefix + "-azure"},
			[]astra.Option{outputs.WithOpenAPIOutput(prefix + ".json"), outputs.WithOpenAPIOutput(prefix + ".yaml"), outputs.WithJSONOutput(prefix + "-routes.json"), outputs.WithAzureFunctionsOutput(prefix + "-azure")}
	}
	mk := func(name string, mask int, more func() []astra.Option) c11Service {
		files, _ := outs(name)
		return c11Service{name: name, files: files, opts: func() []astra.Option {
			_, o := outs(name)
			o = append(o, richOptions(mask)...)
			if more != nil {
				o = append(o, more()...)
			}
			return o
		}}
	}
	return []c11Service{
		mk("plain", richAll, nil),
		mk("mapped", richAll, func() []astra.Option {
			return []astra.Option{
				astra.WithCustomTypeMappingSingle("vh/fix/rich.Color", "string", "color"),
				astra.WithCustomTypeMapping(map[string]astra.TypeFormat{"time.Time": {Type: "integer", Format: "unix"}, "vh/fix.Item": {Type: "string", Format: "item"}}),
				astra.WithCustomTypeMappingSingle("vh/fix/rich.Level", "number", "level"),
			}
		}),
		mk("denied", richAll, func() []astra.Option {
			return []astra.Option{
				astra.WithPathDenyList("/counts"), astra.WithPathDenyListRegex(regexp.MustCompile("upload")),
				astra.WithPathDenyListFunc(func(p string) bool { return p == "/items" }),
			}
		}),
		mk("custom", richAll, func() []astra.Option {
			return []astra.Option{astra.WithCustomFunc(func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
				f, err := b.Traverser.Type()
				if err != nil || f.Name() != "JSON" {
					return nil, nil
				}
				return b.StatusCode().ExpressionResult().Build(func(r *astra.Route, p []any) (*astra.Route, error) {
					r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 100 + p[0].(int), ContentType: "application/custom", Field: astra.Field{Type: "string"}})
					return r, nil
				})
			})}
		}),
		mk("one", 0b00100, nil), // no type of the package rich
		mk("cached", richAll, func() []astra.Option { return []astra.Option{cache.WithCache()} }),
		mk("builder", 0b10001, func() []astra.Option {
			c := astra.NewConfigBuilder().SetTitle("built").SetPort(99).SetHost("b.example")
			built, err := c.Build()
			if err != nil {
				panic(err)
			}
			c.SetTitle("changed later").SetPort(1)
			return []astra.Option{astra.WithConfig(built)}
		}),
		mk("empty", 0, nil),
	}
}

// c11Phases are the steps of a generation.
var c11Phases = []struct {
	name string
	run  func(s *astra.Service) error
}{
	{"setup", (*astra.Service).Setup},
	{"create", (*astra.Service).CreateRoutes},
	{"parse", (*astra.Service).ParseRoutes},
	{"clean", (*astra.Service).Clean},
	{"generate", (*astra.Service).Generate},
	{"teardown", (*astra.Service).Teardown},
}

type c11Run struct {
	dir     string
	sources map[string]string
}

// wipe removes what the runs have written.
func (r c11Run) wipe() {
	entries, _ := os.ReadDir(r.dir)
	for _, e := range entries {
		_, file := r.sources[e.Name()]
		_, dir := r.sources[e.Name()+"/"]
		if !file && !dir {
			os.RemoveAll(filepath.Join(r.dir, e.Name()))
		}
	}
}

func (r c11Run) output(s c11Service) map[string]string {
	got := map[string]string{}
	for _, f := range s.files {
		if b, err := os.ReadFile(filepath.Join(r.dir, f)); err == nil {
			got[f] = string(b)
		}
		for k, v := range tree(filepath.Join(r.dir, f), nil) {
			got[f+"/"+k] = v
		}
	}
	return got
}

func (r c11Run) new(s c11Service) *astra.Service {
	return astra.New(append(s.opts(), astra.WithCustomWorkDir(r.dir))...)
}

// c11Interleavings calls f with every way of merging sequences of n steps of k services.
func c11Interleavings(k, n int, f func(order []int)) {
	left := make([]int, k)
	for i := range left {
		left[i] = n
	}
	var order []int
	var rec func()
	rec = func() {
		if len(order) == k*n {
			f(append([]int{}, order...))
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				left[i]++
			}
		}
	}
	rec()
}

func init() {
	core.Register(&core.Check{
		ID: "C11",
		Rule: "a case is an order of the phases of two or three services of one process, a list of services that are generated one after the other, or a sequence of the phases of a service with repetitions; " +
			"each service must write what it writes alone.",
		Run:         c11,
		Assumptions: []string{"services in one process are built from the same packages", "routes are created once for a service"},
	})
}

const c11Workers = 4

func c11(w *core.W) error {
	if w.Shard >= c11Workers {
		return nil
	}
	dir, err := core.FixModule(w)
	if err != nil {
		return err
	}
	run := c11Run{dir: dir, sources: tree(dir, nil)}
	services := c11Services()
	alone := make([]map[string]string, len(services))
	want := func(i int) map[string]string {
		if alone[i] == nil {
			run.wipe()
			s := run.new(services[i])
			if err := guard(s.Parse); err != nil {
				alone[i] = map[string]string{"error": err.Error()}
				return alone[i]
			}
			alone[i] = run.output(services[i])
		}
		return alone[i]
	}
	n := 0
	one := func(id string, transitions int, which []int, f func() error) {
		n++
		if !w.Few(n, c11Workers) || !w.Start(id) {
			return
		}
		for _, i := range which {
			want(i)
		}
		run.wipe()
		err := guard(f)
		for _, i := range which {
			if err == nil {
				if err = diffTrees(run.output(services[i]), alone[i]); err != nil {
					err = fmt.Errorf("%s: %w", services[i].name, err)
				}
			}
		}
		if err != nil {
			w.Violation(id, err.Error(), nil)
		}
		w.Done(id, id, transitions)
	}
	// the services alone have to be what they are, and different from each other
	for i := range services {
		one("alone "+services[i].name, 6, []int{i}, func() error { return run.new(services[i]).Parse() })
	}
	// the same service, with phases repeated
	for i, s := range services {
		if !w.Thorough() && i > 3 && i != 5 {
			continue
		}
		max := 2
		if w.Thorough() && i < 2 {
			max = 3
		}
		var counts []int
		var rec func()
		rec = func() {
			if len(counts) == len(c11Phases) {
				c := append([]int{}, counts...)
				one(fmt.Sprintf("repeat %s %v", s.name, c), 12, []int{i}, func() error {
					sv := run.new(s)
					for p, k := range c {
						for j := 0; j < k; j++ {
							if err := c11Phases[p].run(sv); err != nil {
								return fmt.Errorf("%s: %w", c11Phases[p].name, err)
							}
						}
					}
					return nil
				})
				return
			}
			top := max
			if c11Phases[len(counts)].name == "create" {
				top = 1
			}
			for k := 1; k <= top; k++ {
				counts = append(counts, k)
				rec()
				counts = counts[:len(counts)-1]
			}
		}
		rec()
		for k := 2; k <= 4; k++ {
			one(fmt.Sprintf("complete %s %d times", s.name, k), 4*k, []int{i}, func() error {
				sv := run.new(s)
				if err := sv.SetupParse(); err != nil {
					return err
				}
				for j := 0; j < k; j++ {
					if err := sv.CompleteParse(); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// one service after the other, each possibly several times
	length := 3
	var list []int
	var rec func()
	rec = func() {
		if len(list) > 1 {
			l := append([]int{}, list...)
			one(fmt.Sprint("after each other ", l), 6*len(l), l, func() error {
				for _, i := range l {
					if err := run.new(services[i]).Parse(); err != nil {
						return fmt.Errorf("%s: %w", services[i].name, err)
					}
				}
				return nil
			})
		}
		if len(list) == length {
			return
		}
		top := len(services)
		if len(list) > 0 && !w.Thorough() {
			top = 6
		}
		for i := 0; i < top; i++ {
			list = append(list, i)
			rec()
			list = list[:len(list)-1]
		}
	}
	rec()
	// interleaved, phase by phase; a service that is created before another one is set up counts, too
	inter := func(which []int, phases [][]func(s *astra.Service) error) {
		var names []string
		for _, i := range which {
			names = append(names, services[i].name)
		}
		c11Interleavings(len(which), len(phases), func(order []int) {
			one(fmt.Sprintf("interleave %s %v", strings.Join(names, "+"), order), len(order), which, func() error {
				var svs []*astra.Service
				for _, i := range which {
					svs = append(svs, run.new(services[i]))
				}
				at := make([]int, len(which))
				for _, o := range order {
					for _, f := range phases[at[o]] {
						if err := f(svs[o]); err != nil {
							return fmt.Errorf("%s: %w", services[which[o]].name, err)
						}
					}
					at[o]++
				}
				return nil
			})
		})
	}
	fine := [][]func(s *astra.Service) error{}
	for _, p := range c11Phases {
		fine = append(fine, []func(s *astra.Service) error{p.run})
	}
	five := append(append([][]func(s *astra.Service) error{}, append([]func(s *astra.Service) error{}, c11Phases[0].run, c11Phases[1].run)), fine[2:]...)
	three := [][]func(s *astra.Service) error{{c11Phases[0].run, c11Phases[1].run}, {c11Phases[2].run, c11Phases[3].run}, {c11Phases[4].run, c11Phases[5].run}}
	for i := range services {
		for j := range services {
			switch {
			case i == j:
			case w.Thorough() && (i == 1 || j == 5):
				inter([]int{i, j}, fine)
			case w.Thorough() && i < j || i == 1 && (j == 3 || j == 5 || j == 0) || i == 2 && j == 4:
				inter([]int{i, j}, five)
			case i < j:
				inter([]int{i, j}, three)
			}
		}
	}
	if w.Thorough() {
		inter([]int{0, 1, 3}, three)
		inter([]int{1, 5, 4}, three)
	}
	return nil
}
