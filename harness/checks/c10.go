package checks

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"

	"vh/core"
)

// c10Outputs are the further outputs of a unit.
func c10Outputs() []astra.Option {
	return []astra.Option{outputs.WithOpenAPIOutput("second.yaml"), outputs.WithJSONOutput("routes.json"), outputs.WithAzureFunctionsOutput("azure")}
}

// c10Read reads all the outputs of a run.
func c10Read(dir string) map[string]string {
	r := map[string]string{}
	for _, f := range []string{"openapi.json", "second.yaml", "routes.json"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			b = []byte("error: " + err.Error())
		}
		r[f] = string(b)
	}
	for k, v := range tree(filepath.Join(dir, "azure"), nil) {
		r["azure/"+k] = v
	}
	return r
}

// where names the function of the code that iterates.
func where(it core.Iteration) string {
	fr, _ := runtime.CallersFrames([]uintptr{it.PC}).Next()
	return fmt.Sprintf("%s:%d", fr.Function, fr.Line)
}

// explorer runs a generation under every choice of the starts of its iterations over maps within the bounds.
type explorer struct {
	level     int   // 0: all iterations shifted by the same number; 1: also every single one with every other start; 2: also every pair
	shifts    []int // for the shift of all
	maxStarts int
	end       time.Time
	once      func() error
	read      func() map[string]string // what a run has written
	count     func(name string, n int)
	mine      func(i int) bool // which iterations are changed here
}

func (e explorer) explore() (runs int, err error) {
	var ref map[string]string
	refErr := ""
	run := func(what string, choose func(i, n int) int) ([]core.Iteration, error) {
		var err error
		its := core.WithMapStarts(choose, func() { err = e.once() })
		got := e.read()
		runs++
		text := ""
		if err != nil {
			text = err.Error()
		}
		if ref == nil {
			ref, refErr = got, text
			if strings.HasPrefix(text, "panic: ") {
				return its, err
			}
			return its, nil
		}
		if text != refErr {
			return its, fmt.Errorf("%s: the generation ends with %q, otherwise with %q", what, text, refErr)
		}
		if err := diffTrees(got, ref); err != nil {
			return its, fmt.Errorf("%s: %w", what, err)
		}
		return its, nil
	}
	if e.shifts == nil {
		e.shifts = []int{1, 2, 3, 4, 5, 6, 7}
	}
	e.once() // loads the packages
	its, err := run("", func(int, int) int { return 0 })
	if err != nil {
		return runs, err
	}
	e.count("choices", len(its))
	if os.Getenv("VH_SITES") != "" { // debugging
		for _, it := range its {
			fmt.Fprintln(os.Stderr, "site", where(it), it.Starts)
		}
		fmt.Fprintln(os.Stderr, refErr, ref["openapi.json"])
	}
	for _, k := range e.shifts {
		if _, err := run(fmt.Sprintf("all iterations start at %d", k), func(_, n int) int { return k % n }); err != nil {
			return runs, err
		}
	}
	if e.level == 0 {
		return runs, nil
	}
	starts := func(n int) int {
		if n > e.maxStarts {
			e.count("starts_left_out", n-e.maxStarts)
			n = e.maxStarts
		}
		return n
	}
	late := func() bool {
		if time.Now().After(e.end) {
			e.count("deadline_skipped", 1)
			return true
		}
		return false
	}
	for i, it := range its {
		if e.mine != nil && !e.mine(i) {
			continue
		}
		for k := 1; k < starts(it.Starts); k++ {
			if late() {
				return runs, nil
			}
			dev, err := run(fmt.Sprintf("the iteration %d (%s) starts at %d", i, where(it), k), func(j, n int) int {
				if j == i {
					return k % n
				}
				return 0
			})
			if err != nil {
				return runs, err
			}
			for i2 := i + 1; i2 < len(dev) && e.level > 1; i2++ {
				for k2 := 1; k2 < starts(dev[i2].Starts); k2++ {
					if late() {
						return runs, nil
					}
					if _, err := run(fmt.Sprintf("the iterations %d (%s) and %d (%s) start at %d and %d", i, where(it), i2, where(dev[i2]), k, k2), func(j, n int) int {
						switch j {
						case i:
							return k % n
						case i2:
							return k2 % n
						}
						return 0
					}); err != nil {
						return runs, err
					}
				}
			}
		}
	}
	return runs, nil
}

// c10Deep are the units whose iterations are also changed one by one.
func c10Deep(id string) bool {
	for _, p := range []string{"amb", "embed/", "rec/", "size/", "chain/", "generic", "alias", "anon/", "iface/", "many/", "keys/", "two/JSON"} {
		if strings.HasPrefix(id, p) {
			return true
		}
	}
	return false
}

func c10Units(w *core.W, prefix string, units []Unit) []Unit {
	var r []Unit
	for _, u := range units {
		level := 0
		if w.Thorough() || c10Deep(u.ID) && crc32.ChecksumIEEE([]byte(u.ID))%3 == 0 || strings.HasPrefix(u.ID, "amb") {
			level = 1
		}
		if w.Thorough() && (strings.HasPrefix(u.ID, "amb") || c10Deep(u.ID) && crc32.ChecksumIEEE([]byte(u.ID))%8 == 0) {
			level = 2
		}
		u.ID = prefix + u.ID
		u.Opts = append(append([]astra.Option{}, u.Opts...), c10Outputs()...)
		u.Also = nil
		u.Repeat = func(run func(opts ...astra.Option) *core.Result) (int, error) {
			var shifts []int
			if level == 0 {
				shifts = []int{1, 2, 5}
			}
			e := explorer{level: level, shifts: shifts, maxStarts: 16, end: time.Now().Add(20 * time.Second), count: w.Count,
				once: func() error { return run().Err }, read: func() map[string]string { return c10Read(filepath.Join(w.Dir, "mod")) }}
			return e.explore()
		}
		r = append(r, u)
	}
	return r
}

const c10ServiceWorkers = 3

func init() {
	core.Register(&core.Check{
		ID: "C10",
		Rule: "a case is a generated handler, a list of components or a service; its generation is run under every choice of the starts of its iterations over maps within the bounds " +
			"(all shifted alike, every single one, in the thorough tier also every pair), and all outputs have to be the same bytes.",
		Run: func(w *core.W) error {
			if w.Shard < c10ServiceWorkers || w.Of <= c10ServiceWorkers {
				if err := c10Services(w); err != nil {
					return err
				}
			}
			if w.Shard < c10ServiceWorkers && w.Of > c10ServiceWorkers {
				return nil
			}
			if w.Of > c10ServiceWorkers {
				w.Shard, w.Of = w.Shard-c10ServiceWorkers, w.Of-c10ServiceWorkers
			}
			if err := c10Lists(w); err != nil {
				return err
			}
			if err := core.RunUnits(w, c10Units(w, "", append(c10Ambiguous(), c06Units(false)...)), c10Support()); err != nil {
				return err
			}
			if err := core.RunUnitsIn(w, "h3", c10Units(w, "responses ", c03Some(w.Thorough())), c10Support()); err != nil {
				return err
			}
			return nil
		},
		Assumptions: []string{"the contents of maps of more than 8 entries are spread over buckets by the hash of the process"},
	})
}

// c10Lists are services made of components, without a pipeline.
func c10Lists(w *core.W) error {
	dir := filepath.Join(w.Dir, "lists")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	n := 0
	run := func(list []comp, ref string) {
		n++
		id := fmt.Sprintf("components %v %s", list, ref)
		if !w.Mine(n) || !w.Start(id) {
			return
		}
		opts := []astra.Option{core.Quiet(), astra.WithCustomWorkDir(dir), astra.WithConfig(&astra.Config{Title: "t", Version: "1", Host: "h", Port: 1, BasePath: "/"}),
			outputs.WithOpenAPIOutput("openapi.json"), outputs.WithOpenAPIOutput("second.yaml"), outputs.WithJSONOutput("routes.json")}
		level := 1
		if w.Thorough() && len(list) <= 2 && ref == "direct" && list[0].style == "all" {
			level = 2
		}
		e := explorer{level: level, maxStarts: 16, end: time.Now().Add(20 * time.Second), count: w.Count, read: func() map[string]string { return c10Read(dir) }, once: func() error {
			s := astra.New(opts...)
			c08Service(s, list, ref)
			return guard(s.Generate)
		}}
		runs, err := e.explore()
		if err != nil {
			w.Violation(id, err.Error(), nil)
		}
		w.Count("runs", runs)
		w.Done(id, id, runs*4)
	}
	refs, styles := []string{"direct", "embed"}, []string{"none", "partial"}
	if !w.Thorough() {
		styles = styles[1:]
	}
	c08Lists(c08Product([]string{"m/a/x", "m/b/x", "m/b-x"}, []string{"T", "U"}, styles), 2, func(list []comp) {
		for _, ref := range refs {
			run(list, ref)
		}
	})
	longest := 3
	if w.Thorough() {
		longest = 4
	}
	c08Lists(c08Product([]string{"m/a/x", "m/b/x"}, []string{"T", "U"}, []string{"all"}), longest, func(list []comp) {
		for _, ref := range refs {
			run(list, ref)
		}
	})
	return nil
}

// c10Ambiguous are handlers that use names which another package has more than once.
func c10Ambiguous() []Unit {
	var units []Unit
	n := 0
	add := func(id, body string, e core.Expect) {
		n++
		sfx := pr("A%04d", n)
		units = append(units, Unit{ID: "amb " + id, Imports: []string{`"vapp/amb"`}, Src: handler(sfx, body), Routes: []core.Route{{Method: "GET", Path: "/x", Func: "H" + sfx}}, Check: core.Is(e)})
	}
	add("const as field", "	c.Status(amb.Code)", core.Expect{Resp: []Resp{{Status: 240}}})
	add("var as local", "	c.Status(amb.Other)", core.Expect{Resp: []Resp{{Status: 241}}})
	add("const as method", "	c.Status(amb.Third)", core.Expect{Resp: []Resp{{Status: 242}}})
	add("var as param", "	c.Status(amb.Fourth)", core.Expect{Resp: []Resp{{Status: 243}}})
	add("const as all", "	c.Status(amb.Fifth)", core.Expect{Resp: []Resp{{Status: 244}}})
	add("name as field", "	_ = c.Query(amb.Name)\n	c.Status(200)", core.Expect{Resp: []Resp{{Status: 200}}, Params: []Par{{In: "query", Name: "amb-name", X: scalar("string")}}})
	add("name as local", "	_ = c.Query(amb.Label)\n	c.Status(200)", core.Expect{Resp: []Resp{{Status: 200}}, Params: []Par{{In: "query", Name: "amb-label", X: scalar("string")}}})
	free := func(id, body string) {
		add(id, body, core.Expect{})
		units[len(units)-1].Check = func(*core.Result) error { return nil }
	}
	for _, f := range []string{"Name", "Fifth"} {
		free("field "+f, "	var rec amb.Rec\n	_ = c.Query(rec."+f+")\n	c.Status(200)")
		free("nested field "+f, "	var rec struct{ In amb.Rec }\n	_ = c.GetHeader(rec.In."+f+")\n	c.Status(200)")
	}
	free("field as status", "	var rec amb.Rec\n	c.Status(rec.Code)")
	free("method as status", "	var rec amb.Rec\n	c.Status(rec.Third())")
	return units
}

const c10Amb = `package amb

const Code = 240

var Other = 241

const Third = 242

var Fourth = 243

const Fifth = 244

var Name = "amb-name"

const Label = "amb-label"

type Rec struct {
	Code  int
	Name  string
	Fifth string
	Fifty int
}

func (Rec) Third() int { return 0 }

func a() int { Other := 290; Fifth := 291; return Other + Fifth }

func b(Fourth int) string { const Label = "inner"; const Fifth = 292; _ = Fifth; return Label }

type Fake interface{ Fifth() int }

var (
	_ = a
	_ = b
)
`

func c10Support() map[string]string {
	r := map[string]string{"amb/amb.go": c10Amb}
	for k, v := range support {
		r[k] = v
	}
	return r
}

func c03Some(thorough bool) []Unit {
	var r []Unit
	for _, u := range c03Units(false) {
		if thorough || strings.HasPrefix(u.ID, "many/") || strings.HasPrefix(u.ID, "keys/") || strings.HasPrefix(u.ID, "two/JSON/XML") {
			r = append(r, u)
		}
	}
	return r
}

// c10Services runs whole services of a real engine. The first run of a worker loads the packages, with another start of
// all iterations in every worker, and is compared with the first runs of the other workers.
func c10Services(w *core.W) error {
	dir, err := core.FixModule(w)
	if err != nil {
		return err
	}
	once := func(mask int) error {
		opts := append(append(richOptions(mask), astra.WithCustomWorkDir(dir), outputs.WithOpenAPIOutput("openapi.json")), c10Outputs()...)
		return guard(astra.New(opts...).Parse)
	}
	if id := fmt.Sprintf("service cold start=%d", w.Shard); w.Start(id) {
		var err error
		core.WithMapStarts(func(_, n int) int { return w.Shard % n }, func() { err = once(richAll) })
		got := c10Read(dir)
		if err == nil {
			err = c10Shared(w, got)
		}
		if err != nil {
			w.Violation(id, err.Error(), nil)
		}
		w.Done(id, fmt.Sprint(got), 5)
	}
	n := 0
	for mask := 1; mask <= richAll; mask++ {
		if !w.Thorough() && mask != richAll && mask&(mask-1) != 0 {
			continue
		}
		n++
		maxStarts := 64
		if !w.Thorough() {
			maxStarts = 4
			if mask == richAll {
				maxStarts = 2
			}
		}
		e := explorer{level: 1, maxStarts: maxStarts, end: time.Now().Add(60 * time.Second), once: func() error { return once(mask) }, read: func() map[string]string { return c10Read(dir) }, count: w.Count}
		id := fmt.Sprintf("service %d", mask)
		if mask == richAll { // shared out
			id += fmt.Sprint(" part ", w.Shard)
			k := min(w.Of, c10ServiceWorkers)
			e.mine = func(i int) bool { return i%k == w.Shard }
		} else if !w.Few(n, c10ServiceWorkers) {
			continue
		}
		if !w.Start(id) {
			continue
		}
		runs, err := e.explore()
		if err != nil {
			w.Violation(id, err.Error(), nil)
		}
		w.Count("runs", runs)
		w.Done(id, id, runs*5)
	}
	return nil
}

// c10Shared compares a result with the one of the first worker that has one.
func c10Shared(w *core.W, got map[string]string) error {
	var names []string
	for k := range got {
		names = append(names, k)
	}
	sort.Strings(names)
	var b bytes.Buffer
	for _, k := range names {
		fmt.Fprintf(&b, "%s\n%s\n", k, got[k])
	}
	tmp := filepath.Join(w.Dir, "result")
	if err := os.WriteFile(tmp, b.Bytes(), 0o644); err != nil {
		return err
	}
	shared := filepath.Join(filepath.Dir(w.Dir), "c10-result")
	if err := os.Link(tmp, shared); err == nil {
		return nil
	}
	first, err := os.ReadFile(shared)
	if err != nil {
		return err
	}
	if !bytes.Equal(first, b.Bytes()) {
		return fmt.Errorf("the outputs of two processes are not the same: %q, %q", diffFrom(string(first), b.String()), diffFrom(b.String(), string(first)))
	}
	return nil
}
