//go:build vhsched

// vhsched SHARD OF TIER [CASE]: explores the schedules of goroutines that use one package tree. It writes a line of JSON per case.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"strconv"
	"strings"

	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/astTraversal/vhsync"
)

// op is an operation: A(dd), F(ind), G (find or add), M (map the import specs of two files).
type op struct {
	kind  byte
	paths []string
}

func (o op) String() string { return string(o.kind) + " " + strings.Join(o.paths, "+") }

// result is what one path of an operation gave.
type result struct {
	path       string
	adds       bool
	start, end int
	node       *astTraversal.PackageNode
	name       string // the path of the node, as it says
}

func run(pm *astTraversal.PackageManager, o op) []result {
	start := vhsync.Now()
	var nodes []*astTraversal.PackageNode
	switch o.kind {
	case 'A':
		nodes = append(nodes, pm.AddPackage(o.paths[0]))
	case 'F':
		nodes = append(nodes, pm.Find(o.paths[0]))
	case 'G':
		nodes = append(nodes, pm.FindOrAdd(o.paths[0]))
	case 'M':
		var specs []*ast.ImportSpec
		for _, p := range o.paths {
			specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{Value: strconv.Quote(p)}})
		}
		for _, i := range pm.MapImportSpecs(specs) {
			nodes = append(nodes, i.Package)
		}
	}
	end := vhsync.Now()
	var r []result
	for i, n := range nodes {
		x := result{path: o.paths[i], adds: o.kind != 'F', start: start, end: end, node: n}
		if n != nil {
			x.name = n.Path()
		}
		r = append(r, x)
	}
	return r
}

func covers(added, path string) bool {
	return added == path || strings.HasPrefix(added, path+"/")
}

// judge compares what the operations gave with the tree that they have to give in some order.
func judge(pm *astTraversal.PackageManager, before []result, all []result, universe []string) error {
	of := map[string]*astTraversal.PackageNode{}
	for _, r := range before {
		of[r.path] = r.node
	}
	for _, r := range all {
		if r.node == nil {
			if r.adds {
				return fmt.Errorf("adding %q gives no node", r.path)
			}
			for _, b := range before {
				if covers(b.path, r.path) {
					return fmt.Errorf("%q is not found although it has always been there", r.path)
				}
			}
			for _, a := range all {
				if covers(a.path, r.path) && a.end < r.start && a.node != nil {
					return fmt.Errorf("%q is not found although %q had been added or found before", r.path, a.path)
				}
			}
			continue
		}
		if r.name != r.path {
			return fmt.Errorf("the node for %q has the path %q", r.path, r.name)
		}
		if n := of[r.path]; n != nil && n != r.node {
			return fmt.Errorf("there are two nodes for %q", r.path)
		}
		of[r.path] = r.node
		if !r.adds {
			there := false
			for _, b := range before {
				there = there || covers(b.path, r.path)
			}
			for _, a := range all {
				there = there || a.adds && a.start < r.end && covers(a.path, r.path)
			}
			if !there {
				return fmt.Errorf("%q is found before it was added", r.path)
			}
		}
	}
	for _, p := range universe {
		there := false
		for _, r := range before {
			there = there || covers(r.path, p)
		}
		for _, r := range all {
			there = there || r.adds && covers(r.path, p)
		}
		n := pm.Find(p)
		if there != (n != nil) {
			return fmt.Errorf("afterwards, %q is found: %v, it was added: %v", p, n != nil, there)
		}
		if n == nil {
			continue
		}
		if n.Path() != p {
			return fmt.Errorf("afterwards, the node for %q has the path %q", p, n.Path())
		}
		if of[p] != nil && of[p] != n {
			return fmt.Errorf("afterwards, there is another node for %q", p)
		}
		if pm.AddPackage(p) != n {
			return fmt.Errorf("afterwards, adding %q gives another node", p)
		}
	}
	return nil
}

type scenario struct {
	name    string
	before  []string
	threads [][]op
	bound   int
}

func scenarios(thorough bool) []scenario {
	a := func(p ...string) op { return op{'A', p} }
	f := func(p ...string) op { return op{'F', p} }
	g := func(p ...string) op { return op{'G', p} }
	m := func(p ...string) op { return op{'M', p} }
	ops := []op{a("a"), a("a/b"), a("a/b/c"), a("x"), f("a"), f("a/b"), f("x"), g("a"), g("a/b"), g("b"), m("a/b", "x"), m("x", "a")}
	var seqs [][]op
	for _, o := range ops {
		seqs = append(seqs, []op{o})
	}
	small := []op{a("a/b"), f("a"), f("a/b"), g("a"), m("a/b", "x")}
	for _, o := range small {
		for _, p := range small {
			seqs = append(seqs, []op{o, p})
		}
	}
	var all []scenario
	add := func(before []string, bound int, threads ...[]op) {
		var names []string
		for _, t := range threads {
			names = append(names, fmt.Sprint(t))
		}
		all = append(all, scenario{fmt.Sprintf("%v: %s, %d preemptions", before, strings.Join(names, " | "), bound), before, threads, bound})
	}
	befores := [][]string{nil, {"x", "a/b"}}
	for _, b := range befores {
		for i, s := range seqs {
			for _, t := range seqs[:i+1] {
				bound := 1
				if len(s)+len(t) < 4 {
					bound = 2
				}
				if thorough {
					bound = map[int]int{2: 3, 3: 2, 4: 2}[len(s)+len(t)]
				}
				add(b, bound, s, t)
			}
		}
		for i := range ops {
			for j := 0; j <= i; j++ {
				for k := 0; k <= j; k++ {
					bound := 1
					if thorough {
						bound = 2
					}
					add(b, bound, seqs[i], seqs[j], seqs[k])
				}
			}
		}
	}
	return all
}

func main() {
	shard, _ := strconv.Atoi(os.Args[1])
	of, _ := strconv.Atoi(os.Args[2])
	only := ""
	if len(os.Args) > 4 {
		only = os.Args[4]
	}
	universe := []string{"a", "b", "x", "a/b", "a/x", "b/c", "x/a", "a/b/c", "a/b/x"}
	out := json.NewEncoder(os.Stdout)
	for i, s := range scenarios(os.Args[3] == "thorough") {
		if i%of != shard || only != "" && only != s.name {
			continue
		}
		out.Encode(map[string]any{"start": s.name})
		var pm *astTraversal.PackageManager
		var before []result
		var got [4][]result
		var bad, prepared string
		shapes := map[string]bool{}
		schedules, steps := vhsync.Explore(s.bound, func() []func() {
			pm = astTraversal.NewPackageManager("/nowhere")
			before = nil
			prepared = vhsync.Solo(func() {
				for _, p := range s.before {
					before = append(before, run(pm, op{'A', []string{p}})...)
				}
			})
			var bodies []func()
			for i, ops := range s.threads {
				got[i] = nil
				bodies = append(bodies, func() {
					for _, o := range ops {
						got[i] = append(got[i], run(pm, o)...)
					}
				})
			}
			return bodies
		}, func(fault string) bool {
			if fault == "" && prepared != "" {
				fault = "before: " + prepared
			}
			if fault == "" {
				var all []result
				shape := ""
				for _, g := range got {
					all = append(all, g...)
					for _, r := range g {
						shape += fmt.Sprint(r.node != nil, " ")
					}
				}
				shapes[shape] = true
				var err error
				if fault = vhsync.Solo(func() { err = judge(pm, before, all, universe) }); fault != "" {
					fault = "afterwards: " + fault
				} else if err != nil {
					fault = err.Error()
				}
			}
			bad = fault
			return fault == ""
		})
		line := map[string]any{"end": s.name, "schedules": schedules, "steps": steps, "outcomes": len(shapes)}
		if bad != "" {
			line["fault"], line["schedule"] = bad, vhsync.Schedule()
		}
		out.Encode(line)
	}
}
