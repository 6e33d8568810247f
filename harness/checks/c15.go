package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"vh/core"
)

// fault is what happens to a file operation.
type fault struct {
	name  string
	act   string
	errno syscall.Errno
	cut   func(size int) int
	ops   string // of these kinds only
}

func c15Faults(o core.FSOp, thorough bool) []fault {
	zero := func(int) int { return 0 }
	all := []fault{
		{"EIO", "fail", syscall.EIO, zero, ""},
		{"EACCES", "fail", syscall.EACCES, zero, " open create mkdir unlink rename stat getdents chmod link symlink "},
		{"ENOSPC", "fail", syscall.ENOSPC, zero, " create mkdir write rename "},
		{"ENOSPC after a byte", "fail", syscall.ENOSPC, func(int) int { return 1 }, " write "},
		{"ENOSPC before the last byte", "fail", syscall.ENOSPC, func(n int) int { return n - 1 }, " write "},
		{"disk full", "full", syscall.ENOSPC, func(n int) int { return n / 2 }, " write "},
		{"short", "short", 0, func(n int) int { return n / 2 }, " write read "},
	}
	if thorough {
		all = append(all, fault{"EMFILE", "fail", syscall.EMFILE, zero, " open create "}, fault{"EROFS", "fail", syscall.EROFS, zero, " create mkdir unlink rename write "},
			fault{"EBUSY", "fail", syscall.EBUSY, zero, " unlink rename "}, fault{"EDQUOT after half", "fail", syscall.EDQUOT, func(n int) int { return n / 2 }, " write "},
			fault{"short by one", "short", 0, func(n int) int { return n - 1 }, " write "}, fault{"short one", "short", 0, func(int) int { return 1 }, " write read "})
	}
	var r []fault
	for _, f := range all {
		if f.ops != "" && !strings.Contains(f.ops, " "+o.Op+" ") || f.act == "short" && o.Size < 2 {
			continue
		}
		if (o.Op == "close" || o.Op == "fstat" || o.Op == "readlink") && f.name != "EIO" {
			continue
		}
		r = append(r, f)
	}
	return r
}

// c15Outputs are the requested outputs of a directory, and the cache, which is one as well when it was asked for.
func c15Outputs(r *fsRun, t, want map[string]string) map[string]string {
	k := map[string]string{}
	for name, text := range t {
		if _, wanted := want[name]; strings.HasPrefix(name, ".astra") && !(wanted && name == r.cachePath()) || strings.HasSuffix(name, ".tmp") {
			continue
		}
		if r.owns(name) {
			k[name] = text
		}
	}
	return k
}

func c15Case(r *fsRun, step int, o core.FSOp, f fault) (string, error) {
	for i := 0; i < step; i++ {
		if res := r.step(i, nil); res.err != nil {
			return "", fmt.Errorf("the run before: %v", res)
		}
	}
	res := r.step(step, &core.FSPlan{At: o.ID, Act: f.act, Errno: int(f.errno), Cut: f.cut(o.Size)})
	if strings.Contains(res.out, "panic") || strings.Contains(res.out, "goroutine ") {
		return "", fmt.Errorf("it panics: %v", res)
	}
	if res.killed || res.code != 0 && res.code != 1 {
		return "", fmt.Errorf("it ends with the status %d: %v", res.code, res)
	}
	got := tree(r.prog.Dir, skipSums)
	if err := r.intact(got); err != nil {
		return "", err
	}
	outcome := "reported"
	if res.err == nil {
		outcome = "complete"
		if err := diffTrees(c15Outputs(r, got, r.want[step]), c15Outputs(r, r.want[step], r.want[step])); err != nil {
			return "", fmt.Errorf("no error was reported but the output is not complete: %w", err)
		}
	} else if f.act == "short" {
		return "", fmt.Errorf("a short read or write is no failure: %v", res)
	}
	// once more, when the cause has gone
	if res := r.step(step, nil); res.err != nil {
		return "", fmt.Errorf("the repeated run: %v", res)
	}
	want := r.want[step]
	if err := diffTrees(tree(r.prog.Dir, skipSums), want); err != nil {
		return "", fmt.Errorf("after the repeated run: %w", err)
	}
	return outcome, nil
}

func init() {
	core.Register(&core.Check{
		ID: "C15",
		Rule: "a case is a generation (a step of it, with the CLI) in a process of its own in which one file operation below its directory fails in one way, followed by a repeated one; " +
			"it counts when the status, the outputs and the directory after both were compared with those of the undisturbed generation.",
		Run: func(w *core.W) error {
			for si, sc := range fsScenarios() {
				if sc.heavy && !w.Thorough() {
					continue
				}
				if w.Only != "" && !strings.HasPrefix(w.Only, sc.name+" ") {
					continue
				}
				r, err := sc.prepare(w, si)
				if err != nil {
					id := sc.name + " undisturbed"
					if w.Start(id) {
						w.Violation(id, err.Error(), nil)
						w.Done(id, "", 1)
					}
					continue
				}
				for step, ops := range r.ops {
					for _, o := range ops {
						if o.Op == "getdents" && strings.HasSuffix(o.ID, "#2") {
							continue
						}
						for _, f := range c15Faults(o, w.Thorough()) {
							id := fmt.Sprintf("%s step %d %s %s %s: %s", sc.name, step, o.ID, o.Op, o.Path, f.name)
							if !mineByName(w, id) || !w.Start(id) {
								continue
							}
							if err := putTree(r.prog.Dir, r.init); err != nil {
								return err
							}
							outcome, err := c15Case(r, step, o, f)
							if err != nil {
								w.Violation(id, err.Error(), map[string]any{"step": step, "operation": o, "fault": f.name})
							}
							w.Count(outcome, 1)
							w.Done(id, id, 2+step)
						}
					}
				}
				os.RemoveAll(filepath.Join(r.prog.Dir))
			}
			return nil
		},
		Assumptions: []string{"file operations of the go command that astra starts do not fail", "a file operation outside the directory of the program does not fail"},
	})
}
