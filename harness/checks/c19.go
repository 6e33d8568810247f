package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"syscall"
	"time"

	"vh/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C19",
		Rule: "a case is a set of goroutines with their operations on one package tree, run in every schedule with a bounded number of preemptions, with a scheduling point before every statement of the packages astTraversal and utils; " +
			"it counts when all of its schedules have been run and judged.",
		Run: func(w *core.W) error {
			runtime.LockOSThread() // for Pdeathsig
			args := []string{strconv.Itoa(w.Shard), strconv.Itoa(w.Of), w.Tier}
			if w.Only != "" {
				args = []string{"0", "1", w.Tier, w.Only}
			}
			errFile := filepath.Join(w.Dir, "races")
			cmd := exec.Command(filepath.Join(filepath.Dir(os.Getenv("VH_HARNESS")), "vhsched"), args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			f, err := os.Create(errFile)
			if err != nil {
				return err
			}
			cmd.Stderr = f
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			out, err := cmd.StdoutPipe()
			if err != nil {
				return err
			}
			if err := cmd.Start(); err != nil {
				return err
			}
			lines := make(chan map[string]any)
			go func() {
				defer close(lines)
				sc := bufio.NewScanner(out)
				for sc.Scan() {
					var line map[string]any
					if json.Unmarshal(sc.Bytes(), &line) == nil {
						lines <- line
					}
				}
			}()
			current := ""
			seen := int64(0)
			for {
				select {
				case line, more := <-lines:
					if !more {
						if err := cmd.Wait(); err != nil && current != "" {
							b, _ := os.ReadFile(errFile)
							w.Violation(current, fmt.Sprintf("the process was brought down: %v: %s", err, b[:min(len(b), 1500)]), nil)
						}
						return nil
					}
					if s, ok := line["start"].(string); ok {
						current = s
						if !w.Start(s) {
							cmd.Process.Kill()
							cmd.Wait()
							return nil
						}
						continue
					}
					id := line["end"].(string)
					if fault, ok := line["fault"].(string); ok {
						b, _ := os.ReadFile(errFile)
						b = b[min(int64(len(b)), seen):]
						w.Violation(id, fmt.Sprint(fault, ", schedule ", line["schedule"], " ", string(b[:min(len(b), 1500)])), line)
					}
					if i, err := os.Stat(errFile); err == nil {
						seen = i.Size()
					}
					w.Count("schedules", int(line["schedules"].(float64)))
					w.Done(id, fmt.Sprint(id, line["outcomes"]), int(line["steps"].(float64)))
					current = ""
				case <-time.After(150 * time.Second):
					cmd.Process.Kill()
					cmd.Wait()
					return fmt.Errorf("no schedule can be run: %s", current)
				}
			}
		},
		Assumptions: []string{"goroutines are not preempted within a statement: two accesses without an order are found by the race detector instead",
			"Get and AddPathLoader are not called at the same time", "no other synchronisation than that of the package sync's Mutex, RWMutex and Once is used"},
	})
}
