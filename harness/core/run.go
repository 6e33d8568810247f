package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Stats is what a worker measured. All numbers are counted, none is a constant.
type Stats struct {
	Transitions int            `json:"transitions"` // steps of the real code that were driven
	Traces      int            `json:"traces"`      // executions compared with the reference model
	Outcomes    map[string]int `json:"outcomes"`    // distinct observed end states
	Samples     []any          `json:"samples"`
	Extra       map[string]int `json:"extra"`
}

// W is the worker's side of a check.
type W struct {
	Shard, Of int
	Tier      string
	Dir       string // private scratch directory
	Only      string // only this case (replay)
	skip      map[string]bool
	out       *bufio.Writer
	outFile   *os.File
	stats     Stats
	deadline  time.Time
	mu        sync.Mutex
}

func (w *W) Thorough() bool { return w.Tier == "thorough" }

func (w *W) send(kind string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprint(v))
	}
	fmt.Fprintf(w.out, "%s %s\n", kind, b)
	w.out.Flush()
}

// Start announces a case; it returns false when the case has to be left out (replay, resumed worker or deadline).
func (w *W) Start(id string) bool {
	if w.Only != "" && id != w.Only {
		return false
	}
	if w.skip[id] {
		return false
	}
	if time.Now().After(w.deadline) {
		w.Count("deadline_skipped", 1)
		return false
	}
	w.send("S", id)
	return true
}

// Mine distributes cases over the workers.
func (w *W) Mine(i int) bool { return i%w.Of == w.Shard }

// Few distributes cases that need a long preparation (loading packages) over k of the workers only.
func (w *W) Few(i, k int) bool {
	k = min(k, w.Of)
	return w.Shard < k && i%k == w.Shard
}

// Violation reports a case that breaks the property.
func (w *W) Violation(id, msg string, replay any) {
	w.send("V", map[string]any{"case": id, "message": msg, "replay": replay})
}

// Done counts a case. outcome is a short description of what was observed.
func (w *W) Done(id, outcome string, transitions int) {
	w.stats.Transitions += transitions
	w.stats.Traces++
	if len(outcome) > 40 {
		outcome = fmt.Sprintf("%x", hash([]byte(outcome)))
	}
	if _, known := w.stats.Outcomes[outcome]; known || len(w.stats.Outcomes) < 1000000 {
		w.stats.Outcomes[outcome]++
	}
}

func (w *W) Sample(v any) {
	if len(w.stats.Samples) < 3 {
		w.stats.Samples = append(w.stats.Samples, v)
	}
}

func (w *W) Count(name string, n int) { w.stats.Extra[name] += n }

// Check is one property's machinery.
type Check struct {
	ID      string
	Level   string
	Workers int // 0: the number of cores
	Run     func(w *W) error
	// Rule says what a case is and what makes it count.
	Rule        string
	Assumptions []string
	Limit       func(tier string) time.Duration
}

var Checks = map[string]*Check{}

// Sub are programs that checks run in processes of their own: vh NAME ARG...
var Sub = map[string]func(args []string) int{}

func Register(c *Check) { Checks[c.ID] = c }

type report struct {
	Case    string `json:"case"`
	Message string `json:"message"`
	Replay  any    `json:"replay"`
}

type finding struct {
	Property string
	Case     string // the case that fails, "*" at the end is a prefix
	Text     string
	used     bool
}

// Worker is the entry point of a worker process: vh worker ID shard of tier dir.
func Worker(args []string) {
	c := Checks[args[0]]
	shard, _ := strconv.Atoi(args[1])
	of, _ := strconv.Atoi(args[2])
	limit, _ := strconv.Atoi(args[5])
	out := os.NewFile(3, "report")
	w := &W{Shard: shard, Of: of, Tier: args[3], Dir: args[4], Only: os.Getenv("VH_ONLY"), out: bufio.NewWriter(out), outFile: out,
		stats: Stats{Outcomes: map[string]int{}, Extra: map[string]int{}}, skip: map[string]bool{},
		deadline: time.Now().Add(time.Duration(limit) * time.Second)}
	if b, err := os.ReadFile(filepath.Join(w.Dir, "skip")); err == nil {
		for _, id := range strings.Split(string(b), "\n") {
			if id != "" {
				w.skip[id] = true
			}
		}
	}
	if p := os.Getenv("VH_PROF"); p != "" { // debugging
		if f, err := os.Create(fmt.Sprintf("%s.%d", p, shard)); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	if err := c.Run(w); err != nil {
		w.send("E", err.Error())
		os.Exit(3)
	}
	if p := os.Getenv("VH_HEAP"); p != "" { // debugging
		if f, err := os.Create(fmt.Sprintf("%s.%d", p, shard)); err == nil {
			runtime.GC()
			pprof.WriteHeapProfile(f)
			f.Close()
		}
	}
	w.send("D", w.stats)
	pprof.StopCPUProfile()
	os.Exit(0)
}

type shardResult struct {
	stats  []Stats
	reps   []report
	errs   []string
	killed bool
}

const (
	caseMemoryMB = 4000              // no case needs a tenth of it
	caseTime     = 200 * time.Second // nor of this
)

var peakMB int

// rssMB is the memory that a process has at the moment.
func rssMB(pid int) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

func runShard(c *Check, shard, of int, tier, dir string, limit time.Duration) shardResult {
	var res shardResult
	self, _ := os.Executable()
	var skip []string
	end := time.Now().Add(limit)
	for attempt := 0; attempt < 6; attempt++ {
		wd := filepath.Join(dir, fmt.Sprintf("w%d", shard))
		os.RemoveAll(wd)
		os.MkdirAll(wd, 0o755)
		os.WriteFile(filepath.Join(wd, "skip"), []byte(strings.Join(skip, "\n")), 0o644)
		left := time.Until(end)
		if left < time.Second {
			res.killed = true
			return res
		}
		r, wpipe, err := os.Pipe()
		if err != nil {
			res.errs = append(res.errs, err.Error())
			return res
		}
		cmd := exec.Command(self, "worker", c.ID, strconv.Itoa(shard), strconv.Itoa(of), tier, wd, strconv.Itoa(int(left.Seconds())))
		cmd.ExtraFiles = []*os.File{wpipe}
		// What the type checker does about aliases depends on the Go version
		// of the main module; half of the workers run with each setting.
		cmd.Env = append(os.Environ(), fmt.Sprintf("GODEBUG=gotypesalias=%d", shard%2), "GOMEMLIMIT=3GiB")
		errFile, _ := os.Create(filepath.Join(dir, fmt.Sprintf("w%d.err", shard)))
		cmd.Stderr = errFile
		cmd.Dir = wd
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			res.errs = append(res.errs, err.Error())
			return res
		}
		wpipe.Close()
		timer := time.AfterFunc(left+70*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		var current string
		var done, failed bool
		var started []string
		var mu sync.Mutex // of the following
		var stuck string  // why the current case was ended
		lastStart := time.Now()
		atStart := 0
		ended := make(chan struct{})
		go func() {
			for {
				select {
				case <-ended:
					return
				case <-time.After(300 * time.Millisecond):
				}
				rss := rssMB(cmd.Process.Pid)
				if rss > peakMB {
					peakMB = rss
				}
				mu.Lock()
				switch {
				case current == "":
				case rss > caseMemoryMB && rss-atStart > caseMemoryMB/2:
					stuck = fmt.Sprintf("this case takes more than %d MB", rss)
				case time.Since(lastStart) > caseTime:
					stuck = fmt.Sprintf("this case does not end within %v", caseTime)
				}
				if stuck != "" {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					mu.Unlock()
					return
				}
				mu.Unlock()
			}
		}()
		sc := bufio.NewScanner(r)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			line := sc.Text()
			if len(line) < 2 {
				continue
			}
			switch line[0] {
			case 'S':
				mu.Lock()
				json.Unmarshal([]byte(line[2:]), &current)
				lastStart = time.Now()
				atStart = rssMB(cmd.Process.Pid)
				mu.Unlock()
				started = append(started, current)
			case 'V':
				var rep report
				json.Unmarshal([]byte(line[2:]), &rep)
				res.reps = append(res.reps, rep)
			case 'D':
				var st Stats
				json.Unmarshal([]byte(line[2:]), &st)
				res.stats = append(res.stats, st)
				done = true
			case 'E':
				res.errs = append(res.errs, line[2:])
				failed = true
			}
		}
		close(ended)
		cmd.Wait()
		timedOut := !timer.Stop()
		r.Close()
		errFile.Close()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		os.RemoveAll(wd)
		if done || failed {
			return res
		}
		mu.Lock()
		why := stuck
		mu.Unlock()
		if why != "" {
			res.reps = append(res.reps, report{Case: current, Message: why})
			skip = append(skip, started...)
			continue
		}
		if timedOut {
			res.killed = true
			if current != "" && time.Since(lastStart) > 60*time.Second {
				res.reps = append(res.reps, report{Case: current, Message: "this case does not end"})
			}
			return res
		}
		// The process died: the current case brought it down.
		tail := lastBytes(errFile.Name(), 1500)
		if current == "" {
			res.errs = append(res.errs, "worker died before its first case: "+tail)
			return res
		}
		if strings.Contains(tail, "out of memory") || strings.Contains(tail, "signal: killed") || tail == "" {
			res.errs = append(res.errs, "worker died (memory?): "+tail)
			res.killed = true
			return res
		}
		res.reps = append(res.reps, report{Case: current, Message: "the process was brought down by this case: " + firstLines(errFile.Name(), 6), Replay: firstLines(errFile.Name(), 40)})
		skip = append(skip, started...)
	}
	return res
}

func lastBytes(p string, n int) string {
	b, _ := os.ReadFile(p)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func firstLines(p string, n int) string {
	b, _ := os.ReadFile(p)
	lines := strings.SplitN(string(b), "\n", n+1)
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, " | ")
}

func loadFindings(file, id string) []*finding {
	var out []*finding
	b, _ := os.ReadFile(file)
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		// finding: property=C05 case=<id> :: text
		rest := strings.TrimPrefix(line, "finding: ")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		var f finding
		head := strings.SplitN(parts[0], " case=", 2)
		if len(head) != 2 {
			continue
		}
		f.Property = strings.TrimPrefix(strings.TrimSpace(head[0]), "property=")
		f.Case = strings.TrimSpace(head[1])
		f.Text = parts[1]
		if f.Property == id {
			out = append(out, &f)
		}
	}
	return out
}

// Main is the parent: it runs the workers, classifies what they report and writes the evidence. It returns the exit code.
func Main(id, tier, verif, scratch string) int {
	c, ok := Checks[id]
	if !ok {
		fmt.Println("unknown check", id)
		return 2
	}
	start := time.Now()
	limit := 100 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	if c.Limit != nil {
		limit = c.Limit(tier)
	}
	n := c.Workers
	if n == 0 {
		n = 8
	}
	if os.Getenv("VH_WORKERS") != "" {
		n, _ = strconv.Atoi(os.Getenv("VH_WORKERS"))
	}
	results := make([]shardResult, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = runShard(c, i, n, tier, scratch, limit)
		}(i)
	}
	wg.Wait()

	total := Stats{Outcomes: map[string]int{}, Extra: map[string]int{}}
	var reps []report
	var errs []string
	killed := false
	for _, r := range results {
		for _, st := range r.stats {
			total.Transitions += st.Transitions
			total.Traces += st.Traces
			for k, v := range st.Outcomes {
				total.Outcomes[k] += v
			}
			for k, v := range st.Extra {
				total.Extra[k] += v
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, st.Samples...)
			}
		}
		reps = append(reps, r.reps...)
		errs = append(errs, r.errs...)
		killed = killed || r.killed
	}
	sort.SliceStable(reps, func(i, j int) bool { return reps[i].Case < reps[j].Case })

	findings := loadFindings(filepath.Join(verif, "known-findings.txt"), id)
	var violations []report
	known := map[string]string{}
	for _, r := range reps {
		hit := false
		for _, f := range findings {
			if f.Case == r.Case || (strings.HasSuffix(f.Case, "*") && strings.HasPrefix(r.Case, strings.TrimSuffix(f.Case, "*"))) {
				f.used = true
				known[f.Text] = r.Case
				hit = true
				break
			}
		}
		if !hit {
			violations = append(violations, r)
		}
	}
	for _, f := range findings {
		if f.used {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, f.Text, f.Case)
		}
	}

	exhaustive := !killed && len(errs) == 0 && total.Extra["deadline_skipped"] == 0 && total.Extra["capped"] == 0
	cov := map[string]any{
		"states": len(total.Outcomes), "transitions": total.Transitions, "traces_validated_against_impl": total.Traces,
		"rule":    c.Rule + " states: distinct observed end states; transitions: steps of the real code driven; traces: executions compared with the reference model.",
		"samples": total.Samples, "exhaustive": exhaustive, "counters": total.Extra,
	}
	if total.Samples == nil {
		cov["samples"] = []any{}
	}
	if len(errs) > 0 {
		cov["errors"] = errs
	}
	level := c.Level
	if level == "" {
		level = "model_checking"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(violations), "assumptions": c.Assumptions}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evdir, id+"-replay-*.json"))
	for _, p := range old {
		os.Remove(p)
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), b, 0o644)

	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v violations=%d wall=%.1fs %v\n", id, tier, len(total.Outcomes), total.Transitions, total.Traces, exhaustive, len(violations), time.Since(start).Seconds(), total.Extra)
	for _, e := range errs {
		fmt.Println("error:", e)
	}
	if len(violations) > 0 {
		for i, v := range violations {
			if i >= maxShow() {
				fmt.Printf("(%d more)\n", len(violations)-i)
				break
			}
			p := filepath.Join(evdir, fmt.Sprintf("%s-replay-%d.json", id, i))
			b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "case": v.Case, "message": v.Message, "replay": v.Replay, "how": fmt.Sprintf("VH_ONLY='%s' ./run.sh %s %s", v.Case, id, tier)}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("case %s: %s\n", v.Case, v.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		return 1
	}
	if len(errs) > 0 && total.Traces == 0 {
		return 2
	}
	return 0
}

func maxShow() int {
	if n, err := strconv.Atoi(os.Getenv("VH_SHOW")); err == nil {
		return n
	}
	return 5
}
