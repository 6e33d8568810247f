//go:build vhfs

package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// FSOp is a file operation below the root of a plan, or one outside that changes something.
type FSOp struct {
	ID   string // names it among the operations of a run
	Op   string
	Path string // relative to the root, absolute when it's outside
	To   string
	Size int  // of what is written, or has been asked for
	Mut  bool // changes something
}

// FSPlan says what is to be done with file operations.
type FSPlan struct {
	Root   string
	At     string // the operation that is not made as usual
	Act    string // crash, fail, short (part of it is done) or full (it fails, and so do all writes after it)
	Cut    int    // how much of it is written or read before
	Errno  int
	Record string // file that the operations are written to
}

type fsState struct {
	mu     sync.Mutex
	plan   FSPlan
	cwd    string
	counts map[string]int
	muts   int
	trace  []FSOp
	hit    bool
	full   bool
	record int
}

const rawCwd = -100

func fdPath(fd int) string {
	name := append([]byte(fmt.Sprintf("/proc/self/fd/%d", fd)), 0)
	buf := make([]byte, 4096)
	n, _, e := syscall.RawSyscall6(syscall.SYS_READLINKAT, ^uintptr(99), uintptr(unsafe.Pointer(&name[0])), uintptr(unsafe.Pointer(&buf[0])), uintptr(len(buf)), 0, 0)
	if e != 0 || int(n) < 0 || int(n) > len(buf) {
		return ""
	}
	return strings.TrimSuffix(string(buf[:n]), " (deleted)")
}

func rawWrite(fd int, p []byte) (int, syscall.Errno) {
	if len(p) == 0 {
		return 0, 0
	}
	n, _, e := syscall.Syscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)))
	return int(n), e
}

func (s *fsState) abs(dirfd int, path string) string {
	if !filepath.IsAbs(path) {
		if dirfd == rawCwd {
			path = s.cwd + "/" + path
		} else {
			path = fdPath(dirfd) + "/" + path
		}
	}
	return filepath.Clean(path)
}

func (s *fsState) rel(p string) (string, bool) {
	if p == s.plan.Root {
		return ".", true
	}
	if r, ok := strings.CutPrefix(p, s.plan.Root+"/"); ok {
		return r, true
	}
	return p, false
}

func (s *fsState) hook(op string, dirfd int, path, to string, fd, flags int, p []byte) (int, error, bool) {
	var full string
	if fd >= 0 {
		if fd == s.record {
			return 0, nil, false
		}
		full = fdPath(fd)
		if !strings.HasPrefix(full, "/") {
			return 0, nil, false
		}
	} else {
		full = s.abs(dirfd, path)
	}
	mut := false
	switch op {
	case "open":
		if flags&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			op, mut = "create", true
		}
	case "write", "mkdir", "unlink", "rename", "symlink", "link", "chmod", "fchmod", "ftruncate", "truncate", "copy", "utimes":
		mut = true
	}
	rel, inside := s.rel(full)
	toRel := to
	if to != "" && op != "symlink" {
		var in bool
		toRel, in = s.rel(s.abs(dirfd, to))
		inside = inside || in
	}
	if !inside && (!mut || strings.HasPrefix(full, "/dev/") || strings.HasPrefix(full, "/proc/")) {
		return 0, nil, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	o := FSOp{Op: op, Path: rel, To: toRel, Size: len(p), Mut: mut}
	if mut {
		s.muts++
		o.ID = fmt.Sprintf("m%d", s.muts)
	} else {
		key := op + " " + rel
		s.counts[key]++
		o.ID = fmt.Sprintf("%s #%d", key, s.counts[key])
	}
	s.trace = append(s.trace, o)
	if s.record > 0 {
		b, _ := json.Marshal(o)
		rawWrite(s.record, append(b, '\n'))
	}
	if s.full && op == "write" {
		return 0, syscall.Errno(s.plan.Errno), true
	}
	if o.ID != s.plan.At {
		return 0, nil, false
	}
	s.hit = true
	n := 0
	if s.plan.Cut > 0 && fd >= 0 && s.plan.Cut <= len(p) {
		switch op {
		case "write":
			n, _ = rawWrite(fd, p[:s.plan.Cut])
		case "read":
			r, _, _ := syscall.Syscall(syscall.SYS_READ, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(s.plan.Cut))
			n = int(r)
		}
	}
	switch s.plan.Act {
	case "crash":
		syscall.RawSyscall(syscall.SYS_KILL, uintptr(os.Getpid()), uintptr(syscall.SIGKILL), 0)
		select {}
	case "short":
		return n, nil, true
	case "full":
		s.full = true
	}
	if op == "close" {
		syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(fd), 0, 0)
	}
	return n, syscall.Errno(s.plan.Errno), true
}

// WithFS runs f with a plan. It returns the operations and whether the one of the plan was reached.
func WithFS(plan FSPlan, f func()) ([]FSOp, bool) {
	s := arm(plan)
	defer func() { syscall.VhFS = nil }()
	f()
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.trace, s.hit
}

func arm(plan FSPlan) *fsState {
	s := &fsState{plan: plan, counts: map[string]int{}}
	s.cwd, _ = os.Getwd()
	if plan.Record != "" {
		f, err := os.OpenFile(plan.Record, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err != nil {
			panic(err)
		}
		s.record, _ = syscall.Dup(int(f.Fd()))
		f.Close()
	}
	syscall.VhFS = s.hook
	return s
}

// ArmFS applies the plan that the process was started with.
func ArmFS() {
	if text := os.Getenv("VH_FSPLAN"); text != "" {
		var plan FSPlan
		if err := json.Unmarshal([]byte(text), &plan); err != nil {
			panic(err)
		}
		arm(plan)
	}
}
