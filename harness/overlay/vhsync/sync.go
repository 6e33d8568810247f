//go:build race

// Package vhsync runs goroutines one at a time and enumerates the schedules of them. Its mutexes have the interface of those of
// the package sync, and are those outside of controlled goroutines. The race detector sees the order that the mutexes (and the
// start and the end of the goroutines) give, not the one of the scheduler: nothing in here is instrumented.
package vhsync

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

const (
	maxThreads   = 4
	maxDecisions = 20000
	maxPoints    = 20000
)

type thread struct {
	wake chan struct{}
	on   *RWMutex // what it waits for
	read bool
	done bool
}

type decision struct {
	choice    int8
	options   int8
	preempted bool // any choice but the first one takes the processor from a goroutine that could go on
}

var (
	active   bool
	threads  [maxThreads]thread
	count    int
	current  int
	made     [maxDecisions]decision
	prefix   int // so many are given
	at       int
	points   int
	clock    int
	fault    string
	finished chan struct{}
	joined   int
)

// enabled is whether a goroutine can go on.
//
//go:norace
func enabled(i int) bool {
	t := &threads[i]
	if t.done {
		return false
	}
	if t.on == nil {
		return true
	}
	if t.read {
		return !t.on.writing && t.on.pending == 0
	}
	return !t.on.writing && t.on.readers == 0
}

// next is the goroutine that goes on; -1 when there is none.
//
//go:norace
func next() int {
	var options [maxThreads]int
	n := 0
	first := current >= 0 && enabled(current)
	if first {
		options[0] = current
		n = 1
	}
	for i := 0; i < count; i++ {
		if i != current && enabled(i) {
			options[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return options[0]
	}
	d := &made[at]
	if at >= prefix {
		d.choice = 0
	}
	d.options, d.preempted = int8(n), first
	at++
	if int(d.choice) >= n {
		fault = "the schedule cannot be repeated"
		return options[0]
	}
	return options[d.choice]
}

//go:norace
func pass(to int) {
	me := current
	if to == me {
		return
	}
	own := threads[me].wake
	current = to
	runtime.RaceDisable()
	threads[to].wake <- struct{}{}
	<-own
	runtime.RaceEnable()
}

// stop gives up this execution: its goroutines stay where they are.
//
//go:norace
func stop(why string) {
	fault = why
	active = false
	runtime.RaceDisable()
	finished <- struct{}{}
	select {}
}

// Point is where another goroutine can go on.
//
//go:norace
func Point() {
	if !active {
		return
	}
	points++
	if points > maxPoints || at >= maxDecisions-1 {
		stop("it does not end")
	}
	pass(next())
}

//go:norace
func wait(m *RWMutex, read bool) {
	t := &threads[current]
	t.on, t.read = m, read
	if !enabled(current) {
		n := next()
		if n < 0 {
			stop("deadlock")
		}
		pass(n)
	}
	t.on = nil
}

// Now is the logical time.
//
//go:norace
func Now() int {
	clock++
	return clock
}

type RWMutex struct {
	real             sync.RWMutex
	writing          bool
	readers, pending int
	w, r             byte // for the race detector
}

//go:norace
func (m *RWMutex) Lock() {
	if !active {
		m.real.Lock()
		return
	}
	Point()
	m.pending++
	wait(m, false)
	m.pending--
	m.writing = true
	runtime.RaceAcquire(unsafe.Pointer(&m.w))
	runtime.RaceAcquire(unsafe.Pointer(&m.r))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !active {
		return m.real.TryLock()
	}
	Point()
	if m.writing || m.readers > 0 {
		return false
	}
	m.writing = true
	runtime.RaceAcquire(unsafe.Pointer(&m.w))
	runtime.RaceAcquire(unsafe.Pointer(&m.r))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !active {
		m.real.Unlock()
		return
	}
	if !m.writing {
		panic("unlock of an unlocked mutex")
	}
	runtime.RaceRelease(unsafe.Pointer(&m.w))
	m.writing = false
	Point()
}

//go:norace
func (m *RWMutex) RLock() {
	if !active {
		m.real.RLock()
		return
	}
	Point()
	wait(m, true)
	m.readers++
	runtime.RaceAcquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !active {
		return m.real.TryRLock()
	}
	Point()
	if m.writing || m.pending > 0 {
		return false
	}
	m.readers++
	runtime.RaceAcquire(unsafe.Pointer(&m.w))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !active {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("unlock of an unlocked mutex")
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(&m.r))
	m.readers--
	Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer o.finish()
	f()
}

//go:norace
func (o *Once) finish() { o.done = true }

//go:norace
func begin(i int, wake chan struct{}) {
	runtime.RaceDisable()
	<-wake
	runtime.RaceEnable()
}

//go:norace
func end(i int) {
	runtime.RaceReleaseMerge(unsafe.Pointer(&joined))
	threads[i].done = true
	n := next()
	runtime.RaceDisable()
	if n < 0 {
		for j := 0; j < count; j++ {
			if !threads[j].done {
				fault = "deadlock"
			}
		}
		active = false
		finished <- struct{}{}
	} else {
		current = n
		threads[n].wake <- struct{}{}
	}
	runtime.RaceEnable()
}

//go:norace
func failed(v any) { fault = fmt.Sprint("panic: ", v) }

//go:norace
func start(n int) {
	count, at, points, clock, fault, current = n, 0, 0, 0, "", -1
	finished = make(chan struct{}, 1)
	for i := 0; i < n; i++ {
		threads[i] = thread{wake: make(chan struct{}, 1)}
	}
}

//go:norace
func goAndWait() string {
	active = true
	current = next()
	runtime.RaceDisable()
	threads[current].wake <- struct{}{}
	<-finished
	runtime.RaceEnable()
	runtime.RaceAcquire(unsafe.Pointer(&joined))
	return fault
}

//go:norace
func wakeOf(i int) chan struct{} { return threads[i].wake }

func once(bodies []func()) string {
	start(len(bodies))
	for i, body := range bodies {
		go func(i int, wake chan struct{}, body func()) {
			begin(i, wake)
			defer end(i)
			defer func() {
				if v := recover(); v != nil {
					failed(v)
				}
			}()
			body()
		}(i, wakeOf(i), body)
	}
	return goAndWait()
}

// Solo runs a controlled goroutine alone, between the executions that are explored.
func Solo(body func()) string {
	a, p := at, points
	fault := once([]func(){body})
	at, points = a, p
	return fault
}

// Schedule is what was decided in the last execution.
func Schedule() []int8 {
	s := make([]int8, at)
	for i := range s {
		s[i] = made[i].choice
	}
	return s
}

// Explore runs the goroutines of make in every schedule with at most bound preemptions; check gets the fault of each (a panic,
// a deadlock, ...) and returns whether to go on.
func Explore(bound int, make func() []func(), check func(fault string) bool) (schedules, steps int) {
	prefix = 0
	for {
		f := once(make())
		schedules++
		steps += points
		races := runtime.RaceErrors()
		if races != raceErrors && f == "" {
			f = fmt.Sprintf("%d data races (see the output of the race detector)", races-raceErrors)
		}
		raceErrors = races
		if !check(f) {
			return
		}
		used := 0
		last := -1
		for i := 0; i < at; i++ {
			d := made[i]
			cost := 0
			if d.preempted {
				cost = 1
			}
			if d.choice+1 < d.options && used+cost <= bound {
				last = i
			}
			if d.preempted && d.choice > 0 {
				used++
			}
		}
		if last < 0 {
			return
		}
		made[last].choice++
		prefix = last + 1
	}
}

var raceErrors int
