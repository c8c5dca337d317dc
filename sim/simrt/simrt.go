// Package simrt is the runtime the simulator links into the instrumented sources of /repo.
//
// Y is called before every statement of the repository. It counts steps (the deterministic
// measure of progress used by liveness checks) and, while a schedule is running, it is the
// point at which the scheduler may release another thread.
package simrt

import (
	"runtime"
	"sync"
	"unsafe"
)

func getg() uintptr

// BudgetError is the value of the panic that stops a run which exceeds its step budget.
type BudgetError struct{}

func (BudgetError) Error() string { return "simrt: step budget exceeded" }

func (BudgetError) SimClass() string { return "no-progress" }

// DeadlockError is the value of the panic that stops a thread when no thread can run.
type DeadlockError struct{}

func (DeadlockError) Error() string { return "simrt: deadlock: every thread is blocked" }

func (DeadlockError) SimClass() string { return "deadlock" }

var (
	steps      uint64
	budget     uint64 = ^uint64(0)
	overBudget bool
	active     bool
	sch        *sched
)

// Y is the yield point placed before every statement of the instrumented sources. hot marks
// statements that mention package-level variables or locks.
//
//go:norace
func Y(site uint32) {
	steps++
	if steps > budget {
		overBudget = true
		panic(BudgetError{})
	}
	if active {
		sch.point(site)
	} else if jitGap > 0 {
		jitRng = jitRng*6364136223846793005 + 1442695040888963407
		if (jitRng>>33)%jitGap == 0 {
			jitter++
			yield()
		}
	}
}

// yield lets the goroutines that can run do so. It does not use runtime.Gosched, which queues
// the goroutine where the Go scheduler looks at times of its own choice: of the goroutines made
// here, the second takes the place of the first as the next to run, and the first waits its
// turn behind the others and then calls this one back.
func yield() {
	back := make(chan struct{})
	go func() { close(back) }()
	go func() {}()
	<-back
}

var jitGap, jitRng, jitter uint64

// SetJitter makes every yield point outside a schedule let other goroutines run with
// probability 1/gap (gap 0: never). It returns how often that happened since the last call.
//
//go:norace
func SetJitter(seed, gap uint64) uint64 {
	n := jitter
	jitGap, jitRng, jitter = gap, seed, 0
	return n
}

//go:norace
func Steps() uint64 { return steps }

// SetBudget allows n more steps. It returns the step count at which it was set.
//
//go:norace
func SetBudget(n uint64) {
	overBudget = false
	if n == 0 {
		budget = ^uint64(0)
		return
	}
	budget = steps + n
}

//go:norace
func OverBudget() bool { return overBudget }

// Hooks holds functions that sources added by the overlay offer to the harness.
var Hooks = map[string]any{}

// Hot sites have the top bit set by the instrumenter.
const HotBit = 1 << 31

// Switch is one scheduling decision: at the At-th yield of the run, thread To is released.
type Switch struct {
	At uint64 `json:"at"`
	To int    `json:"to"`
}

// Policy says how scheduling decisions are made.
type Policy struct {
	// Fixed: the decisions are those of Replay, and no others.
	Fixed  bool     `json:"fixed,omitempty"`
	Replay []Switch `json:"replay,omitempty"`
	// otherwise: at every yield (Hot: at hot sites only) switch with probability 1/Gap.
	Seed uint64 `json:"seed,omitempty"`
	Gap  uint64 `json:"gap,omitempty"`
	Hot  bool   `json:"hot,omitempty"`
	// Salt decides which thread begins, and which continues when the running one blocks or ends.
	Salt uint64 `json:"salt,omitempty"`
}

type task struct {
	g       uintptr
	done    bool
	blocked bool
}

type sched struct {
	tasks    []task
	turn     int
	count    uint64
	pol      Policy
	rng      uint64
	next     int
	out      []Switch
	switches uint64
	dead     bool
	forced   uint64
	hash     uint64
}

// Report describes a finished schedule.
type Report struct {
	Yields    uint64
	Decisions []Switch
	Switches  uint64
	Deadlock  bool
	Hash      uint64
}

//go:norace
func (s *sched) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *sched) self() int {
	g := getg()
	for i := range s.tasks {
		if s.tasks[i].g == g {
			return i
		}
	}
	return -1
}

//go:norace
func (s *sched) runnable(i int) bool { return !s.tasks[i].done && !s.tasks[i].blocked }

//go:norace
func (s *sched) point(site uint32) {
	me := s.self()
	if me < 0 {
		return
	}
	if s.dead {
		panic(DeadlockError{})
	}
	s.count++
	to := -1
	if s.pol.Fixed {
		for s.next < len(s.pol.Replay) && s.pol.Replay[s.next].At < s.count {
			s.next++
		}
		if s.next < len(s.pol.Replay) && s.pol.Replay[s.next].At == s.count {
			to = s.pol.Replay[s.next].To
			s.next++
			if to < 0 || to >= len(s.tasks) || !s.runnable(to) {
				to = -1
			}
		}
	} else if s.pol.Gap > 0 && (!s.pol.Hot || site&HotBit != 0) {
		if s.rand()%s.pol.Gap == 0 {
			k := int(s.rand() % uint64(len(s.tasks)))
			for n := 0; n < len(s.tasks); n++ {
				c := (k + n) % len(s.tasks)
				if c != me && s.runnable(c) {
					to = c
					break
				}
			}
			if to >= 0 && len(s.out) < 20000 {
				s.out = append(s.out, Switch{s.count, to})
			}
		}
	}
	if to >= 0 && to != me {
		s.switches++
		s.hash = (s.hash ^ (uint64(site&^HotBit)<<8 | uint64(to))) * 0x100000001b3
		s.turn = to
		s.wait(me)
	}
}

// wait spins until it is me's turn. The loop contains no synchronisation the race detector
// knows of, so that a hand-over between threads adds no happens-before edge.
//
//go:norace
func (s *sched) wait(me int) {
	for {
		if s.turn == me || s.dead {
			break
		}
		runtime.Gosched()
	}
	if s.dead {
		panic(DeadlockError{})
	}
}

// pickNext hands the turn to some runnable thread; it reports whether there is one.
//
//go:norace
func (s *sched) pickNext(me int) bool {
	n := len(s.tasks)
	s.forced++
	k := int((s.pol.Salt + s.forced*7) % uint64(n))
	for i := 0; i < n; i++ {
		c := (k + i) % n
		if s.runnable(c) {
			s.turn = c
			return true
		}
	}
	return false
}

//go:norace
func (s *sched) finish(me int) {
	s.tasks[me].done = true
	s.tasks[me].g = 0
	if !s.pickNext(me) {
		for i := range s.tasks {
			if !s.tasks[i].done {
				s.dead = true // the others are blocked for ever
			}
		}
	}
}

//go:norace
func (s *sched) register(i int) { s.tasks[i].g = getg() }

//go:norace
func setActive(s *sched, on bool) {
	if on {
		sch = s
		active = true
		return
	}
	active = false
	sch = nil
}

// Run executes the threads under the policy. Panics of a thread are returned in the slice.
func Run(fns []func(), pol Policy) (Report, []any) {
	s := &sched{tasks: make([]task, len(fns)), pol: pol, rng: pol.Seed}
	s.turn = int(pol.Salt % uint64(len(fns)))
	panics := make([]any, len(fns))
	var wg sync.WaitGroup
	var ready sync.WaitGroup
	wg.Add(len(fns))
	ready.Add(len(fns))
	start := make(chan struct{})
	for i := range fns {
		go func() {
			defer wg.Done()
			s.register(i)
			ready.Done()
			<-start
			func() {
				defer func() {
					if r := recover(); r != nil {
						panics[i] = r
					}
				}()
				s.wait(i)
				fns[i]()
			}()
			s.finish(i)
		}()
	}
	ready.Wait()
	setActive(s, true)
	close(start)
	wg.Wait()
	setActive(nil, false)
	return Report{Yields: s.count, Decisions: s.out, Switches: s.switches, Deadlock: s.dead, Hash: s.hash}, panics
}

// Block is called by the lock shims when the running thread cannot continue. It returns when
// the thread has been released again; the caller then retries. It reports false if the
// caller is not a thread of a running schedule.
//
//go:norace
func Block() bool {
	if !active {
		return false
	}
	s := sch
	me := s.self()
	if me < 0 {
		return false
	}
	s.tasks[me].blocked = true
	if !s.pickNext(me) {
		s.dead = true
		s.tasks[me].blocked = false
		panic(DeadlockError{})
	}
	s.wait(me)
	return true
}

// Wake makes all blocked threads runnable again (they retry what they were blocked on).
//
//go:norace
func Wake() {
	if !active {
		return
	}
	s := sch
	for i := range s.tasks {
		s.tasks[i].blocked = false
	}
}

// Managed reports whether the caller is a thread of a running schedule.
//
//go:norace
func Managed() bool { return active && sch.self() >= 0 }

var _ = unsafe.Sizeof(0)
