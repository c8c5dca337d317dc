// Package fw is the framework of the simulated checks: it generates cases from seeds,
// executes them, and reports what happened to the driver (cmd/vsim).
//
// A case is an explicit, JSON-encoded run: operations, die scripts, faults, schedule. The seed
// decides the case, and the case decides the execution.
package fw

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"verifsim/simrt"
)

// Violation is a property found broken.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func V(class, format string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// Check describes how one property is decided.
type Check struct {
	ID     string
	Gen    func(r *Rand, tier string) any
	New    func() any
	Valid  func(any) bool
	Exec   func(*Ctx, any) *Violation
	Before func(*Ctx) // once per process
	Rule   string
	Real   []string
	Stub   []string
	Assume []string
	// Chunk is the number of cases per process; Quick and Thorough are numbers of chunks.
	Chunk    int
	Quick    int
	Thorough int
	Race     bool // needs the build with the race detector
}

var checks = map[string]*Check{}

// Register adds a check whose cases are of type *C.
func Register[C any](k Check, gen func(r *Rand, tier string) *C, valid func(*C) bool, exec func(*Ctx, *C) *Violation) {
	k.Gen = func(r *Rand, tier string) any { return gen(r, tier) }
	k.New = func() any { return new(C) }
	k.Valid = func(c any) bool { return valid(c.(*C)) }
	k.Exec = func(x *Ctx, c any) *Violation { return exec(x, c.(*C)) }
	checks[k.ID] = &k
}

// Ctx is what a check sees of the framework while it executes a case.
type Ctx struct {
	T        *testing.T
	ID       string // of the check
	Tier     string
	hash     uint64
	nontriv  bool
	trace    bool
	lines    []string
	counters map[string]int64
	distinct map[string]map[uint64]struct{}
	sim      time.Duration
	known    map[string]bool
	wall     Wall
	Cleanup  []func()
	// Answer is what a run for Fresh is about.
	Answer string
}

// Fresh executes a case in a new process and returns its Answer.
func (c *Ctx) Fresh(cs any) (string, error) { return c.fresh(cs, c.wall) }

// Elsewhere is Fresh at another time and with another environment.
func (c *Ctx) Elsewhere(cs any) (string, error) { return c.fresh(cs, Wall{At: plainWall}) }

func (c *Ctx) fresh(cs any, w Wall) (string, error) {
	b, err := json.Marshal(cs)
	if err != nil {
		return "", err
	}
	b = withWall(b, w)
	dir, err := os.MkdirTemp("", "fresh")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	jb, _ := json.Marshal(&Job{Check: c.ID, Mode: "cases", Tier: c.Tier, Cases: []json.RawMessage{b}, Out: dir + "/out"})
	if err := os.WriteFile(dir+"/job", jb, 0666); err != nil {
		return "", err
	}
	limit, stop := context.WithTimeout(context.Background(), 100*time.Second)
	defer stop()
	p := exec.CommandContext(limit, os.Args[0], "-test.run", "^TestWorker$", "-test.timeout", "0")
	p.Env = append(os.Environ(), "SIM_JOB="+dir+"/job", "SIM_FRESH=1")
	if out, err := p.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	rb, err := os.ReadFile(dir + "/out")
	if err != nil {
		return "", err
	}
	var r Result
	if err := json.Unmarshal(rb, &r); err != nil {
		return "", err
	}
	if r.Harness != "" {
		return "", fmt.Errorf("%s", r.Harness)
	}
	return r.Answer, nil
}

// InFresh reports whether this process answers a Fresh call.
func InFresh() bool { return os.Getenv("SIM_FRESH") != "" }

// Ev records an event of the run. The events of a run are what two executions of the same
// seed must have in common.
func (c *Ctx) Ev(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.hash = HashString(c.hash, s) * 31
	if c.trace && len(c.lines) < 4000 {
		c.lines = append(c.lines, s)
	}
}

// Note is text for the human reader of a replay; it is no event.
func (c *Ctx) Note(format string, a ...any) {
	if c.trace && len(c.lines) < 4000 {
		c.lines = append(c.lines, "  "+fmt.Sprintf(format, a...))
	}
}

// Hash is the hash of the events so far.
func (c *Ctx) Hash() uint64 { return c.hash }

func (c *Ctx) Tracing() bool { return c.trace }

// Count adds to a counter of the evidence file.
func (c *Ctx) Count(name string, n int) {
	if n != 0 {
		c.counters[name] += int64(n)
	}
}

// Fault counts a fault that fired.
func (c *Ctx) Fault(kind string) { c.counters["fault:"+kind]++ }

// Counters are what has been counted so far, to be handed on by a process that answers a
// Fresh call; Add takes them over.
func (c *Ctx) Counters() map[string]int64 { return c.counters }

func (c *Ctx) Add(m map[string]int64) {
	for k, n := range m {
		c.counters[k] += n
	}
}

// Probe counts a rare condition that was reached.
func (c *Ctx) Probe(kind string) { c.counters["probe:"+kind]++ }

// Distinct adds a member to a named set (interleavings, states) whose size is reported.
func (c *Ctx) Distinct(set string, h uint64) {
	m := c.distinct[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.distinct[set] = m
	}
	m[h] = struct{}{}
}

// NonTrivial marks the run as one that exercised what the rule asks for.
func (c *Ctx) NonTrivial() { c.nontriv = true }

// Sim adds simulated time.
func (c *Ctx) Sim(d time.Duration) { c.sim += d }

// Known reports a known finding that was seen again.
func (c *Ctx) Known(what string) { c.known[what] = true }

// Job is what the driver asks a worker to do.
type Job struct {
	Check string            `json:"check"`
	Mode  string            `json:"mode"` // batch, cases, gen, meta
	Seed  uint64            `json:"seed"`
	Start int               `json:"start"`
	Count int               `json:"count"`
	Tier  string            `json:"tier"`
	Cases []json.RawMessage `json:"cases,omitempty"`
	Trace bool              `json:"trace,omitempty"`
	Hash  bool              `json:"hash,omitempty"`
	Out   string            `json:"out"`
}

// Found is a violation with the case that showed it.
type Found struct {
	Index int             `json:"index"`
	Case  json.RawMessage `json:"case"`
	Violation
}

// Result is what a worker answers.
type Result struct {
	Runs     int                 `json:"runs"`
	NonTriv  []uint64            `json:"nontriv"` // event hashes of the non-trivial runs
	Counters map[string]int64    `json:"counters"`
	Distinct map[string][]uint64 `json:"distinct"`
	SimNs    int64               `json:"sim_ns"`
	Samples  []json.RawMessage   `json:"samples"`
	Hashes   []uint64            `json:"hashes,omitempty"`
	Found    *Found              `json:"found,omitempty"`
	Harness  string              `json:"harness,omitempty"`
	Known    []string            `json:"known,omitempty"`
	Trace    []string            `json:"trace,omitempty"`
	Cases    []json.RawMessage   `json:"cases,omitempty"`
	Meta     *Meta               `json:"meta,omitempty"`
	Valid    bool                `json:"valid"`
	Answer   string              `json:"answer,omitempty"`
}

// Meta describes a check to the driver.
type Meta struct {
	Rule                   string
	Real, Stub, Assume     []string
	Chunk, Quick, Thorough int
	Race                   bool
}

func caseSeed(seed uint64, id string, i int) uint64 {
	return Mix(Mix(seed, HashString(0, id)), uint64(i)+1)
}

// Main runs the job named by the environment; it is the body of the worker's only test.
func Main(t *testing.T) {
	path := os.Getenv("SIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	debug.SetMaxStack(256 << 20)
	res := &Result{Counters: map[string]int64{}, Distinct: map[string][]uint64{}, Valid: true}
	k := checks[job.Check]
	if k == nil {
		res.Harness = "no such check: " + job.Check
	} else {
		run(t, k, &job, res)
	}
	out, err := json.Marshal(res)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(job.Out+".tmp", out, 0666); err != nil {
		t.Fatal(err)
	}
	if err := os.Rename(job.Out+".tmp", job.Out); err != nil {
		t.Fatal(err)
	}
}

func run(t *testing.T, k *Check, job *Job, res *Result) {
	if job.Mode == "meta" {
		res.Meta = &Meta{k.Rule, k.Real, k.Stub, k.Assume, k.Chunk, k.Quick, k.Thorough, k.Race}
		return
	}
	cur, _ := os.OpenFile(job.Out+".cur", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0666)
	defer cur.Close()
	n := job.Count
	if job.Mode == "cases" {
		n = len(job.Cases)
	}
	x := &Ctx{T: t, ID: k.ID, Tier: job.Tier, trace: job.Trace, counters: res.Counters, distinct: map[string]map[uint64]struct{}{}, known: map[string]bool{}}
	var before bool
	for i := 0; i < n; i++ {
		var c any
		var b []byte
		index := job.Start + i
		if job.Mode == "cases" {
			c, b = k.New(), job.Cases[i]
			w, ok := wallOf(b)
			if err := json.Unmarshal(b, c); err != nil || !ok || !k.Valid(c) {
				res.Valid = false
				return
			}
			x.wall = w
		} else {
			seed := caseSeed(job.Seed, k.ID, index)
			c = k.Gen(NewRand(seed), job.Tier)
			// a case is what its JSON says
			var err error
			b, err = json.Marshal(c)
			if err != nil {
				res.Harness = err.Error()
				return
			}
			x.wall = genWall(NewRand(Mix(seed, 7)))
			b = withWall(b, x.wall)
			c = k.New()
			if err := json.Unmarshal(b, c); err != nil {
				res.Harness = err.Error()
				return
			}
			if !k.Valid(c) {
				res.Harness = "generated case is not valid: " + string(b)
				return
			}
			if job.Mode == "gen" {
				res.Cases = append(res.Cases, b)
				continue
			}
		}
		if !before {
			before = true
			if k.Before != nil {
				k.Before(x)
			}
		}
		cur.WriteAt([]byte(fmt.Sprintf("%-12d", index)), 0)
		x.hash, x.nontriv = 0, false
		simrt.SetMapSeed(1)
		rand.Seed(1)
		x.wall.set()
		x.Count("environment variables set", len(x.wall.Env))
		v, harness := execute(k, x, c)
		x.Count("looks at the wall clock", int(simrt.WallReads()))
		if harness != "" {
			res.Harness = harness + "\ncase " + strconv.Itoa(index) + ": " + string(b)
			break
		}
		res.Runs++
		if x.nontriv {
			res.NonTriv = append(res.NonTriv, x.hash)
			if len(res.Samples) < 2 {
				res.Samples = append(res.Samples, b)
			}
		}
		if job.Hash {
			res.Hashes = append(res.Hashes, x.hash)
		}
		if v != nil {
			res.Found = &Found{index, b, *v}
			break
		}
	}
	res.SimNs = int64(x.sim)
	res.Answer = x.Answer
	for name, m := range x.distinct {
		for h := range m {
			res.Distinct[name] = append(res.Distinct[name], h)
		}
		sort.Slice(res.Distinct[name], func(i, j int) bool { return res.Distinct[name][i] < res.Distinct[name][j] })
	}
	for s := range x.known {
		res.Known = append(res.Known, s)
	}
	sort.Strings(res.Known)
	res.Trace = x.lines
	for _, f := range x.Cleanup {
		f()
	}
}

func execute(k *Check, x *Ctx, c any) (v *Violation, harness string) {
	defer func() {
		if r := recover(); r != nil {
			v, harness = FromPanic(r, debug.Stack())
		}
	}()
	return k.Exec(x, c), ""
}

// FromPanic turns a panic into a violation if code under test was running, and into a harness
// error otherwise.
func FromPanic(r any, stack []byte) (*Violation, string) {
	if p, ok := r.(Panic); ok {
		r, stack = p.Value, p.Stack
	}
	where, harness := blame(string(stack))
	e, deliberate := r.(interface{ SimClass() string })
	if where == "" || (harness && !deliberate) {
		return nil, fmt.Sprintf("panic in the harness: %v\n%s", r, stack)
	}
	s := fmt.Sprint(r)
	if len(s) > 500 {
		s = s[:500]
	}
	if deliberate {
		return V(e.SimClass(), "%s (%s)", s, where), ""
	}
	return V("panic", "panic: %s (%s)", s, where), ""
}

// Panic carries a panic of another goroutine with its stack.
type Panic struct {
	Value any
	Stack []byte
}

func (p Panic) Error() string { return fmt.Sprint(p.Value) }

// Catch calls f and returns its panic, if any.
func Catch(f func()) (p *Panic) {
	defer func() {
		if r := recover(); r != nil {
			if q, ok := r.(Panic); ok {
				p = &q
				return
			}
			p = &Panic{r, debug.Stack()}
		}
	}()
	f()
	return nil
}

var simRoot = func() string {
	_, f, _, _ := runtime.Caller(0)
	return strings.TrimSuffix(f, "fw/fw.go")
}()

// blame finds who raised a panic: the innermost frame that is neither the Go runtime or
// library nor the simulator's stand-ins. It returns the place in the code under test, or ""
// if the harness is to blame.
func blame(stack string) (where string, harness bool) {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for _, l := range lines[start:] {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "/") {
			continue
		}
		if j := strings.LastIndex(l, " +0x"); j > 0 {
			l = l[:j]
		}
		switch {
		case strings.HasPrefix(l, simRoot+"simrt/"), strings.HasPrefix(l, simRoot+"shim/"):
		case strings.HasPrefix(l, simRoot):
			if where == "" {
				harness = true
			}
		case strings.Contains(l, "/repo/"):
			if where == "" {
				where = l[strings.Index(l, "/repo/")+len("/repo/"):]
			}
		}
	}
	return
}

// OneP makes the process run one goroutine at a time, so that the simulator decides who runs.
func OneP() { runtime.GOMAXPROCS(1) }
