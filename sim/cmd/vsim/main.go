// vsim drives the simulated checks: it builds the instrumented workers from the working tree
// of the repository, runs batches of seeds in fresh worker processes, confirms and minimises
// violations in fresh processes, and writes the evidence.
//
//	vsim build                 build everything
//	vsim check ID              run the check of a property
//	vsim replay FILE           replay a violation
//	vsim selftest N [ID...]    run N chunks of each check twice and compare the event logs
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"iter"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/fw"
)

var (
	root  = os.Getenv("SIM_ROOT") // /verif
	repo  = "/repo"
	build string
)

var pkgOf = map[string]string{}
var raceOf = map[string]bool{"C06": true, "C15": true}

// mixedOf: every other batch runs without the race detector (which randomises the scheduler
// of the Go runtime); the generator knows in which build it is.
var mixedOf = map[string]bool{"C15": true}
var allIDs []string

// workersOf builds the workers of a check; batch n is for worker n modulo their number.
func workersOf(id string) []*worker {
	pkg := pkgOf[id]
	l := []*worker{{buildWorker(pkg, raceOf[id]), raceOf[id]}}
	if mixedOf[id] {
		l = append(l, &worker{buildWorker(pkg, false), false})
	}
	return l
}

func init() {
	for i := 1; i <= 24; i++ {
		if i >= 20 && i <= 22 {
			continue // not decided by simulation
		}
		id := fmt.Sprintf("C%02d", i)
		p := "hcore"
		switch id {
		case "C10", "C11", "C12", "C13":
			p = "hrepl"
		case "C15", "C16", "C24":
			p = "hapi"
		}
		pkgOf[id] = p
		allIDs = append(allIDs, id)
	}
}

func main() {
	if root == "" {
		root, _ = os.Getwd()
	}
	build = filepath.Join(root, ".build")
	args := os.Args[1:]
	if len(args) == 0 {
		fail("usage: vsim build|check ID|replay FILE|selftest N [ID...]")
	}
	switch args[0] {
	case "build":
		for _, p := range []string{"hcore", "hrepl", "hapi"} {
			buildWorker(p, false)
		}
		buildWorker("hcore", true)
		buildWorker("hapi", true)
	case "check":
		check(args[1])
	case "replay":
		replay(args[1])
	case "selftest":
		n, _ := strconv.Atoi(args[1])
		ids := args[2:]
		if len(ids) == 0 {
			ids = allIDs
		}
		selftest(n, ids)
	default:
		fail("unknown command " + args[0])
	}
}

// fail is an error of the check itself, never a violation.
func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: error: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

var scratch string

func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "vsim")
		if err != nil {
			fail("%v", err)
		}
		scratch = d
	}
	return scratch
}

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

// ---- build

func goTool(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	out, err := c.CombinedOutput()
	return string(out), err
}

var instrumented bool

// skips are the seams done without, one after another, when the instrumented sources do not
// compile (a replaced package may lack something the sources use). Faults of a seam that is
// missing do not happen.
var skips = []string{"", "replmain", "replmain,net,runtime", "replmain,net,runtime,os,io/ioutil", "replmain,net,runtime,os,io/ioutil,sync", "replmain,net,runtime,os,io/ioutil,sync,echo"}
var skipped int

func instrument() {
	if instrumented {
		return
	}
	instrumented = true
	out, err := exec.Command(filepath.Join(build, "instr"), "-repo", repo, "-out", filepath.Join(build, "src"), "-overlay", filepath.Join(build, "overlay.json"), "-skip", skips[skipped]).CombinedOutput()
	if err != nil {
		fail("instrumenting %s: %v\n%s", repo, err, out)
	}
}

// buildWorker builds the worker binary of a harness package and returns its path.
func buildWorker(pkg string, race bool) string {
	lock, err := os.OpenFile(filepath.Join(build, "lock"), os.O_CREATE|os.O_RDWR, 0666)
	if err != nil {
		fail("%v", err)
	}
	defer lock.Close()
	syscall.Flock(int(lock.Fd()), syscall.LOCK_EX)
	defer syscall.Flock(int(lock.Fd()), syscall.LOCK_UN)
	instrument()
	name := pkg + ".test"
	args := []string{"test", "-c", "-vet=off", "-overlay", filepath.Join(build, "overlay.json")}
	if race {
		name = pkg + ".race.test"
		args = append(args, "-race")
	}
	bin := filepath.Join(build, name)
	args = append(args, "-o", bin)
	compile := func() (string, error) {
		a := args
		if strings.Contains(skips[skipped], "replmain") {
			a = append(a[:len(a):len(a)], "-tags", "noreplmain")
		}
		return goTool(filepath.Join(root, "sim"), append(a, "./"+pkg)...)
	}
	out, err := compile()
	for first := out; err != nil && skipped+1 < len(skips); {
		skipped++
		instrumented = false
		instrument()
		if out, err = compile(); err == nil {
			fmt.Fprintf(os.Stderr, "vsim: built without the seams %s:\n%s", skips[skipped], first)
		}
	}
	if err != nil {
		fail("building %s: %v\n%s", pkg, err, out)
	}
	return bin
}

// ---- workers

type worker struct {
	bin  string
	race bool
}

type outcome struct {
	res    *fw.Result
	crash  string // the worker died: what it said
	index  int    // the case it was executing
	killed bool   // by the watchdog or the system
	wall   time.Duration
}

var jobCount int
var jobMu sync.Mutex

// stall is how long a worker may stay at one case.
var stall = 150 * time.Second

func (w *worker) run(job *fw.Job) *outcome {
	jobMu.Lock()
	jobCount++
	dir := filepath.Join(scratchDir(), "j"+strconv.Itoa(jobCount))
	jobMu.Unlock()
	if err := os.MkdirAll(filepath.Join(dir, "cwd"), 0777); err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	job.Out = filepath.Join(dir, "out")
	jb, _ := json.Marshal(job)
	jf := filepath.Join(dir, "job")
	if err := os.WriteFile(jf, jb, 0666); err != nil {
		fail("%v", err)
	}
	limit := "ulimit -v 6000000; "
	if w.race {
		limit = ""
	}
	c := exec.Command("/bin/sh", "-c", limit+"exec "+w.bin+" -test.run '^TestWorker$' -test.timeout 0")
	c.Dir = filepath.Join(dir, "cwd")
	c.Env = append(os.Environ(),
		"SIM_JOB="+jf, "GOMAXPROCS=1", "TZ=UTC", "GODEBUG=randseednop=0", "HOME="+c.Dir, "TMPDIR="+c.Dir, "TERM=dumb",
		"GOTRACEBACK=single", "GOGC=400", "ECHO_ENV="+map[bool]string{true: "production"}[job.Check == "C16"],
		"SIM_RACELOG="+filepath.Join(dir, "race"),
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	var buf tail
	c.Stdout, c.Stderr = &buf, &buf
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t0 := time.Now()
	// Pdeathsig is tied to the starting thread
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := c.Start(); err != nil {
		fail("starting %s: %v", w.bin, err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	last, lastChange := "", time.Now()
	o := &outcome{}
	var err error
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(job.Out + ".cur")
			if string(b) != last {
				last, lastChange = string(b), time.Now()
			}
			if time.Since(lastChange) > stall {
				o.killed = true
				// it says where it is before it goes
				syscall.Kill(c.Process.Pid, syscall.SIGQUIT)
				select {
				case err = <-done:
				case <-time.After(10 * time.Second):
				}
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				if err == nil {
					err = <-done
				}
				break loop
			}
		}
	}
	o.wall = time.Since(t0)
	if b, e := os.ReadFile(job.Out); e == nil {
		r := &fw.Result{}
		if json.Unmarshal(b, r) == nil {
			o.res = r
			return o
		}
	}
	if b, e := os.ReadFile(job.Out + ".cur"); e == nil {
		o.index, _ = strconv.Atoi(strings.TrimSpace(string(b)))
	}
	o.crash = buf.String()
	if err != nil && strings.Contains(err.Error(), "killed") {
		o.killed = true
	}
	return o
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// crashClass says what killed a worker, or "" if it was not the code under test.
func crashClass(o *outcome) string {
	if o.killed {
		return hung(o.crash)
	}
	for _, l := range strings.Split(o.crash, "\n") {
		for _, p := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds"} {
			if strings.HasPrefix(l, p) {
				l = strings.TrimSpace(l)
				if len(l) > 120 {
					l = l[:120]
				}
				return "crash: " + l
			}
		}
	}
	return ""
}

// hung looks for a goroutine that has been waiting for another one in the code under test. One
// that runs is slow or in a loop, which the step budget is for.
func hung(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		m := hungRe.FindStringSubmatch(head)
		if m == nil {
			continue
		}
		// the innermost frame outside the standard library is the one that waits
		for _, l := range strings.Split(g, "\n") {
			if !strings.HasPrefix(l, "\t/") || strings.Contains(l, "/src/runtime/") || strings.Contains(l, "/src/sync/") || strings.Contains(l, "/src/internal/") {
				continue
			}
			if strings.Contains(l, "/repo/") && !strings.Contains(l, "/repo/vendor/") {
				return "hang: a thread waits for ever (" + m[1] + ")"
			}
			break
		}
	}
	return ""
}

var hungRe = regexp.MustCompile(`^goroutine \d+.*\[(chan send|chan receive|select|sync\.[A-Za-z.]+|semacquire)[^\]]*\]:`)

func crashBlamesRepo(s string) bool { return strings.Contains(s, "/repo/") }

// verdict of one job: violation, nothing, or an error of the machinery.
type verdict struct {
	found   *fw.Found
	harness string
	res     *fw.Result
}

func (w *worker) judge(job *fw.Job) verdict {
	o := w.run(job)
	if o.res != nil {
		return verdict{o.res.Found, o.res.Harness, o.res}
	}
	if k := crashClass(o); k != "" && crashBlamesRepo(o.crash) {
		f := &fw.Found{Index: o.index}
		f.Class = k
		f.Detail = firstLines(o.crash, 40)
		return verdict{found: f}
	}
	why := "died"
	if o.killed {
		why = "was killed (no progress or no memory)"
	}
	return verdict{harness: fmt.Sprintf("worker %s at case %d\n%s", why, o.index, firstLines(o.crash, 60))}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---- check

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func check(id string) {
	t0 := time.Now()
	if pkgOf[id] == "" {
		fail("unknown property %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	ws := workersOf(id)
	built := time.Since(t0)
	mv := ws[0].judge(&fw.Job{Check: id, Mode: "meta", Tier: tier})
	if mv.harness != "" || mv.res == nil || mv.res.Meta == nil {
		fail("%s: %s", id, mv.harness)
	}
	m := mv.res.Meta
	chunks, limit := m.Quick, 240*time.Second
	if tier == "thorough" {
		chunks, limit = m.Thorough, 700*time.Second
	}
	chunks = envInt("SIM_CHUNKS", chunks)
	limit = time.Duration(envInt("SIM_WALL", int(limit/time.Second))) * time.Second

	ev := &evidence{nontriv: map[uint64]struct{}{}, counters: map[string]int64{}, distinct: map[string]map[uint64]struct{}{}, known: map[string]bool{}}
	var mu sync.Mutex
	next, bad, stop := 0, -1, false
	var first verdict
	var wg sync.WaitGroup
	workers := envInt("SIM_WORKERS", 8)
	search := time.Now()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= chunks || time.Since(t0) > limit {
					mu.Unlock()
					return
				}
				n := next
				next++
				mu.Unlock()
				v := ws[n%len(ws)].judge(&fw.Job{Check: id, Mode: "batch", Seed: uint64(seed), Start: n * m.Chunk, Count: m.Chunk, Tier: tier})
				mu.Lock()
				if v.res != nil {
					ev.add(v.res)
				}
				if v.found != nil || v.harness != "" {
					stop = true
					// what the code under test did comes before what the machinery could not do
					if bad < 0 || v.found != nil && first.found == nil || (v.found != nil) == (first.found != nil) && n < bad {
						bad, first = n, v
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searched := time.Since(search)
	if bad >= 0 && first.found == nil {
		fail("%s: %s", id, first.harness)
	}
	for _, k := range sortedKeys(ev.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	violations := 0
	var path string
	if bad >= 0 {
		violations = 1
		path = report(ws[bad%len(ws)], id, tier, seed, m, bad*m.Chunk, first.found)
	}
	if err := ev.write(id, tier, seed, m, next, searched, built, time.Since(t0), violations); err != nil {
		fail("%v", err)
	}
	cleanup()
	if bad >= 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(1)
	}
	fmt.Printf("%s: held on %d runs (%d distinct non-trivial) in %.1fs\n", id, ev.runs, len(ev.nontriv), time.Since(t0).Seconds())
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- violations

type replayFile struct {
	Property  string            `json:"property"`
	Class     string            `json:"class"`
	Detail    string            `json:"detail"`
	Seed      int               `json:"seed"`
	Index     int               `json:"case_index"`
	Tier      string            `json:"tier"`
	Race      bool              `json:"race_detector"`
	Flaky     string            `json:"reproduced,omitempty"`
	Minimised int               `json:"minimisation_steps"`
	Cases     []json.RawMessage `json:"cases"`
	Trace     []string          `json:"trace"`
}

// same says whether two violations are the same for minimisation.
func same(a, b string) bool {
	ca, cb := strings.SplitN(a, ":", 2)[0], strings.SplitN(b, ":", 2)[0]
	return ca == cb
}

func report(w *worker, id, tier string, seed int, m *fw.Meta, start int, f *fw.Found) string {
	fmt.Printf("%s: seed %d case %d: %s: %s\n", id, seed, f.Index, f.Class, f.Detail)
	try := func(cases []json.RawMessage, trace bool) *verdict {
		v := w.judge(&fw.Job{Check: id, Mode: "cases", Cases: cases, Tier: tier, Trace: trace})
		return &v
	}
	// The race detector may miss a race that happens (it remembers a few accesses per word), so
	// a candidate counts when it reports one in any of a few runs of the same schedule.
	tries := 1
	if same(f.Class, "race") {
		tries = 3
	}
	if same(f.Class, "hang") {
		// every failing replay takes that long, so there are few of them
		stall = 40 * time.Second
		tries = 1
	}
	hits := func(cases []json.RawMessage) bool {
		for i := 0; i < tries; i++ {
			v := try(cases, false)
			if v.found != nil && same(v.found.Class, f.Class) {
				return true
			}
		}
		return false
	}
	gen := func(from, n int) []json.RawMessage {
		v := w.judge(&fw.Job{Check: id, Mode: "gen", Seed: uint64(seed), Start: from, Count: n, Tier: tier})
		if v.res == nil || len(v.res.Cases) != n {
			fail("%s: cannot generate the cases of the violation again: %s", id, v.harness)
		}
		return v.res.Cases
	}
	all := gen(start, f.Index-start+1)
	if len(f.Case) > 0 {
		all[len(all)-1] = f.Case // with the decisions of the scheduler written out
	}
	cases := []json.RawMessage{all[len(all)-1]}
	flaky := ""
	steps := 0
	deadline := time.Now().Add(time.Duration(envInt("SIM_SHRINK", 90)) * time.Second)
	if same(f.Class, "hang") {
		deadline = time.Now()
	}
	switch {
	case hits(cases):
	case hits(all):
		cases = all
		// drop earlier cases while the last one still fails
		for n := (len(cases) - 1) / 2; n >= 1 && time.Now().Before(deadline); {
			changed := false
			for i := 0; i+n <= len(cases)-1 && time.Now().Before(deadline); {
				c := append(append([]json.RawMessage{}, cases[:i]...), cases[i+n:]...)
				steps++
				if hits(c) {
					cases, changed = c, true
				} else {
					i += n
				}
			}
			if !changed || n > (len(cases)-1)/2 {
				n /= 2
			}
		}
	default:
		ok := 0
		for i := 0; i < 20; i++ {
			if hits(cases) {
				ok++
			}
		}
		if ok == 0 {
			cases = all
			for i := 0; i < 20; i++ {
				if hits(cases) {
					ok++
				}
			}
		}
		if ok == 0 && !same(f.Class, "race") {
			fail("%s: the violation of case %d does not reproduce: %s: %s", id, f.Index, f.Class, f.Detail)
		}
		flaky = fmt.Sprintf("%d of 20 replays: the code under test has nondeterminism outside the simulator's seams", ok)
	}
	before := [][]json.RawMessage{}
	if flaky == "" {
		// minimise case by case, 8 candidates at a time, the first that still fails wins
		for ci := 0; ci < len(cases) && ci < 4; ci++ {
			for time.Now().Before(deadline) {
				next, stop := iter.Pull(fw.Simpler(cases[ci]))
				var got json.RawMessage
				for got == nil && time.Now().Before(deadline) {
					var cand []json.RawMessage
					for len(cand) < 8 {
						c, more := next()
						if !more {
							break
						}
						cand = append(cand, c)
					}
					if len(cand) == 0 {
						break
					}
					ok := make([]bool, len(cand))
					var wg sync.WaitGroup
					for i := range cand {
						wg.Add(1)
						go func() {
							defer wg.Done()
							c := append([]json.RawMessage{}, cases...)
							c[ci] = cand[i]
							ok[i] = hits(c)
						}()
					}
					wg.Wait()
					for i, x := range ok {
						if x {
							got = cand[i]
							break
						}
					}
				}
				stop()
				if got == nil {
					break
				}
				steps++
				c := append([]json.RawMessage{}, cases...)
				c[ci] = got
				before = append(before, cases)
				cases = c
			}
		}
	}
	final := try(cases, true)
	for i := 0; i < 30 && (flaky != "" || tries > 1) && final.found == nil; i++ {
		final = try(cases, true)
		if i%6 == 5 && len(before) > 0 {
			cases = before[len(before)-1]
			before = before[:len(before)-1]
		}
	}
	if final.found == nil {
		if tries == 1 {
			fail("%s: the minimised case does not fail again: %s", id, final.harness)
		}
		// a report of the race detector is a race even if it does not see it again
		final.found = f
		flaky = "the race detector did not report the race again in 30 replays of the same schedule"
	}
	rf := replayFile{id, final.found.Class, final.found.Detail, seed, f.Index, tier, w.race, flaky, steps, cases, nil}
	if final.res != nil {
		rf.Trace = final.res.Trace
	}
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0777)
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(rf)
	p := filepath.Join(dir, id+".json")
	if err := os.WriteFile(p, b.Bytes(), 0666); err != nil {
		fail("%v", err)
	}
	fmt.Printf("%s: minimised in %d steps: %s: %s\n", id, steps, rf.Class, rf.Detail)
	return p
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fail("%v", err)
	}
	w := &worker{buildWorker(pkgOf[rf.Property], rf.Race), rf.Race}
	var v verdict
	for i := 0; i < 20; i++ {
		v = w.judge(&fw.Job{Check: rf.Property, Mode: "cases", Cases: rf.Cases, Tier: rf.Tier, Trace: true})
		if v.found != nil || !same(rf.Class, "race") {
			break
		}
	}
	if v.harness != "" {
		fail("%s", v.harness)
	}
	if v.res != nil {
		for _, l := range v.res.Trace {
			fmt.Println(l)
		}
	}
	cleanup()
	if v.found == nil {
		fmt.Printf("%s: the replay does not violate the property\n", rf.Property)
		return
	}
	fmt.Printf("%s: %s\n", v.found.Class, v.found.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	os.Exit(1)
}

// ---- evidence

type evidence struct {
	runs     int
	nontriv  map[uint64]struct{}
	counters map[string]int64
	distinct map[string]map[uint64]struct{}
	known    map[string]bool
	samples  []json.RawMessage
	simNs    int64
}

func (e *evidence) add(r *fw.Result) {
	e.runs += r.Runs
	for _, h := range r.NonTriv {
		e.nontriv[h] = struct{}{}
	}
	for k, n := range r.Counters {
		e.counters[k] += n
	}
	for k, l := range r.Distinct {
		m := e.distinct[k]
		if m == nil {
			m = map[uint64]struct{}{}
			e.distinct[k] = m
		}
		for _, h := range l {
			m[h] = struct{}{}
		}
	}
	for _, k := range r.Known {
		e.known[k] = true
	}
	for _, s := range r.Samples {
		if len(e.samples) < 3 && len(s) < 6000 {
			e.samples = append(e.samples, s)
		}
	}
	e.simNs += r.SimNs
}

func (e *evidence) write(id, tier string, seed int, m *fw.Meta, chunks int, searched, built, wall time.Duration, violations int) error {
	faults, probes, other := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, n := range e.counters {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = n
		case strings.HasPrefix(k, "probe:"):
			probes[k[6:]] = n
		default:
			other[k] = n
		}
	}
	dist := map[string]int{}
	for k, s := range e.distinct {
		dist[k] = len(s)
	}
	samples := []any{}
	for _, s := range e.samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":          e.runs,
		"distinct_nontrivial":  len(e.nontriv),
		"rule":                 m.Rule,
		"samples":              samples,
		"worker_processes":     chunks,
		"seeds_per_hour":       int(float64(e.runs) / searched.Hours()),
		"search_wall_s":        searched.Seconds(),
		"build_wall_s":         built.Seconds(),
		"simulated_time_s":     float64(e.simNs) / 1e9,
		"faults_injected":      faults,
		"rare_conditions_hit":  probes,
		"counts":               other,
		"distinct_by_measure":  dist,
		"components_real":      m.Real,
		"components_simulated": m.Stub,
	}
	doc := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": m.Assume, "wall_s": wall.Seconds(), "violations": violations,
	}
	if m.Assume == nil {
		doc["assumptions"] = []string{}
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(doc); err != nil {
		return err
	}
	dir := filepath.Join(root, "evidence")
	if err := os.MkdirAll(dir, 0777); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, id+".json"), b.Bytes(), 0666)
}

// ---- determinism

// selftest runs the first n chunks of each check several times, with different numbers of
// workers and in other chunk sizes, and compares the event log hash of every case.
func selftest(n int, ids []string) {
	badIDs := 0
	for _, id := range ids {
		ws := workersOf(id)
		mv := ws[0].judge(&fw.Job{Check: id, Mode: "meta"})
		if mv.res == nil || mv.res.Meta == nil {
			fail("%s: %s", id, mv.harness)
		}
		m := mv.res.Meta
		seed := uint64(envInt("VERIF_SEED", 1))
		collect := func(workers int) [][]uint64 {
			out := make([][]uint64, n)
			sem := make(chan bool, workers)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					v := ws[n%len(ws)].judge(&fw.Job{Check: id, Mode: "batch", Seed: seed, Start: i * m.Chunk, Count: m.Chunk, Hash: true, Tier: "quick"})
					if v.res == nil || v.harness != "" || v.found != nil {
						d := v.harness
						if v.found != nil {
							d = v.found.Class + ": " + v.found.Detail
						}
						fail("%s: %s", id, d)
					}
					out[i] = v.res.Hashes
				}()
			}
			wg.Wait()
			return out
		}
		a := collect(8)
		diff, cases := 0, 0
		for round, workers := range []int{3, 16} {
			b := collect(workers)
			for i := range a {
				cases += len(a[i])
				if len(a[i]) != len(b[i]) {
					diff++
					continue
				}
				for j := range a[i] {
					if a[i][j] != b[i][j] {
						if diff == 0 {
							fmt.Printf("%s: case %d differs in round %d\n", id, i*m.Chunk+j, round)
						}
						diff++
					}
				}
			}
		}
		fmt.Printf("%s: %d executions compared, %d differ\n", id, cases, diff)
		if diff > 0 {
			badIDs++
		}
	}
	cleanup()
	if badIDs > 0 {
		os.Exit(3)
	}
}
