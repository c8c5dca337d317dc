package hapi

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/simrt"
)

// LogRun is one process run of the server in production.
type LogRun struct {
	Clock  int64          `json:"clock"` // at the start, in seconds from the epoch of the case
	Conns  []Conn         `json:"conns"`
	Events []Event        `json:"events"`
	Faults []hc.FileFault `json:"faults,omitempty"`
	Kill   bool           `json:"kill,omitempty"` // right after the last event
	Seed   uint64         `json:"seed,omitempty"`
	Gap    int            `json:"gap,omitempty"`
}

// LogCase is a history of starts, requests, crashes and restarts.
type LogCase struct {
	Runs  []LogRun `json:"runs"`
	Old   []OldLog `json:"old,omitempty"`   // logs of still earlier runs
	Fresh bool     `json:"fresh,omitempty"` // every run in an operating-system process of its own
	Dir   string   `json:"dir,omitempty"`
}

// OldLog is the log an earlier run has left, in seconds from the epoch of the case.
type OldLog struct {
	Clock int64 `json:"clock"`
	Lines int   `json:"lines"`
	Torn  bool  `json:"torn,omitempty"`
}

// lay writes the logs of earlier runs.
func lay(dir string, old []OldLog) {
	d := filepath.Join(dir, "GoBCDiceAPI")
	if len(old) > 0 {
		os.MkdirAll(d, 0700)
	}
	for _, l := range old {
		at := time.Unix(epoch+l.Clock, 0)
		rec := fmt.Sprintf(`{"time":%q,"id":"","remote_ip":"10.0.0.1","host":"h","method":"GET","uri":"/v1/names","user_agent":"","status":200,"error":"","latency":1,"latency_human":"1ns","bytes_in":0,"bytes_out":90}`+"\n", at.UTC().Format(time.RFC3339))
		b := strings.Repeat(rec, l.Lines)
		if l.Torn && b != "" {
			b = b[:len(b)-9]
		}
		p := filepath.Join(d, fmt.Sprintf("production-%d.log", epoch+l.Clock))
		os.WriteFile(p, []byte(b), 0666)
		os.Chtimes(p, at, at)
	}
}

// age gives the files a run has written the time of the simulated clock.
func age(dir string, prev, now map[string]string, clock int64) {
	at := time.Unix(epoch+clock, 0)
	for n, t := range now {
		if o, ok := prev[n]; !ok || o != t {
			os.Chtimes(filepath.Join(dir, n), at, at)
		}
	}
}

const epoch = 1700000000

func init() {
	fw.Register(fw.Check{
		ID:     "C16",
		Rule:   "1-5 process runs of the real main in production, on a simulated clock that stands still, steps, jumps or goes back between and during runs, each serving 1-4 clients (concurrent, pipelined, fragmented, reset, stalled) and killed between events, at the n-th log write (before or after it), right after the n-th write to a client, or after everything is answered, some with a log device that fails, fills up or tears a write, some with a log that cannot be opened at the start; one case in 16 with real process restarts; after each run the log directory is audited (non-trivial: at least two runs with records, or a disk fault that fired)",
		Real:   []string{"GoBCDiceAPI main, config, controllers, models, helpers, list", "echo framework and its request logger, net/http server", "log files (real files in a scratch directory)"},
		Stub:   []string{"network", "clock", "disk faults on the log's writes", "process crash (the run is abandoned and its later writes are dropped; in part of the cases a real process)"},
		Assume: []string{"a write the system reports as complete survives the crash of the process", "request texts need no JSON escape, apart from the known finding"},
		Chunk:  16, Quick: 500, Thorough: 20000,
		Before: before,
	}, genC16, validC16, execC16)
}

func validC16(c *LogCase) bool {
	if len(c.Runs) == 0 || len(c.Runs) > 8 {
		return false
	}
	if len(c.Old) > 400 {
		return false
	}
	for _, l := range c.Old {
		if l.Clock < -100000000 || l.Clock > 100000000 || l.Lines < 0 || l.Lines > 20000 {
			return false
		}
	}
	for i := range c.Runs {
		r := &c.Runs[i]
		if r.Clock < -1000000 || r.Clock > 400000000 || r.Gap < 0 || !validConns(r.Conns, r.Events) {
			return false
		}
		for _, f := range r.Faults {
			if f.Kind != "nth" && f.Kind != "crash" && f.Kind != "write" && f.Kind != "answer" && f.Kind != "open" && f.Kind != "mkdir" || f.At < 0 || f.N < 0 || f.Name != "" {
				return false
			}
			switch f.Errno {
			case 0, 5, 13, 24, 28, 30, 122:
			default:
				return false
			}
		}
	}
	return true
}

func genC16(r *fw.Rand, tier string) *LogCase {
	c := &LogCase{Fresh: r.P(1.0 / 16)}
	clock := int64(0)
	tricky := r.P(0.05)
	if r.P(0.25) {
		at, step := int64(0), int64(r.PickInt(1, 10, 3600, 86400, 700000))
		for n := r.PickInt(1, 3, 6, 12, 40, 120); n > 0; n-- {
			c.Old = append(c.Old, OldLog{Clock: at, Lines: r.PickInt(0, 1, 3, 10), Torn: r.P(0.05)})
			at -= 1 + int64(r.N(int(step)))
		}
		if r.P(0.2) {
			c.Old[r.N(len(c.Old))].Lines = r.PickInt(1000, 6000, 20000)
		}
		if r.P(0.1) {
			// written while the clock was ahead
			c.Old[0].Clock = int64(r.PickInt(1, 60, 100000))
		}
	}
	busy := r.P(0.02)
	for n := r.PickInt(1, 2, 2, 3, 3, 5, 8); n > 0; n-- {
		run := LogRun{Clock: clock}
		run.Conns, run.Events = genConns(r, func() Req {
			q := genReq(r)
			if tricky && r.P(0.3) {
				q.Agent = fw.Text(r.Pick(`a"b`, `C:\x`, `"`, `\`, `Mozilla "x"`))
			}
			return q
		}, 4)
		if busy && len(run.Conns[0].Reqs) > 0 {
			// many requests on one connection
			for n := r.PickInt(100, 300, 1100, 1450); len(run.Conns[0].Reqs) < n; {
				run.Conns[0].Reqs = append(run.Conns[0].Reqs, Req{Method: "GET", Path: r.Pick(routes...)})
			}
			for i := range run.Conns[0].Reqs {
				// none ends the connection
				q := &run.Conns[0].Reqs[i]
				q.Close, q.Old = false, false
			}
			run.Events = append(run.Events, Event{Do: "send", C: 0})
		}
		if r.P(0.2) && len(run.Events) > 0 {
			i := r.N(len(run.Events))
			run.Events = append(run.Events[:i:i], append([]Event{{Do: "clock", N: 10000 + r.PickInt(-86400/10, -60, -1, 0, 1, 60, 3600)}}, run.Events[i:]...)...)
		}
		if r.P(0.4) {
			run.Kill = true
			run.Events = run.Events[:r.N(len(run.Events)+1)]
		}
		total := 0
		for i := range run.Conns {
			total += len(run.Conns[i].Reqs)
		}
		if r.P(0.3) {
			f := hc.FileFault{Kind: r.Pick("nth", "crash", "crash", "answer", "answer", "write")}
			switch f.Kind {
			case "nth":
				f.At, f.Errno = int64(r.N(total+1)), r.PickInt(0, 5, 28)
			case "crash":
				f.At, f.Errno = int64(r.N(total+1)), r.PickInt(0, 5)
			case "answer":
				f.At = int64(r.N(total + 1))
			case "write":
				f.At, f.Errno, f.N = int64(r.N(300*total+1)), r.PickInt(28, 28, 5, 122), r.PickInt(0, 0, 1, 3)
			}
			run.Faults = append(run.Faults, f)
		}
		if r.P(0.03) {
			run.Faults = append(run.Faults, hc.FileFault{Kind: r.Pick("open", "open", "open", "mkdir"), Errno: r.PickInt(5, 13, 24, 28, 30)})
		}
		if r.P(0.6) {
			run.Seed, run.Gap = r.U64(), r.PickInt(1, 2, 3, 10)
		}
		c.Runs = append(c.Runs, run)
		clock += r.Pick2(0, 0, 0, 1, 1, 2, 60, -1, -2, -1, -3600, 86400, 3000000, 40000000)
	}
	return c
}

// badStart reports whether the log cannot be opened when the run starts.
func (r *LogRun) badStart() bool {
	for _, f := range r.Faults {
		if f.Kind == "open" || f.Kind == "mkdir" {
			return true
		}
	}
	return false
}

// Outcome is what the clients saw of a run.
type Outcome struct {
	Sure  []string `json:"sure"`  // answered and waited for
	Maybe []string `json:"maybe"` // begun, but not answered or not waited for
	Odd   []string `json:"odd"`   // user agents that need escapes
	Fired int      `json:"fired"` // disk faults
	Crash bool     `json:"crash"`
	// Refused: the log could not be opened and the program did not start
	Refused bool          `json:"refused,omitempty"`
	V       *fw.Violation `json:"v,omitempty"`
}

func recordOf(q *Req) string { return fmt.Sprintf("%s %s %d", q.Method, q.Path, q.status()) }

// serve executes one process run.
func serve(x *fw.Ctx, dir string, r *LogRun) (o *Outcome) {
	o = &Outcome{}
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	d := hc.NewDisk(x, r.Faults)
	simrt.SetFS(d)
	defer func() {
		os.Setenv("TMPDIR", old)
		simrt.SetFS(nil)
		simrt.SetNow(nil)
		for k, n := range d.N {
			if k != "crash" && k != "open" && k != "mkdir" {
				o.Fired += n
			}
		}
	}()
	o.V = bubble(x, func() *fw.Violation {
		t0, clock := time.Now(), r.Clock
		simrt.SetNow(func() time.Time { return time.Unix(epoch+clock, 0).Add(time.Since(t0)) })
		s := start(x, "production")
		// without its log the program may refuse to start; if it serves, it serves with a log
		refused := d.Started()
		if v := s.failed(); v != nil {
			if o.Refused = refused; refused {
				return nil
			}
			return v
		}
		// the process dies with its connections; it may do so right after an answer
		d.OnDead = func() { s.net.dead.Store(true) }
		answers := int64(0)
		var mu sync.Mutex
		s.net.wrote = func() {
			mu.Lock()
			defer mu.Unlock()
			n := answers
			answers++
			for _, f := range r.Faults {
				if f.Kind == "answer" && f.At == n {
					x.Fault("process:killed right after a write to a client")
					d.Kill()
				}
			}
		}
		for i := range r.Conns {
			for j := range r.Conns[i].Reqs {
				if a := string(r.Conns[i].Reqs[j].Agent); strings.ContainsAny(a, "\"\\") {
					o.Odd = append(o.Odd, a)
				}
			}
		}
		if !s.networked() {
			x.Probe("the program does not use the simulated network: its handlers are called directly")
			for i := range r.Conns {
				for j := range r.Conns[i].Reqs {
					q := &r.Conns[i].Reqs[j]
					w := s.direct(q)
					if d.Dead {
						o.Crash = true
						o.Maybe = append(o.Maybe, recordOf(q))
						return nil
					}
					if v := q.judgeRecorded(w); v != nil {
						return v
					}
					o.Sure = append(o.Sure, recordOf(q))
				}
			}
			return nil
		}
		a := newClients(s, r.Conns)
		settled := make([]int, len(a.l)) // answers when everything last waited
		look := func() *fw.Violation {
			if d.Dead {
				return nil
			}
			if v := s.failed(); v != nil {
				return v
			}
			v := a.check()
			for i, k := range a.l {
				settled[i] = k.answered
				x.Ev("connection %d: sent %d answered %d", i, k.sent, k.answered)
			}
			return v
		}
		simrt.SetJitter(r.Seed, uint64(r.Gap))
		defer func() { x.Count("switches between goroutines at statements", int(simrt.SetJitter(0, 0))) }()
		for i := range r.Events {
			e := &r.Events[i]
			if e.Do == "clock" {
				x.Fault("clock:jump while serving")
				clock, t0 = r.Clock+int64(e.N)-10000, time.Now()
			} else {
				a.do(e)
			}
			if e.Join && i+1 < len(r.Events) {
				continue
			}
			s.settle()
			if v := look(); v != nil {
				return v
			}
			if d.Dead {
				break
			}
		}
		if !d.Dead && !r.Kill {
			for i := range a.l {
				a.do(&Event{Do: "resume", C: i})
				a.do(&Event{Do: "send", C: i})
			}
			a.rest()
			if v := look(); v != nil {
				return v
			}
		}
		o.Crash = d.Dead
		if r.Kill && !d.Dead {
			x.Fault("process:killed between events")
		}
		for i, k := range a.l {
			if d.Dead && k.c != nil {
				// what the client got before the process died is answered
				b, _ := k.c.received()
				n, _, _ := responses(b, false, k.Reqs[:k.begun()])
				settled[i] = max(settled[i], n)
			}
			for j := range k.Reqs {
				switch {
				case j < settled[i]:
					o.Sure = append(o.Sure, recordOf(&k.Reqs[j]))
				case j < k.begun():
					o.Maybe = append(o.Maybe, recordOf(&k.Reqs[j]))
				}
			}
		}
		return nil
	})
	return o
}

func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func sortedNames(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// parseRecord reads a line of the log; ok is false if it is no complete record.
func parseRecord(line string) (rec string, ok bool) {
	var m map[string]any
	if json.Unmarshal([]byte(line), &m) != nil {
		return "", false
	}
	method, ok1 := m["method"].(string)
	status, ok2 := m["status"].(float64)
	uri, ok3 := m["uri"].(string)
	if !ok3 {
		uri, ok3 = m["path"].(string)
	}
	u, err := url.Parse(uri)
	if !ok1 || !ok2 || !ok3 || err != nil {
		return "", false
	}
	return fmt.Sprintf("%s %s %d", method, u.Path, int(status)), true
}

// audit compares the log directory before and after a run with what the clients saw.
func audit(x *fw.Ctx, prev, now map[string]string, o *Outcome) *fw.Violation {
	for _, n := range sortedNames(prev) {
		if t, ok := now[n]; !ok {
			return fw.V("lost-log", "the log file %s of an earlier run is gone", n)
		} else if !strings.HasPrefix(t, prev[n]) {
			return fw.V("lost-log", "the log file %s of an earlier run had %q and has now %q", n, hc.Short(prev[n]), hc.Short(t))
		}
	}
	added, file, torn := "", "", 0
	for _, n := range sortedNames(now) {
		if a := now[n][len(prev[n]):]; a != "" {
			if file != "" {
				return fw.V("scattered", "one run has written to %s and to %s", file, n)
			}
			file, added = n, a
			if p := prev[n]; p != "" && p[len(p)-1] != '\n' {
				torn = 1
			}
		}
	}
	got := map[string]int{}
	bad := 0
	lines := strings.SplitAfter(added, "\n")
	for i, l := range lines {
		if l == "" {
			continue
		}
		rec, ok := "", false
		if strings.HasSuffix(l, "\n") {
			rec, ok = parseRecord(l)
			if !ok && strings.Contains(l, `"user_agent":"`) {
				for _, a := range o.Odd {
					esc, _ := json.Marshal(a)
					if r, fine := parseRecord(strings.Replace(l, `"user_agent":"`+a+`"`, `"user_agent":`+string(esc), 1)); fine {
						line, listed := fw.Listed("C16", "unescaped-text")
						if !listed {
							return fw.V("bad-record", "the record %q is not JSON: the user agent %q is not escaped", hc.Short(l), a)
						}
						x.Known(line)
						rec, ok = r, true
						break
					}
				}
			}
		}
		if !ok {
			bad++
			if o.Fired == 0 && !(torn > 0 && i == 0) {
				return fw.V("bad-record", "line %d the run has added to %s is no complete record: %q", i+1, file, hc.Short(l))
			}
			continue
		}
		got[rec]++
	}
	if bad > o.Fired+torn {
		return fw.V("bad-record", "%d writes failed and %d lines of %s are no records", o.Fired, bad, file)
	}
	missing := 0
	first := ""
	for _, s := range o.Sure {
		if got[s] > 0 {
			got[s]--
			continue
		}
		if first == "" {
			first = s
		}
		missing++
	}
	if missing > 2*o.Fired+torn {
		return fw.V("missing-record", "%d of %d answered requests have no record (the first: %s); %d log writes failed; the run has added %q", missing, len(o.Sure), first, o.Fired, hc.Short(added))
	}
	for _, s := range o.Maybe {
		if got[s] > 0 {
			got[s]--
		}
	}
	var left []string
	for s, n := range got {
		if n > 0 {
			left = append(left, fmt.Sprintf("%s (%d)", s, n))
		}
	}
	sort.Strings(left)
	if len(left) > 0 {
		return fw.V("extra-record", "records of no request: %s; the run has answered %q and begun %q more", strings.Join(left, ", "), o.Sure, o.Maybe)
	}
	return nil
}

// history executes the runs of a case one after another.
func history(x *fw.Ctx, c *LogCase, fresh bool) (v *fw.Violation, withRecords, fired int) {
	dir, err := os.MkdirTemp("", "c16")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	lay(dir, c.Old)
	if len(c.Old) > 0 {
		x.Count("logs of earlier runs in the directory", len(c.Old))
	}
	prev := snapshot(dir)
	for i := range c.Runs {
		var o *Outcome
		if bad := c.Runs[i].badStart(); fresh || bad {
			a, err := x.Fresh(&LogCase{Runs: c.Runs[i : i+1], Dir: dir})
			o = &Outcome{}
			if bad {
				x.Fault("disk:open at the start")
			}
			if err != nil && bad {
				// the process has ended
				a = `{"refused":true}`
			} else if err != nil {
				panic(err)
			}
			if err := json.Unmarshal([]byte(a), o); err != nil {
				panic(err)
			}
		} else {
			o = serve(x, dir, &c.Runs[i])
		}
		now := snapshot(dir)
		age(dir, prev, now, c.Runs[i].Clock)
		v := o.V
		if v == nil {
			v = audit(x, prev, now, o)
		}
		if v != nil {
			v.Detail = fmt.Sprintf("run %d: %s", i, v.Detail)
			return v, withRecords, fired
		}
		for _, n := range sortedNames(now) {
			x.Ev("run %d: %s has %d lines", i, n, strings.Count(now[n], "\n"))
		}
		if o.Refused {
			x.Count("runs that refused to start without their log", 1)
		}
		x.Ev("run %d: answered %q begun %q failed %d crash %v", i, o.Sure, o.Maybe, o.Fired, o.Crash)
		if len(o.Sure) > 0 {
			withRecords++
		}
		fired += o.Fired
		x.Count("answered requests whose record was looked for", len(o.Sure))
		x.Count("requests in flight at a crash or a reset", len(o.Maybe))
		x.Count("process runs", 1)
		if i > 0 {
			d := c.Runs[i].Clock - c.Runs[i-1].Clock
			switch {
			case d == 0:
				x.Fault("clock:restart within the same second")
			case d < 0:
				x.Fault("clock:set back between runs")
			}
		}
		prev = now
	}
	return nil, withRecords, fired
}

func execC16(x *fw.Ctx, c *LogCase) *fw.Violation {
	if fw.InFresh() {
		o := serve(x, c.Dir, &c.Runs[0])
		b, _ := json.Marshal(o)
		x.Answer = string(b)
		return nil
	}
	v, recs, fired := history(x, c, c.Fresh)
	x.Distinct("histories (event logs)", x.Hash())
	if c.Fresh {
		x.Count("histories with real process restarts", 1)
	}
	if v != nil && !c.Fresh {
		// what a process keeps in memory must not survive its end
		real, _, _ := history(x, c, true)
		if real == nil {
			x.Count("differences that go away with real process restarts", 1)
			return nil
		}
		return real
	}
	if recs >= 2 || fired > 0 {
		x.NonTrivial()
	}
	return v
}
