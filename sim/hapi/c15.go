package hapi

import (
	"fmt"
	"net/http/httptest"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/simrt"
)

// API is a run of the server: handlers under a schedule, or connections on a network.
type API struct {
	Env     string       `json:"env,omitempty"`
	Threads [][]Req      `json:"threads,omitempty"`
	Pol     simrt.Policy `json:"pol"`
	Conns   []Conn       `json:"conns,omitempty"`
	Events  []Event      `json:"events,omitempty"`
	Seed    uint64       `json:"seed,omitempty"` // of the switches at yield points
	Gap     int          `json:"gap,omitempty"`
}

func init() {
	fw.Register(fw.Check{
		ID:     "C15",
		Rule:   "half of the runs: 2-6 threads that serve 1-8 requests each through the program's own server object, released one at a time by a seeded scheduler at statement granularity under the race detector (non-trivial: at least 3 switches). Half: the real main on a simulated network with 1-6 clients that send 1-8 requests each, whole, pipelined or in fragments, with half-closes, resets, stalled readers, garbage, accept errors, short reads, delays, and seeded switches between handlers at their statements; whenever everything waits, each client must have got exactly the responses of its complete requests (non-trivial: two clients and a network fault, or switches between handlers)",
		Real:   []string{"GoBCDiceAPI main, config, controllers, models, helpers, list", "echo framework, net/http server, encoding/json"},
		Stub:   []string{"network (listener, connections)", "clock (bubble of simulated time)", "thread scheduler", "package sync in the repository's code", "game systems in the list (simulated ones)", "log file (real file in a scratch directory)"},
		Assume: []string{"requests are well-formed HTTP/1.0 or 1.1 without upgrade and 100-continue", "the Go library and echo underneath are correct"},
		Chunk:  25, Quick: 800, Thorough: 20000, Race: true,
		Before: before,
	}, genC15, validC15, execC15)
}

func validC15(c *API) bool {
	if c.Env != "" && c.Env != "development" && c.Env != "production" || c.Gap < 0 {
		return false
	}
	if len(c.Threads) == 0 {
		return validConns(c.Conns, c.Events)
	}
	if len(c.Conns) > 0 || len(c.Events) > 0 || len(c.Threads) > 24 {
		return false
	}
	for _, t := range c.Threads {
		if len(t) > 120 {
			return false
		}
		for i := range t {
			if !t[i].valid() {
				return false
			}
		}
	}
	for _, s := range c.Pol.Replay {
		if s.To < 0 || s.To >= len(c.Threads) {
			return false
		}
	}
	return true
}

func genC15(r *fw.Rand, tier string) *API {
	c := &API{Env: r.Pick("", "development", "production")}
	same := r.P(0.3)
	path := r.Pick(routes...)
	req := func() Req {
		q := genReq(r)
		if same && r.P(0.8) {
			q.Path, q.Method = path, "GET"
		}
		return q
	}
	if simrt.RaceEnabled {
		per := r.PickInt(1, 2, 3, 5, 8)
		n := r.Range(2, 6)
		if r.P(0.03) {
			n, per = r.PickInt(8, 12, 20), r.PickInt(1, 2, 3)
		} else if r.P(0.03) {
			per = r.PickInt(20, 50, 100)
		}
		for ; n > 0; n-- {
			var t []Req
			for len(t) < per {
				t = append(t, req())
			}
			c.Threads = append(c.Threads, t)
		}
		c.Pol = simrt.Policy{Seed: r.U64(), Salt: r.U64() % 1000}
		if r.P(0.5) {
			c.Pol.Hot = true
			c.Pol.Gap = uint64(r.PickInt(1, 2, 4))
		} else {
			c.Pol.Gap = uint64(r.PickInt(1, 2, 4, 10, 30))
		}
		return c
	}
	c.Conns, c.Events = genConns(r, req, 6)
	if r.P(0.7) {
		c.Seed, c.Gap = r.U64(), r.PickInt(1, 2, 3, 10)
	}
	return c
}

func execC15(x *fw.Ctx, c *API) *fw.Violation {
	return bubble(x, func() *fw.Violation {
		s := start(x, c.Env)
		if v := s.failed(); v != nil {
			return v
		}
		if len(c.Threads) > 0 {
			return s.threads(x, c)
		}
		if !s.networked() {
			x.Probe("the program does not use the simulated network: its handlers are called directly")
			for i := range c.Conns {
				for j := range c.Conns[i].Reqs {
					q := &c.Conns[i].Reqs[j]
					if v := q.judgeRecorded(s.direct(q)); v != nil {
						return v
					}
				}
			}
			return nil
		}
		v := s.network(x, c)
		if v != nil {
			x.Note("the server's messages: %s", s.log.String())
		}
		return v
	})
}

// network lets the events happen.
func (s *server) network(x *fw.Ctx, c *API) *fw.Violation {
	a := newClients(s, c.Conns)
	simrt.SetJitter(c.Seed, uint64(c.Gap))
	for i := range c.Events {
		e := &c.Events[i]
		a.do(e)
		if e.Join && i+1 < len(c.Events) {
			continue
		}
		s.settle()
		if v := s.failed(); v != nil {
			return v
		}
		if v := a.check(); v != nil {
			v.Detail = fmt.Sprintf("after event %d (%s): %s", i, e.Do, v.Detail)
			return v
		}
		for i, k := range a.l {
			x.Ev("event %d: connection %d: sent %d answered %d", i, i, k.sent, k.answered)
		}
	}
	if v := a.finish(); v != nil {
		return v
	}
	switches := simrt.SetJitter(0, 0)
	// the server still serves
	last := newClients(s, []Conn{{Reqs: []Req{{Method: "GET", Path: "/"}, {Method: "GET", Path: "/v1/names"}}}})
	if v := last.finish(); v != nil {
		v.Detail = "new client at the end: " + v.Detail
		return v
	}
	if v := s.failed(); v != nil {
		return v
	}
	answers, active := 0, 0
	h := uint64(0)
	for i, k := range a.l {
		if k.c != nil {
			active++
			b, _ := k.c.received()
			x.Ev("connection %d: answered %d %s", i, k.answered, string(b))
			h = fw.Mix(h, fw.HashString(uint64(i), fmt.Sprint(k.sent, k.answered, k.reset, k.ended)))
		}
		answers += k.answered
	}
	x.Count("responses judged", answers)
	x.Count("switches between goroutines at statements", int(switches))
	x.Distinct("final states of the connections", h)
	if active >= 2 && (switches > 0 || len(c.Events) > 4) {
		x.NonTrivial()
	}
	return nil
}

// threads serves requests under the scheduler.
func (s *server) threads(x *fw.Ctx, c *API) *fw.Violation {
	n := len(c.Threads)
	outs := make([][]*httptest.ResponseRecorder, n)
	ps := make([]*fw.Panic, n)
	fns := make([]func(), n)
	for i := range fns {
		fns[i] = func() {
			ps[i] = fw.Catch(func() {
				for j := range c.Threads[i] {
					outs[i] = append(outs[i], s.direct(&c.Threads[i][j]))
				}
			})
		}
	}
	races := simrt.RaceErrors()
	simrt.SetBudget(2 * hc.Budget)
	rep, _ := simrt.Run(fns, c.Pol)
	simrt.SetBudget(0)
	x.Ev("yields %d switches %d hash %x deadlock %v", rep.Yields, rep.Switches, rep.Hash, rep.Deadlock)
	x.Count("yield points passed", int(rep.Yields))
	x.Count("thread switches", int(rep.Switches))
	x.Distinct("interleavings (hash of the switch sites and threads)", rep.Hash)
	if rep.Switches >= 3 {
		x.NonTrivial()
	}
	fix := func(v *fw.Violation) *fw.Violation {
		if !c.Pol.Fixed {
			c.Pol = simrt.Policy{Fixed: true, Replay: rep.Decisions, Salt: c.Pol.Salt}
		}
		return v
	}
	if rep.Deadlock {
		return fix(fw.V("deadlock", "no thread can run (after %d yield points)", rep.Yields))
	}
	for i, p := range ps {
		if p != nil {
			v, harness := fw.FromPanic(*p, nil)
			if harness != "" {
				panic(*p)
			}
			v.Detail = fmt.Sprintf("thread %d: %s", i, v.Detail)
			return fix(v)
		}
	}
	if d := simrt.RaceErrors() - races; d > 0 {
		if r := fw.RaceReport(); r != "" {
			return fix(fw.V("race", "data race: %s", r))
		}
		panic("data race outside the code under test")
	}
	for i := range outs {
		for j, w := range outs[i] {
			x.Ev("thread %d request %d: %d %s", i, j, w.Code, w.Body.String())
			if v := c.Threads[i][j].judgeRecorded(w); v != nil {
				v.Detail = fmt.Sprintf("thread %d request %d: %s", i, j, v.Detail)
				return fix(v)
			}
			x.Count("responses judged", 1)
		}
	}
	return nil
}
