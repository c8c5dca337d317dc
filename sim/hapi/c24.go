package hapi

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/labstack/echo"
	apimain "github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI"

	"verifsim/fw"
	"verifsim/hc"
	simecho "verifsim/shim/echo"
	"verifsim/simrt"
)

// Start is a process of the server with its environment and the fate of its listener.
type Start struct {
	Env    string  `json:"env,omitempty"`
	Port   string  `json:"port,omitempty"`
	Unset  bool    `json:"unset,omitempty"` // no PORT at all
	Conns  []Conn  `json:"conns,omitempty"`
	Events []Event `json:"events,omitempty"`
	Break  bool    `json:"break,omitempty"` // the listener fails for good
	At     int     `json:"at,omitempty"`    // after so many events
	Temp   int     `json:"temp,omitempty"`  // temporary failures right before
	Error  string  `json:"error,omitempty"`
	Seed   uint64  `json:"seed,omitempty"`
	Gap    int     `json:"gap,omitempty"`
}

var badPorts = []string{"abc", "70000", "65536", "-1", "80x", "8 0", ":80", "4000:", "999999999999999999999"}
var ports = []string{"", "4000", "1", "80", "443", "3000", "8080", "65535", "9", "10000", "04000"}

func (c *Start) bad() bool {
	for _, p := range badPorts {
		if p == c.Port && !c.Unset {
			return true
		}
	}
	return false
}

func init() {
	fw.Register(fw.Check{
		ID:     "C24",
		Rule:   "a process of its own of the real main with a drawn environment (ECHO_ENV and PORT absent, empty, usual, unusual or impossible) on the simulated network, 1-4 clients, temporary accept failures, and in half of the cases a listener that fails for good before, between or during the requests (closed, out of memory, network down); the address asked for, the answers before the failure, the files written, and the end of the program in a bounded simulated time after it are checked; non-trivial: a listener that failed or a port other than the default",
		Real:   []string{"GoBCDiceAPI main, config, controllers, models, helpers, list", "echo framework, net/http server"},
		Stub:   []string{"network (listener, connections)", "clock (bubble of simulated time)", "log file (real file in a scratch directory)"},
		Assume: []string{"a process that ends with a panic or a non-zero exit status has reported an error", "for impossible ports the operating system refuses the address without any network being there"},
		Chunk:  20, Quick: 240, Thorough: 8000,
		Before: before,
	}, genC24, validC24, execC24)
}

func validC24(c *Start) bool {
	for _, p := range []string{c.Env, c.Port} {
		if len(p) > 40 || strings.ContainsAny(p, "\x00") {
			return false
		}
	}
	ok := c.bad()
	for _, p := range ports {
		ok = ok || p == c.Port
	}
	if !ok || c.Unset && c.Port != "" || c.At < 0 || c.Temp < 0 || c.Temp > 6 || c.Gap < 0 {
		return false
	}
	if c.bad() {
		return !c.Break && len(c.Conns) == 0 && len(c.Events) == 0
	}
	return validConns(c.Conns, c.Events)
}

func genC24(r *fw.Rand, tier string) *Start {
	c := &Start{Env: r.Pick("", "", "development", "production", "production", "test", "staging", "Production", "PRODUCTION", "prod")}
	switch {
	case r.P(0.15):
		c.Unset = true
	case r.P(0.1):
		c.Port = r.Pick(badPorts...)
		return c
	default:
		c.Port = r.Pick(ports...)
	}
	c.Conns, c.Events = genConns(r, func() Req { return genReq(r) }, 4)
	if c.Break = r.P(0.5); c.Break {
		c.At = r.N(len(c.Events) + 2)
		c.Temp = r.PickInt(0, 0, 1, 3)
		c.Error = r.Pick("closed", "nomem", "down", "plain")
	}
	if r.P(0.5) {
		c.Seed, c.Gap = r.U64(), r.PickInt(1, 2, 3, 10)
	}
	return c
}

// permErr is a failure that does not go away.
type permErr string

func (e permErr) Error() string { return "simulated accept failure: " + string(e) }

func (c *Start) failure() error {
	switch c.Error {
	case "closed":
		return net.ErrClosed
	case "nomem":
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", errors.New("cannot allocate memory"))}
	case "down":
		return permErr("network is down")
	}
	return errors.New("simulated accept failure")
}

// Started is what the process has to say.
type Started struct {
	V       *fw.Violation `json:"v,omitempty"`
	Trace   []string      `json:"trace,omitempty"`
	Answers int           `json:"answers"`
	Ended   bool          `json:"ended"`
	Panic   string        `json:"panic,omitempty"`
	Plain   bool          `json:"plain,omitempty"` // no simulated network
	Sim     time.Duration `json:"sim"`
	// Counters are those of the process
	Counters map[string]int64 `json:"counters,omitempty"`
}

func execC24(x *fw.Ctx, c *Start) *fw.Violation {
	if fw.InFresh() {
		o := c.run(x)
		o.Counters = x.Counters()
		b, _ := json.Marshal(o)
		x.Answer = string(b)
		return nil
	}
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	restore := func(name string) func() {
		v, ok := os.LookupEnv(name)
		return func() {
			if ok {
				os.Setenv(name, v)
			} else {
				os.Unsetenv(name)
			}
		}
	}
	defer restore("ECHO_ENV")()
	defer restore("PORT")()
	os.Setenv("ECHO_ENV", c.Env)
	if c.Unset {
		os.Unsetenv("PORT")
	} else {
		os.Setenv("PORT", c.Port)
	}
	os.Setenv("SIM_C24_DIR", dir)
	defer os.Unsetenv("SIM_C24_DIR")
	a, err := x.Fresh(c)
	if err != nil {
		if !c.Break && !c.bad() {
			return fw.V("ended", "the server has ended, with ECHO_ENV %q and PORT %q: %s", c.Env, c.Port, hc.Short(err.Error()))
		}
		if !strings.Contains(err.Error(), "exit status") {
			return fw.V("silent-end", "the process has ended without an error although it could not listen (PORT %q, failure %q): %s", c.Port, c.Error, hc.Short(err.Error()))
		}
		x.Count("processes that ended themselves with an error", 1)
		x.NonTrivial()
		return nil
	}
	var o Started
	if err := json.Unmarshal([]byte(a), &o); err != nil {
		panic(err)
	}
	for _, t := range o.Trace {
		x.Ev("%s", t)
	}
	x.Sim(o.Sim)
	x.Add(o.Counters)
	x.Ev("answers %d ended %v panic %v", o.Answers, o.Ended, o.Panic != "")
	x.Count("responses judged", o.Answers)
	x.Distinct("environments and fates", fw.HashString(0, fmt.Sprint(c.Env, c.Port, c.Unset, c.Break, c.Error, min(c.At, 3), c.Temp)))
	if o.Plain {
		x.Probe("the program does not use the simulated network: only impossible ports are tried")
	}
	if c.Break {
		x.Fault("net:listener fails for good (" + c.Error + ")")
	}
	if c.bad() {
		x.Fault("net:impossible port")
	}
	if c.Break || c.bad() || c.Port != "" && c.Port != "4000" {
		x.NonTrivial()
	}
	if o.V != nil {
		return o.V
	}
	// only production writes to the disk
	if c.Env != "production" {
		var l []string
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				l = append(l, p[len(dir):])
			}
			return nil
		})
		if len(l) > 0 {
			return fw.V("stray-file", "with ECHO_ENV %q the server has written %q", c.Env, l)
		}
	}
	return nil
}

// run executes the process.
func (c *Start) run(x *fw.Ctx) *Started {
	o := &Started{}
	if d := os.Getenv("SIM_C24_DIR"); d != "" {
		os.Setenv("TMPDIR", d)
	}
	if c.bad() {
		// nothing of this waits for anything: the address is refused
		var e *echo.Echo
		simecho.Made = func(n *echo.Echo) {
			n.HideBanner, n.HidePort = true, true
			e = n
		}
		end := make(chan *fw.Panic, 1)
		go func() { end <- fw.Catch(apimain.SimMain) }()
		for i := 0; i < 1000; i++ {
			select {
			case p := <-end:
				o.Ended = true
				if p != nil {
					o.Panic = hc.Short(fmt.Sprint(p.Value))
				} else {
					o.V = fw.V("silent-end", "with PORT %q the program ends as if all were well", c.Port)
				}
				return o
			case <-time.After(20 * time.Millisecond):
			}
			if l := e; l != nil && l.Listener != nil && !reflect.ValueOf(l.Listener).IsNil() {
				break
			}
		}
		o.V = fw.V("no-end", "with PORT %q the program goes on", c.Port)
		return o
	}
	t := time.Duration(0)
	o.V = bubble(x, func() *fw.Violation {
		t0 := time.Now()
		defer func() { t = time.Since(t0) }()
		s := start(x, c.Env)
		if v := s.failed(); v != nil {
			return v
		}
		if !s.networked() {
			o.Plain = true
			return nil
		}
		want := c.Port
		if want == "" {
			want = "4000"
		}
		addr := s.e.Server.Addr
		if s.addr != "" {
			addr = s.addr
		}
		if addr == "" {
			addr = ":" + want // asked for in another way
		}
		if h, p, err := net.SplitHostPort(addr); err != nil || strings.TrimLeft(p, "0") != strings.TrimLeft(want, "0") {
			return fw.V("wrong-port", "with PORT %q (set: %v) and ECHO_ENV %q the server listens on %q, it should be port %s", c.Port, !c.Unset, c.Env, addr, want)
		} else if ip := net.ParseIP(h); h != "" && (ip == nil || !ip.IsUnspecified()) {
			return fw.V("wrong-port", "the server listens on %q only", addr)
		}
		a := newClients(s, c.Conns)
		simrt.SetJitter(c.Seed, uint64(c.Gap))
		defer simrt.SetJitter(0, 0)
		broken := false
		fail := func() {
			broken = true
			if c.Temp > 0 {
				s.net.failNext(c.Temp)
			}
			s.net.failWith(c.failure())
		}
		for i := range c.Events {
			if c.Break && i == c.At {
				s.settle()
				fail()
				break
			}
			e := &c.Events[i]
			a.do(e)
			if e.Join && i+1 < len(c.Events) {
				continue
			}
			s.settle()
			if v := s.failed(); v != nil {
				return v
			}
			if v := a.check(); v != nil {
				v.Detail = fmt.Sprintf("after event %d (%s): %s", i, e.Do, v.Detail)
				return v
			}
		}
		if !c.Break || !broken && c.At > len(c.Events) {
			if v := a.finish(); v != nil {
				return v
			}
			if v := s.failed(); v != nil {
				return v
			}
		}
		for i, k := range a.l {
			o.Answers += k.answered
			o.Trace = append(o.Trace, fmt.Sprintf("connection %d: sent %d answered %d", i, k.sent, k.answered))
		}
		if !c.Break {
			return nil
		}
		if !broken {
			fail()
		}
		time.Sleep(5 * time.Minute)
		s.settle()
		o.Ended = s.ended
		switch {
		case !s.ended:
			return fw.V("no-end", "five minutes after its listener failed for good (%v) the program goes on", c.failure())
		case s.p == nil:
			return fw.V("silent-end", "after its listener failed for good (%v) the program ends as if all were well", c.failure())
		}
		o.Panic = hc.Short(fmt.Sprint(s.p.Value))
		// a panic of the error itself, not of broken code
		if err, ok := s.p.Value.(interface{ RuntimeError() }); ok {
			return fw.V("panic", "after its listener failed the program panics: %v", err)
		}
		return nil
	})
	o.Sim = t
	return o
}
