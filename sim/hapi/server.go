package hapi

import (
	"bytes"
	"fmt"
	"io"
	stdlog "log"
	"net"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/labstack/echo"
	"github.com/labstack/echo/middleware"

	apimain "github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI"

	"verifsim/fw"
	"verifsim/hc"
	simecho "verifsim/shim/echo"
	simnet "verifsim/shim/net"
	simos "verifsim/shim/os"
	"verifsim/simrt"
)

// logbuf keeps what the server says about errors, for the reader of a replay.
type logbuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logbuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *logbuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// server is a run of the program under the simulation.
type server struct {
	x     *fw.Ctx
	e     *echo.Echo
	net   *network
	log   logbuf
	ended bool
	p     *fw.Panic
	ports int
	addr  string // the program made its listener itself, on this address
}

// production: this process was started with the production environment, which is not touched.
var production = os.Getenv("ECHO_ENV") == "production"

// start runs the program until it waits for connections. It must be called in a bubble.
func start(x *fw.Ctx, env string) *server {
	s := &server{x: x, net: newNetwork(), ports: 10000}
	if env != os.Getenv("ECHO_ENV") {
		os.Setenv("ECHO_ENV", env)
	}
	if simrt.SetEnvironment != nil && !production {
		simrt.SetEnvironment(env)
	}
	simecho.Made = func(e *echo.Echo) {
		e.HideBanner, e.HidePort = true, true
		e.Logger.SetOutput(&s.log)
		e.StdLogger = stdlog.New(&s.log, "", 0)
		e.Listener = s.net
		s.e = e
	}
	simnet.Simulated = func(network, address string) (net.Listener, error) {
		s.addr = address
		return s.net, nil
	}
	simrt.SetBudget(hc.Budget)
	go func() {
		s.p = fw.Catch(apimain.SimMain)
		s.ended = true
	}()
	s.settle()
	return s
}

// failed reports why the program does not serve.
func (s *server) failed() *fw.Violation {
	switch {
	case s.p != nil:
		v, harness := fw.FromPanic(*s.p, nil)
		if v == nil {
			panic(harness)
		}
		return v
	case s.ended:
		return fw.V("ended", "the server has ended")
	case s.e == nil:
		panic("the program makes no server the simulator knows of")
	}
	return nil
}

// networked reports whether the program takes its connections from the simulated network.
func (s *server) networked() bool { return s.net.accept > 0 }

// settle lets everything run until it waits.
func (s *server) settle() {
	simrt.SetBudget(hc.Budget)
	synctest.Wait()
	simrt.SetBudget(0)
}

func (s *server) dial(from int) *end {
	s.ports++
	a := addrs[from]
	a.Port = s.ports
	return s.net.dial(&a)
}

// direct has a request served without a network.
func (s *server) direct(q *Req) *httptest.ResponseRecorder {
	w := httptest.NewRecorder()
	r := httptest.NewRequest(q.Method, q.target(), strings.NewReader(strings.Repeat("b", q.Body)))
	a := addrs[q.Host%len(addrs)]
	a.Port = 9
	r.RemoteAddr = a.String()
	r.Host = hosts[q.Host]
	if q.Agent != "" {
		r.Header.Set("User-Agent", string(q.Agent))
	}
	s.e.ServeHTTP(w, r)
	return w
}

func (q *Req) judgeRecorded(w *httptest.ResponseRecorder) *fw.Violation {
	return q.judge(w.Code, w.Header().Get("Content-Type"), w.Body.Bytes())
}

// bubble runs f inside a bubble of simulated time. What f leaves behind waits for ever.
func bubble(x *fw.Ctx, f func() *fw.Violation) (v *fw.Violation) {
	var hp *fw.Panic
	func() {
		defer func() {
			simrt.SetBudget(0)
			simrt.SetJitter(0, 0)
			simecho.Made = nil
			simnet.Simulated = nil
			if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "deadlock: main bubble goroutine has exited") {
				hp = &fw.Panic{Value: r, Stack: debug.Stack()}
			}
		}()
		defer simrt.EnterBubble()()
		synctest.Test(x.T, func(t *testing.T) {
			t0 := time.Now()
			hp = fw.Catch(func() { v = f() })
			x.Sim(time.Since(t0))
		})
	}()
	if hp != nil {
		panic(*hp)
	}
	return v
}

func before(x *fw.Ctx) {
	fw.OneP()
	hc.RegisterGames()
	// the arguments are the worker's
	os.Args = os.Args[:1:1]
	simos.Args = []string{"GoBCDiceAPI"}
	middleware.DefaultLoggerConfig.Output = io.Discard
}
