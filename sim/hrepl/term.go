// Package hrepl holds the checks of the REPL: the real REPL on the real line reader, on a
// simulated terminal inside a bubble with a simulated clock.
package hrepl

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chzyer/readline"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/simrt"
)

// WFault is a fault of the output: it concerns the writes From to From+N-1 (counted from the
// first response).
type WFault struct {
	From int    `json:"from"`
	N    int    `json:"n"`
	Kind string `json:"kind"` // err: nothing is written; short: part is written, with an error
	Keep int    `json:"keep,omitempty"`
}

// keyboard is the simulated standard input. Read blocks until the simulation sends something.
type keyboard struct {
	ch      chan []byte
	rest    []byte
	eof     bool
	waiting bool
	closed  bool
	reads   int
}

func (k *keyboard) Read(p []byte) (int, error) {
	if len(k.rest) == 0 {
		if k.eof {
			return 0, io.EOF
		}
		k.waiting = true
		b, ok := <-k.ch
		k.waiting = false
		if !ok {
			k.eof = true
			return 0, io.EOF
		}
		k.rest = b
	}
	k.reads++
	n := copy(p, k.rest)
	k.rest = k.rest[n:]
	return n, nil
}

func (k *keyboard) Close() error { return nil }

// screen is the simulated output of the REPL.
type screen struct {
	x      *fw.Ctx
	b      bytes.Buffer
	faults []WFault
	writes int
	armed  bool
	fired  int
}

var errScreen = errors.New("simulated output failure")

func (s *screen) Write(p []byte) (int, error) {
	if s.armed {
		i := s.writes
		s.writes++
		for _, f := range s.faults {
			if i < f.From || i >= f.From+f.N {
				continue
			}
			s.fired++
			s.x.Fault("output:" + f.Kind)
			n := 0
			if f.Kind == "short" {
				n = f.Keep
				if n > len(p) {
					n = len(p) / 2
				}
			}
			s.b.Write(p[:n])
			return n, errScreen
		}
	}
	return s.b.Write(p)
}

// nowhere takes what the line reader echoes.
type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }
func (nowhere) Close() error                { return nil }

// Session is a run of the REPL under the simulation.
type Session struct {
	x    *fw.Ctx
	kb   *keyboard
	out  *screen
	ref  *Ref
	done bool
	p    *fw.Panic
}

// alive is the number of steps the REPL may take for one delivery.
const alive = hc.Budget

// send delivers bytes (nil: end of input) and lets everything run until it waits again. It
// returns what was printed.
func (s *Session) send(b []byte, eof bool) string {
	s.out.b.Reset()
	simrt.SetBudget(alive)
	switch {
	case s.kb.closed:
	case eof:
		s.kb.closed = true
		close(s.kb.ch)
	default:
		// nobody may be reading any more
		select {
		case s.kb.ch <- append([]byte{}, b...):
		default:
		}
	}
	synctest.Wait()
	simrt.SetBudget(0)
	return s.out.b.String()
}

// start makes the REPL and lets it run up to its first read.
func (s *Session) start() {
	s.ref = newRef()
	go func() {
		s.p = fw.Catch(s.run)
		s.done = true
	}()
	simrt.SetBudget(alive)
	synctest.Wait()
	simrt.SetBudget(0)
	s.out.armed = true
}

// prepareHistory makes the history file one of the kinds of the simulated disk.
func prepareHistory(kind string) (undo func()) {
	undo = func() {}
	const name = "GoBCDiceREPL_history.txt"
	switch kind {
	case "dir":
		os.Mkdir(name, 0777)
	case "dangling":
		os.Symlink("missing/dir/history", name)
	case "long":
		os.WriteFile(name, []byte(strings.Repeat("2D6\n.set-game X\n", 800)), 0666)
	case "garbage":
		os.WriteFile(name, []byte("\xff\xfe\x00\x01 .q\n.quit\n\n\n2D6\r\n"+strings.Repeat("あ", 3000)+"\x80"), 0666)
	case "commands":
		os.WriteFile(name, []byte(".q\n.set-die-feeder queue\n.set-dice-queue 1/6\n.quit\n"), 0666)
	case "gone":
		d, _ := os.Getwd()
		os.RemoveAll(d)
	case "full", "torn":
		// files cannot grow beyond the limit: writing fails, or stops in the middle
		var old syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
			return
		}
		n := uint64(0)
		if kind == "torn" {
			n = 13
		}
		signal.Ignore(syscall.SIGXFSZ)
		if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}) != nil {
			return
		}
		undo = func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
	}
	return
}

var historyKinds = []string{"", "dir", "dangling", "long", "garbage", "commands", "gone", "full", "torn"}

var warm bool

// simulate runs f on a REPL session in a bubble, in a working directory of its own.
func simulate(x *fw.Ctx, history string, faults []WFault, f func(s *Session) *fw.Violation) (v *fw.Violation) {
	if !warm {
		// the line reader's window-size watcher lives as long as the process
		readline.DefaultOnWidthChanged(func() {})
		warm = true
	}
	home, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "repl")
	if err != nil {
		panic(err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	undo := prepareHistory(history)
	if history != "" {
		x.Fault("history:" + history)
	}
	s := &Session{x: x, kb: &keyboard{ch: make(chan []byte)}, out: &screen{x: x, faults: faults}}
	var hp *fw.Panic
	func() {
		defer func() {
			undo()
			s.leave()
			simrt.SetBudget(0)
			os.Chdir(home)
			os.RemoveAll(dir)
			// goroutines of the line reader outlive it; they wait for ever
			if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "deadlock: main bubble goroutine has exited") {
				hp = &fw.Panic{Value: r, Stack: debug.Stack()}
			}
		}()
		defer simrt.EnterBubble()()
		synctest.Test(x.T, func(t *testing.T) {
			s.kb.ch = make(chan []byte)
			readline.Stdin, readline.Stdout, readline.Stderr = s.kb, nowhere{}, nowhere{}
			t0 := time.Now()
			hp = fw.Catch(func() {
				s.start()
				v = f(s)
			})
			x.Sim(time.Since(t0))
			if !s.done {
				s.send(nil, true)
			}
		})
	}()
	if s.p != nil {
		panic(*s.p)
	}
	if hp != nil {
		panic(*hp)
	}
	return v
}
