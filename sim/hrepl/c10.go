package hrepl

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verifsim/fw"
	"verifsim/hc"
)

var components = []string{"GoBCDiceREPL main, REPL, line reader (github.com/chzyer/readline: input decoding, line buffer, history), bcdice sessions and all of the library below them, game-system list, die sources"}
var stubs = []string{"terminal input and output, wall clock and timers (a testing/synctest bubble), working directory (scratch)", "game systems Alpha, beta, Zeta, Cthulhu, Silent, Over (registered through the overlay)"}

// Lines is a dialogue of whole lines.
type Lines struct {
	Lines []fw.Text `json:"lines"`
	// Tick is how many milliseconds pass between the lines.
	Tick int `json:"tick,omitempty"`
}

func before(x *fw.Ctx) {
	hc.RegisterGames()
	// the arguments are the worker's
	os.Args = os.Args[:1:1]
}

func init() {
	fw.Register(fw.Check{
		ID:   "C10",
		Rule: "a dialogue of 5-60 lines typed one at a time into the real REPL: BCDice commands of every kind with and without the dice they need, game systems, die feeders, dice queues (well-formed, short, with wrong sides, malformed), rolls, trees, listings, help, blank lines, damaged and unknown commands, lines cancelled by ^C; after each line the output must be the response of a sequential reference built from fresh library sessions, and a probe line after it the response in that state; non-trivial: at least 3 commands evaluated, 2 changes of state and 1 refused line",
		Real: components, Stub: stubs,
		Assume: []string{"line editing keys, tabs, NUL and ideographic spaces after a REPL command's name are not typed", "random dice are those of a random source seeded from the same clock"},
		Chunk:  60, Quick: 180, Thorough: 20000,
		Before: before,
	}, genC10, validLines, execC10)
}

func genC10(r *fw.Rand, tier string) *Lines {
	c := &Lines{Tick: r.PickInt(0, 0, 1, 1000, 61e3, 3601e3, 90e6, 800e6)}
	w := newWriter(r)
	n := r.Range(5, 60)
	if r.P(0.012) {
		n = r.PickInt(130, 300, 520, 700, 1100)
	}
	for len(c.Lines) < n {
		for _, l := range w.lines() {
			if r.P(0.04) {
				l = r.Pick("2D6", ".set-die-feeder queue", "あ", "x", ".set-game Alpha") + "\x03" + l
			}
			if r.P(0.02) && l != "" {
				l += "\x04"
			}
			if r.P(0.02) {
				l = "\x1a" + l
			}
			if validKeys(l, false) {
				c.Lines = append(c.Lines, fw.Text(l))
			}
		}
	}
	return c
}

func validLines(c *Lines) bool {
	if len(c.Lines) == 0 || len(c.Lines) > 1300 || c.Tick < 0 || c.Tick > 1e9 {
		return false
	}
	for _, l := range c.Lines {
		if !validKeys(string(l), false) {
			return false
		}
	}
	return true
}

// talk types the lines one at a time and compares every response.
func talk(x *fw.Ctx, s *Session, ref *Ref, lines []fw.Text, tick int, each func(i int, line, got string) *fw.Violation) *fw.Violation {
	a := &asm{}
	for i, l := range lines {
		if tick > 0 {
			time.Sleep(time.Duration(tick) * time.Millisecond)
		}
		typed := a.feed([]byte(string(l) + "\n"))
		for k, c := range map[string]string{"terminal:^C cancels a line": "\x03", "terminal:^D inside a line": "\x04", "terminal:^Z": "\x1a"} {
			if strings.Contains(string(l), c) {
				x.Fault(k)
			}
		}
		got := s.send([]byte(string(l)+"\n"), false)
		var want reply
		ended := a.over
		for _, line := range typed {
			want = ref.Line(line)
			ended = ended || ref.Ended
			x.Ev("%d: %q -> %q", i, short(line), short(got))
			if each != nil {
				if v := each(i, line, got); v != nil {
					return v
				}
			}
		}
		if !ref.matches(got, want) {
			w := want.text
			if want.help {
				w = "the help text"
			}
			class := "wrong-response"
			if strings.Contains(w, "[secret]") != strings.Contains(got, "[secret]") {
				class = "wrong-secret-mark"
			}
			return fw.V(class, "line %d %q (game system %s, dice queue %v %v): the REPL printed %q, it should print %q", i, short(string(l)), ref.Game, ref.Queue, ref.Dice, short(got), short(w))
		}
		if ended {
			return nil
		}
		if s.done {
			return fw.V("ended", "line %d %q ended the REPL", i, short(string(l)))
		}
		if !s.kb.waiting {
			return fw.V("not-ready", "after line %d %q the REPL does not wait for the next line", i, short(string(l)))
		}
		x.Distinct("state x kind of response", fw.HashString(0, fmt.Sprint(ref.Game, ref.Queue, len(ref.Dice), kindOf(got))))
	}
	return nil
}

func kindOf(out string) string {
	switch {
	case strings.HasPrefix(out, header+secretMsg):
		return "secret"
	case strings.HasPrefix(out, header):
		return "result"
	case out == okText:
		return "ok"
	case strings.HasPrefix(out, "\x1b[31m"):
		return "error"
	case strings.HasPrefix(out, "使用法"):
		return "usage"
	case out == "":
		return "nothing"
	}
	return "other"
}

func execC10(x *fw.Ctx, c *Lines) *fw.Violation {
	var ref *Ref
	v := simulate(x, "", nil, func(s *Session) *fw.Violation {
		ref = s.ref
		return talk(x, s, ref, c.Lines, c.Tick, nil)
	})
	x.Count("lines", len(c.Lines))
	for k, n := range ref.DiceFaults {
		for ; n > 0; n-- {
			x.Fault(k)
		}
	}
	x.Count("commands evaluated", ref.Evals)
	x.Count("changes of state", ref.Changes)
	x.Count("refused lines", ref.Errors)
	if ref.Evals >= 3 && ref.Changes >= 2 && ref.Errors >= 1 {
		x.NonTrivial()
	}
	return v
}
