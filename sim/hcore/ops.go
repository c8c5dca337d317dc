// Package hcore holds the checks of the library: sessions, die sources, game systems,
// concurrency, and the test-data loader and runner.
package hcore

import (
	"fmt"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

// Op is one step of a history.
type Op struct {
	S      int        `json:"s,omitempty"`   // session
	Do     string     `json:"do,omitempty"`  // "" execute a command; source, game, scribble, churn
	Cmd    *model.Cmd `json:"cmd,omitempty"` // the command
	Raw    fw.Text    `json:"raw,omitempty"` // or a text that is no command
	Script hc.Script  `json:"script"`        // its dice
	Faults []hc.Fault `json:"faults,omitempty"`
	Source string     `json:"source,omitempty"` // for source: sim, queue, mt
	Seed   int64      `json:"seed,omitempty"`
	Short  int        `json:"short,omitempty"` // dice missing from a queue
	Arg    string     `json:"arg,omitempty"`   // game system to select
	Pre    string     `json:"pre,omitempty"`   // prefix of a game system that executes the command itself
	Rep    int        `json:"rep,omitempty"`   // how many times more the command is executed; for churn, the number of different commands
	Via    string     `json:"via,omitempty"`   // "" for any command; basic or bot: given to the basic commands or the game system directly
}

func (o *Op) Text() string {
	switch {
	case o.Via == "basic" && o.Cmd != nil:
		return o.Cmd.Body()
	case o.Via == "bot" && o.Cmd != nil:
		return firstWord.FindString(o.Pre + o.Cmd.Body())
	case o.Via == "bot":
		return firstWord.FindString(string(o.Raw))
	case o.Cmd != nil:
		return o.Cmd.Secret + o.Pre + o.Cmd.Body() + string(o.Cmd.Comment)
	}
	return string(o.Raw)
}

// Hist is a history of operations on some sessions.
type Hist struct {
	N   int  `json:"n"` // sessions
	Ops []Op `json:"ops"`
	// Shared: all sessions draw from one source
	Shared bool `json:"shared,omitempty"`
}

func validOps(ops []Op, n int) bool {
	if n < 1 || n > 8 || len(ops) > 1500 {
		return false
	}
	for i := range ops {
		o := &ops[i]
		if o.S < 0 || o.S >= n {
			return false
		}
		if o.Cmd != nil && !o.Cmd.Valid() {
			return false
		}
		if o.Rep < 0 || o.Rep > 200000 {
			return false
		}
		if o.Do == "" && o.Cmd == nil && o.Raw == "" {
			return false
		}
		if o.Via != "" && o.Via != "basic" && o.Via != "bot" || o.Via == "basic" && o.Pre != "" {
			return false
		}
		if o.Do == "source" && o.Source != "sim" && o.Source != "queue" && o.Source != "mt" {
			return false
		}
		for _, f := range o.Faults {
			if !f.Valid() {
				return false
			}
		}
	}
	return true
}

func validHist(h *Hist) bool { return validOps(h.Ops, h.N) }

var junk = []string{
	"", " ", "S", "s", "hello", "2D", "D6", "2D6+", "(2D6", "2D6)", "B", "1B6[", "2R6[", "2U6[5", "CHOICE", "CHOICE[]", "C()", "C(1", "1D6>", "1D6=>3",
	"S2D", "SS2D6x", "2D6>=(1", "あ", "ダイス", "\x00", "2D6\x00", "99999999999999999999D6", "0x1D6", "[1...3]D", "[3...1]", "1+1", "1D6 + 1D6+", "CHOICE[a", "1B6+2D6", "2D6,3", "1U6[]", "1D6[3]", "C(1D6)", "choice[,]", "1R6[2]+3", "+", "-1", "1d6/0q",
	// what users of other dice bots write
	"x2 2D6", "3#1D6", "rep2 1D6", "repeat2 2D6", "x3", "2D6;1D6", "1D%", "D66", "4DF", "4D6KH3", "4D6DL1", "1d20adv", "!2D6", "/r 2D6", "/2D6", "#2D6", "2d6!", "２D６", "2Ｄ6", "1D6||C(1)", "%dD6", "${x}", "2D6\\", "\ufeff2D6", "d20", "1D6±1", "C(2^3)", "C(7%3)", "C(1.5)", "2D6+1.5", "2D6>=?", "2D6=>7", "2D6≧7", "1e3D6", "1_0D6", "2D6@5", "3B6@4", "2d",
}

// session is a session of the library on a recorded die source.
type session struct {
	b *bcdice.BCDice
	f *hc.Feeder
	q *feeder.Queue
}

func newSession(x *fw.Ctx) *session {
	s := &session{f: hc.NewFeeder(x)}
	s.b = bcdice.New(s.f)
	return s
}

// source replaces the session's die source.
func (s *session) source(x *fw.Ctx, o *Op) {
	f := hc.NewFeeder(x)
	s.q = nil
	switch o.Source {
	case "queue":
		s.q = feeder.NewEmptyQueue()
		f.Inner = s.q
	case "mt":
		f.Inner = feeder.NewMT19937(o.Seed)
	}
	s.f = f
	s.b.SetDieFeeder(f)
	x.Count("source:"+o.Source, 1)
}

// repeat executes the command again, very often, and compares the answers with the first one.
func (s *session) repeat(x *fw.Ctx, o *Op, got hc.Snapshot) *fw.Violation {
	n, failed := len(s.f.Log), s.f.Failed
	if s.q == nil && s.f.Inner != nil && o.Rep > 0 {
		// a random source goes on: the repetitions are given the dice of the first execution
		log, inner := append([]hc.Draw{}, s.f.Log...), s.f.Inner
		defer func() { s.f.Inner = inner }()
		s.f.Inner = &replaySource{log: log}
	}
	for k := 0; k < o.Rep; k++ {
		s.prepare(o)
		if r, ok := s.f.Inner.(*replaySource); ok {
			r.i = 0
		}
		res, err := hc.ExecVia(s.b, o.Via, o.Text())
		if again := hc.Snap(res, err); !again.Equal(got) || len(s.f.Log) != n || s.f.Failed != failed {
			return fw.V("not-a-function", "%q (dice %s, faults %v) executed for the %dth time in a row answers %s (%d draws); the first answer was %s (%d draws)", hc.Short(o.Text()), hc.DiceText(s.f.Delivered()), o.Faults, k+2, again, len(s.f.Log), got, n)
		}
	}
	if o.Rep > 0 {
		x.Count("commands repeated at once", o.Rep)
	}
	return nil
}

// churn executes many different commands, each with its own dice, and compares the answers
// with the model: the first one that differs is returned with what it answered.
func (s *session) churn(x *fw.Ctx, o *Op, game string) (*fw.Violation, Op, string) {
	for k := 0; k < o.Rep; k++ {
		c := churnOp(o, k)
		s.prepare(&c)
		res, err := hc.Exec(s.b, c.Text())
		if want, _, known := expect(game, &c); known && s.q == nil && s.f.Inner == nil {
			if got := hc.Snap(res, err); !want.Equal(got) {
				return fw.V("history-dependent", "%q, the %dth different command in a row, answers %s, it should answer %s", c.Text(), k+1, got, want), c, answerText(got, len(s.f.Log))
			}
		}
	}
	x.Count("different commands in a row", o.Rep)
	return nil, Op{}, ""
}

func churnOp(o *Op, k int) Op {
	m := int(uint64(o.Seed)%1000) + k
	c := Op{S: o.S, Script: hc.Script{Seed: uint64(m)}}
	switch m % 4 {
	case 0:
		c.Cmd = &model.Cmd{Kind: "calc", Expr: &model.E{K: "+", L: model.I(m), R: model.I(1)}}
	case 1:
		c.Cmd = &model.Cmd{Kind: "D", Expr: &model.E{K: "D", L: model.I(1), R: model.I(m + 1)}}
	case 2:
		c.Cmd = &model.Cmd{Kind: "choice", Items: []string{fmt.Sprint("a", m), "b"}}
	default:
		c.Cmd = &model.Cmd{Kind: "B", Rolls: []model.Roll{{Num: model.I(2), Sides: model.I(m + 5)}}}
	}
	if m%5 == 0 {
		c.Cmd.Secret = "S"
	}
	return c
}

// prepare fills a queue with the dice the command will need.
func (s *session) prepare(o *Op) {
	s.f.Begin(o.Script, o.Faults)
	if s.q == nil {
		return
	}
	var ds []dice.Die
	if o.Cmd != nil {
		n := 0
		o.Cmd.Eval(func(sides int) (int, error) {
			if n >= 60000 {
				return 0, model.ErrDraw
			}
			v := o.Script.Value(n, sides)
			n++
			ds = append(ds, dice.Die{Value: v, Sides: sides})
			return v, nil
		})
	}
	if o.Short > 0 {
		k := o.Short
		if k > len(ds) {
			k = len(ds)
		}
		ds = ds[:len(ds)-k]
	}
	s.q.Set(ds)
}

// do executes the command of an operation and checks the form of the answer.
func (s *session) do(x *fw.Ctx, i int, o *Op) (*command.Result, error) {
	s.prepare(o)
	var res *command.Result
	var err error
	res, err = hc.ExecVia(s.b, o.Via, o.Text())
	switch o.Via {
	case "basic":
		x.Count("commands given to the basic commands directly", 1)
	case "bot":
		x.Count("commands given to the game system directly", 1)
	}
	x.Count("commands", 1)
	x.Count("draws", len(s.f.Log))
	snap := hc.Snap(res, err)
	snap.Ev(x, fmt.Sprintf("%d: session %d %q", i, o.S, hc.Short(o.Text())))
	if x.Tracing() {
		x.Note("drawn %s faults %v", hc.DiceText(s.f.Delivered()), o.Faults)
	}
	return res, err
}

// genOp draws a command with its dice; limit bounds the number of dice.
func genOp(r *fw.Rand, cfg *model.GenCfg, limit int) Op {
	for {
		o := Op{Cmd: cfg.Cmd(r), Script: hc.NewScript(r)}
		if o.Script.Endless() && r.P(0.9) {
			o.Script.Mode = "hi"
		}
		if r.P(cfg.Comment * 0.15) {
			o.Cmd.Comment = fw.Text(r.Pick(oddComments...))
		}
		if draws(&o, limit) >= 0 {
			return o
		}
		o.Script.Mode, o.Script.Len = "", 0
		if draws(&o, limit) >= 0 {
			return o
		}
	}
}

// oddComments begin with a blank of some kind; what follows is no UTF-8, a further line, or blanks.
var oddComments = []string{" \xff", "\t\x80x", " \xe3\x81", " 2D6\xff", "\n", "\n2D6", "\r\n", "\r", "\f", "\fx", " \x00", " \ufffd", " \n2D6", "\n\n", "  \t \r\n ", " \U0010ffff", "\n\xff"}

// draws is how many dice the model draws for the operation, or -1 if more than limit.
func draws(o *Op, limit int) int {
	n := 0
	_, err := o.Cmd.Eval(func(sides int) (int, error) {
		if n >= limit {
			return 0, model.ErrDraw
		}
		n++
		return o.Script.Value(n-1, sides), nil
	})
	if err == model.ErrDraw {
		return -1
	}
	return n
}

// many draws a number at which something that counts may overflow, fill up or wrap around.
func many(r *fw.Rand) int {
	n := r.PickInt(60, 60, 101, 101, 101, 130, 130, 257, 257, 300, 515, 1001, 1030, 2050, 4100)
	if r.P(0.05) {
		n = r.PickInt(8200, 10010, 16390, 33000, 66000)
	}
	return n
}

// often is how often a command is repeated: some take the parser long.
func often(r *fw.Rand, o *Op) int {
	n := many(r)
	if t := o.Text(); len(t) > 9 || strings.Count(t, "(") > 0 {
		n = min(n, 1030)
	}
	return n
}
