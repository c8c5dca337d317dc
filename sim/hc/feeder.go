// Package hc holds what the harnesses share: the simulated die source with its faults, the
// recorder, and the comparison of real answers with the reference model.
package hc

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"

	"verifsim/fw"
	"verifsim/model"
	"verifsim/simrt"
)

// Script decides the dice of one command.
type Script struct {
	Seed uint64 `json:"seed,omitempty"`
	Mode string `json:"mode,omitempty"` // "": random, min, max, hi (mostly high), alt
	Vals []int  `json:"vals,omitempty"` // the first dice
	// a streak of highest values
	From int `json:"from,omitempty"`
	Len  int `json:"len,omitempty"`
}

// Value is the i-th die when it has that many sides.
func (s *Script) Value(i, sides int) int {
	if sides < 1 {
		return 1
	}
	if s.Len > 0 && i >= s.From && i < s.From+s.Len {
		return sides
	}
	if i < len(s.Vals) {
		v := s.Vals[i]
		if v < 1 {
			v = 1
		}
		return 1 + (v-1)%sides
	}
	h := fw.Mix(s.Seed, uint64(i))
	switch s.Mode {
	case "min":
		return 1
	case "max":
		return sides
	case "hi":
		if h%4 != 0 {
			return sides
		}
		h = h >> 3
	case "alt":
		if i%2 == 0 {
			return sides
		}
		return 1
	}
	return 1 + int((h>>1)%uint64(sides))
}

// NewScript draws a script.
func NewScript(r *fw.Rand) Script {
	s := Script{Seed: r.U64()}
	switch r.Weighted(10, 1, 1, 2, 1, 2) {
	case 1:
		s.Mode = "min"
	case 2:
		s.Mode = "max"
	case 3:
		s.Mode = "hi"
	case 4:
		s.Mode = "alt"
	case 5:
		s.From, s.Len = r.N(4), r.Range(1, 12)
	}
	return s
}

// Capped limits scripts that would make exploding dice go on for ever.
func (s Script) Endless() bool { return s.Mode == "max" || s.Len > 1000 }

// Fault makes the draw At of an operation fail.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`          // err, errdie, sides, zero, neg, over, dead
	Err  string `json:"err,omitempty"` // which error value
}

// NewFault draws a fault of the given draw.
func NewFault(r *fw.Rand, at int) Fault {
	f := Fault{At: at, Kind: r.Pick(FaultKinds...)}
	if f.fails() && r.P(0.6) {
		f.Err = r.Pick(errNames...)
	}
	return f
}

func (f *Fault) fails() bool { return f.Kind == "err" || f.Kind == "errdie" || f.Kind == "dead" }

// Valid reports whether the fault is one the feeder knows.
func (f *Fault) Valid() bool {
	_, known := errValues[f.Err]
	ok := false
	for _, k := range FaultKinds {
		ok = ok || k == f.Kind
	}
	return ok && f.At >= 0 && (f.Err == "" || known)
}

// errValues are errors a die source may answer with: a file at its end, a service that does
// not answer, a source that has been closed.
var errValues = map[string]error{
	"eof": io.EOF, "unexpected eof": io.ErrUnexpectedEOF, "wrapped eof": fmt.Errorf("die source: %w", io.EOF), "short": io.ErrShortBuffer, "no progress": io.ErrNoProgress,
	"canceled": context.Canceled, "timeout": os.ErrDeadlineExceeded, "closed": os.ErrClosed, "temporary": &net.OpError{Op: "read", Net: "tcp", Err: temporary{}}, "permission": os.ErrPermission, "again": syscall.EAGAIN, "intr": syscall.EINTR,
	"empty text": errors.New(""), "queue": errors.New("取り出せるダイスがありません"), "division": errors.New("1 divided by zero"), "number": strconv.ErrRange,
	"typed nil": (*nilError)(nil), "percent": errors.New("%d %s%%"),
}

var errNames = func() (n []string) {
	for k := range errValues {
		n = append(n, k)
	}
	sort.Strings(n)
	return
}()

type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

type nilError struct{}

func (*nilError) Error() string { return "no source" }

func (f *Fault) err() error {
	if e := errValues[f.Err]; e != nil {
		return e
	}
	return ErrSource
}

var FaultKinds = []string{"err", "errdie", "sides", "zero", "neg", "over", "dead"}

// Draw is one request to a die source and what it delivered.
type Draw struct {
	Sides int
	Die   dice.Die
	Err   bool
	Bad   bool // a fault: error, wrong sides or value out of range
}

// Feeder is a die source that records its draws. It delivers from the inner source, or from
// the script if there is none, and injects the faults.
type Feeder struct {
	X        *fw.Ctx
	Inner    feeder.DieFeeder
	Script   Script
	Faults   []Fault
	Log      []Draw
	Failed   bool
	AfterBad int
	Specify  bool
	Max      int
}

var ErrSource = errors.New("simulated die source failure")

func NewFeeder(x *fw.Ctx) *Feeder { return &Feeder{X: x, Max: 2500000} }

// Begin starts an operation.
func (f *Feeder) Begin(s Script, faults []Fault) {
	f.Script, f.Faults = s, faults
	f.Log = f.Log[:0:0]
	f.Failed = false
	f.AfterBad = 0
}

func (f *Feeder) CanSpecifyDie() bool {
	if f.Inner != nil {
		return f.Inner.CanSpecifyDie()
	}
	return f.Specify
}

// DrawLimit is the panic that stops a command that never stops drawing.
type DrawLimit struct{ N int }

func (d DrawLimit) Error() string    { return fmt.Sprintf("more than %d dice drawn by one command", d.N) }
func (d DrawLimit) SimClass() string { return "no-progress" }

func (f *Feeder) Next(sides int) (dice.Die, error) {
	simrt.Y(20)
	i := len(f.Log)
	if i >= f.Max {
		panic(DrawLimit{f.Max})
	}
	if f.Failed {
		f.AfterBad++
	}
	d := dice.Die{Value: f.Script.Value(i, sides), Sides: sides}
	var err error
	for _, ft := range f.Faults {
		if ft.At != i && !(ft.Kind == "dead" && i > ft.At) {
			continue
		}
		f.Failed = true
		if f.X != nil {
			f.X.Fault("die:" + ft.Kind)
			if ft.Err != "" {
				f.X.Count("die source failures with an error value of their own", 1)
			}
		}
		switch ft.Kind {
		case "err", "dead":
			f.Log = append(f.Log, Draw{sides, dice.Die{}, true, true})
			return dice.Die{}, ft.err()
		case "errdie":
			f.Log = append(f.Log, Draw{sides, d, true, true})
			return d, ft.err()
		case "sides":
			d.Sides = sides + 1
		case "zero":
			d.Value = 0
		case "neg":
			d.Value = -3
		case "over":
			d.Value = sides + 1
		}
		f.Log = append(f.Log, Draw{sides, d, false, true})
		return d, nil
	}
	if f.Inner != nil {
		d, err = f.Inner.Next(sides)
	}
	bad := err != nil || d.Sides != sides || d.Value < 1 || d.Value > sides
	if bad {
		f.Failed = true
	}
	f.Log = append(f.Log, Draw{sides, d, err != nil, bad})
	return d, err
}

// Delivered is the dice of the log.
func (f *Feeder) Delivered() []dice.Die {
	var out []dice.Die
	for _, d := range f.Log {
		out = append(out, d.Die)
	}
	return out
}

// Replay evaluates the command in the model with the recorded dice. It reports whether the
// requests were those the command calls for.
func Replay(c *model.Cmd, log []Draw) (a *model.Answer, err error, mismatch string) {
	i := 0
	a, err = c.Eval(func(sides int) (int, error) {
		if mismatch != "" {
			return 0, model.ErrDraw
		}
		if i >= len(log) {
			mismatch = fmt.Sprintf("die %d (of %d sides) was never requested", i+1, sides)
			return 0, model.ErrDraw
		}
		d := log[i]
		i++
		if d.Sides != sides {
			mismatch = fmt.Sprintf("die %d was requested with %d sides, the command calls for %d", i, d.Sides, sides)
			return 0, model.ErrDraw
		}
		if d.Bad {
			return 0, model.ErrDraw
		}
		return d.Die.Value, nil
	})
	if err == nil && mismatch == "" && i < len(log) {
		mismatch = fmt.Sprintf("%d dice were requested, the command calls for %d", len(log), i)
	}
	return
}

// Predict evaluates the command in the model with the dice of a script (at most max draws).
func Predict(c *model.Cmd, s *Script, max int) (*model.Answer, error) {
	i := 0
	return c.Eval(func(sides int) (int, error) {
		if i >= max {
			return 0, model.ErrDraw
		}
		i++
		return s.Value(i-1, sides), nil
	})
}

// DiceText formats dice for messages.
func DiceText(ds []dice.Die) string {
	var p []string
	for i, d := range ds {
		if i == 40 {
			p = append(p, fmt.Sprintf("... (%d dice)", len(ds)))
			break
		}
		p = append(p, fmt.Sprintf("%d/%d", d.Value, d.Sides))
	}
	return "[" + strings.Join(p, " ") + "]"
}

// SameDice compares dice lists; nil and empty are the same.
func SameDice(a, b []dice.Die) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Short cuts long texts for messages.
func Short(s string) string {
	if len(s) > 400 {
		return s[:200] + " ... " + s[len(s)-150:]
	}
	return s
}
