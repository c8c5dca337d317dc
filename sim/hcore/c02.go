package hcore

import (
	"fmt"

	"verifsim/fw"
	"verifsim/hc"
)

func init() {
	fw.Register(fw.Check{
		ID:    "C02",
		Rule:  "a history of commands over 1-3 sessions in which the die source fails at chosen draws (error, error with a die, dead for the rest, wrong sides, value 0, negative or too high) or a queue runs dry; non-trivial: at least one fault fired inside a command and a command without fault was answered after it",
		Real:  []string{"bcdice sessions, parser, evaluator, notation, command, roller", "feeder.Queue and feeder.MT19937 as sources in part of the runs"},
		Stub:  []string{"die source (simulated, scripted, failing)"},
		Chunk: 60, Quick: 400, Thorough: 20000,
	}, genC02, validHist, execC02)
}

func genC02(r *fw.Rand, tier string) *Hist { return genHist(r, true) }

func execC02(x *fw.Ctx, h *Hist) *fw.Violation {
	ss := make([]*session, h.N)
	for i := range ss {
		ss[i] = newSession(x)
	}
	failed := false
	for i := range h.Ops {
		o := &h.Ops[i]
		s := ss[o.S]
		switch o.Do {
		case "source":
			s.source(x, o)
			x.Ev("%d: session %d source %s", i, o.S, o.Source)
			continue
		case "scribble":
			continue
		}
		res, err := s.do(x, i, o)
		text := hc.Short(o.Text())
		if s.f.Failed {
			at := 0
			for at < len(s.f.Log) && !s.f.Log[at].Bad {
				at++
			}
			if s.q != nil && len(o.Faults) == 0 {
				x.Fault("die:queue ran dry")
			}
			if at > 0 {
				x.Probe("fault after some dice were drawn")
			}
			if err == nil || res != nil {
				return fw.V("result-despite-failure", "operation %d %q: the die source failed at draw %d (%v) but the command answered %s", i, text, at+1, o.Faults, hc.Snap(res, err))
			}
			if s.f.AfterBad > 0 {
				return fw.V("draws-after-failure", "operation %d %q: %d more dice were requested after the die source failed at draw %d (%v)", i, text, s.f.AfterBad, at+1, o.Faults)
			}
			failed = true
			if o.Rep > 0 && !fw.InFresh() {
				if v := s.repeat(x, o, hc.Snap(res, err)); v != nil {
					v.Class = "affected-later"
					v.Detail = fmt.Sprintf("operation %d: %s", i, v.Detail)
					return v
				}
			}
			continue
		}
		x.Answer = answerText(hc.Snap(res, err), len(s.f.Log))
		// a command without failure answers as in a new session
		if !failed || fw.InFresh() {
			continue
		}
		fresh := newSession(x)
		fo := *o
		fo.Faults = nil
		fresh.f.Begin(fo.Script, nil)
		var vals []hc.Draw
		vals = append(vals, s.f.Log...)
		fresh.f.Inner = &replaySource{log: vals}
		fres, ferr := hc.Exec(fresh.b, o.Text())
		got, want := hc.Snap(res, err), hc.Snap(fres, ferr)
		if !got.Equal(want) || len(fresh.f.Log) != len(s.f.Log) {
			return fw.V("affected-later", "operation %d %q after a failure answered %s (%d draws), a new session answers %s (%d draws)", i, text, got, len(s.f.Log), want, len(fresh.f.Log))
		}
		if o.Cmd == nil {
			continue
		}
		// the whole process may be affected
		a, merr, mismatch := hc.Replay(o.Cmd, s.f.Log)
		model := hc.Snapshot{Err: true, Nil: true}
		if merr == nil {
			model = hc.Expected(a, "DiceBot")
			model.Secret = o.Cmd.Secret != "" && o.Via != "basic"
		}
		if mismatch != "" || !model.Equal(got) {
			c := *o
			c.S, c.Faults, c.Script = 0, nil, hc.Script{}
			for _, d := range s.f.Log {
				c.Script.Vals = append(c.Script.Vals, d.Die.Value)
			}
			alone, err := x.Fresh(&Hist{N: 1, Ops: []Op{c}})
			if err != nil {
				panic(err)
			}
			if alone != x.Answer {
				return fw.V("affected-later", "operation %d %q after a failure answered %s (%d draws), a session in a new process answers %s", i, text, got, len(s.f.Log), alone)
			}
			x.Count("answers that differ from the model but not from a new process", 1)
		}
		x.Count("commands compared with a new session after a failure", 1)
		x.NonTrivial()
	}
	return nil
}
