package hcore

import (
	"fmt"

	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

func init() {
	fw.Register(fw.Check{
		ID:    "C01",
		Rule:  "a history of commands, source changes and caller writes over 1-3 sessions on scripted, queue and MT19937 sources, with die faults; non-trivial: at least 3 results with dice",
		Real:  []string{"bcdice sessions, parser, evaluator, notation, command, roller", "feeder.Queue and feeder.MT19937 (wrapped by a recorder) as sources in part of the runs"},
		Stub:  []string{"die source (simulated, scripted with faults) in the other runs"},
		Chunk: 60, Quick: 500, Thorough: 20000,
	}, genC01, validHist, execC01)
}

// genHist draws a history.
func genHist(r *fw.Rand, faults bool) *Hist {
	h := &Hist{N: r.PickInt(1, 1, 2, 3)}
	cfg := model.NewCfg(r)
	n := r.Range(3, 25)
	if r.P(0.005) {
		n = r.Range(60, 400)
	}
	limit := 2000
	if r.P(0.02) {
		limit = 40000
		n = r.Range(2, 5)
	}
	cur := make([]string, h.N)
	// the sources in use
	sources := []string{"sim"}
	if r.P(0.5) {
		sources = append(sources, "queue")
	}
	if r.P(0.5) {
		sources = append(sources, "mt")
	}
	pf := 0.0
	if faults {
		pf = float64(r.PickInt(0, 5, 20, 40)) / 100
	}
	pb := float64(r.PickInt(0, 0, 10, 50)) / 100
	pj := float64(r.PickInt(0, 5, 20)) / 100
	var prev []Op
	for len(h.Ops) < n {
		s := r.N(h.N)
		switch {
		case r.P(0.08):
			o := Op{S: s, Do: "source", Source: r.Pick(sources...), Seed: int64(r.U64() >> uint(r.N(63)))}
			cur[s] = o.Source
			h.Ops = append(h.Ops, o)
			continue
		case r.P(0.05):
			h.Ops = append(h.Ops, Op{S: s, Do: "scribble"})
			continue
		case r.P(pj):
			j := junk[r.N(len(junk))]
			if j == "" {
				j = " "
			}
			h.Ops = append(h.Ops, Op{S: s, Raw: fw.Text(j), Script: hc.NewScript(r)})
			continue
		}
		var o Op
		if len(prev) > 0 && r.P(0.15) { // the same again, with the same or other dice
			o = prev[r.N(len(prev))]
			o.Faults, o.Short = nil, 0
			if r.P(0.5) {
				o.Script.Seed = r.U64()
				if draws(&o, limit) < 0 {
					continue
				}
			}
		} else {
			o = genOp(r, cfg, limit)
			if r.P(pb) {
				o.Via = "basic"
			}
		}
		o.S = s
		prev = append(prev, o)
		if faults && r.P(0.001) {
			// the source fails again and again
			if d := draws(&o, 20); d > 0 {
				o.Faults, o.Short = []hc.Fault{hc.NewFault(r, r.N(d))}, 0
				o.Rep = often(r, &o)
				h.Ops = append(h.Ops, o)
				continue
			}
		}
		if r.P(pf) {
			if d := draws(&o, limit); d > 0 {
				at := r.N(d)
				if r.P(0.3) {
					at = 0
				} else if r.P(0.3) {
					at = d - 1
				}
				o.Faults, o.Short = nil, 0
				if cur[s] == "queue" && r.P(0.6) {
					o.Short = d - at // the queue runs dry there
				} else {
					o.Faults = []hc.Fault{hc.NewFault(r, at)}
				}
			}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func genC01(r *fw.Rand, tier string) *Hist { return genHist(r, r.P(0.5)) }

type kept struct {
	op   int
	res  *command.Result
	snap hc.Snapshot
}

func execC01(x *fw.Ctx, h *Hist) *fw.Violation {
	ss := make([]*session, h.N)
	for i := range ss {
		ss[i] = newSession(x)
	}
	var results []kept
	withDice := 0
	recheck := func(k kept, when int) *fw.Violation {
		if now := hc.Snap(k.res, nil); !now.Equal(k.snap) {
			return fw.V("changed-later", "result of operation %d was %s and reads %s after operation %d", k.op, k.snap, now, when)
		}
		return nil
	}
	for i := range h.Ops {
		o := &h.Ops[i]
		s := ss[o.S]
		switch o.Do {
		case "source":
			s.source(x, o)
			x.Ev("%d: session %d source %s", i, o.S, o.Source)
			continue
		case "scribble":
			// a caller writes into the dice of a result it was given
			for j := range results {
				k := &results[len(results)-1-j]
				if len(k.res.RolledDice) > 0 {
					for n := range k.res.RolledDice {
						k.res.RolledDice[n] = dice.Die{Value: -7, Sides: -7}
					}
					k.res.RolledDice = append(k.res.RolledDice, dice.Die{Value: -8, Sides: -8})
					k.snap = hc.Snap(k.res, nil)
					x.Probe("caller wrote into a reported dice slice")
					break
				}
			}
			continue
		}
		res, err := s.do(x, i, o)
		if err != nil || res == nil {
			if s.f.Failed {
				x.Count("commands failed by a fault", 1)
			}
			continue
		}
		text := o.Text()
		got := res.RolledDice
		if want := s.f.Delivered(); !hc.SameDice(got, want) {
			return fw.V("report", "operation %d %q: the source delivered %s, the result reports %s", i, hc.Short(text), hc.DiceText(want), hc.DiceText(got))
		}
		if o.Cmd != nil && !s.f.Failed {
			if _, _, mis := hc.Replay(o.Cmd, s.f.Log); mis != "" {
				return fw.V("requests", "operation %d %q: %s (drawn %s)", i, hc.Short(text), mis, hc.DiceText(got))
			}
		}
		if len(got) > 0 {
			withDice++
			x.Distinct("dice sequences", fw.HashString(0, fmt.Sprint(got)))
		}
		results = append(results, kept{i, res, hc.Snap(res, nil)})
		for j := max(0, len(results)-6); j < len(results); j++ {
			if v := recheck(results[j], i); v != nil {
				return v
			}
		}
	}
	for _, k := range results {
		if v := recheck(k, len(h.Ops)); v != nil {
			return v
		}
	}
	if withDice >= 3 {
		x.NonTrivial()
	}
	x.Count("results re-read later", len(results))
	return nil
}
