package hcore

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

func init() {
	fw.Register(fw.Check{
		ID:    "C03",
		Rule:  "a history of D, B and CHOICE commands (comparisons, rounding, random numbers in roll operands, invalid operands) with scripted outcomes, each answer compared with the reference model; non-trivial: at least 3 answers agreed on drawn dice",
		Real:  []string{"bcdice sessions, parser, evaluator, notation, command, roller"},
		Stub:  []string{"die source (simulated, scripted outcomes)"},
		Chunk: 60, Quick: 600, Thorough: 30000,
	}, func(r *fw.Rand, tier string) *Hist { return genRules(r, 2000, "D", "B", "choice") }, validHist, execRules)
	fw.Register(fw.Check{
		ID:    "C04",
		Rule:  "a history of R and U commands with scripted outcomes and streaks of highest values (up to endless ones), each answer compared with the reference model and the draw count with the bound; non-trivial: at least one reroll happened",
		Real:  []string{"bcdice sessions, parser, evaluator, notation, command, roller"},
		Stub:  []string{"die source (simulated, scripted outcomes and streaks)"},
		Chunk: 50, Quick: 350, Thorough: 25000,
	}, genC04, validHist, execRules)
}

func genRules(r *fw.Rand, limit int, kinds ...string) *Hist {
	h := &Hist{N: 1}
	cfg := model.NewCfg(r).Only(kinds...)
	n := r.Range(3, 20)
	if r.P(0.003) {
		n = r.Range(60, 300)
	}
	for len(h.Ops) < n {
		h.Ops = append(h.Ops, genOp(r, cfg, limit))
	}
	if kinds[0] == "D" && r.P(0.001) {
		h.Ops = append(h.Ops, Op{Raw: overInt, Script: hc.NewScript(r)})
	}
	if r.P(0.0004) {
		// as many dice as one command may have
		const most = 1000000
		c := &model.Cmd{Kind: kinds[r.N(2)]}
		n, sides := r.PickInt(most, most, most/2, most-1), r.PickInt(1, 2, 6)
		if c.Kind == "D" {
			c.Expr = &model.E{K: "D", L: model.I(n), R: model.I(sides)}
			if n < most {
				c.Expr = &model.E{K: "+", L: c.Expr, R: &model.E{K: "D", L: model.I(most - n), R: model.I(sides)}}
			}
		} else {
			c.Rolls = []model.Roll{{Num: model.I(n), Sides: model.I(sides)}}
			if n < most {
				c.Rolls = append(c.Rolls, model.Roll{Num: model.I(most - n), Sides: model.I(sides)})
			}
			if c.Kind != "B" {
				c.Th = model.I(sides + 2)
			}
		}
		h.Ops = []Op{{Cmd: c, Script: hc.NewScript(r)}, h.Ops[0]}
		h.Ops[0].Script.Mode, h.Ops[0].Script.Len = "", 0
	}
	return h
}

func genC04(r *fw.Rand, tier string) *Hist {
	h := genRules(r, 1500, "R", "U")
	if r.P(0.06) {
		// a streak that reaches or nearly reaches the limit
		o := Op{Cmd: &model.Cmd{Kind: r.Pick("R", "U"), Th: model.I(r.PickInt(2, 2, 3, 6))}}
		for i, n := 0, r.PickInt(1, 1, 2); i < n; i++ {
			o.Cmd.Rolls = append(o.Cmd.Rolls, model.Roll{Num: model.I(r.PickInt(1, 1, 2)), Sides: model.I(r.PickInt(6, 6, 2, 10))})
		}
		if r.P(0.5) {
			o.Cmd.Op, o.Cmd.Target = r.Pick(">=", "<", "="), model.I(r.PickInt(3, 6, 10000))
		}
		o.Script = hc.Script{Seed: r.U64(), From: r.N(3), Len: r.PickInt(9990, 9998, 9999, 10000, 10001, 100000)}
		h.Ops = append(h.Ops[:min(3, len(h.Ops))], o)
	} else if r.P(0.015) {
		// very many dice at once
		s := r.PickInt(2, 6, 6, 10, 100)
		o := Op{Cmd: &model.Cmd{Kind: r.Pick("R", "R", "U"), Th: model.I(max(2, s-r.N(2))), Op: r.Pick(">=", ">=", "<=", "=", "<>", "<", ">"), Target: model.I(r.PickInt(1, 2, s))}}
		for i, n := 0, r.PickInt(1, 1, 2, 4); i < n; i++ {
			o.Cmd.Rolls = append(o.Cmd.Rolls, model.Roll{Num: model.I(r.PickInt(100, 256, 300, 700, 1500, 5000)), Sides: model.I(s)})
		}
		o.Script = hc.Script{Seed: r.U64()}
		h.Ops = append(h.Ops[:min(3, len(h.Ops))], o)
	}
	return h
}

// overInt is a command whose total no int can hold: a known finding.
const overInt = "2D6+9223372036854775807"

func sumOverInt(x *fw.Ctx, s *session, i int, o *Op) *fw.Violation {
	res, err := s.do(x, i, o)
	if err != nil {
		return nil
	}
	sum := uint64(math.MaxInt64)
	for _, d := range s.f.Delivered() {
		sum += uint64(d.Value)
	}
	m := res.Message()
	switch {
	case strings.HasSuffix(m, " ＞ "+strconv.FormatUint(sum, 10)):
	case strings.HasSuffix(m, " ＞ "+strconv.FormatInt(int64(sum), 10)):
		line, listed := fw.Listed("C03", "sum-over-int")
		if !listed {
			return fw.V("sum-over-int", "operation %d %q with dice %s: got %q, the sum is %d", i, overInt, hc.DiceText(s.f.Delivered()), hc.Short(m), sum)
		}
		x.Known(line)
	default:
		return fw.V("message", "operation %d %q with dice %s: got %q, the sum is %d", i, overInt, hc.DiceText(s.f.Delivered()), hc.Short(m), sum)
	}
	return nil
}

func execRules(x *fw.Ctx, h *Hist) *fw.Violation {
	ss := make([]*session, h.N)
	for i := range ss {
		ss[i] = newSession(x)
	}
	agreed, rerolls := 0, 0
	for i := range h.Ops {
		o := &h.Ops[i]
		if o.Do == "" && o.Raw == overInt {
			if v := sumOverInt(x, ss[o.S], i, o); v != nil {
				return v
			}
			continue
		}
		if o.Do != "" || o.Cmd == nil {
			continue
		}
		s := ss[o.S]
		res, err := s.do(x, i, o)
		text := hc.Short(o.Text())
		got := hc.Snap(res, err)
		if s.f.Failed {
			continue
		}
		a, merr, mis := hc.Replay(o.Cmd, s.f.Log)
		if merr == model.ErrRule {
			if err == nil || res != nil {
				return fw.V("no-error", "operation %d %q with dice %s must give an error, got %s", i, text, hc.DiceText(s.f.Delivered()), got)
			}
			x.Count("rule errors", 1)
			continue
		}
		if mis != "" {
			return fw.V("order", "operation %d %q: %s (drawn %s, answer %s)", i, text, mis, hc.DiceText(s.f.Delivered()), got)
		}
		if err != nil || res == nil {
			return fw.V("error", "operation %d %q with dice %s: got error %v, want %q", i, text, hc.DiceText(s.f.Delivered()), err, hc.Short(a.Message("DiceBot")))
		}
		want := a.Message("DiceBot")
		if got.Message != want {
			return fw.V("message", "operation %d %q with dice %s: got %q, want %q", i, text, hc.DiceText(s.f.Delivered()), hc.Short(got.Message), hc.Short(want))
		}
		if got.Success != a.Success {
			return fw.V("verdict", "operation %d %q with dice %s: verdict %d, want %d", i, text, hc.DiceText(s.f.Delivered()), got.Success, a.Success)
		}
		if len(s.f.Log) > 0 {
			agreed++
		}
		if o.Cmd.Kind == "R" || o.Cmd.Kind == "U" {
			if a.Rerolls > 0 {
				rerolls++
				x.Probe("exploding roll rolled again")
			}
			if a.Capped {
				x.Probe("the reroll limit was reached")
			}
			if len(a.Parts) == 2 && len(s.f.Log) == 0 {
				x.Probe("threshold hint")
			}
		}
		x.Count("kind:"+o.Cmd.Kind, 1)
		x.Distinct("command and outcome", fw.HashString(0, fmt.Sprint(text, s.f.Delivered())))
	}
	if (x.ID == "C03" && agreed >= 3) || (x.ID == "C04" && rerolls > 0) {
		x.NonTrivial()
	}
	return nil
}
