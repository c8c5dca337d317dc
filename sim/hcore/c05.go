package hcore

import (
	"fmt"

	"github.com/raa0121/GoBCDice/pkg/bcdice"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

func init() {
	fw.Register(fw.Check{
		ID:     "C05",
		Rule:   "an interleaved history of 2-5 sessions (in part sharing one die source) with successful, failing, invalid, secret and repeated commands, faults and game-system changes; every answer compared with the model and with the first answer to the same text, game system and dice, a difference confirmed in a fresh process; non-trivial: some key was answered at least twice and at least two sessions answered",
		Real:   []string{"bcdice sessions, parser, evaluator, notation, command, roller, game-system list"},
		Stub:   []string{"die source", "game systems Alpha, beta, Zeta, Cthulhu, Silent (registered through the overlay)"},
		Assume: []string{"the process-wide state of a session is what earlier commands of the same process left; each batch of cases runs in a fresh process"},
		Chunk:  50, Quick: 300, Thorough: 20000,
		Before: func(x *fw.Ctx) { hc.RegisterGames() },
	}, genC05, func(h *Hist) bool { return validOps(h.Ops, h.N) }, execC05)
}

func genC05(r *fw.Rand, tier string) *Hist {
	h := &Hist{N: r.Range(2, 5), Shared: r.P(0.3)}
	cfg := model.NewCfg(r)
	pf := float64(r.PickInt(0, 5, 20)) / 100
	pj := float64(r.PickInt(0, 10, 30)) / 100
	pg := float64(r.PickInt(0, 5, 15)) / 100
	same := float64(r.PickInt(10, 30, 60)) / 100
	var prev []Op
	n := r.Range(5, 40)
	if r.P(0.01) {
		n = r.PickInt(200, 400, 1200)
	}
	lots := r.P(0.03) // one command very often, or very many different ones
	for len(h.Ops) < n {
		s := r.N(h.N)
		var o Op
		switch {
		case r.P(pg):
			o = Op{Do: "game", Arg: genGame(r)}
		case len(prev) > 0 && r.P(same):
			o = prev[r.N(len(prev))]
			if r.P(0.3) {
				o.Script.Seed = r.U64()
				if o.Cmd != nil && draws(&o, 2000) < 0 {
					continue
				}
			}
			if o.Cmd != nil && len(o.Faults) == 0 && r.P(0.3) {
				// almost the same text
				o.Cmd = o.Cmd.Variant(r)
				if draws(&o, 2000) < 0 {
					continue
				}
			}
		case r.P(pj):
			o = Op{Raw: fw.Text(junk[1+r.N(len(junk)-1)]), Script: hc.NewScript(r)}
		case r.P(0.15):
			o = genGameOp(r, cfg, 1000)
		default:
			o = genOp(r, cfg, 1000)
			if r.P(pf) {
				if d := draws(&o, 1000); d > 0 {
					o.Faults = []hc.Fault{hc.NewFault(r, r.N(d))}
				}
			}
		}
		o.S = s
		if o.Do == "" {
			prev = append(prev, o)
		}
		if d := -1; lots && o.Do == "" {
			if d = 5; o.Cmd != nil {
				d = draws(&o, 5)
			}
			switch {
			case r.P(0.2):
				h.Ops = append(h.Ops, o)
				h.Ops = append(h.Ops, Op{S: s, Do: "churn", Rep: many(r), Seed: int64(r.N(1000))})
				lots = false
			case d >= 0 && r.P(0.3):
				o.Rep = often(r, &o)
				lots = false
			}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func genGame(r *fw.Rand) string {
	return r.Pick("DiceBot", "Alpha", "beta", "Zeta", "Cthulhu", "Silent", "alpha", "Unknown", "")
}

func execC05(x *fw.Ctx, h *Hist) *fw.Violation {
	ss := make([]*session, h.N)
	games := make([]string, h.N)
	var shared *hc.Feeder
	for i := range ss {
		ss[i] = newSession(x)
		if h.Shared {
			if shared == nil {
				shared = ss[i].f
			}
			ss[i].f = shared
			ss[i].b = bcdice.New(shared)
		}
		games[i] = "DiceBot"
	}
	type answer struct {
		snap hc.Snapshot
		n    int
		op   int
	}
	seen := map[string]answer{}
	repeated, used := false, map[int]bool{}
	for i := range h.Ops {
		o := &h.Ops[i]
		s := ss[o.S]
		if o.Do == "game" {
			err := s.b.SetDiceBotByGameID(o.Arg)
			x.Ev("%d: session %d game %q err=%v", i, o.S, o.Arg, err != nil)
			games[o.S] = s.b.DiceBot.GameID()
			continue
		}
		if o.Do == "churn" {
			if v, c, answer := s.churn(x, o, games[o.S]); v != nil {
				c.S = 0
				one := &Hist{N: 1}
				if games[o.S] != "DiceBot" {
					one.Ops = append(one.Ops, Op{Do: "game", Arg: games[o.S]})
				}
				one.Ops = append(one.Ops, c)
				a, err := x.Elsewhere(one)
				if err != nil {
					panic(err)
				}
				if a != answer {
					v.Detail += "; alone in a new process it answers " + a
					return v
				}
				x.Count("answers that differ from the model but not from a new process", 1)
			}
			continue
		}
		if o.Do != "" {
			continue
		}
		res, err := s.do(x, i, o)
		used[o.S] = true
		got := hc.Snap(res, err)
		if !fw.InFresh() {
			if v := s.repeat(x, o, got); v != nil {
				v.Detail = fmt.Sprintf("operation %d (game system %s): %s", i, games[o.S], v.Detail)
				return v
			}
		}
		key := fmt.Sprintf("%s|%s|%v|%v", games[o.S], o.Text(), o.Script, o.Faults)
		// what a session alone in a new process answers
		confirm := func() (string, bool) {
			one := &Hist{N: 1}
			if games[o.S] != "DiceBot" {
				one.Ops = append(one.Ops, Op{Do: "game", Arg: games[o.S]})
			}
			c := *o
			c.S = 0
			one.Ops = append(one.Ops, c)
			a, err := x.Elsewhere(one)
			if err != nil {
				panic(err)
			}
			return a, a != answerText(got, len(s.f.Log))
		}
		if first, ok := seen[key]; ok {
			repeated = true
			if !first.snap.Equal(got) || first.n != len(s.f.Log) {
				return fw.V("not-a-function", "operation %d %q (game system %s, dice %s) answers %s (%d draws); the same command with the same dice answered %s (%d draws) in operation %d", i, hc.Short(o.Text()), games[o.S], hc.DiceText(s.f.Delivered()), got, len(s.f.Log), first.snap, first.n, first.op)
			}
		} else {
			seen[key] = answer{got, len(s.f.Log), i}
		}
		if _, _, known := expect(games[o.S], o); !fw.InFresh() && (s.f.Failed || !known) {
			// a new session of this process
			twin := newSession(x)
			if err := twin.b.SetDiceBotByGameID(games[o.S]); err != nil {
				return fw.V("game-refused", "game system %s, refused by a new session: %v", games[o.S], err)
			}
			twin.f.Begin(o.Script, o.Faults)
			tr, te := hc.Exec(twin.b, o.Text())
			if w := hc.Snap(tr, te); !w.Equal(got) || len(twin.f.Log) != len(s.f.Log) {
				return fw.V("not-a-function", "operation %d %q (game system %s) answers %s; a new session with the same dice and faults answers %s", i, hc.Short(o.Text()), games[o.S], answerText(got, len(s.f.Log)), answerText(w, len(twin.f.Log)))
			}
		}
		if !s.f.Failed && !fw.InFresh() {
			if want, _, known := expect(games[o.S], o); known && !want.Equal(got) {
				if alone, differs := confirm(); differs {
					return fw.V("history-dependent", "operation %d %q (game system %s) answers %s; alone in a new process it answers %s", i, hc.Short(o.Text()), games[o.S], answerText(got, len(s.f.Log)), alone)
				}
				x.Count("answers that differ from the model but not from a new process", 1)
			}
		}
		x.Answer = answerText(got, len(s.f.Log))
	}
	if repeated && len(used) >= 2 {
		x.NonTrivial()
	}
	return nil
}

func answerText(s hc.Snapshot, n int) string {
	return fmt.Sprintf("err=%v nil=%v %q %v success=%d secret=%v draws=%d", s.Err, s.Nil, s.Message, s.Dice, s.Success, s.Secret, n)
}
