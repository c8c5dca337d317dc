package hcore

import (
	"fmt"
	"time"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
	"verifsim/simrt"
)

// SrcOp is a step on random sources under the simulated clock.
type SrcOp struct {
	Do    string     `json:"do"` // new, newtime, next, cmd, clock, replay
	I     int        `json:"i,omitempty"`
	Seed  int64      `json:"seed,omitempty"`
	Sides int        `json:"sides,omitempty"`
	N     int        `json:"n,omitempty"`
	Move  int64      `json:"move,omitempty"` // nanoseconds the clock moves
	Cmd   *model.Cmd `json:"cmd,omitempty"`
}

// SrcHist is a history on sources.
type SrcHist struct {
	Start int64   `json:"start"` // clock, nanoseconds
	Ops   []SrcOp `json:"ops"`
	Fresh bool    `json:"fresh,omitempty"` // compare with a new process
}

func init() {
	fw.Register(fw.Check{
		ID:     "C07",
		Rule:   "up to 6 seeded and time-seeded random sources created and used in turns, directly and through roll commands, under a simulated clock that moves by nanoseconds to years in both directions; each source replayed from its reported seed in the same and in a new process; non-trivial: at least 2 sources used in turns and one replayed",
		Real:   []string{"feeder.MT19937, math/rand, mt19937, sessions"},
		Stub:   []string{"clock (time.Now of the library)"},
		Assume: []string{"the clock of the library is time.Now, between the years 1678 and 2262 (nanoseconds fit in 64 bits)"},
		Chunk:  60, Quick: 900, Thorough: 30000,
	}, genC07, validC07, execC07)
}

func validC07(h *SrcHist) bool {
	if len(h.Ops) > 300 || h.Start < -9e18 || h.Start > 9e18 {
		return false
	}
	for _, o := range h.Ops {
		if o.N < 0 || o.N > 200000 || o.I < 0 {
			return false
		}
		if o.Do == "next" && o.Sides < 1 {
			return false
		}
		if o.Do == "cmd" && !o.Cmd.Valid() {
			return false
		}
	}
	return true
}

func genC07(r *fw.Rand, tier string) *SrcHist {
	h := &SrcHist{Start: r.Pick2(0, 1, 1_000_000_000, 1_600_000_000_000_000_000, 1_600_000_000_999_999_999, -1, -1_500_000_000, 8_000_000_000_000_000_000) + int64(r.N(1000))}
	h.Fresh = r.P(0.02)
	cfg := model.NewCfg(r)
	long := -1
	if r.P(0.04) {
		long = r.Range(1, 10) // one operation takes very many dice
	}
	n := 0
	most, k := 6, r.Range(4, 40)
	if r.P(0.05) {
		most, k = r.PickInt(20, 40, 70), r.Range(80, 290)
	}
	for len(h.Ops) < k {
		switch x := r.N(20); {
		case n == 0 || (x == 0 && n < most) || most > 6 && x > 15 && n < most:
			if r.P(0.5) {
				h.Ops = append(h.Ops, SrcOp{Do: "newtime"})
			} else {
				h.Ops = append(h.Ops, SrcOp{Do: "new", Seed: r.Pick2(0, 1, -1, 42, 1<<31, 1<<32, -1<<63, 1<<63-1, int64(r.U64()), int64(r.N(100)))})
			}
			n++
		case x <= 2:
			h.Ops = append(h.Ops, SrcOp{Do: "clock", Move: r.Pick2(1, 1, 2, 999, 1000, 1_000_000, 1_000_000_000, 60_000_000_000, 31_536_000_000_000_000, -1, -1000, -1_000_000_000, -3_600_000_000_000, 1<<32, 1<<31)})
		case x == 3:
			h.Ops = append(h.Ops, SrcOp{Do: "replay", I: r.N(n)})
		case x <= 6:
			c := cfg.Cmd(r)
			if c.Kind == "R" || c.Kind == "U" {
				most := float64(cfg.MaxSides) // no long explosions
				for _, x := range c.Rolls {
					most = max(most, model.Bound(x.Sides))
				}
				c.Th = model.I(int(most) + r.N(3))
			}
			h.Ops = append(h.Ops, SrcOp{Do: "cmd", I: r.N(n), Cmd: c})
		default:
			h.Ops = append(h.Ops, SrcOp{Do: "next", I: r.N(n), Sides: sidesOf(r), N: r.PickInt(1, 1, 2, 5, 20, 700)})
			if len(h.Ops) > long && long >= 0 {
				h.Ops[len(h.Ops)-1].N = r.PickInt(5000, 33000, 66000, 132000)
				long = -1
			}
		}
	}
	return h
}

func sidesOf(r *fw.Rand) int {
	return r.PickInt(1, 2, 3, 4, 6, 6, 8, 10, 12, 20, 100, 100, 1000, 65536, 1<<31-1, 1<<31, 1<<31+1, 1<<40, 1<<62, 1<<63-1, r.Range(1, 50))
}

type usedSource struct {
	src    *feeder.MT19937
	seed   int64
	timed  bool
	at     int64
	rec    *hc.Feeder
	ses    *bcdice.BCDice
	log    []hc.Draw
	nCheck int
}

func execC07(x *fw.Ctx, h *SrcHist) *fw.Violation {
	now := h.Start
	simrt.SetNow(func() time.Time { return time.Unix(0, now) })
	defer simrt.SetNow(nil)
	var srcs []*usedSource
	lastUsed, turns, replays := -1, 0, 0
	replayOf := func(u *usedSource, what string) *fw.Violation {
		if len(u.log) == 0 {
			return nil
		}
		f := feeder.NewMT19937(u.src.Seed())
		for k, d := range u.log {
			e, err := f.Next(d.Sides)
			if err != nil || e != d.Die {
				return fw.V("not-reproducible", "%s: source with reported seed %d delivered %d/%d as die %d, a new source with that seed delivers %d/%d (error %v)", what, u.src.Seed(), d.Die.Value, d.Die.Sides, k+1, e.Value, e.Sides, err)
			}
		}
		replays++
		return nil
	}
	for i := range h.Ops {
		o := &h.Ops[i]
		switch o.Do {
		case "clock":
			now += o.Move
			x.Sim(time.Duration(max(o.Move, -o.Move)))
			if o.Move < 0 {
				x.Fault("clock set back")
			}
			continue
		case "new", "newtime":
			if len(srcs) >= 80 {
				continue
			}
			u := &usedSource{seed: o.Seed}
			if o.Do == "new" {
				u.src = feeder.NewMT19937(o.Seed)
				if u.src.Seed() != o.Seed {
					return fw.V("seed", "operation %d: a source created with seed %d reports seed %d", i, o.Seed, u.src.Seed())
				}
			} else {
				u.src = feeder.NewMT19937WithSeedFromTime()
				u.timed, u.at, u.seed = true, now, now
				if u.src.Seed() != now {
					return fw.V("time-seed", "operation %d: at clock %d ns a source seeded from the time reports seed %d", i, now, u.src.Seed())
				}
			}
			x.Ev("%d: source %d seed %d", i, len(srcs), u.src.Seed())
			u.rec = hc.NewFeeder(nil)
			u.rec.Inner = u.src
			u.ses = bcdice.New(u.rec)
			srcs = append(srcs, u)
			continue
		}
		if len(srcs) == 0 {
			continue
		}
		u := srcs[o.I%len(srcs)]
		if lastUsed >= 0 && lastUsed != o.I%len(srcs) {
			turns++
		}
		lastUsed = o.I % len(srcs)
		switch o.Do {
		case "next":
			for k := 0; k < max(1, o.N); k++ {
				d, err := u.src.Next(o.Sides)
				if err != nil {
					return fw.V("error", "operation %d: Next(%d) of a random source failed: %v", i, o.Sides, err)
				}
				u.log = append(u.log, hc.Draw{Sides: o.Sides, Die: d})
			}
			x.Ev("%d: source %d %v", i, lastUsed, u.log[len(u.log)-1])
			x.Count("draws", max(1, o.N))
		case "cmd":
			u.rec.Begin(hc.Script{}, nil)
			res, err := hc.Exec(u.ses, o.Cmd.Text())
			hc.Snap(res, err).Ev(x, o.Cmd.Text())
			u.log = append(u.log, u.rec.Log...)
			x.Count("draws", len(u.rec.Log))
		case "replay":
			if v := replayOf(u, fmt.Sprintf("operation %d", i)); v != nil {
				return v
			}
		}
		if u.src.Seed() != u.seed {
			return fw.V("seed", "operation %d: the source reports seed %d, it was created with %d", i, u.src.Seed(), u.seed)
		}
	}
	now += 1_234_567_891
	for k, u := range srcs {
		if v := replayOf(u, fmt.Sprintf("source %d at the end", k)); v != nil {
			return v
		}
	}
	// sources created at different times do not deliver the same dice
	for a := range srcs {
		for b := range srcs[:a] {
			u, w := srcs[a], srcs[b]
			if !u.timed || !w.timed || u.at == w.at {
				continue
			}
			same := true
			fu, fv := feeder.NewMT19937(u.seed), feeder.NewMT19937(w.seed)
			for k := 0; k < 60 && same; k++ {
				d, _ := fu.Next(1000)
				e, _ := fv.Next(1000)
				same = d == e
			}
			if same {
				return fw.V("same-dice", "sources seeded at clock %d and %d ns deliver the same dice", w.at, u.at)
			}
			x.Probe("two time-seeded sources of different times compared")
		}
	}
	if h.Fresh && !fw.InFresh() && len(srcs) > 0 {
		// the same history in a new process
		a := srcsAnswer(srcs)
		c := *h
		b, err := x.Fresh(&c)
		if err != nil {
			panic(err)
		}
		if a != b {
			return fw.V("process", "the same requests to sources with the same seeds give other dice in a new process: %s and %s", hc.Short(a), hc.Short(b))
		}
		x.Count("histories repeated in a new process", 1)
	}
	x.Answer = srcsAnswer(srcs)
	if turns >= 1 && replays >= 1 {
		x.NonTrivial()
	}
	x.Count("sources replayed from their reported seed", replays)
	return nil
}

func srcsAnswer(srcs []*usedSource) string {
	s := ""
	for _, u := range srcs {
		h := uint64(0)
		for _, d := range u.log {
			h = fw.Mix(h, uint64(d.Die.Value)) + uint64(d.Sides)
		}
		s += fmt.Sprintf("%d:%d:%x ", u.seed, len(u.log), h)
	}
	return s
}
