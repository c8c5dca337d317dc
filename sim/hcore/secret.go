package hcore

import (
	"fmt"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

// GenSecret draws a history about the secret mark.
func GenSecret(r *fw.Rand) *Hist {
	h := &Hist{N: r.PickInt(1, 1, 2, 3)}
	cfg := model.NewCfg(r)
	cfg.Secret = float64(r.PickInt(10, 30, 50, 80)) / 100
	game := make([]*hc.Game, h.N)
	n := r.Range(6, 40)
	if r.P(0.01) {
		n = r.PickInt(150, 300, 600)
	}
	for len(h.Ops) < n {
		var o Op
		s := r.N(h.N)
		switch {
		case r.P(0.15):
			o = Op{Do: "game", Arg: r.Pick("DiceBot", "Alpha", "beta", "Zeta", "Cthulhu", "Silent", "Over", "Over", "Unknown")}
			if o.Arg != "Unknown" {
				game[s] = hc.GameOf(o.Arg)
			}
		case r.P(0.08):
			raw := r.Pick(junk...)
			if r.P(0.5) || raw == "" {
				raw = r.Pick("S", "s") + raw
			}
			o = Op{Raw: fw.Text(raw), Script: hc.NewScript(r)}
		case game[s] != nil && game[s].Prefix != "" && r.P(0.5):
			for {
				o = genGameOp(r, cfg, 300)
				if t := strings.TrimLeft(o.Text(), "Ss"); strings.HasPrefix(t, game[s].Prefix) || strings.HasPrefix(o.Text(), game[s].Prefix) {
					break
				}
			}
		case r.P(0.25):
			c := *overWords[r.N(len(overWords))]
			if r.P(cfg.Secret) {
				c.Secret = r.Pick("S", "s")
			}
			c.Comment = fw.Text(r.Pick("", "", " x", " S", " S2D6", "\tcomment", " s y"))
			o = Op{Cmd: &c, Script: hc.NewScript(r)}
			if o.Script.Endless() {
				o.Script.Mode, o.Script.Len = "", 0
			}
		default:
			o = genOp(r, cfg, 300)
		}
		if o.Do == "" && r.P(0.06) {
			// a text that begins almost with an S
			t := o.Text()
			if t = nearS[r.N(len(nearS))] + t; len(t) < 900 {
				o = Op{Raw: fw.Text(t), Script: o.Script}
				if o.Script.Endless() {
					o.Script.Mode, o.Script.Len = "", 0
				}
			}
		}
		if o.Do == "" && r.P(0.06) {
			// bytes that are no UTF-8, or that look like their replacement
			t := o.Text()
			if t == "" || t[0] != 'S' && t[0] != 's' && r.P(0.5) {
				t = r.Pick("S", "s") + t
			}
			for n := r.Range(1, 2); n > 0; n-- {
				at := r.Range(1, len(t))
				if b := strings.IndexAny(t, "[ "); b > 0 && r.P(0.5) {
					at = b + 1
				}
				t = t[:at] + r.Pick("\xff", "\x80", "\xc3", "\xe3\x81", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\ufffd", "あ", "\x00", "\U0010ffff") + t[at:]
			}
			if len(t) < 900 {
				o = Op{Raw: fw.Text(t), Script: o.Script}
				if o.Script.Endless() {
					o.Script.Mode, o.Script.Len = "", 0
				}
			}
		}
		if o.Do == "" && r.P(0.06) {
			o.Faults = []hc.Fault{hc.NewFault(r, r.N(3))}
		}
		o.S = s
		h.Ops = append(h.Ops, o)
	}
	return h
}

// nearS are beginnings that are no mark of a secret roll.
var nearS = []string{"Ｓ", "ｓ", "ſ", "Ѕ", " S", "\tS", "　S", ".S", "$", "5", "§", "ß", "\xd3", "\xffS", "@S", "/S", "\ufeffS", "#s", "R", "T", "r", "t", "Z", "c", "シークレット", "[S]"}

// ExecSecret executes the history; every command is also executed with the other mark in a
// session of its own. It reports how many results were marked and how many were not.
func ExecSecret(x *fw.Ctx, h *Hist) (marked, plain int, v *fw.Violation) {
	ss := make([]*session, h.N)
	for i := range ss {
		ss[i] = newSession(x)
	}
	pick := func(b *bcdice.BCDice, id string) {
		g := hc.GameOf(id)
		if g == nil || hc.Registered {
			b.SetDiceBotByGameID(id)
			return
		}
		c := *g
		b.DiceBot = &c
	}
	type old struct {
		s hc.Snapshot
		f func() hc.Snapshot
		i int
	}
	var earlier []old
	for i := range h.Ops {
		o := &h.Ops[i]
		s := ss[o.S]
		if o.Do != "" {
			pick(s.b, o.Arg)
			continue
		}
		text := o.Text()
		res, err := s.do(x, i, o)
		got := hc.Snap(res, err)
		secret := text != "" && (text[0] == 'S' || text[0] == 's')
		what := fmt.Sprintf("operation %d: session %d %q (game system %s)", i, o.S, hc.Short(text), s.b.DiceBot.GameID())
		if err == nil && res != nil {
			earlier = append(earlier, old{got, func() hc.Snapshot { return hc.Snap(res, err) }, i})
			if secret {
				marked++
			} else {
				plain++
			}
			if got.Secret != secret {
				return marked, plain, fw.V("wrong-secret-mark", "%s: the result is marked secret: %v", what, got.Secret)
			}
		}
		// the other mark changes nothing else
		other := "S" + text
		if secret {
			other = text[1:]
		}
		if twice := other != "" && secret && (other[0] == 'S' || other[0] == 's'); twice || len(o.Faults) > 0 {
			continue
		}
		if !secret && i%2 == 1 {
			other = "s" + text
		}
		t := newSession(x)
		t.f.Begin(o.Script, nil)
		pick(t.b, s.b.DiceBot.GameID())
		res2, err2 := hc.Exec(t.b, other)
		twin := hc.Snap(res2, err2)
		if !twin.Err && !twin.Nil && twin.Secret == secret {
			return marked, plain, fw.V("wrong-secret-mark", "%s: as %q the result is marked secret: %v", what, hc.Short(other), twin.Secret)
		}
		twin.Secret = got.Secret
		if !twin.Equal(got) {
			return marked, plain, fw.V("mark-changes-answer", "%s answers %s, but as %q it answers %s", what, got, hc.Short(other), twin)
		}
		x.Distinct("route x mark x kind", fw.HashString(0, fmt.Sprint(s.b.DiceBot.GameID(), secret, got.Err, o.Cmd != nil, o.Pre, len(got.Dice) > 0)))
	}
	for _, e := range earlier {
		if now := e.f(); !now.Equal(e.s) {
			return marked, plain, fw.V("mark-leaks", "the result of operation %d was %s, at the end of the history it is %s", e.i, e.s, now)
		}
	}
	return marked, plain, nil
}
