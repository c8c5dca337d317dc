package hcore

import (
	"fmt"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

func init() {
	fw.Register(fw.Check{
		ID:     "C14",
		Rule:   "a history of 8-60 steps over 1-3 sessions: selecting known and unknown game systems, changing the die source, and commands that the selected game system takes, takes over from the basic commands, declines, or declines after drawing dice, with trailing words and secret marks; after each step the game system, the die source, the words the game systems were offered and the answer are compared with a routing model; non-trivial: at least two game systems were selected, an unknown one refused, and both a game system and a basic command answered",
		Real:   []string{"bcdice sessions, parser, evaluator, notation, command, roller, game-system list, basic game system"},
		Stub:   []string{"game systems Alpha, beta, Zeta, Cthulhu, Silent, Over (registered through the overlay, otherwise put into the session's exported field)", "die source"},
		Assume: []string{"a game system that draws dice and then declines leaves the dice of the report to the basic command: only the message is compared there"},
		Chunk:  60, Quick: 350, Thorough: 20000,
		Before: func(x *fw.Ctx) {
			for _, g := range hc.Games {
				g.Seen = &seen
			}
			hc.RegisterGames()
		},
	}, genC14, func(h *Hist) bool { return validOps(h.Ops, h.N) }, execC14)
}

// seen are the words the simulated game systems were offered.
var seen []string

var unknownGames = []string{"Unknown", "", "dicebot", "DICEBOT", "DiceBot ", " DiceBot", "alpha", "ALPHA", "Beta", "zeta", "Alph", "Alphaa", "over", "\x00", "ダイス", "DiceBot\n", "Silent2"}

// overWords are commands the game system Over takes or declines.
var overWords = []*model.Cmd{
	{Kind: "D", Expr: &model.E{K: "D", L: model.I(1), R: model.I(100)}},
	{Kind: "D", Expr: &model.E{K: "D", L: model.I(2), R: model.I(6)}},
	{Kind: "D", Expr: &model.E{K: "D", L: model.I(1), R: model.I(20)}},
	{Kind: "B", Rolls: []model.Roll{{Num: model.I(3), Sides: model.I(6)}}},
	{Kind: "calc", Expr: &model.E{K: "+", L: model.I(1), R: model.I(1)}},
	{Kind: "choice", Items: []string{"a", "b"}},
	{Kind: "choice", Items: []string{"a b", "c d"}},
	{Kind: "R", Rolls: []model.Roll{{Num: model.I(2), Sides: model.I(6)}}, Th: model.I(5)},
}

func genC14(r *fw.Rand, tier string) *Hist {
	h := &Hist{N: r.PickInt(1, 1, 2, 3)}
	cfg := model.NewCfg(r)
	pg := float64(r.PickInt(15, 30, 50)) / 100
	pu := float64(r.PickInt(10, 30, 60)) / 100
	pv := float64(r.PickInt(0, 10, 25)) / 100
	pr := float64(r.PickInt(0, 0, 1, 4)) / 100
	sel := make([]string, h.N)
	n := r.Range(8, 60)
	if r.P(0.02) {
		n = r.PickInt(150, 300, 600, 1100)
	}
	for len(h.Ops) < n {
		var o Op
		at := r.N(h.N)
		switch {
		case r.P(pg):
			o = Op{Do: "game", Arg: r.Pick("DiceBot", "Alpha", "beta", "Zeta", "Cthulhu", "Silent", "Over", "Over", "Tally", "Tally")}
			if r.P(pu) {
				o.Arg = r.Pick(unknownGames...)
			}
		case r.P(0.05):
			o = Op{Do: "source", Source: "sim"}
		case r.P(0.05):
			o = Op{Do: "ids"}
		case sel[at] == "Tally" && r.P(0.4):
			o = Op{Raw: fw.Text(r.Pick("", "", "S") + "T!T" + r.Pick("", "", " x")), Script: hc.NewScript(r)}
		case r.P(0.4):
			o = genGameOpOf(r, cfg, 500, sel[at])
		case r.P(0.4):
			c := *overWords[r.N(len(overWords))]
			if r.P(cfg.Secret) {
				c.Secret = r.Pick("S", "s")
			}
			if r.P(0.4) {
				c.Comment = fw.Text(r.Pick(append(oddComments, " x", " 2D6", "\tcomment", " ", "  1D6 y", " x", " 2D6", "\tcomment", " ", "  1D6 y")...))
			}
			o = Op{Cmd: &c, Script: hc.NewScript(r)}
			if o.Script.Endless() {
				o.Script.Mode, o.Script.Len = "", 0
			}
		case r.P(0.1):
			o = Op{Raw: fw.Text(r.Pick("", "", "S") + overWords[r.N(len(overWords))].Body() + r.Pick(glue...) + r.Pick("", "x", " x", "2D6")), Script: hc.NewScript(r)}
		case r.P(0.1):
			o = Op{Raw: fw.Text(junk[1+r.N(len(junk)-1)]), Script: hc.NewScript(r)}
		default:
			o = genOp(r, cfg, 500)
		}
		if o.Do == "" && r.P(pv) {
			o.Via = r.Pick("basic", "bot")
			if o.Pre != "" || o.Cmd == nil {
				o.Via = "bot"
			}
		}
		o.S = at
		if o.Do == "game" && hc.GameOf(o.Arg) != nil {
			sel[at] = o.Arg
		}
		if r.P(pr) && (o.Do == "game" || o.Do == "") {
			o.Rep = r.PickInt(2, 5, 10, 20, many(r))
			if o.Do == "" {
				o.Rep = min(o.Rep, often(r, &o))
			}
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func execC14(x *fw.Ctx, h *Hist) *fw.Violation {
	ss := make([]*session, h.N)
	games := make([]string, h.N)
	tally, kept := make([]int, h.N), make([]int, h.N)
	for i := range ss {
		ss[i] = newSession(x)
		games[i] = "DiceBot"
		if got := ss[i].b.DiceBot.GameID(); got != "DiceBot" {
			return fw.V("initial-game", "a new session starts with game system %q", got)
		}
	}
	// state compares what can be seen of every session with what it should be.
	state := func(i int, what string) *fw.Violation {
		for j, s := range ss {
			if got := s.b.DiceBot.GameID(); got != games[j] {
				return fw.V("wrong-game-selected", "after operation %d (%s) session %d has game system %q, it should be %q", i, what, j, got, games[j])
			}
			if s.b.DieFeeder() != feeder.DieFeeder(s.f) {
				return fw.V("die-source-changed", "after operation %d (%s) session %d has another die source", i, what, j)
			}
		}
		return nil
	}
	selected, refused, byGame, byBasic := map[string]bool{}, false, false, false
	for i := range h.Ops {
		o := &h.Ops[i]
		s := ss[o.S]
		if o.Do != "" {
			what := fmt.Sprintf("session %d %s %q", o.S, o.Do, o.Arg)
			switch o.Do {
			case "game":
				g := hc.GameOf(o.Arg)
				ok := o.Arg == "DiceBot" || hc.Registered && g != nil
				if !ok && g != nil {
					// not in the list: the caller puts it there itself
					c := *g
					s.b.DiceBot = &c
					games[o.S] = o.Arg
					tally[o.S], kept[o.S] = 0, 0
					break
				}
				before := s.b.DiceBot
				err := s.b.SetDiceBotByGameID(o.Arg)
				x.Ev("%d: %s -> err=%v", i, what, err != nil)
				if ok {
					if err != nil {
						return fw.V("known-game-refused", "operation %d: %s gives error %v", i, what, err)
					}
					// a selection of the same one may or may not begin anew
					if games[o.S] == o.Arg {
						kept[o.S] = tally[o.S]
					} else {
						tally[o.S], kept[o.S] = 0, 0
					}
					games[o.S] = o.Arg
					selected[o.Arg] = true
				} else {
					refused = true
					x.Count("unknown game systems refused", 1)
					if err == nil {
						return fw.V("unknown-game-accepted", "operation %d: %s gives no error; selected now: %q", i, what, s.b.DiceBot.GameID())
					}
					if s.b.DiceBot != before {
						return fw.V("wrong-game-selected", "operation %d: %s failed but the game system of the session was replaced", i, what)
					}
				}
				for k := 0; k < o.Rep; k++ {
					now := s.b.DiceBot
					err := s.b.SetDiceBotByGameID(o.Arg)
					if (err == nil) != ok {
						return fw.V("selection-changes", "operation %d: %s for the %dth time in a row gives error %v, before it gave none: %v", i, what, k+2, err, ok)
					}
					if !ok && s.b.DiceBot != now {
						return fw.V("wrong-game-selected", "operation %d: %s failed but the game system of the session was replaced", i, what)
					}
				}
				x.Count("selections repeated at once", o.Rep)
			case "source":
				s.source(x, o)
			case "ids":
				// the lists of the process stay what they are
				if got, want := fmt.Sprint(list.AvailableGameIDs(true)), fmt.Sprint(hc.GameIDs()); hc.Registered && got != want {
					return fw.V("game-list-changed", "operation %d: the available game systems are %s, they should be %s", i, got, want)
				}
			}
			if v := state(i, what); v != nil {
				return v
			}
			continue
		}
		seen = seen[:0]
		res, err := s.do(x, i, o)
		got := hc.Snap(res, err)
		what := fmt.Sprintf("session %d %q", o.S, hc.Short(o.Text()))
		if o.Via != "" {
			what += " (given to the " + map[string]string{"basic": "basic commands", "bot": "game system"}[o.Via] + " directly)"
		}
		if v := state(i, what); v != nil {
			return v
		}
		g := hc.GameOf(games[o.S])
		text := o.Text()
		if o.Via == "" && (strings.HasPrefix(text, "S") || strings.HasPrefix(text, "s")) {
			text = text[1:]
		}
		first := firstWord.FindString(text)
		if o.Via == "basic" {
			if len(seen) > 0 {
				return fw.V("wrong-offer", "operation %d %s is given to the basic commands, game system %s was offered %q", i, what, games[o.S], seen)
			}
		} else if g != nil && (len(seen) != 1 || seen[0] != first) && validText(text) {
			return fw.V("wrong-offer", "operation %d %s: game system %s was offered %q, it should be offered %q once", i, what, g.ID, seen, first)
		}
		if g == nil && len(seen) > 0 {
			return fw.V("wrong-offer", "operation %d %s: game system DiceBot is selected, another one was offered %q", i, what, seen)
		}
		want, by, known := expect(games[o.S], o)
		if by == "tally" {
			// only the commands of this session since the selection count
			tally[o.S]++
			msg := "Tally : " + g.TallyText(tally[o.S])
			if again := "Tally : " + g.TallyText(tally[o.S]-kept[o.S]); kept[o.S] > 0 && got.Message == again {
				tally[o.S] -= kept[o.S]
				msg = again
			}
			kept[o.S] = 0
			if got.Err || got.Message != msg {
				return fw.V("shared-game-system", "operation %d %s answers %s; the game system of this session should answer %q", i, what, got, msg)
			}
			x.Count("answers of a game system with a state of its own", 1)
			continue
		}
		if !known {
			continue
		}
		x.Count("answered by "+by, 1)
		x.Distinct("game system x route x kind of command", fw.HashString(0, fmt.Sprint(games[o.S], by, got.Err, o.Cmd != nil && o.Cmd.Kind == "D", o.Cmd != nil && o.Cmd.Comment != "")))
		byGame = byGame || by == "game"
		byBasic = byBasic || by == "basic"
		if g != nil && by == "basic" {
			if k, _, _, _ := g.Split(first); k == "D" {
				x.Probe("declined after drawing")
				got.Dice = want.Dice
			}
		}
		if !want.Equal(got) {
			return fw.V("wrong-route", "operation %d %s (game system %s, dice %s) answers %s; routed by %s it should be %s", i, what, games[o.S], hc.DiceText(s.f.Delivered()), got, by, want)
		}
		if o.Rep > 0 {
			if v := s.repeat(x, o, hc.Snap(res, err)); v != nil {
				v.Class = "wrong-route"
				v.Detail = fmt.Sprintf("operation %d: game system %s: %s", i, games[o.S], v.Detail)
				return v
			}
		}
		if got.Err {
			continue
		}
		if n := len(s.f.Log); by == "game" && len(want.Dice) != n {
			return fw.V("wrong-route", "operation %d %s: %d dice were drawn, the game system's answer needs %d", i, what, n, len(want.Dice))
		}
	}
	if len(selected) >= 2 && refused && byGame && byBasic {
		x.NonTrivial()
	}
	return nil
}

func validText(s string) bool {
	for _, r := range s {
		if r == 0xfffd {
			return false
		}
	}
	return true
}
