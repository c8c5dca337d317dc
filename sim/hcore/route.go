package hcore

import (
	"regexp"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/dice"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

var firstWord = regexp.MustCompile(`^\S*`)

// expect says what the session must answer to the operation when the game system is selected:
// the secret mark is taken off, the game system is asked for the first word, and what it
// declines is a basic command. known is false for texts whose meaning the model does not know.
func expect(gameID string, o *Op) (s hc.Snapshot, by string, known bool) {
	text := o.Text()
	if o.Via == "basic" {
		if o.Cmd == nil {
			return hc.Snapshot{}, "", false
		}
		n := 0
		a, err := o.Cmd.Eval(func(sides int) (int, error) {
			n++
			return o.Script.Value(n-1, sides), nil
		})
		if err != nil {
			return hc.Snapshot{Err: true, Nil: true}, "basic", true
		}
		s = hc.Expected(a, gameID)
		s.Secret = false
		return s, "basic", true
	}
	secret := strings.HasPrefix(text, "S") || strings.HasPrefix(text, "s")
	if secret {
		text = text[1:]
	}
	if o.Via == "bot" {
		secret, text = false, o.Text()
		if hc.GameOf(gameID) == nil {
			return hc.Snapshot{Err: true, Nil: true}, "none", true // the basic game system takes nothing
		}
	}
	first := firstWord.FindString(text)
	n := 0
	src := func(sides int) (int, error) {
		n++
		return o.Script.Value(n-1, sides), nil
	}
	if g := hc.GameOf(gameID); g != nil {
		k, num, sides, rest := g.Split(first)
		switch k {
		case "R", "D":
			if num < 1 || sides < 1 || num > 1000 {
				return hc.Snapshot{}, "", false
			}
			var ds []dice.Die
			for i := 0; i < num; i++ {
				v, _ := src(sides)
				ds = append(ds, dice.Die{Value: v, Sides: sides})
			}
			if k == "R" {
				return hc.Snapshot{Message: gameID + " : (" + first + ") ＞ " + g.RollText(ds), GameID: gameID, Dice: ds, Secret: secret}, "game", true
			}
			if o.Cmd != nil && o.Pre == "" && o.Via == "" {
				break
			}
			// declined; the text is no basic command either
			return hc.Snapshot{Err: true, Nil: true}, "none", true
		case "N":
			return hc.Snapshot{Message: gameID + " : " + gameID + " answers", GameID: gameID, Success: 2, Secret: secret}, "game", true
		case "T":
			return hc.Snapshot{}, "tally", false
		case "S":
			return hc.Snapshot{Message: gameID + " : " + gameID + " whispers", GameID: gameID, Secret: secret || o.Via == "bot"}, "game", true
		case "X":
			return hc.Snapshot{Err: true, Nil: true}, "none", true
		case "E":
			if o.Cmd == nil || o.Cmd.Body() != rest {
				return hc.Snapshot{}, "", false
			}
			a, err := o.Cmd.Eval(src)
			if err != nil {
				// the game system failed, and the text is no basic command
				return hc.Snapshot{Err: true, Nil: true}, "none", true
			}
			s = hc.Expected(a, gameID)
			s.Secret = secret
			return s, "game", true
		}
	}
	if o.Via == "bot" {
		return hc.Snapshot{Err: true, Nil: true}, "none", true
	}
	if o.Cmd == nil || o.Pre != "" {
		for _, g := range hc.Games {
			if g.Prefix != "" && strings.HasPrefix(text, g.Prefix) {
				return hc.Snapshot{Err: true, Nil: true}, "none", true // a command of another game system
			}
		}
		return hc.Snapshot{}, "", false
	}
	a, err := o.Cmd.Eval(src)
	if err != nil {
		return hc.Snapshot{Err: true, Nil: true}, "basic", true
	}
	s = hc.Expected(a, gameID)
	s.Secret = secret
	return s, "basic", true
}

// glue are characters that look like blanks but do not end a word.
var glue = []string{"　", "\u00a0", "\u0085", "\v", "\u2028", "\u3000\u3000", "\u2003", "\x1f", "\x00", "\ufeff", "、", ",", "#", "\u180e"}

// genGameOp draws a command of a game system.
func genGameOp(r *fw.Rand, cfg *model.GenCfg, limit int) Op { return genGameOpOf(r, cfg, limit, "") }

// genGameOpOf draws a command of a game system, mostly of the one named.
func genGameOpOf(r *fw.Rand, cfg *model.GenCfg, limit int, id string) Op {
	g := hc.Games[r.N(len(hc.Games))]
	if s := hc.GameOf(id); s != nil && r.P(0.7) {
		g = s
	}
	for g.Prefix == "" {
		g = hc.Games[r.N(len(hc.Games))]
	}
	sec := ""
	if r.P(cfg.Secret) {
		sec = r.Pick("S", "s")
	}
	tail := ""
	if r.P(cfg.Comment) {
		tail = r.Pick(append(oddComments, " x", " 2D6", "\tcomment", " ", " x", " 2D6", "\tcomment", " ")...)
	}
	if r.P(cfg.Comment * 0.25) {
		tail = r.Pick(glue...) + r.Pick("", "x", " x", "2D6")
	}
	o := Op{Script: hc.NewScript(r)}
	switch r.N(6) {
	case 0:
		o.Raw = fw.Text(sec + g.Prefix + "N" + tail)
	case 1:
		o.Raw = fw.Text(sec + g.Prefix + "S" + tail)
	case 2:
		o.Raw = fw.Text(sec + g.Prefix + "X" + tail)
	case 3:
		o.Raw = fw.Text(sec + g.Prefix + r.Pick("R", "R", "D") + r.Pick("1x6", "2x6", "3x10", "1x100", "5x2") + tail)
	default:
		for {
			o = genOp(r, cfg, limit)
			o.Pre = g.Prefix + "E"
			if !strings.ContainsAny(o.Cmd.Body(), " \t\n　") {
				break
			}
			o.Pre = ""
			if r.P(0.2) {
				break
			}
		}
	}
	return o
}
