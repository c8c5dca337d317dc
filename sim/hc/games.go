package hc

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/command"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/evaluator"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/pkg/dicebot"

	"verifsim/simrt"
)

// Game is a simulated game system. It answers the commands that begin with its prefix:
//
//	<P>R<n>x<s>   rolls n dice of s sides and answers with them
//	<P>E<cmd>     executes a basic command itself
//	<P>N          answers without dice, with a verdict
//	<P>S          answers with a result that is already marked secret
//	<P>D<n>x<s>   rolls dice and then declines
//	<P>X          declines
//	<P>T          (Tally only) answers how often this instance has been asked this
//
// and declines all others.
type Game struct {
	ID, Title, Key, Prefix string
	// Takes maps whole words to what the game does with them: "R n s", "D n s" or "N".
	Takes map[string]string
	Seen  *[]string
	tally int
}

func (g *Game) GameID() string   { return g.ID }
func (g *Game) GameName() string { return g.Title }
func (g *Game) Usage() string    { return "usage of " + g.ID + "\nsecond line" }
func (g *Game) SortKey() string  { return g.Key }

var errDecline = errors.New("simulated game system: declined")

func (g *Game) ExecuteCommand(c string, ev *evaluator.Evaluator) (*command.Result, error) {
	simrt.Y(21)
	if g.Seen != nil {
		*g.Seen = append(*g.Seen, c)
	}
	k, n, s, rest := g.Split(c)
	switch k {
	case "R", "D":
		ds, err := ev.RollDice(n, s)
		if err != nil {
			return nil, err
		}
		if k == "D" {
			return nil, errDecline
		}
		r := &command.Result{GameID: g.ID, RolledDice: ev.RolledDice()}
		r.AppendMessagePart("(" + c + ")")
		r.AppendMessagePart(g.RollText(ds))
		return r, nil
	case "E":
		node, err := parser.Parse("game", []byte(rest))
		if err != nil {
			return nil, err
		}
		return command.Execute(node.(ast.Node), g.ID, ev)
	case "N":
		r := &command.Result{GameID: g.ID, SuccessCheckResult: command.SUCCESS_CHECK_FAILURE}
		r.AppendMessagePart(g.ID + " answers")
		return r, nil
	case "T":
		simrt.Y(22)
		n := g.tally
		simrt.Y(23)
		g.tally = n + 1
		r := &command.Result{GameID: g.ID}
		r.AppendMessagePart(g.TallyText(g.tally))
		return r, nil
	case "S":
		r := &command.Result{GameID: g.ID, IsSecret: true}
		r.AppendMessagePart(g.ID + " whispers")
		return r, nil
	}
	return nil, errDecline
}

// TallyText is the n-th answer to T.
func (g *Game) TallyText(n int) string { return g.ID + " tally " + strconv.Itoa(n) }

// RollText is how the game shows its dice.
func (g *Game) RollText(ds []dice.Die) string {
	t := g.ID + ":"
	for _, d := range ds {
		t += " " + strconv.Itoa(d.Value)
	}
	return t
}

// Split parses a command of the game; k is "" if it is none.
func (g *Game) Split(c string) (k string, n, s int, rest string) {
	if t, ok := g.Takes[c]; ok {
		k = t[:1]
		fmt.Sscanf(t[1:], "%d %d", &n, &s)
		return
	}
	if g.Prefix == "" || !strings.HasPrefix(c, g.Prefix) || len(c) <= len(g.Prefix) {
		return
	}
	c = c[len(g.Prefix):]
	k, rest = c[:1], c[1:]
	switch k {
	case "R", "D":
		if _, err := fmt.Sscanf(rest, "%dx%d", &n, &s); err != nil || fmt.Sprintf("%dx%d", n, s) != rest {
			return "", 0, 0, ""
		}
	case "N", "S", "X", "T":
		if rest != "" {
			return "", 0, 0, ""
		}
	case "E":
	default:
		return "", 0, 0, ""
	}
	if k == "T" && g.ID != "Tally" {
		return "", 0, 0, ""
	}
	return
}

// Games are the simulated game systems.
var Games = []*Game{
	{ID: "Alpha", Title: "Alpha System", Key: "b", Prefix: "A!"},
	{ID: "beta", Title: "ベータ", Key: "へた", Prefix: "B!"},
	{ID: "Zeta", Title: "Zeta \"quoted\" <&>", Key: "a", Prefix: "Z!"},
	{ID: "Cthulhu", Title: "クトゥルフ", Key: "くとうるふ", Prefix: "S!"},
	{ID: "Silent", Title: "No commands", Key: "zz", Prefix: ""},
	{ID: "Over", Title: "Overrides basic commands", Key: "ｏ", Takes: map[string]string{
		"1D100": "R 1 100", "2D6": "R 3 6", "1D20": "D 2 20", "3B6": "D 1 6", "C(1+1)": "N", "CHOICE[a,b]": "R 1 2", "CHOICE[a": "N", "2R6[5]": "N", "": "N",
	}},
	{ID: "Tally", Title: "Counts", Key: "c", Prefix: "T!"},
}

// Registered reports whether the simulated game systems could be added to the list.
var Registered bool

// RegisterGames adds the simulated game systems to the library's list, once per process.
func RegisterGames() {
	if Registered {
		return
	}
	add, ok := simrt.Hooks["games"].(func(string, dicebot.DiceBotConstructor))
	if !ok {
		return
	}
	for _, g := range Games {
		add(g.ID, func() dicebot.DiceBot { c := *g; return &c })
	}
	Registered = true
}

// GameIDs lists the identifiers a user can select, the basic one first.
func GameIDs() []string {
	ids := []string{}
	if Registered {
		for _, g := range Games {
			ids = append(ids, g.ID)
		}
	}
	sort.Strings(ids)
	return append([]string{"DiceBot"}, ids...)
}

// GameOf returns the simulated game system with the identifier, or nil.
func GameOf(id string) *Game {
	for _, g := range Games {
		if g.ID == id {
			return g
		}
	}
	return nil
}
