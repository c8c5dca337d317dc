package hrepl

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/ast"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/dice/roller"
	"github.com/raa0121/GoBCDice/pkg/core/parser"

	"verifsim/simrt"
)

const (
	header    = "\x1b[36m=>\x1b[0m "
	secretMsg = "\x1b[33m[secret]\x1b[0m "
	okText    = "\x1b[36mOK\x1b[0m\n"
)

func red(s string) string { return "\x1b[31m" + s + "\x1b[0m\n" }

// Ref is the reference of the REPL: what each line answers and how it changes the state, in
// terms of the library's sessions.
type Ref struct {
	Game  string
	Queue bool
	Dice  []dice.Die
	mt    *feeder.MT19937
	Ended bool
	help  string
	// what the lines reached
	Evals, Secrets, Changes, Errors int
	// commands that failed because the dice queue ran out or held other dice
	DiceFaults map[string]int
}

// newRef is the reference of a REPL that was made at the present time of the clock.
func newRef() *Ref {
	return &Ref{Game: "DiceBot", mt: feeder.NewMT19937(simrt.Now().UnixNano())}
}

func (r *Ref) source() feeder.DieFeeder {
	if r.Queue {
		return feeder.NewQueue(r.Dice)
	}
	return r.mt
}

// session is a session of the library in the state of the REPL.
func (r *Ref) session() *bcdice.BCDice {
	b := bcdice.New(r.source())
	if err := b.SetDiceBotByGameID(r.Game); err != nil {
		panic(fmt.Sprintf("reference: %v", err))
	}
	return b
}

var dotRe = regexp.MustCompile(`^\.([-a-z]+)(?:[\t\n\v\f\r ]+(.*))?$`)

var usages = map[string]string{
	"ast": ".ast BCDiceコマンド", "eval": ".eval BCDiceコマンド", "roll": ".roll 振る数 面の数", "set-die-feeder": ".set-die-feeder mt/queue",
}

func usage(c string) string { return "使用法: " + usages[c] + "\n" }

// reply is what a line must answer.
type reply struct {
	text string
	// help: the text is that of the help command
	help bool
}

// Line executes a line.
func (r *Ref) Line(line string) reply {
	line = strings.TrimSpace(line)
	if line == ".q" {
		r.Ended = true
		return reply{}
	}
	name, args := "eval", line
	if m := dotRe.FindStringSubmatch(line); m != nil {
		switch m[1] {
		case "ast", "eval", "roll", "set-game", "list-games", "set-die-feeder", "set-dice-queue", "help", "quit":
			name, args = m[1], strings.TrimRight(m[2], "\t\n\v\f\r ")
		}
	}
	switch name {
	case "eval":
		return reply{text: r.eval(args)}
	case "ast":
		if args == "" {
			return reply{text: usage("ast")}
		}
		cmd, secret := cutSecret(args)
		n, err := parser.Parse("REPL", []byte(cmd))
		if err != nil {
			r.Errors++
			return reply{text: red(err.Error())}
		}
		t := header
		if secret {
			t += secretMsg
		}
		return reply{text: t + n.(ast.Node).SExp() + "\n"}
	case "roll":
		f := strings.Fields(args)
		if len(f) != 2 || !digits(f[0]) || !digits(f[1]) {
			return reply{text: usage("roll")}
		}
		num, err1 := strconv.Atoi(f[0])
		sides, err2 := strconv.Atoi(f[1])
		if err1 != nil || err2 != nil {
			if err1 == nil {
				err1 = err2
			}
			r.Errors++
			return reply{text: red(err1.Error())}
		}
		r.Evals++
		ds, err := roller.New(r.source()).RollDice(num, sides)
		if err != nil {
			r.failed()
			r.Errors++
			return reply{text: red(err.Error())}
		}
		var p []string
		for _, d := range ds {
			p = append(p, fmt.Sprintf("%d/%d", d.Value, d.Sides))
		}
		return reply{text: header + strings.Join(p, ", ") + "\n"}
	case "set-game":
		if args == "" {
			return reply{text: r.Game + "\n"}
		}
		b := r.session()
		if err := b.SetDiceBotByGameID(args); err != nil {
			r.Errors++
			return reply{text: red(err.Error())}
		}
		r.Game = args
		r.Changes++
		return reply{text: okText}
	case "list-games":
		return reply{text: strings.Join(listed(), "\n") + "\n"}
	case "set-die-feeder":
		switch strings.ToLower(args) {
		case "queue":
			r.Queue, r.Dice = true, nil
		case "mt":
			r.Queue, r.mt = false, feeder.NewMT19937(simrt.Now().UnixNano())
		default:
			return reply{text: usage("set-die-feeder")}
		}
		r.Changes++
		return reply{text: okText}
	case "set-dice-queue":
		if !r.Queue {
			r.Errors++
			return reply{text: red("現在のダイス供給方法では、取り出されるダイスの列を設定できません")}
		}
		ds, err := parseDice(args)
		if err != nil {
			r.Errors++
			return reply{text: red(err.Error())}
		}
		r.Dice = ds
		r.Changes++
		return reply{text: okText}
	case "help":
		return reply{help: true}
	case "quit":
		r.Ended = true
	}
	return reply{}
}

// failed counts a command whose dice were not what it needed.
func (r *Ref) failed() {
	if !r.Queue {
		return
	}
	if r.DiceFaults == nil {
		r.DiceFaults = map[string]int{}
	}
	if len(r.Dice) == 0 {
		r.DiceFaults["die:empty queue"]++
	} else {
		r.DiceFaults["die:queue runs out or holds other dice"]++
	}
}

func (r *Ref) eval(args string) string {
	if args == "" {
		return usage("eval")
	}
	r.Evals++
	b := r.session()
	res, err := b.ExecuteCommand(args)
	if err != nil {
		if q, ok := b.DieFeeder().(*feeder.Queue); ok && q.Remaining() < len(r.Dice) || r.Queue && len(r.Dice) == 0 {
			r.failed()
		}
		r.Errors++
		return red(err.Error())
	}
	t := header
	if _, secret := cutSecret(args); secret {
		r.Secrets++
		t += secretMsg
	}
	return t + res.Message() + "\n"
}

func cutSecret(s string) (string, bool) {
	if s != "" && (s[0] == 'S' || s[0] == 's') {
		return s[1:], true
	}
	return s, false
}

func digits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// matches compares what was printed with a reply.
func (r *Ref) matches(got string, want reply) bool {
	if !want.help {
		return got == want.text
	}
	if r.help == "" {
		for _, c := range []string{".ast", ".eval", ".roll", ".set-game", ".list-games", ".set-die-feeder", ".set-dice-queue", ".help", ".quit"} {
			if !strings.Contains(got, c) {
				return false
			}
		}
		r.help = got
	}
	return got == r.help
}
