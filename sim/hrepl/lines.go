package hrepl

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	dicebotlist "github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dicebottesting "github.com/raa0121/GoBCDice/pkg/dicebot/testing"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/hcore"
	"verifsim/model"
)

func listed() []string {
	if hc.Registered {
		return hc.GameIDs()
	}
	return dicebotlist.AvailableGameIDs(true)
}

func parseDice(s string) ([]dice.Die, error) { return dicebottesting.ParseDice(s) }

// asm is the model of the line reader: which lines the bytes typed so far amount to.
type asm struct {
	buf  []rune
	pend []byte
	over bool // ^D on an empty line, or the end of the input
}

func (a *asm) feed(b []byte) (lines []string) {
	if a.over {
		return
	}
	a.pend = append(a.pend, b...)
	for len(a.pend) > 0 && utf8.FullRune(a.pend) {
		r, n := utf8.DecodeRune(a.pend)
		a.pend = a.pend[n:]
		switch r {
		case '\n':
			lines = append(lines, string(a.buf))
			a.buf = nil
		case 3:
			a.buf = nil
		case 4:
			if len(a.buf) == 0 {
				a.over = true
				return
			}
		case 26:
		default:
			a.buf = append(a.buf, r)
		}
	}
	return
}

func (a *asm) end() (lines []string) {
	if a.over {
		return
	}
	for range a.pend {
		a.buf = append(a.buf, utf8.RuneError)
	}
	a.pend, a.over = nil, true
	if len(a.buf) > 0 {
		lines = append(lines, string(a.buf))
	}
	return
}

// validKeys: only keys whose meaning the model of the line reader knows.
func validKeys(s string, newline bool) bool {
	if len(s) > 6000 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\n' && newline, c == 3, c == 4, c == 26:
		case c < 0x20, c == 0x7f:
			return false
		}
	}
	for _, c := range s {
		if c == 0x3000 || c == 0x85 || c == 0xa0 || c == 0x2028 || c == 0x2029 {
			return false // nor is the end of a REPL command's name clear with these
		}
	}
	// nor what something glued to the name of a REPL command means
	if glued.MatchString(s) || bigDie.MatchString(s) {
		return false
	}
	// what .quit with arguments does is not specified
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, ".quit"); i >= 0 && strings.TrimLeft(l[i+5:], "\x03\x04\x1a ") != "" {
			return false
		}
	}
	return true
}

// dice whose numbers no int can hold are a known finding (C17)
var bigDie = regexp.MustCompile(`[0-9]{19,}[\s\x03\x04\x1a]*/|/[\s\x03\x04\x1a]*[0-9]{19,}`)

var glued = regexp.MustCompile(`\.(ast|eval|roll|set-game|list-games|set-die-feeder|set-dice-queue|help|quit)[\x03\x04\x1a]*[^-a-z \n\x03\x04\x1a]`)

// onlyText makes the text of a generated command typeable.
func onlyText(s string) string {
	return strings.Map(func(r rune) rune {
		if r < 0x20 || r == 0x7f || r == 0x3000 || r == 0x85 || r == 0xa0 {
			return ' '
		}
		return r
	}, s)
}

// writer draws lines for the REPL.
type writer struct {
	r   *fw.Rand
	cfg *model.GenCfg
	// weights
	set, bad float64
}

func newWriter(r *fw.Rand) *writer {
	return &writer{r: r, cfg: model.NewCfg(r), set: float64(r.PickInt(10, 25, 50)) / 100, bad: float64(r.PickInt(5, 15, 40)) / 100}
}

// command draws a BCDice command and the dice it needs.
func (w *writer) command() (text string, need []string) {
	r := w.r
	switch {
	case r.P(w.bad * 0.5):
		return r.Pick(append([]string{"ああ", "\xff2D6", "2D6\xe3\x81", ".unknown 2D6", "..eval 2D6", ".", ". q", ".Q", ".QUIT", "q", "quit", "q.", ".qq", ".quitt", ".q.", "-.q", ".eval2D6", ".-", ".roll-", "2D6.q", "SS2D6", "ssC(1)", "s", "S",
			// what users of other shells type
			"exit", "Exit", ".exit", "exit()", ":q", ":q!", ":wq", "/quit", "bye", "logout", "end", "stop", "!!", "!1", "!-1", "!C", "# C(1)", "#", "// C(1)", "; C(1)", "C(1);C(2)", "C(1); .q", "C(1) && C(2)", "C(1) | .q", "help", "?", "history", ".history", "clear", ".clear", "cls", ".reset", ".list", ".h", ".e C(1)", "C(1)\\", "\\", "eval C(1)", "roll 2 6", "> C(1)", "$?", "_", "終了", "ヘルプ",
		}, hcore.Junk...)...), nil
	case r.P(0.2) && hc.Registered:
		o := hcore.GenGameOp(r, w.cfg, 200)
		return o.Text(), w.dice(&o)
	}
	o := hcore.GenOp(r, w.cfg, 200)
	return o.Text(), w.dice(&o)
}

func (w *writer) dice(o *hcore.Op) (out []string) {
	if o.Cmd == nil {
		for i := 0; i < 6; i++ {
			s := w.r.PickInt(6, 6, 10, 100)
			out = append(out, fmt.Sprintf("%d/%d", w.r.Range(1, s), s))
		}
		return
	}
	n := 0
	o.Cmd.Eval(func(sides int) (int, error) {
		v := o.Script.Value(n, sides)
		n++
		out = append(out, strconv.Itoa(v)+"/"+strconv.Itoa(sides))
		return v, nil
	})
	return
}

func (w *writer) spaces() string { return w.r.Pick("", "", "", " ", "  ", "   ") }

// lines draws the lines of one go: one, or a few that belong together.
func (w *writer) lines() (out []string) {
	r := w.r
	put := func(s string) {
		if r.P(0.06) {
			if n := strings.Count(s, " "); n > 0 {
				p := strings.SplitAfterN(s, " ", 2+r.N(n))
				p[len(p)-1] = strings.Repeat(" ", r.PickInt(1, 1, 2, 5)) + p[len(p)-1]
				s = strings.Join(p, "")
			}
		}
		out = append(out, w.spaces()+onlyText(s)+w.spaces())
	}
	if r.P(0.008) {
		// long lines
		switch r.N(3) {
		case 0:
			n, s := r.PickInt(130, 260, 600), r.PickInt(6, 10)
			var ds []string
			for i := 0; i < n; i++ {
				ds = append(ds, fmt.Sprintf("%d/%d", r.Range(1, s), s))
			}
			put(".set-die-feeder queue")
			put(".set-dice-queue " + strings.Join(ds, r.Pick(",", ", ")))
			k := r.Range(1, n)
			put(fmt.Sprintf("%dD%d", k, s))
			put(fmt.Sprintf("%dD%d", n-k, s))
		case 1:
			put(r.Pick("", ".eval ", ".ast ") + "CHOICE[" + strings.Repeat(r.Pick("a,", "い,", "x y, "), r.PickInt(200, 400, 900)) + "b]")
		default:
			put(r.Pick("", "", ".eval ", ".set-game ", ".roll ", ".") + strings.Repeat(r.Pick("x", "あ", "2D6 ", "-"), r.PickInt(300, 700, 1200)))
		}
		return
	}
	if !r.P(w.set) {
		t, need := w.command()
		if len(need) > 0 && len(need) <= 200 && r.P(0.5) {
			if r.P(0.3) {
				put(r.Pick(".set-die-feeder queue", ".set-die-feeder QUEUE", ".set-die-feeder Queue"))
			}
			if r.P(w.bad) { // dice that do not suffice or do not fit
				switch r.N(3) {
				case 0:
					need = need[:r.N(len(need))]
				case 1:
					need[r.N(len(need))] = "1/7"
				default:
					need[r.N(len(need))] = r.Pick("9/6", "0/6", "1/0")
				}
			} else if r.P(0.3) {
				need = append(need, "3/6", "4/6")
			}
			put(".set-dice-queue " + strings.Join(need, r.Pick(", ", ",", "  ,  ")))
		}
		p := r.Pick("", "", "", ".eval ", ".eval  ")
		for n := r.PickInt(1, 1, 1, 2, 3); n > 0; n-- {
			put(p + t)
		}
		if r.P(0.2) {
			put(".ast " + t)
		}
		return
	}
	switch r.N(14) {
	case 0, 1:
		put(".set-game " + r.Pick(listed()...))
	case 2:
		put(".set-game " + r.Pick("Unknown", "dicebot", "alpha", "Alphaa", "DiceBot X", "ダイス", "\xff", ".q", "Over Over"))
	case 3:
		put(".set-game")
	case 4:
		put(".list-games" + r.Pick("", " x"))
	case 5:
		put(".help" + r.Pick("", " x"))
	case 6:
		put(".set-die-feeder " + r.Pick("queue", "mt", "MT", "Mt", "queue", "Queue"))
	case 7:
		put(".set-die-feeder" + r.Pick("", " x", " queue mt", " queues", " q"))
	case 8:
		put(".set-dice-queue " + r.Pick("1/6", "1/6,2/6,3/6, 4/6, 5/6, 6/6", "6/6, 6/6, 6/6, 1/6", "", "x", "1/6, x", "1/6,", "7/6", "0/6", "1/6 2/6", "1 / 6", "10/10,100/100", "-1/6", "1/6,2/6,7/6"))
	case 9:
		put(".roll " + r.Pick("1 6", "2 6", "3 6", "6 6", "1 100", "5 1", "0 6", "2 0", "1", "", "x", "2 6 6", "-1 6", "2d6", "10000 6", "2  6", "1000000000000000000 6", "99999999999999999999 6", "2 99999999999999999999", "0000000000000000000002 06", "3 1000000007"))
	case 10:
		put(r.Pick(".ast", ".ast ") + r.Pick("", "2D6", "S2D6", "s1D6+2>=3", "SS2D6", "2D", "x", "C(1+2*3)", "CHOICE[a,b]", "2R6[5]", "[1...3]D6"))
	case 11:
		put(r.Pick("", ".eval", ".eval "))
	case 12:
		put(".roll 3 6")
		put(".roll 3 6")
	default:
		put(r.Pick(".quitter", ".helpme", ".Help", ".set-game-x Alpha", ".set_game Alpha", ".SET-GAME Alpha", "set-game Alpha", ". help"))
	}
	return
}

// Step is one delivery of input: some keys, after a delay in milliseconds.
type Step struct {
	Keys  fw.Text `json:"keys"`
	Delay int     `json:"delay,omitempty"`
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + "…" + s[len(s)-200:]
	}
	return s
}
