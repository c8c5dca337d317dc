package hcore

import (
	"fmt"
	"regexp"
	"strings"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
	"verifsim/simrt"
)

// AnyOp is a text given as a command.
type AnyOp struct {
	Text   fw.Text    `json:"text,omitempty"`
	Script hc.Script  `json:"script"`
	Faults []hc.Fault `json:"faults,omitempty"`
	Game   string     `json:"game,omitempty"`  // selected before
	Known  int        `json:"known,omitempty"` // the known finding at this depth
	// Deep texts: Open, Nest times, Mid, Close, Nest times, End
	Open  string `json:"open,omitempty"`
	Mid   string `json:"mid,omitempty"`
	Close string `json:"close,omitempty"`
	Nest  int    `json:"nest,omitempty"`
	Head  string `json:"head,omitempty"`
	End   string `json:"end,omitempty"`
}

type AnyCase struct {
	Ops []AnyOp `json:"ops"`
}

// anyBudget is the number of steps within which every text must be done (the unchanged tree
// needs at most about a fifth of it); knownBudget is that of the known finding.
const (
	anyBudget   = 1_000_000_000
	knownBudget = 200_000_000
)

func init() {
	fw.Register(fw.Check{
		ID:     "C19",
		Rule:   "1-8 texts of up to 1,000 bytes in one session (commands damaged in bytes or tokens, sequences of grammar tokens, nesting of many shapes, huge numbers, arbitrary bytes) with die sources that fail, deliver impossible dice or never stop exploding, under every game system; each must end in a result or an error within 1,000,000,000 steps and 2,500,000 draws; non-trivial: a result with dice and an error in the same run",
		Real:   []string{"bcdice sessions, parser, evaluator, notation, command, roller"},
		Stub:   []string{"die source", "game systems (registered through the overlay)"},
		Assume: []string{"a step is one statement of the library", "texts with more than 8 parenthesised divisors are left to the known finding"},
		Chunk:  40, Quick: 110, Thorough: 20000,
		Before: func(x *fw.Ctx) { hc.RegisterGames() },
	}, genC19, validC19, execC19)
}

func (o *AnyOp) text() string {
	if o.Known > 0 {
		return "C(" + strings.Repeat("1/(", o.Known) + "1" + strings.Repeat(")", o.Known) + ")"
	}
	if o.Nest > 0 {
		return o.Head + strings.Repeat(o.Open, o.Nest) + o.Mid + strings.Repeat(o.Close, o.Nest) + o.End
	}
	return string(o.Text)
}

var divisorRe = regexp.MustCompile(`/[-+]*[(\[]`)

func validC19(c *AnyCase) bool {
	if len(c.Ops) > 20 {
		return false
	}
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.Nest < 0 || o.Nest > 1000 || o.Known < 0 || o.Known > 24 {
			return false
		}
		t := o.text()
		if len(t) > 1000 {
			return false
		}
		if o.Known == 0 && len(divisorRe.FindAllString(t, -1)) > 8 {
			return false
		}
		for _, f := range o.Faults {
			if f.At < 0 {
				return false
			}
		}
	}
	return true
}

var anyTokens = []string{
	"D", "d", "B", "R", "U", "b", "r", "u", "C(", "CHOICE[", "choice[", "S", "s", "(", ")", "[", "]", "...", "..", ".", ",", "+", "-", "*", "/", "U", "R", ">=", "<=", ">", "<", "=", "<>", "!=", "=>", "=<", "==", "@", "#", "!", "?", "&", "^",
	"1", "2", "3", "6", "10", "100", "0", "00", "007", "1000000", "1000001", "999999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "1D6", "2D6", "2B6", "2R6", "2U6", "1d6", "[1...6]", "[6...1]", "(1+2)", "1U6[6]", "2R6[5]", "2R6>=5", "CHOICE[a,b]", "C(1+2)", " ", "\t", "\n", "　", "あ", "＋", "６", "ｄ", "\x00", "\xff", "\xc3", "é", "\u202e", "A!R2x6", "B!E2D6", "Z!N", "A!D3x6", "x",
}

func genAnyText(r *fw.Rand, cfg *model.GenCfg) string {
	switch r.N(7) {
	case 0: // tokens
		var b strings.Builder
		for n := r.PickInt(1, 2, 3, 5, 8, 15, 40, 150); n > 0; n-- {
			b.WriteString(r.Pick(anyTokens...))
		}
		return b.String()
	case 1: // bytes
		n := r.PickInt(0, 1, 2, 5, 20, 200, 1000)
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(r.N(256))
		}
		return string(p)
	case 2: // runes
		var b strings.Builder
		for n := r.PickInt(1, 3, 10, 100, 300); n > 0; n-- {
			b.WriteRune(rune(r.PickInt(r.N(128), r.N(0x800), r.N(0x3100), r.N(0x110000))))
		}
		return b.String()
	}
	t := cfg.Cmd(r).Text()
	for n := r.PickInt(1, 1, 1, 2, 3, 6); n > 0; n-- {
		i := r.N(len(t) + 1)
		j := i + r.N(4)
		if j > len(t) {
			j = len(t)
		}
		switch r.N(9) {
		case 8: // all numbers are among a few
			few := []string{r.Pick("0", "0", "1"), r.Pick("0", "1", "1", "2", "1000000", "9223372036854775807")}
			t = regexp.MustCompile(`\d+`).ReplaceAllStringFunc(t, func(s string) string {
				return r.Pick(few...)
			})
		case 0: // delete
			t = t[:i] + t[j:]
		case 1: // repeat
			t = t[:j] + t[i:]
			if r.P(0.2) && j > i {
				t = t[:j] + strings.Repeat(t[i:j], r.PickInt(10, 50, 100)) + t[j:]
			}
		case 2: // cut
			t = t[:i]
		case 3: // numbers
			t = regexp.MustCompile(`\d+`).ReplaceAllStringFunc(t, func(s string) string {
				if r.P(0.4) {
					return r.Pick("0", "1", "-1", "1000000", "1000001", "500000", "999999999", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "100000", s+s, s+"0", "")
				}
				return s
			})
		case 4: // joined with another
			t += r.Pick("+", "-", "*", "/", ",", " ", "", ">=", "[", "(", "D", "\n") + cfg.Cmd(r).Text()
		default: // token in
			t = t[:i] + r.Pick(anyTokens...) + t[i+(j-i)*r.N(2):]
		}
		if len(t) > 1000 {
			t = t[:1000]
		}
	}
	return t
}

// shapes of nesting and repetition: head, open, middle, close, end.
var anyShapes = [][5]string{
	{"C(", "(", "1", ")", ")"}, {"", "(", "1", ")", "D6"}, {"2D6+", "(", "1", ")", ""}, {"", "(", "2D6", "", ""}, {"", "(", "2D6", ")", ">=7"}, {"C(", "-", "1", "", ")"}, {"C(", "-(", "1", ")", ")"}, {"C(", "1+(", "1", ")", ")"},
	{"C(", "1*(", "2", ")", ")"}, {"", "[1...(", "1", ")]", "D6"}, {"2D", "(", "6", ")", ""}, {"2D6>=", "(", "1", ")", ""}, {"", "(", "1", ")", "B6"}, {"2B", "(", "6", ")", ""}, {"", "(", "1", "D6)", "D6"}, {"2D6", "", "", "+1D6", ""}, {"2B6", "", "", "+3B10", ""},
	{"2R6", "", "", "+3R6", "[5]"}, {"2U6", "", "", "+3U6", "[5]>=10"}, {"CHOICE[a", "", "", ",b", "]"}, {"CHOICE", "[", "a,b", "]", ""}, {"C(1", "", "", "+1", ")"}, {"C(1", "", "", "*9", ")"}, {"C(9", "", "", "/1", ")"}, {"C(9", "", "", "/2U", ")"}, {"1D6", "", "", "-1", ""},
	{"", "S", "2D6", "", ""}, {"2D6", "", "", " ", "x"}, {"", "9", "D6", "", ""}, {"2D", "9", "", "", ""}, {"2R6[", "(", "5", ")", "]"}, {"2R6>=", "(", "5", ")", ""}, {"2U6[", "-", "5", "", "]"}, {"2D6>=", "-", "5", "", ""}, {"", "+", "2D6", "", ""}, {"", "-", "2D6", "", ""}, {"", "1D6*", "1", "", ""}, {"", "[1...", "6", "]", "D6"},
	{"", "あ", "", "", ""}, {"2D6[", "[", "1", "]", ""}, {"1U6[2]", "", "", "+1", ""}, {"C", "(", "", "", ""}, {"", "((1)D", "6", ")", ""}, {"", "(1D6+", "1", ")", ""}, {"", "1D(", "6", ")", ""}, {"", "(1+", "1", ")*2", "D6"},
}

func genC19(r *fw.Rand, tier string) *AnyCase {
	c := &AnyCase{}
	if r.P(0.002) {
		c.Ops = []AnyOp{{Known: 22}}
		return c
	}
	cfg := model.NewCfg(r)
	if r.P(0.3) {
		cfg.Bad = 0.3
	}
	pf := float64(r.PickInt(0, 10, 40)) / 100
	for n := r.Range(1, 8); n > 0; {
		o := AnyOp{Script: hc.NewScript(r)}
		if r.P(0.1) {
			o.Script.Mode = "max"
		}
		if r.P(0.3) {
			o.Game = r.Pick("DiceBot", "Alpha", "beta", "Zeta", "Cthulhu", "Silent", "Over", "Unknown")
		}
		switch {
		case r.P(0.25):
			s := anyShapes[r.N(len(anyShapes))]
			o.Head, o.Open, o.Mid, o.Close, o.End = s[0], s[1], s[2], s[3], s[4]
			o.Nest = r.PickInt(1, 2, 5, 10, 20, 40, 80)
			if r.P(0.1) {
				o.Nest = r.PickInt(120, 200)
			}
		case r.P(0.02): // big but allowed
			o.Text = fw.Text(r.Pick("1000000D6", "1000000B6", "999999R6[2]", "1000R6[2]", "10000R6[6]", "100U6[2]", "1U6[2]", "1R6[2]", "10000U2[2]", "1000001D6", "500000D6+500001D6", "100000U6[6]", "1000000D1000000", "1D9223372036854775807", "1R1[1]", "1R1[2]", "1U1[2]>=5", "100R6+100R10[2]", "S1000000B2>=2", "9223372036854775807D6", "(1000000*1000000)D6", "C(9223372036854775807+1)", "C(-9223372036854775807-2)", "C(9223372036854775807*9223372036854775807)", "2D(9223372036854775807*3)", "[1...9223372036854775807]D6", "[-9223372036854775807...9223372036854775807]D6", "C((-9223372036854775807-1)/-1)", "1D6/0", "1D6/(1-1)U"))
		default:
			o.Text = fw.Text(genAnyText(r, cfg))
		}
		if r.P(pf) {
			o.Faults = []hc.Fault{hc.NewFault(r, r.PickInt(0, 0, 1, 2, 5, 20))}
		}
		if !validC19(&AnyCase{Ops: []AnyOp{o}}) {
			continue
		}
		c.Ops = append(c.Ops, o)
		n--
	}
	return c
}

func execC19(x *fw.Ctx, c *AnyCase) *fw.Violation {
	s := newSession(x)
	results, errs := false, false
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.Game != "" {
			s.b.SetDiceBotByGameID(o.Game)
		}
		text := o.text()
		s.f.Begin(o.Script, o.Faults)
		start := simrt.Steps()
		var err error
		var isNil bool
		var msg string
		dice := 0
		p := fw.Catch(func() {
			budget := uint64(anyBudget)
			if o.Known > 0 {
				budget = knownBudget
			}
			simrt.SetBudget(budget)
			defer simrt.SetBudget(0)
			res, e := s.b.ExecuteCommand(text)
			err, isNil = e, res == nil
			if res != nil {
				msg = res.Message()
				dice = len(res.RolledDice)
			}
		})
		used := simrt.Steps() - start
		if o.Known > 0 {
			key := fmt.Sprintf("nested-divisors-%d", o.Known)
			if p != nil {
				if e, ok := p.Value.(simrt.BudgetError); ok {
					if line, listed := fw.Listed("C19", key); listed {
						x.Known(line)
						return nil
					}
					return fw.V(e.SimClass(), "operation %d %q: more than %d steps", i, hc.Short(text), knownBudget)
				}
				panic(*p)
			}
			continue
		}
		if p != nil {
			panic(*p)
		}
		x.Ev("%d: %q -> err=%v nil=%v %q dice %d steps %d draws %d", i, hc.Short(text), err != nil, isNil, hc.Short(msg), dice, used, len(s.f.Log))
		x.Count("texts", 1)
		x.Count("draws", len(s.f.Log))
		x.Count("steps", int(used))
		for _, n := range []uint64{10, 50, 100, 200} {
			if used > n*1_000_000 {
				x.Probe(fmt.Sprintf("more than %d,000,000 steps", n))
			}
		}
		if len(s.f.Log) >= 10000 {
			x.Probe("10,000 dice or more")
		}
		if (err == nil) == isNil {
			return fw.V("result-xor-error", "operation %d %q: error %v, result nil: %v", i, hc.Short(text), err, isNil)
		}
		if err == nil {
			x.Count("results", 1)
			results = results || dice > 0
		} else {
			x.Count("errors", 1)
			errs = true
		}
		if used > anyBudget {
			return fw.V("no-progress", "operation %d %q: more than %d steps", i, hc.Short(text), anyBudget)
		}
	}
	if results && errs {
		x.NonTrivial()
	}
	return nil
}
