package model

import (
	"encoding/json"
	"strconv"
	"strings"

	"verifsim/fw"
)

// GenCfg is drawn per run, so that runs differ in kind and size (swarm).
type GenCfg struct {
	W        [6]int // weights of D B R U choice calc
	MaxNum   int
	MaxSides int
	Depth    int
	Rnd      float64 // random numbers in roll operands
	Comp     float64 // comparisons
	Bad      float64 // operands that break the rules
	Secret   float64
	Comment  float64
	Lower    float64
	Hint     float64 // missing or low thresholds
	Many     float64 // many rolls or items in one command
	Far      float64 // numbers far larger than games use
	Zero     float64 // numbers written with zeros in front
}

// NewCfg draws a configuration.
func NewCfg(r *fw.Rand) *GenCfg {
	c := &GenCfg{
		MaxNum:   r.PickInt(1, 2, 3, 5, 9, 20),
		MaxSides: r.PickInt(2, 6, 6, 10, 20, 100, 1000),
		Depth:    r.PickInt(0, 1, 1, 2, 2, 3),
		Rnd:      float64(r.PickInt(0, 0, 10, 30)) / 100,
		Comp:     float64(r.PickInt(0, 30, 50, 100)) / 100,
		Bad:      float64(r.PickInt(0, 0, 3, 15)) / 100,
		Secret:   float64(r.PickInt(0, 20, 50)) / 100,
		Comment:  float64(r.PickInt(0, 20, 50)) / 100,
		Lower:    float64(r.PickInt(0, 50, 100)) / 100,
		Hint:     float64(r.PickInt(0, 5, 20)) / 100,
		Many:     float64(r.PickInt(0, 2, 10)) / 100,
		Far:      float64(r.PickInt(0, 0, 0, 0, 1, 5, 20)) / 100,
		Zero:     float64(r.PickInt(0, 0, 0, 2, 20)) / 100,
	}
	for i := range c.W {
		c.W[i] = r.PickInt(0, 1, 2, 4)
	}
	c.W[r.N(6)] += 2
	return c
}

// Only restricts the configuration to the named kinds.
func (c *GenCfg) Only(kinds ...string) *GenCfg {
	all := []string{"D", "B", "R", "U", "choice", "calc"}
	sum := 0
	for i, k := range all {
		ok := false
		for _, x := range kinds {
			if x == k {
				ok = true
			}
		}
		if !ok {
			c.W[i] = 0
		}
		sum += c.W[i]
	}
	if sum == 0 {
		for i, k := range all {
			for _, x := range kinds {
				if x == k {
					c.W[i] = 1
				}
			}
		}
	}
	return c
}

func (c *GenCfg) num(r *fw.Rand) *E {
	if r.P(c.Far) {
		return c.far(r)
	}
	return c.zeros(r, I(r.Range(1, 20)))
}

func (c *GenCfg) zeros(r *fw.Rand, e *E) *E {
	if r.P(c.Zero) {
		e.Z = r.PickInt(1, 1, 2, 3, 17, 30)
	}
	return e
}

// far draws a number far larger than games use: near the limits of machine numbers, or of any size.
func (c *GenCfg) far(r *fw.Rand) *E {
	if r.P(0.04) {
		return &E{K: "big", N: r.Range(1, 99)}
	}
	b := 1 << uint(r.Range(7, 33))
	if r.P(0.15) {
		b = 1 << uint(r.Range(34, 58))
	}
	if r.P(0.5) {
		return I(max(1, r.PickInt(b-1, b, b+1, b+r.N(100), b-r.N(100), b/2*3)))
	}
	return c.zeros(r, I(b+int(r.U64()%uint64(b))))
}

// Limit is what no number of a command may reach: the model does not speak about results that
// are not integers of the machine.
const limit = float64(1 << 60)

// Bound is an upper bound of the absolute value of the expression and of its parts.
func Bound(e *E) float64 {
	if e == nil {
		return 0
	}
	l, r := Bound(e.L), Bound(e.R)
	switch e.K {
	case "i":
		return float64(e.N)
	case "par", "neg", "pos", "big":
		return l
	case "*", "D":
		return max(l*r, l, r)
	case "rnd":
		return max(l, r)
	}
	return l + r + 1
}

// InRange reports whether all numbers of the command are far from the limits of an int,
// whatever the dice.
func (c *Cmd) InRange() bool {
	sum := 0.0
	for _, x := range c.Rolls {
		sum += Bound(x.Num) * Bound(x.Sides) * (1 + MaxRerolls)
	}
	return sum+Bound(c.Bonus) < limit && Bound(c.Expr) < limit && Bound(c.Target) < limit && Bound(c.Th) < limit
}

// IntExpr draws an expression without dice.
func (c *GenCfg) IntExpr(r *fw.Rand, depth int) *E {
	if depth > 0 && r.P(c.Many*0.2) {
		return c.chain(r, func(int) *E { return c.num(r) })
	}
	if depth <= 0 || r.P(0.35) {
		if r.P(0.05) {
			return I(0)
		}
		return c.num(r)
	}
	return c.combine(r, depth, func(d int) *E { return c.IntExpr(r, d) })
}

// chain is a sum of many terms.
func (c *GenCfg) chain(r *fw.Rand, leaf func(i int) *E) *E {
	e := leaf(0)
	for i, n := 1, r.PickInt(8, 9, 16, 17, 24, 32, 33, 40, 64, 65); i < n; i++ {
		x := leaf(i)
		if r.P(0.2) {
			x = &E{K: "*", L: x, R: I(r.Range(0, 3))}
		}
		e = &E{K: r.Pick("+", "+", "-"), L: e, R: x}
	}
	return e
}

func (c *GenCfg) combine(r *fw.Rand, depth int, leaf func(int) *E) *E {
	switch r.Weighted(4, 4, 3, 2, 1, 1, 1, 1, 1) {
	case 0:
		return &E{K: "+", L: leaf(depth - 1), R: leaf(depth - 1)}
	case 1:
		return &E{K: "-", L: leaf(depth - 1), R: leaf(depth - 1)}
	case 2:
		l, x := leaf(depth-1), leaf(depth-1)
		if strip(x).K[0] == '/' {
			x = strip(x).L // the notation of a*(b/c) is ambiguous
			if strip(x).K[0] == '/' {
				x = c.num(r)
			}
		}
		return &E{K: "*", L: l, R: x}
	case 3:
		return &E{K: "/", L: leaf(depth - 1), R: c.divisor(r, depth-1, leaf)}
	case 4:
		return &E{K: "/U", L: leaf(depth - 1), R: c.divisor(r, depth-1, leaf)}
	case 5:
		return &E{K: "/R", L: leaf(depth - 1), R: c.divisor(r, depth-1, leaf)}
	case 6:
		return &E{K: "neg", L: leaf(depth - 1)}
	case 7:
		return &E{K: "pos", L: leaf(depth - 1)}
	}
	return &E{K: "par", L: leaf(depth - 1)}
}

func (c *GenCfg) divisor(r *fw.Rand, depth int, leaf func(int) *E) *E {
	if r.P(0.25) {
		// whatever may stand there, dice too; not divided again, that notation is ambiguous
		e := leaf(depth)
		for strip(e).K[0] == '/' {
			e = strip(e).L
		}
		return e
	}
	if r.P(0.75) {
		return I(r.Range(1, 9))
	}
	if r.P(c.Bad) {
		return I(0)
	}
	e := c.IntExpr(r, depth)
	if e.K[0] == '/' {
		return e.L
	}
	return e
}

// small checks that the operand stays in bounds whatever its random numbers turn out to be.
func small(e *E, lo, hi int) bool {
	ok := true
	for _, extreme := range []int{0, 1, 2} {
		v := &ev{src: func(s int) (int, error) {
			switch extreme {
			case 0:
				return 1, nil
			case 1:
				return s, nil
			}
			return (s + 1) / 2, nil
		}}
		n, err := v.value(e, nil)
		if err != nil || n < lo || n > hi {
			ok = false
		}
	}
	return ok
}

// operand draws a roll operand: an integer, a random number or a parenthesised expression.
func (c *GenCfg) operand(r *fw.Rand, lo, hi int) *E {
	if r.P(c.Bad) {
		if r.P(c.Far) {
			return &E{K: "big", N: r.Range(1, 99)}
		}
		switch r.N(4) {
		case 0:
			return I(0)
		case 1:
			return &E{K: "-", L: I(r.Range(0, 5)), R: I(r.Range(5, 9))}
		case 2:
			return &E{K: "rnd", L: I(r.Range(3, 9)), R: I(r.Range(1, 3))}
		default:
			return &E{K: r.Pick("/", "/U", "/R"), L: I(3), R: I(0)}
		}
	}
	if r.P(c.Rnd) {
		a := r.Range(lo, max(lo, hi-1))
		b := r.Range(min(a+1, hi), hi)
		lo, hi := I(a), I(b)
		if b > a {
			e := &E{K: "rnd", L: lo, R: hi}
			if r.P(0.2) {
				e.L = &E{K: "-", L: I(a + 2), R: I(2)}
			}
			if r.P(0.2) {
				e.R = &E{K: "+", L: I(b - 1), R: I(1)}
			}
			switch r.N(4) {
			case 0:
				if f := (&E{K: r.Pick("+", "-", "*", "/"), L: e, R: I(r.Range(1, 3))}); small(f, 1, 200) {
					return f
				}
			case 1:
				if f := (&E{K: "+", L: I(r.Range(0, 3)), R: e}); small(f, 1, 200) {
					return f
				}
			}
			return e
		}
	}
	if r.P(0.15) && c.Depth > 0 {
		for i := 0; i < 4; i++ {
			e := c.IntExpr(r, c.Depth)
			if small(e, 1, 60) {
				return e
			}
		}
	}
	return c.zeros(r, I(r.Range(lo, hi)))
}

// sides draws how many sides dice have.
func (c *GenCfg) sides(r *fw.Rand) *E {
	if !r.P(c.Far) {
		return c.operand(r, 1, c.MaxSides)
	}
	e := c.far(r)
	if e.K == "i" && r.P(c.Rnd) {
		return &E{K: "rnd", L: I(r.PickInt(1, e.N/2, e.N-1, e.N-r.N(e.N))), R: e}
	}
	if r.P(0.1) {
		return &E{K: r.Pick("+", "-", "*", "/"), L: e, R: I(r.Range(1, 3))}
	}
	return e
}

// number draws how many dice are rolled.
func (c *GenCfg) number(r *fw.Rand) *E {
	if r.P(c.Far * 0.5) {
		return c.zeros(r, I(r.PickInt(60, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300)))
	}
	return c.operand(r, 1, c.MaxNum)
}

func (c *GenCfg) dice(r *fw.Rand) *E {
	return &E{K: "D", L: c.number(r), R: c.sides(r)}
}

func (c *GenCfg) dExpr(r *fw.Rand, depth int, must bool) *E {
	if r.P(c.Many * 0.3) {
		return c.chain(r, func(i int) *E {
			if must && i == 0 || r.P(0.5) {
				return c.dice(r)
			}
			return c.num(r)
		})
	}
	if depth <= 0 || r.P(0.3) {
		if must || r.P(0.5) {
			return c.dice(r)
		}
		return c.num(r)
	}
	first := must
	return c.combine(r, depth, func(d int) *E {
		m := first
		first = false
		return c.dExpr(r, d, m)
	})
}

func (c *GenCfg) rolls(r *fw.Rand) []Roll {
	n := 1 + r.Weighted(5, 3, 1, 1)
	if r.P(c.Many) {
		n = r.Range(5, 12)
		if r.P(0.3) {
			n = r.PickInt(16, 17, 20, 21, 32, 33, 40, 50, 64, 65)
		}
	}
	out := make([]Roll, n)
	for i := range out {
		out[i] = Roll{Num: c.number(r), Sides: c.sides(r)}
	}
	return out
}

var choiceWords = []string{"a", "b", "c", "abc", "ダイス", "1D6", "x y", "x  y", "S", "りんご", "(1)", "'", "é", "＞", "0", " -", "=", "ABC[", "日 本", "　全 角　", "\u2003幅\u2003", "\u00a0n\u00a0", "\tt\u0085", "\u200bz\u200b", "e\u0301", "\ufeffb", "👩\u200d👧"}

// Cmd draws a command.
func (c *GenCfg) Cmd(r *fw.Rand) *Cmd {
	for i := 0; ; i++ {
		if k := c.cmd(r); k.InRange() || k.Kind == "choice" {
			return k
		}
		if i > 50 {
			d := *c
			d.Far = 0
			c = &d
		}
	}
}

func (c *GenCfg) cmd(r *fw.Rand) *Cmd {
	k := &Cmd{}
	op := func() {
		if r.P(c.Comp) {
			k.Op = r.Pick("=", "<>", "<", ">", "<=", ">=")
			k.Target = c.target(r)
		}
	}
	switch r.Weighted(c.W[:]...) {
	case 0:
		k.Kind = "D"
		k.Expr = c.dExpr(r, c.Depth, true)
		op()
	case 1:
		k.Kind = "B"
		k.Rolls = c.rolls(r)
		op()
	case 2:
		k.Kind = "R"
		k.Rolls = c.rolls(r)
		if r.P(0.7) {
			k.Th = c.threshold(r)
		}
		op()
		if k.Th == nil && k.Op == "" && !r.P(c.Hint) {
			k.Th = c.threshold(r)
		}
	case 3:
		k.Kind = "U"
		k.Rolls = c.rolls(r)
		if !r.P(c.Hint) {
			k.Th = c.threshold(r)
		}
		if r.P(0.4) {
			k.BonusOp = r.Pick("+", "-")
			k.Bonus = c.IntExpr(r, c.Depth)
		}
		op()
	case 4:
		k.Kind = "choice"
		n := 1 + r.Weighted(1, 3, 3, 2, 1)
		if r.P(c.Many) {
			n = r.Range(6, 40)
			if r.P(0.2) {
				n = r.PickInt(100, 257, 300, 600)
			}
		}
		for i := 0; i < n; i++ {
			s := choiceWords[r.N(len(choiceWords))]
			if r.P(0.2) {
				s = " " + s
			}
			if r.P(0.2) {
				s += " "
			}
			if r.P(0.3) {
				s += strconv.Itoa(i)
			}
			k.Items = append(k.Items, s)
		}
		if r.P(0.1) {
			k.Trail = r.Pick(",", ", ")
		}
	case 5:
		k.Kind = "calc"
		k.Expr = c.IntExpr(r, c.Depth+1)
	}
	switch {
	case r.P(c.Lower):
		k.Lower = r.U64()
	}
	if r.P(c.Secret) {
		k.Secret = r.Pick("S", "s")
	}
	if r.P(c.Comment) {
		k.Comment = fw.Text(r.Pick(" ", " a", "\t命中判定", " 2D6", "  S", " S1D6", " comment with spaces", "　", " ＞ "))
		if k.Comment == "　" {
			k.Comment = " 　"
		}
	}
	return k
}

func (c *GenCfg) target(r *fw.Rand) *E {
	if r.P(0.3) && c.Depth > 0 {
		return c.IntExpr(r, c.Depth)
	}
	if r.P(c.Far) {
		return c.far(r)
	}
	return c.zeros(r, I(r.Range(0, c.MaxSides+c.MaxNum)))
}

func (c *GenCfg) threshold(r *fw.Rand) *E {
	if r.P(c.Hint) {
		return I(r.Range(0, 1))
	}
	if r.P(0.1) && c.Depth > 0 {
		return c.IntExpr(r, c.Depth)
	}
	if r.P(c.Far * 2) {
		return c.far(r)
	}
	return c.zeros(r, I(r.Range(2, c.MaxSides+1)))
}

// ---- validity (after shrinking)

func validE(e *E, dice, rnd bool, depth int) bool {
	if e == nil || depth > 12 {
		return false
	}
	switch e.K {
	case "i":
		return e.N >= 0 && e.N < 1<<60 && e.Z >= 0 && e.Z <= 40 && e.L == nil && e.R == nil
	case "big":
		return e.N >= 1 && e.N <= 99 && e.L == nil && e.R == nil
	case "par", "neg", "pos":
		return e.R == nil && validE(e.L, dice, rnd, depth+1)
	case "+", "-", "*", "/", "/U", "/R":
		if e.K == "*" && e.R != nil && e.R.L != nil && strip(e.R).K[0] == '/' {
			return false
		}
		down := depth + 1
		if e.K == "+" || e.K == "-" {
			down = depth // long sums stand in no parentheses
		}
		return validE(e.L, dice, rnd, down) && validE(e.R, dice, rnd, depth+1)
	case "D":
		return dice && validE(e.L, false, true, depth+1) && validE(e.R, false, true, depth+1)
	case "rnd":
		return rnd && validE(e.L, false, false, depth+1) && validE(e.R, false, false, depth+1)
	}
	return false
}

// Valid reports whether the command is one the model speaks about.
func (c *Cmd) Valid() bool {
	if c == nil || !c.InRange() {
		return false
	}
	if c.Op != "" {
		switch c.Op {
		case "=", "<>", "<", ">", "<=", ">=":
		default:
			return false
		}
		if c.Kind == "choice" || c.Kind == "calc" || c.Kind == "raw" || !validE(c.Target, false, false, 0) {
			return false
		}
	} else if c.Target != nil {
		return false
	}
	if c.Comment != "" && !strings.ContainsRune(" \t\n\r\f", rune(c.Comment[0])) {
		return false
	}
	if c.Secret != "" && c.Secret != "S" && c.Secret != "s" {
		return false
	}
	switch c.Kind {
	case "D":
		var ds []*E
		if !validE(c.Expr, true, false, 0) {
			return false
		}
		dnodes(c.Expr, &ds)
		return len(ds) > 0
	case "calc":
		return validE(c.Expr, false, false, 0)
	case "B", "R", "U":
		if len(c.Rolls) == 0 || len(c.Rolls) > 80 {
			return false
		}
		for _, r := range c.Rolls {
			if !validE(r.Num, false, true, 0) || !validE(r.Sides, false, true, 0) {
				return false
			}
		}
		if c.Th != nil && (c.Kind == "B" || !validE(c.Th, false, false, 0)) {
			return false
		}
		if c.Bonus != nil || c.BonusOp != "" {
			if c.Kind != "U" || (c.BonusOp != "+" && c.BonusOp != "-") || !validE(c.Bonus, false, false, 0) {
				return false
			}
		}
		return true
	case "choice":
		if len(c.Items) == 0 || (c.Trail != "" && c.Trail != "," && c.Trail != ", ") {
			return false
		}
		for _, s := range c.Items {
			if !validItem(s) {
				return false
			}
		}
		return true
	case "raw":
		return true
	}
	return false
}

func validItem(s string) bool {
	black := false
	for _, r := range s {
		if r == ',' || r == ']' {
			return false
		}
		if r != ' ' && r != '　' && r != '\t' {
			black = true
		}
	}
	return black
}

// NumDice is an upper bound of how much the command rolls without explosions, or -1.
func (c *Cmd) NumDice(src Source) int {
	n := 0
	a, err := c.Eval(func(s int) (int, error) {
		n++
		if n > 50000 {
			return 0, ErrDraw
		}
		return src(s)
	})
	_ = a
	if err == ErrDraw {
		return -1
	}
	return n
}

// Copy is a deep copy.
func (c *Cmd) Copy() *Cmd {
	b, _ := json.Marshal(c)
	d := &Cmd{}
	json.Unmarshal(b, d)
	return d
}

func flipCase(s string, r *fw.Rand) string {
	b := []byte(s)
	for i, x := range b {
		if (x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z') && r.P(0.7) {
			b[i] = x ^ 0x20
		}
	}
	return string(b)
}

// Variant is a command whose text is close to that of c: one number, operator, item, letter or
// space is another one.
func (c *Cmd) Variant(r *fw.Rand) *Cmd {
	for try := 0; try < 20; try++ {
		d := c.Copy()
		var ints, ops []*E
		var walk func(e *E)
		walk = func(e *E) {
			if e == nil {
				return
			}
			switch e.K {
			case "i":
				ints = append(ints, e)
			case "+", "-", "/", "/U", "/R":
				ops = append(ops, e)
			}
			walk(e.L)
			walk(e.R)
		}
		walk(d.Expr)
		walk(d.Th)
		walk(d.Bonus)
		walk(d.Target)
		for i := range d.Rolls {
			walk(d.Rolls[i].Num)
			walk(d.Rolls[i].Sides)
		}
		switch r.N(9) {
		case 0, 1, 2:
			if len(ints) == 0 {
				continue
			}
			// the last numbers of the text are behind a common beginning
			e := ints[len(ints)-1]
			if r.P(0.6) {
				e = ints[r.N(len(ints))]
			}
			switch r.N(3) {
			case 0:
				e.N++
			case 1:
				e.N = e.N*10 + r.N(10)
			default:
				if e.N < 2 {
					continue
				}
				e.N--
			}
			if e.N > 100 {
				continue
			}
		case 3:
			if len(ops) == 0 {
				continue
			}
			e := ops[r.N(len(ops))]
			if e.K == "+" || e.K == "-" {
				e.K = r.Pick("+", "-")
			} else {
				e.K = r.Pick("/", "/U", "/R")
			}
		case 4:
			if d.Op == "" {
				continue
			}
			d.Op = r.Pick("=", "<>", "<", ">", "<=", ">=")
		case 5, 6:
			if d.Kind == "choice" {
				i := r.N(len(d.Items))
				switch r.N(3) {
				case 0:
					d.Items[i] = flipCase(d.Items[i], r)
				case 1:
					d.Items[i] = strings.ReplaceAll(d.Items[i], " ", "")
				default:
					j := r.N(len(d.Items))
					d.Items[i], d.Items[j] = d.Items[j], d.Items[i]
				}
			} else if d.Kind == "R" || d.Kind == "U" {
				if d.Kind == "R" {
					d.Kind = "U"
				} else if d.Bonus == nil {
					d.Kind = "R"
				}
			} else if len(d.Rolls) > 1 {
				d.Rolls = d.Rolls[:len(d.Rolls)-1]
			}
		case 7:
			d.Lower = r.U64()
		case 8:
			if d.Secret == "" {
				d.Secret = r.Pick("S", "s")
			} else {
				d.Secret = ""
			}
		}
		if d.Valid() && d.Text() != c.Text() {
			return d
		}
	}
	return c.Copy()
}
