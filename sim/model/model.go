// Package model is the reference model of the dice commands: its own command trees, text
// rendering, evaluation and message printing, written from the documentation and independent
// of the code under test.
package model

import (
	"errors"
	"strconv"
	"strings"

	"verifsim/fw"
)

// E is an expression.
//
//	i    integer N, written with Z zeros in front
//	big  integer that no int can hold: N followed by nineteen nines
//	+ - * / /U /R   binary
//	neg pos par     unary minus, unary plus, explicit parentheses around L
//	D    L dice of R sides
//	rnd  [L...R]
type E struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	Z int    `json:"z,omitempty"`
	L *E     `json:"l,omitempty"`
	R *E     `json:"r,omitempty"`
}

// Roll is one roll of a list (B, R, U).
type Roll struct {
	Num   *E `json:"num"`
	Sides *E `json:"sides"`
}

// Cmd is a command.
type Cmd struct {
	// Kind is D, B, R, U, choice, calc or raw.
	Kind    string   `json:"kind"`
	Expr    *E       `json:"expr,omitempty"`
	Rolls   []Roll   `json:"rolls,omitempty"`
	Th      *E       `json:"th,omitempty"`
	BonusOp string   `json:"bonusop,omitempty"`
	Bonus   *E       `json:"bonus,omitempty"`
	Op      string   `json:"op,omitempty"`
	Target  *E       `json:"target,omitempty"`
	Items   []string `json:"items,omitempty"`
	Trail   string   `json:"trail,omitempty"` // trailing comma of a choice
	Raw     string   `json:"raw,omitempty"`   // text that is not a command
	// rendering
	Lower   uint64  `json:"lower,omitempty"` // bits: which letters are lower case
	Secret  string  `json:"secret,omitempty"`
	Comment fw.Text `json:"comment,omitempty"`
}

// Die mirrors dice.Die.
type Die struct{ Value, Sides int }

// Answer is what a command answers.
type Answer struct {
	Err     bool
	Parts   []string
	Dice    []Die
	Success int // 0 unspecified, 1 success, 2 failure
	Secret  bool
	Rerolls int  // groups or dice rolled again
	Capped  bool // the reroll limit ended the command
}

// Message is the joined text of the answer.
func (a *Answer) Message(gameID string) string {
	return gameID + " : " + strings.Join(a.Parts, " ＞ ")
}

// I makes an integer.
func I(n int) *E { return &E{K: "i", N: n} }

func prec(k string) int {
	switch k {
	case "+", "-":
		return 1
	case "*", "/", "/U", "/R":
		return 2
	}
	return 3
}

// ---- rendering as input text

type renderer struct {
	lower uint64
	n     uint
}

func (r *renderer) letter(s string) string {
	b := r.lower >> (r.n % 64) & 1
	r.n++
	if b == 1 {
		return strings.ToLower(s)
	}
	return s
}

func (r *renderer) operand(e *E) string {
	switch {
	case e.K == "i" || e.K == "big":
		return r.expr(e)
	case e.K == "rnd":
		return r.expr(e)
	case e.K == "par":
		return r.expr(e)
	}
	return "(" + r.expr(e) + ")"
}

func (r *renderer) primary(e *E) string {
	if prec(e.K) < 3 {
		return "(" + r.expr(e) + ")"
	}
	return r.expr(e)
}

func (r *renderer) expr(e *E) string {
	switch e.K {
	case "i":
		return strings.Repeat("0", e.Z) + strconv.Itoa(e.N)
	case "big":
		return strconv.Itoa(e.N) + "9999999999999999999"
	case "par":
		return "(" + r.expr(e.L) + ")"
	case "neg":
		return "-" + r.primary(e.L)
	case "pos":
		return "+" + r.primary(e.L)
	case "D":
		a := r.operand(e.L)
		d := r.letter("D")
		return a + d + r.operand(e.R)
	case "rnd":
		return "[" + r.operand(e.L) + "..." + r.operand(e.R) + "]"
	case "+", "-":
		l := r.expr(e.L)
		rt := ""
		if prec(e.R.K) <= 1 {
			rt = "(" + r.expr(e.R) + ")"
		} else {
			rt = r.expr(e.R)
		}
		return l + e.K + rt
	case "*", "/", "/U", "/R":
		l := ""
		if prec(e.L.K) < 2 {
			l = "(" + r.expr(e.L) + ")"
		} else {
			l = r.expr(e.L)
		}
		rt := r.primary(e.R)
		suf := ""
		if len(e.K) == 2 {
			suf = r.letter(e.K[1:])
		}
		return l + e.K[:1] + rt + suf
	}
	return "?"
}

// Text renders the command as it is typed.
func (c *Cmd) Text() string { return c.Secret + c.Body() + string(c.Comment) }

// Body renders the command without the secret mark and the trailing comment.
func (c *Cmd) Body() string {
	r := &renderer{lower: c.Lower}
	var b strings.Builder
	rolls := func(letter string) {
		for i, x := range c.Rolls {
			if i > 0 {
				b.WriteString("+")
			}
			b.WriteString(r.operand(x.Num))
			b.WriteString(r.letter(letter))
			b.WriteString(r.operand(x.Sides))
		}
		if c.Th != nil {
			b.WriteString("[" + r.expr(c.Th) + "]")
		}
		if c.Bonus != nil {
			b.WriteString(c.BonusOp)
			b.WriteString(r.expr(c.Bonus))
		}
	}
	switch c.Kind {
	case "D":
		b.WriteString(r.expr(c.Expr))
	case "B", "R", "U":
		rolls(c.Kind)
	case "calc":
		b.WriteString(r.letter("C") + "(" + r.expr(c.Expr) + ")")
	case "choice":
		b.WriteString(r.letter("C") + r.letter("H") + r.letter("O") + r.letter("I") + r.letter("C") + r.letter("E"))
		b.WriteString("[" + strings.Join(c.Items, ",") + c.Trail + "]")
	case "raw":
		return c.Raw
	}
	if c.Op != "" {
		b.WriteString(c.Op)
		b.WriteString(r.expr(c.Target))
	}
	return b.String()
}

// ---- evaluation

// ErrRule is returned when the rules make the command an error.
var ErrRule = errors.New("rule error")

// ErrDraw is returned when the die source of the model refuses a draw.
var ErrDraw = errors.New("draw refused")

// MaxDice is the limit on dice in one command (fix commit "bound the number of dice").
const MaxRerolls = 10000

// Source delivers dice to the model.
type Source func(sides int) (int, error)

type ev struct {
	src  Source
	dice []Die
}

func (v *ev) draw(sides int) (int, error) {
	if sides < 1 {
		return 0, ErrRule
	}
	n, err := v.src(sides)
	if err != nil {
		return 0, err
	}
	v.dice = append(v.dice, Die{n, sides})
	return n, nil
}

func (v *ev) roll(num, sides int) ([]int, error) {
	if num < 1 || sides < 1 {
		return nil, ErrRule
	}
	var out []int
	for i := 0; i < num; i++ {
		n, err := v.draw(sides)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}

// divide is exact integer division with the given rounding.
func divide(a, b int, mode string) (int, error) {
	if b == 0 {
		return 0, ErrRule
	}
	q, rem := a/b, a%b
	switch mode {
	case "/U": // towards plus infinity
		if rem != 0 && (rem > 0) == (b > 0) {
			q++
		}
	case "/R": // to nearest, halves away from zero
		ar, ab := rem, b
		if ar < 0 {
			ar = -ar
		}
		if ab < 0 {
			ab = -ab
		}
		if 2*ar >= ab {
			if (a < 0) == (b < 0) {
				q++
			} else {
				q--
			}
		}
	}
	return q, nil
}

// value evaluates an expression whose dice (if any) are given by rolled (D nodes).
func (v *ev) value(e *E, rolled map[*E][]int) (int, error) {
	switch e.K {
	case "i":
		return e.N, nil
	case "big":
		return 0, ErrRule
	case "par", "pos":
		return v.value(e.L, rolled)
	case "neg":
		n, err := v.value(e.L, rolled)
		return -n, err
	case "D":
		s := 0
		for _, n := range rolled[e] {
			s += n
		}
		return s, nil
	case "rnd":
		lo, err := v.value(e.L, rolled)
		if err != nil {
			return 0, err
		}
		hi, err := v.value(e.R, rolled)
		if err != nil {
			return 0, err
		}
		if lo >= hi {
			return 0, ErrRule
		}
		n, err := v.draw(hi - lo + 1)
		if err != nil {
			return 0, err
		}
		return lo - 1 + n, nil
	}
	l, err := v.value(e.L, rolled)
	if err != nil {
		return 0, err
	}
	r, err := v.value(e.R, rolled)
	if err != nil {
		return 0, err
	}
	switch e.K {
	case "+":
		return l + r, nil
	case "-":
		return l - r, nil
	case "*":
		return l * r, nil
	}
	return divide(l, r, e.K)
}

// ---- printing of trees in messages

type shown struct {
	args   map[*E][2]int
	rolled map[*E][]int
}

func strip(e *E) *E {
	for e.K == "par" || e.K == "pos" {
		e = e.L
	}
	return e
}

// show prints the tree with the fewest parentheses; left says that everything to the left of
// the node up to the nearest parenthesis is empty.
func (s *shown) show(e *E, left bool) string {
	e = strip(e)
	switch e.K {
	case "i":
		return strconv.Itoa(e.N)
	case "D":
		if s.rolled != nil {
			return sumText(s.rolled[e])
		}
		a := s.args[e]
		return strconv.Itoa(a[0]) + "D" + strconv.Itoa(a[1])
	case "neg":
		x := strip(e.L)
		if x.K == "i" || x.K == "D" {
			return "-" + s.show(x, left)
		}
		return "-(" + s.show(x, true) + ")"
	}
	op, suf := e.K[:1], e.K[1:]
	child := func(x *E, isLeft bool, l bool) string {
		x = strip(x)
		if x.K == "neg" {
			if isLeft && l {
				return s.show(x, l)
			}
			return "(" + s.show(x, l) + ")"
		}
		p, q := prec(x.K), prec(e.K)
		if p < q || (p == q && !isLeft && (op == "-" || op == "/")) {
			return "(" + s.show(x, true) + ")"
		}
		return s.show(x, l)
	}
	return child(e.L, true, left) + op + child(e.R, false, false) + suf
}

func sumText(vals []int) string {
	s := 0
	for _, n := range vals {
		s += n
	}
	return strconv.Itoa(s) + "[" + ints(vals) + "]"
}

func ints(v []int) string {
	p := make([]string, len(v))
	for i, n := range v {
		p[i] = strconv.Itoa(n)
	}
	return strings.Join(p, ",")
}

func holds(a int, op string, b int) bool {
	switch op {
	case "=":
		return a == b
	case "<>":
		return a != b
	case "<":
		return a < b
	case ">":
		return a > b
	case "<=":
		return a <= b
	case ">=":
		return a >= b
	}
	return false
}

func dnodes(e *E, out *[]*E) {
	if e == nil {
		return
	}
	if e.K == "D" {
		*out = append(*out, e)
		return
	}
	dnodes(e.L, out)
	dnodes(e.R, out)
}

func (v *ev) operands(num, sides *E) (int, int, error) {
	n, err := v.value(num, nil)
	if err != nil {
		return 0, 0, err
	}
	s, err := v.value(sides, nil)
	return n, s, err
}

const (
	hintRNone = "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
	hintUNone = "2U6[5] のように振り足し目標値を指定してください"
	hintLow   = "振り足し目標値として2以上の整数を指定してください"
)

// Eval evaluates the command with dice from src. On an error the answer has Err set and the
// error is ErrRule, or whatever src returned; Dice holds the dice drawn so far.
func (c *Cmd) Eval(src Source) (*Answer, error) {
	if c.anyBig() {
		return &Answer{Err: true}, ErrRule
	}
	v := &ev{src: src}
	a, err := c.eval(v)
	if err != nil {
		return &Answer{Err: true, Dice: v.dice}, err
	}
	a.Dice = v.dice
	a.Secret = c.Secret != ""
	return a, nil
}

// exprs calls f for every expression of the command.
func (c *Cmd) exprs(f func(e *E)) {
	for _, e := range []*E{c.Expr, c.Th, c.Bonus, c.Target} {
		if e != nil {
			f(e)
		}
	}
	for _, r := range c.Rolls {
		f(r.Num)
		f(r.Sides)
	}
}

func (c *Cmd) anyBig() bool {
	found := false
	var walk func(e *E)
	walk = func(e *E) {
		if e == nil {
			return
		}
		if e.K == "big" {
			found = true
		}
		walk(e.L)
		walk(e.R)
	}
	c.exprs(walk)
	return found
}

func (c *Cmd) eval(v *ev) (*Answer, error) {
	a := &Answer{}
	switch c.Kind {
	case "calc":
		n, err := v.value(c.Expr, nil)
		if err != nil {
			return nil, err
		}
		s := &shown{}
		a.Parts = []string{"C(" + s.show(c.Expr, true) + ")", "計算結果", strconv.Itoa(n)}
		return a, nil
	case "choice":
		n, err := v.draw(len(c.Items))
		if err != nil {
			return nil, err
		}
		items := make([]string, len(c.Items))
		for i, s := range c.Items {
			items[i] = strings.TrimSpace(s)
		}
		a.Parts = []string{"(CHOICE[" + strings.Join(items, ",") + "])", items[n-1]}
		return a, nil
	case "D":
		return c.evalD(v)
	case "B", "R", "U":
		return c.evalList(v)
	}
	return nil, ErrRule
}

func (c *Cmd) evalD(v *ev) (*Answer, error) {
	var ds []*E
	dnodes(c.Expr, &ds)
	s1 := &shown{args: map[*E][2]int{}}
	for _, d := range ds {
		n, s, err := v.operands(d.L, d.R)
		if err != nil {
			return nil, err
		}
		s1.args[d] = [2]int{n, s}
	}
	target := 0
	if c.Op != "" {
		var err error
		if target, err = v.value(c.Target, nil); err != nil {
			return nil, err
		}
	}
	s2 := &shown{rolled: map[*E][]int{}}
	for _, d := range ds {
		vals, err := v.roll(s1.args[d][0], s1.args[d][1])
		if err != nil {
			return nil, err
		}
		s2.rolled[d] = vals
	}
	total, err := v.value(c.Expr, s2.rolled)
	if err != nil {
		return nil, err
	}
	head := s1.show(c.Expr, true)
	a := &Answer{}
	if c.Op == "" {
		a.Parts = []string{"(" + head + ")", s2.show(c.Expr, true), strconv.Itoa(total)}
		return a, nil
	}
	a.Success = 2
	verdict := "失敗"
	if holds(total, c.Op, target) {
		a.Success = 1
		verdict = "成功"
	}
	a.Parts = []string{"(" + head + c.Op + strconv.Itoa(target) + ")", s2.show(c.Expr, true), strconv.Itoa(total), verdict}
	return a, nil
}

func (c *Cmd) evalList(v *ev) (*Answer, error) {
	th, hasTh := 0, false
	var err error
	if c.Th != nil {
		if th, err = v.value(c.Th, nil); err != nil {
			return nil, err
		}
		hasTh = true
	}
	type roll struct{ n, s int }
	var rolls []roll
	var head []string
	for _, r := range c.Rolls {
		n, s, err := v.operands(r.Num, r.Sides)
		if err != nil {
			return nil, err
		}
		rolls = append(rolls, roll{n, s})
		head = append(head, strconv.Itoa(n)+c.Kind+strconv.Itoa(s))
	}
	bonus := 0
	if c.Bonus != nil {
		// the sign belongs to the first term only: -(a+b) is 0-(a+b) in the documentation's sense
		if bonus, err = v.value(c.Bonus, nil); err != nil {
			return nil, err
		}
		if c.BonusOp == "-" {
			bonus = -bonus
		}
	}
	target := 0
	if c.Op != "" {
		if target, err = v.value(c.Target, nil); err != nil {
			return nil, err
		}
		if c.Kind == "R" && !hasTh {
			th, hasTh = target, true
		}
	}
	h := strings.Join(head, "+")
	if hasTh {
		h += "[" + strconv.Itoa(th) + "]"
	}
	if bonus > 0 {
		h += "+" + strconv.Itoa(bonus)
	} else if bonus < 0 {
		h += "-" + strconv.Itoa(-bonus)
	}
	if c.Op != "" {
		h += c.Op + strconv.Itoa(target)
	}
	a := &Answer{Parts: []string{"(" + h + ")"}}

	if c.Kind == "R" || c.Kind == "U" {
		if !hasTh {
			hint := hintRNone
			if c.Kind == "U" {
				hint = hintUNone
			}
			a.Parts = append(a.Parts, hint)
			return a, nil
		}
		if th < 2 {
			a.Parts = append(a.Parts, hintLow)
			return a, nil
		}
	}

	switch c.Kind {
	case "B":
		var all []int
		for _, r := range rolls {
			vals, err := v.roll(r.n, r.s)
			if err != nil {
				return nil, err
			}
			all = append(all, vals...)
		}
		a.Parts = append(a.Parts, ints(all))
		if c.Op != "" {
			a.Parts = append(a.Parts, "成功数"+strconv.Itoa(count(all, c.Op, target)))
		}
	case "R":
		var groups []string
		ok := 0
		for len(rolls) > 0 && len(groups) < MaxRerolls {
			r := rolls[0]
			rolls = rolls[1:]
			vals, err := v.roll(r.n, r.s)
			if err != nil {
				return nil, err
			}
			groups = append(groups, ints(vals))
			if c.Op != "" {
				ok += count(vals, c.Op, target)
			}
			if again := count(vals, ">=", th); again > 0 {
				rolls = append(rolls, roll{again, r.s})
				a.Rerolls++
			}
		}
		a.Capped = len(rolls) > 0
		a.Parts = append(a.Parts, strings.Join(groups, " + "))
		if c.Op != "" {
			a.Parts = append(a.Parts, "成功数"+strconv.Itoa(ok))
		}
	case "U":
		var sums []int
		var texts []string
		for _, r := range rolls {
			if r.n < 1 || r.s < 1 {
				return nil, ErrRule
			}
			for i := 0; i < r.n; i++ {
				var g []int
				sum := 0
				for len(g) < MaxRerolls {
					n, err := v.draw(r.s)
					if err != nil {
						return nil, err
					}
					g = append(g, n)
					sum += n
					if n < th {
						break
					}
					a.Rerolls++
				}
				if len(g) == MaxRerolls {
					a.Capped = true
				}
				sums = append(sums, sum)
				t := strconv.Itoa(sum)
				if len(g) > 1 {
					t += "[" + ints(g) + "]"
				}
				texts = append(texts, t)
			}
		}
		t := strings.Join(texts, ",")
		if bonus > 0 {
			t += "+" + strconv.Itoa(bonus)
		} else if bonus < 0 {
			t += strconv.Itoa(bonus)
		}
		a.Parts = append(a.Parts, t)
		if c.Op != "" {
			ok := 0
			for _, s := range sums {
				if holds(s+bonus, c.Op, target) {
					ok++
				}
			}
			a.Parts = append(a.Parts, "成功数"+strconv.Itoa(ok))
		} else {
			max, total := sums[0], 0
			for _, s := range sums {
				if s > max {
					max = s
				}
				total += s
			}
			a.Parts = append(a.Parts, strconv.Itoa(max+bonus)+"/"+strconv.Itoa(total+bonus)+" (最大/合計)")
		}
	}
	return a, nil
}

func count(vals []int, op string, t int) int {
	n := 0
	for _, v := range vals {
		if holds(v, op, t) {
			n++
		}
	}
	return n
}

var _ = fw.Mix
