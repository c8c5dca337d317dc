package hcore

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"

	"verifsim/fw"
	"verifsim/hc"
)

// Stat is one statistical experiment on random sources.
type Stat struct {
	Seed  int64  `json:"seed"`
	Via   string `json:"via"` // next, mixed, seeds, B, D, R, U, choice, rnd
	Sides int    `json:"sides"`
	N     int    `json:"n"`
	Step  int64  `json:"step,omitempty"`
	Skip  int    `json:"skip,omitempty"` // dice delivered before
	Per   int    `json:"per,omitempty"`  // dice of one command, 0 for 1000
}

func init() {
	fw.Register(fw.Check{
		ID:     "C08",
		Rule:   "a stream of 20000-120000 dice of one seed (or the first dice of many seeds), drawn directly, in turns with other sides, or through B, D, R, U, CHOICE and random-number commands; every die checked for sides and range, face counts, pairs up to 8 apart, triples, repetitions and the low digits of large dice by chi-square, their evenness in blocks from both sides (alarm beyond 8 standard deviations); non-trivial: all",
		Real:   []string{"feeder.MT19937, math/rand, mt19937, roller, evaluator, sessions"},
		Stub:   []string{"none (seeds are chosen by the simulator)"},
		Assume: []string{"frequencies are judged on finite streams of fixed seeds: a bias below about 3% of a face is not seen"},
		Chunk:  6, Quick: 300, Thorough: 20000,
	}, genC08, validC08, execC08)
}

func validC08(c *Stat) bool {
	return c.Sides >= 1 && c.N >= 1 && c.N <= 250000 && c.Skip >= 0 && c.Skip <= 3000000 && c.Per >= 0 && c.Per <= 1000
}

func genC08(r *fw.Rand, tier string) *Stat {
	c := &Stat{Seed: r.Pick2(0, 1, -1, 2, 42, 1<<31, 1<<32, 1<<63-1, -1<<63, int64(r.U64()), int64(r.U64()), int64(r.U64()), int64(r.N(1000)), 1_600_000_000_000_000_000+int64(r.N(1e9)))}
	c.Via = r.Pick("next", "next", "next", "mixed", "mixed", "seeds", "B", "B", "D", "R", "U", "choice", "rnd")
	c.Sides = r.PickInt(2, 3, 4, 5, 6, 6, 8, 10, 12, 20, 30, 100, 100, 1000, r.Range(2, 40))
	c.N = r.PickInt(20000, 50000, 120000)
	switch c.Via {
	case "next", "mixed", "B":
		if r.P(0.35) {
			c.Sides = r.PickInt(1, 1<<16, 1<<31-1, 1<<31, 3<<29, 3<<30, 3<<40, 3<<61, 1<<63-1, 1<<62+1, 10007, 65537, 1<<20)
		}
		if c.Via == "B" && c.Sides > 1<<62 {
			c.Sides = 3 << 40
		}
	case "seeds":
		c.Step = r.Pick2(1, 1, 2, 1000, 1_000_000, 1_000_000_000, 1<<32)
		c.N = 20000
		c.Skip = r.PickInt(0, 0, 1, 2, 9)
	case "choice":
		c.Sides = r.PickInt(2, 3, 4, 6, 10)
		c.N = 3000
	case "rnd":
		c.N = 3000
		c.Sides = r.PickInt(2, 3, 6, 10)
	}
	switch c.Via {
	case "next", "mixed":
		if r.P(0.2) {
			c.Sides = r.PickInt(48, 50, 60, 64, 66, 128, 144, 200, 255, 256, 300, 365, 500, 512, 720, 999, 1024, 2000, 4096, 5000, r.Range(41, 1000))
		}
		if r.P(0.06) {
			c.Skip = r.PickInt(1000, 65536, 70000, 300000, 1<<20, 2000000)
		}
	case "B", "D", "R", "U":
		if c.Sides <= 100 && r.P(0.4) {
			c.Per = r.PickInt(1, 2, 3, 5, 20)
			c.N = 4000 * min(c.Per, 5)
		}
	}
	if c.Sides <= 5000 && c.N < 40*c.Sides && c.Via != "seeds" {
		c.N = 40 * c.Sides
	}
	return c
}

// zOf turns a chi-square value with df degrees of freedom into standard deviations.
func zOf(chi float64, df int) float64 {
	k := float64(df)
	return (math.Cbrt(chi/k) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
}

const alarmZ = 8

func chiUniform(counts []int) float64 {
	n := 0
	for _, c := range counts {
		n += c
	}
	e := float64(n) / float64(len(counts))
	chi := 0.0
	for _, c := range counts {
		d := float64(c) - e
		chi += d * d / e
	}
	return chi
}

func execC08(x *fw.Ctx, c *Stat) *fw.Violation {
	x.NonTrivial()
	var vals []int
	rangeErr := func(d dice.Die, want int) *fw.Violation {
		return fw.V("range", "%s seed %d: asked for %d sides, delivered %d/%d", c.Via, c.Seed, want, d.Value, d.Sides)
	}
	f := feeder.NewMT19937(c.Seed)
	ok := func(d dice.Die, err error, sides int) bool {
		return err == nil && d.Sides == sides && d.Value >= 1 && d.Value <= sides
	}
	if c.Via != "seeds" {
		for i := 0; i < c.Skip; i++ {
			s := 6
			if c.Via == "next" {
				s = c.Sides
			}
			if d, err := f.Next(s); !ok(d, err, s) {
				return rangeErr(d, s)
			}
		}
	}
	var at [][]int // what the dice of a command are, by their place in it
	switch c.Via {
	case "next":
		for i := 0; i < c.N; i++ {
			d, err := f.Next(c.Sides)
			if !ok(d, err, c.Sides) {
				return rangeErr(d, c.Sides)
			}
			vals = append(vals, d.Value)
		}
	case "mixed":
		// other sides in turns; the dice of c.Sides must be uniform all the same
		others := []int{6, 2, 1, 100, 1 << 31, 7}
		for i := 0; i < c.N; i++ {
			s := others[i%len(others)]
			if d, err := f.Next(s); !ok(d, err, s) {
				return rangeErr(d, s)
			}
			d, err := f.Next(c.Sides)
			if !ok(d, err, c.Sides) {
				return rangeErr(d, c.Sides)
			}
			vals = append(vals, d.Value)
		}
	case "seeds":
		for i := 0; i < c.N; i++ {
			g := feeder.NewMT19937(c.Seed + int64(i)*c.Step)
			var d dice.Die
			var err error
			for j := 0; j <= c.Skip; j++ {
				d, err = g.Next(c.Sides)
				if !ok(d, err, c.Sides) {
					return rangeErr(d, c.Sides)
				}
			}
			vals = append(vals, d.Value)
		}
	default:
		b := bcdice.New(f)
		text, per := "", 1000
		if c.Per > 0 {
			per = c.Per
		}
		switch c.Via {
		case "B":
			text = fmt.Sprintf("%dB%d", per, c.Sides)
		case "D":
			text = fmt.Sprintf("%dD%d", per, c.Sides)
		case "R":
			text = fmt.Sprintf("%dR%d[%d]", per, c.Sides, c.Sides)
		case "U":
			text = fmt.Sprintf("%dU%d[%d]", per, c.Sides, c.Sides)
		case "choice":
			var items []string
			for i := 1; i <= c.Sides; i++ {
				items = append(items, strconv.Itoa(i))
			}
			text, per = "CHOICE["+strings.Join(items, ",")+"]", 1
		case "rnd":
			text, per = fmt.Sprintf("1B[3...%d]", c.Sides+2), 1
		default:
			return nil
		}
		for len(vals) < c.N {
			res, err := hc.Exec(b, text)
			if err != nil || res == nil {
				return fw.V("error", "%q failed: %v", text, err)
			}
			switch c.Via {
			case "choice":
				k, err := strconv.Atoi(res.MessageParts[len(res.MessageParts)-1])
				if err != nil || k < 1 || k > c.Sides {
					return fw.V("range", "%q answered %q", text, res.Message())
				}
				vals = append(vals, k)
			case "rnd":
				var s int
				if _, err := fmt.Sscanf(res.MessageParts[0], "(1B%d)", &s); err != nil || s < 3 || s > c.Sides+2 {
					return fw.V("range", "%q answered %q", text, res.Message())
				}
				vals = append(vals, s-2)
			default:
				if len(res.RolledDice) < per {
					return fw.V("range", "%q reports %d dice", text, len(res.RolledDice))
				}
				for j, d := range res.RolledDice {
					if !ok(d, nil, c.Sides) {
						return rangeErr(d, c.Sides)
					}
					if j < 8 && j < per && per <= 20 {
						for len(at) <= j {
							at = append(at, nil)
						}
						at[j] = append(at[j], d.Value)
					}
					vals = append(vals, d.Value)
				}
			}
		}
	}
	h := uint64(0)
	for _, v := range vals {
		h = fw.Mix(h, uint64(v))
	}
	x.Ev("%s seed %d sides %d: %d dice, %x", c.Via, c.Seed, c.Sides, len(vals), h)
	x.Count("dice judged", len(vals))
	x.Count("via:"+c.Via, 1)
	if c.Sides == 1 || len(vals) < 200 {
		return nil
	}
	for j, l := range at {
		if len(l) < 40*c.Sides {
			continue
		}
		counts := make([]int, c.Sides)
		for _, v := range l {
			counts[v-1]++
		}
		if z := zOf(chiUniform(counts), c.Sides-1); z > alarmZ {
			return fw.V("frequency", "%s seed %d: the faces of die %d of a command with %d dice of %d sides are not equally frequent in %d commands: %v (%.0f standard deviations)", c.Via, c.Seed, j+1, c.Per, c.Sides, len(l), counts, z)
		}
	}
	if i, j, n := repeated(vals, c.Sides); n > 0 {
		return fw.V("dependence", "%s seed %d: dice %d to %d (%d sides) are the same as dice %d to %d", c.Via, c.Seed, j+1, j+n, c.Sides, i+1, i+n)
	}
	// frequencies, in buckets where there are too many faces
	k := c.Sides
	if k > len(vals)/40 {
		k = 24
		if c.Sides < 24 {
			k = max(2, min(c.Sides, len(vals)/40))
		}
	}
	bucket := func(v int) int {
		if k == c.Sides {
			return v - 1
		}
		return int(float64(v-1) / (float64(c.Sides) / float64(k)))
	}
	if k != c.Sides && c.Sides < 24 {
		return nil
	}
	counts := make([]int, k)
	for _, v := range vals {
		counts[min(bucket(v), k-1)]++
	}
	if k == c.Sides {
		for i, n := range counts {
			if n == 0 {
				return fw.V("face", "%s seed %d: face %d of %d never came up in %d dice", c.Via, c.Seed, i+1, c.Sides, len(vals))
			}
		}
	}
	if z := zOf(chiUniform(counts), k-1); z > alarmZ {
		return fw.V("frequency", "%s seed %d: the faces of %d sides are not equally frequent in %d dice: chi-square %.1f (%.0f standard deviations), counts %s", c.Via, c.Seed, c.Sides, len(vals), chiUniform(counts), z, hc.Short(fmt.Sprint(counts)))
	}
	// faces must not be more (or less) even than chance makes them, at any scale
	if k == c.Sides || c.Sides > 1<<20 {
		for _, blocks := range []int{8, 32, 128, 512} {
			size := len(vals) / blocks
			df := blocks * (k - 1)
			if size < 10*k || df < 40 {
				continue
			}
			sum := 0.0
			for b := 0; b < blocks; b++ {
				part := make([]int, k)
				for _, v := range vals[b*size : (b+1)*size] {
					part[min(bucket(v), k-1)]++
				}
				sum += chiUniform(part)
			}
			if z := zOf(sum, df); math.Abs(z) > alarmZ {
				return fw.V("dependence", "%s seed %d: the faces of %d sides in %d blocks of %d dice are not as even as chance makes them: chi-square %.1f with %d degrees of freedom (%.0f standard deviations)", c.Via, c.Seed, c.Sides, blocks, size, sum, df, z)
			}
		}
	}
	// independence of successive dice, at lags 1 to 8
	q := min(k, 12)
	for q > 2 && len(vals)/(q*q) < 30 {
		q--
	}
	group := func(v int) int {
		if k == c.Sides && c.Sides <= 12 && q == c.Sides {
			return v - 1
		}
		return min(int(float64(v-1)*float64(q)/float64(c.Sides)), q-1)
	}
	for lag := 1; lag <= 8; lag++ {
		pair := make([]int, q*q)
		row, col := make([]int, q), make([]int, q)
		n := 0
		for i := 0; i+lag < len(vals); i++ {
			a, b := group(vals[i]), group(vals[i+lag])
			pair[a*q+b]++
			row[a]++
			col[b]++
			n++
		}
		chi := 0.0
		for a := 0; a < q; a++ {
			for b := 0; b < q; b++ {
				e := float64(row[a]) * float64(col[b]) / float64(n)
				if e == 0 {
					continue
				}
				d := float64(pair[a*q+b]) - e
				chi += d * d / e
			}
		}
		if z := zOf(chi, (q-1)*(q-1)); z > alarmZ {
			return fw.V("dependence", "%s seed %d: dice %d apart are not independent (%d sides, %d dice): chi-square %.1f (%.0f standard deviations)", c.Via, c.Seed, lag, c.Sides, len(vals), chi, z)
		}
	}
	return patterns(c, vals, k)
}

// repeated finds a part of the dice that came before in the same order, long enough not to
// be chance.
func repeated(vals []int, sides int) (i, j, n int) {
	n = int(math.Ceil(80 / math.Log2(float64(sides))))
	if n < 2 {
		n = 2
	}
	const base = 0x9e3779b97f4a7c15 | 1
	pow := uint64(1)
	for k := 0; k < n; k++ {
		pow *= base
	}
	seen := make(map[uint64]int, len(vals)/n+1)
	same := func(a, b int) bool {
		for k := 0; k < n; k++ {
			if vals[a+k] != vals[b+k] {
				return false
			}
		}
		return true
	}
	h := uint64(0)
	for k := range vals {
		h = h*base + uint64(vals[k])*0xff51afd7ed558ccd
		if k >= n {
			h -= uint64(vals[k-n]) * 0xff51afd7ed558ccd * pow
		}
		if k < n-1 {
			continue
		}
		start := k - n + 1
		if a, ok := seen[h]; ok && same(a, start) {
			return a, start, n
		}
		// every place is looked up; every n-th, and so one of each longer part, is kept
		if start%n == 0 {
			seen[h] = start
		}
	}
	return 0, 0, 0
}

// patterns looks at what pairs do not show: repetitions, triples, and the low digits of dice
// with very many sides.
func patterns(c *Stat, vals []int, k int) *fw.Violation {
	n := float64(len(vals))
	if k == c.Sides {
		// how often the same face comes up r times in a row
		p := 1 / float64(c.Sides)
		run := make([]int, 1)
		length := 0
		for i, v := range vals {
			if i > 0 && vals[i-1] == v {
				length++
			} else {
				length = 1
			}
			for len(run) <= length {
				run = append(run, 0)
			}
			for r := 2; r <= length; r++ {
				run[r]++
			}
		}
		for r := 2; ; r++ {
			mean := n * math.Pow(p, float64(r-1))
			if mean < 40 {
				break
			}
			got := 0
			if r < len(run) {
				got = run[r]
			}
			sd := math.Sqrt(mean * (1 + p) / (1 - p))
			if z := (float64(got) - mean) / sd; math.Abs(z) > alarmZ {
				return fw.V("dependence", "%s seed %d: the same face of %d came up %d times in a row %d times in %d dice, expected %.0f (%.0f standard deviations)", c.Via, c.Seed, c.Sides, r, got, len(vals), mean, z)
			}
		}
	}
	// triples
	q := min(c.Sides, 12)
	for q > 2 && len(vals)/3/(q*q*q) < 20 {
		q--
	}
	if c.Sides < 24 && q < c.Sides && c.Sides%q != 0 {
		q = 0
	}
	if q >= 2 && len(vals)/3/(q*q*q) >= 20 {
		cell := make([]int, q*q*q)
		var one [3][]int
		for j := range one {
			one[j] = make([]int, q)
		}
		m := 0
		for i := 0; i+3 <= len(vals); i += 3 {
			at := 0
			for j := 0; j < 3; j++ {
				g := min(int(float64(vals[i+j]-1)*float64(q)/float64(c.Sides)), q-1)
				one[j][g]++
				at = at*q + g
			}
			cell[at]++
			m++
		}
		chi := 0.0
		for at, o := range cell {
			e := float64(one[0][at/q/q]) * float64(one[1][at/q%q]) * float64(one[2][at%q]) / float64(m) / float64(m)
			if e > 0 {
				chi += (float64(o) - e) * (float64(o) - e) / e
			}
		}
		if z := zOf(chi, q*q*q-1-3*(q-1)); z > alarmZ {
			return fw.V("dependence", "%s seed %d: three dice in a row are not independent (%d sides, %d dice): chi-square %.1f (%.0f standard deviations)", c.Via, c.Seed, c.Sides, len(vals), chi, z)
		}
	}
	if c.Sides >= 1<<20 {
		for _, m := range []int{2, 3, 7, 8, 10} {
			low := make([]int, m)
			for _, v := range vals {
				low[v%m]++
			}
			if z := zOf(chiUniform(low), m-1); z > alarmZ {
				return fw.V("frequency", "%s seed %d: the dice of %d sides modulo %d are not equally frequent: %v (%.0f standard deviations)", c.Via, c.Seed, c.Sides, m, low, z)
			}
		}
	}
	return nil
}
