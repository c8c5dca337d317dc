package hcore

import (
	"fmt"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
)

// QOp is a step on a dice queue. Slices the caller holds are numbered; I is one of them.
type QOp struct {
	Do    string     `json:"do"` // new push append set clear next dice write grow cmd
	Q     int        `json:"q,omitempty"`
	I     int        `json:"i,omitempty"`
	Dice  []int      `json:"dice,omitempty"` // value, sides, value, sides ...
	From  int        `json:"from,omitempty"`
	Len   int        `json:"len,omitempty"`
	Sides int        `json:"sides,omitempty"`
	N     int        `json:"n,omitempty"`
	Cmd   *model.Cmd `json:"cmd,omitempty"`
}

// QHist is a history on queues.
type QHist struct {
	Ops []QOp `json:"ops"`
}

func init() {
	fw.Register(fw.Check{
		ID:    "C09",
		Rule:  "a history of 5-150 operations on up to 3 dice queues (new, push, append, set, clear, take, read, roll commands) by a caller that keeps, overwrites, appends to and hands in again every slice it gave or got; after each operation every queue and every caller slice is compared with a list model; non-trivial: at least 5 dice taken out and one slice written by the caller",
		Real:  []string{"feeder.Queue, sessions and roller on it"},
		Stub:  []string{"the caller"},
		Chunk: 100, Quick: 900, Thorough: 40000,
	}, genC09, validC09, execC09)
}

func validC09(h *QHist) bool {
	if len(h.Ops) > 600 {
		return false
	}
	for _, o := range h.Ops {
		if len(o.Dice)%2 != 0 || o.I < 0 || o.From < 0 || o.Len < 0 || o.Q < 0 || o.Q > 3 || o.N < 0 || o.N > 100000 {
			return false
		}
		if o.Do == "cmd" && !o.Cmd.Valid() {
			return false
		}
	}
	return true
}

func genC09(r *fw.Rand, tier string) *QHist {
	h := &QHist{}
	nq := r.Range(1, 3)
	uniform := r.P(0.5)
	someDice := func() []int {
		var ds []int
		for i, n := 0, r.PickInt(0, 1, 2, 3, 4, 8, 17); i < n; i++ {
			s := 6
			if !uniform {
				s = r.PickInt(1, 2, 6, 10, 100, 0, -1, r.PickInt(127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 1<<31-1, 1<<31, 1<<32, 1<<32+6, 1<<53+1, 1<<63-1))
			}
			v := r.Range(1, max(1, s))
			if r.P(0.05) {
				v = r.PickInt(0, -1, 1<<40)
			}
			ds = append(ds, v, s)
		}
		return ds
	}
	cfg := model.NewCfg(r).Only("B", "D")
	cfg.MaxNum = min(cfg.MaxNum, 4)
	cfg.MaxSides = 6
	k := r.Range(5, 60)
	if r.P(0.1) {
		k = r.Range(100, 300)
	}
	if r.P(0.08) {
		// one queue that is filled and emptied again and again
		for i, n := 0, r.Range(8, 60); i < n; i++ {
			o := QOp{Do: "push", Dice: []int{r.Range(1, 1000), 1000}, N: r.PickInt(1, 2, 16, 60, 130, 300)}
			switch {
			case i == 0 && r.P(0.5), r.P(0.02):
				o = QOp{Do: r.Pick("set", "new"), Dice: someDice()}
			case r.P(0.45):
				o = QOp{Do: "next", Sides: 6, N: r.PickInt(1, 2, 16, 60, 130, 300)}
			case r.P(0.1):
				o = QOp{Do: "dice"}
			case r.P(0.1):
				o = QOp{Do: "write", From: r.N(8), Dice: []int{r.Range(1, 6) + 1000, 7}, I: r.N(300)}
			}
			h.Ops = append(h.Ops, o)
		}
		return h
	}
	for len(h.Ops) < k {
		o := QOp{Q: r.N(nq), I: r.N(12)}
		switch r.Weighted(3, 6, 5, 4, 1, 14, 5, 6, 3, 2) {
		case 0:
			o.Do, o.From, o.Len = "new", r.N(3), r.N(6)
			if r.P(0.6) {
				o.Dice = someDice()
			}
		case 1:
			o.Do, o.Dice = "push", []int{r.Range(1, 6), 6}
			if r.P(0.1) {
				o.N = r.Range(2, 200) // many
			}
			if r.P(0.0008) {
				o.N = r.PickInt(1000, 1030, 4100, 10010, 33000, 66000)
			}
		case 2:
			o.Do, o.From, o.Len = "append", r.N(3), r.N(6)
			if r.P(0.5) {
				o.Dice = someDice()
			}
		case 3:
			o.Do, o.From, o.Len = "set", r.N(3), r.N(6)
			if r.P(0.5) {
				o.Dice = someDice()
			}
		case 4:
			o.Do = "clear"
		case 5:
			o.Do, o.Sides = "next", r.PickInt(6, 6, 1, 100, 0, -5)
			if r.P(0.2) {
				o.N = r.Range(2, 60)
			}
			if r.P(0.0006) {
				o.N = r.PickInt(1000, 1030, 4100, 10010, 33000, 66000)
			}
		case 6:
			o.Do = "dice"
		case 7:
			o.Do, o.From, o.Dice = "write", r.N(8), []int{r.Range(1, 6) + 1000, 7}
		case 8:
			o.Do, o.Dice = "grow", []int{r.Range(1, 6) + 2000, 8}
		case 9:
			o.Do, o.Cmd = "cmd", cfg.Cmd(r)
		}
		h.Ops = append(h.Ops, o)
	}
	return h
}

func toDice(v []int) []dice.Die {
	out := make([]dice.Die, 0, len(v)/2+3) // spare capacity, as a caller's slice may have
	for i := 0; i+1 < len(v); i += 2 {
		out = append(out, dice.Die{Value: v[i], Sides: v[i+1]})
	}
	return out
}

// held is a slice of the caller with what the caller believes is in it, spare part included.
type held struct {
	s    []dice.Die
	want []dice.Die
}

func (h *held) full() []dice.Die { return h.s[:cap(h.s)] }

func hold(s []dice.Die) *held {
	h := &held{s: s}
	h.want = append([]dice.Die{}, h.full()...)
	return h
}

func execC09(x *fw.Ctx, h *QHist) *fw.Violation {
	type que struct {
		q    *feeder.Queue
		want []dice.Die
		b    *bcdice.BCDice
	}
	var qs [4]*que
	get := func(i int) *que {
		if qs[i] == nil {
			qs[i] = &que{q: feeder.NewEmptyQueue()}
		}
		return qs[i]
	}
	var slices []*held
	keep := func(s []dice.Die) {
		// slices that share memory are one to the caller
		for _, k := range slices {
			if cap(s) > 0 && cap(k.s) > 0 && &s[:1][0] == &k.full()[0] {
				return
			}
		}
		slices = append(slices, hold(s))
		if len(slices) > 12 {
			slices = slices[1:]
		}
	}
	pick := func(o *QOp) []dice.Die {
		if len(o.Dice) > 0 || len(slices) == 0 {
			s := toDice(o.Dice)
			keep(s)
			return s
		}
		s := slices[o.I%len(slices)].s
		from := min(o.From, len(s))
		return s[from:min(len(s), from+o.Len)]
	}
	taken, wrote := 0, 0
	for i := range h.Ops {
		o := &h.Ops[i]
		u := get(o.Q)
		switch o.Do {
		case "new":
			s := pick(o)
			u.q = feeder.NewQueue(s)
			u.want = append([]dice.Die{}, s...)
			u.b = nil
		case "push":
			for k := 0; k < max(1, o.N); k++ {
				if len(o.Dice) < 2 {
					break
				}
				d := dice.Die{Value: o.Dice[0] + k, Sides: o.Dice[1]}
				u.q.Push(d)
				u.want = append(u.want, d)
			}
		case "append":
			s := pick(o)
			u.q.Append(s)
			u.want = append(u.want, s...)
		case "set":
			s := pick(o)
			u.q.Set(s)
			u.want = append([]dice.Die{}, s...)
		case "clear":
			u.q.Clear()
			u.want = nil
		case "next":
			for k := 0; k < max(1, o.N); k++ {
				d, err := u.q.Next(o.Sides)
				if len(u.want) == 0 {
					if err == nil {
						return fw.V("empty", "operation %d: Next(%d) of an empty queue delivered %v and no error", i, o.Sides, d)
					}
					x.Probe("take from an empty queue")
					continue
				}
				if err != nil {
					return fw.V("fifo", "operation %d: Next(%d) failed with %d dice in the queue: %v", i, o.Sides, len(u.want), err)
				}
				if d != u.want[0] {
					return fw.V("fifo", "operation %d: Next(%d) delivered %v, the first die put in was %v", i, o.Sides, d, u.want[0])
				}
				u.want = u.want[1:]
				taken++
			}
		case "dice":
			s := u.q.Dice()
			if !hc.SameDice(s, u.want) {
				return fw.V("contents", "operation %d: the queue reads %s, want %s", i, hc.DiceText(s), hc.DiceText(u.want))
			}
			keep(s)
		case "write":
			if len(slices) == 0 || len(o.Dice) < 2 {
				continue
			}
			k := slices[o.I%len(slices)]
			if len(k.s) > 0 {
				n := o.From % len(k.s)
				k.s[n] = dice.Die{Value: o.Dice[0], Sides: o.Dice[1]}
				k.want[n] = k.s[n]
				wrote++
				x.Probe("caller overwrote a slice it gave or got")
			}
		case "grow":
			if len(slices) == 0 || len(o.Dice) < 2 {
				continue
			}
			k := slices[o.I%len(slices)]
			n := len(k.s)
			same := n < cap(k.s)
			k.s = append(k.s, dice.Die{Value: o.Dice[0], Sides: o.Dice[1]})
			if same {
				k.want[n] = k.s[n]
				x.Probe("caller appended in place to a slice it gave or got")
			} else {
				k.want = append([]dice.Die{}, k.full()...)
			}
		case "cmd":
			if u.b == nil {
				u.b = bcdice.New(u.q)
			}
			before := append([]dice.Die{}, u.want...)
			res, err := hc.Exec(u.b, o.Cmd.Text())
			n := len(before) - u.q.Remaining()
			if n < 0 || n > len(before) {
				return fw.V("contents", "operation %d: %q on a queue of %d dice left %d", i, o.Cmd.Text(), len(before), u.q.Remaining())
			}
			if err == nil && res != nil && !hc.SameDice(res.RolledDice, before[:n]) {
				return fw.V("fifo", "operation %d: %q on queue %s reports %s", i, o.Cmd.Text(), hc.DiceText(before), hc.DiceText(res.RolledDice))
			}
			u.want = u.want[n:]
			taken += n
		}
		for k, w := range qs {
			if w == nil {
				continue
			}
			got := w.q.Dice()
			if !hc.SameDice(got, w.want) {
				return fw.V("contents", "after operation %d (%s on queue %d) queue %d holds %s, want %s", i, o.Do, o.Q, k, hc.DiceText(got), hc.DiceText(w.want))
			}
			if w.q.Remaining() != len(w.want) || w.q.IsEmpty() != (len(w.want) == 0) {
				return fw.V("count", "after operation %d (%s) queue %d of %d dice says Remaining %d IsEmpty %v", i, o.Do, k, len(w.want), w.q.Remaining(), w.q.IsEmpty())
			}
		}
		for k, s := range slices {
			for j, d := range s.full() {
				if d != s.want[j] {
					return fw.V("aliasing", "after operation %d (%s on queue %d) the caller's slice %d changed at %d: %v, was %v", i, o.Do, o.Q, k, j, d, s.want[j])
				}
			}
		}
	}
	total := uint64(0)
	for _, w := range qs {
		if w != nil {
			total = fw.Mix(total, fw.HashString(0, fmt.Sprint(w.want)))
		}
	}
	x.Ev("ops %d taken %d wrote %d state %x", len(h.Ops), taken, wrote, total)
	x.Distinct("final queue states", total)
	if taken >= 5 && wrote >= 1 {
		x.NonTrivial()
	}
	x.Count("operations", len(h.Ops))
	x.Count("dice taken", taken)
	return nil
}
