package hcore

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	"github.com/raa0121/GoBCDice/pkg/dicebot/gamesystem/basic"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/simrt"
)

// Registry is a process with some game systems registered, and what is asked of its lists.
type Registry struct {
	Games   []Entry      `json:"games,omitempty"`
	Maps    uint64       `json:"maps,omitempty"` // seed of the orders of walks through maps
	Threads [][]ListOp   `json:"threads"`
	Pol     simrt.Policy `json:"pol"`
}

// Entry is a registered game system.
type Entry struct {
	ID   fw.Text `json:"id"`
	Name fw.Text `json:"name"`
	Key  fw.Text `json:"key"`
}

// ListOp is an operation on the lists. At is the answer it is about, counted from the latest.
type ListOp struct {
	Do   string  `json:"do"`
	With bool    `json:"with,omitempty"` // with the basic game system
	ID   fw.Text `json:"id,omitempty"`
	At   int     `json:"at,omitempty"`
}

func init() {
	fw.Register(fw.Check{
		ID:     "C23",
		Rule:   "a process of its own in which 0-300 game systems with similar, foreign and oddly sorted ids and sort keys are registered, and 1-5 threads, switched by a seeded scheduler, that list ids and infos with and without the basic game system, look up and select known and unknown ids and overwrite or extend the lists they have received, while the order of every walk through a map is drawn from the seed; each answer is compared with the registered set, and lists handed out earlier are compared with what they were; non-trivial: at least two game systems and four list answers",
		Real:   []string{"game-system list, basic game system, selection in a session"},
		Stub:   []string{"game systems (registered through the overlay before anything else happens)", "order of iteration over maps", "thread scheduler", "package sync in the repository's code"},
		Assume: []string{"game systems are registered before the lists are used", "game systems with equal sort keys may be listed in any order"},
		Chunk:  25, Quick: 300, Thorough: 10000,
		Before: func(x *fw.Ctx) { fw.OneP() },
	}, genC23, validC23, execC23)
}

func validC23(c *Registry) bool {
	if len(c.Games) > 400 || len(c.Threads) == 0 || len(c.Threads) > 8 {
		return false
	}
	ids := map[string]bool{"DiceBot": true}
	for _, g := range c.Games {
		if ids[string(g.ID)] || g.ID == "" {
			return false
		}
		ids[string(g.ID)] = true
	}
	for _, t := range c.Threads {
		if len(t) > 100 {
			return false
		}
		for _, o := range t {
			if o.At < 0 {
				return false
			}
			switch o.Do {
			case "ids", "infos", "find", "select", "scribble", "extend", "sort":
			default:
				return false
			}
		}
	}
	for _, s := range c.Pol.Replay {
		if s.To < 0 || s.To >= len(c.Threads) {
			return false
		}
	}
	return true
}

var gameWords = []string{"Alpha", "alpha", "ALPHA", "beta", "Zeta", "zeta", "A", "a", "AB", "Ab", "a b", "DiceBo", "DiceBott", "Dicebot", "dicebot", "クトゥルフ", "くとうるふ", "Cthulhu", "Cthulhu7th", "Cthulhu7th_ChineseTraditional", "SwordWorld2.0", "SwordWorld2_5", "10", "9", "1", "é", "é", "_", "~", "!", "Über", "ダブル", "\xff", "日本", "Ａ"}

func genC23(r *fw.Rand, tier string) *Registry {
	c := &Registry{Maps: r.U64()}
	same := r.P(0.15) // equal sort keys
	n := r.PickInt(0, 1, 2, 3, 5, 10, 30)
	if r.P(0.05) {
		n = r.PickInt(60, 130, 300)
	}
	word := func() string {
		w := r.Pick(gameWords...)
		if n > 10 || r.P(0.3) {
			w += fmt.Sprint(r.N(4 * n))
		}
		return w
	}
	ids, keys := map[string]bool{"DiceBot": true}, map[string]bool{}
	for i := 0; i < 20*n && len(c.Games) < n; i++ {
		g := Entry{ID: fw.Text(word()), Name: fw.Text(word()), Key: fw.Text(word())}
		if r.P(0.1) {
			g.Key = fw.Text(r.Pick("", "ＤｉｃｅＢｏｔ", "*", "DiceBot", "*たいす"))
		}
		if same {
			g.Key = fw.Text(r.Pick("a", "b", "", string(g.Key)))
		}
		if ids[string(g.ID)] || !same && keys[string(g.Key)] {
			continue
		}
		ids[string(g.ID)], keys[string(g.Key)] = true, true
		c.Games = append(c.Games, g)
	}
	threads := r.PickInt(1, 1, 1, 2, 3, 5)
	per := r.PickInt(4, 8, 20)
	if r.P(0.03) {
		threads, per = 1, 100
	}
	for ; threads > 0; threads-- {
		var t []ListOp
		for len(t) < per {
			o := ListOp{Do: r.Pick("ids", "ids", "infos", "infos", "find", "select", "scribble", "extend", "sort"), With: r.P(0.5)}
			switch o.Do {
			case "find", "select":
				switch {
				case len(c.Games) > 0 && r.P(0.6):
					o.ID = c.Games[r.N(len(c.Games))].ID
				case r.P(0.3):
					o.ID = "DiceBot"
				default:
					o.ID = fw.Text(r.Pick(append(unknownGames, word(), word())...))
				}
			case "scribble", "extend", "sort":
				o.At = r.PickInt(0, 0, 0, 1, 2, 5)
			}
			t = append(t, o)
		}
		c.Threads = append(c.Threads, t)
	}
	c.Pol = simrt.Policy{Seed: r.U64(), Salt: r.U64() % 1000, Gap: uint64(r.PickInt(1, 2, 4, 10))}
	return c
}

// listed is what a process of its own has to say.
type listed struct {
	V        *fw.Violation  `json:"v,omitempty"`
	Hash     uint64         `json:"hash"`
	Switches uint64         `json:"switches"`
	Yields   uint64         `json:"yields"`
	Replay   []simrt.Switch `json:"replay,omitempty"`
	Hooked   bool           `json:"hooked"`
	Trace    []string       `json:"trace,omitempty"`
	Lists    int            `json:"lists"`
	Changed  int            `json:"changed"`
}

func execC23(x *fw.Ctx, c *Registry) *fw.Violation {
	if fw.InFresh() {
		b, _ := json.Marshal(lists(c))
		x.Answer = string(b)
		return nil
	}
	a, err := x.Fresh(c)
	if err != nil {
		return fw.V("died", "the process that lists its game systems has ended: %s", hc.Short(err.Error()))
	}
	var l listed
	if err := json.Unmarshal([]byte(a), &l); err != nil {
		panic(err)
	}
	for _, t := range l.Trace {
		x.Ev("%s", t)
	}
	x.Ev("yields %d switches %d hash %x", l.Yields, l.Switches, l.Hash)
	x.Distinct("interleavings (hash of the switch sites and threads)", l.Hash)
	x.Count("lists compared", l.Lists)
	x.Count("thread switches", int(l.Switches))
	x.Count("game systems registered", len(c.Games))
	for range l.Changed {
		x.Fault("caller:overwrites a list it has received")
	}
	if !l.Hooked {
		x.Probe("the game systems are kept in another way: only the basic one is listed")
	}
	if len(c.Games) >= 2 && l.Lists >= 4 {
		x.NonTrivial()
	}
	if l.V != nil && !c.Pol.Fixed {
		c.Pol = simrt.Policy{Fixed: true, Replay: l.Replay, Salt: c.Pol.Salt}
	}
	return l.V
}

// lists executes the case.
func lists(c *Registry) *listed {
	l := &listed{}
	add, ok := simrt.Hooks["games"].(func(string, dicebot.DiceBotConstructor))
	l.Hooked = ok
	known := map[string]list.SystemInfo{}
	var ids []string
	if ok {
		for _, g := range c.Games {
			add(string(g.ID), func() dicebot.DiceBot {
				simrt.Y(24)
				return &hc.Game{ID: string(g.ID), Title: string(g.Name), Key: string(g.Key)}
			})
			ids = append(ids, string(g.ID))
			known[string(g.ID)] = list.SystemInfo{System: string(g.ID), Name: string(g.Name), SortKey: string(g.Key)}
		}
	}
	sort.Strings(ids)
	b := basic.BasicInfo()
	base := list.SystemInfo{System: b.GameID, Name: b.GameName, SortKey: b.SortKey}
	simrt.SetMapSeed(c.Maps)
	n := len(c.Threads)
	vs, ps, traces, counts := make([]*fw.Violation, n), make([]*fw.Panic, n), make([][]string, n), make([][2]int, n)
	fns := make([]func(), n)
	for i := range fns {
		fns[i] = func() {
			ps[i] = fw.Catch(func() {
				t := &asker{ids: ids, known: known, base: base, s: bcdice.New(feeder.NewEmptyQueue()), game: "DiceBot"}
				for j := range c.Threads[i] {
					if v := t.do(&c.Threads[i][j]); v != nil {
						v.Detail = fmt.Sprintf("thread %d operation %d: %s", i, j, v.Detail)
						vs[i] = v
						break
					}
				}
				traces[i], counts[i] = t.trace, [2]int{len(t.got), t.changed}
			})
		}
	}
	simrt.SetBudget(2 * hc.Budget)
	rep, _ := simrt.Run(fns, c.Pol)
	simrt.SetBudget(0)
	l.Hash, l.Switches, l.Yields, l.Replay = rep.Hash, uint64(rep.Switches), uint64(rep.Yields), rep.Decisions
	if rep.Deadlock {
		l.V = fw.V("deadlock", "no thread can run (after %d yield points)", rep.Yields)
		return l
	}
	for i := range fns {
		if p := ps[i]; p != nil {
			v, harness := fw.FromPanic(*p, nil)
			if harness != "" {
				panic(*p)
			}
			v.Detail = fmt.Sprintf("thread %d: %s", i, v.Detail)
			l.V = v
			return l
		}
	}
	for i := range fns {
		if l.V == nil {
			l.V = vs[i]
		}
		l.Trace = append(l.Trace, traces[i]...)
		l.Lists += counts[i][0]
		l.Changed += counts[i][1]
	}
	return l
}

// asker is a thread that asks for lists.
type asker struct {
	ids     []string
	known   map[string]list.SystemInfo
	base    list.SystemInfo
	s       *bcdice.BCDice
	game    string
	got     []*gotList
	changed int
	trace   []string
}

// gotList is a list a thread has received, and what it should still be.
type gotList struct {
	ids   []string
	infos []list.SystemInfo
	isIDs bool
	want  string
}

func (g *gotList) text() string {
	if g.isIDs {
		return fmt.Sprintf("%q", g.ids)
	}
	return fmt.Sprintf("%q", g.infos)
}

func (t *asker) do(o *ListOp) *fw.Violation {
	what := o.Do
	switch o.Do {
	case "ids":
		what = fmt.Sprintf("AvailableGameIDs(%v)", o.With)
		g := &gotList{isIDs: true, ids: list.AvailableGameIDs(o.With)}
		g.want = g.text()
		t.got = append(t.got, g)
		want := t.ids
		if o.With {
			want = append([]string{t.base.System}, want...)
		}
		if got, want := strings.Join(g.ids, "\n"), strings.Join(want, "\n"); got != want || len(g.ids) == 0 != (want == "") {
			return fw.V("wrong-ids", "%s is %s, it should be %s", what, hc.Short(fmt.Sprintf("%q", g.ids)), hc.Short(fmt.Sprintf("%q", strings.Split(want, "\n"))))
		}
	case "infos":
		what = fmt.Sprintf("AvailableGameInfos(%v)", o.With)
		g := &gotList{infos: list.AvailableGameInfos(o.With).Name}
		g.want = g.text()
		t.got = append(t.got, g)
		l := g.infos
		if o.With {
			if len(l) == 0 || l[0] != t.base {
				return fw.V("wrong-infos", "%s does not begin with the basic game system %q: %s", what, t.base, hc.Short(g.want))
			}
			l = l[1:]
		}
		if len(l) != len(t.known) {
			return fw.V("wrong-infos", "%s lists %d game systems besides the basic one, there are %d: %s", what, len(l), len(t.known), hc.Short(g.want))
		}
		seen := map[string]bool{}
		for i, s := range l {
			if k, ok := t.known[s.System]; !ok || k != s || seen[s.System] {
				return fw.V("wrong-infos", "%s lists %q (the registered one is %q, listed before: %v)", what, s, k, seen[s.System])
			}
			seen[s.System] = true
			if i > 0 && l[i-1].SortKey > s.SortKey {
				return fw.V("wrong-order", "%s lists %q before %q", what, l[i-1], s)
			}
		}
	case "find":
		id := string(o.ID)
		what = fmt.Sprintf("Find(%q)", id)
		_, ok := t.known[id]
		ok = ok || id == t.base.System
		f, err := list.Find(id)
		if ok != (err == nil) {
			return fw.V("wrong-find", "%s gives error %v; registered: %v", what, err, ok)
		}
		if ok {
			if f == nil {
				return fw.V("wrong-find", "%s gives no constructor", what)
			}
			if d := f(); d.GameID() != id || id != t.base.System && (d.GameName() != t.known[id].Name || d.SortKey() != t.known[id].SortKey) {
				return fw.V("wrong-find", "%s constructs %q %q %q", what, d.GameID(), d.GameName(), d.SortKey())
			}
		}
	case "select":
		id := string(o.ID)
		what = fmt.Sprintf("selection of %q", id)
		_, ok := t.known[id]
		ok = ok || id == t.base.System
		err := t.s.SetDiceBotByGameID(id)
		if ok != (err == nil) {
			return fw.V("wrong-select", "%s gives error %v; registered: %v", what, err, ok)
		}
		if ok {
			t.game = id
		}
		if g := t.s.DiceBot.GameID(); g != t.game {
			return fw.V("wrong-select", "after the %s the game system is %q, it should be %q", what, g, t.game)
		}
	default:
		if o.At >= len(t.got) {
			break
		}
		g := t.got[len(t.got)-1-o.At]
		t.changed++
		switch o.Do {
		case "scribble":
			for i := range g.ids {
				g.ids[i] = "scribbled"
			}
			for i := range g.infos {
				g.infos[i] = list.SystemInfo{System: "scribbled"}
			}
		case "extend":
			if g.isIDs {
				g.ids = append(g.ids, "more")
				x := g.ids[:cap(g.ids)]
				for i := len(g.ids); i < len(x); i++ {
					x[i] = "behind"
				}
			} else {
				g.infos = append(g.infos, list.SystemInfo{System: "more"})
				x := g.infos[:cap(g.infos)]
				for i := len(g.infos); i < len(x); i++ {
					x[i] = list.SystemInfo{System: "behind"}
				}
			}
		case "sort":
			sort.Sort(sort.Reverse(sort.StringSlice(g.ids)))
			sort.Slice(g.infos, func(i, j int) bool { return g.infos[i].System > g.infos[j].System })
		}
		g.want = g.text()
	}
	t.trace = append(t.trace, what)
	// the lists received earlier are the thread's own
	for i, g := range t.got {
		if now := g.text(); now != g.want {
			return fw.V("list-changed", "after %s, list %d of this thread has changed from %s to %s", what, i, hc.Short(g.want), hc.Short(now))
		}
	}
	return nil
}
