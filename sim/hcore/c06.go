package hcore

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/bcdice"
	"github.com/raa0121/GoBCDice/pkg/core/dice"
	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
	"github.com/raa0121/GoBCDice/pkg/core/parser"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
	"verifsim/simrt"
)

// Conc is a concurrent run: programs of threads and a schedule.
type Conc struct {
	Threads [][]Op       `json:"threads"`
	Pol     simrt.Policy `json:"pol"`
}

func init() {
	fw.Register(fw.Check{
		ID:     "C06",
		Rule:   "2-5 threads, each with its own sessions, game lists, parser and test-data loader, released one at a time by a seeded scheduler at statement granularity (uniform or only around package-level variables) under the race detector; non-trivial: at least 5 switches between threads",
		Real:   []string{"bcdice sessions, parser, evaluator, notation, command, roller, feeders, game-system list, test-data loader (compiled with the race detector)"},
		Stub:   []string{"thread scheduler", "package sync (cooperative locks, once, pools)", "die source in part of the sessions"},
		Assume: []string{"threads use the library only through sessions of their own and its read-only package functions", "the Go library underneath is correct"},
		Chunk:  8, Quick: 400, Thorough: 20000, Race: true,
		Before: func(x *fw.Ctx) {
			fw.OneP()
			hc.RegisterGames()
			loaderFiles()
		},
	}, genC06, validC06, execC06)
}

var loaderDir string

// loaderFiles writes the files the loader operations read.
func loaderFiles() {
	d, err := os.MkdirTemp("", "c06")
	if err != nil {
		panic(err)
	}
	loaderDir = d
	os.WriteFile(filepath.Join(d, "a.txt"), []byte("input:\n2D6\noutput:\nDiceBot : (2D6) ＞ 7[3,4] ＞ 7\nrand:3/6,4/6\n============================\ninput:\nS1D6 x\noutput:\nDiceBot : (1D6) ＞ 2[2] ＞ 2###secret dice###\nrand:2/6\n"), 0666)
	os.WriteFile(filepath.Join(d, "b.txt"), []byte("input:\nx\ny\noutput:\nrand:\n============================\ninput:\n3B6\noutput:\nDiceBot : (3B6) ＞ 1,2,3\nrand:1/6, 2/6, 3/6"), 0666)
	os.WriteFile(filepath.Join(d, "bad.txt"), []byte("input:\n2D6\noutput:\nrand:3/x"), 0666)
}

func validC06(c *Conc) bool {
	if len(c.Threads) < 1 || len(c.Threads) > 16 {
		return false
	}
	for _, ops := range c.Threads {
		if len(ops) > 40 || !validOps(ops, 1) {
			return false
		}
	}
	for _, s := range c.Pol.Replay {
		if s.To < 0 || s.To >= len(c.Threads) {
			return false
		}
	}
	return true
}

func genC06(r *fw.Rand, tier string) *Conc {
	c := &Conc{}
	cfg := model.NewCfg(r)
	n := r.PickInt(2, 2, 3, 3, 4, 5)
	per := r.PickInt(1, 2, 3, 5, 8)
	if r.P(0.06) {
		n, per = r.PickInt(7, 9, 10, 12, 16), r.PickInt(1, 1, 2)
	}
	mixed := r.P(0.6)
	focus := r.N(12)
	var prev []Op
	for t := 0; t < n; t++ {
		var ops []Op
		for len(ops) < per {
			var o Op
			k := r.N(16)
			if !mixed {
				k = focus
			}
			switch {
			case k == 0:
				o = Op{Do: "ids"}
			case k == 1:
				o = Op{Do: "infos"}
			case k == 2:
				o = Op{Do: "game", Arg: genGame(r)}
			case k == 3:
				o = Op{Do: "parse", Cmd: cfg.Cmd(r)}
			case k == 4:
				o = Op{Do: "parse", Raw: fw.Text(junk[1+r.N(len(junk)-1)])}
			case k == 5:
				o = Op{Do: "load", Arg: r.Pick("a.txt", "b.txt", "a.txt b.txt", "bad.txt", "a.txt missing.txt", "b.txt a.txt b.txt")}
			case k == 6:
				o = Op{Do: "source", Source: r.Pick("sim", "mt", "mt", "queue"), Seed: int64(r.N(5))}
			case k == 7:
				o = Op{Raw: fw.Text(junk[1+r.N(len(junk)-1)])}
			case k == 8 && r.P(0.4):
				o = Op{Do: "game", Arg: "Tally"}
				if len(ops) > 0 && (ops[len(ops)-1].Arg == "Tally" || strings.HasSuffix(string(ops[len(ops)-1].Raw), "T!T")) {
					o = Op{Raw: fw.Text(r.Pick("", "S") + "T!T")}
				}
			case k == 8:
				o = genGameOp(r, cfg, 200)
			case len(prev) > 0 && r.P(0.3):
				o = prev[r.N(len(prev))]
				if o.Cmd != nil && len(o.Faults) == 0 && r.P(0.4) {
					o.Cmd = o.Cmd.Variant(r)
					if draws(&o, 1000) < 0 {
						continue
					}
				}
			default:
				o = genOp(r, cfg, 200)
				if r.P(0.1) {
					if d := draws(&o, 1000); d > 0 {
						o.Faults = []hc.Fault{hc.NewFault(r, r.N(d))}
					}
				}
			}
			if o.Do == "" {
				prev = append(prev, o)
			}
			o.S = 0
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	c.Pol = simrt.Policy{Seed: r.U64(), Salt: r.U64() % 1000}
	switch r.N(5) {
	case 0:
		c.Pol.Gap = uint64(r.PickInt(20, 100))
	case 1, 2:
		c.Pol.Gap = uint64(r.PickInt(300, 1000, 5000))
	default:
		c.Pol.Hot = true
		c.Pol.Gap = uint64(r.PickInt(1, 2, 4, 16))
	}
	return c
}

// program runs the operations of one thread and returns what each of them answered.
func program(ops []Op) (out []string, ps *fw.Panic) {
	ps = fw.Catch(func() {
		s := &session{f: hc.NewFeeder(nil)}
		s.b = bcdice.New(s.f)
		for i := range ops {
			o := &ops[i]
			a := ""
			switch o.Do {
			case "ids":
				a = fmt.Sprint(list.AvailableGameIDs(i%2 == 0))
			case "infos":
				a = fmt.Sprint(list.AvailableGameInfos(i%2 == 0))
			case "game":
				err := s.b.SetDiceBotByGameID(o.Arg)
				a = fmt.Sprintf("%s|%s|%d|%v", s.b.DiceBot.GameID(), s.b.DiceBot.GameName(), len(s.b.DiceBot.Usage()), err)
			case "parse":
				n, err := parser.Parse("x", []byte(o.Text()))
				a = fmt.Sprintf("%v", err)
				if se, ok := n.(interface{ SExp() string }); ok && err == nil {
					a = se.SExp()
				}
			case "load":
				var files []string
				for _, f := range strings.Fields(o.Arg) {
					files = append(files, filepath.Join(loaderDir, f))
				}
				cs, err := dbtest.ParseFiles(files, "DiceBot")
				a = fmt.Sprint(err)
				a = strings.ReplaceAll(a, loaderDir, "")
				for _, c := range cs {
					a += fmt.Sprintf("|%v", *c)
				}
			case "source":
				f := hc.NewFeeder(nil)
				s.q = nil
				switch o.Source {
				case "queue":
					s.q = feeder.NewQueue([]dice.Die{{Value: 1, Sides: 6}})
					f.Inner = s.q
				case "mt":
					f.Inner = feeder.NewMT19937(o.Seed)
				}
				s.f = f
				s.b.SetDieFeeder(f)
			case "":
				s.prepare(o)
				res, err := s.b.ExecuteCommand(o.Text())
				a = answerText(hc.Snap(res, err), len(s.f.Log))
				a += hc.DiceText(s.f.Delivered())
			}
			out = append(out, a)
		}
	})
	return
}

func execC06(x *fw.Ctx, c *Conc) *fw.Violation {
	n := len(c.Threads)
	outs := make([][]string, n)
	ps := make([]*fw.Panic, n)
	fns := make([]func(), n)
	for i := range fns {
		fns[i] = func() { outs[i], ps[i] = program(c.Threads[i]) }
	}
	races := simrt.RaceErrors()
	simrt.SetBudget(2 * hc.Budget)
	rep, _ := simrt.Run(fns, c.Pol)
	simrt.SetBudget(0)
	x.Ev("yields %d switches %d hash %x deadlock %v", rep.Yields, rep.Switches, rep.Hash, rep.Deadlock)
	x.Count("yield points passed", int(rep.Yields))
	x.Count("thread switches", int(rep.Switches))
	x.Distinct("interleavings (hash of the switch sites and threads)", rep.Hash)
	if rep.Switches >= 5 {
		x.NonTrivial()
	}
	fix := func(v *fw.Violation) *fw.Violation {
		if !c.Pol.Fixed {
			c.Pol = simrt.Policy{Fixed: true, Replay: rep.Decisions, Salt: c.Pol.Salt}
		}
		return v
	}
	if rep.Deadlock {
		return fix(fw.V("deadlock", "no thread can run (after %d yield points)", rep.Yields))
	}
	for i, p := range ps {
		if p != nil {
			v, harness := fw.FromPanic(*p, nil)
			if harness != "" {
				panic(*p)
			}
			v.Detail = fmt.Sprintf("thread %d: %s", i, v.Detail)
			return fix(v)
		}
	}
	if d := simrt.RaceErrors() - races; d > 0 {
		if r := fw.RaceReport(); r != "" {
			return fix(fw.V("race", "data race: %s", r))
		}
		panic("data race outside the code under test")
	}
	for i := range outs {
		for j, a := range outs[i] {
			x.Ev("thread %d op %d: %s", i, j, hc.Short(a))
		}
	}
	// each program alone
	for i := range outs {
		simrt.SetBudget(2 * hc.Budget)
		alone, p := program(c.Threads[i])
		simrt.SetBudget(0)
		if p != nil {
			panic(*p)
		}
		for j := range alone {
			if outs[i][j] != alone[j] {
				return fix(fw.V("interference", "thread %d operation %d %q: with other threads running the answer was %s, alone it is %s", i, j, hc.Short(c.Threads[i][j].Do+" "+c.Threads[i][j].Text()), hc.Short(outs[i][j]), hc.Short(alone[j])))
			}
		}
	}
	// and, for commands, as the model says (a difference that is there alone too is not a
	// matter of concurrency)
	if !fw.InFresh() {
		for i := range c.Threads {
			game := "DiceBot"
			sim := true
			for j := range c.Threads[i] {
				o := &c.Threads[i][j]
				switch o.Do {
				case "game":
					game = strings.Split(outs[i][j], "|")[0]
					sim = sim && (game == "DiceBot" || hc.GameOf(game) != nil)
				case "source":
					sim = o.Source == "sim"
				}
				if o.Do != "" || !sim || len(o.Faults) > 0 {
					continue
				}
				want, _, known := expect(game, o)
				if !known || strings.HasPrefix(outs[i][j], answerText(want, len(want.Dice))) || want.Err {
					continue
				}
				one := &Conc{Threads: [][]Op{c.Threads[i]}, Pol: simrt.Policy{Fixed: true}}
				fresh, err := x.Fresh(one)
				if err != nil {
					panic(err)
				}
				if fresh != strings.Join(outs[i], "\n") {
					return fix(fw.V("interference", "thread %d operation %d %q answered %s; alone in a new process the thread answers differently: %s", i, j, hc.Short(o.Text()), hc.Short(outs[i][j]), hc.Short(fresh)))
				}
				x.Count("answers that differ from the model but not from a new process", 1)
			}
		}
	}
	x.Answer = strings.Join(outs[0], "\n")
	return nil
}
