package hcore

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/dice"
	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/simrt"
)

// Load is one call of the loader.
type Load struct {
	Files  []int          `json:"files"`
	One    bool           `json:"one,omitempty"` // through ParseFile
	Game   string         `json:"game"`
	Faults []hc.FileFault `json:"faults,omitempty"`
	Damage bool           `json:"damage,omitempty"` // the caller overwrites the cases it got
}

// LoadCase is a set of files and calls of the loader on them.
type LoadCase struct {
	Files []DataFile `json:"files"`
	Loads []Load     `json:"loads"`
}

func init() {
	fw.Register(fw.Check{
		ID:     "C17",
		Rule:   "1-5 test-data files (well formed, or with a malformed, empty or cut-off record, a missing file or a directory in its place) and 1-8 loads of lists of them, with open errors, read errors at a chosen offset and short reads injected, and a caller that overwrites what it got; the outcome is compared with an independent reader of the format; non-trivial: one load succeeded with at least 2 cases and one failed",
		Real:   []string{"test-data loader and parser"},
		Stub:   []string{"disk (real scratch files behind a fault injector for open and read)"},
		Assume: []string{"a file cut off inside its last list of dice, but after a whole die, is a well-formed file", "records whose headers occur more than once are not compared"},
		Chunk:  40, Quick: 600, Thorough: 30000,
	}, genC17, validC17, execC17)
}

func validC17(c *LoadCase) bool {
	if !validFiles(c.Files) || len(c.Loads) > 30 {
		return false
	}
	for _, l := range c.Loads {
		if len(l.Files) > 10 || l.One && len(l.Files) != 1 {
			return false
		}
		for _, i := range l.Files {
			if i < 0 || i >= len(c.Files) {
				return false
			}
		}
		for _, f := range l.Faults {
			if f.Kind != "open" && f.Kind != "read" && f.Kind != "short" || f.At < 0 {
				return false
			}
		}
	}
	return true
}

func genC17(r *fw.Rand, tier string) *LoadCase {
	c := &LoadCase{Files: genFiles(r)}
	for i := range c.Files {
		f := &c.Files[i]
		switch r.N(8) {
		case 0:
			f.Records[r.N(len(f.Records))].Raw = fw.Text(r.Pick(badRecords[1:]...))
		case 1:
			f.Cut = r.Range(1, len(f.text()))
		case 2:
			f.Missing = r.Pick("none", "dir")
		case 3:
			if r.P(0.5) {
				f.Records = nil
			} else { // an empty record, as two separators in a row leave it
				f.Tail += 0
				k := r.N(len(f.Records))
				f.Records[k].Raw = "\n"
			}
		}
	}
	for n := r.Range(1, 8); n > 0; n-- {
		l := Load{Game: r.Pick("DiceBot", "X", "", "ゲーム")}
		if r.P(0.2) {
			l.One = true
			l.Files = []int{r.N(len(c.Files))}
		} else {
			for k := r.PickInt(0, 1, 2, 2, 3, 4); k > 0; k-- {
				l.Files = append(l.Files, r.N(len(c.Files)))
			}
			if r.P(0.4) {
				l.Files = nil
				for i := range c.Files {
					l.Files = append(l.Files, i)
				}
			}
		}
		if r.P(0.4) {
			l.Faults = append(l.Faults, genFileFault(r, c.Files))
			if r.P(0.3) {
				l.Faults = append(l.Faults, genFileFault(r, c.Files))
			}
		}
		l.Damage = r.P(0.3)
		c.Loads = append(c.Loads, l)
	}
	return c
}

func execC17(x *fw.Ctx, c *LoadCase) *fw.Violation {
	dir := scratch(x)
	writeFiles(dir, c.Files)
	okLoads, badLoads := 0, 0
	for i := range c.Loads {
		l := &c.Loads[i]
		var paths []string
		for _, k := range l.Files {
			paths = append(paths, filepath.Join(dir, c.Files[k].Name))
		}
		disk := hc.NewDisk(x, l.Faults)
		simrt.SetFS(disk)
		simrt.SetBudget(hc.Budget)
		var got []*dbtest.DiceBotTestCase
		var err error
		if l.One {
			got, err = dbtest.ParseFile(paths[0], l.Game)
		} else {
			got, err = dbtest.ParseFiles(paths, l.Game)
		}
		simrt.SetBudget(0)
		simrt.SetFS(nil)
		e := ""
		if err != nil {
			e = strings.ReplaceAll(err.Error(), dir, "")
		}
		x.Ev("load %d %v faults %v: %d cases, error %q", i, l.Files, l.Faults, len(got), e)
		x.Count("loads", 1)
		if err != nil && len(got) > 0 {
			return fw.V("partial-list", "load %d of %v gives both an error (%s) and %d cases", i, names(c, l), e, len(got))
		}
		var want []wantCase
		ok, sure, over := true, true, false
		var bad []string
		for _, k := range l.Files {
			f := &c.Files[k]
			cs, o, s := wantFile(f.text())
			if f.Missing != "" || disk.Hit[f.Name] {
				o, s = false, true
			}
			if s && !o {
				ok, bad = false, append(bad, f.Name)
			}
			sure = sure && s
			for _, w := range cs {
				if w.over {
					over, bad = true, append(bad, f.Name)
				}
			}
			want = append(want, cs...)
		}
		if ok && !sure {
			continue
		}
		if !ok {
			badLoads++
			x.Count("loads that must fail", 1)
			if err == nil {
				return fw.V("damaged-file-accepted", "load %d of %v (faults %v): %s cannot be loaded whole, but %d cases and no error were returned", i, names(c, l), l.Faults, bad, len(got))
			}
			named := !sure
			for _, b := range bad {
				named = named || strings.Contains(err.Error(), b)
			}
			if len(l.Files) > 1 && !named {
				return fw.V("file-not-named", "load %d of %v: the error %q does not name %s", i, names(c, l), e, bad)
			}
			continue
		}
		if over && err != nil {
			badLoads++
			continue
		}
		if err != nil {
			return fw.V("good-file-refused", "load %d of %v (faults %v): well-formed files give error %s", i, names(c, l), l.Faults, e)
		}
		if len(got) != len(want) {
			return fw.V("wrong-cases", "load %d of %v: %d cases, the files have %d", i, names(c, l), len(got), len(want))
		}
		for j, g := range got {
			w := want[j]
			if g == nil {
				return fw.V("wrong-cases", "load %d of %v: case %d is nil", i, names(c, l), j+1)
			}
			if g.Index != j+1 {
				return fw.V("wrong-number", "load %d of %v: case %d has number %d", i, names(c, l), j+1, g.Index)
			}
			if g.GameID != l.Game || fmt.Sprintf("%q", g.Input) != fmt.Sprintf("%q", w.input) || g.Output != w.output || !hc.SameDice(g.Dice, w.dice) {
				return fw.V("wrong-cases", "load %d of %v: case %d is game %q input %q output %q dice %s, the file has input %q output %q dice %s", i, names(c, l), j+1, g.GameID, g.Input, g.Output, hc.DiceText(g.Dice), w.input, w.output, hc.DiceText(w.dice))
			}
		}
		if over {
			// nothing else is wrong with the list
			line, listed := fw.Listed("C17", "die-number-over-int")
			if !listed {
				return fw.V("damaged-file-accepted", "load %d of %v: a die of %s has a number that fits no int, but no error was returned", i, names(c, l), bad)
			}
			x.Known(line)
			continue
		}
		if len(got) >= 2 {
			okLoads++
		}
		if l.Damage {
			for _, g := range got {
				for k := range g.Dice {
					g.Dice[k] = dice.Die{Value: -1, Sides: -1}
				}
				for k := range g.Input {
					g.Input[k] = "overwritten"
				}
				g.Index, g.Output = -5, "overwritten"
			}
			x.Probe("caller overwrote the cases it got")
		}
	}
	if okLoads > 0 && badLoads > 0 {
		x.NonTrivial()
	}
	return nil
}

func names(c *LoadCase, l *Load) (out []string) {
	for _, i := range l.Files {
		out = append(out, c.Files[i].Name)
	}
	return
}
