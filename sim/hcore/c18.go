package hcore

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	dbtest "github.com/raa0121/GoBCDice/pkg/dicebot/testing"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/model"
	"verifsim/simrt"
)

// RunnerTest is a test case for the runner: a command, its dice, and what was done to it.
type RunnerTest struct {
	Cmd  *model.Cmd `json:"cmd,omitempty"`
	Raw  fw.Text    `json:"raw,omitempty"`
	More []string   `json:"more,omitempty"` // further lines of input
	// Dice overrides the dice the command draws; Out overrides the expected output.
	Script  hc.Script `json:"script"`
	SetDice bool      `json:"setdice,omitempty"`
	Dice    []int     `json:"dice,omitempty"`
	SetOut  bool      `json:"setout,omitempty"`
	Out     string    `json:"out,omitempty"`
	Style   int       `json:"style,omitempty"`
}

// RunnerFile is a file of test cases.
type RunnerFile struct {
	Tests   []RunnerTest `json:"tests"`
	Bad     fw.Text      `json:"bad,omitempty"` // a record at the end
	Missing string       `json:"missing,omitempty"`
}

// RunnerCase is a call of the runner.
type RunnerCase struct {
	Files  []RunnerFile   `json:"files"`
	Faults []hc.FileFault `json:"faults,omitempty"`
}

func init() {
	fw.Register(fw.Check{
		ID:    "C18",
		Rule:  "1-3 test-data files with 1-10 cases made from commands, scripted dice and the model's answers, some of them damaged (message altered, secret mark added or dropped, expectation dropped or added, die missing, left over, with other sides or another value, die out of range) and some loads faulty; the runner's verdict for all of them together and for each case alone is compared with the model's; non-trivial: both a case that must pass and one that must fail",
		Real:  []string{"test runner, test-data loader, bcdice sessions, parser, evaluator, notation, command, roller, feeder.Queue", "package testing"},
		Stub:  []string{"disk (real scratch files behind a fault injector)"},
		Chunk: 30, Quick: 320, Thorough: 20000,
	}, genC18, validC18, execC18)
}

func (t *RunnerTest) text() string {
	if t.Cmd != nil {
		return t.Cmd.Text()
	}
	return string(t.Raw)
}

func (t *RunnerTest) dice() []int {
	if t.SetDice || t.Cmd == nil {
		return t.Dice
	}
	var ds []int
	t.Cmd.Eval(func(sides int) (int, error) {
		if len(ds) >= 4000 {
			return 0, model.ErrDraw
		}
		v := t.Script.Value(len(ds)/2, sides)
		ds = append(ds, v, sides)
		return v, nil
	})
	return ds
}

// answer is what the command answers with the dice of the test: its text, or an error.
func (t *RunnerTest) answer(ds []int) (out string, ok bool, left int) {
	if t.Cmd == nil {
		return "", false, 0 // junk is no command
	}
	i := 0
	a, err := t.Cmd.Eval(func(sides int) (int, error) {
		if i+1 >= len(ds) {
			return 0, model.ErrDraw
		}
		v, s := ds[i], ds[i+1]
		i += 2
		if s != sides || v < 1 || v > s {
			return 0, model.ErrDraw
		}
		return v, nil
	})
	if err != nil || a.Err {
		return "", false, (len(ds) - i) / 2
	}
	out = a.Message("DiceBot")
	if t.Cmd.Secret != "" {
		out += "###secret dice###"
	}
	return out, true, (len(ds) - i) / 2
}

func (t *RunnerTest) expected() string {
	if t.SetOut {
		return t.Out
	}
	out, _, _ := t.answer(t.dice())
	return out
}

// passes is the verdict the test must get.
func (t *RunnerTest) passes() bool {
	out, ok, left := t.answer(t.dice())
	want := t.expected()
	if want == "" {
		return !ok
	}
	return ok && out == want && left == 0
}

func (t *RunnerTest) record() Record {
	return Record{Input: append([]string{t.text()}, t.More...), Output: t.expected(), Dice: t.dice(), Style: t.Style}
}

func (f *RunnerFile) file(name string) DataFile {
	d := DataFile{Name: name, Missing: f.Missing, Tail: 1}
	for i := range f.Tests {
		d.Records = append(d.Records, f.Tests[i].record())
	}
	if f.Bad != "" {
		d.Records = append(d.Records, Record{Raw: f.Bad})
	}
	return d
}

var runnerJunk = []string{"hello", "2D", "D6", "(2D6", "1B6[", "CHOICE", "C(1", "GETSST", "あ", "2D6>=(1", "1+1"}

func validC18(c *RunnerCase) bool {
	if len(c.Files) < 1 || len(c.Files) > 5 {
		return false
	}
	for i := range c.Files {
		f := &c.Files[i]
		if len(f.Tests) > 20 || len(f.Tests) == 0 && f.Bad == "" {
			return false
		}
		for j := range f.Tests {
			t := &f.Tests[j]
			if t.Cmd != nil && !t.Cmd.Valid() {
				return false
			}
			if t.Cmd == nil {
				known := false
				for _, k := range runnerJunk {
					known = known || k == string(t.Raw)
				}
				if !known {
					return false
				}
			}
			if strings.ContainsAny(t.text(), "\n\r") || strings.ContainsAny(t.expected(), "\r") {
				return false
			}
			for _, d := range t.Dice {
				if d < 0 {
					return false
				}
			}
		}
		fs := []DataFile{f.file("x.txt")}
		if !validFiles(fs) {
			return false
		}
	}
	for _, f := range c.Faults {
		if f.Kind != "open" && f.Kind != "read" && f.Kind != "short" || f.At < 0 {
			return false
		}
	}
	return true
}

func genC18(r *fw.Rand, tier string) *RunnerCase {
	for {
		c := &RunnerCase{}
		cfg := model.NewCfg(r)
		pd := float64(r.PickInt(0, 10, 30, 60)) / 100
		one := r.P(0.2) // exactly one damaged case among good ones
		for n := r.PickInt(1, 1, 2, 3); n > 0; n-- {
			f := RunnerFile{}
			for k := r.Range(1, 10); k > 0; k-- {
				t := genRunnerTest(r, cfg)
				if !one && r.P(pd) {
					damage(r, &t)
				}
				f.Tests = append(f.Tests, t)
			}
			c.Files = append(c.Files, f)
		}
		if one {
			f := &c.Files[r.N(len(c.Files))]
			damage(r, &f.Tests[r.N(len(f.Tests))])
		}
		if r.P(0.1) {
			f := &c.Files[r.N(len(c.Files))]
			switch r.N(3) {
			case 0:
				f.Missing = r.Pick("none", "dir")
			case 1:
				f.Bad = fw.Text(r.Pick(badRecords[2:]...))
			default:
				i := r.N(len(c.Files))
				ff := genFileFault(r, []DataFile{c.Files[i].file(runnerName(i))})
				c.Faults = append(c.Faults, ff)
			}
		}
		if validC18(c) {
			return c
		}
	}
}

func genRunnerTest(r *fw.Rand, cfg *model.GenCfg) RunnerTest {
	t := RunnerTest{Style: r.N(4)}
	if r.P(0.1) {
		t.Raw = fw.Text(r.Pick(runnerJunk...))
	} else {
		o := genOp(r, cfg, 100)
		t.Cmd, t.Script = o.Cmd, o.Script
	}
	if r.P(0.1) {
		t.More = []string{r.Pick("2D6", "x", "1D6")}
	}
	return t
}

// damage makes a test that will fail in most cases; the model says whether it does.
func damage(r *fw.Rand, t *RunnerTest) {
	ds := append([]int{}, t.dice()...)
	out, _, _ := t.answer(ds)
	setOut := func(s string) { t.SetOut, t.Out = true, s }
	setDice := func(d []int) {
		// the expectation stays that of the right dice
		setOut(out)
		t.SetDice, t.Dice = true, d
	}
	const mark = "###secret dice###"
	n := len(ds) / 2
	switch k := r.N(12); {
	case k == 0 && strings.HasSuffix(out, mark):
		setOut(strings.TrimSuffix(out, mark))
	case k == 0 && out != "":
		setOut(out + mark)
	case k == 1 && out != "":
		setOut("")
	case k == 2 && out == "":
		setOut("DiceBot : " + t.text())
	case k == 3 && out != "":
		// one character
		rs := []rune(out)
		i := r.N(len(rs))
		rs[i]++
		setOut(string(rs))
	case k == 4 && out != "":
		setOut(r.Pick(" "+out, out+" ", strings.ToLower(out), strings.Replace(out, " ＞ ", " > ", 1), out[:len(out)-1], out+"0", strings.TrimPrefix(out, "DiceBot : "), strings.Replace(out, "DiceBot", "Alpha", 1)))
	case k == 5:
		setDice(append(ds, 1, 6))
	case k == 6 && n > 0:
		setDice(ds[:len(ds)-2])
	case k == 7 && n > 0:
		ds[2*r.N(n)+1]++
		setDice(ds)
	case k == 8 && n > 0:
		i := r.N(n)
		ds[2*i] = 1 + ds[2*i]%ds[2*i+1]
		setDice(ds)
	case k == 9 && n > 0:
		i := r.N(n)
		ds[2*i] = r.PickInt(0, ds[2*i+1]+1)
		setDice(ds)
	case k == 10 && n > 1:
		i := r.N(n - 1)
		ds[2*i], ds[2*i+2] = ds[2*i+2], ds[2*i]
		ds[2*i+1], ds[2*i+3] = ds[2*i+3], ds[2*i+1]
		setDice(ds)
	case k == 11 && n > 0:
		setDice(nil)
	default:
		setDice(append([]int{1, 6}, ds...))
	}
}

func runnerName(i int) string { return string(rune('a'+i)) + ".txt" }

var failLine = regexp.MustCompile(`(?m)^ +--- FAIL: `)

// runnerVerdict calls the runner under package testing and returns its verdict and the number
// of sub-tests that failed.
func runnerVerdict(dir, id string, paths []string) (ok bool, failed int, log string) {
	out, err := os.Create(filepath.Join(dir, "log"))
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = out
	simrt.SetBudget(hc.Budget)
	ok = testing.RunTests(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "R", F: func(t *testing.T) {
		dbtest.Run(id, t, paths...)
	}}})
	simrt.SetBudget(0)
	os.Stdout = old
	out.Close()
	b, err := os.ReadFile(filepath.Join(dir, "log"))
	if err != nil {
		panic(err)
	}
	return ok, len(failLine.FindAllString(string(b), -1)), string(b)
}

func execC18(x *fw.Ctx, c *RunnerCase) *fw.Violation {
	dir := scratch(x)
	var fs []DataFile
	var paths []string
	loads, sure := true, true
	var tests []*RunnerTest
	for i := range c.Files {
		f := c.Files[i].file(runnerName(i))
		fs = append(fs, f)
		paths = append(paths, filepath.Join(dir, f.Name))
		cs, ok, s := wantFile(f.text())
		for _, w := range cs {
			s = s && !w.over // left to C17
		}
		sure = sure && s
		loads = loads && ok && f.Missing == ""
		for j := range c.Files[i].Tests {
			tests = append(tests, &c.Files[i].Tests[j])
		}
	}
	writeFiles(dir, fs)
	disk := hc.NewDisk(x, c.Faults)
	simrt.SetFS(disk)
	ok, failed, log := runnerVerdict(dir, "DiceBot", paths)
	simrt.SetFS(nil)
	if len(disk.Hit) > 0 {
		loads = false
	}
	bad := 0
	for _, t := range tests {
		if !t.passes() {
			bad++
		}
	}
	x.Ev("all: ok=%v failed=%d", ok, failed)
	x.Note("%s", strings.ReplaceAll(hc.Short(log), dir, ""))
	x.Count("cases", len(tests))
	if !sure {
		return nil
	}
	if !loads {
		x.Count("runs whose files cannot be loaded", 1)
		if ok {
			return fw.V("load-failure-passes", "the files cannot be loaded, but the run passes")
		}
		return nil
	}
	if ok != (bad == 0) {
		return fw.V("wrong-verdict", "%d of %d cases must fail; the run passed: %v", bad, len(tests), ok)
	}
	if failed != bad {
		return fw.V("wrong-verdict", "%d of %d cases must fail; %d did", bad, len(tests), failed)
	}
	if bad > 0 && bad < len(tests) {
		x.NonTrivial()
	}
	for i, t := range tests {
		f := DataFile{Name: "one.txt", Records: []Record{t.record()}}
		if err := os.WriteFile(filepath.Join(dir, f.Name), []byte(f.text()), 0666); err != nil {
			panic(err)
		}
		ok, _, log := runnerVerdict(dir, "DiceBot", []string{filepath.Join(dir, f.Name)})
		x.Ev("case %d alone: %v", i, ok)
		if want := t.passes(); ok != want {
			return fw.V("wrong-verdict", "case %d alone (input %q, expected %q, dice %v): the run passed: %v, it must pass: %v; %s", i+1, hc.Short(t.text()), hc.Short(t.expected()), t.dice(), ok, want, hc.Short(log))
		}
		if t.passes() {
			x.Count("cases that must pass", 1)
		} else {
			x.Count("cases that must fail", 1)
		}
	}
	return nil
}
