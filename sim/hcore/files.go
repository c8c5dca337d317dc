package hcore

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/raa0121/GoBCDice/pkg/core/dice"

	"verifsim/fw"
	"verifsim/hc"
)

// Record is one test case of a test-data file.
type Record struct {
	Input  []string `json:"input"`
	Output string   `json:"output,omitempty"`
	Dice   []int    `json:"dice,omitempty"` // value, sides, ...
	Style  int      `json:"style,omitempty"`
	// Raw replaces the record's text
	Raw fw.Text `json:"raw,omitempty"`
}

// DataFile is a test-data file. Cut, if positive, leaves that many bytes of it.
type DataFile struct {
	Name    string   `json:"name"`
	Records []Record `json:"records"`
	Tail    int      `json:"tail,omitempty"` // line ends after the last record
	Cut     int      `json:"cut,omitempty"`
	Missing string   `json:"missing,omitempty"` // "none": no such file; "dir": a directory
}

const separator = "\n============================\n"

func (r *Record) text() string {
	if r.Raw != "" {
		return string(r.Raw)
	}
	var ds []string
	for i := 0; i+1 < len(r.Dice); i += 2 {
		ds = append(ds, strconv.Itoa(r.Dice[i])+"/"+strconv.Itoa(r.Dice[i+1]))
	}
	sep := ","
	if r.Style&1 != 0 {
		sep = ", "
	}
	out := "\n" + r.Output
	if r.Output == "" && r.Style&2 != 0 {
		out = ""
	}
	return "input:\n" + strings.Join(r.Input, "\n") + "\noutput:" + out + "\nrand:" + strings.Join(ds, sep)
}

func (f *DataFile) text() string {
	var p []string
	for i := range f.Records {
		p = append(p, f.Records[i].text())
	}
	t := strings.Join(p, separator) + strings.Repeat("\n", f.Tail)
	if f.Cut > 0 && f.Cut < len(t) {
		t = t[:f.Cut]
	}
	return t
}

func validFiles(fs []DataFile) bool {
	if len(fs) > 8 {
		return false
	}
	for i := range fs {
		f := &fs[i]
		if f.Name == "" || strings.ContainsAny(f.Name, "/\x00") || f.Name[0] == '.' || len(f.Name) > 40 || f.Tail < 0 || f.Tail > 10 {
			return false
		}
		if len(f.Records) > 60 {
			return false
		}
		for j := 0; j < i; j++ {
			if fs[j].Name == f.Name {
				return false
			}
		}
		for _, r := range f.Records {
			if r.Raw == "" && len(r.Input) == 0 || len(r.Dice)%2 != 0 {
				return false
			}
			for _, d := range r.Dice {
				if d < 0 {
					return false
				}
			}
			for _, l := range append([]string{r.Output}, r.Input...) {
				if strings.Contains(l, "output:") || strings.Contains(l, "rand:") || strings.Contains(l, "====") {
					return false
				}
			}
			// blank lines at the ends of the texts are not kept by the format
			if strings.HasPrefix(r.Output, "\n") || strings.HasSuffix(r.Output, "\n") || r.Raw == "" && r.Input[0] == "" {
				return false
			}
			for _, l := range r.Input {
				if strings.Contains(l, "\n") {
					return false
				}
			}
		}
	}
	return true
}

// wantRecord reads a record as the format says. sure is false where the format leaves open
// what it means.
func wantRecord(text string) (w wantCase, ok, sure bool) {
	w.text = text
	if strings.Count(text, "\noutput:") > 1 || strings.Count(text, "\nrand:") > 1 || strings.Contains(text, "\r") {
		return w, false, false
	}
	rest, found := strings.CutPrefix(text, "input:\n")
	if !found {
		return w, false, true
	}
	in, rest, found := strings.Cut(rest, "\noutput:")
	if !found || in == "" {
		return w, false, true
	}
	out, rnd, found := strings.Cut(rest, "\nrand:")
	if !found {
		// "output:" directly followed by "rand:" needs no text between
		return w, false, true
	}
	if out == "\n" {
		out = ""
	}
	if strings.HasPrefix(in, "\n") || strings.HasPrefix(out, "\n\n") || strings.HasSuffix(out, "\n") || (out != "" && out[0] != '\n') {
		return w, false, false
	}
	out = strings.TrimPrefix(out, "\n")
	if rnd != "" {
		for _, d := range strings.Split(rnd, ",") {
			v, s, found := strings.Cut(strings.Trim(d, " \t\n"), "/")
			vn, e1, o1 := number(v)
			sn, e2, o2 := number(s)
			w.over = w.over || o1 || o2
			if !found || !e1 || !e2 {
				return w, false, true
			}
			w.dice = append(w.dice, dice.Die{Value: vn, Sides: sn})
		}
	}
	w.input, w.output = strings.Split(in, "\n"), out
	return w, true, true
}

// number reads a number; over says that it is too large for an int (n is the largest then).
func number(s string) (n int, ok, over bool) {
	if s == "" {
		return 0, false, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false, false
		}
	}
	n, err := strconv.Atoi(s)
	return n, true, err != nil
}

type wantCase struct {
	input  []string
	output string
	dice   []dice.Die
	// over: a number of a die is too large for an int; loading must fail
	over bool
	text string
}

// wantFile is what loading the text of a file gives.
func wantFile(text string) (cs []wantCase, ok, sure bool) {
	text = strings.TrimRight(text, "\n")
	ok, sure = true, true
	for _, t := range strings.Split(text, separator) {
		w, k, s := wantRecord(t)
		if !s {
			sure = false
		}
		if !k {
			ok = false
		}
		cs = append(cs, w)
	}
	return
}

// writeFiles lays the files out in the directory.
func writeFiles(dir string, fs []DataFile) {
	for i := range fs {
		f := &fs[i]
		p := filepath.Join(dir, f.Name)
		var err error
		switch f.Missing {
		case "":
			err = os.WriteFile(p, []byte(f.text()), 0666)
		case "dir":
			err = os.Mkdir(p, 0777)
		}
		if err != nil {
			panic(err)
		}
	}
}

func scratch(x *fw.Ctx) string {
	d, err := os.MkdirTemp("", "simfiles")
	if err != nil {
		panic(err)
	}
	x.Cleanup = append(x.Cleanup, func() { os.RemoveAll(d) })
	return d
}

// genRecord draws a record. Its texts need not be commands.
func genRecord(r *fw.Rand) Record {
	lines := []string{"2D6", "S2D6", "3B6", "GETSST", "あいう", "x y z", "C(1+2)", "CCT", "2D6+1 >= 3", "input:", "=", "a===b", "\"quoted\"", "tab\there", "1/6,2/6", " lead", "trail ", "%d %s"}
	outs := []string{"", "DiceBot : (2D6) ＞ 5[4,1] ＞ 5", "サタスペ作成：「大型」\n完成品：（ダメージ＋５）", "one\n\ntwo", "x###secret dice###", "a\nb\nc", "input:\nfoo", "  indented", "===", "output", "1/6", "trailing space "}
	rec := Record{Output: outs[r.N(len(outs))], Style: r.N(4)}
	for n := r.PickInt(1, 1, 1, 2, 3); n > 0; n-- {
		rec.Input = append(rec.Input, lines[r.N(len(lines))])
	}
	for n := r.PickInt(0, 1, 2, 2, 3, 10, 40); n > 0; n-- {
		s := r.PickInt(2, 6, 10, 100, 1000, 1)
		if r.P(0.05) {
			s = r.PickInt(127, 128, 255, 256, 257, 32768, 65536, 1<<31-1, 1<<31, 1<<32+6, 1<<53+1, 1<<63-1)
		}
		rec.Dice = append(rec.Dice, r.Range(1, s), s)
	}
	return rec
}

var badRecords = []string{
	"", "\n", "input:", "input:\n", "input:\n2D6", "input:\n2D6\noutput:", "input:\n2D6\noutput:\nx", "output:\nx\nrand:1/6", "input:\n\noutput:\nrand:",
	"input:\n2D6\noutput:\nx\nrand:1", "input:\n2D6\noutput:\nx\nrand:1/", "input:\n2D6\noutput:\nx\nrand:/6", "input:\n2D6\noutput:\nx\nrand:1/6,", "input:\n2D6\noutput:\nx\nrand:,1/6",
	"input:\n2D6\noutput:\nx\nrand:1/6,,2/6", "input:\n2D6\noutput:\nx\nrand:1/6;2/6", "input:\n2D6\noutput:\nx\nrand:a/6", "input:\n2D6\noutput:\nx\nrand:1/b", "input:\n2D6\noutput:\nx\nrand:-1/6", "input:\n2D6\noutput:\nx\nrand:1/6/6",
	"input:\n2D6\noutput:\nx\nrand:1.5/6", "input:\n2D6\noutput:\nx\nrand:99999999999999999999/6", "input:\n2D6\noutput:\nx\nrand:1/99999999999999999999", "input:\n2D6\noutput:\nx\nrand:9223372036854775808/6", "input:\n2D6\noutput:\nx\nrand:1/6 2/6",
	"Input:\n2D6\noutput:\nx\nrand:1/6", " input:\n2D6\noutput:\nx\nrand:1/6", "input:\n2D6\nOutput:\nx\nrand:1/6", "input:\n2D6\noutput:\nx\nRand:1/6", "input:2D6\noutput:\nx\nrand:1/6", "input:\n2D6\noutput:\nx\nrand:１/６", "\xff\xfe", "input:\n2D6\noutput:\nx\nrand:1/6,2/6\n# comment", "input:\n2D6\nrand:1/6\noutput:\nx", "input:\n2D6\noutput:\nx\nrand:0x1/6", "input:\n2D6\noutput:\nx\nrand:+1/6",
}

func genFiles(r *fw.Rand) []DataFile {
	names := []string{"a.txt", "b.txt", "c.txt", "ダイス.txt", "with space.txt", "%s.txt"}
	var fs []DataFile
	for n := r.PickInt(1, 2, 2, 3, 5); n > 0; n-- {
		f := DataFile{Name: names[len(fs)], Tail: r.PickInt(0, 1, 1, 2)}
		for k := r.PickInt(1, 1, 2, 3, 5, 12); k > 0; k-- {
			f.Records = append(f.Records, genRecord(r))
		}
		fs = append(fs, f)
	}
	return fs
}

// genFileFault draws a disk fault for one of the files.
func genFileFault(r *fw.Rand, fs []DataFile) hc.FileFault {
	f := &fs[r.N(len(fs))]
	n := len(f.text())
	ff := hc.FileFault{Name: f.Name, Errno: r.PickInt(5, 13, 24, 2, 12)}
	switch r.N(6) {
	case 0:
		ff.Kind = "open"
	case 1, 2:
		ff.Kind, ff.At = "short", int64(r.PickInt(1, 2, 7, 100))
	default:
		ff.Kind, ff.At = "read", int64(r.N(n+1))
		if r.P(0.2) {
			ff.At = int64(n) // everything was read, and then the error
		} else if r.P(0.3) {
			// right after a record
			if i := strings.Index(f.text()[ff.At:], separator); i >= 0 {
				ff.At += int64(i + r.N(len(separator)+1))
			}
		}
	}
	return ff
}
