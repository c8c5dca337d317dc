package hrepl

import (
	"strings"
	"time"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/simrt"
)

// Typed is a dialogue of deliveries of keys, up to the end of the input or not.
type Typed struct {
	Steps []Step `json:"steps"`
	EOF   bool   `json:"eof,omitempty"`
	// simulated faults of the disk and the output
	History string   `json:"history,omitempty"`
	Faults  []WFault `json:"faults,omitempty"`
	// Disk are faults of whatever files the program uses besides the history
	Disk []hc.FileFault `json:"disk,omitempty"`
}

func validTyped(c *Typed) bool {
	if len(c.Steps) == 0 || len(c.Steps) > 1300 || len(c.Faults) > 20 {
		return false
	}
	all := ""
	for _, s := range c.Steps {
		if s.Delay < 0 || s.Delay > 1e9 || s.Keys == "" {
			return false
		}
		all += string(s.Keys)
	}
	for _, f := range c.Faults {
		if f.From < 0 || f.N < 0 || f.Keep < 0 || f.Kind != "err" && f.Kind != "short" {
			return false
		}
	}
	for _, f := range c.Disk {
		if f.At < 0 || f.N < 0 || f.Kind != "open" && f.Kind != "mkdir" && f.Kind != "write" && f.Kind != "nth" {
			return false
		}
	}
	ok := false
	for _, h := range historyKinds {
		ok = ok || h == c.History
	}
	if !ok {
		return false
	}
	for _, l := range strings.Split(all, "\n") {
		if !validKeys(l, false) {
			return false
		}
	}
	return true
}

func init() {
	fw.Register(fw.Check{
		ID:   "C11",
		Rule: "a dialogue of 3-40 lines with an end somewhere in it (.q or .quit with spaces around it, ^D on an empty line, end of input with or without a partial last line) or none, delivered a line or many lines at a time, with failing commands, exhausted dice queues, ^C, ^D and ^Z inside lines and near-misses of the quit commands; after each delivery the REPL must either have ended exactly there, with nothing printed for what follows, or wait for input; non-trivial: the REPL ended with at least two lines executed before",
		Real: components, Stub: stubs,
		Assume: []string{"line editing keys, tabs, NUL and .quit with arguments are not typed", "progress is bounded by a step budget per delivery, and by every goroutine being blocked"},
		Chunk:  60, Quick: 200, Thorough: 20000,
		Before: before,
	}, genC11, validTyped, execTyped)
	fw.Register(fw.Check{
		ID:   "C12",
		Rule: "a dialogue of 5-40 lines delivered byte by byte, in random chunks, split inside characters and across lines or all at once, with delays between deliveries, on a history file that is a directory, dangling, long, garbage, full of commands, on a full disk or torn, and on an output that fails or writes short at random writes, at once or for long; what is printed for each delivery must be the responses of the reference, exactly where no output fault fired and as a subsequence where one did; non-trivial: input was split inside a line and a fault fired, or a character was split",
		Real: components, Stub: stubs,
		Assume: []string{"line editing keys, tabs and NUL are not typed"},
		Chunk:  60, Quick: 180, Thorough: 20000,
		Before: before,
	}, genC12, validTyped, execTyped)
}

// finale draws what is typed at the end.
func finale(r *fw.Rand, w *writer) (keys string, eof bool) {
	switch r.N(9) {
	case 0, 1:
		keys = w.spaces() + ".q" + w.spaces() + "\n"
	case 2, 3:
		keys = w.spaces() + ".quit" + w.spaces() + "\n"
	case 4:
		keys = "\x04"
	case 5:
		eof = true
	case 6:
		l := w.lines()
		keys, eof = l[len(l)-1], true
	case 7:
		keys, eof = r.Pick(".q", ".quit", "2D6\xe3\x81", "C(1)", " ", ".roll 1 6", "x\x04"), true
	}
	return
}

func genC11(r *fw.Rand, tier string) *Typed {
	c := &Typed{}
	w := newWriter(r)
	w.bad = 0.4
	var keys []string
	n := r.Range(3, 40)
	if r.P(0.012) {
		n = r.PickInt(130, 300, 520, 700, 1100)
	}
	for len(keys) < n {
		for _, l := range w.lines() {
			if r.P(0.06) {
				l = r.Pick("2D6", ".q", ".quit", "あ", "") + "\x03" + l
			}
			if r.P(0.04) && l != "" {
				l += "\x04"
			}
			if r.P(0.03) {
				l = l + "\x1a"
			}
			if r.P(0.03) {
				l = r.Pick(" .q x", ".qq", "q", ".q.q", "2D6 .q", ".eval .q", ".eval .quit", ".Quit", ".q\x1aq")
			}
			if validKeys(l, false) {
				keys = append(keys, l+"\n")
			}
		}
	}
	fin, eof := finale(r, w)
	if !validKeys(fin, true) {
		fin = ""
	}
	at := len(keys)
	if r.P(0.4) {
		at = r.N(at + 1)
	}
	if !eof {
		keys = append(append(append([]string{}, keys[:at]...), fin), keys[at:]...)
		c.EOF = r.P(0.3)
	} else {
		keys = append(keys, fin)
		c.EOF = true
	}
	for len(keys) > 0 {
		n := r.PickInt(1, 1, 1, 2, 5, len(keys))
		if n > len(keys) {
			n = len(keys)
		}
		k := strings.Join(keys[:n], "")
		keys = keys[n:]
		if k != "" {
			c.Steps = append(c.Steps, Step{fw.Text(k), r.PickInt(0, 0, 0, 0, 10, 5000, 7200e3, 100e6)})
		}
	}
	if r.P(0.1) {
		c.History = r.Pick(historyKinds...)
	}
	return c
}

func genC12(r *fw.Rand, tier string) *Typed {
	c := &Typed{EOF: r.P(0.3)}
	w := newWriter(r)
	text := ""
	long := r.P(0.012)
	n := r.Range(5, 40)
	if long {
		n = r.PickInt(130, 300, 520, 700, 1100)
	}
	for n > 0 {
		for _, l := range w.lines() {
			if r.P(0.1) {
				l = r.Pick("CHOICE[あ,い,う]", "CHOICE[𠮷野家,ほげ]", ".ast CHOICE[ｱ,é]", "あ２Ｄ６", "S2D6 コメント")
			}
			if validKeys(l, false) {
				text += l + "\n"
				n--
			}
		}
	}
	if r.P(0.2) {
		text += r.Pick(".q\n2D6\n", ".quit\n", "2D6", "CHOICE[あ,い", "\x04")
	}
	mode := r.N(5)
	for b := []byte(text); len(b) > 0; {
		n := 1
		switch mode {
		case 1:
			n = r.Range(1, 4)
		case 2:
			n = r.Range(1, 60)
		case 3:
			n = r.PickInt(1, 2, 3, 500, 4096)
		case 4:
			n = len(b)
			if i := strings.IndexByte(string(b), '\n'); i >= 0 {
				n = i + 1
			}
		}
		if len(c.Steps) >= 350 && !long || len(c.Steps) > 1200 {
			n = len(b)
		}
		if n > len(b) {
			n = len(b)
		}
		d := 0
		if r.P(0.1) {
			d = r.PickInt(1, 20, 5000)
		}
		c.Steps = append(c.Steps, Step{fw.Text(b[:n]), d})
		b = b[n:]
	}
	if r.P(0.5) {
		c.History = r.Pick(historyKinds...)
	}
	if r.P(0.6) {
		for n := r.Range(1, 4); n > 0; n-- {
			c.Faults = append(c.Faults, WFault{From: r.N(r.PickInt(60, 60, 300)), N: r.PickInt(1, 1, 2, 3, 10, 1000), Kind: r.Pick("err", "short"), Keep: r.N(20)})
		}
	}
	if r.P(0.1) {
		c.Disk = append(c.Disk, hc.FileFault{Kind: r.Pick("open", "mkdir", "write", "write", "nth"), Errno: r.PickInt(5, 13, 28, 30), At: int64(r.N(r.PickInt(1, 5, 300)))})
	}
	return c
}

// execTyped delivers the keys and compares what is printed for each delivery.
func execTyped(x *fw.Ctx, c *Typed) *fw.Violation {
	ran, ended, splitLine, splitChar, fired := 0, false, false, false, false
	if len(c.Disk) > 0 {
		simrt.SetFS(hc.NewDisk(x, c.Disk))
		defer simrt.SetFS(nil)
	}
	v := simulate(x, c.History, c.Faults, func(s *Session) *fw.Violation {
		ref := s.ref
		a := &asm{}
		n := len(c.Steps)
		if c.EOF {
			n++
		}
		for i := 0; i < n; i++ {
			what := "the end of the input"
			var typed []string
			eof := i == len(c.Steps)
			var keys []byte
			if eof {
				typed = a.end()
			} else {
				keys = []byte(c.Steps[i].Keys)
				what = short(string(keys))
				if d := c.Steps[i].Delay; d > 0 {
					time.Sleep(time.Duration(d) * time.Millisecond)
				}
				typed = a.feed(keys)
			}
			if s.done {
				return fw.V("ended", "the REPL ended before delivery %d (%q)", i, what)
			}
			f0 := s.out.fired
			got := s.send(keys, eof)
			var want []reply
			text := ""
			ended = false
			for _, l := range typed {
				want = append(want, ref.Line(l))
				ran++
				if ref.Ended {
					break
				}
			}
			ended = ref.Ended || a.over
			splitLine = splitLine || len(a.buf) > 0
			splitChar = splitChar || len(a.pend) > 0
			faulty := s.out.fired > f0
			fired = fired || faulty
			x.Ev("%d: %q -> %q faults %v end %v", i, what, short(got), faulty, s.done)
			help := false
			for _, w := range want {
				if w.help {
					if ref.help == "" {
						help = true
					}
					text += ref.help
				} else {
					text += w.text
				}
			}
			switch {
			case help && (faulty || len(want) > 1):
				// the help text is not known yet
			case help:
				if !ref.matches(got, want[0]) {
					return fw.V("wrong-response", "delivery %d (%q): the REPL printed %q instead of the help text", i, what, short(got))
				}
			case faulty && !subsequence(got, text):
				return fw.V("wrong-output-under-fault", "delivery %d (%q), output failing: the REPL printed %q, which is not part of %q", i, what, short(got), short(text))
			case !faulty && got != text:
				return fw.V("wrong-response", "delivery %d (%q): the REPL printed %q, it should print %q", i, what, short(got), short(text))
			}
			if ended {
				x.Count("ended", 1)
				if !s.done {
					return fw.V("not-ended", "delivery %d (%q): the REPL should have ended", i, what)
				}
				// nobody listens any more
				if got := s.send([]byte("C(1)\n"), false); got != "" {
					return fw.V("executed-after-end", "after its end the REPL printed %q", short(got))
				}
				return nil
			}
			if s.done {
				return fw.V("ended", "delivery %d (%q) ended the REPL", i, what)
			}
			if !s.kb.waiting {
				return fw.V("not-ready", "after delivery %d (%q) the REPL does not wait for input", i, what)
			}
		}
		return nil
	})
	x.Count("deliveries", len(c.Steps))
	x.Count("lines executed", ran)
	if x.ID == "C11" && ended && ran >= 2 || x.ID == "C12" && (splitLine && fired || splitChar) {
		x.NonTrivial()
	}
	if splitChar {
		x.Fault("input split inside a character")
	}
	if splitLine {
		x.Fault("input split inside a line")
	}
	return v
}

func subsequence(got, of string) bool {
	i := 0
	for j := 0; j < len(of) && i < len(got); j++ {
		if got[i] == of[j] {
			i++
		}
	}
	return i == len(got)
}
