package hrepl

import (
	"strings"

	"verifsim/fw"
	"verifsim/hc"
	"verifsim/hcore"
)

// Secret is a history of the library and a dialogue with the REPL about the secret mark.
type Secret struct {
	Hist  *hcore.Hist `json:"hist,omitempty"`
	Lines *Lines      `json:"lines,omitempty"`
}

func init() {
	fw.Register(fw.Check{
		ID:    "C13",
		Rule:  "a history of 6-40 commands on 1-3 library sessions over several game systems, or a REPL dialogue of 5-40 lines: commands of every kind with S, s or no mark, those a game system answers itself (also with a result it marked), the basic commands and the fallback to the first word, commands that fail and die sources that fail in between; each result must be marked exactly when its text begins with S or s, the same command with the other mark (same dice, new session) must answer the same, and earlier results must not change; non-trivial: at least 3 marked and 3 unmarked results",
		Real:  append([]string{"bcdice sessions, parser, evaluator, notation, command, roller, basic game system"}, components...),
		Stub:  append([]string{"die source (scripted, with faults)"}, stubs...),
		Chunk: 60, Quick: 200, Thorough: 20000,
		Before: before,
	}, genC13, func(c *Secret) bool {
		if (c.Hist == nil) == (c.Lines == nil) {
			return false
		}
		if c.Lines != nil {
			return validLines(c.Lines)
		}
		for _, o := range c.Hist.Ops {
			if o.Do != "" && o.Do != "game" {
				return false
			}
		}
		return hcore.ValidOps(c.Hist.Ops, c.Hist.N)
	}, execC13)
}

func genC13(r *fw.Rand, tier string) *Secret {
	if r.P(0.65) {
		return &Secret{Hist: hcore.GenSecret(r)}
	}
	l := &Lines{Tick: r.PickInt(0, 0, 1000, 3601e3, 90e6)}
	w := newWriter(r)
	w.set, w.bad = 0.15, 0.1
	w.cfg.Secret = 0
	n := r.Range(5, 40)
	if r.P(0.01) {
		n = r.PickInt(130, 300, 600)
	}
	for len(l.Lines) < n {
		for _, t := range w.lines() {
			// the mark goes to the text of the command
			i := 0
			for i < len(t) && t[i] == ' ' {
				i++
			}
			switch {
			case strings.HasPrefix(t[i:], ".eval "), strings.HasPrefix(t[i:], ".ast "):
				i += strings.IndexByte(t[i:], ' ') + 1
			case strings.HasPrefix(t[i:], "."):
				i = -1
			}
			if i >= 0 && r.P(0.5) {
				t = t[:i] + r.Pick("S", "s") + strings.TrimLeft(t[i:], " ")
			}
			if validKeys(t, false) {
				l.Lines = append(l.Lines, fw.Text(t))
			}
		}
	}
	return &Secret{Lines: l}
}

func execC13(x *fw.Ctx, c *Secret) *fw.Violation {
	marked, plain := 0, 0
	var v *fw.Violation
	if c.Hist != nil {
		marked, plain, v = hcore.ExecSecret(x, c.Hist)
	} else {
		v = simulate(x, "", nil, func(s *Session) *fw.Violation {
			return talk(x, s, s.ref, c.Lines.Lines, c.Lines.Tick, func(i int, line, got string) *fw.Violation {
				line = strings.TrimSpace(line)
				if strings.HasPrefix(line, ".") || !strings.HasPrefix(got, header) {
					return nil
				}
				_, secret := cutSecret(line)
				if strings.HasPrefix(got, header+secretMsg) != secret {
					return fw.V("wrong-secret-mark", "line %d %q: the REPL printed %q", i, short(line), short(got))
				}
				if secret {
					marked++
				} else {
					plain++
				}
				return nil
			})
		})
	}
	x.Count("marked results", marked)
	x.Count("unmarked results", plain)
	if marked >= 3 && plain >= 3 {
		x.NonTrivial()
	}
	return v
}

var _ = hc.Budget
