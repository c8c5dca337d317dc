//go:build !noreplmain

package hrepl

import (
	"runtime"

	replmain "github.com/raa0121/GoBCDice/cmd/GoBCDiceREPL"

	simos "verifsim/shim/os"
)

func init() { simos.Args = []string{"GoBCDiceREPL"} }

// run is the REPL from its start to its end: the program's main on the simulated terminal.
func (s *Session) run() {
	simos.In, simos.Out, simos.Err = s.kb, s.out, nowhere{}
	simos.OnExit = func(int) {
		s.done = true
		runtime.Goexit()
	}
	replmain.SimMain()
}

func (s *Session) leave() {
	simos.In, simos.Out, simos.Err, simos.OnExit = nil, nil, nil, nil
}
