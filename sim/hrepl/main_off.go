//go:build noreplmain

package hrepl

import "github.com/raa0121/GoBCDice/cmd/GoBCDiceREPL/repl"

// run is the REPL from its start to its end, without the program's main, which could not be
// built for the simulation.
func (s *Session) run() { repl.New(s.kb, s.out).Start() }

func (s *Session) leave() {}
