// Package colorable replaces go-colorable in the REPL's main: its outputs are the simulated
// terminal while there is one.
package colorable

import (
	"io"

	real "github.com/mattn/go-colorable"

	simos "verifsim/shim/os"
)

func NewColorableStdout() io.Writer { return simos.Stdout }
func NewColorableStderr() io.Writer { return simos.Stderr }

func NewColorable(f *simos.File) io.Writer { return f }

func NewNonColorable(w io.Writer) io.Writer { return real.NewNonColorable(w) }

type NonColorable = real.NonColorable
