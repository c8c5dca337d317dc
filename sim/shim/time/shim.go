// Package time replaces the standard package in the instrumented sources: the wall clock is
// the simulator's.
package time

import "verifsim/simrt"

func Now() Time             { return simrt.Now() }
func Since(t Time) Duration { return simrt.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(simrt.Now()) }
