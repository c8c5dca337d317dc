// Package runtime replaces the standard package in the instrumented sources: the number of
// processors is the run's. Goroutines still run one at a time.
package runtime

import "verifsim/simrt"

func NumCPU() int { return simrt.CPUs() }

// GOMAXPROCS changes nothing but what it returns.
func GOMAXPROCS(n int) int { return simrt.SetProcs(n) }
