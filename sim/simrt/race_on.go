//go:build race

package simrt

import "runtime"

const RaceEnabled = true

func RaceErrors() int { return runtime.RaceErrors() }
