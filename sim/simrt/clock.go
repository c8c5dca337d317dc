package simrt

import "time"

// nowHook replaces the wall clock of the instrumented sources while it is set.
var nowHook func() time.Time

//go:norace
func SetNow(f func() time.Time) { nowHook = f }

// The wall clock of a run begins at wallAt and moves by wallStep with every look at it; in a
// bubble of simulated time it goes on with the time of the bubble.
var wallAt, wallStep, wallReads int64

var bubbleStart = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

//go:norace
func SetWall(at, step int64) { wallAt, wallStep, wallReads = at, step, 0 }

// WallReads is how often the wall clock of the run was looked at.
//
//go:norace
func WallReads() int64 { return wallReads }

//go:norace
func Now() time.Time {
	if nowHook != nil {
		return nowHook()
	}
	wallReads++
	if bubble != 0 {
		return time.Unix(0, wallAt).Add(time.Since(bubbleStart))
	}
	return time.Unix(0, wallAt+(wallReads-1)*wallStep)
}
