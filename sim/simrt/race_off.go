//go:build !race

package simrt

const RaceEnabled = false

func RaceErrors() int { return 0 }
