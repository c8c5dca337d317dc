package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// The order in which the instrumented sources walk through a map is the simulator's choice:
// a permutation of the sorted keys decided by the seed and the number of walks so far.
var mapSeed, mapWalks uint64

// SetMapSeed begins a new sequence of orders.
//
//go:norace
func SetMapSeed(seed uint64) { mapSeed, mapWalks = seed, 0 }

//go:norace
func nextWalk() uint64 {
	mapWalks++
	return mapSeed ^ mapWalks*0x9e3779b97f4a7c15
}

// Entry is a key of a map that is being walked through.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the key is still in the map.
func (e *Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the value of the key.
func (e *Entry[K, V]) V() V { return e.m[e.K] }

// Entries returns the keys of a map in the order of this walk.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	if len(m) == 0 {
		return nil
	}
	l := make([]Entry[K, V], 0, len(m))
	for k := range m {
		l = append(l, Entry[K, V]{k, m})
	}
	r := nextWalk()
	if len(l) == 1 {
		return l
	}
	if reflect.TypeFor[K]().Kind() == reflect.String {
		sort.Slice(l, func(i, j int) bool { return reflect.ValueOf(l[i].K).String() < reflect.ValueOf(l[j].K).String() })
	} else {
		sort.SliceStable(l, func(i, j int) bool { return fmt.Sprint(l[i].K) < fmt.Sprint(l[j].K) })
	}
	for i := len(l) - 1; i > 0; i-- {
		r += 0x9e3779b97f4a7c15
		z := (r ^ (r >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		j := int((z ^ (z >> 31)) % uint64(i+1))
		l[i], l[j] = l[j], l[i]
	}
	return l
}
