package hcore

import (
	"github.com/raa0121/GoBCDice/pkg/core/dice"

	"verifsim/hc"
)

// replaySource delivers the dice of a log again.
type replaySource struct {
	log []hc.Draw
	i   int
}

func (r *replaySource) CanSpecifyDie() bool { return true }
func (r *replaySource) Next(sides int) (dice.Die, error) {
	if r.i >= len(r.log) {
		return dice.Die{}, hc.ErrSource
	}
	d := r.log[r.i]
	r.i++
	if d.Err {
		return d.Die, hc.ErrSource
	}
	if d.Die.Sides != sides {
		// what the command asks for now is not what it asked for then; it is given the value
		return dice.Die{Value: 1 + (d.Die.Value-1)%max(sides, 1), Sides: sides}, nil
	}
	return d.Die, nil
}
