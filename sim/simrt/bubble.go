package simrt

var bubble, bubbles uint64

// Bubble is the number of the bubble of simulated time that is running, or 0.
//
//go:norace
func Bubble() uint64 { return bubble }

// EnterBubble says that a bubble begins; the function it returns says that it has ended.
//
//go:norace
func EnterBubble() func() {
	bubbles++
	bubble = bubbles
	return func() { leave() }
}

//go:norace
func leave() { bubble = 0 }
