package fw

// Rand is the one source of choices of a run (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func Mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ (b + 0x632be59bd9b4e019)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// Pick returns one of the strings.
func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }

// PickInt returns one of the numbers.
func (r *Rand) PickInt(s ...int) int { return s[r.N(len(s))] }

// Weighted returns an index with probability proportional to the weights.
func (r *Rand) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func HashString(h uint64, s string) uint64 {
	if h == 0 {
		h = 0xcbf29ce484222325
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// Pick2 returns one of the numbers.
func (r *Rand) Pick2(s ...int64) int64 { return s[r.N(len(s))] }
