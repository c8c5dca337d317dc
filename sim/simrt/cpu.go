package simrt

var cpus, procs = 1, 1

// SetCPUs sets the number of processors of the run.
//
//go:norace
func SetCPUs(n int) {
	if n < 1 {
		n = 1
	}
	cpus, procs = n, n
}

//go:norace
func CPUs() int { return cpus }

// SetProcs is runtime.GOMAXPROCS.
//
//go:norace
func SetProcs(n int) int {
	old := procs
	if n > 0 {
		procs = n
	}
	return old
}
