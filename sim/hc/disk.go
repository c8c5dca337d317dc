package hc

import (
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"

	"verifsim/fw"
)

// FileFault is a fault of the simulated disk. It concerns files whose base name is Name (all
// of them if empty).
//
//	open         opening fails with Errno
//	read         the first read at or after offset At fails
//	short        every read delivers at most At bytes (no error)
//	write        the write that reaches offset At stops there with Errno
//	nth          the At-th write to the file fails with Errno after half of it
//	crash        the process dies before (Errno 0) or after the At-th write to the file
type FileFault struct {
	Name  string `json:"name,omitempty"`
	Kind  string `json:"kind"`
	At    int64  `json:"at,omitempty"`
	Errno int    `json:"errno,omitempty"`
	// N, if positive, is how often the fault fires
	N int `json:"n,omitempty"`
}

// Disk injects the faults into file operations.
type Disk struct {
	mu     sync.Mutex
	X      *fw.Ctx
	Faults []FileFault
	Fired  atomic.Int64
	N      map[string]int
	Hit    map[string]bool // base names of the files an error was reported for
	Dead   bool            // the process has died
	OnDead func()          // is called when it dies
	writes int
	fired  map[int]int
}

func NewDisk(x *fw.Ctx, faults []FileFault) *Disk {
	return &Disk{X: x, Faults: faults, N: map[string]int{}, Hit: map[string]bool{}, fired: map[int]int{}}
}

func (d *Disk) fire(k, path string) {
	if k != "short" {
		d.Hit[filepath.Base(path)] = true
	}
	d.Fired.Add(1)
	d.N[k]++
	if d.X != nil {
		d.X.Fault("disk:" + k)
	}
}

func (f *FileFault) err() error {
	if f.Errno == 0 {
		return syscall.EIO
	}
	return syscall.Errno(f.Errno)
}

func (d *Disk) match(path string, f *FileFault) bool {
	return f.Name == "" || f.Name == filepath.Base(path)
}

func (d *Disk) Op(op, path string, write bool) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range d.Faults {
		f := &d.Faults[i]
		if d.match(path, f) && (f.Kind == op || f.Kind == "mkdir" && op == "mkdir") {
			d.fire(f.Kind, path)
			return f.err()
		}
	}
	return nil
}

func (d *Disk) Read(path string, off int64, n int) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range d.Faults {
		f := &d.Faults[i]
		if !d.match(path, f) {
			continue
		}
		switch f.Kind {
		case "read":
			if off+int64(n) > f.At {
				if off >= f.At {
					d.fire("read", path)
					return 0, f.err()
				}
				n = int(f.At - off)
			}
		case "short":
			if f.At > 0 && int64(n) > f.At {
				n = int(f.At)
				d.fire("short", path)
			}
		}
	}
	return n, nil
}

func (d *Disk) Write(path string, off int64, n int) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.writes++
	if d.Dead {
		return 0, syscall.EIO
	}
	for i := range d.Faults {
		f := &d.Faults[i]
		if !d.match(path, f) || f.N > 0 && d.fired[i] >= f.N {
			continue
		}
		switch {
		case f.Kind == "crash" && int64(d.writes-1) == f.At:
			d.die("crash", path)
			if f.Errno != 0 {
				return n, nil
			}
			return 0, syscall.EIO
		case f.Kind == "nth" && int64(d.writes-1) == f.At:
			d.fire("nth", path)
			return n / 2, f.err()
		}
		if f.Kind != "write" || off+int64(n) <= f.At {
			continue
		}
		d.fired[i]++
		d.fire("write", path)
		k := int(f.At - off)
		if k < 0 {
			k = 0
		}
		return k, f.err()
	}
	return n, nil
}

// Started ends the faults of opening and making directories; it reports whether one has fired.
func (d *Disk) Started() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	var l []FileFault
	for _, f := range d.Faults {
		if f.Kind != "open" && f.Kind != "mkdir" {
			l = append(l, f)
		}
	}
	d.Faults = l
	return d.N["open"]+d.N["mkdir"] > 0
}

func (d *Disk) die(k, path string) {
	d.Dead = true
	d.fire(k, path)
	if d.OnDead != nil {
		d.OnDead()
	}
}

// Kill ends the process: nothing it writes from now on reaches the disk.
func (d *Disk) Kill() {
	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.Dead {
		d.die("crash", "")
	}
}
