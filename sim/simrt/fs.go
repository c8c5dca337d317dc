package simrt

// FS receives the file operations of the instrumented sources. Every method may inject a
// fault. A nil FS means the plain operating system.
type FS interface {
	// Op is called before an operation on a path (open, mkdir, stat, ...).
	Op(op, path string, write bool) error
	// Read is called before a read of at most n bytes at the handle's running offset off; it
	// returns how many bytes may be read (0 < k <= n) or an error.
	Read(path string, off int64, n int) (int, error)
	// Write is called before n bytes are written; it returns how many bytes are written before
	// the error (nil: all of them).
	Write(path string, off int64, n int) (int, error)
}

var theFS FS

//go:norace
func SetFS(f FS) { theFS = f }

//go:norace
func GetFS() FS { return theFS }

// SetEnvironment changes the environment an API process was started with, if it keeps it in a
// variable.
var SetEnvironment func(string)
