// Package os replaces the standard package in the instrumented sources: file operations go
// through the simulator's fault injector (simrt.FS) before they reach the real scratch files.
package os

import (
	"io"
	real "os"
	"strings"
	"sync/atomic"
	"syscall"
	"unsafe"

	"verifsim/simrt"
)

// File is a file of the simulated disk.
type File struct {
	f    *real.File
	name string
	rpos atomic.Int64
	wpos atomic.Int64
}

var (
	Stdin  = &File{f: real.Stdin, name: "/dev/stdin"}
	Stdout = &File{f: real.Stdout, name: "/dev/stdout"}
	Stderr = &File{f: real.Stderr, name: "/dev/stderr"}
)

// In, Out and Err, if set, are the standard streams: a simulated terminal. OnExit, if set, is
// called instead of ending the process.
var (
	In       io.Reader
	Out, Err io.Writer
	OnExit   func(code int)
)

func Exit(code int) {
	if OnExit != nil {
		OnExit(code)
	}
	real.Exit(code)
}

func (f *File) terminal() io.Writer {
	switch f {
	case Stdout:
		return Out
	case Stderr:
		return Err
	}
	return nil
}

func wrap(f *real.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f: f, name: f.Name()}, nil
}

func op(o, path string, write bool) error {
	if fs := simrt.GetFS(); fs != nil {
		if err := fs.Op(o, path, write); err != nil {
			return &PathError{Op: o, Path: path, Err: err}
		}
	}
	return nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if err := op("open", name, flag&(O_WRONLY|O_RDWR) != 0); err != nil {
		return nil, err
	}
	return wrap(real.OpenFile(name, flag, perm))
}

func CreateTemp(dir, pattern string) (*File, error) {
	if err := op("open", dir, true); err != nil {
		return nil, err
	}
	return wrap(real.CreateTemp(dir, pattern))
}

func NewFile(fd uintptr, name string) *File { return &File{f: real.NewFile(fd, name), name: name} }

func Pipe() (*File, *File, error) {
	r, w, err := real.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{f: r, name: "|0"}, &File{f: w, name: "|1"}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	return b, err
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	if err := op("mkdir", name, true); err != nil {
		return err
	}
	return real.Mkdir(name, perm)
}

func MkdirAll(name string, perm FileMode) error {
	if err := op("mkdir", name, true); err != nil {
		return err
	}
	return real.MkdirAll(name, perm)
}

func Remove(name string) error {
	if err := op("remove", name, true); err != nil {
		return err
	}
	return real.Remove(name)
}

func Rename(a, b string) error {
	if err := op("rename", a, true); err != nil {
		return err
	}
	return real.Rename(a, b)
}

func Truncate(name string, n int64) error {
	if err := op("truncate", name, true); err != nil {
		return err
	}
	return real.Truncate(name, n)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return f.f.Fd() }

func (f *File) Read(b []byte) (int, error) {
	if f == Stdin && In != nil {
		return In.Read(b)
	}
	if fs := simrt.GetFS(); fs != nil && len(b) > 0 {
		k, err := fs.Read(f.name, f.rpos.Load(), len(b))
		if err != nil {
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
		b = b[:k]
	}
	n, err := f.f.Read(b)
	f.rpos.Add(int64(n))
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if fs := simrt.GetFS(); fs != nil && len(b) > 0 {
		if _, err := fs.Read(f.name, off, len(b)); err != nil {
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
	}
	return f.f.ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if w := f.terminal(); w != nil {
		return w.Write(b)
	}
	var ferr error
	if fs := simrt.GetFS(); fs != nil {
		k, err := fs.Write(f.name, f.wpos.Load(), len(b))
		if err != nil {
			ferr = &PathError{Op: "write", Path: f.name, Err: err}
			b = b[:k]
			if k == 0 {
				return 0, ferr
			}
		}
	}
	n, err := f.write(b)
	f.wpos.Add(int64(n))
	if err == nil {
		err = ferr
	}
	return n, err
}

// write writes to the file. In a bubble of simulated time it does so without the Go scheduler
// hearing of it: how long the real disk takes must not decide which goroutine runs next.
func (f *File) write(b []byte) (int, error) {
	if simrt.Bubble() == 0 || len(b) == 0 {
		return f.f.Write(b)
	}
	c, err := f.f.SyscallConn()
	if err != nil {
		return 0, err
	}
	n := 0
	var errno syscall.Errno
	err = c.Control(func(fd uintptr) {
		for n < len(b) {
			k, _, e := syscall.RawSyscall(syscall.SYS_WRITE, fd, uintptr(unsafe.Pointer(&b[n])), uintptr(len(b)-n))
			if e == syscall.EINTR {
				continue
			}
			if errno = e; e != 0 {
				return
			}
			n += int(k)
		}
	})
	if err != nil {
		return n, err
	}
	if errno != 0 {
		return n, &PathError{Op: "write", Path: f.name, Err: errno}
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if fs := simrt.GetFS(); fs != nil {
		if k, err := fs.Write(f.name, off, len(b)); err != nil {
			n, _ := f.f.WriteAt(b[:k], off)
			return n, &PathError{Op: "write", Path: f.name, Err: err}
		}
	}
	return f.f.WriteAt(b, off)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	n, err := f.f.Seek(off, whence)
	if err == nil {
		f.rpos.Store(n)
		f.wpos.Store(n)
	}
	return n, err
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	return f.f.Close()
}

func (f *File) Sync() error {
	if err := op("sync", f.name, true); err != nil {
		return err
	}
	return f.f.Sync()
}

func (f *File) Stat() (FileInfo, error)              { return f.f.Stat() }
func (f *File) Truncate(n int64) error               { return f.f.Truncate(n) }
func (f *File) Chmod(m FileMode) error               { return f.f.Chmod(m) }
func (f *File) ReadDir(n int) ([]DirEntry, error)    { return f.f.ReadDir(n) }
func (f *File) Readdir(n int) ([]FileInfo, error)    { return f.f.Readdir(n) }
func (f *File) Readdirnames(n int) ([]string, error) { return f.f.Readdirnames(n) }

// Getenv, LookupEnv, Environ and ExpandEnv: variables that describe the user's terminal and
// language are those of the simulated run.
func LookupEnv(name string) (string, bool) {
	if v, ok, own := simrt.Env(name); own {
		return v, ok
	}
	return real.LookupEnv(name)
}

func Getenv(name string) string {
	v, _ := LookupEnv(name)
	return v
}

func ExpandEnv(s string) string { return Expand(s, Getenv) }

func Environ() []string {
	var out []string
	for _, s := range real.Environ() {
		if i := strings.IndexByte(s, '='); i < 0 {
			out = append(out, s)
		} else if _, _, own := simrt.Env(s[:i]); !own {
			out = append(out, s)
		}
	}
	return append(out, simrt.Environ()...)
}
