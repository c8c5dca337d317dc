// Package hapi holds the checks of the HTTP API: the real program on a simulated network,
// clock and disk.
package hapi

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// network is the simulated network: one listener, and the connections made to it.
type network struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*end
	fail   []error // of the next calls of Accept
	closed bool
	broken error
	accept int // calls of Accept that wait
	// dead: the process has died; wrote is called after every write of the server
	dead  atomic.Bool
	wrote func()
}

func newNetwork() *network {
	n := &network{}
	n.cond = sync.NewCond(&n.mu)
	return n
}

type tempErr struct{}

func (tempErr) Error() string   { return "simulated accept failure: too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// Accept is called by the server.
func (n *network) Accept() (net.Conn, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.accept++
	for {
		if len(n.fail) > 0 {
			err := n.fail[0]
			n.fail = n.fail[1:]
			return nil, err
		}
		if n.closed {
			return nil, net.ErrClosed
		}
		if n.broken != nil {
			return nil, n.broken
		}
		if len(n.queue) > 0 {
			c := n.queue[0]
			n.queue = n.queue[1:]
			return c, nil
		}
		n.cond.Wait()
	}
}

func (n *network) Close() error {
	n.mu.Lock()
	n.closed = true
	n.mu.Unlock()
	n.cond.Broadcast()
	return nil
}

func (n *network) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4000} }

// dial makes a connection; the client keeps the end it gets.
func (n *network) dial(from *net.TCPAddr) *end {
	c := &end{net: n, from: from, room: 1 << 20}
	c.cond = sync.NewCond(&c.mu)
	n.mu.Lock()
	n.queue = append(n.queue, c)
	n.mu.Unlock()
	n.cond.Broadcast()
	return c
}

func (n *network) failNext(k int) {
	n.mu.Lock()
	for ; k > 0; k-- {
		n.fail = append(n.fail, tempErr{})
	}
	n.mu.Unlock()
	n.cond.Broadcast()
}

// failWith makes every call of Accept fail from now on.
func (n *network) failWith(err error) {
	n.mu.Lock()
	n.broken = err
	n.mu.Unlock()
	n.cond.Broadcast()
}

// end is the server's end of a connection. The client's side is its unexported methods.
type end struct {
	net   *network
	mu    sync.Mutex
	cond  *sync.Cond
	from  *net.TCPAddr
	in    []byte // to the server
	eof   bool   // the client sends no more
	reset bool
	out   []byte // to the client
	taken int    // bytes of out the client has read
	stall bool   // the client does not read
	room  int    // bytes that fit while it does not
	shut  bool   // closed by the server
	rd    time.Time
	wd    time.Time
	most  int // bytes one Read delivers at most
}

func (c *end) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.shut || c.net.dead.Load():
			return 0, net.ErrClosed
		case c.reset:
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		case !c.rd.IsZero() && !time.Now().Before(c.rd):
			return 0, os.ErrDeadlineExceeded
		case len(c.in) > 0:
			n := len(p)
			if c.most > 0 && n > c.most {
				n = c.most
			}
			n = copy(p[:n], c.in)
			c.in = c.in[n:]
			return n, nil
		case c.eof:
			return 0, io.EOF
		case len(p) == 0:
			return 0, nil
		}
		c.cond.Wait()
	}
}

var errPipe = errors.New("simulated broken pipe")

func (c *end) Write(p []byte) (int, error) {
	n, err := c.write(p)
	if f := c.net.wrote; f != nil && n > 0 {
		f()
	}
	return n, err
}

func (c *end) write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for {
		switch {
		case c.shut || c.net.dead.Load():
			return n, net.ErrClosed
		case c.reset:
			return n, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
		case !c.wd.IsZero() && !time.Now().Before(c.wd):
			return n, os.ErrDeadlineExceeded
		}
		k := len(p) - n
		if c.stall {
			if r := c.room - (len(c.out) - c.taken); r < k {
				k = r
			}
		}
		if k > 0 {
			c.out = append(c.out, p[n:n+k]...)
			n += k
		}
		if !c.stall {
			c.taken = len(c.out)
		}
		if n == len(p) {
			return n, nil
		}
		c.cond.Wait()
	}
}

func (c *end) change(f func()) {
	c.mu.Lock()
	f()
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *end) Close() error {
	c.change(func() { c.shut = true })
	return nil
}

func (c *end) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4000} }
func (c *end) RemoteAddr() net.Addr {
	return c.from
}

func (c *end) deadline(t time.Time, p *time.Time) {
	c.change(func() { *p = t })
	if d := time.Until(t); !t.IsZero() && d > 0 {
		time.AfterFunc(d, func() { c.cond.Broadcast() })
	}
}

func (c *end) SetDeadline(t time.Time) error {
	c.deadline(t, &c.rd)
	c.deadline(t, &c.wd)
	return nil
}
func (c *end) SetReadDeadline(t time.Time) error  { c.deadline(t, &c.rd); return nil }
func (c *end) SetWriteDeadline(t time.Time) error { c.deadline(t, &c.wd); return nil }

// what the client does

func (c *end) send(b []byte) { c.change(func() { c.in = append(c.in, b...) }) }
func (c *end) end()          { c.change(func() { c.eof = true }) }
func (c *end) breakOff()     { c.change(func() { c.reset = true }) }
func (c *end) stop(room int) { c.change(func() { c.stall, c.room = true, room }) }
func (c *end) resume()       { c.change(func() { c.stall = false; c.taken = len(c.out) }) }

// received is what the client has read so far, and whether the server has closed.
func (c *end) received() (b []byte, closed bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out[:c.taken], c.shut
}
