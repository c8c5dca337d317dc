// Package sync replaces the standard package in the instrumented sources: operations that
// block hand the turn back to the simulator's scheduler. Outside a schedule it behaves as
// the standard package does.
package sync

import (
	"runtime"
	real "sync"
	"sync/atomic"
	"time"

	"verifsim/simrt"
)

type (
	Locker    = real.Locker
	Map       = real.Map
	Cond      = real.Cond
	WaitGroup = real.WaitGroup
)

func NewCond(l Locker) *Cond { return real.NewCond(l) }

// poll takes a lock outside a schedule. A lock that stays taken is a deadlock.
func poll(try func() bool) {
	for i := 0; ; i++ {
		if try() {
			return
		}
		if i < 200 {
			runtime.Gosched()
			continue
		}
		if i > 10000 {
			panic(simrt.DeadlockError{})
		}
		time.Sleep(time.Millisecond)
	}
}

// waiters are the goroutines of a simulated bubble that wait for a lock. They wait on
// channels, so that the bubble sees that they wait.
type waiters struct {
	mu real.Mutex
	l  []waiter
}

type waiter struct {
	ch     chan struct{}
	bubble uint64
}

// wait blocks until try succeeds.
func (w *waiters) wait(try func() bool) {
	b := simrt.Bubble()
	if b == 0 {
		poll(try)
		return
	}
	for {
		w.mu.Lock()
		if try() {
			w.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		w.l = append(w.l, waiter{ch, b})
		w.mu.Unlock()
		<-ch
	}
}

// wake lets the waiting goroutines try again.
func (w *waiters) wake() {
	b := simrt.Bubble()
	if b == 0 {
		return
	}
	w.mu.Lock()
	l := w.l
	w.l = nil
	w.mu.Unlock()
	for _, x := range l {
		if x.bubble == b {
			close(x.ch)
		}
	}
}

type Mutex struct {
	m real.Mutex
	w waiters
}

func (m *Mutex) Lock() {
	simrt.Y(simrt.HotBit | 1)
	for !m.m.TryLock() {
		if !simrt.Block() {
			m.w.wait(m.m.TryLock)
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	simrt.Y(simrt.HotBit | 2)
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	m.w.wake()
	simrt.Wake()
	simrt.Y(simrt.HotBit | 3)
}

// A writer that waits keeps new readers out, as in the standard package (within a schedule).
type RWMutex struct {
	m       real.RWMutex
	w       waiters
	writers int // waiting in the running schedule
}

//go:norace
func (m *RWMutex) want(n int) { m.writers += n }

//go:norace
func (m *RWMutex) wanted() bool { return m.writers > 0 && simrt.Managed() }

func (m *RWMutex) Lock() {
	simrt.Y(simrt.HotBit | 4)
	if m.m.TryLock() {
		return
	}
	if !simrt.Managed() {
		m.w.wait(m.m.TryLock)
		return
	}
	m.want(1)
	defer m.want(-1)
	for !m.m.TryLock() {
		if !simrt.Block() {
			m.w.wait(m.m.TryLock)
			return
		}
	}
}

func (m *RWMutex) RLock() {
	simrt.Y(simrt.HotBit | 5)
	for m.wanted() || !m.m.TryRLock() {
		if !simrt.Block() {
			m.w.wait(m.m.TryRLock)
			return
		}
	}
}

func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return !m.wanted() && m.m.TryRLock() }

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	m.w.wake()
	simrt.Wake()
	simrt.Y(simrt.HotBit | 6)
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	m.w.wake()
	simrt.Wake()
	simrt.Y(simrt.HotBit | 7)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Y(simrt.HotBit | 8)
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// Pool always hands out the entry put back last, so that sharing through a pool happens
// as often as possible and in a reproducible order. Put happens before the Get that returns
// the entry, as in the standard package, and nothing else is ordered.
type Pool struct {
	New func() any

	mu    real.Mutex
	items []*poolItem
}

type poolItem struct {
	flag atomic.Uint32
	x    any
}

func (p *Pool) Get() any {
	simrt.Y(simrt.HotBit | 9)
	var it *poolItem
	if simrt.Managed() {
		it = p.pop()
	} else {
		p.mu.Lock()
		it = p.pop()
		p.mu.Unlock()
	}
	if it != nil {
		it.flag.Load()
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.Y(simrt.HotBit | 10)
	if x == nil {
		return
	}
	it := &poolItem{x: x}
	it.flag.Store(1)
	if simrt.Managed() {
		p.push(it)
	} else {
		p.mu.Lock()
		p.push(it)
		p.mu.Unlock()
	}
}

//go:norace
func (p *Pool) pop() *poolItem {
	n := len(p.items)
	if n == 0 {
		return nil
	}
	it := p.items[n-1]
	p.items = p.items[:n-1]
	return it
}

//go:norace
func (p *Pool) push(it *poolItem) {
	if len(p.items) < 64 {
		p.items = append(p.items, it)
	}
}
