package hapi

import (
	"fmt"
	"time"

	"verifsim/fw"
)

// Conn is a client: what it sends on its connection.
type Conn struct {
	Reqs  []Req   `json:"reqs"`
	Junk  fw.Text `json:"junk,omitempty"`  // sent after the requests
	Short int     `json:"short,omitempty"` // bytes one read of the server gets at most
	From  int     `json:"from,omitempty"`  // the client's address, by its number
}

// Event is something that happens on the network. The server runs until it waits after each
// event that is not joined to the next.
type Event struct {
	Do   string `json:"do"`
	C    int    `json:"c,omitempty"`
	N    int    `json:"n,omitempty"`
	Join bool   `json:"join,omitempty"`
}

func validConns(conns []Conn, evs []Event) bool {
	if len(conns) == 0 || len(conns) > 400 || len(evs) > 2000 {
		return false
	}
	for i := range conns {
		c := &conns[i]
		if len(c.Reqs) > 1500 || c.Short < 0 || c.From < 0 || c.From >= len(addrs) || len(c.Junk) > 1000 {
			return false
		}
		for j := range c.Reqs {
			if !c.Reqs[j].valid() {
				return false
			}
		}
		ok := c.Junk == ""
		for _, g := range garbage {
			ok = ok || g == string(c.Junk)
		}
		if !ok {
			return false
		}
	}
	for _, e := range evs {
		if e.C < 0 || e.C >= len(conns) || e.N < 0 || e.N > 1<<20 && e.Do != "sleep" {
			return false
		}
		switch e.Do {
		case "send", "end", "reset", "resume":
		case "stall":
		case "sleep":
			if e.N > 100000000 {
				return false
			}
		case "accept":
			if e.N > 8 {
				return false
			}
		case "clock":
		default:
			return false
		}
	}
	return true
}

// client is a connection in progress.
type client struct {
	*Conn
	c        *end
	stream   []byte
	heads    []int
	ends     []int
	sent     int
	lim      int // requests until the connection closes
	ended    bool
	reset    bool
	stalled  bool
	exempt   time.Time // not yet accepted, maybe, until then
	answered int
	dead     bool // what comes from here on is anyone's guess
}

func newClient(c *Conn) *client {
	k := &client{Conn: c, lim: len(c.Reqs)}
	for i := range c.Reqs {
		b, h := c.Reqs[i].bytes()
		k.heads = append(k.heads, len(k.stream)+h)
		k.stream = append(k.stream, b...)
		k.ends = append(k.ends, len(k.stream))
		if c.Reqs[i].closes() && i < k.lim {
			k.lim = i + 1
		}
	}
	k.stream = append(k.stream, c.Junk...)
	return k
}

func count(l []int, sent, lim int) int {
	n := 0
	for n < lim && l[n] <= sent {
		n++
	}
	return n
}

// begun is the number of requests whose header has been sent; whole that of complete ones.
func (k *client) begun() int { return count(k.heads, k.sent, k.lim) }
func (k *client) whole() int { return count(k.ends, k.sent, k.lim) }

// check looks at what the client has received when the server waits.
func (k *client) check(i int, now time.Time) *fw.Violation {
	if k.c == nil {
		return nil
	}
	b, closed := k.c.received()
	n, rest, v := responses(b, closed, k.Reqs[:k.begun()])
	if v != nil {
		v.Detail = fmt.Sprintf("connection %d, response %d: %s", i, n, v.Detail)
		return v
	}
	k.answered = n
	if k.reset || k.stalled || now.Before(k.exempt) {
		return nil
	}
	if n < k.whole() {
		return fw.V("no-response", "connection %d: %d complete requests have been sent and %d responses came (next: %s %s; received after them: %q; closed: %v)", i, k.whole(), n, k.Reqs[n].Method, k.Reqs[n].target(), tail(rest), closed)
	}
	// something is left: only where the server may complain, about a request that is broken
	// off or about garbage
	open := true
	for _, e := range k.ends {
		open = open && e != k.sent
	}
	junk := k.lim == len(k.Reqs) && !(k.lim > 0 && k.Reqs[k.lim-1].closes()) && k.whole() == k.lim && open
	if len(rest) > 0 && !junk && !(k.ended && open) {
		return fw.V("bad-response", "connection %d: after %d responses to %d requests (%d of them complete) came %q", i, n, k.begun(), k.whole(), tail(rest))
	}
	return nil
}

func tail(b []byte) string {
	if len(b) > 300 {
		return string(b[:300]) + "…"
	}
	return string(b)
}

// clients are all connections of a run.
type clients struct {
	s    *server
	l    []*client
	slow time.Time
}

func newClients(s *server, conns []Conn) *clients {
	a := &clients{s: s}
	for i := range conns {
		a.l = append(a.l, newClient(&conns[i]))
	}
	return a
}

func (a *clients) open(k *client) {
	if k.c == nil {
		k.c = a.s.dial(k.From)
		k.c.most = k.Short
		k.exempt = a.slow
		if k.Short > 0 {
			a.s.x.Fault("net:short reads")
		}
	}
}

// do makes an event happen.
func (a *clients) do(e *Event) {
	x := a.s.x
	k := a.l[e.C]
	switch e.Do {
	case "send":
		if k.ended || k.reset || k.sent == len(k.stream) {
			return
		}
		a.open(k)
		n := min(e.N, len(k.stream)-k.sent)
		if n == 0 {
			n = len(k.stream) - k.sent
		}
		k.sent += n
		in := true
		for _, p := range k.ends {
			in = in && p != k.sent
		}
		if in && k.sent < len(k.stream) {
			x.Fault("net:request in fragments")
		}
		if k.sent-n < k.heads0() && k.sent >= k.ends1() {
			x.Fault("net:pipelining")
		}
		k.c.send(k.stream[k.sent-n : k.sent])
	case "end":
		if k.c != nil && !k.ended && !k.reset {
			k.ended = true
			x.Fault("net:half-close")
			k.c.end()
		}
	case "reset":
		if k.c != nil && !k.reset {
			k.reset = true
			x.Fault("net:reset")
			k.c.breakOff()
		}
	case "stall":
		if k.c != nil && !k.stalled && !k.reset {
			k.stalled = true
			x.Fault("net:stalled reader")
			k.c.stop(e.N)
		}
	case "resume":
		if k.stalled {
			k.stalled = false
			k.c.resume()
		}
	case "sleep":
		x.Fault("net:delay")
		time.Sleep(time.Duration(e.N) * time.Millisecond)
	case "accept":
		x.Fault("net:accept error")
		a.s.net.failNext(e.N)
		// the server may wait a second after each failure
		if t := time.Now(); t.After(a.slow) {
			a.slow = t
		}
		a.slow = a.slow.Add(time.Duration(e.N+2) * time.Second)
		for _, k := range a.l {
			if k.c != nil && k.answered == 0 {
				k.exempt = a.slow
			}
		}
	}
}

func (k *client) heads0() int {
	if len(k.heads) == 0 {
		return 0
	}
	return k.heads[0]
}

func (k *client) ends1() int {
	if len(k.ends) < 2 {
		return 1 << 30
	}
	return k.ends[1]
}

// check looks at all connections.
func (a *clients) check() *fw.Violation {
	now := time.Now()
	for i, k := range a.l {
		if v := k.check(i, now); v != nil {
			return v
		}
	}
	return nil
}

// rest lets the server do everything it can still do.
func (a *clients) rest() {
	time.Sleep(max(30*time.Second, time.Until(a.slow)+time.Second))
	a.s.settle()
}

// finish lets the clients send what is left and read what they have not read.
func (a *clients) finish() *fw.Violation {
	for i := range a.l {
		a.do(&Event{Do: "resume", C: i})
		a.do(&Event{Do: "send", C: i})
	}
	a.rest()
	return a.check()
}

// genConns draws clients and what happens on their connections.
func genConns(r *fw.Rand, req func() Req, most int) (conns []Conn, evs []Event) {
	n := r.PickInt(1, 2, 2, 3, 4, 6)
	if n > most {
		n = most
	}
	wild := r.P(0.7)
	crowd := most > 4 && r.P(0.04)
	if crowd {
		n = r.PickInt(12, 20, 40, 70, 110, 300)
	}
	long := !crowd && r.P(0.02)
	for i := 0; i < n; i++ {
		c := Conn{}
		j := r.PickInt(1, 1, 2, 3, 5, 8)
		if crowd {
			j = r.PickInt(1, 1, 1, 2)
		}
		if long && i == 0 {
			j = r.PickInt(50, 130, 300)
		}
		for ; j > 0; j-- {
			q := req()
			if long && i == 0 && r.P(0.97) {
				q.Close, q.Old = false, false
			}
			c.Reqs = append(c.Reqs, q)
		}
		if wild && r.P(0.15) {
			c.Junk = fw.Text(r.Pick(garbage...))
		}
		if r.P(0.1) {
			c.Short = r.PickInt(1, 2, 7, 100)
		}
		if r.P(0.3) {
			c.From = r.N(len(addrs))
		}
		conns = append(conns, c)
	}
	join := r.P(0.7)
	piece := r.PickInt(0, 0, 1, 5, 30, 150)
	total := 0
	for i := range conns {
		total += len(newClient(&conns[i]).stream)
	}
	if piece > 0 && total/piece > 200 {
		piece = total/200 + 1
	}
	left := total
	for left > 0 && len(evs) < 600 {
		e := Event{Do: "send", C: r.N(n)}
		switch {
		case piece == 0 && r.P(0.5):
			// all the rest
			left -= total / n
		case piece == 0:
			k := newClient(&conns[e.C])
			e.N = len(k.stream)/r.Range(1, len(conns[e.C].Reqs)+1) + r.PickInt(-1, 0, 0, 1)
			if e.N < 1 {
				e.N = 1
			}
			left -= e.N
		default:
			e.N = r.Range(1, 2*piece)
			left -= e.N
		}
		if wild && r.P(0.12) {
			e = Event{Do: r.Pick("reset", "end", "stall", "resume", "resume", "sleep", "sleep", "accept"), C: e.C}
			switch e.Do {
			case "stall":
				e.N = r.PickInt(0, 0, 10, 100, 1000)
			case "sleep":
				e.N = r.PickInt(1, 1, 100, 100, 5000, 5000, 60000, 60000, 200000, 200000, 3700000, 90000000)
			case "accept":
				e.N = r.Range(1, 4)
			}
		}
		e.Join = join && r.P(0.6)
		evs = append(evs, e)
	}
	return
}
