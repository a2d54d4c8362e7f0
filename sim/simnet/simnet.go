//go:build go1.25

// Package simnet is the simulated TCP network: reliable in-order byte streams
// whose segmentation, delay, back-pressure and end are decided by the run's
// seed and its fault plan.
package simnet

import (
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"syscall"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
)

// Cfg shapes the network of a run.
type Cfg struct {
	DelayMin int64 `json:"delay_min"`
	DelayMax int64 `json:"delay_max"`
	SegMax   int   `json:"seg_max"`  // largest segment
	SegTiny  int   `json:"seg_tiny"` // percent of segments of 1..8 bytes
	Buf      int   `json:"buf"`      // bytes in flight plus unread per direction
	Short    int   `json:"short"`    // percent of reads that return less than is there
}

func DefaultCfg() Cfg { return Cfg{DelayMin: 2000, DelayMax: 50000, SegMax: 65536, Buf: 1 << 18} }

// Net is the network of one run.
type Net struct {
	OnDial    func(*Conn) // told of connections the daemon's code makes
	Cfg       Cfg
	rng       *rt.RNG
	listeners map[int]*Listener
	conns     []*Conn
	nport     int
	nconn     int
	Stats     map[string]int64
	Bytes     int64
	// AcceptErr is consulted by Accept; it returns a non-nil error to inject.
	AcceptErr func(port int) error
	// OnClose is called when the daemon's end of a connection is closed.
	OnServerClose func(c *Conn)
	ListenErr     func(port int) error
}

// N is the network of the run in progress.
var N *Net

func New(cfg Cfg) *Net {
	N = &Net{Cfg: cfg, rng: rt.S.Stream("net"), listeners: map[int]*Listener{}, nport: 40000, Stats: map[string]int64{}}
	return N
}

type seg struct {
	b  []byte
	vc rt.VC
}

// half is one direction of a connection.
type half struct {
	n       *Net
	buf     []seg
	flight  int
	unread  int
	lastAt  int64
	fin     bool // end of stream delivered
	finSent bool
	rst     bool
	rd      rt.WaitList
	wr      rt.WaitList
	sent    int64
	got     int64
	cutAt   int64 // reset the connection after this many bytes were sent (-1 off)
	cutFin  bool
	holdTo  int64 // deliveries are held until this time
	black   bool  // everything sent from now on vanishes
	rdDead  bool  // reader has closed
}

// Conn is one end of a connection.
type Conn struct {
	N      *Net
	ID     int
	Server bool
	in     *half
	out    *half
	peer   *Conn
	closed bool
	owner  *rt.Proc
	laddr  *net.TCPAddr
	raddr  *net.TCPAddr
	rdl    int64
	wdl    int64
	werr   error
	Tag    any
}

func (h *half) deliverAt(d int64) int64 {
	at := rt.S.Now() + d
	if at < h.holdTo {
		at = h.holdTo
	}
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	return at - rt.S.Now()
}

func (n *Net) delay() int64 {
	c := n.Cfg
	if c.DelayMax <= c.DelayMin {
		return c.DelayMin
	}
	return c.DelayMin + n.rng.Int63n(c.DelayMax-c.DelayMin)
}

func (n *Net) segSize() int {
	if n.Cfg.SegTiny > 0 && n.rng.Intn(100) < n.Cfg.SegTiny {
		return n.rng.Range(1, 8)
	}
	if n.Cfg.SegMax <= 1 {
		return 1
	}
	return n.rng.Range((n.Cfg.SegMax+1)/2, n.Cfg.SegMax)
}

func opErr(op string, c *Conn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

type timeoutError struct{}

func (timeoutError) Error() string     { return "i/o timeout" }
func (timeoutError) Timeout() bool     { return true }
func (timeoutError) Temporary() bool   { return true }
func (timeoutError) Is(err error) bool { return err == os.ErrDeadlineExceeded }

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	rt.Y(0)
	if rt.Dying() {
		return 0, net.ErrClosed
	}
	h := c.in
	for {
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.rdl != 0 && rt.S.Now() >= c.rdl {
			return 0, opErr("read", c, timeoutError{})
		}
		if h.rst {
			return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(h.buf) > 0 {
			max := len(b)
			if c.N.Cfg.Short > 0 && max > 1 && c.N.rng.Intn(100) < c.N.Cfg.Short {
				max = c.N.rng.Range(1, max)
				c.N.Stats["short_read"]++
			}
			n := 0
			for len(h.buf) > 0 && n < max {
				s := &h.buf[0]
				vc := s.vc
				k := copy(b[n:max], s.b)
				n += k
				if k == len(s.b) {
					h.buf = h.buf[1:]
				} else {
					s.b = s.b[k:]
				}
				rt.JoinCur(vc)
			}
			h.unread -= n
			h.got += int64(n)
			h.wr.WakeAll()
			return n, nil
		}
		if h.fin {
			return 0, io.EOF
		}
		if c.rdl != 0 {
			h.rd.WaitFor("net read", c.rdl-rt.S.Now())
		} else {
			h.rd.Wait("net read")
		}
		if rt.S.Deadlock && rt.IsRoot() {
			return 0, io.ErrUnexpectedEOF
		}
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	rt.Y(0)
	if rt.Dying() {
		return 0, net.ErrClosed
	}
	h := c.out
	done := 0
	for done < len(b) || len(b) == 0 {
		if c.closed {
			return done, opErr("write", c, net.ErrClosed)
		}
		if c.werr != nil {
			return done, opErr("write", c, c.werr)
		}
		if c.in.rst {
			return done, opErr("write", c, os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.wdl != 0 && rt.S.Now() >= c.wdl {
			return done, opErr("write", c, timeoutError{})
		}
		space := c.N.Cfg.Buf - h.flight - h.unread
		if space <= 0 {
			c.N.Stats["backpressure"]++
			if c.wdl != 0 {
				h.wr.WaitFor("net write", c.wdl-rt.S.Now())
			} else {
				h.wr.Wait("net write")
			}
			if rt.S.Deadlock && rt.IsRoot() {
				return done, io.ErrShortWrite
			}
			continue
		}
		k := len(b) - done
		if k > space {
			k = space
		}
		// one send call segments into several deliveries
		for k > 0 {
			m := c.N.segSize()
			if m > k {
				m = k
			}
			cut := false
			if h.cutAt >= 0 && h.sent+int64(m) >= h.cutAt {
				m = int(h.cutAt - h.sent)
				cut = true
			}
			if m > 0 {
				c.send(append([]byte(nil), b[done:done+m]...))
				done += m
				k -= m
			}
			if cut {
				h.cutAt = -1
				if h.cutFin {
					c.N.Stats["cut_fin"]++
					c.closeBoth(false)
				} else {
					c.N.Stats["cut_rst"]++
					c.closeBoth(true)
				}
				h.black = true
			}
		}
	}
	return done, nil
}

func (c *Conn) send(b []byte) {
	h := c.out
	h.sent += int64(len(b))
	c.N.Bytes += int64(len(b))
	if h.black {
		return
	}
	h.flight += len(b)
	s := seg{b, rt.Snapshot()}
	rt.S.After(h.deliverAt(c.N.delay()), func() {
		h.flight -= len(b)
		if h.rst {
			return
		}
		if h.rdDead || c.peer.closed {
			// data for a closed socket is answered with a reset
			c.peerReset(syscall.EPIPE)
			return
		}
		h.buf = append(h.buf, s)
		h.unread += len(b)
		h.rd.WakeAll()
	})
}

// peerReset makes this end see the reset sent by its peer, after a delay.
func (c *Conn) peerReset(werr error) {
	rt.S.After(c.in.deliverAt(c.N.delay()), func() {
		c.in.rst = true
		if c.werr == nil {
			c.werr = os.NewSyscallError("write", werr.(syscall.Errno))
		}
		c.in.buf = nil
		c.in.rd.WakeAll()
		c.out.wr.WakeAll()
	})
}

// closeBoth ends the connection from the network's side.
func (c *Conn) closeBoth(reset bool) {
	for _, e := range []*Conn{c, c.peer} {
		e := e
		if reset {
			e.peerReset(syscall.EPIPE)
		} else {
			e.sendFin(e.in)
		}
	}
}

func (c *Conn) sendFin(h *half) {
	if h.finSent {
		return
	}
	h.finSent = true
	rt.S.After(h.deliverAt(c.N.delay()), func() {
		h.fin = true
		h.rd.WakeAll()
	})
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	rt.Y(0)
	if rt.Dying() {
		return nil
	}
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.doClose()
	return nil
}

func (c *Conn) doClose() {
	if c.closed {
		return
	}
	c.closed = true
	c.in.rdDead = true
	if c.in.unread > 0 {
		c.peer.peerReset(syscall.EPIPE)
	} else {
		c.sendFin(c.out)
	}
	c.in.rd.WakeAll()
	c.in.wr.WakeAll()
	c.out.wr.WakeAll()
	if c.Server && c.N.OnServerClose != nil {
		c.N.OnServerClose(c)
	}
}

// CloseWrite sends an end of stream but keeps reading.
func (c *Conn) CloseWrite() error {
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.sendFin(c.out)
	return nil
}

func (c *Conn) CloseRead() error { return nil }

// Abort resets the connection at once.
func (c *Conn) Abort() {
	if c.closed {
		return
	}
	c.closed = true
	c.in.rdDead = true
	c.peer.peerReset(syscall.EPIPE)
	c.in.rd.WakeAll()
	c.out.wr.WakeAll()
	if c.Server && c.N.OnServerClose != nil {
		c.N.OnServerClose(c)
	}
}

// CutSend arms a cut of the connection after n more bytes were written by
// this end.
func (c *Conn) CutSend(n int64, fin bool) { c.out.cutAt, c.out.cutFin = c.out.sent+n, fin }

// CutRecv arms a cut after n more bytes were written by the peer.
func (c *Conn) CutRecv(n int64, fin bool) { c.in.cutAt, c.in.cutFin = c.in.sent+n, fin }

// Hold delays everything sent in the given directions until now+d.
func (c *Conn) Hold(send, recv bool, d int64) {
	t := rt.S.Now() + d
	if send {
		c.out.holdTo = t
	}
	if recv {
		c.in.holdTo = t
	}
	c.N.Stats["hold"]++
}

// Blackhole drops everything both ends send from now on, and no end learns.
func (c *Conn) Blackhole() { c.in.black, c.out.black = true, true; c.N.Stats["blackhole"]++ }

func (c *Conn) Closed() bool { return c.closed }
func (c *Conn) Peer() *Conn  { return c.peer }

// PeerGone reports that the other end has closed or reset.
func (c *Conn) PeerGone() bool { return c.in.fin || c.in.rst }
func (c *Conn) Sent() int64    { return c.out.sent }

// Pending is the number of bytes this end has not read yet, and what is under
// way to it.
func (c *Conn) Pending() (unread, flight int) { return c.in.unread, c.in.flight }

// OutPending is the same for the other direction.
func (c *Conn) OutPending() (unread, flight int) { return c.out.unread, c.out.flight }

func (c *Conn) LocalAddr() net.Addr  { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr { return c.raddr }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := rt.Mono(t)
	if d <= 0 {
		d = 1
	}
	return d
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rdl = dl(t)
	c.in.rd.WakeAll()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wdl = dl(t)
	c.out.wr.WakeAll()
	return nil
}

// Listener accepts simulated connections.
type Listener struct {
	n      *Net
	port   int
	q      []*Conn
	wl     rt.WaitList
	closed bool
	owner  *rt.Proc
	Addr_  *net.TCPAddr
	adl    int64
}

// SetDeadline bounds Accept.
func (l *Listener) SetDeadline(t time.Time) error {
	l.adl = dl(t)
	l.wl.WakeAll()
	return nil
}

func (n *Net) Listen(port int) (*Listener, error) {
	if rt.Dying() {
		return nil, net.ErrClosed
	}
	a := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: port}
	if n.ListenErr != nil {
		if err := n.ListenErr(port); err != nil {
			return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: a, Err: err}
		}
	}
	if l := n.listeners[port]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{n: n, port: port, owner: rt.Cur().Proc, Addr_: a}
	n.listeners[port] = l
	return l, nil
}

func (l *Listener) Accept() (*Conn, error) {
	rt.Y(0)
	for {
		if rt.Dying() {
			return nil, net.ErrClosed
		}
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr_, Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			if l.n.AcceptErr != nil {
				if err := l.n.AcceptErr(l.port); err != nil {
					l.n.Stats["accept_error"]++
					return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr_, Err: os.NewSyscallError("accept4", err)}
				}
			}
			c := l.q[0]
			l.q = l.q[1:]
			c.owner = rt.Cur().Proc
			return c, nil
		}
		if l.adl != 0 && rt.S.Now() >= l.adl {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr_, Err: timeoutError{}}
		}
		if l.adl != 0 {
			l.wl.WaitFor("accept", l.adl-rt.S.Now())
		} else {
			l.wl.Wait("accept")
		}
	}
}

func (l *Listener) Close() error {
	rt.Y(0)
	if rt.Dying() {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr_, Err: net.ErrClosed}
	}
	l.doClose()
	return nil
}

func (l *Listener) doClose() {
	l.closed = true
	for _, c := range l.q {
		c.doClose()
	}
	l.q = nil
	l.wl.WakeAll()
	if l.n.listeners[l.port] == l {
		delete(l.n.listeners, l.port)
	}
}

func (l *Listener) Closed() bool { return l.closed }

// Listening reports whether some process accepts on the port.
func (n *Net) Listening(port int) bool {
	l := n.listeners[port]
	return l != nil && !l.closed
}

// Waiting is the number of connections not yet accepted.
func (n *Net) Waiting(port int) int {
	if l := n.listeners[port]; l != nil {
		return len(l.q)
	}
	return 0
}

// Dial connects from the given host to a port of the daemon's host.
func (n *Net) Dial(host string, port int) (*Conn, error) { return n.DialTo(host, "", port) }

// DialTo connects to one of the addresses of the daemon's host.
func (n *Net) DialTo(host, ip string, port int) (*Conn, error) {
	rt.Sleep(n.delay())
	l := n.listeners[port]
	if l == nil || l.closed {
		return nil, fmt.Errorf("dial :%d: connection refused", port)
	}
	n.nconn++
	n.nport++
	a := &half{n: n, cutAt: -1}
	b := &half{n: n, cutAt: -1}
	ca := &net.TCPAddr{IP: net.ParseIP(host), Port: n.nport}
	sa := l.Addr_
	if ip != "" {
		sa = &net.TCPAddr{IP: net.ParseIP(ip), Port: port}
	}
	cl := &Conn{N: n, ID: n.nconn, in: a, out: b, laddr: ca, raddr: sa, owner: rt.Cur().Proc}
	sv := &Conn{N: n, ID: n.nconn, Server: true, in: b, out: a, laddr: sa, raddr: ca, owner: l.owner}
	cl.peer, sv.peer = sv, cl
	n.conns = append(n.conns, cl, sv)
	l.q = append(l.q, sv)
	l.wl.WakeAll()
	return cl, nil
}

// ProcDied closes everything the process had open.
func (n *Net) ProcDied(p *rt.Proc) {
	var ports []int
	for k, l := range n.listeners {
		if l.owner == p {
			ports = append(ports, k)
		}
	}
	sort.Ints(ports)
	for _, k := range ports {
		n.listeners[k].doClose()
	}
	for _, c := range n.conns {
		if c.owner == p && !c.closed {
			c.doClose()
		}
	}
}

// ServerConns lists the daemon's open ends.
func (n *Net) ServerConns() []*Conn {
	var out []*Conn
	for _, c := range n.conns {
		if c.Server && !c.closed {
			out = append(out, c)
		}
	}
	return out
}

// LocalPort is the port of this end.
func (c *Conn) LocalPort() int { return c.laddr.Port }
