//go:build go1.25

package rt

import (
	"unsafe"
)

// Channels of the instrumented code. The real channel value only serves as the
// identity; buffering and rendezvous are simulated.
type simChan struct {
	keep   unsafe.Pointer
	buf    []chItem
	capn   int
	closed bool
	recvq  []*chWaiter
	sendq  []*chWaiter
	cvc    VC
	rvc    VC
}

type chItem struct {
	v  any
	vc VC
}

type chWaiter struct {
	t    *Task
	sel  *selState
	idx  int
	item chItem
}

type selState struct {
	done bool
	idx  int
	item chItem
	ok   bool
}

func chPtr[T any](ch T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sim) ch(p unsafe.Pointer, capn int) *simChan {
	c := s.chans[uintptr(p)]
	if c == nil {
		c = &simChan{keep: p, capn: capn}
		s.chans[uintptr(p)] = c
	}
	return c
}

func (c *simChan) popRecv() *chWaiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.sel.done && !w.t.killed {
			return w
		}
	}
	return nil
}
func (c *simChan) popSend() *chWaiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.sel.done && !w.t.killed {
			return w
		}
	}
	return nil
}
func (c *simChan) hasRecv() bool {
	for _, w := range c.recvq {
		if !w.sel.done && !w.t.killed {
			return true
		}
	}
	return false
}
func (c *simChan) hasSend() bool {
	for _, w := range c.sendq {
		if !w.sel.done && !w.t.killed {
			return true
		}
	}
	return false
}

func (c *simChan) trySend(it chItem) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.sel.done, w.sel.idx, w.sel.item, w.sel.ok = true, w.idx, it, true
		// the receive happens before the completion of the send
		cur.vc.Join(w.t.vc)
		w.t.vc.set(w.t.slot, w.t.vc.get(w.t.slot)+1)
		S.Ready(w.t)
		return true
	}
	if len(c.buf) < c.capn {
		cur.vc.Join(c.rvc)
		c.buf = append(c.buf, it)
		return true
	}
	return false
}

func (c *simChan) tryRecv() (chItem, bool, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		snap := Snapshot()
		c.rvc.Join(snap)
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.item)
			w.sel.done, w.sel.idx, w.sel.item.vc = true, w.idx, snap
			S.Ready(w.t)
		}
		return it, true, true
	}
	if w := c.popSend(); w != nil {
		w.sel.done, w.sel.idx, w.sel.item.vc = true, w.idx, Snapshot()
		S.Ready(w.t)
		return w.item, true, true
	}
	if c.closed {
		return chItem{vc: c.cvc}, false, true
	}
	return chItem{}, false, false
}

// Case is one case of a select statement.
type Case interface{ base() *selCase }

type selCase struct {
	p    unsafe.Pointer
	capn int
	send bool
	val  any
	fpol func() (any, bool, bool) // poll of a channel fed by foreign code
	got  any
	ok   bool
}

func (c *selCase) base() *selCase { return c }

// RecvCase is a receive; V and V2 yield what was received.
type RecvCase[T any] struct{ selCase }

func (c *RecvCase[T]) V() T {
	v, _ := c.got.(T)
	return v
}
func (c *RecvCase[T]) V2() (T, bool) {
	v, _ := c.got.(T)
	return v, c.ok
}

func SelRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{selCase{p: chPtr(ch), capn: cap(ch), fpol: func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}}
}

func SelSendTo[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return &selCase{p: chPtr(ch), capn: cap(ch), send: true, val: v}
	}
}

// Unwind is the value of the panic that follows a select in a task that is
// being killed.
func Unwind() string { return "simulator: task unwound" }

func Select(hasDefault bool, cs ...Case) int {
	t := cur
	if t == nil {
		panic("simulator: select outside a simulation")
	}
	if t.dying {
		return -1
	}
	cases := make([]*selCase, len(cs))
	for i, c := range cs {
		cases[i] = c.base()
	}
	Y(t.WaitAt)
	s := S
	n := len(cases)
	off := 0
	if n > 1 {
		off = s.Stream("select").Intn(n)
	}
	for k := 0; k < n; k++ {
		i := (k + off) % n
		c := cases[i]
		if c.p == nil {
			continue
		}
		sc := s.ch(c.p, c.capn)
		if c.send {
			it := chItem{v: c.val, vc: Snapshot()}
			if sc.trySend(it) {
				return i
			}
		} else {
			if it, ok, done := sc.tryRecv(); done {
				t.vc.Join(it.vc)
				c.got, c.ok = it.v, ok
				return i
			}
			if v, ok, done := c.fpol(); done {
				c.got, c.ok = v, ok
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{}
	for i, c := range cases {
		if c.p == nil {
			continue
		}
		sc := s.ch(c.p, c.capn)
		w := &chWaiter{t: t, sel: st, idx: i}
		if c.send {
			w.item = chItem{v: c.val, vc: Snapshot()}
			sc.sendq = append(sc.sendq, w)
		} else {
			sc.recvq = append(sc.recvq, w)
		}
	}
	for !st.done {
		s.block(t, "channel")
		if s.Deadlock && t == s.root {
			break
		}
	}
	if st.idx == -2 {
		panic("send on closed channel")
	}
	t.vc.Join(st.item.vc)
	if st.idx >= 0 && st.idx < n {
		cases[st.idx].got, cases[st.idx].ok = st.item.v, st.ok
	}
	return st.idx
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Dying() {
			return
		}
		Select(false, SelSendTo(ch)(v))
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if Dying() {
		var z T
		return z, false
	}
	c := SelRecv(ch)
	Select(false, c)
	return c.V2()
}

func Close[T any](ch chan<- T) {
	if Dying() {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	Y(cur.WaitAt)
	c := S.ch(chPtr(ch), cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.cvc = Snapshot()
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.item, w.sel.ok = true, w.idx, chItem{vc: c.cvc}, false
		S.Ready(w.t)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx = true, -2
		S.Ready(w.t)
	}
}

func ChLen[T any](ch chan T) int {
	if cur == nil {
		return len(ch)
	}
	return len(S.ch(chPtr(ch), cap(ch)).buf)
}

// ChPut is a non-blocking send by the simulator itself (timers, signals).
func ChPut[T any](ch chan<- T, v T) bool {
	if S == nil {
		return false
	}
	c := S.ch(chPtr(ch), cap(ch))
	if c.closed {
		return false
	}
	if w := c.popRecv(); w != nil {
		w.sel.done, w.sel.idx, w.sel.item, w.sel.ok = true, w.idx, chItem{v: v}, true
		S.Ready(w.t)
		return true
	}
	if len(c.buf) < c.capn {
		c.buf = append(c.buf, chItem{v: v})
		return true
	}
	return false
}

// ChDrain empties the buffer.
func ChDrain[T any](ch chan T) {
	if S != nil {
		S.ch(chPtr(ch), cap(ch)).buf = nil
	}
}
