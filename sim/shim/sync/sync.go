//go:build go1.25

// Package sync replaces sync in the instrumented daemon.
package sync

import (
	"fmt"
	"sort"

	"github.com/gostor/gotgt/zsim/rt"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is mutual exclusion decided by the simulator's scheduler.
type Mutex struct {
	held bool
	vc   rt.VC
	wl   rt.WaitList
}

func (m *Mutex) Lock() {
	rt.Y(0)
	for m.held {
		if !m.wl.Wait("mutex") {
			return
		}
	}
	if rt.Dying() && rt.Cur() != nil {
		return
	}
	m.held = true
	m.vc.Acquire()
}

func (m *Mutex) TryLock() bool {
	rt.Y(0)
	if m.held {
		return false
	}
	m.held = true
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	if !m.held {
		rt.Fatal("sync: unlock of unlocked mutex")
		return
	}
	m.vc.Release()
	m.held = false
	m.wl.WakeAll()
	rt.Y(0)
}

// RWMutex prefers waiting writers over new readers.
type RWMutex struct {
	w       bool
	r       int
	pending int
	vc      rt.VC
	rvc     rt.VC
	wl      rt.WaitList
}

func (m *RWMutex) Lock() {
	rt.Y(0)
	m.pending++
	for m.w || m.r > 0 {
		if !m.wl.Wait("rwmutex") {
			return
		}
	}
	m.pending--
	if rt.Dying() && rt.Cur() != nil {
		return
	}
	m.w = true
	m.vc.Acquire()
	m.rvc.Acquire()
}

func (m *RWMutex) TryLock() bool {
	rt.Y(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.vc.Acquire()
	m.rvc.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	if !m.w {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	m.vc.Release()
	m.w = false
	m.wl.WakeAll()
	rt.Y(0)
}

func (m *RWMutex) RLock() {
	rt.Y(0)
	first := true
	for m.w || m.pending > 0 && first {
		if m.pending > 0 && !m.w && m.r == 0 {
			break
		}
		if !m.wl.Wait("rwmutex") {
			return
		}
	}
	if rt.Dying() && rt.Cur() != nil {
		return
	}
	m.r++
	m.vc.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	rt.Y(0)
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	m.vc.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	if m.r <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.rvc.Release()
	m.r--
	m.wl.WakeAll()
	rt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
	vc   rt.VC
}

func (o *Once) Do(f func()) {
	rt.Y(0)
	if o.done {
		o.vc.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.vc.Release()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n  int
	vc rt.VC
	wl rt.WaitList
}

func (w *WaitGroup) Add(d int) {
	rt.Y(0)
	if rt.Cur() != nil && rt.Dying() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.vc.Release()
	if w.n == 0 {
		w.wl.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Y(0)
	for w.n > 0 {
		if !w.wl.Wait("waitgroup") {
			return
		}
	}
	w.vc.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(0, func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L  Locker
	vc rt.VC
	wl rt.WaitList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	// register before unlocking, as sync.Cond does
	w := c.wl.Register()
	c.L.Unlock()
	c.wl.WaitRegistered(w, "cond")
	c.vc.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal() {
	rt.Y(0)
	c.vc.Release()
	c.wl.WakeOne()
}
func (c *Cond) Broadcast() {
	rt.Y(0)
	c.vc.Release()
	c.wl.WakeAll()
}

// Map is sync.Map.
type Map struct {
	m  map[any]any
	vc rt.VC
}

func (m *Map) enter() {
	rt.Y(0)
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.vc.Acquire()
	m.vc.Release()
}
func (m *Map) Load(k any) (any, bool) { m.enter(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.enter(); m.m[k] = v }
func (m *Map) Delete(k any)           { m.enter(); delete(m.m, k) }
func (m *Map) Clear()                 { m.enter(); clear(m.m) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	var ks []any
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		m.enter()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// Pool hands back what was put in, or makes anew, as the seed decides.
type Pool struct {
	New func() any
	q   []any
	vc  rt.VC
}

func (p *Pool) Get() any {
	rt.Y(0)
	p.vc.Acquire()
	if n := len(p.q); n > 0 {
		x := p.q[n-1]
		p.q = p.q[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	rt.Y(0)
	if x == nil {
		return
	}
	p.vc.Release()
	p.q = append(p.q, x)
}
