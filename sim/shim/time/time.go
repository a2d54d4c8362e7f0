//go:build go1.25

// Package time replaces time in the instrumented daemon: the virtual clock.
package time

import (
	real "time"

	"github.com/gostor/gotgt/zsim/rt"
)

func Now() real.Time {
	if rt.S == nil {
		return rt.Epoch
	}
	rt.Y(0)
	return rt.Clock()
}
func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }
func Sleep(d real.Duration) {
	rt.Y(0)
	rt.Sleep(int64(d))
}

type Timer struct {
	C <-chan real.Time
	c chan real.Time
	t *rt.Timer
	f func()
	p *rt.Proc
}

func (t *Timer) arm(d real.Duration) {
	if rt.S == nil || rt.Dying() {
		return
	}
	p := rt.Cur().Proc
	t.t = rt.S.After(int64(d), func() {
		if p.Dead {
			return
		}
		if t.f != nil {
			rt.S.Spawn("timer", p, t.f)
			return
		}
		rt.ChPut(t.c, rt.Clock())
	})
}

func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	rt.Y(0)
	if t.c != nil {
		rt.ChDrain(t.c)
	}
	return t.t != nil && t.t.Stop()
}
func (t *Timer) Reset(d real.Duration) bool {
	a := t.Stop()
	t.arm(d)
	return a
}

type Ticker struct {
	C    <-chan real.Time
	c    chan real.Time
	t    *rt.Timer
	d    real.Duration
	stop bool
}

func (t *Ticker) arm() {
	if rt.S == nil || t.stop {
		return
	}
	t.t = rt.S.After(int64(t.d), func() {
		rt.ChPut(t.c, rt.Clock())
		t.arm()
	})
}
func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func Tick(d real.Duration) <-chan real.Time { return NewTicker(d).C }
func (t *Ticker) Stop() {
	t.stop = true
	if t.t != nil {
		t.t.Stop()
	}
}
func (t *Ticker) Reset(d real.Duration) {
	t.Stop()
	t.stop = false
	t.d = d
	t.arm()
}
