//go:build go1.25

// Package context replaces the cancellable part of context in the
// instrumented daemon.
package context

import (
	real "context"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
)

type cctx struct {
	real.Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*cctx
	deadline time.Time
	has      bool
	tm       *rt.Timer
}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	if c.tm != nil {
		c.tm.Stop()
	}
	rt.Close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func find(p real.Context) *cctx {
	if c, ok := p.(*cctx); ok {
		return c
	}
	return nil
}

func newCtx(p real.Context) *cctx {
	c := &cctx{Context: p, done: make(chan struct{})}
	if q := find(p); q != nil {
		q.kids = append(q.kids, c)
		if q.err != nil {
			c.cancel(q.err)
		}
	}
	return c
}

func WithCancel(p real.Context) (real.Context, real.CancelFunc) {
	c := newCtx(p)
	return c, func() { rt.Y(0); c.cancel(real.Canceled) }
}
func WithDeadline(p real.Context, d time.Time) (real.Context, real.CancelFunc) {
	return WithTimeout(p, d.Sub(rt.Clock()))
}
func WithTimeout(p real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	c := newCtx(p)
	c.has, c.deadline = true, rt.Clock().Add(d)
	pr := rt.Cur().Proc
	c.tm = rt.S.After(int64(d), func() { rt.S.Spawn("ctx", pr, func() { c.cancel(real.DeadlineExceeded) }) })
	return c, func() { rt.Y(0); c.cancel(real.Canceled) }
}
