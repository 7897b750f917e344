// Package xcontext replaces package context in simulation builds.
package xcontext

import (
	"context"
	"time"

	"verif.local/simrt/sim"
)

type Context = context.Context
type CancelFunc = context.CancelFunc
type CancelCauseFunc = context.CancelCauseFunc

type simCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*simCtx
	timer    *sim.Timer
	after    []func()
	noParent bool
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	if c.noParent {
		return time.Time{}, false
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} {
	if c.noParent && c.done == nil {
		return nil
	}
	return c.done
}
func (c *simCtx) Err() error { sim.SyncPoint(); return c.err }
func (c *simCtx) Value(k any) any {
	if k == &selfKey {
		return c
	}
	return c.parent.Value(k)
}

var selfKey int

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	sim.CloseNow(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	c.kids = nil
	for _, f := range c.after {
		sim.Go(f)
	}
	c.after = nil
}

func newCtx(parent Context) *simCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&selfKey).(*simCtx); ok && !p.noParent {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if d := parent.Done(); d != nil && !ok {
		sim.Go(func() {
			a, b := sim.CaseRecv(d), sim.CaseRecv((<-chan struct{})(c.done))
			if sim.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if !sim.Active() || sim.Dying() {
			return
		}
		sim.SyncPoint()
		c.cancel(context.Canceled, nil)
		sim.SyncPoint()
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if !sim.Active() || sim.Dying() {
			return
		}
		sim.SyncPoint()
		c.cancel(context.Canceled, cause)
		sim.SyncPoint()
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.deadline, c.hasDL = d, true
		p := sim.CurProc()
		c.timer = sim.AddTimer(d.Sub(sim.Now()), func() {
			if p == nil || !p.Dead {
				c.cancel(context.DeadlineExceeded, cause)
			}
		})
	}
	return c, func() {
		if !sim.Active() || sim.Dying() {
			return
		}
		sim.SyncPoint()
		c.cancel(context.Canceled, nil)
		sim.SyncPoint()
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, sim.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, sim.Now().Add(d), cause)
}

func WithoutCancel(parent Context) Context {
	return &simCtx{parent: parent, noParent: true}
}

func Cause(c Context) error {
	if p, ok := c.Value(&selfKey).(*simCtx); ok {
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	ran := false
	g := func() { ran = true; f() }
	if c.err != nil {
		sim.Go(g)
	} else {
		c.after = append(c.after, g)
	}
	return func() bool {
		if ran || len(c.after) == 0 {
			return false
		}
		c.after = nil
		return true
	}
}
