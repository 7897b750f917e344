// Package xtime replaces package time in simulation builds: the clock is the
// virtual clock of the simulator.
package xtime

import (
	"time"

	"verif.local/simrt/sim"
)

func Now() time.Time                  { return sim.Now() }
func Since(t time.Time) time.Duration { return sim.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(sim.Now()) }
func Sleep(d time.Duration)           { sim.Sleep(d) }

type Timer struct {
	C  <-chan time.Time
	ch chan time.Time
	t  *sim.Timer
	f  func()
}

func (t *Timer) arm(d time.Duration) {
	if sim.Dying() {
		return
	}
	p, name := sim.CurProc(), sim.CurName()
	t.t = sim.AddTimer(d, func() {
		if p != nil && p.Dead {
			return
		}
		if t.f != nil {
			sim.GoIn(name+"@", p, t.f)
			return
		}
		sim.TrySendNow(t.ch, sim.Now())
	})
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) drain() {
	if t.ch != nil {
		select {
		case <-t.ch:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	sim.SyncPoint()
	ok := t.t.Stop()
	t.drain()
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	sim.SyncPoint()
	ok := t.t.Stop()
	t.drain()
	t.arm(d)
	return ok
}

type Ticker struct {
	C  <-chan time.Time
	ch chan time.Time
	t  *sim.Timer
	d  time.Duration
	on bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	p := sim.CurProc()
	t.on = true
	var fire func()
	fire = func() {
		if !t.on || (p != nil && p.Dead) {
			return
		}
		sim.TrySendNow(t.ch, sim.Now())
		t.t = sim.AddTimer(t.d, fire)
	}
	t.t = sim.AddTimer(t.d, fire)
}

func (t *Ticker) Stop() {
	t.on = false
	t.t.Stop()
}

func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
