// Package xsignal replaces package os/signal in simulation builds.
package xsignal

import (
	"context"
	"os"

	"verif.local/simrt/sim"
	"verif.local/simrt/xcontext"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func regs(p *sim.Proc) *[]reg {
	r, _ := p.Values["signals"].(*[]reg)
	if r == nil {
		r = &[]reg{}
		p.Values["signals"] = r
	}
	return r
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	p := sim.CurProc()
	if p == nil || sim.Dying() {
		return
	}
	sim.SyncPoint()
	r := regs(p)
	*r = append(*r, reg{c, sig})
}

func Stop(c chan<- os.Signal) {
	p := sim.CurProc()
	if p == nil || sim.Dying() {
		return
	}
	sim.SyncPoint()
	r := regs(p)
	var out []reg
	for _, x := range *r {
		if x.c != c {
			out = append(out, x)
		}
	}
	*r = out
}

func Reset(sig ...os.Signal)  {}
func Ignore(sig ...os.Signal) {}
func Ignored(os.Signal) bool  { return false }

func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := xcontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	sim.Go(func() {
		a, b := sim.CaseRecv((<-chan os.Signal)(ch)), sim.CaseRecv(ctx.Done())
		if sim.Select(false, a, b) == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(ch) }
}

// Deliver sends a signal to a process; false if nobody is registered for it.
func Deliver(p *sim.Proc, sig os.Signal) bool {
	if p.Dead {
		return false
	}
	got := false
	for _, x := range *regs(p) {
		want := len(x.sigs) == 0
		for _, s := range x.sigs {
			if s == sig {
				want = true
			}
		}
		if want {
			got = true
			sim.TrySendNow(x.c, sig)
		}
	}
	sim.Logf("signal %v handled=%v", sig, got)
	return got
}
