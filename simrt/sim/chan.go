package sim

import (
	"runtime"
	"unsafe"
)

// Channel operations work on real channels. Blocked tasks wait in a side table
// keyed by channel; a partner finds them there. Values in buffers and closed
// state live in the real channel, so code outside of the instrumented packages
// can use the same channels without blocking.

type chWaiter struct {
	t    *Task
	tok  *waitTok
	idx  int
	val  any // value to send / received value holder
	recv func(v any, ok bool)
	pan  bool
	vc   vclock
}

type chanQ struct {
	recvq, sendq []*chWaiter
	keep         any
	hb           HB
}

func (w *chWaiter) live() bool { return !w.t.dead && !w.t.done && !w.tok.fired }

func pop(q *[]*chWaiter) *chWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func chKey[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (s *Sim) q(key uintptr, keep any, create bool) *chanQ {
	q := s.chans[key]
	if q == nil && create {
		q = &chanQ{keep: keep}
		s.chans[key] = q
	}
	return q
}

// Case is one case of a select (or a single operation).
type Case interface {
	try() bool
	enqueue(t *Task, tok *waitTok, idx int)
	finish()
}

type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

type SendCase[T any] struct {
	ch  chan<- T
	val T
	w   *chWaiter
}

func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func CaseSend[T any](ch chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, val: v} }
}

func (c *RecvCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	key := chKey(c.ch)
	q := S.q(key, c.ch, false)
	select {
	case v, ok := <-c.ch:
		c.Val, c.Ok = v, ok
		if q != nil {
			q.hb.Acquire()
			if ok && cap(c.ch) > 0 {
				// room in the buffer: move one waiting sender in
				if w := pop(&q.sendq); w != nil {
					q.hb.c.join(w.vc)
					pushBuf(c.ch, w.val)
					setFired(w)
				}
			}
		}
		return true
	default:
	}
	if q != nil && cap(c.ch) == 0 {
		if w := pop(&q.sendq); w != nil {
			v, _ := w.val.(T)
			c.Val, c.Ok = v, true
			if t := cur; t != nil {
				t.vc.join(w.vc)
			}
			setFired(w)
			return true
		}
	}
	return false
}

func pushBuf[T any](ch <-chan T, v any) {
	bi := *(*chan T)(unsafe.Pointer(&ch))
	x, _ := v.(T)
	select {
	case bi <- x:
	default:
		panic("sim: no room in channel buffer")
	}
}

func setFired(w *chWaiter) {
	w.tok.fired = true
	w.t.fired = w.idx
	w.t.firedPanic = w.pan
	S.makeReady(w.t)
}

func (c *RecvCase[T]) enqueue(t *Task, tok *waitTok, idx int) {
	if c.ch == nil {
		return
	}
	q := S.q(chKey(c.ch), c.ch, true)
	q.recvq = append(q.recvq, &chWaiter{t: t, tok: tok, idx: idx, recv: func(v any, ok bool) {
		x, _ := v.(T)
		c.Val, c.Ok = x, ok
	}})
}

func (c *RecvCase[T]) finish() {}

func (c *SendCase[T]) try() bool {
	if c.ch == nil {
		return false
	}
	q := S.q(chKey(c.ch), c.ch, true)
	// a parked receiver implies an empty buffer and an open channel
	if w := pop(&q.recvq); w != nil {
		w.recv(c.val, true)
		if t := cur; t != nil {
			w.t.vc.join(t.vc)
			t.vc.tick(t.id)
		}
		setFired(w)
		return true
	}
	select {
	case c.ch <- c.val: // panics if closed
		q.hb.Release()
		return true
	default:
	}
	return false
}

func (c *SendCase[T]) enqueue(t *Task, tok *waitTok, idx int) {
	if c.ch == nil {
		return
	}
	q := S.q(chKey(c.ch), c.ch, true)
	w := &chWaiter{t: t, tok: tok, idx: idx, val: c.val, vc: t.vc.clone()}
	c.w = w
	q.sendq = append(q.sendq, w)
}

func (c *SendCase[T]) finish() {}

// Select performs one of the cases; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	t := cur
	if t == nil {
		return selectOutside(hasDefault, cases)
	}
	if t.dead {
		runtime.Goexit()
	}
	SyncPoint()
	n := len(cases)
	if n > 0 {
		off := 0
		if n > 1 {
			off = S.stream("select").Choose(n)
		}
		for k := 0; k < n; k++ {
			i := (off + k) % n
			if cases[i].try() {
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	tok := &waitTok{}
	for i, c := range cases {
		c.enqueue(t, tok, i)
	}
	S.park(t, "chan")
	S.pruneDead(cases)
	if t.firedPanic {
		t.firedPanic = false
		panic("send on closed channel")
	}
	return t.fired
}

func (s *Sim) pruneDead(cases []Case) {
	for _, c := range cases {
		if p, ok := c.(interface{ prune() }); ok {
			p.prune()
		}
	}
}

func pruneQ(key uintptr) {
	q := S.chans[key]
	if q == nil {
		return
	}
	f := func(l []*chWaiter) []*chWaiter {
		o := l[:0]
		for _, w := range l {
			if w.live() {
				o = append(o, w)
			}
		}
		for i := len(o); i < len(l); i++ {
			l[i] = nil
		}
		return o
	}
	q.recvq = f(q.recvq)
	q.sendq = f(q.sendq)
}

func (c *RecvCase[T]) prune() { pruneQ(chKey(c.ch)) }
func (c *SendCase[T]) prune() { pruneQ(chKey(c.ch)) }

// selectOutside is used for package initialisation code outside of a run.
func selectOutside(hasDefault bool, cases []Case) int {
	if hasDefault {
		return -1
	}
	panic("sim: blocking channel operation outside of a simulation")
}

// SendTo is ch <- v.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if cur == nil {
			ch <- v
			return
		}
		if cur.dead {
			runtime.Goexit()
		}
		Select(false, &SendCase[T]{ch: ch, val: v})
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	if cur == nil {
		return <-ch
	}
	c := &RecvCase[T]{ch: ch}
	Select(false, c)
	return c.Val
}

// Recv2 is v, ok = <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := &RecvCase[T]{ch: ch}
	Select(false, c)
	return c.Val, c.Ok
}

// RangeChan iterates over a channel.
func RangeChan[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if cur == nil {
		close(ch)
		return
	}
	if cur.dead {
		return
	}
	SyncPoint()
	CloseNow(ch)
}

// CloseNow closes without yielding (usable from timer callbacks).
func CloseNow[T any](ch chan<- T) {
	close(ch)
	q := S.q(chKey(ch), ch, true)
	q.hb.Release()
	for {
		w := pop(&q.recvq)
		if w == nil {
			break
		}
		w.recv(nil, false)
		if cur != nil {
			w.t.vc.join(q.hb.c)
		}
		setFired(w)
	}
	for {
		w := pop(&q.sendq)
		if w == nil {
			break
		}
		w.pan = true
		setFired(w)
	}
}

// TrySendNow sends without blocking or yielding (usable from timer callbacks).
func TrySendNow[T any](ch chan<- T, v T) bool {
	c := &SendCase[T]{ch: ch, val: v}
	return c.try()
}

// Block blocks forever.
func Block() {
	Select(false)
}
