package sim

import (
	"unsafe"
)

// Chan replaces Go channels in instrumented code.
type Chan[T any] struct{ c chanCore }

type chanCore struct {
	slots      []slot
	cap        int
	n, r       int
	closed     bool
	recvq      waiters
	sendq      waiters
	closeSync  byte
	made       bool
	lastDaemon bool
}

type slot struct {
	v    any
	sync byte
}

type waiter struct {
	t    *Task
	sel  *selState
	idx  int
	val  any // for sends
	next *waiter
}

type selState struct {
	fired      bool
	closed     bool
	idx        int
	val        any
	ok         bool
	syncA      byte // active -> parked
	syncB      byte // parked -> active
	fromClosed bool
}

type waiters struct{ h, t *waiter }

func (q *waiters) add(w *waiter) {
	if q.t == nil {
		q.h = w
	} else {
		q.t.next = w
	}
	q.t = w
}

func (q *waiters) pop() *waiter {
	for q.h != nil {
		w := q.h
		q.h = w.next
		if q.h == nil {
			q.t = nil
		}
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (q *waiters) live(self *selState) bool {
	for w := q.h; w != nil; w = w.next {
		if !w.sel.fired && w.sel != self {
			return true
		}
	}
	return false
}

func (c *chanCore) init(n int) {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c.cap = n
	c.slots = make([]slot, n)
	c.made = true
}

func (c *chanCore) canSend() bool { return c.closed || c.n < c.cap || c.recvq.live(nil) }
func (c *chanCore) canRecv() bool { return c.closed || c.n > 0 || c.sendq.live(nil) }

func fire(w *waiter, val any, ok bool) {
	s := w.sel
	s.fired = true
	s.idx = w.idx
	s.val = val
	s.ok = ok
	W.ready(w.t)
}

func (c *chanCore) trySend(v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.recvq.pop(); w != nil {
		Acquire(unsafe.Pointer(&w.sel.syncB))
		ReleaseMerge(unsafe.Pointer(&w.sel.syncA))
		fire(w, v, true)
		return true
	}
	if c.n < c.cap {
		s := &c.slots[(c.r+c.n)%c.cap]
		Acquire(unsafe.Pointer(&s.sync))
		Release(unsafe.Pointer(&s.sync))
		s.v = v
		c.n++
		return true
	}
	return false
}

func (c *chanCore) tryRecv() (v any, ok, done bool) {
	if c.n > 0 {
		s := &c.slots[c.r]
		Acquire(unsafe.Pointer(&s.sync))
		Release(unsafe.Pointer(&s.sync))
		v = s.v
		s.v = nil
		c.r = (c.r + 1) % c.cap
		c.n--
		if w := c.sendq.pop(); w != nil {
			ns := &c.slots[(c.r+c.n)%c.cap]
			Acquire(unsafe.Pointer(&w.sel.syncB))
			Release(unsafe.Pointer(&ns.sync))
			ReleaseMerge(unsafe.Pointer(&w.sel.syncA))
			ns.v = w.val
			c.n++
			fire(w, nil, true)
		}
		return v, true, true
	}
	if w := c.sendq.pop(); w != nil {
		Acquire(unsafe.Pointer(&w.sel.syncB))
		ReleaseMerge(unsafe.Pointer(&w.sel.syncA))
		v = w.val
		fire(w, nil, true)
		return v, true, true
	}
	if c.closed {
		Acquire(unsafe.Pointer(&c.closeSync))
		return nil, false, true
	}
	return nil, false, false
}

func chk(op string) bool {
	w := W
	if w == nil || w.cur == nil {
		return true
	}
	if w.cur.killed {
		w.killOp(w.cur)
		return false
	}
	return true
}

func blockForever(why string) {
	if !InSim() {
		panic("sim: " + why + " outside a simulation")
	}
	for Live() {
		W.block(why)
	}
}

func (c *chanCore) send(v any) {
	if !chk("send") {
		return
	}
	Y(0)
	if c == nil {
		blockForever("send on nil channel")
		return
	}
	if c.trySend(v) {
		return
	}
	if !InSim() {
		panic("sim: send would block outside a simulation")
	}
	s := &selState{}
	Release(unsafe.Pointer(&s.syncB))
	c.sendq.add(&waiter{t: W.cur, sel: s, val: v})
	W.block("chan send")
	if !Live() {
		return
	}
	Acquire(unsafe.Pointer(&s.syncA))
	if s.closed {
		panic("send on closed channel")
	}
}

func (c *chanCore) recv() (any, bool) {
	if !chk("recv") {
		return nil, false
	}
	Y(0)
	if c == nil {
		blockForever("receive from nil channel")
		return nil, false
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	if !InSim() {
		panic("sim: receive would block outside a simulation")
	}
	s := &selState{}
	Release(unsafe.Pointer(&s.syncB))
	c.recvq.add(&waiter{t: W.cur, sel: s})
	W.block("chan receive")
	if !Live() {
		return nil, false
	}
	Acquire(unsafe.Pointer(&s.syncA))
	if s.closed {
		Acquire(unsafe.Pointer(&c.closeSync))
		return nil, false
	}
	return s.val, s.ok
}

func (c *chanCore) close() {
	if !chk("close") {
		return
	}
	Y(0)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	Release(unsafe.Pointer(&c.closeSync))
	for w := c.recvq.pop(); w != nil; w = c.recvq.pop() {
		w.sel.closed = true
		ReleaseMerge(unsafe.Pointer(&w.sel.syncA))
		fire(w, nil, false)
	}
	for w := c.sendq.pop(); w != nil; w = c.sendq.pop() {
		w.sel.closed = true
		ReleaseMerge(unsafe.Pointer(&w.sel.syncA))
		fire(w, nil, false)
	}
}

// Case of a select.
type Case interface {
	zzcase() (c *chanCore, send bool, val any)
	zzset(v any, ok bool)
}

// Select performs a select; the result is the index of the chosen case, -1 for default.
func Select(hasDef bool, cases ...Case) int {
	if !chk("select") {
		return -1
	}
	Y(0)
	var ready [64]int
	nr := 0
	for i, k := range cases {
		c, send, _ := k.zzcase()
		if c == nil {
			continue
		}
		if (send && c.canSend()) || (!send && c.canRecv()) {
			ready[nr] = i
			nr++
		}
	}
	if nr > 0 {
		k := 0
		if nr > 1 {
			k = R.Choose(SS, nr)
		}
		i := ready[k]
		c, send, val := cases[i].zzcase()
		if send {
			c.trySend(val)
		} else {
			v, ok, _ := c.tryRecv()
			cases[i].zzset(v, ok)
		}
		return i
	}
	if hasDef {
		return -1
	}
	if !InSim() {
		panic("sim: select would block outside a simulation")
	}
	s := &selState{}
	Release(unsafe.Pointer(&s.syncB))
	any := false
	for i, k := range cases {
		c, send, val := k.zzcase()
		if c == nil {
			continue
		}
		any = true
		w := &waiter{t: W.cur, sel: s, idx: i, val: val}
		if send {
			c.sendq.add(w)
		} else {
			c.recvq.add(w)
		}
	}
	if !any {
		blockForever("select with no cases")
		return -1
	}
	W.block("select")
	if !Live() {
		return -1
	}
	Acquire(unsafe.Pointer(&s.syncA))
	c, send, _ := cases[s.idx].zzcase()
	if s.closed {
		if send {
			panic("send on closed channel")
		}
		Acquire(unsafe.Pointer(&c.closeSync))
	}
	if !send {
		cases[s.idx].zzset(s.val, s.ok)
	}
	return s.idx
}

//go:norace
func (c *Chan[T]) core() *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

//go:norace
func (c *Chan[T]) Make(n int) *Chan[T] {
	r := &Chan[T]{}
	r.c.init(n)
	return r
}

//go:norace
func (c *Chan[T]) Send(v T) { c.core().send(any(v)) }

//go:norace
func (c *Chan[T]) Recv() T {
	x, _ := c.core().recv()
	v, _ := x.(T)
	return v
}

//go:norace
func (c *Chan[T]) Recv2() (T, bool) {
	x, ok := c.core().recv()
	v, _ := x.(T)
	return v, ok
}

//go:norace
func (c *Chan[T]) Close() { c.core().close() }

//go:norace
func (c *Chan[T]) Len() int { return c.core().len() }

//go:norace
func (c *Chan[T]) Cap() int { return c.core().capacity() }

func (c *chanCore) len() int {
	if c == nil {
		return 0
	}
	Y(0)
	return c.n
}

func (c *chanCore) capacity() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// RecvNow receives without blocking (harness use; no happens-before beyond the channel's own).
func (c *Chan[T]) RecvNow() (v T, ok, done bool) {
	x, ok, done := c.c.tryRecv()
	v, _ = x.(T)
	return v, ok, done
}

// TrySendNow is used by timers: it never blocks.
func (c *Chan[T]) TrySendNow(v T) bool {
	if c.c.closed {
		return false
	}
	return c.c.trySend(any(v))
}

type ChanIter[T any] struct{ c *Chan[T] }

//go:norace
func (c *Chan[T]) Iter() (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{c}, z
}

//go:norace
func (i *ChanIter[T]) Next(p *T) bool {
	v, ok := i.c.Recv2()
	if ok && p != nil {
		*p = v
	}
	return ok
}

type RCase[T any] struct {
	c  *Chan[T]
	v  any
	ok bool
}

//go:norace
func (c *Chan[T]) RecvCase() *RCase[T] { return &RCase[T]{c: c} }

//go:norace
func (r *RCase[T]) zzcase() (*chanCore, bool, any) { return r.c.core(), false, nil }

//go:norace
func (r *RCase[T]) zzset(v any, ok bool) { r.v, r.ok = v, ok }

//go:norace
func (r *RCase[T]) Get() T { v, _ := r.v.(T); return v }

//go:norace
func (r *RCase[T]) Get2() (T, bool) { v, _ := r.v.(T); return v, r.ok }

type SCase[T any] struct {
	c *Chan[T]
	v any
}

//go:norace
func (c *Chan[T]) SendCase(v T) *SCase[T] { return &SCase[T]{c, any(v)} }

//go:norace
func (s *SCase[T]) zzcase() (*chanCore, bool, any) { return s.c.core(), true, s.v }

//go:norace
func (s *SCase[T]) zzset(v any, ok bool) {}
