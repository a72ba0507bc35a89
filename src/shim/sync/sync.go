//go:build go1.21

// Package sync: the sync package on top of the simulator.
package sync

import (
	"unsafe"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      sim.WaitQ
	sync   byte
}

func fatal(s string) { panic("fatal error: " + s) }

func (m *Mutex) Lock() {
	sim.Y(0)
	if m == nil {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	if !sim.Live() && sim.InSim() {
		return
	}
	for m.locked {
		if !m.q.Wait("mutex lock") {
			return
		}
	}
	m.locked = true
	sim.Acquire(unsafe.Pointer(&m.sync))
}

func (m *Mutex) TryLock() bool {
	sim.Y(0)
	if m.locked {
		return false
	}
	m.locked = true
	sim.Acquire(unsafe.Pointer(&m.sync))
	return true
}

func (m *Mutex) Unlock() {
	if !sim.Live() && sim.InSim() {
		return
	}
	sim.Y(0)
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	sim.Release(unsafe.Pointer(&m.sync))
	m.locked = false
	m.q.WakeAll()
}

type RWMutex struct {
	w       bool
	r       int
	wwait   int
	q       sim.WaitQ
	rs, ws  byte
	pending bool
}

func (m *RWMutex) RLock() {
	sim.Y(0)
	if !sim.Live() && sim.InSim() {
		return
	}
	for m.w || m.wwait > 0 {
		if !m.q.Wait("rwmutex rlock") {
			return
		}
	}
	m.r++
	sim.Acquire(unsafe.Pointer(&m.rs))
}

func (m *RWMutex) TryRLock() bool {
	sim.Y(0)
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	sim.Acquire(unsafe.Pointer(&m.rs))
	return true
}

func (m *RWMutex) RUnlock() {
	if !sim.Live() && sim.InSim() {
		return
	}
	sim.Y(0)
	if m.r <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	sim.ReleaseMerge(unsafe.Pointer(&m.ws))
	m.r--
	m.q.WakeAll()
}

func (m *RWMutex) Lock() {
	sim.Y(0)
	if !sim.Live() && sim.InSim() {
		return
	}
	if m.w || m.r > 0 {
		m.wwait++
		for m.w || m.r > 0 {
			if !m.q.Wait("rwmutex lock") {
				return
			}
		}
		m.wwait--
	}
	m.w = true
	sim.Acquire(unsafe.Pointer(&m.rs))
	sim.Acquire(unsafe.Pointer(&m.ws))
}

func (m *RWMutex) TryLock() bool {
	sim.Y(0)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	sim.Acquire(unsafe.Pointer(&m.rs))
	sim.Acquire(unsafe.Pointer(&m.ws))
	return true
}

func (m *RWMutex) Unlock() {
	if !sim.Live() && sim.InSim() {
		return
	}
	sim.Y(0)
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	sim.Release(unsafe.Pointer(&m.rs))
	m.w = false
	m.q.WakeAll()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n     int
	wait  int
	gen   int
	q     sim.WaitQ
	sync  byte
	sema  byte
	reuse int
}

func (g *WaitGroup) Add(d int) {
	if !sim.Live() && sim.InSim() {
		return
	}
	sim.Y(0)
	if d < 0 {
		sim.ReleaseMerge(unsafe.Pointer(&g.sync))
	}
	g.n += d
	if d > 0 && g.n == d {
		sim.RaceRead(unsafe.Pointer(&g.sema))
	}
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 && g.wait > 0 {
		g.wait = 0
		g.gen++
		g.q.WakeAll()
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	sim.Y(0)
	if !sim.Live() && sim.InSim() {
		return
	}
	if g.n == 0 {
		sim.Acquire(unsafe.Pointer(&g.sync))
		return
	}
	if g.wait == 0 {
		sim.RaceWrite(unsafe.Pointer(&g.sema))
	}
	g.wait++
	gen := g.gen
	for g.gen == gen {
		if !g.q.Wait("waitgroup wait") {
			return
		}
	}
	if g.n != 0 || g.wait != 0 {
		panic("sync: WaitGroup is reused before previous Wait has returned")
	}
	sim.Acquire(unsafe.Pointer(&g.sync))
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sim.Y(0)
	if o.done {
		sim.Acquire(unsafe.Pointer(&o.m.sync))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; sim.Release(unsafe.Pointer(&o.m.sync)) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var ok bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	o := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { o(); return a, b }
}

type Cond struct {
	L Locker
	q sim.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	// no yield between the unlock's wake-ups and the enqueue: as in the real
	// implementation the waiter's ticket is taken before unlocking
	c.q.Wait("cond wait")
	c.L.Lock()
}

func (c *Cond) Signal()    { sim.Y(0); c.q.WakeOne() }
func (c *Cond) Broadcast() { sim.Y(0); c.q.WakeAll() }

// Pool may drop or hand over any item at any time; the simulator decides.
type Pool struct {
	New   func() any
	items sim.List[any]
	n     int
	sync  byte
	run   *sim.Run
}

func (p *Pool) fresh() {
	if p.run != sim.R { // a new run starts with an empty pool
		p.run = sim.R
		p.items = sim.List[any]{}
		p.n = 0
	}
}

func (p *Pool) Get() any {
	sim.Y(0)
	p.fresh()
	if p.n > 0 && sim.R != nil && !(sim.InSim() && sim.R.Chance(sim.SS, 1, 8)) {
		p.n--
		x := *p.items.Ptr(p.n)
		*p.items.Ptr(p.n) = nil
		sim.Acquire(unsafe.Pointer(&p.sync))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sim.Y(0)
	p.fresh()
	sim.ReleaseMerge(unsafe.Pointer(&p.sync))
	if p.n < p.items.Len() {
		*p.items.Ptr(p.n) = x
	} else {
		p.items.Add(x)
	}
	p.n++
}

type mapEnt struct {
	k, v any
	live bool
}

// Map keeps its entries in a list.
type Map struct {
	e    sim.List[mapEnt]
	sync byte
}

func (m *Map) find(k any) *mapEnt {
	for i := 0; i < m.e.Len(); i++ {
		if p := m.e.Ptr(i); p.live && p.k == k {
			return p
		}
	}
	return nil
}

func (m *Map) op() {
	sim.Y(0)
	sim.Acquire(unsafe.Pointer(&m.sync))
}

func (m *Map) rel() { sim.ReleaseMerge(unsafe.Pointer(&m.sync)) }

func (m *Map) Load(k any) (any, bool) {
	m.op()
	if p := m.find(k); p != nil {
		return p.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	defer m.rel()
	if p := m.find(k); p != nil {
		o := p.v
		p.v = v
		return o, true
	}
	m.e.Add(mapEnt{k, v, true})
	return nil, false
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	defer m.rel()
	if p := m.find(k); p != nil {
		return p.v, true
	}
	m.e.Add(mapEnt{k, v, true})
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	defer m.rel()
	if p := m.find(k); p != nil {
		p.live = false
		return p.v, true
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	defer m.rel()
	if p := m.find(k); p != nil && p.v == o {
		p.v = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	defer m.rel()
	if p := m.find(k); p != nil && p.v == o {
		p.live = false
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	n := m.e.Len()
	for i := 0; i < n && i < m.e.Len(); i++ {
		if p := m.e.Ptr(i); p.live {
			if !f(p.k, p.v) {
				return
			}
		}
	}
}

func (m *Map) Clear() {
	m.op()
	m.e = sim.List[mapEnt]{}
	m.rel()
}
