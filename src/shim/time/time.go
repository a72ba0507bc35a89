// Package time: simulated clock and timers.
package time

import (
	"strconv"
	"time"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

// Now is the simulated clock, in the time zone of the environment.
func Now() time.Time {
	sim.Y(0)
	t := time.Unix(0, sim.Now())
	if z := sim.EnvNum("zone", 0, 27); z != 0 {
		t = t.In(time.FixedZone("Z"+strconv.Itoa(z), (z-13)*3600))
	}
	return t
}

func Since(t time.Time) time.Duration            { return Now().Sub(t) }
func Until(t time.Time) time.Duration            { return t.Sub(Now()) }
func Sleep(d time.Duration)                      { sim.Sleep(int64(d)) }
func After(d time.Duration) *sim.Chan[time.Time] { return NewTimer(d).C }

type Timer struct {
	C *sim.Chan[time.Time]
	t *sim.Timer
	f func()
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: (*sim.Chan[time.Time])(nil).Make(1)}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	if t.f != nil {
		f := t.f
		t.t = sim.After(int64(d), func() { sim.GoTimer("AfterFunc", f) })
		return
	}
	t.t = sim.After(int64(d), func() { t.C.TrySendNow(time.Unix(0, sim.Now())) })
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { sim.Y(0); return t.t.Stop() }

func (t *Timer) Reset(d time.Duration) bool {
	r := t.t.Stop()
	if t.C != nil {
		t.C.RecvNow()
	}
	t.arm(d)
	return r
}

type Ticker struct {
	C *sim.Chan[time.Time]
	d time.Duration
	t *sim.Timer
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: (*sim.Chan[time.Time])(nil).Make(1), d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = sim.After(int64(t.d), func() {
		t.C.TrySendNow(time.Unix(0, sim.Now()))
		t.arm()
	})
}

func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.d = d; t.arm() }

func Tick(d time.Duration) *sim.Chan[time.Time] { return NewTicker(d).C }
