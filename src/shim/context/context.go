//go:build go1.21

// Package context: contexts on simulated channels and timers.
package context

import (
	"context"
	"errors"
	"fmt"
	"time"
	"unsafe"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *sim.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type empty struct{ name string }

func (empty) Deadline() (deadline time.Time, ok bool) { return }
func (empty) Done() *sim.Chan[struct{}]               { return nil }
func (empty) Err() error                              { return nil }
func (empty) Value(key any) any                       { return nil }
func (e empty) String() string                        { return "context." + e.name }

func Background() Context { return empty{"Background"} }
func TODO() Context       { return empty{"TODO"} }

type valueCtx struct {
	Context
	key, val any
}

func WithValue(parent Context, key, val any) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func (c *valueCtx) String() string { return fmt.Sprintf("%v.WithValue", c.Context) }

type noCancel struct{ Context }

func (noCancel) Deadline() (deadline time.Time, ok bool) { return }
func (noCancel) Done() *sim.Chan[struct{}]               { return nil }
func (noCancel) Err() error                              { return nil }
func (c noCancel) Value(key any) any {
	if key == &selfKey {
		return nil
	}
	return c.Context.Value(key)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

// asking for this key gives the innermost context that can be cancelled
var selfKey int

type cancelCtx struct {
	parent     Context
	done       *sim.Chan[struct{}]
	err, cause error
	kids       []*cancelCtx
	timer      *sim.Timer
	at         time.Time
	timed      bool
	f          func()
	sync       byte
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.at, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() *sim.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() error {
	sim.Y(0)
	if c.err != nil {
		sim.Acquire(unsafe.Pointer(&c.sync))
	}
	return c.err
}
func (c *cancelCtx) Value(key any) any {
	if key == &selfKey {
		return c
	}
	return c.parent.Value(key)
}
func (c *cancelCtx) String() string { return fmt.Sprintf("%v.WithCancel", c.parent) }

func (c *cancelCtx) cancel(err, cause error) {
	sim.Y(0)
	if c.err != nil || !sim.Live() {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	sim.Release(unsafe.Pointer(&c.sync))
	if c.timer != nil {
		c.timer.Stop()
	}
	if p, ok := c.parent.Value(&selfKey).(*cancelCtx); ok {
		for i, k := range p.kids {
			if k == c {
				l := make([]*cancelCtx, 0, len(p.kids))
				p.kids = append(append(l, p.kids[:i]...), p.kids[i+1:]...)
				break
			}
		}
	}
	kids := c.kids
	c.kids = nil
	c.done.Close()
	if c.f != nil {
		sim.Go("context.AfterFunc", c.f)
	}
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: (*sim.Chan[struct{}])(nil).Make(0)}
	return c
}

func (c *cancelCtx) attach() {
	d := c.parent.Done()
	if d == nil {
		return
	}
	if err := c.parent.Err(); err != nil {
		c.cancel(err, Cause(c.parent))
		return
	}
	if p, ok := c.parent.Value(&selfKey).(*cancelCtx); ok && p.done == d {
		p.kids = append(p.kids, c)
		return
	}
	sim.Go("context", func() {
		if sim.Select(false, d.RecvCase(), c.done.RecvCase()) == 0 {
			c.cancel(c.parent.Err(), Cause(c.parent))
		}
	})
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	c.attach()
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	c.attach()
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func Cause(c Context) error {
	if cc, ok := c.Value(&selfKey).(*cancelCtx); ok {
		sim.Acquire(unsafe.Pointer(&cc.sync))
		return cc.cause
	}
	return c.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		c.attach()
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.at, c.timed = d, true
	c.attach()
	if dur := d.Sub(time.Unix(0, sim.Now())); dur <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else if c.err == nil {
		c.timer = sim.After(int64(dur), func() {
			sim.GoTimer("context deadline", func() { c.cancel(DeadlineExceeded, cause) })
		})
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, sim.Now()).Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, sim.Now()).Add(d), cause)
}

var errStopped = errors.New("stopped")

func AfterFunc(parent Context, f func()) (stop func() bool) {
	c := newCancel(parent)
	c.f = f
	c.attach()
	return func() bool {
		if c.err != nil {
			return false
		}
		c.f = nil
		c.cancel(Canceled, errStopped)
		return true
	}
}
