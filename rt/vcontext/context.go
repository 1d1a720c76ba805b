// Package vcontext stands in for context: cancellation goes through the
// controlled scheduler, deadlines through its clock.
package vcontext

import (
	"context"
	"time"
	"unsafe"

	"github.com/browles/drip/zzv/rt/vs"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }

type cctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*cctx
	up       *cctx
	deadline time.Time
	hasDl    bool
	timer    vs.Timer
	tag      byte
	detached bool
	fn       func()
	fnRun    bool
	attached bool // to up
}

// live counts the contexts that a parent holds.
var live int

func init() { vs.OnReset(func() { live = 0 }) }

// Live is the number of contexts and functions that are held by another context.
func Live() int { return live }

func (c *cctx) attach() {
	c.up.children = append(c.up.children, c)
	c.attached = true
	live++
}

func (c *cctx) detach() {
	if !c.attached {
		return
	}
	c.attached = false
	live--
	for i, x := range c.up.children {
		if x == c {
			c.up.children = append(c.up.children[:i:i], c.up.children[i+1:]...)
			return
		}
	}
}

type ckey struct{}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	if c.detached {
		return time.Time{}, false
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} {
	if c.detached {
		return nil
	}
	return c.done
}
func (c *cctx) Err() error {
	if c.err != nil {
		vs.RaceAcquire(unsafe.Pointer(&c.tag))
	}
	return c.err
}
func (c *cctx) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return c
	}
	return c.parent.Value(k)
}
func (c *cctx) String() string { return "vcontext" }

func (c *cctx) Fire() { c.cancel(DeadlineExceeded, nil) }

// lock stands for what the lock of a context orders; nothing runs in between.
func (c *cctx) lock() {
	vs.RaceAcquire(unsafe.Pointer(&c.tag))
	vs.RaceReleaseMerge(unsafe.Pointer(&c.tag))
}

func (c *cctx) cancel(err, cause error) {
	c.lock()
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.timer.Disarm()
	if c.fn != nil {
		if !c.fnRun {
			c.fnRun = true
			vs.Spawn("context.AfterFunc", c.fn)
		}
	} else {
		vs.CloseQuiet(c.done)
	}
	ch := c.children
	c.children = nil
	for _, x := range ch {
		x.cancel(err, cause)
	}
	if c.up != nil {
		c.up.lock()
		c.detach()
	}
}

func newCtx(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ckey{}).(*cctx); ok && !p.detached {
		c.up = p
		p.lock()
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			c.attach()
		}
	}
	return c
}

func (c *cctx) cancelFn() { vs.Point("cancel"); c.cancel(Canceled, nil) }

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancelFn() }
}

func (c *cctx) cancelCauseFn(cause error) { vs.Point("cancel"); c.cancel(Canceled, cause) }

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancelCauseFn(cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancelFn() }
	}
	c.deadline, c.hasDl = d, true
	if c.err == nil {
		if !d.After(vs.Now()) {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.lock()
			c.timer.Fire = c
			c.timer.Arm(vs.NowNano() + int64(d.Sub(vs.Now())))
		}
	}
	return c, func() { c.cancelFn() }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vs.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vs.Now().Add(d), cause)
}

func WithoutCancel(parent Context) Context {
	return &cctx{parent: parent, detached: true}
}

func Cause(c Context) error {
	if p, ok := c.Value(ckey{}).(*cctx); ok && !p.detached {
		p.lock()
		if p.err != nil {
			return p.cause
		}
	}
	return c.Err()
}

func AfterFunc(parent Context, f func()) func() bool {
	c := &cctx{parent: parent, done: make(chan struct{}), fn: f}
	c.lock()
	if p, ok := parent.Value(ckey{}).(*cctx); ok && !p.detached {
		c.up = p
		p.lock()
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			c.attach()
		}
	}
	return func() bool { return c.stopFn() }
}

func (c *cctx) stopFn() bool {
	vs.Point("AfterFunc.stop")
	c.lock()
	if c.fnRun {
		return false
	}
	c.fnRun = true
	c.detach()
	return true
}
