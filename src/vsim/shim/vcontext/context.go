// Package vcontext replaces the cancellable contexts of package context under simulation.
package vcontext

import (
	"context"
	"fmt"
	"time"

	"vsim/rt"
	"vsim/shim/vtime"
)

type keyType int

var cancelKey keyType

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	doneSet  bool
	err      error
	cause    error
	children []child
	rec      *rt.CtxRec
	deadline time.Time
	hasDL    bool
	timer    *rt.Timer
	clk      rt.VC
	kind     string
}

type child interface {
	cancel(err, cause error, vc rt.VC)
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	rt.Preempt("ctx.err")
	if c.err != nil {
		rt.Acquire(c.clk)
	}
	return c.err
}

func (c *cancelCtx) Value(key any) any {
	if key == &cancelKey {
		return c
	}
	return c.parent.Value(key)
}

func (c *cancelCtx) String() string { return fmt.Sprintf("%v.%s", c.parent, c.kind) }

func (c *cancelCtx) cancel(err, cause error, vc rt.VC) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.clk = vc
	c.rec.Cancelled = true
	if c.timer != nil {
		rt.StopTimer(c.timer)
		c.timer = nil
	}
	rt.CloseDone(c.done, vc)
	cs := c.children
	c.children = nil
	for _, x := range cs {
		x.cancel(err, cause, vc)
	}
}

func (c *cancelCtx) remove(x child) {
	for i, y := range c.children {
		if y == x {
			c.children = append(c.children[:i:i], c.children[i+1:]...)
			return
		}
	}
}

func attach(parent context.Context, x child) (detach func()) {
	d := parent.Done()
	if d == nil {
		return func() {}
	}
	if p, ok := parent.Value(&cancelKey).(*cancelCtx); ok && (<-chan struct{})(p.done) == d {
		if p.err != nil {
			rt.Acquire(p.clk)
			x.cancel(p.err, p.cause, rt.CurVC())
			return func() {}
		}
		p.children = append(p.children, x)
		return func() { p.remove(x) }
	}
	stop := make(chan struct{})
	rt.Go(func() {
		if s := rt.Select(false, rt.RecvCase(d), rt.RecvCase(stop)); s.I == 0 {
			x.cancel(parent.Err(), context.Cause(parent), rt.CurVC())
		}
	})
	return func() {
		if !rt.IsClosed(stop) {
			rt.CloseDone(stop, rt.CurVC())
		}
	}
}

func newCancel(parent context.Context, kind string) (*cancelCtx, func(err, cause error)) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	rt.Preempt("newctx")
	c := &cancelCtx{parent: parent, done: make(chan struct{}), rec: rt.TrackCtx(kind), kind: kind}
	detach := attach(parent, c)
	return c, func(err, cause error) {
		rt.Preempt("ctx.cancel")
		if c.err != nil {
			return
		}
		detach()
		c.cancel(err, cause, rt.CurVC())
	}
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c, cancel := newCancel(parent, "WithCancel")
	return c, func() { cancel(context.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c, cancel := newCancel(parent, "WithCancelCause")
	return c, func(cause error) { cancel(context.Canceled, cause) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c, cancel := newCancel(parent, "WithDeadline")
	c.deadline, c.hasDL = d, true
	dur := vtime.Until(d)
	if dur <= 0 {
		cancel(context.DeadlineExceeded, cause)
		return c, func() { cancel(context.Canceled, nil) }
	}
	if c.err == nil {
		vc := rt.CurVC()
		c.timer = rt.NewTimer("ctxtimer", int64(dur), 0, func() {
			c.timer = nil
			if p, ok := c.parent.Value(&cancelKey).(*cancelCtx); ok {
				p.remove(c)
			}
			c.cancel(context.DeadlineExceeded, cause, vc)
		})
	}
	return c, func() { cancel(context.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(&cancelKey).(*cancelCtx); ok {
		rt.Preempt("ctx.cause")
		return p.cause
	}
	return c.Err()
}

type afterFunc struct {
	f    func()
	tag  any
	harn bool
	run  bool
	rec  *rt.CtxRec
}

func (a *afterFunc) cancel(err, cause error, vc rt.VC) {
	if a.run {
		return
	}
	a.run = true
	a.rec.Cancelled = true
	rt.GoFrom(vc, a.tag, a.harn, a.f)
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	rt.Preempt("ctx.afterfunc")
	a := &afterFunc{f: f, tag: rt.Tag(), harn: rt.InHarness(), rec: rt.TrackCtx("AfterFunc")}
	detach := attach(ctx, a)
	return func() bool {
		rt.Preempt("ctx.afterfunc.stop")
		was := !a.run
		a.run = true
		a.rec.Cancelled = true
		detach()
		return was
	}
}

type withoutCancel struct{ c context.Context }

func (withoutCancel) Deadline() (deadline time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}                   { return nil }
func (withoutCancel) Err() error                              { return nil }
func (w withoutCancel) Value(key any) any {
	if key == &cancelKey {
		return nil
	}
	return w.c.Value(key)
}
func (w withoutCancel) String() string { return fmt.Sprintf("%v.WithoutCancel", w.c) }

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return withoutCancel{parent}
}

// Peek returns the error of a context without a scheduling point (for the harness).
func Peek(ctx context.Context) error {
	if p, ok := ctx.Value(&cancelKey).(*cancelCtx); ok {
		return p.err
	}
	return nil
}
