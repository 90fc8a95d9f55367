// Package context provides simulated cancellation.
package context

import (
	real "context"
	"errors"

	"github.com/ti-mo/comfo/zsim/rt"
	simtime "github.com/ti-mo/comfo/zsim/std/time"
	"time"
)

type ctx struct {
	real.Context
	parent      real.Context
	done        chan struct{}
	err, cause  error
	deadline    time.Time
	hasDeadline bool
	timer       *simtime.Timer
	children    []*ctx
	after       []func()
}

type selfKey struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { rt.Gosched(); return c.err }
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDeadline {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		c.timer.Stop()
	}
	if w := rt.W; w != nil && !w.Reaping() {
		rt.CloseNow(w, c.done)
		for _, f := range c.after {
			rt.Go(f)
		}
	}
	for _, k := range c.children {
		k.cancel(err, cause)
	}
}

func newCtx(parent real.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(selfKey{}).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(real.Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(real.Canceled, cause) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	at := simtime.Now().Add(d)
	if pd, ok := parent.Deadline(); !ok || at.Before(pd) {
		c.deadline, c.hasDeadline = at, true
		if c.err == nil {
			c.timer = simtime.AfterFunc(d, func() { c.cancel(real.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(real.Canceled, nil) }
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(parent, t.Sub(simtime.Now()))
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	return WithTimeoutCause(parent, t.Sub(simtime.Now()), cause)
}

func AfterFunc(c Context, f func()) func() bool {
	p, ok := c.Value(selfKey{}).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	if p.err != nil {
		rt.Go(f)
		return func() bool { return false }
	}
	stopped := false
	p.after = append(p.after, func() {
		if !stopped {
			f()
		}
	})
	return func() bool { was := !stopped && p.err == nil; stopped = true; return was }
}

func Cause(c Context) error {
	if p, ok := c.Value(selfKey{}).(*ctx); ok {
		return p.cause
	}
	return c.Err()
}

var _ = errors.New
