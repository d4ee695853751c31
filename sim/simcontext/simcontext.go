// Package simcontext replaces the parts of package context that create
// cancellable contexts.
package simcontext

import (
	"context"
	"time"

	"vsim/rt"
	"vsim/simtime"
)

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	key, val any
	kids     []*ctx
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { return c.err }
func (c *ctx) Value(k any) any       { return c.parent.Value(k) }

func (c *ctx) cancel(err, cause error) {
	if c.err != nil || rt.S == nil || rt.S.Aborting() {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	rt.CloseSched(rt.S, c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}

type ctxKey struct{}

func find(p context.Context) *ctx {
	for {
		switch x := p.(type) {
		case *ctx:
			return x
		case *valCtx:
			p = x.Context
		default:
			return nil
		}
	}
}

type valCtx struct {
	context.Context
	k, v any
}

func (c *valCtx) Value(k any) any {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &valCtx{parent, key, val}
}

func mk(parent context.Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p := find(parent); p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := mk(parent)
	return c, func() { rt.Y(); c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := mk(parent)
	return c, func(e error) { rt.Y(); c.cancel(context.Canceled, e) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, simtime.Until(d))
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := mk(parent)
	c.deadline, c.hasDl = simtime.Now().Add(d), true
	if p, ok := parent.Deadline(); ok && p.Before(c.deadline) {
		c.deadline = p
	}
	s := rt.S
	t := s.After(s.CurNode(), int64(d), func() { c.cancel(context.DeadlineExceeded, nil) })
	return c, func() {
		rt.Y()
		if !s.Aborting() {
			s.Stop(t)
		}
		c.cancel(context.Canceled, nil)
	}
}

func Cause(c context.Context) error {
	if x := find(c); x != nil {
		return x.cause
	}
	return c.Err()
}
