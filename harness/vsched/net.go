package vsched

import (
	"context"
	"net"
	"time"
)

// vctx is a context under the virtual clock.
type vctx struct {
	context.Context
	e        *Exec
	done     chan struct{}
	err      error
	deadline time.Time
	timer    *Timer
	children []*vctx
}

func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error            { return c.err }
func (c *vctx) Deadline() (time.Time, bool) {
	return c.deadline, !c.deadline.IsZero()
}

func (c *vctx) cancel(err error) {
	if c.err != nil || c.e.ending {
		return
	}
	c.err = err
	if c.timer != nil && err == context.Canceled {
		c.timer.Stop()
	}
	Close(c.done)
	for _, ch := range c.children {
		ch.cancel(err)
	}
}

func newCtx(e *Exec, parent context.Context) *vctx {
	c := &vctx{Context: parent, e: e, done: make(chan struct{})}
	if p, ok := parent.(*vctx); ok {
		c.deadline = p.deadline
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	e := active()
	if e == nil || e.ending {
		return context.WithTimeout(parent, d)
	}
	c := newCtx(e, parent)
	if dl := Now().Add(d); c.deadline.IsZero() || dl.Before(c.deadline) {
		c.deadline = dl
		c.timer = AfterFunc(d, func() { c.cancel(context.DeadlineExceeded) })
	}
	return c, func() { c.cancel(context.Canceled) }
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	if e := active(); e == nil || e.ending {
		return context.WithDeadline(parent, t)
	}
	return WithTimeout(parent, t.Sub(Now()))
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	e := active()
	if e == nil || e.ending {
		return context.WithCancel(parent)
	}
	c := newCtx(e, parent)
	return c, func() { c.cancel(context.Canceled) }
}

// OnDial makes f answer all connection attempts of the execution.
func (e *Exec) OnDial(f func(ctx context.Context, network, addr string) (net.Conn, error)) {
	e.dial = f
}

func DialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	if e := active(); e != nil && e.dial != nil {
		if e.ending {
			return nil, net.ErrClosed
		}
		return e.dial(ctx, network, addr)
	}
	return d.DialContext(ctx, network, addr)
}
