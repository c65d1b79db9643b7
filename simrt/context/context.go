// Package context replaces the standard context under simulation.
package context

import (
	"context"
	"errors"
	"time"
	"unsafe"

	"verif.local/simrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func WithoutCancel(p Context) Context       { return context.Background() }

type cctx struct {
	Context
	ch    chan struct{}
	err   error
	vc    simrt.VC
	cause error
	kids  []*cctx
	dl    time.Time
	hasDl bool
	tm    *simrt.Timer
}

type key struct{}

func (c *cctx) Done() <-chan struct{} { return c.ch }
func (c *cctx) Err() error {
	simrt.Point()
	if c.err != nil && simrt.S != nil {
		simrt.S.Acquire(&c.vc)
	}
	return c.err
}
func (c *cctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.Context.Deadline()
}
func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	simrt.S.Release(&c.vc)
	if cause == nil {
		cause = err
	}
	c.cause = cause
	simrt.S.CloseCh(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch)), 0)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}
func mk(p Context) *cctx {
	c := &cctx{Context: p, ch: make(chan struct{})}
	if pc, ok := p.Value(key{}).(*cctx); ok {
		pc.kids = append(pc.kids, c)
		if pc.err != nil {
			c.cancel(pc.err, pc.cause)
		}
	}
	return c
}
func (c *cctx) stop(cause error) {
	if simrt.Killed() || simrt.S == nil {
		return
	}
	simrt.S.Cancel(c.tm)
	c.cancel(Canceled, cause)
	simrt.Point()
}
func WithCancel(p Context) (Context, CancelFunc) { c := mk(p); return c, func() { c.stop(nil) } }
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := mk(p)
	return c, func(e error) { c.stop(e) }
}
func WithDeadline(p Context, d time.Time) (Context, CancelFunc) {
	return WithTimeout(p, d.Sub(time.Unix(0, simrt.S.Now())))
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	c := mk(p)
	c.hasDl, c.dl = true, time.Unix(0, simrt.S.Now()+int64(d))
	c.tm = simrt.S.After(int64(d), func() { c.cancel(DeadlineExceeded, nil) })
	return c, func() { c.stop(nil) }
}
func Cause(c Context) error {
	if x, ok := c.Value(key{}).(*cctx); ok {
		return x.cause
	}
	return c.Err()
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	return WithTimeoutCause(p, d.Sub(time.Unix(0, simrt.S.Now())), cause)
}
func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	c := mk(p)
	c.hasDl, c.dl = true, time.Unix(0, simrt.S.Now()+int64(d))
	c.tm = simrt.S.After(int64(d), func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() { c.stop(nil) }
}

// AfterFunc runs f in a task of its own once c is done.
func AfterFunc(c Context, f func()) func() bool {
	x, stop := WithCancel(c)
	state := 0 // 1 stopped, 2 run
	simrt.Go("context.AfterFunc", func() {
		simrt.Recv(x.Done())
		if state == 0 {
			state = 2
			f()
		}
	})
	return func() bool {
		was := state
		if was == 0 {
			state = 1
			stop()
		}
		return was == 0
	}
}

var _ = errors.New
