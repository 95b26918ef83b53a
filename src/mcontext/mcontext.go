// Package mcontext is package context under the controlled scheduler.
package mcontext

import (
	"context"
	"time"

	"flychain/zzmc/mc"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(p Context, k, v interface{}) Context { return context.WithValue(p, k, v) }
func WithoutCancel(p Context) Context               { return context.WithoutCancel(p) }

func WithCancel(p Context) (Context, CancelFunc) {
	c := mc.NewCtx(p)
	return c, func() { c.Cancel(Canceled, nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := mc.NewCtx(p)
	return c, func(cause error) { c.Cancel(Canceled, cause) }
}

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	c := mc.NewCtx(p)
	c.SetDeadline(d, cause)
	return c, func() { c.Cancel(Canceled, nil) }
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) { return WithDeadlineCause(p, d, nil) }

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, mc.Now().Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, mc.Now().Add(d), cause)
}

func Cause(c Context) error {
	if x := mc.NearestCtx(c); x != nil {
		return x.Cause()
	}
	return context.Cause(c)
}

func AfterFunc(c Context, f func()) func() bool {
	stop := make(chan struct{})
	d := c.Done()
	var once mc.Once
	mc.Daemon(func() {
		if mc.Select(false, mc.RecvCase(d), mc.RecvCase((<-chan struct{})(stop))) == 0 {
			once.Do(f)
		}
	})
	return func() bool {
		stopped := false
		once.Do(func() { stopped = true; mc.Close((chan<- struct{})(stop)) })
		return stopped
	}
}
