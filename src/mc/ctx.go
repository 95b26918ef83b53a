package mc

import (
	"context"
	"time"
	"unsafe"
)

// Ctx is a cancellable context. Cancelling it and its descendants is one step.
type Ctx struct {
	parent   context.Context
	done     chan struct{}
	deadline time.Time
	hasDl    bool
	obj      obj
	rel      obj
	err      error
	cause    error
	kids     []*Ctx
	timer    *Timer
}

type ctxKey struct{}

var ctxKeyV ctxKey

func parentCtx(p context.Context) *Ctx {
	c, _ := p.Value(&ctxKeyV).(*Ctx)
	if c != nil && (<-chan struct{})(c.done) == p.Done() {
		return c
	}
	return nil
}

// NewCtx derives a cancellable context from p.
func NewCtx(p context.Context) *Ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &Ctx{parent: p, done: make(chan struct{})}
	pd := p.Done()
	if pd == nil {
		return c
	}
	if pc := parentCtx(p); pc != nil {
		do(&Op{kind: "ctx.child", exec: func(op *Op) {
			sch.touch(&pc.obj, 0)
			if pc.err != nil {
				pc.rel.acquire(op)
				c.cancelExec(op, pc.err, pc.cause)
				return
			}
			pc.kids = append(pc.kids, c)
		}})
		return c
	}
	Daemon(func() {
		i := Select(false, RecvCase(pd), RecvCase((<-chan struct{})(c.done)))
		if i == 0 {
			c.Cancel(p.Err(), context.Cause(p))
		}
	})
	return c
}

func (c *Ctx) doneCase() *Case {
	return &Case{p: *(*unsafe.Pointer)(unsafe.Pointer(&c.done)), keep: c.done}
}

func (c *Ctx) cancelExec(op *Op, err, cause error) {
	s := sch
	s.touch(&c.obj, 0)
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	c.rel.release(op)
	ch := s.chanOf(c.doneCase())
	s.touch(&ch.obj, 0)
	s.doClose(ch, op)
	for _, k := range c.kids {
		k.cancelExec(op, err, cause)
	}
	c.kids = nil
}

// Cancel cancels c.
func (c *Ctx) Cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	do(&Op{kind: "ctx.cancel", exec: func(op *Op) { c.cancelExec(op, err, cause) }})
	if c.timer != nil {
		c.timer.Stop()
	}
}

// SetDeadline makes c end at d unless its parent ends earlier.
func (c *Ctx) SetDeadline(d time.Time, cause error) {
	if cur, ok := c.parent.Deadline(); ok && cur.Before(d) {
		return
	}
	c.deadline, c.hasDl = d, true
	dur := d.Sub(Now())
	if dur <= 0 {
		c.Cancel(context.DeadlineExceeded, cause)
		return
	}
	c.timer = AfterFunc(dur, func() { c.Cancel(context.DeadlineExceeded, cause) })
}

// Deadline is context.Context.Deadline.
func (c *Ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

// Done is context.Context.Done.
func (c *Ctx) Done() <-chan struct{} { return c.done }

// Err is context.Context.Err.
func (c *Ctx) Err() error {
	op := &Op{kind: "ctx.Err"}
	op.exec = func(op *Op) {
		sch.touch(&c.obj, 1)
		if c.err != nil {
			op.val = c.err
			op.extra = 1
			c.rel.acquire(op)
		}
	}
	do(op)
	err, _ := op.val.(error)
	return err
}

// Cause is context.Cause.
func (c *Ctx) Cause() error {
	if c.Err() == nil {
		return nil
	}
	return c.cause
}

// Value is context.Context.Value.
func (c *Ctx) Value(k interface{}) interface{} {
	if k == &ctxKeyV {
		return c
	}
	return c.parent.Value(k)
}

// NearestCtx returns the innermost cancellable context of p.
func NearestCtx(p context.Context) *Ctx {
	c, _ := p.Value(&ctxKeyV).(*Ctx)
	return c
}
