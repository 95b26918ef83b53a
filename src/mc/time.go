package mc

import (
	"fmt"
	"sort"
	"time"
	"unsafe"
)

const startNano = 1000000000

var baseTime = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

type timerS struct {
	obj    obj
	when   int64
	period int64
	seq    int
	armed  bool
	rel    obj
	// exactly one of:
	ch   *Case  // channel to send the time to
	f    func() // function to start
	wake *Op    // sleeping operation
	name string
}

// earliest returns the armed timers that fire next.
func (s *sched) earliest() []*timerS {
	var out []*timerS
	for _, t := range s.timers {
		if len(out) == 0 || t.when < out[0].when {
			out = append(out[:0:0], t)
		} else if t.when == out[0].when {
			out = append(out, t)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].obj.base+out[i].obj.sum < out[j].obj.base+out[j].obj.sum })
	return out
}

func (s *sched) disarm(t *timerS) bool {
	if !t.armed {
		return false
	}
	t.armed = false
	for i, x := range s.timers {
		if x == t {
			s.timers = append(append([]*timerS(nil), s.timers[:i]...), s.timers[i+1:]...)
			break
		}
	}
	return true
}

func (s *sched) arm(t *timerS, when int64) {
	t.armed = true
	t.when = when
	if t.when < s.now {
		t.when = s.now
	}
	s.timers = append(s.timers, t)
}

func (s *sched) fireTimer(t *timerS) {
	if t.when > s.now {
		s.now = t.when
		s.touch(&s.clock, 0)
	} else {
		s.touch(&s.clock, 1)
	}
	s.touch(&t.obj, 0)
	s.disarm(t)
	if t.period > 0 {
		s.arm(t, s.now+t.period)
	}
	op := &Op{kind: "timer"}
	switch {
	case t.wake != nil:
		o := t.wake
		o.done = true
		s.completed = append(s.completed, o)
	case t.ch != nil:
		ch := s.chanOf(t.ch)
		s.touch(&ch.obj, 0)
		if len(ch.recvq) > 0 || len(ch.q) < ch.cap {
			var wop *Op
			if len(ch.recvq) > 0 {
				wop = ch.recvq[0].op
			}
			s.doSend(ch, s.time(), op)
			if wop != nil {
				t.rel.acquire(wop)
			} else if raceOn && ch.cap > 0 {
				// the receiver of the buffered value sees the arming
				sl := &ch.slots[(ch.sendx+ch.cap-1)%ch.cap]
				sl.acc = append(sl.acc, t.rel.acc...)
			}
		}
	}
	e := s.commit(s.clockHash, "timer "+t.name, uint64(s.now))
	s.clockHash = e
	comp := s.takeCompleted(e)
	if t.f != nil {
		n := &thread{name: t.name, wake: make(chan struct{}), hash: mix(e, 99)}
		n.start = &t.rel
		n.id = len(s.threads)
		s.threads = append(s.threads, n)
		go n.main(t.f)
		s.settle(n)
	}
	s.resume(comp)
}

func (s *sched) time() time.Time {
	return baseTime.Add(time.Duration(s.now - startNano))
}

// Nanotime is the virtual monotonic clock.
func Nanotime() int64 {
	op := &Op{kind: "now", exec: func(op *Op) {
		sch.touch(&sch.clock, 1)
		op.extra = uint64(sch.now)
	}}
	do(op)
	return int64(op.extra)
}

// Now is the virtual wall clock.
func Now() time.Time {
	return baseTime.Add(time.Duration(Nanotime() - startNano))
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	op := &Op{kind: fmt.Sprintf("sleep(%v)", d)}
	op.exec = func(op *Op) {
		if d <= 0 {
			return
		}
		s := sch
		s.touch(&s.clock, 1)
		t := &timerS{wake: op, name: "sleep"}
		s.touch(&t.obj, 0)
		op.parked = true
		s.arm(t, s.now+int64(d))
	}
	do(op)
}

// Gosched is runtime.Gosched.
func Gosched() { do(&Op{kind: "gosched", free: true}) }

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	t *timerS
	c *Case
}

func newTimer(d, period time.Duration, f func(), name string) *Timer {
	t := &timerS{f: f, name: name, period: int64(period)}
	tm := &Timer{t: t}
	if f == nil {
		ch := make(chan time.Time, 1)
		tm.C = ch
		t.ch = &Case{p: *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap: 1, keep: ch, send: true}
	}
	do(&Op{kind: fmt.Sprintf("%s(%v)", name, d), exec: func(op *Op) {
		s := sch
		s.touch(&s.clock, 1)
		s.touch(&t.obj, 0)
		t.rel.release(op)
		s.arm(t, s.now+int64(d))
	}})
	return tm
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer { return newTimer(d, 0, nil, "NewTimer") }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, 0, f, "AfterFunc") }

// After is time.After.
func After(d time.Duration) <-chan time.Time { return newTimer(d, 0, nil, "After").C }

func (t *Timer) drain() {
	if t.t.ch != nil {
		ch := sch.chanOf(t.t.ch)
		sch.touch(&ch.obj, 0)
		ch.q = nil
	}
}

// Stop is time.Timer.Stop.
func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	op := &Op{kind: "Timer.Stop", exec: func(op *Op) {
		s := sch
		s.touch(&t.t.obj, 0)
		op.ok = s.disarm(t.t)
		if t.t.ch != nil && len(s.chanOf(t.t.ch).q) > 0 {
			op.ok = true
		}
		t.drain()
		if op.ok {
			op.extra = 1
		}
	}}
	do(op)
	return op.ok
}

// Reset is time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	op := &Op{kind: fmt.Sprintf("Timer.Reset(%v)", d), exec: func(op *Op) {
		s := sch
		s.touch(&s.clock, 1)
		s.touch(&t.t.obj, 0)
		op.ok = s.disarm(t.t)
		if t.t.ch != nil && len(s.chanOf(t.t.ch).q) > 0 {
			op.ok = true
		}
		t.drain()
		t.t.rel.release(op)
		s.arm(t.t, s.now+int64(d))
		if op.ok {
			op.extra = 1
		}
	}}
	do(op)
	return op.ok
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := newTimer(d, d, nil, "NewTicker")
	return &Ticker{t.C, t}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop is time.Ticker.Stop.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset is time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	do(&Op{kind: fmt.Sprintf("Ticker.Reset(%v)", d), exec: func(op *Op) {
		s := sch
		s.touch(&s.clock, 1)
		s.touch(&t.t.t.obj, 0)
		s.disarm(t.t.t)
		t.t.drain()
		t.t.t.period = int64(d)
		s.arm(t.t.t, s.now+int64(d))
	}})
}
