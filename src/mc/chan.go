package mc

import (
	"reflect"
	"unsafe"
)

// chanS is the shadow of one channel. The real channel is only an identity.
type chanS struct {
	obj    obj
	cap    int
	closed bool
	q      []interface{}
	sendq  []*waiter
	recvq  []*waiter
	slots  []obj // release tokens of the buffer slots
	sendx  int
	recvx  int
	closeT obj
}

type waiter struct {
	op  *Op
	idx int
	ch  *chanS
	c   *Case
}

// Case is one communication of a channel operation or select.
type Case struct {
	p    unsafe.Pointer // channel identity, nil for a nil channel
	cap  int
	keep interface{}
	send bool
	val  interface{}
}

func (s *sched) chanOf(c *Case) *chanS {
	k := objKey{c.p, kChan}
	if x, ok := s.objs[k]; ok {
		return x.(*chanS)
	}
	x := &chanS{cap: c.cap}
	if raceOn && c.cap > 0 {
		x.slots = make([]obj, c.cap)
	}
	s.objs[k] = x
	s.keep = append(s.keep, c.keep)
	return x
}

func (ch *chanS) sendSlot(op *Op) {
	if !raceOn || ch.cap == 0 {
		return
	}
	sl := &ch.slots[ch.sendx%ch.cap]
	ch.sendx++
	sl.acquire(op)
	sl.release(op)
}

func (ch *chanS) recvSlot(op *Op) {
	if !raceOn || ch.cap == 0 {
		return
	}
	sl := &ch.slots[ch.recvx%ch.cap]
	ch.recvx++
	sl.acquire(op)
	sl.release(op)
}

// pair links two threads that meet on an unbuffered channel.
func (ch *chanS) pair(sender, receiver *Op) {
	if !raceOn {
		return
	}
	if ch.cap > 0 {
		ch.sendSlot(sender)
		ch.recvSlot(receiver)
		return
	}
	if sender.tok != nil {
		receiver.acq = append(receiver.acq, sender.tok)
	}
	if receiver.tok != nil {
		sender.acq = append(sender.acq, receiver.tok)
	}
}

func (s *sched) complete(w *waiter, val interface{}, ok bool) {
	o := w.op
	o.done = true
	o.idx = w.idx
	o.val = val
	o.ok = ok
	for _, x := range o.waits {
		s.touch(&x.ch.obj, 0)
		x.ch.recvq = drop(x.ch.recvq, o)
		x.ch.sendq = drop(x.ch.sendq, o)
	}
	o.waits = nil
	s.completed = append(s.completed, o)
}

func drop(q []*waiter, o *Op) []*waiter {
	out := q[:0:0]
	for _, w := range q {
		if w.op != o {
			out = append(out, w)
		}
	}
	return out
}

func (ch *chanS) ready(c *Case) bool {
	if c.send {
		return ch.closed || len(ch.recvq) > 0 || len(ch.q) < ch.cap
	}
	return ch.closed || len(ch.sendq) > 0 || len(ch.q) > 0
}

func chanExec(op *Op) {
	s := sch
	chs := make([]*chanS, len(op.cases))
	var ready []int
	for i, c := range op.cases {
		if c.p == nil {
			continue
		}
		ch := s.chanOf(c)
		chs[i] = ch
		s.touch(&ch.obj, 0)
		if ch.ready(c) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if op.hasDef {
			op.idx = -1
			op.extra = 1
			return
		}
		op.parked = true
		for i, c := range op.cases {
			if chs[i] == nil {
				continue
			}
			w := &waiter{op: op, idx: i, ch: chs[i], c: c}
			op.waits = append(op.waits, w)
			if c.send {
				chs[i].sendq = append(chs[i].sendq, w)
			} else {
				chs[i].recvq = append(chs[i].recvq, w)
			}
		}
		op.extra = 2
		return
	}
	i := ready[0]
	if !s.straight() {
		i = ready[s.choose(len(ready))]
	}
	op.idx = i
	op.extra = uint64(i) + 3
	if op.cases[i].send {
		s.doSend(chs[i], op.cases[i].val, op)
	} else {
		op.val, op.ok = s.doRecv(chs[i], op)
	}
}

func (s *sched) doSend(ch *chanS, v interface{}, op *Op) {
	if ch.closed {
		op.pan = "send on closed channel"
		return
	}
	if len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.pair(op, w.op)
		s.complete(w, v, true)
		return
	}
	ch.sendSlot(op)
	ch.q = append(ch.q, v)
}

func (s *sched) doRecv(ch *chanS, op *Op) (interface{}, bool) {
	if len(ch.q) > 0 {
		v := ch.q[0]
		ch.q = append([]interface{}(nil), ch.q[1:]...)
		ch.recvSlot(op)
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendSlot(w.op)
			ch.q = append(ch.q, w.c.val)
			s.complete(w, nil, false)
		}
		return v, true
	}
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		v := w.c.val
		ch.pair(w.op, op)
		s.complete(w, nil, false)
		return v, true
	}
	ch.closeT.acquire(op)
	return nil, false
}

func (s *sched) doClose(ch *chanS, op *Op) {
	if ch.closed {
		op.pan = "close of closed channel"
		return
	}
	ch.closed = true
	ch.closeT.release(op)
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.closeT.acquire(w.op)
		s.complete(w, nil, false)
	}
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.closeT.acquire(w.op)
		w.op.pan = "send on closed channel"
		s.complete(w, nil, false)
	}
}

// ---- typed interface used by instrumented code ----

func ptrOf[T any](ch chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrOfR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrOfS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Send is ch <- v, written Send(ch)(v).
//
//go:norace
func Send[T any](ch chan<- T) func(T) {
	c := &Case{p: ptrOfS(ch), cap: cap(ch), keep: ch, send: true}
	return func(v T) {
		c.val = v
		do(&Op{kind: "send", cases: []*Case{c}, exec: chanExec})
	}
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	c := &Case{p: ptrOfR(ch), cap: cap(ch), keep: ch}
	op := &Op{kind: "recv", cases: []*Case{c}, exec: chanExec}
	do(op)
	v, _ := op.val.(T)
	return v, op.ok
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	closeCase(&Case{p: ptrOfS(ch), cap: cap(ch), keep: ch})
}

func closeCase(c *Case) {
	do(&Op{kind: "close", exec: func(op *Op) {
		if c.p == nil {
			op.pan = "close of nil channel"
			return
		}
		s := sch
		ch := s.chanOf(c)
		s.touch(&ch.obj, 0)
		s.doClose(ch, op)
	}})
}

// Len is len(ch).
//
//go:norace
func Len[T any](ch <-chan T) int {
	return lenCase(&Case{p: ptrOfR(ch), cap: cap(ch), keep: ch})
}

// LenS is len(ch) of a send-only channel.
//
//go:norace
func LenS[T any](ch chan<- T) int {
	return lenCase(&Case{p: ptrOfS(ch), cap: cap(ch), keep: ch})
}

func lenCase(c *Case) int {
	if c.p == nil {
		return 0
	}
	op := &Op{kind: "len", exec: func(op *Op) {
		s := sch
		ch := s.chanOf(c)
		s.touch(&ch.obj, 1)
		op.idx = len(ch.q)
		op.extra = uint64(op.idx)
	}}
	do(op)
	return op.idx
}

// RecvC is a receive case of a select.
type RecvC[T any] struct {
	c  *Case
	op *Op
}

// SendC is a send case of a select.
type SendC struct{ c *Case }

// AnyCase is a RecvC or SendC.
type AnyCase interface{ mcCase(op *Op) *Case }

//go:norace
func (r *RecvC[T]) mcCase(op *Op) *Case { r.op = op; return r.c }

//go:norace
func (r SendC) mcCase(op *Op) *Case { return r.c }

// V is the received value.
//
//go:norace
func (r *RecvC[T]) V() T {
	v, _ := r.op.val.(T)
	return v
}

// OK tells whether V was sent.
//
//go:norace
func (r *RecvC[T]) OK() bool { return r.op.ok }

// V2 is both.
//
//go:norace
func (r *RecvC[T]) V2() (T, bool) { return r.V(), r.op.ok }

// RecvCase makes a receive case.
//
//go:norace
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{c: &Case{p: ptrOfR(ch), cap: cap(ch), keep: ch}}
}

// SendCase makes a send case, written SendCase(ch)(v).
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) SendC {
	c := &Case{p: ptrOfS(ch), cap: cap(ch), keep: ch, send: true}
	return func(v T) SendC {
		c.val = v
		return SendC{c}
	}
}

// Select performs a select statement and returns the index of the chosen
// case, or -1 for the default case.
func Select(hasDefault bool, cases ...AnyCase) int {
	op := &Op{kind: "select", hasDef: hasDefault, exec: chanExec}
	cs := make([]*Case, len(cases))
	for i, c := range cases {
		cs[i] = c.mcCase(op)
	}
	op.cases = cs
	do(op)
	return op.idx
}

// RangeIter iterates over a channel.
type RangeIter[T any] struct{ ch <-chan T }

// RangeChan is the range clause over a channel.
//
//go:norace
func RangeChan[T any](ch <-chan T) RangeIter[T] { return RangeIter[T]{ch} }

// Zero is the initial value of the iteration variable.
//
//go:norace
func (r RangeIter[T]) Zero() (z T) { return }

// Next receives the next element.
//
//go:norace
func (r RangeIter[T]) Next(p *T) bool {
	v, ok := Recv2(r.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// ---- reflect ----

func rcase(v reflect.Value) *Case {
	return &Case{p: unsafe.Pointer(v.Pointer()), cap: v.Cap(), keep: v}
}

func mustChan(v reflect.Value, what string, dir reflect.ChanDir) {
	if v.Kind() != reflect.Chan {
		panic(&reflect.ValueError{Method: "reflect.Value." + what, Kind: v.Kind()})
	}
	if v.Type().ChanDir()&dir == 0 {
		panic("reflect: " + what + " on channel of the wrong direction")
	}
}

// assign converts x for a channel of type t like reflect does.
func assign(x reflect.Value, elem reflect.Type, what string) interface{} {
	if !x.IsValid() {
		panic("reflect: " + what + " of zero Value")
	}
	if !x.Type().AssignableTo(elem) {
		panic(what + ": value of type " + x.Type().String() + " is not assignable to type " + elem.String())
	}
	if elem.Kind() != reflect.Interface && x.Type() != elem {
		x = x.Convert(elem)
	}
	if x.Kind() == reflect.Interface && x.IsNil() {
		return nil
	}
	return x.Interface()
}

func unassign(val interface{}, elem reflect.Type) reflect.Value {
	if val == nil {
		return reflect.Zero(elem)
	}
	v := reflect.New(elem).Elem()
	v.Set(reflect.ValueOf(val))
	return v
}

// RSend is v.Send(x).
func RSend(v, x reflect.Value) {
	mustChan(v, "Send", reflect.SendDir)
	c := rcase(v)
	c.send = true
	c.val = assign(x, v.Type().Elem(), "reflect.Value.Send")
	do(&Op{kind: "send", cases: []*Case{c}, exec: chanExec})
}

// RTrySend is v.TrySend(x).
func RTrySend(v, x reflect.Value) bool {
	mustChan(v, "TrySend", reflect.SendDir)
	c := rcase(v)
	c.send = true
	c.val = assign(x, v.Type().Elem(), "reflect.Value.TrySend")
	op := &Op{kind: "trysend", cases: []*Case{c}, hasDef: true, exec: chanExec}
	do(op)
	return op.idx == 0
}

// RRecv is v.Recv().
func RRecv(v reflect.Value) (reflect.Value, bool) {
	mustChan(v, "Recv", reflect.RecvDir)
	op := &Op{kind: "recv", cases: []*Case{rcase(v)}, exec: chanExec}
	do(op)
	return unassign(op.val, v.Type().Elem()), op.ok
}

// RTryRecv is v.TryRecv().
func RTryRecv(v reflect.Value) (reflect.Value, bool) {
	mustChan(v, "TryRecv", reflect.RecvDir)
	op := &Op{kind: "tryrecv", cases: []*Case{rcase(v)}, hasDef: true, exec: chanExec}
	do(op)
	if op.idx < 0 {
		return reflect.Value{}, false
	}
	return unassign(op.val, v.Type().Elem()), op.ok
}

// RClose is v.Close().
func RClose(v reflect.Value) {
	mustChan(v, "Close", reflect.SendDir)
	closeCase(rcase(v))
}

// RLen is v.Len(), for any kind.
func RLen(v reflect.Value) int {
	if v.Kind() != reflect.Chan {
		return v.Len()
	}
	return lenCase(rcase(v))
}

// ReflectSelect is reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	op := &Op{kind: "select", exec: chanExec}
	def := -1
	var idx []int
	var elems []reflect.Type
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			if op.hasDef {
				panic("reflect.Select: multiple default cases")
			}
			if c.Chan.IsValid() {
				panic("reflect.Select: default case has Chan value")
			}
			if c.Send.IsValid() {
				panic("reflect.Select: default case has Send value")
			}
			op.hasDef = true
			def = i
		case reflect.SelectSend, reflect.SelectRecv:
			send := c.Dir == reflect.SelectSend
			if !send && c.Send.IsValid() {
				panic("reflect.Select: RecvDir case has Send value")
			}
			if !c.Chan.IsValid() {
				continue
			}
			if send {
				mustChan(c.Chan, "Select", reflect.SendDir)
			} else {
				mustChan(c.Chan, "Select", reflect.RecvDir)
			}
			if send && !c.Send.IsValid() {
				panic("reflect.Select: SendDir case missing Send value")
			}
			x := rcase(c.Chan)
			x.send = send
			el := c.Chan.Type().Elem()
			if send {
				x.val = assign(c.Send, el, "reflect.Select")
			}
			op.cases = append(op.cases, x)
			idx = append(idx, i)
			elems = append(elems, el)
		default:
			panic("reflect.Select: invalid Dir")
		}
	}
	do(op)
	if op.idx < 0 {
		return def, reflect.Value{}, false
	}
	i := op.idx
	if op.cases[i].send {
		return idx[i], reflect.Value{}, false
	}
	return idx[i], unassign(op.val, elems[i]), op.ok
}
