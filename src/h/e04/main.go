// Command e04 model-checks wrongly typed operations of event.Feed.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"flychain/event"
	"flychain/zzmc/mc"
	"flychain/zzmc/zoo"
)

type myInt int

var errValue = errors.New("e")

type world struct {
	f     event.Feed
	etype reflect.Type
	chans []*channel
	n     int
}

type channel struct {
	v     interface{} // the channel as passed to Subscribe
	ch    reflect.Value
	elem  reflect.Type // nil: cannot be subscribed
	subs  []event.Subscription
	want  []interface{}
	isNil bool
}

func newWorld() *world {
	w := &world{}
	add := func(v interface{}, ch interface{}, elem interface{}) {
		c := &channel{v: v}
		if ch != nil {
			c.ch = reflect.ValueOf(ch)
			c.elem = c.ch.Type().Elem()
		}
		w.chans = append(w.chans, c)
	}
	ints := make(chan int, 12)
	add(ints, ints, nil)
	ints2 := make(chan int, 12)
	add((chan<- int)(ints2), ints2, nil)
	strs := make(chan string, 12)
	add(strs, strs, nil)
	mine := make(chan myInt, 12)
	add(mine, mine, nil)
	any := make(chan interface{}, 12)
	add(any, any, nil)
	errs := make(chan error, 12)
	add(errs, errs, nil)
	add((<-chan int)(make(chan int)), nil, nil)
	add(5, nil, nil)
	add(nil, nil, nil)
	return w
}

var sends = []interface{}{1, "s", myInt(2), nil, errValue}

// ops is the number of operations: subscribe each channel, send each kind of
// value, unsubscribe the latest subscription of the first four channels.
const nOps = 9 + 5 + 3

func opName(o int) string {
	switch {
	case o < 9:
		return []string{"+int", "+sendonly", "+string", "+myInt", "+interface", "+error", "+recvonly", "+5", "+nil"}[o]
	case o < 14:
		return []string{"int", "string", "myInt", "nil", "error"}[o-9]
	}
	return []string{"-int", "-sendonly", "-string"}[o-14]
}

// try reports whether f panics.
func try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return false
}

func (w *world) value(i int) interface{} {
	w.n++
	switch v := sends[i].(type) {
	case int:
		return w.n
	case string:
		return fmt.Sprint("s", w.n)
	case myInt:
		return myInt(w.n)
	default:
		return v
	}
}

func (w *world) apply(o int) {
	switch {
	case o < 9:
		c := w.chans[o]
		bad := c.elem == nil || w.etype != nil && w.etype != c.elem
		var s event.Subscription
		p := try(func() { s = w.f.Subscribe(c.v) })
		if p != bad {
			mc.Failf("%s: panics %v, want %v (the feed's type is %v)", opName(o), p, bad, w.etype)
		}
		if bad {
			return
		}
		w.etype = c.elem
		c.subs = append(c.subs, s)
	case o < 14:
		v := w.value(o - 9)
		t := reflect.TypeOf(v)
		bad := t == nil || w.etype != nil && w.etype != t
		n := -1
		p := try(func() { n = w.f.Send(v) })
		if p != bad {
			mc.Failf("Send(%T): panics %v, want %v (the feed's type is %v)", v, p, bad, w.etype)
		}
		if bad {
			return
		}
		w.etype = t
		want := 0
		for _, c := range w.chans {
			for range c.subs {
				c.want = append(c.want, v)
				want++
			}
		}
		if n != want {
			mc.Failf("Send reports %d deliveries, want %d", n, want)
		}
	default:
		c := w.chans[o-14]
		if len(c.subs) == 0 {
			return
		}
		s := c.subs[len(c.subs)-1]
		c.subs = c.subs[:len(c.subs)-1]
		s.Unsubscribe()
	}
	for k, c := range w.chans {
		if c.elem == nil {
			continue
		}
		if c.ch.Len() != len(c.want) {
			mc.Failf("%s: channel %d holds %d values, want %d", opName(o), k, c.ch.Len(), len(c.want))
		}
	}
}

// probe checks that the feed still works for its type.
func (w *world) probe() {
	if w.etype == nil {
		w.apply(0)
	}
	for o := 0; o < 6; o++ {
		w.apply(o)
	}
	for o := 9; o < 14; o++ {
		w.apply(o)
	}
	for o := 0; o < 6; o++ {
		c := w.chans[o]
		for _, v := range c.want {
			x, ok := c.ch.Recv()
			if !ok || x.Interface() != v {
				mc.Failf("a channel delivers %v, want %v", x, v)
			}
		}
		c.want = nil
		for _, s := range c.subs {
			s.Unsubscribe()
		}
		c.subs = nil
	}
	for o := 9; o < 14; o++ {
		w.apply(o)
	}
}

func sequences(prefix []int, depth int) *mc.Scenario {
	var names []string
	for _, o := range prefix {
		names = append(names, opName(o))
	}
	return &mc.Scenario{Name: fmt.Sprintf("%s then %d operations", strings.Join(names, " "), depth), Body: func() {
		w := newWorld()
		for _, o := range prefix {
			w.apply(o)
		}
		for i := 0; i < depth; i++ {
			w.apply(mc.Choose(nOps))
		}
		w.probe()
		mc.Outcome("%v", w.etype)
	}}
}

func sendErr(f *event.Feed, v interface{}) (n int, panicked bool) {
	panicked = try(func() { n = f.Send(v) })
	return
}

func concurrent() []*mc.Scenario {
	return []*mc.Scenario{
		{Name: "first operations of different types", Body: func() {
			var f event.Feed
			ci, cs := make(chan int, 4), make(chan string, 4)
			var p [2]bool
			mc.Par(
				func() { p[0] = try(func() { f.Subscribe(ci) }) },
				func() { p[1] = try(func() { f.Send("x") }) },
			)
			if p[0] == p[1] {
				mc.Failf("panics %v: exactly one of the first operations must be accepted", p)
			}
			pi, ps := false, false
			ni, ns := 0, 0
			ps = try(func() { f.Subscribe(cs) })
			ni, pi = sendErr(&f, 3)
			if pi == p[1] || ps != p[1] {
				mc.Failf("after panics %v: Send(int) panics %v, Subscribe(string) panics %v", p, pi, ps)
			}
			ns, ps = sendErr(&f, "y")
			if p[0] && (ns != 1 || ps || len(cs) != 1) || p[1] && (ni != 1 || !ps || len(ci) != 1) {
				mc.Failf("after panics %v: deliveries %d %d", p, ni, ns)
			}
			mc.Outcome("%v", p)
		}},
		{Name: "wrong Send during a blocked Send", Body: func() {
			var f event.Feed
			c := make(chan int)
			d := make(chan int, 4)
			s := f.Subscribe(c)
			f.Subscribe(d)
			var wrong, wrongSub, wrongNil bool
			n := -1
			mc.Par(
				func() { n = f.Send(1) },
				func() { _, wrong = sendErr(&f, "x") },
				func() {
					wrongSub = try(func() { f.Subscribe(make(chan string)) })
					s.Unsubscribe()
					_, wrongNil = sendErr(&f, nil)
				},
			)
			if !wrong || !wrongSub || !wrongNil {
				mc.Failf("wrongly typed operations panic: %v %v %v", wrong, wrongSub, wrongNil)
			}
			if n != 1 || len(d) != 1 {
				mc.Failf("Send reports %d, %d were delivered", n, len(d))
			}
			if n := f.Send(2); n != 1 {
				mc.Failf("a later Send reports %d", n)
			}
		}},
		{Name: "wrong Send and a new subscription", Body: func() {
			var f event.Feed
			d := make(chan int, 4)
			e := make(chan int, 4)
			f.Subscribe(d)
			var wrong bool
			var s event.Subscription
			mc.Par(
				func() { _, wrong = sendErr(&f, "x") },
				func() { s = f.Subscribe(e) },
				func() { f.Send(7) },
			)
			if !wrong || len(d) != 1 || len(e) > 1 {
				mc.Failf("panics %v, deliveries %d %d", wrong, len(d), len(e))
			}
			had := len(e)
			if n := f.Send(8); n != 2 || len(e) != had+1 {
				mc.Failf("a later Send reports %d", n)
			}
			s.Unsubscribe()
			if n := f.Send(9); n != 1 || len(e) != had+1 {
				mc.Failf("a later Send reports %d after Unsubscribe", n)
			}
		}},
		{Name: "two wrong Sends and an Unsubscribe", Body: func() {
			var f event.Feed
			d := make(chan int, 4)
			s := f.Subscribe(d)
			f.Send(1)
			var a, b bool
			mc.Par(
				func() { _, a = sendErr(&f, "x") },
				func() { _, b = sendErr(&f, errValue) },
				func() { s.Unsubscribe() },
			)
			if !a || !b {
				mc.Failf("panics %v %v", a, b)
			}
			if n := f.Send(2); n != 0 || len(d) != 1 {
				mc.Failf("a later Send reports %d", n)
			}
		}},
	}
}

// zooBody fixes the type of a feed by a value or a channel of one type, in four
// ways, and then sends and subscribes with another type of many, of which some
// resemble each other.
func zooBody() {
	l := zoo.Values()
	v, how, u := l[mc.Choose(len(l))], mc.Choose(4), l[mc.Choose(len(l))]
	tv, tu := reflect.TypeOf(v), reflect.TypeOf(u)
	same := tv == tu
	var f event.Feed
	ch := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, tv), 8)
	other := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, tu), 8)
	want := 0
	switch how {
	case 0:
		f.Subscribe(ch.Interface())
		want = 1
	case 1:
		f.Subscribe(ch.Convert(reflect.ChanOf(reflect.SendDir, tv)).Interface())
		want = 1
	case 2:
		if n := f.Send(v); n != 0 {
			mc.Failf("Send without subscriptions returns %d", n)
		}
	case 3:
		f.Send(v)
		f.Subscribe(ch.Interface())
		want = 1
	}
	check := func(what string, panicked bool) {
		if panicked == same {
			mc.Failf("the feed is of type %v (%s): %s of type %v (%s) panics: %v", tv, tv.PkgPath(), what, tu, tu.PkgPath(), panicked)
		}
	}
	n := -1
	check("Send", try(func() { n = f.Send(u) }))
	if same && n != want {
		mc.Failf("Send of a %v is delivered to %d, want %d", tv, n, want)
	}
	check("Subscribe", try(func() { f.Subscribe(other.Interface()).Unsubscribe() }))
	check("Subscribe", try(func() { f.Subscribe(other.Convert(reflect.ChanOf(reflect.SendDir, tu)).Interface()).Unsubscribe() }))
	if !try(func() { f.Subscribe(other.Convert(reflect.ChanOf(reflect.RecvDir, tu)).Interface()) }) {
		mc.Failf("a receive-only channel of %v is accepted", tu)
	}
	// it still works for its own
	if n := f.Send(v); n != want {
		mc.Failf("after a %v, Send of a %v is delivered to %d, want %d", tu, tv, n, want)
	}
	if same {
		want *= 2
	}
	if ch.Len() != want || other.Len() != 0 {
		mc.Failf("after a %v, the channel of %v holds %d values and the other %d, want %d and none", tu, tv, ch.Len(), other.Len(), want)
	}
	if how == 2 {
		want = 0
	}
	for i := 0; i < want; i++ {
		_, x, _ := mc.ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: ch}})
		w := v
		if same && i == 0 {
			w = u
		}
		if !zoo.Same(x.Interface(), w) {
			mc.Failf("a %v arrives as %v", w, x)
		}
	}
	mc.Outcome("%v", same)
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		out := concurrent()
		depth := 3
		if thorough {
			depth = 4
		}
		out = append(out, &mc.Scenario{Name: "pairs of types", MaxBound: -1, Straight: true, Body: zooBody})
		for o := 0; o < nOps; o++ {
			out = append(out, sequences([]int{o}, depth))
		}
		return out
	})
}
