package main

import (
	"errors"
	"fmt"

	"flychain/event"
	"flychain/zzmc/mc"
)

// Element types: a value of any type, nil included where the type has one,
// reaches every subscriber as it was sent.

type point struct{ x, y int }

func (p *point) Error() string { return "point" }

func show(v interface{}) string { return fmt.Sprintf("%T:%v", v, v) }

func elements[T any](name string, values ...T) []*mc.Scenario {
	body := func(subscribe func(ch chan T) event.Subscription, send func(v T) int) {
		buffered, plain := make(chan T, len(values)), make(chan T)
		var got []string
		s0, s1 := subscribe(buffered), subscribe(plain)
		end := make(chan struct{})
		mc.Go(func() {
			for v := range plain {
				got = append(got, show(v))
			}
			close(end)
		})
		for _, v := range values {
			if n := send(v); n != 2 {
				mc.Failf("Send(%s) returned %d with two subscribers", show(v), n)
			}
		}
		s1.Unsubscribe()
		close(plain)
		<-end
		if len(got) != len(values) {
			mc.Failf("%d values arrived out of %d", len(got), len(values))
		}
		for i, v := range values {
			select {
			case x := <-buffered:
				if show(x) != show(v) {
					mc.Failf("%s arrived as %s", show(v), show(x))
				}
			default:
				mc.Failf("%s did not arrive", show(v))
			}
			if got[i] != show(v) {
				mc.Failf("%s arrived as %s", show(v), got[i])
			}
		}
		for _, v := range values {
			if n := send(v); n != 1 {
				mc.Failf("Send(%s) returned %d with one subscriber", show(v), n)
			}
			if x := <-buffered; show(x) != show(v) {
				mc.Failf("%s arrived as %s after an Unsubscribe", show(v), show(x))
			}
		}
		s0.Unsubscribe()
		for _, v := range values {
			if n := send(v); n != 0 {
				mc.Failf("Send(%s) returned %d without subscriber", show(v), n)
			}
		}
		if len(buffered) != 0 {
			mc.Failf("a value arrived after Unsubscribe")
		}
	}
	out := []*mc.Scenario{{Name: "FeedOf[" + name + "]", Body: func() {
		var f event.FeedOf[T]
		body(func(ch chan T) event.Subscription { return f.Subscribe(ch) }, func(v T) int { return f.Send(v) })
	}}}
	// the untyped feed knows a value's dynamic type only
	if fmt.Sprintf("%T", *new(T)) != "<nil>" {
		out = append(out, &mc.Scenario{Name: "Feed of " + name, Body: func() {
			var f event.Feed
			body(func(ch chan T) event.Subscription { return f.Subscribe(ch) }, func(v T) int { return f.Send(v) })
		}})
	}
	return out
}

func elementTypes() []*mc.Scenario {
	e := errors.New("e")
	var out []*mc.Scenario
	out = append(out, elements[error]("error", e, nil, &point{}, (*point)(nil), nil)...)
	out = append(out, elements[interface{}]("interface", nil, 1, "s", nil, e, (*point)(nil))...)
	out = append(out, elements[*point]("pointer", nil, &point{1, 2})...)
	out = append(out, elements[[]byte]("slice", nil, []byte{1}, []byte{})...)
	out = append(out, elements[map[int]int]("map", nil, map[int]int{1: 2})...)
	out = append(out, elements[point]("struct", point{}, point{1, 2})...)
	out = append(out, elements[struct{}]("empty", struct{}{})...)
	out = append(out, elements[string]("string", "", "a")...)
	return out
}
