// Command e07 model-checks event.Resubscribe and event.ResubscribeErr.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"flychain/common/mclock"
	"flychain/event"
	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
)

// A program is the behaviour of the successive calls of the function and the
// threads that use the resubscribing subscription. Calls:
//
//	f  fails at once
//	F  fails after three times the maximal backoff
//	h  fails after half the maximal backoff
//	c  waits until its context is cancelled and fails
//	C  waits until its context is cancelled and returns a subscription
//	e  returns a subscription that has already failed
//	n  returns a subscription that has already ended
//	d  returns a subscription that fails after a delay
//	N  returns a subscription that ends after a delay
//	s  returns a subscription that stays
//	z  returns a subscription that reports success: a nil error, not yet closed
//	p  returns a subscription made by NewSubscription that fails at once
//
// After the last one the function behaves like s. Threads: u unsubscribes,
// r reads the error channel until it is closed.
type program struct {
	calls   string
	threads []string
	idle    bool
	plain   bool // Resubscribe instead of ResubscribeErr
}

func (p program) String() string {
	return fmt.Sprintf("%s idle=%v plain=%v %s", p.calls, p.idle, p.plain, strings.Join(p.threads, " | "))
}

const backoffMax = 100 * time.Second

type innerSub struct {
	err    chan error
	once   sync.Once
	unsubs int32
}

func newInner() *innerSub             { return &innerSub{err: make(chan error, 1)} }
func (s *innerSub) Err() <-chan error { return s.err }
func (s *innerSub) end(err error)     { s.once.Do(func() { s.fin(err) }) }
func (s *innerSub) fin(err error) {
	if err != nil {
		s.err <- err
	}
	close(s.err)
}
func (s *innerSub) Unsubscribe() {
	atomic.AddInt32(&s.unsubs, 1)
	s.end(nil)
}

type callRec struct {
	kind       byte
	start, end mclock.AbsTime
	err        error // returned
	arg        error
	sub        *innerSub
	subErr     error // the error that the established subscription ends with
}

type run struct {
	p        program
	sub      event.Subscription
	calls    []*callRec
	ncalls   int32
	running  int32
	stopped  int32 // an Unsubscribe returned
	produced int32
	prodEnd  int32
}

func (r *run) call(ctx context.Context, arg error) (event.Subscription, error) {
	if atomic.LoadInt32(&r.stopped) != 0 {
		mc.Failf("the function is called after Unsubscribe returned")
	}
	if atomic.AddInt32(&r.running, 1) != 1 {
		mc.Failf("two calls of the function run at the same time")
	}
	n := int(atomic.AddInt32(&r.ncalls, 1)) - 1
	kind := byte('s')
	if n < len(r.p.calls) {
		kind = r.p.calls[n]
	}
	if n > len(r.p.calls)+2 {
		mc.Failf("the function is called again and again")
	}
	c := &callRec{kind: kind, start: mclock.Now(), arg: arg}
	r.calls = append(r.calls, c)
	select {
	case <-ctx.Done():
		// only after Unsubscribe began; the loop is told by the context
	default:
	}
	var sub event.Subscription
	myErr := fmt.Errorf("error of call %d", n)
	switch kind {
	case 'f':
		c.err = myErr
	case 'F':
		time.Sleep(3 * backoffMax)
		c.err = myErr
	case 'h':
		time.Sleep(backoffMax / 2)
		c.err = myErr
	case 'c':
		<-ctx.Done()
		c.err = ctx.Err()
	case 'p':
		sub = event.NewSubscription(func(quit <-chan struct{}) error {
			atomic.AddInt32(&r.produced, 1)
			defer atomic.AddInt32(&r.prodEnd, 1)
			return myErr
		})
		c.subErr = myErr
	default:
		if kind == 'C' {
			<-ctx.Done()
		}
		s := newInner()
		c.sub, sub = s, s
		switch kind {
		case 'e':
			c.subErr = myErr
			s.end(myErr)
		case 'n':
			s.end(nil)
		case 'z':
			s.err <- nil
		case 'd', 'N':
			if kind == 'd' {
				c.subErr = myErr
			}
			err := c.subErr
			go func() {
				time.Sleep(backoffMax / 4)
				s.end(err)
			}()
		}
	}
	c.end = mclock.Now()
	atomic.AddInt32(&r.running, -1)
	return sub, c.err
}

func (r *run) mustBeClosed(who string) {
	select {
	case err, ok := <-r.sub.Err():
		if ok {
			mc.Failf("%s: the error channel carries %v", who, err)
		}
	default:
		mc.Failf("%s: the error channel is not closed after Unsubscribe returned", who)
	}
}

func (r *run) thread(prog string) {
	for _, a := range prog {
		switch a {
		case 'u':
			r.sub.Unsubscribe()
			atomic.StoreInt32(&r.stopped, 1)
			if atomic.LoadInt32(&r.running) != 0 {
				mc.Failf("Unsubscribe returned while a call of the function was running")
			}
			r.mustBeClosed("Unsubscribe")
		case 'r':
			for err := range r.sub.Err() {
				mc.Failf("the error channel carries %v", err)
			}
		}
	}
}

func (p program) scenario() *mc.Scenario {
	return &mc.Scenario{Name: p.String(), Idle: p.idle, Body: func() {
		r := &run{p: p}
		if p.plain {
			r.sub = event.Resubscribe(backoffMax, func(ctx context.Context) (event.Subscription, error) { return r.call(ctx, nil) })
		} else {
			r.sub = event.ResubscribeErr(backoffMax, r.call)
		}
		var fs []func()
		for _, t := range p.threads {
			t := t
			fs = append(fs, func() { r.thread(t) })
		}
		mc.Par(fs...)
		r.sub.Unsubscribe()
		r.mustBeClosed("the final Unsubscribe")
		r.check()
	}}
}

// long runs every sequence of up to steps calls, and long ones of one or two
// kinds, without Unsubscribe.
func long(steps, max int) *mc.Scenario {
	var seqs []string
	var rec func(s string)
	rec = func(s string) {
		seqs = append(seqs, s+"n", s+"z")
		if len(s) < steps {
			for _, k := range "fFhedp" {
				rec(s + string(k))
			}
		}
	}
	rec("")
	for _, n := range ref.SizeList(24, max) {
		for _, s := range []string{"f", "h", "e", "d", "p", "fe", "ff" + "F", "de", "ffffffe"} {
			seqs = append(seqs, strings.Repeat(s, n)+"n")
		}
		seqs = append(seqs, "F"+strings.Repeat("f", n)+"n", strings.Repeat("f", n)+"F"+strings.Repeat("f", n)+"n", strings.Repeat("e", n)+"ffn", strings.Repeat("f", n)+"e"+strings.Repeat("f", n)+"n")
	}
	return &mc.Scenario{Name: fmt.Sprintf("sequences of %d calls, and long ones", steps), Idle: true, Straight: true, Steps: 1000000, Body: func() {
		p := program{calls: seqs[mc.Choose(len(seqs))], idle: true, threads: []string{"r"}}
		p.plain = mc.Choose(2) == 1
		p.scenario().Body()
	}}
}

func (r *run) check() {
	unsub := strings.Contains(strings.Join(r.p.threads, " "), "u")
	var last error
	var out []string
	wait := time.Duration(0)
	for i, c := range r.calls {
		out = append(out, string(rune(c.kind)))
		if !r.p.plain && c.arg != last {
			mc.Failf("call %d gets the error %v, the last established subscription ended with %v", i, c.arg, last)
		}
		if c.sub != nil && atomic.LoadInt32(&c.sub.unsubs) == 0 {
			mc.Failf("the subscription returned by call %d (%c) is never unsubscribed", i, c.kind)
		}
		if c.err == nil {
			last = c.subErr
		}
		if i == len(r.calls)-1 {
			break
		}
		if c.err == nil && c.subErr == nil {
			mc.Failf("the function is called again after call %d, whose subscription did not fail", i)
		}
		if c.err == nil {
			continue
		}
		if !r.p.idle {
			continue // the clock moves at any time
		}
		w := r.calls[i+1].start.Sub(c.end)
		slow := c.end.Sub(c.start) > backoffMax
		out = append(out, fmt.Sprint(w))
		if w > backoffMax {
			mc.Failf("the wait after call %d is %v, the maximum is %v", i, w, backoffMax)
		}
		if w <= 0 {
			mc.Failf("the function is called again at once after call %d failed", i)
		}
		if (wait == 0 || slow) && w >= backoffMax/2 {
			mc.Failf("the wait after call %d starts at %v, the maximum is %v", i, w, backoffMax)
		}
		if wait != 0 && !slow && (w < wait || w == wait && w < backoffMax) {
			mc.Failf("the wait does not grow: %v, then %v", wait, w)
		}
		wait = w
	}
	if len(r.calls) == 0 && !unsub {
		mc.Failf("the function is never called")
	}
	if atomic.LoadInt32(&r.produced) != atomic.LoadInt32(&r.prodEnd) {
		mc.Failf("a producer is still running")
	}
	if !unsub {
		// the error channel was closed without Unsubscribe
		c := r.calls[len(r.calls)-1]
		if c.err != nil || c.subErr != nil {
			mc.Failf("the subscription ended by itself after call %d (%c)", len(r.calls)-1, c.kind)
		}
	}
	mc.Outcome("%s", strings.Join(out, " "))
}

type ownError struct{ n int }

func (e *ownError) Error() string { return "" }

type codes []int

func (c codes) Error() string { return fmt.Sprint([]int(c)) }

func errs() []error {
	return []error{errors.New("e"), errors.New(""), context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("w: %w", context.Canceled), &ownError{1}, (*ownError)(nil), event.ErrMuxClosed, os.ErrClosed, codes{1}, codes(nil)}
}

// same compares errors that may not be comparable.
func same(a, b error) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(a, b)
}

// errorsBody lets calls and subscriptions fail with every kind of error, with
// several maximal waits.
func errorsBody() {
	l := errs()
	maxima := []time.Duration{0, 1, 9, 10, 11, time.Millisecond, time.Second, time.Hour, 87600 * time.Hour}
	max := maxima[mc.Choose(len(maxima))]
	a, b := l[mc.Choose(len(l))], l[mc.Choose(len(l))]
	plain := mc.Choose(2) == 1
	with := mc.Choose(2) == 1 // failing calls return a subscription as well
	// two calls fail, one subscription, two calls, then one ends without error
	type step struct{ call, sub error }
	steps := []step{{call: a}, {call: b}, {sub: a}, {call: b}, {call: a}, {sub: b}, {}}
	n := 0
	var last error
	var ended, waited mclock.AbsTime
	var subs []*innerSub
	fn := func(ctx context.Context, arg error) (event.Subscription, error) {
		if n >= len(steps) {
			mc.Failf("call %d after the subscription ended without error", n)
		}
		st := steps[n]
		n++
		if ctx == nil || ctx.Err() != nil {
			mc.Failf("the context of call %d is cancelled", n)
		}
		if !plain && !same(arg, last) {
			mc.Failf("call %d gets the error %#v, the last established subscription ended with %#v", n, arg, last)
		}
		now := mclock.Now()
		if n > 1 && steps[n-2].call != nil {
			w := time.Duration(now - ended)
			if w > max {
				mc.Failf("the wait before call %d is %v, the maximum is %v", n, w, max)
			}
			if max >= 10 && w <= 0 {
				mc.Failf("call %d follows a failure at once, the maximal wait is %v", n, max)
			}
			if n == 2 && w > max/2 {
				mc.Failf("the first wait is %v, the maximum %v", w, max)
			}
			waited = mclock.AbsTime(w)
		}
		ended = now
		if st.call != nil {
			if with {
				return newInner(), st.call
			}
			return nil, st.call
		}
		s := newInner()
		s.end(st.sub)
		last = st.sub
		subs = append(subs, s)
		return s, nil
	}
	var sub event.Subscription
	if plain {
		sub = event.Resubscribe(max, func(ctx context.Context) (event.Subscription, error) { return fn(ctx, nil) })
	} else {
		sub = event.ResubscribeErr(max, fn)
	}
	for err := range sub.Err() {
		mc.Failf("the error channel carries %v", err)
	}
	sub.Unsubscribe()
	if n != len(steps) {
		mc.Failf("the subscription ended after %d calls, want %d; the calls failed with %#v and %#v", n, len(steps), a, b)
	}
	for i, s := range subs {
		if s.unsubs == 0 {
			mc.Failf("subscription %d is never unsubscribed", i)
		}
	}
	mc.Outcome("%v", waited)
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var out []*mc.Scenario
		add := func(calls string, idle, plain bool, threads ...string) {
			out = append(out, program{calls, threads, idle, plain}.scenario())
		}
		// the sequence of calls and their times, without Unsubscribe
		for _, c := range []string{"n", "fn", "ffffffn", "ffFfffn", "hffn", "en", "een", "efeffn", "dfN", "feFfdpn", "pn", "hhhhhn", "FFfn", "z", "fez"} {
			add(c, true, false, "r")
		}
		add("fefN", true, true, "r")
		if thorough {
			out = append(out, long(6, 520))
		} else {
			out = append(out, long(4, 130))
		}
		if thorough {
			// every sequence of up to five calls
			var rec func(s string)
			rec = func(s string) {
				add(s+"n", true, len(s)%3 == 2, "r")
				if len(s) < 4 {
					for _, k := range "fFhed" {
						rec(s + string(k))
					}
				}
			}
			rec("")
		}
		out = append(out, &mc.Scenario{Name: "errors and maximal waits", Idle: true, Straight: true, Steps: 100000, Body: errorsBody})
		// Unsubscribe at any point; the clock may move at any time
		seqs := []string{"s", "f", "ff", "F", "c", "C", "e", "n", "d", "N", "fc", "fC", "ec", "p", "fe", "ef", "z"}
		for _, c := range seqs {
			add(c, false, false, "u")
		}
		for _, c := range []string{"s", "f", "C", "e", "n", "N"} {
			add(c, false, false, "u", "u")
			add(c, false, false, "uu", "r")
		}
		if thorough {
			for _, a := range "sfFcCendNphz" {
				for _, b := range "sfFcCendNphz" {
					if strings.ContainsRune("fFedhp", a) {
						add(string(a)+string(b), false, false, "u", "u")
						add(string(a)+string(b), false, true, "u", "r")
						for _, c := range "sfcCen" {
							if strings.ContainsRune("fFedhp", b) {
								add(string(a)+string(b)+string(c), false, false, "u")
							}
						}
					} else if a == b {
						add(string(a), false, true, "u", "u", "u")
					}
				}
			}
		}
		seen := map[string]bool{}
		var uniq []*mc.Scenario
		for _, s := range out {
			if !seen[s.Name] {
				seen[s.Name] = true
				uniq = append(uniq, s)
			}
		}
		return uniq
	})
}
