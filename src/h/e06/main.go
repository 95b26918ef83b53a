// Command e06 model-checks event.NewSubscription.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"sync/atomic"

	"flychain/event"
	"flychain/zzmc/mc"
)

var errProducer = errors.New("producer error")
var errQuit = errors.New("error after quit")

// A program is the producer's behaviour and the threads that use the
// subscription. Producers: W waits for quit and returns nil, E waits for quit
// and returns an error, i returns an error at once, n returns nil at once, x
// returns an error on an external event, m nil on an external event, S sends
// values until quit and returns an error after the last one, Q ends a nested
// subscription when it quits. Threads: u unsubscribes, ! raises the external
// event, v receives the values. reader says whether the error channel is read
// from the start.
type program struct {
	producer byte
	threads  []string
	reader   bool
}

func (p program) String() string {
	return fmt.Sprintf("%c reader=%v %s", p.producer, p.reader, strings.Join(p.threads, " | "))
}

type run struct {
	p        program
	sub      event.Subscription
	inner    event.Subscription
	ext      chan struct{}
	out      chan int
	over     chan struct{} // closed when the producer returns
	started  int32
	ended    int32
	inEnded  int32
	sawQuit  int32
	early    int32 // quit seen before any Unsubscribe began
	asked    int32
	avail    int32 // the error was waiting to be read when an Unsubscribe began
	produced error
}

func (r *run) producer(quit <-chan struct{}) error {
	if atomic.AddInt32(&r.started, 1) != 1 {
		mc.Failf("the producer is called a second time")
	}
	ret := func(err error) error {
		r.produced = err
		atomic.StoreInt32(&r.ended, 1)
		close(r.over)
		return err
	}
	onQuit := func() {
		atomic.StoreInt32(&r.sawQuit, 1)
		if atomic.LoadInt32(&r.asked) == 0 {
			mc.Failf("the quit channel is closed although nobody called Unsubscribe")
		}
	}
	switch r.p.producer {
	case 'W':
		<-quit
		onQuit()
		return ret(nil)
	case 'E':
		<-quit
		onQuit()
		return ret(errQuit)
	case 'i':
		return ret(errProducer)
	case 'n':
		return ret(nil)
	case 'x', 'm':
		select {
		case <-quit:
			onQuit()
			return ret(nil)
		case <-r.ext:
			if r.p.producer == 'm' {
				return ret(nil)
			}
			return ret(errProducer)
		}
	case 'S':
		for i := 1; i <= 2; i++ {
			select {
			case <-quit:
				onQuit()
				return ret(nil)
			case r.out <- i:
			}
		}
		return ret(errProducer)
	case 'Q':
		r.inner = event.NewSubscription(func(q <-chan struct{}) error {
			<-q
			atomic.StoreInt32(&r.inEnded, 1)
			return errQuit
		})
		<-quit
		onQuit()
		r.inner.Unsubscribe()
		if atomic.LoadInt32(&r.inEnded) != 1 {
			mc.Failf("Unsubscribe of the nested subscription returned before its producer did")
		}
		return ret(nil)
	}
	panic("bad producer")
}

// unsubs is the number of Unsubscribe calls in the program.
func (p program) unsubs() int { return strings.Count(strings.Join(p.threads, " "), "u") }

func (r *run) thread(prog string, got *[]int) {
	for _, a := range strings.Fields(prog) {
		switch a[0] {
		case 'u':
			atomic.StoreInt32(&r.asked, 1)
			if !r.p.reader && len(r.sub.Err()) > 0 {
				atomic.StoreInt32(&r.avail, 1)
			}
			r.sub.Unsubscribe()
			if r.p.unsubs() == 1 {
				if atomic.LoadInt32(&r.ended) != 1 {
					mc.Failf("Unsubscribe returned while the producer was running")
				}
				if strings.ContainsRune("WEQ", rune(r.p.producer)) {
					select {
					case err, ok := <-r.sub.Err():
						if ok {
							mc.Failf("the error channel carries %v after Unsubscribe", err)
						}
					default:
						mc.Failf("the error channel is not closed after Unsubscribe returned")
					}
				}
			}
		case '!':
			select {
			case r.ext <- struct{}{}:
			default:
			}
		case 'v':
			select {
			case x := <-r.out:
				*got = append(*got, x)
			case <-r.over:
			}
		}
	}
}

func (p program) scenario() *mc.Scenario {
	return &mc.Scenario{Name: p.String(), Body: func() {
		r := &run{p: p, ext: make(chan struct{}, 1), out: make(chan int, 1), over: make(chan struct{})}
		r.sub = event.NewSubscription(r.producer)
		var errs []error
		read := func() {
			for err := range r.sub.Err() {
				errs = append(errs, err)
			}
		}
		done := make(chan int)
		if p.reader {
			go func() { read(); close(done) }()
		}
		if r.sub.Err() != r.sub.Err() {
			mc.Failf("Err returns different channels")
		}
		got := make([][]int, len(p.threads))
		var fs []func()
		for i, t := range p.threads {
			i, t := i, t
			fs = append(fs, func() { r.thread(t, &got[i]) })
		}
		mc.Par(fs...)
		n := p.unsubs()
		if n > 0 && atomic.LoadInt32(&r.ended) != 1 {
			mc.Failf("all Unsubscribe calls returned while the producer was running")
		}
		self := strings.ContainsRune("in", rune(p.producer)) || strings.ContainsRune("xm", rune(p.producer)) && strings.Contains(strings.Join(p.threads, " "), "!") || p.producer == 'S' && strings.Count(strings.Join(p.threads, " "), "v") >= 1
		if n == 0 && !self {
			// nothing has ended the subscription
			if atomic.LoadInt32(&r.ended) != 0 {
				mc.Failf("the producer ended although nothing asked it to")
			}
			select {
			case err, ok := <-r.sub.Err():
				mc.Failf("the error channel of a running subscription delivers %v %v", err, ok)
			default:
			}
			atomic.StoreInt32(&r.asked, 1)
			r.sub.Unsubscribe()
		}
		if p.reader {
			<-done
		} else {
			read()
		}
		r.sub.Unsubscribe()
		r.sub.Unsubscribe()
		if _, ok := <-r.sub.Err(); ok {
			mc.Failf("the error channel carries a second value")
		}
		if atomic.LoadInt32(&r.started) != 1 || atomic.LoadInt32(&r.ended) != 1 {
			mc.Failf("the error channel is closed but the producer ran %d times", r.started)
		}
		if len(errs) > 1 {
			mc.Failf("the error channel carried %d values", len(errs))
		}
		if len(errs) == 1 {
			if atomic.LoadInt32(&r.sawQuit) != 0 {
				mc.Failf("the error %v is delivered after Unsubscribe", errs[0])
			}
			if errs[0] != r.produced {
				mc.Failf("the producer returned %v, the error channel carried %v", r.produced, errs[0])
			}
		}
		if n == 0 && r.produced != nil && atomic.LoadInt32(&r.sawQuit) == 0 && len(errs) != 1 {
			mc.Failf("the producer failed with %v but the error channel carried nothing", r.produced)
		}
		if atomic.LoadInt32(&r.avail) != 0 && len(errs) != 1 {
			mc.Failf("the producer's error was available before Unsubscribe began and was lost")
		}
		mc.Outcome("produced %v quit %v delivered %v values %v", r.produced, r.sawQuit, errs, got)
	}}
}

type ownError struct{ n int }

func (e *ownError) Error() string { return "" }

type codes []int

func (c codes) Error() string { return fmt.Sprint([]int(c)) }

// errorsBody ends producers with every kind of error, at once or asked to.
func errorsBody() {
	errs := []error{nil, errors.New("e"), errors.New(""), context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("w: %w", context.Canceled), &ownError{1}, (*ownError)(nil), event.ErrMuxClosed, os.ErrClosed, codes{1}, codes(nil)}
	e := errs[mc.Choose(len(errs))]
	asked := mc.Choose(2) == 1
	before := mc.Choose(2) == 1 // Unsubscribe before the error is read
	over := make(chan struct{})
	sub := event.NewSubscription(func(quit <-chan struct{}) error {
		defer close(over)
		if asked {
			<-quit
		}
		return e
	})
	if asked || before {
		if !asked {
			<-over
			for k := 0; e != nil && k < 50 && len(sub.Err()) == 0; k++ {
				mc.Point() // until the error waits to be read
			}
		}
		sub.Unsubscribe()
	}
	var got []error
	for err := range sub.Err() {
		got = append(got, err)
	}
	sub.Unsubscribe()
	want := 1
	if asked || e == nil {
		want = 0
	}
	if len(got) > want || !before && len(got) != want {
		mc.Failf("a producer that ends with %#v (asked: %v) gives the errors %#v", e, asked, got)
	}
	for _, g := range got {
		if reflect.TypeOf(g) != reflect.TypeOf(e) || !reflect.DeepEqual(g, e) {
			mc.Failf("a producer that ends with %#v gives the error %#v", e, g)
		}
	}
	mc.Outcome("%d", len(got))
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var out []*mc.Scenario
		for _, pr := range "WEinxmSQ" {
			base := []string{}
			switch pr {
			case 'x', 'm':
				base = []string{"!"}
			case 'S':
				base = []string{"v"}
			}
			for _, rd := range []bool{false, true} {
				sets := [][]string{{}, {"u"}, {"u", "u"}, {"u u", "u"}}
				if thorough {
					sets = append(sets, []string{"u", "u", "u"}, []string{"u u", "u u"})
				}
				for _, us := range sets {
					ts := append(append([]string{}, base...), us...)
					out = append(out, program{byte(pr), ts, rd}.scenario())
				}
				if len(base) > 0 && thorough {
					out = append(out, program{byte(pr), []string{base[0] + " u", "u"}, rd}.scenario())
					out = append(out, program{byte(pr), []string{"u " + base[0], "u"}, rd}.scenario())
				}
			}
		}
		out = append(out, &mc.Scenario{Name: "errors of every kind", Straight: true, Body: errorsBody})
		return out
	})
}
