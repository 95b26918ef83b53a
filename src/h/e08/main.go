// Command e08 model-checks event.SubscriptionScope.
package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"flychain/event"
	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
)

// A program lists threads of actions on one scope: tK tracks subscription K,
// uK unsubscribes the wrapper of K, c closes, n counts. init are the
// subscriptions tracked at the start. kind is the kind of subscriptions: F
// fakes that count their Unsubscribe calls, S feed subscriptions on a channel
// that nobody receives from, with a Send in progress.
type program struct {
	kind    byte
	init    []int
	threads []string
}

func (p program) String() string {
	return fmt.Sprintf("%c init%v %s", p.kind, p.init, strings.Join(p.threads, " | "))
}

type fake struct {
	err    chan error
	unsubs int32
}

func (f *fake) Err() <-chan error { return f.err }
func (f *fake) Unsubscribe()      { atomic.AddInt32(&f.unsubs, 1) }

type op struct {
	a         byte
	k         int
	call, ret int
	res       int // count, or 1 for a successful Track
}

type run struct {
	p     program
	scope event.SubscriptionScope
	inner []event.Subscription
	fakes []*fake
	wrap  []event.Subscription
	feed  event.Feed
	hist  [][]op
}

func (r *run) unsubs(k int) int {
	if r.p.kind == 'S' {
		select {
		case _, ok := <-r.inner[k].Err():
			if !ok {
				return 1
			}
		default:
		}
		return 0
	}
	return int(atomic.LoadInt32(&r.fakes[k].unsubs))
}

func (r *run) track(k int) int {
	w := r.scope.Track(r.inner[k])
	if w == nil {
		return 0
	}
	if w.Err() != r.inner[k].Err() {
		mc.Failf("the wrapper of subscription %d has another error channel", k)
	}
	r.wrap[k] = w
	return 1
}

func (r *run) thread(i int, prog string) {
	for _, a := range strings.Fields(prog) {
		o := op{a: a[0]}
		if len(a) > 1 {
			o.k = int(a[1] - '0')
		}
		if o.a == 'u' && r.wrap[o.k] == nil {
			continue // was not tracked
		}
		o.call = mc.StampCall()
		switch o.a {
		case 't':
			o.res = r.track(o.k)
		case 'u':
			r.wrap[o.k].Unsubscribe()
		case 'c':
			r.scope.Close()
		case 'n':
			o.res = r.scope.Count()
		}
		o.ret = mc.StampRet()
		if o.a == 'u' && r.unsubs(o.k) == 0 {
			mc.Failf("the wrapper of subscription %d was unsubscribed, the subscription was not", o.k)
		}
		if o.a == 'c' {
			for _, k := range r.p.init {
				// a subscription whose wrapper is being unsubscribed is no
				// longer tracked or has been unsubscribed by Close
				if r.unsubs(k) == 0 {
					mc.Failf("Close returned before subscription %d was unsubscribed", k)
				}
			}
		}
		r.hist[i] = append(r.hist[i], o)
	}
}

// linearizable says whether there is a sequential order of the operations
// that explains the results, starting with the given tracked set.
func linearizable(ops []op, set map[int]bool, closed bool) bool {
	if len(ops) == 0 {
		return true
	}
	for i, o := range ops {
		first := true
		for j, q := range ops {
			if j != i && q.ret < o.call {
				first = false
			}
		}
		if !first {
			continue
		}
		next := map[int]bool{}
		for k := range set {
			next[k] = true
		}
		nc := closed
		switch o.a {
		case 't':
			if (o.res == 1) == closed {
				continue
			}
			if !closed {
				next[o.k] = true
			}
		case 'u':
			delete(next, o.k)
		case 'c':
			nc = true
			next = map[int]bool{}
		case 'n':
			if o.res != len(set) {
				continue
			}
		}
		rest := append(append([]op{}, ops[:i]...), ops[i+1:]...)
		if linearizable(rest, next, nc) {
			return true
		}
	}
	return false
}

func (p program) scenario() *mc.Scenario {
	return &mc.Scenario{Name: p.String(), Body: func() {
		r := &run{p: p, hist: make([][]op, len(p.threads))}
		for k := 0; k < 4; k++ {
			f := &fake{err: make(chan error)}
			r.fakes = append(r.fakes, f)
			if p.kind == 'S' {
				r.inner = append(r.inner, r.feed.Subscribe(make(chan int)))
			} else {
				r.inner = append(r.inner, f)
			}
		}
		r.wrap = make([]event.Subscription, 4)
		set := map[int]bool{}
		for _, k := range p.init {
			if r.track(k) != 1 {
				mc.Failf("Track on an open scope returns nil")
			}
			set[k] = true
		}
		sent := make(chan int, 1)
		if p.kind == 'S' {
			go func() { sent <- r.feed.Send(1) }()
		}
		var fs []func()
		for i, t := range p.threads {
			i, t := i, t
			fs = append(fs, func() { r.thread(i, t) })
		}
		mc.Par(fs...)
		var ops []op
		last := 0
		did := map[string]bool{}
		var out []string
		for _, h := range r.hist {
			for _, o := range h {
				ops = append(ops, o)
				if o.ret > last {
					last = o.ret
				}
				switch {
				case o.a == 'n':
					out = append(out, fmt.Sprint("n", o.res))
				case o.a == 't':
					did[fmt.Sprint("t", o.k, o.res)] = true
					out = append(out, fmt.Sprint("t", o.res))
				default:
					did[fmt.Sprintf("%c%d", o.a, o.k)] = true
				}
			}
		}
		n := r.scope.Count()
		out = append(out, fmt.Sprint(n))
		ops = append(ops, op{a: 'n', call: last + 1, ret: last + 2, res: n})
		if !linearizable(ops, set, false) {
			mc.Failf("no order of the operations explains their results: %v", r.describe(ops))
		}
		closed := did["c0"]
		for k := range r.inner {
			tracked := did[fmt.Sprint("t", k, 1)]
			for _, i := range p.init {
				tracked = tracked || i == k
			}
			u := did[fmt.Sprint("u", k)]
			switch n := r.unsubs(k); {
			case n == 0 && tracked && (u || closed):
				mc.Failf("subscription %d was not unsubscribed", k)
			case n != 0 && !u && !(tracked && closed):
				mc.Failf("subscription %d was unsubscribed although nobody asked for it", k)
			case n > 1+strings.Count(strings.Join(p.threads, " "), fmt.Sprint("u", k)):
				mc.Failf("subscription %d was unsubscribed %d times", k, n)
			}
		}
		// closing ends everything and is permanent
		r.scope.Close()
		r.scope.Close()
		for k, w := range r.wrap {
			if w != nil && r.unsubs(k) == 0 {
				mc.Failf("after Close subscription %d is not unsubscribed", k)
			}
		}
		if n := r.scope.Count(); n != 0 {
			mc.Failf("Count is %d after Close", n)
		}
		before := r.unsubs(3)
		if w := r.scope.Track(r.inner[3]); w != nil {
			mc.Failf("Track on a closed scope returns a wrapper")
		}
		if r.unsubs(3) != before {
			mc.Failf("Track on a closed scope unsubscribes the subscription")
		}
		for _, w := range r.wrap {
			if w != nil {
				w.Unsubscribe()
			}
		}
		if r.scope.Count() != 0 {
			mc.Failf("Count is not 0 after Close")
		}
		if p.kind == 'S' {
			for _, s := range r.inner {
				s.Unsubscribe()
			}
			if n := <-sent; n != 0 {
				mc.Failf("Send reports %d deliveries on channels that nobody received from", n)
			}
		}
		mc.Outcome("%s", strings.Join(out, " "))
	}}
}

func (r *run) describe(ops []op) string {
	var l []string
	for _, o := range ops {
		l = append(l, fmt.Sprintf("%c%d=%d[%d,%d]", o.a, o.k, o.res, o.call, o.ret))
	}
	return strings.Join(l, " ")
}

func twice() *mc.Scenario {
	return &mc.Scenario{Name: "one subscription tracked twice", Body: func() {
		var sc event.SubscriptionScope
		f := &fake{err: make(chan error)}
		if sc.Count() != 0 {
			mc.Failf("an unused scope tracks %d", sc.Count())
		}
		a, b := sc.Track(f), sc.Track(f)
		if sc.Count() != 2 {
			mc.Failf("two wrappers are counted as %d", sc.Count())
		}
		mc.Par(a.Unsubscribe, a.Unsubscribe)
		if sc.Count() != 1 {
			mc.Failf("after the end of one of two wrappers %d are counted", sc.Count())
		}
		n := f.unsubs
		mc.Par(sc.Close, b.Unsubscribe, sc.Close)
		if f.unsubs == n {
			mc.Failf("the second wrapper's end does not reach the subscription")
		}
		if sc.Count() != 0 {
			mc.Failf("after Close %d are counted", sc.Count())
		}
		var fresh event.SubscriptionScope
		fresh.Close()
		if fresh.Track(f) != nil {
			mc.Failf("Track on a closed scope returns a wrapper")
		}
	}}
}

// wrappers tracks wrappers of the same scope and of another one.
func wrappers() *mc.Scenario {
	return &mc.Scenario{Name: "wrappers tracked", MaxBound: -1, Straight: true, Body: func() {
		var sc, other event.SubscriptionScope
		f, g := &fake{err: make(chan error)}, &fake{err: make(chan error)}
		count := func(when string, a, b int) {
			if sc.Count() != a || other.Count() != b {
				mc.Failf("%s: the scopes count %d and %d, want %d and %d", when, sc.Count(), other.Count(), a, b)
			}
		}
		a := sc.Track(f)
		b := sc.Track(a) // a wrapper of a wrapper of the same scope
		count("a wrapper tracked again", 2, 0)
		c := other.Track(b)
		count("a wrapper tracked elsewhere", 2, 1)
		if b.Err() != (<-chan error)(f.err) || c.Err() != (<-chan error)(f.err) {
			mc.Failf("another error channel")
		}
		switch mc.Choose(5) {
		case 0: // the outermost ends everything below it
			c.Unsubscribe()
			count("outermost ended", 0, 0)
		case 1:
			b.Unsubscribe()
			count("middle ended", 0, 1)
		case 2:
			a.Unsubscribe()
			count("innermost ended", 1, 1)
		case 3:
			other.Close()
			count("other scope closed", 0, 0)
		case 4:
			d := sc.Track(g)
			e := other.Track(d)
			count("more tracked", 3, 2)
			e.Unsubscribe()
			count("one of them ended", 2, 1)
			a.Unsubscribe()
			b.Unsubscribe()
			count("all of one scope ended", 0, 1)
			sc.Close()
			count("closed", 0, 1)
			if sc.Track(c) != nil {
				mc.Failf("Track on a closed scope returns a wrapper")
			}
			other.Close()
			count("both closed", 0, 0)
			if g.unsubs == 0 {
				mc.Failf("the second subscription is never ended")
			}
		}
		if f.unsubs == 0 {
			mc.Failf("the end of a wrapper does not reach the subscription")
		}
		mc.Outcome("done")
	}}
}

// many tracks n subscriptions, ends some of them and closes the scope.
func many(dense, max int) *mc.Scenario {
	sizes := ref.SizeList(dense, max)
	return &mc.Scenario{Name: fmt.Sprintf("0..%d and more, up to %d subscriptions", dense, max), MaxBound: -1, Steps: 4000000, Straight: true, Body: func() {
		n := sizes[mc.Choose(len(sizes))]
		var scope event.SubscriptionScope
		fakes := make([]*fake, n)
		wraps := make([]event.Subscription, n)
		want := make([]int32, n)
		live := 0
		check := func(when string) {
			if c := scope.Count(); c != live {
				mc.Failf("%d subscriptions, %s: Count is %d, want %d", n, when, c, live)
			}
			for i, f := range fakes {
				if f != nil && f.unsubs != want[i] {
					mc.Failf("%d subscriptions, %s: number %d was unsubscribed %d times, want %d", n, when, i, f.unsubs, want[i])
				}
			}
		}
		for i := range fakes {
			fakes[i] = &fake{err: make(chan error, 1)}
			wraps[i] = scope.Track(fakes[i])
			if wraps[i] == nil {
				mc.Failf("Track %d returns nil", i)
			}
			live++
			check("tracking")
		}
		for i := range fakes {
			if i%3 == 1 || i == n-1 {
				wraps[i].Unsubscribe()
				want[i]++
				live--
			}
		}
		check("unsubscribed")
		scope.Close()
		live = 0
		for i := range fakes {
			if want[i] == 0 {
				want[i]++
			}
		}
		check("closed")
		if scope.Track(&fake{}) != nil {
			mc.Failf("Track after Close returns a subscription")
		}
		scope.Close()
		check("closed twice")
		mc.Outcome("done")
	}}
}

// histories runs every sequence of steps calls on one scope by one thread:
// tK tracks subscription K (again), uK and vK end the newest and the oldest
// wrapper of it, eK makes the subscription end by itself with an error, c
// closes, n tracks a whole scope of which closing is the Unsubscribe.
func histories(steps int) *mc.Scenario {
	acts := []string{"t0", "t1", "u0", "v0", "u1", "e0", "c", "n"}
	return &mc.Scenario{Name: fmt.Sprintf("all sequences of %d calls", steps), MaxBound: -1, Straight: true, Body: func() {
		var scope event.SubscriptionScope
		var log []string
		var fakes [2]*fake
		var want [2]int32
		var tracked [2]int // wrappers the scope tracks
		var wraps [2][]event.Subscription
		var ended [2][]bool
		for k := range fakes {
			fakes[k] = &fake{err: make(chan error, 1)}
		}
		var subs []*nested
		closed := false
		nn := 0 // nested scopes tracked
		end := func(k, i int) {
			if i < 0 {
				return
			}
			wraps[k][i].Unsubscribe()
			want[k]++ // the subscription is told each time
			if !ended[k][i] && !closed {
				tracked[k]--
			}
			ended[k][i] = true
		}
		for i := 0; i < steps; i++ {
			a := acts[mc.Choose(len(acts))]
			log = append(log, a)
			k := 0
			if a[len(a)-1] == '1' {
				k = 1
			}
			slack := int32(0) // tellings that may be left out
			switch a[0] {
			case 't':
				w := scope.Track(fakes[k])
				if (w == nil) != closed {
					mc.Failf("%v: Track returns %v", log, w)
				}
				if w != nil {
					if w.Err() != (<-chan error)(fakes[k].err) {
						mc.Failf("%v: another error channel", log)
					}
					wraps[k], ended[k] = append(wraps[k], w), append(ended[k], false)
					tracked[k]++
				}
			case 'u', 'v':
				i := len(wraps[k]) - 1
				if a[0] == 'v' && i > 0 {
					i = 0
				}
				// a wrapper that was ended before may or may not tell the
				// subscription again
				if i >= 0 && (ended[k][i] || closed) {
					slack = 1
				}
				end(k, i)
			case 'e':
				select {
				case fakes[k].err <- fmt.Errorf("over"):
				default:
				}
			case 'n':
				s := &nested{f: &fake{err: make(chan error, 1)}}
				s.sc.Track(s.f)
				w := scope.Track(s)
				if (w == nil) != closed {
					mc.Failf("%v: Track of a scope returns %v", log, w)
				}
				if w != nil {
					subs = append(subs, s)
					nn++
				}
			case 'c':
				scope.Close()
				if !closed {
					for k := range tracked {
						want[k] += int32(tracked[k])
						if tracked[k] > 1 { // once is enough
							slack = int32(tracked[k] - 1)
						}
						tracked[k] = 0
					}
				}
				closed, nn = true, 0
				for _, s := range subs {
					if s.f.unsubs != 1 || s.sc.Count() != 0 {
						mc.Failf("%v: a nested scope was closed %d times", log, s.f.unsubs)
					}
				}
			}
			if n := scope.Count(); n != tracked[0]+tracked[1]+nn {
				mc.Failf("%v: Count is %d, want %d+%d+%d", log, n, tracked[0], tracked[1], nn)
			}
			for k, f := range fakes {
				switch n := atomic.LoadInt32(&f.unsubs); {
				case n == want[k]:
				case n < want[k] && n >= want[k]-slack:
					want[k] = n
				default:
					mc.Failf("%v: subscription %d was unsubscribed %d times, want %d", log, k, n, want[k])
				}
			}
		}
		mc.Outcome("%d %d %v", want, tracked, closed)
	}}
}

type nested struct {
	sc event.SubscriptionScope
	f  *fake
}

func (s *nested) Err() <-chan error { return s.f.err }
func (s *nested) Unsubscribe()      { s.sc.Close() }

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		out := []*mc.Scenario{twice(), wrappers()}
		if thorough {
			out = append(out, many(100, 2060), histories(7))
		} else {
			out = append(out, many(40, 1030), histories(5))
		}
		add := func(kind byte, init []int, threads ...string) {
			out = append(out, program{kind, init, threads}.scenario())
		}
		add('F', []int{0, 1}, "u0", "u1", "n n")
		add('F', []int{0, 1}, "u0", "c", "n")
		add('F', []int{0, 1}, "c", "c", "n")
		add('F', []int{0}, "t1 u1", "c", "n")
		add('F', []int{0}, "t1", "t2", "n n")
		add('F', []int{}, "t0 n", "t1 n", "c")
		add('F', []int{0, 1, 2}, "u1 n", "u0 n")
		add('F', []int{0}, "u0", "u0", "n")
		add('F', []int{0, 1}, "u0 c", "t2 u2")
		add('F', []int{0, 1}, "c t2", "t3 n")
		add('S', []int{0, 1}, "c", "u1")
		add('S', []int{0}, "c", "t1")
		add('S', []int{0, 1}, "u0", "u1")
		if thorough {
			scripts := []string{"u0", "u1", "c", "n", "t2", "t2 u2", "n n", "u0 n", "c n", "t2 n", "c c"}
			for i := range scripts {
				for j := i; j < len(scripts); j++ {
					for m := j; m < len(scripts); m++ {
						ts := []string{scripts[i], scripts[j], scripts[m]}
						if strings.Count(strings.Join(ts, " "), "t2") > 1 {
							continue
						}
						add('F', []int{0, 1}, ts...)
						if strings.Count(strings.Join(ts, ""), "n") == 0 {
							add('S', []int{0, 1}, ts...)
						}
					}
				}
			}
		}
		return out
	})
}
