// Command e05 model-checks event.TypeMux.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"flychain/event"
	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
	"flychain/zzmc/zoo"
)

type evA struct{ v int }
type evB struct{ v int }

// Subscriptions are written as types and receiver: "aD" subscribes to evA and
// always receives, "abN" to both and never receives. Threads: a, b post an
// event, -k unsubscribe, +k subscribe, ! stop.
type program struct {
	subs    []string
	init    []int
	threads []string
}

func (p program) String() string {
	return fmt.Sprintf("%s init%v %s", strings.Join(p.subs, ","), p.init, strings.Join(p.threads, " | "))
}

type subS struct {
	s         *event.TypeMuxSubscription
	subRet    int
	subCall   int
	closeCall int
	closeRet  int
	got       []interface{}
	done      chan int
	recv      bool
}

type postS struct {
	v         int
	typ       byte
	call, ret int
	err       error
	thread    int
}

type run struct {
	p     program
	mux   *event.TypeMux
	subs  []*subS
	posts [][]*postS
	stops [][2]int // per thread
	stopC int
	stopR int
}

func (r *run) types(k int) []interface{} {
	var l []interface{}
	for _, c := range r.p.subs[k] {
		switch c {
		case 'a':
			l = append(l, evA{})
		case 'b':
			l = append(l, evB{})
		}
	}
	return l
}

func (r *run) subscribe(k int, stamp bool) {
	x := r.subs[k]
	if stamp {
		x.subCall = mc.StampCall()
	}
	x.s = r.mux.Subscribe(r.types(k)...)
	if stamp {
		x.subRet = mc.StampRet()
	}
	if strings.Contains(r.p.subs[k], "D") {
		x.recv = true
		x.done = make(chan int)
		ch, done := x.s.Chan(), x.done
		go func() {
			for ev := range ch {
				x.got = append(x.got, ev.Data)
			}
			close(done)
		}()
	}
}

func (r *run) mustBeClosed(k int, after string) {
	x := r.subs[k]
	if !x.s.Closed() {
		mc.Failf("after %s subscription %d is not reported as closed", after, k)
	}
	select {
	case ev, ok := <-x.s.Chan():
		if ok {
			mc.Failf("after %s the channel of subscription %d carries %v", after, k, ev.Data)
		}
	default:
		mc.Failf("after %s the channel of subscription %d is not closed", after, k)
	}
}

func (r *run) thread(i int, prog string) {
	n := 0
	for _, a := range strings.Fields(prog) {
		switch a[0] {
		case 'a', 'b':
			n++
			p := &postS{v: 10*(i+1) + n, typ: a[0], thread: i}
			var ev interface{} = evA{p.v}
			if a[0] == 'b' {
				ev = evB{p.v}
			}
			p.call = mc.StampCall()
			p.err = r.mux.Post(ev)
			p.ret = mc.StampRet()
			r.posts[i] = append(r.posts[i], p)
		case '+':
			r.subscribe(int(a[1]-'0'), true)
		case '-':
			k := int(a[1] - '0')
			c := mc.StampCall()
			r.subs[k].s.Unsubscribe()
			e := mc.StampRet()
			r.subs[k].closeCall, r.subs[k].closeRet = c, e
			r.mustBeClosed(k, "Unsubscribe")
			r.subs[k].s.Unsubscribe()
		case '=': // a second Unsubscribe of the same subscription
			k := int(a[1] - '0')
			r.subs[k].s.Unsubscribe()
			r.mustBeClosed(k, "a second Unsubscribe")
		case '!':
			c := mc.StampCall()
			r.mux.Stop()
			e := mc.StampRet()
			r.stops[i] = [2]int{c, e}
			for _, k := range r.p.init {
				// an Unsubscribe that runs at the same time may have taken the
				// subscription off the mux and not yet closed it
				if !strings.Contains(strings.Join(r.p.threads, " "), fmt.Sprint("-", k)) {
					r.mustBeClosed(k, "Stop")
				}
			}
			r.mux.Stop()
		}
	}
}

func (p program) scenario() *mc.Scenario {
	return &mc.Scenario{Name: p.String(), Body: func() {
		r := &run{p: p, mux: new(event.TypeMux), posts: make([][]*postS, len(p.threads)), stops: make([][2]int, len(p.threads))}
		for range p.subs {
			r.subs = append(r.subs, &subS{})
		}
		for _, k := range p.init {
			r.subscribe(k, false)
		}
		var fs []func()
		for i, t := range p.threads {
			i, t := i, t
			fs = append(fs, func() { r.thread(i, t) })
		}
		mc.Par(fs...)
		for _, s := range r.stops {
			if s[0] != 0 && (r.stopC == 0 || s[0] < r.stopC) {
				r.stopC = s[0]
			}
			if s[1] != 0 && (r.stopR == 0 || s[1] < r.stopR) {
				r.stopR = s[1]
			}
		}
		for k, x := range r.subs {
			if x.s == nil {
				continue
			}
			if x.closeCall == 0 && r.stopC == 0 && x.s.Closed() {
				mc.Failf("subscription %d is reported as closed although nobody closed it", k)
			}
			x.s.Unsubscribe()
			r.mustBeClosed(k, "the final Unsubscribe")
			if x.recv {
				<-x.done
			}
		}
		r.check()
	}}
}

func (r *run) check() {
	var out []string
	for k, x := range r.subs {
		out = append(out, fmt.Sprint(x.got))
		if x.s == nil {
			continue
		}
		seen := map[int]int{}
		lastOf := map[int]int{}
		for _, d := range x.got {
			v, t := 0, byte(0)
			switch e := d.(type) {
			case evA:
				v, t = e.v, 'a'
			case evB:
				v, t = e.v, 'b'
			default:
				mc.Failf("subscription %d received %T", k, d)
			}
			seen[v]++
			if !strings.Contains(r.p.subs[k], string(rune(t))) {
				mc.Failf("subscription %d for %q received an event of type %c", k, r.p.subs[k], t)
			}
			th := v / 10
			if v < lastOf[th] {
				mc.Failf("subscription %d received %v: the events of one poster are out of order", k, x.got)
			}
			lastOf[th] = v
		}
		for _, ps := range r.posts {
			for _, p := range ps {
				n := seen[p.v]
				if n > 1 {
					mc.Failf("event %d is delivered %d times to subscription %d", p.v, n, k)
				}
				wanted := strings.Contains(r.p.subs[k], string(rune(p.typ)))
				closeC := x.closeCall
				if r.stopC != 0 && (closeC == 0 || r.stopC < closeC) {
					closeC = r.stopC
				}
				if wanted && x.recv && p.call > x.subRet && (closeC == 0 || closeC > p.ret) && n != 1 {
					mc.Failf("event %d of type %c is not delivered to subscription %d, which was open throughout the post", p.v, p.typ, k)
				}
				closeR := x.closeRet
				if r.stopR != 0 && (closeR == 0 || r.stopR < closeR) {
					closeR = r.stopR
				}
				if n > 0 && closeR != 0 && closeR < p.call {
					mc.Failf("event %d is delivered to subscription %d, which was closed before the post began", p.v, k)
				}
				if n > 0 && x.subCall > p.ret {
					mc.Failf("event %d is delivered to subscription %d, which subscribed after the post returned", p.v, k)
				}
			}
		}
	}
	for _, ps := range r.posts {
		for _, p := range ps {
			out = append(out, fmt.Sprint(p.v, p.err))
			if p.err != nil && p.err != event.ErrMuxClosed {
				mc.Failf("Post returned %v", p.err)
			}
			if p.err == nil && r.stopR != 0 && p.call > r.stopR {
				mc.Failf("Post after Stop returned no error")
			}
			if p.err != nil && (r.stopC == 0 || p.ret < r.stopC) {
				mc.Failf("Post returned %v although the mux was not stopped", p.err)
			}
		}
	}
	if r.stopC != 0 {
		s := r.mux.Subscribe(evA{})
		if !s.Closed() {
			mc.Failf("Subscribe after Stop yields an open subscription")
		}
		if ev, ok := <-s.Chan(); ok {
			mc.Failf("Subscribe after Stop yields a channel that carries %v", ev)
		}
		s.Unsubscribe()
		if err := r.mux.Post(evA{1}); err != event.ErrMuxClosed {
			mc.Failf("Post after Stop returned %v", err)
		}
	} else {
		// the mux is still usable
		s := r.mux.Subscribe(evA{})
		go func() {
			if err := r.mux.Post(evA{99}); err != nil {
				mc.Failf("Post returned %v", err)
			}
		}()
		ev := <-s.Chan()
		if ev == nil || ev.Data != (evA{99}) {
			mc.Failf("a later subscription received %v", ev)
		}
		s.Unsubscribe()
	}
	mc.Outcome("%s", strings.Join(out, " "))
}

func sequential() *mc.Scenario {
	return &mc.Scenario{Name: "duplicate type", Body: func() {
		mux := new(event.TypeMux)
		func() {
			defer func() {
				if r := recover(); r == nil {
					mc.Failf("subscribing to the same type twice in one call does not panic")
				}
			}()
			mux.Subscribe(evA{}, evA{})
		}()
		mux = new(event.TypeMux)
		func() {
			defer func() {
				if r := recover(); r == nil {
					mc.Failf("subscribing to the same type twice in one call does not panic")
				}
			}()
			mux.Subscribe(evB{}, evA{}, evB{})
		}()
		// pointer and value types are different types
		mux = new(event.TypeMux)
		s := mux.Subscribe(evA{}, &evA{})
		done := make(chan int)
		var got []interface{}
		go func() {
			for ev := range s.Chan() {
				got = append(got, ev.Data)
			}
			close(done)
		}()
		p := &evA{2}
		mux.Post(evA{1})
		mux.Post(p)
		mux.Post(&evB{3})
		s.Unsubscribe()
		<-done
		if len(got) != 2 || got[0] != (evA{1}) || got[1] != p {
			mc.Failf("a subscription for evA and *evA received %v", got)
		}
		if mux.Post(evA{4}) != nil {
			mc.Failf("Post without subscribers fails")
		}
	}}
}

// zooBody subscribes to one type, to two types and perhaps to all but one, and posts
// values of all types, zero values among them: a subscription receives those
// of its types, as they are.
func zooBody() {
	l := zoo.Values()
	k := mc.Choose(len(l))
	most := mc.Choose(2) == 0
	u := (k + 1) % len(l)
	if most {
		u = (u + mc.Choose(len(l)-1)) % len(l)
	}
	mux := new(event.TypeMux)
	var subs []*event.TypeMuxSubscription
	var takes []func(t int) bool
	add := func(take func(t int) bool) {
		var args []interface{}
		for i, v := range l {
			if take(i) {
				if (i+k)%2 == 0 {
					// only the type counts
					v = reflect.Zero(reflect.TypeOf(v)).Interface()
				}
				args = append(args, v)
			}
		}
		subs = append(subs, mux.Subscribe(args...))
		takes = append(takes, take)
	}
	add(func(t int) bool { return t == k })
	add(func(t int) bool { return t == k || t == u })
	if most {
		add(func(t int) bool { return t != k })
	}
	none := mux.Subscribe()
	nils := mux.Subscribe(nil)
	got := make([][]interface{}, len(subs)+2)
	done := make(chan int, len(got))
	for i, s := range append(subs[:len(subs):len(subs)], none, nils) {
		i, s := i, s
		go func() {
			for ev := range s.Chan() {
				got[i] = append(got[i], ev.Data)
			}
			done <- 1
		}()
	}
	want := make([][]interface{}, len(subs))
	post := func(t int, v interface{}) {
		for i, take := range takes {
			if take(t) {
				want[i] = append(want[i], v)
			}
		}
		if err := mux.Post(v); err != nil {
			mc.Failf("Post of a %T: %v", v, err)
		}
	}
	for t := range l {
		if len(subs) == 3 && t != k && t != u && t != (k+u)%len(l) {
			continue
		}
		post(t, l[t])
		post(t, reflect.Zero(reflect.TypeOf(l[t])).Interface())
	}
	if err := mux.Post(nil); err != nil {
		mc.Failf("Post of nil: %v", err)
	}
	none.Unsubscribe() // it is registered nowhere
	mux.Stop()
	for range got {
		<-done
	}
	if len(got[len(subs)]) != 0 {
		mc.Failf("a subscription for no type receives %v", got[len(subs)])
	}
	if n := got[len(subs)+1]; len(n) != 1 || n[0] != nil {
		mc.Failf("a subscription for the type of nil receives %v", n)
	}
	for i, w := range want {
		if len(w) != len(got[i]) {
			mc.Failf("subscription %d of %T and %T receives %d events, want %d: %#v, want %#v", i, l[k], l[u], len(got[i]), len(w), got[i], w)
		}
		for j := range w {
			if !zoo.Same(w[j], got[i][j]) {
				mc.Failf("subscription %d of %T and %T receives %#v, want %#v", i, l[k], l[u], got[i][j], w[j])
			}
		}
	}
	mc.Outcome("done")
}

// histories explores every history of subscribing, unsubscribing, posting and
// stopping by one thread, with up to five subscriptions over two types.
func histories(init []string, steps int, straight bool) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("histories of %d steps from %v", steps, init), MaxBound: -1, Straight: straight, Body: func() {
		mux := new(event.TypeMux)
		type entry struct {
			types  string
			s      *event.TypeMuxSubscription
			active bool
		}
		var subs []*entry
		stopped := false
		log := ""
		subscribe := func(types string) {
			log += " +" + types
			var l []interface{}
			for _, t := range types {
				if t == 'a' {
					l = append(l, evA{})
				} else {
					l = append(l, evB{})
				}
			}
			subs = append(subs, &entry{types, mux.Subscribe(l...), !stopped})
		}
		closed := func() {
			for i, e := range subs {
				if e.s.Closed() == e.active {
					mc.Failf("%s: Closed of subscription %d is %v", log, i, e.s.Closed())
				}
				select {
				case ev, more := <-e.s.Chan():
					if more {
						mc.Failf("%s: subscription %d receives %v", log, i, ev)
					}
					if e.active {
						mc.Failf("%s: the channel of subscription %d is closed", log, i)
					}
				default:
					if !e.active {
						mc.Failf("%s: the channel of subscription %d is not closed", log, i)
					}
				}
			}
		}
		post := func(t byte, v int) {
			log += " " + string(t)
			var ev interface{} = evA{v}
			if t == 'b' {
				ev = evB{v}
			}
			done := make(chan error, 1)
			mc.Go(func() { done <- mux.Post(ev) })
			got := make([]int, len(subs))
			var chs [5]<-chan *event.TypeMuxEvent
			for i, e := range subs {
				if e.active {
					chs[i] = e.s.Chan()
				}
			}
			receive := func(i int, e *event.TypeMuxEvent, more bool) {
				if !more {
					mc.Failf("%s: the channel of subscription %d is closed", log, i)
				}
				if e.Data != ev {
					mc.Failf("%s: subscription %d receives %v, want %v", log, i, e.Data, ev)
				}
				got[i]++
			}
			for posting := true; posting; {
				select {
				case e, ok := <-chs[0]:
					receive(0, e, ok)
				case e, ok := <-chs[1]:
					receive(1, e, ok)
				case e, ok := <-chs[2]:
					receive(2, e, ok)
				case e, ok := <-chs[3]:
					receive(3, e, ok)
				case e, ok := <-chs[4]:
					receive(4, e, ok)
				case err := <-done:
					posting = false
					if (err == event.ErrMuxClosed) != stopped || err != nil && !stopped {
						mc.Failf("%s: Post returns %v", log, err)
					}
				}
			}
			for i, e := range subs {
				want := 0
				if e.active && strings.IndexByte(e.types, t) >= 0 {
					want = 1
				}
				if got[i] != want {
					mc.Failf("%s: subscription %d (%s) receives the event %d times, want %d", log, i, e.types, got[i], want)
				}
			}
		}
		for _, t := range init {
			subscribe(t)
		}
		for n := 0; n < steps; n++ {
			ops := []string{"a", "b", "!"}
			for i := range subs {
				ops = append(ops, fmt.Sprint("-", i))
			}
			if len(subs) < 5 {
				ops = append(ops, "+a", "+ba")
			}
			switch o := ops[mc.Choose(len(ops))]; o[0] {
			case 'a', 'b':
				post(o[0], n)
			case '!':
				log += " stop"
				mux.Stop()
				stopped = true
				for _, e := range subs {
					e.active = false
				}
			case '-':
				log += " " + o
				e := subs[o[1]-'0']
				e.s.Unsubscribe()
				e.active = false
			case '+':
				subscribe(o[1:])
			}
			closed()
		}
		post('a', 100)
		post('b', 101)
		mc.Outcome("%s", log)
	}}
}

// many runs a mux with n subscriptions of one type, which all subscribe to
// types of their own too.
func many(dense, max int) *mc.Scenario {
	sizes := ref.SizeList(dense, max)
	return &mc.Scenario{Name: fmt.Sprintf("0..%d and more, up to %d subscriptions", dense, max), MaxBound: -1, Steps: 4000000, Straight: true, Body: func() {
		n := sizes[mc.Choose(len(sizes))]
		mux := new(event.TypeMux)
		own := func(i int) interface{} { // a value of a type of its own
			return reflect.New(reflect.ArrayOf(i+1, reflect.TypeOf(byte(0)))).Elem().Interface()
		}
		subs := make([]*event.TypeMuxSubscription, n)
		active := make([]bool, n)
		work, done := make(chan interface{}), make(chan error)
		mc.Go(func() {
			for ev := range work {
				done <- mux.Post(ev)
			}
		})
		post := func(what string, ev interface{}, to func(i int) bool) {
			work <- ev
			cases := []reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(done)}}
			ids := []int{-1}
			got := make([]int, n)
			for i, s := range subs {
				if active[i] {
					cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.Chan())})
					ids = append(ids, i)
				}
			}
			for {
				i, v, ok := reflect.Select(cases)
				if i == 0 {
					if !v.IsNil() {
						mc.Failf("%d subscriptions, %s: Post returns %v", n, what, v)
					}
					break
				}
				if !ok {
					mc.Failf("%d subscriptions, %s: the channel of %d is closed", n, what, ids[i])
				}
				if e := v.Interface().(*event.TypeMuxEvent); e.Data != ev {
					mc.Failf("%d subscriptions, %s: subscription %d receives %v", n, what, ids[i], e.Data)
				}
				got[ids[i]]++
			}
			for i := range subs {
				want := 0
				if active[i] && to(i) {
					want = 1
				}
				if got[i] != want {
					mc.Failf("%d subscriptions, %s: subscription %d receives the event %d times, want %d", n, what, i, got[i], want)
				}
			}
		}
		all := func(int) bool { return true }
		for i := range subs {
			types := []interface{}{own(n + 1), evA{}}
			for j := 0; j <= i; j++ {
				if n <= 40 || j == i {
					types = append(types, own(j))
				}
			}
			subs[i] = mux.Subscribe(types...)
			active[i] = true
		}
		some := []int{0, 1, n / 2, n - 1}
		posts := func(what string) {
			post(what, evA{n}, all)
			post(what, own(n+1), all)
			for _, j := range some {
				if j >= 0 && j < n {
					post(what, own(j), func(i int) bool { return i == j || n <= 40 && i > j })
				}
			}
			post(what, evB{1}, func(int) bool { return false })
		}
		posts("at first")
		for i, s := range subs {
			if i%3 == 1 || i == 0 {
				s.Unsubscribe()
				active[i] = false
				if _, more := <-s.Chan(); more {
					mc.Failf("%d subscriptions: subscription %d receives something", n, i)
				}
			}
		}
		posts("unsubscribed")
		mux.Stop()
		for i, s := range subs {
			if _, more := <-s.Chan(); more || !s.Closed() {
				mc.Failf("%d subscriptions: subscription %d is not closed by Stop", n, i)
			}
		}
		if err := mux.Post(evA{1}); err != event.ErrMuxClosed {
			mc.Failf("Post after Stop returns %v", err)
		}
		close(work)
		mc.Outcome("done")
	}}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		out := []*mc.Scenario{sequential()}
		if thorough {
			out = append(out, many(130, 520))
		} else {
			out = append(out, many(40, 260))
		}
		out = append(out, &mc.Scenario{Name: "pairs of types", MaxBound: -1, Straight: true, Steps: 100000, Body: zooBody})
		steps := 3
		if thorough {
			steps = 4
		}
		for _, init := range [][]string{{}, {"a"}, {"ab", "a"}, {"a", "ab", "b"}, {"a", "b", "a", "ba"}, {"ab", "a", "ba", "a", "b"}} {
			n := steps
			if len(init) < 4 {
				n++
			}
			out = append(out, histories(init, n, false), histories(init, n+1, true))
		}
		add := func(subs string, init []int, threads ...string) {
			out = append(out, program{strings.Fields(subs), init, threads}.scenario())
		}
		add("aD abD", []int{0, 1}, "a", "b")
		add("aD", []int{0}, "a a", "-0")
		add("aN", []int{0}, "a", "-0")
		add("aN aD", []int{0, 1}, "a", "-0")
		add("aN aD", []int{0, 1}, "a", "!")
		add("aD bN", []int{0, 1}, "a", "b", "!")
		add("aD", []int{0}, "a", "-0", "!")
		add("aN", []int{0}, "a", "-0", "=0")
		add("aN", []int{0}, "a", "!", "!")
		add("aD aD", []int{0}, "a", "+1")
		add("aD aD aD", []int{0, 1}, "a", "+2", "-0")
		add("aD", []int{}, "a a", "+0 -0")
		add("aD", []int{}, "a", "+0", "!")
		add("aD aN aD", []int{0, 1, 2}, "a", "-1", "-0")
		add("abN", []int{0}, "a", "b", "-0")
		if thorough {
			scripts := []string{"a", "b", "a b", "-0", "-1", "+2", "+2 -2", "!"}
			for _, l := range []string{"aD abD aD", "aN aD bD", "abN aD aN"} {
				for i := range scripts {
					for j := i; j < len(scripts); j++ {
						for m := j; m < len(scripts); m++ {
							ts := []string{scripts[i], scripts[j], scripts[m]}
							all := " " + strings.Join(ts, " ") + " "
							ok := strings.ContainsAny(all, "ab") && strings.Count(all, "!") <= 1
							for _, k := range []string{"-0", "-1", "+2"} {
								if strings.Count(all, k) > 1 {
									ok = false
								}
							}
							subs := strings.Fields(l)
							for k := range subs {
								if strings.HasSuffix(subs[k], "N") && !strings.Contains(all, fmt.Sprint("-", k)) && !strings.Contains(all, "!") {
									if k < 2 || strings.Contains(all, "+2") {
										ok = false
									}
								}
							}
							if ok {
								add(l, []int{0, 1}, ts...)
							}
						}
					}
				}
			}
		}
		return out
	})
}
