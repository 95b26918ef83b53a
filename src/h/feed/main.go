// Command feed model-checks event.Feed and event.FeedOf: properties E01, E02
// and E03.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"flychain/event"
	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
)

var prop = os.Getenv("VERIF_PROP")

type feed interface {
	sub(ch chan int) event.Subscription
	send(v int) int
}

type untyped struct{ f event.Feed }

func (u *untyped) sub(ch chan int) event.Subscription { return u.f.Subscribe(ch) }
func (u *untyped) send(v int) int                     { return u.f.Send(v) }

type typed struct{ f event.FeedOf[int] }

func (u *typed) sub(ch chan int) event.Subscription { return u.f.Subscribe(ch) }
func (u *typed) send(v int) int                     { return u.f.Send(v) }

// A program is a set of channels with a number of threads. Channels are
// written as capacity and receiver: D always receiving, N never. Threads are
// lists of actions: s send, +k subscribe, -k unsubscribe.
type program struct {
	chans   []string
	init    []int
	threads []string
	tail    string // done by the main thread in the end
}

func (p program) String() string {
	s := fmt.Sprintf("%s init%v %s", strings.Join(p.chans, ","), p.init, strings.Join(p.threads, " | "))
	if p.tail != "" {
		s += " ; " + p.tail
	}
	return s
}

type period struct {
	sub        event.Subscription
	subRet     int
	unsubCall  int // 0: never
	unsubRet   int
	unsubCall2 int
	unsubRet2  int
}

type sendRec struct {
	v         int
	call, ret int
	n         int
	thread    int
}

type run struct {
	p       program
	f       feed
	ch      []chan int
	got     [][]int
	periods [][]*period // per channel
	sends   [][]*sendRec
	frozen  []int // number of values in a channel when Unsubscribe returned, -1 otherwise
}

func (r *run) cap(k int) int   { return int(r.p.chans[k][0] - '0') }
func (r *run) mode(k int) byte { return r.p.chans[k][1] }

func (r *run) receiver(k int) {
	ch := r.ch[k]
	for v := range ch {
		r.got[k] = append(r.got[k], v)
	}
}

func (r *run) subscribe(k int, stamp bool) {
	p := &period{}
	p.sub = r.f.sub(r.ch[k])
	if stamp {
		p.subRet = mc.StampRet()
	}
	r.periods[k] = append(r.periods[k], p)
	r.frozen[k] = -1
}

func (r *run) checkClosed(p *period, who string) {
	select {
	case e, ok := <-p.sub.Err():
		if ok {
			mc.Failf("%s: the error channel of a feed subscription carried %v", who, e)
		}
	default:
		mc.Failf("%s: the error channel is not closed after Unsubscribe returned", who)
	}
}

func (r *run) thread(i int, prog string) {
	v := 0
	mine := map[int]bool{}
	for _, a := range strings.Fields(prog) {
		switch a[0] {
		case 's':
			v++
			s := &sendRec{v: 10*(i+1) + v, thread: i}
			s.call = mc.StampCall()
			s.n = r.f.send(s.v)
			s.ret = mc.StampRet()
			r.sends[i] = append(r.sends[i], s)
		case '+':
			k := int(a[1] - '0')
			r.subscribe(k, true)
			mine[k] = true
		case '-', '=':
			k := int(a[1] - '0')
			p := r.periods[k][len(r.periods[k])-1]
			c := mc.StampCall()
			p.sub.Unsubscribe()
			e := mc.StampRet()
			if a[0] == '-' {
				p.unsubCall, p.unsubRet = c, e
			} else { // a second thread that ends the same subscription
				p.unsubCall2, p.unsubRet2 = c, e
			}
			if prop == "E03" {
				r.checkClosed(p, a)
				p.sub.Unsubscribe()
				r.checkClosed(p, a)
			}
			if a[0] == '-' && r.mode(k) == 'N' {
				ch := r.ch[k]
				if r.cap(k) > 0 {
					r.frozen[k] = len(ch)
				} else if len(r.p.threads) > 0 && !strings.Contains(prog, "+"+a[1:]) {
					mc.Daemon(func() {
						x := <-ch
						mc.Failf("value %d is put into channel %d after its Unsubscribe returned", x, k)
					})
				}
			}
		}
	}
}

func (p program) scenario(kind string) *mc.Scenario {
	return &mc.Scenario{Name: kind + " " + p.String(), Body: func() {
		r := &run{p: p}
		if kind == "Feed" {
			r.f = &untyped{}
		} else {
			r.f = &typed{}
		}
		n := len(p.chans)
		r.got = make([][]int, n)
		r.periods = make([][]*period, n)
		r.frozen = make([]int, n)
		r.sends = make([][]*sendRec, len(p.threads)+1)
		for k := range p.chans {
			r.ch = append(r.ch, make(chan int, r.cap(k)))
			r.frozen[k] = -1
		}
		for _, k := range p.init {
			r.subscribe(k, false)
		}
		done := make(chan int)
		for k := range p.chans {
			if r.mode(k) == 'D' {
				k := k
				mc.Go(func() { r.receiver(k); done <- 1 })
			}
		}
		var fs []func()
		for i, t := range p.threads {
			i, t := i, t
			fs = append(fs, func() { r.thread(i, t) })
		}
		mc.Par(fs...)
		r.thread(len(p.threads), p.tail)
		// collect what is left
		for k := range p.chans {
			if r.mode(k) == 'D' {
				close(r.ch[k])
			}
		}
		for k := range p.chans {
			if r.mode(k) == 'D' {
				<-done
			}
		}
		for k := range p.chans {
			if r.mode(k) == 'N' {
				left := len(r.ch[k])
				if prop == "E01" && r.frozen[k] >= 0 && left != r.frozen[k] {
					mc.Failf("channel %d held %d values when its Unsubscribe returned and holds %d later", k, r.frozen[k], left)
				}
				for i := 0; i < left; i++ {
					r.got[k] = append(r.got[k], <-r.ch[k])
				}
			}
		}
		r.check()
	}}
}

func (r *run) check() {
	var all []*sendRec
	for _, s := range r.sends {
		all = append(all, s...)
	}
	for k := range r.ch {
		for _, p := range r.periods[k] {
			if p.unsubCall2 != 0 && (p.unsubCall == 0 || p.unsubCall2 < p.unsubCall) {
				p.unsubCall = p.unsubCall2
			}
			if p.unsubRet2 != 0 && (p.unsubRet == 0 || p.unsubRet2 < p.unsubRet) {
				p.unsubRet = p.unsubRet2
			}
		}
	}
	byV := map[int]*sendRec{}
	for _, s := range all {
		byV[s.v] = s
	}
	count := func(k, v int) int {
		n := 0
		for _, x := range r.got[k] {
			if x == v {
				n++
			}
		}
		return n
	}
	var outc []string
	for k := range r.ch {
		outc = append(outc, fmt.Sprint(r.got[k]))
	}
	for _, s := range all {
		outc = append(outc, fmt.Sprint(s.v, ":", s.n))
	}
	sort.Strings(outc[len(r.ch):])
	mc.Outcome("%s", strings.Join(outc, " "))
	if prop == "E01" || prop == "E03" {
		for _, s := range all {
			total := 0
			for k := range r.ch {
				c := count(k, s.v)
				total += c
				must, may := false, false
				for _, p := range r.periods[k] {
					ended := p.unsubCall != 0
					if s.call > p.subRet && (!ended || p.unsubCall > s.ret) {
						must = true
					}
					if (p.subRet == 0 || true) && (!ended || p.unsubRet > s.call) {
						may = true
					}
				}
				if c > 1 {
					mc.Failf("value %d is delivered %d times to channel %d", s.v, c, k)
				}
				if must && c != 1 {
					mc.Failf("value %d is not delivered to channel %d, which was subscribed throughout the Send", s.v, k)
				}
				if prop == "E01" && !may && c != 0 {
					mc.Failf("value %d is delivered to channel %d, which was unsubscribed before the Send began", s.v, k)
				}
			}
			if prop == "E01" && total != s.n {
				mc.Failf("Send(%d) returned %d but delivered to %d channels", s.v, s.n, total)
			}
		}
	}
	if prop == "E01" {
		for k := range r.ch {
			for _, v := range r.got[k] {
				if byV[v] == nil {
					mc.Failf("channel %d received %d, which was never sent", k, v)
				}
			}
		}
	}
	if prop == "E02" {
		r.checkOrder(byV)
	}
	if prop == "E03" {
		for k := range r.ch {
			for _, p := range r.periods[k] {
				if p.unsubCall != 0 {
					r.checkClosed(p, "at the end")
					continue
				}
				select {
				case e, ok := <-p.sub.Err():
					mc.Failf("the error channel of a live subscription delivered %v, %v", e, ok)
				default:
				}
			}
		}
		// the feed still works
		ch := make(chan int, 1)
		sub := r.f.sub(ch)
		for k := range r.ch {
			for i, p := range r.periods[k] {
				if i == len(r.periods[k])-1 && p.unsubCall == 0 {
					p.sub.Unsubscribe()
				}
			}
		}
		if n := r.f.send(7); n != 1 {
			mc.Failf("after all other channels were unsubscribed Send delivers to %d channels, want 1", n)
		}
		if v := <-ch; v != 7 {
			mc.Failf("the last subscriber received %d", v)
		}
		sub.Unsubscribe()
		if n := r.f.send(8); n != 0 {
			mc.Failf("Send without subscribers returned %d", n)
		}
	}
}

func (r *run) checkOrder(byV map[int]*sendRec) {
	for k := range r.ch {
		for i, a := range r.got[k] {
			for _, b := range r.got[k][i+1:] {
				sa, sb := byV[a], byV[b]
				if sa == nil || sb == nil {
					continue
				}
				if sa.thread == sb.thread && b < a {
					mc.Failf("channel %d received %v: the values of one sender are out of order", k, r.got[k])
				}
				if sa.call > sb.ret {
					mc.Failf("channel %d received %d before %d although Send(%d) returned before Send(%d) began", k, a, b, b, a)
				}
			}
		}
	}
	// a common order exists: the union of the per-channel orders and the
	// real-time order is acyclic
	edges := map[int]map[int]bool{}
	add := func(a, b int) {
		if edges[a] == nil {
			edges[a] = map[int]bool{}
		}
		edges[a][b] = true
	}
	var vs []int
	for v, s := range byV {
		vs = append(vs, v)
		for w, t := range byV {
			if v != w && t.call > s.ret {
				add(v, w)
			}
		}
	}
	sort.Ints(vs)
	for k := range r.ch {
		for i := 0; i+1 < len(r.got[k]); i++ {
			add(r.got[k][i], r.got[k][i+1])
		}
	}
	for _, m := range vs {
		for _, a := range vs {
			for _, b := range vs {
				if edges[a][m] && edges[m][b] {
					add(a, b)
				}
			}
		}
	}
	for _, a := range vs {
		if edges[a][a] {
			mc.Failf("no common order of the sends explains what the channels received: %v", r.got)
		}
	}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var ps []program
		add := func(chans string, init []int, threads ...string) {
			p := program{chans: strings.Fields(chans), init: init, threads: threads}
			if n := len(threads); strings.HasPrefix(threads[n-1], "; ") {
				p.threads, p.tail = threads[:n-1], threads[n-1][2:]
			}
			ps = append(ps, p)
		}
		switch prop {
		case "E01":
			add("1D 1D", []int{0, 1}, "s", "s")
			add("0D 0D", []int{0, 1}, "s", "s")
			add("2N 0D", []int{0, 1}, "s s", "-0")
			add("1D 0N", []int{0, 1}, "s", "-1")
			add("1D 2N", []int{0}, "s", "+1 -1 +1")
			add("2N 2N", []int{0}, "s s", "+1")
			add("0N 1N 0D", []int{0, 1, 2}, "s", "-0")
			add("0N 0N 1N", []int{0, 1, 2}, "s", "-0", "-1")
			add("1N 1N 1N", []int{0, 1, 2}, "s", "-0", "-2")
			add("2N 0N", []int{0, 1}, "s", "s", "-1")
			add("1D 1D", []int{0}, "s", "+1", "-0")
			// the feed after a Send that was overtaken by other operations
			add("3N 0D 3N", []int{0, 1, 2}, "s", "-0", "; s -2 s")
			add("2N 0D 2N 0N", []int{0, 1, 2, 3}, "s", "-3", "; s")
			add("2N 0N 2N 0N", []int{0, 1, 2, 3}, "s", "-3 -1", "; s")
			add("3N 0N 3N", []int{0, 1}, "s", "+2 -1", "; s s")
		case "E02":
			add("1D 1D", []int{0, 1}, "s", "s")
			add("0D 0D", []int{0, 1}, "s", "s")
			add("0D 2N", []int{0, 1}, "s", "s")
			add("4N 0D", []int{0, 1}, "s s", "s")
			add("3N 3N", []int{0, 1}, "s", "s", "s")
			add("4N 1D", []int{0}, "s s", "+1 s")
			add("2N 0N 2N", []int{0, 1, 2}, "s", "s", "-1")
		case "E03":
			add("0N", []int{0}, "s", "-0")
			add("0N 0D", []int{0, 1}, "s", "-0", "=0")
			add("0N 0N", []int{0, 1}, "s", "-0", "-1")
			add("0N 0N", []int{0, 1}, "s", "s", "-0 -1")
			add("0N 1N 0N", []int{0, 1, 2}, "s", "-2 -0")
			add("1N 0D", []int{0, 1}, "-0", "-1", "=0 =1")
			add("0N", []int{}, "s", "+0 -0")
			add("0N 1D", []int{1}, "s", "+0 -0", "-1")
			add("0N 0N", []int{0}, "s", "-0", "+1 -1")
			add("0N 0N 0N", []int{0, 1, 2}, "s", "-0", "-1", "-2")
			// subscriptions that have seen a Send before
			add("1N", []int{0}, "s s", "-0")
			add("1N 0D", []int{0, 1}, "s s", "-0", "=0")
			add("1N 1N", []int{0, 1}, "s s", "-0", "-1")
			add("1N 1D", []int{0, 1}, "s", "s", "-1 -0")
		}
		if thorough {
			ps = append(ps, family(prop)...)
		}
		var out []*mc.Scenario
		if prop == "E01" || prop == "E03" {
			dense, max := 40, 260
			if thorough {
				dense, max = 130, 1030
			}
			for _, kind := range []string{"Feed", "FeedOf"} {
				out = append(out, many(kind, dense, max, prop == "E03"))
			}
		}
		if prop == "E01" {
			out = append(out, elementTypes()...)
			for _, kind := range []string{"Feed", "FeedOf"} {
				for n := 0; n <= 5; n++ {
					out = append(out, sequential(kind, n, 6, thorough))
				}
			}
		}
		for _, p := range ps {
			for _, kind := range []string{"Feed", "FeedOf"} {
				out = append(out, p.scenario(kind))
			}
		}
		return out
	})
}

// many runs a feed with n channels, every fourth one without room. A blocked
// Send is continued by receiving from these channels, or by ending their
// subscriptions.
func many(kind string, dense, max int, unsub bool) *mc.Scenario {
	sizes := ref.SizeList(dense, max)
	return &mc.Scenario{Name: fmt.Sprintf("%s with 0..%d and more, up to %d channels, unsubscribing=%v", kind, dense, max, unsub), MaxBound: -1, Steps: 4000000, Straight: true, Body: func() {
		n := sizes[mc.Choose(len(sizes))]
		var f feed = &untyped{}
		if kind == "FeedOf" {
			f = &typed{}
		}
		ch := make([]chan int, n)
		want := make([][]int, n)
		subs := make([]event.Subscription, n)
		for i := range ch {
			if i%4 == 3 {
				ch[i] = make(chan int)
			} else {
				ch[i] = make(chan int, 8)
			}
		}
		end := func(i int) {
			subs[i].Unsubscribe()
			if _, more := <-subs[i].Err(); more {
				mc.Failf("the error channel carries a value")
			}
			subs[i] = nil
		}
		send := func(v int) {
			done := make(chan int, 1)
			mc.Go(func() { done <- f.send(v) })
			k := 0
			for i := n - 1; i >= 0; i-- {
				if subs[i] == nil || i%4 != 3 {
					continue
				}
				if unsub && (i/4+v)%2 == 0 {
					end(i)
					continue
				}
				if got := <-ch[i]; got != v {
					mc.Failf("channel %d of %d receives %d, want %d", i, n, got, v)
				}
				k++
			}
			got := <-done
			for i := range ch {
				if subs[i] != nil && i%4 != 3 {
					want[i] = append(want[i], v)
					k++
				}
				if len(ch[i]) != len(want[i]) {
					mc.Failf("send %d: channel %d of %d holds %d values, want %d", v, i, n, len(ch[i]), len(want[i]))
				}
			}
			if got != k {
				mc.Failf("send %d over %d channels returned %d, want %d", v, n, got, k)
			}
		}
		subscribe := func() {
			for i := range ch {
				if subs[i] == nil {
					subs[i] = f.sub(ch[i])
				}
			}
		}
		subscribe()
		send(1)
		for i := n - 1; i >= 0; i-- {
			if subs[i] != nil && (i == 0 || i == n/2 || i == n-1 || i%5 == 2) {
				end(i)
			}
		}
		send(2)
		subscribe()
		send(3)
		for i := range ch {
			if subs[i] != nil && i%3 != 0 {
				end(i)
			}
		}
		send(4)
		for i := range ch {
			if subs[i] != nil {
				end(i)
			}
		}
		send(5)
		for i := range ch {
			for _, w := range want[i] {
				if v := <-ch[i]; v != w {
					mc.Failf("channel %d of %d received %d, want %d", i, n, v, w)
				}
			}
		}
		mc.Outcome("done")
	}}
}

// sequential explores every history of subscribing, unsubscribing and sending
// by one thread, over channels with room for everything. The first n channels
// are subscribed at the start.
func sequential(kind string, n, chans int, thorough bool) *mc.Scenario {
	steps := 5
	if thorough {
		steps++
	}
	return &mc.Scenario{Name: fmt.Sprintf("%s sequential, %d of %d channels subscribed, %d steps", kind, n, chans, steps), Straight: true, Body: func() {
		var f feed = &untyped{}
		if kind == "FeedOf" {
			f = &typed{}
		}
		ch := make([]chan int, chans)
		want := make([][]int, chans)
		subs := make([]event.Subscription, chans)
		for i := range ch {
			ch[i] = make(chan int, steps+1)
			if i < n {
				subs[i] = f.sub(ch[i])
			}
		}
		log := ""
		send := func(v int) {
			log += " send"
			k := 0
			for i := range ch {
				if subs[i] != nil {
					want[i] = append(want[i], v)
					k++
				}
			}
			if got := f.send(v); got != k {
				mc.Failf("%s: returned %d, want %d", log, got, k)
			}
			for i := range ch {
				if len(ch[i]) != len(want[i]) {
					mc.Failf("%s: channel %d holds %d values, want %d", log, i, len(ch[i]), len(want[i]))
				}
			}
		}
		for s := 0; s < steps; s++ {
			// send, end any subscription, or subscribe the first free channel
			var ops []int
			free := -1
			for i := range ch {
				if subs[i] != nil {
					ops = append(ops, i)
				} else if free < 0 {
					free = i
				}
			}
			if free >= 0 {
				ops = append(ops, -2)
			}
			ops = append(ops, -1)
			switch o := ops[mc.Choose(len(ops))]; o {
			case -1:
				send(s)
			case -2:
				log += fmt.Sprint(" +", free)
				subs[free] = f.sub(ch[free])
			default:
				log += fmt.Sprint(" -", o)
				subs[o].Unsubscribe()
				if _, more := <-subs[o].Err(); more {
					mc.Failf("%s: the error channel carries a value", log)
				}
				subs[o] = nil
			}
		}
		send(steps)
		for i := range ch {
			for _, w := range want[i] {
				if v := <-ch[i]; v != w {
					mc.Failf("%s: channel %d received %d, want %d", log, i, v, w)
				}
			}
		}
		mc.Outcome("%v", want)
	}}
}

// family enumerates small programs systematically: three channels of which
// the first two are subscribed at the start, and every combination of up to
// three threads with the given scripts.
func family(prop string) []program {
	scripts := map[string][]string{
		"E01": {"s", "s s", "-0", "-1", "+2", "+2 -2", "-0 +0"},
		"E02": {"s", "s s", "-0", "+2 s"},
		"E03": {"s", "s s", "-0", "-1", "-0 -1", "+2 -2", "s -0"},
	}[prop]
	var out []program
	layouts := []string{"4N 0D 1D", "0D 0D 0D", "1D 4N 0D"}
	if prop == "E03" {
		layouts = []string{"0N 0D 0D", "0N 4N 0D", "1N 0D 0D"}
	}
	uses := func(s string, k byte) bool {
		return strings.Contains(s, "-"+string(k)) || strings.Contains(s, "+"+string(k))
	}
	for _, l := range layouts {
		for i := range scripts {
			for j := i; j < len(scripts); j++ {
				for m := -1; m < len(scripts); m++ {
					if m >= 0 && m < j {
						continue
					}
					ts := []string{scripts[i], scripts[j]}
					if m >= 0 {
						ts = append(ts, scripts[m])
					}
					all := strings.Join(ts, " ")
					if !strings.Contains(all, "s") {
						continue
					}
					ok := true
					for k := byte('0'); k < '3'; k++ {
						n := 0
						for _, t := range ts {
							if uses(t, k) {
								n++
							}
						}
						if n > 1 {
							ok = false
						}
					}
					// a channel that nobody receives from must be unsubscribed
					// by a thread that does not send first
					if prop == "E03" && !(strings.Contains(all, "-0")) {
						ok = false
					}
					for _, t := range ts {
						if prop == "E03" && strings.HasPrefix(t, "s -0") {
							ok = false
						}
					}
					if strings.Count(all, "s") > 4 {
						ok = false
					}
					if ok {
						out = append(out, program{chans: strings.Fields(l), init: []int{0, 1}, threads: ts})
					}
				}
			}
		}
	}
	return out
}
