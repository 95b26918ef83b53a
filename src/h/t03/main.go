// Command t03 model-checks the clocks of package mclock.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"flychain/common/mclock"
	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
)

// A program on the simulated clock. Timers are named by a digit, durations by
// a digit of seconds. Threads are lists of actions:
//
//	NTd   timer T = NewTimer(d)         ATd  timer T = AfterFunc(d)
//	ST    stop T                        RTd  Reset T if it was stopped or received
//	VT    receive from T                vT   receive from T if possible
//	Xd    Run(d)
//	n     ActiveTimers                  o    Now
//	Wk    WaitForTimers(k)              Zd   Sleep(d)
//
// setup is done first by the main thread.
type program struct {
	setup   string
	threads []string
}

func (p program) String() string { return p.setup + " # " + strings.Join(p.threads, " | ") }

type ev struct {
	a         byte // N A S R V X n o W  Z: start of a sleep  z: its end
	t, d      int
	call, ret int
	res       int
	after     int // index of an event of the same thread that must come before, -1
	thread    int
}

type timer struct {
	ch    mclock.ChanTimer
	tm    mclock.Timer
	fired int32
	vals  []int // received
	idle  bool  // stopped or received: may be reset
}

type run struct {
	p     program
	clk   *mclock.Simulated
	tm    []*timer
	hist  [][]ev
	sleep int32
}

const sec = time.Second

func secs(t mclock.AbsTime) int { return int(time.Duration(t) / sec) }

func (r *run) thread(i int, prog string) {
	for _, a := range strings.Fields(prog) {
		e := ev{a: a[0], thread: i}
		if len(a) > 1 {
			e.t = int(a[1] - '0')
		}
		if len(a) > 2 {
			e.d = int(a[2] - '0')
		}
		t := r.tm[e.t]
		switch e.a {
		case 'S', 'V', 'v':
			if t.tm == nil {
				continue
			}
		case 'R':
			if !t.idle {
				continue
			}
		}
		e.call = mc.StampCall()
		switch e.a {
		case 'N':
			t.ch = r.clk.NewTimer(time.Duration(e.d) * sec)
			t.tm = t.ch
		case 'A':
			t.tm = r.clk.AfterFunc(time.Duration(e.d)*sec, func() { atomic.AddInt32(&t.fired, 1) })
		case 'S':
			if t.tm.Stop() {
				e.res = 1
				t.idle = true
			}
		case 'R':
			t.ch.Reset(time.Duration(e.d) * sec)
			t.idle = false
		case 'V':
			e.res = secs(<-t.ch.C())
			t.vals = append(t.vals, e.res)
			t.idle = true
		case 'v':
			select {
			case x := <-t.ch.C():
				e.res = secs(x)
				t.vals = append(t.vals, e.res)
				t.idle = true
				e.a = 'V'
			default: // a firing may be on its way
			}
		case 'X':
			r.clk.Run(time.Duration(e.t) * sec)
		case 'n':
			e.res = r.clk.ActiveTimers()
		case 'o':
			e.res = secs(r.clk.Now())
		case 'W':
			r.clk.WaitForTimers(e.t)
		case 'Z':
			r.clk.Sleep(time.Duration(e.t) * sec)
		}
		e.ret = mc.StampRet()
		r.hist[i] = append(r.hist[i], e)
	}
}

// state of the specification
type spec struct {
	now   int
	armed map[int]int // timer -> deadline; sleeps are timers from 100
	fired map[int]int // firings per timer
	queue map[int][]int
}

func (s *spec) clone() *spec {
	n := &spec{now: s.now, armed: map[int]int{}, fired: map[int]int{}, queue: map[int][]int{}}
	for k, v := range s.armed {
		n.armed[k] = v
	}
	for k, v := range s.fired {
		n.fired[k] = v
	}
	for k, v := range s.queue {
		n.queue[k] = append([]int{}, v...)
	}
	return n
}

// step applies one event; it reports false if its result is impossible.
func (s *spec) step(e ev, id int) bool {
	switch e.a {
	case 'N', 'A', 'R':
		s.armed[e.t] = s.now + e.d
	case 'Z':
		s.armed[100+id] = s.now + e.t
	case 'z':
		if s.fired[100+e.after] == 0 {
			return false
		}
	case 'S':
		_, ok := s.armed[e.t]
		if ok != (e.res == 1) {
			return false
		}
		delete(s.armed, e.t)
	case 'V':
		q := s.queue[e.t]
		if len(q) == 0 || q[0] != e.res {
			return false
		}
		s.queue[e.t] = q[1:]
	case 'X':
		s.now += e.t
		for t, at := range s.armed {
			if at <= s.now {
				delete(s.armed, t)
				s.fired[t]++
				s.queue[t] = append(s.queue[t], at)
			}
		}
	case 'n':
		return e.res == len(s.armed)
	case 'o':
		return e.res == s.now
	case 'W':
		return len(s.armed) >= e.t
	}
	return true
}

func linearize(evs []ev, done uint, s *spec, final func(*spec) bool) bool {
	all := true
	for i, e := range evs {
		if done&(1<<i) != 0 {
			continue
		}
		all = false
		ok := true
		for j, q := range evs {
			if j != i && done&(1<<j) == 0 && q.ret < e.call {
				ok = false
			}
		}
		if e.a == 'z' && done&(1<<e.after) == 0 {
			ok = false
		}
		if !ok {
			continue
		}
		n := s.clone()
		if n.step(e, i) && linearize(evs, done|1<<i, n, final) {
			return true
		}
	}
	return all && final(s)
}

func (p program) scenario() *mc.Scenario {
	return &mc.Scenario{Name: p.String(), Body: func() {
		r := &run{p: p, clk: new(mclock.Simulated), hist: make([][]ev, len(p.threads)+2)}
		for k := 0; k < 10; k++ {
			r.tm = append(r.tm, &timer{})
		}
		r.thread(0, p.setup)
		var fs []func()
		var waits []int
		var done []chan int
		for i, t := range p.threads {
			i, t := i, t
			if k := strings.IndexByte(t, 'W'); k >= 0 {
				// such a thread may find its timers gone: it is joined below
				ch := make(chan int)
				waits, done = append(waits, int(t[k+1]-'0')), append(done, ch)
				go func() {
					r.thread(i+1, t)
					close(ch)
				}()
				continue
			}
			fs = append(fs, func() { r.thread(i+1, t) })
		}
		mc.Par(fs...)
		for i, ch := range done {
			// with enough armed timers the thread must go on by itself
			spare := 9
			extra := "N99"
			for r.clk.ActiveTimers() < waits[i] {
				r.thread(len(p.threads)+1, strings.Replace(extra, "N9", fmt.Sprint("N", spare), 1))
				spare--
			}
			<-ch
		}
		// let everything that is still armed fire
		r.thread(len(p.threads)+1, "n o X9 X9 n o")
		var evs []ev
		for _, h := range r.hist {
			for _, e := range h {
				evs = append(evs, e)
				if e.a == 'Z' {
					z := e
					z.a, z.after = 'z', len(evs)-1
					evs = append(evs, z)
				}
			}
		}
		// what is left in the channels
		var out []string
		for _, t := range r.tm {
			if t.ch != nil {
				select {
				case v := <-t.ch.C():
					t.vals = append(t.vals, secs(v))
				default:
				}
				if len(t.ch.C()) != 0 {
					mc.Failf("a timer channel holds two values")
				}
				out = append(out, fmt.Sprint(t.vals))
			} else if t.tm != nil {
				out = append(out, fmt.Sprint("f", t.fired))
			}
		}
		for _, h := range r.hist {
			for _, e := range h {
				if strings.ContainsRune("Sno", rune(e.a)) {
					out = append(out, fmt.Sprintf("%c%d", e.a, e.res))
				}
			}
		}
		final := func(s *spec) bool {
			for k, t := range r.tm {
				if t.ch != nil && len(t.vals) != s.fired[k] {
					return false
				}
				if t.ch == nil && t.tm != nil && int(atomic.LoadInt32(&t.fired)) != s.fired[k] {
					return false
				}
			}
			return true
		}
		if !linearize(evs, 0, &spec{}, final) {
			mc.Failf("no order of the calls explains what was observed: %s\nfirings %s", describe(evs), strings.Join(out, " "))
		}
		mc.Outcome("%s", strings.Join(out, " "))
	}}
}

func (p program) String2() string { return p.String() }

func describe(evs []ev) string {
	l := append([]ev{}, evs...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].call < l[j].call })
	var out []string
	for _, e := range l {
		if e.a == 'z' {
			continue
		}
		out = append(out, fmt.Sprintf("%c%d%d=%d[%d,%d]", e.a, e.t, e.d, e.res, e.call, e.ret))
	}
	return strings.Join(out, " ")
}

// System clock scenarios run on virtual time.
func system(name string, idle bool, f func(c mclock.System)) *mc.Scenario {
	return &mc.Scenario{Name: "system: " + name, Idle: idle, Body: func() { f(mclock.System{}) }}
}

func notBefore(at mclock.AbsTime, start mclock.AbsTime, d time.Duration, what string) {
	if at.Sub(start) < d {
		mc.Failf("%s fires after %v, the delay is %v", what, at.Sub(start), d)
	}
}

func empty(ch <-chan mclock.AbsTime, what string) {
	select {
	case <-ch:
		mc.Failf("%s", what)
	default:
	}
}

func systemScenarios() []*mc.Scenario {
	var out []*mc.Scenario
	for _, idle := range []bool{true, false} {
		idle := idle
		add := func(name string, f func(c mclock.System)) {
			out = append(out, system(fmt.Sprintf("%s idle=%v", name, idle), idle, f))
		}
		exact := func(d, want time.Duration, what string) {
			if idle && d != want {
				mc.Failf("%s takes %v instead of %v", what, d, want)
			}
		}
		add("sleep and now", func(c mclock.System) {
			a := c.Now()
			c.Sleep(5 * sec)
			b := c.Now()
			if b.Sub(a) < 5*sec {
				mc.Failf("Sleep(5s) returns after %v", b.Sub(a))
			}
			exact(b.Sub(a), 5*sec, "Sleep(5s)")
			if a.Add(b.Sub(a)) != b {
				mc.Failf("Add and Sub do not match")
			}
			if x := mclock.Now(); x < b {
				mc.Failf("time goes backwards")
			}
		})
		add("after", func(c mclock.System) {
			a := c.Now()
			ch := c.After(3 * sec)
			at := <-ch
			notBefore(at, a, 3*sec, "After")
			exact(at.Sub(a), 3*sec, "After")
			c.Sleep(10 * sec)
			empty(ch, "After fires a second time")
		})
		add("timer", func(c mclock.System) {
			a := c.Now()
			t := c.NewTimer(3 * sec)
			if t.C() != t.C() {
				mc.Failf("C returns different channels")
			}
			at := <-t.C()
			notBefore(at, a, 3*sec, "NewTimer")
			exact(at.Sub(a), 3*sec, "NewTimer")
			if t.Stop() {
				mc.Failf("Stop of an expired timer returns true")
			}
			a = c.Now()
			t.Reset(2 * sec)
			at = <-t.C()
			notBefore(at, a, 2*sec, "a timer reset after expiry")
			exact(at.Sub(a), 2*sec, "a timer reset after expiry")
			a = c.Now()
			t.Reset(4 * sec)
			if t.Stop() {
				c.Sleep(9 * sec)
				empty(t.C(), "a stopped timer fires")
				if t.Stop() {
					mc.Failf("the second Stop returns true")
				}
				a = c.Now()
				t.Reset(1 * sec)
				at = <-t.C()
				notBefore(at, a, sec, "a timer reset after Stop")
				exact(at.Sub(a), sec, "a timer reset after Stop")
			} else {
				at = <-t.C()
				notBefore(at, a, 4*sec, "a reset timer")
			}
			c.Sleep(9 * sec)
			empty(t.C(), "a timer fires twice")
		})
		add("stop or fire", func(c mclock.System) {
			a := c.Now()
			t := c.NewTimer(3 * sec)
			c.Sleep(2 * sec)
			if t.Stop() {
				c.Sleep(9 * sec)
				empty(t.C(), "a stopped timer fires")
			} else {
				notBefore(<-t.C(), a, 3*sec, "NewTimer")
			}
		})
		add("concurrent stops", func(c mclock.System) {
			t := c.NewTimer(2 * sec)
			var s [2]bool
			mc.Par(func() { s[0] = t.Stop() }, func() { s[1] = t.Stop() }, func() { c.Sleep(2 * sec) })
			if !s[0] && !s[1] {
				<-t.C() // the timer function may be late
				if len(t.C()) != 0 {
					mc.Failf("the timer fires twice")
				}
				return
			}
			c.Sleep(9 * sec)
			n := len(t.C())
			if s[0] && s[1] || (s[0] || s[1]) == (n != 0) {
				mc.Failf("two Stop calls return %v, the timer fired %d times", s, n)
			}
			mc.Outcome("%v %d", s, n)
		})
		add("afterfunc", func(c mclock.System) {
			var n int32
			a := c.Now()
			t := c.AfterFunc(3*sec, func() {
				notBefore(c.Now(), a, 3*sec, "AfterFunc")
				atomic.AddInt32(&n, 1)
			})
			stopped := false
			mc.Par(func() { c.Sleep(2 * sec); stopped = t.Stop() }, func() { c.Sleep(sec) })
			c.Sleep(9 * sec)
			k := atomic.LoadInt32(&n)
			if idle && (!stopped || k != 0) {
				mc.Failf("Stop before the delay returns %v, the function ran %d times", stopped, k)
			}
			if stopped && k != 0 {
				mc.Failf("the function of a stopped timer runs")
			}
			if !stopped && idle && k != 1 {
				mc.Failf("the function runs %d times", k)
			}
			if k > 1 {
				mc.Failf("the function runs %d times", k)
			}
			mc.Outcome("%v %d", stopped, k)
		})
		add("undrained timer", func(c mclock.System) {
			// a second expiry of an undrained timer is dropped, not waited for
			t := c.NewTimer(sec)
			c.Sleep(2 * sec)
			if idle {
				t.Reset(sec)
				c.Sleep(2 * sec)
				<-t.C()
				empty(t.C(), "an undrained timer holds two values")
			} else {
				<-t.C()
			}
		})
	}
	return out
}

// many has n goroutines asleep, n waiting for timers, and n timers.
func many(dense, max int) *mc.Scenario {
	sizes := ref.SizeList(dense, max)
	return &mc.Scenario{Name: fmt.Sprintf("0..%d and more, up to %d sleepers, waiters and timers", dense, max), MaxBound: -1, Steps: 4000000, Straight: true, Body: func() {
		n := sizes[mc.Choose(len(sizes))]
		clk := new(mclock.Simulated)
		count := func(want int) {
			if a := clk.ActiveTimers(); a != want {
				mc.Failf("%d of them: %d timers are armed, want %d", n, a, want)
			}
		}
		switch mode := mc.Choose(6); mode {
		case 0, 1: // sleepers, of one or of different lengths
			d := func(i int) time.Duration {
				if mode == 0 {
					return 5 * sec
				}
				return time.Duration(i*7%n+1) * sec
			}
			ended := make([]int, n)
			var fs []func()
			for i := 0; i < n; i++ {
				i := i
				fs = append(fs, func() {
					clk.Sleep(d(i))
					ended[i] = secs(clk.Now())
				})
			}
			mc.Par(append(fs, func() {
				clk.WaitForTimers(n)
				count(n)
				for t := 1; t <= n+5; t++ {
					clk.Run(sec)
					left := 0
					for i := range ended {
						if d(i) > time.Duration(t)*sec {
							left++
						}
					}
					count(left)
				}
			})...)
			for i, t := range ended {
				if time.Duration(t)*sec < d(i) {
					mc.Failf("sleeper %d of %d ended at %d s, its sleep takes %v", i, n, t, d(i))
				}
			}
		case 2, 3: // waiters for 1..n timers, each to be let through in turn
			if n > 140 {
				return
			}
			through := make(chan int)
			var fs []func()
			for i := 1; i <= n; i++ {
				k := i
				if mode == 3 {
					k = n + 1 - i
				}
				fs = append(fs, func() {
					clk.WaitForTimers(k)
					through <- k
				})
			}
			fs = append(fs, func() {
				for i := 1; i <= n; i++ {
					clk.NewTimer(sec)
					count(i)
					if k := <-through; k != i {
						mc.Failf("WaitForTimers(%d) returned with %d timers", k, i)
					}
				}
			})
			mc.Par(fs...)
			clk.Run(sec)
			count(0)
		case 4: // timers, some stopped by other threads
			fired := make([]int, n)
			tm := make([]mclock.Timer, n)
			for i := range tm {
				i := i
				tm[i] = clk.AfterFunc(time.Duration(i%10+1)*sec, func() { fired[i]++ })
			}
			stopped := make([]bool, n)
			var fs []func()
			for k := 0; k < 3; k++ {
				k := k
				fs = append(fs, func() {
					for i := k; i < n; i += 6 {
						stopped[i] = tm[i].Stop()
					}
				})
			}
			mc.Par(fs...)
			live := n
			for i := range stopped {
				if stopped[i] != (i%6 < 3) {
					mc.Failf("Stop of timer %d of %d reports %v", i, n, stopped[i])
				}
				if stopped[i] {
					live--
				}
			}
			count(live)
			clk.Run(10 * sec)
			for i := range fired {
				if (fired[i] == 1) == stopped[i] || fired[i] > 1 {
					mc.Failf("timer %d of %d fired %d times, stopped %v", i, n, fired[i], stopped[i])
				}
			}
			count(0)
		case 5: // timers on the system clock
			var c mclock.System
			start := c.Now()
			ended := make([]mclock.AbsTime, n)
			fired := make([]int32, n)
			var fs []func()
			for i := 0; i < n; i++ {
				i, d := i, time.Duration(i*7%n)*sec
				fs = append(fs, func() {
					t := c.AfterFunc(d/2, func() { atomic.AddInt32(&fired[i], 1) })
					if c.Sleep(d); d > 0 && t.Stop() {
						mc.Failf("a function of %d was not called in time", n)
					}
					ended[i] = c.Now()
				})
			}
			mc.Par(fs...)
			for i := range ended {
				notBefore(ended[i], start, time.Duration(i*7%n)*sec, fmt.Sprintf("sleeper %d of %d", i, n))
			}
			c.Sleep(sec)
			for i := range fired {
				if atomic.LoadInt32(&fired[i]) != 1 {
					mc.Failf("function %d of %d was called %d times", i, n, fired[i])
				}
			}
		}
		mc.Outcome("done")
	}}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		out := systemScenarios()
		if thorough {
			out = append(out, many(40, 1030))
		} else {
			out = append(out, many(20, 260))
		}
		add := func(setup string, threads ...string) {
			out = append(out, program{setup, threads}.scenario())
		}
		add("N02", "S0", "X2", "n")
		add("N02", "S0 n", "S0", "X3")
		add("A02 A11", "S0", "X1 X1", "o n")
		add("", "N02 S0", "X2", "W1")
		add("", "Z2", "W1 X2")
		add("", "Z1", "Z2", "W2 X1 X1")
		add("", "A01", "A12", "W2 n")
		add("N01", "S0 R02 v0", "W1 X2 X2")
		add("N01", "S0 R01 v0 R01", "W1 X2", "X1")
		add("N01", "V0 R01", "X1 W1 X1")
		add("N03 N13", "S0", "S1", "X3")
		add("A03", "X1", "X2", "S0")
		add("A01 A12 A23", "S1", "X3", "n")
		add("N05", "S0 R01", "n n", "X1")
		add("N01", "V0 R02 S0", "X1 X2", "A11")
		add("", "A05 A15", "W2", "W1")
		add("N05", "S0 R05", "W1", "W1 n")
		add("", "Z1", "W1", "W1 X1")
		if thorough {
			scripts := []string{"S0", "S1", "X1", "X2", "X1 X2", "n o", "A31", "N22 S2", "Z1", "W2"}
			for _, setup := range []string{"N01 A12", "A02 A11", "N02 A12 A93 A81"} {
				for i := range scripts {
					for j := i; j < len(scripts); j++ {
						for m := j; m < len(scripts); m++ {
							ts := []string{scripts[i], scripts[j], scripts[m]}
							all := strings.Join(ts, " ")
							if strings.Count(all, "A3") > 1 || strings.Count(all, "N2") > 1 || strings.ContainsAny(all, "ZW") && strings.Count(all, "X") > 0 && strings.Contains(all, "Z") {
								continue
							}
							if strings.Contains(all, "Z") || strings.Contains(all, "W") {
								continue
							}
							if !strings.Contains(all, "X") {
								continue
							}
							add(setup, ts...)
						}
					}
				}
				for _, s := range []string{"S0", "A31", "n", "S1", "N25 S2", "o n"} {
					add(setup, "Z1", "W3 X1", s+" A71")
					add(setup, "Z2", s, "W3 X1 X1")
				}
			}
			for _, a := range []string{"V0 R01 V0", "V0 R02", "V0 R01 S0 R01"} {
				for _, b := range []string{"X1 W1 X1", "X1 X1", "X2"} {
					add("N01", a, b+" X1 X1 W0 X9", "n")
					add("N01", strings.ReplaceAll(a, "V", "v"), b, "W1")
				}
			}
		}
		return out
	})
}
