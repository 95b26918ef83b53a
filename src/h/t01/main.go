// T01: simulated clock against a reference, operation by operation.
package main

import (
	"flychain/common/mclock"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"fmt"
	"strings"
	"time"
)

const unit = time.Nanosecond

type timer struct {
	c     mclock.ChanTimer // nil for AfterFunc
	t     mclock.Timer
	at    int
	armed bool
	due   bool // taken by a running Run, not yet fired
	sent  int  // channel timers: expected value in the channel, if has
	has   bool
	fires int
	cb    int // what the function does
}

type sim struct {
	c      *enum.C
	clk    *mclock.Simulated
	now    int
	tm     []*timer
	frames [][]*timer // due timers of the active Runs
	depth  int
	log    []string
	max    int
}

func (s *sim) d(n int) time.Duration { return time.Duration(n) * unit }

func (s *sim) step() { s.c.Step(1) }

func (s *sim) arm(t *timer, d int) {
	t.at, t.armed = s.now+d, true
}

func (s *sim) newTimer(d int) {
	if len(s.tm) == s.max {
		return
	}
	t := &timer{}
	s.step()
	t.c = s.clk.NewTimer(s.d(d))
	t.t = t.c
	s.arm(t, d)
	s.tm = append(s.tm, t)
}

// settle accounts for channel timers that have fired by now: all due timers
// of the top frame before deadline at, and none after it.
func (s *sim) settle(at int, all bool) {
	f := s.frames[len(s.frames)-1]
	var rest []*timer
	for _, t := range f {
		switch {
		case t.c == nil:
			rest = append(rest, t)
		case all || t.at < at:
			s.c.Check(len(t.c.C()) == 1, "%v: timer for %d has not fired when it should", s.log, t.at)
			t.due, t.has, t.sent = false, true, t.at
			t.fires++
		case t.at == at && len(t.c.C()) == 1:
			t.due, t.has, t.sent = false, true, t.at
			t.fires++
		default:
			s.c.Check(len(t.c.C()) == 0, "%v: timer for %d fires before the function for %d runs", s.log, t.at, at)
			rest = append(rest, t)
		}
	}
	s.frames[len(s.frames)-1] = rest
}

func (s *sim) fired(t *timer) {
	s.c.Check(t.due, "%v: a function runs although its timer (%d) is not due at %d", s.log, t.at, s.now)
	s.c.Check(len(s.frames) > 0, "%v: a function runs outside of Run", s.log)
	s.settle(t.at, false)
	f := s.frames[len(s.frames)-1]
	var rest []*timer
	found := false
	for _, q := range f {
		if q == t {
			found = true
			continue
		}
		s.c.Check(q.at >= t.at, "%v: the function for %d runs before the one for %d", s.log, t.at, q.at)
		rest = append(rest, q)
	}
	s.c.Check(found, "%v: a function runs in the wrong Run", s.log)
	s.frames[len(s.frames)-1] = rest
	t.due = false
	t.fires++
	s.c.Check(t.fires == 1, "%v: a function runs %d times", s.log, t.fires)
	s.observe()
	switch t.cb {
	case 1:
		s.afterFunc(0, 0)
	case 2:
		s.afterFunc(1, 0)
	case 3:
		s.stop(0)
	case 4:
		s.reset(0, 1)
	case 5:
		if s.depth < 2 {
			s.run(1)
		}
	case 6:
		s.newTimer(0)
		s.stop(1)
	}
	s.observe()
}

func (s *sim) afterFunc(d, cb int) {
	if len(s.tm) == s.max {
		return
	}
	t := &timer{cb: cb}
	s.step()
	t.t = s.clk.AfterFunc(s.d(d), func() { s.fired(t) })
	s.arm(t, d)
	s.tm = append(s.tm, t)
}

func (s *sim) stop(k int) {
	if k >= len(s.tm) {
		return
	}
	t := s.tm[k]
	s.step()
	got := t.t.Stop()
	s.c.Check(got == t.armed, "%v: Stop of timer %d returns %v", s.log, k, got)
	t.armed = false
}

// reset drains the channel first, as the contract asks.
func (s *sim) reset(k, d int) {
	if k >= len(s.tm) || s.tm[k].c == nil || s.tm[k].due {
		return
	}
	s.drain(k)
	s.step()
	s.tm[k].c.Reset(s.d(d))
	s.arm(s.tm[k], d)
}

func (s *sim) drain(k int) {
	t := s.tm[k]
	if t.c == nil {
		return
	}
	select {
	case v := <-t.c.C():
		s.c.Check(t.has && v == mclock.AbsTime(s.d(t.sent)), "%v: timer %d delivers %d, want %d (fired %v)", s.log, k, v, s.d(t.sent), t.has)
	default:
		s.c.Check(!t.has, "%v: timer %d has fired but its channel is empty", s.log, k)
	}
	t.has = false
}

func (s *sim) run(d int) {
	end := s.now + d
	var due []*timer
	for _, t := range s.tm {
		if t.armed && t.at <= end {
			// a channel that still holds a value would block Run
			if t.c != nil && t.has {
				panic("harness: undrained timer armed")
			}
			t.armed, t.due = false, true
			due = append(due, t)
		}
	}
	s.now = end
	s.frames = append(s.frames, due)
	s.depth++
	s.step()
	s.clk.Run(s.d(d))
	s.depth--
	s.settle(0, true)
	rest := s.frames[len(s.frames)-1]
	s.c.Check(len(rest) == 0, "%v: %d functions that are due do not run", s.log, len(rest))
	s.frames = s.frames[:len(s.frames)-1]
}

func (s *sim) observe() {
	n := 0
	for k, t := range s.tm {
		if t.armed {
			n++
		}
		if t.c != nil && !t.due {
			s.c.Check(len(t.c.C()) == 1 == t.has, "%v: the channel of timer %d holds %d values, fired %v", s.log, k, len(t.c.C()), t.has)
		}
	}
	a := s.clk.ActiveTimers()
	s.c.Check(a == n, "%v: ActiveTimers is %d, want %d", s.log, a, n)
	now := s.clk.Now()
	s.c.Check(now == mclock.AbsTime(s.d(s.now)), "%v: Now is %d, want %d", s.log, now, s.d(s.now))
}

type op struct {
	name string
	f    func(s *sim)
}

func ops(kind string) []op {
	var l []op
	add := func(name string, f func(s *sim)) { l = append(l, op{name, f}) }
	num := func(f string, lo, hi int, g func(s *sim, d int)) {
		for d := lo; d <= hi; d++ {
			d := d
			add(fmt.Sprintf(f, d), func(s *sim) { g(s, d) })
		}
	}
	lo := 0
	if kind == "all" {
		lo = -1
	}
	num("New(%d)", lo, 2, func(s *sim, d int) { s.newTimer(d) })
	num("Func(%d)", 0, 2, func(s *sim, d int) { s.afterFunc(d, 0) })
	if kind == "all" {
		num("Func(1){%d}", 1, 6, func(s *sim, d int) { s.afterFunc(1, d) })
	}
	num("Stop %d", 0, 2, func(s *sim, d int) { s.stop(d) })
	for k := 0; k < 3; k++ {
		k := k
		num(fmt.Sprintf("Reset %d(%%d)", k), 0, 2, func(s *sim, d int) { s.reset(k, d) })
	}
	num("Run(%d)", 0, 2, func(s *sim, d int) { s.run(d) })
	return l
}

func history(c *enum.C, kind string, depth int) {
	l := ops(kind)
	c.Bound("all sequences of %d operations out of %d (%s), up to 4 timers", depth, len(l), kind)
	idx := make([]int, depth)
	for i := range l {
		for j := range l {
			if !c.Mine() {
				continue
			}
			idx[0], idx[1] = i, j
			var rec func(p int)
			rec = func(p int) {
				if p == depth {
					c.Case(func() {
						s := &sim{c: c, clk: new(mclock.Simulated), max: 4}
						for _, x := range idx {
							s.log = append(s.log, l[x].name)
							l[x].f(s)
							s.observe()
						}
						s.finish()
						if p > 0 {
							var st []string
							for _, t := range s.tm {
								st = append(st, fmt.Sprint(t.at, t.fires))
							}
							c.State(s.now, strings.Join(st, ","))
						}
					}, "%v", idx)
					return
				}
				for k := range l {
					idx[p] = k
					rec(p + 1)
				}
			}
			rec(2)
		}
	}
}

// finish lets everything fire, one unit at a time.
func (s *sim) finish() {
	s.log = append(s.log, "end")
	s.max = 0
	for i := 0; i < 4; i++ {
		s.run(1)
		for k := range s.tm {
			s.drain(k)
		}
		s.observe()
	}
	for k, t := range s.tm {
		s.c.Check(!t.armed && !t.due, "%v: timer %d is still armed", s.log, k)
	}
}

// heapShapes arms n timers with all combinations of deadlines, stops or moves
// up to two of them, and lets the rest fire one by one.
func heapShapes(c *enum.C, n int) {
	c.Bound("all deadlines in 1..%d of %d timers, each with every one or two timers stopped or moved", n, n)
	at := make([]int, n)
	var rec func(p int)
	one := func(mod1, mod2, to1, to2 int) {
		c.Case(func() {
			s := &sim{c: c, clk: new(mclock.Simulated), max: n}
			for _, d := range at {
				s.newTimer(d)
			}
			s.log = append(s.log, fmt.Sprint(at, mod1, mod2, to1, to2))
			for i, m := range []int{mod1, mod2} {
				if m < 0 {
					continue
				}
				to := []int{to1, to2}[i]
				if to < 0 {
					s.stop(m)
				} else {
					s.reset(m, to)
				}
			}
			s.observe()
			for i := 0; i <= n+1; i++ {
				s.run(1)
				s.observe()
				for k := range s.tm {
					s.drain(k)
				}
			}
			for k, t := range s.tm {
				s.c.Check(!t.armed, "%v: timer %d never fires", s.log, k)
			}
			s.c.State(at, mod1, mod2)
		}, "%v %d->%d %d->%d", at, mod1, to1, mod2, to2)
	}
	rec = func(p int) {
		if p == n {
			for a := -1; a < n; a++ {
				if a < 0 {
					one(-1, -1, 0, 0)
					continue
				}
				for _, to := range []int{-1, 0, n + 1} {
					one(a, -1, to, 0)
				}
				for b := 0; b < n; b++ {
					one(a, b, -1, -1)
					if b != a {
						one(a, b, -1, 0)
						one(a, b, n, -1)
					}
				}
			}
			return
		}
		for d := 1; d <= n; d++ {
			if p == 1 && !c.Mine() {
				continue
			}
			at[p] = d
			rec(p + 1)
		}
	}
	rec(0)
}

// large arms many timers.
func large(c *enum.C) {
	dense, max := c.Pick(40, 100), c.Pick(300, 1100)
	c.Bound("0..%d timers and the numbers of timers around every power of two and of ten up to %d, with rising, falling, equal and mixed deadlines, some stopped and some moved, fired one by one or at once", dense, max)
	ref.Sizes(dense, max, func(n int) {
		if !c.Mine() {
			return
		}
		orders := []func(i int) int{
			func(i int) int { return i + 1 },
			func(i int) int { return n - i },
			func(i int) int { return 3 },
			func(i int) int { return (i*7919+13)%(n+3) + 1 },
			func(i int) int { return (i*31+n)%5 + 1 },
		}
		for o, at := range orders {
			for _, every := range []int{0, 3, 2} {
				for _, step := range []int{1, 7, n + 3} {
					if n > 100 && step == 1 && every != 3 {
						continue
					}
					c.Case(func() {
						s := &sim{c: c, clk: new(mclock.Simulated), max: n}
						s.log = append(s.log, fmt.Sprintf("%d timers, order %d", n, o))
						for i := 0; i < n; i++ {
							s.newTimer(at(i))
						}
						if every > 0 {
							for i := 0; i < n; i += every {
								if i%4 == 1 {
									s.stop(i)
								} else {
									s.reset(i, at(n-i))
								}
							}
						}
						s.observe()
						for t := 0; t <= n+4; t += step {
							s.run(step)
							if n <= 100 || t%50 == 0 {
								s.observe()
							}
							for k := range s.tm {
								s.drain(k)
							}
						}
						s.run(n + 10)
						for k := range s.tm {
							s.drain(k)
						}
						s.observe()
						for k, t := range s.tm {
							c.Check(!t.armed, "%v: timer %d never fires", s.log, k)
						}
						c.State(n, o, every, step)
					}, "%d timers, order %d, every %d moved, steps of %d", n, o, every, step)
				}
			}
		}
	})
}

// durations arms three timers with every triple of durations, most of them
// far apart or almost equal, stops or moves one, and advances by such
// durations: when, in which order and with which value timers fire.
func durations(c *enum.C) {
	var l []time.Duration
	for _, e := range []uint{31, 32, 40, 53, 61} {
		x := time.Duration(1) << e
		l = append(l, x-1, x, x+1)
	}
	l = append(l, 0, 1, -1, -(1 << 31), -(1 << 32), -(1 << 54))
	c.Bound("3 timers (functions and channels) with all triples of %d durations up to 2^61, negative ones among them, one left, stopped or reset to such a duration", len(l))
	type tm struct {
		at   mclock.AbsTime
		live bool
	}
	for ai, a := range l {
		for bi, b := range l {
			if !c.Mine() {
				continue
			}
			for ci, d := range l {
				for mod := 0; mod < c.Pick(3, 2+len(l)); mod++ {
					ds := [3]time.Duration{a, b, d}
					c.Case(func() {
						clk := new(mclock.Simulated)
						start := time.Duration(1) << 33
						clk.Run(start)
						now := mclock.AbsTime(start)
						var want [3]tm
						var chans [2]mclock.ChanTimer
						var stops [3]mclock.Timer
						var order []int
						for i := 0; i < 2; i++ {
							chans[i] = clk.NewTimer(ds[i])
							stops[i] = chans[i]
							want[i] = tm{now.Add(ds[i]), true}
						}
						stops[2] = clk.AfterFunc(ds[2], func() { order = append(order, 2) })
						want[2] = tm{now.Add(ds[2]), true}
						switch {
						case mod == 1:
							c.Check(stops[1].Stop(), "%v: Stop says it is not armed", ds)
							want[1].live = false
						case mod >= 2:
							to := l[(ai+bi+ci+mod)%len(l)]
							if c.Thorough() {
								to = l[mod-2]
							}
							chans[0].Reset(to)
							want[0].at = now.Add(to)
						}
						for i, step := range []time.Duration{0, 1, 1<<31 - 2, 1, 1, 1<<32 - 1<<31 - 2, 1, 1, 1<<40 - 1<<32 - 2, 1, 1, 1<<53 - 1<<40 - 2, 1, 1, 1<<61 - 1<<53 - 2, 1, 1} {
							clk.Run(step)
							c.Step(1)
							now = now.Add(step)
							c.Check(clk.Now() == now, "Now is %d, want %d", clk.Now(), now)
							active := 0
							for k := range want {
								w := &want[k]
								fires := w.live && w.at <= now
								if k < 2 {
									select {
									case v := <-chans[k].C():
										c.Check(fires && v == w.at, "%v step %d: timer %d delivers %d at %d, due at %d (armed %v)", ds, i, k, v, now, w.at, w.live)
									default:
										c.Check(!fires, "%v step %d: timer %d does not fire at %d, due at %d", ds, i, k, now, w.at)
									}
								} else {
									c.Check((len(order) == 1) == fires, "%v step %d: the function for %d runs %d times at %d", ds, i, w.at, len(order), now)
									order = nil
								}
								if fires {
									w.live = false
								}
								if w.live {
									active++
								}
							}
							c.Check(clk.ActiveTimers() == active, "%v step %d: %d active timers, want %d", ds, i, clk.ActiveTimers(), active)
						}
						// and the order of functions
						clk = new(mclock.Simulated)
						order = nil
						for k := range ds {
							k := k
							clk.AfterFunc(ds[k], func() { order = append(order, k) })
						}
						clk.Run(1<<62 - 1)
						c.Check(len(order) == 3 && ds[order[0]] <= ds[order[1]] && ds[order[1]] <= ds[order[2]], "functions after %v run in the order %v", ds, order)
						c.State(a, b, d, mod)
					}, "%d %d %d, change %d", a, b, d, mod)
				}
			}
		}
	}
}

// after covers After and Sleep-free use of many equal deadlines.
func after(c *enum.C) {
	c.Bound("After with delays -1..3 and advances in one or several steps")
	for d := -1; d <= 3; d++ {
		for parts := 1; parts <= 4; parts++ {
			d, parts := d, parts
			c.Case(func() {
				clk := new(mclock.Simulated)
				clk.Run(3 * unit)
				ch := clk.After(time.Duration(d) * unit)
				ch2 := clk.After(time.Duration(d) * unit)
				c.Step(4)
				c.Check(clk.ActiveTimers() == 2, "%d active", clk.ActiveTimers())
				total := 0
				for i := 0; i < 5; i++ {
					c.Check((len(ch) == 1) == (total >= d && i > 0) && len(ch) == len(ch2), "After(%d) holds %d after %d", d, len(ch), total)
					step := parts
					if i == 0 {
						step = 0
					}
					clk.Run(time.Duration(step) * unit)
					total += step
				}
				v := <-ch
				c.Check(v == mclock.AbsTime(time.Duration(3+d)*unit), "After(%d) delivers %d", d, v)
				c.Check(len(ch) == 0 && clk.ActiveTimers() == 0, "timers left")
				c.State(d, parts)
				var a mclock.AbsTime = 100
				c.Check(a.Add(5) == 105 && a.Add(-5) == 95 && a.Sub(30) == 70 && mclock.AbsTime(3).Sub(10) == -7, "AbsTime arithmetic")
			}, "After %d %d", d, parts)
		}
	}
}

func main() {
	enum.Main(
		enum.Section{Name: "histories", Shards: 8, Run: func(c *enum.C) { history(c, "all", c.Pick(4, 5)) }},
		enum.Section{Name: "plain histories", Shards: 8, Run: func(c *enum.C) { history(c, "plain", c.Pick(5, 6)) }},
		enum.Section{Name: "heap", Shards: 8, Run: func(c *enum.C) {
			for n := 2; n <= c.Pick(5, 6); n++ {
				heapShapes(c, n)
			}
		}},
		enum.Section{Name: "large", Shards: 4, Run: large},
		enum.Section{Name: "after", Run: after},
		enum.Section{Name: "durations", Shards: 8, Run: durations},
		enum.Section{Name: "function timers", Run: func(c *enum.C) {
			c.Bound("C and Reset of a function timer that is armed, stopped or expired")
			for state := 0; state < 3; state++ {
				state := state
				c.Case(func() {
					clk := new(mclock.Simulated)
					fires := 0
					t, ok := clk.AfterFunc(3, func() { fires++ }).(mclock.ChanTimer)
					if !ok {
						return // cannot be asked
					}
					want := 1
					switch state {
					case 1:
						t.Stop()
						want = 0
					case 2:
						clk.Run(3)
					}
					c.Step(2)
					p, _ := enum.Panics(func() { t.C() })
					c.Check(p, "C of a function timer returns")
					p, _ = enum.Panics(func() { t.Reset(1) })
					c.Check(p, "Reset of a function timer returns")
					clk.Run(10)
					c.Check(fires == want, "the function ran %d times, want %d", fires, want)
				}, "state %d", state)
			}
		}},
	)
}
