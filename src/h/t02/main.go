// T02: alarms on a simulated clock against a reference.
package main

import (
	"flychain/common/mclock"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"fmt"
	"time"
)

const unit = time.Nanosecond

type sim struct {
	c       *enum.C
	clk     *mclock.Simulated
	al      *mclock.Alarm
	ch      <-chan struct{}
	now     int
	pending bool
	at      int
	has     bool
	may     bool // a deadline was reached but replaced before its timer ran: both outcomes are right
	log     []string
	fired   int
}

func abs(t int) mclock.AbsTime { return mclock.AbsTime(t) * mclock.AbsTime(unit) }

func (s *sim) schedule(t int) {
	s.c.Step(1)
	s.al.Schedule(abs(t))
	eff := t
	if eff < s.now {
		eff = s.now
	}
	switch {
	case !s.pending:
		s.pending, s.at = true, eff
	case s.at > s.now:
		if eff < s.at {
			s.at = eff
		}
	default:
		// the old deadline is now; its notification may still come
		if eff > s.at {
			s.may = true
		}
		s.at = eff
	}
}

func (s *sim) stop() {
	s.c.Step(1)
	s.al.Stop()
	s.pending, s.has, s.may = false, false, false
}

func (s *sim) run(d int) {
	s.now += d
	s.c.Step(1)
	s.clk.Run(time.Duration(d) * unit)
	if s.pending && s.at <= s.now {
		s.pending, s.has, s.may = false, true, false
		s.fired++
	} else if s.may {
		s.may = false
		s.has = s.has || len(s.ch) == 1
	}
}

func (s *sim) recv() {
	s.observe()
	select {
	case <-s.ch:
	default:
	}
	s.has = false
}

func (s *sim) observe() {
	n := len(s.ch)
	if s.may && n == 1 && !s.has {
		s.has, s.may = true, false
	}
	want := 0
	if s.has {
		want = 1
	}
	s.c.Check(n == want, "%v at %d: the channel holds %d notifications, want %d (pending %v for %d)", s.log, s.now, n, want, s.pending, s.at)
	s.c.Check(s.al.C() == s.ch, "%v: the channel changes", s.log)
	a := s.clk.ActiveTimers()
	s.c.Check(a <= 1 || s.may, "%v: %d timers are armed", s.log, a)
	s.c.Check(a >= 1 || !s.pending, "%v: no timer is armed for %d", s.log, s.at)
}

type op struct {
	name string
	f    func(s *sim)
}

func main() {
	var l []op
	for d := -1; d <= 4; d++ {
		d := d
		l = append(l, op{fmt.Sprintf("Schedule(%+d)", d), func(s *sim) { s.schedule(s.now + d) }})
	}
	for d := 0; d <= 3; d++ {
		d := d
		l = append(l, op{fmt.Sprintf("Run(%d)", d), func(s *sim) { s.run(d) }})
	}
	l = append(l, op{"Stop", (*sim).stop}, op{"receive", (*sim).recv})
	run := func(c *enum.C, start, depth int) {
		c.Bound("all sequences of %d operations out of %d, clock starting at %d", depth, len(l), start)
		idx := make([]int, depth)
		for i := range l {
			for j := range l {
				if !c.Mine() {
					continue
				}
				idx[0], idx[1] = i, j
				var rec func(p int)
				rec = func(p int) {
					if p < depth {
						for k := range l {
							idx[p] = k
							rec(p + 1)
						}
						return
					}
					c.Case(func() {
						s := &sim{c: c, clk: new(mclock.Simulated), now: start}
						s.clk.Run(time.Duration(start) * unit)
						s.al = mclock.NewAlarm(s.clk)
						s.ch = s.al.C()
						for _, x := range idx {
							s.log = append(s.log, l[x].name)
							l[x].f(s)
							s.observe()
						}
						s.log = append(s.log, "end")
						for i := 0; i < 5; i++ {
							s.run(1)
							s.observe()
							s.recv()
						}
						c.Check(!s.pending, "harness")
						s.schedule(s.now + 1)
						s.run(1)
						s.observe()
						c.Check(s.has, "%v: the alarm cannot be reused", s.log)
						c.State(s.fired, idx[:3])
					}, "%v", idx)
				}
				rec(2)
			}
		}
	}
	enum.Main(
		enum.Section{Name: "histories", Shards: 8, Run: func(c *enum.C) { run(c, 3, c.Pick(6, 7)) }},
		enum.Section{Name: "from zero", Shards: 8, Run: func(c *enum.C) { run(c, 0, c.Pick(5, 7)) }},
		enum.Section{Name: "large", Shards: 8, Run: large},
		enum.Section{Name: "nil clock", Run: func(c *enum.C) {
			c.Case(func() {
				p, _ := enum.Panics(func() { mclock.NewAlarm(nil) })
				c.Check(p, "NewAlarm(nil) does not panic")
			}, "nil")
		}},
	)
}

func newSim(c *enum.C, start int) *sim {
	s := &sim{c: c, clk: new(mclock.Simulated), now: start}
	s.clk.Run(time.Duration(start) * unit)
	s.al = mclock.NewAlarm(s.clk)
	s.ch = s.al.C()
	return s
}

// large: far deadlines, late clocks and long histories.
func large(c *enum.C) {
	far := ref.SizeList(2, c.Pick(1<<59, 1<<60))
	c.Bound("clocks and distances to a deadline at and around the powers of 2 and 10 up to 2^59 ns (2^60 in the deep tier), the alarm moved forward, back and not at all")
	for _, start := range far {
		for _, dist := range far {
			if dist == 0 || !c.Mine() {
				continue
			}
			for mode := 0; mode < 4; mode++ {
				c.Case(func() {
					s := newSim(c, start)
					s.log = []string{fmt.Sprintf("clock %d, distance %d, mode %d", start, dist, mode)}
					switch mode {
					case 1:
						s.schedule(start + 2*dist)
						s.observe()
					case 2:
						s.schedule(start + dist)
						s.schedule(start + 2*dist)
						s.observe()
					case 3:
						s.schedule(start + 2*dist)
						s.stop()
						s.observe()
					}
					if mode != 2 {
						s.schedule(start + dist)
					}
					s.observe()
					s.run(dist - 1)
					s.observe()
					s.run(1)
					s.observe()
					c.Check(s.has, "%v: the alarm did not fire", s.log)
					s.recv()
					s.run(dist)
					s.observe()
					s.recv()
					c.State(mode)
				}, "clock %d distance %d mode %d", start, dist, mode)
			}
		}
	}
	c.Bound("histories of up to %d operations: one alarm moved earlier each time, moved later each time, stopped each time, fired each time, fired without being received", c.Pick(2000, 20000))
	for _, n := range ref.SizeList(c.Pick(40, 200), c.Pick(2000, 20000)) {
		if n == 0 || !c.Mine() {
			continue
		}
		for mode := 0; mode < 6; mode++ {
			c.Case(func() {
				s := newSim(c, 7)
				s.log = []string{fmt.Sprintf("%d times mode %d", n, mode)}
				for i := 0; i < n; i++ {
					switch mode {
					case 0: // earlier and earlier
						s.schedule(s.now + n + 1 - i)
					case 1: // later and later
						s.schedule(s.now + 3 + i)
					case 2:
						s.schedule(s.now + 3)
						s.observe()
						s.stop()
					case 3:
						s.schedule(s.now + 2)
						s.run(1)
						s.observe()
						s.run(1)
						s.recv()
					case 4:
						s.schedule(s.now + 1)
						s.run(1)
					case 5: // both in turn
						if i%2 == 0 {
							s.schedule(s.now + n + 2 - i)
						} else {
							s.schedule(s.now + 2*n + i)
						}
					}
					s.observe()
				}
				if mode == 4 {
					c.Check(s.has, "%v: no notification", s.log)
				}
				s.recv()
				for i := 0; i < 4; i++ {
					s.run(1)
					s.observe()
					s.recv()
				}
				s.run(2*n + 3)
				s.observe()
				s.recv()
				s.schedule(s.now + 1)
				s.run(1)
				s.observe()
				c.Check(s.has, "%v: the alarm cannot be reused", s.log)
				c.State(mode, n)
			}, "%d times mode %d", n, mode)
		}
	}
}
