// L01: logger trees against a reference.
package main

import (
	"flychain/log"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
)

const odd = "Normalized odd number of arguments by adding nil"
const errKey = "LOG15_ERROR"

// A shape makes the arguments of a call; each has spare capacity behind it
// that belongs to the caller.
type shape struct {
	name string
	args []interface{}
	want []interface{} // reference; nil with set for map contexts
	set  map[string]interface{}
}

type sentinel struct{}

func sl(v ...interface{}) []interface{} {
	s := make([]interface{}, len(v), len(v)+5)
	copy(s, v)
	full := s[:cap(s)]
	for i := len(v); i < len(full); i++ {
		full[i] = sentinel{}
	}
	return s
}

func shapes() []*shape {
	m2 := log.Ctx{"m1": 1, "m2": 2}
	return []*shape{
		{"none", nil, []interface{}{}, nil},
		{"pair", sl("k", 1), []interface{}{"k", 1}, nil},
		{"odd1", sl("o"), []interface{}{"o", nil, errKey, odd}, nil},
		{"map2", sl(m2), nil, map[string]interface{}{"m1": 1, "m2": 2}},
		{"two", sl("a", 1, "b", nil), []interface{}{"a", 1, "b", nil}, nil},
		{"odd3", sl("x", 1, "y"), []interface{}{"x", 1, "y", nil, errKey, odd}, nil},
		{"map0", sl(log.Ctx{}), []interface{}{}, nil},
		{"nilmap", sl(log.Ctx(nil)), []interface{}{}, nil},
		{"map1", sl(log.Ctx{"z": 3}), []interface{}{"z", 3}, nil},
		{"nil", sl(nil), []interface{}{nil, nil, errKey, odd}, nil},
		{"keymap", sl("w", 7), []interface{}{"w", 7}, nil},
	}
}

// a piece of expected context: ordered or a set of pairs
type piece = *shape

type node struct {
	l      log.Logger
	parent int
	pieces []piece
	own    int // handler id, -1: the parent's
}

type sim struct {
	began time.Time // the next call begins after this
	c     *enum.C
	sh    []*shape
	nodes []*node
	recs  []rec
	nh    int
	log   []string
}

type rec struct {
	h int
	r log.Record
}

// handler records and then abuses its record as much as handlers may.
func (s *sim) handler() (int, log.Handler) {
	id := s.nh
	s.nh++
	return id, log.FuncHandler(func(r *log.Record) error {
		cp := *r
		cp.Ctx = append([]interface{}{}, r.Ctx...)
		s.recs = append(s.recs, rec{id, cp})
		for i := range r.Ctx {
			r.Ctx[i] = "overwritten"
		}
		r.Ctx = append(r.Ctx, "more", "fields")
		return nil
	})
}

func pairs(l []interface{}) string {
	var p []string
	for i := 0; i+1 < len(l); i += 2 {
		p = append(p, fmt.Sprintf("%v=%v", l[i], l[i+1]))
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func (s *sim) matches(got []interface{}, pieces []piece) bool {
	for _, p := range pieces {
		if p.set != nil {
			n := 2 * len(p.set)
			if len(got) < n {
				return false
			}
			seen := map[string]bool{}
			for i := 0; i < n; i += 2 {
				k, ok := got[i].(string)
				if !ok || seen[k] || !reflect.DeepEqual(p.set[k], got[i+1]) {
					return false
				}
				if _, ok := p.set[k]; !ok {
					return false
				}
				seen[k] = true
			}
			got = got[n:]
			continue
		}
		if len(got) < len(p.want) || len(p.want) > 0 && !reflect.DeepEqual(got[:len(p.want)], p.want) {
			return false
		}
		got = got[len(p.want):]
	}
	return len(got) == 0
}

func (s *sim) handlerOf(k int) int {
	for s.nodes[k].own < 0 {
		k = s.nodes[k].parent
	}
	return s.nodes[k].own
}

func (s *sim) untouched(p *shape) {
	ref := shapes()
	for i, q := range s.sh {
		if q == p {
			for j, v := range ref[i].args[:cap(ref[i].args)] {
				if !reflect.DeepEqual(q.args[:cap(q.args)][j], v) {
					s.c.Failf("%v: the caller's slice was changed: element %d (of %d) is %v", s.log, j, len(q.args), q.args[:cap(q.args)][j])
				}
			}
		}
	}
}

var levels = []log.Lvl{log.LvlTrace, log.LvlDebug, log.LvlInfo, log.LvlWarn, log.LvlError}

func (s *sim) write(k int, p *shape, lvl int) {
	n := s.nodes[k]
	s.recs = nil
	msg := fmt.Sprint("message ", len(s.log))
	var line int
	s.c.Step(1)
	switch lvl {
	case 0:
		_, _, line, _ = runtime.Caller(0)
		n.l.Trace(msg, p.args...)
	case 1:
		_, _, line, _ = runtime.Caller(0)
		n.l.Debug(msg, p.args...)
	case 2:
		_, _, line, _ = runtime.Caller(0)
		n.l.Info(msg, p.args...)
	case 3:
		_, _, line, _ = runtime.Caller(0)
		n.l.Warn(msg, p.args...)
	case 4:
		_, _, line, _ = runtime.Caller(0)
		n.l.Error(msg, p.args...)
	}
	s.untouched(p)
	s.expect(s.handlerOf(k), msg, levels[lvl], append(append([]piece{}, n.pieces...), p), line+1)
}

func (s *sim) expect(h int, msg string, lvl log.Lvl, pieces []piece, line int) {
	if len(s.recs) != 1 {
		s.c.Failf("%v: %d records reach the handlers", s.log, len(s.recs))
	}
	r := s.recs[0]
	s.c.Check(r.h == h, "%v: the record reaches handler %d, want %d", s.log, r.h, h)
	s.c.Check(r.r.Msg == msg && r.r.Lvl == lvl, "%v: message %q level %v, want %q %v", s.log, r.r.Msg, r.r.Lvl, msg, lvl)
	if !s.matches(r.r.Ctx, pieces) {
		var w []string
		for _, p := range pieces {
			w = append(w, p.name)
		}
		s.c.Failf("%v: the context is %v, want the contexts %v in this order", s.log, r.r.Ctx, w)
	}
	s.c.Check(fmt.Sprint(r.r.Call) == fmt.Sprintf("main.go:%d", line), "%v: the call site is %v, want line %d", s.log, r.r.Call, line)
	s.c.Check(r.r.KeyNames == log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}, "%v: key names %v", s.log, r.r.KeyNames)
	now := time.Now()
	s.c.Check(!r.r.Time.Before(s.began) && !r.r.Time.After(now), "%v: the time is %v, the call was between %v and %v", s.log, r.r.Time, s.began, now)
	s.began = now
}

func newSim(c *enum.C) *sim {
	s := &sim{c: c, sh: shapes()}
	base := log.New()
	id, h := s.handler()
	base.SetHandler(h)
	s.nodes = []*node{{l: base, parent: -1, own: id}}
	return s
}

type op struct {
	name string
	f    func(s *sim) bool // false: not applicable
}

// ops over at most max loggers and the first n shapes
func ops(max, n int, lvls []int) []op {
	var l []op
	sh := shapes()
	for k := 0; k < max; k++ {
		k := k
		for i := 0; i < n; i++ {
			i := i
			l = append(l, op{fmt.Sprintf("%d.New(%s)", k, sh[i].name), func(s *sim) bool {
				if k >= len(s.nodes) || len(s.nodes) >= max {
					return false
				}
				p := s.sh[i]
				s.c.Step(1)
				ch := s.nodes[k].l.New(p.args...)
				s.untouched(p)
				s.nodes = append(s.nodes, &node{l: ch, parent: k, own: -1, pieces: append(append([]piece{}, s.nodes[k].pieces...), p)})
				return true
			}})
			for _, lv := range lvls {
				lv := lv
				l = append(l, op{fmt.Sprintf("%d.Log(%s)", k, sh[i].name), func(s *sim) bool {
					if k >= len(s.nodes) {
						return false
					}
					s.write(k, s.sh[i], lv)
					return true
				}})
			}
		}
		l = append(l, op{fmt.Sprintf("%d.SetHandler", k), func(s *sim) bool {
			if k >= len(s.nodes) {
				return false
			}
			id, h := s.handler()
			s.c.Step(1)
			s.nodes[k].l.SetHandler(h)
			s.nodes[k].own = id
			return true
		}})
	}
	return l
}

func (s *sim) probe() {
	s.log = append(s.log, "end")
	for k := range s.nodes {
		for i := 0; i < 3; i++ {
			s.write(k, s.sh[i], (i+k)%5)
		}
		// the handler that GetHandler returns is the one in force
		s.recs = nil
		s.nodes[k].l.GetHandler().Log(&log.Record{Msg: "direct"})
		s.c.Check(len(s.recs) == 1 && s.recs[0].h == s.handlerOf(k), "%v: GetHandler of %d returns another handler", s.log, k)
	}
	for _, p := range s.sh {
		s.untouched(p)
	}
	m := s.sh[3].args[0].(log.Ctx)
	s.c.Check(reflect.DeepEqual(m, log.Ctx{"m1": 1, "m2": 2}), "%v: a context map was changed to %v", s.log, m)
}

func histories(c *enum.C, max, nshapes, depth int, lvls []int) {
	l := ops(max, nshapes, lvls)
	c.Bound("all sequences of %d operations out of %d on up to %d loggers with %d shapes of context", depth, len(l), max, nshapes)
	idx := make([]int, depth)
	var rec func(p int)
	rec = func(p int) {
		if p == depth {
			c.Case(func() {
				s := newSim(c)
				for _, x := range idx {
					s.log = append(s.log, l[x].name)
					if !l[x].f(s) {
						return // covered by a shorter history
					}
				}
				s.probe()
				c.State(len(s.nodes), idx)
			}, "%v", idx)
			return
		}
		for i := range l {
			if p == 1 && !c.Mine() {
				continue
			}
			idx[p] = i
			rec(p + 1)
		}
	}
	rec(0)
}

// large goes through long contexts, deep chains and many children.
func large(c *enum.C) {
	dense, max := c.Pick(60, 200), c.Pick(1<<10, 1<<13)
	c.Bound("contexts of 0..%d pairs, and of the numbers of pairs around every power of two and of ten up to %d, on a logger, its child and a record; chains as deep (up to 300) and as many children of one logger", dense, max)
	fields := func(tag string, n int) []interface{} {
		l := make([]interface{}, 0, 2*n+1)
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("%s%d", tag, i), i)
		}
		return l
	}
	mkRoot := func(got *[][]interface{}) log.Logger {
		l := log.New()
		l.SetHandler(log.FuncHandler(func(r *log.Record) error {
			*got = append(*got, append([]interface{}{}, r.Ctx...))
			for i := range r.Ctx {
				r.Ctx[i] = "overwritten"
			}
			return nil
		}))
		return l
	}
	same := func(what string, got [][]interface{}, want ...[]interface{}) {
		c.Check(len(got) == len(want), "%s: %d records, want %d", what, len(got), len(want))
		for i := range want {
			c.Check(len(got[i]) == len(want[i]), "%s: record %d has %d elements, want %d", what, i, len(got[i]), len(want[i]))
			for j := range want[i] {
				c.Check(got[i][j] == want[i][j], "%s: record %d: element %d is %v, want %v", what, i, j, got[i][j], want[i][j])
			}
		}
	}
	cat := func(l ...[]interface{}) (all []interface{}) {
		for _, x := range l {
			all = append(all, x...)
		}
		return all
	}
	ref.Sizes(dense, max, func(n int) {
		if !c.Mine() {
			return
		}
		for _, m := range []int{0, 1, n} {
			for _, odd1 := range []int{0, 1} {
				c.Case(func() {
					c.Step(6)
					var got [][]interface{}
					a, b, d := fields("a", n), fields("b", m), fields("d", n)
					wa, wb, wd := a, b, d
					if odd1 == 1 {
						a, d = append(a, "odd"), append(d, "odd")
						wa, wd = cat(a, []interface{}{nil, errKey, odd}), cat(d, []interface{}{nil, errKey, odd})
					}
					root := mkRoot(&got)
					p := root.New(a...)
					x := p.New(b...)
					y := p.New("y", 1)
					x.Info("m", d...)
					y.Info("m")
					p.Info("m", b...)
					x.Info("m")
					root.Info("m", a...)
					same("record", got, cat(wa, wb, wd), cat(wa, []interface{}{"y", 1}), cat(wa, wb), cat(wa, wb), wa)
					c.State(n, m, odd1)
				}, "contexts of %d and %d pairs, odd %d", n, m, odd1)
			}
		}
		c.Case(func() {
			c.Step(2)
			var got [][]interface{}
			m := log.Ctx{}
			for i := 0; i < n; i++ {
				m[fmt.Sprint("m", i)] = i
			}
			l := mkRoot(&got).New(m)
			l.Info("m", m)
			c.Check(len(got) == 1 && len(got[0]) == 4*n, "%d records of %d elements, want 1 of %d", len(got), len(got[0]), 4*n)
			for h := 0; h < 2; h++ {
				seen := map[interface{}]bool{}
				for i := 2 * n * h; i < 2*n*(h+1); i += 2 {
					k, _ := got[0][i].(string)
					c.Check(!seen[k] && m[k] == got[0][i+1], "element %d is %v=%v", i, got[0][i], got[0][i+1])
					seen[k] = true
				}
			}
		}, "map context of %d entries", n)
		c.Case(func() {
			var got [][]interface{}
			root := mkRoot(&got)
			if n <= 300 {
				l := root
				var chain, sibs []log.Logger
				for i := 0; i < n; i++ {
					c.Step(2)
					sibs = append(sibs, l.New("s", i))
					l = l.New(fmt.Sprint("c", i), i)
					chain = append(chain, l)
				}
				all := fields("c", n)
				for i := range chain {
					got = nil
					c.Step(2)
					chain[i].Info("m", "r", 1)
					sibs[i].Info("m")
					same(fmt.Sprint("depth ", i), got, cat(all[:2*i+2], []interface{}{"r", 1}), cat(all[:2*i], []interface{}{"s", i}))
				}
			}
			p := root.New("p", 1)
			var kids []log.Logger
			for i := 0; i < n; i++ {
				c.Step(1)
				kids = append(kids, p.New("k", i))
			}
			for i, k := range kids {
				got = nil
				k.Info("m")
				same("child", got, []interface{}{"p", 1, "k", i})
			}
		}, "%d descendants", n)
	})
}

func rootFunctions(c *enum.C) {
	c.Bound("package functions with every shape; Output with call depths 0..2; level names")
	for i := range shapes() {
		for lvl := 0; lvl < 5; lvl++ {
			i, lvl := i, lvl
			c.Case(func() {
				s := &sim{c: c, sh: shapes()}
				id, h := s.handler()
				log.Root().SetHandler(h)
				s.nodes = []*node{{l: log.Root(), parent: -1, own: id}}
				p := s.sh[i]
				var line int
				switch lvl {
				case 0:
					_, _, line, _ = runtime.Caller(0)
					log.Trace("m", p.args...)
				case 1:
					_, _, line, _ = runtime.Caller(0)
					log.Debug("m", p.args...)
				case 2:
					_, _, line, _ = runtime.Caller(0)
					log.Info("m", p.args...)
				case 3:
					_, _, line, _ = runtime.Caller(0)
					log.Warn("m", p.args...)
				case 4:
					_, _, line, _ = runtime.Caller(0)
					log.Error("m", p.args...)
				}
				s.untouched(p)
				s.expect(id, "m", levels[lvl], []piece{p}, line+1)
				s.recs = nil
				_, _, line, _ = runtime.Caller(0)
				log.Output("o", levels[lvl], 0, p.args...)
				s.expect(id, "o", levels[lvl], []piece{p}, line+1)
				s.recs = nil
				_, _, line, _ = runtime.Caller(0)
				func() { log.Output("o", levels[lvl], 1, p.args...) }()
				s.expect(id, "o", levels[lvl], []piece{p}, line+1)
				// loggers from New are children of the root
				ch := log.New(p.args...)
				s.nodes = append(s.nodes, &node{l: ch, parent: 0, own: -1, pieces: []piece{p}})
				s.write(1, s.sh[1], lvl)
				id2, h2 := s.handler()
				log.Root().SetHandler(h2)
				s.nodes[0].own = id2
				s.write(1, s.sh[4], lvl)
				s.write(0, s.sh[0], lvl)
				c.State(i, lvl)
			}, "shape %d level %d", i, lvl)
		}
	}
	c.Case(func() {
		names := map[string]log.Lvl{"trace": 5, "trce": 5, "debug": 4, "dbug": 4, "info": 3, "warn": 2, "error": 1, "eror": 1, "crit": 0}
		for n, w := range names {
			g, err := log.LvlFromString(n)
			c.Check(err == nil && g == w, "LvlFromString(%q) = %v, %v", n, g, err)
		}
		for _, n := range []string{"", "Info", "critical", "5", "INFO", "eror "} {
			_, err := log.LvlFromString(n)
			c.Check(err != nil, "LvlFromString(%q) is accepted", n)
		}
		for l, w := range map[log.Lvl][2]string{0: {"CRIT ", "crit"}, 1: {"ERROR", "eror"}, 2: {"WARN ", "warn"}, 3: {"INFO ", "info"}, 4: {"DEBUG", "dbug"}, 5: {"TRACE", "trce"}} {
			c.Check(l.AlignedString() == w[0] && l.String() == w[1], "level %d is %q %q", int(l), l.AlignedString(), l.String())
			g, err := log.LvlFromString(l.String())
			c.Check(err == nil && g == l, "level %v does not survive", l)
		}
	}, "level names")
}

func main() {
	enum.Main(
		enum.Section{Name: "large", Shards: 4, Run: large},
		enum.Section{Name: "shapes", Shards: 8, Run: func(c *enum.C) { histories(c, 3, len(shapes()), c.Pick(3, 4), []int{2}) }},
		enum.Section{Name: "trees", Shards: 8, Run: func(c *enum.C) { histories(c, 4, 2, c.Pick(5, 6), []int{3}) }},
		enum.Section{Name: "root", Run: rootFunctions},
	)
}
