// L05: handler trees against an interpreter, and the verbosity handler against
// a matcher of its own.
package main

import (
	"errors"
	"flychain/log"
	"flychain/zzmc/enum"
	"flychain/zzmc/l05/aa"
	"flychain/zzmc/l05/aa/bb"
	"flychain/zzmc/l05/cc"
	dd "flychain/zzmc/l05/one.go"
	"flychain/zzmc/ref"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/go-stack/stack"
)

var names = log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}
var when = time.Unix(1, 0)

func panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }

// ---- handler trees ----

type seen struct {
	leaf int
	lvl  log.Lvl
	msg  string
	ctx  []interface{}
}

// A tree builds a handler and interprets it.
type tree struct {
	name   string
	leaves int
	build  func(e *env, first int) log.Handler
	run    func(m *model, first int) error
}

// env is what the real handlers write to.
type env struct {
	got   []seen
	calls map[int]int
	lazy  int
}

// model is the reference record and what its sinks saw.
type model struct {
	seen
	got   []seen
	calls map[int]int
	lazy  int
	site  string // base file and line
	fn    string
}

var errLeaf = [4]error{errors.New("leaf 0"), errors.New("leaf 1"), errors.New("leaf 2"), errors.New("leaf 3")}

func clone(s seen, leaf int) seen {
	s.leaf = leaf
	s.ctx = append([]interface{}{}, s.ctx...)
	return s
}

// fails: a sink that fails always, never or on every other record
func sink(name string, fails func(n int) bool) *tree {
	return &tree{name, 1, func(e *env, first int) log.Handler {
		return log.FuncHandler(func(r *log.Record) error {
			n := e.calls[first]
			e.calls[first]++
			e.got = append(e.got, seen{first, r.Lvl, r.Msg, append([]interface{}{}, r.Ctx...)})
			if fails(n) {
				return errLeaf[first]
			}
			return nil
		})
	}, func(m *model, first int) error {
		n := m.calls[first]
		m.calls[first]++
		m.got = append(m.got, clone(m.seen, first))
		if fails(n) {
			return errLeaf[first]
		}
		return nil
	}}
}

type lazyMark struct{}  // a lazy value that was not evaluated
type badLazy struct{}   // an error from a bad lazy
type stackMark struct{} // a trimmed stack
type stackText struct{} // a formatted stack

func filter(name string, mk func(log.Handler) log.Handler, ok func(m *model) bool) func(*tree) *tree {
	return func(t *tree) *tree {
		return &tree{name + "(" + t.name + ")", t.leaves, func(e *env, f int) log.Handler { return mk(t.build(e, f)) }, func(m *model, f int) error {
			if !ok(m) {
				return nil
			}
			return t.run(m, f)
		}}
	}
}

func first(m *model, key string) (interface{}, bool) {
	for i := 0; i < len(m.ctx); i += 2 {
		if m.ctx[i] == key {
			return m.ctx[i+1], true
		}
	}
	return nil, false
}

func unary() []func(*tree) *tree {
	level := func(l log.Lvl) func(*tree) *tree {
		return filter(fmt.Sprint("level-", l), func(h log.Handler) log.Handler { return log.LvlFilterHandler(l, h) }, func(m *model) bool { return m.lvl <= l })
	}
	match := func(key string, v interface{}, ok func(m *model) bool) func(*tree) *tree {
		return filter(fmt.Sprintf("match-%s-%v", key, v), func(h log.Handler) log.Handler { return log.MatchFilterHandler(key, v, h) }, ok)
	}
	ctxIs := func(key string, v interface{}) func(m *model) bool {
		return func(m *model) bool {
			x, ok := first(m, key)
			return ok && x == v
		}
	}
	add := func(name string, mk func(log.Handler) log.Handler, f func(m *model)) func(*tree) *tree {
		return func(t *tree) *tree {
			return &tree{name + "(" + t.name + ")", t.leaves, func(e *env, i int) log.Handler { return mk(t.build(e, i)) }, func(m *model, i int) error {
				f(m)
				return t.run(m, i)
			}}
		}
	}
	return []func(*tree) *tree{
		level(log.LvlInfo),
		level(log.LvlError),
		match("k", 1, ctxIs("k", 1)),
		match("k", nil, ctxIs("k", nil)),
		match("lvl", log.LvlInfo, func(m *model) bool { return m.lvl == log.LvlInfo }),
		match("msg", "m1", func(m *model) bool { return m.msg == "m1" }),
		match("t", when, func(m *model) bool { return true }),
		match("caller", "nowhere", func(m *model) bool { return false }),
		filter("func", func(h log.Handler) log.Handler {
			return log.FilterHandler(func(r *log.Record) bool { return len(r.Ctx) > 2 }, h)
		}, func(m *model) bool { return len(m.ctx) > 2 }),
		add("sync", log.SyncHandler, func(*model) {}),
		add("file", log.CallerFileHandler, func(m *model) { m.ctx = append(m.ctx, "caller", m.site) }),
		add("func", log.CallerFuncHandler, func(m *model) { m.ctx = append(m.ctx, "fn", m.fn) }),
		add("stack", func(h log.Handler) log.Handler { return log.CallerStackHandler("%v", h) }, func(m *model) { m.ctx = append(m.ctx, "stack", stackText{}) }),
		add("lazy", log.LazyHandler, func(m *model) {
			bad := false
			for i := 1; i < len(m.ctx); i += 2 {
				if l, ok := m.ctx[i].(log.Lazy); ok {
					switch f := l.Fn.(type) {
					case func() int:
						m.lazy++
						m.ctx[i] = 7
					case func() (int, string):
						m.lazy++
						m.ctx[i] = []interface{}{1, "two"}
					case func() stack.CallStack:
						m.lazy++
						m.ctx[i] = stackMark{}
					default:
						_ = f
						m.ctx[i] = badLazy{}
						bad = true
					}
				}
			}
			if bad {
				m.ctx = append(m.ctx, "LOG15_ERROR", "bad lazy")
			}
		}),
	}
}

func multi(ts ...*tree) *tree {
	return &tree{"multi(" + joinNames(ts) + ")", total(ts), func(e *env, f int) log.Handler {
		return log.MultiHandler(buildAll(e, f, ts)...)
	}, func(m *model, f int) error {
		for _, t := range ts {
			t.run(m, f)
			f += t.leaves
		}
		return nil
	}}
}

func failover(ts ...*tree) *tree {
	return &tree{"failover(" + joinNames(ts) + ")", total(ts), func(e *env, f int) log.Handler {
		return log.FailoverHandler(buildAll(e, f, ts)...)
	}, func(m *model, f int) error {
		var last error
		for i, t := range ts {
			last = t.run(m, f)
			if last == nil {
				return nil
			}
			m.ctx = append(m.ctx, fmt.Sprint("failover_err_", i), last)
			f += t.leaves
		}
		return last
	}}
}

func joinNames(ts []*tree) string {
	var l []string
	for _, t := range ts {
		l = append(l, t.name)
	}
	return strings.Join(l, ",")
}

func total(ts []*tree) (n int) {
	for _, t := range ts {
		n += t.leaves
	}
	return
}

func buildAll(e *env, f int, ts []*tree) (l []log.Handler) {
	for _, t := range ts {
		l = append(l, t.build(e, f))
		f += t.leaves
	}
	return
}

type input struct {
	lvl log.Lvl
	msg string
	ctx func(e *env) []interface{}
}

func inputs() []input {
	return []input{
		{log.LvlInfo, "m1", func(*env) []interface{} { return []interface{}{"k", 1} }},
		{log.LvlTrace, "m2", func(*env) []interface{} { return nil }},
		{log.LvlError, "m1", func(*env) []interface{} { return []interface{}{"k", 2, "k", 1, "x", nil} }},
		{log.LvlWarn, "m1", func(e *env) []interface{} {
			return []interface{}{"k", log.Lazy{Fn: func() int { e.lazy++; return 7 }}, "s", log.Lazy{Fn: func() stack.CallStack { e.lazy++; return stack.Trace() }}}
		}},
		{log.LvlCrit, "m2", func(e *env) []interface{} {
			return []interface{}{"bad", log.Lazy{Fn: 3}, "two", log.Lazy{Fn: func() (int, string) { e.lazy++; return 1, "two" }}, "k", nil}
		}},
	}
}

// emitted has the right call frame on the stack below it.
//
//go:noinline
func emitted(h log.Handler, in input, ctx []interface{}) error {
	var err error
	l := log.New()
	l.SetHandler(log.FuncHandler(func(r *log.Record) error {
		r.Lvl, r.Time = in.lvl, when
		err = h.Log(r)
		return err
	}))
	l.Info(in.msg, ctx...)
	return err
}

// where emitted logs
var siteText, siteFn string

func findSite() {
	l := log.New()
	l.SetHandler(log.DiscardHandler())
	h := log.FuncHandler(func(r *log.Record) error {
		siteText, siteFn = fmt.Sprint(r.Call), fmt.Sprintf("%+n", r.Call)
		return nil
	})
	emitted(h, input{lvl: log.LvlInfo, msg: "x"}, nil)
	if !strings.HasPrefix(siteText, "main.go:") || siteFn != "main.emitted" {
		panicf("the call site is %q in %q", siteText, siteFn)
	}
}

func sameCtx(got, want []interface{}) bool {
	if len(got) != len(want) {
		return false
	}
	for i, w := range want {
		g := got[i]
		switch w := w.(type) {
		case badLazy:
			e, ok := g.(error)
			if !ok || !strings.Contains(e.Error(), "INVALID_LAZY") {
				return false
			}
		case stackText:
			s, ok := g.(string)
			if !ok || !strings.HasPrefix(s, "["+siteText+" main.go:") || !strings.HasSuffix(s, "]") || strings.Contains(s, "handler.go") {
				return false
			}
		case stackMark:
			s, ok := g.(stack.CallStack)
			if !ok || !strings.HasPrefix(fmt.Sprint(s), "["+siteText+" main.go:") {
				return false
			}
		case log.Lazy:
			l, ok := g.(log.Lazy)
			if !ok || reflect.TypeOf(l.Fn) != reflect.TypeOf(w.Fn) {
				return false
			}
		default:
			if !reflect.DeepEqual(g, w) {
				return false
			}
		}
	}
	return true
}

func (t *tree) check(c *enum.C, ins []input) {
	c.Case(func() {
		e := &env{calls: map[int]int{}}
		h := t.build(e, 0)
		m := &model{calls: map[int]int{}, site: siteText, fn: siteFn}
		for _, in := range ins {
			e.got, e.lazy = nil, 0
			m.seen = seen{lvl: in.lvl, msg: in.msg, ctx: append([]interface{}{}, in.ctx(e)...)}
			m.got, m.lazy = nil, 0
			c.Step(1)
			err := emitted(h, in, in.ctx(e))
			want := t.run(m, 0)
			if err != want {
				c.Failf("%s: %v: the error is %v, want %v", t.name, in.msg, err, want)
			}
			if len(e.got) != len(m.got) {
				c.Failf("%s: level %v %q: the sinks saw %v, want %v", t.name, in.lvl, in.msg, e.got, m.got)
			}
			for i, g := range e.got {
				w := m.got[i]
				if g.leaf != w.leaf || g.lvl != w.lvl || g.msg != w.msg || !sameCtx(g.ctx, w.ctx) {
					c.Failf("%s: level %v %q: record %d is %+v, want %+v", t.name, in.lvl, in.msg, i, g, w)
				}
			}
			c.Check(e.lazy == m.lazy, "%s: %d lazy values evaluated, want %d", t.name, e.lazy, m.lazy)
		}
		c.State(t.name)
	}, "%s", t.name)
}

func trees(c *enum.C) {
	findSite()
	leaves := []*tree{
		sink("ok", func(int) bool { return false }),
		sink("fail", func(int) bool { return true }),
		sink("flip", func(n int) bool { return n%2 == 0 }),
	}
	discard := &tree{"discard", 0, func(*env, int) log.Handler { return log.DiscardHandler() }, func(*model, int) error { return nil }}
	u := unary()
	var t1, small []*tree
	t1 = append(t1, leaves...)
	t1 = append(t1, discard)
	small = append(small, t1...)
	for _, f := range u {
		for _, l := range leaves[:2] {
			t1 = append(t1, f(l))
		}
	}
	ins := inputs()
	n := 0
	do := func(t *tree) {
		n++
		t.check(c, ins)
	}
	for _, t := range t1 {
		do(t)
	}
	for _, f := range u {
		for _, g := range u {
			for _, l := range leaves {
				do(f(g(l)))
			}
			if c.Thorough() {
				for _, k := range u {
					do(f(g(k(leaves[0]))))
				}
			}
		}
	}
	do(multi())
	do(failover())
	for _, a := range t1 {
		if !c.Mine() {
			continue
		}
		do(multi(a))
		do(failover(a))
		for _, b := range t1 {
			p := []*tree{multi(a, b), failover(a, b)}
			for _, t := range p {
				do(t)
				for _, f := range u {
					do(f(t))
				}
				for _, d := range small {
					do(multi(t, d))
					do(failover(t, d))
					do(failover(d, t))
					do(multi(d, t))
				}
			}
			third := small
			if c.Thorough() {
				third = t1
			}
			for _, d := range third {
				do(multi(a, b, d))
				do(failover(a, b, d))
			}
		}
	}
	c.Bound("all trees: chains of up to %d of %d unary handlers, multi and failover handlers of up to three subtrees out of %d and nested in each other and in every unary handler, over %d kinds of sink, with sequences of %d records", c.Pick(2, 3), len(u), len(t1), len(leaves), len(ins))
}

// ---- the verbosity handler ----

type site struct {
	call stack.Call
	path []string
	base string
	line int
}

func sites() []site {
	var l []site
	add := func(path string, a, b stack.Call) {
		for i, c := range []stack.Call{a, b} {
			p := strings.Split(path, "/")
			l = append(l, site{c, p, p[len(p)-1], 7 + i})
			if fmt.Sprintf("%+v", c) != fmt.Sprintf("%s:%d", path, 7+i) {
				panicf("site %+v is not %s:%d", c, path, 7+i)
			}
		}
	}
	a, b := aa.One()
	add("flychain/zzmc/l05/aa/one.go", a, b)
	a, b = aa.Two()
	add("flychain/zzmc/l05/aa/two.go", a, b)
	a, b = bb.One()
	add("flychain/zzmc/l05/aa/bb/one.go", a, b)
	a, b = cc.One()
	add("flychain/zzmc/l05/cc/one.go", a, b)
	a, b = dd.Two() // a package in a directory named like a file
	add("flychain/zzmc/l05/one.go/two.go", a, b)
	return l
}

// matches tells whether a pattern selects a file: without .go it names the end
// of the import path, * stands for any number of elements.
func matches(pat string, path []string) bool {
	var p []string
	for _, x := range strings.Split(pat, "/") {
		if x != "" {
			p = append(p, x)
		}
	}
	if !strings.HasSuffix(pat, ".go") {
		path = path[:len(path)-1] // any file of the package
	}
	var at func(p, path []string) bool
	at = func(p, path []string) bool {
		if len(p) == 0 {
			return len(path) == 0
		}
		if p[0] == "*" {
			for i := 0; i <= len(path); i++ {
				if at(p[1:], path[i:]) {
					return true
				}
			}
			return false
		}
		return len(path) > 0 && path[0] == p[0] && at(p[1:], path[1:])
	}
	for i := 0; i <= len(path); i++ {
		if at(p, path[i:]) {
			return true
		}
	}
	return false
}

type rule struct {
	pat string
	lvl int
}

type config struct {
	verbosity int
	rules     []rule
	location  string
}

func (g *config) passes(s site, lvl int) bool {
	if lvl <= g.verbosity {
		return true
	}
	for _, r := range g.rules {
		if r.lvl > 0 && matches(r.pat, s.path) {
			return lvl <= r.lvl
		}
	}
	return false
}

type gsim struct {
	c     *enum.C
	sites []site
	h     *log.GlogHandler
	cfg   config
	recs  []seen
	log   []string
	err   error
	sink  int // the handler in use
}

var errOrigin = errors.New("origin")

func newGsim(c *enum.C, s []site) *gsim {
	g := &gsim{c: c, sites: s}
	g.h = log.NewGlogHandler(g.to(0))
	return g
}

func (g *gsim) to(i int) log.Handler {
	return log.FuncHandler(func(r *log.Record) error {
		if i != g.sink {
			g.c.Failf("%v: a record goes to handler %d, not %d", g.log, i, g.sink)
		}
		g.recs = append(g.recs, seen{lvl: r.Lvl, msg: r.Msg, ctx: r.Ctx})
		return errOrigin
	})
}

func (g *gsim) write(i, lvl int) {
	s := g.sites[i]
	g.recs = nil
	g.c.Step(1)
	ctx := []interface{}{"k", lvl}
	err := g.h.Log(&log.Record{Time: when, Lvl: log.Lvl(lvl), Msg: "text", Ctx: ctx, Call: s.call, KeyNames: names})
	dump := g.cfg.location == fmt.Sprintf("%s:%d", s.base, s.line)
	if dump {
		lvl = int(log.LvlInfo)
	}
	want := g.cfg.passes(s, lvl)
	if !want {
		if len(g.recs) != 0 || err != nil {
			g.c.Failf("%v: a record of level %d at %v:%d passes (error %v)", g.log, lvl, s.path, s.line, err)
		}
		return
	}
	if len(g.recs) != 1 || err != errOrigin {
		g.c.Failf("%v: a record of level %d at %v:%d passes %d times (error %v)", g.log, lvl, s.path, s.line, len(g.recs), err)
	}
	r := g.recs[0]
	if int(r.lvl) != lvl || !reflect.DeepEqual(r.ctx, ctx) {
		g.c.Failf("%v: the record at %v:%d has level %v and context %v, want %d %v", g.log, s.path, s.line, r.lvl, r.ctx, lvl, ctx)
	}
	if dump != (r.msg != "text") || dump && (!strings.HasPrefix(r.msg, "text\n") || !strings.Contains(r.msg, "goroutine ") || !strings.Contains(r.msg, "main.(*gsim).write")) {
		g.c.Failf("%v: the record at %v:%d has message %.60q, stack dump wanted: %v", g.log, s.path, s.line, r.msg, dump)
	}
}

func (g *gsim) probe() {
	for i := range g.sites {
		for lvl := 0; lvl <= 5; lvl++ {
			g.write(i, lvl)
		}
	}
}

// set parses a well-formed rule list on its own.
func (g *gsim) vmodule(text string, rules []rule, ok bool) {
	err := g.h.Vmodule(text)
	g.c.Step(1)
	if (err == nil) != ok {
		g.c.Failf("%v: Vmodule(%q) returns %v", g.log, text, err)
	}
	if ok {
		g.cfg.rules = rules
	}
}

func join(rs []rule) string {
	var l []string
	for _, r := range rs {
		l = append(l, fmt.Sprintf("%s=%d", r.pat, r.lvl))
	}
	return strings.Join(l, ",")
}

func patterns(c *enum.C) {
	comps := []string{"aa", "bb", "cc", "l05", "flychain", "zzmc", "*", "one.go", "two.go", "a", "one", "", "a.", "("}
	var pats []string
	for _, a := range comps {
		pats = append(pats, a)
		for _, b := range comps {
			pats = append(pats, a+"/"+b)
			for _, d := range comps {
				pats = append(pats, a+"/"+b+"/"+d)
				if c.Thorough() {
					for _, e := range comps {
						pats = append(pats, a+"/"+b+"/"+d+"/"+e)
					}
				}
			}
		}
	}
	all := sites()
	c.Bound("all patterns of up to %d elements out of %d with every level 1..5, and all pairs of shorter ones, at %d sites and 6 record levels", c.Pick(3, 4), len(comps), len(all))
	do := func(v int, rs ...rule) {
		c.Case(func() {
			g := newGsim(c, all)
			g.h.Verbosity(log.Lvl(v))
			g.cfg.verbosity = v
			g.log = []string{fmt.Sprint("V", v), join(rs)}
			g.vmodule(join(rs), rs, true)
			g.probe()
			g.probe() // from the cache
			c.State(v, join(rs))
		}, "verbosity %d, %s", v, join(rs))
	}
	for i, p := range pats {
		if !c.Mine() || p == "" {
			continue
		}
		for lvl := 1; lvl <= 5; lvl++ {
			do((i+lvl)%3, rule{p, lvl})
		}
		if strings.Count(p, "/") < 2 {
			for _, lvl := range []int{6, 127, 128, 255, 256, 257, 1 << 16, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40} {
				do(i%3, rule{p, lvl})
			}
		}
		if strings.Count(p, "/") == 0 || c.Thorough() && strings.Count(p, "/") == 1 {
			for _, q := range pats {
				if q != "" && strings.Count(q, "/") <= 1 {
					do(0, rule{p, 2}, rule{q, 4})
					do(1, rule{q, 5}, rule{p, 3})
					do(0, rule{p, 0}, rule{q, 4}, rule{p, 2})
				}
			}
		}
	}
}

type gop struct {
	name string
	f    func(g *gsim)
}

// gops are all operations, or the cheap ones that change cached decisions.
func gops(all bool) []gop {
	var l []gop
	add := func(name string, f func(g *gsim)) { l = append(l, gop{name, f}) }
	for _, v := range []int{0, 2, 5} {
		v := v
		if !all && v == 5 {
			continue
		}
		add(fmt.Sprint("Verbosity ", v), func(g *gsim) { g.h.Verbosity(log.Lvl(v)); g.cfg.verbosity = v })
	}
	vm := func(text string, ok bool, rs ...rule) {
		add(fmt.Sprintf("Vmodule %q", text), func(g *gsim) { g.vmodule(text, rs, ok) })
	}
	vm("", true)
	vm("one.go=3", true, rule{"one.go", 3})
	vm("aa=4", true, rule{"aa", 4})
	vm("aa/*=2,one.go=5", true, rule{"aa/*", 2}, rule{"one.go", 5})
	vm("aa=5,bb", false)
	if all {
		vm(" cc = 1 ,, aa=-3, ", false)
		vm(" cc = 1 ,,aa=-3,bb=+5,", true, rule{"cc", 1}, rule{"bb", 5})
		vm("aa=5,bb=", false)
		vm("one.go=5=2", false)
		vm("cc=5,aa=x", false)
		vm("=5", false)
		bt := func(text string, ok bool) {
			add(fmt.Sprintf("BacktraceAt %q", text), func(g *gsim) {
				g.c.Step(1)
				if err := g.h.BacktraceAt(text); (err == nil) != ok {
					g.c.Failf("%v: BacktraceAt(%q) returns %v", g.log, text, err)
				}
				if ok {
					g.cfg.location = text
				}
			})
		}
		bt("one.go:7", true)
		bt("two.go:8", true)
		bt("two.go:71", true)
		bt("ttwo.go:8", true)
		bt("wo.go:8", true)
		bt("aa/two.go:8", true)
		add("SetHandler", func(g *gsim) {
			g.sink++
			g.h.SetHandler(g.to(g.sink))
		})
		bt("one.go", false)
		bt("one:7", false)
	}
	for _, i := range []int{0, 2, 4, 7} {
		for _, lvl := range []int{2, 4} {
			if !all && (lvl == 2 || i == 4) {
				continue
			}
			i, lvl := i, lvl
			add(fmt.Sprintf("log at %d level %d", i, lvl), func(g *gsim) { g.write(i, lvl) })
		}
	}
	return l
}

func histories(c *enum.C, l []gop, depth int) {
	all := sites()
	c.Bound("all sequences of %d operations out of %d (verbosity, pattern lists good and malformed, backtrace locations, records), then records of every level from %d sites", depth, len(l), len(all))
	idx := make([]int, depth)
	var rec func(p int)
	rec = func(p int) {
		if p == depth {
			c.Case(func() {
				g := newGsim(c, all)
				for _, x := range idx {
					g.log = append(g.log, l[x].name)
					l[x].f(g)
				}
				for i := range g.sites {
					for _, lvl := range []int{1, 3, 5} {
						g.write((i+3)%len(g.sites), lvl)
					}
				}
				c.State(idx)
			}, "%v", idx)
			return
		}
		for i := range l {
			if p == 1 && !c.Mine() {
				continue
			}
			idx[p] = i
			rec(p + 1)
		}
	}
	rec(0)
}

func syntax(c *enum.C) {
	letters := []string{"a", "=", ",", "1", "-", ".go", ":", " ", "/", "*"}
	n := c.Pick(5, 6)
	c.Bound("all pattern lists and backtrace locations of up to %d letters out of %q: accepted as specified and changing nothing if malformed", n, letters)
	level := func(s string) bool {
		_, err := strconv.Atoi(strings.TrimSpace(s))
		return err == nil
	}
	vok := func(s string) bool {
		for _, r := range strings.Split(s, ",") {
			if r == "" {
				continue
			}
			if strings.Count(r, "=") != 1 {
				return false
			}
			i := strings.Index(r, "=")
			if strings.TrimSpace(r[:i]) == "" || !level(r[i+1:]) {
				return false
			}
		}
		return true
	}
	bok := func(s string) bool {
		if strings.Count(s, ":") != 1 {
			return false
		}
		i := strings.Index(s, ":")
		return strings.HasSuffix(strings.TrimSpace(s[:i]), ".go") && level(s[i+1:])
	}
	all := sites()
	g := newGsim(c, all[:1])
	reset := func() {
		g.vmodule("one.go=3", []rule{{"one.go", 3}}, true)
		if err := g.h.BacktraceAt("two.go:7"); err != nil {
			c.Failf("%v", err)
		}
	}
	var rec func(s string, k int)
	rec = func(s string, k int) {
		if k == 2 && !c.Mine() {
			return
		}
		c.Case(func() {
			g.log = []string{s}
			reset()
			if err := g.h.Vmodule(s); (err == nil) != vok(s) {
				c.Failf("Vmodule(%q) returns %v", s, err)
			} else if err != nil {
				g.write(0, 3)
				g.write(0, 4)
			}
			if err := g.h.BacktraceAt(s); (err == nil) != bok(s) {
				c.Failf("BacktraceAt(%q) returns %v", s, err)
			}
			c.Step(2)
		}, "%q", s)
		if k < n {
			for _, x := range letters {
				rec(s+x, k+1)
			}
		}
	}
	rec("", 0)
	c.State("syntax")
}

// large goes through many handlers and many rules.
func large(c *enum.C) {
	dense, max := c.Pick(40, 100), c.Pick(1<<10, 1<<13)
	c.Bound("multi and failover handlers of 1..%d handlers, and of the numbers of handlers around every power of two and of ten up to %d, with every failing prefix (some for the larger ones); filters nested as deep; as many vmodule rules with the matching one at either end or in the middle; records with as many fields to match", dense, max)
	ref.Sizes(dense, max, func(n int) {
		if n == 0 || !c.Mine() {
			return
		}
		fails := []int{0, 1, n / 2, n - 1, n}
		if n <= 12 {
			fails = nil
			for k := 0; k <= n; k++ {
				fails = append(fails, k)
			}
		}
		for _, k := range fails {
			k := k
			mk := func(got *[]string) []log.Handler {
				var hs []log.Handler
				for i := 0; i < n; i++ {
					i := i
					hs = append(hs, log.FuncHandler(func(r *log.Record) error {
						*got = append(*got, fmt.Sprintf("%d %s %d", i, r.Msg, len(r.Ctx)))
						if i < k {
							return errLeaf[i%4]
						}
						return nil
					}))
				}
				return hs
			}
			rec := func() *log.Record {
				return &log.Record{Time: when, Lvl: log.LvlInfo, Msg: "m", Ctx: []interface{}{"a", 1}, KeyNames: names}
			}
			c.Case(func() {
				c.Step(2)
				var got []string
				log.MultiHandler(mk(&got)...).Log(rec())
				c.Check(len(got) == n, "%d of %d handlers get the record", len(got), n)
				for i, g := range got {
					c.Check(g == fmt.Sprintf("%d m 2", i), "the %dth call is %q", i, g)
				}
				got = nil
				one := rec()
				err := log.FailoverHandler(mk(&got)...).Log(one)
				for i := 0; i < k; i++ {
					c.Check(len(one.Ctx) == 2+2*k && one.Ctx[2+2*i] == fmt.Sprint("failover_err_", i) && one.Ctx[3+2*i] == errLeaf[i%4], "the record is annotated with %v", one.Ctx[2:])
				}
				want := k + 1
				if k == n {
					want = n
				}
				c.Check(len(got) == want, "%d of %d handlers get the record, the first %d fail", len(got), n, k)
				for i, g := range got {
					c.Check(g == fmt.Sprintf("%d m %d", i, 2+2*i), "the %dth call is %q", i, g)
				}
				if k == n {
					c.Check(err == errLeaf[(n-1)%4], "the error is %v", err)
				} else {
					c.Check(err == nil, "the error is %v", err)
				}
				c.State(n, k)
			}, "%d handlers, the first %d fail", n, k)
		}
		c.Case(func() {
			c.Step(2)
			seen := 0
			var h log.Handler = log.FuncHandler(func(r *log.Record) error { seen++; return errLeaf[2] })
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					h = log.LvlFilterHandler(log.LvlInfo, h)
				case 1:
					h = log.MatchFilterHandler("a", 1, h)
				default:
					h = log.SyncHandler(h)
				}
			}
			r := log.Record{Time: when, Lvl: log.LvlInfo, Msg: "m", Ctx: []interface{}{"a", 1}, KeyNames: names}
			err := h.Log(&r)
			c.Check(seen == 1 && err == errLeaf[2], "%d nested handlers pass the record %d times, %v", n, seen, err)
			r.Lvl = log.LvlDebug
			err = h.Log(&r)
			c.Check(seen == 1 && err == nil, "%d nested handlers pass a record of a higher level, %v", n, err)
		}, "%d nested handlers", n)
		c.Case(func() {
			var ctx []interface{}
			for i := 0; i < n; i++ {
				ctx = append(ctx, fmt.Sprint("f", i), i)
			}
			for _, i := range []int{0, n / 2, n - 1} {
				for d := 0; d < 2; d++ {
					seen := 0
					h := log.MatchFilterHandler(fmt.Sprint("f", i), i+d, log.FuncHandler(func(r *log.Record) error { seen++; return nil }))
					c.Step(1)
					h.Log(&log.Record{Time: when, Lvl: log.LvlInfo, Msg: "m", Ctx: ctx, KeyNames: names})
					c.Check(seen == 1-d, "of %d fields, field %d is matched with %d: %d records pass", n, i, i+d, seen)
				}
			}
		}, "%d fields to match", n)
		c.Case(func() {
			// lazies, one of them bad (or none)
			for _, bad := range []int{-1, 0, n / 2, n - 1} {
				var ctx []interface{}
				for i := 0; i < n; i++ {
					i := i
					var v interface{} = log.Lazy{Fn: func() int { return i }}
					if i == bad {
						v = log.Lazy{Fn: i}
					} else if i%5 == 3 {
						v = i
					}
					ctx = append(ctx, fmt.Sprint("f", i), v)
				}
				c.Step(1)
				log.LazyHandler(log.FuncHandler(func(r *log.Record) error {
					for i := 0; i < n; i++ {
						v := r.Ctx[2*i+1]
						if _, isErr := v.(error); i == bad && !isErr || i != bad && v != i {
							c.Failf("of %d fields, field %d is %v, field %d is a bad lazy", n, i, v, bad)
						}
					}
					want := n
					if bad >= 0 {
						want++
						c.Check(len(r.Ctx) == 2*n+2 && strings.Contains(fmt.Sprint(r.Ctx[2*n:]...), "bad lazy"), "the mark of a bad lazy is %v", r.Ctx[2*n:])
					}
					c.Check(len(r.Ctx) == 2*want, "%d fields become %d", n, len(r.Ctx)/2)
					return nil
				})).Log(&log.Record{Time: when, Lvl: log.LvlInfo, Msg: "m", Ctx: ctx, KeyNames: names})
			}
		}, "%d lazies", n)
		ss := sites()
		for _, at := range []int{0, n / 2, n - 1, n} {
			for _, pat := range []string{"aa", "aa/*", "one.go", "l05/cc"} {
				c.Case(func() {
					g := newGsim(c, ss)
					var rs []rule
					for i := 0; i < n; i++ {
						r := rule{fmt.Sprintf("zz%d", i), 1 + i%5}
						if i == at {
							r = rule{pat, 4}
						} else if i == at+1 {
							r = rule{pat, 2} // shadowed
						}
						rs = append(rs, r)
					}
					g.log = append(g.log, fmt.Sprintf("%d rules, number %d is %s=4", n, at, pat))
					g.vmodule(join(rs), rs, true)
					g.probe()
					g.vmodule("", nil, true)
					g.probe()
				}, "%d rules, number %d is %s=4", n, at, pat)
			}
		}
	})
}

// ---- call sites ----

func line() int {
	_, _, n, _ := runtime.Caller(1)
	return n
}

// out logs at a depth and returns the lines of its callers, itself first.
//
//go:noinline
func out0(lvl log.Lvl, depth int) []int {
	n := line() + 1
	log.Output("m", lvl, depth, "k", 1)
	return []int{n}
}

//go:noinline
func out1(lvl log.Lvl, depth int) []int {
	l, n := out0(lvl, depth), line()
	return append(l, n)
}

//go:noinline
func out2(lvl log.Lvl, depth int) []int {
	l, n := out1(lvl, depth), line()
	return append(l, n)
}

var outFns = []string{"out0", "out1", "out2", "callSites.func"}

// callSites: the call site of a record is the line that called the logger.
func callSites(c *enum.C) {
	c.Bound("all logging functions and methods, of the root, its child and grandchild, Output from four depths, read through the record, the caller handlers, and the verbosity handler's stack dump")
	var got []string
	var glog *log.GlogHandler
	dumps := 0
	add := log.FuncHandler(func(r *log.Record) error {
		for i := 0; i+1 < len(r.Ctx); i += 2 {
			if k := r.Ctx[i]; k == "caller" || k == "fn" {
				got = append(got, fmt.Sprint(r.Ctx[i+1]))
			}
		}
		if strings.Contains(r.Msg, "goroutine ") {
			dumps++
		}
		return nil
	})
	glog = log.NewGlogHandler(log.CallerFileHandler(log.CallerFuncHandler(add)))
	glog.Verbosity(log.LvlTrace)
	log.Root().SetHandler(glog)
	child := log.New("a", 1)
	grand := child.New()
	var iface interface {
		Info(string, ...interface{})
	} = grand
	calls := []struct {
		name string
		f    func() int
	}{
		{"Trace", func() int { log.Trace("m", "k", 1); return line() }},
		{"Debug", func() int { log.Debug("m", "k", 1); return line() }},
		{"Info", func() int { log.Info("m", "k", 1); return line() }},
		{"Warn", func() int { log.Warn("m", "k", 1); return line() }},
		{"Error", func() int { log.Error("m", "k", 1); return line() }},
		{"root.Trace", func() int { log.Root().Trace("m"); return line() }},
		{"root.Debug", func() int { log.Root().Debug("m"); return line() }},
		{"root.Info", func() int { log.Root().Info("m"); return line() }},
		{"root.Warn", func() int { log.Root().Warn("m"); return line() }},
		{"root.Error", func() int { log.Root().Error("m"); return line() }},
		{"child.Trace", func() int { child.Trace("m"); return line() }},
		{"child.Debug", func() int { child.Debug("m"); return line() }},
		{"child.Info", func() int { child.Info("m"); return line() }},
		{"child.Warn", func() int { child.Warn("m"); return line() }},
		{"child.Error", func() int { child.Error("m"); return line() }},
		{"grand.Error", func() int { grand.Error("m", log.Ctx{"x": 1}); return line() }},
		{"interface", func() int { iface.Info("m", 1); return line() }},
	}
	check := func(name, fn string, f func() int) {
		c.Case(func() {
			c.Step(2)
			glog.BacktraceAt("nowhere.go:1")
			got, dumps = nil, 0
			n := f()
			want := fmt.Sprint("main.go:", n)
			c.Check(len(got) == 2 && got[0] == want && strings.Contains(got[1], fn), "the call at %s in %s has the caller fields %q", want, fn, got)
			c.Check(dumps == 0, "there is a stack dump")
			glog.BacktraceAt(want)
			f()
			c.Check(dumps == 1, "%d stack dumps at the configured location %s", dumps, want)
			for _, other := range []string{fmt.Sprint("main.go:", n+1), want[:len(want)-1], want + "0", want[1:], "x" + want} {
				glog.BacktraceAt(other)
				f()
				c.Check(dumps == 1, "a stack dump at %s, with %s configured", want, other)
			}
			c.State(name)
		}, "%s", name)
	}
	for _, x := range calls {
		check(x.name, "callSites.func", x.f)
	}
	for lvl := log.LvlError; lvl <= log.LvlTrace; lvl++ {
		for depth := 0; depth < 4; depth++ {
			check(fmt.Sprint("Output ", lvl, " from ", depth), outFns[depth], func() int {
				l, n := out2(lvl, depth), line()
				return append(l, n)[depth]
			})
		}
	}
	log.Root().SetHandler(log.DiscardHandler())
}

func main() {
	enum.Main(
		enum.Section{Name: "large", Shards: 8, Run: large},
		enum.Section{Name: "trees", Shards: 4, Run: trees},
		enum.Section{Name: "patterns", Shards: 4, Run: patterns},
		enum.Section{Name: "histories", Shards: 8, Run: func(c *enum.C) { histories(c, gops(true), c.Pick(3, 4)) }},
		enum.Section{Name: "cached", Shards: 8, Run: func(c *enum.C) { histories(c, gops(false), c.Pick(5, 6)) }},
		enum.Section{Name: "call sites", Run: callSites},
		enum.Section{Name: "syntax", Shards: 4, Run: syntax},
	)
}
