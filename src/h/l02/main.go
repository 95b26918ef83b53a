// L02: logging never panics and never drops a record.
package main

import (
	"bytes"
	"errors"
	"flychain/log"
	"flychain/zzmc/enum"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"
)

type strT struct{ x int }

func (s *strT) String() string { return fmt.Sprint("strT", s.x) }

type errT struct{ x int }

func (s *errT) Error() string { return fmt.Sprint("errT", s.x) }

type termT struct{ x int }

func (s *termT) TerminalString() string { return fmt.Sprint("termT", s.x) }

type bothT struct{ x int }

func (s *bothT) TerminalString() string { return fmt.Sprint("bt", s.x) }
func (s *bothT) String() string         { return fmt.Sprint("bs", s.x) }

// nilOK has methods that work on a nil pointer.
type nilOK struct{}

func (s *nilOK) String() string         { return "fine" }
func (s *nilOK) TerminalString() string { return "fine" }

type plain struct {
	A int
	B *int
}

// val is a value with the text that its field must contain in logfmt,
// terminal and JSON output.
type val struct {
	name            string
	v               interface{}
	fmtd, term, jsn string
}

func vals() []val {
	same := func(n string, v interface{}, s string) val { return val{n, v, s, s, s} }
	var np *plain
	var nf func() int
	var nmap map[string]int
	var nch chan int
	return []val{
		{"nil", nil, "=nil", "=nil", `"<nil>"`},
		same("nil error ptr", (*errT)(nil), "nil"),
		same("nil stringer", (*strT)(nil), "nil"),
		{"nil termstringer", (*termT)(nil), "=<nil>", "=nil", `"<nil>"`},
		same("nil both", (*bothT)(nil), "nil"),
		same("nil ok", (*nilOK)(nil), "fine"),
		{"nil big", (*big.Int)(nil), "=<nil>", "=<nil>", `<nil>`},
		same("nil ptr", np, "<nil>"),
		same("nil map", nmap, "map[]"),
		same("nil chan", nch, "<nil>"),
		same("stringer", &strT{3}, "strT3"),
		same("error", &errT{4}, "errT4"),
		{"termstringer", &termT{5}, "", "termT5", ""},
		{"both", &bothT{6}, "bs6", "bt6", "bs6"},
		same("bool", true, "true"),
		same("int", -7, "-7"),
		{"nan", math.NaN(), "=NaN", "=NaN", `"NaN"`},
		{"inf", math.Inf(-1), "=-Inf", "=-Inf", `"-Inf"`},
		{"inf32", float32(math.Inf(1)), "=+Inf", "=+Inf", `"+Inf"`},
		same("big", big.NewInt(-12), "-12"),
		same("time", time.Unix(0, 0).UTC(), "1970-01-01T00:00:00+0000"),
		{"struct", plain{1, nil}, `"{A:1 B:<nil>}"`, `"{A:1 B:<nil>}"`, `"{A:1 B:`},
		same("slice", []interface{}{nil, 1}, "[<nil> 1]"),
		same("bytes", []byte{1, 2}, "[1 2]"),
		same("lazy", log.Lazy{func() int { return 41 }}, "41"),
		same("lazy two", log.Lazy{func() (int, string) { return 1, "b" }}, "[1 b]"),
		same("lazy nil result", log.Lazy{func() error { return nil }}, "nil"),
		same("lazy lazy", log.Lazy{func() log.Lazy { return log.Lazy{nil} }}, "<nil>"),
		same("lazy nil", log.Lazy{nil}, "INVALID_LAZY"),
		same("lazy nil func", log.Lazy{nf}, "INVALID_LAZY"),
		same("lazy no func", log.Lazy{5}, "INVALID_LAZY"),
		same("lazy args", log.Lazy{func(int) int { return 1 }}, "INVALID_LAZY"),
		same("lazy void", log.Lazy{func() {}}, "INVALID_LAZY"),
		same("lazy variadic", log.Lazy{func(...int) int { return 1 }}, "INVALID_LAZY"),
		same("lazy ptr stringer", log.Lazy{func() *strT { return nil }}, "nil"),
		same("ctx in list", log.Ctx{"a": nil}, "map[a:<nil>]"),
		same("errors.New", errors.New("an error"), "an error"),
	}
}

type writer struct {
	n   int
	buf bytes.Buffer
	err error
}

func (w *writer) Write(p []byte) (int, error) {
	w.n++
	w.buf.Write(p)
	return len(p), w.err
}

type format struct {
	name string
	f    log.Format
	kind int // 0 logfmt, 1 terminal, 2 json, 3 ordered json
}

func formats() []format {
	return []format{
		{"logfmt", log.LogfmtFormat(), 0},
		{"term", log.TerminalFormat(false), 1},
		{"colour", log.TerminalFormat(true), 1},
		{"json", log.JSONFormat(), 2},
		{"json pretty", log.JSONFormatEx(true, false), 2},
		{"ordered", log.JSONFormatOrderedEx(false, true), 3},
	}
}

func isBadLazy(v val) bool { return strings.HasPrefix(v.name, "lazy ") && v.fmtd == "INVALID_LAZY" }

// one logs args through a stream handler and checks that exactly one record
// with the message comes out.
func one(c *enum.C, f format, wr error, origins bool, lvl log.Lvl, args []interface{}) string {
	w := &writer{err: wr}
	l := log.New()
	h := log.StreamHandler(w, f.f)
	calls := 0
	l.SetHandler(log.FuncHandler(func(r *log.Record) error { calls++; return h.Log(r) }))
	log.PrintOrigins(origins)
	c.Step(1)
	switch lvl {
	case log.LvlTrace:
		l.Trace("the-message", args...)
	case log.LvlDebug:
		l.Debug("the-message", args...)
	case log.LvlInfo:
		l.Info("the-message", args...)
	case log.LvlWarn:
		l.Warn("the-message", args...)
	case log.LvlError:
		l.Error("the-message", args...)
	}
	log.PrintOrigins(false)
	c.Check(calls == 1 && w.n == 1, "%s: %d records, %d writes", f.name, calls, w.n)
	s := w.buf.String()
	c.Check(strings.Contains(s, "the-message"), "%s: the message is missing in %q", f.name, s)
	return s
}

func lists(c *enum.C) {
	vs := vals()
	n := c.Pick(2, 3)
	keys := []interface{}{"k", nil, 5, "", (*strT)(nil), log.Lazy{nil}, []int{1}}
	c.Bound("all context lists up to %d elements over %d awkward values in %d formats, and all keys out of %d", n, len(vs), len(formats()), len(keys))
	fs := formats()
	for _, f := range fs {
		f := f
		for _, a := range vs {
			a := a
			if !c.Mine() {
				continue
			}
			// one field with a proper key
			for lvl := log.LvlError; lvl <= log.LvlTrace; lvl++ {
				lvl := lvl
				c.Case(func() {
					s := one(c, f, nil, false, lvl, []interface{}{"k", a.v})
					w := [...]string{a.fmtd, a.term, a.jsn, a.term}[f.kind]
					if f.name == "colour" && strings.HasPrefix(w, "=") {
						w = "\x1b[0m" + w
					}
					if f.kind == 3 {
						w = strings.TrimPrefix(strings.Trim(w, `"`), "=")
					}
					if f.kind >= 2 {
						s = strings.NewReplacer(`\u003c`, "<", `\u003e`, ">").Replace(s)
						if f.kind == 3 {
							s = strings.ReplaceAll(s, `\"`, `"`)
						}
					}
					c.Check(strings.Contains(s, w), "%s %v: %q does not contain %q", f.name, a.name, s, w)
					if isBadLazy(a) {
						c.Check(strings.Contains(s, "LOG15_ERROR") && strings.Contains(s, "bad lazy"), "%s %v: the error marker is missing in %q", f.name, a.name, s)
					} else {
						c.Check(!strings.Contains(s, "LOG15_ERROR"), "%s %v: an error marker in %q", f.name, a.name, s)
					}
					c.State(f.name, a.name, lvl)
				}, "%s k=%s level %v", f.name, a.name, lvl)
			}
			for i := range keys {
				k := keys[i]
				c.Case(func() {
					s := one(c, f, nil, true, log.LvlInfo, []interface{}{k, a.v, "next", 1})
					if _, ok := k.(string); !ok {
						c.Check(strings.Contains(s, "LOG15_ERROR"), "%s: a key %T is not marked in %q", f.name, k, s)
					}
					c.Check(strings.Contains(s, "next"), "%s: the field behind a key %T is missing in %q", f.name, k, s)
				}, "%s key %d=%s", f.name, i, a.name)
			}
			// arbitrary lists
			var rec func(l []interface{}, names string)
			rec = func(l []interface{}, names string) {
				c.Case(func() {
					s := one(c, f, errors.New("write fails"), false, log.LvlWarn, l)
					if _, isMap := l[0].(log.Ctx); len(l)%2 == 1 && !(len(l) == 1 && isMap) {
						c.Check(strings.Contains(s, "LOG15_ERROR") && strings.Contains(s, "Normalized odd number"), "%s: an odd list is not marked in %q", f.name, s)
					}
					c.State(f.name, names)
				}, "%s [%s]", f.name, names)
				if len(l) < n {
					for _, b := range vs {
						rec(append(l[:len(l):len(l)], b.v), names+","+b.name)
					}
				}
			}
			rec([]interface{}{a.v}, a.name)
		}
	}
}

// handlers logs awkward values through every handler.
func handlers(c *enum.C) {
	w := &writer{}
	count := 0
	sink := log.FuncHandler(func(r *log.Record) error { count++; return nil })
	fail := log.FuncHandler(func(r *log.Record) error { return errors.New("no") })
	glog := log.NewGlogHandler(sink)
	glog.Verbosity(log.LvlTrace)
	hs := []struct {
		name string
		h    log.Handler
	}{
		{"lazy", log.LazyHandler(sink)},
		{"sync", log.SyncHandler(sink)},
		{"caller file", log.CallerFileHandler(sink)},
		{"caller func", log.CallerFuncHandler(sink)},
		{"caller stack", log.CallerStackHandler("%+v", sink)},
		{"match", log.FilterHandler(func(*log.Record) bool { return true }, sink)},
		{"level", log.LvlFilterHandler(log.LvlTrace, sink)},
		{"multi", log.MultiHandler(fail, sink)},
		{"failover", log.FailoverHandler(fail, sink)},
		{"glog", glog},
		{"stream", log.MultiHandler(log.StreamHandler(w, log.TerminalFormat(true)), sink)},
		{"discard", log.MultiHandler(log.DiscardHandler(), sink)},
		{"failover stream", log.MultiHandler(log.FailoverHandler(fail, log.StreamHandler(w, log.JSONFormat())), sink)},
		{"nested lazy", log.LazyHandler(log.LazyHandler(log.CallerFileHandler(sink)))},
	}
	c.Bound("%d handlers with all lists up to two elements", len(hs))
	for i := range hs {
		h := hs[i]
		for _, a := range vals() {
			for _, b := range append(vals(), val{name: "none"}) {
				a, b := a, b
				c.Case(func() {
					l := log.New("bound", a.v)
					l.SetHandler(h.h)
					args := []interface{}{a.v}
					if b.name != "none" {
						args = append(args, b.v)
					}
					count = 0
					c.Step(1)
					l.Info("m", args...)
					c.Check(count == 1, "%s: %d records", h.name, count)
					c.State(h.name, a.name, b.name)
				}, "%s %s %s", h.name, a.name, b.name)
			}
		}
	}
	c.Case(func() {
		m := log.MatchFilterHandler("k", nil, sink)
		l := log.New()
		l.SetHandler(m)
		count = 0
		l.Info("m", nil, 1, "k", nil)
		l.Info("m", 5)
		c.Check(count == 1, "match filter passes %d", count)
	}, "match")
	matchValues(c, sink, &count)
}

// matchValues logs every value through match handlers configured with every
// value. Values that cannot be compared match nothing, and do not panic.
func matchValues(c *enum.C, sink log.Handler, count *int) {
	type pair struct {
		A int
		B interface{}
	}
	n := 3
	vs := append(vals(),
		val{name: "ints", v: []int{1}}, val{name: "more ints", v: []int{1}}, val{name: "no ints", v: []int(nil)},
		val{name: "map", v: map[string]int{"a": 1}}, val{name: "func", v: func() {}}, val{name: "pointer", v: &n},
		val{name: "pair", v: pair{1, 2}}, val{name: "pair of slice", v: pair{1, []int{2}}}, val{name: "array", v: [2]interface{}{1, []string{"x"}}},
		val{name: "uint", v: uint(1)}, val{name: "int", v: 1}, val{name: "string", v: "1"},
	)
	same := func(a, b interface{}) (eq bool) {
		defer func() { recover() }()
		return a == b
	}
	c.Bound("match handlers for %d values, of which some cannot be compared, on %d values", len(vs), len(vs))
	for _, conf := range vs {
		for _, key := range []string{"k", "other", "lvl", "msg", "t"} {
			conf, key := conf, key
			c.Case(func() {
				l := log.New()
				l.SetHandler(log.MatchFilterHandler(key, conf.v, sink))
				for _, v := range vs {
					*count = 0
					c.Step(1)
					l.Info("m", "a", 1, "k", v.v, "z", v.v)
					want := 0
					if key == "k" && same(v.v, conf.v) {
						want = 1
					}
					if key == "msg" && conf.v == "m" || key == "lvl" && conf.v == log.LvlInfo {
						want = 1
					}
					c.Check(*count == want, "a handler matching %s with %s passes %d records with %s, want %d", key, conf.name, *count, v.name, want)
				}
			}, "match %s %s", key, conf.name)
		}
	}
}

func unconfigured(c *enum.C) {
	c.Bound("every log function and child logger before any handler is set")
	c.Case(func() {
		log.Info("a")
		log.Trace("b", "k", 1)
		log.Debug("c", nil)
		log.Warn("d", log.Lazy{nil})
		log.Error("e", 1, 2, 3)
		log.Output("f", log.LvlInfo, 0, "x")
		l := log.New("k", "v")
		l.Info("g")
		l.New().New("odd").Error("h", nil)
		log.Root().Info("i")
		if h := l.GetHandler(); h != nil {
			h.Log(&log.Record{})
		}
		if h := log.Root().GetHandler(); h != nil {
			h.Log(&log.Record{})
		}
		c.Step(12)
		c.State("unconfigured")
	}, "unconfigured")
}

func main() {
	enum.Main(
		enum.Section{Name: "unconfigured", Run: unconfigured},
		enum.Section{Name: "lists", Shards: 8, Run: lists},
		enum.Section{Name: "handlers", Run: handlers},
	)
}
