// Command l06 model-checks concurrent logging.
package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"flychain/log"
	"flychain/zzmc/mc"
	"flychain/zzmc/ref"

	"github.com/go-stack/stack"
)

var keyNames = log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}

func mainSite() stack.Call { return stack.Caller(0) }

// ---- exactly once, in order, one at a time ----

// deliver logs n[i] records from thread i through l and checks what arrives.
func deliver(l log.Logger, n []int, got func() []string) {
	var fs []func()
	for i, k := range n {
		i, k := i, k
		fs = append(fs, func() {
			for j := 0; j < k; j++ {
				l.Info(fmt.Sprintf("%d.%d", i, j), "k", j)
			}
		})
	}
	mc.Par(fs...)
	all := got()
	next := make([]int, len(n))
	for _, m := range all {
		var i, j int
		if _, err := fmt.Sscanf(m, "%d.%d", &i, &j); err != nil || i >= len(n) {
			mc.Failf("unexpected record %q in %q", m, all)
		}
		if j != next[i] {
			mc.Failf("records of thread %d are lost, doubled or out of order: %q", i, all)
		}
		next[i]++
	}
	if !reflect.DeepEqual(next, n) {
		mc.Failf("records %q arrived, want %v from each thread", all, n)
	}
	mc.Outcome("%q", all)
}

// exclusive is a handler that must not be entered twice at a time.
type exclusive struct {
	in  int32
	got []string
}

func (e *exclusive) Log(r *log.Record) error {
	if atomic.AddInt32(&e.in, 1) != 1 {
		mc.Failf("two records are handled at a time")
	}
	e.got = append(e.got, r.Msg) // unsynchronised
	if atomic.AddInt32(&e.in, -1) != 0 {
		mc.Failf("two records are handled at a time")
	}
	if len(e.got)%2 == 0 {
		return fmt.Errorf("fails now and then")
	}
	return nil
}

func syncHandler(wrap string, n ...int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("%s %v", wrap, n), Body: func() {
		e := &exclusive{}
		var h log.Handler = e
		switch wrap {
		case "sync":
			h = log.SyncHandler(e)
		case "lazy sync caller":
			h = log.LazyHandler(log.CallerFileHandler(log.SyncHandler(e)))
		case "multi sync":
			h = log.SyncHandler(log.MultiHandler(log.DiscardHandler(), e))
		case "failover sync":
			fail := log.FuncHandler(func(*log.Record) error { return fmt.Errorf("no") })
			h = log.SyncHandler(log.FailoverHandler(fail, e))
		}
		l := log.New("c", 1)
		l.SetHandler(h)
		deliver(l, n, func() []string { return e.got })
	}}
}

type writer struct {
	in  int32
	buf []string
}

func (w *writer) Write(p []byte) (int, error) {
	if atomic.AddInt32(&w.in, 1) != 1 {
		mc.Failf("two writes at a time")
	}
	w.buf = append(w.buf, string(p)) // unsynchronised
	atomic.AddInt32(&w.in, -1)
	return len(p), nil
}

func stream(name string, f func() log.Format, n ...int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("stream %s %v", name, n), Body: func() {
		w := &writer{}
		l := log.New("c", 1)
		l.SetHandler(log.StreamHandler(w, f()))
		deliver(l, n, func() []string {
			var out []string
			for _, s := range w.buf {
				if strings.Count(s, "\n") != 1 || !strings.HasSuffix(s, "\n") {
					mc.Failf("a write is not a line: %q", s)
				}
				var m string
				switch name {
				case "logfmt":
					if i := strings.Index(s, "msg="); i > 0 {
						m = strings.Fields(s[i+4:])[0]
					}
				case "terminal":
					if i := strings.Index(s, "] "); i > 0 {
						m = strings.Fields(s[i+2:])[0]
					}
				case "json":
					if i := strings.Index(s, `"msg":"`); i > 0 {
						m = strings.Split(s[i+7:], `"`)[0]
					}
				}
				if name != "json" && !strings.HasSuffix(s, " k="+m[strings.IndexByte(m, '.')+1:]+"\n") {
					mc.Failf("the field is missing in %q", s)
				}
				out = append(out, m)
			}
			return out
		})
	}}
}

func buffered(size int, n ...int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("buffered %d %v", size, n), Leak: true, Body: func() {
		total := 0
		for _, k := range n {
			total += k
		}
		e := &exclusive{}
		done := make(chan struct{})
		left := total
		h := log.BufferedHandler(size, log.FuncHandler(func(r *log.Record) error {
			err := e.Log(r)
			if left--; left == 0 {
				close(done)
			}
			return err
		}))
		l := log.New("c", 1)
		l.SetHandler(h)
		deliver(l, n, func() []string {
			if total > 0 {
				<-done
			}
			return e.got
		})
		if err := h.Log(&log.Record{Msg: "last"}); err != nil {
			mc.Failf("a buffered handler returns %v", err)
		}
	}}
}

func channel(size int, n ...int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("channel %d %v", size, n), Body: func() {
		total := 0
		for _, k := range n {
			total += k
		}
		ch := make(chan *log.Record, size)
		l := log.New("c", 1)
		l.SetHandler(log.ChannelHandler(ch))
		var got []string
		done := make(chan struct{})
		go func() {
			for i := 0; i < total; i++ {
				got = append(got, (<-ch).Msg)
			}
			close(done)
		}()
		deliver(l, n, func() []string { <-done; return got })
	}}
}

// ---- loggers shared by threads ----

// shared logs through one logger with a handler that appends to the context;
// no record may see another one's fields.
func shared(name string, ctx []interface{}, mk func(h log.Handler) log.Handler, per func(l log.Logger, i int)) *mc.Scenario {
	return &mc.Scenario{Name: "shared " + name, Body: func() {
		var mu sync.Mutex
		got := map[string][]interface{}{}
		l := log.New(ctx...)
		if len(ctx) == 6 { // the same context in three steps
			l = log.New(ctx[:2]...).New(ctx[2:4]...).New(ctx[4:]...)
		}
		l.SetHandler(mk(log.FuncHandler(func(r *log.Record) error {
			mu.Lock()
			got[r.Msg] = append([]interface{}{}, r.Ctx...)
			mu.Unlock()
			return nil
		})))
		mc.Par(func() { per(l, 0) }, func() { per(l, 1) })
		if len(got) != 2 {
			mc.Failf("%d records", len(got))
		}
		for m, c := range got {
			i := int(m[1] - '0')
			for j := 0; j+1 < len(c); j += 2 {
				k, _ := c[j].(string)
				if strings.HasPrefix(k, "own") && (k != fmt.Sprint("own", i) || c[j+1] != i) {
					mc.Failf("record %s has the field %v=%v of another", m, c[j], c[j+1])
				}
			}
			if len(c) < len(ctx)+2 || !reflect.DeepEqual(c[:len(ctx)], ctx) {
				mc.Failf("record %s has context %v", m, c)
			}
		}
	}}
}

// lazyLogs has lazy values that log through the handler that evaluates them.
func lazyLogs(f func() log.Format) *mc.Scenario {
	return &mc.Scenario{Name: "lazy values that log", Body: func() {
		w := &writer{}
		l := log.New()
		l.SetHandler(log.StreamHandler(w, f()))
		one := func() {
			l.Info("outer", "v", log.Lazy{Fn: func() int {
				l.Info("inner")
				return 1
			}})
		}
		mc.Par(one, one)
		in, out := 0, 0
		for _, s := range w.buf {
			switch {
			case strings.Contains(s, "msg=inner"):
				in++
			case strings.Contains(s, "msg=outer") && strings.HasSuffix(s, " v=1\n"):
				out++
			}
			if out > in {
				mc.Failf("a record is written before its lazy value was evaluated: %q", w.buf)
			}
		}
		if in != 2 || out != 2 || len(w.buf) != 4 {
			mc.Failf("lines %q", w.buf)
		}
	}}
}

// jsonFormats has threads format JSON records directly.
func jsonFormats(name string, mk func() log.Format) *mc.Scenario {
	return &mc.Scenario{Name: "formats " + name, Body: func() {
		f := mk()
		var out [2]string
		one := func(i int) func() {
			return func() {
				out[i] = string(f.Format(&log.Record{Lvl: log.LvlInfo, Msg: fmt.Sprint("m", i), Ctx: []interface{}{"k", fmt.Sprint("v", i)}, KeyNames: keyNames}))
			}
		}
		mc.Par(one(0), one(1))
		for i, s := range out {
			if !strings.Contains(s, fmt.Sprintf("m%d", i)) || !strings.Contains(s, fmt.Sprintf("v%d", i)) || strings.Contains(s, fmt.Sprintf("v%d", 1-i)) {
				mc.Failf("record %d is %q", i, s)
			}
		}
	}}
}

// ---- changing handlers ----

// A version is a value that was set during [call, ret].
type version struct{ id, call, ret int }

// current tells whether reading a register during [call, ret] may give v.
func current(vs []version, v version, call, ret int) bool {
	if v.call > ret {
		return false
	}
	for _, w := range vs {
		if w.call > v.ret && w.ret < call {
			return false // overwritten
		}
	}
	return true
}

type entry struct {
	logger    byte
	call, ret int
	ids       []int
}

// swap has threads log and others change handlers: "P", "C" and "G" log
// through the parent, its child and the grandchild, "p", "c" and "g" set the
// handler of one of them, "h" goes through GetHandler of the child.
func swap(viaRoot bool, threads ...string) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("swap root=%v %s", viaRoot, strings.Join(threads, " | ")), Body: func() {
		ls := map[byte]log.Logger{'p': log.New("p", 1)}
		if viaRoot {
			ls['p'] = log.Root()
		}
		ls['c'] = ls['p'].New("c", 1)
		ls['g'] = ls['c'].New("g", 1)
		parent := map[byte]byte{'g': 'c', 'c': 'p'}
		mk := func(id int) log.Handler {
			return log.FuncHandler(func(r *log.Record) error {
				e := r.Ctx[len(r.Ctx)-1].(*entry)
				e.ids = append(e.ids, id)
				return nil
			})
		}
		ls['p'].SetHandler(mk(1))
		sets := make([]map[byte][]version, len(threads))
		recs := make([][]*entry, len(threads))
		write := func(lg byte, how byte) *entry {
			e := &entry{logger: lg}
			e.call = mc.StampCall()
			if how == 'h' {
				ls[lg].GetHandler().Log(&log.Record{Ctx: []interface{}{"e", e}})
			} else {
				ls[lg].Info("m", "e", e)
			}
			e.ret = mc.StampRet()
			return e
		}
		var fs []func()
		for t, prog := range threads {
			t, prog := t, prog
			sets[t] = map[byte][]version{}
			fs = append(fs, func() {
				for i, o := range []byte(prog) {
					switch o {
					case 'P', 'C', 'G':
						recs[t] = append(recs[t], write(o+32, o))
					case 'h':
						recs[t] = append(recs[t], write('c', o))
					default:
						v := version{id: 10*(t+1) + i}
						h := mk(v.id)
						v.call = mc.StampCall()
						ls[o].SetHandler(h)
						v.ret = mc.StampRet()
						sets[t][o] = append(sets[t][o], v)
					}
				}
			})
		}
		mc.Par(fs...)
		all := map[byte][]version{'p': {{1, -2, -1}}}
		for _, m := range sets {
			for _, k := range []byte("pcg") {
				all[k] = append(all[k], m[k]...)
			}
		}
		// may the read of a logger's handler give id?
		var may func(lg byte, id int, e *entry) bool
		may = func(lg byte, id int, e *entry) bool {
			for _, v := range all[lg] {
				if v.id == id {
					return current(all[lg], v, e.call, e.ret)
				}
			}
			if p := parent[lg]; p != 0 {
				return current(all[lg], version{0, -2, -1}, e.call, e.ret) && may(p, id, e)
			}
			return false
		}
		check := func(e *entry) {
			if len(e.ids) != 1 {
				mc.Failf("a record of %c is handled by %v", e.logger, e.ids)
			}
			if !may(e.logger, e.ids[0], e) {
				mc.Failf("a record of %c written during [%d,%d] is handled by handler %d; handlers %v", e.logger, e.call, e.ret, e.ids[0], all)
			}
		}
		var out []string
		for t := range recs {
			for _, e := range recs[t] {
				check(e)
				out = append(out, fmt.Sprintf("%c%d", e.logger, e.ids[0]))
			}
		}
		for _, lg := range []byte("pcg") {
			check(write(lg, 'x'))
			check(write(lg, 'h'))
		}
		mc.Outcome("%v", out)
	}}
}

// ---- the verbosity handler ----

type rule struct {
	pat string
	lvl int
}

var ruleSets = map[byte][]rule{
	'n': {},
	'm': {{"main.go", 4}},
	'M': {{"main.go", 2}},
	'o': {{"another.go", 4}},
	'b': {{"another.go", 2}, {"main.go", 5}},
}

func ruleText(rs []rule) string {
	var l []string
	for _, r := range rs {
		l = append(l, fmt.Sprintf("%s=%d", r.pat, r.lvl))
	}
	return strings.Join(l, ",")
}

type gentry struct {
	site      int
	lvl       int
	call, ret int
	passed    int
	gotLvl    log.Lvl
	dump      bool
}

// glog runs programs of words: L<site><level> logs at a site (0 main.go, 1
// another.go), V<n> sets the verbosity, R<set> sets the rules, X sets malformed
// rules, B<site> asks for stack dumps at a site.
func glog(threads ...string) *mc.Scenario {
	return &mc.Scenario{Name: "glog " + strings.Join(threads, " | "), Body: func() {
		h := log.NewGlogHandler(log.FuncHandler(func(r *log.Record) error {
			e := r.Ctx[1].(*gentry)
			e.passed++
			e.gotLvl = r.Lvl
			e.dump = r.Msg != "m"
			return nil
		}))
		calls := []stack.Call{mainSite(), otherSite()}
		files := []string{"main.go", "another.go"}
		lines := []string{fmt.Sprint(calls[0]), fmt.Sprint(calls[1])}
		h.Verbosity(1)
		type hist struct {
			v, r, b []version // verbosity, rule sets (by letter), dump sites + 1
		}
		hists := make([]hist, len(threads))
		recs := make([][]*gentry, len(threads))
		write := func(site, lvl int) *gentry {
			e := &gentry{site: site, lvl: lvl}
			e.call = mc.StampCall()
			h.Log(&log.Record{Lvl: log.Lvl(lvl), Msg: "m", Ctx: []interface{}{"e", e}, Call: calls[site], KeyNames: keyNames})
			e.ret = mc.StampRet()
			return e
		}
		var fs []func()
		for t, prog := range threads {
			t, prog := t, prog
			fs = append(fs, func() {
				for _, w := range strings.Fields(prog) {
					v := version{call: mc.StampCall()}
					set := func(id int, l *[]version) {
						v.id, v.ret = id, mc.StampRet()
						*l = append(*l, v)
					}
					switch w[0] {
					case 'L':
						recs[t] = append(recs[t], write(int(w[1]-'0'), int(w[2]-'0')))
					case 'V':
						h.Verbosity(log.Lvl(w[1] - '0'))
						set(int(w[1]-'0'), &hists[t].v)
					case 'R':
						if err := h.Vmodule(ruleText(ruleSets[w[1]])); err != nil {
							mc.Failf("Vmodule: %v", err)
						}
						set(int(w[1]), &hists[t].r)
					case 'X':
						if h.Vmodule("main.go=5,another.go") == nil {
							mc.Failf("a malformed list is accepted")
						}
					case 'B':
						if err := h.BacktraceAt(lines[w[1]-'0']); err != nil {
							mc.Failf("BacktraceAt: %v", err)
						}
						set(int(w[1]-'0')+1, &hists[t].b)
					}
				}
			})
		}
		mc.Par(fs...)
		all := hist{v: []version{{1, -2, -1}}, r: []version{{'n', -2, -1}}, b: []version{{0, -2, -1}}}
		for _, x := range hists {
			all.v, all.r, all.b = append(all.v, x.v...), append(all.r, x.r...), append(all.b, x.b...)
		}
		check := func(e *gentry) {
			ok := false
			var opts []string
			for _, b := range all.b {
				for _, v := range all.v {
					for _, r := range all.r {
						if !current(all.b, b, e.call, e.ret) || !current(all.v, v, e.call, e.ret) || !current(all.r, r, e.call, e.ret) {
							continue
						}
						lvl, dump := e.lvl, b.id == e.site+1
						if dump {
							lvl = int(log.LvlInfo)
						}
						pass := lvl <= v.id
						if !pass {
							for _, x := range ruleSets[byte(r.id)] {
								if x.pat == files[e.site] {
									pass = lvl <= x.lvl
									break
								}
							}
						}
						opts = append(opts, fmt.Sprintf("verbosity %d rules %q dumps %d: %v", v.id, ruleText(ruleSets[byte(r.id)]), b.id, pass))
						if pass && e.passed == 1 && e.dump == dump && int(e.gotLvl) == lvl || !pass && e.passed == 0 {
							ok = true
						}
					}
				}
			}
			if !ok {
				mc.Failf("a record of level %d at %s written during [%d,%d] passed %d times with level %v, dump %v; allowed: %v", e.lvl, files[e.site], e.call, e.ret, e.passed, e.gotLvl, e.dump, opts)
			}
		}
		var out []string
		for t := range recs {
			for _, e := range recs[t] {
				check(e)
				out = append(out, fmt.Sprintf("%d%d:%d%v", e.site, e.lvl, e.passed, e.dump))
			}
		}
		// with nobody changing anything, every record follows the final settings
		for site := range calls {
			for lvl := 1; lvl <= 5; lvl++ {
				if len(all.b) > 1 && lvl != 3 {
					continue // dumps are slow
				}
				check(write(site, lvl))
			}
		}
		mc.Outcome("%v", out)
	}}
}

// ---- formats without a lock ----

// formats has threads format records directly while origins are toggled.
func formats(term bool, threads ...string) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("formats terminal=%v %s", term, strings.Join(threads, " | ")), Body: func() {
		f := log.LogfmtFormat()
		if term {
			f = log.TerminalFormat(false)
		}
		when := time.Unix(0, 0).UTC()
		locs := []string{fmt.Sprintf("%+v", mainSite()), fmt.Sprintf("%+v", otherSite())}
		calls := []stack.Call{mainSite(), otherSite()}
		line := func(o byte, t int) {
			v := strings.Repeat(string(o), 2+t*3)
			site := t % 2
			s := string(f.Format(&log.Record{Time: when, Lvl: log.LvlInfo, Msg: "m", Ctx: []interface{}{string(o), v, "last", t}, Call: calls[site], KeyNames: keyNames}))
			if !strings.HasSuffix(s, fmt.Sprintf("last=%d\n", t)) || strings.Count(s, "\n") != 1 {
				mc.Failf("line %q", s)
			}
			got := strings.Fields(s)
			var want []string
			if term {
				want = []string{"INFO", "[01-01|00:00:00.000]", "m", string(o) + "=" + v, fmt.Sprint("last=", t)}
				if strings.Contains(s, locs[site]) {
					want[1] = "[01-01|00:00:00.000|" + locs[site] + "]"
				}
			} else {
				want = []string{"t=1970-01-01T00:00:00+0000", "lvl=info", "msg=m", string(o) + "=" + v, fmt.Sprint("last=", t)}
			}
			if !reflect.DeepEqual(got, want) {
				mc.Failf("line %q, want the parts %q", s, want)
			}
		}
		var fs []func()
		for t, prog := range threads {
			t, prog := t, prog
			fs = append(fs, func() {
				for _, o := range []byte(prog) {
					switch o {
					case '+':
						log.PrintOrigins(true)
					case '-':
						log.PrintOrigins(false)
					default:
						line(o, t)
					}
				}
			})
		}
		mc.Par(fs...)
		for t := range threads {
			line('a', t)
		}
	}}
}

// many runs one of the scenarios above with many records, threads and buffer
// sizes.
func many(dense, max int) *mc.Scenario {
	sizes := ref.SizeList(dense, max)
	return &mc.Scenario{Name: fmt.Sprintf("0..%d and more, up to %d records", dense, max), MaxBound: -1, Steps: 4000000, Straight: true, Leak: true, Body: func() {
		n := sizes[mc.Choose(len(sizes))]
		threads := []int{n}
		switch mc.Choose(3) {
		case 1:
			threads = []int{n / 3, n - n/3 - n/2, n / 2}
		case 2:
			threads = make([]int, n)
			for i := range threads {
				threads[i] = 1
			}
		}
		switch k := mc.Choose(12); {
		case k == 0:
			syncHandler("lazy sync caller", threads...).Body()
		case k == 1:
			syncHandler("multi sync", threads...).Body()
		case k == 2:
			syncHandler("failover sync", threads...).Body()
		case k == 3:
			stream("logfmt", log.LogfmtFormat, threads...).Body()
		case k == 4:
			stream("terminal", func() log.Format { return log.TerminalFormat(false) }, threads...).Body()
		case k == 5:
			stream("json", log.JSONFormat, threads...).Body()
		case k < 9:
			buffered([]int{n / 2, n + 1, 2}[k-6], threads...).Body()
		default:
			channel([]int{n / 2, n + 1, 2}[k-9], threads...).Body()
		}
	}}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var out []*mc.Scenario
		if thorough {
			out = append(out, many(40, 1030))
		} else {
			out = append(out, many(12, 520))
		}
		sizes := [][]int{{1, 1}, {2, 2}, {1, 1, 1}}
		if thorough {
			sizes = append(sizes, []int{3, 3}, []int{2, 2, 2})
		}
		for _, n := range sizes {
			for _, w := range []string{"sync", "lazy sync caller", "multi sync", "failover sync"} {
				out = append(out, syncHandler(w, n...))
			}
			out = append(out, stream("logfmt", log.LogfmtFormat, n...), stream("terminal", func() log.Format { return log.TerminalFormat(false) }, n...), stream("json", log.JSONFormat, n...))
			for _, s := range []int{0, 1, 2} {
				out = append(out, buffered(s, n...), channel(s, n...))
			}
		}
		out = append(out, lazyLogs(log.LogfmtFormat), jsonFormats("json", log.JSONFormat), jsonFormats("ordered", func() log.Format { return log.JSONFormatOrderedEx(false, true) }), jsonFormats("pretty", func() log.Format { return log.JSONFormatEx(true, false) }))
		ctxs := map[string][]interface{}{"plain": {"a", 1}, "wide": {"a", 1, "b", 2, "c", 3}}
		for _, cn := range []string{"plain", "wide"} {
			ctx := ctxs[cn]
			add := func(h log.Handler) log.Handler {
				return log.FuncHandler(func(r *log.Record) error {
					r.Ctx = append(r.Ctx, "own"+r.Msg[1:], int(r.Msg[1]-'0'))
					return h.Log(r)
				})
			}
			out = append(out, shared("info "+cn, ctx, add, func(l log.Logger, i int) { l.Info(fmt.Sprint("m", i), fmt.Sprint("own", i), i) }))
			out = append(out, shared("children "+cn, ctx, add, func(l log.Logger, i int) { l.New(fmt.Sprint("own", i), i).Info(fmt.Sprint("m", i)) }))
			out = append(out, shared("lazy "+cn, append([]interface{}{"z", log.Ctx(nil)}, ctx...)[2:], func(h log.Handler) log.Handler { return log.LazyHandler(add(h)) }, func(l log.Logger, i int) {
				l.Info(fmt.Sprint("m", i), fmt.Sprint("own", i), log.Lazy{Fn: func() int { return i }})
			}))
		}
		for _, root := range []bool{false, true} {
			for _, p := range [][]string{{"PP", "p"}, {"CC", "p"}, {"CC", "c"}, {"C", "pc"}, {"C", "p", "c"}, {"GG", "c"}, {"G", "c", "p"}, {"G", "g", "c"}, {"P", "p", "p"}, {"hh", "p"}, {"h", "c", "p"}, {"CC", "pp"}, {"C", "C", "c"}} {
				out = append(out, swap(root, p...))
			}
			if thorough {
				for _, p := range [][]string{{"GG", "cg", "pp"}, {"CPC", "pcp"}, {"GCP", "gcp"}, {"CC", "CC", "cp"}, {"hG", "gc", "p"}} {
					out = append(out, swap(root, p...))
				}
			}
		}
		g := [][]string{
			{"L04 L04", "V4"}, {"L02", "V4 V1"}, {"L04", "Rm"}, {"L04 L04", "Rm"}, {"L04", "Rm RM"}, {"L04 L14", "Rm Ro"},
			{"L04", "L04", "Rm"}, {"L04", "L04", "Rm RM"}, {"L04 L04", "Rm Rn"}, {"L03", "RM Rb"}, {"L13 L03", "Rb Rm"}, {"L04", "V4", "Rm"}, {"L04", "Rm X"}, {"L04", "Rm", "Ro"},
			{"L04 L04", "L14", "Rb"}, {"L03", "B0"}, {"L03", "B0 B1"}, {"L14", "V3 B1"}, {"L04", "L14", "Rm Ro"},
		}
		if thorough {
			g = append(g, [][]string{{"L04 L04", "L04", "Rm RM"}, {"L04 L14", "L04", "Rm Ro"}, {"L04", "L04 L14", "Rb Rm"}, {"L04 L04", "V4 V1", "Rm RM"}, {"L03", "B0", "Rm"}, {"L03 L13", "B0 B1"}, {"L04 L04 L04", "Rm RM Rn"}, {"L04", "L04", "Rm", "RM"}}...)
		}
		for _, p := range g {
			out = append(out, glog(p...))
		}
		for _, term := range []bool{false, true} {
			fs := [][]string{{"a", "a"}, {"ab", "a"}, {"ab", "ba"}, {"a", "a", "a"}}
			if term {
				fs = append(fs, []string{"a", "+"}, []string{"a", "a", "+"}, []string{"+a", "+a"}, []string{"+a", "a", "-"}, []string{"+a-", "a"})
			}
			for _, p := range fs {
				out = append(out, formats(term, p...))
			}
		}
		return out
	})
}
