// Package enum drives bounded-exhaustive explorations: a section enumerates a
// finite space of inputs or operation histories completely and compares the
// implementation with a reference on every element.
package enum

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Section is one finite space.
type Section struct {
	Name   string
	Shards int // split over this many processes by C.Mine
	Run    func(c *C)
}

// Violation is one failed case.
type Violation struct {
	Section string `json:"section"`
	Case    string `json:"case"`
	Msg     string `json:"msg"`
}

// Report is what a section run writes.
type Report struct {
	Section     string      `json:"section"`
	Shard       int         `json:"shard"`
	States      int64       `json:"states"`
	Transitions int64       `json:"transitions"`
	Traces      int64       `json:"traces"`
	Samples     []string    `json:"samples"`
	Bounds      []string    `json:"bounds"`
	Exhaustive  bool        `json:"exhaustive"`
	Violations  []Violation `json:"violations"`
	WallS       float64     `json:"wall_s"`
	Note        string      `json:"note,omitempty"`
}

// C is the context of one section run.
type C struct {
	Tier     string
	sec      string
	shard    int
	shards   int
	only     string
	traceF   *os.File
	states   map[uint64]struct{}
	rep      Report
	top      int64
	deadline time.Time
	stopped  bool
	key      func() string
	mu       sync.Mutex
	serial   int64
	in       int64
	outPath  string
}

type failT struct{ msg string }
type stopT struct{}

const maxViolations = 8

// Thorough reports whether the deep tier is running.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q on the quick tier and t on the thorough one.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Bound records a bound of the enumeration for the evidence.
func (c *C) Bound(format string, a ...interface{}) {
	c.rep.Bounds = append(c.rep.Bounds, fmt.Sprintf(format, a...))
}

// Mine tells whether the next top-level element belongs to this shard.
func (c *C) Mine() bool {
	c.top++
	return c.only != "" || c.shards <= 1 || int(c.top)%c.shards == c.shard
}

// Case runs one element of the space. The key is formatted only when needed.
func (c *C) Case(f func(), format string, a ...interface{}) {
	key := func() string { return fmt.Sprintf(format, a...) }
	if c.only != "" && key() != c.only {
		return
	}
	if c.rep.Traces&0xff == 0 && !c.deadline.IsZero() && time.Now().After(c.deadline) {
		c.stopped = true
		panic(stopT{})
	}
	if c.traceF != nil {
		s := key()
		c.traceF.Truncate(0)
		c.traceF.WriteAt([]byte(s), 0)
	}
	c.mu.Lock()
	c.key = key
	c.mu.Unlock()
	atomic.AddInt64(&c.serial, 1)
	atomic.StoreInt64(&c.in, 1)
	defer atomic.StoreInt64(&c.in, 0)
	c.rep.Traces++
	if n := c.rep.Traces; n <= 2 || n == 1000 || n == 100000 {
		s := key()
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, c.sec+": "+s)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopT); ok {
				panic(r)
			}
			msg := ""
			if ft, ok := r.(failT); ok {
				msg = ft.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, stack())
			}
			c.rep.Violations = append(c.rep.Violations, Violation{c.sec, key(), msg})
			if len(c.rep.Violations) >= maxViolations {
				panic(stopT{})
			}
		}
	}()
	f()
}

func stack() string {
	var out []string
	lines := strings.Split(string(debug.Stack()), "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for _, l := range lines[start:] {
		out = append(out, strings.TrimSpace(l))
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Failf ends the current case with a violation.
func (c *C) Failf(format string, a ...interface{}) {
	panic(failT{fmt.Sprintf(format, a...)})
}

// Check fails the case unless ok.
func (c *C) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		panic(failT{fmt.Sprintf(format, a...)})
	}
}

// Step counts implementation calls.
func (c *C) Step(n int) { c.rep.Transitions += int64(n) }

// State records a distinct reference state or outcome.
func (c *C) State(parts ...interface{}) {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			add(v)
		case []byte:
			add(string(v))
		case int:
			for i := 0; i < 8; i++ {
				h ^= uint64(byte(uint64(v) >> uint(8*i)))
				h *= 1099511628211
			}
		case uint64:
			for i := 0; i < 8; i++ {
				h ^= uint64(byte(v >> uint(8*i)))
				h *= 1099511628211
			}
		case bool:
			if v {
				add("t")
			} else {
				add("f")
			}
		case nil:
			add("nil")
		case error:
			add(v.Error())
		default:
			add(fmt.Sprint(v))
		}
	}
	if len(c.states) < 4000000 {
		c.states[h] = struct{}{}
	}
}

// Panics runs f and reports whether it panicked, and with what.
func Panics(f func()) (p bool, v interface{}) {
	p = true // also for panic(nil), which recover cannot tell from none
	defer func() {
		r := recover()
		if _, ok := r.(failT); ok {
			panic(r)
		}
		if _, ok := r.(stopT); ok {
			panic(r)
		}
		if p {
			v = r
		}
	}()
	f()
	p = false
	return p, nil
}

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch reports a case that burns CPU or memory without end, or is blocked.
func (c *C) watch() {
	last, since, cpu0 := int64(-1), time.Now(), cpu()
	for {
		time.Sleep(250 * time.Millisecond)
		n := atomic.LoadInt64(&c.serial)
		if n != last || atomic.LoadInt64(&c.in) == 0 {
			last, since, cpu0 = n, time.Now(), cpu()
			continue
		}
		var ms runtime.MemStats
		why := ""
		if cpu()-cpu0 > 25*time.Second {
			why = "the case does not end (25 s of CPU time)"
		} else if time.Since(since) > 8*time.Second && cpu()-cpu0 < 500*time.Millisecond && blockedEverywhere() {
			why = "the case blocks for ever"
		} else {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				why = "the case allocates without end"
			}
		}
		if why != "" && c.key != nil {
			c.mu.Lock()
			k := c.key
			c.mu.Unlock()
			c.rep.Violations = append(c.rep.Violations, Violation{c.sec, k(), why})
			c.finish()
			os.Exit(0)
		}
	}
}

// blockedEverywhere reports whether every goroutine but this one is blocked.
func blockedEverywhere() bool {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	gs := strings.Split(string(buf[:n]), "\n\n")
	for _, g := range gs {
		l := g
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		if strings.Contains(g, "enum.blockedEverywhere") {
			continue
		}
		if strings.Contains(l, "[running") || strings.Contains(l, "[runnable") || strings.Contains(l, "[sleep") || strings.Contains(l, "[syscall") || strings.Contains(l, "[IO wait") {
			return false
		}
	}
	return true
}

var start = time.Now()

func (c *C) finish() {
	c.rep.States = int64(len(c.states))
	c.rep.WallS = time.Since(start).Seconds()
	b, _ := json.Marshal(c.rep)
	os.WriteFile(c.outPath, b, 0644)
}

// Main runs the sections as the command line says.
func Main(secs ...Section) {
	list := flag.Bool("list", false, "")
	run := flag.String("run", "", "")
	shard := flag.Int("shard", 0, "")
	out := flag.String("out", "/dev/stdout", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("only", "", "")
	trace := flag.String("trace", "", "")
	secsF := flag.Float64("seconds", 0, "")
	flag.Parse()
	if *list {
		type row struct {
			Name   string `json:"name"`
			Shards int    `json:"shards"`
		}
		var rows []row
		for _, s := range secs {
			n := s.Shards
			if n < 1 {
				n = 1
			}
			rows = append(rows, row{s.Name, n})
		}
		b, _ := json.Marshal(rows)
		fmt.Println(string(b))
		return
	}
	for _, s := range secs {
		if s.Name != *run {
			continue
		}
		c := &C{Tier: *tier, sec: s.Name, shard: *shard, shards: s.Shards, only: *only, states: map[uint64]struct{}{}, outPath: *out}
		c.rep.Section, c.rep.Shard = s.Name, *shard
		if *trace != "" {
			c.traceF, _ = os.Create(*trace)
		}
		if *secsF > 0 {
			c.deadline = time.Now().Add(time.Duration(*secsF * float64(time.Second)))
		}
		go c.watch()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopT); ok {
						return
					}
					panic(r)
				}
			}()
			s.Run(c)
			c.rep.Exhaustive = true
		}()
		if c.stopped {
			c.rep.Exhaustive = false
		}
		c.finish()
		return
	}
	fmt.Fprintln(os.Stderr, "no such section")
	os.Exit(2)
}
