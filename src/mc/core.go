// Package mc is a controlled scheduler for stateless model checking of Go
// code. Instrumented code calls into it for every synchronisation operation;
// exactly one thread runs at any time and a depth-first search explores every
// choice of which pending operation goes next.
//
// States are identified by a fingerprint of the happens-before graph of the
// execution prefix: two prefixes with the same graph have the same set of
// continuations, so only the first one is expanded. The search is exhaustive
// over interleavings (up to happens-before equivalence) unless a preemption
// bound or a limit is set.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unsafe"
)

// ---- hashing ----

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C15F39CC060 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---- objects ----

// token is a synchronisation variable for the race detector pass.
type token struct{ x [2]int64 }

// obj is the shared part of every synchronisation object's shadow state.
type obj struct {
	base, sum uint64
	cls       uint8
	used      bool
	acc       []ttok // accumulated release tokens, at most one per thread
}

type ttok struct {
	t   *thread
	tok *token
}

func (o *obj) release(op *Op) {
	if op.tok == nil {
		return
	}
	for i := range o.acc {
		if o.acc[i].t == op.t {
			o.acc[i].tok = op.tok
			return
		}
	}
	o.acc = append(o.acc, ttok{op.t, op.tok})
}

func (o *obj) acquire(op *Op) {
	if op.tok == nil {
		return
	}
	for _, a := range o.acc {
		op.acq = append(op.acq, a.tok)
	}
}

type objKey struct {
	p unsafe.Pointer
	k uint8
}

const (
	kChan = iota + 1
	kMutex
	kRW
	kCond
	kWG
	kOnce
	kAtomic
	kMap
	kPool
	kTimer
	kUser
)

type touchRef struct {
	o   *obj
	cls uint8
	dep uint64
}

// ---- operations and threads ----

// Op is one pending or executing operation of a thread.
type Op struct {
	t       *thread
	kind    string
	enabled func() bool  // scheduler side; nil means always
	exec    func(op *Op) // scheduler side
	cases   []*Case
	hasDef  bool
	// results
	val    interface{}
	ok     bool
	idx    int
	pan    string
	parked bool
	done   bool
	extra  uint64 // folded into the event hash
	tok    *token
	acq    []*token
	waits  []*waiter
	free   bool // switching away before this op is never a preemption
	// local tells (scheduler side) that the operation commutes with
	// everything other threads can do before it: it is executed at once,
	// without exploring alternatives.
	local func() bool
}

type thread struct {
	id     int
	name   string
	wake   chan struct{}
	hash   uint64
	nspawn uint64
	op     *Op
	fin    bool
	daemon bool
	parent *thread
	next   *thread // list of newly spawned threads
	steps  int
	group  *group
	end    token // released when the thread ends
	start  *obj  // what the thread's first step happens after
}

// endAll orders the threads of one execution before those of the next.
var endAll token

// raceAbort orders the rest of an aborted thread after everything else.
func (s *sched) raceAbort() {
	if !raceOn {
		return
	}
	raceAcquireTok(&endAll)
	for i := range s.threads {
		if op := s.threads[i].op; op != nil && op.tok != nil {
			raceAcquireTok(op.tok)
		}
	}
}

type group struct {
	left int
	hash uint64
	obj  obj
}

// cur is the thread that is running right now; nil outside of an execution.
var cur *thread
var sch *sched

type abortKind int

const (
	runOK abortKind = iota
	runCached
	runViolation
	runLimit
)

// Violation describes a failed execution.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type node struct {
	n, pick int
	free    bool   // a data choice, not a scheduling choice
	costs   uint64 // bit i set: pick i is a preemption
	sig     uint64
}

type visitKey struct {
	h uint64
	t int32
}

type sched struct {
	cfg      *Config
	sc       *Scenario
	threads  []*thread
	spawnHd  *thread
	spawnTl  *thread
	posted   chan struct{}
	objs     map[objKey]interface{}
	keep     []interface{}
	aborting bool
	stop     abortKind
	vio      *Violation

	path      []node
	depth     int
	replay    bool
	choices   []int
	bound     int
	pre       int // preemptions so far
	last      *thread
	visited   map[visitKey]uint8
	completed []*Op
	touches   []touchRef
	steps     int

	now         int64
	clock       obj
	clockHash   uint64
	timers      []*timerS
	idleTime    bool
	hist        obj
	histEp      int
	histCls     uint8
	keyReg      map[interface{}]int
	keyHd       *keyNode
	keyTl       *keyNode
	fair        bool
	fairNext    int
	trace       []string
	tracing     bool
	stat        *Stats
	capped      bool
	prunedBound bool
	diverged    string
	progress    *int64
	outs        string
	raceErr     bool
	raceBase    int
}

// Config bounds one exploration.
type Config struct {
	// Split is called before each of the n remaining passes to set the time
	// limit of the next one.
	Split    func(n int)
	MaxSteps int
	Bound    int // preemption bound, <0: none
	Deadline func() bool
	MaxExecs int64
}

// Stats counts what one exploration covered.
type Stats struct {
	Execs, Complete, Cached, States, Transitions, Steps int64
	MaxDepth                                            int
	Outcomes                                            map[string]int64
	Bounds                                              []string
	Exhaustive                                          bool
}

// Scenario is a closed concurrent program together with its oracle.
type Scenario struct {
	Name string
	// Body runs as the main thread. It may start goroutines and call Par.
	Body func()
	// Idle restricts clock advances to moments when nothing else can run.
	Idle bool
	// Leak permits threads that are blocked for ever after Body returned.
	Leak bool
	// Bound overrides the preemption bound sequence: explore exactly up to
	// this bound (0 means no override; a negative one stands for 0).
	MaxBound int
	// Steps overrides the step limit.
	Steps int
	// Straight explores one schedule, with one order of map iterations and of
	// ready select cases: only the harness's own choices branch.
	Straight bool
}

var resets []func()

// tryLocks is set when a TryLock was executed.
var tryLocks, noUnlockReduction bool

func unlockLocal() bool { return !noUnlockReduction }

// RegisterReset is called by instrumented packages, in initialisation order.
func RegisterReset(f func()) { resets = append(resets, f) }

// ---- thread side ----

func handoff(t *thread) {
	raceDisable()
	s := sch
	s.posted <- struct{}{}
	<-t.wake
	raceEnable()
}

// do posts an operation and returns when it has been executed (and, if it
// parked, completed).
func do(op *Op) {
	t := cur
	if t == nil {
		directDo(op)
		return
	}
	s := sch
	if s.aborting {
		runtime.Goexit()
	}
	op.t = t
	if raceOn {
		op.tok = new(token)
		raceReleaseTok(op.tok)
	}
	t.op = op
	handoff(t)
	if s.aborting {
		s.raceAbort()
		runtime.Goexit()
	}
	if raceOn {
		for _, a := range op.acq {
			raceAcquireTok(a)
		}
	}
	if op.pan != "" {
		panic(RuntimeError(op.pan))
	}
}

// RuntimeError is the panic value of misused synchronisation operations.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// directDo executes an operation outside of any execution (package
// initialisation): it must not block.
func directDo(op *Op) {
	if sch == nil {
		sch = newSched(&Config{}, nil)
	}
	s := sch
	op.t = &thread{}
	if op.enabled != nil && !op.enabled() {
		panic("mc: operation " + op.kind + " would block outside of an execution")
	}
	if op.exec != nil {
		op.exec(op)
	}
	s.touches = s.touches[:0]
	s.completed = nil
	if op.parked && !op.done {
		panic("mc: operation " + op.kind + " would block outside of an execution")
	}
	if op.pan != "" {
		panic(RuntimeError(op.pan))
	}
}

// Go starts a thread.
func Go(f func()) { spawn(f, "", nil) }

// GoNamed starts a named thread.
func GoNamed(name string, f func()) { spawn(f, name, nil) }

// Daemon starts a thread that may stay blocked for ever.
func Daemon(f func()) {
	if t := spawn(f, "daemon", nil); t != nil {
		t.daemon = true
	}
}

func spawn(f func(), name string, g *group) *thread {
	p := cur
	if p == nil {
		return nil // package initialisation; re-run at the start of each execution
	}
	s := sch
	if s.aborting {
		runtime.Goexit()
	}
	p.nspawn++
	t := &thread{parent: p, name: name, wake: make(chan struct{}), hash: mix(mix(p.hash, 77), p.nspawn), group: g}
	if s.spawnTl == nil {
		s.spawnHd = t
	} else {
		s.spawnTl.next = t
	}
	s.spawnTl = t
	go t.main(f)
	return t
}

func (t *thread) main(f func()) {
	s := sch
	normal := false
	defer func() {
		if !normal && !s.aborting {
			if r := recover(); r != nil {
				s.fail("panic", fmt.Sprintf("%v\n%s", r, trimStack(string(debug.Stack()))))
			}
		}
		if raceOn {
			raceReleaseTok(&t.end)
			raceReleaseMergeTok(&endAll)
		}
		t.fin = true
		raceDisable()
		s.posted <- struct{}{}
		raceEnable()
	}()
	raceDisable()
	<-t.wake
	raceEnable()
	if s.aborting {
		normal = true
		return
	}
	if raceOn {
		if t.parent == nil && t.start == nil {
			raceAcquireTok(&endAll)
		}
		if t.start != nil {
			for i := range t.start.acc {
				raceAcquireTok(t.start.acc[i].tok)
			}
		}
	}
	f()
	normal = true
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = nil
			i++
			continue
		}
		if seen && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "goroutine") {
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(loc, " +"); j > 0 {
				loc = loc[:j]
			}
			if j := strings.LastIndex(loc, "/"); j > 0 {
				loc = loc[j+1:]
			}
			fn := l
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			if strings.HasPrefix(fn, "flychain/zzmc/mc.") || strings.HasPrefix(fn, "runtime.") {
				i++
				continue
			}
			out = append(out, "  "+fn+" "+loc)
			i++
			if len(out) > 8 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (s *sched) fail(kind, msg string) {
	if s.vio == nil {
		s.vio = &Violation{kind, msg}
	}
	s.stop = runViolation
}

// Failf reports a violation and ends the execution.
func Failf(format string, args ...interface{}) {
	s := sch
	if cur == nil {
		panic(fmt.Sprintf(format, args...))
	}
	s.fail("oracle", fmt.Sprintf(format, args...))
	do(&Op{kind: "fail"})
}

// Outcome records a description of what this execution observed; the number
// of distinct descriptions is reported as evidence against vacuity.
func Outcome(format string, args ...interface{}) {
	if cur != nil {
		sch.outs = fmt.Sprintf(format, args...)
	}
}

// Par runs the functions as concurrent threads and waits for all of them.
func Par(fs ...func()) {
	s := sch
	g := &group{left: len(fs)}
	for i, f := range fs {
		spawn(f, fmt.Sprintf("P%d", i), g)
	}
	do(&Op{kind: "join", free: true, enabled: func() bool { return g.left == 0 }, exec: func(op *Op) {
		s.touch(&g.obj, 0)
		g.obj.acquire(op)
		op.extra = g.hash
	}})
}

// ---- scheduler side ----

func newSched(cfg *Config, sc *Scenario) *sched {
	return &sched{cfg: cfg, sc: sc, posted: make(chan struct{}), objs: make(map[objKey]interface{}), keyReg: map[interface{}]int{}, bound: -1}
}

// touch records that the current event accesses o. Events of the same
// non-zero class commute.
func (s *sched) touch(o *obj, cls uint8) {
	for i := range s.touches {
		if s.touches[i].o == o {
			return
		}
	}
	if !(cls != 0 && o.used && o.cls == cls) {
		if o.used {
			o.base = mix(o.base, o.sum)
		}
		o.sum = 0
		o.cls = cls
		o.used = true
	}
	s.touches = append(s.touches, touchRef{o, cls, o.base})
}

// commit computes the event hash of the executed operation.
func (s *sched) commit(th uint64, kind string, extra uint64) uint64 {
	e := mix(mix(th, hashStr(kind)), extra)
	for i := range s.touches {
		e = mix(e, s.touches[i].dep)
	}
	for i := range s.touches {
		s.touches[i].o.sum += mix(e, 3)
	}
	s.touches = s.touches[:0]
	return e
}

func (s *sched) stateHash() uint64 {
	h := mix(s.clockHash, uint64(len(s.threads)))
	for _, t := range s.threads {
		x := t.hash
		if t.fin {
			x = mix(x, 0xF1)
		}
		h += mix(x, 11)
	}
	return h
}

// runThread lets t run until it posts its next operation or finishes.
func (s *sched) runThread(t *thread) {
	cur = t
	if s.progress != nil {
		atomic.AddInt64(s.progress, 1)
	}
	raceDisable()
	t.wake <- struct{}{}
	<-s.posted
	raceEnable()
	cur = nil
	if s.keyHd != nil {
		s.drainKeys()
	}
	if t.fin && t.group != nil && !s.aborting {
		g := t.group
		g.left--
		g.hash += mix(t.hash, 5)
		if raceOn {
			g.obj.acc = append(g.obj.acc, ttok{t, &t.end})
		}
	}
}

func (s *sched) addSpawned() []*thread {
	var out []*thread
	for t := s.spawnHd; t != nil; t = t.next {
		t.id = len(s.threads)
		if t.name == "" {
			t.name = fmt.Sprintf("g%d", t.id)
		}
		s.threads = append(s.threads, t)
		out = append(out, t)
	}
	s.spawnHd, s.spawnTl = nil, nil
	return out
}

// settle runs a thread, then every thread that it spawned (transitively).
func (s *sched) settle(t *thread) {
	s.runThread(t)
	for {
		ns := s.addSpawned()
		if len(ns) == 0 || s.stop != runOK {
			return
		}
		for _, n := range ns {
			s.runThread(n)
			if s.stop != runOK {
				s.addSpawned()
				return
			}
		}
	}
}

// choose makes a data choice among n alternatives.
func (s *sched) choose(n int) int {
	if n <= 1 {
		return 0
	}
	return s.pickNode(n, true, 0, 0)
}

func (s *sched) pickNode(n int, free bool, costs, sig uint64) int {
	d := s.depth
	s.depth++
	if s.replay {
		p := 0
		if d < len(s.choices) {
			p = s.choices[d]
		}
		if p >= n {
			s.diverged = fmt.Sprintf("replay: choice %d of %d at depth %d", p, n, d)
			p = 0
		}
		return p
	}
	if d < len(s.path) {
		nd := &s.path[d]
		if nd.n != n || nd.free != free || nd.sig != sig {
			if s.diverged == "" {
				s.diverged = fmt.Sprintf("nondeterminism: at depth %d of a replayed prefix: %d alternatives, sig %x, expected %d, sig %x", d, n, sig, nd.n, nd.sig)
			}
			s.stop = runLimit
			if nd.pick >= n {
				return 0
			}
		}
		return nd.pick
	}
	s.path = append(s.path, node{n: n, free: free, costs: costs, sig: sig})
	return 0
}

type cand struct {
	t  *thread
	tm *timerS
}

// execution runs one complete execution following the path.
func (s *sched) execution(body func()) {
	s.threads = s.threads[:0]
	s.spawnHd, s.spawnTl = nil, nil
	for k := range s.objs {
		delete(s.objs, k)
	}
	for k := range s.keyReg {
		delete(s.keyReg, k)
	}
	s.keyHd, s.keyTl = nil, nil
	s.keep = nil
	s.aborting = false
	s.stop = runOK
	s.vio = nil
	s.depth = 0
	s.pre = 0
	s.last = nil
	s.completed = nil
	s.touches = s.touches[:0]
	s.steps = 0
	s.now = startNano
	s.clock = obj{}
	s.clockHash = 1
	s.timers = nil
	s.hist = obj{}
	s.histEp, s.histCls = 0, 0
	s.fair = false
	s.outs = ""
	s.trace = nil

	main := &thread{name: "main", wake: make(chan struct{}), hash: 42}
	s.threads = append(s.threads, main)
	sch = s
	go main.main(func() {
		for _, r := range resets {
			r()
		}
		body()
	})
	s.settle(main)
	maxSteps := s.cfg.MaxSteps
	if s.sc != nil && s.sc.Steps > 0 {
		maxSteps = s.sc.Steps
	}
	var cands []cand
	for s.stop == runOK {
		if !s.fair {
			if t := s.localThread(); t != nil {
				s.steps++
				if s.steps > maxSteps {
					s.fair, s.capped = true, true
				}
				last := s.last
				s.step(cand{t: t})
				s.last = last
				continue
			}
		}
		cands = cands[:0]
		// enabled operations, the last running thread first
		lastEnabled := false
		if s.last != nil && !s.last.fin && s.isEnabled(s.last) {
			cands = append(cands, cand{t: s.last})
			lastEnabled = true
		}
		for _, t := range s.threads {
			if t != s.last && !t.fin && s.isEnabled(t) {
				cands = append(cands, cand{t: t})
			}
		}
		nthreads := len(cands)
		if len(s.timers) > 0 && (nthreads == 0 || !s.idleTime) {
			for _, tm := range s.earliest() {
				cands = append(cands, cand{tm: tm})
			}
		}
		if len(cands) == 0 {
			s.quiescent()
			break
		}
		s.steps++
		if s.steps > maxSteps && !s.fair {
			s.fair = true
			s.capped = true
		}
		if s.fair {
			if s.steps > maxSteps+20*1000 {
				s.fail("livelock", fmt.Sprintf("the execution does not end within %d further steps of fair scheduling", 20*1000)+s.describe())
				break
			}
			s.fairNext++
			s.step(cands[s.fairNext%len(cands)])
			continue
		}
		pick := 0
		if len(cands) > 1 && !s.straight() {
			sig := s.stateHash()
			if s.depth >= len(s.path) && !s.replay {
				// a new state
				k := visitKey{h: sig, t: -1}
				if s.bound >= 0 && s.last != nil {
					k.t = int32(s.last.id)
				}
				left := uint8(255)
				if s.bound >= 0 {
					left = uint8(s.bound-s.pre) + 1
				}
				if v, ok := s.visited[k]; ok && v >= left {
					s.stop = runCached
					break
				}
				s.visited[k] = left
			}
			var costs uint64
			if lastEnabled && !s.last.op.free {
				for i := 1; i < len(cands) && i < 64; i++ {
					costs |= 1 << uint(i)
				}
			}
			pick = s.pickNode(len(cands), false, costs, sig)
			if costs&(1<<uint(pick)) != 0 {
				s.pre++
			}
		}
		if s.stop != runOK {
			break
		}
		s.step(cands[pick])
	}
	if s.depth > s.stat.MaxDepth {
		s.stat.MaxDepth = s.depth
	}
	s.raceErr = raceOn && raceErrors() > s.raceBase
	s.teardown()
	if raceOn {
		s.raceBase = raceErrors()
	}
}

func (s *sched) straight() bool { return s.sc != nil && s.sc.Straight }

// localThread finds a thread whose next operation is a local one.
func (s *sched) localThread() *thread {
	for _, t := range s.threads {
		if t.fin || t.op == nil || t.op.local == nil || t.op.parked {
			continue
		}
		if s.isEnabled(t) && t.op.local() {
			return t
		}
	}
	return nil
}

func (s *sched) describe() string {
	var b strings.Builder
	for _, t := range s.threads {
		if t.fin {
			continue
		}
		k := "?"
		if t.op != nil {
			k = t.op.kind
		}
		fmt.Fprintf(&b, "\n  thread %s blocked in %s", t.name, k)
	}
	return b.String()
}

// quiescent is called when nothing can run any more.
func (s *sched) quiescent() {
	main := s.threads[0]
	if !main.fin {
		s.fail("deadlock", "no thread can make progress"+s.describe())
		return
	}
	if s.sc != nil && s.sc.Leak {
		return
	}
	for _, t := range s.threads {
		if !t.fin && !t.daemon {
			s.fail("leak", "a goroutine stays blocked for ever"+s.describe())
			return
		}
	}
}

func (s *sched) isEnabled(t *thread) bool {
	op := t.op
	if op == nil || op.parked {
		return false
	}
	return op.enabled == nil || op.enabled()
}

// step executes one candidate.
func (s *sched) step(c cand) {
	s.stat.Steps++
	if c.tm != nil {
		if s.tracing {
			s.trace = append(s.trace, fmt.Sprintf("clock advances to +%dns, timer fires", c.tm.when-startNano))
		}
		s.fireTimer(c.tm)
		s.last = nil
		return
	}
	t := c.t
	op := t.op
	s.last = t
	t.steps++
	if s.tracing {
		s.trace = append(s.trace, t.name+": "+op.kind)
	}
	if op.exec != nil {
		op.exec(op)
	}
	if s.stop != runOK {
		return
	}
	e := s.commit(t.hash, op.kind, op.extra)
	t.hash = e
	comp := s.takeCompleted(e)
	if !op.parked {
		s.settle(t)
	}
	s.resume(comp)
}

func (s *sched) takeCompleted(e uint64) []*Op {
	comp := s.completed
	s.completed = nil
	for _, o := range comp {
		o.t.hash = mix(mix(o.t.hash, e), uint64(o.idx+2))
	}
	return comp
}

func (s *sched) resume(comp []*Op) {
	for _, o := range comp {
		if s.stop != runOK {
			return
		}
		o.parked = false
		s.settle(o.t)
	}
}

// teardown ends all threads of the execution.
func (s *sched) teardown() {
	s.addSpawned()
	s.aborting = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		for !t.fin {
			cur = t
			raceDisable()
			t.wake <- struct{}{}
			<-s.posted
			raceEnable()
		}
		cur = nil
		s.addSpawned()
	}
}

// ---- exploration ----

// backtrack advances the path to the next unexplored alternative.
func (s *sched) backtrack() bool {
	for len(s.path) > 0 {
		nd := &s.path[len(s.path)-1]
		for nd.pick+1 < nd.n {
			nd.pick++
			if s.bound >= 0 && !nd.free && nd.costs&(1<<uint(nd.pick)) != 0 {
				// count the preemptions on the way here
				p := 0
				for i := range s.path {
					if s.path[i].costs&(1<<uint(s.path[i].pick)) != 0 {
						p++
					}
				}
				if p > s.bound {
					s.prunedBound = true
					continue
				}
			}
			return true
		}
		s.path = s.path[:len(s.path)-1]
	}
	return false
}

// Result is the outcome of Explore.
type Result struct {
	Stats    Stats
	Vio      *Violation
	Choices  []int
	Trace    []string
	Diverged string
}

func (s *sched) currentChoices() []int {
	out := make([]int, 0, s.depth)
	for i := 0; i < len(s.path) && i < s.depth; i++ {
		out = append(out, s.path[i].pick)
	}
	return out
}

// Explore runs the scenario under every schedule, with iterated preemption
// bounds 0, 1, 2 and then without a bound (or up to cfg.Bound if >= 0).
func Explore(sc *Scenario, cfg *Config, progress *int64) *Result {
	res := &Result{}
	st := &res.Stats
	st.Outcomes = map[string]int64{}
	bounds := []int{0, 1, 2, -1}
	max := cfg.Bound
	if sc.MaxBound != 0 {
		max = sc.MaxBound
		if max < 0 {
			max = 0
		}
	}
	if max >= 0 {
		bounds = nil
		for i := 0; i <= max; i++ {
			bounds = append(bounds, i)
		}
	}
	allStates := map[uint64]struct{}{}
	tryLocks = false
	for i := 0; i < len(bounds); i++ {
		b := bounds[i]
		if cfg.Split != nil {
			cfg.Split(len(bounds) - i)
		}
		s := newSched(cfg, sc)
		s.stat = st
		s.bound = b
		s.idleTime = sc.Idle
		s.progress = progress
		s.visited = map[visitKey]uint8{}
		timeout := false
		for {
			s.execution(sc.Body)
			st.Execs++
			if tryLocks && !noUnlockReduction {
				// the program looks at locked mutexes: start again
				// without the reduction that assumes otherwise
				noUnlockReduction = true
				return Explore(sc, cfg, progress)
			}
			if s.diverged != "" {
				res.Diverged = s.diverged
				st.Exhaustive = false
				return res
			}
			switch s.stop {
			case runOK:
				st.Complete++
				st.Outcomes[s.outs]++
			case runCached:
				st.Cached++
			case runViolation:
				res.Vio = s.vio
				res.Choices = s.currentChoices()
				return res
			}
			if s.raceErr {
				res.Vio = &Violation{"datarace", "the race detector reported a data race"}
				res.Choices = s.currentChoices()
				return res
			}
			st.Transitions++
			if !s.backtrack() {
				break
			}
			if (cfg.MaxExecs > 0 && st.Execs >= cfg.MaxExecs) || cfg.Deadline != nil && cfg.Deadline() {
				timeout = true
				break
			}
		}
		for k := range s.visited {
			allStates[k.h] = struct{}{}
		}
		st.States = int64(len(allStates))
		name := fmt.Sprintf("preemptions<=%d", b)
		if b < 0 {
			name = "unbounded"
		}
		if sc.Straight {
			name = "one schedule each"
		}
		if timeout {
			st.Bounds = append(st.Bounds, name+":incomplete")
			continue
		}
		if s.capped {
			st.Bounds = append(st.Bounds, name+":step-capped")
		} else {
			st.Bounds = append(st.Bounds, name)
		}
		if b < 0 || !s.prunedBound {
			st.Exhaustive = !s.capped
			return res
		}
	}
	return res
}

// Replay runs one execution with fixed choices and a trace.
func Replay(sc *Scenario, cfg *Config, choices []int, progress *int64) *Result {
	s := newSched(cfg, sc)
	res := &Result{}
	s.stat = &res.Stats
	s.replay = true
	s.choices = choices
	s.tracing = true
	s.idleTime = sc.Idle
	s.progress = progress
	s.visited = map[visitKey]uint8{}
	s.execution(sc.Body)
	res.Vio = s.vio
	if res.Vio == nil && s.raceErr {
		res.Vio = &Violation{"datarace", "the race detector reported a data race"}
	}
	res.Trace = s.trace
	res.Diverged = s.diverged
	return res
}
