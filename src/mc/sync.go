package mc

import (
	"unsafe"
)

func shadow[T any](s *sched, p unsafe.Pointer, k uint8, keep interface{}) *T {
	key := objKey{p, k}
	if x, ok := s.objs[key]; ok {
		return x.(*T)
	}
	x := new(T)
	s.objs[key] = x
	s.keep = append(s.keep, keep)
	return x
}

func always() bool { return true }

func (s *sched) fatal(msg string) { s.fail("fatal", "fatal error: "+msg) }

// ---- Mutex ----

// Mutex models sync.Mutex: a waiter may be overtaken by any other.
type Mutex struct{ x uint64 }

type mutexS struct {
	obj    obj
	locked bool
}

func (m *Mutex) s() *mutexS { return shadow[mutexS](sch, unsafe.Pointer(m), kMutex, m) }

// Lock locks m.
func (m *Mutex) Lock() {
	_ = m._addr()
	do(&Op{kind: "Mutex.Lock", enabled: func() bool { return !m.s().locked }, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 0)
		x.locked = true
		x.obj.acquire(op)
	}})
}

func (m *Mutex) _addr() uint64 { return m.x }

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	op := &Op{kind: "Mutex.TryLock", exec: func(op *Op) {
		tryLocks = true
		x := m.s()
		sch.touch(&x.obj, 0)
		op.ok = !x.locked
		if op.ok {
			op.extra = 1
			x.locked = true
			x.obj.acquire(op)
		}
	}}
	do(op)
	return op.ok
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	_ = m._addr()
	do(&Op{kind: "Mutex.Unlock", local: unlockLocal, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 0)
		if !x.locked {
			sch.fatal("sync: unlock of unlocked mutex")
			return
		}
		x.locked = false
		x.obj.release(op)
	}})
}

// ---- RWMutex ----

// RWMutex models sync.RWMutex: an announced writer blocks new readers, and a
// writer's unlock admits all readers that are waiting.
type RWMutex struct{ x uint64 }

type rwS struct {
	obj     obj
	w       bool // held by a writer
	pending bool // a writer has announced itself (or holds it)
	readers int
	waiting []*Op
	wrel    obj // releases by writers
	rrel    obj // releases by readers
}

func (m *RWMutex) s() *rwS { return shadow[rwS](sch, unsafe.Pointer(m), kRW, m) }

func (m *RWMutex) _addr() uint64 { return m.x }

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	_ = m._addr()
	do(&Op{kind: "RWMutex.RLock", exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 1)
		if x.pending {
			op.parked = true
			x.waiting = append(x.waiting, op)
			op.extra = 1
			return
		}
		x.readers++
		x.wrel.acquire(op)
	}})
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	op := &Op{kind: "RWMutex.TryRLock", exec: func(op *Op) {
		tryLocks = true
		x := m.s()
		sch.touch(&x.obj, 1)
		op.ok = !x.pending
		if op.ok {
			op.extra = 1
			x.readers++
			x.wrel.acquire(op)
		}
	}}
	do(op)
	return op.ok
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	_ = m._addr()
	do(&Op{kind: "RWMutex.RUnlock", local: unlockLocal, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 1)
		if x.readers <= 0 {
			sch.fatal("sync: RUnlock of unlocked RWMutex")
			return
		}
		x.readers--
		x.rrel.release(op)
	}})
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	_ = m._addr()
	do(&Op{kind: "RWMutex.Lock(announce)", enabled: func() bool { return !m.s().pending }, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 0)
		x.pending = true
	}})
	do(&Op{kind: "RWMutex.Lock", enabled: func() bool { return m.s().readers == 0 }, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 0)
		x.w = true
		x.wrel.acquire(op)
		x.rrel.acquire(op)
	}})
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	op := &Op{kind: "RWMutex.TryLock", exec: func(op *Op) {
		tryLocks = true
		x := m.s()
		sch.touch(&x.obj, 0)
		op.ok = !x.pending && x.readers == 0
		if op.ok {
			op.extra = 1
			x.pending, x.w = true, true
			x.wrel.acquire(op)
			x.rrel.acquire(op)
		}
	}}
	do(op)
	return op.ok
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	_ = m._addr()
	do(&Op{kind: "RWMutex.Unlock", exec: func(op *Op) {
		s := sch
		x := m.s()
		s.touch(&x.obj, 0)
		if !x.w {
			s.fatal("sync: Unlock of unlocked RWMutex")
			return
		}
		x.w, x.pending = false, false
		x.wrel.release(op)
		for _, o := range x.waiting {
			x.readers++
			x.wrel.acquire(o)
			o.done = true
			s.completed = append(s.completed, o)
		}
		x.waiting = nil
	}})
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker of the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---- Once ----

// Once models sync.Once.
type Once struct{ x uint64 }

type onceS struct {
	obj   obj
	state int // 0 new, 1 running, 2 done
	rel   obj
}

func (m *Once) s() *onceS { return shadow[onceS](sch, unsafe.Pointer(m), kOnce, m) }

// Do calls f once.
func (m *Once) Do(f func()) {
	op := &Op{kind: "Once.Do", local: func() bool { return m.s().state == 2 }, enabled: func() bool { return m.s().state != 1 }, exec: func(op *Op) {
		x := m.s()
		if x.state == 2 {
			sch.touch(&x.obj, 1)
			x.rel.acquire(op)
			return
		}
		sch.touch(&x.obj, 0)
		x.state = 1
		op.ok = true
		op.extra = 1
	}}
	do(op)
	if !op.ok {
		return
	}
	defer do(&Op{kind: "Once.done", local: always, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, 0)
		x.state = 2
		x.rel.release(op)
	}})
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// ---- Cond ----

// Cond models sync.Cond.
type Cond struct {
	L Locker
	x uint64
}

type condS struct {
	obj   obj
	queue []*ticket
}

type ticket struct {
	notified bool
	rel      obj
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) s() *condS { return shadow[condS](sch, unsafe.Pointer(c), kCond, c) }

// Wait waits for a notification.
func (c *Cond) Wait() {
	var t *ticket
	do(&Op{kind: "Cond.Wait(enter)", exec: func(op *Op) {
		x := c.s()
		sch.touch(&x.obj, 0)
		t = &ticket{}
		x.queue = append(x.queue, t)
	}})
	c.L.Unlock()
	do(&Op{kind: "Cond.Wait", enabled: func() bool { return t.notified }, exec: func(op *Op) {
		sch.touch(&c.s().obj, 0)
		t.rel.acquire(op)
	}})
	c.L.Lock()
}

func (c *Cond) notify(kind string, all bool) {
	do(&Op{kind: kind, exec: func(op *Op) {
		x := c.s()
		sch.touch(&x.obj, 0)
		for len(x.queue) > 0 {
			t := x.queue[0]
			x.queue = x.queue[1:]
			t.notified = true
			t.rel.release(op)
			if !all {
				return
			}
		}
	}})
}

// Signal wakes the longest waiter.
func (c *Cond) Signal() { _ = c._addr(); c.notify("Cond.Signal", false) }

// Broadcast wakes every waiter.
func (c *Cond) Broadcast() { _ = c._addr(); c.notify("Cond.Broadcast", true) }

func (c *Cond) _addr() uint64 { return c.x }

// ---- WaitGroup ----

// WaitGroup models sync.WaitGroup.
type WaitGroup struct{ x uint64 }

type wgS struct {
	obj obj
	n   int
	rel obj
}

func (w *WaitGroup) s() *wgS { return shadow[wgS](sch, unsafe.Pointer(w), kWG, w) }

// Add adds to the counter.
func (w *WaitGroup) Add(d int) {
	do(&Op{kind: "WaitGroup.Add", exec: func(op *Op) {
		x := w.s()
		sch.touch(&x.obj, 0)
		x.n += d
		if d < 0 {
			x.rel.release(op)
		}
		if x.n < 0 {
			op.pan = "sync: negative WaitGroup counter"
		}
	}})
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits until the counter is zero.
func (w *WaitGroup) Wait() {
	do(&Op{kind: "WaitGroup.Wait", enabled: func() bool { return w.s().n == 0 }, exec: func(op *Op) {
		x := w.s()
		sch.touch(&x.obj, 1)
		x.rel.acquire(op)
	}})
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// ---- Map ----

// Map models sync.Map; every operation is atomic.
type Map struct{ x uint64 }

type mapS struct {
	obj  obj
	keys []interface{}
	m    map[interface{}]interface{}
	rel  obj
}

func (m *Map) s() *mapS {
	x := shadow[mapS](sch, unsafe.Pointer(m), kMap, m)
	if x.m == nil {
		x.m = map[interface{}]interface{}{}
	}
	return x
}

func (m *Map) op(kind string, cls uint8, f func(x *mapS, op *Op)) *Op {
	op := &Op{kind: "Map." + kind, exec: func(op *Op) {
		x := m.s()
		sch.touch(&x.obj, cls)
		x.rel.acquire(op)
		f(x, op)
		if cls == 0 {
			x.rel.release(op)
		}
		if op.ok {
			op.extra++
		}
	}}
	do(op)
	return op
}

func (x *mapS) set(k, v interface{}) {
	if _, ok := x.m[k]; !ok {
		x.keys = append(x.keys, k)
	}
	x.m[k] = v
}

func (x *mapS) del(k interface{}) {
	if _, ok := x.m[k]; ok {
		delete(x.m, k)
		for i := range x.keys {
			if x.keys[i] == k {
				x.keys = append(append([]interface{}{}, x.keys[:i]...), x.keys[i+1:]...)
				break
			}
		}
	}
}

// Load is sync.Map.Load.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	op := m.op("Load", 1, func(x *mapS, op *Op) { op.val, op.ok = x.m[k] })
	return op.val, op.ok
}

// Store is sync.Map.Store.
func (m *Map) Store(k, v interface{}) { m.op("Store", 0, func(x *mapS, op *Op) { x.set(k, v) }) }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	op := m.op("LoadOrStore", 0, func(x *mapS, op *Op) {
		if op.val, op.ok = x.m[k]; !op.ok {
			x.set(k, v)
			op.val = v
		}
	})
	return op.val, op.ok
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	op := m.op("LoadAndDelete", 0, func(x *mapS, op *Op) {
		op.val, op.ok = x.m[k]
		x.del(k)
	})
	return op.val, op.ok
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k interface{}) { m.op("Delete", 0, func(x *mapS, op *Op) { x.del(k) }) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	op := m.op("Swap", 0, func(x *mapS, op *Op) {
		op.val, op.ok = x.m[k]
		x.set(k, v)
	})
	return op.val, op.ok
}

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	return m.op("CompareAndSwap", 0, func(x *mapS, op *Op) {
		if v, ok := x.m[k]; ok && v == o {
			x.set(k, n)
			op.ok = true
		}
	}).ok
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	return m.op("CompareAndDelete", 0, func(x *mapS, op *Op) {
		if v, ok := x.m[k]; ok && v == o {
			x.del(k)
			op.ok = true
		}
	}).ok
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v interface{}) bool) {
	op := m.op("Range", 1, func(x *mapS, op *Op) { op.val = append([]interface{}(nil), x.keys...) })
	for _, k := range op.val.([]interface{}) {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() {
	m.op("Clear", 0, func(x *mapS, op *Op) { x.m, x.keys = map[interface{}]interface{}{}, nil })
}

// ---- Pool ----

// Pool models sync.Pool: Get may return any pooled value or a new one.
type Pool struct {
	New func() interface{}
	x   uint64
}

type poolS struct {
	obj   obj
	items []interface{}
	rel   obj
}

func (p *Pool) s() *poolS { return shadow[poolS](sch, unsafe.Pointer(p), kPool, p) }

// Get is sync.Pool.Get.
func (p *Pool) Get() interface{} {
	op := &Op{kind: "Pool.Get", exec: func(op *Op) {
		x := p.s()
		sch.touch(&x.obj, 0)
		if n := len(x.items); n > 0 {
			op.val = x.items[n-1]
			x.items = append([]interface{}(nil), x.items[:n-1]...)
			op.ok = true
			op.extra = 1
			x.rel.acquire(op)
		}
	}}
	do(op)
	if !op.ok && p.New != nil {
		return p.New()
	}
	return op.val
}

// Put is sync.Pool.Put.
func (p *Pool) Put(v interface{}) {
	_ = p._addr()
	if v == nil {
		return
	}
	do(&Op{kind: "Pool.Put", exec: func(op *Op) {
		x := p.s()
		sch.touch(&x.obj, 0)
		x.items = append(x.items, v)
		x.rel.release(op)
	}})
}

func (p *Pool) _addr() uint64 { return p.x }

// ---- atomics ----

type atomS struct{ obj obj }

// Atomic is the scheduling point of an atomic operation on p; the caller
// performs the operation itself right afterwards.
func Atomic(p unsafe.Pointer, kind string, read bool) {
	cls := uint8(0)
	if read {
		cls = 1
	}
	do(&Op{kind: "atomic." + kind, exec: func(op *Op) {
		x := shadow[atomS](sch, p, kAtomic, p)
		sch.touch(&x.obj, cls)
	}})
}
