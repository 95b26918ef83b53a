package mc

import (
	"fmt"
	"reflect"
	"sort"
)

// Choose explores every value in [0, n).
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	op := &Op{kind: fmt.Sprintf("choose(%d)", n), free: true, local: always}
	op.exec = func(op *Op) {
		op.idx = sch.choose(n)
		op.extra = uint64(op.idx) + 1
	}
	do(op)
	return op.idx
}

// StampCall marks the beginning of a call in the history and returns the
// epoch: calls of one epoch have no return between them.
func StampCall() int { return stamp("call", 1) }

// StampRet marks the end of a call. A call that starts in a later epoch than
// another call's end began after it.
func StampRet() int { return stamp("ret", 2) }

func stamp(kind string, cls uint8) int {
	op := &Op{kind: kind, free: false}
	op.exec = func(op *Op) {
		s := sch
		s.touch(&s.hist, cls)
		if s.histCls != cls {
			s.histCls = cls
			s.histEp++
		}
		op.idx = s.histEp
		op.extra = uint64(op.idx)
	}
	do(op)
	return op.idx
}

// Point is a scheduling point that conflicts with nothing.
func Point() { do(&Op{kind: "point", local: always}) }

// K registers a map key so that iteration orders are reproducible.
func K[T any](k T) T {
	if cur != nil {
		var x interface{} = k
		sch.registerKey(x)
	}
	return k
}

// keyNode is a registration that the scheduler has not taken over yet.
type keyNode struct {
	x    interface{}
	next *keyNode
}

// registerKey runs on the thread side: only one thread runs at any time.
func (s *sched) registerKey(x interface{}) {
	n := &keyNode{x: x}
	if s.keyTl == nil {
		s.keyHd = n
	} else {
		s.keyTl.next = n
	}
	s.keyTl = n
}

// drainKeys runs on the scheduler side.
func (s *sched) drainKeys() {
	for n := s.keyHd; n != nil; n = n.next {
		s.drainKey(n.x)
	}
	s.keyHd, s.keyTl = nil, nil
}

func (s *sched) drainKey(x interface{}) {
	defer func() { recover() }() // unhashable: the map operation panics itself
	if _, ok := s.keyReg[x]; !ok {
		s.keyReg[x] = len(s.keyReg)
	}
}

type mapIter[Key comparable, Val any] struct {
	m    map[Key]Val
	keys []Key
	i    int
}

// MapIter is the range clause over a map: every order of up to 4 keys is
// explored, and the insertion order and its reverse beyond that.
func MapIter[M ~map[Key]Val, Key comparable, Val any](m M) *mapIter[Key, Val] {
	it := &mapIter[Key, Val]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if cur == nil || len(it.keys) < 2 {
		return it
	}
	xs := make([]interface{}, len(it.keys))
	for i := range it.keys {
		xs[i] = it.keys[i]
	}
	perm := iterOrder(xs)
	ks := make([]Key, len(it.keys))
	for i, p := range perm {
		ks[i] = it.keys[p]
	}
	it.keys = ks
	return it
}

// MapIterFixed iterates in one fixed order; harnesses use it.
func MapIterFixed[M ~map[Key]Val, Key comparable, Val any](m M) *mapIter[Key, Val] {
	it := &mapIter[Key, Val]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return fmt.Sprint(it.keys[i]) < fmt.Sprint(it.keys[j]) })
	return it
}

func (it *mapIter[Key, Val]) ZeroK() (k Key) { return }
func (it *mapIter[Key, Val]) ZeroV() (v Val) { return }

// Next advances to the next key that is still in the map.
func (it *mapIter[Key, Val]) Next(k *Key, v *Val) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		x, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = x
		}
		return true
	}
	return false
}

// iterOrder picks an iteration order for the keys.
func iterOrder(xs []interface{}) []int {
	op := &Op{kind: "maprange", free: true, local: always}
	var perm []int
	op.exec = func(op *Op) {
		s := sch
		perm = make([]int, len(xs))
		rank := make([]string, len(xs))
		for i, x := range xs {
			perm[i] = i
			if n, ok := s.keyReg[x]; ok {
				rank[i] = fmt.Sprintf("a%09d", n)
			} else {
				switch v := reflect.ValueOf(x); v.Kind() {
				case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
					rank[i] = fmt.Sprintf("b%020d", uint64(v.Int())+1<<63)
				case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
					rank[i] = fmt.Sprintf("b%020d", v.Uint())
				case reflect.String:
					rank[i] = "c" + v.String()
				default:
					rank[i] = "d"
				}
			}
		}
		sort.SliceStable(perm, func(i, j int) bool { return rank[perm[i]] < rank[perm[j]] })
		n := len(perm)
		if s.straight() {
			return
		}
		if n > 4 {
			if s.choose(2) == 1 {
				op.extra = 1
				for i := 0; i < n/2; i++ {
					perm[i], perm[n-1-i] = perm[n-1-i], perm[i]
				}
			}
			return
		}
		for i := 0; i < n-1; i++ {
			j := i + s.choose(n-i)
			op.extra = op.extra*5 + uint64(j-i)
			p := perm[j]
			copy(perm[i+1:j+1], perm[i:j])
			perm[i] = p
		}
		op.extra++
	}
	do(op)
	out := make([]int, len(perm)) // memory of this thread, for the race pass
	for i := range perm {
		out[i] = perm[i]
	}
	return out
}
