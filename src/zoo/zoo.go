// Package zoo has values of many dynamic types, of which some resemble each
// other.
package zoo

import (
	"errors"
	a "flychain/zzmc/zoo/a"
	b "flychain/zzmc/zoo/b"
	"fmt"
	"reflect"
	"time"
)

type (
	myInt       int
	myInt2      int
	myStr       string
	myInts      []int
	myMap       map[string]int
	myFunc      func()
	myChan      chan int
	pair[T any] struct{ A, B T }
	iface       interface{ M() }
	impl        struct{ n int }
	ptrImpl     struct{ n int }
	outer       struct{ impl }
)

func (impl) M()     {}
func (*ptrImpl) M() {}

func local1() (interface{}, interface{}) {
	type T struct{ A int }
	type N int
	return T{1}, N(1)
}

func local2() (interface{}, interface{}) {
	type T struct{ A int }
	type N int
	return T{2}, N(2)
}

// Values returns values of which no two have the same type.
func Values() []interface{} {
	n, m := 5, myInt(6)
	p := &n
	s1, n1 := local1()
	s2, n2 := local2()
	l := []interface{}{
		1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), uintptr(1),
		float32(1), 1.0, complex64(1), complex128(1), true, "s", time.Duration(1), time.Unix(1, 0), time.March,
		myInt(1), myInt2(1), myStr("s"), myInts{1}, myMap{"a": 1}, myFunc(func() {}), myChan(make(chan int)),
		[]int{1}, []int64{1}, []myInt{1}, []byte{1}, [1]int{1}, [2]int{1, 2}, [0]int{}, [][]int{{1}}, []interface{}{1}, []string{"a"},
		map[string]int{"a": 1}, map[string]int64{"a": 1}, map[int]string{1: "a"}, map[myStr]int{"a": 1},
		p, &p, &m, new(string), new(interface{}), new(error),
		struct{}{}, struct{ A int }{1}, struct {
			A int `json:"a"`
		}{1}, struct{ B int }{1}, struct{ A, B int }{1, 2}, struct{ a int }{1},
		func() {}, func(int) {}, func() int { return 1 },
		make(chan int), (<-chan int)(make(chan int)), (chan<- int)(make(chan int)), make(chan struct{}), make(chan interface{}),
		impl{1}, &impl{1}, &ptrImpl{1}, outer{}, &outer{},
		pair[int]{1, 2}, pair[string]{"a", "b"}, pair[myInt]{1, 2}, &pair[int]{1, 2},
		errors.New("e"), fmt.Errorf("w: %w", errors.New("e")),
		s1, s2, n1, n2,
		a.T{A: 1}, b.T{A: 1}, &a.T{A: 1}, &b.T{A: 1}, a.N(1), b.N(1), []a.T{{A: 1}}, []b.T{{A: 1}},
		reflect.TypeOf(0), reflect.ValueOf(0),
	}
	seen := map[reflect.Type]bool{}
	for _, v := range l {
		if t := reflect.TypeOf(v); seen[t] {
			panic(fmt.Sprint("type ", t, " twice"))
		} else {
			seen[t] = true
		}
	}
	return l
}

// Same reports whether the values are the same.
func Same(x, y interface{}) bool {
	if reflect.TypeOf(x) != reflect.TypeOf(y) {
		return false
	}
	if x == nil {
		return true
	}
	switch reflect.TypeOf(x).Kind() {
	case reflect.Func, reflect.Chan, reflect.Ptr:
		return reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer()
	}
	return reflect.DeepEqual(x, y)
}
