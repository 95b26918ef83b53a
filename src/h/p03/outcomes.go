package main

import (
	"context"
	"errors"
	"flychain/zzmc/enum"
	"flychain/zzslice/rpc"
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
)

// ---- results, errors and panics of every kind ----

type emptyError struct{}

func (emptyError) Error() string { return "" }

type ptrError struct{ n int }

func (e *ptrError) Error() string {
	if e == nil {
		return "nil"
	}
	return fmt.Sprint("ptr", e.n)
}

type codeError struct{ code int }

func (e codeError) Error() string  { return fmt.Sprint("code", e.code) }
func (e codeError) ErrorCode() int { return e.code }

type sliceError []string

func (e sliceError) Error() string { return fmt.Sprint([]string(e)) }

type badString struct{}

func (badString) String() string { panic("String panics") }

type outcome struct {
	any interface{}
	m   map[string]int
	l   []int
	p   *int
	s   string
	b   bool
	f   float64
	st  struct{ A, B int }
	err error
	pan interface{}
}

func (o *outcome) end() error {
	if o.pan != nil {
		panic(o.pan)
	}
	return o.err
}

func (o *outcome) Any() (interface{}, error)               { return o.any, o.end() }
func (o *outcome) Map() (map[string]int, error)            { return o.m, o.end() }
func (o *outcome) List() ([]int, error)                    { return o.l, o.end() }
func (o *outcome) Ptr() (*int, error)                      { return o.p, o.end() }
func (o *outcome) Str() (string, error)                    { return o.s, o.end() }
func (o *outcome) Bool() (bool, error)                     { return o.b, o.end() }
func (o *outcome) Float() (float64, error)                 { return o.f, o.end() }
func (o *outcome) Struct() (struct{ A, B int }, error)     { return o.st, o.end() }
func (o *outcome) Only() error                             { return o.end() }
func (o *outcome) OnlyAny() interface{}                    { o.end(); return o.any }
func (o *outcome) OnlyMap() map[string]int                 { o.end(); return o.m }
func (o *outcome) WithContext(ctx context.Context) error   { return o.end() }
func (o *outcome) Nothing()                                { o.end() }
func (o *outcome) Echo(a interface{}) (interface{}, error) { return a, o.end() }

func outcomes(c *enum.C) {
	n, z := 5, 0
	values := []interface{}{nil, 0, -1, "", "x", false, true, 0.0, 1.5, []int(nil), []int{}, []int{1}, map[string]int(nil), map[string]int{}, map[string]int{"a": 1}, (*int)(nil), &n, &z, struct{}{}, struct{ A, B int }{1, 2}, [0]int{}, [1]int{}, errors.New("as a result"), emptyError{}, (*ptrError)(nil), rpc.ID(""), (*rpc.Subscription)(nil)}
	errs := []error{nil, errors.New("e"), errors.New(""), emptyError{}, (*ptrError)(nil), &ptrError{1}, codeError{0}, codeError{7}, codeError{-32603}, sliceError{"a"}, sliceError(nil), io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, http.ErrAbortHandler, os.ErrNotExist, fmt.Errorf("w: %w", codeError{7}), rpc.ErrClientQuit, rpc.ErrSubscriptionNotFound}
	panics := []interface{}{"p", "", 0, 1, false, 1.5, errors.New("e"), emptyError{}, (*ptrError)(nil), codeError{7}, sliceError{"a"}, io.EOF, context.Canceled, http.ErrAbortHandler, []int{1}, map[string]int{}, func() {}, badString{}, rpc.ErrClientQuit, struct{}{}}
	o := new(outcome)
	reg := rpc.NewRegistry()
	if err := reg.Register("s", o); err != nil {
		c.Failf("registering: %v", err)
	}
	c.Bound("14 methods with %d results, %d errors and %d panic values", len(values), len(errs), len(panics))
	reset := func() {
		*o = outcome{}
	}
	call := func(name string, a ...interface{}) (interface{}, error) {
		c.Step(1)
		cb := reg.Callback("s_" + name)
		c.Check(cb != nil, "%s is not found", name)
		return cb.Call(context.Background(), "s_"+name, a...)
	}
	methods := []string{"any", "map", "list", "ptr", "str", "bool", "float", "struct", "only", "onlyAny", "onlyMap", "withContext", "nothing", "echo"}
	args := func(m string, v interface{}) []interface{} {
		if m == "echo" {
			return []interface{}{v}
		}
		return nil
	}
	for i, v := range values {
		v := v
		c.Case(func() {
			reset()
			o.any = v
			for _, m := range []string{"any", "onlyAny", "echo"} {
				res, err := call(m, args(m, v)...)
				c.Check(err == nil && reflect.DeepEqual(res, v) && reflect.TypeOf(res) == reflect.TypeOf(v), "%s of %#v returns %#v, %v", m, v, res, err)
			}
		}, "result %d %T", i, v)
	}
	typed := func(name, m string, set func(), want interface{}) {
		c.Case(func() {
			reset()
			set()
			res, err := call(m)
			c.Check(err == nil && reflect.DeepEqual(res, want) && reflect.TypeOf(res) == reflect.TypeOf(want), "%s returns %#v, %v, want %#v", m, res, err, want)
		}, "%s of %s", name, m)
	}
	for _, m := range []string{"map", "onlyMap"} {
		typed("nil", m, func() {}, map[string]int(nil))
		typed("empty", m, func() { o.m = map[string]int{} }, map[string]int{})
		typed("one", m, func() { o.m = map[string]int{"a": 1} }, map[string]int{"a": 1})
	}
	typed("nil", "list", func() {}, []int(nil))
	typed("empty", "list", func() { o.l = []int{} }, []int{})
	typed("one", "list", func() { o.l = []int{0} }, []int{0})
	typed("nil", "ptr", func() {}, (*int)(nil))
	typed("zero", "ptr", func() { o.p = &z }, &z)
	typed("empty", "str", func() {}, "")
	typed("some", "str", func() { o.s = "s" }, "s")
	typed("false", "bool", func() {}, false)
	typed("true", "bool", func() { o.b = true }, true)
	typed("zero", "float", func() {}, 0.0)
	typed("some", "float", func() { o.f = 2.5 }, 2.5)
	typed("zero", "struct", func() {}, struct{ A, B int }{})
	typed("some", "struct", func() { o.st.A = 2 }, struct{ A, B int }{2, 0})
	for i, e := range errs {
		e := e
		for _, m := range methods {
			m := m
			if m == "onlyAny" || m == "onlyMap" || m == "nothing" {
				continue
			}
			c.Case(func() {
				reset()
				o.err, o.any, o.s = e, 42, "s"
				_, err := call(m, args(m, 42)...)
				c.Check(reflect.DeepEqual(err, e) && reflect.TypeOf(err) == reflect.TypeOf(e), "%s fails with %#v, want %#v", m, err, e)
				c.State(m, i)
			}, "error %d %T of %s", i, e, m)
		}
	}
	for i, p := range panics {
		p := p
		for _, m := range methods {
			m := m
			c.Case(func() {
				reset()
				o.pan, o.err = p, io.EOF
				res, err := call(m, args(m, 42)...)
				e, ok := err.(rpc.Error)
				c.Check(ok && e.ErrorCode() == -32603 && res == nil, "%s panics with a %T and gives %v, %v", m, p, res, err)
				// the next call is not affected
				reset()
				o.any = 42
				_, err = call(m, args(m, 42)...)
				c.Check(err == nil, "after a panic, %s fails with %v", m, err)
			}, "panic %d %T in %s", i, p, m)
		}
	}
}

// ---- names ----

type names struct{}

func (names) X() string           { return "X" }
func (names) XY() string          { return "XY" }
func (names) Xy() string          { return "Xy" }
func (names) ID() string          { return "ID" }
func (names) URLs() string        { return "URLs" }
func (names) GetX() string        { return "GetX" }
func (names) SetX() string        { return "SetX" }
func (names) IsX() string         { return "IsX" }
func (names) XAsync() string      { return "XAsync" }
func (names) XError() string      { return "XError" }
func (names) Subscribe() string   { return "Subscribe" }
func (names) Unsubscribe() string { return "Unsubscribe" }
func (names) X_subscribe() string { return "X_subscribe" }
func (names) X_() string          { return "X_" }
func (names) X__y() string        { return "X__y" }
func (names) X_Y() string         { return "X_Y" }
func (names) X1() string          { return "X1" }
func (names) String() string      { return "String" }
func (names) Close() string       { return "Close" }
func (names) Éa() string          { return "Éa" }
func (names) Σ() string           { return "Σ" }
func (names) Ⱥb() string          { return "Ⱥb" }
func (names) ΓΔ() string          { return "ΓΔ" }
func (names) Eth_Call() string    { return "Eth_Call" }
func (names) RPC() string         { return "RPC" }
func (names) Modules() string     { return "Modules" }
func (names) Zz() string          { return "Zz" }

func nameSection(c *enum.C) {
	want := map[string]string{
		"x": "X", "xY": "XY", "xy": "Xy", "iD": "ID", "uRLs": "URLs", "getX": "GetX", "setX": "SetX", "isX": "IsX", "xAsync": "XAsync", "xError": "XError",
		"subscribe": "Subscribe", "unsubscribe": "Unsubscribe", "x_subscribe": "X_subscribe", "x_": "X_", "x__y": "X__y", "x_Y": "X_Y", "x1": "X1",
		"string": "String", "close": "Close", "éa": "Éa", "σ": "Σ", "ⱥb": "Ⱥb", "γΔ": "ΓΔ", "eth_Call": "Eth_Call", "rPC": "RPC", "modules": "Modules", "zz": "Zz",
	}
	near := []string{"", "_", "_x", "X", "Xy", "XY", "Id", "id", "ID", "urls", "uRLS", "getx", "xasync", "xerror", "xx", "x_y", "x___y", "éA", "Éa", "Σ", "ς", "eth_call", "eth", "call", "Call", "rpc", "modules_", "zZ", "zzz", "z", "x.", "x ", " x"}
	c.Bound("%d method names in 5 services, %d names close to them", len(want), len(near))
	for _, svc := range []string{"s", "rpc", "S", "s.t", "é"} {
		svc := svc
		c.Case(func() {
			reg := rpc.NewRegistry()
			c.Check(reg.Register(svc, names{}) == nil, "registering fails")
			for k, v := range want {
				cb := reg.Callback(svc + "_" + k)
				c.Step(1)
				c.Check(cb != nil, "%s_%s is not found", svc, k)
				c.Check(!cb.IsSubscribe() && run(c, cb) == v, "%s_%s calls %s, want %s", svc, k, run(c, cb), v)
				c.Check(reg.Subscription(svc, k) == nil, "%s is a subscription", k)
				c.State(svc, k)
			}
			for _, k := range near {
				if _, is := want[k]; !is {
					c.Check(reg.Callback(svc+"_"+k) == nil, "%s_%s is found", svc, k)
				}
			}
			for _, m := range []string{svc, svc + "x", "x" + svc + "_x", svc + ".x", svc + "-x", svc + "/x", svc + " _x", " " + svc + "_x"} {
				c.Check(reg.Callback(m) == nil, "%q is found", m)
			}
		}, "%s", svc)
	}
}
