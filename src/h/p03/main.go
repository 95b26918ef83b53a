// P03: registered services expose and call exactly the suitable methods.
package main

import (
	"context"
	"errors"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"flychain/zzslice/rpc"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// shape describes a generated method: its parameter and result shape, whether
// its first parameter is a context, the types of the others, whether it can be
// exposed, whether as a subscription, and which result is its error.
type shape struct {
	name   string
	p, r   int
	ctx    bool
	types  []string
	ok     bool
	sub    bool
	errPos int
}

type error2 interface {
	error
	Code() int
}

type err2 struct{}

func (err2) Error() string { return "err2" }
func (err2) Code() int     { return 3 }

var (
	mode   string
	noted  []interface{}
	theErr = errors.New("the error")
	theSub = &rpc.Subscription{ID: "0x9"}
	boxed  = interface{}("boxed")
)

func note(args ...interface{}) {
	noted = append(noted, args...)
	if mode == "panic" {
		panic("boom")
	}
	if mode == "panicerr" {
		panic(theErr)
	}
	if mode == "nilderef" {
		var p *int
		*p = 1
	}
}

func fail() error {
	if mode == "fail" {
		return theErr
	}
	return nil
}

func fail2() error2 {
	if mode == "fail" {
		return err2{}
	}
	return nil
}

type ctxKey struct{}

func lower(n string) string { return strings.ToLower(n[:1]) + n[1:] }

func args(s shape, k int) []interface{} {
	var l []interface{}
	x := k * 7
	for _, t := range s.types {
		switch t {
		case "int":
			l = append(l, x)
		case "string":
			l = append(l, fmt.Sprint("s", k))
		case "*int":
			if k == 0 {
				l = append(l, (*int)(nil))
			} else {
				l = append(l, &x)
			}
		case "[]string":
			l = append(l, []string{"a", fmt.Sprint(k)})
		case "context.Context":
			l = append(l, context.WithValue(context.Background(), ctxKey{}, "other"))
		}
	}
	return l
}

// ---- receivers for the histories ----

type r1 struct{ tag string }

func (r *r1) X() string       { return r.tag + ".X" }
func (r *r1) Y(a int) string  { return fmt.Sprint(r.tag, ".Y", a) }
func (r *r1) hidden() string  { return "" }
func (r *r1) Bad() (int, int) { return 0, 0 }

type r2 struct{ tag string }

func (r *r2) Y(a int) string { return fmt.Sprint(r.tag, ".Y", a) }
func (r *r2) Z(ctx context.Context) (*rpc.Subscription, error) {
	return &rpc.Subscription{ID: rpc.ID(r.tag + ".Z")}, nil
}
func (r *r2) X_b() string { return r.tag + ".X_b" }

type r3 struct{ tag string }

func (r *r3) Bad() (int, int)         { return 0, 0 }
func (r *r3) Bad2() (error, string)   { return nil, "" }
func (r *r3) hidden() (string, error) { return "", nil }

type r4 struct{ tag string }

func (r *r4) X(ctx context.Context) (*rpc.Subscription, error) {
	return &rpc.Subscription{ID: rpc.ID(r.tag + ".X")}, nil
}

type value struct{}

func (value) Val() string   { return "Val" }
func (*value) Ptr() string  { return "Ptr" }
func (value) ABC() string   { return "ABC" }
func (value) Ärger() string { return "Ärger" }
func (value) A_b() string   { return "A_b" }
func (value) unexp() string { return "" }

type embeds struct{ value }

func (embeds) Own() string { return "Own" }

type embedsPtr struct{ *value }

type fn func()

func (f fn) Fun() string { return "Fun" }

// big has methods with many parameters and long names.
type big struct{ tag string }

func (b big) Args(a0, a1 int, a2 string, a3 *int, a4 int, a5 string, a6 []string, a7, a8, a9 int, a10 string, a11 int, a12 *int, a13 bool, a14, a15 int, a16 string, a17, a18, a19 int) (string, error) {
	return fmt.Sprint(b.tag, a0, a1, a2, *a3, a4, a5, a6, a7, a8, a9, a10, a11, *a12, a13, a14, a15, a16, a17, a18, a19), nil
}
func (b big) ArgsContext(ctx context.Context, a0, a1 int, a2 string, a3 *int, a4 int, a5 string, a6 []string, a7, a8, a9 int, a10 string, a11 int, a12 *int, a13 bool, a14, a15 int, a16 string, a17, a18, a19 int) (string, error) {
	return fmt.Sprint(b.tag, a0, a1, a2, *a3, a4, a5, a6, a7, a8, a9, a10, a11, *a12, a13, a14, a15, a16, a17, a18, a19, ctx.Value(ctxKey{})), nil
}
func (b big) AMethodWithAName_OfMoreThanThirtyTwoLettersAndLessThanSixtyFour() string {
	return b.tag + "long"
}
func (b big) AMethodWithANameOfMoreThanOneHundredAndTwentyEightLettersWhichIsWhatGoesOnForQuiteSomeTimeUntilAtLastItEndsHereOrSomewhatLaterButNotAnyEarlier() string {
	return b.tag + "longer"
}
func (b big) AMethodWithANameOfMoreThanOneHundredAndTwentyEightLettersWhichIsWhatGoesOnForQuiteSomeTimeUntilAtLastItEndsHereOrSomewhatLaterButNotAnySooner(ctx context.Context) (*rpc.Subscription, error) {
	return &rpc.Subscription{ID: rpc.ID(b.tag + "longest")}, nil
}

// bigs checks the service big is registered as.
func bigs(c *enum.C, reg rpc.Registry, name, tag string) {
	x, y := 3, 4
	a := []interface{}{0, 1, "two", &x, 4, "five", []string{"six"}, 7, 8, 9, "ten", 11, &y, true, 14, 15, "sixteen", 17, 18, 19}
	want := fmt.Sprint(tag, 0, 1, "two", 3, 4, "five", []string{"six"}, 7, 8, 9, "ten", 11, 4, true, 14, 15, "sixteen", 17, 18, 19)
	for i, n := range []string{"args", "argsContext", "aMethodWithAName_OfMoreThanThirtyTwoLettersAndLessThanSixtyFour", "aMethodWithANameOfMoreThanOneHundredAndTwentyEightLettersWhichIsWhatGoesOnForQuiteSomeTimeUntilAtLastItEndsHereOrSomewhatLaterButNotAnyEarlier"} {
		c.Step(1)
		cb := reg.Callback(name + "_" + n)
		c.Check(cb != nil, "%.200s of %.200q is not found", n, name)
		switch i {
		case 0, 1:
			c.Check(len(cb.ArgTypes()) == len(a), "%s has %d arguments", n, len(cb.ArgTypes()))
			for k, t := range cb.ArgTypes() {
				c.Check(t == reflect.TypeOf(a[k]), "argument %d of %s is %v", k, n, t)
			}
			w := want
			if i == 1 {
				w = fmt.Sprint(tag, 0, 1, "two", 3, 4, "five", []string{"six"}, 7, 8, 9, "ten", 11, 4, true, 14, 15, "sixteen", 17, 18, 19, "v")
			}
			res, err := cb.Call(context.WithValue(context.Background(), ctxKey{}, "v"), name+"_"+n, a...)
			c.Check(err == nil && res == w, "%s answers %v, %v, want %s", n, res, err, w)
		case 2:
			c.Check(run(c, cb) == tag+"long", "%s answers %s", n, run(c, cb))
		case 3:
			c.Check(run(c, cb) == tag+"longer", "%s answers %s", n, run(c, cb))
		}
		c.Check(reg.Callback(name+"_"+n[:len(n)-1]) == nil && reg.Callback(name+"_"+n+"x") == nil, "a name close to %s of %q is found", n, name)
	}
	n := "aMethodWithANameOfMoreThanOneHundredAndTwentyEightLettersWhichIsWhatGoesOnForQuiteSomeTimeUntilAtLastItEndsHereOrSomewhatLaterButNotAnySooner"
	cb := reg.Subscription(name, n)
	c.Check(cb != nil && run(c, cb) == tag+"longest", "subscription %s of %q is wrong", n, name)
	c.Check(reg.Subscription(name, n[:len(n)-1]) == nil && reg.Callback(name+"_"+n) == nil && reg.Subscription(name, "args") == nil, "a name close to %s of %q is found", n, name)
}

func large(c *enum.C) {
	dense, max := c.Pick(12, 40), c.Pick(520, 4100)
	c.Bound("0..%d and more, up to %d services with names of as many letters, and as many registrations under one name; methods with 20 parameters and names of up to 145 letters", dense, max)
	ref.Sizes(dense, max, func(n int) {
		c.Case(func() {
			srv := rpc.NewServer()
			reg := rpc.ServerRegistry(srv)
			name := func(i int) string { return fmt.Sprint(strings.Repeat("s", i%40), i) }
			for i := 0; i < n; i++ {
				c.Check(srv.RegisterName(name(i), big{fmt.Sprint("t", i)}) == nil, "registering the service %d fails", i)
				c.State(n)
				bigs(c, reg, name(i), fmt.Sprint("t", i))
			}
			for i := 0; i < n; i++ {
				bigs(c, reg, name(i), fmt.Sprint("t", i))
			}
			c.Check(reg.Callback(name(n)+"_args") == nil, "the service %d is found", n)
			c.Check(len(rpc.ServerModules(srv)) == n+1, "%d modules, want %d", len(rpc.ServerModules(srv)), n+1)
		}, "%d services", n)
		c.Case(func() {
			reg := rpc.NewRegistry()
			for i := 0; i < n; i++ {
				var r interface{} = big{fmt.Sprint("t", i)}
				if i%3 == 1 {
					r = &r1{fmt.Sprint("t", i)}
				}
				c.Check(reg.Register("s", r) == nil, "registration %d fails", i)
				c.Step(1)
				if i%3 != 1 {
					bigs(c, reg, "s", fmt.Sprint("t", i))
				} else {
					bigs(c, reg, "s", fmt.Sprint("t", i-1))
					c.Check(run(c, reg.Callback("s_x")) == fmt.Sprint("t", i, ".X"), "registration %d is not seen", i)
				}
			}
		}, "%d registrations of one name", n)
		if n > 0 {
			c.Case(func() {
				reg := rpc.NewRegistry()
				s := strings.Repeat("é", n-1) + "x"
				c.Check(reg.Register(s, big{"t"}) == nil, "registering fails")
				bigs(c, reg, s, "t")
				c.Check(reg.Callback(s[:len(s)-1]+"_args") == nil && reg.Callback(s+"x_args") == nil && reg.Callback("x"+s+"_args") == nil, "a service of a name close to it is found")
			}, "a name of %d letters", n)
		}
	})
}

func run(c *enum.C, cb *rpc.Callback, a ...interface{}) string {
	res, err := cb.Call(context.Background(), "m", a...)
	c.Check(err == nil, "call fails: %v", err)
	if s, ok := res.(*rpc.Subscription); ok {
		return string(s.ID)
	}
	return fmt.Sprint(res)
}

type entry struct {
	tag string
	sub bool
}

func history(c *enum.C, ops []int) {
	names := []string{"a", "b", "a_b", ""}
	// service -> callbacks, subscriptions -> answer
	cbs, subs := map[string]map[string]string{}, map[string]map[string]string{}
	srv := rpc.NewServer()
	for i, op := range ops {
		c.Step(1)
		name, kind := names[op%4], op/4
		tag := fmt.Sprint("t", i)
		var rcvr interface{}
		m, s := map[string]string{}, map[string]string{}
		switch kind {
		case 0:
			rcvr = &r1{tag}
			m["x"], m["y"] = tag+".X", tag+".Y5"
		case 1:
			rcvr = &r2{tag}
			m["y"], m["x_b"] = tag+".Y5", tag+".X_b"
			s["z"] = tag + ".Z"
		case 2:
			rcvr = &r3{tag}
		case 3:
			rcvr = &r4{tag}
			s["x"] = tag + ".X"
		}
		err := srv.RegisterName(name, rcvr)
		ok := name != "" && kind != 2
		c.Check((err == nil) == ok, "step %d: registering %T as %q: %v", i, rcvr, name, err)
		if ok {
			if cbs[name] == nil {
				cbs[name], subs[name] = map[string]string{}, map[string]string{}
			}
			for k, v := range m {
				cbs[name][k] = v
			}
			for k, v := range s {
				subs[name][k] = v
			}
		}
		reg := rpc.ServerRegistry(srv)
		var state []string
		for _, sn := range []string{"a", "b", "a_b", "", "c"} {
			for _, mn := range []string{"x", "y", "z", "b_x", "x_b", "X", "", "bad", "hidden", "_x"} {
				method := sn + "_" + mn
				es, em := method[:strings.Index(method, "_")], method[strings.Index(method, "_")+1:]
				want, found := cbs[es][em]
				cb := reg.Callback(method)
				c.Check((cb != nil) == found, "step %d: method %q found: %v, want %v", i, method, cb != nil, found)
				if cb != nil {
					c.Check(!cb.IsSubscribe(), "%q is a subscription", method)
					var a []interface{}
					if em == "y" {
						a = append(a, 5)
					}
					c.Check(run(c, cb, a...) == want, "step %d: %q answers %s, want %s", i, method, run(c, cb, a...), want)
				}
				want, found = subs[sn][mn]
				cb = reg.Subscription(sn, mn)
				c.Check((cb != nil) == found, "step %d: subscription %q of %q found: %v, want %v", i, mn, sn, cb != nil, found)
				if cb != nil {
					c.Check(cb.IsSubscribe(), "%q is no subscription", mn)
					c.Check(run(c, cb) == want, "step %d: subscription %q of %q answers %s, want %s", i, mn, sn, run(c, cb), want)
				}
			}
			if cbs[sn] != nil {
				state = append(state, fmt.Sprint(sn, cbs[sn], subs[sn]))
			}
		}
		c.Check(reg.Callback("x") == nil && reg.Callback("") == nil, "a method without a service is found")
		var want, got []string
		for n := range cbs {
			want = append(want, n)
		}
		want = append(want, "rpc")
		for n, v := range rpc.ServerModules(srv) {
			got = append(got, n)
			c.Check(v == "1.0", "module %s has version %s", n, v)
		}
		sort.Strings(want)
		sort.Strings(got)
		c.Check(reflect.DeepEqual(got, want), "step %d: modules %v, want %v", i, got, want)
		cb := reg.Callback("rpc_modules")
		c.Check(cb != nil, "rpc_modules is missing")
		res, err := cb.Call(context.Background(), "rpc_modules")
		mods, _ := res.(map[string]string)
		c.Check(err == nil && len(mods) == len(want), "rpc_modules = %v, %v", res, err)
		c.State(state)
	}
}

func exposed(c *enum.C, rcvr interface{}, want ...string) {
	c.Step(1)
	reg := rpc.NewRegistry()
	err := reg.Register("s", rcvr)
	c.Check((err == nil) == (len(want) > 0), "registering: %v", err)
	all := []string{"Val", "Ptr", "ABC", "Ärger", "A_b", "Own", "Fun", "unexp", "hidden"}
	for _, n := range all {
		r := []rune(n)
		n2 := strings.ToLower(string(r[0])) + string(r[1:])
		cb := reg.Callback("s_" + n2)
		in := false
		for _, w := range want {
			in = in || w == n
		}
		c.State(n, in)
		c.Check((cb != nil) == in, "method %s exposed: %v, want %v", n, cb != nil, in)
		if in {
			c.Check(run(c, cb) == n, "%s answers %s", n, run(c, cb))
		}
		if n2 != n {
			c.Check(reg.Callback("s_"+n) == nil, "%s is found with a capital letter", n)
		}
	}
}

func main() {
	enum.Main(
		enum.Section{Name: "shapes", Run: func(c *enum.C) {
			c.Bound("%d method signatures, %d outcomes, 3 argument lists", len(shapes), 5)
			reg := rpc.NewRegistry()
			if err := reg.Register("s", all{}); err != nil {
				c.Failf("registering: %v", err)
			}
			for _, s := range shapes {
				s := s
				c.Case(func() {
					c.Step(2)
					cb := reg.Callback("s_" + lower(s.name))
					sub := reg.Subscription("s", lower(s.name))
					c.Check((cb != nil) == (s.ok && !s.sub), "found as method: %v, suitable: %v, subscription: %v", cb != nil, s.ok, s.sub)
					c.Check((sub != nil) == (s.ok && s.sub), "found as subscription: %v, suitable: %v, subscription: %v", sub != nil, s.ok, s.sub)
					c.State(s.ok, s.sub, s.ctx, len(s.types))
					if !s.ok {
						return
					}
					if cb == nil {
						cb = sub
					}
					c.Check(cb.IsSubscribe() == s.sub, "IsSubscribe = %v", cb.IsSubscribe())
					var types []string
					for _, t := range cb.ArgTypes() {
						types = append(types, t.String())
					}
					c.Check(fmt.Sprint(types) == fmt.Sprint(s.types), "argument types %v, want %v", types, s.types)
				}, "%s", s.name)
				if !s.ok {
					continue
				}
				for _, md := range []string{"", "fail", "panic", "panicerr", "nilderef"} {
					for k := 0; k < 3; k++ {
						md, k := md, k
						c.Case(func() {
							c.Step(1)
							cb := reg.Callback("s_" + lower(s.name))
							if cb == nil {
								cb = reg.Subscription("s", lower(s.name))
							}
							ctx := context.WithValue(context.Background(), ctxKey{}, k)
							a := args(s, k)
							mode, noted = md, nil
							res, err := cb.Call(ctx, "s_m", a...)
							mode = ""
							want := []interface{}{s.name}
							if s.ctx {
								want = append(want, ctx)
							}
							want = append(want, a...)
							c.State(s.r, md, err == nil)
							c.Check(reflect.DeepEqual(noted, want), "the method was called with %v, want %v", noted, want)
							if md == "panic" || md == "panicerr" || md == "nilderef" {
								e, ok := err.(rpc.Error)
								c.Check(ok && e.ErrorCode() == -32603, "a panic gives %v", err)
								return
							}
							if md == "fail" && s.errPos >= 0 {
								c.Check(err != nil && (err == theErr || err == error(err2{})), "error %v", err)
								return
							}
							c.Check(err == nil, "error %v", err)
							switch s.r {
							case 0, 2, 14:
								c.Check(res == nil, "result %v, want none", res)
							case 1, 3, 10:
								c.Check(res == 42, "result %v, want 42", res)
							case 8:
								c.Check(res == theSub, "result %v", res)
							case 9:
								c.Check(reflect.DeepEqual(res, rpc.Subscription{ID: "0x7"}), "result %v", res)
							case 11:
								c.Check(res == boxed, "result %v", res)
							case 13:
								c.Check(reflect.DeepEqual(res, []string{"q"}), "result %v", res)
							}
						}, "%s, outcome %q, arguments %d", s.name, md, k)
					}
				}
			}
		}},
		enum.Section{Name: "large", Run: large},
		enum.Section{Name: "outcomes", Run: outcomes},
		enum.Section{Name: "names", Run: nameSection},
		enum.Section{Name: "receivers", Run: func(c *enum.C) {
			c.Bound("value, pointer, embedding, function and empty receivers")
			v := value{}
			for _, x := range []struct {
				r interface{}
				w []string
			}{
				{v, []string{"Val", "ABC", "Ärger", "A_b"}},
				{&v, []string{"Val", "Ptr", "ABC", "Ärger", "A_b"}},
				{embeds{}, []string{"Val", "ABC", "Ärger", "A_b", "Own"}},
				{&embeds{}, []string{"Val", "Ptr", "ABC", "Ärger", "A_b", "Own"}},
				{embedsPtr{&v}, []string{"Val", "Ptr", "ABC", "Ärger", "A_b"}},
				{fn(func() {}), []string{"Fun"}},
				{struct{}{}, nil},
				{&struct{ X int }{}, nil},
				{5, nil},
				{"x", nil},
			} {
				x := x
				c.Case(func() { exposed(c, x.r, x.w...) }, "%T", x.r)
			}
		}},
		enum.Section{Name: "histories", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(3, 4)
			c.Bound("every sequence of %d registrations of 4 receivers under 4 names", n)
			ops := make([]int, n)
			var rec func(i int)
			rec = func(i int) {
				if i == n {
					if c.Mine() {
						o := append([]int{}, ops...)
						c.Case(func() { history(c, o) }, "%v", o)
					}
					return
				}
				for k := 0; k < 16; k++ {
					ops[i] = k
					rec(i + 1)
				}
			}
			rec(0)
		}},
	)
}
