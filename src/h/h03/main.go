// H03: JSON, text and GraphQL decoding of the hex wrapper types agree.
package main

import (
	"encoding/json"
	"errors"
	"flychain/common"
	"flychain/common/hexutil"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"math/big"
	"reflect"
	"strings"
)

type wrapper interface {
	UnmarshalText([]byte) error
	UnmarshalJSON([]byte) error
}

type graphql interface {
	UnmarshalGraphQL(interface{}) error
}

type kind struct {
	name string
	mk   func() wrapper
	typ  reflect.Type
	gql  string
}

func val(w wrapper) string {
	switch v := w.(type) {
	case *hexutil.Bytes:
		return ref.Hex(*v)
	case *hexutil.Big:
		return v.ToInt().String()
	case *hexutil.Uint64:
		return new(big.Int).SetUint64(uint64(*v)).String()
	case *hexutil.Uint:
		return new(big.Int).SetUint64(uint64(*v)).String()
	case *common.Hash:
		return ref.Hex(v[:])
	case *common.Address:
		return ref.Hex(v[:])
	}
	return "?"
}

type namedString string

type namedInt int32

type stringer struct{}

func (stringer) String() string { return "0x01" }

func int32p() *int32 { i := int32(1); return &i }

var kinds = []kind{
	{"Bytes", func() wrapper { b := hexutil.Bytes{7}; return &b }, reflect.TypeOf(hexutil.Bytes(nil)), "Bytes"},
	{"Big", func() wrapper { return (*hexutil.Big)(big.NewInt(7)) }, reflect.TypeOf((*hexutil.Big)(nil)), "BigInt"},
	{"Uint64", func() wrapper { u := hexutil.Uint64(7); return &u }, reflect.TypeOf(hexutil.Uint64(0)), "Long"},
	{"Uint", func() wrapper { u := hexutil.Uint(7); return &u }, reflect.TypeOf(hexutil.Uint(0)), ""},
	{"Hash", func() wrapper { return &common.Hash{7} }, reflect.TypeOf(common.Hash{}), "Bytes32"},
	{"Address", func() wrapper { return &common.Address{7} }, reflect.TypeOf(common.Address{}), "Address"},
}

// unquote interprets the escapes of a JSON string, if it is one.
func unquote(s string) string {
	var u string
	if json.Unmarshal([]byte(`"`+s+`"`), &u) != nil {
		return s
	}
	return u
}

func agree(c *enum.C, k kind, s string) {
	c.Step(4)
	a, b, d := k.mk(), k.mk(), k.mk()
	et := a.UnmarshalText([]byte(s))
	ej := b.UnmarshalJSON([]byte(`"` + s + `"`))
	c.State(k.name, et != nil, val(a))
	c.Check((et == nil) == (ej == nil), "text: %v, JSON: %v", et, ej)
	c.Check(val(a) == val(b), "text leaves %s, JSON %s", val(a), val(b))
	if et != nil {
		c.Check(val(a) == val(k.mk()), "a rejected input changed the target to %s", val(a))
	}
	if !strings.ContainsAny(s, "\"\\") {
		e := json.Unmarshal([]byte(`"`+s+`"`), d)
		c.Check((e == nil) == (et == nil), "text: %v, json.Unmarshal: %v", et, e)
		c.Check(val(d) == val(a), "text leaves %s, json.Unmarshal %s", val(a), val(d))
	}
	if g, ok := k.mk().(graphql); ok && s != "" {
		e := g.UnmarshalGraphQL(s)
		c.Check((e == nil) == (et == nil), "text: %v, GraphQL: %v", et, e)
		c.Check(val(g.(wrapper)) == val(a), "text leaves %s, GraphQL %s", val(a), val(g.(wrapper)))
	}
}

func typeErr(c *enum.C, k kind, what string, err error) {
	c.Check(err != nil, "%s: accepted", what)
	ute, ok := err.(*json.UnmarshalTypeError)
	c.Check(ok, "%s: error is %T %v, want a json.UnmarshalTypeError", what, err, err)
	t := ute.Type
	c.Check(t == k.typ || t != nil && k.typ.Kind() == reflect.Ptr && t == k.typ.Elem(), "%s: error names type %v, want %v", what, t, k.typ)
}

func main() {
	enum.Main(
		enum.Section{Name: "strings", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(5, 6)
			c.Bound("every string of length <= %d over 9 characters for 6 types", n)
			ref.Strings([]string{"0", "1", "a", "F", "x", "X", "g", "-", " "}, n, func(s string) {
				if !c.Mine() {
					return
				}
				for _, k := range kinds {
					k := k
					c.Case(func() { agree(c, k, s) }, "%s %q", k.name, s)
				}
			})
		}},
		enum.Section{Name: "escapes", Shards: 2, Run: func(c *enum.C) {
			n := c.Pick(4, 5)
			c.Bound("every sequence of up to %d of 14 pieces, escapes of hex digits and of the prefix among them, which are not interpreted", n)
			ref.Strings([]string{"0", "1", "f", "0x", "x", "\\u0030", "\\u0078", "\\u0046", "\\n", "\\/", "\\", "\\\\", "\\\"", "é"}, n, func(s string) {
				if !c.Mine() {
					return
				}
				for _, k := range kinds {
					k := k
					c.Case(func() {
						agree(c, k, s)
						agree(c, k, "0x"+s)
						if k.name == "Hash" || k.name == "Address" {
							// inputs whose raw or interpreted length fits
							want := 2 * reflect.ValueOf(k.mk()).Elem().Len()
							for _, l := range []int{len(s), strings.Count(s, "") - 1, len(unquote(s))} {
								if l <= want {
									agree(c, k, "0x"+strings.Repeat("1", want-l)+s)
								}
							}
						}
						if u := unquote(s); u != s && strings.HasPrefix(u, "0x") {
							w := k.mk()
							e := json.Unmarshal([]byte(`"`+s+`"`), w)
							c.Check(e != nil && val(w) == val(k.mk()), "json.Unmarshal of \"%s\" gives %s, %v", s, val(w), e)
						}
					}, "%s %q", k.name, s)
				}
			})
		}},
		enum.Section{Name: "memory", Run: func(c *enum.C) {
			c.Bound("two byte strings of 0..40 bytes decoded one after the other into the same variable, by each decoder: neither the first value nor the inputs change")
			decs := []func(b *hexutil.Bytes, s []byte) error{
				func(b *hexutil.Bytes, s []byte) error { return b.UnmarshalText(s) },
				func(b *hexutil.Bytes, s []byte) error { return b.UnmarshalJSON([]byte(`"` + string(s) + `"`)) },
				func(b *hexutil.Bytes, s []byte) error { return json.Unmarshal([]byte(`"`+string(s)+`"`), b) },
				func(b *hexutil.Bytes, s []byte) error { return b.UnmarshalGraphQL(string(s)) },
			}
			for n := 0; n <= 40; n++ {
				for m := 0; m <= 40; m++ {
					for di, d := range decs {
						for ei, e := range decs {
							c.Case(func() {
								c.Step(2)
								t1, t2 := []byte("0x"+strings.Repeat("1e", n)), []byte("0x"+strings.Repeat("f2", m))
								var b hexutil.Bytes
								c.Check(d(&b, t1) == nil, "rejected")
								first := b
								c.Check(e(&b, t2) == nil, "rejected")
								c.Check(ref.Hex(first) == string(t1[2:]) && ref.Hex(b) == string(t2[2:]), "decoding %s after %s leaves %x and %x", t2, t1, []byte(first), []byte(b))
								for i := range b {
									b[i] = 7
								}
								c.Check(ref.Hex(first) == string(t1[2:]) && string(t2) == "0x"+strings.Repeat("f2", m), "writing to the value changes something else")
								second := b
								err := e(&b, []byte("0x"+strings.Repeat("ab", m)+"0g"))
								c.Check(err != nil && len(b) == m, "accepted")
								for _, x := range second {
									c.Check(x == 7, "a rejected input changes the target")
								}
								c.State(n, m)
							}, "%d bytes by %d, %d bytes by %d", n, di, m, ei)
						}
					}
				}
			}
		}},
		enum.Section{Name: "long", Run: func(c *enum.C) {
			c.Bound("0..70 digits with 4 fillings, bad digit at every position")
			for n := 0; n <= 70; n++ {
				for _, f := range []string{"1", "f", "A", "0"} {
					for i := -1; i < n; i++ {
						s := strings.Repeat(f, n)
						if i >= 0 {
							s = s[:i] + "g" + s[i+1:]
						}
						for _, pre := range []string{"0x", "0X", ""} {
							for _, k := range kinds {
								k, s := k, pre+s
								c.Case(func() { agree(c, k, s) }, "%s %q", k.name, s)
							}
						}
					}
				}
			}
		}},
		enum.Section{Name: "huge", Shards: 2, Run: func(c *enum.C) {
			dense, max := c.Pick(300, 1100), c.Pick(1<<16, 1<<20)
			c.Bound("0..%d digits and the numbers of digits around every power of two and of ten up to %d, a bad digit at the ends and in the middle", dense, max)
			ref.Sizes(dense, max, func(n int) {
				if !c.Mine() {
					return
				}
				for _, i := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
					if i >= n {
						continue
					}
					s := strings.Repeat("1f", n)[:n]
					if i >= 0 {
						s = s[:i] + "g" + s[i+1:]
					}
					for _, k := range kinds {
						k := k
						c.Case(func() { agree(c, k, "0x"+s) }, "%s 0x+%d digits, bad digit at %d", k.name, n, i)
						if i < 0 && k.name == "Bytes" && n%2 == 0 {
							c.Case(func() {
								b := k.mk()
								err := b.UnmarshalText([]byte("0x" + s))
								c.Check(err == nil && val(b) == s, "a text of %d digits is read as %d digits, %v", n, len(val(b)), err)
							}, "%s 0x+%d digits, value", k.name, n)
						}
					}
				}
			})
		}},
		enum.Section{Name: "non-strings", Run: func(c *enum.C) {
			ins := []string{"null", "true", "false", "0", "1", "-1", "10", "1.5", "1e3", "{}", "[]", `["0x1"]`, `{"a":"0x1"}`, `{"a":1}`, "[1,2]"}
			c.Bound("%d JSON values that are not strings, 6 types, direct and through encoding/json, in values, fields and elements", len(ins))
			for _, in := range ins {
				for _, k := range kinds {
					in, k := in, k
					c.Case(func() {
						c.Step(3)
						w := k.mk()
						typeErr(c, k, "UnmarshalJSON", w.UnmarshalJSON([]byte(in)))
						c.Check(val(w) == val(k.mk()), "target changed to %s", val(w))
						w = k.mk()
						typeErr(c, k, "json.Unmarshal", json.Unmarshal([]byte(in), w))
						c.Check(val(w) == val(k.mk()), "target changed to %s", val(w))
						c.State(k.name, in)
					}, "%s %s", k.name, in)
				}
			}
		}},
		enum.Section{Name: "graphql", Run: func(c *enum.C) {
			c.Bound("GraphQL type names and unsupported input types")
			names := []string{"Bytes", "BigInt", "Long", "Bytes32", "Address", "Int", "String", "", "bytes", "Hash"}
			bad := []interface{}{nil, true, 1.5, int64(1), uint32(1), uint64(1), []byte("0x01"), map[string]interface{}{}, []interface{}{"0x01"}, struct{}{}, int(1), new(string), int8(1), int16(1), uint8(1), uint16(1), uint(1), uintptr(1), float32(1), int32p(), json.Number("0x1"), json.RawMessage(`"0x1"`), namedString("0x01"), namedInt(1), stringer{}, big.NewInt(1), *big.NewInt(1), hexutil.Bytes{1}, hexutil.Uint64(1), (*hexutil.Big)(big.NewInt(1)), common.Hash{1}, common.Address{1}, [32]byte{}, [20]byte{}, make([]byte, 32), make([]byte, 20), 'x' + int64(0), []string{"0x01"}, errors.New("0x01")}
			for _, k := range kinds {
				k := k
				w := k.mk()
				g, ok := w.(graphql)
				if !ok {
					continue
				}
				for _, n := range names {
					n := n
					c.Case(func() {
						c.Step(1)
						got := w.(interface{ ImplementsGraphQLType(string) bool }).ImplementsGraphQLType(n)
						c.Check(got == (n == k.gql), "ImplementsGraphQLType(%q) = %v", n, got)
						c.State(k.name, n)
					}, "%s implements %q", k.name, n)
				}
				for i, b := range bad {
					b := b
					c.Case(func() {
						c.Step(1)
						err := g.UnmarshalGraphQL(b)
						c.Check(err != nil, "accepted %T", b)
						c.Check(val(w) == val(k.mk()), "target changed to %s", val(w))
					}, "%s graphql %d: %T", k.name, i, b)
				}
				for _, i := range []int32{0, 1, 7, 255, 1<<31 - 1, -1, -7, -1 << 31} {
					i := i
					c.Case(func() {
						c.Step(1)
						w := k.mk()
						err := w.(graphql).UnmarshalGraphQL(i)
						if i < 0 && k.name == "Uint64" {
							return // has no such value
						}
						if k.name == "Big" || k.name == "Uint64" {
							c.Check(err == nil && val(w) == big.NewInt(int64(i)).String(), "= %s, %v", val(w), err)
						} else {
							c.Check(err != nil, "accepted int32")
						}
					}, "%s graphql int32 %d", k.name, i)
				}
			}
		}},
		enum.Section{Name: "roundtrip", Run: func(c *enum.C) {
			c.Bound("structs holding every type by value and pointer, 40 x 12 values")
			type all struct {
				B  hexutil.Bytes
				BP *hexutil.Bytes
				I  *hexutil.Big
				U  hexutil.Uint64
				UP *hexutil.Uint64
				W  hexutil.Uint
				H  common.Hash
				HP *common.Hash
				A  common.Address
				L  []common.Hash
				M  map[string]common.Address
			}
			nums := []uint64{0, 1, 2, 15, 16, 255, 256, 1 << 16, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
			for n := 0; n <= 40; n++ {
				for _, u := range nums {
					n, u := n, u
					c.Case(func() {
						c.Step(2)
						var x all
						b := hexutil.Bytes(make([]byte, n))
						for i := range b {
							b[i] = byte(u>>uint(i%8)) + byte(i)
						}
						x.B, x.BP = b, &b
						bi := new(big.Int).Lsh(new(big.Int).SetUint64(u), uint(n*4))
						x.I = (*hexutil.Big)(bi)
						x.U = hexutil.Uint64(u)
						x.UP = &x.U
						x.W = hexutil.Uint(u)
						x.H.SetBytes(b)
						x.HP = &x.H
						x.A.SetBytes(b)
						x.L = []common.Hash{x.H, {}}
						x.M = map[string]common.Address{"k": x.A}
						j, err := json.Marshal(x)
						c.Check(err == nil, "Marshal: %v", err)
						var y all
						err = json.Unmarshal(j, &y)
						c.Check(err == nil, "Unmarshal(%s): %v", j, err)
						j2, _ := json.Marshal(y)
						c.Check(string(j) == string(j2), "%s decodes to %s", j, j2)
						c.Check(ref.Hex(y.B) == ref.Hex(b) && ref.Hex(*y.BP) == ref.Hex(b) && y.I.ToInt().Cmp(bi) == 0 && y.U == x.U && *y.UP == x.U && y.W == x.W && y.H == x.H && *y.HP == x.H && y.A == x.A && reflect.DeepEqual(x.L, y.L) && reflect.DeepEqual(x.M, y.M), "%s decodes to a different value %s", j, j2)
						c.State(string(j))
					}, "n=%d u=%d", n, u)
				}
			}
		}},
	)
}
