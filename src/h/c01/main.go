// C01: Hash and Address conversions.
package main

import (
	"bytes"
	"encoding/json"
	"flychain/common"
	"flychain/common/hexutil"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"fmt"
	"math/big"
	"reflect"
	"time"
)

// fit keeps the last n bytes and pads on the left.
func fit(b []byte, n int) []byte {
	out := make([]byte, n)
	for i := 1; i <= n && i <= len(b); i++ {
		out[n-i] = b[len(b)-i]
	}
	return out
}

func hash(c *enum.C, in []byte) {
	orig := append([]byte{}, in...)
	want := fit(orig, 32)
	c.State("h", want)
	c.Step(20)
	eq := func(what string, h common.Hash) {
		c.Check(bytes.Equal(h[:], want), "%s = %x, want %x", what, h[:], want)
	}
	h := common.BytesToHash(in)
	eq("BytesToHash", h)
	var s common.Hash
	s.SetBytes(in)
	eq("SetBytes", s)
	c.Check(bytes.Equal(in, orig), "input modified")
	b := new(big.Int).SetBytes(orig)
	eq("BigToHash", common.BigToHash(b))
	c.Check(b.Cmp(new(big.Int).SetBytes(orig)) == 0, "BigToHash modified its argument")
	eq("BigToHash of the negative", common.BigToHash(b.Neg(b)))
	d := ref.Hex(orig)
	for _, t := range []string{d, "0x" + d, "0X" + d, upper(d), "0x" + upper(d)} {
		eq("HexToHash "+t, common.HexToHash(t))
	}
	if len(d) > 1 && d[0] == '0' {
		eq("HexToHash of odd "+d[1:], common.HexToHash(d[1:]))
		eq("HexToHash of odd 0x"+d[1:], common.HexToHash("0x"+d[1:]))
	}
	c.Check(bytes.Equal(h.Bytes(), want), "Bytes = %x", h.Bytes())
	h.Bytes()[0] ^= 0xff
	eq("Hash after writing to Bytes()", h)
	c.Check(h.Big().Cmp(new(big.Int).SetBytes(want)) == 0, "Big = %v", h.Big())
	c.Check(h.Hex() == "0x"+ref.Hex(want), "Hex = %s", h.Hex())
	c.Check(h.String() == "0x"+ref.Hex(want), "String = %s", h.String())
	eq("HexToHash(Hex)", common.HexToHash(h.Hex()))
	eq("BigToHash(Big)", common.BigToHash(h.Big()))
	c.Check(h.TerminalString() == ref.Hex(want[:3])+".."+ref.Hex(want[29:]), "TerminalString = %s", h.TerminalString())
	t, err := h.MarshalText()
	c.Check(err == nil && string(t) == "0x"+ref.Hex(want), "MarshalText = %s, %v", t, err)
	var h2 common.Hash
	err = h2.UnmarshalText(t)
	c.Check(err == nil, "UnmarshalText: %v", err)
	eq("UnmarshalText", h2)
	j, err := json.Marshal(h)
	c.Check(err == nil && string(j) == `"0x`+ref.Hex(want)+`"`, "json = %s, %v", j, err)
	h2 = common.Hash{1, 2, 3}
	c.Check(json.Unmarshal(j, &h2) == nil, "json.Unmarshal")
	eq("json.Unmarshal", h2)
	v, err := h.Value()
	vb, ok := v.([]byte)
	c.Check(err == nil && ok && bytes.Equal(vb, want), "Value = %v, %v", v, err)
	h2 = common.Hash{1, 2, 3}
	c.Check(h2.Scan(v) == nil, "Scan(Value)")
	eq("Scan(Value)", h2)
	vb[5] ^= 1
	eq("Hash after writing to its Value", h)
	eq("scanned Hash after writing to its source", h2)
	u := common.UnprefixedHash(h)
	t, err = u.MarshalText()
	c.Check(err == nil && string(t) == ref.Hex(want), "UnprefixedHash.MarshalText = %s, %v", t, err)
	for _, p := range []string{"", "0x", "0X"} {
		u2 := common.UnprefixedHash{9}
		err = u2.UnmarshalText([]byte(p + string(t)))
		c.Check(err == nil && bytes.Equal(u2[:], want), "UnprefixedHash.UnmarshalText(%s) = %x, %v", p+string(t), u2[:], err)
	}
	for k := range s {
		s[k] = 0xa7
	}
	s.SetBytes(in)
	if len(in) >= 32 {
		eq("SetBytes over another value", s)
	} else {
		c.Check(bytes.Equal(s[32-len(in):], want[32-len(in):]), "SetBytes over another value = %x", s[:])
	}
	var h3 common.Hash
	err = h3.UnmarshalGraphQL(h.Hex())
	c.Check(err == nil, "UnmarshalGraphQL: %v", err)
	eq("UnmarshalGraphQL", h3)
}

type namedBytes []byte

type namedString string

type stringer string

func (s stringer) String() string { return string(s) }

func upper(s string) string { return string(bytes.ToUpper([]byte(s))) }

func addr(c *enum.C, in []byte) {
	orig := append([]byte{}, in...)
	want := fit(orig, 20)
	c.State("a", want)
	c.Step(20)
	eq := func(what string, h common.Address) {
		c.Check(bytes.Equal(h[:], want), "%s = %x, want %x", what, h[:], want)
	}
	h := common.BytesToAddress(in)
	eq("BytesToAddress", h)
	var s common.Address
	s.SetBytes(in)
	eq("SetBytes", s)
	c.Check(bytes.Equal(in, orig), "input modified")
	b := new(big.Int).SetBytes(orig)
	eq("BigToAddress", common.BigToAddress(b))
	c.Check(b.Cmp(new(big.Int).SetBytes(orig)) == 0, "BigToAddress modified its argument")
	eq("BigToAddress of the negative", common.BigToAddress(b.Neg(b)))
	d := ref.Hex(orig)
	for _, t := range []string{d, "0x" + d, "0X" + d, upper(d), "0x" + upper(d)} {
		eq("HexToAddress "+t, common.HexToAddress(t))
	}
	if len(d) > 1 && d[0] == '0' {
		eq("HexToAddress of odd "+d[1:], common.HexToAddress(d[1:]))
		eq("HexToAddress of odd 0x"+d[1:], common.HexToAddress("0x"+d[1:]))
	}
	c.Check(bytes.Equal(h.Bytes(), want), "Bytes = %x", h.Bytes())
	h.Bytes()[0] ^= 0xff
	eq("Address after writing to Bytes()", h)
	c.Check(h.Big().Cmp(new(big.Int).SetBytes(want)) == 0, "Big = %v", h.Big())
	eq("HexToAddress(Hex)", common.HexToAddress(h.Hex()))
	eq("HexToAddress(String)", common.HexToAddress(h.String()))
	eq("BigToAddress(Big)", common.BigToAddress(h.Big()))
	hh := h.Hash()
	c.Check(bytes.Equal(hh[:], fit(want, 32)), "Hash = %x", hh[:])
	t, err := h.MarshalText()
	c.Check(err == nil && string(t) == "0x"+ref.Hex(want), "MarshalText = %s, %v", t, err)
	var h2 common.Address
	err = h2.UnmarshalText(t)
	c.Check(err == nil, "UnmarshalText: %v", err)
	eq("UnmarshalText", h2)
	h2 = common.Address{}
	err = h2.UnmarshalText([]byte(h.Hex()))
	c.Check(err == nil, "UnmarshalText(Hex): %v", err)
	eq("UnmarshalText(Hex)", h2)
	j, err := json.Marshal(h)
	c.Check(err == nil && string(j) == `"0x`+ref.Hex(want)+`"`, "json = %s, %v", j, err)
	h2 = common.Address{1, 2, 3}
	c.Check(json.Unmarshal(j, &h2) == nil, "json.Unmarshal")
	eq("json.Unmarshal", h2)
	v, err := h.Value()
	vb, ok := v.([]byte)
	c.Check(err == nil && ok && bytes.Equal(vb, want), "Value = %v, %v", v, err)
	h2 = common.Address{1, 2, 3}
	c.Check(h2.Scan(v) == nil, "Scan(Value)")
	eq("Scan(Value)", h2)
	vb[5] ^= 1
	eq("Address after writing to its Value", h)
	eq("scanned Address after writing to its source", h2)
	u := common.UnprefixedAddress(h)
	t, err = u.MarshalText()
	c.Check(err == nil && string(t) == ref.Hex(want), "UnprefixedAddress.MarshalText = %s, %v", t, err)
	for _, p := range []string{"", "0x", "0X"} {
		u2 := common.UnprefixedAddress{9}
		err = u2.UnmarshalText([]byte(p + string(t)))
		c.Check(err == nil && bytes.Equal(u2[:], want), "UnprefixedAddress.UnmarshalText(%s) = %x, %v", p+string(t), u2[:], err)
	}
	for k := range s {
		s[k] = 0xa7
	}
	s.SetBytes(in)
	if len(in) >= 20 {
		eq("SetBytes over another value", s)
	} else {
		c.Check(bytes.Equal(s[20-len(in):], want[20-len(in):]), "SetBytes over another value = %x", s[:])
	}
	var h3 common.Address
	err = h3.UnmarshalGraphQL(h.Hex())
	c.Check(err == nil, "UnmarshalGraphQL: %v", err)
	eq("UnmarshalGraphQL", h3)
}

func main() {
	enum.Main(
		own.Section("C01"),
		enum.Section{Name: "short", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(4, 5)
			c.Bound("every byte string of length <= %d over 6 bytes, every single byte", n)
			for b := 0; b < 256; b++ {
				x := []byte{byte(b)}
				c.Case(func() { hash(c, x); addr(c, x) }, "[% x]", x)
			}
			ref.ByteStrings([]byte{0, 1, 0x0f, 0x80, 0xab, 0xff}, n, func(b []byte) {
				if !c.Mine() {
					return
				}
				x := append([]byte{}, b...)
				c.Case(func() { hash(c, x); addr(c, x) }, "[% x]", x)
			})
		}},
		enum.Section{Name: "lengths", Shards: 2, Run: func(c *enum.C) {
			c.Bound("every length 0..70, each with a distinguished byte at every position, 3 fillings")
			for n := 0; n <= 70; n++ {
				if !c.Mine() {
					continue
				}
				for _, f := range []byte{0, 0xff, 1} {
					for i := -1; i < n; i++ {
						x := make([]byte, n)
						for j := range x {
							x[j] = f + byte(j)*(f&1)
						}
						if i >= 0 {
							x[i] = 0xa5
						}
						c.Case(func() { hash(c, x); addr(c, x) }, "[% x]", x)
					}
				}
			}
		}},
		enum.Section{Name: "huge", Shards: 4, Run: func(c *enum.C) {
			max := c.Pick(70000, 1<<20)
			c.Bound("the lengths around every power of two and of ten up to %d, 3 fillings", max)
			ref.Sizes(0, max, func(n int) {
				if !c.Mine() {
					return
				}
				for _, f := range []byte{0, 0xff, 1} {
					x := make([]byte, n)
					for j := range x {
						x[j] = f + byte(j)*(f&1)
					}
					c.Case(func() { hash(c, x); addr(c, x) }, "%d bytes, filling %d", n, f)
				}
			})
		}},
		enum.Section{Name: "scan", Run: func(c *enum.C) {
			c.Bound("byte slices of length 0..70 and longer, up to 70000, and some 60 sources of other types: strings, numbers, named byte slices, arrays, pointers, stringers and readers of the right length")
			srcs := []interface{}{nil, 1, int64(2), "x", string(make([]byte, 32)), string(make([]byte, 20)), true, 1.5, [32]byte{}, [20]byte{}, &[]byte{1}, common.Hash{}, common.Address{}, json.RawMessage(make([]byte, 32))}
			for _, n := range []int{20, 32} {
				b := make([]byte, n)
				hex := "0x" + ref.Hex(b)
				srcs = append(srcs, hex, hex[2:], &b, json.RawMessage(b), hexutil.Bytes(b), namedBytes(b), namedString(b), stringer(b), &hex, []interface{}{b}, make([]uint16, n), make([]int8, n), []rune(string(b)), [][]byte{b}, new(big.Int).SetBytes(b), time.Unix(0, 0), bytes.NewReader(b), bytes.NewBuffer(b))
			}
			srcs = append(srcs, &common.Hash{}, &common.Address{}, (*common.Hash)(nil), common.UnprefixedHash{}, common.UnprefixedAddress{}, common.MixedcaseAddress{}, uint64(1), float32(1))
			for n := 0; n <= 70; n++ {
				srcs = append(srcs, bytes.Repeat([]byte{0x5a}, n))
			}
			srcs = append(srcs, []byte(nil))
			ref.Sizes(0, 70000, func(n int) { srcs = append(srcs, make([]byte, n)) })
			text := func(s interface{}) string {
				if reflect.ValueOf(s).Kind() == reflect.Ptr {
					return "" // no addresses in names
				}
				return fmt.Sprintf("%.300s", fmt.Sprint(s))
			}
			for i, s := range srcs {
				s := s
				c.Case(func() {
					c.Step(2)
					b, isB := s.([]byte)
					h, a := common.Hash{1, 2, 3}, common.Address{4, 5, 6}
					oh, oa := h, a
					err := h.Scan(s)
					ok := isB && len(b) == 32
					c.State("h", isB, len(b))
					c.Check((err == nil) == ok, "Hash.Scan: %v", err)
					c.Check(ok && bytes.Equal(h[:], b) || !ok && h == oh, "Hash.Scan left %x", h[:])
					err = a.Scan(s)
					ok = isB && len(b) == 20
					c.Check((err == nil) == ok, "Address.Scan: %v", err)
					c.Check(ok && bytes.Equal(a[:], b) || !ok && a == oa, "Address.Scan left %x", a[:])
				}, "%d: %T %s", i, s, text(s))
			}
		}},
	)
}
