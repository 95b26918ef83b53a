// H01: hex encodings are canonical and decode back to the same value.
package main

import (
	"bytes"
	"encoding/json"
	"flychain/common"
	"flychain/common/hexutil"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"math/big"
)

func checkBytes(c *enum.C, in []byte) {
	orig := append([]byte(nil), in...)
	want := "0x" + ref.Hex(orig)
	c.State(want)
	c.Step(9)
	got := hexutil.Encode(in)
	c.Check(got == want, "Encode = %q, want %q", got, want)
	c.Check(bytes.Equal(in, orig), "Encode modified its input: %x", in)
	dec, err := hexutil.Decode(got)
	c.Check(err == nil && bytes.Equal(dec, orig), "Decode(%q) = %x, %v", got, dec, err)
	dec = hexutil.MustDecode(got)
	c.Check(bytes.Equal(dec, orig), "MustDecode(%q) = %x", got, dec)
	hb := hexutil.Bytes(in)
	s := hb.String()
	c.Check(s == want, "Bytes.String = %q, want %q", s, want)
	t, err := hb.MarshalText()
	c.Check(err == nil && string(t) == want, "Bytes.MarshalText = %q, %v, want %q", t, err, want)
	var hb2 hexutil.Bytes
	err = hb2.UnmarshalText(t)
	c.Check(err == nil && bytes.Equal(hb2, orig), "Bytes.UnmarshalText(%q) = %x, %v", t, []byte(hb2), err)
	j, err := json.Marshal(hb)
	c.Check(err == nil && string(j) == `"`+want+`"`, "json.Marshal(Bytes) = %s, %v", j, err)
	hb2 = hexutil.Bytes{9, 9}
	err = json.Unmarshal(j, &hb2)
	c.Check(err == nil && bytes.Equal(hb2, orig), "json.Unmarshal(%s) = %x, %v", j, []byte(hb2), err)
	b2 := common.Bytes2Hex(in)
	c.Check(b2 == want[2:], "Bytes2Hex = %q, want %q", b2, want[2:])
	// decoding upper-case digits and prefix yields the same value
	up := "0X" + upper(want[2:])
	dec, err = hexutil.Decode(up)
	c.Check(err == nil && bytes.Equal(dec, orig), "Decode(%q) = %x, %v", up, dec, err)
}

func upper(s string) string { return string(bytes.ToUpper([]byte(s))) }

func checkU64(c *enum.C, v uint64) {
	want := ref.HexBig(new(big.Int).SetUint64(v))
	c.State(want)
	c.Step(14)
	got := hexutil.EncodeUint64(v)
	c.Check(got == want, "EncodeUint64 = %q, want %q", got, want)
	d, err := hexutil.DecodeUint64(got)
	c.Check(err == nil && d == v, "DecodeUint64(%q) = %d, %v", got, d, err)
	d, err = hexutil.DecodeUint64("0X" + upper(want[2:]))
	c.Check(err == nil && d == v, "DecodeUint64 of upper case %q = %d, %v", got, d, err)
	c.Check(hexutil.MustDecodeUint64(got) == v, "MustDecodeUint64(%q)", got)
	u := hexutil.Uint64(v)
	c.Check(u.String() == want, "Uint64.String = %q, want %q", u.String(), want)
	t, err := u.MarshalText()
	c.Check(err == nil && string(t) == want, "Uint64.MarshalText = %q, %v, want %q", t, err, want)
	u2 := hexutil.Uint64(77)
	err = u2.UnmarshalText(t)
	c.Check(err == nil && u2 == u, "Uint64.UnmarshalText(%q) = %d, %v", t, uint64(u2), err)
	j, err := json.Marshal(u)
	c.Check(err == nil && string(j) == `"`+want+`"`, "json.Marshal(Uint64) = %s, %v", j, err)
	u2 = 77
	err = json.Unmarshal(j, &u2)
	c.Check(err == nil && u2 == u, "json.Unmarshal(Uint64 %s) = %d, %v", j, uint64(u2), err)
	w := hexutil.Uint(v)
	c.Check(w.String() == want, "Uint.String = %q, want %q", w.String(), want)
	t, err = w.MarshalText()
	c.Check(err == nil && string(t) == want, "Uint.MarshalText = %q, %v, want %q", t, err, want)
	w2 := hexutil.Uint(77)
	err = w2.UnmarshalText(t)
	c.Check(err == nil && w2 == w, "Uint.UnmarshalText(%q) = %d, %v", t, uint(w2), err)
	j, err = json.Marshal(w)
	c.Check(err == nil && string(j) == `"`+want+`"`, "json.Marshal(Uint) = %s, %v", j, err)
	w2 = 77
	err = json.Unmarshal(j, &w2)
	c.Check(err == nil && w2 == w, "json.Unmarshal(Uint %s) = %d, %v", j, uint(w2), err)
}

func checkBig(c *enum.C, v *big.Int) {
	want := ref.HexBig(v)
	c.State(want)
	orig := new(big.Int).Set(v)
	c.Step(2)
	got := hexutil.EncodeBig(v)
	c.Check(got == want, "EncodeBig = %q, want %q", got, want)
	b := (*hexutil.Big)(v)
	c.Check(b.String() == want, "Big.String = %q, want %q", b.String(), want)
	c.Check(b.ToInt().Cmp(orig) == 0, "ToInt = %v", b.ToInt())
	t, err := b.MarshalText()
	if v.Sign() >= 0 {
		c.Check(err == nil && string(t) == want, "Big.MarshalText = %q, %v, want %q", t, err, want)
	}
	c.Check(v.Cmp(orig) == 0, "encoding modified its argument: %v", v)
	if v.Sign() < 0 || v.BitLen() > 256 {
		return
	}
	c.Step(7)
	d, err := hexutil.DecodeBig(got)
	c.Check(err == nil && d.Cmp(v) == 0, "DecodeBig(%q) = %v, %v", got, d, err)
	c.Check(norm(d), "DecodeBig(%q) is not normalised: %v bits", got, d.BitLen())
	d, err = hexutil.DecodeBig("0X" + upper(want[2:]))
	c.Check(err == nil && d.Cmp(v) == 0, "DecodeBig of upper case %q = %v, %v", got, d, err)
	c.Check(hexutil.MustDecodeBig(got).Cmp(v) == 0, "MustDecodeBig(%q)", got)
	b2 := (*hexutil.Big)(big.NewInt(-5))
	err = b2.UnmarshalText([]byte(want))
	c.Check(err == nil && b2.ToInt().Cmp(v) == 0, "Big.UnmarshalText(%q) = %v, %v", want, b2.ToInt(), err)
	c.Check(norm(b2.ToInt()), "Big.UnmarshalText(%q) is not normalised", want)
	j, err := json.Marshal(b)
	c.Check(err == nil && string(j) == `"`+want+`"`, "json.Marshal(Big) = %s, %v", j, err)
	var b3 hexutil.Big
	err = json.Unmarshal(j, &b3)
	c.Check(err == nil && b3.ToInt().Cmp(v) == 0, "json.Unmarshal(Big %s) = %v, %v", j, b3.ToInt(), err)
	c.Check(v.Cmp(orig) == 0, "argument modified: %v", v)
}

// norm tells whether v behaves like the number it claims to be.
func norm(v *big.Int) bool {
	return new(big.Int).Sub(v, v).Sign() == 0 && (len(v.Bits()) == 0) == (v.Sign() == 0) && new(big.Int).SetBytes(v.Bytes()).Cmp(v) == 0
}

func main() {
	enum.Main(
		own.Section("H01"),
		enum.Section{Name: "bytes-short", Shards: 3, Run: func(c *enum.C) {
			c.Bound("every byte string of length <= 2; every one of length <= %d over 8 bytes", c.Pick(5, 6))
			for a := 0; a < 256; a++ {
				if !c.Mine() {
					continue
				}
				a := byte(a)
				c.Case(func() { checkBytes(c, []byte{a}) }, "[% x]", a)
				for b := 0; b < 256; b++ {
					b := byte(b)
					c.Case(func() { checkBytes(c, []byte{a, b}) }, "[% x % x]", a, b)
				}
			}
			ref.ByteStrings([]byte{0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xab, 0xff}, c.Pick(5, 6), func(b []byte) {
				if !c.Mine() {
					return
				}
				x := append([]byte{}, b...)
				c.Case(func() { checkBytes(c, x) }, "[% x]", x)
			})
		}},
		enum.Section{Name: "bytes-long", Run: func(c *enum.C) {
			c.Bound("lengths 0..%d, 6 fillings", c.Pick(300, 2000))
			for n := 0; n <= c.Pick(300, 2000); n++ {
				for _, f := range []byte{0, 1, 0x0a, 0xa0, 0xff, 0x5c} {
					x := bytes.Repeat([]byte{f}, n)
					for i := range x {
						if f == 0x5c {
							x[i] = byte(i*7 + n)
						}
					}
					c.Case(func() { checkBytes(c, x) }, "%d bytes of %x", n, f)
				}
			}
		}},
		enum.Section{Name: "bytes-huge", Shards: 2, Run: func(c *enum.C) {
			max := c.Pick(1<<17, 1<<22)
			c.Bound("the lengths around every power of two and of ten up to %d", max)
			ref.Sizes(0, max, func(n int) {
				if !c.Mine() {
					return
				}
				x := make([]byte, n)
				for i := range x {
					x[i] = byte(i*7 + i>>8 + n)
				}
				c.Case(func() { checkBytes(c, x) }, "%d bytes", n)
			})
		}},
		enum.Section{Name: "bytes-nil", Run: func(c *enum.C) {
			c.Case(func() { checkBytes(c, nil) }, "nil")
		}},
		enum.Section{Name: "uint64", Shards: 2, Run: func(c *enum.C) {
			c.Bound("every value < %d; a<<k, ^(a<<k), (a<<k)+-1 for a<256, k<64", c.Pick(1<<16, 1<<20))
			do := func(v uint64) { c.Case(func() { checkU64(c, v) }, "%#x", v) }
			for v := uint64(0); v < uint64(c.Pick(1<<16, 1<<20)); v++ {
				if c.Mine() {
					do(v)
				}
			}
			for a := uint64(0); a < 256; a++ {
				for k := uint(0); k < 64; k++ {
					if !c.Mine() {
						continue
					}
					do(a << k)
					do(^(a << k))
					do(a<<k + 1)
					do(a<<k - 1)
				}
			}
		}},
		enum.Section{Name: "big", Run: func(c *enum.C) {
			c.Bound("every value < 5000, and a*2^k+d for k<=%d, repeated bytes up to as many bits; their negatives for encoding; the bit lengths around every power of two and of ten up to %d", c.Pick(300, 1100), c.Pick(1<<14, 1<<18))
			ref.Sizes(0, c.Pick(1<<14, 1<<18), func(n int) {
				for _, v := range []*big.Int{new(big.Int).Lsh(big.NewInt(1), uint(n)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))} {
					v := v
					c.Case(func() { checkBig(c, v) }, "about 2^%d", n)
				}
			})
			for _, v := range ref.BigSet(5000, c.Pick(300, 1100), 1) {
				v := v
				c.Case(func() { checkBig(c, new(big.Int).Set(v)) }, "%v", v)
				if v.Sign() > 0 {
					c.Case(func() { checkBig(c, new(big.Int).Neg(v)) }, "-%v", v)
				}
			}
		}},
	)
}
