// M01: 256-bit integer helpers.
package main

import (
	"bytes"
	"flychain/common/math"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"math/big"
)

var mod = new(big.Int).Lsh(big.NewInt(1), 256)

func snap(v *big.Int) string { return v.Text(16) }

func exp(c *enum.C, b, e *big.Int) {
	c.Step(1)
	sb, se := snap(b), snap(e)
	got := math.Exp(b, e)
	c.Check(snap(b) == sb && snap(e) == se, "Exp modified its arguments: %v, %v", b, e)
	want := big.NewInt(1)
	sq := new(big.Int).Mod(b, mod)
	for i := 0; i < e.BitLen(); i++ {
		if e.Bit(i) == 1 {
			want.Mul(want, sq)
			want.Mod(want, mod)
		}
		sq.Mul(sq, sq)
		sq.Mod(sq, mod)
	}
	c.State("exp", snap(want))
	c.Check(got.Cmp(want) == 0, "Exp = %v, want %v", got, want)
	c.Check(got != b && got != e, "Exp returned its argument")
	got.Add(got, big.NewInt(1))
	got.Lsh(got, 3)
	c.Check(snap(b) == sb && snap(e) == se, "the result of Exp shares memory with an argument")
}

func single(c *enum.C, v *big.Int) {
	c.Step(6)
	s := snap(v)
	abs := new(big.Int).Abs(v)
	u := new(big.Int).Mod(v, mod)
	x := new(big.Int).Set(v)
	got := math.U256(x)
	c.Check(got == x, "U256 did not return its argument")
	c.Check(got.Cmp(u) == 0, "U256 = %v, want %v", got, u)
	ub := math.U256Bytes(new(big.Int).Set(v))
	c.Check(len(ub) == 32 && new(big.Int).SetBytes(ub).Cmp(u) == 0, "U256Bytes = %x, want %v", ub, u)
	c.State("u", snap(u))
	// signed reinterpretation of the 256-bit value
	su := snap(u)
	sg := math.S256(u)
	c.Check(snap(u) == su, "S256 modified its argument")
	want := new(big.Int).Set(u)
	if want.Bit(255) == 1 {
		want.Sub(want, mod)
	}
	c.Check(sg.Cmp(want) == 0, "S256 = %v, want %v", sg, want)
	c.Check(math.U256(new(big.Int).Set(sg)).Cmp(u) == 0, "U256 does not invert S256")
	if v.BitLen() <= 255 {
		back := math.S256(math.U256(new(big.Int).Set(v)))
		c.Check(back.Cmp(v) == 0, "S256(U256) = %v", back)
	}
	// encodings
	be := abs.Bytes()
	for n := 0; n <= 40; n++ {
		c.Step(2)
		want := append([]byte{}, be...)
		for len(want) < n {
			want = append([]byte{0}, want...)
		}
		p := math.PaddedBigBytes(v, n)
		c.Check(bytes.Equal(p, want), "PaddedBigBytes(%d) = %x, want %x", n, p, want)
		for i := range p {
			p[i] ^= 0xff
		}
		c.Check(snap(v) == s, "the result of PaddedBigBytes shares memory with its argument")
		buf := bytes.Repeat([]byte{0}, n)
		math.ReadBits(v, buf)
		if n >= len(be) {
			c.Check(bytes.Equal(buf, want), "ReadBits(%d) = %x, want %x", n, buf, want)
		}
		if v.Sign() >= 0 {
			for i := 0; i <= n+1; i++ {
				want := byte(0)
				if k := n - 1 - i; k >= 0 && k < len(be) {
					want = be[len(be)-1-k]
				}
				g := math.Byte(v, n, i)
				c.Check(g == want, "Byte(%d, %d) = %02x, want %02x", n, i, g, want)
			}
		}
	}
	lsb := 0
	if v.Sign() != 0 {
		for abs.Bit(lsb) == 0 {
			lsb++
		}
	}
	c.Check(math.FirstBitSet(v) == lsb, "FirstBitSet = %d, want %d", math.FirstBitSet(v), lsb)
	c.Check(snap(v) == s, "argument modified: %v", v)
}

// huge checks the helpers on an integer of any length and one pad length.
func huge(c *enum.C, v *big.Int, n int) {
	c.Step(6)
	s := snap(v)
	u := new(big.Int).Mod(v, mod)
	got := math.U256(new(big.Int).Set(v))
	c.Check(got.Cmp(u) == 0, "U256 is wrong")
	ub := math.U256Bytes(new(big.Int).Set(v))
	c.Check(len(ub) == 32 && new(big.Int).SetBytes(ub).Cmp(u) == 0, "U256Bytes = %x, want %v", ub, u)
	abs := new(big.Int).Abs(v)
	be := abs.Bytes()
	want := be
	if len(want) < n {
		want = append(make([]byte, n-len(be)), be...)
	}
	c.Check(bytes.Equal(math.PaddedBigBytes(v, n), want), "PaddedBigBytes(%d bytes, %d) is wrong", len(be), n)
	if n >= len(be) {
		buf := make([]byte, n)
		math.ReadBits(v, buf)
		c.Check(bytes.Equal(buf, want), "ReadBits(%d bytes, %d) is wrong", len(be), n)
		for _, i := range []int{0, 1, n - len(be) - 1, n - len(be), n - len(be) + 1, n / 2, n - 33, n - 32, n - 9, n - 8, n - 1, n, n + 1} {
			if i < 0 || v.Sign() < 0 {
				continue
			}
			w := byte(0)
			if i < n {
				w = want[i]
			}
			c.Check(math.Byte(v, n, i) == w, "Byte(%d bytes, %d, %d) = %02x, want %02x", len(be), n, i, math.Byte(v, n, i), w)
		}
	}
	lsb := 0
	for v.Sign() != 0 && abs.Bit(lsb) == 0 {
		lsb++
	}
	c.Check(math.FirstBitSet(v) == lsb, "FirstBitSet = %d, want %d", math.FirstBitSet(v), lsb)
	c.Check(snap(v) == s, "argument modified")
	w := new(big.Int).Add(v, big.NewInt(1))
	c.Check(math.BigMax(v, w) == w && math.BigMax(w, v) == w && math.BigMin(v, w) == v && math.BigMin(w, v) == v, "BigMax or BigMin is wrong")
	c.Check(snap(v) == s, "argument modified")
	c.State(n, len(be), v.Sign(), lsb)
}

func pair(c *enum.C, a, b *big.Int) {
	c.Step(2)
	sa, sb := snap(a), snap(b)
	mx, mn := a, b
	if a.Cmp(b) < 0 {
		mx, mn = b, a
	}
	g := math.BigMax(a, b)
	c.Check(g.Cmp(mx) == 0, "BigMax = %v", g)
	g = math.BigMin(a, b)
	c.Check(g.Cmp(mn) == 0, "BigMin = %v", g)
	c.Check(snap(a) == sa && snap(b) == sb, "arguments modified")
	c.State("cmp", a.Cmp(b), sa, sb)
}

func consts(c *enum.C) {
	c.Check(math.MaxBig256.Cmp(new(big.Int).Sub(mod, big.NewInt(1))) == 0, "MaxBig256 = %v", math.MaxBig256)
	c.Check(math.MaxBig63.Cmp(big.NewInt(1<<63-1)) == 0, "MaxBig63 = %v", math.MaxBig63)
}

func main() {
	enum.Main(
		own.Section("M01"),
		enum.Section{Name: "exp-small", Shards: 2, Run: func(c *enum.C) {
			n := int64(c.Pick(140, 400))
			c.Bound("every base and exponent below %d, negative bases", n)
			for b := -n / 4; b < n; b++ {
				if !c.Mine() {
					continue
				}
				for e := int64(0); e < n; e++ {
					b, e := b, e
					c.Case(func() { exp(c, big.NewInt(b), big.NewInt(e)) }, "%d^%d", b, e)
				}
			}
			c.Case(func() { consts(c) }, "constants")
		}},
		enum.Section{Name: "exp-big", Shards: 4, Run: func(c *enum.C) {
			bs := ref.BigSet(4, 320, c.Pick(16, 8))
			es := ref.BigSet(4, 256, c.Pick(32, 16))
			c.Bound("%d structured bases up to 320 bits x %d structured exponents up to 264 bits", len(bs), len(es))
			for _, b := range bs {
				if !c.Mine() {
					continue
				}
				for _, e := range es {
					b, e := b, e
					c.Case(func() { exp(c, new(big.Int).Set(b), new(big.Int).Set(e)) }, "%v^%v", b, e)
				}
			}
			for _, b := range es {
				if c.Mine() {
					b := b
					c.Case(func() { x := new(big.Int).Set(b); exp(c, x, x) }, "%v^itself", b)
				}
			}
		}},
		enum.Section{Name: "single", Shards: 4, Run: func(c *enum.C) {
			set := ref.BigSet(1100, 330, 1)
			c.Bound("%d structured integers up to 340 bits and their negatives; pad lengths 0..40, byte positions 0..41", len(set))
			for _, v := range set {
				if !c.Mine() {
					continue
				}
				v := v
				c.Case(func() { single(c, new(big.Int).Set(v)) }, "%v", v)
				c.Case(func() { single(c, new(big.Int).Neg(v)) }, "-%v", v)
			}
		}},
		enum.Section{Name: "huge", Shards: 2, Run: func(c *enum.C) {
			dense, max := c.Pick(300, 1100), c.Pick(1<<13, 1<<16)
			c.Bound("integers of 0..%d bits, and of the numbers of bits around every power of two and of ten up to %d (one bit, all bits, bits at both ends), positive and negative; pad lengths as large, in bytes; bases and exponents as large", dense, max)
			ref.Sizes(dense, max, func(k int) {
				if !c.Mine() {
					return
				}
				one := big.NewInt(1)
				top := new(big.Int).Lsh(one, uint(k))
				for i, v := range []*big.Int{top, new(big.Int).Sub(top, one), new(big.Int).Add(top, one), big.NewInt(0x1234567890)} {
					for _, n := range []int{0, k / 8, k/8 + 1, k/8 + 9, k} {
						v, n := v, n
						c.Case(func() { huge(c, v, n) }, "2^%d form %d, pad to %d", k, i, n)
						c.Case(func() { huge(c, new(big.Int).Neg(v), n) }, "-2^%d form %d, pad to %d", k, i, n)
					}
					if k <= 1100 || i == 0 {
						v := v
						c.Case(func() { exp(c, new(big.Int).Set(v), big.NewInt(3)) }, "(2^%d form %d)^3", k, i)
						c.Case(func() { exp(c, big.NewInt(3), new(big.Int).Set(v)) }, "3^(2^%d form %d)", k, i)
					}
				}
				{
					for _, b := range []int64{2, -3, 10} {
						b := b
						c.Case(func() {
							want := new(big.Int).Exp(big.NewInt(b), big.NewInt(int64(k)), nil)
							g := math.BigPow(b, int64(k))
							c.Check(g.Cmp(want) == 0, "BigPow(%d, %d) = %v", b, k, g)
						}, "BigPow(%d, %d)", b, k)
					}
				}
			})
		}},
		enum.Section{Name: "pairs", Run: func(c *enum.C) {
			set := ref.BigSet(6, 264, 8)
			var all []*big.Int
			for i, v := range set {
				if i%c.Pick(3, 1) == 0 {
					all = append(all, v, new(big.Int).Neg(v))
				}
			}
			c.Bound("%d x %d pairs", len(all), len(all))
			for _, a := range all {
				for _, b := range all {
					a, b := a, b
					c.Case(func() { pair(c, a, b) }, "%v, %v", a, b)
				}
			}
		}},
		enum.Section{Name: "pow", Run: func(c *enum.C) {
			c.Bound("bases -20..20 and 8 large ones, exponents 0..130")
			bs := []int64{1 << 31, 1<<31 - 1, 1 << 32, 1<<63 - 1, -1 << 63, 1000, 256, 65536}
			for b := int64(-20); b <= 20; b++ {
				bs = append(bs, b)
			}
			for _, b := range bs {
				want := big.NewInt(1)
				for e := int64(0); e <= 130; e++ {
					b, e := b, e
					w := new(big.Int).Set(want)
					c.Case(func() {
						c.Step(1)
						c.State("pow", snap(w))
						g := math.BigPow(b, e)
						c.Check(g.Cmp(w) == 0, "BigPow = %v, want %v", g, w)
						consts(c)
					}, "%d^%d", b, e)
					want.Mul(want, big.NewInt(b))
				}
			}
		}},
	)
}
