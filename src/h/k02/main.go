// K02: elliptic curve group law.
package main

import (
	"flychain/crypto"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"fmt"
	"math/big"
)

func i(v int64) *big.Int { return big.NewInt(v) }

func mk(p, b int64, bits int) *crypto.BitCurve {
	return &crypto.BitCurve{P: i(p), N: i(1), B: i(b), Gx: i(0), Gy: i(0), BitSize: bits}
}

func str(x, y *big.Int) string {
	if x == nil || y == nil {
		return "nil"
	}
	return "(" + x.Text(16) + "," + y.Text(16) + ")"
}

func ptStr(a ref.Pt) string { return str(a.XY()) }

// snap remembers values and tells whether they changed.
func snap(vs ...*big.Int) func() bool {
	var s []string
	for _, v := range vs {
		s = append(s, v.Text(16))
	}
	return func() bool {
		for k, v := range vs {
			if v.Text(16) != s[k] {
				return false
			}
		}
		return true
	}
}

func params(cv *crypto.BitCurve) []*big.Int {
	return []*big.Int{cv.P, cv.N, cv.B, cv.Gx, cv.Gy}
}

// owned overwrites a result: that may change neither the other coordinate nor
// the arguments and the curve.
func owned(c *enum.C, ok func() bool, x, y *big.Int) {
	if x == nil || y == nil {
		return
	}
	sy := y.Text(16)
	prod.Scribble(x)
	c.Check(y.Text(16) == sy, "the coordinates of a result share memory")
	prod.Scribble(y)
	c.Check(ok(), "overwriting a result changes the arguments or the curve")
}

func add(c *enum.C, cv *crypto.BitCurve, a, b ref.Pt) {
	c.Step(1)
	ax, ay := a.XY()
	bx, by := b.XY()
	ok := snap(append(params(cv), ax, ay, bx, by)...)
	x, y := cv.Add(ax, ay, bx, by)
	want := ref.ECAdd(cv.P, a, b)
	c.State(ptStr(want), ptStr(a))
	c.Check(str(x, y) == ptStr(want), "Add(%s, %s) = %s, want %s", ptStr(a), ptStr(b), str(x, y), ptStr(want))
	c.Check(ok(), "Add modified its arguments or the curve")
	owned(c, ok, x, y)
}

func double(c *enum.C, cv *crypto.BitCurve, a ref.Pt) {
	c.Step(1)
	ax, ay := a.XY()
	ok := snap(append(params(cv), ax, ay)...)
	x, y := cv.Double(ax, ay)
	want := ref.ECAdd(cv.P, a, a)
	c.Check(str(x, y) == ptStr(want), "Double(%s) = %s, want %s", ptStr(a), str(x, y), ptStr(want))
	c.Check(ok(), "Double modified its arguments or the curve")
	owned(c, ok, x, y)
}

// same compares a scalar product; a zero scalar may also yield nil.
func same(x, y *big.Int, want ref.Pt, k *big.Int) bool {
	if x == nil && y == nil {
		return k.Sign() == 0
	}
	return str(x, y) == ptStr(want)
}

func mul(c *enum.C, cv *crypto.BitCurve, a ref.Pt, k []byte, base bool) {
	c.Step(1)
	ax, ay := a.XY()
	ok := snap(append(params(cv), ax, ay)...)
	k0 := string(k)
	var x, y *big.Int
	if base {
		x, y = cv.ScalarBaseMult(k)
	} else {
		x, y = cv.ScalarMult(ax, ay, k)
	}
	kv := new(big.Int).SetBytes([]byte(k0))
	want := ref.ECMul(cv.P, kv, a)
	c.State("mul", ptStr(want), ptStr(a))
	c.Check(same(x, y, want, kv), "%x*%s = %s, want %s", k0, ptStr(a), str(x, y), ptStr(want))
	c.Check(ok() && string(k) == k0, "ScalarMult modified its arguments or the curve")
	owned(c, ok, x, y)
}

type pub struct {
	name            string
	get             func() *crypto.BitCurve
	p, n, b, gx, gy string
	bits            int
}

var named = []pub{
	{"secp160k1", crypto.S160, "fffffffffffffffffffffffffffffffeffffac73", "100000000000000000001b8fa16dfab9aca16b6b3", "7", "3b4c382ce37aa192a4019e763036f4f5dd4d7ebb", "938cf935318fdced6bc28286531733c3f03c4fee", 160},
	{"secp192k1", crypto.S192, "fffffffffffffffffffffffffffffffffffffffeffffee37", "fffffffffffffffffffffffe26f2fc170f69466a74defd8d", "3", "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d", "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d", 192},
	{"secp224k1", crypto.S224, "fffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7", "5", "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c", "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5", 224},
	{"secp256k1", crypto.S256, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "7", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 256},
}

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

func main() {
	small := [][2]int64{{5, 1}, {5, 2}, {7, 1}, {7, 3}, {7, 5}, {11, 2}, {13, 1}, {13, 3}, {13, 7}, {17, 5}, {19, 2}, {23, 1}, {29, 4}, {31, 3}, {37, 2}}
	more := [][2]int64{{43, 5}, {61, 7}, {67, 7}, {97, 3}, {103, 2}}
	enum.Main(
		own.Section("K02"),
		enum.Section{Name: "small-add", Shards: 4, Run: func(c *enum.C) {
			cs := append([][2]int64{}, small...)
			cs = append(cs, more...)
			if c.Thorough() {
				cs = append(cs, [2]int64{199, 3}, [2]int64{211, 5}, [2]int64{307, 1})
			}
			c.Bound("every pair of points, every coordinate pair for IsOnCurve, on curves (p,b) = %v", cs)
			for _, pb := range cs {
				t := ref.SmallCurve(pb[0], pb[1])
				cv := mk(pb[0], pb[1], 16)
				on := map[[2]int64]bool{}
				for _, a := range t.Points {
					if !a.Inf {
						on[[2]int64{a.X.Int64(), a.Y.Int64()}] = true
					}
					a := a
					if !c.Mine() {
						continue
					}
					c.Case(func() { double(c, cv, a) }, "p=%d b=%d double %s", pb[0], pb[1], ptStr(a))
					for _, b := range t.Points {
						b := b
						c.Case(func() { add(c, cv, a, b) }, "p=%d b=%d %s+%s", pb[0], pb[1], ptStr(a), ptStr(b))
					}
				}
				for x := int64(0); x < pb[0]; x++ {
					if !c.Mine() {
						continue
					}
					for y := int64(0); y < pb[0]; y++ {
						x, y := x, y
						c.Case(func() {
							c.Step(1)
							bx, by := i(x), i(y)
							got := cv.IsOnCurve(bx, by)
							c.Check(got == on[[2]int64{x, y}], "IsOnCurve = %v", got)
							c.Check(bx.Int64() == x && by.Int64() == y && cv.B.Int64() == pb[1] && cv.P.Int64() == pb[0], "IsOnCurve modified its arguments or the curve")
						}, "p=%d b=%d on (%d,%d)", pb[0], pb[1], x, y)
					}
				}
			}
		}},
		enum.Section{Name: "small-mul", Shards: 8, Run: func(c *enum.C) {
			cs := append([][2]int64{}, small...)
			if c.Thorough() {
				cs = append(cs, more...)
			}
			c.Bound("every point times every scalar 0..2*order+3 (with 0..2 leading zero bytes), and order multiples, on curves %v", cs)
			for _, pb := range cs {
				t := ref.SmallCurve(pb[0], pb[1])
				p := i(pb[0])
				for _, a := range t.Points {
					if !c.Mine() {
						continue
					}
					a := a
					n := ref.Order(p, a)
					cv := mk(pb[0], pb[1], 16)
					cv.Gx, cv.Gy = a.XY()
					cv.N = i(n)
					ks := []int64{}
					for k := int64(0); k <= 2*n+3; k++ {
						ks = append(ks, k)
					}
					for _, m := range []int64{7, 16, 255, 256, 257, 1000, 65536} {
						ks = append(ks, m*n-1, m*n, m*n+1)
					}
					for _, k := range ks {
						for lead := 0; lead < 3; lead++ {
							kb := append(make([]byte, lead), i(k).Bytes()...)
							c.Case(func() {
								mul(c, cv, a, kb, false)
								mul(c, cv, a, kb, true)
							}, "p=%d b=%d %x*%s", pb[0], pb[1], kb, ptStr(a))
						}
					}
				}
			}
		}},
		enum.Section{Name: "long-scalars", Shards: 8, Run: func(c *enum.C) {
			max, lead := c.Pick(128, 1000), c.Pick(1<<10, 1<<13)
			c.Bound("the four named curves: scalars of the lengths around every power of two and of ten up to %d bytes, and a short scalar behind as many zero bytes up to %d", max, lead)
			for _, pc := range named {
				pc := pc
				cv := pc.get()
				g := ref.Pt{X: hx(pc.gx), Y: hx(pc.gy)}
				h := ref.ECMul(hx(pc.p), hx("123456789abcdef0fedcba9876543210"), g)
				ref.Sizes(0, lead, func(n int) {
					if !c.Mine() {
						return
					}
					c.Case(func() { mul(c, cv, h, append(make([]byte, n), 0xb5, 0x03), false) }, "%s %d zero bytes, then b503", pc.name, n)
					if n > max {
						return
					}
					k := make([]byte, n)
					for i := range k {
						k[i] = byte(i*7 + i>>8 + n + 1)
					}
					c.Case(func() {
						mul(c, cv, g, k, true)
						mul(c, cv, h, k, false)
					}, "%s scalar of %d bytes", pc.name, n)
				})
			}
		}},
		enum.Section{Name: "named", Shards: 8, Run: func(c *enum.C) {
			nk := c.Pick(40, 200)
			c.Bound("the four named curves: parameters; all pairs of k*G for |k|<=%d; scalars 0..%d, 2^i+d for every i, N-d, N+d, 2N", c.Pick(8, 14), nk)
			for _, pc := range named {
				pc := pc
				cv := pc.get()
				c.Case(func() {
					c.Step(2)
					c.Check(cv.P.Cmp(hx(pc.p)) == 0, "P = %x", cv.P)
					c.Check(cv.N.Cmp(hx(pc.n)) == 0, "N = %x", cv.N)
					c.Check(cv.B.Cmp(hx(pc.b)) == 0, "B = %x", cv.B)
					c.Check(cv.Gx.Cmp(hx(pc.gx)) == 0, "Gx = %x", cv.Gx)
					c.Check(cv.Gy.Cmp(hx(pc.gy)) == 0, "Gy = %x", cv.Gy)
					c.Check(cv.BitSize == pc.bits, "BitSize = %d", cv.BitSize)
					c.Check(cv.IsOnCurve(cv.Gx, cv.Gy), "the base point is not on the curve")
					c.Check(!cv.IsOnCurve(i(0), i(0)), "(0,0) is on the curve")
					ps := cv.Params()
					c.Check(ps.P.Cmp(cv.P) == 0 && ps.N.Cmp(cv.N) == 0 && ps.B.Cmp(cv.B) == 0 && ps.Gx.Cmp(cv.Gx) == 0 && ps.Gy.Cmp(cv.Gy) == 0 && ps.BitSize == pc.bits, "Params = %+v", ps)
				}, "%s parameters", pc.name)
				p, n := hx(pc.p), hx(pc.n)
				g := ref.Pt{X: hx(pc.gx), Y: hx(pc.gy)}
				var pts []ref.Pt
				w := int64(c.Pick(8, 14))
				for k := -w; k <= w; k++ {
					s := i(k)
					if k < 0 {
						s.Add(s, n)
					}
					pts = append(pts, ref.ECMul(p, s, g))
				}
				for _, a := range pts {
					if !c.Mine() {
						continue
					}
					a := a
					c.Case(func() {
						double(c, cv, a)
						if !a.Inf {
							c.Check(cv.IsOnCurve(a.X, a.Y), "IsOnCurve(%s) is false", ptStr(a))
							c.Check(!cv.IsOnCurve(a.X, new(big.Int).Mod(new(big.Int).Add(a.Y, i(1)), p)), "a point off the curve is accepted")
						}
					}, "%s double %s", pc.name, ptStr(a))
					for _, b := range pts {
						b := b
						c.Case(func() { add(c, cv, a, b) }, "%s %s+%s", pc.name, ptStr(a), ptStr(b))
					}
				}
				var ks []*big.Int
				for k := 0; k <= nk; k++ {
					ks = append(ks, i(int64(k)))
				}
				for b := 8; b <= pc.bits; b += c.Pick(9, 1) {
					for d := int64(-1); d <= 1; d++ {
						v := new(big.Int).Lsh(i(1), uint(b))
						ks = append(ks, v.Add(v, i(d)))
					}
				}
				for d := int64(-3); d <= 3; d++ {
					ks = append(ks, new(big.Int).Add(n, i(d)))
					v := new(big.Int).Lsh(n, 1)
					ks = append(ks, v.Add(v, i(d)))
				}
				h := ref.ECMul(p, hx("123456789abcdef0fedcba9876543210"), g)
				for _, k := range ks {
					if !c.Mine() {
						continue
					}
					kb := k.Bytes()
					c.Case(func() {
						mul(c, cv, g, kb, true)
						mul(c, cv, h, kb, false)
						if k.Cmp(n) == 0 {
							x, y := cv.ScalarBaseMult(kb)
							c.Check(x != nil && x.Sign() == 0 && y.Sign() == 0, "N*G = %s, want the identity", str(x, y))
						}
					}, "%s scalar %x", pc.name, kb)
				}
			}
			_ = fmt.Sprint
		}},
	)
}
