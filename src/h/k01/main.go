// K01: Keccak digests for every length and chunking.
package main

import (
	"bytes"
	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"fmt"
	"hash"
)

var algs = []struct {
	bits int
	mk   func() hash.Hash
}{{224, sha3.NewKeccak224}, {256, sha3.NewKeccak256}, {384, sha3.NewKeccak384}, {512, sha3.NewKeccak512}}

func msg(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
		if seed == 0 {
			b[i] = 0
		} else if seed == 1 {
			b[i] = 0xff
		}
	}
	return b
}

func write(c *enum.C, h hash.Hash, p []byte) {
	c.Step(1)
	q := append([]byte{}, p...)
	n, err := h.Write(q)
	c.Check(n == len(p) && err == nil, "Write of %d bytes = %d, %v", len(p), n, err)
	c.Check(bytes.Equal(p, q), "Write modified its argument")
}

func sum(c *enum.C, h hash.Hash, want []byte, what string) {
	c.Step(1)
	got := h.Sum(nil)
	c.Check(bytes.Equal(got, want), "%s: digest %x, want %x", what, got, want)
}

// sums checks every way of appending the digest.
func sums(c *enum.C, h hash.Hash, want []byte) {
	sum(c, h, want, "first")
	for _, pre := range []int{0, 1, 5} {
		for _, extra := range []int{0, 1, len(want) - 1, len(want), len(want) + 1, len(want) + 12} {
			back := bytes.Repeat([]byte{0xEE}, pre+extra+9)
			in := back[: pre : pre+extra]
			c.Step(1)
			out := h.Sum(in)
			c.Check(len(out) == pre+len(want) && bytes.Equal(out[pre:], want), "Sum with %d bytes before and %d spare: %x, want %x", pre, extra, out, want)
			for i := range back {
				if i < pre {
					c.Check(back[i] == 0xEE && out[i] == 0xEE, "Sum changed its argument")
				} else if i >= pre+len(want) {
					c.Check(back[i] == 0xEE, "Sum wrote behind the digest (byte %d of the buffer)", i)
				}
			}
		}
	}
	sum(c, h, want, "second")
}

func split(c *enum.C, ai int, m []byte, cuts ...int) {
	a := algs[ai]
	h := a.mk()
	p := 0
	for _, k := range cuts {
		write(c, h, m[p:k])
		p = k
	}
	write(c, h, m[p:])
	sum(c, h, ref.Keccak(m, a.bits/8), fmt.Sprint("cuts ", cuts))
}

func main() {
	enum.Main(
		own.Section("K01"),
		enum.Section{Name: "lengths", Shards: 4, Run: func(c *enum.C) {
			for ai := range algs {
				a := algs[ai]
				rate := 200 - 2*a.bits/8
				c.Bound("Keccak-%d: every length 0..%d, 3 fillings, one write", a.bits, 4*rate+20)
				for n := 0; n <= 4*rate+20; n++ {
					if !c.Mine() {
						continue
					}
					for _, seed := range []byte{0, 1, 2} {
						m := msg(n, seed)
						c.Case(func() {
							h := a.mk()
							c.Check(h.Size() == a.bits/8, "Size = %d", h.Size())
							c.Check(h.BlockSize() == rate, "BlockSize = %d", h.BlockSize())
							want := ref.Keccak(m, a.bits/8)
							c.State(want)
							write(c, h, m)
							sums(c, h, want)
							// hashing continues after Sum
							write(c, h, []byte("more"))
							sum(c, h, ref.Keccak(append(append([]byte{}, m...), "more"...), a.bits/8), "continued")
							h.Reset()
							sum(c, h, ref.Keccak(nil, a.bits/8), "after Reset")
							write(c, h, m)
							sum(c, h, want, "again after Reset")
							if a.bits == 256 {
								c.Check(bytes.Equal(randentropy.Sha3(m), want), "randentropy.Sha3 = %x", randentropy.Sha3(m))
							}
						}, "keccak%d len %d fill %d", a.bits, n, seed)
					}
				}
			}
		}},
		enum.Section{Name: "huge", Shards: 8, Run: func(c *enum.C) {
			max := c.Pick(1<<17, 1<<22)
			c.Bound("the lengths around every power of two and of ten up to %d, in one write, behind one byte, and in writes of 1000 bytes; digests appended to as many bytes", max)
			for ai := range algs {
				a := algs[ai]
				ref.Sizes(0, max, func(n int) {
					if !c.Mine() {
						return
					}
					m := msg(n, 7)
					want := ref.Keccak(m, a.bits/8)
					c.Case(func() {
						c.State(want)
						split(c, ai, m)
						if n > 0 {
							split(c, ai, m, 1)
							split(c, ai, m, n-1)
						}
						h := a.mk()
						for p := m; len(p) > 0; {
							k := 1000
							if k > len(p) {
								k = len(p)
							}
							write(c, h, p[:k])
							p = p[k:]
						}
						out := h.Sum(m)
						c.Check(len(out) == n+len(want) && bytes.Equal(out[:n], m) && bytes.Equal(out[n:], want), "Sum behind %d bytes is wrong", n)
						if a.bits == 256 {
							c.Check(bytes.Equal(randentropy.Sha3(m), want), "randentropy.Sha3 of %d bytes is wrong", n)
						}
					}, "keccak%d len %d", a.bits, n)
				})
			}
		}},
		enum.Section{Name: "splits2", Shards: 8, Run: func(c *enum.C) {
			for ai := range algs {
				a := algs[ai]
				rate := 200 - 2*a.bits/8
				max := rate + 20
				if c.Thorough() {
					max = 3*rate + 10
				}
				c.Bound("Keccak-%d: every length 0..%d and every split into two writes", a.bits, max)
				for n := 0; n <= max; n++ {
					if !c.Mine() {
						continue
					}
					m := msg(n, 3)
					want := ref.Keccak(m, a.bits/8)
					for k := 0; k <= n; k++ {
						k := k
						c.Case(func() {
							h := a.mk()
							write(c, h, m[:k])
							write(c, h, m[k:])
							sum(c, h, want, "two writes")
						}, "keccak%d len %d cut %d", a.bits, n, k)
					}
				}
			}
		}},
		enum.Section{Name: "splits3", Shards: 8, Run: func(c *enum.C) {
			for ai := range algs {
				a := algs[ai]
				rate := 200 - 2*a.bits/8
				ls := []int{9, 17, 26, rate - 1, rate, rate + 1, 2*rate + 3}
				c.Bound("Keccak-%d: every split into three writes of lengths %v (second cut stepped by 3 for long ones)", a.bits, ls)
				for _, n := range ls {
					m := msg(n, 4)
					want := ref.Keccak(m, a.bits/8)
					for i := 0; i <= n; i++ {
						if !c.Mine() {
							continue
						}
						step := 1
						if n > 40 && !c.Thorough() {
							step = 3
						}
						for j := i; j <= n; j += step {
							i, j := i, j
							c.Case(func() {
								h := a.mk()
								write(c, h, m[:i])
								write(c, h, m[i:j])
								write(c, h, m[j:])
								sum(c, h, want, "three writes")
							}, "keccak%d len %d cuts %d %d", a.bits, n, i, j)
						}
					}
				}
			}
		}},
		enum.Section{Name: "chunks", Run: func(c *enum.C) {
			c.Bound("messages of 3*rate+k bytes written in equal chunks of every size 1..rate+9")
			for ai := range algs {
				a := algs[ai]
				rate := 200 - 2*a.bits/8
				for _, n := range []int{3 * rate, 3*rate + 5, 2*rate + 7} {
					m := msg(n, 5)
					want := ref.Keccak(m, a.bits/8)
					for k := 1; k <= rate+9; k++ {
						k := k
						c.Case(func() {
							h := a.mk()
							for p := m; len(p) > 0; {
								q := p
								if len(q) > k {
									q = q[:k]
								}
								write(c, h, q)
								p = p[len(q):]
							}
							sum(c, h, want, "chunks")
						}, "keccak%d len %d chunk %d", a.bits, n, k)
					}
				}
			}
		}},
		enum.Section{Name: "histories", Shards: 4, Run: func(c *enum.C) {
			depth := c.Pick(4, 5)
			c.Bound("every history of <= %d operations out of Write(0,1,7,8,9,rate-1,rate,rate+1 bytes), Sum, Reset on two interleaved hashers", depth)
			for ai := range algs {
				a := algs[ai]
				rate := 200 - 2*a.bits/8
				sizes := []int{0, 1, 7, 8, 9, rate - 1, rate, rate + 1}
				ops := make([]int, 0, depth)
				var rec func()
				rec = func() {
					if len(ops) > 0 && (len(ops) > 1 || c.Mine()) {
						o := append([]int{}, ops...)
						c.Case(func() {
							h, other := a.mk(), algs[(ai+1)%4].mk()
							var m, om []byte
							for i, k := range o {
								switch {
								case k < len(sizes):
									p := msg(sizes[k], byte(6+i))
									write(c, h, p)
									m = append(m, p...)
									write(c, other, p[:len(p)/2])
									om = append(om, p[:len(p)/2]...)
								case k == len(sizes):
									sum(c, h, ref.Keccak(m, a.bits/8), "mid")
								default:
									h.Reset()
									m = nil
								}
							}
							want := ref.Keccak(m, a.bits/8)
							c.State(a.bits, want)
							sum(c, h, want, "end")
							sum(c, other, ref.Keccak(om, algs[(ai+1)%4].bits/8), "other hasher")
						}, "keccak%d history %v", a.bits, o)
					}
					if len(ops) == depth {
						return
					}
					for k := 0; k < len(sizes)+2; k++ {
						ops = append(ops, k)
						if len(ops) != 2 || c.Mine() {
							rec()
						}
						ops = ops[:len(ops)-1]
					}
				}
				rec()
			}
		}},
	)
}
