// K03: key generation and point serialisation.
package main

import (
	"bytes"
	crand "crypto/rand"
	"errors"
	"flychain/crypto"
	"flychain/crypto/randentropy"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"io"
	"math/big"
)

func i(v int64) *big.Int { return big.NewInt(v) }

// source delivers fixed bytes in pieces, then an error for ever.
type source struct {
	data  []byte
	piece int
	err   error
	with  bool // deliver the error together with the last bytes
	reads int
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 10000 {
		panic("the random source is read without end")
	}
	if len(s.data) == 0 {
		return 0, s.err
	}
	n := len(p)
	if s.piece > 0 && n > s.piece {
		n = s.piece
	}
	if n > len(s.data) {
		n = len(s.data)
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if s.with && len(s.data) == 0 {
		return n, s.err
	}
	return n, nil
}

var errSrc = errors.New("source failed")

func gen(c *enum.C, cv *crypto.BitCurve, g ref.Pt, s *source, full bool, src error) {
	c.Step(1)
	bl := (cv.BitSize + 7) / 8
	data := append([]byte{}, s.data...)
	priv, x, y, err := cv.GenerateKey(s)
	if err != nil {
		c.State("err")
		ok := err == src || src == io.EOF && err == io.ErrUnexpectedEOF
		c.Check(ok, "error %v, the source failed with %v", err, src)
		c.Check(!full, "fails with %v although the source delivers % x, which contains a usable key", err, data)
		return
	}
	used := len(data) - len(s.data)
	c.Check(used >= bl, "a key of %d bytes was made from %d random bytes", bl, used)
	c.Check(len(priv) == bl, "private key of %d bytes, want %d", len(priv), bl)
	k := new(big.Int).SetBytes(priv)
	want := ref.ECMul(cv.P, k, g)
	c.State(priv)
	c.Check(x != nil && y != nil, "public key nil")
	c.Check(!want.Inf && !(x.Sign() == 0 && y.Sign() == 0), "the public key of %x is the identity", priv)
	c.Check(x.Cmp(want.X) == 0 && y.Cmp(want.Y) == 0, "public key (%x,%x) of %x, want (%x,%x)", x, y, priv, want.X, want.Y)
	c.Check(cv.IsOnCurve(x, y), "public key off the curve")
}

type toy struct {
	p, b int64
	bits int
}

// generator finds a point of maximal order.
func generator(t toy) (ref.Pt, int64) {
	sc := ref.SmallCurve(t.p, t.b)
	var best ref.Pt
	bo := int64(0)
	for k, a := range sc.Points[1:] {
		if n := ref.Order(i(t.p), a); n > bo {
			best, bo = a, n
		}
		if k > 30 || 2*bo > int64(len(sc.Points)) {
			break
		}
	}
	return best, bo
}

func curve(t toy, g ref.Pt, n int64) *crypto.BitCurve {
	return &crypto.BitCurve{P: i(t.p), N: i(n), B: i(t.b), Gx: new(big.Int).Set(g.X), Gy: new(big.Int).Set(g.Y), BitSize: t.bits}
}

func point(c *enum.C, cv *crypto.BitCurve, x, y *big.Int) {
	c.Step(2)
	bl := (cv.BitSize + 7) / 8
	sx, sy := x.Text(16), y.Text(16)
	m := cv.Marshal(x, y)
	want := append([]byte{4}, pad(x, bl)...)
	want = append(want, pad(y, bl)...)
	c.State(want)
	c.Check(bytes.Equal(m, want), "Marshal = %x, want %x", m, want)
	ux, uy := cv.Unmarshal(m)
	c.Check(ux != nil && uy != nil && ux.Cmp(x) == 0 && uy.Cmp(y) == 0, "Unmarshal(%x) = %v, %v", m, ux, uy)
	c.Check(bytes.Equal(m, want), "Unmarshal modified its input")
	c.Check(x.Text(16) == sx && y.Text(16) == sy, "arguments modified")
}

func pad(v *big.Int, n int) []byte {
	b := v.Bytes()
	return append(make([]byte, n-len(b)), b...)
}

func reject(c *enum.C, cv *crypto.BitCurve, d []byte) {
	c.Step(1)
	bl := (cv.BitSize + 7) / 8
	x, y := cv.Unmarshal(d)
	ok := len(d) == 1+2*bl && d[0] == 4
	c.Check((x != nil) == ok && (y != nil) == ok, "Unmarshal(%x) = %v, %v", d, x, y)
	if ok {
		c.Check(x.Cmp(new(big.Int).SetBytes(d[1:1+bl])) == 0 && y.Cmp(new(big.Int).SetBytes(d[1+bl:])) == 0, "Unmarshal(%x) = %v, %v", d, x, y)
	}
}

func main() {
	toys := []toy{{263, 3, 9}, {257, 2, 9}, {523, 5, 10}, {1033, 2, 11}, {2053, 3, 12}, {4099, 2, 13}, {8209, 7, 14}, {16411, 2, 15}, {32771, 3, 16}}
	enum.Main(
		own.Section("K03"),
		enum.Section{Name: "streams", Shards: 8, Run: func(c *enum.C) {
			ts := []toy{toys[0], toys[4], toys[8]}
			if c.Thorough() {
				ts = toys
			}
			c.Bound("every 2-byte random block (followed by a good one) on %d curves of 9..16 bits, read whole or byte by byte", len(ts))
			for _, t := range ts {
				g, n := generator(t)
				cv := curve(t, g, n)
				for v := 0; v < 1<<16; v++ {
					if !c.Mine() {
						continue
					}
					v := v
					c.Case(func() {
						gen(c, cv, g, &source{data: []byte{byte(v >> 8), byte(v), 0, 0x43, 0, 0x40, 0, 0x47}, piece: v & 1, err: errSrc}, true, errSrc)
					}, "p=%d stream %04x", t.p, v)
				}
			}
		}},
		enum.Section{Name: "retries", Shards: 8, Run: func(c *enum.C) {
			c.Bound("every sequence of <= 3 blocks out of {zero scalar, order multiples, 1, order-1, random} and every cut-off, 3 errors, 3 read sizes, %d curves", c.Pick(4, 9))
			ts := []toy{toys[0], toys[1], toys[4], toys[8]}
			if c.Thorough() {
				ts = toys
			}
			for _, t := range ts {
				g, n := generator(t)
				cv := curve(t, g, n)
				lim := int64(1) << uint(t.bits)
				mults := []int64{0, n, 2 * n, 3 * n}
				goods := []int64{1, n - 1, n + 1, 0x101 & (lim - 1)}
				var blocks []int64
				for _, m := range mults {
					if m < lim {
						blocks = append(blocks, m)
					}
				}
				blocks = append(blocks, goods...)
				var rec func(pre []int64)
				rec = func(pre []int64) {
					if len(pre) > 0 && c.Mine() {
						pre := append([]int64{}, pre...)
						var data []byte
						for _, v := range pre {
							data = append(data, byte(v>>8), byte(v)^0x42)
						}
						for cut := 0; cut <= len(data); cut++ {
							for _, e := range []error{errSrc, io.EOF, io.ErrClosedPipe} {
								for piece := 0; piece < 3; piece++ {
									cut, e, piece := cut, e, piece
									c.Case(func() {
										gen(c, cv, g, &source{data: append([]byte{}, data[:cut]...), piece: piece, err: e, with: piece == 2}, false, e)
									}, "p=%d blocks %x cut %d err %v piece %d", t.p, pre, cut, e, piece)
								}
							}
						}
					}
					if len(pre) == 3 {
						return
					}
					for _, b := range blocks {
						rec(append(pre, b))
					}
				}
				rec(nil)
			}
		}},
		enum.Section{Name: "points", Shards: 2, Run: func(c *enum.C) {
			c.Bound("every point of 4 toy curves; small, large and structured coordinates on the named curves; all leading bytes and lengths")
			for _, t := range []toy{toys[0], toys[1], toys[2], toys[4]} {
				g, n := generator(t)
				cv := curve(t, g, n)
				for _, a := range ref.SmallCurve(t.p, t.b).Points {
					if !c.Mine() {
						continue
					}
					x, y := a.XY()
					c.Case(func() { point(c, cv, x, y) }, "p=%d (%v,%v)", t.p, x, y)
				}
			}
			for _, cv := range []*crypto.BitCurve{crypto.S160(), crypto.S192(), crypto.S224(), crypto.S256()} {
				cv := cv
				g := ref.Pt{X: cv.Gx, Y: cv.Gy}
				for k := int64(1); k < 40; k++ {
					a := ref.ECMul(cv.P, i(k), g)
					c.Case(func() { point(c, cv, a.X, a.Y) }, "%d bits %d*G", cv.BitSize, k)
				}
				for s := 0; s < cv.BitSize; s += 3 {
					v := new(big.Int).Lsh(i(1), uint(s))
					w := new(big.Int).Sub(v, i(1))
					c.Case(func() { point(c, cv, v, w) }, "%d bits 2^%d", cv.BitSize, s)
				}
				bl := (cv.BitSize + 7) / 8
				good := cv.Marshal(cv.Gx, cv.Gy)
				for b := 0; b < 256; b++ {
					d := append([]byte{byte(b)}, good[1:]...)
					c.Case(func() { reject(c, cv, d) }, "%d bits leading %02x", cv.BitSize, b)
				}
				for l := 0; l <= 4*bl+4; l++ {
					d := append(append([]byte{}, good...), good...)[:l]
					c.Case(func() { reject(c, cv, d) }, "%d bits length %d", cv.BitSize, l)
				}
				c.Case(func() { reject(c, cv, nil) }, "%d bits nil", cv.BitSize)
			}
		}},
		enum.Section{Name: "named-keys", Run: func(c *enum.C) {
			c.Bound("keys on the named curves: streams of constant bytes, streams that make the order, its neighbours and zero, and their cut-offs")
			for _, cv := range []*crypto.BitCurve{crypto.S160(), crypto.S192(), crypto.S224(), crypto.S256()} {
				cv := cv
				g := ref.Pt{X: cv.Gx, Y: cv.Gy}
				bl := (cv.BitSize + 7) / 8
				var keys []*big.Int
				for d := int64(-2); d <= 2; d++ {
					keys = append(keys, new(big.Int).Add(cv.N, i(d)))
				}
				for d := int64(0); d < 4; d++ {
					keys = append(keys, i(d), new(big.Int).Sub(new(big.Int).Lsh(i(1), uint(8*bl)), i(d+1)))
				}
				fallback := bytes.Repeat([]byte{0x11}, bl)
				for _, k := range keys {
					if k.BitLen() > 8*bl {
						continue
					}
					b := pad(k, bl)
					b[1] ^= 0x42
					k := k
					c.Case(func() {
						gen(c, cv, g, &source{data: append(append([]byte{}, b...), fallback...), err: errSrc}, true, errSrc)
					}, "%d bits key %x", cv.BitSize, k)
				}
				for _, f := range []byte{0, 1, 0x42, 0x80, 0xff} {
					f := f
					c.Case(func() {
						gen(c, cv, g, &source{data: bytes.Repeat([]byte{f}, 2*bl), err: errSrc, piece: 3}, true, errSrc)
					}, "%d bits fill %02x", cv.BitSize, f)
				}
				for cut := 0; cut < bl; cut++ {
					cut := cut
					c.Case(func() {
						gen(c, cv, g, &source{data: fallback[:cut:cut], err: errSrc}, false, errSrc)
						gen(c, cv, g, &source{data: fallback[:cut:cut], err: io.EOF}, false, io.EOF)
					}, "%d bits cut %d", cv.BitSize, cut)
				}
			}
		}},
		enum.Section{Name: "bits", Shards: 8, Run: func(c *enum.C) {
			c.Bound("the keys of all 2-byte blocks on the curves of <= %d bits; on the others, and on the named curves, every one-bit change of 2 blocks", c.Pick(15, 16))
			for _, t := range toys {
				if !c.Mine() {
					continue
				}
				t := t
				c.Case(func() {
					g, n := generator(t)
					cv := curve(t, g, n)
					keys := map[string]bool{}
					key := func(v int) {
						c.Step(1)
						priv, _, _, err := cv.GenerateKey(bytes.NewReader([]byte{byte(v >> 8), byte(v)}))
						if err == nil {
							keys[string(priv)] = true
							c.Check(new(big.Int).SetBytes(priv).BitLen() <= t.bits, "key %x of %d bits", priv, t.bits)
						}
					}
					all := 1 << uint(t.bits)
					want := all - 1 - (all-1)/int(n)
					if t.bits > c.Pick(15, 16) {
						for _, v := range []int{0x1234, 0x0a5b} {
							keys = map[string]bool{}
							key(v)
							key(v | 0xffff&^(all-1))
							for bit := 0; bit < t.bits; bit++ {
								key(v ^ 1<<uint(bit))
							}
							c.Check(len(keys) == t.bits+1, "%d different keys out of the block %04x and its one-bit changes below bit %d, want %d", len(keys), v, t.bits, t.bits+1)
						}
						return
					}
					for v := 0; v < all; v++ {
						key(v)
						key(v | 0xffff&^(all-1))
					}
					c.State(want)
					c.Check(len(keys) == want, "%d different keys of %d bits out of all blocks, want %d", len(keys), t.bits, want)
				}, "p=%d", t.p)
			}
			for _, cv := range []*crypto.BitCurve{crypto.S160(), crypto.S192(), crypto.S224(), crypto.S256()} {
				bl := (cv.BitSize + 7) / 8
				for _, f := range []byte{0x11, 0xa8} {
					if !c.Mine() {
						continue
					}
					cv, f := cv, f
					c.Case(func() {
						seen := map[string]int{}
						for bit := -1; bit < cv.BitSize; bit++ {
							c.Step(1)
							b := bytes.Repeat([]byte{f}, bl)
							if bit >= 0 {
								b[len(b)-1-bit/8] ^= 1 << uint(bit%8)
							}
							priv, _, _, err := cv.GenerateKey(bytes.NewReader(b))
							c.Check(err == nil, "block %x: %v", b, err)
							o, dup := seen[string(priv)]
							c.Check(!dup, "changing bit %d of the random block gives the same key as changing bit %d (-1: none): %x", bit, o, priv)
							seen[string(priv)] = bit
						}
						c.State(cv.BitSize, f)
					}, "%d bits, block of %02x", cv.BitSize, f)
				}
			}
		}},
		enum.Section{Name: "entropy", Run: func(c *enum.C) {
			c.Bound("0..%d bytes from a system source that delivers 0, 1, 2, 3, 7 or all bytes at a time, and ends early or not", c.Pick(100, 300))
			sys := crand.Reader
			with := func(s *source, f func()) {
				crand.Reader = s
				defer func() { crand.Reader = sys }()
				f()
			}
			var data []byte
			for i := 0; i < 400; i++ {
				data = append(data, byte(i*7+i>>8+1))
			}
			for n := 0; n <= c.Pick(100, 300); n++ {
				for _, piece := range []int{0, 1, 2, 3, 7} {
					for k, get := range []func(n int) []byte{
						randentropy.GetEntropyCSPRNG,
						func(n int) []byte {
							b := make([]byte, n+4)
							m, err := randentropy.Reader.Read(b[2 : n+2])
							c.Check(m == n && err == nil, "Read of %d bytes returns %d, %v", n, m, err)
							c.Check(b[0]|b[1]|b[n+2]|b[n+3] == 0, "Read of %d bytes writes beside them: %x", n, b)
							return b[2 : n+2]
						},
					} {
						n, piece, get := n, piece, get
						c.Case(func() {
							c.Step(2)
							with(&source{data: append([]byte{}, data...), piece: piece, err: errSrc}, func() {
								a := get(n)
								c.Check(bytes.Equal(a, data[:n]), "gives %x, the source %x", a, data[:n])
								b := get(n)
								if 2*n <= len(data) {
									c.Check(bytes.Equal(b, data[n:2*n]), "gives %x then, the source %x", b, data[n:2*n])
								}
								c.Check(bytes.Equal(a, data[:n]), "the bytes given before change to %x", a)
								c.State(n, piece)
							})
						}, "call %d, %d bytes by %d", k, n, piece)
						for _, cut := range []int{0, 1, n / 2, n - 1, n} {
							cut := cut
							if cut < 0 || cut > n || 2*n > len(data) {
								continue
							}
							c.Case(func() {
								for _, e := range []error{io.EOF, errSrc, io.ErrUnexpectedEOF} {
									c.Step(1)
									with(&source{data: append([]byte{}, data[:cut]...), piece: piece, err: e, with: true}, func() {
										var a []byte
										failed, v := enum.Panics(func() { a = get(n) })
										if !failed {
											c.Check(cut == n && bytes.Equal(a, data[:n]), "gives %x although the source fails with %v after %x", a, e, data[:cut])
										} else {
											c.Check(cut < n, "panics with %v although the source delivers all", v)
										}
									})
								}
							}, "call %d, %d bytes by %d, the source fails after %d", k, n, piece, cut)
						}
					}
				}
			}
			for _, cv := range []*crypto.BitCurve{crypto.S160(), crypto.S256()} {
				cv := cv
				c.Case(func() {
					with(&source{data: append([]byte{}, data...), piece: 3}, func() {
						k, x, y, err := cv.GenerateKey(randentropy.Reader)
						l, u, v, err2 := cv.GenerateKey(bytes.NewReader(data))
						c.Check(err == nil && err2 == nil && bytes.Equal(k, l) && x.Cmp(u) == 0 && y.Cmp(v) == 0, "key %x from the system source, %x from the same bytes", k, l)
					})
				}, "key of %d bits", cv.BitSize)
			}
		}},
	)
}
