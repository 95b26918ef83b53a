// K04: mnemonic encoding.
package main

import (
	"flychain/crypto"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"fmt"
	"strings"
)

func enc(c *enum.C, m string) []string {
	c.Step(1)
	w := crypto.MnemonicEncode(m)
	c.Check(len(w) == 24, "%d words for %q", len(w), m)
	return w
}

func round(c *enum.C, m string) []string {
	w := enc(c, m)
	cp := append([]string{}, w...)
	c.Step(1)
	d := crypto.MnemonicDecode(w)
	c.Check(d == m, "%s encodes to %v, which decodes to %s", m, w, d)
	for i := range cp {
		c.Check(cp[i] == w[i], "MnemonicDecode modified its argument")
	}
	for _, x := range w {
		if index[x] == 0 {
			c.Failf("%q is not a word of the list", x)
		}
	}
	return w
}

var index = map[string]int{}

func main() {
	for i, w := range crypto.MnemonicWords {
		if index[w] == 0 {
			index[w] = i + 1
		}
	}
	enum.Main(
		own.Section("K04"),
		enum.Section{Name: "words", Run: func(c *enum.C) {
			c.Bound("the whole word list; index of every word and of absent ones; lists of <= 5 of 3 words")
			c.Case(func() {
				c.Check(len(crypto.MnemonicWords) == 1626, "%d words", len(crypto.MnemonicWords))
				c.Check(len(index) == 1626, "%d distinct words", len(index))
			}, "list")
			for i, w := range crypto.MnemonicWords {
				i, w := i, w
				c.Case(func() {
					c.Step(1)
					c.State(w)
					g := crypto.IndexOf(crypto.MnemonicWords, w)
					c.Check(g == int64(i), "IndexOf(%q) = %d, want %d", w, g, i)
					c.Check(w != "" && strings.TrimSpace(w) == w, "word %q", w)
				}, "word %d", i)
			}
			al := []string{"a", "b", "c"}
			var rec func(l []string)
			rec = func(l []string) {
				l = append([]string{}, l...)
				for _, v := range []string{"a", "b", "c", "d", "", "A", "ab"} {
					v := v
					c.Case(func() {
						c.Step(1)
						want := int64(-1)
						for k := len(l) - 1; k >= 0; k-- {
							if l[k] == v {
								want = int64(k)
							}
						}
						c.State(want, len(l))
						g := crypto.IndexOf(l, v)
						c.Check(g == want, "IndexOf(%v, %q) = %d, want %d", l, v, g, want)
					}, "%v %q", l, v)
				}
				if len(l) < 5 {
					for _, a := range al {
						rec(append(l, a))
					}
				}
			}
			rec(nil)
			c.Case(func() { c.Check(crypto.IndexOf(nil, "a") == -1, "IndexOf(nil)") }, "nil list")
		}},
		enum.Section{Name: "groups", Shards: 8, Run: func(c *enum.C) {
			step := uint64(c.Pick(1, 1))
			c.Bound("8-digit groups: every value below 2^17, every multiple of 2^%d, every a*1626^2+b*1626+d for the corner values, packed 8 to a message", c.Pick(15, 12))
			var batch []uint64
			flush := func() {
				if len(batch) == 0 {
					return
				}
				for len(batch) < 8 {
					batch = append(batch, 0)
				}
				b := batch
				batch = nil
				if !c.Mine() {
					return
				}
				m := ""
				for _, v := range b {
					m += fmt.Sprintf("%08x", v)
				}
				c.Case(func() {
					w := round(c, m)
					c.State(strings.Join(w, " "))
				}, "%s", m)
			}
			put := func(v uint64) {
				batch = append(batch, v&0xffffffff)
				if len(batch) == 8 {
					flush()
				}
			}
			for v := uint64(0); v < 1<<17; v += step {
				put(v)
			}
			for v := uint64(0); v < 1<<32; v += 1 << uint(c.Pick(15, 12)) {
				put(v)
				put(v + 0x7fff)
				put(^v)
			}
			n := uint64(1626)
			cs := []uint64{0, 1, 2, 812, 813, 814, 1623, 1624, 1625}
			for _, a := range append(cs, 1200, 400) {
				for _, b := range cs {
					for _, d := range cs {
						put(a*n*n + b*n + d)
					}
				}
			}
			flush()
		}},
		enum.Section{Name: "positions", Run: func(c *enum.C) {
			gs := []string{"00000000", "00000001", "ffffffff", "0000065a", "80000000", "7fffffff", "deadbeef", "0028564c", "abcdef01", "00ffff00"}
			c.Bound("each of %d groups in each of the 8 positions among each of %d fillers", len(gs), len(gs))
			for _, g := range gs {
				alone := map[string]bool{}
				for pos := 0; pos < 8; pos++ {
					for _, f := range gs {
						g, pos, f := g, pos, f
						c.Case(func() {
							parts := make([]string, 8)
							for i := range parts {
								parts[i] = f
								if i%2 == 1 && i != pos {
									parts[i] = gs[(i+pos)%len(gs)]
								}
							}
							parts[pos] = g
							w := round(c, strings.Join(parts, ""))
							k := strings.Join(w[3*pos:3*pos+3], " ")
							alone[k] = true
							c.State(g, k)
							c.Check(len(alone) == 1, "group %s encodes differently: %v", g, alone)
						}, "%s at %d among %s", g, pos, f)
					}
				}
			}
		}},
		enum.Section{Name: "triples", Shards: 4, Run: func(c *enum.C) {
			ws := []string{}
			for _, i := range []int{0, 1, 2, 813, 1624, 1625} {
				ws = append(ws, crypto.MnemonicWords[i])
			}
			ts := [][]string{}
			for _, a := range ws {
				for _, b := range ws {
					for _, d := range ws {
						ts = append(ts, []string{a, b, d})
					}
				}
			}
			c.Bound("every two of %d triples of words together and alone; the first 3, 6, ... 48 words of 4 lists", len(ts))
			apart := func(l []string) {
				want := ""
				for i := 0; i < len(l); i += 3 {
					c.Step(1)
					want += crypto.MnemonicDecode(append([]string{}, l[i:i+3]...))
				}
				c.Step(1)
				g := crypto.MnemonicDecode(append([]string{}, l...))
				c.State(g)
				c.Check(g == want, "MnemonicDecode(%v) = %s, its triples one by one %s", l, g, want)
			}
			for _, a := range ts {
				a := a
				if c.Mine() {
					c.Case(func() {
						for _, b := range ts {
							apart(append(append([]string{}, a...), b...))
						}
					}, "%v and another", a)
				}
			}
			for k, m := range []string{"0", "f", "0123456789abcdef", "00000001fffffffe80000000"} {
				m = strings.Repeat(m, 64)[:64]
				l := append(crypto.MnemonicEncode(m), crypto.MnemonicEncode(m)...)
				for n := 0; n <= len(l); n += 3 {
					n := n
					c.Case(func() { apart(l[:n]) }, "list %d, %d words", k, n)
					if n <= 24 {
						c.Case(func() {
							g := crypto.MnemonicDecode(append([]string{}, l[:n]...))
							c.Check(g == m[:n/3*8], "MnemonicDecode(%v) = %s, want %s", l[:n], g, m[:n/3*8])
						}, "list %d, %d words, digits", k, n)
					}
				}
			}
		}},
	)
}
