// C03: format verbs of Hash and Address.
package main

import (
	"flychain/common"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"fmt"
	"strings"
)

func list(b []byte) string {
	var s []string
	for _, x := range b {
		s = append(s, fmt.Sprint(int(x)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func want(kind string, b []byte, canon string, verb rune, sharp bool) string {
	d := ref.Hex(b)
	switch verb {
	case 'v', 's':
		return canon
	case 'q':
		return `"` + canon + `"`
	case 'x':
		if sharp {
			return "0x" + d
		}
		return d
	case 'X':
		if sharp {
			return "0X" + strings.ToUpper(d)
		}
		return strings.ToUpper(d)
	case 'd':
		return list(b)
	}
	return "%!" + string(verb) + "(" + kind + "=" + d + ")"
}

type wrapH struct {
	A common.Hash
	B int
	P *common.Hash
}
type wrapA struct {
	A common.Address
	B int
	P *common.Address
}

func forms(c *enum.C, kind string, b []byte, canon string, verb rune, flags string, v, p, sl, arr, m, w, iface interface{}) {
	sharp := strings.Contains(flags, "#")
	x := want(kind, b, canon, verb, sharp)
	f := "%" + flags + string(verb)
	c.State(kind, x, f)
	c.Step(6)
	got := fmt.Sprintf(f, v)
	c.Check(got == x, "Sprintf(%q, value) = %q, want %q", f, got, x)
	got = fmt.Sprintf(f, p)
	c.Check(got == x, "Sprintf(%q, pointer) = %q, want %q", f, got, x)
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' || verb == 'd' {
		if strings.Contains(flags, "#") && verb == 'v' {
			return // %#v of containers prints Go syntax around the elements
		}
		got = fmt.Sprintf(f, sl)
		c.Check(got == "["+x+" "+x+"]", "Sprintf(%q, slice) = %q, want [%s %s]", f, got, x, x)
		got = fmt.Sprintf(f, arr)
		c.Check(got == "["+x+"]", "Sprintf(%q, array) = %q, want [%s]", f, got, x)
		got = fmt.Sprintf(f, iface)
		c.Check(got == "["+x+"]", "Sprintf(%q, interface) = %q, want [%s]", f, got, x)
		got = fmt.Sprintf(f, w)
		c.Check(strings.Count(got, x) >= 2 || x == "", "Sprintf(%q, struct) = %q, want it to contain %q twice", f, got, x)
	}
	_ = m
}

// verbs are all letters but those fmt handles before it asks Format (T, p and
// w), and some runes that are not ASCII.
const verbs = "abcdefghijklmnoqrstuvxyzABCDEFGHIJKLMNOPQRSUVWXYZéß世\U0001f600"

// flagSets are all sets of flags, in one order each.
func flagSets() []string {
	out := []string{""}
	for _, f := range []string{"#", "+", "-", " ", "0"} {
		for _, x := range out[:len(out):len(out)] {
			out = append(out, x+f)
		}
	}
	return out
}

func one(c *enum.C, b []byte, deep bool) {
	h := common.BytesToHash(b)
	a := common.BytesToAddress(b)
	h0, a0 := h, a
	vs, fs, ws, ps := "vsqxXdtTbcoeEfgGUzkyY", []string{"", "#", "+", "-", " "}, []string{""}, []string{""}
	if deep {
		vs, fs = verbs, flagSets()
		ws, ps = []string{"", "1", "3", "41", "67", "100"}, []string{"", ".", ".0", ".1", ".40", ".200"}
	}
	for _, verb := range vs {
		if verb == 'T' {
			continue
		}
		for _, f := range fs {
			for _, w := range ws {
				for _, p := range ps {
					if w != "" && p != "" && len(w) != len(p) {
						continue
					}
					flags := f + w + p
					forms(c, "hash", h0[:], "0x"+ref.Hex(h0[:]), verb, flags, h, &h, []common.Hash{h, h}, [1]common.Hash{h}, nil, wrapH{h, 1, &h}, []interface{}{h})
					forms(c, "address", a0[:], ref.EIP55(a0[:]), verb, flags, a, &a, []common.Address{a, a}, [1]common.Address{a}, nil, wrapA{a, 1, &a}, []interface{}{a})
					c.Check(h == h0 && a == a0, "formatting with %%%s%c changed the value", flags, verb)
				}
			}
		}
	}
	c.Check(fmt.Sprint(h) == "0x"+ref.Hex(h0[:]), "Sprint(hash) = %s", fmt.Sprint(h))
	c.Check(fmt.Sprint(a) == ref.EIP55(a0[:]), "Sprint(address) = %s", fmt.Sprint(a))
	mp := map[common.Address]common.Hash{a: h}
	c.Check(fmt.Sprint(mp) == "map["+ref.EIP55(a0[:])+":0x"+ref.Hex(h0[:])+"]", "Sprint(map) = %v", mp)
}

func main() {
	enum.Main(own.Section("C03"), enum.Section{Name: "verbs", Shards: 4, Run: func(c *enum.C) {
		c.Bound("%d values, 20 verbs, 5 flags, 6 contexts; for 32 of them %d verbs, all sets of flags, widths and precisions", 6*33+c.Pick(400, 4000), len([]rune(verbs)))
		for n := 0; n <= 32; n++ {
			for _, f := range []byte{0, 1, 0x0a, 0xa0, 0xff, 0xc3} {
				if !c.Mine() {
					continue
				}
				b := make([]byte, 32)
				for i := 32 - n; i < 32; i++ {
					b[i] = f + byte(i)*(f>>7)
				}
				c.Case(func() { one(c, b, n == 32 || n == 3) }, "%x", b)
			}
		}
		for i := 0; i < c.Pick(400, 4000); i++ {
			if !c.Mine() {
				continue
			}
			b := ref.Keccak([]byte{byte(i), byte(i >> 8)}, 32)
			c.Case(func() { one(c, b, i < 20) }, "%x", b)
		}
	}})
}
