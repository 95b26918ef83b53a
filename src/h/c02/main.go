// C02: EIP-55 text and mixed-case addresses.
package main

import (
	"encoding/json"
	"flychain/common"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"fmt"
	"strings"
)

func isAddr(s string, needPrefix bool) bool {
	if ref.HasPrefix(s) {
		s = s[2:]
	} else if needPrefix {
		return false
	}
	return len(s) == 40 && ref.Digits(s)
}

func digits(s string) string {
	if ref.HasPrefix(s) {
		s = s[2:]
	}
	return s
}

func hexForm(c *enum.C, b []byte) {
	c.Step(4)
	a := common.BytesToAddress(b)
	want := ref.EIP55(a[:])
	c.State(want)
	c.Check(a.Hex() == want, "Hex = %s, want %s", a.Hex(), want)
	c.Check(a.String() == want, "String = %s, want %s", a.String(), want)
	m := common.NewMixedcaseAddress(a)
	c.Check(m.ValidChecksum() && m.Original() == want && m.Address() == a, "NewMixedcaseAddress: %v %s", m.ValidChecksum(), m.Original())
	c.Check(common.IsHexAddress(want), "IsHexAddress rejects %s", want)
}

func text(c *enum.C, s string) {
	c.Step(6)
	want := isAddr(s, false)
	c.Check(common.IsHexAddress(s) == want, "IsHexAddress(%q) = %v", s, !want)
	m, err := common.NewMixedcaseAddressFromString(s)
	c.Check((err == nil) == want, "NewMixedcaseAddressFromString(%q): %v", s, err)
	c.State(want, len(s))
	if want {
		content(c, "FromString", m, s)
	}
	if strings.ContainsAny(s, "\"\\") {
		return
	}
	want = isAddr(s, true)
	var m2 common.MixedcaseAddress
	j, _ := json.Marshal(s)
	for _, x := range s {
		if x < 0x20 || x > 0x7e || x == '<' || x == '>' || x == '&' {
			return
		}
	}
	err = json.Unmarshal(j, &m2)
	c.Check((err == nil) == want, "json.Unmarshal(%s): %v", j, err)
	if want {
		content(c, "JSON", &m2, s)
	}
}

func content(c *enum.C, what string, m *common.MixedcaseAddress, s string) {
	b, _ := ref.RawBytes(digits(s))
	a := m.Address()
	c.Check(ref.Hex(a[:]) == ref.Hex(b), "%s: address %x, want %x", what, a[:], b)
	c.Check(m.Original() == s, "%s: original %q, want %q", what, m.Original(), s)
	valid := s == ref.EIP55(b)
	c.Check(m.ValidChecksum() == valid, "%s: ValidChecksum = %v for %s", what, m.ValidChecksum(), s)
	str := m.String()
	tag := "[chksum INVALID]"
	if valid {
		tag = "[chksum ok]"
	}
	c.Check(str == s+" "+tag, "%s: String = %q", what, str)
	c.State(what, valid, s)
	j, err := json.Marshal(m)
	c.Check(err == nil, "%s: Marshal: %v", what, err)
	c.Check(string(j) == `"0x`+digits(s)+`"`, "%s: JSON form %s of %s does not keep the text", what, j, s)
	var m2 common.MixedcaseAddress
	err = json.Unmarshal(j, &m2)
	c.Check(err == nil, "%s: Unmarshal(%s): %v", what, j, err)
	c.Check(m2.Address() == a, "%s: JSON form %s decodes to %x", what, j, m2.Address())
}

var vectors = []string{
	"0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed", "0xfB6916095ca1df60bB79Ce92cE3Ea74c37c5d359",
	"0xdbF03B407c01E7cD3CBea99509d93f8DDDC8C6FB", "0xD1220A0cf47c7B9Be7A2E6BA89F429762e7b9aDb",
	"0x52908400098527886E0F7030069857D2E4169EE7", "0x8617E340B3D01FA5F11F306F4090FD50E238070D",
	"0xde709f2102306220921060314715629080e2fb77", "0x27b1fdb04752bbc536007a920d24acb045561c26",
}

func main() {
	enum.Main(
		own.Section("C02"),
		enum.Section{Name: "vectors", Run: func(c *enum.C) {
			c.Bound("the test vectors of EIP-55 and every single-letter case flip of them, with three prefixes")
			for _, v := range vectors {
				v := v
				c.Case(func() {
					b, _ := ref.RawBytes(v[2:])
					c.Check(ref.EIP55(b) == v, "reference %s", ref.EIP55(b))
					hexForm(c, b)
				}, "%s", v)
				for i := 1; i < len(v); i++ {
					ch := v[i]
					if ch >= 'a' {
						ch -= 32
					} else if ch >= 'A' {
						ch += 32
					}
					s := v[:i] + string([]byte{ch}) + v[i+1:]
					c.Case(func() { text(c, s) }, "%s", s)
					if i >= 2 {
						c.Case(func() { text(c, s[2:]) }, "%s", s[2:])
						c.Case(func() { text(c, "0X"+s[2:]) }, "0X%s", s[2:])
					}
				}
			}
		}},
		enum.Section{Name: "addresses", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(2, 3)
			c.Bound("every address of the form 20 bytes with %d free bytes out of 16 values, 12 placements; 2^16 tails", n)
			for i := 0; i < 1<<16; i += c.Pick(4, 1) {
				if c.Mine() {
					i := i
					c.Case(func() { hexForm(c, []byte{byte(i >> 8), byte(i)}) }, "tail %04x", i)
				}
			}
			for p := 0; p < 12; p++ {
				for v := 0; v < 1<<(4*uint(n)); v++ {
					if !c.Mine() {
						continue
					}
					b := make([]byte, 20)
					for k := 0; k < n; k++ {
						x := byte(v >> uint(4*k) & 15)
						b[(p+k*3)%20] = 0xa0 | x
						b[(p+k*3+7)%20] = x<<4 | 0xb
					}
					c.Case(func() { hexForm(c, b); text(c, ref.EIP55(b)) }, "%x", b)
				}
			}
		}},
		enum.Section{Name: "grammar", Shards: 2, Run: func(c *enum.C) {
			c.Bound("0..44 digits, 6 prefixes, every byte value at 6 positions, a bad byte at every position; every string of length <= 5 over 8 characters")
			for n := 0; n <= 44; n++ {
				for _, pre := range []string{"", "0x", "0X", "x", "0", "1x"} {
					for _, f := range []string{"a", "F", "1", "0"} {
						if !c.Mine() {
							continue
						}
						s := pre + strings.Repeat(f, n)
						c.Case(func() { text(c, s) }, "%q", s)
						for i := 0; i < n && n >= 38; i++ {
							for _, b := range []string{"g", "x", "X", " ", "/", ":", "@", "G", "`"} {
								t := pre + strings.Repeat(f, i) + b + strings.Repeat(f, n-i-1)
								c.Case(func() { text(c, t) }, "%q", t)
							}
						}
					}
				}
			}
			base := strings.Repeat("aB", 20)
			for _, i := range []int{0, 1, 2, 20, 38, 39} {
				for b := 0; b < 256; b++ {
					s := base[:i] + string([]byte{byte(b)}) + base[i+1:]
					for _, pre := range []string{"", "0x", "0X"} {
						t := pre + s
						c.Case(func() { text(c, t) }, "%q", t)
					}
				}
			}
			ref.Strings([]string{"0", "x", "X", "a", "G", "1", "-", " "}, 5, func(s string) {
				if c.Mine() {
					c.Case(func() { text(c, s) }, "%q", s)
				}
			})
		}},
		enum.Section{Name: "json", Run: func(c *enum.C) {
			c.Bound("JSON values that are not address strings leave an error, valid ones reuse the target")
			good := "0x" + strings.Repeat("aB", 20)
			for _, j := range []string{"null", "1", "{}", "[]", "true", `""`, `"0x"`, `"` + good[2:] + `"`, `"` + good + `0"`, `["` + good + `"]`} {
				j := j
				c.Case(func() {
					c.Step(1)
					var m common.MixedcaseAddress
					err := m.UnmarshalJSON([]byte(j))
					c.Check(err != nil, "accepted")
					c.Check(m.Original() == "", "rejected input left original %q", m.Original())
					c.State(j)
				}, "%s", j)
			}
			for _, v := range vectors {
				v := v
				c.Case(func() {
					c.Step(1)
					m, _ := common.NewMixedcaseAddressFromString(good)
					err := json.Unmarshal([]byte(fmt.Sprintf("%q", v)), m)
					c.Check(err == nil, "%v", err)
					content(c, "reused", m, v)
				}, "reuse %s", v)
			}
		}},
	)
}
