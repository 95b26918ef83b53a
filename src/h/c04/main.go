// C04: byte and hex helpers.
package main

import (
	"bytes"
	"flychain/common"
	"flychain/common/hexutil"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"strings"
)

const guard = 0xEE

// guarded returns a copy of b inside a larger array filled with guard bytes.
func guarded(b []byte) (s, back []byte) {
	back = bytes.Repeat([]byte{guard}, len(b)+16)
	copy(back[4:], b)
	return back[4 : 4+len(b)], back
}

func intact(c *enum.C, what string, b, back []byte) {
	for i, x := range back {
		w := byte(guard)
		if i >= 4 && i < 4+len(b) {
			w = b[i-4]
		}
		c.Check(x == w, "%s modified its input or memory behind it: % x", what, back)
	}
}

func check(c *enum.C, b []byte) {
	s, back := guarded(b)
	for l := -1; l <= len(b)+6; l++ {
		c.Step(2)
		want := append([]byte{}, b...)
		for len(want) < l {
			want = append(want, 0)
		}
		got := common.RightPadBytes(s, l)
		c.Check(bytes.Equal(got, want), "RightPadBytes(%d) = % x, want % x", l, got, want)
		intact(c, "RightPadBytes", b, back)
		want = append([]byte{}, b...)
		for len(want) < l {
			want = append([]byte{0}, want...)
		}
		got = common.LeftPadBytes(s, l)
		c.Check(bytes.Equal(got, want), "LeftPadBytes(%d) = % x, want % x", l, got, want)
		intact(c, "LeftPadBytes", b, back)
		c.State(want)
		// trimming inverts padding
		got = common.TrimLeftZeroes(common.LeftPadBytes(s, l))
		c.Check(bytes.Equal(got, trimL(b)), "TrimLeftZeroes(LeftPadBytes(%d)) = % x", l, got)
		got = common.TrimRightZeroes(common.RightPadBytes(s, l))
		c.Check(bytes.Equal(got, trimR(b)), "TrimRightZeroes(RightPadBytes(%d)) = % x", l, got)
	}
	c.Step(6)
	got := common.TrimLeftZeroes(s)
	c.Check(bytes.Equal(got, trimL(b)), "TrimLeftZeroes = % x, want % x", got, trimL(b))
	got = common.TrimRightZeroes(s)
	c.Check(bytes.Equal(got, trimR(b)), "TrimRightZeroes = % x, want % x", got, trimR(b))
	intact(c, "Trim", b, back)
	cp := common.CopyBytes(s)
	c.Check(bytes.Equal(cp, b) && cp != nil, "CopyBytes = % x", cp)
	for i := range cp {
		cp[i] ^= 0xff
	}
	cp = append(cp, 1, 2, 3)
	intact(c, "CopyBytes (shares memory)", b, back)
	cp2 := common.CopyBytes(s)
	for i := range s {
		s[i] ^= 0xff
	}
	c.Check(bytes.Equal(cp2, b), "CopyBytes shares memory with its source")
	for i := range s {
		s[i] ^= 0xff
	}
	h := common.Bytes2Hex(s)
	c.Check(h == ref.Hex(b), "Bytes2Hex = %s", h)
	c.Check(bytes.Equal(common.Hex2Bytes(h), b), "Hex2Bytes(%s) = % x", h, common.Hex2Bytes(h))
	up := strings.ToUpper(h)
	c.Check(bytes.Equal(common.Hex2Bytes(up), b), "Hex2Bytes(%s) = % x", up, common.Hex2Bytes(up))
	for l := 0; l <= len(b)+3; l++ {
		c.Step(1)
		want := make([]byte, l)
		for i := 1; i <= l && i <= len(b); i++ {
			want[l-i] = b[len(b)-i]
		}
		got := common.Hex2BytesFixed(h, l)
		c.Check(bytes.Equal(got, want), "Hex2BytesFixed(%s, %d) = % x, want % x", h, l, got, want)
		got = common.Hex2BytesFixed(up, l)
		c.Check(bytes.Equal(got, want), "Hex2BytesFixed(%s, %d) = % x, want % x", up, l, got, want)
	}
}

// checkLong is check for one pad length.
func checkLong(c *enum.C, b []byte, l int) {
	c.Step(8)
	s, back := guarded(b)
	n := len(b)
	pad := 0
	if l > n {
		pad = l - n
	}
	zero := make([]byte, pad)
	got := common.RightPadBytes(s, l)
	c.Check(len(got) == n+pad && bytes.Equal(got[:n], b) && bytes.Equal(got[n:], zero), "RightPadBytes(%d bytes, %d) is wrong", n, l)
	got = common.LeftPadBytes(s, l)
	c.Check(len(got) == n+pad && bytes.Equal(got[pad:], b) && bytes.Equal(got[:pad], zero), "LeftPadBytes(%d bytes, %d) is wrong", n, l)
	intact(c, "pad", b, back)
	for _, x := range [][]byte{s, common.LeftPadBytes(s, l), common.RightPadBytes(s, l)} {
		y, xb := guarded(x)
		c.Check(bytes.Equal(common.TrimLeftZeroes(y), trimL(x)), "TrimLeftZeroes of %d bytes is wrong", len(x))
		c.Check(bytes.Equal(common.TrimRightZeroes(y), trimR(x)), "TrimRightZeroes of %d bytes is wrong", len(x))
		intact(c, "trim", x, xb)
		cp := common.CopyBytes(y)
		c.Check(bytes.Equal(cp, x), "CopyBytes of %d bytes is wrong", len(x))
		for i := range cp {
			cp[i] ^= 0xff
		}
		intact(c, "CopyBytes (shares memory)", x, xb)
	}
	h := common.Bytes2Hex(s)
	c.Check(h == ref.Hex(b), "Bytes2Hex of %d bytes is wrong", n)
	c.Check(bytes.Equal(common.Hex2Bytes(h), b), "Hex2Bytes of %d bytes is wrong", n)
	for _, l := range []int{l, n / 2, n - 1, n, n + 1} {
		if l < 0 {
			continue
		}
		want := make([]byte, l)
		if l > n {
			copy(want[l-n:], b)
		} else {
			copy(want, b[n-l:])
		}
		c.Check(bytes.Equal(common.Hex2BytesFixed(h, l), want), "Hex2BytesFixed of %d bytes to %d is wrong", n, l)
	}
	c.State(n, l)
}

func trimL(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

func trimR(b []byte) []byte {
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b
}

func hexStr(c *enum.C, s string) {
	c.Step(2)
	d := s
	if ref.HasPrefix(s) {
		d = s[2:]
	}
	if ref.Digits(d) {
		if len(d)%2 == 1 {
			d = "0" + d
		}
		want, _ := ref.RawBytes(d)
		got := common.FromHex(s)
		c.Check(bytes.Equal(got, want), "FromHex = % x, want % x", got, want)
	} else {
		common.FromHex(s)
	}
	got, err := common.ParseHexOrString(s)
	want, ds := ref.BytesText(s)
	c.State(len(want), strings.Join(ds, ","))
	switch {
	case s == "":
		c.Check(err != nil && err.Error() == hexutil.ErrEmptyString.Error(), "ParseHexOrString of empty input = % x, %v", got, err)
	case !ref.HasPrefix(s):
		c.Check(err == nil && string(got) == s, "ParseHexOrString = %q, %v", got, err)
	case ds == nil:
		c.Check(err == nil && bytes.Equal(got, want), "ParseHexOrString = % x, %v, want % x", got, err, want)
	default:
		c.Check(err != nil, "ParseHexOrString accepts %q as % x", s, got)
	}
}

func main() {
	enum.Main(
		own.Section("C04"),
		enum.Section{Name: "bytes", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(6, 7)
			c.Bound("every byte string of length <= %d over 5 bytes, every pad length up to 6 more; 0..40 bytes with one non-zero byte", n)
			ref.ByteStrings([]byte{0, 1, 0x0f, 0x80, 0xff}, n, func(b []byte) {
				if !c.Mine() {
					return
				}
				x := append([]byte{}, b...)
				c.Case(func() { check(c, x) }, "[% x]", x)
			})
			for n := 0; n <= 40; n++ {
				for i := 0; i < n; i++ {
					for _, f := range []byte{0, 0xff} {
						x := bytes.Repeat([]byte{f}, n)
						x[i] = 7
						c.Case(func() { check(c, x) }, "[% x]", x)
					}
				}
			}
		}},
		enum.Section{Name: "huge", Shards: 2, Run: func(c *enum.C) {
			dense, max := c.Pick(300, 1100), c.Pick(1<<16, 1<<20)
			c.Bound("0..%d bytes and the lengths around every power of two and of ten up to %d, padded by nothing, one byte, as much again and up to 1000 bytes; texts as long, with a bad character", dense, max)
			ref.Sizes(dense, max, func(n int) {
				if !c.Mine() {
					return
				}
				x := make([]byte, n)
				for i := range x {
					x[i] = byte(i*7 + i>>8 + n)
				}
				for _, l := range []int{0, n, n + 1, 2 * n, 1000} {
					c.Case(func() { checkLong(c, x, l) }, "%d bytes, pad to %d", n, l)
				}
				c.Case(func() { checkLong(c, make([]byte, n), n+3) }, "%d zero bytes", n)
				s := strings.Repeat("aB3", n)[:n]
				for _, pre := range []string{"", "0x", "0X"} {
					c.Case(func() { hexStr(c, pre+s) }, "%s+%d digits", pre, n)
					for _, i := range []int{0, n / 2, n - 1} {
						if i >= 0 && i < n {
							c.Case(func() { hexStr(c, pre+s[:i]+"g"+s[i+1:]) }, "%s+%d digits, bad one at %d", pre, n, i)
						}
					}
				}
			})
		}},
		enum.Section{Name: "nil", Run: func(c *enum.C) {
			c.Case(func() {
				c.Step(5)
				c.State("nil")
				c.Check(common.CopyBytes(nil) == nil, "CopyBytes(nil) != nil")
				c.Check(len(common.TrimLeftZeroes(nil)) == 0 && len(common.TrimRightZeroes(nil)) == 0, "Trim(nil)")
				c.Check(bytes.Equal(common.LeftPadBytes(nil, 3), make([]byte, 3)) && bytes.Equal(common.RightPadBytes(nil, 3), make([]byte, 3)), "Pad(nil, 3)")
			}, "nil")
		}},
		enum.Section{Name: "strings", Shards: 3, Run: func(c *enum.C) {
			n := c.Pick(6, 7)
			c.Bound("every string of length <= %d over 8 characters", n)
			ref.Strings([]string{"0", "1", "a", "F", "x", "X", "g", "\xff"}, n, func(s string) {
				if c.Mine() {
					c.Case(func() { hexStr(c, s) }, "%q", s)
				}
			})
			for n := 0; n <= 80; n++ {
				for _, pre := range []string{"", "0x", "0X"} {
					s := pre + strings.Repeat("aB3", 30)[:n]
					c.Case(func() { hexStr(c, s) }, "%q", s)
				}
			}
		}},
	)
}
