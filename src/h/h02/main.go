// H02: hex decoding accepts exactly the documented grammar.
package main

import (
	"bytes"
	"flychain/common"
	"flychain/common/hexutil"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"math/big"
	"strings"
)

const (
	fBytes = iota
	fU64
	fUint
	fBig
)

func errText(kind int, d string) string {
	switch d {
	case ref.DEmpty:
		return hexutil.ErrEmptyString.Error()
	case ref.DPrefix:
		return hexutil.ErrMissingPrefix.Error()
	case ref.DBare:
		return hexutil.ErrEmptyNumber.Error()
	case ref.DLeading:
		return hexutil.ErrLeadingZero.Error()
	case ref.DOdd:
		return hexutil.ErrOddLength.Error()
	case ref.DSyntax:
		return hexutil.ErrSyntax.Error()
	case ref.DRange:
		switch kind {
		case fU64:
			return hexutil.ErrUint64Range.Error()
		case fUint:
			return hexutil.ErrUintRange.Error()
		default:
			return hexutil.ErrBig256Range.Error()
		}
	}
	return "?"
}

var all = []error{hexutil.ErrEmptyString, hexutil.ErrSyntax, hexutil.ErrMissingPrefix, hexutil.ErrOddLength, hexutil.ErrEmptyNumber, hexutil.ErrLeadingZero, hexutil.ErrUint64Range, hexutil.ErrUintRange, hexutil.ErrBig256Range}

// verdict compares an error with the allowed defects.
func verdict(c *enum.C, fn string, kind int, err error, ds []string) {
	if len(ds) == 0 {
		c.Check(err == nil, "%s rejects valid input: %v", fn, err)
		return
	}
	c.Check(err != nil, "%s accepts input with defect %v", fn, ds)
	same := false
	for _, e := range all {
		if err == e {
			same = true
		}
	}
	c.Check(same, "%s: error %v (%T) is not one of the documented ones", fn, err, err)
	for _, d := range ds {
		if err.Error() == errText(kind, d) {
			return
		}
	}
	c.Failf("%s: error %q, want that of defect %v", fn, err, ds)
}

func checkAll(c *enum.C, s string) {
	c.Step(9)
	// byte strings
	want, ds := ref.BytesText(s)
	c.State(len(want), strings.Join(ds, ","))
	got, err := hexutil.Decode(s)
	verdict(c, "Decode", fBytes, err, ds)
	if ds == nil {
		c.Check(bytes.Equal(got, want), "Decode = %x, want %x", got, want)
	}
	p, v := enum.Panics(func() { got = hexutil.MustDecode(s) })
	c.Check(p == (ds != nil), "MustDecode panics: %v (%v)", p, v)
	if ds == nil {
		c.Check(bytes.Equal(got, want), "MustDecode = %x, want %x", got, want)
	}
	tds := ds
	twant := want
	if s == "" {
		tds, twant = nil, nil
	}
	hb := hexutil.Bytes{1, 2, 3}
	old := hb
	err = hb.UnmarshalText([]byte(s))
	verdict(c, "Bytes.UnmarshalText", fBytes, err, tds)
	if tds == nil {
		c.Check(bytes.Equal(hb, twant), "Bytes.UnmarshalText = %x, want %x", []byte(hb), twant)
	} else {
		c.Check(bytes.Equal(hb, []byte{1, 2, 3}), "Bytes.UnmarshalText changed its target to %x on error", []byte(hb))
	}
	c.Check(bytes.Equal(old, []byte{1, 2, 3}), "Bytes.UnmarshalText wrote into the old contents: %x", []byte(old))
	// numbers
	wn, ds := ref.Number(s, 64)
	c.State(strings.Join(ds, ","), "n")
	u, err := hexutil.DecodeUint64(s)
	verdict(c, "DecodeUint64", fU64, err, ds)
	if ds == nil {
		c.Check(u == wn.Uint64(), "DecodeUint64 = %d, want %v", u, wn)
	}
	p, v = enum.Panics(func() { u = hexutil.MustDecodeUint64(s) })
	c.Check(p == (ds != nil), "MustDecodeUint64 panics: %v (%v)", p, v)
	if ds == nil {
		c.Check(u == wn.Uint64(), "MustDecodeUint64 = %d, want %v", u, wn)
	}
	tds = ds
	if s == "" {
		tds, wn = nil, new(big.Int)
	}
	t64 := hexutil.Uint64(99)
	err = t64.UnmarshalText([]byte(s))
	verdict(c, "Uint64.UnmarshalText", fU64, err, tds)
	if tds == nil {
		c.Check(uint64(t64) == wn.Uint64(), "Uint64.UnmarshalText = %d, want %v", uint64(t64), wn)
	} else {
		c.Check(t64 == 99, "Uint64.UnmarshalText changed its target to %d on error", uint64(t64))
	}
	tu := hexutil.Uint(99)
	err = tu.UnmarshalText([]byte(s))
	verdict(c, "Uint.UnmarshalText", fUint, err, tds)
	if tds == nil {
		c.Check(uint64(tu) == wn.Uint64(), "Uint.UnmarshalText = %d, want %v", uint64(tu), wn)
	} else {
		c.Check(tu == 99, "Uint.UnmarshalText changed its target to %d on error", uint64(tu))
	}
	wn, ds = ref.Number(s, 256)
	c.State(strings.Join(ds, ","), "b")
	b, err := hexutil.DecodeBig(s)
	verdict(c, "DecodeBig", fBig, err, ds)
	if ds == nil {
		c.Check(b.Cmp(wn) == 0, "DecodeBig = %v, want %v", b, wn)
	}
	p, v = enum.Panics(func() { b = hexutil.MustDecodeBig(s) })
	c.Check(p == (ds != nil), "MustDecodeBig panics: %v (%v)", p, v)
	tds = ds
	if s == "" {
		tds, wn = nil, new(big.Int)
	}
	tb := hexutil.Big(*big.NewInt(99))
	err = tb.UnmarshalText([]byte(s))
	verdict(c, "Big.UnmarshalText", fBig, err, tds)
	if tds == nil {
		c.Check(tb.ToInt().Cmp(wn) == 0, "Big.UnmarshalText = %v, want %v", tb.ToInt(), wn)
	} else {
		c.Check(tb.ToInt().Cmp(big.NewInt(99)) == 0, "Big.UnmarshalText changed its target to %v on error", tb.ToInt())
	}
}

// fixed checks the fixed-length decoders of n bytes.
func fixed(c *enum.C, s string, n int) {
	c.Step(2)
	old := bytes.Repeat([]byte{0x77}, n)
	out := append([]byte{}, old...)
	want, ds := ref.BytesText(s)
	if s == "" {
		want, ds = nil, nil
	}
	if n*2 != len(s)-2 && !(s == "" && n == 0) {
		ds = append(append([]string{}, ds...), ref.DLength)
	}
	c.State(n, strings.Join(ds, ","), string(want))
	in := []byte(s)
	err := hexutil.UnmarshalFixedText("T", in, out)
	fixedVerdict(c, "UnmarshalFixedText", err, ds, out, want, old)
	c.Check(string(in) == s, "UnmarshalFixedText modified its input")
	out = append([]byte{}, old...)
	raw := s
	if ref.HasPrefix(s) {
		raw = s[2:]
	}
	want, ds = ref.RawBytes(raw)
	if n*2 != len(raw) {
		ds = append(append([]string{}, ds...), ref.DLength)
	}
	err = hexutil.UnmarshalFixedUnprefixedText("T", in, out)
	fixedVerdict(c, "UnmarshalFixedUnprefixedText", err, ds, out, want, old)
}

func fixedVerdict(c *enum.C, fn string, err error, ds []string, out, want, old []byte) {
	if ds == nil {
		c.Check(err == nil, "%s rejects valid input: %v", fn, err)
		c.Check(bytes.Equal(out, want), "%s = %x, want %x", fn, out, want)
		return
	}
	c.Check(err != nil, "%s accepts input with defect %v", fn, ds)
	c.Check(bytes.Equal(out, old), "%s changed its target to %x on error", fn, out)
	if ref.In(ref.DLength, ds) && strings.Contains(err.Error(), "has length") {
		return
	}
	var rest []string
	for _, d := range ds {
		if d != ref.DLength {
			rest = append(rest, d)
		}
	}
	c.Check(len(rest) > 0, "%s: error %q, want a length error", fn, err)
	verdict(c, fn, fBytes, err, rest)
}

func main() {
	alpha := []string{"0", "1", "9", "a", "F", "x", "X", "g", "-", "+", "_", " ", "\"", "\xc3"}
	enum.Main(
		enum.Section{Name: "grammar", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(5, 6)
			c.Bound("every string of length <= %d over %d characters", n, len(alpha))
			ref.Strings(alpha, n, func(s string) {
				if c.Mine() {
					c.Case(func() { checkAll(c, s) }, "%q", s)
				}
			})
		}},
		enum.Section{Name: "bytewise", Run: func(c *enum.C) {
			c.Bound("every byte value at every position of 8 templates")
			for _, t := range []string{"0xab", "0xabcd", "0x1", "0x12", "0x0", "0x", "0x1234567890abcdef", "0Xab"} {
				for i := 0; i <= len(t); i++ {
					for b := 0; b < 256; b++ {
						s := t[:i] + string([]byte{byte(b)}) + t[i:]
						c.Case(func() { checkAll(c, s) }, "%q", s)
						if i < len(t) {
							s2 := t[:i] + string([]byte{byte(b)}) + t[i+1:]
							c.Case(func() { checkAll(c, s2) }, "%q", s2)
						}
					}
				}
			}
		}},
		enum.Section{Name: "lengths", Run: func(c *enum.C) {
			c.Bound("0..80 digits, 5 fillings, one bad or zero digit at every position")
			for n := 0; n <= 80; n++ {
				for _, f := range []string{"1", "f", "F", "8", "7"} {
					base := strings.Repeat(f, n)
					c.Case(func() { checkAll(c, "0x"+base) }, "0x+%d*%s", n, f)
					for i := 0; i < n; i++ {
						for _, b := range []string{"0", "g", "x", "_"} {
							s := "0x" + base[:i] + b + base[i+1:]
							c.Case(func() { checkAll(c, s) }, "%q", s)
						}
					}
				}
			}
		}},
		enum.Section{Name: "huge", Shards: 2, Run: func(c *enum.C) {
			dense, max := c.Pick(300, 1100), c.Pick(1<<16, 1<<20)
			c.Bound("0..%d digits and the numbers of digits around every power of two and of ten up to %d, a bad or zero digit at the ends and in the middle", dense, max)
			ref.Sizes(dense, max, func(n int) {
				if !c.Mine() {
					return
				}
				base := strings.Repeat("1f", n)[:n]
				c.Case(func() { checkAll(c, "0x"+base) }, "0x+%d digits", n)
				for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
					for _, b := range []string{"0", "g"} {
						if i >= 0 && i < n {
							c.Case(func() { checkAll(c, "0x"+base[:i]+b+base[i+1:]) }, "0x+%d digits, %s at %d", n, b, i)
						}
					}
				}
			})
		}},
		enum.Section{Name: "fixed", Shards: 2, Run: func(c *enum.C) {
			c.Bound("every string of length <= %d over 8 characters into 0..3 byte targets; 20 and 32 byte types with every bad byte position", c.Pick(6, 7))
			ref.Strings([]string{"0", "1", "a", "F", "x", "X", "g", "-"}, c.Pick(6, 7), func(s string) {
				if !c.Mine() {
					return
				}
				for n := 0; n <= 3; n++ {
					n := n
					c.Case(func() { fixed(c, s, n) }, "%d:%q", n, s)
				}
			})
			for _, n := range []int{20, 32} {
				n := n
				for l := 2*n - 3; l <= 2*n+3; l++ {
					for _, pre := range []string{"0x", "0X", "", "1x"} {
						base := strings.Repeat("aB", n+4)[:l]
						c.Case(func() { fixed(c, pre+base, n); types(c, pre+base) }, "%d:%q", n, pre+base)
						for i := range base {
							for _, b := range []string{"g", "x", "\x00"} {
								s := pre + base[:i] + b + base[i+1:]
								c.Case(func() { fixed(c, s, n); types(c, s) }, "%d:%q", n, s)
							}
						}
					}
				}
			}
		}},
	)
}

// types checks the hash and address types built on the fixed decoders.
func types(c *enum.C, s string) {
	want, ds := ref.BytesText(s)
	raw := s
	if ref.HasPrefix(s) {
		raw = s[2:]
	}
	rwant, rds := ref.RawBytes(raw)
	var h common.Hash
	h[3] = 9
	old := h
	err := h.UnmarshalText([]byte(s))
	ok := ds == nil && len(want) == 32
	c.Check((err == nil) == ok, "Hash.UnmarshalText: %v", err)
	c.Check(ok && bytes.Equal(h[:], want) || !ok && h == old, "Hash.UnmarshalText left %x", h[:])
	uh := common.UnprefixedHash(old)
	err = uh.UnmarshalText([]byte(s))
	ok = rds == nil && len(rwant) == 32
	c.Check((err == nil) == ok, "UnprefixedHash.UnmarshalText: %v", err)
	c.Check(ok && bytes.Equal(uh[:], rwant) || !ok && uh == common.UnprefixedHash(old), "UnprefixedHash.UnmarshalText left %x", uh[:])
	var a common.Address
	a[3] = 9
	olda := a
	err = a.UnmarshalText([]byte(s))
	ok = ds == nil && len(want) == 20
	c.Check((err == nil) == ok, "Address.UnmarshalText: %v", err)
	c.Check(ok && bytes.Equal(a[:], want) || !ok && a == olda, "Address.UnmarshalText left %x", a[:])
	ua := common.UnprefixedAddress(olda)
	err = ua.UnmarshalText([]byte(s))
	ok = rds == nil && len(rwant) == 20
	c.Check((err == nil) == ok, "UnprefixedAddress.UnmarshalText: %v", err)
	c.Check(ok && bytes.Equal(ua[:], rwant) || !ok && ua == common.UnprefixedAddress(olda), "UnprefixedAddress.UnmarshalText left %x", ua[:])
	c.Step(4)
}
