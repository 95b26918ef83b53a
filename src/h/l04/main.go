// L04: integers with thousands separators.
package main

import (
	"flychain/log"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"
)

var names = log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}
var when = time.Unix(0, 0).UTC()

// want is the numeral with separators, built from the left.
func want(dec string) string {
	neg := strings.HasPrefix(dec, "-")
	d := strings.TrimPrefix(dec, "-")
	if len(d) <= 5 {
		return dec
	}
	var b strings.Builder
	if neg {
		b.WriteByte('-')
	}
	for i := 0; i < len(d); i++ {
		if i > 0 && (len(d)-i)%3 == 0 {
			b.WriteByte(',')
		}
		b.WriteByte(d[i])
	}
	return b.String()
}

// logged is the text of v as the only field, in a format.
func logged(c *enum.C, f log.Format, term bool, v interface{}) string {
	c.Step(1)
	s := string(f.Format(&log.Record{Time: when, Lvl: log.LvlInfo, Msg: "m", Ctx: []interface{}{"number", v}, KeyNames: names}))
	i := strings.LastIndex(s, "number=")
	if i < 0 || !strings.HasSuffix(s, "\n") {
		c.Failf("no field in %q", s)
	}
	return s[i+len("number=") : len(s)-1]
}

var logfmt, term = log.LogfmtFormat(), log.TerminalFormat(false)

// all checks a number in every type that can hold it.
func all(c *enum.C, n *big.Int, viaRecords bool) {
	dec := n.String()
	w := want(dec)
	check := func(how, got string) {
		if got != w {
			c.Failf("%s of %s is %q, want %q", how, dec, got, w)
		}
	}
	via := func(how string, v interface{}, w string) {
		if g := logged(c, logfmt, false, v); g != w {
			c.Failf("logfmt of %s %s is %q, want %q", how, dec, g, w)
		}
		if g := logged(c, term, true, v); g != w {
			c.Failf("terminal output of %s %s is %q, want %q", how, dec, g, w)
		}
	}
	if n.IsInt64() {
		c.Step(1)
		check("FormatLogfmtInt64", log.FormatLogfmtInt64(n.Int64()))
	}
	if n.IsUint64() {
		c.Step(1)
		check("FormatLogfmtUint64", log.FormatLogfmtUint64(n.Uint64()))
	}
	if !viaRecords {
		return
	}
	before := new(big.Int).Set(n)
	via("big.Int", n, w)
	c.Check(n.Cmp(before) == 0, "logging changed the number %v to %v", before, n)
	if n.IsInt64() {
		x := n.Int64()
		via("int64", x, w)
		via("int", int(x), w)
		if int64(int32(x)) == x {
			via("int32", int32(x), w)
		}
		if int64(int16(x)) == x {
			via("int16", int16(x), dec)
		}
		if int64(int8(x)) == x {
			via("int8", int8(x), dec)
		}
	}
	if n.IsUint64() {
		x := n.Uint64()
		via("uint64", x, w)
		via("uint", uint(x), w)
		if uint64(uint32(x)) == x {
			via("uint32", uint32(x), w)
		}
		if uint64(uint16(x)) == x {
			via("uint16", uint16(x), dec)
		}
		if uint64(uint8(x)) == x {
			via("uint8", uint8(x), dec)
		}
	}
	c.State(dec)
}

// small goes through every integer up to a bound.
func small(c *enum.C) {
	max := int64(c.Pick(20_000_000, 400_000_000))
	rec := int64(70_000)
	c.Bound("every integer from -%d to %d directly; up to %d also logged in every type", max, max, rec)
	const step = 10_000
	for lo := -max; lo <= max; lo += step {
		if !c.Mine() {
			continue
		}
		lo := lo
		c.Case(func() {
			for x := lo; x < lo+step; x++ {
				if x >= -rec && x <= rec {
					all(c, big.NewInt(x), true)
					continue
				}
				w := fmt.Sprint(x)
				if g := log.FormatLogfmtInt64(x); strings.ReplaceAll(g, ",", "") != w || g != want(w) {
					c.Failf("FormatLogfmtInt64 of %d is %q", x, g)
				}
				c.Step(1)
				if x > 0 {
					if g := log.FormatLogfmtUint64(uint64(x)); g != want(w) {
						c.Failf("FormatLogfmtUint64 of %d is %q", x, g)
					}
					c.Step(1)
				}
			}
			c.State(lo)
		}, "from %d", lo)
	}
}

// edges goes through all values near powers and multiples of powers.
func edges(c *enum.C) {
	digits := c.Pick(60, 120)
	d := int64(c.Pick(40, 400))
	c.Bound("all values within %d of m times every power of ten (m = 1..9 and 11, 99, 101, 999, 1001) up to %d digits, within %d of every power of two up to %d bits and of the bounds of every integer type, of either sign, in every type", d, digits, d, digits*3)
	try := func(b *big.Int) {
		if !c.Mine() {
			return
		}
		c.Case(func() {
			for i := -d; i <= d; i++ {
				n := new(big.Int).Add(b, big.NewInt(i))
				all(c, n, true)
				all(c, new(big.Int).Neg(n), true)
			}
		}, "%v", b)
	}
	ms := []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 99, 101, 999, 1001}
	p := big.NewInt(1)
	for i := 0; i < digits; i++ {
		for _, m := range ms {
			try(new(big.Int).Mul(p, big.NewInt(m)))
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	for i := 0; i <= digits*3; i++ {
		try(new(big.Int).Lsh(big.NewInt(1), uint(i)))
	}
	try(big.NewInt(math.MinInt64))
	try(new(big.Int).SetUint64(math.MaxUint64))
}

// long goes through numbers of many digits.
func long(c *enum.C) {
	dense, max := c.Pick(400, 1200), c.Pick(1<<12, 1<<15)
	c.Bound("numbers of 0..%d digits and of the numbers of digits around every power of two and of ten up to %d: powers of ten and their neighbours, all ones, digits in sequence, of either sign", dense, max)
	ref.Sizes(dense, max, func(n int) {
		if !c.Mine() || n == 0 {
			return
		}
		for _, s := range []string{"1" + strings.Repeat("0", n-1), strings.Repeat("9", n), strings.Repeat("1", n), strings.Repeat("1234567890", n)[:n]} {
			z, _ := new(big.Int).SetString(s, 10)
			c.Case(func() {
				all(c, z, true)
				all(c, new(big.Int).Neg(z), true)
			}, "%s... of %d digits", s[:1], n)
		}
	})
}

// patterns goes through numerals built from digit groups: zeros and nines in
// every combination of positions.
func patterns(c *enum.C) {
	n := c.Pick(18, 22)
	c.Bound("all numerals of up to %d digits out of 0 and 9, of either sign, directly; up to 12 digits out of 1 and 0 in every type", n)
	for l := 1; l <= n; l++ {
		for hi := 0; hi < 16; hi++ {
			if l < 5 && hi > 0 || l >= 5 && !c.Mine() {
				continue
			}
			l, hi := l, hi
			c.Case(func() {
				free := l
				if l >= 5 {
					free = l - 4
				}
				for m := 0; m < 1<<free; m++ {
					x := m | hi<<free
					b := make([]byte, l)
					for i := range b {
						b[i] = '0' + byte(x>>i&1)*9
					}
					z, _ := new(big.Int).SetString(string(b), 10)
					all(c, z, false)
					all(c, new(big.Int).Neg(z), false)
					if l <= 12 {
						for i := range b {
							b[i] = '0' + byte(x>>i&1)
						}
						z, _ = new(big.Int).SetString(string(b), 10)
						all(c, z, true)
					}
				}
				c.State(l, hi)
			}, "%d digits, pattern %d", l, hi)
		}
	}
}

func main() {
	enum.Main(
		enum.Section{Name: "small", Shards: 8, Run: small},
		enum.Section{Name: "edges", Shards: 8, Run: edges},
		enum.Section{Name: "long", Shards: 4, Run: long},
		enum.Section{Name: "patterns", Shards: 4, Run: patterns},
	)
}
