// M02: hex-or-decimal text.
package main

import (
	"encoding/json"
	"flychain/common/math"
	"flychain/zzmc/enum"
	"flychain/zzmc/prod/own"
	"flychain/zzmc/ref"
	"math/big"
	"strings"
)

// parse returns the value, and whether the text must be accepted, must be
// rejected, or may be either (a sign behind the prefix).
func parse(s string) (v *big.Int, verdict string) {
	if s == "" {
		return new(big.Int), "yes"
	}
	base, d, neg := int64(10), s, false
	either := false
	if ref.HasPrefix(s) {
		base, d = 16, s[2:]
		if d != "" && (d[0] == '-' || d[0] == '+') {
			either = true
			neg = d[0] == '-'
			d = d[1:]
		}
	} else if s[0] == '-' || s[0] == '+' {
		neg = s[0] == '-'
		d = s[1:]
	}
	if d == "" {
		return nil, "no"
	}
	v = new(big.Int)
	for i := 0; i < len(d); i++ {
		n := ref.Nib(d[i])
		if n < 0 || int64(n) >= base {
			return nil, "no"
		}
		v.Mul(v, big.NewInt(base))
		v.Add(v, big.NewInt(int64(n)))
	}
	if v.BitLen() > 256 {
		return nil, "no"
	}
	if neg {
		v.Neg(v)
	}
	if either {
		return v, "either"
	}
	return v, "yes"
}

func text(c *enum.C, s string) {
	c.Step(3)
	want, verdict := parse(s)
	c.State(verdict, s)
	got, ok := math.ParseBig256(s)
	c.Check(verdict != "yes" || ok, "ParseBig256 rejects a valid numeral")
	c.Check(verdict != "no" || !ok, "ParseBig256 accepts %v", got)
	c.Check(!ok || got.Cmp(want) == 0, "ParseBig256 = %v, want %v", got, want)
	h := math.NewHexOrDecimal256(77)
	err := h.UnmarshalText([]byte(s))
	c.Check((err == nil) == ok, "HexOrDecimal256.UnmarshalText: %v, ParseBig256: %v", err, ok)
	hv := (*big.Int)(h)
	if ok {
		c.Check(hv.Cmp(want) == 0, "HexOrDecimal256.UnmarshalText = %v, want %v", hv, want)
	} else {
		c.Check(hv.Cmp(big.NewInt(77)) == 0, "a rejected input changed the target to %v", hv)
	}
	d := math.NewDecimal256(78)
	err = d.UnmarshalText([]byte(s))
	c.Check((err == nil) == ok, "Decimal256.UnmarshalText: %v, ParseBig256: %v", err, ok)
	dv := (*big.Int)(d)
	if ok {
		c.Check(dv.Cmp(want) == 0, "Decimal256.UnmarshalText = %v, want %v", dv, want)
	} else {
		c.Check(dv.Cmp(big.NewInt(78)) == 0, "a rejected input changed the target to %v", dv)
	}
}

func round(c *enum.C, v *big.Int) {
	c.Step(6)
	orig := new(big.Int).Set(v)
	h := (*math.HexOrDecimal256)(v)
	t, err := h.MarshalText()
	w := ref.HexBig(orig)
	c.State(w)
	c.Check(err == nil && string(t) == w, "HexOrDecimal256.MarshalText = %s, %v, want %s", t, err, w)
	d := (*math.Decimal256)(v)
	ds := dec(orig)
	c.Check(d.String() == ds, "Decimal256.String = %s, want %s", d.String(), ds)
	t2, err := d.MarshalText()
	c.Check(err == nil && string(t2) == ds, "Decimal256.MarshalText = %s, %v, want %s", t2, err, ds)
	for _, s := range []string{w, ds, "0X" + strings.ToUpper(w[2:]), "0x00" + w[2:], "000" + ds} {
		g, ok := math.ParseBig256(s)
		c.Check(ok && g.Cmp(orig) == 0, "ParseBig256(%s) = %v, %v", s, g, ok)
	}
	j, err := json.Marshal(struct {
		H *math.HexOrDecimal256
		D *math.Decimal256
	}{h, d})
	c.Check(err == nil && string(j) == `{"H":"`+w+`","D":"`+ds+`"}`, "json = %s, %v", j, err)
	var back struct {
		H *math.HexOrDecimal256
		D math.Decimal256
	}
	err = json.Unmarshal(j, &back)
	c.Check(err == nil && (*big.Int)(back.H).Cmp(orig) == 0 && (*big.Int)(&back.D).Cmp(orig) == 0, "json round trip of %s: %v", j, err)
	c.Check(v.Cmp(orig) == 0, "argument modified")
}

func dec(v *big.Int) string {
	if v.Sign() == 0 {
		return "0"
	}
	var s string
	m := new(big.Int).Set(v)
	r := new(big.Int)
	for m.Sign() > 0 {
		m.DivMod(m, big.NewInt(10), r)
		s = string([]byte{'0' + byte(r.Int64())}) + s
	}
	return s
}

func main() {
	enum.Main(
		own.Section("M02"),
		enum.Section{Name: "grammar", Shards: 4, Run: func(c *enum.C) {
			al := []string{"0", "1", "9", "a", "F", "x", "X", "-", "+", "_", " ", ".", "e"}
			n := c.Pick(5, 6)
			c.Bound("every string of length <= %d over %d characters; every byte at every position of 5 templates", n, len(al))
			ref.Strings(al, n, func(s string) {
				if c.Mine() {
					c.Case(func() { text(c, s) }, "%q", s)
				}
			})
			for _, t := range []string{"0x12", "12", "0X1", "-5", "0"} {
				for i := 0; i <= len(t); i++ {
					for b := 0; b < 256; b++ {
						s := t[:i] + string([]byte{byte(b)}) + t[i:]
						c.Case(func() { text(c, s) }, "%q", s)
					}
				}
			}
		}},
		enum.Section{Name: "limits", Run: func(c *enum.C) {
			c.Bound("hexadecimal and decimal texts of 2^k+d for k<=270, |d|<=3, with leading zeros; 0..90 repeated digits")
			for k := uint(0); k <= 270; k++ {
				for d := int64(-3); d <= 3; d++ {
					v := new(big.Int).Lsh(big.NewInt(1), k)
					v.Add(v, big.NewInt(d))
					if v.Sign() < 0 {
						continue
					}
					for _, s := range []string{dec(v), ref.HexBig(v), "0x000" + ref.HexBig(v)[2:], "0000" + dec(v), "-" + dec(v)} {
						s := s
						c.Case(func() { text(c, s) }, "%q", s)
					}
				}
			}
			for n := 1; n <= 90; n++ {
				for _, f := range []string{"0", "1", "9", "f", "F", "7"} {
					for _, p := range []string{"", "0x", "0X"} {
						s := p + strings.Repeat(f, n)
						c.Case(func() { text(c, s) }, "%q", s)
					}
				}
			}
		}},
		enum.Section{Name: "roundtrip", Run: func(c *enum.C) {
			c.Bound("structured integers up to 256 bits; nil")
			for _, v := range ref.BigSet(3000, 256, 1) {
				if v.BitLen() > 256 {
					continue
				}
				v := v
				c.Case(func() { round(c, new(big.Int).Set(v)) }, "%v", v)
			}
			c.Case(func() {
				c.Step(2)
				var h *math.HexOrDecimal256
				var d *math.Decimal256
				t, err := h.MarshalText()
				c.Check(err == nil && string(t) == "0x0", "nil HexOrDecimal256 = %s, %v", t, err)
				t, err = d.MarshalText()
				c.Check(err == nil && string(t) == "0" && d.String() == "0", "nil Decimal256 = %s, %v", t, err)
			}, "nil")
			for i := int64(-3); i < 300; i++ {
				i := i
				c.Case(func() {
					c.Check((*big.Int)(math.NewHexOrDecimal256(i)).Int64() == i && (*big.Int)(math.NewDecimal256(i)).Int64() == i, "constructors")
				}, "new %d", i)
			}
		}},
	)
}
