// P02: block number and block hash parameters of RPC calls.
package main

import (
	"encoding/json"
	"flychain/common"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"flychain/zzslice/rpc"
	"fmt"
	"math/big"
	"strings"
)

var tags = map[string]int64{"earliest": 0, "latest": -1, "pending": -2, "finalized": -3, "safe": -4}

// number is the reference for the text of a block number.
func number(s string) (int64, bool) {
	if v, ok := tags[s]; ok {
		return v, true
	}
	n, ds := ref.Number(s, 64)
	if ds != nil || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func blockNumber(c *enum.C, s string) {
	c.Step(3)
	want, ok := number(s)
	c.State(ok, want)
	for _, pad := range []string{"", " ", "\n\t"} {
		bn := rpc.BlockNumber(77)
		err := json.Unmarshal([]byte(pad+`"`+s+`"`+pad), &bn)
		c.Check((err == nil) == ok, "decoding gives %d, %v; acceptable: %v", bn, err, ok)
		if !ok {
			want = 77
		}
		c.Check(int64(bn) == want && bn.Int64() == want, "decoding leaves %d, want %d", bn, want)
	}
	bn := rpc.BlockNumber(77)
	err := bn.UnmarshalJSON([]byte(`"` + s + `"`))
	c.Check((err == nil) == ok && int64(bn) == want, "UnmarshalJSON gives %d, %v; want %d, acceptable: %v", bn, err, want, ok)
}

// expected is the reference result of decoding a number-or-hash.
type expected struct {
	ok        bool
	num       *int64
	hash      *common.Hash
	canonical bool
}

func hashOf(s string) (common.Hash, bool) {
	var h common.Hash
	b, ds := ref.BytesText(s)
	if ds != nil || len(b) != 32 {
		return h, false
	}
	copy(h[:], b)
	return h, true
}

func stringParam(s string) expected {
	if n, ok := number(s); ok {
		return expected{ok: true, num: &n}
	}
	if h, ok := hashOf(s); ok {
		return expected{ok: true, hash: &h}
	}
	return expected{}
}

func either(c *enum.C, doc string, e expected) {
	c.Step(1)
	n0, h0 := rpc.BlockNumber(5), common.Hash{9}
	for i, b := range []rpc.BlockNumberOrHash{{}, {BlockNumber: &n0, RequireCanonical: true}, {BlockHash: &h0}} {
		if e.ok && i > 0 {
			continue // a target that already holds something keeps parts of it
		}
		before := show(b)
		err := json.Unmarshal([]byte(doc), &b)
		c.State(e.ok, show(b))
		if !e.ok {
			c.Check(err != nil, "accepted as %s", show(b))
			c.Check(show(b) == before, "a rejected document changed the target from %s to %s", before, show(b))
			continue
		}
		c.Check(err == nil, "rejected: %v", err)
		w := rpc.BlockNumberOrHash{BlockHash: e.hash, RequireCanonical: e.canonical}
		if e.num != nil {
			n := rpc.BlockNumber(*e.num)
			w.BlockNumber = &n
		}
		c.Check(show(b) == show(w), "decoded as %s, want %s", show(b), show(w))
		n, okn := b.Number()
		h, okh := b.Hash()
		c.Check(okn == (e.num != nil) && okh == (e.hash != nil), "Number says %v, Hash says %v for %s", okn, okh, show(b))
		c.Check(!okn || int64(n) == *e.num, "Number() = %d for %s", n, show(b))
		c.Check(!okh || h == *e.hash, "Hash() = %x for %s", h[:], show(b))
		c.Check(okn || n == 0, "Number() = %d without a number", n)
		c.Check(okh || h == common.Hash{}, "Hash() = %x without a hash", h[:])
	}
}

func show(b rpc.BlockNumberOrHash) string {
	s := "{"
	if b.BlockNumber != nil {
		s += fmt.Sprint("number ", int64(*b.BlockNumber), " ")
	}
	if b.BlockHash != nil {
		s += fmt.Sprintf("hash %x ", b.BlockHash[:])
	}
	return s + fmt.Sprint(b.RequireCanonical, "}")
}

func quantities() []*big.Int {
	var l []*big.Int
	for i := int64(0); i <= 300; i++ {
		l = append(l, big.NewInt(i))
	}
	for k := uint(9); k <= 66; k++ {
		for d := int64(-1); d <= 1; d++ {
			l = append(l, new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d)))
		}
	}
	return l
}

func main() {
	hx := func(n *big.Int) string { return "0x" + n.Text(16) }
	good := "0x" + strings.Repeat("a1", 32)
	hashes := []string{good, "0X" + good[2:], strings.ToUpper(good[2:]), "0x" + strings.ToUpper(good[2:]), good[:65], good[:64], good + "0", good + "00", good[:65] + "g", "0x" + strings.Repeat("0", 64), "0x" + strings.Repeat("0", 63) + "1", good[2:] + "00", "00" + good[2:], "1x" + good[2:], strings.Repeat("1", 66), strings.Repeat("é", 33), "latest" + strings.Repeat(" ", 60)}
	enum.Main(
		enum.Section{Name: "number", Shards: 4, Run: func(c *enum.C) {
			n := c.Pick(5, 6)
			c.Bound("every string of length <= %d over 8 characters, every tag with every one-character change, quantities 0..300 and 2^9-1..2^66+1", n)
			ref.Strings([]string{"0", "x", "X", "1", "f", "A", "g", "-"}, n, func(s string) {
				if c.Mine() {
					c.Case(func() { blockNumber(c, s); either(c, `"`+s+`"`, stringParam(s)) }, "%q", s)
				}
			})
			if !c.Mine() {
				return
			}
			one := func(s string) {
				c.Case(func() { blockNumber(c, s); either(c, `"`+s+`"`, stringParam(s)) }, "%q", s)
			}
			for t := range tags {
				one(t)
				one(t + t)
				one(strings.ToUpper(t))
				one(strings.Title(t))
				for i := 0; i <= len(t); i++ {
					for _, r := range []string{"", " ", "x", "0"} {
						one(t[:i] + r + t[i:])
						if i < len(t) {
							one(t[:i] + r + t[i+1:])
						}
					}
				}
			}
			for _, q := range quantities() {
				one(hx(q))
				one("0X" + strings.ToUpper(q.Text(16)))
				one(q.String())
				one("0x0" + q.Text(16))
				one("-" + hx(q))
			}
			for _, h := range hashes {
				one(h)
			}
		}},
		enum.Section{Name: "non-strings", Run: func(c *enum.C) {
			c.Bound("every listed JSON value that is not a string")
			for _, d := range []string{"0", "1", "-1", "1.5", "1e3", "9223372036854775807", "true", "false", "[]", `["latest"]`, `["0x1"]`} {
				d := d
				c.Case(func() {
					c.Step(1)
					bn := rpc.BlockNumber(77)
					err := json.Unmarshal([]byte(d), &bn)
					c.State(d)
					c.Check(err != nil && bn == 77, "decodes to %d, %v", bn, err)
					either(c, d, expected{})
				}, "%s", d)
			}
			for _, d := range []string{"null", "{}"} {
				d := d
				c.Case(func() {
					bn := rpc.BlockNumber(77)
					err := json.Unmarshal([]byte(d), &bn)
					c.Check(err != nil && bn == 77, "decodes to %d, %v", bn, err)
				}, "%s", d)
			}
			c.Case(func() { either(c, "{}", expected{ok: true}) }, "{} as number or hash")
		}},
		enum.Section{Name: "objects", Shards: 2, Run: func(c *enum.C) {
			c.Bound("every object over 13 block numbers, 9 hashes and 6 canonical flags, absent and null included, in two orders and with a foreign field")
			nums := []string{"", "null", `"latest"`, `"earliest"`, `"safe"`, `"0x0"`, `"0x7fffffffffffffff"`, `"0x8000000000000000"`, `"0x01"`, `"5"`, `5`, `""`, `"Latest"`}
			hs := []string{"", "null", `"` + good + `"`, `"0x` + strings.Repeat("0", 64) + `"`, `"` + good[:64] + `"`, `"` + good[2:] + `"`, `""`, `"latest"`, `{}`}
			cs := []string{"", "true", "false", "null", `"true"`, "1"}
			for _, n := range nums {
				for _, h := range hs {
					for _, cn := range cs {
						for order := 0; order < 3; order++ {
							if !c.Mine() {
								continue
							}
							e := expected{ok: true}
							var f []string
							if n != "" {
								f = append(f, `"blockNumber":`+n)
								if n != "null" {
									if v, ok := number(strings.Trim(n, `"`)); ok && n[0] == '"' {
										e.num = &v
									} else {
										e.ok = false
									}
								}
							}
							if h != "" {
								f = append(f, `"blockHash": `+h)
								if h != "null" {
									if v, ok := hashOf(strings.Trim(h, `"`)); ok && h[0] == '"' {
										e.hash = &v
									} else {
										e.ok = false
									}
								}
							}
							if cn != "" {
								f = append(f, `"requireCanonical":`+cn)
								switch cn {
								case "true":
									e.canonical = true
								case "false", "null":
								default:
									e.ok = false
								}
							}
							if e.num != nil && e.hash != nil {
								e.ok = false
							}
							switch order {
							case 1:
								for i, j := 0, len(f)-1; i < j; i, j = i+1, j-1 {
									f[i], f[j] = f[j], f[i]
								}
							case 2:
								f = append([]string{`"other":[1]`}, f...)
							}
							doc := " {" + strings.Join(f, " , ") + "} "
							c.Case(func() { either(c, doc, e) }, "%s", doc)
						}
					}
				}
			}
		}},
		enum.Section{Name: "round-trip", Run: func(c *enum.C) {
			c.Bound("block numbers -4..300 and 2^9-1..2^63-1, with and without a hash")
			var l []int64
			for i := int64(-4); i < 0; i++ {
				l = append(l, i)
			}
			for _, q := range quantities() {
				if q.IsInt64() {
					l = append(l, q.Int64())
				}
			}
			names := map[int64]string{}
			for t, v := range tags {
				names[v] = t
			}
			for _, v := range l {
				v := v
				c.Case(func() {
					c.Step(5)
					bn := rpc.BlockNumber(v)
					want := names[v]
					if want == "" {
						want = hx(big.NewInt(v))
					}
					c.State(want)
					t, err := bn.MarshalText()
					c.Check(err == nil && string(t) == want, "MarshalText = %q, %v, want %q", t, err, want)
					j, err := json.Marshal(bn)
					c.Check(err == nil && string(j) == `"`+want+`"`, "JSON %s, %v", j, err)
					var b2 rpc.BlockNumber
					c.Check(json.Unmarshal(j, &b2) == nil && b2 == bn, "%s decodes to %d", j, b2)
					p := rpc.BlockNumberOrHashWithNumber(bn)
					n, ok := p.Number()
					_, okh := p.Hash()
					c.Check(ok && n == bn && !okh && !p.RequireCanonical, "BlockNumberOrHashWithNumber = %s", show(p))
					j, err = json.Marshal(p)
					var p2 rpc.BlockNumberOrHash
					c.Check(err == nil && json.Unmarshal(j, &p2) == nil && show(p2) == show(p), "%s decodes to %s", j, show(p2))
					// the value does not follow its argument
					bn++
					n, _ = p.Number()
					c.Check(int64(n) == v, "BlockNumberOrHashWithNumber follows its argument")
				}, "%d", v)
			}
			for i := 0; i < 32; i++ {
				for _, canon := range []bool{false, true} {
					i, canon := i, canon
					c.Case(func() {
						c.Step(3)
						h := common.Hash{}
						h[i] = byte(i + 1)
						p := rpc.BlockNumberOrHashWithHash(h, canon)
						got, ok := p.Hash()
						_, okn := p.Number()
						c.State(i, canon)
						c.Check(ok && got == h && !okn && p.RequireCanonical == canon, "BlockNumberOrHashWithHash = %s", show(p))
						j, err := json.Marshal(p)
						var p2 rpc.BlockNumberOrHash
						c.Check(err == nil && json.Unmarshal(j, &p2) == nil && show(p2) == show(p), "%s decodes to %s", j, show(p2))
					}, "hash byte %d, %v", i, canon)
				}
			}
		}},
	)
}
