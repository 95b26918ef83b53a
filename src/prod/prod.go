// Package prod lists, for the properties about values, calls whose results
// belong to the caller: no later call and no change to another result may
// alter them, and calls of several goroutines do not influence each other.
package prod

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"flychain/common"
	"flychain/common/compiler"
	"flychain/common/hexutil"
	"flychain/common/math"
	"flychain/crypto"
	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
)

// P is one call. Get makes its arguments anew and returns its results.
type P struct {
	Name string
	Get  func() interface{}
}

// Func is the name of what P calls.
func (p P) Func() string { return strings.SplitN(p.Name, " ", 2)[0] }

// Snap writes a result.
func Snap(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case []byte:
		return fmt.Sprintf("%x", v)
	case *big.Int:
		if v == nil {
			return "nil"
		}
		return v.Text(16)
	case []interface{}:
		var s []string
		for _, x := range v {
			s = append(s, Snap(x))
		}
		return strings.Join(s, " | ")
	case error:
		return v.Error()
	case map[string]*compiler.Contract:
		b, _ := json.Marshal(v)
		return string(b)
	}
	return fmt.Sprintf("%v", v)
}

// Scribble overwrites all the memory that a result holds.
func Scribble(v interface{}) {
	switch v := v.(type) {
	case []byte:
		v = v[:cap(v)]
		for i := range v {
			v[i] ^= 0xa5
		}
	case *big.Int:
		if v == nil {
			return
		}
		w := v.Bits()
		w = w[:cap(w)]
		for i := range w {
			w[i] ^= 0xa5a5
		}
		v.SetUint64(0xdead)
	case []string:
		for i := range v[:cap(v)] {
			v[:cap(v)][i] = "scribbled"
		}
	case []interface{}:
		for _, x := range v {
			Scribble(x)
		}
	case map[string]*compiler.Contract:
		for k, c := range v {
			for h := range c.Hashes {
				c.Hashes[h] = "scribbled"
			}
			c.Code, c.Info.Source, c.Info.AbiDefinition = "scribbled", "scribbled", nil
			delete(v, k)
		}
	}
}

func rep(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

type list []P

func (l *list) add(get func() interface{}, format string, a ...interface{}) {
	*l = append(*l, P{fmt.Sprintf(format, a...), get})
}

func two(a, b interface{}) interface{} { return []interface{}{a, b} }

var lists = map[string]func() []P{
	"H01": hexes, "C01": conversions, "C02": texts, "C03": verbs, "C04": helpers, "K01": digests, "K02": curves,
	"K03": keys, "K04": mnemonics, "M01": bigs, "M02": numerals, "S01": sizes, "J01": contracts,
}

// List returns the calls of a property.
func List(prop string) []P {
	f := lists[prop]
	if f == nil {
		panic("no calls for " + prop)
	}
	return f()
}

func hexes() []P {
	var l list
	for _, b := range [][]byte{nil, {}, {0}, {0xab, 1}, rep(0x5c, 33)} {
		b := b
		t := "0x" + fmt.Sprintf("%x", b)
		l.add(func() interface{} { return hexutil.Encode(append([]byte{}, b...)) }, "Encode %x", b)
		l.add(func() interface{} { x, err := hexutil.Decode(t); return two(x, err) }, "Decode %s", t)
		l.add(func() interface{} { return hexutil.MustDecode(t) }, "MustDecode %s", t)
		l.add(func() interface{} { x, err := hexutil.Bytes(b).MarshalText(); return two(x, err) }, "Bytes.MarshalText %x", b)
		l.add(func() interface{} { var x hexutil.Bytes; err := x.UnmarshalText([]byte(t)); return two([]byte(x), err) }, "Bytes.UnmarshalText %s", t)
		l.add(func() interface{} {
			var x hexutil.Bytes
			err := x.UnmarshalJSON([]byte(`"` + t + `"`))
			return two([]byte(x), err)
		}, "Bytes.UnmarshalJSON %s", t)
		l.add(func() interface{} { return hexutil.Bytes(b).String() }, "Bytes.String %x", b)
	}
	for _, u := range []uint64{0, 1, 0xabc, 1<<64 - 1} {
		u := u
		t := fmt.Sprintf("0x%x", u)
		l.add(func() interface{} { return hexutil.EncodeUint64(u) }, "EncodeUint64 %d", u)
		l.add(func() interface{} { x, err := hexutil.DecodeUint64(t); return two(x, err) }, "DecodeUint64 %s", t)
		l.add(func() interface{} { x, err := hexutil.Uint64(u).MarshalText(); return two(x, err) }, "Uint64.MarshalText %d", u)
		l.add(func() interface{} { x, err := hexutil.Uint(u).MarshalText(); return two(x, err) }, "Uint.MarshalText %d", u)
		l.add(func() interface{} {
			var x hexutil.Uint64
			err := x.UnmarshalText([]byte(t))
			return two(uint64(x), err)
		}, "Uint64.UnmarshalText %s", t)
		l.add(func() interface{} { var x hexutil.Uint; err := x.UnmarshalText([]byte(t)); return two(uint64(x), err) }, "Uint.UnmarshalText %s", t)
	}
	for _, s := range []string{"0", "1", "ab", "123456789abcdef0123", strings.Repeat("f", 64)} {
		s := s
		l.add(func() interface{} { return hexutil.EncodeBig(hx(s)) }, "EncodeBig %s", s)
		l.add(func() interface{} { x, err := hexutil.DecodeBig("0x" + s); return two(x, err) }, "DecodeBig %s", s)
		l.add(func() interface{} { x, err := hexutil.Big(*hx(s)).MarshalText(); return two(x, err) }, "Big.MarshalText %s", s)
		l.add(func() interface{} {
			x := new(hexutil.Big)
			err := x.UnmarshalText([]byte("0x" + s))
			return two(x.ToInt(), err)
		}, "Big.UnmarshalText %s", s)
		l.add(func() interface{} { return (*hexutil.Big)(hx(s)).String() }, "Big.String %s", s)
	}
	l.add(func() interface{} { x, err := hexutil.DecodeBig("0x"); return two(x, err) }, "DecodeBig nothing")
	l.add(func() interface{} { x, err := hexutil.DecodeBig("0xg"); return two(x, err) }, "DecodeBig g")
	return l
}

func conversions() []P {
	var l list
	for _, b := range [][]byte{{}, {1}, {0x80, 2}, rep(0x5c, 20), rep(0xff, 32), rep(0x31, 40)} {
		b := b
		h, a := common.BytesToHash(b), common.BytesToAddress(b)
		t := fmt.Sprintf("0x%x", b)
		l.add(func() interface{} { x := common.BytesToHash(append([]byte{}, b...)); return x.Bytes() }, "BytesToHash %x", b)
		l.add(func() interface{} { x := common.BytesToAddress(append([]byte{}, b...)); return x.Bytes() }, "BytesToAddress %x", b)
		l.add(func() interface{} { x := common.HexToHash(t); return x.Bytes() }, "HexToHash %s", t)
		l.add(func() interface{} { x := common.HexToAddress(t); return x.Bytes() }, "HexToAddress %s", t)
		l.add(func() interface{} { return h.Big() }, "Hash.Big %x", b)
		l.add(func() interface{} { return a.Big() }, "Address.Big %x", b)
		l.add(func() interface{} { x := a.Hash(); return x.Bytes() }, "Address.Hash %x", b)
		l.add(func() interface{} { x := common.BigToHash(a.Big()); return x.Bytes() }, "BigToHash %x", b)
		l.add(func() interface{} { x := common.BigToAddress(h.Big()); return x.Bytes() }, "BigToAddress %x", b)
		l.add(func() interface{} { x, err := h.MarshalText(); return two(x, err) }, "Hash.MarshalText %x", b)
		l.add(func() interface{} { x, err := a.MarshalText(); return two(x, err) }, "Address.MarshalText %x", b)
		l.add(func() interface{} { x, err := common.UnprefixedHash(h).MarshalText(); return two(x, err) }, "UnprefixedHash.MarshalText %x", b)
		l.add(func() interface{} { x, err := common.UnprefixedAddress(a).MarshalText(); return two(x, err) }, "UnprefixedAddress.MarshalText %x", b)
		l.add(func() interface{} { x, err := h.Value(); return two(x, err) }, "Hash.Value %x", b)
		l.add(func() interface{} { x, err := a.Value(); return two(x, err) }, "Address.Value %x", b)
		l.add(func() interface{} {
			var x common.Hash
			err := x.UnmarshalJSON([]byte(`"` + h.Hex() + `"`))
			return two(x.Bytes(), err)
		}, "Hash.UnmarshalJSON %x", b)
		l.add(func() interface{} {
			var x common.Address
			err := x.UnmarshalJSON([]byte(`"` + a.Hex() + `"`))
			return two(x.Bytes(), err)
		}, "Address.UnmarshalJSON %x", b)
		l.add(func() interface{} { return two(h.Hex(), h.TerminalString()) }, "Hash.Hex %x", b)
	}
	l.add(func() interface{} {
		x := common.Hash{}.Generate(rand.New(rand.NewSource(7)), 5).Interface().(common.Hash)
		return x.Bytes()
	}, "Generate")
	return l
}

func texts() []P {
	var l list
	for _, t := range []string{"0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed", "0xfB6916095ca1df60bB79Ce92cE3Ea74c37c5d359", "0x52908400098527886e0f7030069857D2E4169EE7", "27b1fdb04752bbc536007a920d24acb045561c26"} {
		t := t
		l.add(func() interface{} { return common.HexToAddress(t).Hex() }, "Hex %s", t)
		l.add(func() interface{} { return common.HexToAddress(t).String() }, "String %s", t)
		l.add(func() interface{} { return fmt.Sprint(common.HexToAddress(t)) }, "Format %s", t)
		l.add(func() interface{} { return common.IsHexAddress(t) }, "IsHexAddress %s", t)
		l.add(func() interface{} {
			m, err := common.NewMixedcaseAddressFromString(t)
			if err != nil {
				return err
			}
			j, err := m.MarshalJSON()
			return []interface{}{m.Original(), m.ValidChecksum(), m.String(), j, err}
		}, "NewMixedcaseAddressFromString %s", t)
		l.add(func() interface{} {
			m := common.NewMixedcaseAddress(common.HexToAddress(t))
			return []interface{}{m.Original(), m.ValidChecksum(), m.String()}
		}, "NewMixedcaseAddress %s", t)
		l.add(func() interface{} {
			var m common.MixedcaseAddress
			err := m.UnmarshalJSON([]byte(`"` + t + `"`))
			return []interface{}{m.Original(), m.ValidChecksum(), err}
		}, "UnmarshalJSON %s", t)
	}
	return l
}

func verbs() []P {
	var l list
	for _, b := range [][]byte{{1}, rep(0x5c, 32), rep(0xff, 32)} {
		for _, f := range []string{"%v", "%q", "%x", "%#X", "%d", "%t"} {
			h, a, f := common.BytesToHash(b), common.BytesToAddress(b), f
			l.add(func() interface{} { return fmt.Sprintf(f, h) }, "Hash %s %x", f, b)
			l.add(func() interface{} { return fmt.Sprintf(f, a) }, "Address %s %x", f, b)
		}
	}
	return l
}

func helpers() []P {
	var l list
	for _, b := range [][]byte{{}, {1}, {0, 0x80, 0}, rep(0x5c, 9)} {
		b := b
		t := fmt.Sprintf("%x", b)
		n := len(b)
		own := func() []byte { return append([]byte{}, b...) }
		l.add(func() interface{} { return common.FromHex("0x" + t) }, "FromHex %s", t)
		l.add(func() interface{} { return common.FromHex("1" + t) }, "FromHex 1%s", t)
		l.add(func() interface{} { return common.Hex2Bytes(t) }, "Hex2Bytes %s", t)
		for _, k := range []int{0, 1, 2, 5, 40} {
			k := k
			l.add(func() interface{} { return common.Hex2BytesFixed(t, k) }, "Hex2BytesFixed %s to %d", t, k)
			l.add(func() interface{} { return common.LeftPadBytes(own(), k) }, "LeftPadBytes %s to %d", t, k)
			l.add(func() interface{} { return common.RightPadBytes(own(), k) }, "RightPadBytes %s to %d", t, k)
		}
		l.add(func() interface{} { return common.CopyBytes(own()) }, "CopyBytes %s", t)
		l.add(func() interface{} { return common.TrimLeftZeroes(common.LeftPadBytes(own(), n+3)) }, "TrimLeftZeroes %s", t)
		l.add(func() interface{} { return common.TrimRightZeroes(common.RightPadBytes(own(), n+3)) }, "TrimRightZeroes %s", t)
		l.add(func() interface{} { return common.Bytes2Hex(own()) }, "Bytes2Hex %s", t)
		l.add(func() interface{} { x, err := common.ParseHexOrString("0x" + t); return two(x, err) }, "ParseHexOrString 0x%s", t)
		l.add(func() interface{} { x, err := common.ParseHexOrString("q" + t); return two(x, err) }, "ParseHexOrString q%s", t)
	}
	l.add(func() interface{} { x, err := common.ParseHexOrString("0x1"); return two(x, err) }, "ParseHexOrString 0x1")
	return l
}

func digests() []P {
	var l list
	for _, n := range []int{0, 5, 136, 300} {
		m := rep(byte(n+3), n)
		l.add(func() interface{} { return randentropy.Sha3(m) }, "Sha3 %d", n)
		l.add(func() interface{} { h := sha3.NewKeccak224(); h.Write(m); return h.Sum(nil) }, "Keccak224 %d", n)
		l.add(func() interface{} {
			h := sha3.NewKeccak256()
			for i := range m {
				h.Write(m[i : i+1])
			}
			return two(h.Sum(nil), h.Sum(make([]byte, 2, 100)))
		}, "Keccak256 %d", n)
		l.add(func() interface{} { h := sha3.NewKeccak384(); h.Write(m); h.Reset(); h.Write(m); return h.Sum(nil) }, "Keccak384 %d", n)
		l.add(func() interface{} {
			h := sha3.NewKeccak512()
			h.Write(m)
			h.Sum(nil)
			h.Write(m)
			return h.Sum(nil)
		}, "Keccak512 %d", n)
	}
	return l
}

func curves() []P {
	var l list
	for _, c := range []func() *crypto.BitCurve{crypto.S160, crypto.S256} {
		cv := c()
		n := cv.BitSize
		g := func() (*big.Int, *big.Int) { return new(big.Int).Set(cv.Gx), new(big.Int).Set(cv.Gy) }
		l.add(func() interface{} {
			x, y := cv.Add(new(big.Int), new(big.Int), new(big.Int), new(big.Int))
			return two(x, y)
		}, "Add %d: O+O", n)
		l.add(func() interface{} { a, b := g(); x, y := cv.Add(a, b, new(big.Int), new(big.Int)); return two(x, y) }, "Add %d: G+O", n)
		l.add(func() interface{} { a, b := g(); x, y := cv.Add(new(big.Int), new(big.Int), a, b); return two(x, y) }, "Add %d: O+G", n)
		l.add(func() interface{} { a, b := g(); x, y := cv.Add(a, b, a, b); return two(x, y) }, "Add %d: G+G", n)
		l.add(func() interface{} {
			a, b := g()
			x, y := cv.Add(a, b, a, new(big.Int).Sub(cv.P, b))
			return two(x, y)
		}, "Add %d: G-G", n)
		l.add(func() interface{} { a, b := g(); x, y := cv.Double(a, b); return two(x, y) }, "Double %d: G", n)
		l.add(func() interface{} { x, y := cv.Double(new(big.Int), new(big.Int)); return two(x, y) }, "Double %d: O", n)
		for _, k := range [][]byte{{1}, {2}, {7}, {0, 0x91, 3}, nil} {
			k := k
			if k == nil {
				k = cv.N.Bytes()
			}
			l.add(func() interface{} { x, y := cv.ScalarBaseMult(append([]byte{}, k...)); return two(x, y) }, "ScalarBaseMult %d: %x", n, k)
			l.add(func() interface{} { a, b := g(); x, y := cv.ScalarMult(a, b, append([]byte{}, k...)); return two(x, y) }, "ScalarMult %d: %x", n, k)
		}
		l.add(func() interface{} { a, b := g(); return cv.IsOnCurve(a, b) }, "IsOnCurve %d", n)
	}
	return l
}

func keys() []P {
	var l list
	for _, c := range []func() *crypto.BitCurve{crypto.S160, crypto.S256} {
		cv := c()
		n := cv.BitSize
		for _, f := range []byte{1, 0x77} {
			f := f
			l.add(func() interface{} {
				k, x, y, err := cv.GenerateKey(bytes.NewReader(rep(f, 70)))
				return []interface{}{k, x, y, err}
			}, "GenerateKey %d: %d", n, f)
			l.add(func() interface{} { return cv.Marshal(big.NewInt(int64(f)), big.NewInt(3)) }, "Marshal %d: %d", n, f)
			l.add(func() interface{} {
				x, y := cv.Unmarshal(append([]byte{4}, rep(f, n/4)...))
				return two(x, y)
			}, "Unmarshal %d: %d", n, f)
		}
		l.add(func() interface{} { return cv.Marshal(cv.Gx, cv.Gy) }, "Marshal %d: G", n)
	}
	return l
}

func mnemonics() []P {
	var l list
	for _, m := range []string{strings.Repeat("0", 64), strings.Repeat("deadbeef01234567", 4), strings.Repeat("f", 64)} {
		m := m
		w := crypto.MnemonicEncode(m)
		own := func() []string { return append([]string{}, w...) }
		l.add(func() interface{} { return crypto.MnemonicEncode(m) }, "MnemonicEncode %s", m)
		l.add(func() interface{} { return crypto.MnemonicDecode(own()) }, "MnemonicDecode %s", m)
	}
	for _, w := range []string{"like", "weary", "absent", ""} {
		w := w
		l.add(func() interface{} { return crypto.IndexOf(crypto.MnemonicWords, w) }, "IndexOf %s", w)
		l.add(func() interface{} { return crypto.IndexOf([]string{"a", "absent", w}, w) }, "IndexOf own %s", w)
	}
	return l
}

func bigs() []P {
	var l list
	top := strings.Repeat("f", 64)
	for _, s := range []string{"0", "1", "2", "1234567890abcdef1234", "8" + strings.Repeat("0", 63), top, "1" + strings.Repeat("0", 64)} {
		s := s
		for _, e := range []string{"0", "1", "2", "10", top} {
			e := e
			l.add(func() interface{} { return math.Exp(hx(s), hx(e)) }, "Exp %s^%s", s, e)
		}
		for _, n := range []int{0, 1, 8, 32, 40} {
			n := n
			l.add(func() interface{} { return math.PaddedBigBytes(hx(s), n) }, "PaddedBigBytes %s to %d", s, n)
			l.add(func() interface{} { b := make([]byte, n); math.ReadBits(hx(s), b); return b }, "ReadBits %s to %d", s, n)
		}
		l.add(func() interface{} { return math.U256Bytes(hx(s)) }, "U256Bytes %s", s)
		l.add(func() interface{} { return math.U256(hx(s)) }, "U256 %s", s)
		l.add(func() interface{} { return math.S256(hx(s)) }, "S256 %s", s)
		l.add(func() interface{} { return math.BigMax(hx(s), hx("5")) }, "BigMax %s", s)
		l.add(func() interface{} { return math.BigMin(hx(s), hx("5")) }, "BigMin %s", s)
		l.add(func() interface{} { return two(math.FirstBitSet(hx(s)), math.Byte(hx(s), 32, 31)) }, "FirstBitSet %s", s)
	}
	for _, b := range []int64{0, 1, 2, -3} {
		for _, e := range []int64{0, 1, 255, 256} {
			b, e := b, e
			l.add(func() interface{} { return math.BigPow(b, e) }, "BigPow %d^%d", b, e)
		}
	}
	return l
}

func numerals() []P {
	var l list
	for _, s := range []string{"", "0", "0x0", "1", "0xff", "1234567890123456789012345", "0x" + strings.Repeat("f", 64), "x"} {
		s := s
		l.add(func() interface{} { x, ok := math.ParseBig256(s); return two(x, ok) }, "ParseBig256 %s", s)
		l.add(func() interface{} {
			var x math.HexOrDecimal256
			err := x.UnmarshalText([]byte(s))
			m, _ := x.MarshalText()
			return []interface{}{(*big.Int)(&x), m, err}
		}, "HexOrDecimal256 %s", s)
		l.add(func() interface{} {
			var x math.Decimal256
			err := x.UnmarshalText([]byte(s))
			m, _ := x.MarshalText()
			return []interface{}{(*big.Int)(&x), m, x.String(), err}
		}, "Decimal256 %s", s)
	}
	for _, v := range []int64{0, 1, 77} {
		v := v
		l.add(func() interface{} { return (*big.Int)(math.NewHexOrDecimal256(v)) }, "NewHexOrDecimal256 %d", v)
		l.add(func() interface{} { return (*big.Int)(math.NewDecimal256(v)) }, "NewDecimal256 %d", v)
	}
	l.add(func() interface{} { x, err := (*math.HexOrDecimal256)(nil).MarshalText(); return two(x, err) }, "HexOrDecimal256 nil")
	return l
}

func sizes() []P {
	var l list
	for _, f := range []float64{0, 1000, 2048, 1 << 40} {
		s := common.StorageSize(f)
		l.add(func() interface{} { return two(s.String(), s.TerminalString()) }, "StorageSize %v", f)
	}
	for _, d := range []time.Duration{0, 5, 1234567, 987654321, 3 * time.Hour} {
		d := common.PrettyDuration(d)
		l.add(func() interface{} { return d.String() }, "PrettyDuration %d", int64(d))
	}
	for _, n := range []int{1, 5, 9} {
		n := n
		l.add(func() interface{} {
			return common.PrettyAge(time.Now().AddDate(-n, 0, -10).Add(-12 * time.Hour)).String()
		}, "PrettyAge %d", n)
	}
	return l
}

func contracts() []P {
	var l list
	for _, n := range []string{"a", "b"} {
		for _, old := range []bool{true, false} {
			abi, doc := `[{"name":"`+n+`"}]`, `{"m":{"`+n+`":1}}`
			if old {
				q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
				abi, doc = q(abi), q(doc)
			}
			in := fmt.Sprintf(`{"contracts":{"%[1]s.sol:%[1]s":{"bin":"60%[1]s","bin-runtime":"61","srcmap":"s","srcmap-runtime":"r","metadata":"m","abi":%[2]s,"userdoc":%[3]s,"devdoc":%[3]s,"hashes":{"f()":"%[1]s"}}}}`, n, abi, doc)
			l.add(func() interface{} {
				m, err := compiler.ParseCombinedJSON([]byte(in), "S"+n, "L", "C", "O")
				return two(m, err)
			}, "ParseCombinedJSON %s %v", n, old)
		}
	}
	l.add(func() interface{} { var v interface{}; return common.LoadJSON("/nonexistent/f.json", &v) }, "LoadJSON missing")
	return l
}
