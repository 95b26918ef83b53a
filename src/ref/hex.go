// Package ref holds the reference models the harnesses compare with.
package ref

import (
	"fmt"
	"math/big"
)

// Defect classes of hexadecimal text.
const (
	DEmpty   = "empty"
	DPrefix  = "prefix"
	DBare    = "bare"
	DLeading = "leading"
	DOdd     = "odd"
	DSyntax  = "syntax"
	DRange   = "range"
	DLength  = "length"
)

// Nib returns the value of a hex digit.
func Nib(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c) - '0'
	case 'a' <= c && c <= 'f':
		return int(c) - 'a' + 10
	case 'A' <= c && c <= 'F':
		return int(c) - 'A' + 10
	}
	return -1
}

// HasPrefix tells whether s starts with 0x or 0X.
func HasPrefix(s string) bool {
	return len(s) > 1 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')
}

// Digits tells whether all of s are hex digits.
func Digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if Nib(s[i]) < 0 {
			return false
		}
	}
	return true
}

// Hex encodes in lower case without a prefix.
func Hex(b []byte) string {
	const d = "0123456789abcdef"
	out := make([]byte, 0, 2*len(b))
	for _, x := range b {
		out = append(out, d[x>>4], d[x&15])
	}
	return string(out)
}

// BytesText decodes prefixed byte-string text. The second result lists the
// defects; nil means accepted. Several entries mean that any is a correct
// verdict.
func BytesText(s string) ([]byte, []string) {
	if s == "" {
		return nil, []string{DEmpty}
	}
	if !HasPrefix(s) {
		return nil, []string{DPrefix}
	}
	return RawBytes(s[2:])
}

// RawBytes decodes unprefixed digits.
func RawBytes(s string) ([]byte, []string) {
	var ds []string
	if len(s)%2 != 0 {
		ds = append(ds, DOdd)
	}
	if !Digits(s) {
		ds = append(ds, DSyntax)
	}
	if ds != nil {
		return nil, ds
	}
	out := make([]byte, len(s)/2)
	for i := range out {
		out[i] = byte(Nib(s[2*i])<<4 | Nib(s[2*i+1]))
	}
	return out, nil
}

// Number decodes prefixed number text of at most bits bits.
func Number(s string, bits int) (*big.Int, []string) {
	if s == "" {
		return nil, []string{DEmpty}
	}
	if !HasPrefix(s) {
		return nil, []string{DPrefix}
	}
	s = s[2:]
	if s == "" {
		return nil, []string{DBare}
	}
	if len(s) > 1 && s[0] == '0' {
		return nil, []string{DLeading}
	}
	var ds []string
	if !Digits(s) {
		ds = append(ds, DSyntax)
	}
	if len(s) > bits/4 {
		ds = append(ds, DRange)
	}
	if ds != nil {
		return nil, ds
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		v.Mul(v, big.NewInt(16))
		v.Add(v, big.NewInt(int64(Nib(s[i]))))
	}
	return v, nil
}

// HexBig encodes an integer canonically.
func HexBig(v *big.Int) string {
	if v.Sign() == 0 {
		return "0x0"
	}
	m := new(big.Int).Abs(v)
	const d = "0123456789abcdef"
	var rev []byte
	q, r, s := new(big.Int), new(big.Int), big.NewInt(16)
	for m.Sign() > 0 {
		q.DivMod(m, s, r)
		rev = append(rev, d[r.Int64()])
		m.Set(q)
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	if v.Sign() < 0 {
		return "-0x" + string(rev)
	}
	return "0x" + string(rev)
}

// In tells whether x is in list.
func In(x string, list []string) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

// Strings calls f with every string over the alphabet of length 0..n.
func Strings(alpha []string, n int, f func(s string)) {
	var rec func(s string, left int)
	rec = func(s string, left int) {
		f(s)
		if left == 0 {
			return
		}
		for _, a := range alpha {
			rec(s+a, left-1)
		}
	}
	rec("", n)
}

// ByteStrings calls f with every byte string over the alphabet, length 0..n.
// The argument is reused; f must not keep it.
func ByteStrings(alpha []byte, n int, f func(b []byte)) {
	buf := make([]byte, 0, n)
	var rec func(left int)
	rec = func(left int) {
		f(buf[:len(buf):len(buf)])
		if left == 0 {
			return
		}
		for _, a := range alpha {
			buf = append(buf, a)
			rec(left - 1)
			buf = buf[:len(buf)-1]
		}
	}
	rec(n)
}

// BigSet returns a structured set of non-negative integers: all below small,
// and a*2^k+d for the given k up to maxBits.
func BigSet(small int64, maxBits int, step int) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	add := func(v *big.Int) {
		if v.Sign() < 0 {
			return
		}
		k := v.Text(62)
		if !seen[k] {
			seen[k] = true
			out = append(out, new(big.Int).Set(v))
		}
	}
	for i := int64(0); i < small; i++ {
		add(big.NewInt(i))
	}
	for k := 0; k <= maxBits; k += step {
		for _, a := range []int64{1, 3, 0xa5} {
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Lsh(big.NewInt(a), uint(k))
				add(v.Add(v, big.NewInt(d)))
			}
		}
	}
	// repeating bytes and alternating patterns of every byte length
	for n := 1; n <= maxBits/8; n++ {
		for _, p := range []string{"ff", "80", "7f", "01", "10", "0f", "a5", "fe"} {
			s := ""
			for i := 0; i < n; i++ {
				s += p
			}
			v, _ := new(big.Int).SetString(s, 16)
			add(v)
			v2, _ := new(big.Int).SetString(p+fmt.Sprintf("%0*x", 2*(n-1), 0)[0:2*(n-1)], 16)
			if v2 != nil {
				add(v2)
			}
		}
	}
	return out
}

// Sizes calls f with every size up to dense and, beyond it, with the sizes
// around every power of two and of ten up to max.
func Sizes(dense, max int, f func(n int)) {
	seen := map[int]bool{}
	do := func(n int) {
		if n >= 0 && n <= max && !seen[n] {
			seen[n] = true
			f(n)
		}
	}
	for n := 0; n <= dense; n++ {
		do(n)
	}
	for p := 1; p <= max; p *= 2 {
		for _, n := range []int{p - 1, p, p + 1, p + p/2} {
			do(n)
		}
	}
	for p := 1; p <= max; p *= 10 {
		for _, n := range []int{p - 1, p, p + 1} {
			do(n)
		}
	}
	do(max)
}

// SizeList returns the sizes of Sizes.
func SizeList(dense, max int) (l []int) {
	Sizes(dense, max, func(n int) { l = append(l, n) })
	return l
}
