// R02: what the generator makes of every struct type of a bounded space, and
// what the generated methods do, against a reference codec that works from the
// specification and the type alone.
package main

import (
	"bytes"
	"errors"
	"flychain/zzmc/enum"
	"flychain/zzmc/r02/ext"
	"flychain/zzmc/r02/results"
	"flychain/zzmc/r02/rlp"
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

// ---- reference codec ----

var (
	bigT  = reflect.TypeOf(big.Int{})
	rawT  = reflect.TypeOf(rlp.RawValue{})
	custT = reflect.TypeOf(&ext.Cust{})
	errX  = errors.New("rejected")
)

type ftag struct{ nilOK, nilList, optional bool }

// fieldsOf returns the fields that are encoded.
func fieldsOf(t reflect.Type) (idx []int, tags []ftag) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		var g ftag
		skip := false
		for _, w := range strings.Split(f.Tag.Get("rlp"), ",") {
			switch w {
			case "-":
				skip = true
			case "nil":
				g.nilOK, g.nilList = true, defaultList(f.Type.Elem())
			case "nilString":
				g.nilOK, g.nilList = true, false
			case "nilList":
				g.nilOK, g.nilList = true, true
			case "optional":
				g.optional = true
			}
		}
		if !skip {
			idx, tags = append(idx, i), append(tags, g)
		}
	}
	return
}

// defaultList tells whether a nil pointer to t is the empty list.
func defaultList(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return false
	case reflect.Array, reflect.Slice:
		return t.Elem().Kind() != reflect.Uint8
	}
	return true
}

func item(small byte, content []byte) []byte {
	n := len(content)
	if small == 0x80 && n == 1 && content[0] < 0x80 {
		return content
	}
	if n < 56 {
		return append([]byte{small + byte(n)}, content...)
	}
	if n < 256 {
		return append([]byte{small + 56, byte(n)}, content...)
	}
	return append([]byte{small + 57, byte(n >> 8), byte(n)}, content...)
}

func beBytes(u uint64) (b []byte) {
	for ; u > 0; u >>= 8 {
		b = append([]byte{byte(u)}, b...)
	}
	return
}

func encode(v reflect.Value, g ftag) ([]byte, error) {
	t := v.Type()
	switch {
	case t == bigT:
		i := v.Interface().(big.Int)
		if i.Sign() < 0 {
			return nil, errX
		}
		return item(0x80, i.Bytes()), nil
	case t.Kind() == reflect.Ptr && t.Elem() == bigT:
		if v.IsNil() {
			return []byte{0x80}, nil
		}
		return encode(v.Elem(), ftag{})
	case t == rawT:
		return v.Bytes(), nil
	case t == custT:
		var b bytes.Buffer
		err := v.Interface().(*ext.Cust).EncodeRLP(&b)
		return b.Bytes(), err
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0x80}, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return item(0x80, beBytes(v.Uint())), nil
	case reflect.String:
		return item(0x80, []byte(v.String())), nil
	case reflect.Ptr:
		if v.IsNil() {
			list := g.nilList
			if !g.nilOK {
				list = defaultList(t.Elem())
			}
			if list {
				return []byte{0xC0}, nil
			}
			return []byte{0x80}, nil
		}
		return encode(v.Elem(), ftag{})
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return item(0x80, b), nil
		}
		var l []byte
		for i := 0; i < v.Len(); i++ {
			b, err := encode(v.Index(i), ftag{})
			if err != nil {
				return nil, err
			}
			l = append(l, b...)
		}
		return item(0xC0, l), nil
	case reflect.Struct:
		idx, tags := fieldsOf(t)
		last := len(idx)
		for last > 0 && tags[last-1].optional && isZero(v.Field(idx[last-1])) {
			last--
		}
		var l []byte
		for k := 0; k < last; k++ {
			b, err := encode(v.Field(idx[k]), tags[k])
			if err != nil {
				return nil, err
			}
			l = append(l, b...)
		}
		return item(0xC0, l), nil
	}
	panic("unsupported " + t.String())
}

func isZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Struct:
		if v.Type() == bigT {
			i := v.Interface().(big.Int)
			return i.Sign() == 0
		}
		for i := 0; i < v.NumField(); i++ {
			if !isZero(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

// split takes the first item off b.
func split(b []byte) (list, single bool, content, rest []byte, err error) {
	if len(b) == 0 {
		return false, false, nil, nil, errX
	}
	h := b[0]
	if h < 0x80 {
		return false, true, b[:1], b[1:], nil
	}
	list = h >= 0xC0
	n, off := 0, 1
	c := int(h) - 0x80
	if list {
		c = int(h) - 0xC0
	}
	if c < 56 {
		n = c
	} else {
		off = 1 + c - 55
		if len(b) < off || b[1] == 0 {
			return false, false, nil, nil, errX
		}
		for _, x := range b[1:off] {
			if n > 1<<20 {
				return false, false, nil, nil, errX
			}
			n = n<<8 | int(x)
		}
		if n < 56 {
			return false, false, nil, nil, errX
		}
	}
	if off+n > len(b) {
		return false, false, nil, nil, errX
	}
	return list, false, b[off : off+n], b[off+n:], nil
}

// str takes a canonical string off b.
func str(b []byte) ([]byte, []byte, error) {
	list, single, c, rest, err := split(b)
	if err != nil || list || !single && len(c) == 1 && c[0] < 0x80 {
		return nil, nil, errX
	}
	return c, rest, nil
}

func decode(b []byte, v reflect.Value, g ftag) (rest []byte, err error) {
	t := v.Type()
	switch {
	case t == bigT:
		s, rest, err := str(b)
		if err != nil || len(s) > 0 && s[0] == 0 {
			return nil, errX
		}
		v.Set(reflect.ValueOf(*new(big.Int).SetBytes(s)))
		return rest, nil
	case t.Kind() == reflect.Ptr && t.Elem() == bigT:
		v.Set(reflect.New(bigT))
		return decode(b, v.Elem(), ftag{})
	case t == rawT:
		_, _, _, rest, err := split(b)
		if err != nil {
			return nil, err
		}
		v.SetBytes(append([]byte{}, b[:len(b)-len(rest)]...))
		return rest, nil
	case t == custT:
		s, rest, err := str(b)
		if err != nil || len(s) != 2 || s[0] != 0xCC || s[1] == 0xEE {
			return nil, errX
		}
		v.Set(reflect.ValueOf(&ext.Cust{X: s[1]}))
		return rest, nil
	}
	switch t.Kind() {
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s, rest, err := str(b)
		if err != nil || len(s) > 0 && s[0] == 0 || len(s) > int(t.Size()) {
			return nil, errX
		}
		var u uint64
		for _, x := range s {
			u = u<<8 | uint64(x)
		}
		if t.Kind() != reflect.Bool {
			v.SetUint(u)
			return rest, nil
		}
		if u > 1 {
			return nil, errX
		}
		v.SetBool(u == 1)
		return rest, nil
	case reflect.String:
		s, rest, err := str(b)
		if err != nil {
			return nil, errX
		}
		v.SetString(string(s))
		return rest, nil
	case reflect.Ptr:
		if g.nilOK {
			list, single, c, rest, err := split(b)
			if err != nil {
				return nil, err
			}
			if !single && len(c) == 0 && list == g.nilList {
				return rest, nil
			}
		}
		n := reflect.New(t.Elem())
		rest, err := decode(b, n.Elem(), ftag{})
		if err != nil {
			return nil, err
		}
		v.Set(n.Convert(t))
		return rest, nil
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			s, rest, err := str(b)
			if err != nil || t.Kind() == reflect.Array && len(s) != t.Len() {
				return nil, errX
			}
			if t.Kind() == reflect.Slice {
				v.Set(reflect.MakeSlice(t, len(s), len(s)))
			}
			for i, x := range s {
				v.Index(i).SetUint(uint64(x))
			}
			return rest, nil
		}
		list, _, c, rest, err := split(b)
		if err != nil || !list {
			return nil, errX
		}
		for len(c) > 0 {
			e := reflect.New(t.Elem()).Elem()
			if c, err = decode(c, e, ftag{}); err != nil {
				return nil, errX
			}
			v.Set(reflect.Append(v, e))
		}
		return rest, nil
	case reflect.Struct:
		list, _, c, rest, err := split(b)
		if err != nil || !list {
			return nil, errX
		}
		idx, tags := fieldsOf(t)
		for k, i := range idx {
			if tags[k].optional && len(c) == 0 {
				break
			}
			if c, err = decode(c, v.Field(i), tags[k]); err != nil {
				return nil, errX
			}
		}
		if len(c) > 0 {
			return nil, errX
		}
		return rest, nil
	}
	panic("unsupported " + t.String())
}

// same compares up to the difference of nil and empty slices.
func same(a, b reflect.Value) bool {
	t := a.Type()
	if t == bigT {
		x, y := a.Interface().(big.Int), b.Interface().(big.Int)
		return x.Cmp(&y) == 0
	}
	switch t.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" && !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return true // fields that are not encoded
}

// faithful tells whether decoding gives v back: no nil pointer without a nil
// tag, raw values that are one item, no values in ignored fields.
func faithful(v reflect.Value, g ftag) bool {
	t := v.Type()
	if t == bigT {
		return true
	}
	if t == rawT {
		_, _, _, rest, err := split(v.Bytes())
		return err == nil && len(rest) == 0
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return g.nilOK
		}
		if g.nilOK {
			// an empty value of the nil kind reads as nil
			if e, err := encode(v, g); err == nil && len(e) == 1 && (g.nilList && e[0] == 0xC0 || !g.nilList && e[0] == 0x80) {
				return false
			}
		}
		return faithful(v.Elem(), ftag{})
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if !faithful(v.Index(i), ftag{}) {
				return false
			}
		}
	case reflect.Struct:
		idx, tags := fieldsOf(t)
		last := len(idx)
		for last > 0 && tags[last-1].optional && isZero(v.Field(idx[last-1])) {
			last--
		}
		for k := 0; k < last; k++ {
			if !faithful(v.Field(idx[k]), tags[k]) {
				return false
			}
		}
	}
	return true
}

// ---- values ----

func val(t reflect.Type, x interface{}) reflect.Value { return reflect.ValueOf(x).Convert(t) }

// values lists values of t, more of them when rich.
func values(t reflect.Type, rich int, g ftag) (l []reflect.Value) {
	add := func(xs ...interface{}) {
		for _, x := range xs {
			l = append(l, val(t, x))
		}
	}
	switch {
	case t == bigT:
		for _, s := range []string{"0", "1", "-1", "128", "18446744073709551621", "255"}[:3+rich] {
			i, _ := new(big.Int).SetString(s, 10)
			l = append(l, reflect.ValueOf(*i))
		}
		return
	case t == rawT:
		for _, s := range []string{"", "\x05", "\xc1\x01", "\x81\x80", "\x80", "\xc0"}[:3+rich] {
			l = append(l, reflect.ValueOf(rlp.RawValue(s)))
		}
		return
	case t == custT:
		add((*ext.Cust)(nil), &ext.Cust{X: 5}, &ext.Cust{X: 0xEE})
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		add(false, true)
	case reflect.Uint8:
		for _, u := range []uint8{0, 1, 200, 127, 128}[:2+rich] {
			add(u)
		}
	case reflect.Uint16:
		for _, u := range []uint16{0, 256, 1, 0xFFFF, 128}[:2+rich] {
			add(u)
		}
	case reflect.Uint32:
		for _, u := range []uint32{0, 1 << 24, 1, 1<<32 - 1, 128}[:2+rich] {
			add(u)
		}
	case reflect.Uint64:
		for _, u := range []uint64{0, 1 << 56, 1, 1<<64 - 1, 128}[:2+rich] {
			add(u)
		}
	case reflect.String:
		for _, u := range []string{"", "ab", "\x00", "\x80", strings.Repeat("x", 56)}[:2+rich] {
			add(u)
		}
	case reflect.Ptr:
		l = append(l, reflect.Zero(t))
		for _, v := range values(t.Elem(), rich, ftag{}) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			l = append(l, p.Convert(t))
		}
	case reflect.Array:
		l = append(l, reflect.Zero(t))
		if t.Len() > 0 {
			a := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				a.Index(i).Set(val(t.Elem(), uint8(i+1)))
			}
			l = append(l, a)
			a = reflect.New(t).Elem()
			a.Index(t.Len() - 1).Set(val(t.Elem(), uint8(0x80)))
			l = append(l, a)
		}
	case reflect.Slice:
		l = append(l, reflect.Zero(t), reflect.MakeSlice(t, 0, 0))
		es := values(t.Elem(), rich, ftag{})
		for i, e := range es {
			if rich == 0 && i > 2 {
				break
			}
			l = append(l, reflect.Append(reflect.Zero(t), e))
		}
		l = append(l, reflect.Append(reflect.Zero(t), es[0], es[len(es)-1], es[1%len(es)]))
		if rich > 0 && t.Elem().Kind() != reflect.Struct {
			s := reflect.Zero(t)
			for i := 0; i < 60; i++ {
				s = reflect.Append(s, es[1%len(es)])
			}
			l = append(l, s)
		}
	case reflect.Struct:
		idx, tags := fieldsOf(t)
		l = append(l, reflect.New(t).Elem())
		if len(idx) > 4 {
			// one field at a time, and each value with all later fields set
			full := reflect.New(t).Elem()
			for k := len(idx) - 1; k >= 0; k-- {
				i := idx[k]
				vs := values(t.Field(i).Type, 1, tags[k])
				for _, fv := range vs {
					n := reflect.New(t).Elem()
					n.Field(i).Set(fv)
					l = append(l, n)
					m := reflect.New(t).Elem()
					m.Set(full)
					m.Field(i).Set(fv)
					l = append(l, m)
				}
				pick := vs[len(vs)-1]
				if _, err := encode(pick, tags[k]); err != nil || !faithful(pick, tags[k]) {
					pick = vs[len(vs)/2]
				}
				full.Field(i).Set(pick)
			}
			return
		}
		for k, i := range idx {
			r := rich
			if len(idx) > 1 && r > 1 {
				r--
			}
			if len(idx) > 2 && r > 0 {
				r--
			}
			var next []reflect.Value
			for _, s := range l {
				for _, fv := range values(t.Field(i).Type, r, tags[k]) {
					n := reflect.New(t).Elem()
					n.Set(s)
					n.Field(i).Set(fv)
					next = append(next, n)
				}
			}
			l = next
		}
	default:
		panic("values of " + t.String())
	}
	return
}

func show(v reflect.Value) string {
	t := v.Type()
	if t == bigT {
		i := v.Interface().(big.Int)
		return i.String()
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	case reflect.Struct:
		var l []string
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				l = append(l, show(v.Field(i)))
			}
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice && v.IsNil() {
				return "nil"
			}
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return fmt.Sprintf("%x", b)
		}
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	}
	return "?"
}

// ---- sections ----

func generated(c *enum.C) {
	n := map[string]int{}
	for _, it := range results.Items {
		n[it.Want]++
	}
	c.Bound("%d struct types: %d must be generated, %d rejected, %d either", len(results.Items), n["ok"], n["bad"], n["either"])
	for _, it := range results.Items {
		it := it
		c.Case(func() {
			c.Step(1)
			c.State(it.Want, it.Err != "")
			c.Check(it.Fault == "", "%s", it.Fault)
		}, "struct {%s}", it.Src)
	}
	for _, o := range results.Outcomes {
		o := o
		c.Case(func() {
			c.Step(1)
			c.Check(o.Fault == "", "%s", o.Fault)
		}, "command line: %s", o.Name)
	}
}

type codec struct {
	c    *enum.C
	it   results.Item
	t    reflect.Type
	seen map[string]bool
}

// read compares the decoders on one input.
func (k *codec) read(in []byte) {
	if k.seen[string(in)] {
		return
	}
	k.seen[string(in)] = true
	want := reflect.New(k.t)
	rest, werr := decode(in, want.Elem(), ftag{})
	k.c.Case(func() {
		k.c.Step(1)
		got := reflect.New(k.t)
		s := rlp.NewStreamBytes(append([]byte{}, in...))
		err := got.Interface().(rlp.Decoder).DecodeRLP(s)
		if werr != nil {
			k.c.Check(err != nil, "accepted as %s", show(got.Elem()))
			return
		}
		k.c.Check(err == nil, "rejected (%v), want %s", err, show(want.Elem()))
		k.c.Check(same(got.Elem(), want.Elem()), "decoded as %s, want %s", show(got.Elem()), show(want.Elem()))
		k.c.Check(s.Pos() == len(in)-len(rest), "%d bytes consumed, want %d", s.Pos(), len(in)-len(rest))
		k.c.State(k.it.Name, string(in))
	}, "decode %x as struct {%s}", in, k.it.Src)
}

// write compares the encoders on one value and returns the encoding.
func (k *codec) write(v reflect.Value) []byte {
	want, werr := encode(v, ftag{})
	k.c.Case(func() {
		k.c.Step(1)
		var b bytes.Buffer
		p := reflect.New(k.t)
		p.Elem().Set(v)
		before := show(v)
		err := p.Interface().(rlp.Encoder).EncodeRLP(&b)
		k.c.Check(show(p.Elem()) == before, "encoding changes the value to %s", show(p.Elem()))
		if werr != nil {
			k.c.Check(err != nil, "encoded as %x, want an error", b.Bytes())
			return
		}
		k.c.Check(err == nil, "not encoded: %v", err)
		k.c.Check(bytes.Equal(b.Bytes(), want), "encoded as %x, want %x", b.Bytes(), want)
		k.c.State(k.it.Name, string(want))
		if faithful(v, ftag{}) {
			got := reflect.New(k.t)
			err := got.Interface().(rlp.Decoder).DecodeRLP(rlp.NewStreamBytes(want))
			k.c.Check(err == nil, "its encoding %x is rejected: %v", want, err)
			k.c.Check(same(got.Elem(), v), "its encoding %x is decoded as %s", want, show(got.Elem()))
		}
		// inside another list, and into a buffer in use
		w := rlp.NewEncoderBuffer(nil)
		w.WriteUint64(7)
		l := w.List()
		k.c.Check(p.Interface().(rlp.Encoder).EncodeRLP(w) == nil, "not encoded into a buffer")
		w.ListEnd(l)
		full := append([]byte{7}, item(0xC0, want)...)
		k.c.Check(bytes.Equal(w.ToBytes(), full), "into a buffer it is %x, want %x", w.ToBytes(), full)
	}, "encode %s of struct {%s}", show(v), k.it.Src)
	if werr != nil {
		return nil
	}
	return want
}

var bytesUsed = []byte{0x00, 0x01, 0x05, 0x7f, 0x80, 0x81, 0x82, 0xb8, 0xc0, 0xc1, 0xc2, 0xc3, 0xf8, 0xff}

func codecs(c *enum.C) {
	n := c.Pick(3, 4)
	c.Bound("every generated type: all combinations of 3 to 6 values of each field, encoded and decoded; every encoding with one byte replaced by each of %x, removed or inserted, and truncated; every string over these bytes up to length %d (one less for types of three or more fields)", bytesUsed, n)
	for _, it := range results.Items {
		if it.Fault != "" || it.Err != "" || !c.Mine() {
			continue
		}
		k := &codec{c: c, it: it, t: reflect.TypeOf(results.Pkgs[it.Pkg][it.Name]).Elem(), seen: map[string]bool{}}
		rich := 2
		if k.t.NumField() > 2 {
			rich = 1
		}
		if c.Thorough() {
			rich++
		}
		if rich > 3 {
			rich = 3
		}
		for i, v := range values(k.t, rich, ftag{}) {
			e := k.write(v)
			if e == nil || len(e) > 80 {
				if e != nil {
					k.read(e)
				}
				continue
			}
			k.read(e)
			if i > c.Pick(60, 2000) {
				continue
			}
			for j := range e {
				k.read(e[:j])
				k.read(append(append([]byte{}, e[:j]...), e[j+1:]...))
				for _, x := range bytesUsed {
					m := append([]byte{}, e...)
					m[j] = x
					k.read(m)
				}
			}
			for _, x := range bytesUsed {
				k.read(append(append([]byte{}, e...), x))
				if len(e) > 0 && e[0] >= 0xC0 && e[0] < 0xF7 {
					// one more element in the list
					m := append(append([]byte{e[0] + 1}, e[1:]...), x)
					k.read(m)
					m = append([]byte{e[0] + 1, x}, e[1:]...)
					k.read(m)
				}
			}
			if e[0] >= 0xC0 && e[0] < 0xF8 {
				// a longer header than needed
				k.read(append([]byte{0xF8, e[0] - 0xC0}, e[1:]...))
			}
		}
		max := n
		if k.t.NumField() > 2 {
			max--
		}
		buf := make([]byte, 0, max)
		var rec func()
		rec = func() {
			k.read(buf)
			if len(buf) == max {
				return
			}
			for _, x := range bytesUsed {
				buf = append(buf, x)
				rec()
				buf = buf[:len(buf)-1]
			}
		}
		rec()
	}
}

func main() {
	enum.Main(
		enum.Section{Name: "generator", Run: generated},
		enum.Section{Name: "codec", Shards: 16, Run: codecs},
	)
}
