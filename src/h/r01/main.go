// R01: struct tag processing against an independent statement of the rules.
package main

import (
	"flychain/rlp/internal/rlpstruct"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"fmt"
	"reflect"
	"strings"
)

type typ struct {
	name string
	t    rlpstruct.Type
	str  bool // nil kind of a pointer to it is the empty string
}

func el(t rlpstruct.Type) *rlpstruct.Type { return &t }

// leaves are all kinds without element.
func leaves() []typ {
	var l []typ
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		switch k {
		case reflect.Array, reflect.Ptr, reflect.Slice:
			continue
		}
		str := false
		switch k {
		case reflect.Bool, reflect.String, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			str = true
		}
		for _, enc := range []bool{false, true} {
			for _, dec := range []bool{false, true} {
				l = append(l, typ{fmt.Sprintf("%v/%v%v", k, enc, dec), rlpstruct.Type{Name: k.String(), Kind: k, IsEncoder: enc, IsDecoder: dec}, str})
			}
		}
	}
	return l
}

// wrap puts an array, slice or pointer around each type.
func wrap(in []typ) []typ {
	var l []typ
	for _, e := range in {
		for _, k := range []reflect.Kind{reflect.Array, reflect.Slice, reflect.Ptr} {
			for _, enc := range []bool{false, true} {
				str := k != reflect.Ptr && e.t.Kind == reflect.Uint8 && !e.t.IsEncoder
				l = append(l, typ{fmt.Sprintf("%v[%s]/%v", k, e.name, enc), rlpstruct.Type{Name: "x", Kind: k, IsEncoder: enc, Elem: el(e.t)}, str})
			}
		}
	}
	return l
}

func nilKinds(c *enum.C) {
	ls := leaves()
	w1 := wrap(ls)
	w2 := wrap(w1)
	c.Bound("all %d kinds without element, %d arrays, slices and pointers of them, %d nested twice, with and without encoder methods", len(ls), len(w1), len(w2))
	all := append(append(ls, w1...), w2...)
	for _, t := range all {
		t := t
		c.Case(func() {
			c.Step(1)
			want := rlpstruct.NilKind(0xC0)
			if t.str {
				want = 0x80
			}
			c.State(want)
			c.Check(t.t.DefaultNilValue() == want, "nil kind %#x, want %#x", t.t.DefaultNilValue(), want)
			// seen through a tag
			f := rlpstruct.Field{Name: "F", Exported: true, Type: rlpstruct.Type{Kind: reflect.Ptr, Elem: el(t.t)}, Tag: `rlp:"nil"`}
			fs, ts, err := rlpstruct.ProcessFields([]rlpstruct.Field{f})
			c.Check(err == nil && len(fs) == 1 && len(ts) == 1 && ts[0] == rlpstruct.Tags{NilKind: want, NilOK: true}, "through the tag: %+v %v", ts, err)
		}, "%s", t.name)
	}
}

// ---- field lists ----

type violation struct{ field, tag string }

// expect states the rules.
func expect(fs []rlpstruct.Field, toks [][]string) (idx []int, tags []rlpstruct.Tags, viol map[violation]bool) {
	viol = map[violation]bool{}
	last := -1
	for i, f := range fs {
		if f.Exported {
			last = i
		}
	}
	first := ""
	seen := false
	for i, f := range fs {
		if !f.Exported {
			continue
		}
		var t rlpstruct.Tags
		has := map[string]bool{}
		for _, x := range toks[i] {
			x = strings.TrimSpace(x)
			has[x] = true
			switch x {
			case "nil", "nilString", "nilList":
				if f.Type.Kind != reflect.Ptr {
					viol[violation{f.Name, x}] = true
					continue
				}
				t.NilOK = true
				t.NilKind = 0xC0
				if x == "nilString" || x == "nil" && f.Type.Elem.Kind == reflect.Uint16 {
					t.NilKind = 0x80
				}
			case "tail":
				t.Tail = true
				if i != last || f.Type.Kind != reflect.Slice {
					viol[violation{f.Name, x}] = true
				}
			case "optional":
				t.Optional = true
			case "-":
				t.Ignored = true
			case "":
			default:
				viol[violation{f.Name, x}] = true
			}
		}
		if has["tail"] && has["optional"] {
			viol[violation{f.Name, "tail"}] = true
			viol[violation{f.Name, "optional"}] = true
		}
		if t.Ignored {
			continue
		}
		if t.Optional || t.Tail {
			if !seen {
				seen, first = true, f.Name
			}
		} else if seen {
			viol[violation{f.Name, ""}] = true
		}
		idx = append(idx, i)
		tags = append(tags, t)
	}
	_ = first
	return
}

var u16 = rlpstruct.Type{Name: "uint16", Kind: reflect.Uint16}
var st = rlpstruct.Type{Name: "S", Kind: reflect.Struct}
var ftypes = []typ{
	{name: "u16", t: u16},
	{name: "*u16", t: rlpstruct.Type{Kind: reflect.Ptr, Elem: &u16}},
	{name: "*S", t: rlpstruct.Type{Kind: reflect.Ptr, Elem: &st}},
	{name: "[]u16", t: rlpstruct.Type{Kind: reflect.Slice, Elem: &u16}},
	{name: "[]S", t: rlpstruct.Type{Kind: reflect.Array, Elem: &st}},
}
var words = []string{"", "-", "nil", "nilString", "nilList", "optional", "tail", "Optional", " tail "}

type variant struct {
	name string
	f    rlpstruct.Field
	toks []string
}

func tagText(toks []string, style int) string {
	if toks == nil {
		return []string{``, `json:"x"`, `json:"nil,unknown"`}[style%3]
	}
	body := `rlp:"` + strings.Join(toks, ",") + `"`
	return []string{body, `json:"zork" ` + body, body + ` xml:"tail"`}[style%3]
}

// variants are all fields with up to n tag words out of ws.
func variants(n int, ws []string, ts []typ) []variant {
	combos := [][]string{nil}
	prev := [][]string{nil}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, p := range prev {
			for _, w := range ws {
				next = append(next, append(append([]string{}, p...), w))
			}
		}
		combos = append(combos, next...)
		prev = next
	}
	var l []variant
	for _, toks := range combos {
		for _, t := range ts {
			for _, exp := range []bool{true, false} {
				l = append(l, variant{fmt.Sprintf("%s %q exported=%v", t.name, toks, exp), rlpstruct.Field{Exported: exp, Type: t.t}, toks})
			}
		}
	}
	return l
}

func fieldName(i int) string {
	if i < 26 {
		return string(rune('A' + i))
	}
	return fmt.Sprintf("F%d", i)
}

func one(c *enum.C, vs []variant, style int) {
	fs := make([]rlpstruct.Field, len(vs))
	toks := make([][]string, len(vs))
	keys := make([]string, len(vs))
	for i, v := range vs {
		fs[i] = v.f
		fs[i].Index = i
		fs[i].Name = fieldName(i)
		fs[i].Tag = tagText(v.toks, style+i)
		toks[i] = v.toks
		keys[i] = v.name
	}
	c.Case(func() {
		c.Step(1)
		before := append([]rlpstruct.Field{}, fs...)
		got, tags, err := rlpstruct.ProcessFields(fs)
		idx, wtags, viol := expect(fs, toks)
		for i := range fs {
			c.Check(fs[i] == before[i], "the fields passed in change")
		}
		c.State(len(idx), len(viol), err == nil)
		if len(viol) > 0 {
			te, ok := err.(rlpstruct.TagError)
			c.Check(ok, "error %v (%T), want a tag error out of %v", err, err, viol)
			c.Check(viol[violation{te.Field, te.Tag}], "the error names field %q, tag %q; broken rules: %v", te.Field, te.Tag, viol)
			c.Check(strings.Contains(err.Error(), te.Field) && strings.Contains(err.Error(), te.Tag), "error text %q does not name the field and tag", err)
			return
		}
		c.Check(err == nil, "rejected: %v", err)
		c.Check(len(got) == len(idx) && len(tags) == len(idx), "%d fields and %d tags, want %v", len(got), len(tags), idx)
		for i, j := range idx {
			c.Check(got[i] == fs[j], "field %d is %+v, want %+v", i, got[i], fs[j])
			c.Check(tags[i] == wtags[i], "tags of %s are %+v, want %+v", fs[j].Name, tags[i], wtags[i])
		}
	}, "%s / %d", strings.Join(keys, "; "), style%3)
}

func lists(n, words1 int, ws []string, ts []typ, styles int) func(c *enum.C) {
	return func(c *enum.C) {
		vs := variants(words1, ws, ts)
		c.Bound("all lists of %d fields, each of %d variants: up to %d words of %q on %d types, exported or not; %d placements of the tag among other keys", n, len(vs), words1, ws, len(ts), styles)
		pick := make([]variant, n)
		var rec func(i, style int)
		rec = func(i, style int) {
			if i == n {
				one(c, pick, style)
				return
			}
			for _, v := range vs {
				if i == 0 && !c.Mine() {
					continue
				}
				pick[i] = v
				rec(i+1, style)
			}
		}
		for s := 0; s < styles; s++ {
			rec(0, s)
		}
	}
}

// unknown words: near misses of the known ones, words of other tag languages,
// and every single character.
func unknown(c *enum.C) {
	ws := []string{"omitempty", "inline", "required", "string", "list", "ignore", "skip", "json", "rlp", "nilkind", "nil String", "0", "true", "*", "--", "- -"}
	known := []string{"-", "nil", "nilString", "nilList", "optional", "tail"}
	for _, k := range known {
		for i := range k {
			ws = append(ws, k[:i]+k[i+1:], k[:i], k[i:]+"s", k[:i]+strings.ToUpper(k[i:]), k[:i]+strings.ToLower(k[i:]), k[:i]+"_"+k[i:], k[:i+1]+k[i:], k+":"+k[i:])
		}
	}
	for r := rune(33); r < 127; r++ {
		if r != '"' && r != '\\' && r != ',' {
			ws = append(ws, string(r))
		}
	}
	c.Bound("%d words, known or not, alone and before or behind a known one, on %d types", len(ws), len(ftypes))
	for _, w := range ws {
		for _, t := range ftypes {
			for _, toks := range [][]string{{w}, {"optional", w}, {w, "optional"}, {w, "-"}, {"-", w}} {
				one(c, []variant{{fmt.Sprintf("%s %q exported=true", t.name, toks), rlpstruct.Field{Exported: true, Type: t.t}, toks}}, 0)
			}
		}
	}
}

// large structs: long lists with one field out of line, long tags.
func large(c *enum.C) {
	dense, max := c.Pick(12, 40), c.Pick(300, 2000)
	c.Bound("lists of 0..%d and more, up to %d fields: all plain, every third unexported, optional from a position on, a tail at a position, one word out of 8 at a position, a plain field behind optional ones; tags of as many words, and of one word of as many letters", dense, max)
	mk := func(t typ, exp bool, toks ...string) variant {
		return variant{"", rlpstruct.Field{Exported: exp, Type: t.t}, toks}
	}
	seq := ftypes[3]
	ref.Sizes(dense, max, func(n int) {
		if !c.Mine() {
			return
		}
		run := func(what string, f func(i int) variant) {
			vs := make([]variant, n)
			for i := range vs {
				vs[i] = f(i)
			}
			vs = append([]variant{}, vs...)
			if n > 0 {
				vs[0].name = what + fmt.Sprintf(" of %d", n)
			}
			one(c, vs, 0)
		}
		for _, hide := range []int{0, 3} {
			exp := func(i int) bool { return hide == 0 || i%hide != 1 }
			run(fmt.Sprint("plain, unexported every ", hide), func(i int) variant { return mk(ftypes[i%5], exp(i)) })
			for _, k := range []int{0, 1, n / 2, n - 2, n - 1} {
				k := k
				if k < 0 || k >= n {
					continue
				}
				run(fmt.Sprint("optional from ", k, " on, unexported every ", hide), func(i int) variant {
					if i >= k {
						return mk(ftypes[i%5], exp(i), "optional")
					}
					return mk(ftypes[i%5], exp(i))
				})
				run(fmt.Sprint("plain at ", k, ", unexported every ", hide), func(i int) variant {
					if i != k {
						return mk(ftypes[i%5], exp(i), "optional")
					}
					return mk(ftypes[i%5], exp(i))
				})
				for _, w := range words[1:] {
					w := w
					run(fmt.Sprint(w, " at ", k, ", unexported every ", hide), func(i int) variant {
						if i == k {
							return mk(seq, exp(i), w)
						}
						return mk(ftypes[i%5], exp(i))
					})
				}
			}
		}
		if n == 0 {
			return
		}
		for _, w := range words {
			toks := make([]string, n)
			for i := range toks {
				toks[i] = []string{"nil", "nilList", "", "optional"}[i%4]
			}
			toks[n-1] = w
			v := mk(ftypes[1], true, toks...)
			v.name = fmt.Sprintf("%d words, the last is %q", n, w)
			one(c, []variant{v}, 0)
		}
		for _, w := range []string{"nil", "optional", "-", "x"} {
			for _, x := range []string{strings.Repeat("x", n) + w, w + strings.Repeat("x", n), strings.Repeat(" ", n) + w, w + strings.Repeat(" ", n)} {
				v := mk(ftypes[1], true, x)
				v.name = fmt.Sprintf("%q", x)
				one(c, []variant{v}, 0)
			}
		}
	})
}

func main() {
	short := []string{"-", "nil", "optional", "tail", "x"}
	enum.Main(
		enum.Section{Name: "nilkind", Run: nilKinds},
		enum.Section{Name: "empty", Run: func(c *enum.C) { one(c, nil, 0) }},
		enum.Section{Name: "one", Shards: 2, Run: func(c *enum.C) {
			lists(1, c.Pick(4, 5), words, ftypes, 3)(c)
		}},
		enum.Section{Name: "unknown", Run: unknown},
		enum.Section{Name: "large", Shards: 4, Run: large},
		enum.Section{Name: "two", Shards: 8, Run: func(c *enum.C) {
			lists(2, 2, words, ftypes, c.Pick(1, 3))(c)
		}},
		enum.Section{Name: "three", Shards: 8, Run: func(c *enum.C) {
			lists(3, 1, short, ftypes, c.Pick(1, 3))(c)
			if c.Thorough() {
				lists(3, 2, []string{"-", "nil", "optional", "tail"}, []typ{ftypes[0], ftypes[1], ftypes[3]}, 1)(c)
			}
		}},
		enum.Section{Name: "four", Shards: 8, Run: func(c *enum.C) {
			lists(4, 1, []string{"-", "nil", "optional", "tail"}, []typ{ftypes[1], ftypes[3]}, 1)(c)
			if c.Thorough() {
				lists(5, 1, []string{"-", "optional", "tail"}, []typ{ftypes[3]}, 1)(c)
			}
		}},
	)
}
