// L03: what the formats print is parsed by independent readers and compared
// with what was logged.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flychain/log"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-stack/stack"
)

var alphabet = []string{"a", " ", `"`, "=", "\n", "\t", `\`, "\x7f", "é", "\xff", ",", "\x1b", "~", "!", "\r", "\u2028"}

// words returns all concatenations of up to n letters.
func words(n int) []string {
	l := []string{""}
	prev := l
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, a := range alphabet {
				next = append(next, p+a)
			}
		}
		l = append(l, next...)
		prev = next
	}
	return l
}

var names = log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}

// when is the time of all records, whenText and whenTerm what is printed for it.
var when = time.Date(2021, 3, 4, 15, 6, 7, 89e6, time.FixedZone("Z", 5400))

var whenText, whenTerm = "2021-03-04T15:06:07+0130", "03-04|15:06:07.089"

// at makes t the time of the records.
func at(t time.Time) {
	when = t
	y, mo, d := t.Date()
	h, m, sec := t.Clock()
	_, off := t.Zone()
	sign := "+"
	if off < 0 {
		sign, off = "-", -off
	}
	off /= 60
	whenText = fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%02d%02d", y, mo, d, h, m, sec, sign, off/60, off%60)
	whenTerm = fmt.Sprintf("%02d-%02d|%02d:%02d:%02d.%03d", mo, d, h, m, sec, t.Nanosecond()/1e6)
}

func rec(lvl log.Lvl, msg string, ctx ...interface{}) *log.Record {
	return &log.Record{Time: when, Lvl: lvl, Msg: msg, Ctx: ctx, KeyNames: names, Call: stack.Caller(0)}
}

type field struct {
	k, v   string
	spaces int // behind it
	width  int // of the printed value
}

func bare(r rune) bool { return r > '"' && r <= '~' && r != '=' }

// token reads a key or value.
func token(s string) (val, raw, rest string, err error) {
	if strings.HasPrefix(s, `"`) {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return "", "", "", fmt.Errorf("bad quotes at %q", s)
		}
		v, err := strconv.Unquote(q)
		for _, c := range []byte(q) {
			if c < ' ' || c == 0x7f {
				return "", "", "", fmt.Errorf("control character inside %q", q)
			}
		}
		return v, q, s[len(q):], err
	}
	n := 0
	for n < len(s) && bare(rune(s[n])) {
		n++
	}
	return s[:n], s[:n], s[n:], nil
}

// parse reads fields up to the newline that ends the record.
func parse(s string, color int) ([]field, error) {
	if !strings.HasSuffix(s, "\n") {
		return nil, errors.New("no newline at the end")
	}
	s = s[:len(s)-1]
	if strings.Contains(s, "\n") {
		return nil, errors.New("more than one line")
	}
	var out []field
	for s != "" {
		if color > 0 {
			p := fmt.Sprintf("\x1b[%dm", color)
			if !strings.HasPrefix(s, p) {
				return nil, fmt.Errorf("no colour at %q", s)
			}
			s = s[len(p):]
		}
		k, _, rest, err := token(s)
		if err != nil {
			return nil, err
		}
		if color > 0 {
			if !strings.HasPrefix(rest, "\x1b[0m") {
				return nil, fmt.Errorf("colour is not reset at %q", rest)
			}
			rest = rest[4:]
		}
		if !strings.HasPrefix(rest, "=") {
			return nil, fmt.Errorf("no = at %q", rest)
		}
		v, raw, rest, err := token(rest[1:])
		if err != nil {
			return nil, err
		}
		f := field{k: k, v: v, width: utf8.RuneCountInString(raw)}
		for strings.HasPrefix(rest, " ") {
			rest = rest[1:]
			f.spaces++
		}
		if rest != "" && f.spaces == 0 {
			return nil, fmt.Errorf("no space at %q", rest)
		}
		if rest == "" && f.spaces > 0 {
			return nil, errors.New("space at the end")
		}
		out = append(out, f)
		s = rest
	}
	return out, nil
}

func checkFields(c *enum.C, what, line string, got []field, want ...string) {
	if len(got) != len(want)/2 {
		c.Failf("%s: %d fields in %q, want %d", what, len(got), line, len(want)/2)
	}
	for i, f := range got {
		c.Check(f.k == want[2*i] && f.v == want[2*i+1], "%s: field %d of %q is %q=%q, want %q=%q", what, i, line, f.k, f.v, want[2*i], want[2*i+1])
	}
}

var lvls = []log.Lvl{log.LvlCrit, log.LvlError, log.LvlWarn, log.LvlInfo, log.LvlDebug, log.LvlTrace}
var lvlText = map[log.Lvl]string{log.LvlCrit: "crit", log.LvlError: "eror", log.LvlWarn: "warn", log.LvlInfo: "info", log.LvlDebug: "dbug", log.LvlTrace: "trce"}
var lvlTerm = map[log.Lvl]string{log.LvlCrit: "CRIT ", log.LvlError: "ERROR", log.LvlWarn: "WARN ", log.LvlInfo: "INFO ", log.LvlDebug: "DEBUG", log.LvlTrace: "TRACE"}
var lvlColor = map[log.Lvl]int{log.LvlCrit: 35, log.LvlError: 31, log.LvlWarn: 33, log.LvlInfo: 32, log.LvlDebug: 36, log.LvlTrace: 34}

func checkLogfmt(c *enum.C, lvl log.Lvl, msg string, kv ...string) {
	ctx := make([]interface{}, len(kv))
	for i, s := range kv {
		ctx[i] = s
	}
	c.Step(1)
	s := string(log.LogfmtFormat().Format(rec(lvl, msg, ctx...)))
	got, err := parse(s, 0)
	if err != nil {
		c.Failf("logfmt of %q %q: %q: %v", msg, kv, s, err)
	}
	checkFields(c, "logfmt", s, got, append([]string{"t", whenText, "lvl", lvlText[lvl], "msg", msg}, kv...)...)
}

func plainMsg(m string) bool {
	for _, r := range m {
		if r != '\n' && r != '\r' && (r < ' ' || r > '~' || r == '=') {
			return false
		}
	}
	return true
}

// longest origin printed so far
var longest int

func checkTerm(c *enum.C, color, origin bool, lvl log.Lvl, msg string, kv ...string) {
	ctx := make([]interface{}, len(kv))
	for i, s := range kv {
		ctx[i] = s
	}
	log.PrintOrigins(origin)
	c.Step(1)
	r := rec(lvl, msg, ctx...)
	if len(msg)%3 == 1 { // a longer location now and then
		r.Call = farCall
	}
	loc := fmt.Sprintf("%+v", r.Call)
	s := string(log.TerminalFormat(color).Format(r))
	log.PrintOrigins(false)
	what := fmt.Sprintf("terminal of %q %q: %q", msg, kv, s)
	rest := s
	skip := func(p string) {
		if !strings.HasPrefix(rest, p) {
			c.Failf("%s: %q is not at %q", what, p, rest)
		}
		rest = rest[len(p):]
	}
	col := 0
	if color {
		col = lvlColor[lvl]
		skip(fmt.Sprintf("\x1b[%dm", col))
	}
	skip(lvlTerm[lvl])
	if color {
		skip("\x1b[0m")
	}
	if origin {
		if len(loc) > longest {
			longest = len(loc)
		}
		skip("[" + whenTerm + "|" + loc + "]" + strings.Repeat(" ", longest-len(loc)))
	} else {
		skip("[" + whenTerm + "]")
	}
	skip(" ")
	pm := msg
	if !plainMsg(msg) {
		q, _, r2, err := token(rest)
		if err != nil || !strings.HasPrefix(rest, `"`) {
			c.Failf("%s: the message is not quoted: %v", what, err)
		}
		c.Check(q == msg, "%s: the message unquotes to %q", what, q)
		pm = rest[:len(rest)-len(r2)]
		rest = r2
	} else {
		skip(msg)
	}
	skip(" ")
	if n := utf8.RuneCountInString(pm); len(kv) > 0 && n < 40 {
		skip(strings.Repeat(" ", 40-n))
	}
	got, err := parse(rest, col)
	if err != nil {
		c.Failf("%s: %v", what, err)
	}
	checkFields(c, what, s, got, kv...)
}

func texts(c *enum.C) {
	n := c.Pick(2, 3)
	one := words(n)
	small := words(2)
	tiny := words(1)
	c.Bound("each of message, key and value: all %d strings up to %d letters over %d letters; key with value: all pairs up to %d letters; two fields and message: all tuples up to 1 letter", len(one), n, len(alphabet), 2)
	all := func(m string, kv ...string) {
		c.Case(func() {
			checkLogfmt(c, log.LvlInfo, m, kv...)
			checkTerm(c, false, false, log.LvlWarn, m, kv...)
			checkTerm(c, true, false, log.LvlError, m, kv...)
			c.State(m, kv)
		}, "%q %q", m, kv)
	}
	for _, w := range one {
		if !c.Mine() {
			continue
		}
		all(w)
		all(w, "k", "v")
		all("m", w, "v")
		all("m", "k", w)
		all("m", "k", w, "l", "x")
		all("m", w, "v", "l", "x")
		all("m", "k", "v", "l", w)
	}
	for _, k := range small {
		if !c.Mine() {
			continue
		}
		for _, v := range small {
			all("m", k, v)
			all("m", k, v, "next", "x")
		}
	}
	for _, m := range tiny {
		for _, k := range tiny {
			if !c.Mine() {
				continue
			}
			for _, v := range tiny {
				for _, k2 := range tiny {
					for _, v2 := range tiny {
						all(m, k, v, k2, v2)
					}
				}
			}
		}
	}
}

// runes goes through every rune as a value, key and message.
func runes(c *enum.C) {
	max := rune(0x10ffff)
	c.Bound("every code point up to %#x and every single byte in key, value and message", max)
	do := func(s string) {
		c.Case(func() {
			checkLogfmt(c, log.LvlDebug, s, "k"+s, s+"v")
			checkTerm(c, false, false, log.LvlTrace, s, "k"+s, s+"v")
		}, "%q", s)
	}
	for b := 0; b < 256; b++ {
		do(string([]byte{byte(b)}))
	}
	for r := rune(0); r <= max; r++ {
		if r%4096 == 0 && !c.Mine() {
			r += 4095
			continue
		}
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		do(string(r))
	}
	c.State("runes")
}

// huge goes through long texts and many fields.
func huge(c *enum.C) {
	dense, max := c.Pick(150, 600), c.Pick(1<<13, 1<<16)
	fields := c.Pick(64, 300)
	c.Bound("messages, keys and values of 0..%d characters and of the lengths around every power of two and of ten up to %d, of 4 letters, plain or with a special character at either end or in the middle; 0..%d fields and the numbers of fields around every power of two and of ten up to %d", dense, max, fields, max/8)
	ref.Sizes(dense, max, func(n int) {
		if !c.Mine() {
			return
		}
		for _, letter := range []string{"x", "é", "\x1b", "\""} {
			for _, special := range []string{"", " ", "\n", "=", "\""} {
				for _, at := range []int{0, n / 2, n} {
					if special == "" && at > 0 {
						continue
					}
					s := strings.Repeat(letter, at) + special + strings.Repeat(letter, n-at)
					c.Case(func() {
						checkLogfmt(c, log.LvlInfo, s, "k", s, s, "v", "last", "x")
						checkTerm(c, n%2 == 0, false, log.LvlInfo, s, "k", s, s, "v", "last", "x")
					}, "%d letters %q, %q at %d", n, letter, special, at)
				}
			}
		}
		{
			check := func(what string, s string) {
				c.Case(func() {
					var got map[string]interface{}
					for _, f := range []log.Format{log.JSONFormat(), log.JSONFormatEx(true, false)} {
						c.Step(1)
						b := f.Format(rec(log.LvlWarn, s, "k", s, "q"+s, 1))
						got = nil
						err := json.Unmarshal(b, &got)
						c.Check(err == nil && len(got) == 5 && got["msg"] == s && got["k"] == s && got["q"+s] == 1.0, "json of %s is wrong: %v", what, err)
					}
				}, "json of %s", what)
			}
			check(fmt.Sprintf("%d letters", n), strings.Repeat("é\n", n)[:3*(n/2)])
		}
	})
	ref.Sizes(fields, max/8, func(n int) {
		if !c.Mine() {
			return
		}
		kv := make([]string, 0, 2*n)
		for i := 0; i < n; i++ {
			kv = append(kv, fmt.Sprintf("h%d", i), strings.Repeat("v", i%5))
		}
		c.Case(func() {
			checkLogfmt(c, log.LvlInfo, "m", kv...)
			checkTerm(c, n%2 == 0, n%3 == 0, log.LvlInfo, "m", kv...)
			var ctx []interface{}
			for _, s := range kv {
				ctx = append(ctx, s)
			}
			var got map[string]interface{}
			b := log.JSONFormat().Format(rec(log.LvlWarn, "m", ctx...))
			err := json.Unmarshal(b, &got)
			c.Check(err == nil && len(got) == n+3, "json of %d fields has %d entries, %v", n, len(got), err)
			for i := 0; i < n; i++ {
				c.Check(got[kv[2*i]] == kv[2*i+1], "json of %d fields: field %d is %v", n, i, got[kv[2*i]])
			}
			got = nil
			err = json.Unmarshal(log.JSONFormatOrderedEx(false, true).Format(rec(log.LvlWarn, "m", ctx...)), &got)
			l, _ := got["ctx"].([]interface{})
			c.Check(err == nil && len(l) == 2*n, "ordered json of %d fields has %d elements, %v", n, len(l), err)
			for i, s := range kv {
				c.Check(l[i] == s, "ordered json of %d fields: element %d is %v, want %q", n, i, l[i], s)
			}
		}, "%d fields", n)
	})
	c.State("huge")
}

// layout goes through levels, colours, origins and message lengths.
func layout(c *enum.C) {
	c.Bound("6 levels, colour on/off, origins on/off, 0..2 fields, message lengths 0..90")
	for _, lvl := range lvls {
		for n := 0; n <= 90; n++ {
			for _, nf := range []int{0, 1, 2} {
				for _, color := range []bool{false, true} {
					lvl, n, nf, color := lvl, n, nf, color
					c.Case(func() {
						kv := []string{"key", "value", "other", "x y"}[:2*nf]
						msg := strings.Repeat("m", n)
						checkTerm(c, color, false, lvl, msg, kv...)
						checkTerm(c, color, true, lvl, msg, kv...)
						checkTerm(c, color, true, lvl, strings.Repeat("é", n), kv...)
						checkLogfmt(c, lvl, msg, kv...)
						c.State(lvl, n, nf, color)
					}, "level %v length %d fields %d colour %v", lvl, n, nf, color)
				}
			}
		}
	}
	// levels outside the table are printed without colour
	c.Case(func() {
		r := rec(log.LvlInfo, "m", "k", 1)
		r.Lvl = 3
		c.Check(string(log.TerminalFormat(false).Format(r)) == "INFO ["+whenTerm+"] m "+strings.Repeat(" ", 39)+"k=1\n", "terminal line is %q", log.TerminalFormat(false).Format(r))
		r.KeyNames = log.RecordKeyNames{Time: "T", Msg: "M", Lvl: "L", Ctx: "C"}
		c.Check(string(log.LogfmtFormat().Format(r)) == "T="+whenText+" L=info M=m k=1\n", "logfmt line is %q", log.LogfmtFormat().Format(r))
	}, "names")
}

// padding: values are padded to the widest value of the key seen so far.
func padding(c *enum.C) {
	lens := []int{0, 1, 3, 39, 40, 41, 80}
	depth := c.Pick(4, 5)
	c.Bound("all sequences of %d records with two padded fields and a last one, widths out of %v, in logfmt and terminal format", depth, lens)
	serial := 0
	var seq []int
	var rec2 func()
	run := func() {
		serial++
		key := fmt.Sprintf("p%dk", serial) // a key nobody used
		widest := [2]int{}
		for step, x := range seq {
			w := [2]int{lens[x], lens[(x*3+step)%len(lens)]}
			for i := range w {
				if w[i] <= 40 && w[i] > widest[i] {
					widest[i] = w[i]
				}
			}
			vals := []string{strings.Repeat("x", w[0]), strings.Repeat("y", w[1])}
			if step%2 == 1 && w[0] > 2 {
				vals[0] = " " + strings.Repeat("é", w[0]-3) // quoted to w[0] characters
			}
			ctx := []interface{}{key + "a", vals[0], key + "b", vals[1], "last", "z"}
			var s string
			c.Step(1)
			if step%3 == 2 {
				s = string(log.TerminalFormat(false).Format(rec(log.LvlInfo, "", ctx...)))
				p := "INFO [" + whenTerm + "]" + strings.Repeat(" ", 42)
				if !strings.HasPrefix(s, p) {
					c.Failf("%q does not begin with %q", s, p)
				}
				s = s[len(p):]
			} else {
				s = string(log.LogfmtFormat().Format(rec(log.LvlInfo, "", ctx...)))
				p := "t=" + whenText + " lvl=info msg="
				if !strings.HasPrefix(s, p) {
					c.Failf("%q does not begin with %q", s, p)
				}
				s = strings.TrimLeft(s[len(p):], " ")
			}
			got, err := parse(s, 0)
			if err != nil {
				c.Failf("%q: %v", s, err)
			}
			checkFields(c, "padding", s, got, key+"a", vals[0], key+"b", vals[1], "last", "z")
			for i := 0; i < 2; i++ {
				c.Check(got[i].width == w[i], "width of %q is %d, want %d", vals[i], got[i].width, w[i])
				want := 1
				if widest[i] > w[i] {
					want += widest[i] - w[i]
				}
				c.Check(got[i].spaces == want, "widths %v: step %d: %d spaces behind field %d, want %d", seq, step, got[i].spaces, i, want)
			}
		}
		c.State(seq)
	}
	rec2 = func() {
		if len(seq) == depth {
			c.Case(run, "%v", seq)
			return
		}
		for i := range lens {
			if len(seq) == 1 && !c.Mine() {
				continue
			}
			seq = append(seq, i)
			rec2()
			seq = seq[:len(seq)-1]
		}
	}
	rec2()
}

type jval struct {
	v    interface{}
	want interface{}
	text string // in the ordered format, unquoted
}

type text struct{ s string }

func (t text) String() string { return t.s }

func jvals(n int) []jval {
	var l []jval
	for _, s := range words(n) {
		if utf8.ValidString(s) {
			l = append(l, jval{s, s, s}, jval{text{s}, s, s}, jval{errors.New(s), s, s})
		}
	}
	num := func(v interface{}, s, t string) { l = append(l, jval{v, json.Number(s), t}) }
	num(0, "0", "0")
	num(-1, "-1", "-1")
	num(int8(-128), "-128", "-128")
	num(uint8(255), "255", "255")
	num(int16(-32768), "-32768", "-32768")
	num(uint16(65535), "65535", "65535")
	num(int32(-2147483648), "-2147483648", "-2,147,483,648")
	num(uint32(4294967295), "4294967295", "4,294,967,295")
	num(int64(-1<<63), "-9223372036854775808", "-9,223,372,036,854,775,808")
	num(uint64(1<<64-1), "18446744073709551615", "18,446,744,073,709,551,615")
	num(1.5, "1.5", "1.500")
	num(float32(-2.25), "-2.25", "-2.250")
	l = append(l, jval{when, whenText, whenText})
	return l
}

func jsonFormats(c *enum.C) {
	vs := jvals(c.Pick(1, 2))
	keys := []string{}
	for _, k := range words(c.Pick(1, 2)) {
		if utf8.ValidString(k) {
			keys = append(keys, k)
		}
	}
	c.Bound("%d keys, %d values, messages up to 1 letter, 0..2 fields, pretty and line separated or not", len(keys), len(vs))
	decode := func(what string, b []byte, pretty, sep bool) map[string]interface{} {
		if sep != bytes.HasSuffix(b, []byte("\n")) {
			c.Failf("%s: %q: newline at the end", what, b)
		}
		b = bytes.TrimSuffix(b, []byte("\n"))
		if !pretty && bytes.Contains(b, []byte("\n")) {
			c.Failf("%s: %q has more than one line", what, b)
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var m map[string]interface{}
		if err := d.Decode(&m); err != nil {
			c.Failf("%s: %q: %v", what, b, err)
		}
		if _, err := d.Token(); err == nil {
			c.Failf("%s: %q has more than one value", what, b)
		}
		return m
	}
	check := func(m string, keys []string, vals []jval) {
		c.Case(func() {
			var ctx []interface{}
			want := map[string]interface{}{"t": when.Format(time.RFC3339Nano), "lvl": "warn", "msg": m}
			var ord []interface{}
			for i, k := range keys {
				ctx = append(ctx, k, vals[i].v)
				want[k] = vals[i].want
				ord = append(ord, k, vals[i].text)
			}
			for o := 0; o < 4; o++ {
				pretty, sep := o&1 != 0, o&2 != 0
				c.Step(2)
				b := log.JSONFormatEx(pretty, sep).Format(rec(log.LvlWarn, m, ctx...))
				got := decode("json", b, pretty, sep)
				c.Check(reflect.DeepEqual(got, want), "json of %q %v (pretty %v separated %v) is %q, want %v", m, ctx, pretty, sep, b, want)

				b = log.JSONFormatOrderedEx(pretty, sep).Format(rec(log.LvlWarn, m, ctx...))
				got = decode("ordered json", b, pretty, sep)
				l, _ := got["ctx"].([]interface{})
				for i := 1; i < len(l); i += 2 {
					s, _ := l[i].(string)
					v, _, rest, err := token(s)
					if err != nil || rest != "" {
						c.Failf("ordered json of %q %v: the value %q is not a token: %v", m, ctx, s, err)
					}
					l[i] = v
				}
				c.Check(len(l) == len(ord) && (len(l) == 0 || reflect.DeepEqual(l, ord)), "ordered json of %q %v is %q, want the list %v", m, ctx, b, ord)
				c.Check(len(got) == 4 && got["t"] == want["t"] && got["lvl"] == "warn" && got["msg"] == m, "ordered json of %q %v is %q", m, ctx, b)
			}
			if b, d := log.JSONFormat().Format(rec(log.LvlWarn, m, ctx...)), log.JSONFormatEx(false, true).Format(rec(log.LvlWarn, m, ctx...)); !bytes.Equal(b, d) {
				c.Failf("JSONFormat gives %q, JSONFormatEx(false, true) gives %q", b, d)
			}
			c.State(m, ctx)
		}, "%q %q %v", m, keys, vals)
	}
	msgs := []string{}
	for _, m := range words(1) {
		if utf8.ValidString(m) {
			msgs = append(msgs, m)
			check(m, nil, nil)
		}
	}
	for i, k := range keys {
		if !c.Mine() {
			continue
		}
		for j, v := range vs {
			check(msgs[(i+j)%len(msgs)], []string{k}, []jval{v})
			k2 := keys[(i+j+1)%len(keys)]
			if k2 != k {
				check("m", []string{k, k2}, []jval{v, vs[(i*7+j)%len(vs)]})
			}
		}
	}
}

// times: the time of the record is the one printed, whatever came before.
func times(c *enum.C) {
	var all []time.Time
	zones := []*time.Location{time.UTC, time.FixedZone("A", 5400), time.FixedZone("B", -11*3600-45*60), time.FixedZone("C", 14*3600), time.FixedZone("D", -60)}
	for _, sec := range []int64{0, 1, -1, 59, 60, 86399, 86400, 951782399, 951782400, 1614870367, 1614870368, 4102444799, -62135596800, 253402214400} {
		for i, ns := range []int64{0, 1, 999, 999999, 1e6, 89e6, 89999999, 9995e5, 999999999} {
			for _, z := range zones {
				if t := time.Unix(sec, ns).In(z); i < 3 || sec == 1614870367 || z == zones[0] {
					if y := t.Year(); y >= 1 && y <= 9999 {
						all = append(all, t)
					}
				}
			}
		}
	}
	c.Bound("all ordered pairs of %d times (14 instants, 9 fractions, 5 zones) as the times of successive records and as values, in all formats", len(all))
	jf := log.JSONFormatEx(false, false)
	jo := log.JSONFormatOrderedEx(false, false)
	text := func(t time.Time) string { return t.Format(time.RFC3339Nano) }
	show := func(t, v time.Time) {
		at(v)
		vText := whenText
		at(t)
		checkLogfmt(c, log.LvlInfo, "m", "k", "v")
		checkTerm(c, false, false, log.LvlInfo, "m", "k", "v")
		checkTerm(c, true, true, log.LvlInfo, "m", "k", "v")
		for _, term := range []bool{false, true} {
			f := log.LogfmtFormat()
			if term {
				f = log.TerminalFormat(false)
			}
			line := string(f.Format(rec(log.LvlInfo, "m", "when", v, "last", 1)))
			c.Check(strings.HasSuffix(line, " when="+vText+" last=1\n"), "terminal %v: the value %v is printed as %q", term, v, line)
		}
		for _, f := range []log.Format{jf, jo} {
			var m map[string]interface{}
			b := f.Format(rec(log.LvlInfo, "m", "v", v))
			if err := json.Unmarshal(b, &m); err != nil {
				c.Failf("%q: %v", b, err)
			}
			c.Check(m["t"] == text(t), "a record of %v has time %v in JSON", t, m["t"])
			got := m["v"]
			if l, ok := m["ctx"].([]interface{}); ok && len(l) == 2 {
				got = l[1]
			}
			c.Check(got == vText, "the value %v is %v in JSON", v, got)
		}
	}
	for i, a := range all {
		if !c.Mine() {
			continue
		}
		c.Case(func() {
			for _, b := range all {
				show(a, b)
				show(b, a)
			}
			c.State(i)
		}, "%v and any other", a)
	}
}

// origins: call sites of many lengths.
func origins(c *enum.C) {
	c.Bound("call sites with names of %d lengths to 500 characters, each after every shorter one, with and without colour", len(sites))
	for i := range sites {
		for j := 0; j <= i; j++ {
			for k := 0; k <= i; k++ {
				c.Case(func() {
					for _, x := range []int{i, j, k} {
						for _, color := range []bool{false, true} {
							c.Step(1)
							farCall = sites[x]()
							checkTerm(c, color, true, log.LvlInfo, "a message!", "k", "v")
							checkTerm(c, color, false, log.LvlInfo, "a message!", "k", "v")
						}
					}
					c.State(i, j, k)
				}, "sites %d %d %d", i, j, k)
			}
		}
	}
}

var farCall = far()

func far() stack.Call { return stack.Caller(0) }

func main() {
	enum.Main(
		enum.Section{Name: "texts", Shards: 8, Run: texts},
		enum.Section{Name: "runes", Shards: 8, Run: runes},
		enum.Section{Name: "huge", Shards: 8, Run: huge},
		enum.Section{Name: "layout", Run: layout},
		enum.Section{Name: "padding", Shards: 4, Run: padding},
		enum.Section{Name: "times", Shards: 8, Run: times},
		enum.Section{Name: "origins", Run: origins},
		enum.Section{Name: "json", Shards: 4, Run: jsonFormats},
	)
}
