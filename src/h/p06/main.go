// P06: JSON-RPC messages are classified, answered and matched correctly.
package main

import (
	"bytes"
	"context"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"flychain/zzmc/enum"
	"flychain/zzmc/ref"
	"flychain/zzslice/rpc"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"strings"
)

// ---- classification ----

type doc struct{ version, id, method, params, result, err string }

func (d doc) json() string {
	var f []string
	add := func(k, v string) {
		if v != "" {
			f = append(f, fmt.Sprintf("%q:%s", k, v))
		}
	}
	add("jsonrpc", d.version)
	add("id", d.id)
	add("method", d.method)
	add("params", d.params)
	add("result", d.result)
	add("error", d.err)
	return "{" + strings.Join(f, ",") + "}"
}

func classify(c *enum.C, d doc) {
	c.Step(6)
	m := new(rpc.Msg)
	if err := json.Unmarshal([]byte(d.json()), m); err != nil {
		c.Failf("decoding %s: %v", d.json(), err)
	}
	method := strings.Trim(d.method, `"`)
	v := d.version == `"2.0"`
	id := d.id != "" && d.id[0] != '{' && d.id[0] != '['
	not := v && d.id == "" && method != ""
	call := v && id && method != ""
	resp := v && id && method == "" && d.params == "" && (d.result != "" || d.err != "" && d.err != "null")
	c.State(not, call, resp, method)
	c.Check(rpc.IsNotification(m) == not, "isNotification = %v, want %v", rpc.IsNotification(m), not)
	c.Check(rpc.IsCall(m) == call, "isCall = %v, want %v", rpc.IsCall(m), call)
	c.Check(rpc.IsResponse(m) == resp, "isResponse = %v, want %v", rpc.IsResponse(m), resp)
	sub, unsub := strings.HasSuffix(method, "_subscribe"), strings.HasSuffix(method, "_unsubscribe")
	c.Check(rpc.IsSubscribe(m) == sub, "isSubscribe = %v, want %v", rpc.IsSubscribe(m), sub)
	c.Check(rpc.IsUnsubscribe(m) == unsub, "isUnsubscribe = %v, want %v", rpc.IsUnsubscribe(m), unsub)
	ns := method
	if i := strings.Index(method, "_"); i >= 0 {
		ns = method[:i]
	}
	c.Check(rpc.Namespace(m) == ns, "namespace = %q, want %q", rpc.Namespace(m), ns)
	// text and back
	m2 := new(rpc.Msg)
	if err := json.Unmarshal([]byte(m.String()), m2); err != nil {
		c.Failf("decoding its text %s: %v", m.String(), err)
	}
	c.Check(rpc.IsNotification(m2) == not && rpc.IsCall(m2) == call && rpc.IsResponse(m2) == resp && m2.Method == m.Method && bytes.Equal(m2.ID, m.ID), "its text %s is a different message", m.String())
}

// ---- answers ----

type plain struct{}

func (plain) Error() string { return "plain" }

type coded struct{ code int }

func (e coded) Error() string  { return fmt.Sprint("coded", e.code) }
func (e coded) ErrorCode() int { return e.code }

type data struct{ d interface{} }

func (e data) Error() string          { return "data" }
func (e data) ErrorData() interface{} { return e.d }

type both struct {
	coded
	data
}

func (both) Error() string { return "both" }

func keys(c *enum.C, raw []byte) (map[string]json.RawMessage, string) {
	m := map[string]json.RawMessage{}
	if err := json.Unmarshal(raw, &m); err != nil {
		c.Failf("%s is no object: %v", raw, err)
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return m, strings.Join(l, " ")
}

// answer checks one answer in its encoded form; wantResult is empty for errors.
func answer(c *enum.C, m *rpc.Msg, id, wantResult string, code int, text, errData string) {
	c.Step(1)
	raw, err := json.Marshal(m)
	if err != nil {
		c.Failf("encoding the answer: %v", err)
	}
	c.State(string(raw))
	f, ks := keys(c, raw)
	c.Check(string(f["jsonrpc"]) == `"2.0"`, "answer %s has no version", raw)
	c.Check(string(f["id"]) == id, "answer %s does not have the id %s", raw, id)
	back := new(rpc.Msg)
	if err := json.Unmarshal(raw, back); err != nil {
		c.Failf("decoding the answer %s: %v", raw, err)
	}
	c.Check(rpc.IsResponse(back) && !rpc.IsCall(back) && !rpc.IsNotification(back), "answer %s is not taken for a response", raw)
	if wantResult != "" {
		c.Check(ks == "id jsonrpc result", "answer %s has the fields %s", raw, ks)
		c.Check(string(f["result"]) == wantResult, "answer %s, want the result %s", raw, wantResult)
		return
	}
	c.Check(ks == "error id jsonrpc", "answer %s has the fields %s", raw, ks)
	e, eks := keys(c, f["error"])
	c.Check(string(e["code"]) == fmt.Sprint(code), "answer %s, want code %d", raw, code)
	var msg string
	json.Unmarshal(e["message"], &msg)
	c.Check(text == "" || msg == text, "answer %s, want message %q", raw, text)
	if errData == "" {
		c.Check(eks == "code message", "the error of %s has the fields %s", raw, eks)
	} else {
		c.Check(eks == "code data message" && string(e["data"]) == errData, "answer %s, want data %s", raw, errData)
	}
	var re rpc.Error = back.Error
	var de rpc.DataError = back.Error
	c.Check(re.ErrorCode() == code, "the decoded error has code %d", re.ErrorCode())
	c.Check(re.Error() == msg || msg == "" && strings.Contains(re.Error(), fmt.Sprint(code)), "the decoded error says %q", re.Error())
	d, _ := json.Marshal(de.ErrorData())
	c.Check(string(d) == errData || errData == "" && string(d) == "null", "the decoded error has data %s", d)
}

// ---- matching ----

type op struct {
	ids    []string
	o      rpc.Op
	added  bool
	closed bool
	err    error
	got    []*rpc.Msg // expected and not yet seen
}

var errA, errB = errors.New("first"), errors.New("second")

// matching runs one history. The answers are looked at after every step, or
// all in the end if late is set.
func matching(c *enum.C, seq []int, describe, late bool) string {
	conn := &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}
	h := rpc.NewH(context.Background(), conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
	ops := []*op{{ids: []string{"1"}}, {ids: []string{"2", `"3"`}}, {ids: []string{`"1"`, "4"}}}
	for _, o := range ops {
		o.o = rpc.NewOp(o.ids...)
	}
	wait := map[string]*op{}
	ids := []string{"1", "2", `"3"`, `"1"`, "4", "9"}
	var text []string
	for i, a := range seq {
		what := ""
		switch {
		case a < 3: // add
			o := ops[a]
			what = fmt.Sprint("add ", o.ids)
			if o.added {
				break // each request is sent once
			}
			o.added = true
			for _, id := range o.ids {
				wait[id] = o
			}
			h.Add(o.o)
		case a < 6: // remove
			o := ops[a-3]
			what = fmt.Sprint("remove ", o.ids)
			for _, id := range o.ids {
				delete(wait, id)
			}
			h.Remove(o.o)
		case a < 12: // response
			id := ids[a-6]
			what = "response " + id
			m := &rpc.Msg{Version: "2.0", ID: json.RawMessage(id), Result: json.RawMessage(fmt.Sprint(i))}
			if i%2 == 1 {
				m.Result, m.Error = nil, &rpc.JSONError{Code: i}
			}
			if o := wait[id]; o != nil {
				o.got = append(o.got, m)
				delete(wait, id)
			}
			h.Response(m)
		default: // cancel
			var in *op
			var inO *rpc.Op
			e := errA
			if a > 12 {
				in = ops[a-13]
				inO = &in.o
				e = errB
			}
			what = "cancel"
			if in != nil {
				what = fmt.Sprint("cancel but ", in.ids)
			}
			for id, o := range wait {
				delete(wait, id)
				if o != in && !o.closed {
					o.closed, o.err = true, e
				}
			}
			h.CancelAll(e, inO)
		}
		text = append(text, what)
		if describe {
			continue
		}
		c.Step(1)
		n, _, _ := h.Pending()
		c.Check(n == len(wait), "step %d: %d ids are pending, want %d", i, n, len(wait))
		if late && i < len(seq)-1 {
			continue
		}
		state := ""
		for _, o := range ops {
			for _, m := range o.got {
				select {
				case g, ok := <-o.o.Resp():
					c.Check(ok && g == m, "step %d: request %v receives %v, want %v", i, o.ids, g, m)
				default:
					c.Failf("step %d: request %v did not receive its response", i, o.ids)
				}
			}
			o.got = nil
			select {
			case g, ok := <-o.o.Resp():
				c.Check(!ok, "step %d: request %v receives the unexpected %v", i, o.ids, g)
				c.Check(o.closed, "step %d: request %v was cancelled", i, o.ids)
			default:
				c.Check(!o.closed, "step %d: request %v was not cancelled", i, o.ids)
			}
			c.Check(o.o.Err() == o.err, "step %d: request %v has error %v, want %v", i, o.ids, o.o.Err(), o.err)
			state += fmt.Sprint(o.added, o.closed, o.err, ";")
		}
		c.State(state, len(wait))
	}
	return strings.Join(text, ", ")
}

// crowd runs n requests of 1 to 4 ids each, whose answers arrive in one of
// four orders; some are never answered, some are removed, the rest is
// cancelled, but for one.
func crowd(c *enum.C, n, order int) {
	conn := &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}
	h := rpc.NewH(context.Background(), conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
	type req struct {
		o    rpc.Op
		ids  []string
		want []*rpc.Msg
	}
	reqs := make([]*req, n)
	type answer struct {
		r  *req
		id string
	}
	var as []answer
	pending := 0
	for i := range reqs {
		r := &req{}
		k := 1 + i%4
		if i == n/2 {
			k = n + 1
		}
		for j := 0; j < k; j++ {
			id := fmt.Sprint(i*4 + j)
			switch {
			case i == n/2:
				id = fmt.Sprintf("%q", fmt.Sprint("b", j))
			case i%3 == 1:
				id = fmt.Sprintf("%q", id)
			case i%3 == 2:
				id = fmt.Sprintf("%q", strings.Repeat("x", i)+id)
			}
			r.ids = append(r.ids, id)
			as = append(as, answer{r, id})
		}
		r.o = rpc.NewOp(r.ids...)
		reqs[i] = r
		h.Add(r.o)
		pending += k
		p, _, _ := h.Pending()
		c.Check(p == pending, "%d ids are pending, want %d", p, pending)
	}
	c.State(n, order)
	perm := make([]answer, 0, len(as))
	switch order {
	case 0:
		perm = as
	case 1:
		for i := len(as) - 1; i >= 0; i-- {
			perm = append(perm, as[i])
		}
	case 2:
		perm = append(append(perm, as[len(as)/2:]...), as[:len(as)/2]...)
	case 3:
		for s := 0; s < 7; s++ {
			for i := s; i < len(as); i += 7 {
				perm = append(perm, as[i])
			}
		}
	}
	removed := map[*req]bool{}
	for i, a := range perm {
		c.Step(1)
		if i%5 == 3 {
			continue // never answered
		}
		m := &rpc.Msg{Version: "2.0", ID: json.RawMessage(a.id), Result: json.RawMessage(fmt.Sprint(i))}
		if i%11 == 7 && !removed[a.r] && len(a.r.want) == 0 {
			removed[a.r] = true
			h.Remove(a.r.o)
			pending -= len(a.r.ids)
		}
		h.Response(m)
		if !removed[a.r] {
			a.r.want = append(a.r.want, m)
			pending--
		}
		p, _, _ := h.Pending()
		c.Check(p == pending, "after answer %d, %d ids are pending, want %d", i, p, pending)
	}
	var in *rpc.Op
	if n > 0 {
		in = &reqs[n-1].o
	}
	h.CancelAll(errA, in)
	p, _, _ := h.Pending()
	c.Check(p == 0, "%d ids are pending after the end", p)
	for i, r := range reqs {
		for k, w := range r.want {
			select {
			case g, ok := <-r.o.Resp():
				c.Check(ok && g == w, "request %d receives %v as answer %d, want %v", i, g, k, w)
			default:
				c.Failf("request %d of %d ids does not receive answer %d", i, len(r.ids), k)
			}
		}
		cancelled := !removed[r] && len(r.want) < len(r.ids) && i != n-1
		select {
		case g, ok := <-r.o.Resp():
			c.Check(!ok && cancelled, "request %d with %d of %d answers receives %v, cancelled: %v", i, len(r.want), len(r.ids), g, !ok)
			c.Check(r.o.Err() == errA, "request %d is cancelled with %v", i, r.o.Err())
		default:
			c.Check(!cancelled, "request %d with %d of %d answers is not cancelled", i, len(r.want), len(r.ids))
			c.Check(r.o.Err() == nil, "request %d has error %v", i, r.o.Err())
		}
	}
}

func main() {
	enum.Main(
		enum.Section{Name: "large", Shards: 4, Run: func(c *enum.C) {
			max := c.Pick(5000, 100000)
			c.Bound("methods, ids, parameters, results and errors of every length around the powers of two and of ten up to %d", max)
			ref.Sizes(40, max, func(n int) {
				if !c.Mine() {
					return
				}
				x := strings.Repeat("a", n)
				for _, m := range []string{x, x + "_b", "a_" + x, x + "_subscribe", x + "_unsubscribe", "a_" + x + "_subscribe", "a_subscribe" + x, strings.Repeat("_", n), strings.Repeat("é", n) + "_b"} {
					for _, id := range []string{"", "1"} {
						d := doc{`"2.0"`, id, `"` + m + `"`, "[1]", "", ""}
						c.Case(func() { classify(c, d) }, "method %s, id %q", m, id)
					}
				}
				num := strings.Repeat("7", n+1)
				str := `"` + x + `"`
				arr := "[" + strings.Repeat("1,", n) + "2]"
				obj := `{"` + x + `":1}`
				for _, d := range []doc{
					{`"2.0"`, num, `"a_b"`, "[1]", "", ""},
					{`"2.0"`, str, `"a_b"`, "[1]", "", ""},
					{`"2.0"`, arr, `"a_b"`, "[1]", "", ""},
					{`"2.0"`, obj, `"a_b"`, "[1]", "", ""},
					{`"2.0"`, num, "", "", "1", ""},
					{`"2.0"`, str, "", "", "1", ""},
					{`"2.0"`, arr, "", "", "1", ""},
					{`"2.0"`, "1", `"a_b"`, arr, "", ""},
					{`"2.0"`, "", `"a_b"`, arr, "", ""},
					{`"2.0"`, "1", "", arr, "1", ""},
					{`"2.0"`, "1", "", "", arr, ""},
					{`"2.0"`, "1", "", "", str, ""},
					{`"2.0"`, "1", "", "", "", `{"code":` + num[:1+n%9] + `,"message":` + str + `}`},
					{`"2.0` + strings.Repeat("0", n) + `"`, "1", `"a_b"`, "", "", ""},
				} {
					d := d
					if d.version == `"2.0"` || n > 0 {
						c.Case(func() { classify(c, d) }, "%s", d.json())
					}
				}
				for _, id := range []string{num, str} {
					id := id
					m := func() *rpc.Msg {
						return &rpc.Msg{Version: "2.0", ID: json.RawMessage(id), Method: "a_b", Params: json.RawMessage("[1]")}
					}
					c.Case(func() {
						answer(c, rpc.Respond(m(), x), id, str, 0, "", "")
						answer(c, rpc.Respond(m(), json.RawMessage(arr)), id, arr, 0, "", "")
						answer(c, rpc.RespondError(m(), errors.New(x)), id, "", -32000, x, "")
						answer(c, rpc.RespondError(m(), coded{n * 1000}), id, "", n*1000, fmt.Sprint("coded", n*1000), "")
						answer(c, rpc.RespondError(m(), data{x}), id, "", -32000, "data", str)
						answer(c, rpc.ErrorMsg(errors.New(x)), "null", "", -32000, x, "")
					}, "answers of size %d, id %s", n, id)
				}
			})
		}},
		enum.Section{Name: "huge", Run: func(c *enum.C) {
			sizes := []int{65535, 65536, 65537, 131072, 1<<20 - 1, 1 << 20, 1<<20 + 1}
			if c.Thorough() {
				sizes = append(sizes, 5<<20+1, 10<<20, 32<<20+1)
			}
			c.Bound("parameters, results and errors of the sizes %v", sizes)
			for _, n := range sizes {
				n := n
				x := strings.Repeat("a", n)
				str := `"` + x + `"`
				m := func() *rpc.Msg {
					return &rpc.Msg{Version: "2.0", ID: json.RawMessage("1"), Method: "a_b", Params: json.RawMessage("[" + str + "]")}
				}
				c.Case(func() {
					c.Step(1)
					c.Check(rpc.IsCall(m()) && !rpc.IsNotification(m()) && !rpc.IsResponse(m()), "a call with parameters of %d bytes is not a call", n)
					answer(c, rpc.Respond(m(), x), "1", str, 0, "", "")
					answer(c, rpc.Respond(m(), json.RawMessage(str)), "1", str, 0, "", "")
					answer(c, rpc.RespondError(m(), errors.New(x)), "1", "", -32000, x, "")
					answer(c, rpc.RespondError(m(), data{x}), "1", "", -32000, "data", str)
				}, "answers of %d bytes", n)
			}
		}},
		enum.Section{Name: "crowds", Shards: 4, Run: func(c *enum.C) {
			dense, max := c.Pick(20, 70), c.Pick(300, 2000)
			c.Bound("0..%d and more, up to %d requests of up to 4 ids, one of as many ids as requests; the answers in 4 orders, some missing", dense, max)
			ref.Sizes(dense, max, func(n int) {
				for o := 0; o < 4; o++ {
					o := o
					if c.Mine() {
						c.Case(func() { crowd(c, n, o) }, "%d requests, order %d", n, o)
					}
				}
			})
		}},
		enum.Section{Name: "classes", Shards: 2, Run: func(c *enum.C) {
			c.Bound("every message over 4 versions, 8 ids, 10 methods, 4 parameters, 4 results and 3 errors")
			for _, v := range []string{"", `"2.0"`, `"1.0"`, `"2"`} {
				for _, id := range []string{"", "1", "0", `"x"`, `""`, "null", "{}", `[1]`} {
					for _, m := range []string{"", `""`, `"a_b"`, `"a_subscribe"`, `"a_unsubscribe"`, `"a_subscription"`, `"_subscribe"`, `"subscribe"`, `"a_b_subscribe"`, `"_"`} {
						for _, p := range []string{"", "[]", "[1]", `{"a":1}`} {
							for _, r := range []string{"", "1", `"x"`, "null"} {
								for _, e := range []string{"", "null", `{"code":1,"message":"m"}`} {
									if !c.Mine() {
										continue
									}
									d := doc{v, id, m, p, r, e}
									c.Case(func() { classify(c, d) }, "%s", d.json())
								}
							}
						}
					}
				}
			}
		}},
		enum.Section{Name: "answers", Run: func(c *enum.C) {
			ids := []string{"1", "0", "-7", "1.5", `"x"`, `""`, `"é\u0000"`, "null"}
			results := []struct {
				v interface{}
				w string
			}{{nil, "null"}, {0, "0"}, {"", `""`}, {false, "false"}, {[]int(nil), "null"}, {[]int{}, "[]"}, {map[string]int{}, "{}"}, {struct{}{}, "{}"}, {struct{ A int }{3}, `{"A":3}`}, {json.RawMessage(`{"a":[1]}`), `{"a":[1]}`}, {&rpc.Subscription{ID: "0x5"}, `"0x5"`}, {rpc.LatestBlockNumber, `"latest"`}}
			unencodable := []interface{}{make(chan int), func() {}, map[string]interface{}{"a": make(chan int)}, json.RawMessage("{")}
			type ec struct {
				e    error
				code int
				text string
				data string
			}
			errs := []ec{{plain{}, -32000, "plain", ""}, {coded{7}, 7, "coded7", ""}, {coded{0}, 0, "coded0", ""}, {data{[]int{1}}, -32000, "data", "[1]"}, {data{nil}, -32000, "data", ""}, {data{false}, -32000, "data", "false"}, {both{coded{-5}, data{"d"}}, -5, "both", `"d"`}, {fmt.Errorf("wrap %w", coded{7}), -32000, "wrap coded7", ""}, {errors.New(""), -32000, "", ""}, {errors.New("quote \" line\n \x00 <é>"), -32000, "quote \" line\n \x00 <é>", ""}, {&rpc.JSONError{Code: 3, Message: "j", Data: 4}, 3, "j", "4"}}
			for code, l := range rpc.BuiltinErrors() {
				for _, e := range l {
					errs = append(errs, ec{e, code, e.Error(), ""})
				}
			}
			c.Bound("%d ids, %d results, %d unencodable results, %d errors", len(ids), len(results), len(unencodable), len(errs))
			for _, id := range ids {
				for _, method := range []string{"a_b", "a_subscribe"} {
					id := id
					call := func() *rpc.Msg {
						return &rpc.Msg{Version: "2.0", ID: json.RawMessage(id), Method: method, Params: json.RawMessage("[1]")}
					}
					for _, r := range results {
						r := r
						c.Case(func() {
							m := call()
							answer(c, rpc.Respond(m, r.v), id, r.w, 0, "", "")
							c.Check(reflect.DeepEqual(m, call()), "answering changed the call to %v", m)
						}, "result %T %v to %s", r.v, r.v, id)
					}
					for i, r := range unencodable {
						r := r
						c.Case(func() { answer(c, rpc.Respond(call(), r), id, "", -32603, "", "") }, "unencodable result %d to %s", i, id)
					}
					for i, e := range errs {
						e := e
						c.Case(func() {
							m := call()
							answer(c, rpc.RespondError(m, e.e), id, "", e.code, e.text, e.data)
							c.Check(reflect.DeepEqual(m, call()), "answering changed the call to %v", m)
						}, "error %d %v to %s", i, e.e, id)
					}
				}
			}
			for i, e := range errs {
				e := e
				c.Case(func() { answer(c, rpc.ErrorMsg(e.e), "null", "", e.code, e.text, e.data) }, "error %d %v to nobody", i, e.e)
			}
			// answers do not share state
			c.Case(func() {
				a, b := rpc.ErrorMsg(errA), rpc.ErrorMsg(errB)
				a.ID[0] = 'N'
				a.ID = json.RawMessage("5")
				a.Error.Code = 1
				answer(c, rpc.RespondError(&rpc.Msg{ID: json.RawMessage("6")}, errB), "6", "", -32000, "second", "")
				_ = b
			}, "two errors")
		}},
		enum.Section{Name: "run", Run: func(c *enum.C) {
			c.Bound("a method that succeeds, fails and panics, under every id")
			reg := rpc.NewRegistry()
			if err := reg.Register("s", &svc{}); err != nil {
				c.Failf("registering: %v", err)
			}
			h := rpc.NewH(context.Background(), &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}, nil, reg)
			for _, id := range []string{"1", `"x"`, "null"} {
				for k := 0; k < 4; k++ {
					id, k := id, k
					c.Case(func() {
						cb := reg.Callback("s_do")
						if cb == nil {
							c.Failf("s_do is missing")
						}
						m := &rpc.Msg{Version: "2.0", ID: json.RawMessage(id), Method: "s_do", Params: json.RawMessage(fmt.Sprint("[", k, "]"))}
						r := h.Run(context.Background(), m, cb, reflect.ValueOf(k))
						switch k {
						case 0:
							answer(c, r, id, `"done"`, 0, "", "")
						case 1:
							answer(c, r, id, "", 12, "coded12", "")
						case 2:
							answer(c, r, id, "", -32603, "", "")
						case 3:
							answer(c, r, id, "", -32603, "", "")
						}
					}, "id %s, outcome %d", id, k)
				}
			}
		}},
		enum.Section{Name: "matching", Shards: 8, Run: func(c *enum.C) {
			n := c.Pick(4, 6)
			c.Bound("every sequence of %d of 16 actions on three requests with five ids", n)
			seq := make([]int, n)
			var rec func(i, added int)
			rec = func(i, added int) {
				if i == n {
					if c.Mine() {
						s := append([]int{}, seq...)
						for _, late := range []bool{false, true} {
							late := late
							c.Case(func() { matching(c, s, false, late) }, "%v late=%v", s, late)
						}
					}
					return
				}
				for a := 0; a < 16; a++ {
					if a < 3 && added&(1<<a) != 0 {
						continue
					}
					seq[i] = a
					ad := added
					if a < 3 {
						ad |= 1 << a
					}
					rec(i+1, ad)
				}
			}
			rec(0, 0)
		}},
		enum.Section{Name: "ids", Run: func(c *enum.C) {
			n := c.Pick(5, 6)
			c.Bound("every byte string of length <= %d over 5 bytes, 16 bytes with one or two set; every one-byte change of three generator seeds", n)
			id := func(b []byte) {
				x := append([]byte{}, b...)
				c.Case(func() {
					c.Step(1)
					want := "0x" + new(big.Int).SetBytes(x).Text(16)
					c.State(want)
					got := rpc.EncodeID(x)
					c.Check(string(got) == want, "id %q, want %q", got, want)
				}, "[% x]", x)
			}
			ref.ByteStrings([]byte{0, 1, 0x0f, 0x10, 0xff}, n, id)
			for i := 0; i < 16; i++ {
				for _, v := range []byte{1, 0x10, 0xab, 0xff} {
					b := make([]byte, 16)
					b[i] = v
					id(b)
					for j := 0; j < i; j++ {
						b[j] = 0x0a
						id(b)
						b[j] = 0
					}
				}
			}
			ref.Sizes(0, 1000, func(n int) {
				for _, z := range []int{0, 1, n / 2, n - 1, n} {
					if z >= 0 && z <= n {
						id(append(make([]byte, z), bytes.Repeat([]byte{0x10}, n-z)...))
						id(append(make([]byte, z), bytes.Repeat([]byte{0x09}, n-z)...))
					}
				}
			})
			c.Case(func() {
				g := rpc.IDGenerator()
				seen := map[rpc.ID]bool{}
				for k := 0; k < c.Pick(20000, 300000); k++ {
					c.Step(1)
					x := g()
					c.Check(!seen[x] && len(x) <= 34 && strings.HasPrefix(string(x), "0x") && (x == "0x0" || x[2] != '0'), "id %d is %q, seen before: %v", k, x, seen[x])
					seen[x] = true
				}
			}, "one generator")
			tail := make([]byte, 256)
			for i := range tail {
				tail[i] = byte(i*37 + 11)
			}
			old := crand.Reader
			defer func() { crand.Reader = old }()
			gen := func(seed []byte) string {
				crand.Reader = io.MultiReader(bytes.NewReader(seed), bytes.NewReader(tail))
				g := rpc.IDGenerator()
				crand.Reader = old
				var s []string
				for k := 0; k < 3; k++ {
					x := string(g())
					v, ds := ref.RawBytes(strings.Repeat("0", len(x)%2) + x[2:])
					c.Check(strings.HasPrefix(x, "0x") && ds == nil && len(v) <= 16 && (x == "0x0" || x[2] != '0'), "generated id %q", x)
					s = append(s, x)
				}
				c.Check(s[0] != s[1] && s[1] != s[2] && s[0] != s[2], "a generator repeats itself: %v", s)
				return strings.Join(s, " ")
			}
			for _, base := range [][]byte{{0, 0, 0, 0, 0, 0, 0, 1}, {0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0}, {0x7f, 0xff, 0, 1, 2, 3, 4, 5}} {
				base := base
				for i := range base {
					i := i
					c.Case(func() {
						seen := map[string]int{}
						for v := 0; v < 256; v++ {
							c.Step(1)
							s := append([]byte{}, base...)
							s[i] = byte(v)
							if bytes.Equal(s, make([]byte, 8)) {
								continue
							}
							g := gen(s)
							w, dup := seen[g]
							c.Check(!dup, "byte %d of the seed set to %#x and to %#x gives the same ids %s", i, w, v, g)
							seen[g] = v
						}
						c.State(len(seen), i)
					}, "seed % x, byte %d", base, i)
				}
			}
		}},
	)
}

type svc struct{}

func (*svc) Do(ctx context.Context, k int) (interface{}, error) {
	switch k {
	case 0:
		return "done", nil
	case 1:
		return "ignored", coded{12}
	case 2:
		panic("boom")
	}
	return make(chan int), nil
}
