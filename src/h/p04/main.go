// Command p04 model-checks the client side subscriptions of package rpc.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
	"flychain/zzslice/rpc"
)

// A program is one subscription with a channel of the given capacity and
// threads of actions:
//
//	d deliver the next notification      b deliver one that does not decode
//	c close with an error                q close because the client quits
//	u unsubscribe                        r receive one value, or give up when
//	e read the error channel once          the subscription has ended
//
// Unless nounsub is set, the main thread unsubscribes in the end.
type program struct {
	cap     int
	threads []string
	nounsub bool
	handler bool // through a handler: response, notifications, cancel
}

func (p program) String() string {
	s := fmt.Sprintf("cap%d %s", p.cap, strings.Join(p.threads, " | "))
	if p.nounsub {
		s += " (no unsubscribe)"
	}
	if p.handler {
		s = "handler " + s
	}
	return s
}

var errConn = errors.New("connection lost")

type delivery struct {
	v         int
	ok        bool
	bad       bool
	call, ret int
}

type run struct {
	p         program
	sub       *rpc.ClientSubscription
	ch        chan int
	dels      [][]delivery // by thread, like the following; the last is main
	gots      [][]int
	errss     [][]error
	unsubs    [][2]int // call and return of Unsubscribe
	closes    []string
	told      int           // calls to the server
	tolds     [][]int       // the same when a call of Unsubscribe returned, by thread
	answered  chan struct{} // closed when the dispatcher can answer a request
	done      chan struct{}
	got       []int
	errs      []error
	unsubCall int // first call of Unsubscribe
	unsubRet  int // first return
}

func (r *run) deliver(i int, raw string, v int, bad bool) {
	d := delivery{v: v, bad: bad, call: mc.StampCall()}
	d.ok = rpc.DeliverSub(r.sub, raw)
	d.ret = mc.StampRet()
	r.dels[i] = append(r.dels[i], d)
}

func (r *run) unsubscribe(t int) {
	c := mc.StampCall()
	r.sub.Unsubscribe()
	e := mc.StampRet()
	r.tolds[t] = append(r.tolds[t], r.told)
	if r.unsubs[t][0] == 0 {
		r.unsubs[t] = [2]int{c, e}
	}
	// the error channel is closed now, whatever may still be in it
	for i := 0; ; i++ {
		select {
		case err, ok := <-r.sub.Err():
			if !ok {
				return
			}
			r.errss[t] = append(r.errss[t], err)
			if i > 1 {
				mc.Failf("the error channel carries more than one value")
			}
			continue
		default:
			mc.Failf("Unsubscribe returned and the error channel is not closed")
		}
		return
	}
}

func (r *run) thread(i int, prog string) {
	for _, a := range prog {
		switch a {
		case 'd':
			// values of one thread ascend
			v := (i+1)*100 + len(r.dels[i])
			r.deliver(i, fmt.Sprint(v), v, false)
		case 'b':
			r.deliver(i, `"x"`, 0, true)
		case 'c':
			r.closes[i] += "c"
			rpc.CloseSub(r.sub, errConn)
		case 'q':
			r.closes[i] += "q"
			rpc.CloseSub(r.sub, rpc.ErrClientQuit)
		case 'u':
			r.unsubscribe(i)
		case 'r':
			select {
			case v := <-r.ch:
				r.gots[i] = append(r.gots[i], v)
			case <-r.done:
			}
		case 'e':
			if err, ok := <-r.sub.Err(); ok {
				r.errss[i] = append(r.errss[i], err)
			}
		}
	}
}

func body(p program) func() {
	return func() {
		n := len(p.threads)
		r := &run{p: p, ch: make(chan int, p.cap), dels: make([][]delivery, n), gots: make([][]int, n), errss: make([][]error, n+1), unsubs: make([][2]int, n+1), closes: make([]string, n), done: make(chan struct{}), tolds: make([][]int, n+1), answered: make(chan struct{})}
		r.sub = rpc.NewClientSub("eth", r.ch)
		rpc.StubUnsubscribe = func(s *rpc.ClientSubscription) error {
			if s != r.sub {
				mc.Failf("another subscription is cancelled at the server")
			}
			r.told++
			// the answer comes through the dispatcher, that is the first
			// thread if it does nothing else
			<-r.answered
			return nil
		}
		dispatches := strings.Trim(p.threads[0], "dbcq") == ""
		if !dispatches {
			close(r.answered)
		}
		mc.Go(func() {
			rpc.RunSub(r.sub)
			close(r.done)
		})
		var fs []func()
		for i, t := range p.threads {
			i, t := i, t
			fs = append(fs, func() {
				r.thread(i, t)
				if i == 0 && dispatches {
					close(r.answered)
				}
			})
		}
		mc.Par(fs...)
		for _, g := range r.gots {
			r.got = append(r.got, g...) // one thread receives at most
		}
		all := strings.Join(p.threads, "")
		ends := strings.ContainsAny(all, "ucqb")
		if !ends && !p.nounsub {
			// still running: everything delivered arrives
			n := 0
			for _, l := range r.dels {
				for _, d := range l {
					if !d.ok {
						mc.Failf("deliver of %d says that the subscription has ended", d.v)
					}
					n++
				}
			}
			for len(r.got) < n {
				r.got = append(r.got, <-r.ch)
			}
		}
		if !p.nounsub {
			r.unsubscribe(n)
			r.unsubscribe(n)
		}
		<-r.done
		if p.nounsub {
			select {
			case err := <-r.sub.Err():
				r.errss[n] = append(r.errss[n], err)
			default:
				mc.Failf("the subscription has ended and the error channel is empty")
			}
		}
		// nothing is sent any more
		for len(r.ch) > 0 {
			r.got = append(r.got, <-r.ch)
		}
		r.check(all)
	}
}

func (r *run) check(all string) {
	for _, e := range r.errss {
		r.errs = append(r.errs, e...)
	}
	for _, u := range r.unsubs {
		if u[0] != 0 && (r.unsubCall == 0 || u[0] < r.unsubCall) {
			r.unsubCall = u[0]
		}
		if u[0] != 0 && (r.unsubRet == 0 || u[1] < r.unsubRet) {
			r.unsubRet = u[1]
		}
	}
	closed := strings.Join(r.closes, "")
	// the received values are a prefix of the accepted ones, in order; the
	// dispatcher is one goroutine in all but a few programs
	accepted := map[int]bool{}
	var only []int
	for _, l := range r.dels {
		for _, d := range l {
			if d.ok && !d.bad {
				accepted[d.v] = true
				only = append(only, d.v)
			}
		}
	}
	seen := map[int]bool{}
	last := map[int]int{}
	for _, v := range r.got {
		if !accepted[v] {
			mc.Failf("value %d was received and not accepted (received %v)", v, r.got)
		}
		if seen[v] {
			mc.Failf("value %d was received twice", v)
		}
		seen[v] = true
		t := v / 100
		if v <= last[t] {
			mc.Failf("values of one dispatcher out of order: %v", r.got)
		}
		// no gap: the values before it were received
		for w := t * 100; w < v; w++ {
			if accepted[w] && !seen[w] {
				mc.Failf("value %d was received, %d before it was not: %v", v, w, r.got)
			}
		}
		last[t] = v
	}
	// after the first rejected or bad delivery that was complete, all are rejected
	for _, l := range r.dels {
		ended := false
		for _, d := range l {
			if ended && d.ok {
				mc.Failf("a delivery is accepted after one that said the subscription has ended")
			}
			if !d.ok || d.bad {
				ended = true
			}
			if d.ok && !d.bad && r.unsubRet != 0 && d.call > r.unsubRet {
				mc.Failf("a delivery after Unsubscribe is accepted")
			}
			if !d.ok && !strings.ContainsAny(all, "cqb") && (r.unsubCall == 0 || r.unsubCall > d.ret) {
				mc.Failf("a delivery is rejected before anything ended the subscription")
			}
		}
	}
	// errors
	if len(r.errs) > 1 {
		mc.Failf("the error channel carried %v", r.errs)
	}
	badOK := false
	for _, l := range r.dels {
		for _, d := range l {
			badOK = badOK || d.bad && d.ok
		}
	}
	why := "unsubscribe"
	for _, e := range r.errs {
		switch {
		case e == nil:
			why = "quit"
			if !strings.Contains(closed, "q") {
				mc.Failf("a nil error although the client did not quit")
			}
		case e == errConn:
			why = "close"
			if !strings.Contains(closed, "c") {
				mc.Failf("a connection error although the connection was not closed")
			}
		default:
			why = "bad"
			if !badOK {
				mc.Failf("unexpected error %v", e)
			}
		}
	}
	if badOK && why != "bad" {
		mc.Failf("a notification did not decode, and the subscription ended with %v", r.errs)
	}
	// the server is told exactly if the subscription ended on this side
	want := 1
	if why == "quit" || why == "close" {
		want = 0
	}
	if r.told != want {
		mc.Failf("the server was told %d times, want %d (ended by %s)", r.told, want, why)
	}
	for _, l := range r.tolds {
		for _, n := range l {
			if n != want {
				mc.Failf("when Unsubscribe returned, the server was told %d times, want %d (ended by %s)", n, want, why)
			}
		}
	}
	mc.Outcome("%s got%v accepted%v", why, r.got, len(only))
}

// ---- through the handler ----

type hprog struct {
	resp   string // "ok", "error", "malformed"
	notes  []string
	cancel bool
	early  bool // the notifications come before the response as well
}

func (p hprog) String() string {
	return fmt.Sprintf("handler %s notes%v cancel=%v early=%v", p.resp, p.notes, p.cancel, p.early)
}

func hbody(p hprog) func() {
	return func() {
		ch := make(chan int)
		conn := &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}
		h := rpc.NewH(context.Background(), conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
		sub := rpc.NewClientSub("eth", ch)
		told := 0
		rpc.StubUnsubscribe = func(*rpc.ClientSubscription) error { told++; return nil }
		op := rpc.NewSubOp("1", sub)
		h.Add(op)
		note := func(id, v string) {
			h.Notification(&rpc.Msg{Version: "2.0", Method: "eth_subscription", Params: json.RawMessage(fmt.Sprintf(`{"subscription":%s,"result":%s}`, id, v))})
		}
		m := &rpc.Msg{Version: "2.0", ID: json.RawMessage("1")}
		switch p.resp {
		case "ok":
			m.Result = json.RawMessage(`"0xabc"`)
		case "error":
			m.Error = &rpc.JSONError{Code: 5, Message: "no"}
		case "malformed":
			m.Result = json.RawMessage(`5`)
		}
		ok := p.resp == "ok"
		var want, got []int
		mc.Par(func() {
			// the dispatcher
			if p.early {
				note(`"0xabc"`, "9")
			}
			h.Response(m)
			h.Response(m) // a repetition is ignored
			for i, n := range p.notes {
				switch n {
				case "mine":
					if ok {
						want = append(want, i)
					}
					note(`"0xabc"`, fmt.Sprint(i))
				case "other":
					note(`"0xdef"`, fmt.Sprint(i))
				case "junk":
					h.Notification(&rpc.Msg{Version: "2.0", Method: "eth_subscription", Params: json.RawMessage(`[5]`)})
				}
			}
			if p.cancel {
				h.CancelAll(errConn, nil)
				r, _, _ := h.Pending()
				_, s, _ := h.Pending()
				if r != 0 || s != 0 {
					mc.Failf("after cancelling, %d requests and %d subscriptions are left", r, s)
				}
			}
		}, func() {
			// the subscriber
			if m, more := <-op.Resp(); more || m != nil {
				mc.Failf("the request of a subscription received %v", m)
			}
			switch p.resp {
			case "ok":
				if op.Err() != nil {
					mc.Failf("subscribing failed with %v", op.Err())
				}
				if rpc.SubID(sub) != "0xabc" {
					mc.Failf("the subscription has id %q", rpc.SubID(sub))
				}
			case "error":
				if op.Err() != error(m.Error) {
					mc.Failf("subscribing gave %v, the server said %v", op.Err(), m.Error)
				}
				return
			case "malformed":
				if op.Err() == nil {
					mc.Failf("a malformed id is accepted")
				}
				return
			}
			n, errs := 0, 0
			for _, x := range p.notes {
				if x == "mine" {
					n++
				}
			}
			for len(got) < n {
				select {
				case v := <-ch:
					got = append(got, v)
				case err, more := <-sub.Err():
					if !p.cancel || !more || err != errConn {
						mc.Failf("the subscription ended with %v, %v", err, more)
					}
					n = 0
					errs++
				}
			}
			sub.Unsubscribe()
			for {
				err, more := <-sub.Err()
				if !more {
					break
				}
				errs++
				if errs > 1 || err != errConn || !p.cancel {
					mc.Failf("the subscription ended with the error %v, number %d", err, errs)
				}
			}
		})
		for i, v := range got {
			if i >= len(want) || want[i] != v {
				mc.Failf("received %v of %v", got, want)
			}
		}
		if ok && !p.cancel && len(got) != len(want) {
			mc.Failf("received %v, want %v", got, want)
		}
		if !ok {
			if _, s, _ := h.Pending(); s != 0 {
				mc.Failf("a subscription that failed is registered")
			}
			select {
			case v := <-ch:
				mc.Failf("a subscription that failed delivered %d", v)
			default:
			}
			if told != 0 {
				mc.Failf("the server was told to end a subscription it never started")
			}
		}
		mc.Outcome("%v told%d", got, told)
	}
}

// overflowBody queues as many notifications as a subscription may hold, and
// one more; some are received first.
func overflowBody(first int) func() {
	const limit = 20000
	return func() {
		ch := make(chan int)
		sub := rpc.NewClientSub("eth", ch)
		told := 0
		rpc.StubUnsubscribe = func(*rpc.ClientSubscription) error { told++; return nil }
		done := make(chan struct{})
		mc.Go(func() {
			rpc.RunSub(sub)
			close(done)
		})
		for i := 0; i < first; i++ {
			if !rpc.DeliverSub(sub, fmt.Sprint(i)) {
				mc.Failf("delivery %d is refused", i)
			}
		}
		for i := 0; i < first; i++ {
			if v := <-ch; v != i {
				mc.Failf("received %d, want %d", v, i)
			}
		}
		for i := 0; i < limit; i++ {
			if !rpc.DeliverSub(sub, fmt.Sprint(i)) {
				mc.Failf("the subscription ended with %d notifications queued", i)
			}
		}
		if v := <-ch; v != 0 {
			mc.Failf("received %d, want 0", v)
		}
		if !rpc.DeliverSub(sub, "7") {
			mc.Failf("the subscription ended with %d notifications queued", limit-1)
		}
		if told != 0 {
			mc.Failf("the subscription ended early")
		}
		rpc.DeliverSub(sub, "8")
		<-done
		if rpc.DeliverSub(sub, "9") {
			mc.Failf("a notification is accepted after the overflow")
		}
		if err := <-sub.Err(); err != rpc.ErrSubscriptionQueueOverflow {
			mc.Failf("the subscription ended with %v", err)
		}
		if told != 1 {
			mc.Failf("the server was told %d times", told)
		}
		sub.Unsubscribe()
		if _, more := <-sub.Err(); more {
			mc.Failf("a second error")
		}
	}
}

// manyBody delivers n notifications of growing size in bursts, which are
// received in bursts, or runs n subscriptions of one connection.
func manyBody(dense, max int) func() {
	sizes := ref.SizeList(dense, max)
	return func() {
		n := sizes[mc.Choose(len(sizes))]
		part := mc.Choose(5)
		pay := func(i int) string { return fmt.Sprint(i, strings.Repeat("x", i)) }
		told := 0
		rpc.StubUnsubscribe = func(*rpc.ClientSubscription) error { told++; return nil }
		if part < 4 {
			capy := []int{0, 3, n, 0}[part]
			burst := []int{n, 7, n, 2}[part]
			drain := []int{n, 5, n, 1}[part]
			ch := make(chan string, capy)
			sub := rpc.NewClientSub("eth", ch)
			done := make(chan struct{})
			mc.Go(func() {
				rpc.RunSub(sub)
				close(done)
			})
			in, out := 0, 0
			for in < n {
				for k := 0; k < burst && in < n; k++ {
					if !rpc.DeliverSub(sub, fmt.Sprintf("%q", pay(in))) {
						mc.Failf("delivery %d of %d is refused", in, n)
					}
					in++
				}
				for k := 0; k < drain && out < in; k++ {
					if v := <-ch; v != pay(out) {
						mc.Failf("notification %d of %d arrives as %q, %d delivered", out, n, v, in)
					}
					out++
				}
			}
			for ; out < n; out++ {
				if v := <-ch; v != pay(out) {
					mc.Failf("notification %d of %d arrives as %q, %d delivered", out, n, v, in)
				}
			}
			select {
			case err, more := <-sub.Err():
				mc.Failf("the subscription ended: %v, %v", err, more)
			default:
			}
			sub.Unsubscribe()
			<-done
			if _, more := <-sub.Err(); more || told != 1 {
				mc.Failf("after %d notifications, Unsubscribe gives an error or tells the server %d times", n, told)
			}
			select {
			case v := <-ch:
				mc.Failf("%q arrives after %d notifications", v, n)
			default:
			}
			mc.Outcome("done")
			return
		}
		conn := &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}
		h := rpc.NewH(context.Background(), conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
		subs := make([]*rpc.ClientSubscription, n)
		chs := make([]chan string, n)
		ops := make([]rpc.Op, n)
		id := func(i int) string { return fmt.Sprintf("%q", "0x"+strings.Repeat("a", i%50)+fmt.Sprint(i)) }
		for i := range subs {
			chs[i] = make(chan string)
			subs[i] = rpc.NewClientSub("eth", chs[i])
			ops[i] = rpc.NewSubOp(fmt.Sprint(i), subs[i])
			h.Add(ops[i])
		}
		for i := n - 1; i >= 0; i-- {
			h.Response(&rpc.Msg{Version: "2.0", ID: json.RawMessage(fmt.Sprint(i)), Result: json.RawMessage(id(i))})
			if m, more := <-ops[i].Resp(); more || m != nil || ops[i].Err() != nil {
				mc.Failf("subscribing %d of %d: %v, %v", i, n, m, ops[i].Err())
			}
			// the first notification shows that it runs
			for j := n - 1; j >= i; j-- {
				if j > i && j%7 != 3 {
					continue
				}
				h.Notification(&rpc.Msg{Version: "2.0", Method: "eth_subscription", Params: json.RawMessage(fmt.Sprintf(`{"subscription":%s,"result":"%d to %d"}`, id(j), i, j))})
				if v := <-chs[j]; v != fmt.Sprintf("%d to %d", i, j) {
					mc.Failf("subscription %d of %d receives %q, want \"%d to %d\"", j, n, v, i, j)
				}
			}
		}
		if r, s, _ := h.Pending(); r != 0 || s != n {
			mc.Failf("%d requests and %d subscriptions, want 0 and %d", r, s, n)
		}
		h.CancelAll(errConn, nil)
		for i, s := range subs {
			if err := <-s.Err(); err != errConn {
				mc.Failf("subscription %d of %d ends with %v", i, n, err)
			}
			s.Unsubscribe()
			if _, more := <-s.Err(); more {
				mc.Failf("subscription %d of %d carries two errors", i, n)
			}
		}
		if r, s, _ := h.Pending(); r != 0 || s != 0 {
			mc.Failf("%d requests and %d subscriptions are left", r, s)
		}
		mc.Outcome("done")
	}
}

// ---- values ----

// upper decodes itself and keeps what it decoded before.
type upper struct{ S []string }

func (u *upper) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u.S = append(u.S, strings.ToUpper(s))
	return nil
}

type event struct {
	A int
	B *int                `json:"b,omitempty"`
	C []string            `json:"c"`
	D map[string]int      `json:"d"`
	E interface{}         `json:"e"`
	F *struct{ X, Y int } `json:"f"`
}

// A kind is a type of channel element with texts that decode, of which some
// leave out what others set, and texts that do not.
type kind struct {
	name string
	typ  reflect.Type
	good []string
	bad  []string
}

func kinds() []kind {
	ev := []string{`{"A":1,"b":2,"c":["x","y"],"d":{"k":1},"e":[1],"f":{"X":1}}`, `{"A":1}`, `{"c":["z"],"d":{"l":2},"f":{"Y":2}}`, `{}`, `{"b":3}`, `{"A":1}`}
	badEv := []string{`5`, `{"A":"x"}`, `{"A":1,"c":5}`, `[1]`, `{"A":1`, ``}
	return []kind{
		{"int", reflect.TypeOf(0), []string{"0", "1", "1", "-5", "null"}, []string{`"1"`, "1.5", "{}", "99999999999999999999", "1 2"}},
		{"uint8", reflect.TypeOf(uint8(0)), []string{"0", "255", "7"}, []string{"256", "-1", "true"}},
		{"string", reflect.TypeOf(""), []string{`""`, `"a"`, `"a"`, `"\u00e9\n<&>"`, "null"}, []string{"1", `"a`, "[]"}},
		{"bool", reflect.TypeOf(false), []string{"true", "false", "true"}, []string{"0", `"true"`, "tru"}},
		{"float", reflect.TypeOf(0.0), []string{"0", "1.5", "-2e3"}, []string{`"1"`, "1e999", "+1"}},
		{"slice", reflect.TypeOf([]int(nil)), []string{"[1,2,3]", "[4]", "[]", "null", "[5,6]"}, []string{"1", "[1,2", `[1,"x"]`}},
		{"slice of maps", reflect.TypeOf([]map[string]int(nil)), []string{`[{"a":1}]`, `[{"b":2},{"c":3}]`, "[{}]", "[null]"}, []string{`[{"a":"b"}]`}},
		{"array", reflect.TypeOf([2]int{}), []string{"[1,2]", "[3]", "[]", "[4,5,6]"}, []string{`["x"]`, "{}"}},
		{"map", reflect.TypeOf(map[string]int(nil)), []string{`{"a":1,"b":2}`, `{"a":3}`, `{"c":4}`, "{}", "null"}, []string{"[]", `{"a":"b"}`}},
		{"struct", reflect.TypeOf(event{}), append(ev, "null"), badEv},
		{"pointer", reflect.TypeOf(&event{}), append(ev, "null"), badEv},
		{"pointer to int", reflect.TypeOf(new(int)), []string{"1", "2", "null", "0"}, []string{`"x"`}},
		{"any", reflect.TypeOf((*interface{})(nil)).Elem(), []string{"1", "null", `{"a":[1]}`, `"s"`, "[]", "false", "null"}, []string{"{", "x", ""}},
		{"raw", reflect.TypeOf(json.RawMessage(nil)), []string{"1", "null", ` {"a": 1}`, `"s"`}, []string{"{", ""}},
		{"own", reflect.TypeOf(upper{}), []string{`"a"`, `"b"`, `"a"`}, []string{"5", "[]"}},
		{"number", reflect.TypeOf(json.Number("")), []string{"1", "1.50", "null"}, []string{"true", `{}`}},
	}
}

// valuesBody delivers all sequences of n texts of the kind to a channel with
// the given capacity; what arrives is what each decodes to alone, even when
// it is looked at after everything has arrived. In the end comes a text that
// does not decode, or none.
func valuesBody(k kind, n int) func() {
	return func() {
		dir := reflect.ChanOf(reflect.BothDir, k.typ)
		capy := mc.Choose(3)
		ch := reflect.MakeChan(dir, []int{0, 1, 64}[capy])
		var want []interface{}
		var texts []string
		for i := 0; i < n; i++ {
			texts = append(texts, k.good[mc.Choose(len(k.good))])
			v := reflect.New(k.typ)
			if err := json.Unmarshal([]byte(texts[i]), v.Interface()); err != nil {
				mc.Failf("%s does not decode to %s: %v", texts[i], k.name, err)
			}
			want = append(want, v.Interface())
		}
		bad := mc.Choose(len(k.bad) + 1)
		sub := rpc.NewClientSub("eth", ch.Interface())
		told := 0
		rpc.StubUnsubscribe = func(*rpc.ClientSubscription) error { told++; return nil }
		done := make(chan struct{})
		mc.Go(func() {
			rpc.RunSub(sub)
			close(done)
		})
		var got []interface{}
		take := func() {
			_, v, ok := mc.ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: ch}})
			if !ok {
				mc.Failf("the channel of the subscriber is closed")
			}
			p := reflect.New(k.typ)
			p.Elem().Set(v)
			got = append(got, p.Interface())
		}
		one := mc.Choose(2) == 1
		for i, t := range texts {
			if !rpc.DeliverSub(sub, t) {
				mc.Failf("%s: delivery %d of %q is refused", k.name, i, texts)
			}
			if one {
				take()
			}
		}
		for len(got) < n {
			take()
		}
		for i := range got {
			if !reflect.DeepEqual(got[i], want[i]) {
				mc.Failf("%s: %q arrives as %#v at %d, want %#v", k.name, texts, reflect.ValueOf(got[i]).Elem().Interface(), i, reflect.ValueOf(want[i]).Elem().Interface())
			}
		}
		if bad < len(k.bad) {
			// the subscription ends with the reason, and with nothing delivered
			rpc.DeliverSub(sub, k.bad[bad])
			<-done
			if rpc.DeliverSub(sub, k.good[0]) {
				mc.Failf("%s: a delivery after %q is accepted", k.name, k.bad[bad])
			}
			if err := <-sub.Err(); err == nil || err.Error() != json.Unmarshal([]byte(k.bad[bad]), reflect.New(k.typ).Interface()).Error() {
				mc.Failf("%s: %q ends the subscription with %v", k.name, k.bad[bad], err)
			}
		}
		sub.Unsubscribe()
		<-done
		if _, more := <-sub.Err(); more {
			mc.Failf("%s: an error after the end", k.name)
		}
		if i, v, _ := mc.ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: ch}, {Dir: reflect.SelectDefault}}); i == 0 {
			mc.Failf("%s: %#v arrives after the end", k.name, v.Interface())
		}
		if told != 1 {
			mc.Failf("%s: the server is told %d times", k.name, told)
		}
		mc.Outcome("%v", bad < len(k.bad))
	}
}

// namesBody runs subscriptions with ids, of which some resemble each other, at
// the same time: each receives what is sent to its id. Then one of them ends
// and its id is given to another.
func namesBody() {
	ids := []string{"0xabc", "0xABC", "0xAbc", "abc", "0xabcd", "0xab", "", " ", "0", "0x0", "1", "null", "\u00e9", "a.b", "a\"b", "a/b", "a_b"}
	conn := &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}
	h := rpc.NewH(context.Background(), conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
	rpc.StubUnsubscribe = func(*rpc.ClientSubscription) error { return nil }
	var subs []*rpc.ClientSubscription
	var chs []chan string
	quote := func(s string) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	// two of the ids, in both orders, and all
	var use []string
	if a := mc.Choose(len(ids) + 1); a == len(ids) {
		use = ids
	} else {
		use = []string{ids[a], ids[mc.Choose(len(ids))]}
		if use[0] == use[1] {
			use = use[:1]
		}
	}
	start := func(i int, id string) (*rpc.ClientSubscription, chan string) {
		ch := make(chan string)
		sub := rpc.NewClientSub("eth", ch)
		op := rpc.NewSubOp(fmt.Sprint(i), sub)
		h.Add(op)
		h.Response(&rpc.Msg{Version: "2.0", ID: json.RawMessage(fmt.Sprint(i)), Result: json.RawMessage(quote(id))})
		if m, more := <-op.Resp(); more || m != nil || op.Err() != nil || rpc.SubID(sub) != id {
			mc.Failf("subscribing with id %q: %v, %v, the id is %q", id, m, op.Err(), rpc.SubID(sub))
		}
		return sub, ch
	}
	note := func(id, v string) {
		h.Notification(&rpc.Msg{Version: "2.0", Method: "eth_subscription", Params: json.RawMessage(fmt.Sprintf(`{"subscription":%s,"result":%q}`, quote(id), v))})
	}
	for i, id := range use {
		s, ch := start(i, id)
		subs, chs = append(subs, s), append(chs, ch)
	}
	round := func(r int) {
		for i, id := range use {
			note(id, fmt.Sprint(r, i))
		}
		for i := range use {
			if v := <-chs[i]; v != fmt.Sprint(r, i) {
				mc.Failf("the subscription %q receives %q, want \"%d %d\"", use[i], v, r, i)
			}
		}
	}
	round(1)
	k := mc.Choose(len(use))
	subs[k].Unsubscribe()
	note(use[k], "late")
	subs[k], chs[k] = start(len(use), use[k])
	round(2)
	h.CancelAll(errConn, nil)
	for i, s := range subs {
		if err := <-s.Err(); err != errConn {
			mc.Failf("the subscription %q ends with %v", use[i], err)
		}
	}
	mc.Outcome("done")
}

// answersBody subscribes and is answered with every kind of error.
func answersBody() {
	errs := []*rpc.JSONError{
		{}, {Code: 1}, {Message: "m"}, {Code: -32000, Message: "m"}, {Data: "d"}, {Code: 5, Message: "m", Data: []interface{}{1}},
	}
	results := []string{"", "null", `"0x1"`, "5", "{}", `["0x1"]`, "true", "0"}
	conn := &rpc.Conn0{OnWrite: func(interface{}, bool) error { return nil }}
	h := rpc.NewH(context.Background(), conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
	told := 0
	rpc.StubUnsubscribe = func(*rpc.ClientSubscription) error { told++; return nil }
	ch := make(chan string)
	sub := rpc.NewClientSub("eth", ch)
	op := rpc.NewSubOp("1", sub)
	h.Add(op)
	m := &rpc.Msg{Version: "2.0", ID: json.RawMessage("1")}
	e, r := mc.Choose(len(errs)+1), mc.Choose(len(results))
	if e < len(errs) {
		m.Error = errs[e]
	}
	if results[r] != "" {
		m.Result = json.RawMessage(results[r])
	}
	h.Response(m)
	if x, more := <-op.Resp(); more || x != nil {
		mc.Failf("the request of a subscription received %v", x)
	}
	ok := m.Error == nil && (results[r] == `"0x1"`)
	switch {
	case m.Error != nil && op.Err() != error(m.Error):
		mc.Failf("subscribing gave %v, the server said %v", op.Err(), m)
	case m.Error == nil && results[r] == "null":
		// neither an id nor an error
		ok = op.Err() == nil
	case ok != (op.Err() == nil):
		mc.Failf("subscribing gave %v, the server said %v", op.Err(), m)
	}
	want := 0
	if ok {
		want = 1
	}
	if _, s, _ := h.Pending(); s != want {
		mc.Failf("after the answer %v, %d subscriptions are registered", m, s)
	}
	h.Notification(&rpc.Msg{Version: "2.0", Method: "eth_subscription", Params: json.RawMessage(fmt.Sprintf(`{"subscription":%q,"result":"v"}`, rpc.SubID(sub)))})
	if ok {
		if v := <-ch; v != "v" {
			mc.Failf("received %q", v)
		}
		sub.Unsubscribe()
	}
	if told != want {
		mc.Failf("after the answer %v, the server is told %d times", m, told)
	}
	mc.Outcome("%v", ok)
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var l []*mc.Scenario
		add := func(p program) {
			l = append(l, &mc.Scenario{Name: p.String(), Body: body(p)})
		}
		progs := []program{
			{cap: 0, threads: []string{"ddd", "rrr"}},
			{cap: 1, threads: []string{"ddd", "r"}},
			{cap: 2, threads: []string{"ddd"}},
			{cap: 0, threads: []string{"dd", "rr", "u"}},
			{cap: 1, threads: []string{"dd", "u"}},
			{cap: 0, threads: []string{"d", "u", "u"}},
			{cap: 0, threads: []string{"dc", "r"}},
			{cap: 1, threads: []string{"ddc"}},
			{cap: 0, threads: []string{"dc", "u"}},
			{cap: 0, threads: []string{"dq", "u"}},
			{cap: 0, threads: []string{"c", "u", "u"}},
			{cap: 0, threads: []string{"c", "e", "u"}},
			{cap: 0, threads: []string{"q", "e"}},
			{cap: 0, threads: []string{"c"}},
			{cap: 0, threads: []string{"c"}, nounsub: true},
			{cap: 0, threads: []string{"q"}, nounsub: true},
			{cap: 0, threads: []string{"db"}, nounsub: true},
			{cap: 1, threads: []string{"dbd", "r"}},
			{cap: 0, threads: []string{"bd", "u"}},
			{cap: 0, threads: []string{"bc", "u"}},
			{cap: 0, threads: []string{"b", "e", "u"}},
			{cap: 0, threads: []string{"dcd", "u"}},
			{cap: 0, threads: []string{"cq", "e"}},
			{cap: 0, threads: []string{"u", "ee"}},
		}
		if thorough {
			progs = append(progs,
				program{cap: 0, threads: []string{"dddd", "rrrr", "u"}},
				program{cap: 1, threads: []string{"dddc", "rr", "u"}},
				program{cap: 1, threads: []string{"ddq", "rr", "u", "u"}},
				program{cap: 2, threads: []string{"dddd", "rr", "e", "u"}},
				program{cap: 1, threads: []string{"ddbd", "rr", "u"}},
				program{cap: 0, threads: []string{"dd", "rr", "c", "u"}},
				program{cap: 0, threads: []string{"ddd", "rrr", "u", "u"}},
			)
		}
		for _, p := range progs {
			add(p)
		}
		for _, p := range []hprog{
			{resp: "ok"}, {resp: "ok", cancel: true}, {resp: "error"}, {resp: "malformed"},
			{resp: "ok", notes: []string{"mine", "mine"}},
			{resp: "ok", notes: []string{"other", "mine", "junk", "mine"}},
			{resp: "ok", notes: []string{"mine", "mine"}, cancel: true},
			{resp: "ok", notes: []string{"mine"}, early: true},
			{resp: "error", notes: []string{"mine"}, cancel: true},
			{resp: "malformed", notes: []string{"mine"}, cancel: true},
		} {
			l = append(l, &mc.Scenario{Name: p.String(), Body: hbody(p)})
		}
		dense, max := 24, 260
		if thorough {
			dense, max = 70, 1030
		}
		l = append(l, &mc.Scenario{Name: fmt.Sprintf("0..%d and more, up to %d", dense, max), Body: manyBody(dense, max), MaxBound: -1, Steps: 4000000, Straight: true})
		for _, k := range kinds() {
			n := 3
			if thorough {
				n = 4
			}
			l = append(l, &mc.Scenario{Name: fmt.Sprintf("values of type %s, %d", k.name, n), Body: valuesBody(k, n), MaxBound: -1, Straight: true})
		}
		l = append(l, &mc.Scenario{Name: "ids that resemble each other", Body: namesBody, MaxBound: -1, Straight: true})
		l = append(l, &mc.Scenario{Name: "answers to a subscription", Body: answersBody, MaxBound: -1, Straight: true})
		l = append(l, &mc.Scenario{Name: "overflow", Body: overflowBody(0), MaxBound: -1, Steps: 1000000})
		if thorough {
			l = append(l, &mc.Scenario{Name: "overflow after 3", Body: overflowBody(3), MaxBound: -1, Steps: 1000000})
		}
		return l
	})
}
