// Command p05 model-checks the server side of package rpc: notifiers, server
// subscriptions, batches, connection tracking and the registry.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"flychain/zzmc/mc"
	"flychain/zzmc/ref"
	"flychain/zzslice/rpc"
)

var (
	errConn  = errors.New("connection lost")
	errWrite = errors.New("write failed")
)

func panics(f func()) (p bool) {
	p = true
	defer func() { recover() }()
	f()
	return false
}

// recorder is a connection whose writes must not overlap.
type recorder struct {
	conn   rpc.Conn0
	in     int
	writes []interface{}
	isErr  []bool
	failAt int // number of the write that fails, from 1
	fails  int
	solo   bool
}

func newRecorder(failAt int) *recorder {
	r := &recorder{failAt: failAt, solo: true}
	r.conn.OnWrite = func(m interface{}, isErr bool) error {
		if r.in++; r.in > 1 {
			mc.Failf("two writes at the same time")
		}
		mc.Point()
		r.in--
		r.writes = append(r.writes, m)
		r.isErr = append(r.isErr, isErr)
		if r.failAt != 0 && len(r.writes) >= r.failAt {
			r.fails++
			return errWrite
		}
		return nil
	}
	return r
}

// ---- notifier ----

type nprog struct {
	threads []int // notifications per thread
	before  int   // notifications before anything else
	failAt  int
}

func (p nprog) String() string {
	return fmt.Sprintf("notify %v before%d fail%d", p.threads, p.before, p.failAt)
}

type note struct {
	v         int
	err       error
	call, ret int
}

func nbody(p nprog) func() {
	return func() {
		rec := newRecorder(p.failAt)
		n := 0
		h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { n++; return rpc.ID(fmt.Sprintf("0x%d", n)) }, rpc.NewRegistry())
		nt := h.NewNotifier("eth")
		if !panics(func() { nt.Notify("0x1", 1) }) {
			mc.Failf("Notify before the subscription exists does not panic")
		}
		sub := nt.CreateSubscription()
		if !panics(func() { nt.CreateSubscription() }) {
			mc.Failf("a second subscription is created")
		}
		if !panics(func() { nt.Notify("0x2", 1) }) {
			mc.Failf("Notify with a wrong id does not panic")
		}
		if nt.Notify(sub.ID, make(chan int)) == nil {
			mc.Failf("an unencodable notification is accepted")
		}
		if rpc.TakeSubscription(nt) != sub {
			mc.Failf("another subscription is taken")
		}
		if !panics(func() { nt.CreateSubscription() }) {
			mc.Failf("a subscription is created after the call has returned")
		}
		hist := make([][]note, len(p.threads)+1)
		do := func(t, k int) {
			v := (t+1)*10 + k
			x := note{v: v, call: mc.StampCall()}
			x.err = nt.Notify(sub.ID, v)
			x.ret = mc.StampRet()
			hist[t] = append(hist[t], x)
		}
		for k := 0; k < p.before; k++ {
			do(len(p.threads), k)
		}
		if len(rec.writes) != 0 {
			mc.Failf("a notification is written before the activation")
		}
		var fs []func()
		for t, k := range p.threads {
			t, k := t, k
			fs = append(fs, func() {
				for i := 0; i < k; i++ {
					do(t, i)
				}
			})
		}
		var actErr error
		fs = append(fs, func() { actErr = rpc.Activate(nt) })
		mc.Par(fs...)
		// what was written, in order
		var vals []int
		pos := map[int]int{}
		for i, w := range rec.writes {
			m, ok := w.(*rpc.Msg)
			if !ok || rec.isErr[i] {
				mc.Failf("write %d is a %T, error %v", i, w, rec.isErr[i])
			}
			raw, _ := json.Marshal(m)
			var q struct {
				Subscription string
				Result       *int
			}
			if err := json.Unmarshal(m.Params, &q); err != nil || q.Result == nil {
				mc.Failf("write %d is %s", i, raw)
			}
			if m.Version != "2.0" || m.Method != "eth_subscription" || m.ID != nil || m.Result != nil || m.Error != nil || q.Subscription != "0x1" || !rpc.IsNotification(m) {
				mc.Failf("write %d is %s", i, raw)
			}
			if _, dup := pos[*q.Result]; dup {
				mc.Failf("notification %d is written twice", *q.Result)
			}
			pos[*q.Result] = i
			vals = append(vals, *q.Result)
		}
		failed := 0
		all := []note{}
		for _, l := range hist {
			all = append(all, l...)
		}
		for _, x := range all {
			if x.err != nil {
				failed++
				if x.err != errWrite {
					mc.Failf("Notify fails with %v", x.err)
				}
			}
		}
		if actErr != nil {
			failed++
			if actErr != errWrite {
				mc.Failf("the activation fails with %v", actErr)
			}
		}
		if failed != rec.fails {
			mc.Failf("%d writes fail and %d errors are reported", rec.fails, failed)
		}
		if p.failAt == 0 {
			for _, x := range all {
				if _, ok := pos[x.v]; !ok {
					mc.Failf("notification %d is lost, written: %v", x.v, vals)
				}
			}
		}
		known := map[int]note{}
		for _, x := range all {
			known[x.v] = x
		}
		for v := range pos {
			if _, ok := known[v]; !ok {
				mc.Failf("%d was written and never notified", v)
			}
		}
		for _, x := range all {
			for _, y := range all {
				px, ok1 := pos[x.v]
				py, ok2 := pos[y.v]
				if x.ret < y.call && ok1 && ok2 && px > py {
					mc.Failf("notification %d precedes %d and is written after it: %v", x.v, y.v, vals)
				}
				// nothing is skipped
				if x.ret < y.call && !ok1 && ok2 && actErr == nil {
					mc.Failf("notification %d precedes %d and only the latter is written: %v", x.v, y.v, vals)
				}
			}
		}
		mc.Outcome("%v %v", vals, actErr)
	}
}

// early checks that nothing is written before the activation begins and that
// everything accepted earlier is written when it returns.
func earlyBody(k int) func() {
	return func() {
		rec := newRecorder(0)
		h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
		nt := h.NewNotifier("eth")
		sub := nt.CreateSubscription()
		mc.Par(func() {
			for i := 0; i < k; i++ {
				if nt.Notify(sub.ID, i) != nil {
					mc.Failf("Notify fails")
				}
			}
		}, func() {
			for i := 0; i < k; i++ {
				if nt.Notify(sub.ID, 10+i) != nil {
					mc.Failf("Notify fails")
				}
			}
		})
		if len(rec.writes) != 0 {
			mc.Failf("%d notifications are written before the activation", len(rec.writes))
		}
		if err := rpc.Activate(nt); err != nil {
			mc.Failf("activation: %v", err)
		}
		if len(rec.writes) != 2*k {
			mc.Failf("%d notifications are written on activation, want %d", len(rec.writes), 2*k)
		}
		if nt.Notify(sub.ID, 99) != nil || len(rec.writes) != 2*k+1 {
			mc.Failf("an active notifier does not write at once")
		}
	}
}

func createBody() {
	rec := newRecorder(0)
	h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
	nt := h.NewNotifier("eth")
	var subs [2]*rpc.Subscription
	var taken *rpc.Subscription
	mk := func(i int) func() {
		return func() { panics(func() { subs[i] = nt.CreateSubscription() }) }
	}
	mc.Par(mk(0), mk(1), func() { taken = rpc.TakeSubscription(nt) })
	if subs[0] != nil && subs[1] != nil {
		mc.Failf("two subscriptions are created")
	}
	s := subs[0]
	if s == nil {
		s = subs[1]
	}
	if taken != s {
		mc.Failf("created %v, taken %v", s, taken)
	}
	mc.Outcome("%v", s != nil)
}

// ---- server subscriptions ----

// A program has threads of actions on two tracked subscriptions: 1 and 2
// unsubscribe, c the connection is lost, t tracks the second one (it is
// tracked from the start otherwise).
func subsBody(threads []string) func() {
	return func() {
		rec := newRecorder(0)
		n := 0
		h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { n++; return rpc.ID(fmt.Sprintf("0x%d", n)) }, rpc.NewRegistry())
		var subs []*rpc.Subscription
		var nts []*rpc.Notifier
		for i := 0; i < 2; i++ {
			nt := h.NewNotifier("eth")
			subs = append(subs, nt.CreateSubscription())
			nts = append(nts, nt)
		}
		late := strings.Contains(strings.Join(threads, ""), "t")
		empty := h.NewNotifier("eth")
		if late {
			h.Track(nts[0], empty)
		} else {
			h.Track(empty, nts[0], nts[1])
		}
		type res struct {
			k, call, ret int
			ok           bool
		}
		hist := make([][]res, len(threads))
		type span struct{ call, ret int }
		cancels := make([]span, len(threads))
		tracks := make([]span, len(threads))
		var fs []func()
		for i, t := range threads {
			i, t := i, t
			fs = append(fs, func() {
				for _, a := range t {
					switch a {
					case '1', '2':
						k := int(a - '1')
						r := res{k: k, call: mc.StampCall()}
						ok, err := h.Unsubscribe(subs[k].ID)
						r.ret = mc.StampRet()
						r.ok = ok
						if ok != (err == nil) || !ok && err != rpc.ErrSubscriptionNotFound {
							mc.Failf("Unsubscribe = %v, %v", ok, err)
						}
						hist[i] = append(hist[i], r)
					case 'c':
						cancels[i].call = mc.StampCall()
						h.CancelSubscriptions(errConn)
						cancels[i].ret = mc.StampRet()
					case 't':
						tracks[i].call = mc.StampCall()
						h.Track(nts[1])
						tracks[i].ret = mc.StampRet()
					}
				}
			})
		}
		mc.Par(fs...)
		left := 0
		for k, s := range subs {
			okN, cancelled := 0, false
			for _, l := range hist {
				for _, r := range l {
					if r.k == k && r.ok {
						okN++
					}
				}
			}
			var vals []error
			closed := false
			for !closed {
				var more bool
				select {
				case err, ok := <-s.Err():
					more = true
					if ok {
						vals = append(vals, err)
					} else {
						closed = true
					}
				default:
				}
				if !more {
					break
				}
			}
			if len(vals) > 1 || len(vals) == 1 && vals[0] != errConn {
				mc.Failf("subscription %d: errors %v", k, vals)
			}
			cancelled = len(vals) == 1
			if okN > 1 {
				mc.Failf("subscription %d was unsubscribed %d times with success", k, okN)
			}
			if okN == 1 && cancelled {
				mc.Failf("subscription %d was unsubscribed and carries an error", k)
			}
			if closed != (okN == 1 || cancelled) {
				mc.Failf("subscription %d: closed %v, unsubscribed %d, cancelled %v", k, closed, okN, cancelled)
			}
			if !closed {
				left++
			}
			// completeness, by real time
			tr := span{0, 0}
			for _, t := range tracks {
				if k == 1 && t.ret != 0 {
					tr = t
				}
			}
			for _, l := range hist {
				for _, r := range l {
					if r.k == k && r.call > tr.ret && !closed {
						mc.Failf("subscription %d is open after Unsubscribe", k)
					}
				}
			}
			for _, cn := range cancels {
				if cn.ret != 0 && cn.call > tr.ret && !closed {
					mc.Failf("subscription %d is open after the connection was lost", k)
				}
			}
			mc.Outcome("%d:%v,%v", k, okN, cancelled)
		}
		if _, _, s := h.Pending(); s != left {
			mc.Failf("%d server subscriptions are registered, %d are open", s, left)
		}
		// the rest ends with the connection
		h.Close(errConn)
		for k, s := range subs {
			n := 0
			for range s.Err() {
				n++
			}
			if n > 1 {
				mc.Failf("subscription %d carries %d errors", k, n)
			}
		}
		if ok, err := h.Unsubscribe("0x1"); ok || err != rpc.ErrSubscriptionNotFound {
			mc.Failf("Unsubscribe after the end = %v, %v", ok, err)
		}
	}
}

// callbackBody unsubscribes through the registered callback.
func callbackBody() {
	rec := newRecorder(0)
	h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
	nt := h.NewNotifier("eth")
	sub := nt.CreateSubscription()
	h.Track(nt)
	cb := h.UnsubscribeCallback()
	oks := make([]bool, 2)
	call := func(i int) func() {
		return func() {
			res, err := cb.Call(context.Background(), "eth_unsubscribe", sub.ID)
			if ok, is := res.(bool); err == nil && is {
				oks[i] = ok
			} else if err != rpc.ErrSubscriptionNotFound {
				mc.Failf("unsubscribing: %v, %v", res, err)
			}
		}
	}
	mc.Par(call(0), call(1))
	if oks[0] == oks[1] {
		mc.Failf("two calls report %v", oks)
	}
	if _, more := <-sub.Err(); more {
		mc.Failf("an error on the unsubscribed subscription")
	}
}

// closeBody checks that closing waits for the running calls.
func closeBody(calls int) func() {
	return func() {
		rec := newRecorder(0)
		root, cancel := context.WithCancel(context.Background())
		defer cancel()
		h := rpc.NewH(root, &rec.conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
		done := make([]bool, calls)
		ctxs := make([]context.Context, calls)
		for i := 0; i < calls; i++ {
			i := i
			h.Start(func(ctx context.Context) {
				ctxs[i] = ctx
				if ctx.Err() != nil {
					mc.Failf("the context of a call is cancelled from the start")
				}
				mc.Point()
				done[i] = true
			})
		}
		op := rpc.NewOp("1", "2")
		h.Add(op)
		h.Close(errConn)
		for i := range done {
			if !done[i] {
				mc.Failf("closed before call %d has returned", i)
			}
			if ctxs[i].Err() == nil {
				mc.Failf("the context of call %d outlives the connection", i)
			}
		}
		if _, more := <-op.Resp(); more || op.Err() != errConn {
			mc.Failf("a pending request ends with %v", op.Err())
		}
		if root.Err() != nil {
			mc.Failf("closing a connection cancels the context of its caller")
		}
	}
}

// ---- batches ----

// batchBody answers a batch in one thread while the timeout fires in another.
// kinds: c call, n notification.
func batchBody(kinds string, timeouts int) func() {
	return func() {
		rec := newRecorder(0)
		var calls []*rpc.Msg
		ids := map[string]bool{}
		for i, k := range kinds {
			m := &rpc.Msg{Version: "2.0", Method: "a_b"}
			if k == 'c' {
				m.ID = json.RawMessage(fmt.Sprint(i))
				ids[fmt.Sprint(i)] = true
			}
			calls = append(calls, m)
		}
		b := rpc.NewBatch(append([]*rpc.Msg{}, calls...))
		fs := []func(){func() {
			for i := 0; ; i++ {
				m := b.Next()
				if m == nil {
					if i != len(calls) {
						mc.Failf("%d of %d calls were handed out", i, len(calls))
					}
					break
				}
				if i >= len(calls) || m != calls[i] {
					mc.Failf("call %d is handed out out of order", i)
				}
				if m.ID == nil {
					b.Push(nil)
				} else {
					b.Push(rpc.Respond(m, i))
				}
			}
			b.Write(&rec.conn)
		}}
		for i := 0; i < timeouts; i++ {
			fs = append(fs, func() { b.Timeout(&rec.conn) })
		}
		mc.Par(fs...)
		want := 1
		if len(ids) == 0 {
			want = 0
		}
		if len(rec.writes) != want {
			mc.Failf("%d writes, want %d", len(rec.writes), want)
		}
		if want == 0 {
			return
		}
		answers := rpc.Msgs(rec.writes[0])
		if len(answers) != len(ids) {
			mc.Failf("%d answers to %d calls", len(answers), len(ids))
		}
		out := ""
		late := false
		last := -1
		for _, a := range answers {
			if !ids[string(a.ID)] {
				mc.Failf("an answer to %s, which was not asked or is answered already", a.ID)
			}
			delete(ids, string(a.ID))
			var i int
			fmt.Sscan(string(a.ID), &i)
			if i < last {
				mc.Failf("the answers are out of order")
			}
			last = i
			switch {
			case a.Error == nil && string(a.Result) == string(a.ID):
				if late {
					mc.Failf("an answer after a timeout error")
				}
				out += "r"
			case a.Error != nil && a.Error.Code == -32002:
				late = true
				out += "t"
			default:
				mc.Failf("answer %s to call %d", a, i)
			}
		}
		if late != rec.isErr[0] && (late || timeouts == 0) {
			mc.Failf("timed out: %v, written as an error: %v", late, rec.isErr[0])
		}
		if timeouts == 0 && late {
			mc.Failf("a timeout that did not happen")
		}
		mc.Outcome("%s", out)
	}
}

// ---- server ----

// serverBody: each thread handles connection i: t tracks it, u untracks it, s
// stops the server.
func serverBody(threads []string) func() {
	return func() {
		srv := rpc.NewServer()
		conns := make([]*rpc.Conn0, len(threads))
		closes := make([]int, len(threads))
		type st struct {
			tracked                bool
			tCall, tRet, uCall, uR int
		}
		states := make([]st, len(threads))
		type span struct{ call, ret int }
		stops := make([][]span, len(threads))
		for i := range conns {
			i := i
			conns[i] = &rpc.Conn0{OnClose: func() {
				closes[i]++
			}}
		}
		var fs []func()
		for i, t := range threads {
			i, t := i, t
			fs = append(fs, func() {
				for _, a := range t {
					switch a {
					case 't':
						states[i].tCall = mc.StampCall()
						states[i].tracked = rpc.TrackCodec(srv, conns[i])
						states[i].tRet = mc.StampRet()
					case 'u':
						states[i].uCall = mc.StampCall()
						rpc.UntrackCodec(srv, conns[i])
						states[i].uR = mc.StampRet()
					case 's':
						c := mc.StampCall()
						srv.Stop()
						stops[i] = append(stops[i], span{c, mc.StampRet()})
					}
				}
			})
		}
		mc.Par(fs...)
		firstCall, firstRet, lastRet := 0, 0, 0
		for _, l := range stops {
			for _, s := range l {
				if firstCall == 0 || s.call < firstCall {
					firstCall = s.call
				}
				if firstRet == 0 || s.ret < firstRet {
					firstRet = s.ret
				}
				if s.ret > lastRet {
					lastRet = s.ret
				}
			}
		}
		for i, s := range states {
			if s.tCall == 0 {
				continue
			}
			if closes[i] > 1 {
				mc.Failf("connection %d is closed %d times", i, closes[i])
			}
			switch {
			case firstCall == 0 || s.tRet < firstCall:
				if !s.tracked {
					mc.Failf("connection %d is refused by a running server", i)
				}
			case s.tCall > firstRet:
				if s.tracked {
					mc.Failf("connection %d is accepted by a stopped server", i)
				}
			}
			if !s.tracked && closes[i] != 0 {
				mc.Failf("connection %d was refused and is closed by the server", i)
			}
			if s.tracked && lastRet != 0 && s.uCall == 0 && closes[i] != 1 {
				mc.Failf("connection %d is not closed by stopping the server", i)
			}
			if s.uR != 0 && (firstCall == 0 || s.uR < firstCall) && closes[i] != 0 {
				mc.Failf("connection %d is closed after it was released", i)
			}
			mc.Outcome("%d:%v,%d", i, s.tracked, closes[i])
		}
		if firstCall != 0 {
			if rpc.TrackCodec(srv, &rpc.Conn0{}) {
				mc.Failf("a stopped server accepts a connection")
			}
		} else {
			srv.Stop()
			for i, s := range states {
				if s.tracked && s.uCall == 0 && closes[i] != 1 {
					mc.Failf("connection %d is not closed by stopping the server", i)
				}
			}
		}
	}
}

// singleBody serves one request that cannot be read while another thread may
// stop the server.
func singleBody(readErr error, stop int) func() {
	return func() {
		srv := rpc.NewServer()
		rec := newRecorder(0)
		reads := 0
		rec.conn.OnRead = func() error {
			reads++
			mc.Point()
			return readErr
		}
		root, cancel := context.WithCancel(context.Background())
		defer cancel()
		if stop == 2 {
			srv.Stop()
		}
		fs := []func(){func() { rpc.ServeSingle(root, srv, &rec.conn) }}
		if stop == 1 {
			fs = append(fs, srv.Stop)
		}
		mc.Par(fs...)
		if reads > 1 || reads == 0 && stop == 0 || reads == 1 && stop == 2 {
			mc.Failf("%d requests were read", reads)
		}
		want := 0
		if reads == 1 && readErr != io.EOF {
			want = 1
		}
		if len(rec.writes) != want {
			mc.Failf("%d answers to a request that ends with %v, want %d", len(rec.writes), readErr, want)
		}
		if want == 1 {
			m, ok := rec.writes[0].(*rpc.Msg)
			if !ok || !rec.isErr[0] || m.Error == nil || m.Error.Code != -32700 || m.Version != "2.0" || string(m.ID) != "null" || m.Result != nil {
				mc.Failf("an unreadable request is answered with %v, error %v", rec.writes[0], rec.isErr[0])
			}
		}
		mc.Outcome("reads%d", reads)
	}
}

// connBody closes a client's connection: it is closed once, after its calls.
func connBody(calls int) func() {
	return func() {
		rec := newRecorder(0)
		closes := 0
		done := make([]bool, calls)
		rec.conn.OnClose = func() {
			closes++
			for _, d := range done {
				if !d {
					mc.Failf("the connection is closed before its calls have returned")
				}
			}
		}
		h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { return "0x1" }, rpc.NewRegistry())
		for i := 0; i < calls; i++ {
			i := i
			h.Start(func(ctx context.Context) {
				mc.Point()
				done[i] = true
			})
		}
		op := rpc.NewOp("1")
		h.Add(op)
		rpc.CloseConn(h, &rec.conn, errConn)
		if closes != 1 {
			mc.Failf("the connection is closed %d times", closes)
		}
		if _, more := <-op.Resp(); more || op.Err() != errConn {
			mc.Failf("a pending request ends with %v", op.Err())
		}
	}
}

// ---- registry and ids ----

type svcA struct{}

func (svcA) X() int { return 1 }
func (svcA) S(ctx context.Context) (*rpc.Subscription, error) {
	return nil, nil
}

type svcB struct{}

func (svcB) X() int { return 2 }
func (svcB) Y() int { return 3 }

func registryBody() {
	srv := rpc.NewServer()
	reg := rpc.ServerRegistry(srv)
	must := func(err error) {
		if err != nil {
			mc.Failf("registering: %v", err)
		}
	}
	look := func() {
		x, y := reg.Callback("a_x"), reg.Callback("a_y")
		s := reg.Subscription("a", "s")
		if x != nil {
			res, err := x.Call(context.Background(), "a_x")
			if err != nil || res != 1 && res != 2 {
				mc.Failf("a_x = %v, %v", res, err)
			}
		}
		mc.Outcome("%v%v%v", x != nil, y != nil, s != nil)
		for n := range rpc.ServerModules(srv) {
			if n != "rpc" && n != "a" {
				mc.Failf("module %q", n)
			}
		}
	}
	mc.Par(func() { must(srv.RegisterName("a", svcA{})) }, func() { must(srv.RegisterName("a", svcB{})) }, look)
	if reg.Callback("a_x") == nil || reg.Callback("a_y") == nil || reg.Subscription("a", "s") == nil || len(rpc.ServerModules(srv)) != 2 {
		mc.Failf("a registration is lost")
	}
}

func idsBody() {
	g := rpc.IDGenerator()
	var a, b []rpc.ID
	mc.Par(func() { a = append(a, g(), g()) }, func() { b = append(b, g(), g()) })
	seen := map[rpc.ID]bool{}
	for _, id := range append(a, b...) {
		if seen[id] {
			mc.Failf("id %s twice", id)
		}
		seen[id] = true
	}
}

// ---- what is sent ----

type payload struct {
	A int
	B []string
	C map[string]int `json:",omitempty"`
	d int
}

type custom struct{ s *string }

func (c custom) MarshalJSON() ([]byte, error) { return json.Marshal("custom " + *c.s) }

// payloads returns the values to notify, each with a function that changes it
// afterwards.
func payloads() (l []interface{}, change []func()) {
	add := func(v interface{}, f func()) { l, change = append(l, v), append(change, f) }
	nop := func() {}
	for _, v := range []interface{}{nil, 0, 1.5, "", "null", "<a href=\"x\">&\u2028", true, []int(nil), []int{}, map[string]int(nil), struct{}{}, (*payload)(nil), json.RawMessage("null"), json.RawMessage(nil), json.RawMessage(` { "a" : [ 1 , 2 ] } `), []byte("bytes"), errConn, rpc.ID("0x1"), json.Number("1.50")} {
		add(v, nop)
	}
	ints := []int{1, 2, 3}
	add(ints, func() { ints[0] = 9 })
	m := map[string]interface{}{"a": 1, "b": []int{2}}
	add(m, func() { m["a"] = 9; delete(m, "b") })
	p := &payload{A: 1, B: []string{"x"}, C: map[string]int{"k": 1}, d: 1}
	add(p, func() { p.A = 9; p.B[0] = "y"; p.C["k"] = 9 })
	add(*p, func() { p.B[0] = "y" })
	raw := json.RawMessage(`{"a":1}`)
	add(raw, func() { copy(raw, `{"b":2}`) })
	praw := json.RawMessage(`[1]`)
	add(&praw, func() { copy(praw, `[2]`) })
	str := "s"
	add(custom{&str}, func() { str = "t" })
	add(&str, func() { str = "t" })
	bytes := []byte{1, 2, 3}
	add(bytes, func() { bytes[0] = 9 })
	return l, change
}

// payloadBody notifies two values before and after the activation, and changes
// them when Notify has returned: what is written is what they were.
func payloadBody() {
	spaces := []string{"eth", "", "a-b", "a_b", "net.v2", "\u00e9", "ETH", "subscription"}
	ids := []rpc.ID{"0x1", "0xABC", "", "a\"b", "<&>", "0x" + rpc.ID(strings.Repeat("f", 40))}
	space, id := spaces[mc.Choose(len(spaces))], ids[mc.Choose(len(ids))]
	rec := newRecorder(0)
	h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { return id }, rpc.NewRegistry())
	nt := h.NewNotifier(space)
	sub := nt.CreateSubscription()
	if b, err := json.Marshal(sub); err != nil || !equalJSON(b, string(id)) {
		mc.Failf("the subscription %q encodes to %s, %v", id, b, err)
	}
	l, change := payloads()
	k, after := mc.Choose(len(l)), mc.Choose(2) == 1
	var want []string
	do := func(i int) {
		b, err := json.Marshal(l[i])
		if err != nil {
			mc.Failf("payload %d: %v", i, err)
		}
		want = append(want, string(b))
		if err := nt.Notify(sub.ID, l[i]); err != nil {
			mc.Failf("Notify of %s: %v", b, err)
		}
		change[i]()
	}
	if after {
		rpc.Activate(nt)
	}
	do(k)
	do((k + 1) % len(l))
	if !after {
		rpc.Activate(nt)
	}
	if len(rec.writes) != 2 {
		mc.Failf("%d notifications are written, want 2", len(rec.writes))
	}
	for i, w := range rec.writes {
		m, ok := w.(*rpc.Msg)
		if !ok || m.Method != space+"_subscription" || !rpc.IsNotification(m) {
			mc.Failf("write %d of namespace %q is %v", i, space, w)
		}
		var q map[string]json.RawMessage
		if err := json.Unmarshal(m.Params, &q); err != nil || len(q) != 2 || !equalJSON(q["subscription"], string(id)) {
			mc.Failf("write %d of subscription %q is %s", i, id, m.Params)
		}
		var v interface{}
		json.Unmarshal([]byte(want[i]), &v)
		if !equalJSON(q["result"], v) {
			mc.Failf("write %d carries the result %s, want %s", i, q["result"], want[i])
		}
	}
	mc.Outcome("done")
}

func equalJSON(raw []byte, want interface{}) bool {
	var v interface{}
	return json.Unmarshal(raw, &v) == nil && reflect.DeepEqual(v, want)
}

type ownError struct{ n int }

func (e *ownError) Error() string { return "" }

// errorsBody ends a connection with every kind of error: its subscriptions and
// its requests end with exactly this one.
func errorsBody() {
	errs := []error{errConn, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, rpc.ErrClientQuit, fmt.Errorf("wrapped: %w", io.EOF), &ownError{1}, rpc.ErrSubscriptionNotFound, nil}
	err := errs[mc.Choose(len(errs))]
	closing := mc.Choose(2) == 1
	rec := newRecorder(0)
	n := 0
	h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { n++; return rpc.ID(fmt.Sprint(n)) }, rpc.NewRegistry())
	var subs []*rpc.Subscription
	for i := 0; i < 3; i++ {
		nt := h.NewNotifier("eth")
		subs = append(subs, nt.CreateSubscription())
		h.Track(nt)
	}
	op := rpc.NewOp("1", "2")
	h.Add(op)
	if closing {
		h.Close(err)
		if _, more := <-op.Resp(); more || op.Err() != err {
			mc.Failf("a connection closed with %v: a request ends with %v", err, op.Err())
		}
	} else {
		h.CancelSubscriptions(err)
	}
	for _, s := range subs {
		if got, more := <-s.Err(); got != err || !more && err != nil {
			mc.Failf("a connection closed with %v: a subscription ends with %v, %v", err, got, more)
		}
		if _, more := <-s.Err(); more {
			mc.Failf("a connection closed with %v: a subscription carries two errors", err)
		}
	}
	if len(rec.writes) != 0 {
		mc.Failf("a closed connection is written to")
	}
	mc.Outcome("done")
}

// ---- concurrent calls ----

type svcC struct{ id int }

func (s *svcC) Plain(a, b int) [3]int {
	mc.Point()
	return [3]int{s.id, a, b}
}

func (s *svcC) Context(ctx context.Context, a int, b []int) ([3]int, error) {
	mc.Point()
	return [3]int{ctx.Value(ctxKey{}).(int), a, b[0]}, nil
}

func (s *svcC) Fail(a, b int) ([3]int, error) {
	mc.Point()
	if a == 4 {
		panic("four")
	}
	if a == 2 {
		return [3]int{}, &ownError{b}
	}
	return [3]int{s.id, a, b}, nil
}

type ctxKey struct{}

// callsBody runs calls of one registered method, or of two methods, in
// parallel: each gets its own arguments, context and result.
func callsBody(methods []string) func() {
	return func() {
		reg := rpc.NewRegistry()
		if err := reg.Register("a", &svcC{7}); err != nil {
			mc.Failf("registering: %v", err)
		}
		var fs []func()
		for i, name := range methods {
			i, name := i, name
			fs = append(fs, func() {
				ctx := context.WithValue(context.Background(), ctxKey{}, 100+i)
				cb := reg.Callback("a_" + name)
				if cb == nil {
					mc.Failf("a_%s is not found", name)
				}
				for k := 1; k <= 2; k++ {
					a, b := 2*i+k, 10*i+k
					var arg interface{} = b
					want := [3]int{7, a, b}
					if name == "context" {
						want[0] = 100 + i
						arg = []int{b}
					}
					res, err := cb.Call(ctx, "a_"+name, a, arg)
					if name == "fail" && a == 2 {
						if e, ok := err.(*ownError); !ok || e.n != b {
							mc.Failf("the call %d of thread %d fails with %v", k, i, err)
						}
						continue
					}
					if name == "fail" && a == 4 {
						if e, ok := err.(rpc.Error); !ok || e.ErrorCode() != -32603 {
							mc.Failf("the call %d of thread %d panics and gives %v", k, i, err)
						}
						continue
					}
					if err != nil || res != want {
						mc.Failf("the call %d of thread %d returns %v, %v, want %v", k, i, res, err, want)
					}
				}
			})
		}
		mc.Par(fs...)
	}
}

// ---- many of everything ----

// manyBody uses a connection with n notifications before and after the
// activation, n subscriptions, n calls, a batch of n messages and a server
// with n connections.
func manyBody(dense, max int) func() {
	sizes := ref.SizeList(dense, max)
	return func() {
		n := sizes[mc.Choose(len(sizes))]
		part := mc.Choose(5)
		rec := newRecorder(0)
		ids := 0
		h := rpc.NewH(context.Background(), &rec.conn, func() rpc.ID { ids++; return rpc.ID(fmt.Sprintf("0x%x", ids)) }, rpc.NewRegistry())
		switch part {
		case 0: // notifications
			nt := h.NewNotifier(strings.Repeat("e", n))
			sub := nt.CreateSubscription()
			pay := func(i int) string { return fmt.Sprint(i, strings.Repeat("x", i)) }
			for i := 0; i < n; i++ {
				if err := nt.Notify(sub.ID, pay(i)); err != nil || len(rec.writes) != 0 {
					mc.Failf("notification %d of %d: %v, %d written", i, n, err, len(rec.writes))
				}
			}
			if err := rpc.Activate(nt); err != nil || len(rec.writes) != n {
				mc.Failf("activation after %d notifications: %v, %d written", n, err, len(rec.writes))
			}
			for i := n; i < 2*n; i++ {
				if err := nt.Notify(sub.ID, pay(i)); err != nil || len(rec.writes) != i+1 {
					mc.Failf("notification %d of %d: %v, %d written", i, 2*n, err, len(rec.writes))
				}
			}
			for i, w := range rec.writes {
				m, ok := w.(*rpc.Msg)
				want := fmt.Sprintf(`{"subscription":"0x1","result":%q}`, pay(i))
				if !ok || m.Method != strings.Repeat("e", n)+"_subscription" || string(m.Params) != want {
					mc.Failf("%d notifications before the activation: write %d is %v, want the parameters %s", n, i, w, want)
				}
			}
		case 1: // subscriptions
			var subs []*rpc.Subscription
			var nts []*rpc.Notifier
			for i := 0; i < n; i++ {
				nts = append(nts, h.NewNotifier("eth"))
				subs = append(subs, nts[i].CreateSubscription())
			}
			// one at a time, and the rest together
			k := n / 2
			for i := 0; i < k; i++ {
				h.Track(nts[i])
			}
			h.Track(nts[k:]...)
			if _, _, s := h.Pending(); s != n {
				mc.Failf("%d subscriptions are registered, want %d", s, n)
			}
			gone := func(i int) bool { return i%3 == 1 || i == 0 || i == n-1 }
			for i, s := range subs {
				if !gone(i) {
					continue
				}
				if ok, err := h.Unsubscribe(s.ID); !ok || err != nil {
					mc.Failf("unsubscribing %d of %d: %v, %v", i, n, ok, err)
				}
				if _, more := <-s.Err(); more {
					mc.Failf("an error on the unsubscribed %d of %d", i, n)
				}
				if ok, err := h.Unsubscribe(s.ID); ok || err != rpc.ErrSubscriptionNotFound {
					mc.Failf("unsubscribing %d of %d again: %v, %v", i, n, ok, err)
				}
			}
			for i, s := range subs {
				if !gone(i) {
					select {
					case err, more := <-s.Err():
						mc.Failf("subscription %d of %d ended: %v, %v", i, n, err, more)
					default:
					}
				}
			}
			h.Close(errConn)
			for i, s := range subs {
				if gone(i) {
					continue
				}
				if err := <-s.Err(); err != errConn {
					mc.Failf("subscription %d of %d ends with %v", i, n, err)
				}
				if _, more := <-s.Err(); more {
					mc.Failf("subscription %d of %d carries two errors", i, n)
				}
			}
			if _, _, s := h.Pending(); s != 0 {
				mc.Failf("%d of %d subscriptions are left", s, n)
			}
		case 2: // calls
			done := make([]bool, n)
			ctxs := make([]context.Context, n)
			var ops []rpc.Op
			release := make([]chan struct{}, n)
			var started chan struct{}
			for i := 0; i < n; i++ {
				i := i
				started, release[i] = make(chan struct{}), make(chan struct{})
				h.Start(func(ctx context.Context) {
					ctxs[i] = ctx
					close(started)
					<-release[i]
					done[i] = true
					if i < n-1 {
						close(release[i+1])
					}
				})
				<-started
				op := rpc.NewOp(fmt.Sprint(i))
				h.Add(op)
				ops = append(ops, op)
			}
			if n > 0 {
				close(release[0])
			}
			h.Close(errConn)
			for i := range done {
				if !done[i] || ctxs[i].Err() == nil {
					mc.Failf("closed before call %d of %d has returned", i, n)
				}
				if _, more := <-ops[i].Resp(); more || ops[i].Err() != errConn {
					mc.Failf("request %d of %d ends with %v", i, n, ops[i].Err())
				}
			}
		case 3: // a batch, timed out after k calls
			for _, k := range []int{0, 1, n / 2, n - 1, n} {
				if k < 0 || k > n {
					continue
				}
				var calls []*rpc.Msg
				want := 0
				for i := 0; i < n; i++ {
					m := &rpc.Msg{Version: "2.0", Method: "a_b", ID: json.RawMessage(fmt.Sprint(i))}
					if i%4 == 2 {
						m.ID = nil
					} else {
						want++
					}
					calls = append(calls, m)
				}
				rec := newRecorder(0)
				b := rpc.NewBatch(append([]*rpc.Msg{}, calls...))
				for i := 0; i < k; i++ {
					m := b.Next()
					if m != calls[i] {
						mc.Failf("call %d of %d is handed out out of order", i, n)
					}
					if m.ID == nil {
						b.Push(nil)
					} else {
						b.Push(rpc.Respond(m, i))
					}
				}
				if k == n {
					if b.Next() != nil {
						mc.Failf("more than %d calls are handed out", n)
					}
					b.Write(&rec.conn)
				}
				b.Timeout(&rec.conn)
				if want == 0 {
					if len(rec.writes) != 0 {
						mc.Failf("an answer to a batch without calls")
					}
					continue
				}
				if len(rec.writes) != 1 {
					mc.Failf("%d writes for a batch of %d", len(rec.writes), n)
				}
				as := rpc.Msgs(rec.writes[0])
				if len(as) != want {
					mc.Failf("%d answers to %d calls, %d done in time", len(as), want, k)
				}
				j := 0
				for _, m := range calls {
					if m.ID == nil {
						continue
					}
					var i int
					fmt.Sscan(string(m.ID), &i)
					a := as[j]
					j++
					if string(a.ID) != string(m.ID) || (i < k) != (a.Error == nil) || i < k && string(a.Result) != string(m.ID) || i >= k && a.Error.Code != -32002 {
						mc.Failf("batch of %d, %d done in time: the answer to call %d is %s", n, k, i, a)
					}
				}
			}
		case 4: // a server
			srv := rpc.NewServer()
			closes := make([]int, n)
			conns := make([]*rpc.Conn0, n)
			for i := range conns {
				i := i
				conns[i] = &rpc.Conn0{OnClose: func() { closes[i]++ }}
				if !rpc.TrackCodec(srv, conns[i]) {
					mc.Failf("connection %d of %d is refused", i, n)
				}
			}
			gone := func(i int) bool { return i%3 == 1 || i == 0 || i == n-1 }
			for i := range conns {
				if gone(i) {
					rpc.UntrackCodec(srv, conns[i])
				}
			}
			srv.Stop()
			srv.Stop()
			for i := range conns {
				if want := map[bool]int{false: 1, true: 0}[gone(i)]; closes[i] != want {
					mc.Failf("connection %d of %d is closed %d times, want %d", i, n, closes[i], want)
				}
			}
		}
		mc.Outcome("done")
	}
}

func main() {
	mc.Main(func(thorough bool) []*mc.Scenario {
		var l []*mc.Scenario
		add := func(name string, body func()) { l = append(l, &mc.Scenario{Name: name, Body: body}) }
		np := []nprog{
			{threads: []int{2}, before: 1}, {threads: []int{1, 1}}, {threads: []int{2, 1}}, {threads: []int{1, 1}, before: 2},
			{threads: []int{2}, failAt: 1}, {threads: []int{1, 1}, before: 1, failAt: 2},
		}
		if thorough {
			np = append(np, nprog{threads: []int{2, 2}, before: 1}, nprog{threads: []int{1, 1, 1}}, nprog{threads: []int{3, 2}}, nprog{threads: []int{2, 2}, before: 2, failAt: 3})
		}
		for _, p := range np {
			add(p.String(), nbody(p))
		}
		add("early 1", earlyBody(1))
		add("early 2", earlyBody(2))
		add("create", createBody)
		sp := [][]string{{"1"}, {"1", "1"}, {"1", "2", "c"}, {"12", "c"}, {"c", "c"}, {"11", "1"}, {"t2", "c"}, {"2", "t", "c"}}
		if thorough {
			sp = append(sp, []string{"12", "21", "c"}, []string{"t2", "12", "c"}, []string{"t", "c", "c", "1"})
		}
		for _, p := range sp {
			add("subs "+strings.Join(p, " | "), subsBody(p))
		}
		add("callback", callbackBody)
		add("close 1", closeBody(1))
		add("close 2", closeBody(2))
		bp := []string{"c", "cc", "cn", "nc", "ccc", "n", "ncnc", ""}
		if thorough {
			bp = append(bp, "cccc", "cncnc", "nncc")
		}
		for _, k := range bp {
			for t := 0; t <= 2; t++ {
				add(fmt.Sprintf("batch %q timeouts%d", k, t), batchBody(k, t))
			}
		}
		vp := [][]string{{"t", "s"}, {"t", "t", "s"}, {"tu", "s"}, {"tu", "t", "s"}, {"t", "s", "s"}, {"tsu"}, {"tu", "t"}, {"ts", "st"}, {"tsu", "s"}}
		if thorough {
			vp = append(vp, []string{"tu", "t", "s", "s"}, []string{"tu", "tu", "s"}, []string{"t", "t", "ss", "st"})
		}
		for _, p := range vp {
			add("server "+strings.Join(p, " | "), serverBody(p))
		}
		for i, err := range []error{errConn, io.EOF} {
			for stop := 0; stop <= 2; stop++ {
				add(fmt.Sprintf("single error%d stop%d", i, stop), singleBody(err, stop))
			}
		}
		for k := 0; k <= 2; k++ {
			add(fmt.Sprintf("connection calls%d", k), connBody(k))
		}
		dense, max := 40, 520
		if thorough {
			dense, max = 130, 2100
		}
		l = append(l, &mc.Scenario{Name: fmt.Sprintf("0..%d and more, up to %d", dense, max), Body: manyBody(dense, max), MaxBound: -1, Steps: 4000000, Straight: true})
		l = append(l, &mc.Scenario{Name: "payloads", Body: payloadBody, MaxBound: -1, Straight: true})
		l = append(l, &mc.Scenario{Name: "errors", Body: errorsBody, MaxBound: -1, Straight: true})
		cp := [][]string{{"plain", "plain"}, {"context", "context"}, {"fail", "fail"}, {"plain", "context"}}
		if thorough {
			cp = append(cp, []string{"plain", "plain", "plain"}, []string{"context", "context", "fail"})
		}
		for _, p := range cp {
			add("calls "+strings.Join(p, " | "), callsBody(p))
		}
		add("registry", registryBody)
		add("ids", idsBody)
		return l
	})
}
