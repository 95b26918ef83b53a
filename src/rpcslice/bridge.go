package rpc

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
)

// This file opens the parts of the package to the harnesses. It only wraps.

// StubUnsubscribe stands for the call that tells the server.
var StubUnsubscribe = func(sub *ClientSubscription) error { return nil }

// ---- messages ----

type Msg = jsonrpcMessage

func IsNotification(m *Msg) bool           { return m.isNotification() }
func IsCall(m *Msg) bool                   { return m.isCall() }
func IsResponse(m *Msg) bool               { return m.isResponse() }
func IsSubscribe(m *Msg) bool              { return m.isSubscribe() }
func IsUnsubscribe(m *Msg) bool            { return m.isUnsubscribe() }
func Namespace(m *Msg) string              { return m.namespace() }
func Respond(m *Msg, res interface{}) *Msg { return m.response(res) }
func RespondError(m *Msg, err error) *Msg  { return m.errResponse(err) }
func ErrorMsg(err error) *Msg              { return errorMessage(err) }

type JSONError = jsonError

// BuiltinErrors are the package's own errors with the code each must carry.
func BuiltinErrors() map[int][]error {
	return map[int][]error{
		-32601: {&methodNotFoundError{"x"}, &subscriptionNotFoundError{"a", "b"}},
		-32700: {&parseError{"p"}, &invalidMessageError{"q"}},
		-32600: {&invalidRequestError{"r"}},
		-32602: {&invalidParamsError{"s"}},
		-4711:  {&internalServerError{-4711, "t"}},
	}
}

// ---- ids ----

func EncodeID(b []byte) ID    { return encodeID(b) }
func IDGenerator() func() ID  { return randomIDGenerator() }
func LogID(raw string) string { return idForLog{json.RawMessage(raw)}.String() }

// ---- connections ----

// Conn0 is a connection that records what is written to it.
type Conn0 struct {
	Remote  string
	OnWrite func(msg interface{}, isError bool) error
	OnClose func()
	OnRead  func() error
	ch      chan interface{}
}

func (c *Conn0) writeJSON(ctx context.Context, msg interface{}, isError bool) error {
	return c.OnWrite(msg, isError)
}
func (c *Conn0) closed() <-chan interface{} { return c.ch }
func (c *Conn0) remoteAddr() string         { return c.Remote }
func (c *Conn0) peerInfo() PeerInfo         { return PeerInfo{} }
func (c *Conn0) readBatch() ([]*jsonrpcMessage, bool, error) {
	if c.OnRead != nil {
		return []*jsonrpcMessage{{}}, false, c.OnRead()
	}
	return nil, false, fmt.Errorf("nothing to read")
}
func (c *Conn0) close() {
	if c.OnClose != nil {
		c.OnClose()
	}
}

// ---- services ----

type Registry struct{ R *serviceRegistry }

func NewRegistry() Registry             { return Registry{new(serviceRegistry)} }
func ServerRegistry(s *Server) Registry { return Registry{&s.services} }
func ServerModules(s *Server) map[string]string {
	return (&RPCService{s}).Modules()
}

func (r Registry) Register(name string, rcvr interface{}) error { return r.R.registerName(name, rcvr) }

// Callback is a registered method.
type Callback struct{ C *callback }

func (r Registry) Callback(method string) *Callback {
	if c := r.R.callback(method); c != nil {
		return &Callback{c}
	}
	return nil
}

func (r Registry) Subscription(service, name string) *Callback {
	if c := r.R.subscription(service, name); c != nil {
		return &Callback{c}
	}
	return nil
}

func (c *Callback) ArgTypes() []reflect.Type { return c.C.argTypes }
func (c *Callback) IsSubscribe() bool        { return c.C.isSubscribe }
func (c *Callback) Call(ctx context.Context, method string, args ...interface{}) (interface{}, error) {
	var l []reflect.Value
	for i, a := range args {
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(c.C.argTypes[i])
		}
		l = append(l, v)
	}
	return c.C.call(ctx, method, l)
}

// ---- handler ----

type Handler struct{ H *handler }

func NewH(ctx context.Context, c *Conn0, idgen func() ID, r Registry) Handler {
	return Handler{NewHandler(ctx, c, idgen, r.R)}
}

// Op is a request that waits for its responses.
type Op struct{ O *requestOp }

func NewOp(ids ...string) Op {
	o := &requestOp{resp: make(chan *jsonrpcMessage, len(ids))}
	for _, id := range ids {
		o.ids = append(o.ids, json.RawMessage(id))
	}
	return Op{o}
}

func NewSubOp(id string, sub *ClientSubscription) Op {
	o := NewOp(id)
	o.O.sub = sub
	return o
}

func (o Op) Err() error        { return o.O.err }
func (o Op) Resp() <-chan *Msg { return o.O.resp }
func (h Handler) Add(o Op)     { h.H.addRequestOp(o.O) }
func (h Handler) Remove(o Op)  { h.H.removeRequestOp(o.O) }
func (h Handler) Response(m *Msg) {
	h.H.handleResponse(m)
}
func (h Handler) Notification(m *Msg) { h.H.handleSubscriptionResult(m) }
func (h Handler) CancelAll(err error, inflight *Op) {
	if inflight == nil {
		h.H.cancelAllRequests(err, nil)
	} else {
		h.H.cancelAllRequests(err, inflight.O)
	}
}
func (h Handler) Close(err error) { h.H.close(err, nil) }
func (h Handler) Start(f func(ctx context.Context)) {
	h.H.startCallProc(func(cp *callProc) { f(cp.ctx) })
}
func (h Handler) Run(ctx context.Context, m *Msg, c *Callback, args ...reflect.Value) *Msg {
	return h.H.runMethod(ctx, m, c.C, args)
}
func (h Handler) Track(ns ...*Notifier)           { h.H.addSubscriptions(ns) }
func (h Handler) CancelSubscriptions(err error)   { h.H.cancelServerSubscriptions(err) }
func (h Handler) Unsubscribe(id ID) (bool, error) { return h.H.unsubscribe(context.Background(), id) }
func (h Handler) UnsubscribeCallback() *Callback  { return &Callback{h.H.unsubscribeCb} }
func (h Handler) Pending() (requests, clientSubs, serverSubs int) {
	return len(h.H.respWait), len(h.H.clientSubs), len(h.H.serverSubs)
}

// ---- server side subscriptions ----

func (h Handler) NewNotifier(namespace string) *Notifier {
	return &Notifier{h: h.H, namespace: namespace}
}
func Activate(n *Notifier) error                 { return n.activate() }
func TakeSubscription(n *Notifier) *Subscription { return n.takeSubscription() }

// ---- client side subscriptions ----

func NewClientSub(namespace string, ch interface{}) *ClientSubscription {
	return newClientSubscription(new(Client), namespace, reflect.ValueOf(ch))
}
func RunSub(s *ClientSubscription)                      { s.run() }
func DeliverSub(s *ClientSubscription, raw string) bool { return s.deliver(json.RawMessage(raw)) }
func CloseSub(s *ClientSubscription, err error)         { s.close(err) }
func SubID(s *ClientSubscription) string                { return s.subid }

// ---- batches ----

type Batch struct{ B *batchCallBuffer }

func NewBatch(calls []*Msg) Batch {
	return Batch{&batchCallBuffer{calls: calls, resp: make([]*jsonrpcMessage, 0, len(calls))}}
}
func (b Batch) Next() *Msg       { return b.B.nextCall() }
func (b Batch) Push(m *Msg)      { b.B.pushResponse(m) }
func (b Batch) Timeout(c *Conn0) { b.B.timeout(context.Background(), c) }
func (b Batch) Write(c *Conn0) {
	b.B.mutex.Lock()
	defer b.B.mutex.Unlock()
	b.B.doWrite(context.Background(), c, false)
}
func Msgs(x interface{}) []*Msg { l, _ := x.([]*jsonrpcMessage); return l }

// ---- server ----

func TrackCodec(s *Server, c *Conn0) bool { return s.trackCodec(c) }
func UntrackCodec(s *Server, c *Conn0)    { s.untrackCodec(c) }
func ServeSingle(ctx context.Context, s *Server, c *Conn0) {
	s.serveSingleRequest(ctx, c)
}

// CloseConn closes a client's connection.
func CloseConn(h Handler, c *Conn0, err error) { (&clientConn{c, h.H}).close(err, nil) }
