package rpc

// What package rpc refers to and does not (yet) have. Each of these is used
// only as long as the package has no declaration of the same name.

type PeerInfo struct{ Transport string }

type HTTPAuth func(h map[string][]string) error

type ClientSub = ClientSubscription

func (sub *ClientSubscription) requestUnsubscribe() error { return StubUnsubscribe(sub) }
