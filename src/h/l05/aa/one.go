package aa

import "github.com/go-stack/stack"

//go:noinline
func One() (stack.Call, stack.Call) {
	a := stack.Caller(0)
	b := stack.Caller(0)
	return a, b
}
