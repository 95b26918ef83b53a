package aa

import "github.com/go-stack/stack"

//go:noinline
func Two() (stack.Call, stack.Call) {
	a := stack.Caller(0)
	b := stack.Caller(0)
	return a, b
}
