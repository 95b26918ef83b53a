// Call sites with file names of many lengths.
package main

import "github.com/go-stack/stack"

var sites = []func() stack.Call{site0, site1, site2, site3, site4, site5, site6, site7, site8, site9, site10, site11}

//line f.go:10
func site0() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffff.go:100
func site1() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffffffffffffff.go:1000
func site2() stack.Call { return stack.Caller(0) }

//line fffffffffffffffffffffffffffffff.go:10000
func site3() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffffffffffffffff.go:10
func site4() stack.Call { return stack.Caller(0) }

//line fffffffffffffffffffffffffffffffff.go:100
func site5() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.go:1000
func site6() stack.Call { return stack.Caller(0) }

//line fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.go:10000
func site7() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.go:10
func site8() stack.Call { return stack.Caller(0) }

//line fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.go:100
func site9() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.go:1000
func site10() stack.Call { return stack.Caller(0) }

//line ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff.go:10000
func site11() stack.Call { return stack.Caller(0) }
