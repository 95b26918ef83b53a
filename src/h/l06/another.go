package main

import "github.com/go-stack/stack"

func otherSite() stack.Call { return stack.Caller(0) }
