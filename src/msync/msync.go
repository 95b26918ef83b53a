// Package msync is package sync under the controlled scheduler.
package msync

import "flychain/zzmc/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	Locker    = mc.Locker
	Once      = mc.Once
	Cond      = mc.Cond
	WaitGroup = mc.WaitGroup
	Map       = mc.Map
	Pool      = mc.Pool
)

func NewCond(l Locker) *Cond                             { return mc.NewCond(l) }
func OnceFunc(f func()) func()                           { return mc.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return mc.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return mc.OnceValues(f) }
