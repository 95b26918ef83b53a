// Package matomic is package sync/atomic under the controlled scheduler.
package matomic

import (
	"sync/atomic"
	"unsafe"

	"flychain/zzmc/mc"
)

func LoadInt32(p *int32) int32 {
	mc.Atomic(unsafe.Pointer(p), "Load", true)
	return atomic.LoadInt32(p)
}

func StoreInt32(p *int32, v int32) {
	mc.Atomic(unsafe.Pointer(p), "Store", false)
	atomic.StoreInt32(p, v)
}

func AddInt32(p *int32, d int32) int32 {
	mc.Atomic(unsafe.Pointer(p), "Add", false)
	return atomic.AddInt32(p, d)
}

func SwapInt32(p *int32, v int32) int32 {
	mc.Atomic(unsafe.Pointer(p), "Swap", false)
	return atomic.SwapInt32(p, v)
}

func CompareAndSwapInt32(p *int32, o, n int32) bool {
	mc.Atomic(unsafe.Pointer(p), "CompareAndSwap", false)
	return atomic.CompareAndSwapInt32(p, o, n)
}

func AndInt32(p *int32, m int32) int32 {
	mc.Atomic(unsafe.Pointer(p), "And", false)
	return atomic.AndInt32(p, m)
}

func OrInt32(p *int32, m int32) int32 {
	mc.Atomic(unsafe.Pointer(p), "Or", false)
	return atomic.OrInt32(p, m)
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64 {
	mc.Atomic(unsafe.Pointer(p), "Load", true)
	return atomic.LoadInt64(p)
}

func StoreInt64(p *int64, v int64) {
	mc.Atomic(unsafe.Pointer(p), "Store", false)
	atomic.StoreInt64(p, v)
}

func AddInt64(p *int64, d int64) int64 {
	mc.Atomic(unsafe.Pointer(p), "Add", false)
	return atomic.AddInt64(p, d)
}

func SwapInt64(p *int64, v int64) int64 {
	mc.Atomic(unsafe.Pointer(p), "Swap", false)
	return atomic.SwapInt64(p, v)
}

func CompareAndSwapInt64(p *int64, o, n int64) bool {
	mc.Atomic(unsafe.Pointer(p), "CompareAndSwap", false)
	return atomic.CompareAndSwapInt64(p, o, n)
}

func AndInt64(p *int64, m int64) int64 {
	mc.Atomic(unsafe.Pointer(p), "And", false)
	return atomic.AndInt64(p, m)
}

func OrInt64(p *int64, m int64) int64 {
	mc.Atomic(unsafe.Pointer(p), "Or", false)
	return atomic.OrInt64(p, m)
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }

func LoadUint32(p *uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), "Load", true)
	return atomic.LoadUint32(p)
}

func StoreUint32(p *uint32, v uint32) {
	mc.Atomic(unsafe.Pointer(p), "Store", false)
	atomic.StoreUint32(p, v)
}

func AddUint32(p *uint32, d uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), "Add", false)
	return atomic.AddUint32(p, d)
}

func SwapUint32(p *uint32, v uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), "Swap", false)
	return atomic.SwapUint32(p, v)
}

func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	mc.Atomic(unsafe.Pointer(p), "CompareAndSwap", false)
	return atomic.CompareAndSwapUint32(p, o, n)
}

func AndUint32(p *uint32, m uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), "And", false)
	return atomic.AndUint32(p, m)
}

func OrUint32(p *uint32, m uint32) uint32 {
	mc.Atomic(unsafe.Pointer(p), "Or", false)
	return atomic.OrUint32(p, m)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), "Load", true)
	return atomic.LoadUint64(p)
}

func StoreUint64(p *uint64, v uint64) {
	mc.Atomic(unsafe.Pointer(p), "Store", false)
	atomic.StoreUint64(p, v)
}

func AddUint64(p *uint64, d uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), "Add", false)
	return atomic.AddUint64(p, d)
}

func SwapUint64(p *uint64, v uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), "Swap", false)
	return atomic.SwapUint64(p, v)
}

func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	mc.Atomic(unsafe.Pointer(p), "CompareAndSwap", false)
	return atomic.CompareAndSwapUint64(p, o, n)
}

func AndUint64(p *uint64, m uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), "And", false)
	return atomic.AndUint64(p, m)
}

func OrUint64(p *uint64, m uint64) uint64 {
	mc.Atomic(unsafe.Pointer(p), "Or", false)
	return atomic.OrUint64(p, m)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), "Load", true)
	return atomic.LoadUintptr(p)
}

func StoreUintptr(p *uintptr, v uintptr) {
	mc.Atomic(unsafe.Pointer(p), "Store", false)
	atomic.StoreUintptr(p, v)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), "Add", false)
	return atomic.AddUintptr(p, d)
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), "Swap", false)
	return atomic.SwapUintptr(p, v)
}

func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	mc.Atomic(unsafe.Pointer(p), "CompareAndSwap", false)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), "And", false)
	return atomic.AndUintptr(p, m)
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	mc.Atomic(unsafe.Pointer(p), "Or", false)
	return atomic.OrUintptr(p, m)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	mc.Atomic(unsafe.Pointer(p), "Load", true)
	return atomic.LoadPointer(p)
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	mc.Atomic(unsafe.Pointer(p), "Store", false)
	atomic.StorePointer(p, v)
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	mc.Atomic(unsafe.Pointer(p), "Swap", false)
	return atomic.SwapPointer(p, v)
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	mc.Atomic(unsafe.Pointer(p), "CompareAndSwap", false)
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool {
	mc.Atomic(unsafe.Pointer(x), "Load", true)
	return x.v.Load()
}

func (x *Bool) Store(v bool) {
	mc.Atomic(unsafe.Pointer(x), "Store", false)
	x.v.Store(v)
}

func (x *Bool) Swap(v bool) bool {
	mc.Atomic(unsafe.Pointer(x), "Swap", false)
	return x.v.Swap(v)
}

func (x *Bool) CompareAndSwap(o, n bool) bool {
	mc.Atomic(unsafe.Pointer(x), "CompareAndSwap", false)
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	mc.Atomic(unsafe.Pointer(x), "Load", true)
	return x.v.Load()
}

func (x *Pointer[T]) Store(v *T) {
	mc.Atomic(unsafe.Pointer(x), "Store", false)
	x.v.Store(v)
}

func (x *Pointer[T]) Swap(v *T) *T {
	mc.Atomic(unsafe.Pointer(x), "Swap", false)
	return x.v.Swap(v)
}

func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	mc.Atomic(unsafe.Pointer(x), "CompareAndSwap", false)
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{} {
	mc.Atomic(unsafe.Pointer(x), "Load", true)
	return x.v.Load()
}

func (x *Value) Store(v interface{}) {
	mc.Atomic(unsafe.Pointer(x), "Store", false)
	x.v.Store(v)
}

func (x *Value) Swap(v interface{}) interface{} {
	mc.Atomic(unsafe.Pointer(x), "Swap", false)
	return x.v.Swap(v)
}

func (x *Value) CompareAndSwap(o, n interface{}) bool {
	mc.Atomic(unsafe.Pointer(x), "CompareAndSwap", false)
	return x.v.CompareAndSwap(o, n)
}
