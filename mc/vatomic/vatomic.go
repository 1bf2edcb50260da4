// Package vatomic stands in for sync/atomic in instrumented code. Generated by hand-written script; every
// operation is a scheduling point followed by the real operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/mc/vsched"
)

func LoadInt32(p *int32) int32     { vsched.Atomic(unsafe.Pointer(p), true); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32) { vsched.Atomic(unsafe.Pointer(p), false); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AddInt32(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Int32) Store(v int32)      { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

func (x *Int32) And(v int32) int32 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.And(v) }
func (x *Int32) Or(v int32) int32  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Or(v) }
func AndInt32(p *int32, v int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AndInt32(p, v)
}
func OrInt32(p *int32, v int32) int32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.OrInt32(p, v)
}

func LoadInt64(p *int64) int64     { vsched.Atomic(unsafe.Pointer(p), true); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64) { vsched.Atomic(unsafe.Pointer(p), false); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AddInt64(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Int64) Store(v int64)      { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

func (x *Int64) And(v int64) int64 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.And(v) }
func (x *Int64) Or(v int64) int64  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Or(v) }
func AndInt64(p *int64, v int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AndInt64(p, v)
}
func OrInt64(p *int64, v int64) int64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.OrInt64(p, v)
}

func LoadUint32(p *uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), true)
	return atomic.LoadUint32(p)
}
func StoreUint32(p *uint32, v uint32) {
	vsched.Atomic(unsafe.Pointer(p), false)
	atomic.StoreUint32(p, v)
}
func AddUint32(p *uint32, v uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AddUint32(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

func (x *Uint32) And(v uint32) uint32 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Or(v) }
func AndUint32(p *uint32, v uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AndUint32(p, v)
}
func OrUint32(p *uint32, v uint32) uint32 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.OrUint32(p, v)
}

func LoadUint64(p *uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), true)
	return atomic.LoadUint64(p)
}
func StoreUint64(p *uint64, v uint64) {
	vsched.Atomic(unsafe.Pointer(p), false)
	atomic.StoreUint64(p, v)
}
func AddUint64(p *uint64, v uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AddUint64(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

func (x *Uint64) And(v uint64) uint64 { vsched.Atomic(unsafe.Pointer(x), false); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Or(v) }
func AndUint64(p *uint64, v uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AndUint64(p, v)
}
func OrUint64(p *uint64, v uint64) uint64 {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.OrUint64(p, v)
}

func LoadUintptr(p *uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), true)
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	vsched.Atomic(unsafe.Pointer(p), false)
	atomic.StoreUintptr(p, v)
}
func AddUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AddUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr         { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)       { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.Swap(v)
}
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

func (x *Uintptr) And(v uintptr) uintptr { vsched.Atomic(unsafe.Pointer(x), false); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr  { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Or(v) }
func AndUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.AndUintptr(p, v)
}
func OrUintptr(p *uintptr, v uintptr) uintptr {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.OrUintptr(p, v)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic(unsafe.Pointer(p), true)
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vsched.Atomic(unsafe.Pointer(p), false)
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Atomic(unsafe.Pointer(p), false)
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Bool) Store(v bool)     { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any      { vsched.Atomic(unsafe.Pointer(x), true); return x.v.Load() }
func (x *Value) Store(v any)    { vsched.Atomic(unsafe.Pointer(x), false); x.v.Store(v) }
func (x *Value) Swap(v any) any { vsched.Atomic(unsafe.Pointer(x), false); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	vsched.Atomic(unsafe.Pointer(x), false)
	return x.v.CompareAndSwap(o, n)
}
