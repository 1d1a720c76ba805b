// Package vatomic stands in for sync/atomic under the controlled scheduler.
package vatomic

import (
	"unsafe"

	"github.com/browles/drip/zzv/rt/vs"
)

func pt(p unsafe.Pointer) {
	vs.Point("atomic")
	vs.RaceAcquire(p)
	vs.RaceReleaseMerge(p)
}

type noCopy struct{}

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool       { pt(unsafe.Pointer(&x.v)); return x.v != 0 }
func (x *Bool) Store(b bool)     { pt(unsafe.Pointer(&x.v)); x.v = b2u(b) }
func (x *Bool) Swap(b bool) bool { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = b2u(b); return o != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != b2u(o) {
		return false
	}
	x.v = b2u(n)
	return true
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Pointer[T]) Store(p *T)   { pt(unsafe.Pointer(&x.v)); x.v = p }
func (x *Pointer[T]) Swap(p *T) *T { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = p; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

type Value struct{ v any }

func (x *Value) Load() any { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Value) Store(p any) {
	pt(unsafe.Pointer(&x.v))
	if p == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = p
}
func (x *Value) Swap(p any) any { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = p; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(unsafe.Pointer(p)); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Int32) Store(v int32)      { pt(unsafe.Pointer(&x.v)); x.v = v }
func (x *Int32) Swap(v int32) int32 { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Int32) Add(d int32) int32  { pt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Int32) And(d int32) int32  { pt(unsafe.Pointer(&x.v)); o := x.v; x.v &= d; return o }
func (x *Int32) Or(d int32) int32   { pt(unsafe.Pointer(&x.v)); o := x.v; x.v |= d; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
func LoadInt32(p *int32) int32          { pt(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)      { pt(unsafe.Pointer(p)); *p = v }
func SwapInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AddInt32(p *int32, d int32) int32  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndInt32(p *int32, d int32) int32  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrInt32(p *int32, d int32) int32   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Int64) Store(v int64)      { pt(unsafe.Pointer(&x.v)); x.v = v }
func (x *Int64) Swap(v int64) int64 { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Int64) Add(d int64) int64  { pt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Int64) And(d int64) int64  { pt(unsafe.Pointer(&x.v)); o := x.v; x.v &= d; return o }
func (x *Int64) Or(d int64) int64   { pt(unsafe.Pointer(&x.v)); o := x.v; x.v |= d; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
func LoadInt64(p *int64) int64          { pt(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64)      { pt(unsafe.Pointer(p)); *p = v }
func SwapInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AddInt64(p *int64, d int64) int64  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndInt64(p *int64, d int64) int64  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrInt64(p *int64, d int64) int64   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Uint32) Store(v uint32)       { pt(unsafe.Pointer(&x.v)); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Uint32) Add(d uint32) uint32  { pt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Uint32) And(d uint32) uint32  { pt(unsafe.Pointer(&x.v)); o := x.v; x.v &= d; return o }
func (x *Uint32) Or(d uint32) uint32   { pt(unsafe.Pointer(&x.v)); o := x.v; x.v |= d; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
func LoadUint32(p *uint32) uint32           { pt(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32)       { pt(unsafe.Pointer(p)); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AddUint32(p *uint32, d uint32) uint32  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndUint32(p *uint32, d uint32) uint32  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrUint32(p *uint32, d uint32) uint32   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Uint64) Store(v uint64)       { pt(unsafe.Pointer(&x.v)); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Uint64) Add(d uint64) uint64  { pt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Uint64) And(d uint64) uint64  { pt(unsafe.Pointer(&x.v)); o := x.v; x.v &= d; return o }
func (x *Uint64) Or(d uint64) uint64   { pt(unsafe.Pointer(&x.v)); o := x.v; x.v |= d; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
func LoadUint64(p *uint64) uint64           { pt(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64)       { pt(unsafe.Pointer(p)); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AddUint64(p *uint64, d uint64) uint64  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndUint64(p *uint64, d uint64) uint64  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrUint64(p *uint64, d uint64) uint64   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { pt(unsafe.Pointer(&x.v)); return x.v }
func (x *Uintptr) Store(v uintptr)        { pt(unsafe.Pointer(&x.v)); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { pt(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }
func (x *Uintptr) Add(d uintptr) uintptr  { pt(unsafe.Pointer(&x.v)); x.v += d; return x.v }
func (x *Uintptr) And(d uintptr) uintptr  { pt(unsafe.Pointer(&x.v)); o := x.v; x.v &= d; return o }
func (x *Uintptr) Or(d uintptr) uintptr   { pt(unsafe.Pointer(&x.v)); o := x.v; x.v |= d; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pt(unsafe.Pointer(&x.v))
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
func LoadUintptr(p *uintptr) uintptr            { pt(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { pt(unsafe.Pointer(p)); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(unsafe.Pointer(p)); *p += d; return *p }
func AndUintptr(p *uintptr, d uintptr) uintptr  { pt(unsafe.Pointer(p)); o := *p; *p &= d; return o }
func OrUintptr(p *uintptr, d uintptr) uintptr   { pt(unsafe.Pointer(p)); o := *p; *p |= d; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}
