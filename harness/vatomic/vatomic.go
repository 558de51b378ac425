// Package vatomic is sync/atomic with a scheduling point before every
// operation. The scheduled build of the checks uses it in place of
// sync/atomic in the packages under test.
package vatomic

import (
	"sync/atomic"
	"unsafe"
)

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                         { yield(); return x.v.Load() }
func (x *Bool) Store(val bool)                     { yield(); x.v.Store(val) }
func (x *Bool) Swap(n bool) bool                   { yield(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                         { yield(); return x.v.Load() }
func (x *Pointer[T]) Store(val *T)                     { yield(); x.v.Store(val) }
func (x *Pointer[T]) Swap(n *T) *T                     { yield(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                         { yield(); return x.v.Load() }
func (x *Value) Store(val any)                     { yield(); x.v.Store(val) }
func (x *Value) Swap(n any) any                    { yield(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }

func SwapPointer(addr *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	yield()
	return atomic.SwapPointer(addr, n)
}
func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	yield()
	return atomic.CompareAndSwapPointer(addr, o, n)
}
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer { yield(); return atomic.LoadPointer(addr) }
func StorePointer(addr *unsafe.Pointer, v unsafe.Pointer) {
	yield()
	atomic.StorePointer(addr, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                         { yield(); return x.v.Load() }
func (x *Int32) Store(val int32)                     { yield(); x.v.Store(val) }
func (x *Int32) Swap(n int32) int32                  { yield(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32                   { yield(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32                   { yield(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32                    { yield(); return x.v.Or(m) }

func LoadInt32(a *int32) int32          { yield(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { yield(); atomic.StoreInt32(a, v) }
func SwapInt32(a *int32, n int32) int32 { yield(); return atomic.SwapInt32(a, n) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	yield()
	return atomic.CompareAndSwapInt32(a, o, n)
}
func AddInt32(a *int32, d int32) int32 { yield(); return atomic.AddInt32(a, d) }
func AndInt32(a *int32, m int32) int32 { yield(); return atomic.AndInt32(a, m) }
func OrInt32(a *int32, m int32) int32  { yield(); return atomic.OrInt32(a, m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                         { yield(); return x.v.Load() }
func (x *Int64) Store(val int64)                     { yield(); x.v.Store(val) }
func (x *Int64) Swap(n int64) int64                  { yield(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64                   { yield(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64                   { yield(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64                    { yield(); return x.v.Or(m) }

func LoadInt64(a *int64) int64          { yield(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { yield(); atomic.StoreInt64(a, v) }
func SwapInt64(a *int64, n int64) int64 { yield(); return atomic.SwapInt64(a, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	yield()
	return atomic.CompareAndSwapInt64(a, o, n)
}
func AddInt64(a *int64, d int64) int64 { yield(); return atomic.AddInt64(a, d) }
func AndInt64(a *int64, m int64) int64 { yield(); return atomic.AndInt64(a, m) }
func OrInt64(a *int64, m int64) int64  { yield(); return atomic.OrInt64(a, m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                         { yield(); return x.v.Load() }
func (x *Uint32) Store(val uint32)                     { yield(); x.v.Store(val) }
func (x *Uint32) Swap(n uint32) uint32                 { yield(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32                  { yield(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32                  { yield(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32                   { yield(); return x.v.Or(m) }

func LoadUint32(a *uint32) uint32           { yield(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { yield(); atomic.StoreUint32(a, v) }
func SwapUint32(a *uint32, n uint32) uint32 { yield(); return atomic.SwapUint32(a, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	yield()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func AddUint32(a *uint32, d uint32) uint32 { yield(); return atomic.AddUint32(a, d) }
func AndUint32(a *uint32, m uint32) uint32 { yield(); return atomic.AndUint32(a, m) }
func OrUint32(a *uint32, m uint32) uint32  { yield(); return atomic.OrUint32(a, m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                         { yield(); return x.v.Load() }
func (x *Uint64) Store(val uint64)                     { yield(); x.v.Store(val) }
func (x *Uint64) Swap(n uint64) uint64                 { yield(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64                  { yield(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64                  { yield(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64                   { yield(); return x.v.Or(m) }

func LoadUint64(a *uint64) uint64           { yield(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { yield(); atomic.StoreUint64(a, v) }
func SwapUint64(a *uint64, n uint64) uint64 { yield(); return atomic.SwapUint64(a, n) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	yield()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func AddUint64(a *uint64, d uint64) uint64 { yield(); return atomic.AddUint64(a, d) }
func AndUint64(a *uint64, m uint64) uint64 { yield(); return atomic.AndUint64(a, m) }
func OrUint64(a *uint64, m uint64) uint64  { yield(); return atomic.OrUint64(a, m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                         { yield(); return x.v.Load() }
func (x *Uintptr) Store(val uintptr)                     { yield(); x.v.Store(val) }
func (x *Uintptr) Swap(n uintptr) uintptr                { yield(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) (ok bool) { yield(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr                 { yield(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr                 { yield(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr                  { yield(); return x.v.Or(m) }

func LoadUintptr(a *uintptr) uintptr            { yield(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { yield(); atomic.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, n uintptr) uintptr { yield(); return atomic.SwapUintptr(a, n) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	yield()
	return atomic.CompareAndSwapUintptr(a, o, n)
}
func AddUintptr(a *uintptr, d uintptr) uintptr { yield(); return atomic.AddUintptr(a, d) }
func AndUintptr(a *uintptr, m uintptr) uintptr { yield(); return atomic.AndUintptr(a, m) }
func OrUintptr(a *uintptr, m uintptr) uintptr  { yield(); return atomic.OrUintptr(a, m) }
