// Package vatomic stands in for package sync/atomic in the instrumented copy of the library: other threads may run before
// each operation, even between two operations of one statement.
//
// Written by tools/mkvatomic.py.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/zzverif/zzsched"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { zzsched.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { zzsched.Point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { zzsched.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(v int32) int32              { zzsched.Point(); return x.v.Add(v) }
func (x *Int32) And(v int32) int32              { zzsched.Point(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { zzsched.Point(); return x.v.Or(v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { zzsched.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { zzsched.Point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { zzsched.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(v int64) int64              { zzsched.Point(); return x.v.Add(v) }
func (x *Int64) And(v int64) int64              { zzsched.Point(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { zzsched.Point(); return x.v.Or(v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { zzsched.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { zzsched.Point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { zzsched.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(v uint32) uint32             { zzsched.Point(); return x.v.Add(v) }
func (x *Uint32) And(v uint32) uint32             { zzsched.Point(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { zzsched.Point(); return x.v.Or(v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { zzsched.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { zzsched.Point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { zzsched.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(v uint64) uint64             { zzsched.Point(); return x.v.Add(v) }
func (x *Uint64) And(v uint64) uint64             { zzsched.Point(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { zzsched.Point(); return x.v.Or(v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { zzsched.Point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { zzsched.Point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { zzsched.Point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(v uintptr) uintptr            { zzsched.Point(); return x.v.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr            { zzsched.Point(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { zzsched.Point(); return x.v.Or(v) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { zzsched.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { zzsched.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { zzsched.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { zzsched.Point(); return x.v.Load() }
func (x *Value) Store(v any)                  { zzsched.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { zzsched.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { zzsched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { zzsched.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { zzsched.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { zzsched.Point(); return x.v.CompareAndSwap(a, b) }

func LoadInt32(p *int32) int32          { zzsched.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { zzsched.Point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { zzsched.Point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	zzsched.Point()
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, v int32) int32 { zzsched.Point(); return atomic.AddInt32(p, v) }
func AndInt32(p *int32, v int32) int32 { zzsched.Point(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32  { zzsched.Point(); return atomic.OrInt32(p, v) }

func LoadInt64(p *int64) int64          { zzsched.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { zzsched.Point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { zzsched.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	zzsched.Point()
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, v int64) int64 { zzsched.Point(); return atomic.AddInt64(p, v) }
func AndInt64(p *int64, v int64) int64 { zzsched.Point(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64  { zzsched.Point(); return atomic.OrInt64(p, v) }

func LoadUint32(p *uint32) uint32           { zzsched.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { zzsched.Point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { zzsched.Point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	zzsched.Point()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, v uint32) uint32 { zzsched.Point(); return atomic.AddUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32 { zzsched.Point(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { zzsched.Point(); return atomic.OrUint32(p, v) }

func LoadUint64(p *uint64) uint64           { zzsched.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { zzsched.Point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { zzsched.Point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	zzsched.Point()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, v uint64) uint64 { zzsched.Point(); return atomic.AddUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64 { zzsched.Point(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { zzsched.Point(); return atomic.OrUint64(p, v) }

func LoadUintptr(p *uintptr) uintptr            { zzsched.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { zzsched.Point(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { zzsched.Point(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	zzsched.Point()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, v uintptr) uintptr { zzsched.Point(); return atomic.AddUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr { zzsched.Point(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { zzsched.Point(); return atomic.OrUintptr(p, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { zzsched.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { zzsched.Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	zzsched.Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	zzsched.Point()
	return atomic.CompareAndSwapPointer(p, a, b)
}
