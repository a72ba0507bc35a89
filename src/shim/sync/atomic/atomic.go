//go:build go1.21

// Package atomic: yield points before the real atomic operations.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/hsiaosiyuan0/mole/zzsim/sim"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sim.Y(0); return x.v.Load() }
func (x *Int32) Store(n int32)                  { sim.Y(0); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { sim.Y(0); return x.v.Swap(n) }
func (x *Int32) Add(d int32) int32              { sim.Y(0); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { sim.Y(0); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { sim.Y(0); return x.v.Or(d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { sim.Y(0); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { sim.Y(0); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { sim.Y(0); return atomic.SwapInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { sim.Y(0); return atomic.AddInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sim.Y(0)
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sim.Y(0); return x.v.Load() }
func (x *Int64) Store(n int64)                  { sim.Y(0); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { sim.Y(0); return x.v.Swap(n) }
func (x *Int64) Add(d int64) int64              { sim.Y(0); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { sim.Y(0); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { sim.Y(0); return x.v.Or(d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { sim.Y(0); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { sim.Y(0); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { sim.Y(0); return atomic.SwapInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { sim.Y(0); return atomic.AddInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sim.Y(0)
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sim.Y(0); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { sim.Y(0); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { sim.Y(0); return x.v.Swap(n) }
func (x *Uint32) Add(d uint32) uint32             { sim.Y(0); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { sim.Y(0); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { sim.Y(0); return x.v.Or(d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { sim.Y(0); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { sim.Y(0); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { sim.Y(0); return atomic.SwapUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { sim.Y(0); return atomic.AddUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sim.Y(0)
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sim.Y(0); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { sim.Y(0); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { sim.Y(0); return x.v.Swap(n) }
func (x *Uint64) Add(d uint64) uint64             { sim.Y(0); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { sim.Y(0); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { sim.Y(0); return x.v.Or(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { sim.Y(0); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { sim.Y(0); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { sim.Y(0); return atomic.SwapUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { sim.Y(0); return atomic.AddUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sim.Y(0)
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { sim.Y(0); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { sim.Y(0); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { sim.Y(0); return x.v.Swap(n) }
func (x *Uintptr) Add(d uintptr) uintptr            { sim.Y(0); return x.v.Add(d) }
func (x *Uintptr) And(d uintptr) uintptr            { sim.Y(0); return x.v.And(d) }
func (x *Uintptr) Or(d uintptr) uintptr             { sim.Y(0); return x.v.Or(d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { sim.Y(0); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { sim.Y(0); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { sim.Y(0); return atomic.SwapUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr  { sim.Y(0); return atomic.AddUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sim.Y(0)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sim.Y(0); return x.v.Load() }
func (x *Bool) Store(n bool)                  { sim.Y(0); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { sim.Y(0); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { sim.Y(0); return x.v.Load() }
func (x *Value) Store(n any)                  { sim.Y(0); x.v.Store(n) }
func (x *Value) Swap(n any) any               { sim.Y(0); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sim.Y(0); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { sim.Y(0); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { sim.Y(0); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sim.Y(0); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sim.Y(0); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { sim.Y(0); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	sim.Y(0)
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sim.Y(0)
	return atomic.CompareAndSwapPointer(p, o, n)
}
