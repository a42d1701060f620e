//go:build sched && race && go1.21

// Package atomic is sync/atomic with a scheduling point before each operation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"github.com/stephen/cssc/verifharness/shim/sched"
)

var _ unsafe.Pointer

func LoadInt32(p *int32) int32          { sched.Global(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sched.Global(); real.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { sched.Global(); return real.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sched.Global(); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.Global()
	return real.CompareAndSwapInt32(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v real.Int32 }

func (a *Int32) Load() int32                    { sched.Global(); return a.v.Load() }
func (a *Int32) Store(v int32)                  { sched.Global(); a.v.Store(v) }
func (a *Int32) Add(v int32) int32              { sched.Global(); return a.v.Add(v) }
func (a *Int32) Swap(v int32) int32             { sched.Global(); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { sched.Global(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sched.Global(); real.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { sched.Global(); return real.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { sched.Global(); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.Global()
	return real.CompareAndSwapInt64(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v real.Int64 }

func (a *Int64) Load() int64                    { sched.Global(); return a.v.Load() }
func (a *Int64) Store(v int64)                  { sched.Global(); a.v.Store(v) }
func (a *Int64) Add(v int64) int64              { sched.Global(); return a.v.Add(v) }
func (a *Int64) Swap(v int64) int64             { sched.Global(); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { sched.Global(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sched.Global(); real.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { sched.Global(); return real.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { sched.Global(); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.Global()
	return real.CompareAndSwapUint32(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v real.Uint32 }

func (a *Uint32) Load() uint32                    { sched.Global(); return a.v.Load() }
func (a *Uint32) Store(v uint32)                  { sched.Global(); a.v.Store(v) }
func (a *Uint32) Add(v uint32) uint32             { sched.Global(); return a.v.Add(v) }
func (a *Uint32) Swap(v uint32) uint32            { sched.Global(); return a.v.Swap(v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { sched.Global(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sched.Global(); real.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { sched.Global(); return real.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { sched.Global(); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.Global()
	return real.CompareAndSwapUint64(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v real.Uint64 }

func (a *Uint64) Load() uint64                    { sched.Global(); return a.v.Load() }
func (a *Uint64) Store(v uint64)                  { sched.Global(); a.v.Store(v) }
func (a *Uint64) Add(v uint64) uint64             { sched.Global(); return a.v.Add(v) }
func (a *Uint64) Swap(v uint64) uint64            { sched.Global(); return a.v.Swap(v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { sched.Global(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { sched.Global(); real.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { sched.Global(); return real.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sched.Global(); return real.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.Global()
	return real.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v real.Uintptr }

func (a *Uintptr) Load() uintptr                    { sched.Global(); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)                  { sched.Global(); a.v.Store(v) }
func (a *Uintptr) Add(v uintptr) uintptr            { sched.Global(); return a.v.Add(v) }
func (a *Uintptr) Swap(v uintptr) uintptr           { sched.Global(); return a.v.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }

// Bool is atomic.Bool.
type Bool struct{ v real.Bool }

func (a *Bool) Load() bool                    { sched.Global(); return a.v.Load() }
func (a *Bool) Store(v bool)                  { sched.Global(); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool              { sched.Global(); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ v real.Value }

func (a *Value) Load() interface{}              { sched.Global(); return a.v.Load() }
func (a *Value) Store(v interface{})            { sched.Global(); a.v.Store(v) }
func (a *Value) Swap(v interface{}) interface{} { sched.Global(); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n interface{}) bool {
	sched.Global()
	return a.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v real.Pointer[T] }

func (a *Pointer[T]) Load() *T                    { sched.Global(); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)                  { sched.Global(); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T                { sched.Global(); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.Global(); return a.v.CompareAndSwap(o, n) }
