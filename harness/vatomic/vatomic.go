// Package vatomic stands in for sync/atomic in packages run under the scheduler: every operation is
// preceded and followed by a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/iand/starbow/internal/verifdrv/sched"
)

func LoadInt32(p *int32) int32          { sched.V(); v := atomic.LoadInt32(p); sched.Y(); return v }
func StoreInt32(p *int32, v int32)      { sched.V(); atomic.StoreInt32(p, v); sched.Y() }
func AddInt32(p *int32, d int32) int32  { sched.V(); v := atomic.AddInt32(p, d); sched.Y(); return v }
func SwapInt32(p *int32, n int32) int32 { sched.V(); v := atomic.SwapInt32(p, n); sched.Y(); return v }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sched.V()
	v := atomic.CompareAndSwapInt32(p, o, n)
	sched.Y()
	return v
}

type Int32 struct{ x atomic.Int32 }

func (a *Int32) Load() int32        { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Int32) Store(v int32)      { sched.V(); a.x.Store(v); sched.Y() }
func (a *Int32) Add(d int32) int32  { sched.V(); v := a.x.Add(d); sched.Y(); return v }
func (a *Int32) Swap(n int32) int32 { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Int32) CompareAndSwap(o, n int32) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

func LoadInt64(p *int64) int64          { sched.V(); v := atomic.LoadInt64(p); sched.Y(); return v }
func StoreInt64(p *int64, v int64)      { sched.V(); atomic.StoreInt64(p, v); sched.Y() }
func AddInt64(p *int64, d int64) int64  { sched.V(); v := atomic.AddInt64(p, d); sched.Y(); return v }
func SwapInt64(p *int64, n int64) int64 { sched.V(); v := atomic.SwapInt64(p, n); sched.Y(); return v }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sched.V()
	v := atomic.CompareAndSwapInt64(p, o, n)
	sched.Y()
	return v
}

type Int64 struct{ x atomic.Int64 }

func (a *Int64) Load() int64        { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Int64) Store(v int64)      { sched.V(); a.x.Store(v); sched.Y() }
func (a *Int64) Add(d int64) int64  { sched.V(); v := a.x.Add(d); sched.Y(); return v }
func (a *Int64) Swap(n int64) int64 { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Int64) CompareAndSwap(o, n int64) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

func LoadUint32(p *uint32) uint32     { sched.V(); v := atomic.LoadUint32(p); sched.Y(); return v }
func StoreUint32(p *uint32, v uint32) { sched.V(); atomic.StoreUint32(p, v); sched.Y() }
func AddUint32(p *uint32, d uint32) uint32 {
	sched.V()
	v := atomic.AddUint32(p, d)
	sched.Y()
	return v
}
func SwapUint32(p *uint32, n uint32) uint32 {
	sched.V()
	v := atomic.SwapUint32(p, n)
	sched.Y()
	return v
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sched.V()
	v := atomic.CompareAndSwapUint32(p, o, n)
	sched.Y()
	return v
}

type Uint32 struct{ x atomic.Uint32 }

func (a *Uint32) Load() uint32         { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Uint32) Store(v uint32)       { sched.V(); a.x.Store(v); sched.Y() }
func (a *Uint32) Add(d uint32) uint32  { sched.V(); v := a.x.Add(d); sched.Y(); return v }
func (a *Uint32) Swap(n uint32) uint32 { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Uint32) CompareAndSwap(o, n uint32) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

func LoadUint64(p *uint64) uint64     { sched.V(); v := atomic.LoadUint64(p); sched.Y(); return v }
func StoreUint64(p *uint64, v uint64) { sched.V(); atomic.StoreUint64(p, v); sched.Y() }
func AddUint64(p *uint64, d uint64) uint64 {
	sched.V()
	v := atomic.AddUint64(p, d)
	sched.Y()
	return v
}
func SwapUint64(p *uint64, n uint64) uint64 {
	sched.V()
	v := atomic.SwapUint64(p, n)
	sched.Y()
	return v
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sched.V()
	v := atomic.CompareAndSwapUint64(p, o, n)
	sched.Y()
	return v
}

type Uint64 struct{ x atomic.Uint64 }

func (a *Uint64) Load() uint64         { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Uint64) Store(v uint64)       { sched.V(); a.x.Store(v); sched.Y() }
func (a *Uint64) Add(d uint64) uint64  { sched.V(); v := a.x.Add(d); sched.Y(); return v }
func (a *Uint64) Swap(n uint64) uint64 { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Uint64) CompareAndSwap(o, n uint64) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

func LoadUintptr(p *uintptr) uintptr     { sched.V(); v := atomic.LoadUintptr(p); sched.Y(); return v }
func StoreUintptr(p *uintptr, v uintptr) { sched.V(); atomic.StoreUintptr(p, v); sched.Y() }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	sched.V()
	v := atomic.AddUintptr(p, d)
	sched.Y()
	return v
}
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	sched.V()
	v := atomic.SwapUintptr(p, n)
	sched.Y()
	return v
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sched.V()
	v := atomic.CompareAndSwapUintptr(p, o, n)
	sched.Y()
	return v
}

type Uintptr struct{ x atomic.Uintptr }

func (a *Uintptr) Load() uintptr          { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Uintptr) Store(v uintptr)        { sched.V(); a.x.Store(v); sched.Y() }
func (a *Uintptr) Add(d uintptr) uintptr  { sched.V(); v := a.x.Add(d); sched.Y(); return v }
func (a *Uintptr) Swap(n uintptr) uintptr { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

type Bool struct{ x atomic.Bool }

func (a *Bool) Load() bool       { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Bool) Store(v bool)     { sched.V(); a.x.Store(v); sched.Y() }
func (a *Bool) Swap(n bool) bool { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

type Value struct{ x atomic.Value }

func (a *Value) Load() interface{}              { sched.V(); v := a.x.Load(); sched.Y(); return v }
func (a *Value) Store(v interface{})            { sched.V(); a.x.Store(v); sched.Y() }
func (a *Value) Swap(n interface{}) interface{} { sched.V(); v := a.x.Swap(n); sched.Y(); return v }
func (a *Value) CompareAndSwap(o, n interface{}) bool {
	sched.V()
	v := a.x.CompareAndSwap(o, n)
	sched.Y()
	return v
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	sched.V()
	v := atomic.LoadPointer(p)
	sched.Y()
	return v
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	sched.V()
	atomic.StorePointer(p, v)
	sched.Y()
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	sched.V()
	v := atomic.SwapPointer(p, n)
	sched.Y()
	return v
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.V()
	v := atomic.CompareAndSwapPointer(p, o, n)
	sched.Y()
	return v
}
