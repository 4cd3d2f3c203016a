// Package vatomic stands in for sync/atomic in maho: see vsync.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/harness/vsync"
)

type Value struct{ atomic.Value }

func (x *Value) Load() any {
	defer vsync.Pause(20)
	return x.Value.Load()
}

func (x *Value) Store(v any) {
	vsync.Pause(20)
	x.Value.Store(v)
}

type Pointer[T any] struct{ atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	defer vsync.Pause(20)
	return x.Pointer.Load()
}

func (x *Pointer[T]) Store(v *T) {
	vsync.Pause(20)
	x.Pointer.Store(v)
}

func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	vsync.Pause(20)
	return x.Pointer.CompareAndSwap(a, b)
}

type Bool struct{ atomic.Bool }

func (x *Bool) Load() bool {
	defer vsync.Pause(20)
	return x.Bool.Load()
}

func (x *Bool) Store(v bool) {
	vsync.Pause(20)
	x.Bool.Store(v)
}

func (x *Bool) CompareAndSwap(a, b bool) bool {
	vsync.Pause(20)
	return x.Bool.CompareAndSwap(a, b)
}

type Int32 struct{ atomic.Int32 }

func (x *Int32) Load() int32 {
	defer vsync.Pause(20)
	return x.Int32.Load()
}

func (x *Int32) Store(v int32) {
	vsync.Pause(20)
	x.Int32.Store(v)
}

func (x *Int32) CompareAndSwap(a, b int32) bool {
	vsync.Pause(20)
	return x.Int32.CompareAndSwap(a, b)
}

type Int64 struct{ atomic.Int64 }

func (x *Int64) Load() int64 {
	defer vsync.Pause(20)
	return x.Int64.Load()
}

func (x *Int64) Store(v int64) {
	vsync.Pause(20)
	x.Int64.Store(v)
}

func (x *Int64) CompareAndSwap(a, b int64) bool {
	vsync.Pause(20)
	return x.Int64.CompareAndSwap(a, b)
}

type Uint32 struct{ atomic.Uint32 }

func (x *Uint32) Load() uint32 {
	defer vsync.Pause(20)
	return x.Uint32.Load()
}

func (x *Uint32) Store(v uint32) {
	vsync.Pause(20)
	x.Uint32.Store(v)
}

func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	vsync.Pause(20)
	return x.Uint32.CompareAndSwap(a, b)
}

type Uint64 struct{ atomic.Uint64 }

func (x *Uint64) Load() uint64 {
	defer vsync.Pause(20)
	return x.Uint64.Load()
}

func (x *Uint64) Store(v uint64) {
	vsync.Pause(20)
	x.Uint64.Store(v)
}

func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	vsync.Pause(20)
	return x.Uint64.CompareAndSwap(a, b)
}

type Uintptr struct{ atomic.Uintptr }

func (x *Uintptr) Load() uintptr {
	defer vsync.Pause(20)
	return x.Uintptr.Load()
}

func (x *Uintptr) Store(v uintptr) {
	vsync.Pause(20)
	x.Uintptr.Store(v)
}

func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	vsync.Pause(20)
	return x.Uintptr.CompareAndSwap(a, b)
}

func LoadInt32(p *int32) int32 {
	defer vsync.Pause(20)
	return atomic.LoadInt32(p)
}

func StoreInt32(p *int32, v int32) {
	vsync.Pause(20)
	atomic.StoreInt32(p, v)
}

func SwapInt32(p *int32, v int32) int32 { return atomic.SwapInt32(p, v) }

func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsync.Pause(20)
	return atomic.CompareAndSwapInt32(p, a, b)
}

func AddInt32(p *int32, v int32) int32 { return atomic.AddInt32(p, v) }

func AndInt32(p *int32, v int32) int32 { return atomic.AndInt32(p, v) }

func OrInt32(p *int32, v int32) int32 { return atomic.OrInt32(p, v) }

func LoadInt64(p *int64) int64 {
	defer vsync.Pause(20)
	return atomic.LoadInt64(p)
}

func StoreInt64(p *int64, v int64) {
	vsync.Pause(20)
	atomic.StoreInt64(p, v)
}

func SwapInt64(p *int64, v int64) int64 { return atomic.SwapInt64(p, v) }

func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsync.Pause(20)
	return atomic.CompareAndSwapInt64(p, a, b)
}

func AddInt64(p *int64, v int64) int64 { return atomic.AddInt64(p, v) }

func AndInt64(p *int64, v int64) int64 { return atomic.AndInt64(p, v) }

func OrInt64(p *int64, v int64) int64 { return atomic.OrInt64(p, v) }

func LoadUint32(p *uint32) uint32 {
	defer vsync.Pause(20)
	return atomic.LoadUint32(p)
}

func StoreUint32(p *uint32, v uint32) {
	vsync.Pause(20)
	atomic.StoreUint32(p, v)
}

func SwapUint32(p *uint32, v uint32) uint32 { return atomic.SwapUint32(p, v) }

func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsync.Pause(20)
	return atomic.CompareAndSwapUint32(p, a, b)
}

func AddUint32(p *uint32, v uint32) uint32 { return atomic.AddUint32(p, v) }

func AndUint32(p *uint32, v uint32) uint32 { return atomic.AndUint32(p, v) }

func OrUint32(p *uint32, v uint32) uint32 { return atomic.OrUint32(p, v) }

func LoadUint64(p *uint64) uint64 {
	defer vsync.Pause(20)
	return atomic.LoadUint64(p)
}

func StoreUint64(p *uint64, v uint64) {
	vsync.Pause(20)
	atomic.StoreUint64(p, v)
}

func SwapUint64(p *uint64, v uint64) uint64 { return atomic.SwapUint64(p, v) }

func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsync.Pause(20)
	return atomic.CompareAndSwapUint64(p, a, b)
}

func AddUint64(p *uint64, v uint64) uint64 { return atomic.AddUint64(p, v) }

func AndUint64(p *uint64, v uint64) uint64 { return atomic.AndUint64(p, v) }

func OrUint64(p *uint64, v uint64) uint64 { return atomic.OrUint64(p, v) }

func LoadUintptr(p *uintptr) uintptr {
	defer vsync.Pause(20)
	return atomic.LoadUintptr(p)
}

func StoreUintptr(p *uintptr, v uintptr) {
	vsync.Pause(20)
	atomic.StoreUintptr(p, v)
}

func SwapUintptr(p *uintptr, v uintptr) uintptr { return atomic.SwapUintptr(p, v) }

func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vsync.Pause(20)
	return atomic.CompareAndSwapUintptr(p, a, b)
}

func AddUintptr(p *uintptr, v uintptr) uintptr { return atomic.AddUintptr(p, v) }

func AndUintptr(p *uintptr, v uintptr) uintptr { return atomic.AndUintptr(p, v) }

func OrUintptr(p *uintptr, v uintptr) uintptr { return atomic.OrUintptr(p, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	defer vsync.Pause(20)
	return atomic.LoadPointer(p)
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vsync.Pause(20)
	atomic.StorePointer(p, v)
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { return atomic.SwapPointer(p, v) }

func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vsync.Pause(20)
	return atomic.CompareAndSwapPointer(p, a, b)
}
