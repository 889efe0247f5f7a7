// Package atomic stands for sync/atomic in instrumented code.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verif/mc/rt"
)

func pt() {
	if e := rt.Active(); e != nil {
		e.Point("atomic")
	}
}

func AddInt32(p *int32, d int32) int32              { pt(); return real.AddInt32(p, d) }
func LoadInt32(p *int32) int32                      { pt(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool { pt(); return real.CompareAndSwapInt32(p, o, v) }
func AndInt32(p *int32, v int32) int32              { pt(); return real.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32               { pt(); return real.OrInt32(p, v) }

type Int32 struct{ r real.Int32 }

func (a *Int32) Add(d int32) int32              { pt(); return a.r.Add(d) }
func (a *Int32) Load() int32                    { pt(); return a.r.Load() }
func (a *Int32) Store(v int32)                  { pt(); a.r.Store(v) }
func (a *Int32) Swap(v int32) int32             { pt(); return a.r.Swap(v) }
func (a *Int32) CompareAndSwap(o, v int32) bool { pt(); return a.r.CompareAndSwap(o, v) }
func (a *Int32) And(v int32) int32              { pt(); return a.r.And(v) }
func (a *Int32) Or(v int32) int32               { pt(); return a.r.Or(v) }

func AddInt64(p *int64, d int64) int64              { pt(); return real.AddInt64(p, d) }
func LoadInt64(p *int64) int64                      { pt(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool { pt(); return real.CompareAndSwapInt64(p, o, v) }
func AndInt64(p *int64, v int64) int64              { pt(); return real.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64               { pt(); return real.OrInt64(p, v) }

type Int64 struct{ r real.Int64 }

func (a *Int64) Add(d int64) int64              { pt(); return a.r.Add(d) }
func (a *Int64) Load() int64                    { pt(); return a.r.Load() }
func (a *Int64) Store(v int64)                  { pt(); a.r.Store(v) }
func (a *Int64) Swap(v int64) int64             { pt(); return a.r.Swap(v) }
func (a *Int64) CompareAndSwap(o, v int64) bool { pt(); return a.r.CompareAndSwap(o, v) }
func (a *Int64) And(v int64) int64              { pt(); return a.r.And(v) }
func (a *Int64) Or(v int64) int64               { pt(); return a.r.Or(v) }

func AddUint32(p *uint32, d uint32) uint32  { pt(); return real.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { pt(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	pt()
	return real.CompareAndSwapUint32(p, o, v)
}
func AndUint32(p *uint32, v uint32) uint32 { pt(); return real.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { pt(); return real.OrUint32(p, v) }

type Uint32 struct{ r real.Uint32 }

func (a *Uint32) Add(d uint32) uint32             { pt(); return a.r.Add(d) }
func (a *Uint32) Load() uint32                    { pt(); return a.r.Load() }
func (a *Uint32) Store(v uint32)                  { pt(); a.r.Store(v) }
func (a *Uint32) Swap(v uint32) uint32            { pt(); return a.r.Swap(v) }
func (a *Uint32) CompareAndSwap(o, v uint32) bool { pt(); return a.r.CompareAndSwap(o, v) }
func (a *Uint32) And(v uint32) uint32             { pt(); return a.r.And(v) }
func (a *Uint32) Or(v uint32) uint32              { pt(); return a.r.Or(v) }

func AddUint64(p *uint64, d uint64) uint64  { pt(); return real.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { pt(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	pt()
	return real.CompareAndSwapUint64(p, o, v)
}
func AndUint64(p *uint64, v uint64) uint64 { pt(); return real.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { pt(); return real.OrUint64(p, v) }

type Uint64 struct{ r real.Uint64 }

func (a *Uint64) Add(d uint64) uint64             { pt(); return a.r.Add(d) }
func (a *Uint64) Load() uint64                    { pt(); return a.r.Load() }
func (a *Uint64) Store(v uint64)                  { pt(); a.r.Store(v) }
func (a *Uint64) Swap(v uint64) uint64            { pt(); return a.r.Swap(v) }
func (a *Uint64) CompareAndSwap(o, v uint64) bool { pt(); return a.r.CompareAndSwap(o, v) }
func (a *Uint64) And(v uint64) uint64             { pt(); return a.r.And(v) }
func (a *Uint64) Or(v uint64) uint64              { pt(); return a.r.Or(v) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(); return real.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { pt(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return real.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	pt()
	return real.CompareAndSwapUintptr(p, o, v)
}
func AndUintptr(p *uintptr, v uintptr) uintptr { pt(); return real.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { pt(); return real.OrUintptr(p, v) }

type Uintptr struct{ r real.Uintptr }

func (a *Uintptr) Add(d uintptr) uintptr            { pt(); return a.r.Add(d) }
func (a *Uintptr) Load() uintptr                    { pt(); return a.r.Load() }
func (a *Uintptr) Store(v uintptr)                  { pt(); a.r.Store(v) }
func (a *Uintptr) Swap(v uintptr) uintptr           { pt(); return a.r.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, v uintptr) bool { pt(); return a.r.CompareAndSwap(o, v) }
func (a *Uintptr) And(v uintptr) uintptr            { pt(); return a.r.And(v) }
func (a *Uintptr) Or(v uintptr) uintptr             { pt(); return a.r.Or(v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	pt()
	return real.CompareAndSwapPointer(p, o, v)
}

type Bool struct{ r real.Bool }

func (a *Bool) Load() bool                    { pt(); return a.r.Load() }
func (a *Bool) Store(v bool)                  { pt(); a.r.Store(v) }
func (a *Bool) Swap(v bool) bool              { pt(); return a.r.Swap(v) }
func (a *Bool) CompareAndSwap(o, v bool) bool { pt(); return a.r.CompareAndSwap(o, v) }

type Pointer[T any] struct{ r real.Pointer[T] }

func (a *Pointer[T]) Load() *T                    { pt(); return a.r.Load() }
func (a *Pointer[T]) Store(v *T)                  { pt(); a.r.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T                { pt(); return a.r.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, v *T) bool { pt(); return a.r.CompareAndSwap(o, v) }

type Value struct{ r real.Value }

func (a *Value) Load() any                    { pt(); return a.r.Load() }
func (a *Value) Store(v any)                  { pt(); a.r.Store(v) }
func (a *Value) Swap(v any) any               { pt(); return a.r.Swap(v) }
func (a *Value) CompareAndSwap(o, v any) bool { pt(); return a.r.CompareAndSwap(o, v) }
