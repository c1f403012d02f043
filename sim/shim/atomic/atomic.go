// Package atomic is sync/atomic with a scheduling point before every access.
package atomic

import (
	a "sync/atomic"
	"unsafe"

	"verif.local/sim/simrt"
)

func y() { simrt.Yield("atomic") }

func AddInt32(p *int32, d int32) int32                 { y(); return a.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { y(); return a.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { y(); return a.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { y(); return a.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { y(); return a.AddUintptr(p, d) }
func LoadInt32(p *int32) int32                         { y(); return a.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { y(); return a.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { y(); return a.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { y(); return a.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { y(); return a.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); return a.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { y(); a.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { y(); a.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { y(); a.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { y(); a.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { y(); a.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); a.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { y(); return a.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { y(); return a.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { y(); return a.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { y(); return a.SwapUint64(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	return a.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool    { y(); return a.CompareAndSwapInt32(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { y(); return a.CompareAndSwapInt64(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { y(); return a.CompareAndSwapUint32(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { y(); return a.CompareAndSwapUint64(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	return a.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v a.Bool }

func (x *Bool) Load() bool                    { y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { y(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { y(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v a.Int32 }

func (x *Int32) Load() int32                    { y(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { y(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { y(); return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { y(); return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { y(); return x.v.Or(d) }
func (x *Int32) Swap(v int32) int32             { y(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { y(); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v a.Int64 }

func (x *Int64) Load() int64                    { y(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { y(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { y(); return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { y(); return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { y(); return x.v.Or(d) }
func (x *Int64) Swap(v int64) int64             { y(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { y(); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v a.Uint32 }

func (x *Uint32) Load() uint32                    { y(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { y(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { y(); return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { y(); return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { y(); return x.v.Or(d) }
func (x *Uint32) Swap(v uint32) uint32            { y(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { y(); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v a.Uint64 }

func (x *Uint64) Load() uint64                    { y(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { y(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { y(); return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { y(); return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { y(); return x.v.Or(d) }
func (x *Uint64) Swap(v uint64) uint64            { y(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { y(); return x.v.CompareAndSwap(o, n) }

type Uintptr struct{ v a.Uintptr }

func (x *Uintptr) Load() uintptr                    { y(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { y(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { y(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { y(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { y(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v a.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { y(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { y(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v a.Value }

func (x *Value) Load() interface{}                    { y(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { y(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { y(); return x.v.CompareAndSwap(o, n) }
