// Package vatomic replaces package sync/atomic.
package vatomic

import (
	"unsafe"

	"github.com/GalaIO/P2Pcrawler/zz/vrt"
)

// words gives every plainly-addressed atomic word its history object (per execution).
type wordTab struct {
	addr []unsafe.Pointer
	obj  []*word
}

type word struct {
	o  vrt.Obj
	rb byte
}

var tab wordTab
var tabGen interface{}

func at(p unsafe.Pointer) *word {
	if g := vrt.Gen(); g != tabGen {
		tabGen = g
		tab = wordTab{}
	}
	for i, a := range tab.addr {
		if a == p {
			return tab.obj[i]
		}
	}
	w := new(word)
	tab.addr = append(tab.addr, p)
	tab.obj = append(tab.obj, w)
	return w
}

func sync(p unsafe.Pointer, kind string, code uint64, v uint64) {
	if vrt.Point(kind) {
		w := at(p)
		w.o.Op(code, v)
		vrt.RaceAcq(unsafe.Pointer(&w.rb))
		if code > 1 {
			vrt.RaceRel(unsafe.Pointer(&w.rb))
		}
	}
}

type self struct {
	o  vrt.Obj
	rb byte
}

func (s *self) sync(kind string, code uint64) {
	if vrt.Point(kind) {
		s.o.Op(code, 0)
		vrt.RaceAcq(unsafe.Pointer(&s.rb))
		if code > 1 {
			vrt.RaceRel(unsafe.Pointer(&s.rb))
		}
	}
}

// Value is sync/atomic.Value.
type Value struct {
	s self
	v interface{}
}

func (v *Value) Load() interface{} { v.s.sync("atomic load", 1); return v.v }

func check(old, x interface{}) {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	if old != nil && typeOf(old) != typeOf(x) {
		panic("sync/atomic: store of inconsistently typed value into Value")
	}
}

func (v *Value) Store(x interface{}) {
	v.s.sync("atomic store", 2)
	check(v.v, x)
	v.v = x
}

func (v *Value) Swap(x interface{}) interface{} {
	v.s.sync("atomic swap", 3)
	check(v.v, x)
	old := v.v
	v.v = x
	return old
}

func (v *Value) CompareAndSwap(old, x interface{}) bool {
	v.s.sync("atomic cas", 4)
	check(v.v, x)
	if old != nil && typeOf(old) != typeOf(x) {
		panic("sync/atomic: compare and swap of inconsistently typed values")
	}
	if v.v != old {
		return false
	}
	v.v = x
	return true
}

type Bool struct {
	s self
	v bool
}

func (b *Bool) Load() bool   { b.s.sync("atomic load", 1); return b.v }
func (b *Bool) Store(x bool) { b.s.sync("atomic store", 2); b.v = x }
func (b *Bool) Swap(x bool) bool {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *Bool) CompareAndSwap(old, x bool) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

type Pointer[T any] struct {
	p ptr
	_ [0]*T
}

// ptr keeps the generic code free of accesses of its own.
type ptr struct {
	s self
	v unsafe.Pointer
}

func (b *ptr) load() unsafe.Pointer   { b.s.sync("atomic load", 1); return b.v }
func (b *ptr) store(x unsafe.Pointer) { b.s.sync("atomic store", 2); b.v = x }
func (b *ptr) swap(x unsafe.Pointer) unsafe.Pointer {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *ptr) cas(old, x unsafe.Pointer) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func (b *Pointer[T]) Load() *T     { return (*T)(b.p.load()) }
func (b *Pointer[T]) Store(x *T)   { b.p.store(unsafe.Pointer(x)) }
func (b *Pointer[T]) Swap(x *T) *T { return (*T)(b.p.swap(unsafe.Pointer(x))) }
func (b *Pointer[T]) CompareAndSwap(old, x *T) bool {
	return b.p.cas(unsafe.Pointer(old), unsafe.Pointer(x))
}

type Int32 struct {
	s self
	v int32
}

func (b *Int32) Load() int32   { b.s.sync("atomic load", 1); return b.v }
func (b *Int32) Store(x int32) { b.s.sync("atomic store", 2); b.v = x }
func (b *Int32) Add(d int32) int32 {
	b.s.sync("atomic add", 5)
	b.v += d
	return b.v
}
func (b *Int32) Swap(x int32) int32 {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *Int32) CompareAndSwap(old, x int32) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func AddInt32(p *int32, d int32) int32 {
	sync(unsafe.Pointer(p), "atomic add", 5, 0)
	*p += d
	return *p
}
func LoadInt32(p *int32) int32     { sync(unsafe.Pointer(p), "atomic load", 1, 0); return *p }
func StoreInt32(p *int32, x int32) { sync(unsafe.Pointer(p), "atomic store", 2, 0); *p = x }
func SwapInt32(p *int32, x int32) int32 {
	sync(unsafe.Pointer(p), "atomic swap", 3, 0)
	o := *p
	*p = x
	return o
}
func CompareAndSwapInt32(p *int32, old, x int32) bool {
	sync(unsafe.Pointer(p), "atomic cas", 4, 0)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Int64 struct {
	s self
	v int64
}

func (b *Int64) Load() int64   { b.s.sync("atomic load", 1); return b.v }
func (b *Int64) Store(x int64) { b.s.sync("atomic store", 2); b.v = x }
func (b *Int64) Add(d int64) int64 {
	b.s.sync("atomic add", 5)
	b.v += d
	return b.v
}
func (b *Int64) Swap(x int64) int64 {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *Int64) CompareAndSwap(old, x int64) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func AddInt64(p *int64, d int64) int64 {
	sync(unsafe.Pointer(p), "atomic add", 5, 0)
	*p += d
	return *p
}
func LoadInt64(p *int64) int64     { sync(unsafe.Pointer(p), "atomic load", 1, 0); return *p }
func StoreInt64(p *int64, x int64) { sync(unsafe.Pointer(p), "atomic store", 2, 0); *p = x }
func SwapInt64(p *int64, x int64) int64 {
	sync(unsafe.Pointer(p), "atomic swap", 3, 0)
	o := *p
	*p = x
	return o
}
func CompareAndSwapInt64(p *int64, old, x int64) bool {
	sync(unsafe.Pointer(p), "atomic cas", 4, 0)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Uint32 struct {
	s self
	v uint32
}

func (b *Uint32) Load() uint32   { b.s.sync("atomic load", 1); return b.v }
func (b *Uint32) Store(x uint32) { b.s.sync("atomic store", 2); b.v = x }
func (b *Uint32) Add(d uint32) uint32 {
	b.s.sync("atomic add", 5)
	b.v += d
	return b.v
}
func (b *Uint32) Swap(x uint32) uint32 {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *Uint32) CompareAndSwap(old, x uint32) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func AddUint32(p *uint32, d uint32) uint32 {
	sync(unsafe.Pointer(p), "atomic add", 5, 0)
	*p += d
	return *p
}
func LoadUint32(p *uint32) uint32     { sync(unsafe.Pointer(p), "atomic load", 1, 0); return *p }
func StoreUint32(p *uint32, x uint32) { sync(unsafe.Pointer(p), "atomic store", 2, 0); *p = x }
func SwapUint32(p *uint32, x uint32) uint32 {
	sync(unsafe.Pointer(p), "atomic swap", 3, 0)
	o := *p
	*p = x
	return o
}
func CompareAndSwapUint32(p *uint32, old, x uint32) bool {
	sync(unsafe.Pointer(p), "atomic cas", 4, 0)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Uint64 struct {
	s self
	v uint64
}

func (b *Uint64) Load() uint64   { b.s.sync("atomic load", 1); return b.v }
func (b *Uint64) Store(x uint64) { b.s.sync("atomic store", 2); b.v = x }
func (b *Uint64) Add(d uint64) uint64 {
	b.s.sync("atomic add", 5)
	b.v += d
	return b.v
}
func (b *Uint64) Swap(x uint64) uint64 {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *Uint64) CompareAndSwap(old, x uint64) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func AddUint64(p *uint64, d uint64) uint64 {
	sync(unsafe.Pointer(p), "atomic add", 5, 0)
	*p += d
	return *p
}
func LoadUint64(p *uint64) uint64     { sync(unsafe.Pointer(p), "atomic load", 1, 0); return *p }
func StoreUint64(p *uint64, x uint64) { sync(unsafe.Pointer(p), "atomic store", 2, 0); *p = x }
func SwapUint64(p *uint64, x uint64) uint64 {
	sync(unsafe.Pointer(p), "atomic swap", 3, 0)
	o := *p
	*p = x
	return o
}
func CompareAndSwapUint64(p *uint64, old, x uint64) bool {
	sync(unsafe.Pointer(p), "atomic cas", 4, 0)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Uintptr struct {
	s self
	v uintptr
}

func (b *Uintptr) Load() uintptr   { b.s.sync("atomic load", 1); return b.v }
func (b *Uintptr) Store(x uintptr) { b.s.sync("atomic store", 2); b.v = x }
func (b *Uintptr) Add(d uintptr) uintptr {
	b.s.sync("atomic add", 5)
	b.v += d
	return b.v
}
func (b *Uintptr) Swap(x uintptr) uintptr {
	b.s.sync("atomic swap", 3)
	o := b.v
	b.v = x
	return o
}
func (b *Uintptr) CompareAndSwap(old, x uintptr) bool {
	b.s.sync("atomic cas", 4)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func typeOf(x interface{}) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&x)) }
