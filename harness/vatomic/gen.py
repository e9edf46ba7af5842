out = ['''//go:build go1.22

// Package vatomic stands in for package sync/atomic: every operation is a
// scheduling point followed by the real operation. Generated by gen.py.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)
''']
for T, t in [("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr")]:
    out.append(f'''
func Add{T}(p *{t}, d {t}) {t} {{ mc.Yield(); return atomic.Add{T}(p, d) }}
func Load{T}(p *{t}) {t} {{ mc.Yield(); return atomic.Load{T}(p) }}
func Store{T}(p *{t}, v {t}) {{ mc.Yield(); atomic.Store{T}(p, v) }}
func Swap{T}(p *{t}, v {t}) {t} {{ mc.Yield(); return atomic.Swap{T}(p, v) }}
func CompareAndSwap{T}(p *{t}, o, n {t}) bool {{ mc.Yield(); return atomic.CompareAndSwap{T}(p, o, n) }}
func And{T}(p *{t}, m {t}) {t} {{ mc.Yield(); return atomic.And{T}(p, m) }}
func Or{T}(p *{t}, m {t}) {t} {{ mc.Yield(); return atomic.Or{T}(p, m) }}

type {T} struct{{ v atomic.{T} }}

func (x *{T}) Load() {t} {{ mc.Yield(); return x.v.Load() }}
func (x *{T}) Store(v {t}) {{ mc.Yield(); x.v.Store(v) }}
func (x *{T}) Swap(v {t}) {t} {{ mc.Yield(); return x.v.Swap(v) }}
func (x *{T}) CompareAndSwap(o, n {t}) bool {{ mc.Yield(); return x.v.CompareAndSwap(o, n) }}
func (x *{T}) Add(d {t}) {t} {{ mc.Yield(); return x.v.Add(d) }}
func (x *{T}) And(m {t}) {t} {{ mc.Yield(); return x.v.And(m) }}
func (x *{T}) Or(m {t}) {t} {{ mc.Yield(); return x.v.Or(m) }}
''')
out.append('''
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool { mc.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool) { mc.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { mc.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { mc.Yield(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any { mc.Yield(); return x.v.Load() }
func (x *Value) Store(v any) { mc.Yield(); x.v.Store(v) }
func (x *Value) Swap(v any) any { mc.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { mc.Yield(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T { mc.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T) { mc.Yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { mc.Yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { mc.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { mc.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { mc.Yield(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { mc.Yield(); return atomic.SwapPointer(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { mc.Yield(); return atomic.CompareAndSwapPointer(p, o, n) }
''')
open("vatomic.go","w").write("".join(out))
