out='''// Package simatomic replaces sync/atomic in the instrumented program. Generated by gen.py.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"verifsim/sim"
)

// The operations are those of sync/atomic, which order memory for the race
// detector; the simulator may switch tasks before each of them.

'''
for T,t in (('Int32','int32'),('Int64','int64'),('Uint32','uint32'),('Uint64','uint64'),('Uintptr','uintptr')):
    out+=f'''type {T} struct{{ v atomic.{T} }}

func (x *{T}) Load() {t}           {{ sim.Point(); return x.v.Load() }}
func (x *{T}) Store(n {t})         {{ sim.Point(); x.v.Store(n) }}
func (x *{T}) Swap(n {t}) {t}      {{ sim.Point(); return x.v.Swap(n) }}
func (x *{T}) Add(n {t}) {t}       {{ sim.Point(); return x.v.Add(n) }}
func (x *{T}) And(n {t}) {t}       {{ sim.Point(); return x.v.And(n) }}
func (x *{T}) Or(n {t}) {t}        {{ sim.Point(); return x.v.Or(n) }}
func (x *{T}) CompareAndSwap(o, n {t}) bool {{ sim.Point(); return x.v.CompareAndSwap(o, n) }}

func Load{T}(p *{t}) {t}           {{ sim.Point(); return atomic.Load{T}(p) }}
func Store{T}(p *{t}, n {t})       {{ sim.Point(); atomic.Store{T}(p, n) }}
func Swap{T}(p *{t}, n {t}) {t}    {{ sim.Point(); return atomic.Swap{T}(p, n) }}
func Add{T}(p *{t}, n {t}) {t}     {{ sim.Point(); return atomic.Add{T}(p, n) }}
func And{T}(p *{t}, n {t}) {t}     {{ sim.Point(); return atomic.And{T}(p, n) }}
func Or{T}(p *{t}, n {t}) {t}      {{ sim.Point(); return atomic.Or{T}(p, n) }}
func CompareAndSwap{T}(p *{t}, o, n {t}) bool {{ sim.Point(); return atomic.CompareAndSwap{T}(p, o, n) }}

'''
out+='''type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sim.Point(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { sim.Point(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { sim.Point(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sim.Point(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sim.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { sim.Point(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { sim.Point(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sim.Point(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { sim.Point(); return x.v.Load() }
func (x *Value) Store(n any)                  { sim.Point(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { sim.Point(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { sim.Point(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { sim.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { sim.Point(); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer { sim.Point(); return atomic.SwapPointer(p, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { sim.Point(); return atomic.CompareAndSwapPointer(p, o, n) }
'''
open('simatomic.go','w').write(out)
