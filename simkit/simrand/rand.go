// Package simrand replaces the package math/rand in the instrumented program:
// the numbers of its global source come from the simulator.
package simrand

import (
	"math/rand"

	"verifsim/sim"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type source struct{}

func (source) Uint64() uint64 {
	return uint64(sim.Choose(1<<30))<<34 ^ uint64(sim.Choose(1<<30))<<17 ^ uint64(sim.Choose(1<<30))
}
func (s source) Int63() int64 { return int64(s.Uint64() >> 1) }
func (source) Seed(int64)     {}

var global = rand.New(source{})

func New(src Source) *Rand                             { return rand.New(src) }
func NewSource(seed int64) Source                      { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(seed int64)                                  {}
func Int() int                                         { return global.Int() }
func Intn(n int) int                                   { return global.Intn(n) }
func Int31() int32                                     { return global.Int31() }
func Int31n(n int32) int32                             { return global.Int31n(n) }
func Int63() int64                                     { return global.Int63() }
func Int63n(n int64) int64                             { return global.Int63n(n) }
func Uint32() uint32                                   { return global.Uint32() }
func Uint64() uint64                                   { return global.Uint64() }
func Float32() float32                                 { return global.Float32() }
func Float64() float64                                 { return global.Float64() }
func Perm(n int) []int                                 { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int))               { global.Shuffle(n, swap) }
func NormFloat64() float64                             { return global.NormFloat64() }
func ExpFloat64() float64                              { return global.ExpFloat64() }
func Read(p []byte) (int, error)                       { return global.Read(p) }
