// Package rand replaces math/rand/v2: every number comes from the simulator.
package rand

import (
	"math/rand/v2"

	srand "verif.local/simrt/rand"
)

type (
	Source  = rand.Source
	Rand    = rand.Rand
	Zipf    = rand.Zipf
	PCG     struct{ src }
	ChaCha8 struct{ src }
)

type src struct{}

func (src) Uint64() uint64 { return srand.Uint64() }
func (src) Seed(...any)    {}

var g = rand.New(src{})

func New(Source) *Rand                                 { return rand.New(src{}) }
func NewPCG(a, b uint64) *PCG                          { return &PCG{} }
func NewChaCha8([32]byte) *ChaCha8                     { return &ChaCha8{} }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(g, s, v, imax) }
func Int() int                                         { return g.Int() }
func IntN(n int) int                                   { return g.IntN(n) }
func Int32() int32                                     { return g.Int32() }
func Int32N(n int32) int32                             { return g.Int32N(n) }
func Int64() int64                                     { return g.Int64() }
func Int64N(n int64) int64                             { return g.Int64N(n) }
func Uint() uint                                       { return g.Uint() }
func UintN(n uint) uint                                { return g.UintN(n) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint32N(n uint32) uint32                          { return g.Uint32N(n) }
func Uint64() uint64                                   { return g.Uint64() }
func Uint64N(n uint64) uint64                          { return g.Uint64N(n) }
func Float32() float32                                 { return g.Float32() }
func Float64() float64                                 { return g.Float64() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, f func(i, j int))                  { g.Shuffle(n, f) }
func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(g.Uint64N(uint64(n)))
}
