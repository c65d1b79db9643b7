// Package rand replaces math/rand: every number comes from the simulator.
package rand

import (
	"math/rand"

	"verif.local/simrt"
)

type (
	Source   = rand.Source
	Source64 = rand.Source64
	Rand     = rand.Rand
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Seed(int64) {}
func (src) Uint64() uint64 {
	s := simrt.S
	if s == nil {
		return 4
	}
	r, _ := s.RT["rand"].(*simrt.Rng)
	if r == nil {
		r = simrt.NewRng(s.Cfg.SchedSeed ^ 0x72616e64)
		if s.Cfg.Replay != nil {
			r = simrt.NewRng(s.Cfg.SchedSeed ^ 0x72616e64)
		}
		s.RT["rand"] = r
	}
	simrt.Point()
	return r.U64()
}
func (x src) Int63() int64 { return int64(x.Uint64() >> 1) }

var g = rand.New(src{})

func New(s Source) *Rand                               { return rand.New(src{}) }
func NewSource(seed int64) Source                      { return src{} }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(g, s, v, imax) }
func Seed(int64)                                       {}
func Int() int                                         { return g.Int() }
func Intn(n int) int                                   { return g.Intn(n) }
func Int31() int32                                     { return g.Int31() }
func Int31n(n int32) int32                             { return g.Int31n(n) }
func Int63() int64                                     { return g.Int63() }
func Int63n(n int64) int64                             { return g.Int63n(n) }
func Uint32() uint32                                   { return g.Uint32() }
func Uint64() uint64                                   { return g.Uint64() }
func Float32() float32                                 { return g.Float32() }
func Float64() float64                                 { return g.Float64() }
func NormFloat64() float64                             { return g.NormFloat64() }
func ExpFloat64() float64                              { return g.ExpFloat64() }
func Perm(n int) []int                                 { return g.Perm(n) }
func Shuffle(n int, f func(i, j int))                  { g.Shuffle(n, f) }
func Read(p []byte) (int, error)                       { return g.Read(p) }

// Reader feeds google/uuid.
type Reader struct{}

func (Reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(src{}.Uint64())
	}
	return len(p), nil
}
