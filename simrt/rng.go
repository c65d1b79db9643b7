package simrt

import "math/bits"

// Rng is splitmix64/xorshift: small, fast, fixed for ever.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { r := &Rng{seed ^ 0x9e3779b97f4a7c15}; r.U64(); return r }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}
func (r *Rng) Int63n(n int64) int64 {
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int64(hi)
}
func (r *Rng) Float() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Chance(p float64) bool { return r.Float() < p }
func (r *Rng) Pick(xs ...int) int    { return xs[r.Intn(len(xs))] }
func (r *Rng) Range(a, b int) int    { return a + r.Intn(b-a+1) }
