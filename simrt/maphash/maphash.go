//go:build go1.24

// Package maphash replaces hash/maphash: the seed is drawn from the simulator, once per process start at most.
package maphash

import (
	"fmt"
	"hash/fnv"

	"verif.local/simrt/rand"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{rand.Uint64() | 1} }

func sum(s Seed, b []byte) uint64 {
	if s.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := fnv.New64a()
	var p [8]byte
	for i := range p {
		p[i] = byte(s.s >> (8 * i))
	}
	_, _ = h.Write(p[:])
	_, _ = h.Write(b)
	x := h.Sum64() // mixed once more: the low bits of fnv are weak
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func Bytes(s Seed, b []byte) uint64  { return sum(s, b) }
func String(s Seed, x string) uint64 { return sum(s, []byte(x)) }
func Comparable[T comparable](s Seed, v T) uint64 {
	return sum(s, []byte(fmt.Sprintf("%T %#v", v, v)))
}
func WriteComparable[T comparable](h *Hash, v T) { _, _ = h.WriteString(fmt.Sprintf("%T %#v", v, v)) }

type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error) { h.init(); h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(b string) (int, error) {
	h.init()
	h.b = append(h.b, b...)
	return len(b), nil
}
func (h *Hash) WriteByte(b byte) error { h.init(); h.b = append(h.b, b); return nil }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	for i := 7; i >= 0; i-- {
		b = append(b, byte(x>>(8*i)))
	}
	return b
}
func (h *Hash) Sum64() uint64  { h.init(); return sum(h.seed, h.b) }
func (h *Hash) Reset()         { h.b = nil }
func (h *Hash) Seed() Seed     { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed) { h.seed, h.b = s, nil }
func (h *Hash) Size() int      { return 8 }
func (h *Hash) BlockSize() int { return 128 }
