//go:build go1.23

// Package maps replaces maps: the order of iteration comes from the simulator, reads and writes are recorded.
package maps

import (
	"iter"
	"maps"

	"verif.local/simrt"
)

const site = "maps"

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		it, k := simrt.MapIterK[M, K, V](m, site)
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		it, v := simrt.MapIterV[M, K, V](m, site)
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it, k, v := simrt.MapIter[M, K, V](m, site)
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		simrt.MW[M, K, V](m, site)[k] = v
	}
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }
func Clone[M ~map[K]V, K comparable, V any](m M) M {
	return maps.Clone(simrt.MR[M, K, V](m, site))
}
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	it, k, v := simrt.MapIter[M2, K, V](src, site)
	for it.Next(&k, &v) {
		simrt.MW[M1, K, V](dst, site)[k] = v
	}
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	it, k, v := simrt.MapIter[M, K, V](m, site)
	for it.Next(&k, &v) {
		if del(k, v) {
			delete(simrt.MW[M, K, V](m, site), k)
		}
	}
}
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	return maps.Equal(simrt.MR[M1, K, V](a, site), simrt.MR[M2, K, V](b, site))
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(simrt.MR[M1, K, V1](a, site), simrt.MR[M2, K, V2](b, site), eq)
}
