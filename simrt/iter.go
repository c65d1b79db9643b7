package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIt iterates over a map in an order the simulator decides.
type MapIt[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
	site string
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	switch reflect.TypeOf(keys[0]).Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
	default:
		ss := make(map[K]string, len(keys))
		for _, k := range keys {
			ss[k] = fmt.Sprintf("%#v", k)
		}
		sort.Slice(keys, func(i, j int) bool { return ss[keys[i]] < ss[keys[j]] })
	}
}

func newMapIt[M ~map[K]V, K comparable, V any](m M, site string) *MapIt[M, K, V] {
	MR[M, K, V](m, site)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if s := S; s != nil && s.cur != nil && !s.cur.killed && s.Cfg.MapShuffle && len(keys) > 1 {
		// rotation plus a few swaps: cheap to record, reaches every "who is first/last"
		r := s.Choose(len(keys))
		if r > 0 {
			nk := make([]K, 0, len(keys))
			nk = append(append(nk, keys[r:]...), keys[:r]...)
			keys = nk
		}
		for n := 0; n < 2; n++ {
			if i := s.Choose(len(keys)); i > 0 {
				keys[i], keys[0] = keys[0], keys[i]
			}
		}
	}
	return &MapIt[M, K, V]{m: m, keys: keys, site: site}
}

func MapIter[M ~map[K]V, K comparable, V any](m M, site string) (*MapIt[M, K, V], K, V) {
	var k K
	var v V
	return newMapIt[M, K, V](m, site), k, v
}
func MapIterK[M ~map[K]V, K comparable, V any](m M, site string) (*MapIt[M, K, V], K) {
	var k K
	return newMapIt[M, K, V](m, site), k
}
func MapIterV[M ~map[K]V, K comparable, V any](m M, site string) (*MapIt[M, K, V], V) {
	var v V
	return newMapIt[M, K, V](m, site), v
}
func MapIter0[M ~map[K]V, K comparable, V any](m M, site string) *MapIt[M, K, V] {
	return newMapIt[M, K, V](m, site)
}

func (it *MapIt[M, K, V]) Next(pk *K, pv *V) bool {
	MR[M, K, V](it.m, it.site)
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue
		}
		if pk != nil {
			*pk = k
		}
		if pv != nil {
			*pv = v
		}
		return true
	}
	return false
}

// SliceIt iterates over a slice, recording a read of every element delivered.
type SliceIt[T any] struct {
	s    []T
	i    int
	site string
}

func SliceIter[E ~[]T, T any](s E, site string) (*SliceIt[T], int, T) {
	var z T
	return &SliceIt[T]{s: s, site: site}, 0, z
}
func SliceIterV[E ~[]T, T any](s E, site string) (*SliceIt[T], T) {
	var z T
	return &SliceIt[T]{s: s, site: site}, z
}
func SliceIter0[E ~[]T, T any](s E, site string) *SliceIt[T] {
	return &SliceIt[T]{s: s, site: site}
}
func (it *SliceIt[T]) Next(pi *int, pv *T) bool {
	if it.i >= len(it.s) {
		return false
	}
	v := *R(&it.s[it.i], it.site)
	if pi != nil {
		*pi = it.i
	}
	if pv != nil {
		*pv = v
	}
	it.i++
	return true
}

var resets []func()

// OnReset registers re-initialisation of a package-level variable (a new process starts from fresh globals).
func OnReset(f func()) { resets = append(resets, f) }

// ResetGlobals is called by the harness whenever a simulated process starts.
func ResetGlobals() {
	save := S
	var cur *Task
	if save != nil {
		cur = save.cur
		save.cur = nil
	}
	for _, f := range resets {
		f()
	}
	if save != nil {
		save.cur = cur
	}
}
