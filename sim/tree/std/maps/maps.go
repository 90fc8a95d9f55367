// Package maps iterates maps in an order decided by the simulation.
package maps

import (
	"iter"
	real "maps"

	"github.com/ti-mo/comfo/zsim/rt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] { return rt.MapRange(m) }

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range rt.MapRange(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range rt.MapRange(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range rt.MapRange(m) {
		if del(k, v) {
			delete(rt.MapW(m, 0), k)
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return real.Clone(rt.MapR(m)) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	real.Copy(rt.MapW(dst, 0), rt.MapR(src))
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		rt.MapW(m, 0)[k] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return real.Collect(seq) }

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool {
	return real.Equal(rt.MapR(m1), rt.MapR(m2))
}

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return real.EqualFunc(rt.MapR(m1), rt.MapR(m2), eq)
}
