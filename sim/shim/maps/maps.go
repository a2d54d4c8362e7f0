//go:build go1.25

// Package maps stands for the standard package: the order of iteration comes
// from the run's seed, and the race detector sees the accesses.
package maps

import (
	"iter"

	"github.com/gostor/gotgt/zsim/rt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		it, k, v := rt.Iter2(0, m)
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		it, k := rt.Iter1(0, m)
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		it, v := rt.IterV(0, m)
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		rt.MW(0, m)[k] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	for k, v := range seq {
		m[k] = v
	}
	return m
}

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool {
	return EqualFunc(m1, m2, func(a, b V) bool { return a == b })
}

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	rt.MR(0, m1)
	rt.MR(0, m2)
	if len(m1) != len(m2) {
		return false
	}
	for k, a := range m1 {
		if b, ok := m2[k]; !ok || !eq(a, b) {
			return false
		}
	}
	return true
}

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	rt.MR(0, m)
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	rt.MR(0, src)
	for k, v := range src {
		rt.MW(0, dst)[k] = v
	}
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	rt.MR(0, m)
	for k, v := range m {
		if del(k, v) {
			delete(rt.MW(0, m), k)
		}
	}
}
