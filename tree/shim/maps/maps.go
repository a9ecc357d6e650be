// Package maps mirrors the standard package with reproducible iteration order.
package maps

import (
	"iter"
	"maps"

	"github.com/younglifestyle/secs4go/verifsim/simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return simrt.MapRange[M, K, V](m, 0) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.MapRange[M, K, V](m, 0) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.MapRange[M, K, V](m, 0) {
			if !yield(v) {
				return
			}
		}
	}
}
func Clone[M ~map[K]V, K comparable, V any](m M) M {
	simrt.MapR(m, 0)
	return maps.Clone(m)
}
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) {
	simrt.MapR(s, 0)
	simrt.MapW(d, 0)
	maps.Copy(d, s)
}
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool         { return maps.Equal(a, b) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V          { return maps.Collect(s) }
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V])  { maps.Insert(m, s) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, f func(K, V) bool) {
	for k, v := range simrt.MapRange[M, K, V](m, 0) {
		if f(k, v) {
			delete(m, k)
		}
	}
}
