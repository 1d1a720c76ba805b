// Package vmaps stands in for maps: iteration order is the explorer's.
package vmaps

import (
	"iter"
	"maps"

	"github.com/browles/drip/zzv/rt/vs"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range vs.Map(m) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range vs.Map(m) {
			if !yield(v) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return vs.Map(m) }

func Clone[M ~map[K]V, K comparable, V any](m M) M                   { return maps.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) { maps.Copy(d, s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool        { return maps.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(a, b, eq)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range vs.Map(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	maps.Insert(m, seq)
}
