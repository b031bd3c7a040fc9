// Package vmaps replaces maps: iteration orders come from the choice stream.
package vmaps

import (
	"iter"

	"vsim/rt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return rt.RangeMap(m, 0) }
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range rt.RangeMap(m, 0) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range rt.RangeMap(m, 0) {
			if !yield(v) {
				return
			}
		}
	}
}
