package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// MapsKeys, MapsValues and MapsAll stand for maps.Keys, maps.Values and maps.All.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range MapRange(m) {
			if e.Live() && !yield(e.Key) {
				return
			}
		}
	}
}

func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range MapRange(m) {
			if e.Live() && !yield(e.Val()) {
				return
			}
		}
	}
}

func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range MapRange(m) {
			if e.Live() && !yield(e.Key, e.Val()) {
				return
			}
		}
	}
}

// ReflectMapKeys stands for the method MapKeys of reflect.Value.
func ReflectMapKeys(v reflect.Value) func() []reflect.Value {
	return func() []reflect.Value {
		keys := v.MapKeys()
		text := func(k reflect.Value) string { return fmt.Sprint(k) }
		sort.SliceStable(keys, func(i, j int) bool { return text(keys[i]) < text(keys[j]) })
		if seed := nextMapSeed(); seed != 0 {
			r := Rng{seed}
			for i := len(keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		return keys
	}
}
