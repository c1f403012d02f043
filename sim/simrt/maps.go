package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapEntry is one step of a range over a map.
type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live tells whether the key is still in the map.
func (e MapEntry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// Val is the current value.
func (e MapEntry[K, V]) Val() V { return e.m[e.K] }

// MapEntries fixes an iteration order: sorted keys, rotated by a drawn amount.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []MapEntry[K, V] {
	r := make([]MapEntry[K, V], 0, len(m))
	for k := range m {
		r = append(r, MapEntry[K, V]{k, m})
	}
	sort.Slice(r, func(i, j int) bool { return keyLess(reflect.ValueOf(r[i].K), reflect.ValueOf(r[j].K)) })
	if len(r) > 1 && !idle() {
		o := mapRot(len(r))
		r = append(r[o:len(r):len(r)], r[:o]...)
	}
	return r
}

//go:noinline
func mapRot(n int) int { return NamedStream("maporder").Choose(n) }

func keyLess(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}
