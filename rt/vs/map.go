package vs

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
)

// MapOrder, when set, makes the order of iteration over maps with at most that
// many keys a data choice (which key comes first); otherwise it is sorted.
var MapOrder = 0

// Map ranges over a map in an order the explorer owns.
func Map[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		SortKeys(keys)
		slices.Reverse(keys)
		if MapOrder > 0 && len(keys) > 1 && len(keys) <= MapOrder {
			r := Choose(len(keys), "map order")
			keys = append(keys[r:len(keys):len(keys)], keys[:r]...)
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok && k == k {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// SortKeys sorts map keys of any type deterministically.
func SortKeys[K any](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
		return
	case []int:
		slices.Sort(ks)
		return
	}
	slices.SortStableFunc(keys, func(a, b K) int { return cmpValue(reflect.ValueOf(a), reflect.ValueOf(b)) })
}

func cmpValue(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpValue(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpValue(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return 0
		}
		if a.Elem().Type() != b.Elem().Type() {
			return cmp.Compare(a.Elem().Type().String(), b.Elem().Type().String())
		}
		return cmpValue(a.Elem(), b.Elem())
	case reflect.Bool:
		return cmp.Compare(fmt.Sprint(a.Bool()), fmt.Sprint(b.Bool()))
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return cmp.Compare(a.Pointer(), b.Pointer())
	}
	return 0
}

// OrderValues orders the keys reflect returns like Map does.
func OrderValues(keys []reflect.Value) []reflect.Value {
	slices.SortStableFunc(keys, cmpValue)
	slices.Reverse(keys)
	if MapOrder > 0 && len(keys) > 1 && len(keys) <= MapOrder {
		r := Choose(len(keys), "map order")
		keys = append(keys[r:len(keys):len(keys)], keys[:r]...)
	}
	return keys
}
