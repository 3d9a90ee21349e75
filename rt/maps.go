package zz_simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter iterates a map in the order the simulator chooses.  As in Go, entries
// deleted before they are reached are not produced and values are read when the
// entry is reached; entries added during the iteration are not produced (which
// Go permits).
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func keysOf[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	order(keys)
	return keys
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	switch reflect.TypeOf(keys[0]).Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(a, b int) bool {
			return reflect.ValueOf(keys[a]).Int() < reflect.ValueOf(keys[b]).Int()
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(a, b int) bool {
			return reflect.ValueOf(keys[a]).Uint() < reflect.ValueOf(keys[b]).Uint()
		})
	case reflect.String:
		sort.Slice(keys, func(a, b int) bool {
			return reflect.ValueOf(keys[a]).String() < reflect.ValueOf(keys[b]).String()
		})
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		// no canonical order: describe the pointee
		sort.SliceStable(keys, func(a, b int) bool {
			return fmt.Sprintf("%+v", reflect.ValueOf(keys[a]).Elem()) < fmt.Sprintf("%+v", reflect.ValueOf(keys[b]).Elem())
		})
	default:
		sort.SliceStable(keys, func(a, b int) bool {
			return fmt.Sprintf("%T%#v", keys[a], keys[a]) < fmt.Sprintf("%T%#v", keys[b], keys[b])
		})
	}
}

//go:norace
func order[K comparable](keys []K) {
	if !active {
		return
	}
	n := len(keys)
	call := cnt.MapRanges
	cnt.MapRanges++
	cnt.MapElems += n
	if n < 2 {
		return
	}
	if call < cfg.MapLo || (cfg.MapHi > 0 && call >= cfg.MapHi) {
		return
	}
	switch cfg.MapMode {
	case "reverse":
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case "rotate":
		s := cfg.MapSeed ^ uint64(call)*0x9e37
		r := int(splitmix(&s) % uint64(n))
		tmp := append(append([]K(nil), keys[r:]...), keys[:r]...)
		copy(keys, tmp)
	case "shuffle":
		s := cfg.MapSeed ^ uint64(call)*0x9e3779b97f4a7c15
		for i := n - 1; i > 0; i-- {
			j := int(splitmix(&s) % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
			cnt.MapSig = mix(cnt.MapSig, uint64(j))
		}
	}
}

// Range starts an iteration with both key and value.
func Range[K comparable, V any](m map[K]V) (it *MapIter[K, V], k K, v V) {
	return &MapIter[K, V]{m: m, keys: keysOf(m)}, k, v
}

// RangeK starts an iteration over keys.
func RangeK[K comparable, V any](m map[K]V) (it *MapIter[K, V], k K) {
	return &MapIter[K, V]{m: m, keys: keysOf(m)}, k
}

// RangeV starts an iteration over values.
func RangeV[K comparable, V any](m map[K]V) (it *MapIter[K, V], v V) {
	return &MapIter[K, V]{m: m, keys: keysOf(m)}, v
}

// RangeI starts an iteration whose variables live outside.
func RangeI[K comparable, V any](m map[K]V) *MapIter[K, V] {
	return &MapIter[K, V]{m: m, keys: keysOf(m)}
}

// Next moves to the next live entry.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// NextK moves on and stores the key only.
func (it *MapIter[K, V]) NextK(k *K) bool { return it.Next(k, nil) }

// NextV moves on and stores the value only.
func (it *MapIter[K, V]) NextV(v *V) bool { return it.Next(nil, v) }

// Keys replaces reflect and maps helpers that expose map order.
func Keys[K comparable, V any](m map[K]V) []K { return keysOf(m) }

// MapKeys replaces reflect.Value.MapKeys.
func MapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.SliceStable(ks, func(a, b int) bool {
		return fmt.Sprint(ks[a].Interface()) < fmt.Sprint(ks[b].Interface())
	})
	return ks
}
