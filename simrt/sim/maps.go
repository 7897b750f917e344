package sim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// MapEnt is one step of a simulated map iteration.
type MapEnt[M ~map[K]V, K comparable, V any] struct {
	m M
	K K
}

func (e MapEnt[M, K, V]) Live() bool {
	_, ok := e.m[e.K]
	return ok
}

func (e MapEnt[M, K, V]) V() V { return e.m[e.K] }

// MapRange returns the entries of m in a seeded order.
func MapRange[M ~map[K]V, K comparable, V any](m M) []MapEnt[M, K, V] {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if cur != nil && !cur.dead && len(keys) > 1 {
		st := S.stream("map")
		for i := len(keys) - 1; i > 0; i-- {
			j := i - st.Choose(i+1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	out := make([]MapEnt[M, K, V], len(keys))
	for i, k := range keys {
		out[i] = MapEnt[M, K, V]{m, k}
	}
	return out
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	if len(keys) == 0 {
		return
	}
	switch reflect.TypeOf(&keys[0]).Elem().Kind() {
	case reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
		return
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
		return
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
		return
	}
	txt := make([]string, len(keys))
	for i, k := range keys {
		v := reflect.ValueOf(k)
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if v.Kind() == reflect.Pointer && !v.IsNil() {
			txt[i] = fmt.Sprintf("%T%+v", k, v.Elem())
		} else {
			txt[i] = fmt.Sprintf("%T%+v", k, k)
		}
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return txt[idx[a]] < txt[idx[b]] })
	out := make([]K, len(keys))
	for i, k := range idx {
		out[i] = keys[k]
	}
	copy(keys, out)
}

// MR and MW mark a read and a write of a map in an instrumented package.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(*(*uintptr)(unsafe.Pointer(&m)), m, false)
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(*(*uintptr)(unsafe.Pointer(&m)), m, true)
	return m
}
