//go:build go1.25

package rt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIter replaces range over a map: the order is random in Go and comes from
// the run's seed here.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	site uint32
}

func newIter[M ~map[K]V, K comparable, V any](site uint32, m M) *MapIter[K, V] {
	MR(site, m)
	it := &MapIter[K, V]{m: m, site: site}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		strs := make([]string, len(it.keys))
		for i, k := range it.keys {
			strs[i] = keyString(k)
		}
		sort.Sort(&byStr[K]{it.keys, strs})
		if S != nil {
			r := S.Stream("maporder")
			for i := len(it.keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func keyString(k any) string {
	switch x := k.(type) {
	case string:
		return x
	case int:
		return fmt.Sprintf("%020d", x)
	case uint64:
		return fmt.Sprintf("%020d", x)
	case [16]byte:
		return string(x[:])
	}
	return fmt.Sprintf("%020v", k)
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

func Iter0[M ~map[K]V, K comparable, V any](site uint32, m M) *MapIter[K, V] {
	return newIter[M, K, V](site, m)
}
func Iter1[M ~map[K]V, K comparable, V any](site uint32, m M) (*MapIter[K, V], K) {
	var k K
	return newIter[M, K, V](site, m), k
}
func Iter2[M ~map[K]V, K comparable, V any](site uint32, m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	return newIter[M, K, V](site, m), k, v
}
func IterV[M ~map[K]V, K comparable, V any](site uint32, m M) (*MapIter[K, V], V) {
	var v V
	return newIter[M, K, V](site, m), v
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		MR(it.site, it.m)
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

// SiteJSON stands for the JSON encoder.
const SiteJSON = 0

// SortedKeys lists the keys of a map in a deterministic order.
func SortedKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	strs := make([]string, len(ks))
	for i, k := range ks {
		strs[i] = fmt.Sprint(k.Interface())
	}
	sort.Sort(&byStr[reflect.Value]{ks, strs})
	return ks
}
