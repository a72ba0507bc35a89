//go:build go1.21

package sim

import (
	"fmt"
	"hash/maphash"
	"os"
	"reflect"
	"sort"
	"strconv"
)

// Map iteration: the keys present when the loop starts are put into a canonical
// order and then permuted by a recorded choice.

type keyTab struct {
	k  []any
	id []int
	n  int
}

var kseed = maphash.MakeSeed()

func (t *keyTab) grow() {
	ok, oid := t.k, t.id
	m := 2*len(ok) + 64
	t.k = make([]any, m)
	t.id = make([]int, m)
	for i := range ok {
		if oid[i] != 0 {
			t.put(ok[i], oid[i])
		}
	}
}

func (t *keyTab) put(k any, id int) {
	i := int(maphash.Comparable(kseed, k) % uint64(len(t.k)))
	for t.id[i] != 0 {
		i = (i + 1) % len(t.k)
	}
	t.k[i] = k
	t.id[i] = id
}

func (t *keyTab) get(k any, add bool) int {
	if len(t.k) > 0 {
		i := int(maphash.Comparable(kseed, k) % uint64(len(t.k)))
		for t.id[i] != 0 {
			if t.k[i] == k {
				return t.id[i]
			}
			i = (i + 1) % len(t.k)
		}
	}
	if !add {
		return 0
	}
	if 2*(t.n+1) > len(t.k) {
		t.grow()
	}
	t.n++
	t.put(k, t.n)
	return t.n
}

var initKeys keyTab
var InitMapSeed uint64

// KeyOf registers k (the first insertion gives a key its place in the canonical order).
//
//go:norace
func KeyOf[M ~map[K]V, K comparable, V any](m M, k K) K {
	regKey(any(k))
	return k
}

func regKey(k any) {
	switch k.(type) {
	case nil, string, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, bool, float32, float64:
		return
	}
	if !reflect.TypeOf(k).Comparable() {
		return
	}
	if R != nil && InSim() {
		R.keys.get(k, true)
	} else {
		initKeys.get(k, true)
	}
}

type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// RangeMap starts an iteration.
//
//go:norace
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var zk K
	var zv V
	it := &MapIter[K, V]{m: m}
	if len(m) == 0 {
		return it, zk, zv
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		ids := make([]any, len(keys))
		for i := range keys {
			ids[i] = any(keys[i])
		}
		perm := orderKeys(ids)
		nk := make([]K, len(keys))
		for i, p := range perm {
			nk[i] = keys[p]
		}
		keys = nk
	}
	it.keys = keys
	return it, zk, zv
}

//go:norace
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func keyLess(a, b any) (less, ok bool) {
	switch x := a.(type) {
	case string:
		if y, k := b.(string); k {
			return x < y, true
		}
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if a == nil || b == nil || va.Kind() != vb.Kind() {
		return false, false
	}
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint(), true
	case reflect.Float32, reflect.Float64:
		return va.Float() < vb.Float(), true
	case reflect.Bool:
		return !va.Bool() && vb.Bool(), true
	}
	return false, false
}

func keyID(k any) int {
	if R != nil {
		if id := R.keys.get(k, false); id != 0 {
			return id + 1<<30
		}
	}
	return initKeys.get(k, false)
}

func orderKeys(keys []any) []int {
	n := len(keys)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if _, ok := keyLess(keys[0], keys[n-1]); ok {
		sort.Slice(perm, func(i, j int) bool {
			l, ok := keyLess(keys[perm[i]], keys[perm[j]])
			if !ok {
				return fmt.Sprintf("%T", keys[perm[i]]) < fmt.Sprintf("%T", keys[perm[j]])
			}
			return l
		})
	} else {
		ids := make([]int, n)
		for i, k := range keys {
			ids[i] = keyID(k)
			if ids[i] == 0 && R != nil {
				R.Unkeyed++
			}
		}
		sort.SliceStable(perm, func(i, j int) bool { return ids[perm[i]] < ids[perm[j]] })
	}
	var seed uint64
	if R != nil && InSim() {
		R.MapRanges++
		if !R.Replay && R.MapMode == 0 {
			return perm
		}
		if R.MapMode == 0 {
			return perm
		}
		seed = uint64(R.draw(SM, 1<<16, func(p *prng) int {
			if p.n(3) == 0 {
				return 1 // reversed
			}
			return p.n(1 << 16)
		}))
	} else {
		seed = InitMapSeed
	}
	switch seed {
	case 0:
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			perm[i], perm[j] = perm[j], perm[i]
		}
	default:
		g := prng{seed * 0x9e3779b97f4a7c15}
		for i := n - 1; i > 0; i-- {
			j := g.n(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	return perm
}

func init() {
	if s := os.Getenv("MOLESIM_INITSEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			InitMapSeed = v
		}
	}
}
