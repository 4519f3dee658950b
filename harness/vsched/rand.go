package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
)

// pick enumerates a random number below n: all values if there are few,
// otherwise the smallest, a middle and the largest.
func (e *Exec) pick(n int) int {
	if e.ending || e.quiet || e.cfg.RandFixed {
		return 0
	}
	if n <= 4 {
		return e.choose(n, n, "rand")
	}
	return []int{0, n / 2, n - 1}[e.choose(3, 3, "rand")]
}

func RandIntn(n int) int {
	if e := active(); e != nil {
		if n <= 0 {
			panic("invalid argument to Intn")
		}
		return e.pick(n)
	}
	return rand.Intn(n)
}
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }
func RandInt63n(n int64) int64 { return int64(RandIntn(int(n))) }
func RandN64(n int64) int64    { return int64(RandIntn(int(n))) }
func RandInt() int {
	if e := active(); e != nil {
		return e.pick(3)
	}
	return rand.Int()
}
func RandUint32() uint32 {
	if e := active(); e != nil {
		return uint32(e.pick(3))
	}
	return rand.Uint32()
}
func RandUint64() uint64 {
	if e := active(); e != nil {
		return uint64(e.pick(3))
	}
	return rand.Uint64()
}

// RandFloat64 enumerates representative values of [0,1).
func RandFloat64() float64 {
	if e := active(); e != nil {
		return []float64{0.5, 0, 0.04, 0.999999}[e.pick(4)]
	}
	return rand.Float64()
}

func RandShuffle(n int, swap func(i, j int)) {
	if e := active(); e != nil {
		for i := n - 1; i > 0; i-- {
			swap(i, e.pick(i+1))
		}
		return
	}
	rand.Shuffle(n, swap)
}

func RandPerm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	RandShuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func less[K comparable](a, b K) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Less(va.Int(), vb.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return cmp.Less(va.Uint(), vb.Uint())
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// realOrder is the number of the iteration order of maps in a program that runs
// on its own.
var realOrder = os.Getenv("VH_MAPORDER")

// RangeMap iterates over a map in a controlled order: sorted, or every order
// if the exploration asks for it.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	e := active()
	return func(yield func(K, V) bool) {
		if e == nil && realOrder == "" || e != nil && e.ending {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		mapAccess(m, false)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
		number, _ := strconv.Atoi(realOrder)
		for len(keys) > 0 {
			i := 0
			if e == nil {
				i = number % len(keys)
				number /= len(keys)
			} else if e.cfg.MapOrder && len(keys) > 1 && len(keys) <= 4 {
				i = e.choose(len(keys), len(keys), "map")
			}
			k := keys[i]
			keys = append(keys[:i:i], keys[i+1:]...)
			mapAccess(m, false)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
