package simenv

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"verifsim/sim"
)

// MapRange is the range over a map, in an order which the simulator chooses.
type MapRange[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapRange[K, V], K, V) {
	r := &MapRange[K, V]{m: m, keys: make([]K, 0, len(m))}
	strs := make([]string, 0, len(m))
	for k := range m {
		r.keys = append(r.keys, k)
		strs = append(strs, describe(k))
	}
	sort.Stable(&byName[K]{r.keys, strs})
	for i := len(r.keys) - 1; i > 0; i-- {
		j := sim.Choose(i + 1)
		r.keys[i], r.keys[j] = r.keys[j], r.keys[i]
	}
	var k K
	var v V
	return r, k, v
}

// Next skips what was deleted meanwhile.
func (r *MapRange[K, V]) Next(k *K, v *V) bool {
	for r.i < len(r.keys) {
		key := r.keys[r.i]
		r.i++
		val, ok := r.m[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

type byName[K any] struct {
	keys []K
	strs []string
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.strs[i] < b.strs[j] }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.strs[i], b.strs[j] = b.strs[j], b.strs[i]
}

// describe without addresses, which are not the same in every process.
func describe(k any) string {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", uint64(v.Int())^1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%020d", math.Float64bits(v.Float()))
	case reflect.String:
		return v.String()
	case reflect.Pointer:
		if v.IsNil() {
			return ""
		}
		if e := v.Elem(); e.CanInterface() {
			return fmt.Sprintf("%T %s", k, describe(e.Interface()))
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return fmt.Sprintf("%T", k)
	}
	return fmt.Sprintf("%T %v", k, k)
}

// The clock is where nothing but steps and sleep move it.
var (
	begin = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	slept time.Duration
	since uint64 // epoch
)

//go:norace
func Now() time.Time {
	fresh()
	if s := sim.Cur(); s != nil {
		return begin.Add(slept + time.Duration(s.Steps())*time.Microsecond)
	}
	return begin
}

//go:norace
func fresh() {
	if e := sim.Epoch(); e != since {
		since = e
		slept = 0
	}
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep lets others run; time passes.
func Sleep(d time.Duration) {
	if sim.Active() {
		for i := 0; i < 8; i++ {
			sim.Point()
		}
	}
	pass(d)
}

//go:norace
func pass(d time.Duration) {
	fresh()
	if d > 0 {
		slept += d
	}
}

// After is a channel on which the time is sent, later.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	sim.GoTask(func() {
		Sleep(d)
		OnSend(ch).With(Now()).Do()
	})
	return ch
}
