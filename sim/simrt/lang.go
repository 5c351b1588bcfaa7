package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// ---- map iteration -------------------------------------------------------

// Iter iterates over a map in an order drawn from the run's seed.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
}

func newIter[M ~map[K]V, K comparable, V any](m M) *Iter[M, K, V] {
	it := &Iter[M, K, V]{m: m}
	if len(m) == 0 {
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if ks, ok := any(it.keys).([]string); ok {
		sort.Strings(ks)
	} else {
		sort.SliceStable(it.keys, func(a, b int) bool {
			return fmt.Sprint(it.keys[a]) < fmt.Sprint(it.keys[b])
		})
	}
	for i := len(it.keys) - 1; i > 0; i-- {
		j := Choice(StreamMap, i+1)
		it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
	}
	return it
}

func MapIterKV[M ~map[K]V, K comparable, V any](m M) (*Iter[M, K, V], K, V) {
	var k K
	var v V
	return newIter(m), k, v
}

func MapIterK[M ~map[K]V, K comparable, V any](m M) (*Iter[M, K, V], K) {
	var k K
	return newIter(m), k
}

func MapIterV[M ~map[K]V, K comparable, V any](m M) (*Iter[M, K, V], V) {
	var v V
	return newIter(m), v
}

func MapIter0[M ~map[K]V, K comparable, V any](m M) *Iter[M, K, V] { return newIter(m) }

func (it *Iter[M, K, V]) NextKV(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if val, ok := it.m[key]; ok {
			if k != nil {
				*k = key
			}
			if v != nil {
				*v = val
			}
			return true
		}
	}
	return false
}

func (it *Iter[M, K, V]) NextK(k *K) bool { return it.NextKV(k, nil) }
func (it *Iter[M, K, V]) NextV(v *V) bool { return it.NextKV(nil, v) }

// ---- select --------------------------------------------------------------

type SelCase interface{ rc() reflect.SelectCase }
type selRecver interface {
	set(v reflect.Value, ok bool)
}

type RecvC[T any] struct {
	ch <-chan T
	V  T
	Ok bool
}

func (c *RecvC[T]) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RecvC[T]) set(v reflect.Value, ok bool) {
	c.Ok = ok
	if ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	} else {
		var z T
		c.V = z
	}
}

type SendC[T any] struct {
	ch chan<- T
	v  T
}

func (c *SendC[T]) rc() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func SelRecv[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }
func SelSend[T any](ch chan<- T) *SendC[T] { return &SendC[T]{ch: ch} }

// With sets the value to send.
func (c *SendC[T]) With(v T) *SendC[T] { c.v = v; return c }

// Select polls the cases in an order drawn from the seed; when none is ready it
// takes the default (-1) or blocks.
func Select(hasDefault bool, cases ...SelCase) int {
	n := len(cases)
	var buf [8]reflect.SelectCase
	rcs := buf[:0]
	for _, c := range cases {
		rcs = append(rcs, c.rc())
	}
	var idx [8]int
	ord := idx[:0]
	for i := 0; i < n; i++ {
		ord = append(ord, i)
	}
	for i := n - 1; i > 0; i-- {
		j := Choice(StreamSelect, i+1)
		ord[i], ord[j] = ord[j], ord[i]
	}
	for _, i := range ord {
		got, v, ok := reflect.Select([]reflect.SelectCase{rcs[i], {Dir: reflect.SelectDefault}})
		if got == 0 {
			if r, is := cases[i].(selRecver); is {
				r.set(v, ok)
			}
			return i
		}
	}
	if hasDefault {
		return -1
	}
	got, v, ok := reflect.Select(rcs)
	if r, is := cases[got].(selRecver); is {
		r.set(v, ok)
	}
	return got
}
