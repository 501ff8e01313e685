//go:build go1.23

package vs

import (
	"cmp"
	"fmt"
	"iter"
	"sort"
)

// Map orders of a site.
const (
	Sorted = iota
	Reversed
	Alternating // sorted and reversed in turn
	Rotated
	SwapFirst
	SwapLast
	Orders
)

func keysOf[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		texts := make([]string, len(keys))
		for i, k := range keys {
			texts[i] = text(k)
		}
		sort.Sort(&byText[K]{keys, texts})
	}
	return keys
}

func text(k any) string {
	switch x := k.(type) {
	case string:
		return x
	case int:
		return fmt.Sprintf("%020d", x)
	}
	return fmt.Sprintf("%#v", k)
}

type byText[K any] struct {
	keys  []K
	texts []string
}

func (b *byText[K]) Len() int           { return len(b.keys) }
func (b *byText[K]) Less(i, j int) bool { return cmp.Less(b.texts[i], b.texts[j]) }
func (b *byText[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.texts[i], b.texts[j] = b.texts[j], b.texts[i]
}

// siteState is the use of one site in a run.
type siteState struct {
	next   *siteState
	name   string
	order  int
	visits int
}

// orderOf is the order in which a site visits its map this time.
//
//go:norace
func orderOf(site string, n int) int {
	c := ctl
	if c == nil || n < 2 {
		return Sorted
	}
	last := &c.sites
	for ; *last != nil; last = &(*last).next {
		if (*last).name == site {
			break
		}
	}
	if *last == nil {
		*last = &siteState{name: site}
		for i := range c.orders {
			if c.orders[i].Site == site {
				(*last).order = c.orders[i].Order
			}
		}
	}
	st := *last
	st.visits++
	if st.order == Alternating {
		return (st.visits - 1) % 2
	}
	return st.order
}

func arrange[K any](keys []K, order int) {
	n := len(keys)
	switch order {
	case Reversed:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case Rotated:
		first := keys[0]
		copy(keys, keys[1:])
		keys[n-1] = first
	case SwapFirst:
		keys[0], keys[1] = keys[1], keys[0]
	case SwapLast:
		keys[n-1], keys[n-2] = keys[n-2], keys[n-1]
	}
}

// RangeMap visits a map in the order chosen for the site.
func RangeMap[M ~map[K]V, K comparable, V any](site string, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := keysOf(m)
		if len(keys) > 1 {
			arrange(keys, orderOf(site, len(keys)))
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue // removed during the loop
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys stands for maps.Keys.
func MapKeys[M ~map[K]V, K comparable, V any](site string, m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(site, m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues stands for maps.Values.
func MapValues[M ~map[K]V, K comparable, V any](site string, m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap(site, m) {
			if !yield(v) {
				return
			}
		}
	}
}

// RangeChan stands for range over a channel.
func RangeChan[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
