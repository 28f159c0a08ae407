package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"time"
	"unsafe"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/skiplist"
)

var cmps = []func(a, b int) int{
	func(a, b int) int { return a - b },
	func(a, b int) int { return b - a },
	func(a, b int) int {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	},
	// keys that differ only in the last decimal digit are the same key
	func(a, b int) int { return a/10 - b/10 },
}

// src is a random source under the control of the test
type src struct{ next func() uint64 }

func (s *src) Seed(int64)     {}
func (s *src) Int63() int64   { return int64(s.next() >> 1) }
func (s *src) Uint64() uint64 { return s.next() }

// control puts the level choice of the list under the control of next; it reports whether it could
func control(sl any, next func() uint64) bool {
	v := reflect.ValueOf(sl).Elem()
	done := false
	if v.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*rand.Rand)(nil)) {
			*(**rand.Rand)(unsafe.Pointer(f.UnsafeAddr())) = rand.New(&src{next})
			done = true
		}
	}
	return done
}

// draw is a random number that makes the list choose level l of n
func draw(l, n int) uint64 {
	// the number of draws that choose a level above l is 2^(n-l) - 1
	return uint64(1)<<uint64(n-l) - 1
}

type ent struct{ k, v int }

type model struct {
	c  func(a, b int) int
	es []ent
}

func (m *model) find(k int) (int, bool) {
	for i, e := range m.es {
		switch r := m.c(e.k, k); {
		case r == 0:
			return i, true
		case r > 0:
			return i, false
		}
	}
	return len(m.es), false
}

func (m *model) insert(k, v int) {
	i, ok := m.find(k)
	if ok {
		m.es[i].v = v
		return
	}
	m.es = append(m.es, ent{})
	copy(m.es[i+1:], m.es[i:])
	m.es[i] = ent{k, v}
}

func (m *model) remove(k int) bool {
	i, ok := m.find(k)
	if ok {
		m.es = append(m.es[:i:i], m.es[i+1:]...)
	}
	return ok
}

type list = skiplist.Skiplist[int, int]

func get(h *hx.H, sl *list, m *model, k int) {
	i, ok := m.find(k)
	v, err := sl.Get(k)
	if ok {
		h.Check(err == nil && v == m.es[i].v, "Get(%d) gives %d and error %v, want %d", k, v, err, m.es[i].v)
	} else {
		h.Check(err == skiplist.ErrorNotFound && v == 0, "Get(%d) gives %d and error %v for an absent key", k, v, err)
	}
}

func check(h *hx.H, sl *list, m *model, kmax int) {
	h.Check(sl.Len() == len(m.es), "Len gives %d, want %d", sl.Len(), len(m.es))
	keys := sl.Keys()
	h.Check(len(keys) == len(m.es), "Keys gives %v, the entries are %v", keys, m.es)
	for i, k := range keys {
		h.Check(k == m.es[i].k, "Keys gives %v, the entries are %v", keys, m.es)
	}
	var seen []ent
	sl.Traversal(func(k, v int) bool {
		seen = append(seen, ent{k, v})
		return len(seen) <= len(m.es)
	})
	h.Check(len(seen) == len(m.es), "Traversal visits %v, the entries are %v", seen, m.es)
	for i, e := range seen {
		h.Check(e == m.es[i], "Traversal visits %v, the entries are %v", seen, m.es)
	}
	if len(m.es) > 0 {
		stop := 1 + h.R.Intn(len(m.es))
		n := 0
		sl.Traversal(func(k, v int) bool { n++; return n < stop })
		h.Check(n == stop, "Traversal visits %d entries when the visitor stops it at the %d-th", n, stop)
	}
	for k := -1; k <= kmax; k++ {
		get(h, sl, m, k)
	}
	if len(keys) > 0 {
		keys[0] = 1 << 40 // the keys are the caller's
	}
}

func build(n int, safe bool, c func(a, b int) int) *list {
	var opts []skiplist.Option
	if n > 0 {
		opts = append(opts, skiplist.WithMaxLevel(n))
	}
	if safe {
		opts = append(opts, skiplist.WithGoroutineSafe())
	}
	return skiplist.New[int, int](c, opts...)
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("every short history of inserts and removes of 3 keys with every level choice for lists of 1 to 3 levels; then random histories with random levels, comparators and maximal levels from 1 to 63, two lists side by side, against a sorted slice")
		start := time.Now()
		done := true
		controlled := control(build(0, false, cmps[0]), func() uint64 { return 0 })
		for n := 1; n <= 3 && done && controlled; n++ {
			// an operation is a removal of one of 3 keys or an insertion of one of 3 keys at one of n levels
			ops := 3 + 3*n
			length := 4
			if n == 1 {
				length = 6
			}
			total := 1
			for i := 0; i < length; i++ {
				total *= ops
			}
			for x := 0; x < total && done; x++ {
				h.Begin("skiplist", "levels", n, "all histories")
				var u uint64
				sl := build(n, x%2 == 1, cmps[0])
				control(sl, func() uint64 { return u })
				m := &model{c: cmps[0]}
				for i, y := 0, x; i < length; i, y = i+1, y/ops {
					o := y % ops
					k := o % 3
					if o < 3 {
						h.Op("Remove", k)
						w := m.remove(k)
						h.Check(sl.Remove(k) == w, "Remove(%d): want %v", k, w)
					} else {
						l := o / 3
						u = draw(l, n)
						h.Op("Insert", k, i+1, "level", l)
						sl.Insert(k, i+1)
						m.insert(k, i+1)
					}
					check(h, sl, m, 3)
				}
				if x%64 == 0 {
					done = h.Until(0.5, budget, start)
				}
			}
			if done {
				h.Exhaustive(fmt.Sprintf("every history of %d operations on 3 keys with every level choice, for maximal level %d", length, n))
			}
		}
		for round := 0; h.More(); round++ {
			ci := h.R.Intn(len(cmps))
			c := cmps[ci]
			n := h.R.Intn(13)
			if h.R.Intn(3) == 0 {
				n = 1 + h.R.Intn(63)
			}
			kmax := 3 + h.R.Intn(12)
			if h.R.Intn(6) == 0 {
				kmax = 100 + h.R.Intn(300)
			}
			h.Begin("skiplist", "comparator", ci, "levels", n)
			real := n
			if n == 0 {
				real = 10
			}
			mk := func(safe bool) (*list, *model) {
				sl := build(n, safe, c)
				if h.R.Intn(4) != 0 {
					control(sl, func() uint64 {
						switch h.R.Intn(3) {
						case 0:
							return draw(1+h.R.Intn(real), real)
						case 1:
							return ^uint64(0) - uint64(h.R.Intn(3))
						}
						return h.R.Uint64()
					})
				}
				return sl, &model{c: c}
			}
			sa, ma := mk(round%2 == 1)
			sb, mb := mk(round%2 == 0)
			steps := 30 + h.R.Intn(60)
			if kmax >= 100 {
				steps = 4 * kmax
			}
			for i := 0; i < steps; i++ {
				sl, m, name := sa, ma, "a"
				if h.R.Intn(4) == 0 {
					sl, m, name = sb, mb, "b"
				}
				k := h.R.Intn(kmax)
				switch h.R.Intn(7) {
				case 0, 1, 2:
					v := h.R.Intn(1000)
					h.Op(name, "Insert", k, v)
					sl.Insert(k, v)
					m.insert(k, v)
				case 3, 4:
					h.Op(name, "Remove", k)
					w := m.remove(k)
					h.Check(sl.Remove(k) == w, "Remove(%d): want %v", k, w)
				default:
					h.Op(name, "Get", k)
					get(h, sl, m, k)
				}
				if i == steps-1 || kmax < 100 && i%3 == 0 {
					check(h, sa, ma, kmax)
					check(h, sb, mb, kmax)
				}
			}
		}
	})
}
