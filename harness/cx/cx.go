// Package cx makes the ranges the algorithm checks run on.
package cx

import (
	"fmt"
	"math"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// E is an element: comparators look at K only
type E struct{ K, ID int }

type RA = iterator.RandomAccessIterator[E]
type Bid = iterator.BidIterator[E]

const NRA = 5 // kinds with random access

var names = []string{"array", "vector", "deque", "slice", "guarded", "list"}

// C is a container with elements
type C struct {
	Kind string
	At   func(p int) RA
	Bid  func(p int) Bid
	Dump func() []E
	G    *Guard
}

// Guard is a plain slice whose iterators notice reads and writes outside [Lo, Hi)
type Guard struct {
	S        []E
	Lo, Hi   int
	Writable bool
	h        *hx.H
}

type git struct {
	g *Guard
	p int
}

func (i *git) IsValid() bool { return i.p >= 0 && i.p < len(i.g.S) }
func (i *git) Next() iterator.ConstIterator[E] {
	if i.p < len(i.g.S) {
		i.p++
	}
	return i
}
func (i *git) Prev() iterator.ConstBidIterator[E] {
	if i.p >= 0 {
		i.p--
	}
	return i
}
func (i *git) Value() E {
	i.g.h.Check(i.p >= i.g.Lo && i.p < i.g.Hi, "position %d is examined, outside the range [%d, %d)", i.p, i.g.Lo, i.g.Hi)
	return i.g.S[i.p]
}
func (i *git) SetValue(v E) {
	i.g.h.Check(i.g.Writable, "an element is written")
	i.g.h.Check(i.p >= i.g.Lo && i.p < i.g.Hi, "position %d is written, outside the range [%d, %d)", i.p, i.g.Lo, i.g.Hi)
	i.g.S[i.p] = v
}
func (i *git) Clone() iterator.ConstIterator[E] { return &git{i.g, i.p} }
func (i *git) Equal(o iterator.ConstIterator[E]) bool {
	x, ok := o.(*git)
	return ok && x.p == i.p && x.g == i.g
}
func (i *git) IteratorAt(p int) RA { return &git{i.g, p} }
func (i *git) Position() int       { return i.p }

// Make builds a container of the kind with the elements
func Make(h *hx.H, kind int, s []E, lo, hi int, writable bool) *C {
	c := &C{Kind: names[kind]}
	n := len(s)
	switch kind {
	case 0:
		a := array.New[E](n)
		for i, e := range s {
			a.Set(i, e)
		}
		c.At = func(p int) RA { return a.Begin().IteratorAt(p) }
		c.Dump = func() (r []E) {
			for i := 0; i < a.Size(); i++ {
				r = append(r, a.At(i))
			}
			return
		}
	case 1:
		a := vector.New[E]()
		for _, e := range s {
			a.PushBack(e)
		}
		c.At = func(p int) RA { return a.Begin().IteratorAt(p) }
		c.Dump = func() (r []E) {
			for i := 0; i < a.Size(); i++ {
				r = append(r, a.At(i))
			}
			return
		}
	case 2:
		a := deque.New[E]()
		k := h.R.Intn(n + 1)
		for i := k; i < n; i++ {
			a.PushBack(s[i])
		}
		for i := k - 1; i >= 0; i-- {
			a.PushFront(s[i])
		}
		c.At = func(p int) RA { return a.Begin().IteratorAt(p) }
		c.Dump = func() (r []E) {
			for i := 0; i < a.Size(); i++ {
				r = append(r, a.At(i))
			}
			return
		}
	case 3:
		x := append([]E(nil), s...)
		a := slice.NewSliceWrapper(x)
		c.At = func(p int) RA { return a.Begin().IteratorAt(p) }
		c.Dump = func() []E { return append([]E(nil), x...) }
	case 4:
		g := &Guard{S: append([]E(nil), s...), Lo: lo, Hi: hi, Writable: writable, h: h}
		c.G = g
		c.At = func(p int) RA { return &git{g, p} }
		c.Dump = func() []E { return append([]E(nil), g.S...) }
	case 5:
		l := bidlist.New[E]()
		for _, e := range s {
			l.PushBack(e)
		}
		c.Bid = func(p int) Bid {
			if p == n {
				// an iterator past the last element
				it := bidlist.NewIterator[E](l.FrontNode())
				for i := 0; i < n; i++ {
					it.Next()
				}
				return it
			}
			x := l.FrontNode()
			for i := 0; i < p; i++ {
				x = x.Next()
			}
			return bidlist.NewIterator[E](x)
		}
		c.Dump = func() (r []E) {
			for x := l.FrontNode(); x != nil; x = x.Next() {
				r = append(r, x.Value)
			}
			return
		}
	}
	if c.Bid == nil {
		c.Bid = func(p int) Bid { return c.At(p) }
	}
	return c
}

// Same fails when the contents are not want
func (c *C) Same(h *hx.H, want []E, what string) {
	got := c.Dump()
	h.Check(len(got) == len(want), "%s: %s has %d elements instead of %d", c.Kind, what, len(got), len(want))
	for i := range got {
		h.Check(got[i] == want[i], "%s: %s holds %v at %d instead of %v", c.Kind, what, got[i], i, want[i])
	}
}

// Cmp makes one of several comparators of keys; the sign is all that may matter
func Cmp(k int) (string, comparator.Comparator[E]) {
	switch k % 4 {
	case 0:
		return "difference", func(a, b E) int { return a.K - b.K }
	case 1:
		return "sign", func(a, b E) int {
			switch {
			case a.K < b.K:
				return -1
			case a.K > b.K:
				return 1
			}
			return 0
		}
	case 2:
		return "descending", func(a, b E) int { return (b.K - a.K) * 7 }
	}
	return "extreme", func(a, b E) int {
		switch {
		case a.K < b.K:
			return math.MinInt + 1
		case a.K > b.K:
			return math.MaxInt
		}
		return 0
	}
}

// Keys makes n keys of a shape
func Keys(h *hx.H, n int) []int {
	r := make([]int, n)
	m := 1 + h.R.Intn(n+2)
	switch h.R.Intn(8) {
	case 0:
		for i := range r {
			r[i] = h.R.Intn(3)
		}
	case 1:
		for i := range r {
			r[i] = i
		}
	case 2:
		for i := range r {
			r[i] = n - i
		}
	case 3:
		for i := range r {
			r[i] = 5
		}
	case 4:
		for i := range r {
			r[i] = i % m
		}
	case 5:
		for i := range r {
			if i < n/2 {
				r[i] = i
			} else {
				r[i] = n - i
			}
		}
	case 6:
		for i := range r {
			r[i] = i / 3
		}
		if n > 1 {
			i, j := h.R.Intn(n), h.R.Intn(n)
			r[i], r[j] = r[j], r[i]
		}
	default:
		for i := range r {
			r[i] = h.R.Intn(m)
		}
	}
	return r
}

// Elems gives the keys identities
func Elems(keys []int) []E {
	r := make([]E, len(keys))
	for i, k := range keys {
		r[i] = E{k, i}
	}
	return r
}

// Desc describes a case
func Desc(c *C, s []E, lo, hi int, cmp string) string {
	t := fmt.Sprintf("%s", c.Kind)
	if len(s) > 60 {
		return fmt.Sprintf("%s %d elements starting %v range [%d, %d) %s", t, len(s), s[:60], lo, hi, cmp)
	}
	return fmt.Sprintf("%s %v range [%d, %d) %s", t, s, lo, hi, cmp)
}

// Small calls f for every key sequence over alphabet k up to length n, as ranges
// of a container with some elements around
func Small(k, n int, f func(keys []int) bool) bool {
	for l := 0; l <= n; l++ {
		s := make([]int, l)
		for {
			if !f(s) {
				return false
			}
			i := l - 1
			for i >= 0 && s[i] == k-1 {
				s[i] = 0
				i--
			}
			if i < 0 {
				break
			}
			s[i]++
		}
	}
	return true
}

// Pad surrounds the keys by others
func Pad(h *hx.H, keys []int) (all []int, lo, hi int) {
	a, b := h.R.Intn(3), h.R.Intn(3)
	for i := 0; i < a; i++ {
		all = append(all, h.R.Intn(4)-1)
	}
	all = append(all, keys...)
	for i := 0; i < b; i++ {
		all = append(all, h.R.Intn(4)-1)
	}
	return all, a, a + len(keys)
}
