package main

import (
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/set"
)

var cmps = []func(a, b int) int{
	func(a, b int) int { return a - b },
	func(a, b int) int { return b - a },
	func(a, b int) int {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	},
}

func elems(s *set.Set[int]) []int {
	var r []int
	for i := s.Begin(); i.IsValid(); i.Next() {
		r = append(r, i.Value())
	}
	return r
}

func has(s []int, k int) bool {
	for _, x := range s {
		if x == k {
			return true
		}
	}
	return false
}

// want is the ordered result of an operation on ordered elements
func want(op int, a, b []int, c func(a, b int) int) []int {
	var r []int
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		var k int
		if j == len(b) || i < len(a) && c(a[i], b[j]) <= 0 {
			k = a[i]
		} else {
			k = b[j]
		}
		x, y := i < len(a) && c(a[i], k) == 0, j < len(b) && c(b[j], k) == 0
		if op == 0 && x && y || op == 1 || op == 2 && x && !y {
			r = append(r, k)
		}
		if x {
			i++
		}
		if y {
			j++
		}
	}
	return r
}

var names = []string{"Intersect", "Union", "Diff"}

func apply(op int, a, b *set.Set[int]) *set.Set[int] {
	switch op {
	case 0:
		return a.Intersect(b)
	case 1:
		return a.Union(b)
	}
	return a.Diff(b)
}

func build(h *hx.H, c func(a, b int) int, safe bool, keys []int) *set.Set[int] {
	var s *set.Set[int]
	if safe {
		s = set.New[int](c, set.WithGoroutineSafe())
	} else {
		s = set.New[int](c)
	}
	for _, k := range keys {
		s.Insert(k)
	}
	return s
}

func check(h *hx.H, op int, a, b *set.Set[int], c func(a, b int) int, kmax int) *set.Set[int] {
	h.Op(names[op])
	ea, eb := elems(a), elems(b)
	w := want(op, ea, eb, c)
	r := apply(op, a, b)
	h.Check(r != a && r != b, "%s returns an operand", names[op])
	h.Check(hx.EqInts(elems(r), w), "%s of %v and %v is %v, want %v", names[op], ea, eb, elems(r), w)
	h.Check(r.Size() == len(w), "%s: size %d, want %d", names[op], r.Size(), len(w))
	for k := -1; k <= kmax; k++ {
		h.Check(r.Contains(k) == has(w, k), "%s of %v and %v: Contains(%d) is %v", names[op], ea, eb, k, r.Contains(k))
	}
	h.Check(hx.EqInts(elems(a), ea) && hx.EqInts(elems(b), eb), "%s changes its operands: %v %v, they were %v %v", names[op], elems(a), elems(b), ea, eb)
	h.Check(a.Size() == len(ea) && b.Size() == len(eb), "%s changes the size of its operands", names[op])
	return r
}

// independent changes the result and the operands in turn
func independent(h *hx.H, r, a, b *set.Set[int], k int) {
	ea, eb, er := elems(a), elems(b), elems(r)
	if r.Contains(k) {
		r.Erase(k)
	} else {
		r.Insert(k)
	}
	h.Check(hx.EqInts(elems(a), ea) && hx.EqInts(elems(b), eb), "changing the result changes an operand")
	if r.Contains(k) {
		r.Erase(k)
	} else {
		r.Insert(k)
	}
	h.Check(hx.EqInts(elems(r), er), "the result gives %v after a change and its undoing, it was %v", elems(r), er)
	a.Insert(1000)
	b.Insert(1001)
	h.Check(hx.EqInts(elems(r), er), "changing an operand changes the result")
	a.Erase(1000)
	b.Erase(1001)
	a.Erase(1001)
	b.Erase(1000)
	er = elems(r)
	a.Clear()
	h.Check(hx.EqInts(elems(r), er), "clearing an operand changes the result")
	for _, x := range ea {
		a.Insert(x)
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("every pair of subsets of 6 keys and every set with itself under three comparators, then random pairs and chains of operations, against a merge of slices")
		start := time.Now()
		const n = 6
		done := true
		for ci, c := range cmps {
			for x := 0; x < 1<<n && done; x++ {
				for y := 0; y <= 1<<n && done; y++ {
					var ka, kb []int
					for k := 0; k < n; k++ {
						if x>>k&1 == 1 {
							ka = append(ka, k)
						}
						if y>>k&1 == 1 {
							kb = append(kb, k)
						}
					}
					h.Begin("sets", "comparator", ci, "keys", x, y)
					safe := (x+y)%2 == 1
					a := build(h, c, safe, ka)
					b := a
					if y < 1<<n {
						b = build(h, c, safe, kb)
					}
					for op := range names {
						r := check(h, op, a, b, c, n)
						if a != b {
							independent(h, r, a, b, (x+y)%n)
						}
					}
					done = h.Until(0.6, budget, start)
				}
			}
		}
		if done {
			h.Exhaustive("every pair of subsets of 6 keys, under 3 comparators")
		}
		for h.More() {
			ci := h.R.Intn(len(cmps))
			c := cmps[ci]
			h.Begin("sets", "comparator", ci)
			kmax := 5 + h.R.Intn(150)
			mk := func() *set.Set[int] {
				var keys []int
				for i := h.R.Intn(kmax); i > 0; i-- {
					keys = append(keys, h.R.Intn(kmax))
				}
				h.Op("set", keys)
				return build(h, c, h.R.Intn(2) == 0, keys)
			}
			pool := []*set.Set[int]{mk(), mk(), mk()}
			for i := 0; i < 8; i++ {
				a, b := h.R.Intn(len(pool)), h.R.Intn(len(pool))
				h.Op("operands", a, b)
				r := check(h, h.R.Intn(3), pool[a], pool[b], c, kmax)
				if a != b && i == 7 {
					independent(h, r, pool[a], pool[b], h.R.Intn(kmax))
				}
				pool = append(pool, r)
				if h.R.Intn(2) == 0 {
					k := h.R.Intn(kmax)
					h.Op("Erase", a, k)
					pool[a].Erase(k)
				}
			}
		}
	})
}
