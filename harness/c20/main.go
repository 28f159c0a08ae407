package main

import (
	gosort "sort"
	"time"
	"verifharness/cx"
	"verifharness/hx"

	"github.com/liyue201/gostl/algorithm/sort"
)

func one(h *hx.H, keys []int, kind, ck, v int) {
	cn, cmp := cx.Cmp(ck)
	all, lo, hi := cx.Pad(h, keys)
	s := cx.Elems(all)
	gosort.SliceStable(s[lo:hi], func(i, j int) bool { return cmp(s[lo+i], s[lo+j]) < 0 })
	c := cx.Make(h, kind, s, lo, hi, false)
	val := cx.E{K: v, ID: -1}
	h.Begin(cx.Desc(c, s, lo, hi, cn))
	h.Op("search", v)
	wl, wu := hi, hi
	for i := hi - 1; i >= lo; i-- {
		if cmp(s[i], val) >= 0 {
			wl = i
		}
		if cmp(s[i], val) > 0 {
			wu = i
		}
	}
	has := wl < hi && cmp(s[wl], val) == 0
	a, b := c.At(lo), c.At(hi)
	got := sort.BinarySearch[cx.E](a, b, val, cmp)
	h.Check(got == has, "BinarySearch reports %v, the value is present: %v", got, has)
	l := sort.LowerBound[cx.E](a, b, val, cmp)
	h.Check(l.Position() == wl && l.Equal(c.At(wl)), "LowerBound is at %d instead of %d", l.Position(), wl)
	u := sort.UpperBound[cx.E](a, b, val, cmp)
	h.Check(u.Position() == wu && u.Equal(c.At(wu)), "UpperBound is at %d instead of %d", u.Position(), wu)
	h.Check(a.Position() == lo && b.Position() == hi, "the iterators passed in moved to %d and %d", a.Position(), b.Position())
	l.Next()
	u.Prev()
	h.Check(a.Position() == lo && b.Position() == hi, "a result is an iterator passed in")
	c.Same(h, s, "the container after the search")
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("BinarySearch, LowerBound, UpperBound on sorted sub-ranges of arrays, vectors, deques, wrapped slices and a guarded sequence against linear scans; all non-decreasing sequences over 4 keys up to length 6 and all values, then larger ones")
		n := 0
		start := time.Now()
		ok := cx.Small(4, 6, func(k []int) bool {
			for i := 1; i < len(k); i++ {
				if k[i] < k[i-1] {
					return true
				}
			}
			for v := -1; v <= 4; v++ {
				for kind := 0; kind < cx.NRA; kind++ {
					n++
					one(h, k, kind, n%4, v)
				}
			}
			return h.Until(0.6, budget, start) || n < 3000
		})
		if ok {
			h.Exhaustive("sorted ranges over 4 keys up to length 6, all values")
		}
		for n = 0; h.More() || n < 600; n++ {
			m := h.R.Intn(60)
			if n%37 == 0 {
				m = 200 + h.R.Intn(2000)
			}
			k := cx.Keys(h, m)
			one(h, k, h.R.Intn(cx.NRA), h.R.Intn(4), h.R.Intn(m+3)-1)
		}
	})
}
