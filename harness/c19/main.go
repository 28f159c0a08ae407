package main

import (
	gosort "sort"
	"time"
	"verifharness/cx"
	"verifharness/hx"

	"github.com/liyue201/gostl/algorithm/sort"
)

func one(h *hx.H, keys []int, kind, ck int, stable bool) {
	all, lo, hi := cx.Pad(h, keys)
	s := cx.Elems(all)
	cn, cmp := cx.Cmp(ck)
	c := cx.Make(h, kind, s, lo, hi, true)
	what := "Sort"
	if stable {
		what = "Stable"
	}
	h.Begin(what, cx.Desc(c, s, lo, hi, cn))
	a, b := c.At(lo), c.At(hi)
	if stable {
		sort.Stable[cx.E](a, b, cmp)
	} else {
		sort.Sort[cx.E](a, b, cmp)
	}
	h.Op("done")
	want := append([]cx.E(nil), s...)
	gosort.SliceStable(want[lo:hi], func(i, j int) bool { return cmp(want[lo+i], want[lo+j]) < 0 })
	if stable {
		c.Same(h, want, "the container after Stable")
		return
	}
	got := c.Dump()
	h.Check(len(got) == len(s), "the size changed")
	seen := map[int]bool{}
	for i := range got {
		if i < lo || i >= hi {
			h.Check(got[i] == s[i], "element %d outside the range changed from %v to %v", i, s[i], got[i])
			continue
		}
		h.Check(cmp(got[i], want[i]) == 0, "position %d holds %v, sorted it is %v", i, got[i], want[i])
		h.Check(got[i].ID >= lo && got[i].ID < hi && !seen[got[i].ID] && s[got[i].ID] == got[i], "value %v at %d lost or repeated", got[i], i)
		seen[got[i].ID] = true
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("Sort and Stable on sub-ranges of arrays, vectors, deques, wrapped slices and a guarded sequence, against a stable reference sort; all key sequences over 3 keys up to length 6, then shaped larger ones")
		n := 0
		start := time.Now()
		ok := cx.Small(3, 6, func(k []int) bool {
			n++
			one(h, k, n%cx.NRA, n/5, true)
			one(h, k, (n+2)%cx.NRA, n/5, false)
			return h.Until(0.5, budget, start) || n < 1500
		})
		if ok {
			h.Exhaustive("key sequences over 3 keys up to length 6")
		}
		for n = 0; h.More() || n < 400; n++ {
			m := h.R.Intn(40)
			if n%29 == 0 {
				m = 300 + h.R.Intn(1200)
			}
			k := cx.Keys(h, m)
			one(h, k, h.R.Intn(cx.NRA), h.R.Intn(4), n%2 == 0)
		}
	})
}
