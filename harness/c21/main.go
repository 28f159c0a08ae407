package main

import (
	gosort "sort"
	"time"
	"verifharness/cx"
	"verifharness/hx"

	"github.com/liyue201/gostl/algorithm/sort"
)

func nth(h *hx.H, keys []int, kind, ck, n int) {
	all, lo, hi := cx.Pad(h, keys)
	s := cx.Elems(all)
	cn, cmp := cx.Cmp(ck)
	c := cx.Make(h, kind, s, lo, hi, true)
	h.Begin("NthElement", n, cx.Desc(c, s, lo, hi, cn))
	sort.NthElement[cx.E](c.At(lo), c.At(hi), n, cmp)
	want := append([]cx.E(nil), s...)
	gosort.SliceStable(want[lo:hi], func(i, j int) bool { return cmp(want[lo+i], want[lo+j]) < 0 })
	got := c.Dump()
	h.Check(len(got) == len(s), "the size changed")
	seen := map[int]bool{}
	for i := range got {
		if i < lo || i >= hi {
			h.Check(got[i] == s[i], "element %d outside the range changed from %v to %v", i, s[i], got[i])
			continue
		}
		h.Check(got[i].ID >= lo && got[i].ID < hi && !seen[got[i].ID] && s[got[i].ID] == got[i], "value %v at %d lost or repeated", got[i], i)
		seen[got[i].ID] = true
		if i < lo+n {
			h.Check(cmp(got[i], got[lo+n]) <= 0, "%v at %d stands before the smaller %v at %d", got[i], i, got[lo+n], lo+n)
		} else {
			h.Check(cmp(got[i], got[lo+n]) >= 0, "%v at %d stands after the greater %v at %d", got[i], i, got[lo+n], lo+n)
		}
	}
	h.Check(cmp(got[lo+n], want[lo+n]) == 0, "position %d holds %v instead of %v", lo+n, got[lo+n], want[lo+n])
}

// next arrangement of k under cmp, as keys
func next(k []int, less func(a, b int) bool) bool {
	i := len(k) - 2
	for i >= 0 && !less(k[i], k[i+1]) {
		i--
	}
	if i < 0 {
		return false
	}
	j := len(k) - 1
	for !less(k[i], k[j]) {
		j--
	}
	k[i], k[j] = k[j], k[i]
	gosort.Slice(k[i+1:], func(a, b int) bool { return less(k[i+1+a], k[i+1+b]) })
	return true
}

func perm(h *hx.H, keys []int, kind, ck, steps int) {
	all, lo, hi := cx.Pad(h, keys)
	s := cx.Elems(all)
	cn, cmp := cx.Cmp(ck)
	less := func(a, b int) bool { return cmp(cx.E{K: a}, cx.E{K: b}) < 0 }
	c := cx.Make(h, kind, s, lo, hi, true)
	h.Begin("NextPermutation", cx.Desc(c, s, lo, hi, cn))
	cur := append([]int(nil), keys...)
	for t := 0; t < steps; t++ {
		h.Op("next")
		before := c.Dump()
		a, b := c.At(lo), c.At(hi)
		r := sort.NextPermutation[cx.E](a, b, cmp)
		w := next(cur, less)
		h.Check(r == w, "call %d reports %v instead of %v", t+1, r, w)
		got := c.Dump()
		if !w {
			c.Same(h, before, "the container after the greatest arrangement")
			return
		}
		seen := map[int]bool{}
		for i := range got {
			if i < lo || i >= hi {
				h.Check(got[i] == s[i], "element %d outside the range changed", i)
				continue
			}
			h.Check(got[i].K == cur[i-lo], "call %d: position %d holds %v, the next arrangement is %v", t+1, i-lo, got[i].K, cur)
			h.Check(!seen[got[i].ID] && s[got[i].ID] == got[i], "value %v at %d lost or repeated", got[i], i)
			seen[got[i].ID] = true
		}
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("NthElement at every position and NextPermutation repeatedly on sub-ranges of arrays, vectors, deques, wrapped slices and a guarded sequence against reference sorts and arrangements; all key sequences over 3 keys up to length 6, then shaped larger ones")
		n := 0
		start := time.Now()
		ok := cx.Small(3, 6, func(k []int) bool {
			n++
			perm(h, k, n%cx.NRA, n/5, 3)
			for p := range k {
				nth(h, k, (n+p)%cx.NRA, n/5+p, p)
			}
			return h.Until(0.5, budget, start) || n < 1300
		})
		if ok {
			h.Exhaustive("key sequences over 3 keys up to length 6, every position")
		}
		for i := 0; i < 6; i++ {
			k := []int{0, 1, 1, 2, 3, 4}[:i+1]
			perm(h, k, i%cx.NRA, 1, 1000)
		}
		for n = 0; h.More() || n < 400; n++ {
			m := 1 + h.R.Intn(40)
			if n%29 == 0 {
				m = 200 + h.R.Intn(800)
			}
			k := cx.Keys(h, m)
			nth(h, k, h.R.Intn(cx.NRA), h.R.Intn(4), h.R.Intn(m))
			perm(h, cx.Keys(h, h.R.Intn(9)), h.R.Intn(cx.NRA), h.R.Intn(4), 30)
		}
	})
}
