package main

import (
	"time"
	"verifharness/cx"
	"verifharness/hx"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/utils/iterator"
)

type CI = iterator.ConstIterator[cx.E]

func consts(h *hx.H, keys []int, kind, ck, v int) {
	all, lo, hi := cx.Pad(h, keys)
	s := cx.Elems(all)
	cn, cmp := cx.Cmp(ck)
	c := cx.Make(h, kind, s, lo, hi, false)
	h.Begin(cx.Desc(c, s, lo, hi, cn))
	h.Op("const algorithms", v)
	val := cx.E{K: v, ID: -1}
	a, b := c.Bid(lo), c.Bid(hi)
	var f func(it CI) bool
	bad := -1
	f = func(it CI) bool {
		e := it.Value()
		if e.ID < lo || e.ID >= hi {
			bad = e.ID
		}
		return e.K == v
	}
	at := func(it CI, want int, what string) {
		h.Check(it.Equal(c.Bid(want)), "%s is not at position %d", what, want)
		if want < hi {
			h.Check(it.Value() == s[want], "%s holds %v instead of %v", what, it.Value(), s[want])
		}
	}
	eq, pr, fe, fp, mx, mn := 0, 0, hi, hi, hi, hi
	for i := hi - 1; i >= lo; i-- {
		if cmp(s[i], val) == 0 {
			eq++
			fe = i
		}
		if s[i].K == v {
			pr++
			fp = i
		}
		if mx == hi || cmp(s[i], s[mx]) >= 0 {
			mx = i
		}
		if mn == hi || cmp(s[i], s[mn]) <= 0 {
			mn = i
		}
	}
	// the comparator is told values of the range and the value sought only
	wc := func(x, y cx.E) int {
		for _, e := range []cx.E{x, y} {
			if e.ID != -1 && (e.ID < lo || e.ID >= hi) {
				bad = e.ID
			}
		}
		return cmp(x, y)
	}
	n := algorithm.Count[cx.E](a, b, val, wc)
	h.Check(n == eq, "Count is %d instead of %d", n, eq)
	n = algorithm.CountIf[cx.E](a, b, f)
	h.Check(n == pr, "CountIf is %d instead of %d", n, pr)
	at(algorithm.Find[cx.E](a, b, val, wc), fe, "Find")
	at(algorithm.FindIf[cx.E](a, b, f), fp, "FindIf")
	at(algorithm.MaxElement[cx.E](a, b, wc), mx, "MaxElement")
	at(algorithm.MinElement[cx.E](a, b, wc), mn, "MinElement")
	r := algorithm.AnyOf[cx.E](a, b, f)
	h.Check(r == (pr > 0), "AnyOf is %v", r)
	r = algorithm.AllOf[cx.E](a, b, f)
	h.Check(r == (pr == hi-lo), "AllOf is %v", r)
	r = algorithm.NoneOf[cx.E](a, b, f)
	h.Check(r == (pr == 0), "NoneOf is %v", r)
	h.Check(bad < 0, "element %d outside the range is examined", bad)
	h.Check(a.Equal(c.Bid(lo)) && b.Equal(c.Bid(hi)), "an iterator passed in moved")
	c.Same(h, s, "the container afterwards")
}

func swaps(h *hx.H, keys []int, kind int) {
	all, lo, hi := cx.Pad(h, keys)
	if kind == 5 && hi == len(all) {
		all = append(all, 9) // list iterators past the end cannot step back
	}
	s := cx.Elems(all)
	c := cx.Make(h, kind, s, lo, hi, true)
	h.Begin("Reverse", cx.Desc(c, s, lo, hi, ""))
	a, b := c.Bid(lo), c.Bid(hi)
	algorithm.Reverse[cx.E](a, b)
	want := append([]cx.E(nil), s...)
	for i, j := lo, hi-1; i < j; i, j = i+1, j-1 {
		want[i], want[j] = want[j], want[i]
	}
	c.Same(h, want, "the container after Reverse")
	h.Check(a.Equal(c.Bid(lo)) && b.Equal(c.Bid(hi)), "an iterator passed in moved")
	if hi > lo {
		i, j := lo+h.R.Intn(hi-lo), lo+h.R.Intn(hi-lo)
		h.Op("Swap", i, j)
		algorithm.Swap[cx.E](c.Bid(i), c.Bid(j))
		want[i], want[j] = want[j], want[i]
		c.Same(h, want, "the container after Swap")
		t := cx.Elems([]int{7, 8, 9})
		k2 := h.R.Intn(6)
		d := cx.Make(h, k2, t, 0, 3, true)
		h.Op("Swap", i, "with another container at", 1)
		algorithm.Swap[cx.E](c.Bid(i), d.Bid(1))
		want[i], t[1] = t[1], want[i]
		c.Same(h, want, "the first container after Swap")
		d.Same(h, t, "the second container after Swap")
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("range algorithms on sub-ranges of arrays, vectors, deques, wrapped slices, lists and a guarded sequence against loops over slices; all key sequences over 3 keys up to length 5, then shaped larger ones")
		n := 0
		start := time.Now()
		ok := cx.Small(3, 5, func(k []int) bool {
			for kind := 0; kind < 6; kind++ {
				n++
				consts(h, k, kind, n, n%5-1)
				swaps(h, k, kind)
			}
			return h.Until(0.6, budget, start) || n < 3000
		})
		if ok {
			h.Exhaustive("key sequences over 3 keys up to length 5, six kinds of container")
		}
		for n = 0; h.More() || n < 300; n++ {
			m := h.R.Intn(40)
			k := cx.Keys(h, m)
			consts(h, k, h.R.Intn(6), h.R.Intn(4), h.R.Intn(m+3)-1)
			swaps(h, k, h.R.Intn(6))
		}
	})
}
