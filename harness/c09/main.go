package main

import (
	"sort"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/priorityqueue"
)

// kv is a value whose key alone is compared
type kv struct{ k, id int }

func lt(desc bool) func(a, b kv) int {
	return func(a, b kv) int {
		if desc {
			return b.k - a.k
		}
		return a.k - b.k
	}
}

// coll is a caller-supplied heap collection
type coll struct {
	s    []kv
	desc bool
	bad  bool
}

func (c *coll) at(i int) {
	if i < 0 || i >= len(c.s) {
		c.bad = true
	}
}
func (c *coll) Len() int { return len(c.s) }
func (c *coll) Less(i, j int) bool {
	c.at(i)
	c.at(j)
	return lt(c.desc)(c.s[i], c.s[j]) < 0
}
func (c *coll) Swap(i, j int) { c.at(i); c.at(j); c.s[i], c.s[j] = c.s[j], c.s[i] }
func (c *coll) Push(x kv)     { c.s = append(c.s, x) }
func (c *coll) Pop() kv       { v := c.s[len(c.s)-1]; c.s = c.s[:len(c.s)-1]; return v }

func ids(s []kv) []int {
	r := make([]int, 0, len(s))
	for _, v := range s {
		r = append(r, v.id*1000+v.k+100)
	}
	sort.Ints(r)
	return r
}

func without(s []kv, v kv) ([]kv, bool) {
	for i, w := range s {
		if w == v {
			return append(append([]kv{}, s[:i]...), s[i+1:]...), true
		}
	}
	return s, false
}

func checkHeap(h *hx.H, c *coll, m []kv) {
	h.Check(!c.bad, "a position outside the collection was used")
	for i := 1; i < len(c.s); i++ {
		h.Check(lt(c.desc)(c.s[(i-1)/2], c.s[i]) <= 0, "not heap-ordered: %v", c.s)
	}
	h.Check(hx.EqInts(ids(c.s), ids(m)), "holds %v, want %v in some order", c.s, m)
}

func minimal(c *coll, m []kv, v kv) bool {
	for _, w := range m {
		if lt(c.desc)(w, v) < 0 {
			return false
		}
	}
	return true
}

func runHeap(h *hx.H, init []int, nops, kmax int) {
	c := &coll{desc: h.R.Intn(2) == 0}
	h.Begin("heap functions", "descending", c.desc)
	id := 0
	for _, k := range init {
		id++
		c.s = append(c.s, kv{k, id})
	}
	m := append([]kv{}, c.s...)
	h.Op("Init", init)
	heap.Init[kv](c)
	checkHeap(h, c, m)
	for o := 0; o < nops; o++ {
		switch r := h.R.Intn(8); {
		case r < 2 || len(c.s) == 0:
			id++
			v := kv{h.R.Intn(kmax), id}
			h.Op("Push", v.k)
			heap.Push[kv](c, v)
			m = append(m, v)
		case r < 4:
			h.Op("Pop")
			v := heap.Pop[kv](c)
			h.Check(minimal(c, m, v), "Pop gave %v of %v", v, m)
			var ok bool
			m, ok = without(m, v)
			h.Check(ok, "Pop gave %v, which was not held", v)
		case r < 6:
			i := h.R.Intn(len(c.s))
			w := c.s[i]
			h.Op("Remove", i)
			v := heap.Remove[kv](c, i)
			h.Check(v == w, "Remove gave %v, want %v", v, w)
			m, _ = without(m, v)
		default:
			i := h.R.Intn(len(c.s))
			id++
			v := kv{h.R.Intn(kmax), id}
			m, _ = without(m, c.s[i])
			m = append(m, v)
			c.s[i] = v
			h.Op("set and Fix", i, v.k)
			heap.Fix[kv](c, i)
		}
		checkHeap(h, c, m)
	}
}

func runPQ(h *hx.H, nops, kmax int) {
	desc := h.R.Intn(2) == 0
	safe := h.R.Intn(2) == 0
	h.Begin("priority queue", "descending", desc, "safe", safe)
	var opts []priorityqueue.Option
	if safe {
		opts = append(opts, priorityqueue.WithGoroutineSafe())
	}
	q := priorityqueue.New(lt(desc), opts...)
	c := &coll{desc: desc}
	var m []kv
	id := 0
	grow := 5
	for o := 0; o < nops; o++ {
		if h.R.Intn(20) == 0 {
			grow = 3 + h.R.Intn(5)
		}
		switch r := h.R.Intn(10); {
		case r < grow:
			id++
			v := kv{h.R.Intn(kmax), id}
			h.Op("Push", v.k)
			q.Push(v)
			m = append(m, v)
		case r == 9 && h.R.Intn(30) == 0:
			h.Op("Clear")
			q.Clear()
			m = nil
		case len(m) == 0:
			h.Op("Top and Pop of empty")
			h.Check(h.Panics(func() { q.Top() }) && h.Panics(func() { q.Pop() }), "Top or Pop of an empty queue does not panic")
		default:
			h.Op("Pop")
			t := q.Top()
			h.Check(minimal(c, m, t), "Top gave %v of %v", t, m)
			v := q.Pop()
			h.Check(minimal(c, m, v), "Pop gave %v of %v", v, m)
			var ok bool
			m, ok = without(m, v)
			h.Check(ok, "Pop gave %v, which was not held", v)
		}
		h.Check(q.Size() == len(m) && q.Empty() == (len(m) == 0), "Size %d Empty %v, want %d", q.Size(), q.Empty(), len(m))
		if len(m) > 0 {
			t := q.Top()
			_, ok := without(m, t)
			h.Check(ok && minimal(c, m, t), "Top gave %v of %v", t, m)
		}
	}
	for len(m) > 0 {
		h.Op("Pop")
		v := q.Pop()
		h.Check(minimal(c, m, v), "Pop gave %v of %v", v, m)
		var ok bool
		m, ok = without(m, v)
		h.Check(ok, "Pop gave %v, which was not held", v)
	}
	h.Check(q.Empty(), "not empty at the end")
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("every key sequence of length up to 6 over 3 keys through Init and a few random operations, then random histories of the heap functions on a caller's collection and of priority queues, against the multiset of values")
		for n := 0; n <= 6; n++ {
			hx.Seqs(3, n, func(s []int) bool {
				runHeap(h, s, 3, 3)
				return h.More()
			})
		}
		for h.More() {
			n := h.R.Intn(40)
			k := 2 + h.R.Intn(40)
			init := make([]int, n)
			for i := range init {
				init[i] = h.R.Intn(k)
			}
			runHeap(h, init, 30, k)
			runPQ(h, 10+h.R.Intn(200), k)
		}
	})
}
