package main

import (
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/rbtree"
)

type ent struct{ k, v int }

type tree = rbtree.RbTree[int, int]
type node = rbtree.Node[int, int]

func cmp(desc bool) func(a, b int) int {
	if desc {
		return func(a, b int) int { return b - a }
	}
	return func(a, b int) int { return a - b }
}

type run struct {
	h    *hx.H
	t    *tree
	m    []ent
	desc bool
	c    func(a, b int) int
	id   int
}

func newRun(h *hx.H, desc bool) *run {
	h.Begin("rbtree", "descending", desc)
	r := &run{h: h, desc: desc, c: cmp(desc)}
	r.t = rbtree.New[int, int](r.c)
	return r
}

func (r *run) insert(k int) {
	r.id++
	r.h.Op("Insert", k, r.id)
	r.t.Insert(k, r.id)
	p := 0
	for p < len(r.m) && r.c(r.m[p].k, k) <= 0 {
		p++
	}
	r.m = append(r.m[:p], append([]ent{{k, r.id}}, r.m[p:]...)...)
}

// nodeAt walks to the entry at a position, from the nearer end
func (r *run) nodeAt(i int) *node {
	if i < len(r.m)/2 {
		n := r.t.First()
		for ; i > 0; i-- {
			n = n.Next()
		}
		return n
	}
	n := r.t.Last()
	for i = len(r.m) - 1 - i; i > 0; i-- {
		n = n.Prev()
	}
	return n
}

func (r *run) del(i int) {
	r.h.Op("Delete the entry at", i)
	r.t.Delete(r.nodeAt(i))
	r.m = append(append([]ent{}, r.m[:i]...), r.m[i+1:]...)
}

func (r *run) check() {
	h, t, m := r.h, r.t, r.m
	h.Check(t.Size() == len(m) && t.Empty() == (len(m) == 0), "Size %d Empty %v, want %d", t.Size(), t.Empty(), len(m))
	i := 0
	for n := t.Begin(); n != nil; n = n.Next() {
		h.Check(i < len(m), "walking forwards gives more than %d entries", len(m))
		h.Check(n.Key() == m[i].k && n.Value() == m[i].v, "entry %d is %d:%d, want %v", i, n.Key(), n.Value(), m[i])
		i++
	}
	h.Check(i == len(m), "walking forwards gives %d of %d entries", i, len(m))
	for n := t.RBegin(); n != nil; n = n.Prev() {
		i--
		h.Check(i >= 0, "walking backwards gives more than %d entries", len(m))
		h.Check(n.Key() == m[i].k && n.Value() == m[i].v, "backwards: entry %d is %d:%d, want %v", i, n.Key(), n.Value(), m[i])
	}
	h.Check(i == 0, "walking backwards misses %d entries", i)
}

func (r *run) iterate() {
	h, t, m := r.h, r.t, r.m
	i := 0
	for it := t.IterFirst(); it.IsValid(); it.Next() {
		h.Check(i < len(m) && it.Key() == m[i].k && it.Value() == m[i].v, "iterator at %d gives %d:%d", i, it.Key(), it.Value())
		c := it.Clone()
		h.Check(it.Equal(c), "a clone is not equal")
		c.Next()
		h.Check(!it.Equal(c) && it.Key() == m[i].k, "moving a clone moves the iterator, or is not seen")
		i++
	}
	h.Check(i == len(m), "the iterator gives %d of %d entries", i, len(m))
	for it := t.IterLast(); it.IsValid(); it.Prev() {
		i--
		h.Check(i >= 0 && it.Key() == m[i].k && it.Value() == m[i].v, "backwards iterator at %d gives %d:%d", i, it.Key(), it.Value())
	}
	h.Check(i == 0, "the backwards iterator misses %d entries", i)
	for _, stop := range []int{0, 1, len(m) / 2, len(m) - 1, len(m) + 5} {
		n := 0
		t.Traversal(func(k, v int) bool {
			h.Check(n < len(m) && k == m[n].k && v == m[n].v, "Traversal gives %d:%d at %d", k, v, n)
			n++
			return n <= stop
		})
		want := stop + 1
		if stop < 0 {
			want = 1
		}
		if want > len(m) {
			want = len(m)
		}
		h.Check(n == want, "Traversal told to stop after %d made %d calls of %d", stop+1, n, len(m))
	}
}

func (r *run) search(k int) {
	h, t, m := r.h, r.t, r.m
	lo, up := 0, 0
	for lo < len(m) && r.c(m[lo].k, k) < 0 {
		lo++
	}
	for up < len(m) && r.c(m[up].k, k) <= 0 {
		up++
	}
	is := func(what string, n *node, i int) {
		if i >= len(m) {
			h.Check(n == nil, "%s(%d) finds something, want nothing", what, k)
			return
		}
		h.Check(n != nil && n.Key() == m[i].k && n.Value() == m[i].v, "%s(%d) does not find %v", what, k, m[i])
	}
	is("FindLowerBoundNode", t.FindLowerBoundNode(k), lo)
	is("FindUpperBoundNode", t.FindUpperBoundNode(k), up)
	f := lo
	if lo == up {
		f = len(m)
	}
	is("FindNode", t.FindNode(k), f)
	v, err := t.Find(k)
	if f == len(m) {
		h.Check(err != nil && v == 0, "Find(%d) gives %d, %v", k, v, err)
	} else {
		h.Check(err == nil && v == m[f].v, "Find(%d) gives %d, %v, want %d", k, v, err, m[f].v)
	}
}

func (r *run) all(kmax int) {
	r.check()
	r.iterate()
	for k := -1; k <= kmax; k++ {
		r.search(k)
	}
}

func (r *run) setValue() {
	if len(r.m) == 0 {
		return
	}
	i := r.h.R.Intn(len(r.m))
	r.id++
	r.h.Op("set the value at", i, r.id)
	r.m[i].v = r.id
	if r.h.R.Intn(2) == 0 {
		r.nodeAt(i).SetValue(r.id)
		return
	}
	it := r.t.IterFirst()
	for ; i > 0; i-- {
		it.Next()
	}
	it.SetValue(r.id)
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("every key sequence of length up to 7 over 3 keys inserted and then deleted position by position, then random histories of insertions, deletions, value changes and clears, against a sorted slice")
		start := time.Now()
		done := true
		for n := 0; n <= 7 && done; n++ {
			hx.Seqs(3, n, func(s []int) bool {
				r := newRun(h, n%2 == 1)
				for _, k := range s {
					r.insert(k)
					r.check()
				}
				r.all(3)
				for len(r.m) > 0 {
					r.del(h.R.Intn(len(r.m)))
					r.check()
				}
				r.all(3)
				done = h.Until(0.5, budget, start)
				return done
			})
		}
		for h.More() {
			r := newRun(h, h.R.Intn(2) == 0)
			kmax := 2 + h.R.Intn(60)
			grow := 5
			for o := 30 + h.R.Intn(300); o > 0; o-- {
				if h.R.Intn(25) == 0 {
					grow = 2 + h.R.Intn(7)
				}
				switch {
				case h.R.Intn(10) < grow:
					r.insert(h.R.Intn(kmax))
				case len(r.m) > 0:
					r.del(h.R.Intn(len(r.m)))
				default:
					r.t.Delete(nil)
				}
				if h.R.Intn(20) == 0 {
					r.setValue()
				}
				if h.R.Intn(200) == 0 {
					h.Op("Clear")
					r.t.Clear()
					r.m = nil
				}
				r.check()
				if h.R.Intn(8) == 0 {
					r.search(h.R.Intn(kmax+2) - 1)
				}
				if h.R.Intn(40) == 0 {
					r.iterate()
				}
			}
			r.all(kmax)
		}
	})
}
