package main

import (
	"time"
	"verifharness/hx"

	mp "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/set"
)

type ent struct{ k, v int }

// it is an iterator of any of the four kinds
type it interface {
	IsValid() bool
	Key() int
	Value() int
	SetValue(v int) bool
	Next()
	Prev()
	Clone() it
	Equal(o it) bool
	foreign() bool
}
type mit struct{ i *mp.MapIterator[int, int] }

func (m mit) IsValid() bool       { return m.i.IsValid() }
func (m mit) Key() int            { return m.i.Key() }
func (m mit) Value() int          { return m.i.Value() }
func (m mit) SetValue(v int) bool { m.i.SetValue(v); return true }
func (m mit) Next()               { m.i.Next() }
func (m mit) Prev()               { m.i.Prev() }
func (m mit) Clone() it           { return mit{m.i.Clone().(*mp.MapIterator[int, int])} }
func (m mit) foreign() bool       { return m.i.Equal(&hx.Foreign[int]{}) }
func (m mit) Equal(o it) bool     { return m.i.Equal(o.(mit).i) }

type sit struct{ i *set.SetIterator[int] }

func (m sit) IsValid() bool       { return m.i.IsValid() }
func (m sit) Key() int            { return m.i.Value() }
func (m sit) Value() int          { return 0 }
func (m sit) SetValue(v int) bool { return false }
func (m sit) Next()               { m.i.Next() }
func (m sit) Prev()               { m.i.Prev() }
func (m sit) Clone() it           { return sit{m.i.Clone().(*set.SetIterator[int])} }
func (m sit) foreign() bool       { return m.i.Equal(&hx.Foreign[int]{}) }
func (m sit) Equal(o it) bool     { return m.i.Equal(o.(sit).i) }

// ops are the operations of one container of any of the four kinds
type ops struct {
	name                      string
	multi, valued             bool
	insert                    func(k, v int)
	erase                     func(k int)
	eraseAll                  func(k int) bool // all equal keys, where there is such an operation
	eraseIter                 func(i it) bool
	get                       func(k int) (int, bool, bool)
	find, lower, upper        func(k int) it
	begin, first, last        func() it
	clear                     func()
	contains                  func(k int) bool
	size                      func() int
	walk                      func(f func(k, v int) bool)
	count                     func(k int) int
	eraseAllEquals, countable bool
}

func newMap(c func(a, b int) int) *ops {
	m := mp.New[int, int](c)
	return &ops{name: "map", valued: true, insert: m.Insert, erase: m.Erase,
		eraseIter: func(i it) bool { m.EraseIter(i.(mit).i); return true },
		get:       func(k int) (int, bool, bool) { v, e := m.Get(k); return v, e == nil, true },
		find:      func(k int) it { return mit{m.Find(k)} }, lower: func(k int) it { return mit{m.LowerBound(k)} }, upper: func(k int) it { return mit{m.UpperBound(k)} },
		begin: func() it { return mit{m.Begin()} }, first: func() it { return mit{m.First()} }, last: func() it { return mit{m.Last()} },
		clear: m.Clear, contains: m.Contains, size: m.Size, walk: func(f func(k, v int) bool) { m.Traversal(f) }}
}

func newMulti(c func(a, b int) int) *ops {
	m := mp.NewMultiMap[int, int](c)
	return &ops{name: "multimap", multi: true, valued: true, insert: m.Insert, erase: m.Erase, eraseAllEquals: true,
		get:  func(k int) (int, bool, bool) { v, e := m.Get(k); return v, e == nil, true },
		find: func(k int) it { return mit{m.Find(k)} }, lower: func(k int) it { return mit{m.LowerBound(k)} }, upper: func(k int) it { return mit{m.UpperBound(k)} },
		begin: func() it { return mit{m.Begin()} }, first: func() it { return mit{m.First()} }, last: func() it { return mit{m.Last()} },
		clear: m.Clear, contains: m.Contains, size: m.Size, walk: func(f func(k, v int) bool) { m.Traversal(f) }}
}

func newSet(c func(a, b int) int) *ops {
	m := set.New[int](c)
	return &ops{name: "set", insert: func(k, v int) { m.Insert(k) }, erase: m.Erase,
		find: func(k int) it { return sit{m.Find(k)} }, lower: func(k int) it { return sit{m.LowerBound(k)} }, upper: func(k int) it { return sit{m.UpperBound(k)} },
		begin: func() it { return sit{m.Begin()} }, first: func() it { return sit{m.First()} }, last: func() it { return sit{m.Last()} },
		clear: m.Clear, contains: m.Contains, size: m.Size, walk: func(f func(k, v int) bool) { m.Traversal(func(k int) bool { return f(k, 0) }) }}
}

func newMultiSet(c func(a, b int) int) *ops {
	m := set.NewMultiSet[int](c)
	return &ops{name: "multiset", multi: true, insert: func(k, v int) { m.Insert(k) }, erase: m.Erase,
		eraseAll: func(k int) bool { m.EraseAll(k); return true }, count: m.Count, countable: true,
		find: func(k int) it { return sit{m.Find(k)} }, lower: func(k int) it { return sit{m.LowerBound(k)} }, upper: func(k int) it { return sit{m.UpperBound(k)} },
		begin: func() it { return sit{m.Begin()} }, first: func() it { return sit{m.First()} }, last: func() it { return sit{m.Last()} },
		clear: m.Clear, contains: m.Contains, size: m.Size, walk: func(f func(k, v int) bool) { m.Traversal(func(k int) bool { return f(k, 0) }) }}
}

var kinds = []func(c func(a, b int) int) *ops{newMap, newMulti, newSet, newMultiSet}

var cmps = []func(a, b int) int{
	func(a, b int) int { return a - b },
	func(a, b int) int { return b - a },
	func(a, b int) int { return a>>1 - b>>1 }, // a preorder: pairs of keys are equal
	func(a, b int) int {
		switch {
		case a < b:
			return -1
		case a > b:
			return 1
		}
		return 0
	},
}

type run struct {
	h  *hx.H
	o  *ops
	c  func(a, b int) int
	m  []ent
	id int
}

func newRun(h *hx.H, kind, c int) *run {
	r := &run{h: h, c: cmps[c]}
	r.o = kinds[kind](r.c)
	h.Begin(r.o.name, "comparator", c)
	return r
}

func (r *run) bounds(k int) (lo, up int) {
	for lo < len(r.m) && r.c(r.m[lo].k, k) < 0 {
		lo++
	}
	for up < len(r.m) && r.c(r.m[up].k, k) <= 0 {
		up++
	}
	return
}

func (r *run) insert(k int) {
	r.id++
	r.h.Op("Insert", k, r.id)
	r.o.insert(k, r.id)
	lo, up := r.bounds(k)
	if lo < up && !r.o.multi {
		r.m[lo].v = r.id
		return
	}
	r.m = append(r.m[:up:up], append([]ent{{k, r.id}}, r.m[up:]...)...)
}

func (r *run) cut(i, j int) { r.m = append(append([]ent{}, r.m[:i]...), r.m[j:]...) }

func (r *run) erase(k int) {
	r.h.Op("Erase", k)
	lo, up := r.bounds(k)
	r.o.erase(k)
	if r.o.eraseAllEquals {
		r.cut(lo, up)
	} else if lo < up {
		r.cut(lo, lo+1)
	}
}

func (r *run) eraseAll(k int) {
	if r.o.eraseAll == nil {
		return
	}
	r.h.Op("EraseAll", k)
	lo, up := r.bounds(k)
	r.o.eraseAll(k)
	r.cut(lo, up)
}

// at walks to a position from the nearer end
func (r *run) at(p int) it {
	i := r.o.first()
	if p < len(r.m)/2 {
		for ; p > 0; p-- {
			i.Next()
		}
		return i
	}
	i = r.o.last()
	for p = len(r.m) - 1 - p; p > 0; p-- {
		i.Prev()
	}
	return i
}

func (r *run) eraseIter(p int) {
	if r.o.eraseIter == nil || p >= len(r.m) {
		return
	}
	r.h.Op("EraseIter at", p)
	r.o.eraseIter(r.at(p))
	r.cut(p, p+1)
}

func (r *run) setValue(p int) {
	if !r.o.valued || p >= len(r.m) {
		return
	}
	r.id++
	r.h.Op("SetValue at", p, r.id)
	r.at(p).SetValue(r.id)
	r.m[p].v = r.id
}

func (r *run) is(what string, i it, p int) {
	if p < 0 || p >= len(r.m) {
		r.h.Check(!i.IsValid(), "%s gives something, want nothing", what)
		return
	}
	r.h.Check(i.IsValid(), "%s gives nothing, want entry %d", what, p)
	r.same(what, p, i.Key(), i.Value())
}

func (r *run) same(what string, p, k, v int) {
	r.h.Check(p < len(r.m) && r.c(k, r.m[p].k) == 0 && (!r.o.valued || v == r.m[p].v), "%s: entry %d is %d:%d, contents %v", what, p, k, v, r.m)
}

func (r *run) search(k int) {
	lo, up := r.bounds(k)
	f := lo
	if lo == up {
		f = -1
	}
	h, o := r.h, r.o
	r.is("Find", o.find(k), f)
	r.is("LowerBound", o.lower(k), lo)
	r.is("UpperBound", o.upper(k), up)
	h.Check(o.contains(k) == (lo < up), "Contains(%d) is %v", k, o.contains(k))
	if o.get != nil {
		v, ok, _ := o.get(k)
		h.Check(ok == (lo < up) && (ok && v == r.m[lo].v || !ok && v == 0), "Get(%d) gives %d %v, contents %v", k, v, ok, r.m)
	}
	if o.countable {
		h.Check(o.count(k) == up-lo, "Count(%d) is %d, want %d", k, o.count(k), up-lo)
	}
}

func (r *run) check() {
	h, o := r.h, r.o
	h.Check(o.size() == len(r.m), "Size %d, want %d", o.size(), len(r.m))
	n := 0
	o.walk(func(k, v int) bool { r.same("Traversal", n, k, v); n++; return true })
	h.Check(n == len(r.m), "Traversal gives %d of %d", n, len(r.m))
}

func (r *run) views(kmax int) {
	h, o := r.h, r.o
	r.check()
	last := len(r.m) - 1
	r.is("First", o.first(), 0)
	r.is("Begin", o.begin(), 0)
	r.is("Last", o.last(), last)
	n := 0
	i := o.begin()
	for ; i.IsValid(); i.Next() {
		r.same("iterator", n, i.Key(), i.Value())
		c := i.Clone()
		h.Check(c.Equal(i) && i.Equal(c), "a clone is not equal")
		h.Check(!i.foreign(), "an iterator is equal to one of another kind")
		c.Next()
		h.Check(!c.Equal(i), "an iterator is equal to one at the next entry")
		r.same("iterator after its clone moved", n, i.Key(), i.Value())
		if n > 0 && h.R.Intn(3) == 0 {
			i.Prev()
			r.is("Prev", i, n-1)
			i.Next()
		}
		n++
	}
	h.Check(n == len(r.m), "the iterator gives %d of %d", n, len(r.m))
	i.Next()
	h.Check(!i.IsValid(), "an iterator moved beyond the end is valid")
	for i = o.last(); i.IsValid(); i.Prev() {
		n--
		h.Check(n >= 0, "walking backwards goes on past the first entry")
		r.same("backwards", n, i.Key(), i.Value())
	}
	h.Check(n == 0, "walking backwards misses %d", n)
	i.Prev()
	h.Check(!i.IsValid(), "an iterator moved beyond the beginning is valid")
	for _, stop := range []int{1, 2, len(r.m)} {
		n := 0
		o.walk(func(k, v int) bool { n++; return n < stop })
		h.Check(n == least(stop, len(r.m)), "Traversal told to stop after %d made %d calls", stop, n)
	}
	for k := -1; k <= kmax; k++ {
		r.search(k)
	}
	r.check()
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("map, multimap, set and multiset: every sequence of up to 6 insertions and erasures over 3 keys, then random histories, each against a sorted slice, with comparators ascending, descending and a preorder with equal pairs")
		start := time.Now()
		done := true
		for n := 0; n <= 6 && done; n++ {
			hx.Seqs(6, n, func(s []int) bool {
				for kind := range kinds {
					r := newRun(h, kind, 0)
					for _, k := range s {
						if k < 3 {
							r.insert(k)
						} else {
							r.erase(k - 3)
						}
					}
					r.views(3)
				}
				done = h.Until(0.4, budget, start)
				return done
			})
		}
		for h.More() {
			r := newRun(h, h.R.Intn(4), h.R.Intn(len(cmps)))
			kmax := 2 + h.R.Intn(40)
			grow := 5
			for o := 20 + h.R.Intn(200); o > 0; o-- {
				if h.R.Intn(25) == 0 {
					grow = 2 + h.R.Intn(7)
				}
				k := h.R.Intn(kmax)
				switch {
				case h.R.Intn(10) < grow:
					r.insert(k)
				case h.R.Intn(4) == 0:
					r.eraseIter(k)
				case h.R.Intn(4) == 0:
					r.eraseAll(k)
				case h.R.Intn(60) == 0:
					h.Op("Clear")
					r.o.clear()
					r.m = nil
				default:
					r.erase(k)
				}
				if h.R.Intn(6) == 0 {
					r.setValue(h.R.Intn(kmax))
				}
				r.check()
				r.search(h.R.Intn(kmax+2) - 1)
				if h.R.Intn(50) == 0 {
					r.views(kmax)
				}
			}
			r.views(kmax)
		}
	})
}

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}
