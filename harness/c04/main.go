package main

import (
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

type RA = iterator.RandomAccessIterator[int]

type cont struct {
	name              string
	begin, end, first func() RA
	last              func() RA
	iterAt            func(int) RA
	read              func(int) int
	size              func() int
	grow              func(int) // appends, nil if the size is fixed
	shrink            func()
	attach            func([]int)
}

func mk(h *hx.H, kind, n int, base int) cont {
	switch kind {
	case 0:
		a := array.New[int](n)
		for i := 0; i < n; i++ {
			a.Set(i, base+i)
		}
		return cont{"array", func() RA { return a.Begin() }, func() RA { return a.End() }, func() RA { return a.First() }, func() RA { return a.Last() },
			func(p int) RA { return a.IterAt(p) }, a.At, a.Size, nil, nil, nil}
	case 1:
		a := vector.New[int]()
		for i := 0; i < n; i++ {
			a.PushBack(base + i)
		}
		return cont{"vector", func() RA { return a.Begin() }, func() RA { return a.End() }, func() RA { return a.First() }, func() RA { return a.Last() },
			func(p int) RA { return a.IterAt(p) }, a.At, a.Size, a.PushBack, func() { a.PopBack() }, nil}
	case 2:
		a := deque.New[int]()
		k := h.R.Intn(n + 1)
		for i := k; i < n; i++ {
			a.PushBack(base + i)
		}
		for i := k - 1; i >= 0; i-- {
			a.PushFront(base + i)
		}
		return cont{"deque", func() RA { return a.Begin() }, func() RA { return a.End() }, func() RA { return a.First() }, func() RA { return a.Last() },
			func(p int) RA { return a.IterAt(p) }, a.At, a.Size, a.PushBack, func() { a.PopBack() }, nil}
	}
	s := make([]int, n, n+3)
	for i := range s {
		s[i] = base + i
	}
	a := slice.NewSliceWrapper(s)
	return cont{"slice", func() RA { return a.Begin() }, func() RA { return a.End() }, func() RA { return a.First() }, func() RA { return a.Last() },
		nil, func(i int) int { return s[i] }, func() int { return len(s) }, nil, nil, func(x []int) {
			old, was := s, append([]int(nil), s...)
			a.Attach(x)
			s = x
			for i := range old {
				h.Check(old[i] == was[i], "attaching another slice changed the slice attached before at %d", i)
			}
		}}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("walks of several iterators over one container (array, vector, deque, wrapped slice) against positions; distinct by history")
		for n := 0; h.More() || n < 3000; n++ {
			kind := n % 4
			size := h.R.Intn(6)
			if n%23 == 0 {
				size = 200 + h.R.Intn(250)
			}
			c := mk(h, kind, size, 1000)
			c2 := mk(h, kind, size, 5000)
			m := make([]int, size)
			for i := range m {
				m[i] = 1000 + i
			}
			h.Begin(c.name, size)
			h.Op("walk")
			var its []RA
			var ps []int
			chk := func(it RA, p int, what string) {
				h.Check(it.Position() == p, "%s of %s: position %d, want %d", what, c.name, it.Position(), p)
				valid := p >= 0 && p < len(m)
				h.Check(it.IsValid() == valid, "%s of %s: IsValid() = %v at %d of %d", what, c.name, it.IsValid(), p, len(m))
				if valid {
					h.Check(it.Value() == m[p], "%s of %s: Value() = %d at %d, want %d", what, c.name, it.Value(), p, m[p])
				}
			}
			chk(c.begin(), 0, "Begin")
			chk(c.first(), 0, "First")
			chk(c.end(), len(m), "End")
			chk(c.last(), len(m)-1, "Last")
			h.Check(c.begin().Equal(c.end()) == (len(m) == 0), "Begin equals End of a %s of size %d: %v", c.name, size, c.begin().Equal(c.end()))
			h.Check(!c.begin().Equal(&hx.Foreign[int]{}), "an iterator of a %s equals one of another kind", c.name)
			if c.iterAt != nil {
				p := h.R.Intn(size + 2)
				h.Check(!c.iterAt(p).Equal(c2.iterAt(p)), "iterators at %d of two %ss are equal", p, c.name)
			}
			if c.attach != nil && h.R.Intn(3) == 0 {
				n := h.R.Intn(size + 3)
				h.Op("Attach to a slice of", n)
				m = make([]int, n)
				for x := range m {
					m[x] = 9000 + x
				}
				c.attach(append([]int(nil), m...))
			}
			its, ps = append(its, c.begin(), c.end()), append(ps, 0, len(m))
			for k := 0; k < 25; k++ {
				i := h.R.Intn(len(its))
				switch h.R.Intn(9) {
				case 0, 1:
					h.Op("Next", i)
					r := its[i].Next()
					if ps[i] < len(m) {
						ps[i]++
					}
					h.Check(r.(RA).Position() == ps[i], "Next returned an iterator at %d, want %d", r.(RA).Position(), ps[i])
				case 2, 3:
					h.Op("Prev", i)
					its[i].Prev()
					if ps[i] >= 0 {
						ps[i]--
					}
				case 4:
					h.Op("Clone", i)
					its, ps = append(its, its[i].Clone().(RA)), append(ps, ps[i])
				case 5:
					p := h.R.Intn(len(m)+5) - 2
					h.Op("IteratorAt", i, p)
					its, ps = append(its, its[i].IteratorAt(p)), append(ps, p)
				case 6:
					v := h.R.Intn(1000)
					h.Op("SetValue", i, v)
					its[i].SetValue(v)
					if ps[i] >= 0 && ps[i] < len(m) {
						m[ps[i]] = v
					}
				case 7:
					if c.iterAt != nil {
						p := h.R.Intn(len(m)+5) - 2
						h.Op("IterAt", p)
						its, ps = append(its, c.iterAt(p)), append(ps, p)
					}
				case 8:
					if c.grow != nil {
						if h.R.Intn(2) == 0 || len(m) == 0 {
							h.Op("append")
							c.grow(7)
							m = append(m, 7)
						} else {
							h.Op("pop")
							c.shrink()
							m = m[:len(m)-1]
						}
					}
				}
				for x := range its {
					chk(its[x], ps[x], "iterator")
					y := h.R.Intn(len(its))
					h.Check(its[x].Equal(its[y]) == (ps[x] == ps[y]), "iterators at %d and %d of one %s: Equal = %v", ps[x], ps[y], c.name, its[x].Equal(its[y]))
				}
				h.Check(c.size() == len(m), "size of %s changed to %d", c.name, c.size())
				for x := range m {
					h.Check(c.read(x) == m[x], "%s at %d is %d, want %d", c.name, x, c.read(x), m[x])
				}
			}
			for x := 0; x < size; x++ {
				h.Check(c2.read(x) == 5000+x, "another %s changed at %d", c.name, x)
			}
			// a full walk in both directions
			if size > 100 {
				p := 0
				for it := c.begin(); it.IsValid(); it.Next() {
					h.Check(it.Value() == m[p], "forward walk of %s: %d at %d", c.name, it.Value(), p)
					p++
				}
				h.Check(p == len(m), "forward walk of %s visits %d of %d", c.name, p, len(m))
				for it := c.last(); it.IsValid(); it.Prev() {
					p--
					h.Check(it.Value() == m[p], "backward walk of %s: %d at %d", c.name, it.Value(), p)
				}
				h.Check(p == 0, "backward walk of %s stops at %d", c.name, p)
			}
		}
	})
}
