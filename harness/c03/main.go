package main

import (
	"fmt"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/vector"
)

func same(h *hx.H, a *vector.Vector[int], m []int, who string) {
	h.Check(a.Size() == len(m), "%s: Size() = %d, want %d", who, a.Size(), len(m))
	h.Check(a.Empty() == (len(m) == 0), "%s: Empty() = %v with %d values", who, a.Empty(), len(m))
	h.Check(a.Capacity() >= a.Size(), "%s: Capacity() = %d < Size() = %d", who, a.Capacity(), a.Size())
	for i := range m {
		h.Check(a.At(i) == m[i], "%s: At(%d) = %d, want %d (want all: %v)", who, i, a.At(i), m[i], m)
	}
	for _, i := range []int{-1, -5, len(m), len(m) + 1, a.Capacity(), 1 << 40} {
		if i >= len(m) || i < 0 {
			h.Check(h.Panics(func() { a.At(i) }), "%s: At(%d) does not panic with size %d", who, i, len(m))
		}
	}
	if len(m) == 0 {
		h.Check(h.Panics(func() { a.Front() }), "%s: Front of an empty vector does not panic", who)
		h.Check(h.Panics(func() { a.Back() }), "%s: Back of an empty vector does not panic", who)
		h.Check(h.Panics(func() { a.PopBack() }), "%s: PopBack of an empty vector does not panic", who)
		h.Check(a.Size() == 0, "%s: failed pop changed the size", who)
	} else {
		h.Check(a.Front() == m[0], "%s: Front() = %d, want %d", who, a.Front(), m[0])
		h.Check(a.Back() == m[len(m)-1], "%s: Back() = %d, want %d", who, a.Back(), m[len(m)-1])
	}
	h.Check(hx.EqInts(a.Data(), m), "%s: Data() = %v, want %v", who, a.Data(), m)
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories over every vector operation with valid and invalid positions on up to three vectors against slices; distinct by history")
		for n := 0; h.More() || n < 2000; n++ {
			h.Begin("vectors")
			c := h.R.Intn(9)
			var v0 *vector.Vector[int]
			if h.R.Intn(2) == 0 {
				h.Op("New", "WithCapacity", c)
				v0 = vector.New[int](vector.WithCapacity(c))
			} else {
				h.Op("New")
				v0 = vector.New[int]()
			}
			vs := []*vector.Vector[int]{v0}
			ms := [][]int{{}}
			big := n%50 == 0
			nops := 2 + h.R.Intn(30)
			if big {
				nops = 400
			}
			next := 1
			for k := 0; k < nops; k++ {
				i := h.R.Intn(len(vs))
				v, m := vs[i], ms[i]
				val := next
				next++
				sz := len(m)
				p := h.R.Intn(sz+5) - 2
				q := p + h.R.Intn(sz+3) - 1
				op := h.R.Intn(18)
				if big && h.R.Intn(3) > 0 {
					op = h.R.Intn(4)
				}
				switch op {
				case 0, 1:
					h.Op("PushBack", i, val)
					v.PushBack(val)
					ms[i] = append(append([]int{}, m...), val)
				case 2, 3:
					h.Op("InsertAt", i, p, val)
					v.InsertAt(p, val)
					if p >= 0 && p <= sz {
						ms[i] = hx.Insert(m, p, val)
					}
				case 4:
					h.Op("EraseAt", i, p)
					v.EraseAt(p)
					if p >= 0 && p < sz {
						ms[i] = hx.Cut(m, p, p+1)
					}
				case 5, 6:
					h.Op("EraseIndexRange", i, p, q)
					v.EraseIndexRange(p, q)
					if p >= 0 && p <= q && q <= sz {
						ms[i] = hx.Cut(m, p, q)
					}
				case 7:
					if sz > 0 {
						h.Op("PopBack", i)
						r := v.PopBack()
						h.Check(r == m[sz-1], "PopBack() = %d, want %d", r, m[sz-1])
						ms[i] = m[:sz-1 : sz-1]
					}
				case 8:
					s := h.R.Intn(sz + 4)
					h.Op("Resize", i, s)
					v.Resize(s)
					if s < sz {
						ms[i] = m[:s:s]
					}
				case 9:
					c := h.R.Intn(2*sz+6) - 1
					h.Op("Reserve", i, c)
					v.Reserve(c)
					h.Check(v.Capacity() >= c, "Reserve(%d) leaves capacity %d", c, v.Capacity())
				case 10:
					h.Op("ShrinkToFit", i)
					v.ShrinkToFit()
				case 11:
					if h.R.Intn(3) == 0 {
						h.Op("Clear", i)
						v.Clear()
						ms[i] = []int{}
					}
				case 12, 13:
					h.Op("SetAt", i, p, val)
					v.SetAt(p, val)
					if p >= 0 && p < sz {
						ms[i] = append([]int{}, m...)
						ms[i][p] = val
					}
				case 14:
					h.Op("Insert(iter)", i, p, val)
					it := v.Insert(v.IterAt(p), val)
					if p >= 0 && p <= sz {
						ms[i] = hx.Insert(m, p, val)
						h.Check(it.IsValid() && it.Value() == val && it.Position() == p, "Insert returned an iterator at %d", it.Position())
					}
				case 15:
					h.Op("Erase(iter)", i, p)
					it := v.Erase(v.IterAt(p))
					if p >= 0 && p < sz {
						ms[i] = hx.Cut(m, p, p+1)
						h.Check(it.Position() == p, "Erase returned an iterator at %d, want %d", it.Position(), p)
					}
				case 16:
					h.Op("EraseRange(iter)", i, p, q)
					v.EraseRange(v.IterAt(p), v.IterAt(q))
					if p >= 0 && p <= q && q <= sz {
						ms[i] = hx.Cut(m, p, q)
					}
				case 17:
					if len(vs) < 3 {
						h.Op("NewFromVector", i)
						vs = append(vs, vector.NewFromVector(v))
						ms = append(ms, append([]int{}, m...))
					}
				}
				for x := range vs {
					same(h, vs[x], ms[x], fmt.Sprintf("vector %d", x))
				}
			}
		}
	})
}
