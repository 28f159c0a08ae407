package main

import (
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/list/simplelist"
)

type node = simplelist.Node[int]

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories over every list operation on two lists against slices of node pointers; distinct by history")
		for c := 0; h.More() || c < 2000; c++ {
			h.Begin("lists")
			ls := []*simplelist.List[int]{simplelist.New[int](), simplelist.New[int]()}
			ms := [][]*node{nil, nil}
			val := map[*node]int{}
			next := 1
			nops := 3 + h.R.Intn(20)
			if c%40 == 0 {
				nops = 200
			}
			for o := 0; o < nops; o++ {
				k := h.R.Intn(3) % 2
				l, m := ls[k], ms[k]
				v := next
				next++
				op := h.R.Intn(9)
				if len(m) == 0 && op >= 2 && op <= 6 {
					op = h.R.Intn(2)
				}
				p := 0
				var n, pre *node
				if len(m) > 0 {
					p = h.R.Intn(len(m))
					if h.R.Intn(3) == 0 {
						p = []int{0, len(m) - 1}[h.R.Intn(2)]
					}
					n = m[p]
					if p > 0 {
						pre = m[p-1]
					}
				}
				switch op {
				case 0:
					h.Op("PushBack", k, v)
					l.PushBack(v)
					x := l.BackNode()
					val[x] = v
					ms[k] = append(append([]*node{}, m...), x)
				case 1:
					h.Op("PushFront", k, v)
					l.PushFront(v)
					x := l.FrontNode()
					val[x] = v
					ms[k] = append([]*node{x}, m...)
				case 2:
					h.Op("InsertAfter", k, v, "position", p)
					x := l.InsertAfter(v, n)
					h.Check(x != nil && val[x] == 0 && x.Value == v, "InsertAfter returned a wrong node")
					val[x] = v
					r := append([]*node{}, m[:p+1]...)
					ms[k] = append(append(r, x), m[p+1:]...)
				case 3, 4:
					h.Op("Remove", k, "position", p)
					x := l.Remove(pre, n)
					h.Check(x == val[n], "Remove returned %d, want %d", x, val[n])
					ms[k] = append(append([]*node{}, m[:p]...), m[p+1:]...)
				case 5:
					h.Op("MoveToFront", k, "position", p)
					l.MoveToFront(pre, n)
					r := append([]*node{n}, m[:p]...)
					ms[k] = append(r, m[p+1:]...)
				case 6:
					h.Op("MoveToBack", k, "position", p)
					l.MoveToBack(pre, n)
					r := append([]*node{}, m[:p]...)
					ms[k] = append(append(r, m[p+1:]...), n)
				case 7:
					if n == nil {
						continue
					}
					h.Op("iterator SetValue", k, p, v)
					it := simplelist.NewIterator(n)
					it.SetValue(v)
					val[n] = v
				case 8:
					it := simplelist.NewIterator(l.FrontNode())
					for i := 0; i < len(m); i++ {
						c := it.Clone()
						h.Check(it.IsValid() && it.Value() == val[m[i]] && it.Equal(c), "list %d: iterator at %d is wrong", k, i)
						h.Check(!it.Equal(&hx.Foreign[int]{}), "list %d: the iterator at %d equals one of another kind", k, i)
						r := it.Next()
						h.Check(r.Equal(it), "Next returned another iterator")
						h.Check(!it.Equal(c) && !c.Equal(it), "list %d: the iterators at %d and after it are equal", k, i)
						h.Check(c.Value() == val[m[i]], "a clone moved with its original")
					}
					h.Check(!it.IsValid(), "list %d: iterator valid after the last node", k)
					it.Next()
					it.SetValue(v)
					h.Check(!it.IsValid(), "list %d: iterator valid beyond the last node", k)
				}
				for k, l := range ls {
					m := ms[k]
					h.Check(l.Len() == len(m), "list %d: Len() = %d, want %d", k, l.Len(), len(m))
					if len(m) == 0 {
						h.Check(l.FrontNode() == nil && l.BackNode() == nil, "list %d is empty but has a front or back node", k)
					} else {
						h.Check(l.FrontNode() == m[0] && l.BackNode() == m[len(m)-1], "list %d: wrong front or back node", k)
					}
					x := l.FrontNode()
					for i := range m {
						h.Check(x == m[i] && x.Value == val[x], "list %d: forward walk is wrong at %d", k, i)
						x = x.Next()
					}
					h.Check(x == nil, "list %d: forward walk goes on after %d nodes", k, len(m))
					stop := h.R.Intn(len(m) + 2)
					var got []int
					l.Traversal(func(v int) bool { got = append(got, v); return len(got) != stop })
					want := len(m)
					if stop > 0 && stop < want {
						want = stop
					}
					h.Check(len(got) == want, "list %d: Traversal stopping at visit %d made %d visits of %d", k, stop, len(got), len(m))
					for i := range got {
						h.Check(got[i] == val[m[i]], "list %d: Traversal visit %d is %d, want %d", k, i, got[i], val[m[i]])
					}
				}
			}
		}
	})
}
