package main

import (
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/list/bidlist"
)

type node = bidlist.Node[int]

type world struct {
	h       *hx.H
	ls      []*bidlist.List[int]
	ms      [][]*node
	val     map[*node]int
	removed []*node
}

func (w *world) check() {
	h := w.h
	for k, l := range w.ls {
		m := w.ms[k]
		h.Check(l.Len() == len(m) && l.Size() == len(m) && l.Empty() == (len(m) == 0), "list %d: Len %d Size %d Empty %v, want %d nodes", k, l.Len(), l.Size(), l.Empty(), len(m))
		if len(m) == 0 {
			h.Check(l.FrontNode() == nil && l.BackNode() == nil, "list %d: empty but has a front or back node", k)
			h.Check(h.Panics(func() { l.Front() }) && h.Panics(func() { l.Back() }), "list %d: Front or Back of an empty list does not panic", k)
			h.Check(h.Panics(func() { l.PopFront() }) && h.Panics(func() { l.PopBack() }), "list %d: pop of an empty list does not panic", k)
			h.Check(l.Len() == 0, "list %d: a failed pop changed the length", k)
		} else {
			h.Check(l.Front() == w.val[m[0]] && l.Back() == w.val[m[len(m)-1]], "list %d: Front %d Back %d, want %d %d", k, l.Front(), l.Back(), w.val[m[0]], w.val[m[len(m)-1]])
		}
		n := l.FrontNode()
		for i := range m {
			h.Check(n == m[i], "list %d: forward walk finds another node at position %d", k, i)
			h.Check(n.Value == w.val[n], "list %d: node at position %d has value %d, want %d", k, i, n.Value, w.val[n])
			n = n.Next()
		}
		h.Check(n == nil, "list %d: forward walk goes on after %d nodes", k, len(m))
		n = l.BackNode()
		for i := len(m) - 1; i >= 0; i-- {
			h.Check(n == m[i], "list %d: backward walk finds another node at position %d", k, i)
			n = n.Prev()
		}
		h.Check(n == nil, "list %d: backward walk goes on after %d nodes", k, len(m))
	}
	for _, n := range w.removed {
		h.Check(n.Next() == nil && n.Prev() == nil, "a removed node (value %d) still has a neighbour", n.Value)
		h.Check(n.Value == w.val[n], "a removed node's value changed to %d from %d", n.Value, w.val[n])
	}
}

func (w *world) checkTraversal(k int) {
	h, l, m := w.h, w.ls[k], w.ms[k]
	for stop := 0; stop <= len(m); stop++ {
		var got []int
		l.Traversal(func(v int) bool {
			got = append(got, v)
			return len(got) != stop
		})
		want := len(m)
		if stop > 0 {
			want = stop
		}
		h.Check(len(got) == want, "list %d: Traversal stopping at visit %d made %d visits of %d", k, stop, len(got), len(m))
		for i := range got {
			h.Check(got[i] == w.val[m[i]], "list %d: Traversal visit %d is %d, want %d", k, i, got[i], w.val[m[i]])
		}
	}
	i := 0
	it := bidlist.NewIterator(l.FrontNode())
	for it.IsValid() {
		h.Check(i < len(m) && it.Value() == w.val[m[i]], "list %d: iterator at %d wrong", k, i)
		c := it.Clone()
		h.Check(!it.Equal(&hx.Foreign[int]{}), "list %d: the iterator at %d equals one of another kind", k, i)
		h.Check(it.Equal(c), "list %d: a clone of the iterator at %d is not equal", k, i)
		it.Next()
		h.Check(!it.Equal(c) && c.Value() == w.val[m[i]], "list %d: the iterators at %d and after it are equal", k, i)
		i++
	}
	it.Next()
	h.Check(!it.IsValid(), "list %d: iterator valid beyond the last node", k)
	h.Check(i == len(m), "list %d: iterator made %d steps of %d", k, i, len(m))
	i = len(m)
	for it := bidlist.NewIterator(l.BackNode()); it.IsValid(); it.Prev() {
		i--
		h.Check(i >= 0 && it.Value() == w.val[m[i]], "list %d: backward iterator at %d wrong", k, i)
	}
	h.Check(i == 0, "list %d: backward iterator stopped at %d", k, i)
}

func ins(m []*node, p int, n *node) []*node {
	r := append([]*node{}, m[:p]...)
	r = append(r, n)
	return append(r, m[p:]...)
}

func cut(m []*node, p int) []*node {
	r := append([]*node{}, m[:p]...)
	return append(r, m[p+1:]...)
}

func find(m []*node, n *node) int {
	for i := range m {
		if m[i] == n {
			return i
		}
	}
	return -1
}

// pick a node: of list k mostly, of another list, removed
func (w *world) pick(k int) *node {
	r := w.h.R
	switch r.Intn(6) {
	case 0:
		if len(w.removed) > 0 {
			return w.removed[r.Intn(len(w.removed))]
		}
	case 1:
		o := r.Intn(len(w.ls))
		if len(w.ms[o]) > 0 {
			return w.ms[o][r.Intn(len(w.ms[o]))]
		}
	}
	if len(w.ms[k]) > 0 {
		return w.ms[k][r.Intn(len(w.ms[k]))]
	}
	for _, m := range w.ms {
		if len(m) > 0 {
			return m[0]
		}
	}
	if len(w.removed) > 0 {
		return w.removed[0]
	}
	return nil
}

func (w *world) name(n *node) int { return w.val[n] }

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories over every list operation on up to three lists, with own, foreign, removed and cleared nodes, against slices of node pointers; distinct by history")
		for c := 0; h.More() || c < 2000; c++ {
			h.Begin("lists")
			w := &world{h: h, val: map[*node]int{}}
			for i := 0; i < 3; i++ {
				w.ls = append(w.ls, bidlist.New[int]())
				w.ms = append(w.ms, nil)
			}
			next := 1
			nops := 3 + h.R.Intn(25)
			if c%40 == 0 {
				nops = 200
			}
			for o := 0; o < nops; o++ {
				k := h.R.Intn(3)
				if h.R.Intn(2) == 0 {
					k = 0
				}
				l := w.ls[k]
				v := next
				next++
				n := w.pick(k)
				p := find(w.ms[k], n)
				op := h.R.Intn(15)
				if n == nil && (op >= 2 && op <= 5 || op >= 9 && op <= 11) {
					op = h.R.Intn(2)
				}
				switch op {
				case 0:
					h.Op("PushBack", k, v)
					l.PushBack(v)
					nn := l.BackNode()
					w.val[nn] = v
					w.ms[k] = append(append([]*node{}, w.ms[k]...), nn)
				case 1:
					h.Op("PushFront", k, v)
					l.PushFront(v)
					nn := l.FrontNode()
					w.val[nn] = v
					w.ms[k] = ins(w.ms[k], 0, nn)
				case 2, 3:
					h.Op("InsertAfter", k, v, "mark", w.name(n))
					r := l.InsertAfter(v, n)
					h.Check((r == nil) == (p < 0), "InsertAfter with own mark %v returned %v", p >= 0, r != nil)
					if r != nil {
						_, known := w.val[r]
						h.Check(!known && r.Value == v, "InsertAfter returned a node with value %d", r.Value)
						w.val[r] = v
						w.ms[k] = ins(w.ms[k], p+1, r)
					}
				case 4, 5:
					h.Op("InsertBefore", k, v, "mark", w.name(n))
					r := l.InsertBefore(v, n)
					h.Check((r == nil) == (p < 0), "InsertBefore with own mark %v returned %v", p >= 0, r != nil)
					if r != nil {
						_, known := w.val[r]
						h.Check(!known && r.Value == v, "InsertBefore returned a node with value %d", r.Value)
						w.val[r] = v
						w.ms[k] = ins(w.ms[k], p, r)
					}
				case 6:
					if n == nil {
						continue
					}
					h.Op("Remove", k, "node", w.name(n))
					r := l.Remove(n)
					h.Check(r == w.val[n], "Remove returned %d, want %d", r, w.val[n])
					if p >= 0 {
						w.ms[k] = cut(w.ms[k], p)
						w.removed = append(w.removed, n)
					}
				case 7:
					if len(w.ms[k]) > 0 {
						h.Op("PopFront", k)
						f := w.ms[k][0]
						r := l.PopFront()
						h.Check(r == w.val[f], "PopFront returned %d, want %d", r, w.val[f])
						w.ms[k] = w.ms[k][1:]
						w.removed = append(w.removed, f)
					}
				case 8:
					if z := len(w.ms[k]); z > 0 {
						h.Op("PopBack", k)
						f := w.ms[k][z-1]
						r := l.PopBack()
						h.Check(r == w.val[f], "PopBack returned %d, want %d", r, w.val[f])
						w.ms[k] = w.ms[k][:z-1]
						w.removed = append(w.removed, f)
					}
				case 9:
					h.Op("MoveToFront", k, "node", w.name(n))
					l.MoveToFront(n)
					if p >= 0 {
						w.ms[k] = ins(cut(w.ms[k], p), 0, n)
					}
				case 10:
					h.Op("MoveToBack", k, "node", w.name(n))
					l.MoveToBack(n)
					if p >= 0 {
						w.ms[k] = append(cut(w.ms[k], p), n)
					}
				case 11, 12:
					mk := w.pick(k)
					if n == nil || mk == nil {
						continue
					}
					h.Op("MoveAfter", k, "node", w.name(n), "mark", w.name(mk))
					l.MoveAfter(n, mk)
					q := find(w.ms[k], mk)
					if p >= 0 && q >= 0 && n != mk {
						m := cut(w.ms[k], p)
						w.ms[k] = ins(m, find(m, mk)+1, n)
					}
				case 13:
					o := h.R.Intn(3)
					if len(w.ms[k])+len(w.ms[o]) > 60 {
						continue
					}
					back := h.R.Intn(2) == 0
					var add []int
					for _, x := range w.ms[o] {
						add = append(add, w.val[x])
					}
					old := append([]*node{}, w.ms[k]...)
					var fresh []*node
					if back {
						h.Op("PushBackList", k, o)
						l.PushBackList(w.ls[o])
						x := l.BackNode()
						for i := len(add) - 1; i >= 0; i-- {
							h.Check(x != nil && x.Value == add[i], "PushBackList: copied node %d is wrong", i)
							fresh = append([]*node{x}, fresh...)
							w.val[x] = add[i]
							x = x.Prev()
						}
						w.ms[k] = append(old, fresh...)
					} else {
						h.Op("PushFrontList", k, o)
						l.PushFrontList(w.ls[o])
						x := l.FrontNode()
						for i := 0; i < len(add); i++ {
							h.Check(x != nil && x.Value == add[i], "PushFrontList: copied node %d is wrong", i)
							fresh = append(fresh, x)
							w.val[x] = add[i]
							x = x.Next()
						}
						w.ms[k] = append(fresh, old...)
					}
				case 14:
					if h.R.Intn(3) == 0 {
						h.Op("Clear", k)
						l.Clear()
						w.removed = append(w.removed, w.ms[k]...)
						w.ms[k] = nil
					}
				}
				w.check()
			}
			for k := range w.ls {
				w.checkTraversal(k)
			}
		}
	})
}
