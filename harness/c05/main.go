package main

import (
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/deque"
)

type world struct {
	h    *hx.H
	d    *deque.Deque[int]
	m    []int
	next int
}

func (w *world) full() {
	h, d, m := w.h, w.d, w.m
	h.Check(d.Size() == len(m) && d.Empty() == (len(m) == 0), "Size %d Empty %v, want %d", d.Size(), d.Empty(), len(m))
	for i := range m {
		if g := d.At(i); g != m[i] {
			h.Check(false, "At(%d) is %d, want %d (size %d)", i, g, m[i], len(m))
		}
	}
	w.ends()
}

func (w *world) ends() {
	h, d, m := w.h, w.d, w.m
	h.Check(d.Size() == len(m) && d.Empty() == (len(m) == 0), "Size %d Empty %v, want %d", d.Size(), d.Empty(), len(m))
	if len(m) > 0 {
		h.Check(d.Front() == m[0] && d.Back() == m[len(m)-1], "Front %d Back %d, want %d %d", d.Front(), d.Back(), m[0], m[len(m)-1])
		i := h.R.Intn(len(m))
		h.Check(d.At(i) == m[i], "At(%d) is %d, want %d (size %d)", i, d.At(i), m[i], len(m))
	} else {
		h.Check(h.Panics(func() { d.Front() }) && h.Panics(func() { d.Back() }), "peeking at an empty deque does not panic")
		h.Check(h.Panics(func() { d.PopFront() }) && h.Panics(func() { d.PopBack() }), "popping an empty deque does not panic")
		h.Check(d.Size() == 0, "a failed pop changed the size")
	}
	for _, p := range []int{-1, len(m), len(m) + 130} {
		h.Check(h.Panics(func() { d.At(p) }), "At(%d) of %d values does not panic", p, len(m))
		h.Check(d.Set(p, -5) != nil, "Set(%d) of %d values reports no error", p, len(m))
	}
}

func (w *world) val() int { w.next++; return w.next }

func (w *world) pushBack() {
	v := w.val()
	w.d.PushBack(v)
	w.m = append(w.m, v)
}

func (w *world) pushFront() {
	v := w.val()
	w.d.PushFront(v)
	w.m = hx.Insert(w.m, 0, v)
}

// a position, often near a border of segments or of the deque
func (w *world) at(n int) int {
	r := w.h.R
	switch r.Intn(6) {
	case 0:
		return r.Intn(3)
	case 1:
		return n - r.Intn(3)
	case 2:
		return 128*r.Intn(n/128+1) + r.Intn(5) - 2
	}
	if n <= 0 {
		return 0
	}
	return r.Intn(n)
}

func (w *world) step() {
	h, d := w.h, w.d
	n := len(w.m)
	switch h.R.Intn(14) {
	case 0, 1:
		k := 1 + h.R.Intn(3)
		if h.R.Intn(5) == 0 {
			k = h.R.Intn(300)
		}
		h.Op("PushBack x", k)
		for ; k > 0; k-- {
			w.pushBack()
		}
	case 2, 3:
		k := 1 + h.R.Intn(3)
		if h.R.Intn(5) == 0 {
			k = h.R.Intn(300)
		}
		h.Op("PushFront x", k)
		for ; k > 0; k-- {
			w.pushFront()
		}
	case 4:
		k := 1 + h.R.Intn(3)
		if h.R.Intn(4) == 0 {
			k = h.R.Intn(300)
		}
		h.Op("PopFront x", k)
		for ; k > 0 && len(w.m) > 0; k-- {
			g := d.PopFront()
			h.Check(g == w.m[0], "PopFront gave %d, want %d", g, w.m[0])
			w.m = w.m[1:]
		}
	case 5:
		k := 1 + h.R.Intn(3)
		if h.R.Intn(4) == 0 {
			k = h.R.Intn(300)
		}
		h.Op("PopBack x", k)
		for ; k > 0 && len(w.m) > 0; k-- {
			g := d.PopBack()
			h.Check(g == w.m[len(w.m)-1], "PopBack gave %d, want %d", g, w.m[len(w.m)-1])
			w.m = w.m[:len(w.m)-1]
		}
	case 6, 7, 8:
		p, v := w.at(n), w.val()
		k := 1
		if h.R.Intn(4) == 0 {
			k = h.R.Intn(200)
		}
		h.Op("Insert at", p, "x", k)
		for ; k > 0; k-- {
			d.Insert(p, v)
			if p >= 0 && p <= len(w.m) {
				w.m = hx.Insert(w.m, p, v)
			}
			v = w.val()
		}
	case 9, 10:
		p := w.at(n)
		k := 1
		if h.R.Intn(4) == 0 {
			k = h.R.Intn(200)
		}
		h.Op("EraseAt", p, "x", k)
		for ; k > 0; k-- {
			d.EraseAt(p)
			if p >= 0 && p < len(w.m) {
				w.m = hx.Cut(w.m, p, p+1)
			}
		}
	case 11:
		a, b := w.at(n), w.at(n)
		h.Op("EraseRange", a, b)
		d.EraseRange(a, b)
		if a >= 0 && a < b && b <= n {
			w.m = hx.Cut(w.m, a, b)
		}
	case 12:
		p, v := w.at(n), w.val()
		h.Op("Set", p)
		err := d.Set(p, v)
		ok := p >= 0 && p < n
		h.Check((err == nil) == ok, "Set(%d) of %d values: error %v", p, n, err)
		if ok {
			w.m = append([]int{}, w.m...)
			w.m[p] = v
		}
	case 13:
		if h.R.Intn(6) == 0 {
			h.Op("Clear")
			d.Clear()
			w.m = nil
		}
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories over every deque operation, in runs crossing segments of 128 values, against a slice; distinct by history")
		for c := 0; h.More() || c < 300; c++ {
			h.Begin("deques")
			w := &world{h: h, d: deque.New[int]()}
			o := &world{h: h, d: deque.New[int](), next: 1000000}
			nops := 3 + h.R.Intn(30)
			if c%20 == 0 {
				nops = 150
			}
			for i := 0; i < nops; i++ {
				if h.R.Intn(10) == 0 {
					h.Op("other")
					o.step()
				} else {
					w.step()
				}
				if len(w.m) > 3000 {
					h.Op("Clear")
					w.d.Clear()
					w.m = nil
				}
				if i%4 == 0 || len(w.m) < 300 {
					w.full()
				} else {
					w.ends()
				}
			}
			w.full()
			o.full()
		}
	})
}
