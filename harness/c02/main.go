package main

import (
	"fmt"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/array"
)

func same(h *hx.H, a *array.Array[int], m []int, who string) {
	h.Check(a.Size() == len(m), "%s: Size() = %d, want %d", who, a.Size(), len(m))
	h.Check(a.Empty() == (len(m) == 0), "%s: Empty() = %v with %d values", who, a.Empty(), len(m))
	for i := range m {
		h.Check(a.At(i) == m[i], "%s: At(%d) = %d, want %d (all: %v)", who, i, a.At(i), m[i], m)
	}
	for _, i := range []int{-1, -2, len(m), len(m) + 1, len(m) * 2, 1 << 40} {
		if i >= len(m) || i < 0 {
			h.Check(h.Panics(func() { a.At(i) }), "%s: At(%d) does not panic with size %d", who, i, len(m))
		}
	}
	if len(m) == 0 {
		h.Check(h.Panics(func() { a.Front() }), "%s: Front of an empty array does not panic", who)
		h.Check(h.Panics(func() { a.Back() }), "%s: Back of an empty array does not panic", who)
	} else {
		h.Check(a.Front() == m[0], "%s: Front() = %d, want %d", who, a.Front(), m[0])
		h.Check(a.Back() == m[len(m)-1], "%s: Back() = %d, want %d", who, a.Back(), m[len(m)-1])
	}
	d := a.Data()
	h.Check(hx.EqInts(d, m), "%s: Data() = %v, want %v", who, d, m)
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories of Set, Fill, NewFromArray and SwapArray on up to four arrays against slices; distinct by history")
		for n := 0; h.More() || n < 2000; n++ {
			size := h.R.Intn(6)
			if n%10 == 0 {
				size = h.R.Intn(300)
			}
			h.Begin("New", size)
			as := []*array.Array[int]{array.New[int](size)}
			ms := [][]int{make([]int, size)}
			nops := 1 + h.R.Intn(25)
			for k := 0; k < nops; k++ {
				i := h.R.Intn(len(as))
				v := h.R.Intn(100) + 1
				switch h.R.Intn(7) {
				case 0, 1, 2:
					p := h.R.Intn(size+5) - 2
					h.Op("Set", i, p, v)
					as[i].Set(p, v)
					if p >= 0 && p < len(ms[i]) {
						ms[i][p] = v
					}
				case 3:
					h.Op("Fill", i, v)
					as[i].Fill(v)
					for j := range ms[i] {
						ms[i][j] = v
					}
				case 4:
					h.Op("NewFromArray", i)
					as = append(as, array.NewFromArray(as[i]))
					ms = append(ms, append([]int{}, ms[i]...))
				case 5, 6:
					j := h.R.Intn(len(as))
					h.Op("SwapArray", i, j)
					as[i].SwapArray(as[j])
					if len(ms[i]) == len(ms[j]) && i != j {
						ms[i], ms[j] = ms[j], ms[i]
					}
				}
				if h.R.Intn(12) == 0 {
					s2 := h.R.Intn(7)
					h.Op("New", s2)
					as = append(as, array.New[int](s2))
					ms = append(ms, make([]int, s2))
				}
				for x := range as {
					same(h, as[x], ms[x], fmt.Sprintf("array %d", x))
				}
			}
		}
	})
}
