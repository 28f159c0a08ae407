package main

import (
	"runtime"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/ds/bitmap"
)

func same(h *hx.H, b *bitmap.Bitmap, m []bool, who string) {
	h.Check(b.Size() == uint64(len(m)), "%s: Size() = %d, want %d", who, b.Size(), len(m))
	for i := range m {
		h.Check(b.IsSet(uint64(i)) == m[i], "%s: IsSet(%d) = %v, want %v", who, i, b.IsSet(uint64(i)), m[i])
	}
	for _, d := range []uint64{0, 1, 7, 8, 9, 100, 1 << 32, 1 << 61, 1<<63 + 5, 1<<64 - 1 - uint64(len(m))} {
		h.Check(!b.IsSet(uint64(len(m))+d), "%s: IsSet(%d) is true beyond size %d", who, uint64(len(m))+d, len(m))
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("histories of Set, Unset, Resize, Clear and export/import against slices of bools, sizes 0..6000, and two sizes beyond 2^32; distinct by history")
		for n := 0; h.More() || n < 3000; n++ {
			size := uint64(h.R.Intn(40))
			if n%5 == 0 {
				size = uint64(h.R.Intn(200))
			}
			if n%199 == 0 {
				size = uint64(h.R.Intn(6000))
			}
			h.Begin("New", int(size))
			b := bitmap.New(size)
			m := make([]bool, (size+7)/8*8)
			same(h, b, m, "new bitmap")
			nops := 1 + h.R.Intn(25)
			for k := 0; k < nops; k++ {
				p := uint64(h.R.Intn(len(m) + 20))
				if h.R.Intn(12) == 0 {
					p = []uint64{1 << 31, 1 << 32, 1 << 35, 1 << 60, 1 << 63, 1<<64 - 1, 1<<64 - 8, uint64(len(m)) + 1<<32}[h.R.Intn(8)]
				}
				in := p < uint64(len(m))
				switch h.R.Intn(9) {
				case 0, 1, 2, 3:
					h.Op("Set", p)
					r := b.Set(p)
					h.Check(r == in, "Set(%d) = %v with size %d", p, r, len(m))
					if in {
						m[p] = true
					}
				case 4, 5:
					h.Op("Unset", p)
					r := b.Unset(p)
					h.Check(r == in, "Unset(%d) = %v with size %d", p, r, len(m))
					if in {
						m[p] = false
					}
				case 6:
					s := uint64(h.R.Intn(len(m) + 40))
					h.Op("Resize", int(s))
					b.Resize(s)
					m2 := make([]bool, (s+7)/8*8)
					copy(m2, m)
					m = m2
				case 7:
					if h.R.Intn(3) == 0 {
						h.Op("Clear")
						b.Clear()
						m = make([]bool, len(m))
					}
				case 8:
					h.Op("NewFromData(Data())")
					d := append([]byte{}, b.Data()...)
					b2 := bitmap.NewFromData(d)
					same(h, b2, m, "rebuilt bitmap")
					b = b2
				}
				same(h, b, m, "bitmap")
			}
		}
		for _, size := range []uint64{1<<32 + 64, 1<<34 + 64} {
			// the memory is reserved but hardly touched
			h.Begin("New", size)
			h.Op("Set and Unset")
			b := bitmap.New(size)
			h.Check(b.Size() == size, "Size() = %d, want %d", b.Size(), size)
			ps := []uint64{0, 5, 9, 63, 1 << 31, 1<<31 + 5, 1 << 32, 1<<32 + 5, 1<<32 + 9, size / 2, size - 9, size - 1}
			for i, p := range ps {
				h.Check(b.Set(p), "Set(%d) = false with size %d", p, size)
				for j, q := range ps {
					h.Check(b.IsSet(q) == (j <= i || q == p), "after Set(%d) IsSet(%d) = %v", p, q, b.IsSet(q))
				}
			}
			for i, p := range ps {
				h.Check(b.Unset(p), "Unset(%d) = false with size %d", p, size)
				for j, q := range ps {
					h.Check(b.IsSet(q) == (j > i), "after Unset(%d) IsSet(%d) = %v", p, q, b.IsSet(q))
				}
			}
			h.Check(!b.Set(size) && !b.Set(size+1<<32) && !b.IsSet(size), "a position beyond the size is accepted")
			b = nil
			runtime.GC()
		}
	})
}
