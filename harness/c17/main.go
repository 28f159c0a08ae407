package main

import (
	"fmt"
	"math"
	"runtime"
	"time"
	"verifharness/hx"

	bloom "github.com/liyue201/gostl/ds/bloomfilter"
)

func val(h *hx.H, k int) string {
	switch h.R.Intn(5) {
	case 0:
		return fmt.Sprint(h.R.Intn(k))
	case 4:
		// long values, many of them equal up to the last bytes
		b := make([]byte, []int{55, 64, 111, 118, 128, 300}[h.R.Intn(6)]+h.R.Intn(2))
		b[h.R.Intn(2)*(len(b)-1)] = byte(h.R.Intn(5))
		return string(b)
	case 1:
		b := make([]byte, h.R.Intn(3))
		for i := range b {
			b[i] = byte(h.R.Intn(256))
		}
		return string(b)
	default:
		return fmt.Sprint("v", h.R.Intn(k))
	}
}

type twin struct {
	f     *bloom.BloomFilter
	added map[string]bool
	name  string
}

func all(h *hx.H, t *twin) {
	for v := range t.added {
		h.Check(t.f.Contains(v), "%s forgot the added value %q", t.name, v)
	}
}

func run(h *hx.H, m, k uint64, nops int, est bool) {
	h.Begin("bloom filter", "m", m, "k", k)
	var opts []bloom.Option
	if h.R.Intn(2) == 0 {
		opts = append(opts, bloom.WithGoroutineSafe())
	}
	h.Op("New", len(opts))
	fs := []*twin{{bloom.New(m, k, opts...), map[string]bool{}, "f0"}}
	if m > 200 && k > 0 {
		h.Check(!fs[0].f.Contains("x") || !fs[0].f.Contains("y"), "an empty filter contains what was never added")
	}
	for o := 0; o < nops; o++ {
		t := fs[h.R.Intn(len(fs))]
		switch r := h.R.Intn(12); {
		case r < 8:
			v := val(h, 60)
			h.Op("Add", t.name, v)
			t.f.Add(v)
			t.added[v] = true
			h.Check(t.f.Contains(v), "%s does not contain the value %q just added", t.name, v)
		case r < 10:
			all(h, t)
		default:
			if len(fs) >= 4 {
				continue
			}
			h.Op("Data and NewFromData", t.name)
			probe := make([]string, 80)
			was := make([]bool, 80)
			for i := range probe {
				probe[i] = val(h, 200)
				was[i] = t.f.Contains(probe[i])
			}
			d := t.f.Data()
			c := append([]byte{}, d...)
			g := bloom.NewFromData(d, opts...)
			n := &twin{g, map[string]bool{}, fmt.Sprint("f", len(fs))}
			for v := range t.added {
				n.added[v] = true
			}
			for i := range probe {
				h.Check(g.Contains(probe[i]) == was[i], "the rebuilt filter answers %v for %q, the original %v", g.Contains(probe[i]), probe[i], was[i])
			}
			h.Check(string(g.Data()) == string(c), "the rebuilt filter exports other data")
			all(h, n)
			for i := range probe {
				h.Check(t.f.Contains(probe[i]) == was[i], "exporting changed the original")
			}
			h.Op("Add to both")
			v := val(h, 1000)
			old := t.f.Contains(v)
			g.Add(v)
			n.added[v] = true
			h.Check(t.f.Contains(v) == old, "adding to the rebuilt filter changed the original")
			fs = append(fs, n)
		}
	}
	for _, t := range fs {
		all(h, t)
	}
}

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("all sizes 1..70 with 1..9 hashes, then random sizes and counts, with random adds, exports and imports; estimated parameters over a grid of counts and rates")
		ns := []uint64{1, 2, 3, 7, 10, 100, 1000, 12345, 1000000}
		ps := []float64{5e-324, 1e-300, 1e-9, 0.0001, 0.01, 0.1, 0.3, 0.5, 0.6, 0.7, 0.9, 0.99, 0.999999, math.Nextafter(1, 0)}
		for _, n := range ns {
			for _, p := range ps {
				h.Begin("estimate", n, p)
				h.Op("EstimateParameters")
				m, k := bloom.EstimateParameters(n, p)
				h.Check(m >= 1 && k >= 1, "estimated %d bits and %d hashes", m, k)
				if m <= 1<<24 {
					f := bloom.NewWithEstimates(n, p)
					f.Add("a")
					f.Add("b")
					h.Check(f.Contains("a") && f.Contains("b"), "an added value is forgotten")
				}
			}
		}
		h.Exhaustive("parameter grid 9 counts x 14 rates")
		for m := uint64(1); m <= 70; m++ {
			for k := uint64(1); k <= 9; k++ {
				run(h, m, k, 6, false)
			}
			if !h.More() {
				break
			}
		}
		for n := 0; h.More(); n++ {
			m := 1 + uint64(h.R.Intn(3000))
			if n%20 == 0 {
				m = 1 + uint64(h.R.Intn(1000000))
			}
			run(h, m, 1+uint64(h.R.Intn(30)), 10+h.R.Intn(60), false)
		}
		for _, m := range []uint64{1<<32 + 5, 1 << 34} {
			// the memory is reserved but hardly touched
			h.Begin("bloom filter", "m", m)
			h.Op("New and Add")
			f := bloom.New(m, 7)
			for i := 0; i < 40; i++ {
				f.Add(fmt.Sprint(i))
			}
			for i := 0; i < 40; i++ {
				h.Check(f.Contains(fmt.Sprint(i)), "the added value %d is forgotten", i)
			}
			runtime.GC()
		}
	})
}
