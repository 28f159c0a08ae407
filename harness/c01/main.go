package main

import (
	"math"
	"math/rand"
	"time"
	"verifharness/hx"

	"github.com/liyue201/gostl/utils/comparator"
)

func sign(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}

// want is the reference: -1, 0 or 1
func test[T any](h *hx.H, name string, cmp comparator.Comparator[T], vals []T, want func(a, b T) int) {
	rev := comparator.Reverse(cmp)
	rev2 := comparator.Reverse(rev)
	for _, a := range vals {
		for _, b := range vals {
			h.Begin(name, a, b)
			h.Op("compare")
			r := cmp(a, b)
			h.Check(sign(r) == want(a, b), "%s(%v, %v) = %d, want sign %d", name, a, b, r, want(a, b))
			h.Check(rev(a, b) == -r, "Reverse(%s)(%v, %v) = %d, but the original gives %d", name, a, b, rev(a, b), r)
			h.Check(rev2(a, b) == r, "Reverse(Reverse(%s))(%v, %v) = %d, but the original gives %d", name, a, b, rev2(a, b), r)
		}
	}
}

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

func ord[T num](a, b T) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func ford[T float32 | float64](a, b T) int {
	an, bn := a != a, b != b
	if an && bn {
		return 0
	} else if an {
		return -1
	} else if bn {
		return 1
	}
	return ord(a, b)
}

func ints[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](r *rand.Rand) []T {
	var out []T
	seen := map[T]bool{}
	add := func(x T) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, s := range []uint{0, 1, 6, 7, 8, 14, 15, 16, 30, 31, 32, 33, 47, 62, 63} {
		x := T(uint64(1) << s)
		for d := -2; d <= 2; d++ {
			add(x + T(d))
			add(-x + T(d))
		}
	}
	for i := 0; i < 25; i++ {
		add(T(r.Uint64()))
		add(T(r.Intn(40)))
	}
	return out
}

func floats(r *rand.Rand) []float64 {
	v := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 0.25, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat32 * 2, 1e-320, 3, 2, -3,
		math.Nextafter(1, 2), math.Nextafter(1, 0), float64(math.Nextafter32(1, 2)), 1 << 53, 1<<53 + 2, 16777216, 16777218,
		math.Float64frombits(0xfff8000000000001), math.Float64frombits(0x7ff8000000000123), 1e9, 1e9 + 0.5, 9.3e18, -9.3e18, 1e19}
	for i := 0; i < 20; i++ {
		x := (r.Float64() - 0.5) * math.Pow(10, float64(r.Intn(40)-20))
		v = append(v, x, -x)
	}
	return v
}

type myInt int
type myStr string

func main() {
	hx.Main(func(h *hx.H, budget time.Duration) {
		h.Rule("pairs of boundary and random values for every comparator, compared with a reference order; distinct by comparator and values")
		for round := 0; round < 2 || h.More(); round++ {
			test(h, "IntComparator", comparator.IntComparator, ints[int](h.R), ord[int])
			test(h, "UintComparator", comparator.UintComparator, ints[uint](h.R), ord[uint])
			test(h, "Int8Comparator", comparator.Int8Comparator, ints[int8](h.R), ord[int8])
			test(h, "Uint8Comparator", comparator.Uint8Comparator, ints[uint8](h.R), ord[uint8])
			test(h, "Int16Comparator", comparator.Int16Comparator, ints[int16](h.R), ord[int16])
			test(h, "Uint16Comparator", comparator.Uint16Comparator, ints[uint16](h.R), ord[uint16])
			test(h, "Int32Comparator", comparator.Int32Comparator, ints[int32](h.R), ord[int32])
			test(h, "Uint32Comparator", comparator.Uint32Comparator, ints[uint32](h.R), ord[uint32])
			test(h, "Int64Comparator", comparator.Int64Comparator, ints[int64](h.R), ord[int64])
			test(h, "Uint64Comparator", comparator.Uint64Comparator, ints[uint64](h.R), ord[uint64])
			test(h, "UintptrComparator", comparator.UintptrComparator, ints[uintptr](h.R), ord[uintptr])
			test(h, "OrderedTypeCmp[int]", comparator.OrderedTypeCmp[int], ints[int](h.R), ord[int])
			test(h, "OrderedTypeCmp[uint8]", comparator.OrderedTypeCmp[uint8], ints[uint8](h.R), ord[uint8])
			test(h, "OrderedTypeCmp[uint64]", comparator.OrderedTypeCmp[uint64], ints[uint64](h.R), ord[uint64])
			test(h, "OrderedTypeCmp[int64]", comparator.OrderedTypeCmp[int64], ints[int64](h.R), ord[int64])
			test(h, "OrderedTypeCmp[myInt]", comparator.OrderedTypeCmp[myInt], ints[myInt](h.R), ord[myInt])
			fs := floats(h.R)
			var f32 []float32
			var fn []float64
			for _, f := range fs {
				f32 = append(f32, float32(f))
				if f == f {
					fn = append(fn, f)
				}
			}
			test(h, "Float64Comparator", comparator.Float64Comparator, fs, ford[float64])
			test(h, "Float32Comparator", comparator.Float32Comparator, f32, ford[float32])
			test(h, "OrderedTypeCmp[float64]", comparator.OrderedTypeCmp[float64], fn, ord[float64])
			strs := []string{"", "a", "b", "aa", "ab", "ba", "abc", "abd", "\x00", "\x00\x00", "a\x00", "\xff", "\xff\xff", "\x7f", "\x80", "é", "e", "A", "B", "Z", "z", "10", "9", "日本", "日", "a b"}
			for i := 0; i < 20; i++ {
				b := make([]byte, h.R.Intn(6))
				for j := range b {
					b[j] = byte(h.R.Intn(3)) + 126
				}
				strs = append(strs, string(b))
			}
			test(h, "StringComparator", comparator.StringComparator, strs, ord[string])
			test(h, "OrderedTypeCmp[string]", comparator.OrderedTypeCmp[string], strs, ord[string])
			var ms []myStr
			for _, s := range strs {
				ms = append(ms, myStr(s))
			}
			test(h, "OrderedTypeCmp[myStr]", comparator.OrderedTypeCmp[myStr], ms, ord[myStr])
			bi := map[bool]int{false: 0, true: 1}
			test(h, "BoolComparator", comparator.BoolComparator, []bool{false, true}, func(a, b bool) int { return ord(bi[a], bi[b]) })
			var c128 []complex128
			var c64 []complex64
			for i, a := range fn {
				for k := 0; k < 3; k++ {
					b := fn[(i*7+k*5+round)%len(fn)]
					if k == 0 {
						b = []float64{0, 1, -1, 2}[i%4]
					}
					c128 = append(c128, complex(a, b))
					if i%2 == 0 {
						c128 = append(c128, complex(1, a))
					}
					c64 = append(c64, complex(float32(a), float32(b)))
					if i%2 == 0 {
						c64 = append(c64, complex(1, float32(a)))
					}
				}
			}
			if len(c128) > 120 {
				h.R.Shuffle(len(c128), func(i, j int) { c128[i], c128[j] = c128[j], c128[i] })
				h.R.Shuffle(len(c64), func(i, j int) { c64[i], c64[j] = c64[j], c64[i] })
				c128, c64 = c128[:120], c64[:120]
			}
			c128 = append(c128, complex(0, 0), complex(0, 1), complex(1, 0), complex(0, -1), complex(-1, 0), complex(math.Copysign(0, -1), 0), complex(1, 1), complex(1, -1))
			c64 = append(c64, complex(0, 0), complex(0, 1), complex(1, 0), complex(0, -1), complex(-1, 0), complex(1, 1), complex(1, -1), complex(float32(math.Copysign(0, -1)), 0))
			test(h, "Complex128Comparator", comparator.Complex128Comparator, c128, func(a, b complex128) int {
				if c := ord(real(a), real(b)); c != 0 {
					return c
				}
				return ord(imag(a), imag(b))
			})
			test(h, "Complex64Comparator", comparator.Complex64Comparator, c64, func(a, b complex64) int {
				if c := ord(real(a), real(b)); c != 0 {
					return c
				}
				return ord(imag(a), imag(b))
			})
		}
		// Reverse on a comparator of the caller with results other than -1, 0, 1
		test(h, "caller's comparator", func(a, b int) int { return (a - b) * 3 }, []int{-5, 0, 1, 2, 9}, ord[int])
	})
}
