unit comparator
exactint
tags C01
pkg utils/comparator
use std
broadcast val_ord::group_val_ord
lib comparator.rs
func comparator.OrderedTypeCmp(a, b) r
  requires[trichotomy] val_tri(a, b)
  ensures[zero] (r == 0) == val_eq(a, b)
  ensures[neg] (r < 0) == val_lt(a, b)
  ensures[pos] (r > 0) == val_lt(b, a)
func comparator.Reverse(cmp) r
  requires[no_min_int] forall|a: Val, b: Val| #![trigger cmpv(cmp, a, b)] -0x8000_0000_0000_0000 < cmpv(cmp, a, b) && cmpv(cmp, a, b) < 0x8000_0000_0000_0000
  requires cmp != 0
  closure 1 (a, b) x ensures x == -cmpv(cmp, a, b)
  ensures[reverse] r != 0 && forall|a: Val, b: Val| #![trigger cmpv(r, a, b)] cmpv(r, a, b) == -cmpv(cmp, a, b)
  ensures[order] cmp_ok(cmp) ==> cmp_ok(r)
func comparator.IntComparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.UintComparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Int8Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Uint8Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Int16Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Uint16Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Int32Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Uint32Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Int64Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Uint64Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.Float32Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == fl_lt(a, b)
  ensures[pos] (r > 0) == fl_lt(b, a)
func comparator.Float64Comparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == fl_lt(a, b)
  ensures[pos] (r > 0) == fl_lt(b, a)
func comparator.StringComparator(a, b) r
  hint entry { str_order(a, b); }
  ensures[zero] (r == 0) == (a =~= b)
  ensures[neg] (r < 0) == str_lt(a, b)
  ensures[pos] (r > 0) == str_lt(b, a)
func comparator.UintptrComparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (a < b)
  ensures[pos] (r > 0) == (a > b)
func comparator.BoolComparator(a, b) r
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == (!a && b)
  ensures[pos] (r > 0) == (a && !b)
func comparator.Complex64Comparator(a, b) r
  requires !f_nan(a.re) && !f_nan(a.im) && !f_nan(b.re) && !f_nan(b.im)
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == cx_lt(a, b)
  ensures[pos] (r > 0) == cx_lt(b, a)
func comparator.Complex128Comparator(a, b) r
  requires !f_nan(a.re) && !f_nan(a.im) && !f_nan(b.re) && !f_nan(b.im)
  ensures[zero] (r == 0) == (a == b)
  ensures[neg] (r < 0) == cx_lt(a, b)
  ensures[pos] (r > 0) == cx_lt(b, a)
