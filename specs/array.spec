unit array
tags C02
pkg ds/array
use iterator
lib array.rs iter_frames.rs
func array.New(size) r
  requires w_ok(h)
  panics size < 0
  modifies arr_Val@fresh
  ensures[seq] c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == size
  ensures[zero] forall|i: int| 0 <= i < size ==> c_seq(h, r)[i] == zero_val()
  ensures[others] c_others(h0, h, 0)
  ensures[o2] it_others(h0, h, 0)
  ensures[o3] w_ok(h)
func array.NewFromArray(other) r
  requires c_ok(h, other) && w_ok(h)
  ensures[copy] c_ok(h, r) && r >= h0.top && c_seq(h, r) =~= c_seq(h0, other)
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && w_ok(h)
  loop1 inv c_ok(h, a) && a >= h0.top && h.Array_values[a].len == h0.Array_values[other].len && h.Array_values[other] == h0.Array_values[other] && h.Array_values[a].a >= h0.top && i_range == h0.Array_values[other]
  loop1 inv forall|k: int| 0 <= k < i ==> c_seq(h, a)[k] == c_seq(h0, other)[k]
  loop1 inv c_others(h0, h, 0)
  loop1 inv it_others(h0, h, 0)
  loop1 inv w_ok(h)
func array.Array.Fill(a, val)
  requires c_ok(h, a) && w_ok(h)
  modifies arr_Val@h.Array_values[a].a
  ensures[all] c_seq(h, a).len() == c_seq(h0, a).len() && forall|k: int| 0 <= k < c_seq(h, a).len() ==> c_seq(h, a)[k] == val
  ensures[others] c_others(h0, h, a) && it_others(h0, h, 0) && w_ok(h)
  loop1 inv forall|k: int| 0 <= k < i ==> c_seq(h, a)[k] == val
  loop1 inv i_range == h0.Array_values[a]
func array.Array.Set(a, pos, val)
  requires c_ok(h, a) && w_ok(h)
  modifies arr_Val@h.Array_values[a].a
  ensures[set] c_seq(h, a) =~= (if 0 <= pos < c_seq(h0, a).len() { c_seq(h0, a).update(pos, val) } else { c_seq(h0, a) })
  ensures[others] c_others(h0, h, a) && it_others(h0, h, 0) && w_ok(h)
func array.Array.At(a, pos) r
  requires c_ok(h, a)
  panics !(0 <= pos < c_seq(h, a).len())
  ensures r == c_seq(h, a)[pos]
func array.Array.Front(a) r
  requires c_ok(h, a)
  panics c_seq(h, a).len() == 0
  ensures r == c_seq(h, a)[0]
func array.Array.Back(a) r
  requires c_ok(h, a)
  panics c_seq(h, a).len() == 0
  ensures r == c_seq(h, a)[c_seq(h, a).len() - 1]
func array.Array.Size(a) r
  requires c_ok(h, a)
  ensures r == c_seq(h, a).len()
func array.Array.Empty(a) r
  requires c_ok(h, a)
  ensures r == (c_seq(h, a).len() == 0)
func array.Array.SwapArray(a, other)
  requires c_ok(h, a) && c_ok(h, other) && w_ok(h)
  modifies Array.values@a, Array.values@other
  ensures[swap] if c_seq(h0, a).len() == c_seq(h0, other).len() { c_seq(h, a) =~= c_seq(h0, other) && c_seq(h, other) =~= c_seq(h0, a) } else { c_seq(h, a) =~= c_seq(h0, a) && c_seq(h, other) =~= c_seq(h0, other) }
  ensures[others] c_ok(h, a) && c_ok(h, other) && it_others(h0, h, 0) && w_ok(h)
  ensures[rest] forall|d: int| #![trigger c_seq(h, d)] c_ok(h0, d) && d != a && d != other ==> c_ok(h, d) && c_seq(h, d) =~= c_seq(h0, d)
func array.Array.Data(a) r
  requires c_ok(h, a)
  ensures r == h.Array_values[a]
func array.Array.Begin(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func array.Array.End(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == c_seq(h, a).len()
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func array.Array.First(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func array.Array.Last(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == c_seq(h, a).len() - 1
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func array.Array.IterAt(a, pos) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == pos
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func array.ArrayIterator.IsValid(it) r
  tags C04
  implements iterator.ConstIterator.IsValid
func array.ArrayIterator.Value(it) r
  tags C04
  implements iterator.ConstIterator.Value
func array.ArrayIterator.SetValue(it, v)
  tags C04
  implements iterator.BidIterator.SetValue
  modifies arr_Val@h.Array_values[h.ArrayIterator_array[it]].a
func array.ArrayIterator.Next(it) r
  tags C04
  implements iterator.ConstIterator.Next
  modifies ArrayIterator.position@it
func array.ArrayIterator.Prev(it) r
  tags C04
  implements iterator.ConstBidIterator.Prev
  modifies ArrayIterator.position@it
func array.ArrayIterator.Clone(it) r
  tags C04
  implements iterator.ConstIterator.Clone
func array.ArrayIterator.IteratorAt(it, pos) r
  tags C04
  implements iterator.RandomAccessIterator.IteratorAt
func array.ArrayIterator.Position(it) r
  tags C04
  implements iterator.RandomAccessIterator.Position
func array.ArrayIterator.Equal(it, other) r
  tags C04
  implements iterator.ConstIterator.Equal
  ensures[foreign] r == (dyn_of(other) == dyn_ArrayIterator() && other != 0 && it_cont(h, it) == it_cont(h, other) && it_pos(h, it) == it_pos(h, other))
