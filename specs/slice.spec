unit slice
tags C04
pkg ds/slice
use iterator
lib slice.rs iter_frames.rs
iface slice.ISlice.Len(s) r
  requires c_ok(h, s)
  ensures r == c_seq(h, s).len()
iface slice.ISlice.At(s, position) r
  requires c_ok(h, s)
  panics !(0 <= position < c_seq(h, s).len())
  ensures r == c_seq(h, s)[position]
iface slice.ISlice.Set(s, position, val)
  requires c_ok(h, s) && w_ok(h)
  modifies arr_Val@h.SliceWrapper_slice[s].a
  ensures[set] c_seq(h, s) =~= (if 0 <= position < c_seq(h0, s).len() { c_seq(h0, s).update(position, val) } else { c_seq(h0, s) })
  ensures[others] c_others(h0, h, s) && it_others(h0, h, 0) && w_ok(h)
func slice.NewSliceWrapper(slice) r
  ensures[wrap] c_ok(h, r) && r >= h0.top && h.SliceWrapper_slice[r] == slice && c_seq(h, r) =~= view(h0.arr_Val, slice)
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func slice.SliceWrapper.Attach(s, newSlice)
  requires c_ok(h, s)
  modifies SliceWrapper.slice@s
  ensures[wrap] c_ok(h, s) && h.SliceWrapper_slice[s] == newSlice && c_seq(h, s) =~= view(h0.arr_Val, newSlice)
  ensures[others] c_others(h0, h, s) && it_others(h0, h, 0)
func slice.SliceWrapper.Len(s) r
  implements slice.ISlice.Len
func slice.SliceWrapper.At(s, position) r
  implements slice.ISlice.At
func slice.SliceWrapper.Set(s, position, val)
  implements slice.ISlice.Set
  modifies arr_Val@h.SliceWrapper_slice[s].a
func slice.SliceWrapper.Begin(a) r
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func slice.SliceWrapper.End(a) r
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == c_seq(h, a).len()
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func slice.SliceWrapper.First(a) r
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func slice.SliceWrapper.Last(a) r
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == c_seq(h, a).len() - 1
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func slice.SliceIterator.IsValid(it) r
  tags C04
  implements iterator.ConstIterator.IsValid
func slice.SliceIterator.Value(it) r
  tags C04
  implements iterator.ConstIterator.Value
func slice.SliceIterator.SetValue(it, v)
  tags C04
  implements iterator.BidIterator.SetValue
  modifies arr_Val@h.SliceWrapper_slice[h.SliceIterator_s[it]].a
func slice.SliceIterator.Next(it) r
  tags C04
  implements iterator.ConstIterator.Next
  modifies SliceIterator.position@it
func slice.SliceIterator.Prev(it) r
  tags C04
  implements iterator.ConstBidIterator.Prev
  modifies SliceIterator.position@it
func slice.SliceIterator.Clone(it) r
  tags C04
  implements iterator.ConstIterator.Clone
func slice.SliceIterator.IteratorAt(it, pos) r
  tags C04
  implements iterator.RandomAccessIterator.IteratorAt
func slice.SliceIterator.Position(it) r
  tags C04
  implements iterator.RandomAccessIterator.Position
func slice.SliceIterator.Equal(it, other) r
  tags C04
  implements iterator.ConstIterator.Equal
  ensures[foreign] r ==> dyn_of(other) == dyn_SliceIterator() && other != 0
