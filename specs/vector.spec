unit vector
tags C03
pkg ds/vector
use iterator
lib vector.rs iter_frames.rs
functype vector.Option(f, option)
  modifies Options.capacity@option
func vector.WithCapacity(capacity) r
  ensures r != 0
  closure 1 (option) as vector.Option ensures h.Options_capacity[option] == capacity
func vector.New(opts) r
  requires w_ok(h)
  requires forall|i: int| 0 <= i < opts.len ==> view(h.arr_int, opts)[i] != 0
  maypanic true
  ensures[empty] c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && w_ok(h)
func vector.NewFromVector(other) r
  requires c_ok(h, other) && w_ok(h)
  ensures[copy] c_ok(h, r) && r >= h0.top && c_seq(h, r) =~= c_seq(h0, other)
  ensures[fresh] h.Vector_data[r].a >= h0.top
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && w_ok(h)
  loop1 inv c_ok(h, v) && v >= h0.top && h.Vector_data[v].len == h0.Vector_data[other].len && h.Vector_data[other] == h0.Vector_data[other] && h.Vector_data[v].a >= h0.top && i_range == h0.Vector_data[other]
  loop1 inv forall|k: int| 0 <= k < i ==> c_seq(h, v)[k] == c_seq(h0, other)[k]
  loop1 inv c_others(h0, h, 0) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.Size(v) r
  requires c_ok(h, v)
  ensures r == c_seq(h, v).len()
func vector.Vector.Capacity(v) r
  requires c_ok(h, v)
  ensures r == h.Vector_data[v].cap && r >= c_seq(h, v).len()
func vector.Vector.Empty(v) r
  requires c_ok(h, v)
  ensures r == (c_seq(h, v).len() == 0)
func vector.Vector.PushBack(v, val)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[seq] c_seq(h, v) =~= c_seq(h0, v).push(val)
  ensures[cap] h.Vector_data[v].cap >= h0.Vector_data[v].cap
  ensures[storage] h.Vector_data[v].a == h0.Vector_data[v].a || h.Vector_data[v].a >= h0.top
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.SetAt(v, pos, val)
  requires c_ok(h, v) && w_ok(h)
  modifies arr_Val@h.Vector_data[v].a
  ensures[set] c_seq(h, v) =~= (if 0 <= pos < c_seq(h0, v).len() { c_seq(h0, v).update(pos, val) } else { c_seq(h0, v) })
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.InsertAt(v, pos, val)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[insert] c_seq(h, v) =~= (if 0 <= pos <= c_seq(h0, v).len() { c_seq(h0, v).insert(pos, val) } else { c_seq(h0, v) })
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
  loop1 inv pos <= i && i <= c_seq(h0, v).len() && c_ok(h, v) && h.Vector_data[v].len == c_seq(h0, v).len() + 1 && (h.Vector_data[v].a == h0.Vector_data[v].a || h.Vector_data[v].a >= h0.top)
  loop1 inv forall|k: int| 0 <= k <= i && k < c_seq(h0, v).len() ==> c_seq(h, v)[k] == c_seq(h0, v)[k]
  loop1 inv forall|k: int| i < k < c_seq(h, v).len() ==> c_seq(h, v)[k] == c_seq(h0, v)[k - 1]
  loop1 inv c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
  loop1 dec i
func vector.Vector.EraseAt(v, pos)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[erase] c_seq(h, v) =~= (if 0 <= pos < c_seq(h0, v).len() { c_seq(h0, v).remove(pos) } else { c_seq(h0, v) })
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.EraseIndexRange(v, first, last)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[erase] c_seq(h, v) =~= (if 0 <= first <= last && last <= c_seq(h0, v).len() { c_seq(h0, v).subrange(0, first) + c_seq(h0, v).skip(last) } else { c_seq(h0, v) })
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.At(v, pos) r
  requires c_ok(h, v)
  panics !(0 <= pos < c_seq(h, v).len())
  ensures r == c_seq(h, v)[pos]
func vector.Vector.Front(v) r
  requires c_ok(h, v)
  panics c_seq(h, v).len() == 0
  ensures r == c_seq(h, v)[0]
func vector.Vector.Back(v) r
  requires c_ok(h, v)
  panics c_seq(h, v).len() == 0
  ensures r == c_seq(h, v)[c_seq(h, v).len() - 1]
func vector.Vector.PopBack(v) r
  requires c_ok(h, v) && w_ok(h)
  panics c_seq(h, v).len() == 0
  modifies Vector.data@v
  ensures[value] r == c_seq(h0, v).last()
  ensures[seq] c_seq(h, v) =~= c_seq(h0, v).drop_last()
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.Reserve(v, capacity)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v
  ensures[seq] c_seq(h, v) =~= c_seq(h0, v)
  ensures[cap] h.Vector_data[v].cap >= capacity
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
  loop1 inv 0 <= i && i <= c_seq(h0, v).len() && h.Vector_data[v] == h0.Vector_data[v] && data.a >= h0.top && data.len == c_seq(h0, v).len() && forall|k: int| 0 <= k < i ==> view(h.arr_Val, data)[k] == c_seq(h0, v)[k]
  loop1 dec h.Vector_data[v].len - i
func vector.Vector.ShrinkToFit(v)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v
  ensures[seq] c_seq(h, v) =~= c_seq(h0, v)
  ensures[cap] h.Vector_data[v].cap == c_seq(h, v).len()
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
  loop1 inv 0 <= i && i <= c_seq(h0, v).len() && h.Vector_data[v] == h0.Vector_data[v] && data.a >= h0.top && data.len == c_seq(h0, v).len() && forall|k: int| 0 <= k < i ==> view(h.arr_Val, data)[k] == c_seq(h0, v)[k]
  loop1 dec h.Vector_data[v].len - i
func vector.Vector.Clear(v)
  requires c_ok(h, v) && w_ok(h)
  modifies Vector.data@v
  ensures[seq] c_seq(h, v).len() == 0
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.Data(v) r
  requires c_ok(h, v)
  ensures r == h.Vector_data[v]
func vector.Vector.Begin(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && (w_ok(h0) ==> w_ok(h))
func vector.Vector.End(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == c_seq(h, a).len()
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && (w_ok(h0) ==> w_ok(h))
func vector.Vector.First(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && (w_ok(h0) ==> w_ok(h))
func vector.Vector.Last(a) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == c_seq(h, a).len() - 1
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && (w_ok(h0) ==> w_ok(h))
func vector.Vector.IterAt(a, pos) r
  tags C04
  requires c_ok(h, a)
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == a && it_pos(h, r) == pos
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0) && (w_ok(h0) ==> w_ok(h))
func vector.Vector.Insert(v, iter, val) r
  requires c_ok(h, v) && w_ok(h) && it_ok(h, iter)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[insert] c_seq(h, v) =~= (if 0 <= it_pos(h0, iter) <= c_seq(h0, v).len() { c_seq(h0, v).insert(it_pos(h0, iter), val) } else { c_seq(h0, v) })
  ensures[iter] it_ok(h, r) && r >= h0.top && it_cont(h, r) == v && it_pos(h, r) == it_pos(h0, iter)
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.Erase(v, iter) r
  requires c_ok(h, v) && w_ok(h) && it_ok(h, iter)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[erase] c_seq(h, v) =~= (if 0 <= it_pos(h0, iter) < c_seq(h0, v).len() { c_seq(h0, v).remove(it_pos(h0, iter)) } else { c_seq(h0, v) })
  ensures[iter] it_ok(h, r) && r >= h0.top && it_cont(h, r) == v && it_pos(h, r) == it_pos(h0, iter)
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.EraseRange(v, first, last) r
  requires c_ok(h, v) && w_ok(h) && it_ok(h, first) && it_ok(h, last)
  modifies Vector.data@v, arr_Val@h.Vector_data[v].a
  ensures[erase] c_seq(h, v) =~= (if 0 <= it_pos(h0, first) <= it_pos(h0, last) && it_pos(h0, last) <= c_seq(h0, v).len() { c_seq(h0, v).subrange(0, it_pos(h0, first)) + c_seq(h0, v).skip(it_pos(h0, last)) } else { c_seq(h0, v) })
  ensures[iter] it_ok(h, r) && r >= h0.top && it_cont(h, r) == v && it_pos(h, r) == it_pos(h0, first)
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.Vector.Resize(v, size)
  requires c_ok(h, v) && w_ok(h)
  panics size < 0
  modifies Vector.data@v
  ensures[prefix] c_seq(h, v) =~= (if size < c_seq(h0, v).len() { c_seq(h0, v).subrange(0, size) } else { c_seq(h0, v) })
  ensures[others] c_ok(h, v) && c_others(h0, h, v) && it_others(h0, h, 0) && w_ok(h)
func vector.VectorIterator.IsValid(it) r
  tags C04
  implements iterator.ConstIterator.IsValid
func vector.VectorIterator.Value(it) r
  tags C04
  implements iterator.ConstIterator.Value
func vector.VectorIterator.SetValue(it, v)
  tags C04
  implements iterator.BidIterator.SetValue
  modifies arr_Val@h.Vector_data[h.VectorIterator_vec[it]].a
func vector.VectorIterator.Next(it) r
  tags C04
  implements iterator.ConstIterator.Next
  modifies VectorIterator.position@it
func vector.VectorIterator.Prev(it) r
  tags C04
  implements iterator.ConstBidIterator.Prev
  modifies VectorIterator.position@it
func vector.VectorIterator.Clone(it) r
  tags C04
  implements iterator.ConstIterator.Clone
func vector.VectorIterator.IteratorAt(it, pos) r
  tags C04
  implements iterator.RandomAccessIterator.IteratorAt
func vector.VectorIterator.Position(it) r
  tags C04
  implements iterator.RandomAccessIterator.Position
func vector.VectorIterator.Equal(it, other) r
  tags C04
  implements iterator.ConstIterator.Equal
  ensures[foreign] r == (dyn_of(other) == dyn_VectorIterator() && other != 0 && it_cont(h, it) == it_cont(h, other) && it_pos(h, it) == it_pos(h, other))
