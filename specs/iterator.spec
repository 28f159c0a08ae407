// Interface contracts of iterators.  Every client is verified against these, every implementation
// is verified to satisfy them.  The abstract functions are
//   it_ok(h, it)    it is an iterator object in a usable state
//   it_cont(h, it)  the container it belongs to
//   it_pos(h, it)   its position
//   c_seq(h, c)     the container's elements
//   w_ok(h)         separation of containers
//   it_others(h0, h, it)  every iterator except it is unchanged; no iterator became unusable
//   it_rd(h, it)    the element may be examined (a client narrows this to its range)
//   it_pv(h, it)    the iterator may step back (list iterators have no position before the first)
//   c_others(h0, h, c)    every container except c has unchanged contents
types utils/iterator
iface iterator.ConstIterator.IsValid(it) r
  requires[ok] it_ok(h, it)
  ensures[valid] r == (0 <= it_pos(h, it) && it_pos(h, it) < c_seq(h, it_cont(h, it)).len())
iface iterator.ConstIterator.Value(it) r
  requires[ok] it_ok(h, it)
  requires[inside] it_rd(h, it)
  panics !(0 <= it_pos(h, it) && it_pos(h, it) < c_seq(h, it_cont(h, it)).len())
  ensures[value] r == c_seq(h, it_cont(h, it))[it_pos(h, it)]
iface iterator.ConstIterator.Next(it) r
  requires[ok] it_ok(h, it)
  modifies It.pos@it
  ensures[same] r == it
  ensures[pos] it_pos(h, it) == (if it_pos(h0, it) < c_seq(h0, it_cont(h0, it)).len() { it_pos(h0, it) + 1 } else { it_pos(h0, it) })
  ensures[cont] it_ok(h, it) && it_cont(h, it) == it_cont(h0, it)
  ensures[others] it_others(h0, h, it) && c_others(h0, h, 0)
iface iterator.ConstIterator.Clone(it) r
  requires[ok] it_ok(h, it)
  allocs
  modifies It.pos@fresh, It.cont@fresh
  ensures[new] r >= h0.top && r < h.top && it_ok(h, r) && dyn_of(r) == dyn_of(it)
  ensures[pos] it_pos(h, r) == it_pos(h0, it) && it_cont(h, r) == it_cont(h0, it)
  ensures[others] it_others(h0, h, 0) && c_others(h0, h, 0)
iface iterator.ConstIterator.Equal(it, other) r
  requires[ok] it_ok(h, it) && it_ok(h, other)
  ensures[equal] it_cont(h, it) == it_cont(h, other) ==> r == (it_pos(h, it) == it_pos(h, other))
iface iterator.ConstBidIterator.Prev(it) r
  requires[ok] it_ok(h, it)
  requires[back] it_pv(h, it)
  modifies It.pos@it
  ensures[same] r == it
  ensures[pos] it_pos(h, it) == (if it_pos(h0, it) >= 0 { it_pos(h0, it) - 1 } else { it_pos(h0, it) })
  ensures[cont] it_ok(h, it) && it_cont(h, it) == it_cont(h0, it)
  ensures[others] it_others(h0, h, it) && c_others(h0, h, 0)
iface iterator.BidIterator.SetValue(it, v)
  requires[ok] it_ok(h, it) && w_ok(h)
  modifies C.seq@it_cont(h, it)
  ensures[set] c_seq(h, it_cont(h, it)) =~= (if 0 <= it_pos(h0, it) && it_pos(h0, it) < c_seq(h0, it_cont(h0, it)).len() { c_seq(h0, it_cont(h0, it)).update(it_pos(h0, it), v) } else { c_seq(h0, it_cont(h0, it)) })
  ensures[cont] it_ok(h, it) && it_cont(h, it) == it_cont(h0, it) && it_pos(h, it) == it_pos(h0, it)
  ensures[others] it_others(h0, h, 0) && c_others(h0, h, it_cont(h0, it)) && w_ok(h)
iface iterator.Iterator.SetValue(it, v)
  requires[ok] it_ok(h, it) && w_ok(h)
  modifies C.seq@it_cont(h, it)
  ensures[set] c_seq(h, it_cont(h, it)) =~= (if 0 <= it_pos(h0, it) && it_pos(h0, it) < c_seq(h0, it_cont(h0, it)).len() { c_seq(h0, it_cont(h0, it)).update(it_pos(h0, it), v) } else { c_seq(h0, it_cont(h0, it)) })
  ensures[cont] it_ok(h, it) && it_cont(h, it) == it_cont(h0, it) && it_pos(h, it) == it_pos(h0, it)
  ensures[others] it_others(h0, h, 0) && c_others(h0, h, it_cont(h0, it)) && w_ok(h)
iface iterator.RandomAccessIterator.IteratorAt(it, position) r
  requires[ok] it_ok(h, it)
  allocs
  modifies It.pos@fresh, It.cont@fresh
  ensures[new] r >= h0.top && r < h.top && it_ok(h, r) && dyn_of(r) == dyn_of(it)
  ensures[pos] it_pos(h, r) == position && it_cont(h, r) == it_cont(h0, it)
  ensures[others] it_others(h0, h, 0) && c_others(h0, h, 0)
iface iterator.RandomAccessIterator.Position(it) r
  requires[ok] it_ok(h, it)
  ensures[pos] r == it_pos(h, it)
