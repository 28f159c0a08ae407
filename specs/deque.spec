unit deque
tags C05
pkg ds/deque
use iterator
use container
ghost Segment.own: int
ghost Segment.pooled: bool
ghost Pool.own: int
ghost Arr.tag: (int,int)
broadcast pre::mod_ring pre::ax_scale
lib deque.rs iter_frames.rs
func deque.newSegment(capacity) r
  requires capacity == 128
  ghost exit Arr.tag@h.Segment_data[r].a = (2int, r)
  ensures r >= h0.top && sg_ok(h, r) && h.Segment_nSize[r] == 0
func deque.Segment.pushBack(s, value)
  requires sg_ok(h, s) && h.Segment_nSize[s] < 128
  modifies Segment.end@s, Segment.nSize@s, arr_Val@h.Segment_data[s].a
  hint exit { seg_steps(h0, h, s); }
  ensures[push] sg_ok(h, s) && sq(h, s) =~= sq(h0, s).push(value)
  ensures[step] seg_step(h0, h, s)
func deque.Segment.pushFront(s, val)
  requires sg_ok(h, s) && h.Segment_nSize[s] < 128
  modifies Segment.begin@s, Segment.nSize@s, arr_Val@h.Segment_data[s].a
  hint exit { seg_steps(h0, h, s); }
  ensures[push] sg_ok(h, s) && sq(h, s) =~= seq![val] + sq(h0, s)
  ensures[step] seg_step(h0, h, s)
func deque.Segment.insert(s, position, value)
  requires sg_ok(h, s) && h.Segment_nSize[s] < 128 && position >= 0
  modifies Segment.begin@s, Segment.end@s, Segment.nSize@s, arr_Val@h.Segment_data[s].a
  ghostvar n: int = h0.Segment_nSize[s]
  ghostvar b: int = h0.Segment_begin[s]
  hint exit { seg_steps(h0, h, s); }
  ensures[insert] sg_ok(h, s) && sq(h, s) =~= sq(h0, s).insert(if position < h0.Segment_nSize[s] { position } else { h0.Segment_nSize[s] }, value)
  ensures[step] seg_step(h0, h, s)
  loop1 inv n == h0.Segment_nSize[s] && b == h0.Segment_begin[s] && 0 <= i <= position && idx == rx(b - 1 + i, 128)
  loop1 inv forall|q: int| #![trigger h.arr_Val[h0.Segment_data[s].a][q]] 0 <= q - h0.Segment_data[s].off < 128 ==> h.arr_Val[h0.Segment_data[s].a][q] == (if rx(q - h0.Segment_data[s].off - b + 1, 128) < i { h0.arr_Val[h0.Segment_data[s].a][h0.Segment_data[s].off + rx(q - h0.Segment_data[s].off + 1, 128)] } else { h0.arr_Val[h0.Segment_data[s].a][q] })
  loop1 dec position - i
  loop2 inv n == h0.Segment_nSize[s] && b == h0.Segment_begin[s] && 0 <= i && (i <= n - position || i == 0) && idx == rx(b + n - i, 128)
  loop2 inv forall|q: int| #![trigger h.arr_Val[h0.Segment_data[s].a][q]] 0 <= q - h0.Segment_data[s].off < 128 ==> h.arr_Val[h0.Segment_data[s].a][q] == (if n - i < rx(q - h0.Segment_data[s].off - b, 128) <= n { h0.arr_Val[h0.Segment_data[s].a][h0.Segment_data[s].off + rx(q - h0.Segment_data[s].off - 1, 128)] } else { h0.arr_Val[h0.Segment_data[s].a][q] })
  loop2 dec n - position - i
func deque.Segment.popBack(s) r
  requires sg_ok(h, s) && h.Segment_nSize[s] > 0
  modifies Segment.end@s, Segment.nSize@s
  hint exit { seg_steps(h0, h, s); }
  ensures[pop] sg_ok(h, s) && r == sq(h0, s).last() && sq(h, s) =~= sq(h0, s).drop_last()
  ensures[step] seg_step(h0, h, s)
func deque.Segment.popFront(s) r
  requires sg_ok(h, s) && h.Segment_nSize[s] > 0
  modifies Segment.begin@s, Segment.nSize@s
  hint exit { seg_steps(h0, h, s); }
  ensures[pop] sg_ok(h, s) && r == sq(h0, s)[0] && sq(h, s) =~= sq(h0, s).skip(1)
  ensures[step] seg_step(h0, h, s)
func deque.Segment.eraseAt(s, position)
  requires sg_ok(h, s) && 0 <= position < h.Segment_nSize[s]
  modifies Segment.begin@s, Segment.end@s, Segment.nSize@s, arr_Val@h.Segment_data[s].a
  ghostvar n: int = h0.Segment_nSize[s]
  ghostvar b: int = h0.Segment_begin[s]
  hint exit { seg_steps(h0, h, s); }
  ensures[erase] sg_ok(h, s) && sq(h, s) =~= sq(h0, s).remove(position)
  ensures[step] seg_step(h0, h, s)
  loop1 inv n == h0.Segment_nSize[s] && b == h0.Segment_begin[s] && 0 <= i <= position
  loop1 inv forall|q: int| #![trigger h.arr_Val[h0.Segment_data[s].a][q]] 0 <= q - h0.Segment_data[s].off < 128 ==> h.arr_Val[h0.Segment_data[s].a][q] == (if i < rx(q - h0.Segment_data[s].off - b, 128) <= position { h0.arr_Val[h0.Segment_data[s].a][h0.Segment_data[s].off + rx(q - h0.Segment_data[s].off - 1, 128)] } else { h0.arr_Val[h0.Segment_data[s].a][q] })
  loop1 dec i
  loop2 inv n == h0.Segment_nSize[s] && b == h0.Segment_begin[s] && position <= i <= n
  loop2 inv forall|q: int| #![trigger h.arr_Val[h0.Segment_data[s].a][q]] 0 <= q - h0.Segment_data[s].off < 128 && rx(q - h0.Segment_data[s].off - b, 128) < n - 1 ==> h.arr_Val[h0.Segment_data[s].a][q] == (if position <= rx(q - h0.Segment_data[s].off - b, 128) < i { h0.arr_Val[h0.Segment_data[s].a][h0.Segment_data[s].off + rx(q - h0.Segment_data[s].off + 1, 128)] } else { h0.arr_Val[h0.Segment_data[s].a][q] })
  loop2 inv forall|q: int| #![trigger h.arr_Val[h0.Segment_data[s].a][q]] 0 <= q - h0.Segment_data[s].off < 128 && rx(q - h0.Segment_data[s].off - b, 128) == n - 1 && i < n ==> h.arr_Val[h0.Segment_data[s].a][q] == h0.arr_Val[h0.Segment_data[s].a][q]
  loop2 dec n - i
func deque.Segment.set(s, position, val)
  requires sg_ok(h, s) && 0 <= position < h.Segment_nSize[s]
  modifies arr_Val@h.Segment_data[s].a
  hint exit { seg_steps(h0, h, s); }
  ensures[set] sg_ok(h, s) && sq(h, s) =~= sq(h0, s).update(position, val)
  ensures[step] seg_step(h0, h, s)
func deque.Segment.clear(s)
  requires sg_ok(h, s)
  modifies Segment.begin@s, Segment.end@s, Segment.nSize@s
  ensures[clear] sg_ok(h, s) && h.Segment_nSize[s] == 0
  loop1 inv 0 <= i < 128 && sg_ok(h, s)
  loop1 inv in_ring(i, h.Segment_begin[s], h.Segment_nSize[s], 128) || i == h.Segment_end[s]
  loop1 dec rx(h.Segment_end[s] - i, 128)
func deque.newPool() r
  ghost exit Arr.tag@h.Pool_segs[r].a = (1int, r)
  ensures r >= h0.top && pl_ok(h, r) && h.Pool_segs[r].len == 0
func deque.Pool.get(p) r
  requires pl_ok(h, p)
  modifies Pool.segs@p, Segment.pooled
  ghost exit Segment.own@r = h.Pool_own[p]
  ghost exit Segment.pooled@r = false
  ensures[seg] sg_ok(h, r) && h.Segment_nSize[r] == 0 && h.Segment_own[r] == h.Pool_own[p] && !h.Segment_pooled[r] && (r >= h0.top || h0.Segment_pooled[r])
  ensures[rest] pl_ok(h, p) && forall|x: int| #![trigger h.Segment_pooled[x]] 0 < x < h0.top && x != r ==> h.Segment_pooled[x] == h0.Segment_pooled[x]
func deque.Pool.put(p, s)
  requires pl_ok(h, p) && sg_ok(h, s) && h.Segment_nSize[s] == 0 && h.Segment_own[s] == h.Pool_own[p] && !h.Segment_pooled[s]
  modifies Pool.segs@p, arr_int@h.Pool_segs[p].a, Segment.pooled@s
  ghost exit Segment.pooled@s = true
  ghost exit Arr.tag = if h.Pool_segs[p].a >= h0.top { h.Arr_tag.insert(h.Pool_segs[p].a, (1int, p)) } else { h.Arr_tag }
  ensures[put] pl_ok(h, p) && h.Segment_pooled[s]
func deque.Pool.shrinkToSize(p, size)
  requires pl_ok(h, p) && size >= 0
  modifies Pool.segs@p
  ghost exit Arr.tag = if h.Pool_segs[p].a >= h0.top { h.Arr_tag.insert(h.Pool_segs[p].a, (1int, p)) } else { h.Arr_tag }
  ensures[shrink] pl_ok(h, p)
func deque.New() r
  ghost exit Arr.tag@h.Deque_segs[r].a = (0int, r)
  ghost exit Pool.own@h.Deque_pool[r] = r
  hint post.others { fr_others(h0, h, 0); }
  ensures[empty] c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func deque.Deque.Size(d) r
  implements container.Container.Size
func deque.Deque.Empty(d) r
  implements container.Container.Empty
func deque.Deque.segUsed(d) r
  ensures r == su(h, d)
func deque.Deque.nextIndex(d, index) r
  requires h.Deque_segs[d].cap > 0 && 0 <= index < h.Deque_segs[d].cap
  ensures r == rx(index + 1, h.Deque_segs[d].cap)
func deque.Deque.preIndex(d, index) r
  requires h.Deque_segs[d].cap > 0 && 0 <= index <= h.Deque_segs[d].cap
  ensures r == rx(index - 1, h.Deque_segs[d].cap)
func deque.Deque.expand(d)
  requires st(h, d) && us(h, d) == h.Deque_segs[d].len && su(h, d) == us(h, d)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d
  ghost exit Arr.tag = if h.Deque_segs[d].a >= h0.top { h.Arr_tag.insert(h.Deque_segs[d].a, (0int, d)) } else { h.Arr_tag }
  hint post.same { repack(h0, h, d); }
  ensures[same] st(h, d) && us(h, d) == us(h0, d) && ss(h, d) =~= ss(h0, d)
  ensures[room] h.Deque_segs[d].len > us(h, d) && h.Deque_segs[d].a >= h0.top
  loop1 inv 0 <= i <= us(h0, d) && seg.a >= h0.top && seg.off == 0 && seg.len == newCapacity
  loop1 inv forall|q: int| #![trigger h.arr_int[seg.a][q]] 0 <= q < newCapacity ==> h.arr_int[seg.a][q] == (if q < i { at(h0, d, q) } else { 0 })
  loop1 dec us(h0, d) - i
func deque.Deque.shrinkIfNeeded(d)
  requires st(h, d) && (h.Deque_size[d] == 0 ==> us(h, d) == 0)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d
  ghost exit Arr.tag = if h.Deque_segs[d].a >= h0.top { h.Arr_tag.insert(h.Deque_segs[d].a, (0int, d)) } else { h.Arr_tag }
  hint post.same { if h.Deque_segs[d].a >= h0.top { repack(h0, h, d); } }
  ensures[same] st(h, d) && us(h, d) == us(h0, d) && ss(h, d) =~= ss(h0, d)
  ensures[array] h.Deque_segs[d].a == h0.Deque_segs[d].a || h.Deque_segs[d].a >= h0.top
  loop1 inv 0 <= i <= us(h0, d) && seg.a >= h0.top && seg.off == 0 && seg.len == newCapacity
  loop1 inv forall|q: int| #![trigger h.arr_int[seg.a][q]] 0 <= q < newCapacity ==> h.arr_int[seg.a][q] == (if q < i { at(h0, d, q) } else { 0 })
  loop1 dec us(h0, d) - i
func deque.DequeIterator.IsValid(it) r
  tags C04
  implements iterator.ConstIterator.IsValid
func deque.Deque.pos(d, position) seg, p
  requires c_ok(h, d) && 0 <= position < h.Deque_size[d]
  hint exit { locate(ss(h, d), position_in); }
  ensures[pos] seg == lseg(ss(h, d), position) && p == lpos(ss(h, d), position)
  ensures[facts] 0 <= seg < us(h, d) && 0 <= p < ss(h, d)[seg].len() && position == plen(ss(h, d), seg) + p && c_seq(h, d)[position] == ss(h, d)[seg][p]
func deque.Deque.firstSegment(d) r
  requires st(h, d)
  ensures r == (if us(h, d) == 0 { 0 } else { at(h, d, 0) })
func deque.Deque.lastSegment(d) r
  requires st(h, d)
  ensures r == (if us(h, d) == 0 { 0 } else { at(h, d, us(h, d) - 1) })
func deque.Deque.segmentAt(d, seg) r
  requires st(h, d) && 0 <= seg < us(h, d)
  ensures r == at(h, d, seg)
func deque.Deque.At(d, pos) r
  requires c_ok(h, d)
  panics !(0 <= pos < c_seq(h, d).len())
  ensures r == c_seq(h, d)[pos]
func deque.Deque.Set(d, pos, val) r
  requires c_ok(h, d)
  modifies arr_Val
  hint exit { if 0 <= pos_in < h.Deque_size[d] { locate(ss(h0, d), pos_in); flat_set(ss(h0, d), lseg(ss(h0, d), pos_in), lpos(ss(h0, d), pos_in), val); } }
  hint exit { fr_others(h0, h, d); }
  ensures[set] c_seq(h, d) =~= (if 0 <= pos < c_seq(h0, d).len() { c_seq(h0, d).update(pos, val) } else { c_seq(h0, d) })
  ensures[err] (r == 0) == (0 <= pos < c_seq(h0, d).len())
  ensures[others] c_ok(h, d) && us(h, d) == us(h0, d) && c_others(h0, h, d) && keeps(h0, h)
func deque.Deque.firstAvailableSegment(d) r
  requires c_ok(h, d)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghost call:preIndex#1.before hm = h
  hint entry { if us(h, d) > 0 { assert(1 <= ss(h, d)[0].len() <= 128); } }
  hint exit { if us(h0, d) == 0 || ss(h0, d)[0].len() == 128 { add_seg(hm, h, d, rx(hm.Deque_begin[d] - 1, hm.Deque_segs[d].len)); } }
  ensures[seg] st(h, d) && us(h, d) > 0 && r == at(h, d, 0) && h.Segment_nSize[r] < 128 && h.Segment_own[r] == d
  ensures[ss] ss(h, d) =~= (if us(h0, d) > 0 && ss(h0, d)[0].len() < 128 { ss(h0, d) } else { seq![Seq::<Val>::empty()] + ss(h0, d) })
  ensures[frame] fr(h0, h, d)
func deque.Deque.lastAvailableSegment(d) r
  requires c_ok(h, d)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghost call:get#1.before hm = h
  hint entry { if us(h, d) > 0 { assert(1 <= ss(h, d).last().len() <= 128); } }
  hint exit { if us(h0, d) == 0 || ss(h0, d).last().len() == 128 { add_seg(hm, h, d, hm.Deque_end[d]); } }
  ensures[seg] st(h, d) && us(h, d) > 0 && r == at(h, d, us(h, d) - 1) && h.Segment_nSize[r] < 128 && h.Segment_own[r] == d
  ensures[ss] ss(h, d) =~= (if us(h0, d) > 0 && ss(h0, d).last().len() < 128 { ss(h0, d) } else { ss(h0, d).push(Seq::<Val>::empty()) })
  ensures[frame] fr(h0, h, d)
func deque.Deque.PushFront(d, value)
  implements container.Container.PushFront
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  hint exit { pushed_front(ss(h0, d), ss(h, d), value); fr_others(h0, h, d); }
  ensures[frame] fr(h0, h, d)
  ensures[keep] keeps(h0, h)
func deque.Deque.PushBack(d, value)
  implements container.Container.PushBack
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  hint exit { pushed_back(ss(h0, d), ss(h, d), value); fr_others(h0, h, d); }
  ensures[frame] fr(h0, h, d)
  ensures[keep] keeps(h0, h)
func deque.Deque.Front(d) r
  implements container.Container.Front
  hint entry { if us(h, d) > 0 { assert(1 <= ss(h, d)[0].len() <= 128); } }
  hint exit { if us(h, d) > 0 { popped_front(ss(h, d), if ss(h, d)[0].len() == 1 { ss(h, d).skip(1) } else { ss(h, d).update(0, ss(h, d)[0].skip(1)) }); } }
func deque.Deque.Back(d) r
  implements container.Container.Back
  hint entry { if us(h, d) > 0 { assert(1 <= ss(h, d).last().len() <= 128); } }
  hint exit { if us(h, d) > 0 { popped_back(ss(h, d), if ss(h, d).last().len() == 1 { ss(h, d).drop_last() } else { ss(h, d).update(ss(h, d).len() - 1, ss(h, d).last().drop_last()) }); } }
func deque.Deque.putToPool(d, s)
  requires st(h, d) && sg_ok(h, s) && h.Segment_own[s] == d && !h.Segment_pooled[s]
  modifies Pool.segs@h.Deque_pool[d], Segment.begin@s, Segment.end@s, Segment.nSize@s, Segment.pooled@s, arr_int@h.Pool_segs[h.Deque_pool[d]].a
  ensures[hole] forall|q: int| #![trigger h0.arr_int[h0.Deque_segs[d].a][q]] 0 <= q - h0.Deque_segs[d].off < h0.Deque_segs[d].len && h0.arr_int[h0.Deque_segs[d].a][q] == s ==> stx(h, d, us(h0, d), q - h0.Deque_segs[d].off)
  ensures[array] h.Deque_segs[d].len > 0 ==> h.arr_int[h.Deque_segs[d].a] == h0.arr_int[h.Deque_segs[d].a]
func deque.Deque.PopFront(d) r
  implements container.Container.PopFront
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghost call:popFront#1.after hm = h
  hint entry { if us(h, d) > 0 { assert(1 <= ss(h, d)[0].len() <= 128); } }
  hint call:shrinkIfNeeded#1.before { drop_front(hm, h, d); popped_front(ss(h0, d), ss(h, d)); shape_len(ss(h, d)); }
  hint exit { popped_front(ss(h0, d), ss(h, d)); fr_others(h0, h, d); }
  ensures[keep] keeps(h0, h)
func deque.Deque.PopBack(d) r
  implements container.Container.PopBack
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghost call:popBack#1.after hm = h
  hint entry { if us(h, d) > 0 { assert(1 <= ss(h, d).last().len() <= 128); } }
  hint call:shrinkIfNeeded#1.before { drop_back(hm, h, d); popped_back(ss(h0, d), ss(h, d)); shape_len(ss(h, d)); }
  hint exit { popped_back(ss(h0, d), ss(h, d)); fr_others(h0, h, d); }
  ensures[keep] keeps(h0, h)
func deque.Deque.moveFrontInsert(d, seg, pos, value)
  split
  rlimit 100
  requires c_ok(h, d) && 0 <= seg < us(h, d) && 0 <= pos < ss(h, d)[seg].len() && (seg > 0 || pos > 0)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghostvar A: SS = ss(h, d)
  ghost call:preIndex#1.before hm = h
  hint entry { assert(1 <= A[0].len() <= 128); }
  hint loop1.before { if A[0].len() == 128 { add_seg(hm, h, d, rx(hm.Deque_begin[d] - 1, hm.Deque_segs[d].len)); } assert(ss(h, d) =~= pad_front(A)); assert(shl(pad_front(A), 0, 0) =~= pad_front(A)); mf_len(A, seg_in, pos_in, 0); }
  ghostvar T: SS = A
  ghost loop1.start T = ss(h, d)
  hint loop1.start { mf_len(A, seg_in, pos_in, i); seg_is(h, d, i); seg_is(h, d, i + 1); segs_differ(h, d, i, i + 1); }
  hint call:popFront#1.after { assert(at(hp, d, i + 1) == next); assert(ss(h, d) == T.update(i + 1, T[i + 1].skip(1))); seg_is(h, d, i); assert(at(h, d, i) == cur); }
  hint call:pushBack#1.after { assert(ss(h, d) =~= T.update(i + 1, T[i + 1].skip(1)).update(i, T[i].push(T[i + 1][0]))); shl_step(pad_front(A), T, ss(h, d), 0, i); }
  hint loop1.after { mf_len(A, seg_in, pos_in, i); seg_is(h, d, i); }
  hint exit { assert(ss(h, d) =~= ins_at(shl(pad_front(A), 0, seg), seg, pos, value)); moved_front(ss(h0, d), ss(h, d), seg_in, pos_in, value); }
  ensures[ss] st(h, d) && shape(ss(h, d)) && us(h, d) > 0 && flat(ss(h, d)).len() == flat(ss(h0, d)).len() + 1
  ensures[insert] c_seq(h, d) == c_seq(h0, d).insert(plen(ss(h0, d), seg) + pos, value)
  ensures[frame] fr(h0, h, d)
  loop1 inv A == ss(h0, d) && 0 <= i <= seg && st(h, d) && fr(h0, h, d) && seg == mf_seg(A, seg_in, pos_in) && pos == mf_pos(A, seg_in, pos_in)
  loop1 inv us(h, d) == pad_front(A).len() && ss(h, d) =~= shl(pad_front(A), 0, i)
  loop1 all
  loop1 dec seg - i
func deque.Deque.moveBackInsert(d, seg, pos, value)
  split
  rlimit 100
  requires c_ok(h, d) && 0 <= seg < us(h, d) && 0 <= pos < ss(h, d)[seg].len()
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghostvar A: SS = ss(h, d)
  ghost call:get#1.before hm = h
  hint entry { assert(1 <= A.last().len() <= 128); }
  hint loop1.before { if A.last().len() == 128 { add_seg(hm, h, d, hm.Deque_end[d]); } }
  ghostvar T: SS = A
  ghost loop1.start T = ss(h, d)
  hint loop1.start { mb_len(A, i); seg_is(h, d, i); seg_is(h, d, i - 1); segs_differ(h, d, i, i - 1); }
  hint call:popBack#1.after { assert(at(hp, d, i - 1) == pre); assert(ss(h, d) == T.update(i - 1, T[i - 1].drop_last())); seg_is(h, d, i); assert(at(h, d, i) == cur); }
  hint call:pushFront#1.after { assert(ss(h, d) =~= T.update(i - 1, T[i - 1].drop_last()).update(i, seq![T[i - 1].last()] + T[i])); shr_step(pad_back(A), T, ss(h, d), i, us(h, d) - 1); }
  hint loop1.after { mb_len(A, i); seg_is(h, d, i); }
  hint exit { moved_back(ss(h0, d), ss(h, d), seg_in, pos_in, value); }
  ensures[ss] st(h, d) && shape(ss(h, d)) && us(h, d) > 0 && flat(ss(h, d)).len() == flat(ss(h0, d)).len() + 1
  ensures[insert] c_seq(h, d) == c_seq(h0, d).insert(plen(ss(h0, d), seg) + pos, value)
  ensures[frame] fr(h0, h, d)
  loop1 inv A == ss(h0, d) && seg <= i < us(h, d) && st(h, d) && fr(h0, h, d)
  loop1 inv us(h, d) == pad_back(A).len() && ss(h, d) =~= shr(pad_back(A), i, us(h, d) - 1)
  loop1 all
  loop1 dec i
func deque.Deque.Insert(d, pos, value)
  requires c_ok(h, d)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  hint entry { if 0 <= pos < h.Deque_size[d] { locate(ss(h, d), pos); } }
  hint exit { fr_others(h0, h, d); }
  ensures[insert] c_seq(h, d) =~= (if 0 <= pos <= c_seq(h0, d).len() { c_seq(h0, d).insert(pos, value) } else { c_seq(h0, d) })
  ensures[others] c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h)
func deque.Deque.EraseAt(d, pos)
  split
  rlimit 100
  requires c_ok(h, d)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar hm: Heap = h
  ghostvar A: SS = ss(h, d)
  ghostvar B: SS = cut(ss(h, d), lseg(ss(h, d), pos), lpos(ss(h, d), pos))
  hint entry { if 0 <= pos < h.Deque_size[d] { locate(ss(h, d), pos); } }
  ghostvar T: SS = A
  ghost loop1.start T = ss(h, d)
  hint loop1.start { er_len(A, pos_in, i); seg_is(h, d, i); seg_is(h, d, i - 1); segs_differ(h, d, i, i - 1); }
  hint call:popBack#1.after { assert(at(hp, d, i - 1) == pre); assert(ss(h, d) == T.update(i - 1, T[i - 1].drop_last())); seg_is(h, d, i); assert(at(h, d, i) == cur); }
  hint call:pushFront#1.after { assert(ss(h, d) =~= T.update(i - 1, T[i - 1].drop_last()).update(i, seq![T[i - 1].last()] + T[i])); shr_step(B, T, ss(h, d), i, seg); }
  ghost loop2.start T = ss(h, d)
  hint loop2.start { er_len(A, pos_in, i); seg_is(h, d, i); seg_is(h, d, i + 1); segs_differ(h, d, i, i + 1); }
  hint call:popFront#1.after { assert(at(hp, d, i + 1) == next); assert(ss(h, d) == T.update(i + 1, T[i + 1].skip(1))); seg_is(h, d, i); assert(at(h, d, i) == cur); }
  hint call:pushBack#1.after { assert(ss(h, d) =~= T.update(i + 1, T[i + 1].skip(1)).update(i, T[i].push(T[i + 1][0]))); shl_step(B, T, ss(h, d), seg, i); }
  hint loop1.after { assert(st(h, d)); }
  ghost loop1.after hm = h
  ghost loop2.after hm = h
  hint call:shrinkIfNeeded#1.before { drop_front(hm, h, d); }
  hint call:shrinkIfNeeded#2.before { drop_back(hm, h, d); }
  hint exit { if 0 <= pos_in < h0.Deque_size[d] { erased(ss(h0, d), ss(h, d), pos_in); shape_len(ss(h, d)); } fr_others(h0, h, d); }
  ensures[erase] c_seq(h, d) =~= (if 0 <= pos < c_seq(h0, d).len() { c_seq(h0, d).remove(pos) } else { c_seq(h0, d) })
  ensures[others] c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h)
  loop1 inv A == ss(h0, d) && B == cut(A, lseg(A, pos_in), lpos(A, pos_in)) && 0 <= i <= seg && seg == lseg(A, pos_in) && st(h, d) && fr(h0, h, d) && us(h, d) == A.len()
  loop1 inv ss(h, d) =~= shr(B, i, seg)
  loop1 dec i
  loop2 inv A == ss(h0, d) && B == cut(A, lseg(A, pos_in), lpos(A, pos_in)) && seg <= i < A.len() && seg == lseg(A, pos_in) && st(h, d) && fr(h0, h, d) && us(h, d) == A.len()
  loop2 inv ss(h, d) =~= shl(B, seg, i)
  loop2 dec A.len() - i
func deque.Deque.EraseRange(d, firstPos, lastPos)
  requires c_ok(h, d)
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ghostvar A: Seq<Val> = c_seq(h, d)
  ensures[erase] c_seq(h, d) =~= (if 0 <= firstPos && firstPos < lastPos && lastPos <= c_seq(h0, d).len() { c_seq(h0, d).subrange(0, firstPos) + c_seq(h0, d).skip(lastPos) } else { c_seq(h0, d) })
  ensures[others] c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h)
  loop1 inv A == c_seq(h0, d) && c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h) && firstPos <= pos && num == lastPos - firstPos && pos <= A.len() - num
  loop1 inv c_seq(h, d) =~= Seq::new(A.len(), |k: int| if firstPos <= k < pos { A[k + num] } else { A[k] })
  loop1 dec A.len() - pos
  loop2 inv A == c_seq(h0, d) && c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h) && 0 <= num <= lastPos - firstPos
  loop2 inv c_seq(h, d) =~= Seq::new(nn(A.len() - (lastPos - firstPos) + num), |k: int| if firstPos <= k < A.len() - (lastPos - firstPos) { A[k + lastPos - firstPos] } else { A[k] })
  loop2 dec num
  loop3 inv A == c_seq(h0, d) && c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h) && pos < lastPos && num == lastPos - firstPos && num - 1 <= pos
  loop3 inv c_seq(h, d) =~= Seq::new(A.len(), |k: int| if pos < k < lastPos { A[k - num] } else { A[k] })
  loop3 dec pos
  loop4 inv A == c_seq(h0, d) && c_ok(h, d) && c_others(h0, h, d) && keeps(h0, h) && 0 <= num <= lastPos - firstPos
  loop4 inv c_seq(h, d) =~= Seq::new(A.len(), |k: int| if lastPos - firstPos <= k < lastPos { A[k - (lastPos - firstPos)] } else { A[k] }).skip(lastPos - firstPos - num)
  loop4 dec num
func deque.Deque.Clear(d)
  implements container.Container.Clear
  modifies Deque.segs@d, Deque.begin@d, Deque.end@d, Deque.size@d, Pool.segs, Segment.begin, Segment.end, Segment.nSize, Segment.pooled, arr_int, arr_Val
  ensures[keep] keeps(h0, h)
func deque.Deque.Begin(d) r
  tags C04
  requires c_ok(h, d)
  hint exit { fr_others(h0, h, 0); }
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == d && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func deque.Deque.First(d) r
  tags C04
  requires c_ok(h, d)
  hint exit { fr_others(h0, h, 0); }
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == d && it_pos(h, r) == 0
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func deque.Deque.End(d) r
  tags C04
  requires c_ok(h, d)
  hint exit { fr_others(h0, h, 0); }
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == d && it_pos(h, r) == c_seq(h, d).len()
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func deque.Deque.Last(d) r
  tags C04
  requires c_ok(h, d)
  hint exit { fr_others(h0, h, 0); }
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == d && it_pos(h, r) == c_seq(h, d).len() - 1
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func deque.Deque.IterAt(d, pos) r
  tags C04
  requires c_ok(h, d)
  hint exit { fr_others(h0, h, 0); }
  ensures it_ok(h, r) && r >= h0.top && it_cont(h, r) == d && it_pos(h, r) == pos
  ensures[others] c_others(h0, h, 0) && it_others(h0, h, 0)
func deque.DequeIterator.SetValue(it, val)
  tags C04
  implements iterator.BidIterator.SetValue
  modifies arr_Val
func deque.DequeIterator.Value(it) r
  tags C04
  implements iterator.ConstIterator.Value
func deque.DequeIterator.Next(it) r
  tags C04
  implements iterator.ConstIterator.Next
  hint exit { fr_others(h0, h, 0); }
  modifies DequeIterator.position@it
func deque.DequeIterator.Prev(it) r
  tags C04
  implements iterator.ConstBidIterator.Prev
  hint exit { fr_others(h0, h, 0); }
  modifies DequeIterator.position@it
func deque.DequeIterator.Clone(it) r
  tags C04
  implements iterator.ConstIterator.Clone
  hint exit { fr_others(h0, h, 0); }
func deque.DequeIterator.IteratorAt(it, pos) r
  tags C04
  implements iterator.RandomAccessIterator.IteratorAt
  hint exit { fr_others(h0, h, 0); }
func deque.DequeIterator.Position(it) r
  tags C04
  implements iterator.RandomAccessIterator.Position
func deque.DequeIterator.Equal(it, other) r
  tags C04
  implements iterator.ConstIterator.Equal
  ensures[foreign] r == (dyn_of(other) == dyn_DequeIterator() && other != 0 && it_cont(h, it) == it_cont(h, other) && it_pos(h, it) == it_pos(h, other))
