unit priorityqueue
tags C09
pkg ds/heap ds/priorityqueue
types ds/heap
use sync
guard PriorityQueue.holder PriorityQueue.locker
guard ElementHolder.elements PriorityQueue.locker
lib pq.rs heap.rs
iface heap.Interface.Len(c) r
  requires[ok] c_ok(h, c)
  ensures[len] r == c_seq(h, c).len()
iface heap.Interface.Less(c, i, j) r
  requires[ok] c_ok(h, c)
  panics !(0 <= i < c_seq(h, c).len() && 0 <= j < c_seq(h, c).len())
  ensures[less] r == (cmpv(c_ord(h, c), c_seq(h, c)[i], c_seq(h, c)[j]) < 0)
iface heap.Interface.Swap(c, i, j)
  requires[ok] c_ok(h, c)
  panics !(0 <= i < c_seq(h, c).len() && 0 <= j < c_seq(h, c).len())
  modifies arr_Val@h.ElementHolder_elements[c].a
  ensures[swap] c_seq(h, c) =~= sw(c_seq(h0, c), i, j)
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
iface heap.Interface.Push(c, x)
  requires[ok] c_ok(h, c)
  allocs
  modifies ElementHolder.elements@c, arr_Val@h.ElementHolder_elements[c].a, arr_Val@fresh
  ensures[push] c_seq(h, c) =~= c_seq(h0, c).push(x)
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
iface heap.Interface.Pop(c) r
  requires[ok] c_ok(h, c)
  panics c_seq(h, c).len() == 0
  modifies ElementHolder.elements@c, arr_Val@h.ElementHolder_elements[c].a
  ensures[pop] c_seq(h, c) =~= c_seq(h0, c).drop_last() && r == c_seq(h0, c).last()
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func heap.up(c, j)
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  requires 0 <= j && j < c_seq(h, c).len()
  modifies arr_Val@h.ElementHolder_elements[c].a
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  ghostvar b: int = j
  loop1 inv c_ok(h, c) && c_ord(h, c) == f && c_others(h0, h, c) && 0 <= j && j <= b && c_seq(h, c).len() == S.len() && c_seq(h, c).to_multiset() == S.to_multiset()
  loop1 inv forall|k: int| #![trigger c_seq(h, c)[k]] b < k && k < S.len() ==> c_seq(h, c)[k] == S[k]
  loop1 inv forall|n: int| #![trigger but_above(f, S, b, n)] b < n && n <= S.len() && but_above(f, S, b, n) ==> but_above(f, c_seq(h, c), j, n)
  loop1 dec j
  hint call:Swap#1.after { sw_perm(c_seq(hp, c), i, j); assert forall|n: int| #![trigger but_above(f, S, b, n)] b < n && n <= S.len() && but_above(f, S, b, n) implies but_above(f, c_seq(h, c), i, n) by { up_step(f, c_seq(hp, c), i, j, n); assert(c_seq(h, c) == sw(c_seq(hp, c), i, j)); } }
  hint exit { assert forall|n: int| #![trigger but_above(f, S, b, n)] b < n && n <= S.len() && but_above(f, S, b, n) implies heap_ord(f, c_seq(h, c), n) by { up_done(f, c_seq(h, c), j, n); } }
  ensures[heap] forall|n: int| #![trigger but_above(c_ord(h0, c), c_seq(h0, c), j, n)] j < n && n <= c_seq(h0, c).len() && but_above(c_ord(h0, c), c_seq(h0, c), j, n) ==> heap_ord(c_ord(h0, c), c_seq(h, c), n)
  ensures[same] c_seq(h, c).len() == c_seq(h0, c).len() && c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset()
  ensures[rest] forall|k: int| #![trigger c_seq(h, c)[k]] j < k && k < c_seq(h0, c).len() ==> c_seq(h, c)[k] == c_seq(h0, c)[k]
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func heap.down(c, i0, n) r
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  requires 0 <= i0 && n <= c_seq(h, c).len()
  modifies arr_Val@h.ElementHolder_elements[c].a
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  loop1 inv c_ok(h, c) && c_ord(h, c) == f && c_others(h0, h, c) && i0 <= i && c_seq(h, c).len() == S.len() && c_seq(h, c).to_multiset() == S.to_multiset() && (i == i0 ==> c_seq(h, c) == S)
  loop1 inv i0 >= n ==> i == i0
  loop1 inv forall|k: int| #![trigger c_seq(h, c)[k]] (0 <= k && k < i0) || (n <= k && k < S.len()) ==> c_seq(h, c)[k] == S[k]
  loop1 inv forall|lo: int| #![trigger but_below(f, S, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(f, S, lo, i0, n, true) ==> but_below(f, c_seq(h, c), lo, i, n, i == i0)
  loop1 dec nn(n - i)
  hint call:Swap#1.after { sw_perm(c_seq(hp, c), i, j); assert forall|lo: int| #![trigger but_below(f, S, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(f, S, lo, i0, n, true) implies but_below(f, c_seq(h, c), lo, j, n, false) by { down_step(f, c_seq(hp, c), lo, i, j, n, i == i0); assert(c_seq(h, c) == sw(c_seq(hp, c), i, j)); } }
  hint exit { assert forall|lo: int| #![trigger but_below(f, S, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(f, S, lo, i0, n, true) implies dn_post(f, c_seq(h, c), lo, i0, n, r) by { down_done(f, c_seq(h, c), lo, i, n, i == i0); } }
  ensures[heap] forall|lo: int| #![trigger but_below(c_ord(h0, c), c_seq(h0, c), lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(c_ord(h0, c), c_seq(h0, c), lo, i0, n, true) ==> dn_post(c_ord(h0, c), c_seq(h, c), lo, i0, n, r)
  ensures[still] !r ==> c_seq(h, c) == c_seq(h0, c)
  ensures[same] c_seq(h, c).len() == c_seq(h0, c).len() && c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset()
  ensures[rest] forall|k: int| #![trigger c_seq(h, c)[k]] (0 <= k && k < i0) || (n <= k && k < c_seq(h0, c).len()) ==> c_seq(h, c)[k] == c_seq(h0, c)[k]
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func heap.Init(c)
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  modifies arr_Val@h.ElementHolder_elements[c].a
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  loop1 inv c_ok(h, c) && c_ord(h, c) == f && c_others(h0, h, c) && n == S.len() && -1 <= i && c_seq(h, c).len() == S.len() && c_seq(h, c).to_multiset() == S.to_multiset() && heap_from(f, c_seq(h, c), i + 1, n)
  loop1 dec i + 1
  hint call:down#1.before { down_start(f, c_seq(h, c), c_seq(h, c), i, n); }
  ensures[heap] heap_ord(c_ord(h0, c), c_seq(h, c), c_seq(h, c).len() as int)
  ensures[same] c_seq(h, c).len() == c_seq(h0, c).len() && c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset()
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func heap.Push(c, x)
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  requires heap_ord(c_ord(h, c), c_seq(h, c), c_seq(h, c).len() as int)
  allocs
  modifies ElementHolder.elements@c, arr_Val@h.ElementHolder_elements[c].a, arr_Val@fresh
  hint call:Push#1.after { up_start(c_ord(h0, c), c_seq(h0, c), c_seq(h, c), c_seq(h0, c).len() as int); }
  hint entry { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
  ensures[heap] heap_ord(c_ord(h0, c), c_seq(h, c), c_seq(h, c).len() as int)
  ensures[values] c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset().insert(x) && c_seq(h, c).len() == c_seq(h0, c).len() + 1
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func heap.Pop(c) r
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  requires heap_ord(c_ord(h, c), c_seq(h, c), c_seq(h, c).len() as int)
  panics c_seq(h, c).len() == 0
  modifies ElementHolder.elements@c
  modifies arr_Val@h.ElementHolder_elements[c].a
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  hint call:down#1.before { sw_perm(S, 0, n); down_changed(f, S.take(n), c_seq(h, c), 0, n); }
  hint exit { root_min(f, S); }
  hint call:Pop*.before { drop_multi(S, c_seq(h, c), S[0]); }
  ensures[min] min_of(c_ord(h0, c), c_seq(h0, c), r) && c_seq(h0, c).contains(r)
  ensures[heap] heap_ord(c_ord(h0, c), c_seq(h, c), c_seq(h, c).len() as int)
  ensures[values] c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset().remove(r) && c_seq(h, c).len() == c_seq(h0, c).len() - 1
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func heap.Remove(c, i) r
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  requires heap_ord(c_ord(h, c), c_seq(h, c), c_seq(h, c).len() as int)
  requires 0 <= i && i < c_seq(h, c).len()
  modifies ElementHolder.elements@c
  modifies arr_Val@h.ElementHolder_elements[c].a
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  hint call:down*.before { sw_perm(S, i, n); down_changed(f, S.take(n), c_seq(h, c), i, n); }
  hint call:Pop*.before { drop_multi(S, c_seq(h, c), S[i]); }
  ensures[value] r == c_seq(h0, c)[i]
  ensures[heap] heap_ord(c_ord(h0, c), c_seq(h, c), c_seq(h, c).len() as int)
  ensures[values] c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset().remove(r) && c_seq(h, c).len() == c_seq(h0, c).len() - 1
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
// Fix: the value at i may have changed since the collection was heap-ordered
func heap.Fix(c, i)
  requires c_ok(h, c) && cmp_ok(c_ord(h, c))
  requires 0 <= i && i < c_seq(h, c).len() && but_below(c_ord(h, c), c_seq(h, c), 0, i, c_seq(h, c).len() as int, true)
  modifies arr_Val@h.ElementHolder_elements[c].a
  ensures[heap] heap_ord(c_ord(h0, c), c_seq(h, c), c_seq(h, c).len() as int)
  ensures[same] c_seq(h, c).len() == c_seq(h0, c).len() && c_seq(h, c).to_multiset() == c_seq(h0, c).to_multiset()
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
func priorityqueue.ElementHolder.Len(e) r
  implements heap.Interface.Len

func priorityqueue.ElementHolder.Less(e, i, j) r
  implements heap.Interface.Less

func priorityqueue.ElementHolder.Swap(e, i, j)
  implements heap.Interface.Swap
  modifies arr_Val@h.ElementHolder_elements[e].a
func priorityqueue.ElementHolder.Push(e, x)
  implements heap.Interface.Push
  allocs
  modifies ElementHolder.elements@e, arr_Val@h.ElementHolder_elements[e].a, arr_Val@fresh
func priorityqueue.ElementHolder.Pop(e) r
  implements heap.Interface.Pop
  modifies ElementHolder.elements@e, arr_Val@h.ElementHolder_elements[e].a
functype priorityqueue.Option(f, option)
  requires h.Options_locker[option] != 0
  allocs
  modifies Options.locker@option
  ensures h.Options_locker[option] != 0 && c_others(h0, h, 0)
func priorityqueue.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as priorityqueue.Option ensures h.Options_locker[option] >= h0.top
func priorityqueue.New(cmp, opts) r
  requires cmp != 0 && cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint exit { assert(h.PriorityQueue_locker[r] == h.Options_locker[option]); assert(option >= h0.top); }
  loop1 inv h.Options_locker[option] != 0 && c_others(h0, h, 0)
  ensures[new] q_ok(h, r) && r >= h0.top && h.PriorityQueue_holder[r] >= h0.top && q_ord(h, r) == cmp
  ensures[empty] q_seq(h, r).len() == 0
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.PriorityQueue_locker[r] == h.Options_locker[o]
  ensures[others] c_others(h0, h, 0)
func priorityqueue.PriorityQueue.Push(q, e)
  locks h.PriorityQueue_locker[q]
  requires q_ok(h, q)
  modifies ElementHolder.elements@h.PriorityQueue_holder[q], arr_Val@h.ElementHolder_elements[h.PriorityQueue_holder[q]].a, arr_Val@fresh
  ensures[values] q_ok(h, q) && q_seq(h, q).to_multiset() == q_seq(h0, q).to_multiset().insert(e) && q_seq(h, q).len() == q_seq(h0, q).len() + 1
  ensures[others] c_others(h0, h, h.PriorityQueue_holder[q]) && h.PriorityQueue_holder[q] == h0.PriorityQueue_holder[q]
func priorityqueue.PriorityQueue.Pop(q) r
  locks h.PriorityQueue_locker[q]
  requires q_ok(h, q)
  panics q_seq(h, q).len() == 0
  modifies ElementHolder.elements@h.PriorityQueue_holder[q]
  modifies arr_Val@h.ElementHolder_elements[h.PriorityQueue_holder[q]].a
  ensures[min] min_of(q_ord(h0, q), q_seq(h0, q), r) && q_seq(h0, q).contains(r)
  ensures[values] q_ok(h, q) && q_seq(h, q).to_multiset() == q_seq(h0, q).to_multiset().remove(r) && q_seq(h, q).len() == q_seq(h0, q).len() - 1
  ensures[others] c_others(h0, h, h.PriorityQueue_holder[q])
func priorityqueue.PriorityQueue.Top(q) r
  locks h.PriorityQueue_locker[q]
  requires q_ok(h, q)
  panics q_seq(h, q).len() == 0
  hint exit { root_min(q_ord(h0, q), q_seq(h0, q)); }
  ensures[min] min_of(q_ord(h0, q), q_seq(h0, q), r) && q_seq(h0, q).contains(r)
func priorityqueue.PriorityQueue.Empty(q) r
  locks h.PriorityQueue_locker[q]
  requires q_ok(h, q)
  ensures[empty] r == (q_seq(h, q).len() == 0)
func priorityqueue.PriorityQueue.Size(q) r
  locks h.PriorityQueue_locker[q]
  requires q_ok(h, q)
  ensures[size] r == q_seq(h, q).len()
func priorityqueue.PriorityQueue.Clear(q)
  locks h.PriorityQueue_locker[q]
  requires q_ok(h, q)
  modifies ElementHolder.elements@h.PriorityQueue_holder[q]
  ensures[empty] q_ok(h, q) && q_seq(h, q).len() == 0
  ensures[others] c_others(h0, h, h.PriorityQueue_holder[q])
