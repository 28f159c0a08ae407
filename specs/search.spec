unit search
tags C20
pkg algorithm/sort
use iterator
ghost It.pos: int
ghost It.cont: int
ghost C.seq: Seq<Val>
ghost Rng.cont: !int
ghost Rng.lo: !int
ghost Rng.hi: !int
lib algo.rs rng.rs
func sort.binarySearch(first, last, val, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, last))
  allocs
  loop1 inv it_ok(h, left) && it_ok(h, right) && it_cont(h, left) == it_cont(h0, first) && it_cont(h, right) == it_cont(h0, first) && its_kept(h0, h)
  loop1 inv left >= h0.top && right >= h0.top && left != right
  loop1 inv it_pos(h0, first) <= it_pos(h, left) && it_pos(h, left) <= it_pos(h, right) + 1 && it_pos(h, right) < it_pos(h0, last)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, left) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) > 0
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h, right) < i < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) < 0
  loop1 dec it_pos(h, right) - it_pos(h, left) + 1
  ensures[found] r == exists|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) && cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], val) == 0
  ensures[kept] its_kept(h0, h)
func sort.BinarySearch(first, last, val, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, last))
  allocs
  ensures[found] r == exists|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) && cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], val) == 0
  ensures[kept] its_kept(h0, h)
func sort.lowerBound(first, last, val, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, last))
  allocs
  loop1 inv it_ok(h, left) && it_ok(h, right) && it_cont(h, left) == it_cont(h0, first) && it_cont(h, right) == it_cont(h0, first) && its_kept(h0, h)
  loop1 inv left >= h0.top && right >= h0.top && left != right
  loop1 inv it_pos(h0, first) <= it_pos(h, left) && it_pos(h, left) <= it_pos(h, right) + 1 && it_pos(h, right) < it_pos(h0, last)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, left) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) > 0
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h, right) < i < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) <= 0
  loop1 inv it_pos(h, right) < it_pos(h0, last) - 1 ==> pos == it_pos(h, right) + 1
  loop1 dec it_pos(h, right) - it_pos(h, left) + 1
  ensures[new] it_ok(h, r) && r >= h0.top && it_cont(h, r) == it_cont(h0, first)
  ensures[within] it_pos(h0, first) <= it_pos(h, r) <= it_pos(h0, last)
  ensures[before] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) > 0
  ensures[there] it_pos(h, r) < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) <= 0
  ensures[kept] its_kept(h0, h)
func sort.LowerBound(first, last, val, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, last))
  allocs
  ensures[new] it_ok(h, r) && r >= h0.top && it_cont(h, r) == it_cont(h0, first)
  ensures[within] it_pos(h0, first) <= it_pos(h, r) <= it_pos(h0, last)
  ensures[before] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) > 0
  ensures[there] it_pos(h, r) < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) <= 0
  ensures[kept] its_kept(h0, h)
func sort.upperBound(first, last, val, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, last))
  allocs
  loop1 inv it_ok(h, left) && it_ok(h, right) && it_cont(h, left) == it_cont(h0, first) && it_cont(h, right) == it_cont(h0, first) && its_kept(h0, h)
  loop1 inv left >= h0.top && right >= h0.top && left != right
  loop1 inv it_pos(h0, first) <= it_pos(h, left) && it_pos(h, left) <= it_pos(h, right) + 1 && it_pos(h, right) < it_pos(h0, last)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, left) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) >= 0
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h, right) < i < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) < 0
  loop1 inv it_pos(h, right) < it_pos(h0, last) - 1 ==> pos == it_pos(h, right) + 1
  loop1 dec it_pos(h, right) - it_pos(h, left) + 1
  ensures[new] it_ok(h, r) && r >= h0.top && it_cont(h, r) == it_cont(h0, first)
  ensures[within] it_pos(h0, first) <= it_pos(h, r) <= it_pos(h0, last)
  ensures[before] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) >= 0
  ensures[there] it_pos(h, r) < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) < 0
  ensures[kept] its_kept(h0, h)
func sort.UpperBound(first, last, val, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, last))
  allocs
  ensures[new] it_ok(h, r) && r >= h0.top && it_cont(h, r) == it_cont(h0, first)
  ensures[within] it_pos(h0, first) <= it_pos(h, r) <= it_pos(h0, last)
  ensures[before] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[i]) >= 0
  ensures[there] it_pos(h, r) < it_pos(h0, last) ==> cmpv(cmp, val, c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) < 0
  ensures[kept] its_kept(h0, h)
