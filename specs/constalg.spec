unit constalg
tags C22
pkg algorithm
use iterator
ghost It.pos: int
ghost It.cont: int
ghost C.seq: Seq<Val>
ghost Rng.cont: !int
ghost Rng.lo: !int
ghost Rng.hi: !int
lib algo.rs constalg.rs
functype func.ConstIterator.bool(p, it) r
  requires[inside] it_ok(h, it) && it_rd(h, it)
  ensures r == predv(p, c_seq(h, it_cont(h, it))[it_pos(h, it)])
func algorithm.Count(first, last, value, cmp) r
  requires rng_is(h, first, last) && cmp != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv count == cnt_eq(cmp, c_seq(h0, it_cont(h0, first)), value, it_pos(h0, first), it_pos(h, iter))
  ensures[count] r == cnt_eq(cmp, c_seq(h0, it_cont(h0, first)), value, it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
func algorithm.CountIf(first, last, f) r
  requires rng_is(h, first, last) && f != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv count == cnt_if(f, c_seq(h0, it_cont(h0, first)), it_pos(h0, first), it_pos(h, iter))
  ensures[count] r == cnt_if(f, c_seq(h0, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
func algorithm.Find(first, last, value, cmp) r
  requires rng_is(h, first, last) && cmp != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> !(cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], value) == 0)
  ensures[within] it_ok(h, r) && it_cont(h, r) == it_cont(h0, first) && it_pos(h0, first) <= it_pos(h, r) <= it_pos(h0, last)
  ensures[before] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) ==> !(cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], value) == 0)
  ensures[there] it_pos(h, r) < it_pos(h0, last) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[it_pos(h, r)], value) == 0
  ensures[kept] its_kept(h0, h)
func algorithm.FindIf(first, last, f) r
  requires rng_is(h, first, last) && f != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> !(predv(f, c_seq(h0, it_cont(h0, first))[i]))
  ensures[within] it_ok(h, r) && it_cont(h, r) == it_cont(h0, first) && it_pos(h0, first) <= it_pos(h, r) <= it_pos(h0, last)
  ensures[before] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) ==> !(predv(f, c_seq(h0, it_cont(h0, first))[i]))
  ensures[there] it_pos(h, r) < it_pos(h0, last) ==> predv(f, c_seq(h0, it_cont(h0, first))[it_pos(h, r)])
  ensures[kept] its_kept(h0, h)
func algorithm.MaxElement(first, last, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv it_ok(h, largest) && it_cont(h, largest) == it_cont(h0, first) && largest != iter && it_pos(h0, first) <= it_pos(h, largest) && (it_pos(h, largest) < it_pos(h, iter) || it_pos(h, largest) == it_pos(h0, first))
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, largest)]) <= 0
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, largest) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, largest)]) < 0
  ensures[within] it_ok(h, r) && it_cont(h, r) == it_cont(h0, first) && (it_pos(h0, first) <= it_pos(h, r) < it_pos(h0, last) || it_pos(h0, first) == it_pos(h0, last) && it_pos(h, r) == it_pos(h0, last))
  ensures[extreme] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) <= 0
  ensures[first] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) && it_pos(h0, first) < it_pos(h0, last) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) < 0
  ensures[kept] its_kept(h0, h)
func algorithm.MinElement(first, last, cmp) r
  requires rng_is(h, first, last) && cmp_ok(cmp)
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv it_ok(h, smallest) && it_cont(h, smallest) == it_cont(h0, first) && smallest != iter && it_pos(h0, first) <= it_pos(h, smallest) && (it_pos(h, smallest) < it_pos(h, iter) || it_pos(h, smallest) == it_pos(h0, first))
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, smallest)]) >= 0
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, smallest) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, smallest)]) > 0
  ensures[within] it_ok(h, r) && it_cont(h, r) == it_cont(h0, first) && (it_pos(h0, first) <= it_pos(h, r) < it_pos(h0, last) || it_pos(h0, first) == it_pos(h0, last) && it_pos(h, r) == it_pos(h0, last))
  ensures[extreme] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) >= 0
  ensures[first] forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, r) && it_pos(h0, first) < it_pos(h0, last) ==> cmpv(cmp, c_seq(h0, it_cont(h0, first))[i], c_seq(h0, it_cont(h0, first))[it_pos(h, r)]) > 0
  ensures[kept] its_kept(h0, h)
func algorithm.AnyOf(first, last, f) r
  requires rng_is(h, first, last) && f != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> !predv(f, c_seq(h0, it_cont(h0, first))[i])
  ensures[any] r == exists|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) && predv(f, c_seq(h0, it_cont(h0, first))[i])
  ensures[kept] its_kept(h0, h)
func algorithm.AllOf(first, last, f) r
  requires rng_is(h, first, last) && f != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> predv(f, c_seq(h0, it_cont(h0, first))[i])
  ensures[all] r == (forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) ==> predv(f, c_seq(h0, it_cont(h0, first))[i]))
  ensures[kept] its_kept(h0, h)
func algorithm.NoneOf(first, last, f) r
  requires rng_is(h, first, last) && f != 0
  allocs
  loop1 inv it_ok(h, iter) && it_cont(h, iter) == it_cont(h0, first) && its_kept(h0, h) && iter >= h0.top && it_pos(h0, first) <= it_pos(h, iter) && it_pos(h, iter) <= it_pos(h0, last)
  loop1 dec it_pos(h0, last) - it_pos(h, iter)
  loop1 inv forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h, iter) ==> !predv(f, c_seq(h0, it_cont(h0, first))[i])
  ensures[none] r == (forall|i: int| #![trigger c_seq(h0, it_cont(h0, first))[i]] it_pos(h0, first) <= i < it_pos(h0, last) ==> !predv(f, c_seq(h0, it_cont(h0, first))[i]))
  ensures[kept] its_kept(h0, h)
func algorithm.Swap(a, b)
  requires it_ok(h, a) && it_ok(h, b) && 0 <= it_pos(h, a) < c_seq(h, it_cont(h, a)).len() && 0 <= it_pos(h, b) < c_seq(h, it_cont(h, b)).len()
  requires it_rd(h, a) && it_rd(h, b)
  modifies C.seq@it_cont(h, a), C.seq@it_cont(h, b)
  ensures[same] it_cont(h0, a) == it_cont(h0, b) ==> c_seq(h, it_cont(h0, a)) =~= sw(c_seq(h0, it_cont(h0, a)), it_pos(h0, a), it_pos(h0, b))
  ensures[two] it_cont(h0, a) != it_cont(h0, b) ==> c_seq(h, it_cont(h0, a)) =~= c_seq(h0, it_cont(h0, a)).update(it_pos(h0, a), c_seq(h0, it_cont(h0, b))[it_pos(h0, b)]) && c_seq(h, it_cont(h0, b)) =~= c_seq(h0, it_cont(h0, b)).update(it_pos(h0, b), c_seq(h0, it_cont(h0, a))[it_pos(h0, a)])
  ensures[kept] its_kept(h0, h) && forall|d: int| #![trigger h.C_seq[d]] d != it_cont(h0, a) && d != it_cont(h0, b) ==> h.C_seq[d] == h0.C_seq[d]
func algorithm.Reverse(first, last)
  requires rng_is(h, first, last)
  allocs
  modifies C.seq@it_cont(h, first)
  loop1 inv it_ok(h, left) && it_ok(h, right) && it_cont(h, left) == it_cont(h0, first) && it_cont(h, right) == it_cont(h0, first) && its_kept(h0, h) && left >= h0.top && right >= h0.top && left != right
  loop1 inv it_pos(h0, first) <= it_pos(h, left) && it_pos(h, left) <= it_pos(h, right) && it_pos(h, left) - it_pos(h0, first) == it_pos(h0, last) - 1 - it_pos(h, right)
  loop1 inv h.C_seq[it_cont(h0, first)].len() == h0.C_seq[it_cont(h0, first)].len() && forall|i: int| #![trigger h.C_seq[it_cont(h0, first)][i]] 0 <= i < h.C_seq[it_cont(h0, first)].len() ==> h.C_seq[it_cont(h0, first)][i] == (if it_pos(h0, first) <= i && i < it_pos(h, left) || it_pos(h, right) < i && i < it_pos(h0, last) { h0.C_seq[it_cont(h0, first)][it_pos(h0, first) + it_pos(h0, last) - 1 - i] } else { h0.C_seq[it_cont(h0, first)][i] })
  loop1 dec it_pos(h, right) - it_pos(h, left)
  ensures[mirrored] c_seq(h, it_cont(h0, first)) =~= mirror(c_seq(h0, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
