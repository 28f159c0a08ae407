unit sort
tags C19
pkg algorithm/sort
use iterator
ghost It.pos: int
ghost It.cont: int
ghost C.seq: Seq<Val>
lib algo.rs sort.rs
func sort.swapValue(a, b)
  tags C19 C21
  requires in_rng(h, a) && in_rng(h, b) && it_cont(h, a) == it_cont(h, b)
  modifies C.seq@it_cont(h, a)
  hint exit { sw_perm(c_seq(h0, it_cont(h0, a)), it_pos(h0, a), it_pos(h0, b)); }
  ensures[swap] c_seq(h, it_cont(h0, a)) =~= sw(c_seq(h0, it_cont(h0, a)), it_pos(h0, a), it_pos(h0, b))
  ensures[perm] c_seq(h, it_cont(h0, a)).to_multiset() == c_seq(h0, it_cont(h0, a)).to_multiset()
func sort.doPivot(first, mid, last, cmp)
  tags C19 C21
  requires in_rng(h, first) && in_rng(h, last) && it_ok(h, mid) && it_cont(h, mid) == it_cont(h, first) && it_cont(h, last) == it_cont(h, first) && it_pos(h, first) < it_pos(h, mid) && it_pos(h, mid) < it_pos(h, last) && cmp_ok(cmp)
  modifies C.seq@it_cont(h, first)
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last) + 1)
  ensures[low] cmpv(cmp, c_seq(h, it_cont(h0, first))[it_pos(h0, first)], c_seq(h, it_cont(h0, first))[it_pos(h0, mid)]) <= 0
  ensures[high] cmpv(cmp, c_seq(h, it_cont(h0, first))[it_pos(h0, mid)], c_seq(h, it_cont(h0, first))[it_pos(h0, last)]) <= 0
func sort.quickSort(first, last, cmp)
  split
  requires it_ok(h, first) && it_ok(h, last) && it_cont(h, first) == it_cont(h, last) && cmp_ok(cmp) && -1 <= it_pos(h, last)
  requires it_pos(h, first) < it_pos(h, last) ==> 0 <= it_pos(h, first) && it_pos(h, last) < c_seq(h, it_cont(h, first)).len()
  decreases nn(it_pos(h, last) - it_pos(h, first) + 1)
  allocs
  modifies C.seq@it_cont(h, first)
  ghostvar S: Seq<Val> = c_seq(h0, it_cont(h0, first))
  ghostvar l: int = it_pos(h0, first)
  ghostvar u: int = it_pos(h0, last)
  ghostvar c: int = it_cont(h0, first)
  loop1 inv it_ok(h, leftIter) && it_ok(h, rightIter) && it_cont(h, leftIter) == c && it_cont(h, rightIter) == c && its_kept(h0, h) && leftIter >= h0.top && rightIter >= h0.top && leftIter != rightIter && baseItem >= h0.top && baseItem != leftIter && baseItem != rightIter && it_ok(h, baseItem) && it_cont(h, baseItem) == c && it_pos(h, baseItem) == u - 1
  loop1 inv l + 1 <= it_pos(h, leftIter) && it_pos(h, leftIter) <= it_pos(h, rightIter) + 1 && it_pos(h, rightIter) <= u - 2
  loop1 inv perm_in(S, c_seq(h, c), l, u + 1)
  loop1 inv forall|i: int| #![trigger h.C_seq[c][i]] l <= i < it_pos(h, leftIter) ==> cmpv(cmp, h.C_seq[c][i], h.C_seq[c][u - 1]) <= 0
  loop1 inv forall|i: int| #![trigger h.C_seq[c][i]] it_pos(h, rightIter) < i <= u ==> cmpv(cmp, h.C_seq[c][u - 1], h.C_seq[c][i]) <= 0
  loop1 dec it_pos(h, rightIter) - it_pos(h, leftIter) + 1
  hint call:quickSort#1.before { assert(all_le(cmp, h.C_seq[c], l, m, h.C_seq[c][m])) by { reveal(all_le); } assert(all_ge(cmp, h.C_seq[c], m + 1, u + 1, h.C_seq[c][m])) by { reveal(all_ge); } }
  hint call:quickSort#1.after { perm_le(cmp, hp.C_seq[c], h.C_seq[c], l, m, h.C_seq[c][m]); all_same(cmp, hp.C_seq[c], h.C_seq[c], m + 1, u + 1, h.C_seq[c][m]); }
  hint call:quickSort#2.after { perm_le(cmp, hp.C_seq[c], h.C_seq[c], m + 1, u + 1, h.C_seq[c][m]); all_same(cmp, hp.C_seq[c], h.C_seq[c], l, m, h.C_seq[c][m]); assert(sorted(cmp, h.C_seq[c], l, m)); sorted_join(cmp, h.C_seq[c], l, m, u + 1); }
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last) + 1)
  ensures[sorted] sorted(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last) + 1)
  ensures[kept] its_kept(h0, h)
func sort.Sort(first, last, cmp)
  requires rng_ok(h, first, last) && cmp_ok(cmp)
  allocs
  modifies C.seq@it_cont(h, first)
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[sorted] sorted(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
func sort.merge(first, mid, end, cmp, tempSlice)
  split
  requires it_ok(h, first) && it_ok(h, mid) && it_ok(h, end) && it_cont(h, mid) == it_cont(h, first) && it_cont(h, end) == it_cont(h, first) && cmp_ok(cmp)
  requires 0 <= it_pos(h, first) && it_pos(h, first) <= it_pos(h, mid) && it_pos(h, mid) <= it_pos(h, end) && it_pos(h, end) <= c_seq(h, it_cont(h, first)).len() && tempSlice.len >= it_pos(h, end) - it_pos(h, first)
  requires sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, first), it_pos(h, mid)) && sorted(cmp, c_seq(h, it_cont(h, first)), it_pos(h, mid), it_pos(h, end))
  allocs
  modifies C.seq@it_cont(h, first), arr_Val@tempSlice.a
  ghostvar S: Seq<Val> = c_seq(h0, it_cont(h0, first))
  ghostvar l: int = it_pos(h0, first)
  ghostvar m: int = it_pos(h0, mid)
  ghostvar u: int = it_pos(h0, end)
  ghostvar c: int = it_cont(h0, first)
  ghostvar T: Seq<Val> = Seq::<Val>::empty()
  hint loop1.before { merge_start(cmp, T, S, l, m); }
  loop1 inv it_ok(h, firstIter) && it_ok(h, secondIter) && it_cont(h, firstIter) == c && it_cont(h, secondIter) == c && its_kept(h0, h) && firstIter >= h0.top && secondIter >= h0.top && firstIter != secondIter
  loop1 inv l <= it_pos(h, firstIter) <= m && m <= it_pos(h, secondIter) <= u && pos == it_pos(h, firstIter) - l + it_pos(h, secondIter) - m && h.C_seq[c] == S
  loop1 inv T =~= view(h.arr_Val, tempSlice).take(pos) && merged(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)) && sorted(cmp, T, 0, pos)
  loop1 inv forall|i: int, j: int| #![trigger T[i], S[j]] 0 <= i < pos && (it_pos(h, firstIter) <= j < m || it_pos(h, secondIter) <= j < u) ==> cmpv(cmp, T[i], S[j]) <= 0
  loop1 inv forall|i: int, j: int| #![trigger S[i], S[j]] m <= i < it_pos(h, secondIter) && it_pos(h, firstIter) <= j < m ==> cmpv(cmp, S[i], S[j]) < 0
  loop1 dec m - it_pos(h, firstIter) + u - it_pos(h, secondIter)
  hint loop1.start { if cmpv(cmp, S[it_pos(h, firstIter)], S[it_pos(h, secondIter)]) <= 0 { merge_left(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)); } else { merge_right(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)); } }
  ghost loop1.start T = T.push(if cmpv(cmp, S[it_pos(h, firstIter)], S[it_pos(h, secondIter)]) <= 0 { S[it_pos(h, firstIter)] } else { S[it_pos(h, secondIter)] })
  loop2 inv it_ok(h, firstIter) && it_ok(h, secondIter) && it_cont(h, firstIter) == c && it_cont(h, secondIter) == c && its_kept(h0, h) && firstIter >= h0.top && secondIter >= h0.top && firstIter != secondIter
  loop2 inv l <= it_pos(h, firstIter) <= m && m <= it_pos(h, secondIter) <= u && pos == it_pos(h, firstIter) - l + it_pos(h, secondIter) - m && h.C_seq[c] == S
  loop2 inv T =~= view(h.arr_Val, tempSlice).take(pos) && merged(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)) && sorted(cmp, T, 0, pos)
  loop2 inv forall|i: int, j: int| #![trigger T[i], S[j]] 0 <= i < pos && (it_pos(h, firstIter) <= j < m || it_pos(h, secondIter) <= j < u) ==> cmpv(cmp, T[i], S[j]) <= 0
  loop2 inv forall|i: int, j: int| #![trigger S[i], S[j]] m <= i < it_pos(h, secondIter) && it_pos(h, firstIter) <= j < m ==> cmpv(cmp, S[i], S[j]) < 0
  loop3 inv it_ok(h, firstIter) && it_ok(h, secondIter) && it_cont(h, firstIter) == c && it_cont(h, secondIter) == c && its_kept(h0, h) && firstIter >= h0.top && secondIter >= h0.top && firstIter != secondIter
  loop3 inv l <= it_pos(h, firstIter) <= m && m <= it_pos(h, secondIter) <= u && pos == it_pos(h, firstIter) - l + it_pos(h, secondIter) - m && h.C_seq[c] == S
  loop3 inv T =~= view(h.arr_Val, tempSlice).take(pos) && merged(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)) && sorted(cmp, T, 0, pos)
  loop3 inv forall|i: int, j: int| #![trigger T[i], S[j]] 0 <= i < pos && (it_pos(h, firstIter) <= j < m || it_pos(h, secondIter) <= j < u) ==> cmpv(cmp, T[i], S[j]) <= 0
  loop3 inv forall|i: int, j: int| #![trigger S[i], S[j]] m <= i < it_pos(h, secondIter) && it_pos(h, firstIter) <= j < m ==> cmpv(cmp, S[i], S[j]) < 0
  loop2 inv it_pos(h, firstIter) == m || it_pos(h, secondIter) == u
  loop2 dec m - it_pos(h, firstIter)
  hint loop2.start { merge_left(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)); }
  ghost loop2.start T = T.push(S[it_pos(h, firstIter)])
  loop3 inv it_pos(h, firstIter) == m
  loop3 dec u - it_pos(h, secondIter)
  hint loop3.start { merge_right(cmp, T, S, l, it_pos(h, firstIter), m, it_pos(h, secondIter)); }
  ghost loop3.start T = T.push(S[it_pos(h, secondIter)])
  loop4 inv it_ok(h, iter) && it_cont(h, iter) == c && its_kept(h0, h) && iter >= h0.top && it_pos(h, iter) == l + idx && 0 <= idx <= pos && pos == u - l
  loop4 inv T =~= view(h.arr_Val, tempSlice).take(pos) && merged(cmp, T, S, l, m, m, u) && sorted(cmp, T, 0, pos)
  loop4 inv same_out(S, h.C_seq[c], l, l + idx) && forall|i: int| #![trigger h.C_seq[c][i]] l <= i < l + idx ==> h.C_seq[c][i] == T[i - l]
  loop4 dec pos - idx
  hint exit { assert(h.C_seq[c].subrange(l, u) =~= T); merge_done(cmp, S, T, h.C_seq[c], l, m, u); }
  ensures[stable] stable_in(cmp, c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, end))
  ensures[sorted] sorted(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, end))
  ensures[kept] its_kept(h0, h)
func sort.mergeSort(first, last, cmp, tempSlice)
  requires it_ok(h, first) && it_ok(h, last) && it_cont(h, last) == it_cont(h, first) && cmp_ok(cmp)
  requires 0 <= it_pos(h, first) && it_pos(h, first) <= it_pos(h, last) && it_pos(h, last) <= c_seq(h, it_cont(h, first)).len() && tempSlice.len >= it_pos(h, last) - it_pos(h, first)
  decreases nn(it_pos(h, last) - it_pos(h, first))
  allocs
  modifies C.seq@it_cont(h, first), arr_Val@tempSlice.a
  ghostvar l: int = it_pos(h0, first)
  ghostvar u: int = it_pos(h0, last)
  ghostvar c: int = it_cont(h0, first)
  hint call:merge#1.after { stable_two(cmp, h0.C_seq[c], S1, S2, l, it_pos(h, mid), u); stable_trans(cmp, h0.C_seq[c].subrange(l, u), S2.subrange(l, u), h.C_seq[c].subrange(l, u)); }
  ghostvar S1: Seq<Val> = Seq::<Val>::empty()
  ghost call:mergeSort#1.after S1 = h.C_seq[c]
  ghostvar S2: Seq<Val> = Seq::<Val>::empty()
  ghost call:mergeSort#2.after S2 = h.C_seq[c]
  ensures[stable] stable_in(cmp, c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[sorted] sorted(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
func sort.Stable(first, last, cmp)
  requires rng_ok(h, first, last) && cmp_ok(cmp)
  allocs
  modifies C.seq@it_cont(h, first)
  hint exit { stable_whole(cmp, h0.C_seq[it_cont(h0, first)], h.C_seq[it_cont(h0, first)], it_pos(h0, first), it_pos(h0, last)); }
  ensures[stable] stable_in(cmp, c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[sorted] sorted(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
func sort.nthElement(first, last, n, cmp)
  tags C21
  split
  requires it_ok(h, first) && it_ok(h, last) && it_cont(h, first) == it_cont(h, last) && cmp_ok(cmp)
  requires 0 <= it_pos(h, first) && it_pos(h, last) < c_seq(h, it_cont(h, first)).len() && 0 <= n <= it_pos(h, last) - it_pos(h, first)
  decreases nn(it_pos(h, last) - it_pos(h, first) + 1)
  allocs
  modifies C.seq@it_cont(h, first)
  ghostvar S: Seq<Val> = c_seq(h0, it_cont(h0, first))
  ghostvar l: int = it_pos(h0, first)
  ghostvar u: int = it_pos(h0, last)
  ghostvar c: int = it_cont(h0, first)
  loop1 inv it_ok(h, leftIter) && it_ok(h, rightIter) && it_cont(h, leftIter) == c && it_cont(h, rightIter) == c && its_kept(h0, h) && leftIter >= h0.top && rightIter >= h0.top && leftIter != rightIter && baseItem >= h0.top && baseItem != leftIter && baseItem != rightIter && it_ok(h, baseItem) && it_cont(h, baseItem) == c && it_pos(h, baseItem) == u - 1
  loop1 inv l + 1 <= it_pos(h, leftIter) && it_pos(h, leftIter) <= it_pos(h, rightIter) + 1 && it_pos(h, rightIter) <= u - 2
  loop1 inv perm_in(S, c_seq(h, c), l, u + 1)
  loop1 inv forall|i: int| #![trigger h.C_seq[c][i]] l <= i < it_pos(h, leftIter) ==> cmpv(cmp, h.C_seq[c][i], h.C_seq[c][u - 1]) <= 0
  loop1 inv forall|i: int| #![trigger h.C_seq[c][i]] it_pos(h, rightIter) < i <= u ==> cmpv(cmp, h.C_seq[c][u - 1], h.C_seq[c][i]) <= 0
  loop1 dec it_pos(h, rightIter) - it_pos(h, leftIter) + 1
  hint call:nthElement#1.before { if n_in <= m - l { assert(all_le(cmp, h.C_seq[c], l, m, h.C_seq[c][m])) by { reveal(all_le); } assert(all_ge(cmp, h.C_seq[c], m + 1, u + 1, h.C_seq[c][m])) by { reveal(all_ge); } pivot_hi(cmp, h.C_seq[c], l, m); } else { assert(all_le(cmp, h.C_seq[c], l, m, h.C_seq[c][m])) by { reveal(all_le); } assert(all_ge(cmp, h.C_seq[c], m + 1, u + 1, h.C_seq[c][m])) by { reveal(all_ge); } } }
  hint call:nthElement#1.after { if n_in <= m - l { perm_le(cmp, hp.C_seq[c], h.C_seq[c], l, m + 1, hp.C_seq[c][m]); all_same(cmp, hp.C_seq[c], h.C_seq[c], m + 1, u + 1, hp.C_seq[c][m]); nth_low(cmp, h.C_seq[c], l, l + n_in, m, u, hp.C_seq[c][m]); } else { perm_le(cmp, hp.C_seq[c], h.C_seq[c], m + 1, u + 1, h.C_seq[c][m]); all_same(cmp, hp.C_seq[c], h.C_seq[c], l, m, h.C_seq[c][m]); nth_high(cmp, h.C_seq[c], l, m, l + n_in, u); } }
  hint call:nthElement#2.before { if n_in <= m - l { assert(all_le(cmp, h.C_seq[c], l, m, h.C_seq[c][m])) by { reveal(all_le); } assert(all_ge(cmp, h.C_seq[c], m + 1, u + 1, h.C_seq[c][m])) by { reveal(all_ge); } pivot_hi(cmp, h.C_seq[c], l, m); } else { assert(all_le(cmp, h.C_seq[c], l, m, h.C_seq[c][m])) by { reveal(all_le); } assert(all_ge(cmp, h.C_seq[c], m + 1, u + 1, h.C_seq[c][m])) by { reveal(all_ge); } } }
  hint call:nthElement#2.after { if n_in <= m - l { perm_le(cmp, hp.C_seq[c], h.C_seq[c], l, m + 1, hp.C_seq[c][m]); all_same(cmp, hp.C_seq[c], h.C_seq[c], m + 1, u + 1, hp.C_seq[c][m]); nth_low(cmp, h.C_seq[c], l, l + n_in, m, u, hp.C_seq[c][m]); } else { perm_le(cmp, hp.C_seq[c], h.C_seq[c], m + 1, u + 1, h.C_seq[c][m]); all_same(cmp, hp.C_seq[c], h.C_seq[c], l, m, h.C_seq[c][m]); nth_high(cmp, h.C_seq[c], l, m, l + n_in, u); } }
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last) + 1)
  ensures[nth] nth_at(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, first) + n, it_pos(h0, last) + 1)
  ensures[kept] its_kept(h0, h)
func sort.NthElement(first, last, n, cmp)
  tags C21
  requires rng_ok(h, first, last) && cmp_ok(cmp) && 0 <= n && n < it_pos(h, last) - it_pos(h, first)
  allocs
  modifies C.seq@it_cont(h, first)
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[nth] nth_at(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, first) + n, it_pos(h0, last))
  hint exit { nth_full(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, first) + n_in, it_pos(h0, last)); }
  ensures[full] as_sorted(cmp, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, first) + n, it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
func sort.reverse(s, e)
  tags C21
  requires it_ok(h, s) && it_ok(h, e) && s != e && it_cont(h, s) == it_cont(h, e) && 0 <= it_pos(h, s) && it_pos(h, e) < c_seq(h, it_cont(h, s)).len()
  modifies C.seq@it_cont(h, s), It.pos@s, It.pos@e
  ghostvar l: int = it_pos(h0, s_in)
  ghostvar u: int = it_pos(h0, e_in)
  ghostvar c: int = it_cont(h0, s_in)
  loop1 inv l <= it_pos(h, s) && it_pos(h, e) <= u && it_pos(h, s) - l == u - it_pos(h, e) && (l <= u + 1 ==> it_pos(h, s) <= it_pos(h, e) + 1) && (l > u + 1 ==> it_pos(h, s) == l)
  loop1 inv h.C_seq[c].len() == h0.C_seq[c].len() && h.C_seq[c].to_multiset() == h0.C_seq[c].to_multiset() && forall|i: int| #![trigger h.C_seq[c][i]] 0 <= i < h.C_seq[c].len() ==> h.C_seq[c][i] == (if l <= i && i < it_pos(h, s) || it_pos(h, e) < i && i <= u { h0.C_seq[c][l + u - i] } else { h0.C_seq[c][i] })
  loop1 dec it_pos(h, e) - it_pos(h, s)
  ensures[mirrored] c_seq(h, it_cont(h0, s)) =~= mirror(c_seq(h0, it_cont(h0, s)), it_pos(h0, s), it_pos(h0, e))
  ensures[perm] c_seq(h, it_cont(h0, s)).to_multiset() == c_seq(h0, it_cont(h0, s)).to_multiset()
  ensures[kept] forall|i: int| #![trigger h.It_cont[i]] 0 < i < h0.top ==> h.It_cont[i] == h0.It_cont[i]
func sort.NextPermutation(first, last, cmp) r
  tags C21
  split
  requires rng_ok(h, first, last) && cmp_ok(cmp)
  allocs
  modifies C.seq@it_cont(h, first)
  ghostvar S: Seq<Val> = c_seq(h0, it_cont(h0, first))
  ghostvar l: int = it_pos(h0, first)
  ghostvar u: int = it_pos(h0, last)
  ghostvar c: int = it_cont(h0, first)
  loop1 inv pre == cur - 1 && cur <= endPos && endPos == u - 1 && (l < u ==> l <= cur) && (l == u ==> cur == endPos) && it_ok(h, endIter) && it_cont(h, endIter) == c && it_pos(h, endIter) == endPos && endIter >= h0.top && its_kept(h0, h)
  loop1 inv desc(cmp, S, cur, u)
  loop1 dec cur - l + 1
  hint exit { if !r { assert(desc(cmp, S, l, u)); is_last(cmp, S, l, u); } }
  loop2 inv pre < cur && cur <= endPos && endPos == u - 1 && l <= pre && it_ok(h, endIter) && it_cont(h, endIter) == c && it_pos(h, endIter) == endPos && endIter >= h0.top && its_kept(h0, h)
  loop2 inv forall|i: int| #![trigger S[i]] cur < i < u ==> cmpv(cmp, S[i], S[pre]) <= 0
  loop2 inv desc(cmp, S, pre + 1, u) && cmpv(cmp, S[pre], S[pre + 1]) < 0 && h.C_seq[c] == S
  loop2 dec cur
  hint call:reverse#1.after { assert(desc(cmp, hp.C_seq[c], pre + 1, u)); assert(next_of(cmp, S, h.C_seq[c], l, pre, u)); is_next(cmp, S, h.C_seq[c], l, pre, u); }
  ensures[perm] perm_in(c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[greater] r ==> lex_lt(cmp, c_seq(h0, it_cont(h0, first)), c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[next] r ==> forall|b: Seq<Val>| #![trigger lex_lt(cmp, b, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))] perm_in(c_seq(h0, it_cont(h0, first)), b, it_pos(h0, first), it_pos(h0, last)) && lex_lt(cmp, c_seq(h0, it_cont(h0, first)), b, it_pos(h0, first), it_pos(h0, last)) ==> !lex_lt(cmp, b, c_seq(h, it_cont(h0, first)), it_pos(h0, first), it_pos(h0, last))
  ensures[last] !r ==> c_seq(h, it_cont(h0, first)) == c_seq(h0, it_cont(h0, first)) && forall|b: Seq<Val>| #![trigger lex_lt(cmp, c_seq(h0, it_cont(h0, first)), b, it_pos(h0, first), it_pos(h0, last))] perm_in(c_seq(h0, it_cont(h0, first)), b, it_pos(h0, first), it_pos(h0, last)) ==> !lex_lt(cmp, c_seq(h0, it_cont(h0, first)), b, it_pos(h0, first), it_pos(h0, last))
  ensures[kept] its_kept(h0, h)
