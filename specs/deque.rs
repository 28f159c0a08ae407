// ---- sequences of segments ----
pub type SS = Seq<Seq<Val>>;
pub open spec fn flat(ss: SS) -> Seq<Val>
    decreases ss.len()
{
    if ss.len() == 0 { Seq::empty() } else { flat(ss.drop_last()) + ss.last() }
}
pub open spec fn plen(ss: SS, k: int) -> int { flat(ss.take(k)).len() as int }
pub proof fn flat_split(ss: SS, k: int)
    requires 0 <= k <= ss.len()
    ensures flat(ss) == flat(ss.take(k)) + flat(ss.skip(k))
    decreases ss.len()
{
    if k == ss.len() {
        assert(ss.take(k) =~= ss);
        assert(ss.skip(k) =~= Seq::<Seq<Val>>::empty());
        assert(flat(ss) =~= flat(ss.take(k)) + flat(ss.skip(k)));
    } else {
        flat_split(ss.drop_last(), k);
        assert(ss.drop_last().take(k) =~= ss.take(k));
        assert(ss.drop_last().skip(k) =~= ss.skip(k).drop_last());
        assert(ss.skip(k).last() == ss.last());
        assert(flat(ss) =~= flat(ss.take(k)) + flat(ss.skip(k)));
    }
}
pub proof fn flat_one(x: Seq<Val>)
    ensures flat(seq![x]) == x
{
    assert(seq![x].drop_last() =~= Seq::<Seq<Val>>::empty());
    assert(flat(Seq::<Seq<Val>>::empty()) =~= Seq::<Val>::empty());
    assert(seq![x].last() == x);
    assert(flat(seq![x]) =~= x);
}
// the segment k seen inside the whole
pub proof fn flat_mid(ss: SS, k: int)
    requires 0 <= k < ss.len()
    ensures
        flat(ss) == flat(ss.take(k)) + ss[k] + flat(ss.skip(k + 1)),
        plen(ss, k + 1) == plen(ss, k) + ss[k].len(),
        plen(ss, k) >= 0,
        plen(ss, k + 1) <= flat(ss).len(),
{
    flat_split(ss, k);
    flat_split(ss.skip(k), 1);
    assert(ss.skip(k).take(1) =~= seq![ss[k]]);
    assert(ss.skip(k).skip(1) =~= ss.skip(k + 1));
    flat_one(ss[k]);
    assert(flat(ss) =~= flat(ss.take(k)) + ss[k] + flat(ss.skip(k + 1)));
    assert(ss.take(k + 1).drop_last() =~= ss.take(k));
}
pub proof fn flat_at(ss: SS, k: int, p: int)
    requires 0 <= k < ss.len() && 0 <= p < ss[k].len()
    ensures flat(ss)[plen(ss, k) + p] == ss[k][p] && 0 <= plen(ss, k) && plen(ss, k) + p < flat(ss).len()
{
    flat_mid(ss, k);
}
pub proof fn flat_upd(ss: SS, k: int, x: Seq<Val>)
    requires 0 <= k < ss.len()
    ensures
        flat(ss.update(k, x)) == flat(ss.take(k)) + x + flat(ss.skip(k + 1)),
        flat(ss) == flat(ss.take(k)) + ss[k] + flat(ss.skip(k + 1)),
        plen(ss, k) >= 0,
{
    flat_mid(ss, k);
    flat_mid(ss.update(k, x), k);
    assert(ss.update(k, x).take(k) =~= ss.take(k));
    assert(ss.update(k, x).skip(k + 1) =~= ss.skip(k + 1));
}
pub proof fn flat_set(ss: SS, k: int, p: int, v: Val)
    requires 0 <= k < ss.len() && 0 <= p < ss[k].len()
    ensures flat(ss.update(k, ss[k].update(p, v))) == flat(ss).update(plen(ss, k) + p, v), plen(ss, k) + p < flat(ss).len()
{
    flat_upd(ss, k, ss[k].update(p, v));
    assert(flat(ss.update(k, ss[k].update(p, v))) =~= flat(ss).update(plen(ss, k) + p, v));
}
pub proof fn flat_ins(ss: SS, k: int, p: int, v: Val)
    requires 0 <= k < ss.len() && 0 <= p <= ss[k].len()
    ensures flat(ss.update(k, ss[k].insert(p, v))) == flat(ss).insert(plen(ss, k) + p, v), plen(ss, k) + p <= flat(ss).len()
{
    flat_upd(ss, k, ss[k].insert(p, v));
    assert(flat(ss.update(k, ss[k].insert(p, v))) =~= flat(ss).insert(plen(ss, k) + p, v));
}
pub proof fn flat_rem(ss: SS, k: int, p: int)
    requires 0 <= k < ss.len() && 0 <= p < ss[k].len()
    ensures flat(ss.update(k, ss[k].remove(p))) == flat(ss).remove(plen(ss, k) + p), plen(ss, k) + p < flat(ss).len()
{
    flat_upd(ss, k, ss[k].remove(p));
    assert(flat(ss.update(k, ss[k].remove(p))) =~= flat(ss).remove(plen(ss, k) + p));
}
// moving one value over the border between the segments k and k+1
pub proof fn flat_left(ss: SS, t: SS, k: int)
    requires
        0 <= k && k + 1 < ss.len() && ss[k + 1].len() > 0,
        t =~= ss.update(k, ss[k].push(ss[k + 1][0])).update(k + 1, ss[k + 1].skip(1)),
    ensures flat(t) == flat(ss)
{
    let x = ss[k].push(ss[k + 1][0]);
    let m = ss.update(k, x);
    flat_upd(ss, k, x);
    flat_upd(m, k + 1, ss[k + 1].skip(1));
    flat_mid(m, k);
    assert(m.take(k + 1).drop_last() =~= ss.take(k));
    assert(m.take(k + 1).last() == x);
    assert(m.skip(k + 2) =~= ss.skip(k + 2));
    flat_mid(ss, k + 1);
    assert(ss.take(k + 1).drop_last() =~= ss.take(k));
    assert(flat(t) =~= flat(ss));
}
pub proof fn flat_right(ss: SS, t: SS, k: int)
    requires
        0 <= k && k + 1 < ss.len() && ss[k].len() > 0,
        t =~= ss.update(k, ss[k].drop_last()).update(k + 1, seq![ss[k].last()] + ss[k + 1]),
    ensures flat(t) == flat(ss)
{
    assert(t[k].push(t[k + 1][0]) =~= ss[k]);
    assert(t[k + 1].skip(1) =~= ss[k + 1]);
    flat_left(t, ss, k);
}
pub proof fn flat_front(ss: SS, x: Seq<Val>)
    ensures flat(seq![x] + ss) == x + flat(ss)
{
    flat_split(seq![x] + ss, 1);
    assert((seq![x] + ss).take(1) =~= seq![x]);
    assert((seq![x] + ss).skip(1) =~= ss);
    flat_one(x);
}
pub proof fn flat_back(ss: SS, x: Seq<Val>)
    ensures flat(ss.push(x)) == flat(ss) + x
{
    assert(ss.push(x).drop_last() =~= ss);
}
// values moved left over the borders lo..hi
pub open spec fn shl(A: SS, lo: int, hi: int) -> SS {
    Seq::new(A.len(), |j: int| if lo >= hi || j < lo || j > hi { A[j] } else if j == lo { A[j].push(A[j + 1][0]) } else if j < hi { A[j].skip(1).push(A[j + 1][0]) } else { A[j].skip(1) })
}
pub open spec fn shr(A: SS, lo: int, hi: int) -> SS {
    Seq::new(A.len(), |j: int| if lo >= hi || j < lo || j > hi { A[j] } else if j == lo { A[j].drop_last() } else if j < hi { seq![A[j - 1].last()] + A[j].drop_last() } else { seq![A[j - 1].last()] + A[j] })
}
pub proof fn flat_shl(A: SS, lo: int, hi: int)
    requires 0 <= lo <= hi && hi < A.len() && forall|j: int| #![trigger A[j]] lo < j <= hi ==> A[j].len() > 0
    ensures flat(shl(A, lo, hi)) == flat(A)
    decreases hi - lo
{
    if lo == hi { assert(shl(A, lo, hi) =~= A); }
    else {
        flat_shl(A, lo, hi - 1);
        flat_left(shl(A, lo, hi - 1), shl(A, lo, hi), hi - 1);
    }
}
pub proof fn flat_shr(A: SS, lo: int, hi: int)
    requires 0 <= lo <= hi && hi < A.len() && forall|j: int| #![trigger A[j]] lo <= j < hi ==> A[j].len() > 0
    ensures flat(shr(A, lo, hi)) == flat(A)
    decreases hi - lo
{
    if lo == hi { assert(shr(A, lo, hi) =~= A); }
    else {
        flat_shr(A, lo + 1, hi);
        let m = shr(A, lo + 1, hi);
        let t = shr(A, lo, hi);
        assert(t[lo] =~= m[lo].drop_last());
        assert(t[lo + 1] =~= seq![m[lo].last()] + m[lo + 1]);
        flat_right(m, t, lo);
    }
}
// where the segment k starts when the segments before it, except the first, are full
pub proof fn plen_full(ss: SS, k: int)
    requires 0 <= k <= ss.len() && forall|j: int| #![trigger ss[j]] 0 < j < k ==> ss[j].len() == 128
    ensures plen(ss, k) == (if k == 0 { 0 } else { ss[0].len() + 128 * (k - 1) })
    decreases k
{
    if k == 0 { assert(ss.take(0) =~= Seq::<Seq<Val>>::empty()); }
    else {
        plen_full(ss, k - 1);
        flat_mid(ss, k - 1);
        if k == 1 { assert(ss.take(0) =~= Seq::<Seq<Val>>::empty()); }
    }
}
// all segments but the outer ones are full, none is empty
pub open spec fn shape(ss: SS) -> bool {
    forall|i: int| #![trigger ss[i]] 0 <= i < ss.len() ==> 1 <= ss[i].len() <= 128 && (0 < i < ss.len() - 1 ==> ss[i].len() == 128)
}
pub proof fn shape_len(ss: SS)
    requires shape(ss)
    ensures
        ss.len() == 0 ==> flat(ss).len() == 0,
        ss.len() == 1 ==> flat(ss).len() == ss[0].len(),
        ss.len() > 1 ==> flat(ss).len() == ss[0].len() + 128 * (ss.len() - 2) + ss.last().len(),
        flat(ss).len() == 0 <==> ss.len() == 0,
{
    if ss.len() > 0 {
        let k = ss.len() - 1;
        plen_full(ss, k);
        flat_mid(ss, k);
        assert(ss.take(ss.len() as int) =~= ss);
    }
}

pub open spec fn lseg(ss: SS, i: int) -> int { if i < ss[0].len() { 0 } else { (i - ss[0].len()) / 128 + 1 } }
pub open spec fn lpos(ss: SS, i: int) -> int { if i < ss[0].len() { i } else { (i - ss[0].len()) % 128 } }
pub proof fn locate(ss: SS, i: int)
    requires shape(ss) && 0 <= i < flat(ss).len()
    ensures
        ss.len() > 0, 0 <= lseg(ss, i) < ss.len(), 0 <= lpos(ss, i) < ss[lseg(ss, i)].len(),
        i == plen(ss, lseg(ss, i)) + lpos(ss, i), flat(ss)[i] == ss[lseg(ss, i)][lpos(ss, i)],
{
    shape_len(ss);
    plen_full(ss, lseg(ss, i));
    flat_at(ss, lseg(ss, i), lpos(ss, i));
}
// one value pushed at an end
pub proof fn pushed_back(a: SS, t: SS, v: Val)
    requires
        shape(a),
        t =~= a.push(seq![v]) || (a.len() > 0 && a.last().len() < 128 && t =~= a.update(a.len() - 1, a.last().push(v))),
        t.len() > a.len() && a.len() > 0 ==> a.last().len() == 128,
    ensures flat(t) == flat(a).push(v), shape(t)
{
    if t =~= a.push(seq![v]) { flat_back(a, seq![v]); assert(flat(t) =~= flat(a).push(v)); }
    else {
        let k = a.len() - 1;
        assert(a.last().push(v) =~= a[k].insert(a[k].len() as int, v));
        flat_ins(a, k, a[k].len() as int, v);
        flat_mid(a, k);
        assert(a.take(a.len() as int) =~= a);
        assert(flat(t) =~= flat(a).push(v));
    }
}
pub proof fn pushed_front(a: SS, t: SS, v: Val)
    requires
        shape(a),
        t =~= seq![seq![v]] + a || (a.len() > 0 && a[0].len() < 128 && t =~= a.update(0, seq![v] + a[0])),
        t.len() > a.len() && a.len() > 0 ==> a[0].len() == 128,
    ensures flat(t) == seq![v] + flat(a), shape(t)
{
    if t =~= seq![seq![v]] + a { flat_front(a, seq![v]); assert forall|i: int| #![trigger t[i]] 0 < i < t.len() implies t[i] == a[i - 1] by {} }
    else {
        assert(seq![v] + a[0] =~= a[0].insert(0, v));
        flat_ins(a, 0, 0, v);
        assert(a.take(0) =~= Seq::<Seq<Val>>::empty());
        assert(flat(t) =~= seq![v] + flat(a));
    }
}
// the first, last value popped, an emptied segment dropped
pub proof fn popped_front(a: SS, t: SS)
    requires shape(a) && a.len() > 0, t =~= (if a[0].len() == 1 { a.skip(1) } else { a.update(0, a[0].skip(1)) })
    ensures flat(t) == flat(a).skip(1), flat(a)[0] == a[0][0], shape(t), flat(a).len() > 0
{
    assert(a.take(0) =~= Seq::<Seq<Val>>::empty());
    flat_at(a, 0, 0);
    if a[0].len() == 1 {
        flat_split(a, 1);
        flat_one(a[0]);
        assert(a.take(1) =~= seq![a[0]]);
        assert(flat(t) =~= flat(a).skip(1));
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies t[i] == a[i + 1] by {}
    } else {
        assert(a[0].skip(1) =~= a[0].remove(0));
        flat_rem(a, 0, 0);
        assert(flat(t) =~= flat(a).skip(1));
    }
}
pub proof fn popped_back(a: SS, t: SS)
    requires shape(a) && a.len() > 0, t =~= (if a.last().len() == 1 { a.drop_last() } else { a.update(a.len() - 1, a.last().drop_last()) })
    ensures flat(t) == flat(a).drop_last(), flat(a).last() == a.last().last(), shape(t), flat(a).len() > 0
{
    let k = a.len() - 1;
    flat_mid(a, k);
    assert(a.take(a.len() as int) =~= a);
    flat_at(a, k, a[k].len() - 1);
    if a.last().len() == 1 {
        assert(flat(t) =~= flat(a).drop_last());
    } else {
        assert(a[k].drop_last() =~= a[k].remove(a[k].len() - 1));
        flat_rem(a, k, a[k].len() - 1);
        assert(flat(t) =~= flat(a).drop_last());
    }
}
// ---- rings ----
// ---- segments ----
pub open spec fn sg_ok(h: Heap, s: int) -> bool {
    &&& 0 < s && s < h.top
    &&& slice_ok(h.Segment_data[s], h.top) && h.Segment_data[s].len == 128
    &&& h.Arr_tag[h.Segment_data[s].a] == (2int, s)
    &&& 0 <= h.Segment_begin[s] < 128 && 0 <= h.Segment_end[s] < 128 && 0 <= h.Segment_nSize[s] <= 128
    &&& h.Segment_end[s] == rx(h.Segment_begin[s] + h.Segment_nSize[s], 128)
}
pub open spec fn sqs(m: IMap<int, IMap<int, Val>>, a: Slice, b: int, n: int) -> Seq<Val> {
    Seq::new(nn(n), |k: int| m[a.a][a.off + rx(b + k, 128)])
}
#[verifier::inline]
pub open spec fn sq(h: Heap, s: int) -> Seq<Val> { sqs(h.arr_Val, h.Segment_data[s], h.Segment_begin[s], h.Segment_nSize[s]) }

// ---- pools ----
pub open spec fn pl_ok(h: Heap, p: int) -> bool {
    let a = h.Pool_segs[p];
    &&& 0 < p && p < h.top
    &&& slice_ok(a, h.top)
    &&& a.a != 0 ==> h.Arr_tag[a.a] == (1int, p)
    &&& forall|q: int| #![trigger h.arr_int[a.a][q]] a.off <= q < a.off + a.len ==> {
            let s = h.arr_int[a.a][q];
            sg_ok(h, s) && h.Segment_nSize[s] == 0 && h.Segment_own[s] == h.Pool_own[p] && h.Segment_pooled[s]
        }
    &&& forall|q: int, r: int| #![trigger h.arr_int[a.a][q], h.arr_int[a.a][r]] a.off <= q < r && r < a.off + a.len ==> h.arr_int[a.a][q] != h.arr_int[a.a][r]
}

// ---- deques ----
pub open spec fn atf(m: IMap<int, IMap<int, int>>, S: Slice, b: int, i: int) -> int { m[S.a][S.off + rx(b + i, S.len)] }
#[verifier::inline]
pub open spec fn at(h: Heap, d: int, i: int) -> int { atf(h.arr_int, h.Deque_segs[d], h.Deque_begin[d], i) }
pub open spec fn in_ring(j: int, b: int, u: int, m: int) -> bool { (b <= j && j < b + u) || j < b + u - m }
// number of segments in use, whatever the size
pub open spec fn usf(x: int, m: int, b: int, e: int) -> int {
    if e > b { e - b } else if e < b { m - b + e } else if m > 0 && x != 0 { m } else { 0 }
}
#[verifier::inline]
pub open spec fn us(h: Heap, d: int) -> int {
    usf(h.arr_int[h.Deque_segs[d].a][h.Deque_segs[d].off + h.Deque_begin[d]], h.Deque_segs[d].len, h.Deque_begin[d], h.Deque_end[d])
}
pub open spec fn p2(n: int) -> bool
    decreases n
{
    n == 1 || (n > 1 && n % 2 == 0 && p2(n / 2))
}
pub open spec fn ring(h: Heap, d: int, u: int) -> bool {
    let S = h.Deque_segs[d];
    &&& 0 < d && d < h.top && dyn_of(d) == dyn_Deque()
    &&& slice_ok(S, h.top) && S.len == S.cap
    &&& S.a != 0 ==> h.Arr_tag[S.a] == (0int, d)
    &&& 0 <= u && u <= S.len && (S.len == 0 || p2(S.len))
    &&& 0 <= h.Deque_begin[d] && (h.Deque_begin[d] < S.len || (S.len == 0 && h.Deque_begin[d] == 0))
    &&& 0 <= h.Deque_end[d] && (h.Deque_end[d] < S.len || (S.len == 0 && h.Deque_end[d] == 0))
    &&& h.Deque_end[d] == h.Deque_begin[d] + u || h.Deque_end[d] == h.Deque_begin[d] + u - S.len
    &&& h.Pool_own[h.Deque_pool[d]] == d && pl_ok(h, h.Deque_pool[d])
}
// u segments of the ring are in use; the slot x is left out
pub open spec fn stx(h: Heap, d: int, u: int, x: int) -> bool {
    let S = h.Deque_segs[d];
    &&& ring(h, d, u)
    &&& forall|q: int| #![trigger h.arr_int[S.a][q]] S.off <= q < S.off + S.len && q != S.off + x ==> {
            let s = h.arr_int[S.a][q];
            if in_ring(q - S.off, h.Deque_begin[d], u, S.len) { sg_ok(h, s) && h.Segment_own[s] == d && !h.Segment_pooled[s] } else { s == 0 }
        }
    &&& forall|q: int, r: int| #![trigger h.arr_int[S.a][q], h.arr_int[S.a][r]] S.off <= q < r && r < S.off + S.len && h.arr_int[S.a][q] != 0
            ==> h.arr_int[S.a][q] != h.arr_int[S.a][r]
}
pub open spec fn st(h: Heap, d: int) -> bool { stx(h, d, us(h, d), -1) }
// the segments in use
pub open spec fn ssf(m: IMap<int, IMap<int, int>>, v: IMap<int, IMap<int, Val>>, S: Slice, b: int, dt: IMap<int, Slice>, bg: IMap<int, int>, n: IMap<int, int>, u: int) -> SS {
    Seq::new(nn(u), |i: int| sqs(v, dt[atf(m, S, b, i)], bg[atf(m, S, b, i)], n[atf(m, S, b, i)]))
}
#[verifier::inline]
pub open spec fn ss(h: Heap, d: int) -> SS {
    ssf(h.arr_int, h.arr_Val, h.Deque_segs[d], h.Deque_begin[d], h.Segment_data, h.Segment_begin, h.Segment_nSize, us(h, d))
}
pub open spec fn c_ok(h: Heap, d: int) -> bool {
    &&& st(h, d) && shape(ss(h, d))
    &&& h.Deque_size[d] == flat(ss(h, d)).len()
    &&& h.Deque_size[d] == 0 <==> us(h, d) == 0
}
pub open spec fn c_seq(h: Heap, d: int) -> Seq<Val> { flat(ss(h, d)) }
pub open spec fn w_ok(h: Heap) -> bool { true }

// everything that does not belong to d is unchanged
pub open spec fn keeps(h0: Heap, h: Heap) -> bool { forall|e: int| #![trigger c_ok(h, e)] c_ok(h0, e) ==> c_ok(h, e) }
pub open spec fn fr(h0: Heap, h: Heap, d: int) -> bool {
    &&& h0.top <= h.top
    &&& forall|e: int| #![trigger h.Deque_segs[e]] 0 < e < h0.top && e != d ==> h.Deque_segs[e] == h0.Deque_segs[e]
    &&& forall|e: int| #![trigger h.Deque_begin[e]] 0 < e < h0.top && e != d ==> h.Deque_begin[e] == h0.Deque_begin[e]
    &&& forall|e: int| #![trigger h.Deque_end[e]] 0 < e < h0.top && e != d ==> h.Deque_end[e] == h0.Deque_end[e]
    &&& forall|e: int| #![trigger h.Deque_size[e]] 0 < e < h0.top && e != d ==> h.Deque_size[e] == h0.Deque_size[e]
    &&& forall|e: int| #![trigger h.Deque_pool[e]] 0 < e < h0.top ==> h.Deque_pool[e] == h0.Deque_pool[e]
    &&& forall|p: int| #![trigger h.Pool_own[p]] 0 < p < h0.top ==> h.Pool_own[p] == h0.Pool_own[p]
    &&& forall|p: int| #![trigger h.Pool_segs[p]] 0 < p < h0.top && h0.Pool_own[p] != d ==> h.Pool_segs[p] == h0.Pool_segs[p]
    &&& forall|a: int| #![trigger h.Arr_tag[a]] 0 <= a < h0.top ==> h.Arr_tag[a] == h0.Arr_tag[a]
    &&& forall|a: int| #![trigger h.arr_int[a]] 0 < a < h0.top && h0.Arr_tag[a] != (0int, d) && !(h0.Arr_tag[a].0 == 1 && h0.Pool_own[h0.Arr_tag[a].1] == d)
            ==> h.arr_int[a] == h0.arr_int[a]
    &&& forall|a: int| #![trigger h.arr_Val[a]] 0 <= a < h0.top && !(h0.Arr_tag[a].0 == 2 && (h0.Segment_own[h0.Arr_tag[a].1] == d || h0.Arr_tag[a].1 >= h0.top))
            ==> h.arr_Val[a] == h0.arr_Val[a]
    &&& forall|s: int| #![trigger h.Segment_data[s]] 0 < s < h0.top ==> h.Segment_data[s] == h0.Segment_data[s]
    &&& forall|s: int| #![trigger h.Segment_own[s]] 0 < s < h0.top ==> h.Segment_own[s] == h0.Segment_own[s]
    &&& forall|s: int| #![trigger h.Segment_begin[s]] 0 < s < h0.top && h0.Segment_own[s] != d ==> h.Segment_begin[s] == h0.Segment_begin[s]
    &&& forall|s: int| #![trigger h.Segment_end[s]] 0 < s < h0.top && h0.Segment_own[s] != d ==> h.Segment_end[s] == h0.Segment_end[s]
    &&& forall|s: int| #![trigger h.Segment_nSize[s]] 0 < s < h0.top && h0.Segment_own[s] != d ==> h.Segment_nSize[s] == h0.Segment_nSize[s]
    &&& forall|s: int| #![trigger h.Segment_pooled[s]] 0 < s < h0.top && h0.Segment_own[s] != d ==> h.Segment_pooled[s] == h0.Segment_pooled[s]
}
pub proof fn fr_others(h0: Heap, h: Heap, d: int)
    requires fr(h0, h, d)
    ensures c_others(h0, h, d), forall|e: int| #![trigger c_ok(h, e)] c_ok(h0, e) && e != d ==> c_ok(h, e)
{
    assert forall|e: int| #![trigger c_ok(h0, e)] c_ok(h0, e) && e != d implies c_ok(h, e) && c_seq(h, e) == c_seq(h0, e) by {
        let S = h0.Deque_segs[e];
        assert(h.Deque_segs[e] == S);
        let u = us(h0, e);
        if S.len > 0 { assert(h.arr_int[S.a] == h0.arr_int[S.a]); }
        assert(us(h, e) == u);
        let p = h0.Deque_pool[e];
        assert(h.Pool_own[p] == e);
        let P = h0.Pool_segs[p];
        assert(h.Pool_segs[p] == P);
        if P.len > 0 { assert(h.arr_int[P.a] == h0.arr_int[P.a]); }
        assert(pl_ok(h, p));
        assert(ring(h, e, u));
        assert(stx(h, e, u, -1));
        assert forall|i: int| 0 <= i < u implies sq(h, at(h, e, i)) == sq(h0, at(h0, e, i)) by {
            let s = at(h0, e, i);
            assert(at(h, e, i) == s);
            assert(sg_ok(h0, s) && h0.Segment_own[s] == e);
            assert(h.Segment_begin[s] == h0.Segment_begin[s]);
            assert(h.arr_Val[h0.Segment_data[s].a] == h0.arr_Val[h0.Segment_data[s].a]);
            assert(sq(h, s) =~= sq(h0, s));
        }
        assert(ss(h, e) =~= ss(h0, e));
    }
}
pub open spec fn it_ok(h: Heap, i: int) -> bool { 0 < i && i < h.top && dyn_of(i) == dyn_DequeIterator() && c_ok(h, h.DequeIterator_dq[i]) }
#[verifier::inline]
pub open spec fn it_pos(h: Heap, i: int) -> int { h.DequeIterator_position[i] }
#[verifier::inline]
pub open spec fn it_cont(h: Heap, i: int) -> int { h.DequeIterator_dq[i] }
// what segUsed reports
pub open spec fn su(h: Heap, d: int) -> int {
    if h.Deque_size[d] == 0 { 0 } else if h.Deque_end[d] > h.Deque_begin[d] { h.Deque_end[d] - h.Deque_begin[d] } else { h.Deque_segs[d].len - h.Deque_begin[d] + h.Deque_end[d] }
}

// the ring copied to a new array, first segment first
pub proof fn repack(h0: Heap, h: Heap, d: int)
    requires
        st(h0, d),
        h.top >= h0.top, h.Deque_segs[d].a >= h0.top, h.Deque_segs[d].off == 0, h.Deque_segs[d].len == h.Deque_segs[d].cap, slice_ok(h.Deque_segs[d], h.top),
        us(h0, d) < h.Deque_segs[d].len || h.Deque_segs[d].len == 0 && us(h0, d) == 0, h.Deque_segs[d].len == 0 || p2(h.Deque_segs[d].len), h.Deque_begin[d] == 0, h.Deque_end[d] == us(h0, d),
        forall|q: int| #![trigger h.arr_int[h.Deque_segs[d].a][q]] 0 <= q < h.Deque_segs[d].len ==> h.arr_int[h.Deque_segs[d].a][q] == (if q < us(h0, d) { at(h0, d, q) } else { 0 }),
        h.Arr_tag[h.Deque_segs[d].a] == (0int, d),
        forall|a: int| #![trigger h.Arr_tag[a]] 0 <= a < h0.top ==> h.Arr_tag[a] == h0.Arr_tag[a],
        forall|a: int| #![trigger h.arr_int[a]] 0 <= a < h0.top ==> h.arr_int[a] == h0.arr_int[a],
        h.arr_Val == h0.arr_Val, h.Segment_own == h0.Segment_own, h.Segment_pooled == h0.Segment_pooled, h.Segment_data == h0.Segment_data,
        h.Segment_begin == h0.Segment_begin, h.Segment_end == h0.Segment_end, h.Segment_nSize == h0.Segment_nSize,
        h.Pool_own == h0.Pool_own, h.Pool_segs == h0.Pool_segs, h.Deque_pool == h0.Deque_pool, h.Deque_size == h0.Deque_size,
    ensures st(h, d), us(h, d) == us(h0, d), ss(h, d) == ss(h0, d)
{
    let u = us(h0, d);
    let S = h0.Deque_segs[d];
    let T = h.Deque_segs[d];
    let p = h0.Deque_pool[d];
    let P = h0.Pool_segs[p];
    assert(pl_ok(h, p)) by { if P.len > 0 { assert(h.arr_int[P.a] == h0.arr_int[P.a]); } }
    assert(ring(h, d, u));
    assert forall|q: int| #![trigger h.arr_int[T.a][q]] 0 <= q < u implies sg_ok(h, h.arr_int[T.a][q]) && h.Segment_own[h.arr_int[T.a][q]] == d && !h.Segment_pooled[h.arr_int[T.a][q]] by {
        let s = at(h0, d, q);
        assert(sg_ok(h0, s));
    }
    assert forall|q: int, r: int| #![trigger h.arr_int[T.a][q], h.arr_int[T.a][r]] 0 <= q < r && r < T.len && h.arr_int[T.a][q] != 0 implies h.arr_int[T.a][q] != h.arr_int[T.a][r] by {
        if r < u {
            let x = S.off + rx(h0.Deque_begin[d] + q, S.len);
            let y = S.off + rx(h0.Deque_begin[d] + r, S.len);
            assert(h0.arr_int[S.a][x] != h0.arr_int[S.a][y]);
        }
    }
    assert(us(h, d) == u) by { if u == T.len && u > 0 { assert(h.arr_int[T.a][0] != 0); } }
    assert(stx(h, d, u, -1));
    assert forall|i: int| 0 <= i < u implies sq(h, at(h, d, i)) == sq(h0, at(h0, d, i)) by {
        assert(at(h, d, i) == at(h0, d, i));
        assert(sq(h, at(h0, d, i)) =~= sq(h0, at(h0, d, i)));
    }
    assert(ss(h, d) =~= ss(h0, d));
}

// one segment changed
pub open spec fn seg_step(h0: Heap, h: Heap, s: int) -> bool {
    forall|d: int, k: int| #![trigger at(h0, d, k)] st(h0, d) && 0 <= k < us(h0, d) && at(h0, d, k) == s
        ==> st(h, d) && us(h, d) == us(h0, d) && ss(h, d) =~= ss(h0, d).update(k, sq(h, s))
}
pub proof fn seg_steps(h0: Heap, h: Heap, s: int)
    requires
        sg_ok(h, s), h0.top <= h.top,
        h.Deque_segs == h0.Deque_segs, h.Deque_begin == h0.Deque_begin, h.Deque_end == h0.Deque_end, h.Deque_pool == h0.Deque_pool,
        h.Pool_own == h0.Pool_own, h.Pool_segs == h0.Pool_segs, h.Arr_tag == h0.Arr_tag, h.arr_int == h0.arr_int,
        h.Segment_own == h0.Segment_own, h.Segment_pooled == h0.Segment_pooled, h.Segment_data == h0.Segment_data,
        forall|x: int| #![trigger h.Segment_begin[x]] x != s ==> h.Segment_begin[x] == h0.Segment_begin[x],
        forall|x: int| #![trigger h.Segment_end[x]] x != s ==> h.Segment_end[x] == h0.Segment_end[x],
        forall|x: int| #![trigger h.Segment_nSize[x]] x != s ==> h.Segment_nSize[x] == h0.Segment_nSize[x],
        forall|a: int| #![trigger h.arr_Val[a]] 0 <= a < h0.top && a != h0.Segment_data[s].a ==> h.arr_Val[a] == h0.arr_Val[a],
    ensures seg_step(h0, h, s)
{
    assert forall|d: int, k: int| #![trigger at(h0, d, k)] st(h0, d) && 0 <= k < us(h0, d) && at(h0, d, k) == s
        implies st(h, d) && us(h, d) == us(h0, d) && ss(h, d) =~= ss(h0, d).update(k, sq(h, s)) by {
        let u = us(h0, d);
        assert(!h0.Segment_pooled[s]);
        assert(pl_ok(h, h.Deque_pool[d]));
        assert(stx(h, d, u, -1));
        assert forall|i: int| 0 <= i < u && i != k implies sq(h, at(h, d, i)) == sq(h0, at(h0, d, i)) by {
            let x = at(h0, d, i);
            assert(at(h, d, i) == x);
            assert(h0.arr_int[h0.Deque_segs[d].a][h0.Deque_segs[d].off + rx(h0.Deque_begin[d] + k, h0.Deque_segs[d].len)] == s);
            assert(x != s);
            assert(sg_ok(h0, x));
            assert(h.arr_Val[h0.Segment_data[x].a] == h0.arr_Val[h0.Segment_data[x].a]);
            assert(sq(h, x) =~= sq(h0, x));
        }
        assert(at(h, d, k) == s);
        assert(ss(h, d) =~= ss(h0, d).update(k, sq(h, s)));
    }
}

// the emptied segment s = at(h0, d, k) handed back: the ring is one shorter
pub open spec fn dropping(h0: Heap, h: Heap, d: int, k: int) -> bool {
    let s = at(h0, d, k);
    let S = h0.Deque_segs[d];
    &&& h.top >= h0.top && h.Deque_segs[d] == S && h.Deque_pool[d] == h0.Deque_pool[d] && h.Pool_own[h.Deque_pool[d]] == d && pl_ok(h, h.Deque_pool[d])
    &&& forall|a: int| #![trigger h.Arr_tag[a]] 0 <= a < h0.top ==> h.Arr_tag[a] == h0.Arr_tag[a]
    &&& forall|a: int| #![trigger h.arr_Val[a]] 0 <= a < h0.top ==> h.arr_Val[a] == h0.arr_Val[a]
    &&& forall|y: int| #![trigger h.Segment_data[y]] 0 < y < h0.top ==> h.Segment_data[y] == h0.Segment_data[y]
    &&& forall|y: int| #![trigger h.Segment_own[y]] 0 < y < h0.top ==> h.Segment_own[y] == h0.Segment_own[y]
    &&& forall|y: int| #![trigger h.Segment_begin[y]] 0 < y < h0.top && y != s ==> h.Segment_begin[y] == h0.Segment_begin[y]
    &&& forall|y: int| #![trigger h.Segment_end[y]] 0 < y < h0.top && y != s ==> h.Segment_end[y] == h0.Segment_end[y]
    &&& forall|y: int| #![trigger h.Segment_nSize[y]] 0 < y < h0.top && y != s ==> h.Segment_nSize[y] == h0.Segment_nSize[y]
    &&& forall|y: int| #![trigger h.Segment_pooled[y]] 0 < y < h0.top && y != s ==> h.Segment_pooled[y] == h0.Segment_pooled[y]
    &&& if h0.Segment_nSize[s] == 0 {
            h.arr_int[S.a] == h0.arr_int[S.a].insert(S.off + rx(h0.Deque_begin[d] + k, S.len), 0)
        } else {
            h.arr_int[S.a] == h0.arr_int[S.a] && h.Deque_begin[d] == h0.Deque_begin[d] && h.Deque_end[d] == h0.Deque_end[d]
            && h.Segment_begin[s] == h0.Segment_begin[s] && h.Segment_end[s] == h0.Segment_end[s] && h.Segment_nSize[s] == h0.Segment_nSize[s] && h.Segment_pooled[s] == h0.Segment_pooled[s]
        }
}
pub proof fn drop_same(h0: Heap, h: Heap, d: int, k: int)
    requires st(h0, d), 0 <= k < us(h0, d), dropping(h0, h, d, k), h0.Segment_nSize[at(h0, d, k)] > 0
    ensures st(h, d), us(h, d) == us(h0, d), ss(h, d) == ss(h0, d)
{
    assert(stx(h, d, us(h0, d), -1));
    assert forall|i: int| 0 <= i < us(h0, d) implies sq(h, at(h, d, i)) == sq(h0, at(h0, d, i)) by {
        assert(sg_ok(h0, at(h0, d, i)));
        assert(sq(h, at(h0, d, i)) =~= sq(h0, at(h0, d, i)));
    }
    assert(ss(h, d) =~= ss(h0, d));
}
pub proof fn drop_one(h0: Heap, h: Heap, d: int, k: int)
    requires
        st(h0, d), us(h0, d) > 0, dropping(h0, h, d, k), h0.Segment_nSize[at(h0, d, k)] == 0,
        (k == 0 && h.Deque_begin[d] == rx(h0.Deque_begin[d] + 1, h0.Deque_segs[d].len) && h.Deque_end[d] == h0.Deque_end[d])
        || (k == us(h0, d) - 1 && h.Deque_begin[d] == h0.Deque_begin[d] && h.Deque_end[d] == rx(h0.Deque_end[d] - 1, h0.Deque_segs[d].len)),
    ensures st(h, d), us(h, d) == us(h0, d) - 1, k == 0 && h.Deque_end[d] == h0.Deque_end[d] ==> ss(h, d) == ss(h0, d).skip(1), k == us(h0, d) - 1 && h.Deque_begin[d] == h0.Deque_begin[d] ==> ss(h, d) == ss(h0, d).drop_last()
{
    let u = us(h0, d);
    let S = h0.Deque_segs[d];
    let s = at(h0, d, k);
    let y = S.off + rx(h0.Deque_begin[d] + k, S.len);
    assert(h0.arr_int[S.a][y] == s);
    assert forall|q: int| #![trigger h.arr_int[S.a][q]] 0 <= q - S.off < S.len && q != y implies h.arr_int[S.a][q] == h0.arr_int[S.a][q] && h.arr_int[S.a][q] != s by {
        assert(h0.arr_int[S.a][q] != s);
    }
    assert(ring(h, d, u - 1));
    assert(stx(h, d, u - 1, -1));
    assert(us(h, d) == u - 1);
    assert forall|i: int| 0 <= i < u - 1 implies sq(h, at(h, d, i)) == sq(h0, at(h0, d, if h.Deque_begin[d] == h0.Deque_begin[d] { i } else { i + 1 })) by {
        let j = if h.Deque_begin[d] == h0.Deque_begin[d] { i } else { i + 1 };
        let z = S.off + rx(h0.Deque_begin[d] + j, S.len);
        assert(z != y);
        assert(h.arr_int[S.a][z] == h0.arr_int[S.a][z]);
        assert(at(h, d, i) == at(h0, d, j));
        assert(sg_ok(h0, at(h0, d, j)));
        assert(sq(h, at(h0, d, j)) =~= sq(h0, at(h0, d, j)));
    }
    if k == 0 && h.Deque_end[d] == h0.Deque_end[d] { assert(ss(h, d) =~= ss(h0, d).skip(1)); }
    if k == u - 1 && h.Deque_begin[d] == h0.Deque_begin[d] { assert(ss(h, d) =~= ss(h0, d).drop_last()); }
}
pub proof fn drop_front(h0: Heap, h: Heap, d: int)
    requires
        st(h0, d), us(h0, d) > 0, dropping(h0, h, d, 0),
        h0.Segment_nSize[at(h0, d, 0)] == 0 ==> h.Deque_begin[d] == rx(h0.Deque_begin[d] + 1, h0.Deque_segs[d].len) && h.Deque_end[d] == h0.Deque_end[d],
    ensures
        st(h, d), us(h, d) == us(h0, d) - (if h0.Segment_nSize[at(h0, d, 0)] == 0 { 1int } else { 0 }),
        ss(h, d) == (if h0.Segment_nSize[at(h0, d, 0)] == 0 { ss(h0, d).skip(1) } else { ss(h0, d) }),
{
    if h0.Segment_nSize[at(h0, d, 0)] == 0 { drop_one(h0, h, d, 0); } else { assert(sg_ok(h0, at(h0, d, 0))); drop_same(h0, h, d, 0); }
}
pub proof fn drop_back(h0: Heap, h: Heap, d: int)
    requires
        st(h0, d), us(h0, d) > 0, dropping(h0, h, d, us(h0, d) - 1),
        h0.Segment_nSize[at(h0, d, us(h0, d) - 1)] == 0 ==> h.Deque_begin[d] == h0.Deque_begin[d] && h.Deque_end[d] == rx(h0.Deque_end[d] - 1, h0.Deque_segs[d].len),
    ensures
        st(h, d), us(h, d) == us(h0, d) - (if h0.Segment_nSize[at(h0, d, us(h0, d) - 1)] == 0 { 1int } else { 0 }),
        ss(h, d) == (if h0.Segment_nSize[at(h0, d, us(h0, d) - 1)] == 0 { ss(h0, d).drop_last() } else { ss(h0, d) }),
{
    let k = us(h0, d) - 1;
    if h0.Segment_nSize[at(h0, d, k)] == 0 { drop_one(h0, h, d, k); } else { assert(sg_ok(h0, at(h0, d, k))); drop_same(h0, h, d, k); }
}

// a new empty segment at the front (back)
pub open spec fn adding(h0: Heap, h: Heap, d: int, x: int) -> bool {
    let S = h0.Deque_segs[d];
    let s = h.arr_int[S.a][S.off + x];
    &&& h.top >= h0.top && h.Deque_segs[d] == S && h.Deque_pool[d] == h0.Deque_pool[d] && h.Pool_own[h.Deque_pool[d]] == d && pl_ok(h, h.Deque_pool[d])
    &&& sg_ok(h, s) && h.Segment_nSize[s] == 0 && h.Segment_own[s] == d && !h.Segment_pooled[s] && (s >= h0.top || h0.Segment_pooled[s])
    &&& forall|a: int| #![trigger h.Arr_tag[a]] 0 <= a < h0.top ==> h.Arr_tag[a] == h0.Arr_tag[a]
    &&& forall|a: int| #![trigger h.arr_Val[a]] 0 <= a < h0.top ==> h.arr_Val[a] == h0.arr_Val[a]
    &&& forall|y: int| #![trigger h.Segment_data[y]] 0 < y < h0.top && y != s ==> h.Segment_data[y] == h0.Segment_data[y]
    &&& forall|y: int| #![trigger h.Segment_own[y]] 0 < y < h0.top && y != s ==> h.Segment_own[y] == h0.Segment_own[y]
    &&& forall|y: int| #![trigger h.Segment_begin[y]] 0 < y < h0.top && y != s ==> h.Segment_begin[y] == h0.Segment_begin[y]
    &&& forall|y: int| #![trigger h.Segment_end[y]] 0 < y < h0.top && y != s ==> h.Segment_end[y] == h0.Segment_end[y]
    &&& forall|y: int| #![trigger h.Segment_nSize[y]] 0 < y < h0.top && y != s ==> h.Segment_nSize[y] == h0.Segment_nSize[y]
    &&& forall|y: int| #![trigger h.Segment_pooled[y]] 0 < y < h0.top && y != s ==> h.Segment_pooled[y] == h0.Segment_pooled[y]
    &&& forall|q: int| #![trigger h.arr_int[S.a][q]] q != S.off + x ==> h.arr_int[S.a][q] == h0.arr_int[S.a][q]
}
pub proof fn add_seg(h0: Heap, h: Heap, d: int, x: int)
    requires
        st(h0, d), us(h0, d) < h0.Deque_segs[d].len, adding(h0, h, d, x), 0 <= x < h0.Deque_segs[d].len,
        (x == rx(h0.Deque_begin[d] - 1, h0.Deque_segs[d].len) && h.Deque_begin[d] == x && h.Deque_end[d] == h0.Deque_end[d])
        || (x == h0.Deque_end[d] && h.Deque_begin[d] == h0.Deque_begin[d] && h.Deque_end[d] == rx(h0.Deque_end[d] + 1, h0.Deque_segs[d].len)),
    ensures
        st(h, d), us(h, d) == us(h0, d) + 1,
        x == rx(h0.Deque_begin[d] - 1, h0.Deque_segs[d].len) && h.Deque_begin[d] == x && h.Deque_end[d] == h0.Deque_end[d] ==> ss(h, d) == seq![Seq::<Val>::empty()] + ss(h0, d),
        x == h0.Deque_end[d] && h.Deque_begin[d] == h0.Deque_begin[d] && h.Deque_end[d] == rx(h0.Deque_end[d] + 1, h0.Deque_segs[d].len) ==> ss(h, d) == ss(h0, d).push(Seq::<Val>::empty()),
{
    let u = us(h0, d);
    let S = h0.Deque_segs[d];
    let y = S.off + x;
    let s = h.arr_int[S.a][y];
    let front = h.Deque_begin[d] == x && h.Deque_end[d] == h0.Deque_end[d] && x == rx(h0.Deque_begin[d] - 1, h0.Deque_segs[d].len);
    assert(!in_ring(x, h0.Deque_begin[d], u, S.len));
    assert(ring(h, d, u + 1));
    assert forall|q: int| #![trigger h.arr_int[S.a][q]] 0 <= q - S.off < S.len && q != y implies h.arr_int[S.a][q] == h0.arr_int[S.a][q] && h.arr_int[S.a][q] != s
        && in_ring(q - S.off, h.Deque_begin[d], u + 1, S.len) == in_ring(q - S.off, h0.Deque_begin[d], u, S.len) by {
        let z = h0.arr_int[S.a][q];
        assert(z == 0 || (sg_ok(h0, z) && !h0.Segment_pooled[z]));
    }
    assert(stx(h, d, u + 1, -1));
    assert(us(h, d) == u + 1) by { assert(h.arr_int[S.a][S.off + h.Deque_begin[d]] != 0); }
    assert forall|i: int| 0 <= i < u implies sq(h, at(h, d, if front { i + 1 } else { i })) == sq(h0, at(h0, d, i)) by {
        let z = S.off + rx(h0.Deque_begin[d] + i, S.len);
        assert(in_ring(z - S.off, h0.Deque_begin[d], u, S.len));
        assert(h.arr_int[S.a][z] == h0.arr_int[S.a][z]);
        assert(at(h, d, if front { i + 1 } else { i }) == at(h0, d, i));
        assert(sg_ok(h0, at(h0, d, i)));
        assert(sq(h, at(h0, d, i)) =~= sq(h0, at(h0, d, i)));
    }
    assert(sq(h, s) =~= Seq::<Val>::empty());
    if front { assert(at(h, d, 0) == s); } else { assert(at(h, d, u) == s); }
    if front { assert(ss(h, d) =~= seq![Seq::<Val>::empty()] + ss(h0, d)); }
    if x == h0.Deque_end[d] && h.Deque_begin[d] == h0.Deque_begin[d] && h.Deque_end[d] == rx(h0.Deque_end[d] + 1, h0.Deque_segs[d].len) {
        assert(ss(h, d) =~= ss(h0, d).push(Seq::<Val>::empty()));
    }
}

// insertion by moving values towards the front (back)
pub open spec fn pad_front(a: SS) -> SS { if a[0].len() == 128 { seq![Seq::<Val>::empty()] + a } else { a } }
pub open spec fn pad_back(a: SS) -> SS { if a.last().len() == 128 { a.push(Seq::<Val>::empty()) } else { a } }
pub open spec fn mf_seg(a: SS, seg: int, pos: int) -> int {
    if a[0].len() == 128 { if pos == 0 { seg } else { seg + 1 } } else { if pos == 0 { seg - 1 } else { seg } }
}
pub open spec fn mf_pos(a: SS, seg: int, pos: int) -> int {
    if pos == 0 { 127 } else if a[0].len() == 128 || seg != 0 { pos - 1 } else { pos }
}
pub open spec fn ins_at(t: SS, k: int, p: int, v: Val) -> SS { t.update(k, t[k].insert(if p < t[k].len() { p } else { t[k].len() as int }, v)) }
pub proof fn moved_front(a: SS, t: SS, seg: int, pos: int, v: Val)
    requires
        shape(a), 0 <= seg < a.len(), 0 <= pos < a[seg].len(), seg > 0 || pos > 0,
        t =~= ins_at(shl(pad_front(a), 0, mf_seg(a, seg, pos)), mf_seg(a, seg, pos), mf_pos(a, seg, pos), v),
    ensures flat(t) == flat(a).insert(plen(a, seg) + pos, v), shape(t), t.len() > 0, flat(t).len() == flat(a).len() + 1
{
    let p = pad_front(a);
    let k = mf_seg(a, seg, pos);
    let m = shl(p, 0, k);
    assert forall|j: int| #![trigger p[j]] 0 < j < p.len() implies p[j] == (if a[0].len() == 128 { a[j - 1] } else { a[j] }) by {}
    flat_shl(p, 0, k);
    if a[0].len() == 128 { flat_front(a, Seq::<Val>::empty()); assert(flat(p) =~= flat(a)); }
    plen_full(a, seg);
    if seg > 0 { plen_full(a, seg - 1); }
    flat_mid(a, seg);
    let q = if mf_pos(a, seg, pos) < m[k].len() { mf_pos(a, seg, pos) } else { m[k].len() as int };
    flat_ins(m, k, q, v);
    assert(forall|j: int| #![trigger m[j]] 0 < j < k ==> m[j].len() == 128);
    plen_full(m, k);
    assert(plen(m, k) + q == plen(a, seg) + pos);
    assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies 1 <= t[j].len() <= 128 && (0 < j < t.len() - 1 ==> t[j].len() == 128) by {
        assert(m[j].len() >= 0);
        assert(p[j].len() >= 0);
    }
}
pub proof fn moved_back(a: SS, t: SS, seg: int, pos: int, v: Val)
    requires
        shape(a), 0 <= seg < a.len(), 0 <= pos < a[seg].len(),
        t =~= ins_at(shr(pad_back(a), seg, pad_back(a).len() - 1), seg, pos, v),
    ensures flat(t) == flat(a).insert(plen(a, seg) + pos, v), shape(t), t.len() > 0, flat(t).len() == flat(a).len() + 1
{
    let p = pad_back(a);
    let m = shr(p, seg, p.len() - 1);
    assert forall|j: int| #![trigger p[j]] 0 <= j < a.len() implies p[j] == a[j] by {}
    flat_shr(p, seg, p.len() - 1);
    if a.last().len() == 128 { flat_back(a, Seq::<Val>::empty()); assert(flat(p) =~= flat(a)); }
    flat_mid(a, seg);
    plen_full(a, seg);
    assert(forall|j: int| #![trigger m[j]] 0 <= j < seg ==> m[j] == a[j]);
    assert(m.take(seg) =~= a.take(seg));
    let q = if pos < m[seg].len() { pos } else { m[seg].len() as int };
    assert(q == pos);
    flat_ins(m, seg, q, v);
    assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies 1 <= t[j].len() <= 128 && (0 < j < t.len() - 1 ==> t[j].len() == 128) by {
        assert(m[j].len() >= 0);
        assert(p[j].len() >= 0);
    }
}
// erasure
pub open spec fn trim_front(t: SS) -> SS { if t[0].len() == 0 { t.skip(1) } else { t } }
pub open spec fn trim_back(t: SS) -> SS { if t.last().len() == 0 { t.drop_last() } else { t } }
pub open spec fn cut(a: SS, k: int, p: int) -> SS { a.update(k, a[k].remove(p)) }
pub proof fn erased(a: SS, t: SS, i: int)
    requires
        shape(a), 0 <= i < flat(a).len(),
        t =~= trim_front(shr(cut(a, lseg(a, i), lpos(a, i)), 0, lseg(a, i)))
        || t =~= trim_back(shl(cut(a, lseg(a, i), lpos(a, i)), lseg(a, i), a.len() - 1)),
    ensures flat(t) == flat(a).remove(i), shape(t), flat(t).len() == flat(a).len() - 1
{
    let k = lseg(a, i);
    let p = lpos(a, i);
    locate(a, i);
    flat_rem(a, k, p);
    let c = cut(a, k, p);
    assert(forall|j: int| #![trigger c[j]] 0 <= j < c.len() && j != k ==> c[j] == a[j]);
    if t =~= trim_front(shr(c, 0, k)) {
        let m = shr(c, 0, k);
        flat_shr(c, 0, k);
        if m[0].len() == 0 {
            flat_split(m, 1);
            flat_one(m[0]);
            assert(m.take(1) =~= seq![m[0]]);
            assert(flat(t) =~= flat(c));
        }
        assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies 1 <= t[j].len() <= 128 && (0 < j < t.len() - 1 ==> t[j].len() == 128) by {
            let x = if m[0].len() == 0 { j + 1 } else { j };
            assert(m[x].len() >= 0);
            assert(c[x].len() >= 0);
            assert(a[x].len() >= 0);
        }
    } else {
        let m = shl(c, k, a.len() - 1);
        flat_shl(c, k, a.len() - 1);
        if m.last().len() == 0 { assert(flat(m) =~= flat(m.drop_last()) + m.last()); assert(flat(t) =~= flat(c)); }
        assert forall|j: int| #![trigger t[j]] 0 <= j < t.len() implies 1 <= t[j].len() <= 128 && (0 < j < t.len() - 1 ==> t[j].len() == 128) by {
            assert(m[j].len() >= 0);
            assert(c[j].len() >= 0);
            assert(a[j].len() >= 0);
        }
    }
}

// ---- steps of the moving loops ----
pub proof fn seg_is(h: Heap, d: int, k: int)
    requires st(h, d), 0 <= k < us(h, d)
    ensures
        ss(h, d).len() == us(h, d), sg_ok(h, at(h, d, k)), h.Segment_own[at(h, d, k)] == d, !h.Segment_pooled[at(h, d, k)],
        ss(h, d)[k] == sq(h, at(h, d, k)), h.Segment_nSize[at(h, d, k)] == ss(h, d)[k].len(),
{
    let S = h.Deque_segs[d];
    let y = S.off + rx(h.Deque_begin[d] + k, S.len);
    assert(in_ring(y - S.off, h.Deque_begin[d], us(h, d), S.len));
    assert(h.arr_int[S.a][y] == at(h, d, k));
}
pub proof fn segs_differ(h: Heap, d: int, i: int, j: int)
    requires st(h, d), 0 <= i < us(h, d), 0 <= j < us(h, d), i != j
    ensures at(h, d, i) != at(h, d, j)
{
    seg_is(h, d, i);
    let S = h.Deque_segs[d];
    let x = S.off + rx(h.Deque_begin[d] + i, S.len);
    let y = S.off + rx(h.Deque_begin[d] + j, S.len);
    assert(x != y);
    assert(h.arr_int[S.a][x] == at(h, d, i) && h.arr_int[S.a][y] == at(h, d, j));
}
pub proof fn shl_step(A: SS, T: SS, U: SS, lo: int, i: int)
    requires 0 <= lo <= i && i + 1 < A.len(), A[i + 1].len() > 0, T =~= shl(A, lo, i), U =~= T.update(i + 1, T[i + 1].skip(1)).update(i, T[i].push(T[i + 1][0]))
    ensures U == shl(A, lo, i + 1)
{
    assert(U =~= shl(A, lo, i + 1));
}
pub proof fn shr_step(A: SS, T: SS, U: SS, i: int, hi: int)
    requires 0 < i <= hi && hi < A.len(), A[i - 1].len() > 0, T =~= shr(A, i, hi), U =~= T.update(i - 1, T[i - 1].drop_last()).update(i, seq![T[i - 1].last()] + T[i])
    ensures U == shr(A, i - 1, hi)
{
    if i < hi { assert(U[i] =~= seq![A[i - 1].last()] + A[i].drop_last()); }
    assert(U =~= shr(A, i - 1, hi));
}
pub proof fn mf_len(a: SS, seg: int, pos: int, i: int)
    requires shape(a), 0 <= seg < a.len(), 0 <= pos < a[seg].len(), seg > 0 || pos > 0, 0 <= i <= mf_seg(a, seg, pos)
    ensures
        mf_seg(a, seg, pos) < pad_front(a).len(), shl(pad_front(a), 0, i).len() == pad_front(a).len(), shl(pad_front(a), 0, i)[i].len() < 128,
        i < mf_seg(a, seg, pos) ==> pad_front(a)[i + 1].len() > 0 && shl(pad_front(a), 0, i)[i + 1] == pad_front(a)[i + 1],
{
    assert(a[0].len() >= 1 && a[seg].len() >= 1);
    let p = pad_front(a);
    if a[0].len() == 128 {
        assert forall|j: int| #![trigger p[j]] 0 < j < p.len() implies p[j] == a[j - 1] && p[j].len() >= 1 && p[j].len() <= 128 by { assert(a[j - 1].len() >= 1); }
        assert(p[i].len() <= 128);
        if i + 1 < p.len() { assert(p[i + 1].len() >= 1); }
    } else {
        assert(a[i].len() <= 128);
        if i + 1 < a.len() { assert(a[i + 1].len() >= 1); }
    }
}
pub proof fn mb_len(a: SS, i: int)
    requires shape(a), a.len() > 0, 0 <= i < pad_back(a).len()
    ensures
        shr(pad_back(a), i, pad_back(a).len() - 1).len() == pad_back(a).len(), shr(pad_back(a), i, pad_back(a).len() - 1)[i].len() < 128,
        i > 0 ==> pad_back(a)[i - 1].len() > 0 && shr(pad_back(a), i, pad_back(a).len() - 1)[i - 1] == pad_back(a)[i - 1],
{
    let p = pad_back(a);
    assert(a.last().len() >= 1);
    if i < a.len() { assert(p[i] == a[i] && 1 <= a[i].len() <= 128); }
    if i > 0 { assert(p[i - 1] == a[i - 1] && a[i - 1].len() >= 1); }
}
pub proof fn er_len(a: SS, x: int, i: int)
    requires shape(a), 0 <= x < flat(a).len(), 0 <= i < a.len()
    ensures
        ({
            let k = lseg(a, x);
            let b = cut(a, k, lpos(a, x));
            &&& 0 <= k < a.len() && b.len() == a.len() && 0 <= lpos(a, x) < a[k].len()
            &&& i <= k ==> shr(b, i, k)[i].len() < 128 && shr(b, i, k).len() == a.len()
            &&& 0 < i <= k ==> b[i - 1].len() > 0 && shr(b, i, k)[i - 1] == b[i - 1]
            &&& i >= k ==> shl(b, k, i)[i].len() < 128 && shl(b, k, i).len() == a.len()
            &&& k <= i < a.len() - 1 ==> b[i + 1].len() > 0 && shl(b, k, i)[i + 1] == b[i + 1]
        })
{
    locate(a, x);
    assert(1 <= a[i].len() <= 128);
    if i > 0 { assert(1 <= a[i - 1].len() <= 128); }
    if i + 1 < a.len() { assert(1 <= a[i + 1].len() <= 128); }
}
