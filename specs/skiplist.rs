// ---------- towers: w[p] is the number of levels of the p-th node (the head is node 0) ----------
// the next node after p present on level i
pub open spec fn np(w: Seq<int>, p: int, i: int) -> int
    decreases w.len() - p
{ if p + 1 >= w.len() { w.len() as int } else if w[p + 1] > i { p + 1 } else { np(w, p + 1, i) } }
// the last node up to k present on level i, or the head
pub open spec fn pv(w: Seq<int>, k: int, i: int) -> int
    decreases k
{ if k <= 0 { 0 } else if w[k] > i { k } else { pv(w, k - 1, i) } }
pub open spec fn link(G: Seq<int>, w: Seq<int>, p: int, i: int) -> int { at_or_nil(G, np(w, p, i)) }
pub proof fn np_is(w: Seq<int>, p: int, i: int)
    requires 0 <= p < w.len()
    ensures p < np(w, p, i) <= w.len(), np(w, p, i) < w.len() ==> w[np(w, p, i)] > i, forall|r: int| #![trigger w[r]] p < r < np(w, p, i) ==> w[r] <= i
    decreases w.len() - p
{ if p + 1 < w.len() && w[p + 1] <= i { np_is(w, p + 1, i); } }
pub proof fn pv_is(w: Seq<int>, k: int, i: int)
    requires 0 <= k < w.len()
    ensures 0 <= pv(w, k, i) <= k, pv(w, k, i) > 0 ==> w[pv(w, k, i)] > i, forall|r: int| #![trigger w[r]] pv(w, k, i) < r <= k ==> w[r] <= i
    decreases k
{ if k > 0 && w[k] <= i { pv_is(w, k - 1, i); } }
pub proof fn np_eq(w: Seq<int>, p: int, i: int, q: int)
    requires 0 <= p < q <= w.len(), q < w.len() ==> w[q] > i, forall|r: int| #![trigger w[r]] p < r < q ==> w[r] <= i
    ensures np(w, p, i) == q
{ np_is(w, p, i); let n = np(w, p, i); if n < q { let x = w[n]; } if q < n { let x = w[q]; } }
pub proof fn pv_eq(w: Seq<int>, k: int, i: int, q: int)
    requires 0 <= q <= k < w.len(), q > 0 ==> w[q] > i, forall|r: int| #![trigger w[r]] q < r <= k ==> w[r] <= i
    ensures pv(w, k, i) == q
{ pv_is(w, k, i); let n = pv(w, k, i); if n < q { let x = w[q]; } if q < n { let x = w[n]; } }
// searching from p ended at or before k
pub proof fn pv_np(w: Seq<int>, k: int, i: int, p: int)
    requires 0 <= p <= k < w.len(), p > 0 ==> w[p] > i, np(w, p, i) > k
    ensures pv(w, k, i) == p
{ np_is(w, p, i); pv_eq(w, k, i, p); }
// a node with lv levels comes in after node k
pub open spec fn ins_link(G: Seq<int>, w: Seq<int>, k: int, e: int, lv: int, p: int, i: int) -> int {
    if p == k + 1 { link(G, w, pv(w, k, i), i) } else { old_link(G, w, k, e, lv, if p <= k { p } else { p - 1 }, i) }
}
pub open spec fn old_link(G: Seq<int>, w: Seq<int>, k: int, e: int, lv: int, o: int, i: int) -> int {
    if i < lv && o == pv(w, k, i) { e } else { link(G, w, o, i) }
}
pub proof fn link_ins(G: Seq<int>, w: Seq<int>, k: int, e: int, lv: int, p: int, i: int)
    requires G.len() == w.len(), 0 <= k < w.len(), 0 <= p <= w.len(), 0 <= i < w.insert(k + 1, lv)[p], lv <= w[0], forall|r: int| #![trigger w[r]] 0 <= r < w.len() ==> w[r] <= w[0]
    ensures link(G.insert(k + 1, e), w.insert(k + 1, lv), p, i) == ins_link(G, w, k, e, lv, p, i)
{
    let w2 = w.insert(k + 1, lv);
    let G2 = G.insert(k + 1, e);
    assert forall|r: int| #![trigger w2[r]] 0 <= r < w2.len() implies w2[r] == (if r <= k { w[r] } else if r == k + 1 { lv } else { w[r - 1] }) by {}
    assert forall|r: int| #![trigger G2[r]] 0 <= r < G2.len() implies G2[r] == (if r <= k { G[r] } else if r == k + 1 { e } else { G[r - 1] }) by {}
    if p == k + 1 {
        let b = pv(w, k, i);
        pv_is(w, k, i);
        np_is(w, b, i);
        let q = np(w, b, i);
        assert(w[b] > i);
        assert(q > k);
        assert forall|r: int| #![trigger w2[r]] p < r < q + 1 implies w2[r] <= i by { let x = w[r - 1]; }
        np_eq(w2, p, i, q + 1);
    } else if p > k {
        let o = p - 1;
        np_is(w, o, i);
        let q = np(w, o, i);
        assert forall|r: int| #![trigger w2[r]] p < r < q + 1 implies w2[r] <= i by { let x = w[r - 1]; }
        np_eq(w2, p, i, q + 1);
        pv_is(w, k, i);
    } else {
        np_is(w, p, i);
        pv_is(w, k, i);
        let q = np(w, p, i);
        if q <= k {
            assert forall|r: int| #![trigger w2[r]] p < r < q implies w2[r] <= i by { let x = w[r]; }
            np_eq(w2, p, i, q);
            assert(p != pv(w, k, i)) by { let x = w[q]; }
        } else {
            pv_np(w, k, i, p);
            if i < lv {
                assert forall|r: int| #![trigger w2[r]] p < r < k + 1 implies w2[r] <= i by { let x = w[r]; }
                np_eq(w2, p, i, k + 1);
            } else {
                assert forall|r: int| #![trigger w2[r]] p < r < q + 1 implies w2[r] <= i by { if r <= k { let x = w[r]; } else if r > k + 1 { let x = w[r - 1]; } }
                np_eq(w2, p, i, q + 1);
            }
        }
    }
}
// node k + 1 goes
pub open spec fn rem_link(G: Seq<int>, w: Seq<int>, k: int, p: int, i: int) -> int { cut_link(G, w, k, w[k + 1], if p <= k { p } else { p + 1 }, i) }
pub open spec fn cut_link(G: Seq<int>, w: Seq<int>, k: int, lv: int, o: int, i: int) -> int {
    if i < lv && o == pv(w, k, i) { link(G, w, k + 1, i) } else { link(G, w, o, i) }
}
pub proof fn link_rem(G: Seq<int>, w: Seq<int>, k: int, p: int, i: int)
    requires G.len() == w.len(), 0 <= k, k + 1 < w.len(), 0 <= p < w.len() - 1, 0 <= i < w.remove(k + 1)[p], forall|r: int| #![trigger w[r]] 0 <= r < w.len() ==> w[r] <= w[0]
    ensures link(G.remove(k + 1), w.remove(k + 1), p, i) == rem_link(G, w, k, p, i)
{
    let w2 = w.remove(k + 1);
    let G2 = G.remove(k + 1);
    let lv = w[k + 1];
    assert forall|r: int| #![trigger w2[r]] 0 <= r < w2.len() implies w2[r] == (if r <= k { w[r] } else { w[r + 1] }) by {}
    assert forall|r: int| #![trigger G2[r]] 0 <= r < G2.len() implies G2[r] == (if r <= k { G[r] } else { G[r + 1] }) by {}
    pv_is(w, k, i);
    if p > k {
        let o = p + 1;
        np_is(w, o, i);
        let q = np(w, o, i);
        assert forall|r: int| #![trigger w2[r]] p < r < q - 1 implies w2[r] <= i by { let x = w[r + 1]; }
        np_eq(w2, p, i, q - 1);
    } else {
        np_is(w, p, i);
        let q = np(w, p, i);
        if q <= k {
            assert forall|r: int| #![trigger w2[r]] p < r < q implies w2[r] <= i by { let x = w[r]; }
            np_eq(w2, p, i, q);
            assert(p != pv(w, k, i)) by { let x = w[q]; }
        } else {
            pv_np(w, k, i, p);
            if i < lv {
                np_eq(w, p, i, k + 1);
                np_is(w, k + 1, i);
                let n = np(w, k + 1, i);
                assert forall|r: int| #![trigger w2[r]] p < r < n - 1 implies w2[r] <= i by { if r <= k { let x = w[r]; } else { let x = w[r + 1]; } }
                np_eq(w2, p, i, n - 1);
            } else {
                assert(q > k + 1);
                assert forall|r: int| #![trigger w2[r]] p < r < q - 1 implies w2[r] <= i by { if r <= k { let x = w[r]; } else { let x = w[r + 1]; } }
                np_eq(w2, p, i, q - 1);
            }
        }
    }
}
// ---------- the list ----------
pub open spec fn at(A: IMap<int, IMap<int, int>>, s: Slice, i: int) -> int { A[s.a][s.off + i] }
#[verifier::inline]
pub open spec fn nx(h: Heap, n: int, i: int) -> int { at(h.arr_int, h.Node_next[n], i) }
pub open spec fn gs(h: Heap, l: int) -> Seq<int> { seq![-l] + h.Skiplist_seq[l] }
pub open spec fn ws(N: IMap<int, Slice>, G: Seq<int>) -> Seq<int> { Seq::new(G.len(), |p: int| N[G[p]].len) }
#[verifier::inline]
pub open spec fn s_ws(h: Heap, l: int) -> Seq<int> { ws(h.Node_next, gs(h, l)) }
#[verifier::inline]
pub open spec fn s_keys(h: Heap, l: int) -> Seq<Val> { keys(h.Skiplist_seq[l], h.Element_key) }
#[verifier::inline]
pub open spec fn s_ents(h: Heap, l: int) -> Seq<(Val, Val)> { ents(h.Skiplist_seq[l], h.Element_key, h.Element_value) }
#[verifier::inline]
pub open spec fn s_lb(h: Heap, l: int, k: Val) -> int { lb(h.Skiplist_keyCmp[l], s_keys(h, l), k) }
#[verifier::inline]
pub open spec fn s_ub(h: Heap, l: int, k: Val) -> int { ub(h.Skiplist_keyCmp[l], s_keys(h, l), k) }
pub open spec fn tower(top: int, N: IMap<int, Slice>, mx: int, An: IMap<int, int>, Ao: IMap<int, int>, l: int, n: int) -> bool {
    let s = N[n];
    slice_ok(s, top) && 1 <= s.len <= mx && s.a != 0 && An[s.a] == n && Ao[s.a] == l
}
pub open spec fn elem(top: int, own: IMap<int, int>, N: IMap<int, Slice>, mx: int, An: IMap<int, int>, Ao: IMap<int, int>, l: int, e: int) -> bool {
    0 < e < top && dyn_of(e) == dyn_Element() && own[e] == l && tower(top, N, mx, An, Ao, l, e)
}
#[verifier::opaque]
pub open spec fn elems(top: int, own: IMap<int, int>, N: IMap<int, Slice>, mx: int, An: IMap<int, int>, Ao: IMap<int, int>, l: int, s: Seq<int>) -> bool {
    forall|p: int| #![trigger s[p]] 0 <= p < s.len() ==> elem(top, own, N, mx, An, Ao, l, s[p])
}
#[verifier::inline]
pub open spec fn arr_own(h: Heap, l: int, n: int) -> bool { tower(h.top, h.Node_next, h.Skiplist_maxLevel[l], h.A_node, h.A_own, l, n) }
#[verifier::inline]
pub open spec fn elem_ok(h: Heap, l: int, e: int) -> bool { elem(h.top, h.Element_own, h.Node_next, h.Skiplist_maxLevel[l], h.A_node, h.A_own, l, e) }
#[verifier::inline]
pub open spec fn nodes_in(h: Heap, l: int, s: Seq<int>) -> bool { elems(h.top, h.Element_own, h.Node_next, h.Skiplist_maxLevel[l], h.A_node, h.A_own, l, s) }
#[verifier::opaque]
pub open spec fn chain(A: IMap<int, IMap<int, int>>, N: IMap<int, Slice>, G: Seq<int>, w: Seq<int>) -> bool {
    forall|p: int, i: int| #![trigger link(G, w, p, i)] 0 <= p < G.len() && 0 <= i < w[p] ==> at(A, N[G[p]], i) == link(G, w, p, i)
}
pub open spec fn cache_ok(h: Heap, l: int) -> bool {
    let c = h.Skiplist_prevNodesCache[l];
    slice_ok(c, h.top) && c.len == h.Skiplist_maxLevel[l] && c.a != 0 && h.A_node[c.a] == 0 && h.A_own[c.a] == l
}
pub open spec fn s_base(h: Heap, l: int) -> bool {
    &&& 0 < l < h.top && dyn_of(l) == dyn_Skiplist()
    &&& 0 < h.Skiplist_locker[l] && h.Skiplist_locker[l] < h.top
    &&& 1 <= h.Skiplist_maxLevel[l] <= 63
    &&& cmp_ok(h.Skiplist_keyCmp[l])
    &&& 0 < h.Skiplist_rander[l] < h.top
    &&& arr_own(h, l, -l) && h.Node_next[-l].len == h.Skiplist_maxLevel[l]
    &&& cache_ok(h, l)
    &&& nodes_in(h, l, h.Skiplist_seq[l])
    &&& srt(h.Skiplist_keyCmp[l], s_keys(h, l)) && strict(h.Skiplist_keyCmp[l], s_keys(h, l))
}
pub open spec fn s_ok(h: Heap, l: int) -> bool {
    &&& s_base(h, l)
    &&& h.Skiplist_len[l] == h.Skiplist_seq[l].len()
    &&& chain(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l))
}
pub open spec fn pos(h: Heap, l: int, n: int) -> int { if n == -l { 0 } else { s_lb(h, l, h.Element_key[n]) + 1 } }
// node p
pub proof fn node_at(h: Heap, l: int, p: int)
    requires s_base(h, l), 0 <= p < gs(h, l).len()
    ensures pos(h, l, gs(h, l)[p]) == p, arr_own(h, l, gs(h, l)[p]), p == 0 ==> gs(h, l)[p] == -l,
        p > 0 ==> gs(h, l)[p] == h.Skiplist_seq[l][p - 1] && elem_ok(h, l, gs(h, l)[p]) && s_keys(h, l)[p - 1] == h.Element_key[gs(h, l)[p]],
        s_ws(h, l)[p] == h.Node_next[gs(h, l)[p]].len, s_ws(h, l)[p] <= h.Skiplist_maxLevel[l], s_ws(h, l)[p] >= 1,
{
    reveal(elems);
    if p > 0 {
        let f = h.Skiplist_keyCmp[l];
        let e = h.Skiplist_seq[l][p - 1];
        let K = s_keys(h, l);
        let k = h.Element_key[e];
        assert(K[p - 1] == k);
        lb_is(f, K, k);
        strict_one(f, K, k);
        assert(cmpv(f, k, k) == 0);
    }
}
pub proof fn heights(h: Heap, l: int)
    requires s_base(h, l)
    ensures s_ws(h, l).len() == gs(h, l).len(), s_ws(h, l)[0] == h.Skiplist_maxLevel[l], forall|r: int| #![trigger s_ws(h, l)[r]] 0 <= r < s_ws(h, l).len() ==> 1 <= s_ws(h, l)[r] <= s_ws(h, l)[0]
{
    node_at(h, l, 0);
    assert forall|r: int| #![trigger s_ws(h, l)[r]] 0 <= r < s_ws(h, l).len() implies 1 <= s_ws(h, l)[r] <= s_ws(h, l)[0] by { node_at(h, l, r); }
}
// a step from node p on level i
pub proof fn step(h: Heap, l: int, p: int, i: int, k: Val)
    requires s_ok(h, l), 0 <= p < gs(h, l).len(), 0 <= i < s_ws(h, l)[p]
    ensures ({
        let G = gs(h, l); let w = s_ws(h, l); let q = np(w, p, i); let f = h.Skiplist_keyCmp[l];
        &&& p < q <= G.len()
        &&& nx(h, G[p], i) == at_or_nil(G, q)
        &&& q < G.len() ==> G[q] > 0 && w[q] > i && pos(h, l, G[q]) == q && elem_ok(h, l, G[q]) && w[q] == h.Node_next[G[q]].len
            && (cmpv(f, h.Element_key[G[q]], k) >= 0) == (q > s_lb(h, l, k)) && (cmpv(f, h.Element_key[G[q]], k) > 0) == (q > s_ub(h, l, k))
            && h.Skiplist_seq[l][q - 1] == G[q] && s_ents(h, l)[q - 1] == (h.Element_key[G[q]], h.Element_value[G[q]])
        &&& 0 <= s_lb(h, l, k) <= s_ub(h, l, k) <= s_lb(h, l, k) + 1 && s_ub(h, l, k) <= h.Skiplist_seq[l].len()
        &&& i == 0 ==> q == p + 1
    })
{
    let G = gs(h, l); let w = s_ws(h, l);
    np_is(w, p, i);
    let q = np(w, p, i);
    let f = h.Skiplist_keyCmp[l];
    let K = s_keys(h, l);
    assert(nx(h, G[p], i) == link(G, w, p, i)) by { reveal(chain); }
    lb_is(f, K, k);
    strict_one(f, K, k);
    if q < G.len() {
        node_at(h, l, q);
        assert(K[q - 1] == h.Element_key[G[q]]);
        assert(sgn(cmpv(f, k, K[q - 1])) == -sgn(cmpv(f, K[q - 1], k)));
    }
    if i == 0 && q > p + 1 { node_at(h, l, p + 1); }
}
// a search for k has reached node n on level i
pub open spec fn reached(h: Heap, l: int, k: Val, n: int, i: int) -> bool {
    let p = pos(h, l, n); let G = gs(h, l);
    n != 0 && 0 <= p <= s_lb(h, l, k) && p < G.len() && G[p] == n && s_ws(h, l)[p] > i && s_ws(h, l)[p] == h.Node_next[n].len
}
// the predecessors of node k + 1 on the levels above i are in the cache
#[verifier::opaque]
pub open spec fn found(A: IMap<int, IMap<int, int>>, c: Slice, G: Seq<int>, w: Seq<int>, k: int, i: int) -> bool {
    forall|j: int| #![trigger pv(w, k, j)] i < j < c.len ==> at(A, c, j) == G[pv(w, k, j)]
}
#[verifier::inline]
pub open spec fn s_found(h: Heap, l: int, k: int, i: int) -> bool { found(h.arr_int, h.Skiplist_prevNodesCache[l], gs(h, l), s_ws(h, l), k, i) }
pub proof fn found_is(h: Heap, l: int, k: int, i: int, j: int)
    requires s_base(h, l), s_found(h, l, k, i), i < j < h.Skiplist_maxLevel[l], 0 <= k < gs(h, l).len()
    ensures at(h.arr_int, h.Skiplist_prevNodesCache[l], j) == gs(h, l)[pv(s_ws(h, l), k, j)], 0 <= pv(s_ws(h, l), k, j) <= k, s_ws(h, l)[pv(s_ws(h, l), k, j)] > j,
        arr_own(h, l, gs(h, l)[pv(s_ws(h, l), k, j)]), s_ws(h, l)[pv(s_ws(h, l), k, j)] == h.Node_next[gs(h, l)[pv(s_ws(h, l), k, j)]].len, j == 0 ==> pv(s_ws(h, l), k, j) == k, gs(h, l)[pv(s_ws(h, l), k, j)] != 0,
{
    reveal(found);
    pv_is(s_ws(h, l), k, j);
    node_at(h, l, 0);
    node_at(h, l, pv(s_ws(h, l), k, j));
    if j == 0 { node_at(h, l, k); }
}
// a write to the cache
pub proof fn cached(h0: Heap, h: Heap, l: int, k: int, i: int, n: int)
    requires s_ok(h0, l), s_found(h0, l, k, i), 0 <= i < h.Skiplist_maxLevel[l], ({ let c = h0.Skiplist_prevNodesCache[l]; h == (Heap { arr_int: h0.arr_int.insert(c.a, h0.arr_int[c.a].insert(c.off + i, n)), ..h0 }) }),
        n == gs(h0, l)[pv(s_ws(h0, l), k, i)],
    ensures s_ok(h, l), s_found(h, l, k, i - 1)
{
    kept(h0, h, l);
    reveal(found);
}
// nothing of list l changed, except the cache
pub open spec fn same_on(h0: Heap, h: Heap, l: int) -> bool {
    &&& h0.top <= h.top
    &&& forall|a: int| #![trigger h.arr_int[a]] #![trigger h.A_own[a]] #![trigger h.A_node[a]] 0 < a < h0.top && h0.A_own[a] == l ==> h.A_own[a] == l && h.A_node[a] == h0.A_node[a] && (a != h0.Skiplist_prevNodesCache[l].a ==> h.arr_int[a] == h0.arr_int[a])
    &&& forall|e: int| #![trigger h.Element_own[e]] #![trigger h.Element_key[e]] #![trigger h.Element_value[e]] #![trigger h.Node_next[e]] 0 < e < h0.top && h0.Element_own[e] == l ==> h.Element_own[e] == l && h.Element_key[e] == h0.Element_key[e] && h.Element_value[e] == h0.Element_value[e] && h.Node_next[e] == h0.Node_next[e]
    &&& h.Node_next[-l] == h0.Node_next[-l] && h.Skiplist_seq[l] == h0.Skiplist_seq[l] && h.Skiplist_keyCmp[l] == h0.Skiplist_keyCmp[l] && h.Skiplist_locker[l] == h0.Skiplist_locker[l]
    &&& h.Skiplist_maxLevel[l] == h0.Skiplist_maxLevel[l] && h.Skiplist_prevNodesCache[l] == h0.Skiplist_prevNodesCache[l] && h.Skiplist_rander[l] == h0.Skiplist_rander[l]
}
pub proof fn kept(h0: Heap, h: Heap, l: int)
    requires s_ok(h0, l), same_on(h0, h, l)
    ensures s_base(h, l), chain(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l)), h.Skiplist_len[l] == h0.Skiplist_len[l] ==> s_ok(h, l), s_ents(h, l) == s_ents(h0, l), s_keys(h, l) == s_keys(h0, l), gs(h, l) == gs(h0, l), s_ws(h, l) == s_ws(h0, l)
{
    let G = gs(h0, l);
    let S = h0.Skiplist_seq[l];
    assert forall|p: int| #![trigger S[p]] 0 <= p < S.len() implies elem_ok(h0, l, S[p]) by { reveal(elems); }
    assert(nodes_in(h, l, S)) by { reveal(elems); }
    assert(s_ws(h, l) =~= s_ws(h0, l)) by { assert forall|p: int| 0 <= p < G.len() implies #[trigger] s_ws(h, l)[p] == s_ws(h0, l)[p] by { node_at(h0, l, p); } }
    assert(s_keys(h, l) =~= s_keys(h0, l));
    assert(s_ents(h, l) =~= s_ents(h0, l));
    let w = s_ws(h0, l);
    assert forall|p: int, i: int| #![trigger link(G, w, p, i)] 0 <= p < G.len() && 0 <= i < w[p] implies at(h.arr_int, h.Node_next[G[p]], i) == link(G, w, p, i) by {
        node_at(h0, l, p);
        reveal(chain);
        assert(nx(h0, G[p], i) == link(G, w, p, i));
    }
    assert(chain(h.arr_int, h.Node_next, G, w)) by { reveal(chain); }
}
// only list l changed
#[verifier::opaque]
pub open spec fn foot(h0: Heap, h: Heap, l: int) -> bool {
    &&& h0.top <= h.top
    &&& forall|a: int| #![trigger h.arr_int[a]] #![trigger h.A_own[a]] #![trigger h.A_node[a]] 0 < a < h0.top ==> h.A_own[a] == h0.A_own[a] && h.A_node[a] == h0.A_node[a] && (h0.A_own[a] != l ==> h.arr_int[a] == h0.arr_int[a])
    &&& forall|e: int| #![trigger h.Element_own[e]] #![trigger h.Element_key[e]] #![trigger h.Element_value[e]] 0 < e < h0.top ==> h.Element_own[e] == h0.Element_own[e] && h.Element_key[e] == h0.Element_key[e] && (h0.Element_own[e] != l ==> h.Element_value[e] == h0.Element_value[e])
    &&& forall|n: int| #![trigger h.Node_next[n]] -h0.top < n < h0.top ==> h.Node_next[n] == h0.Node_next[n]
    &&& forall|m: int| #![trigger h.Skiplist_seq[m]] #![trigger h.Skiplist_len[m]] 0 < m < h0.top && m != l ==> h.Skiplist_seq[m] == h0.Skiplist_seq[m] && h.Skiplist_len[m] == h0.Skiplist_len[m]
    &&& forall|m: int| #![trigger h.Skiplist_maxLevel[m]] #![trigger h.Skiplist_prevNodesCache[m]] #![trigger h.Skiplist_keyCmp[m]] 0 < m < h0.top ==> h.Skiplist_keyCmp[m] == h0.Skiplist_keyCmp[m] && h.Skiplist_locker[m] == h0.Skiplist_locker[m] && h.Skiplist_maxLevel[m] == h0.Skiplist_maxLevel[m]
        && h.Skiplist_prevNodesCache[m] == h0.Skiplist_prevNodesCache[m] && h.Skiplist_rander[m] == h0.Skiplist_rander[m]
}
pub open spec fn s_others(h0: Heap, h: Heap, l: int) -> bool { forall|m: int| #![trigger s_ok(h, m)] s_ok(h0, m) && m != l ==> s_ok(h, m) && s_ents(h, m) == s_ents(h0, m) }
pub proof fn others(h0: Heap, h: Heap, l: int)
    requires foot(h0, h, l)
    ensures s_others(h0, h, l)
{
    reveal(foot);
    assert forall|m: int| #![trigger s_ok(h, m)] s_ok(h0, m) && m != l implies s_ok(h, m) && s_ents(h, m) == s_ents(h0, m) by { kept(h0, h, m); }
}
// ---------- linking and unlinking ----------
// node e, to follow node k, is linked in on the levels below m
#[verifier::opaque]
pub open spec fn part(A: IMap<int, IMap<int, int>>, N: IMap<int, Slice>, G: Seq<int>, w: Seq<int>, k: int, e: int, m: int) -> bool {
    &&& forall|p: int, i: int| #![trigger old_link(G, w, k, e, m, p, i)] 0 <= p < G.len() && 0 <= i < w[p] ==> at(A, N[G[p]], i) == old_link(G, w, k, e, m, p, i)
    &&& forall|i: int| #![trigger pv(w, k, i)] 0 <= i < m ==> at(A, N[e], i) == link(G, w, pv(w, k, i), i)
}
// node k + 1 is unlinked on the levels below m
#[verifier::opaque]
pub open spec fn cut(A: IMap<int, IMap<int, int>>, N: IMap<int, Slice>, G: Seq<int>, w: Seq<int>, k: int, m: int) -> bool {
    forall|p: int, i: int| #![trigger cut_link(G, w, k, m, p, i)] 0 <= p < G.len() && 0 <= i < w[p] ==> at(A, N[G[p]], i) == cut_link(G, w, k, m, p, i)
}
pub proof fn part_start(h: Heap, l: int, k: int, e: int)
    requires s_base(h, l), chain(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l))
    ensures part(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l), k, e, 0)
{
    reveal(part); reveal(chain);
    let G = gs(h, l); let w = s_ws(h, l);
    assert forall|p: int, i: int| #![trigger old_link(G, w, k, e, 0, p, i)] 0 <= p < G.len() && 0 <= i < w[p] implies at(h.arr_int, h.Node_next[G[p]], i) == old_link(G, w, k, e, 0, p, i) by { assert(at(h.arr_int, h.Node_next[G[p]], i) == link(G, w, p, i)); }
}
pub open spec fn put(A: IMap<int, IMap<int, int>>, B: IMap<int, IMap<int, int>>, s: Slice, i: int, x: int) -> bool {
    forall|a: int, j: int| #![trigger B[a][j]] B[a][j] == (if a == s.a && j == s.off + i { x } else { A[a][j] })
}
// linking on level m; h is the list before, A and B are the arrays before and after
pub proof fn part_step(h: Heap, A: IMap<int, IMap<int, int>>, B: IMap<int, IMap<int, int>>, C: IMap<int, IMap<int, int>>, l: int, k: int, e: int, m: int)
    requires s_base(h, l), 0 <= k < gs(h, l).len(), 0 <= m < h.Skiplist_maxLevel[l], elem_ok(h, l, e), m < h.Node_next[e].len, forall|p: int| #![trigger h.Skiplist_seq[l][p]] 0 <= p < h.Skiplist_seq[l].len() ==> h.Skiplist_seq[l][p] != e,
        part(A, h.Node_next, gs(h, l), s_ws(h, l), k, e, m),
        put(A, B, h.Node_next[e], m, at(A, h.Node_next[gs(h, l)[pv(s_ws(h, l), k, m)]], m)),
        put(B, C, h.Node_next[gs(h, l)[pv(s_ws(h, l), k, m)]], m, e)
    ensures part(C, h.Node_next, gs(h, l), s_ws(h, l), k, e, m + 1)
{
    reveal(part);
    let G = gs(h, l); let w = s_ws(h, l); let N = h.Node_next;
    let b = pv(w, k, m);
    pv_is(w, k, m);
    node_at(h, l, 0);
    node_at(h, l, b);
    assert(old_link(G, w, k, e, m, b, m) == link(G, w, b, m));
    assert(at(A, N[G[b]], m) == link(G, w, b, m));
    assert(G[b] != e) by { if b > 0 { assert(h.Skiplist_seq[l][b - 1] != e); } }
    assert forall|p: int, i: int| #![trigger old_link(G, w, k, e, m + 1, p, i)] 0 <= p < G.len() && 0 <= i < w[p] implies at(C, N[G[p]], i) == old_link(G, w, k, e, m + 1, p, i) by {
        node_at(h, l, p);
        if p > 0 { assert(h.Skiplist_seq[l][p - 1] != e); }
        assert(at(A, N[G[p]], i) == old_link(G, w, k, e, m, p, i));
        assert(p != b ==> G[p] != G[b]) by { if p != b { assert(pos(h, l, G[p]) != pos(h, l, G[b])); } }
    }
    assert forall|i: int| #![trigger pv(w, k, i)] 0 <= i < m + 1 implies at(C, N[e], i) == link(G, w, pv(w, k, i), i) by {}
}
pub proof fn cut_start(h: Heap, l: int, k: int)
    requires s_base(h, l), chain(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l))
    ensures cut(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l), k, 0)
{
    reveal(cut); reveal(chain);
    let G = gs(h, l); let w = s_ws(h, l);
    assert forall|p: int, i: int| #![trigger cut_link(G, w, k, 0, p, i)] 0 <= p < G.len() && 0 <= i < w[p] implies at(h.arr_int, h.Node_next[G[p]], i) == cut_link(G, w, k, 0, p, i) by { assert(at(h.arr_int, h.Node_next[G[p]], i) == link(G, w, p, i)); }
}
pub proof fn cut_step(h: Heap, A: IMap<int, IMap<int, int>>, C: IMap<int, IMap<int, int>>, l: int, k: int, m: int)
    requires s_base(h, l), 0 <= k, k + 1 < gs(h, l).len(), 0 <= m < s_ws(h, l)[k + 1],
        cut(A, h.Node_next, gs(h, l), s_ws(h, l), k, m),
        put(A, C, h.Node_next[gs(h, l)[pv(s_ws(h, l), k, m)]], m, at(A, h.Node_next[gs(h, l)[k + 1]], m))
    ensures cut(C, h.Node_next, gs(h, l), s_ws(h, l), k, m + 1)
{
    reveal(cut);
    let G = gs(h, l); let w = s_ws(h, l); let N = h.Node_next;
    let b = pv(w, k, m);
    node_at(h, l, 0);
    node_at(h, l, k + 1);
    pv_is(w, k, m);
    node_at(h, l, b);
    assert(cut_link(G, w, k, m, k + 1, m) == link(G, w, k + 1, m));
    assert forall|p: int, i: int| #![trigger cut_link(G, w, k, m + 1, p, i)] 0 <= p < G.len() && 0 <= i < w[p] implies at(C, N[G[p]], i) == cut_link(G, w, k, m + 1, p, i) by {
        node_at(h, l, p);
        assert(at(A, N[G[p]], i) == cut_link(G, w, k, m, p, i));
        assert(p != b ==> G[p] != G[b]) by { if p != b { assert(pos(h, l, G[p]) != pos(h, l, G[b])); } }
    }
}
pub open spec fn p2(n: int) -> u64 { 1u64 << n }
pub proof fn pow2s(n: int)
    requires 0 <= n <= 63
    ensures p2(0) == 1, p2(n) >= 1, n > 0 ==> p2(n) == 2 * p2(n - 1) && p2(n) >> 1u64 == p2(n - 1)
{
    let m = n as u64;
    assert(1u64 << 0u64 == 1) by (bit_vector);
    assert(1u64 << m >= 1) by (bit_vector) requires m <= 63;
    if n > 0 {
        let j = (m - 1) as u64;
        assert(1u64 << ((j + 1) as u64) == 2 * (1u64 << j)) by (bit_vector) requires j < 63;
        assert((1u64 << ((j + 1) as u64)) >> 1u64 == 1u64 << j) by (bit_vector) requires j < 63;
    }
}
// linking e in on level m, and nothing else
pub proof fn link_step(h0: Heap, hl: Heap, h: Heap, l: int, k: int, e: int, m: int)
    requires s_ok(h0, l), s_base(hl, l), elem_ok(hl, l, e), h0.top <= e, hl.Skiplist_seq[l] == h0.Skiplist_seq[l], 0 <= k < gs(hl, l).len(), 0 <= m < hl.Node_next[e].len, s_found(hl, l, k, -1),
        h == (Heap { arr_int: h.arr_int, ..hl }), foot(h0, hl, l),
        part(hl.arr_int, hl.Node_next, gs(hl, l), s_ws(hl, l), k, e, m),
        ({ let b = hl.Node_next[gs(hl, l)[pv(s_ws(hl, l), k, m)]]; let s = hl.Node_next[e]; forall|a: int, j: int| #![trigger h.arr_int[a][j]] h.arr_int[a][j] == (if a == b.a && j == b.off + m { e } else if a == s.a && j == s.off + m { at(hl.arr_int, b, m) } else { hl.arr_int[a][j] }) }),
        ({ let b = hl.Node_next[gs(hl, l)[pv(s_ws(hl, l), k, m)]]; let s = hl.Node_next[e]; forall|a: int| #![trigger h.arr_int[a]] a != b.a && a != s.a ==> h.arr_int[a] == hl.arr_int[a] }),
    ensures part(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l), k, e, m + 1), s_found(h, l, k, -1), foot(h0, h, l)
{
    let s = hl.Node_next[e];
    let A = hl.arr_int;
    let n = gs(hl, l)[pv(s_ws(hl, l), k, m)];
    let B = A.insert(s.a, A[s.a].insert(s.off + m, at(A, hl.Node_next[n], m)));
    found_is(hl, l, k, -1, m);
    assert forall|p: int| #![trigger hl.Skiplist_seq[l][p]] 0 <= p < hl.Skiplist_seq[l].len() implies hl.Skiplist_seq[l][p] != e by { node_at(h0, l, p + 1); }
    part_step(hl, A, B, h.arr_int, l, k, e, m);
    reveal(found);
    reveal(foot);
}
pub proof fn cut_by(h0: Heap, hl: Heap, h: Heap, l: int, k: int, m: int)
    requires s_ok(h0, l), s_base(hl, l), 0 <= k, k + 1 < gs(hl, l).len(), 0 <= m < s_ws(hl, l)[k + 1], s_found(hl, l, k, -1),
        h == (Heap { arr_int: h.arr_int, ..hl }), foot(h0, hl, l),
        cut(hl.arr_int, hl.Node_next, gs(hl, l), s_ws(hl, l), k, m),
        ({ let b = hl.Node_next[gs(hl, l)[pv(s_ws(hl, l), k, m)]]; put(hl.arr_int, h.arr_int, b, m, at(hl.arr_int, hl.Node_next[gs(hl, l)[k + 1]], m)) && forall|a: int| #![trigger h.arr_int[a]] a != b.a ==> h.arr_int[a] == hl.arr_int[a] }),
    ensures cut(h.arr_int, h.Node_next, gs(h, l), s_ws(h, l), k, m + 1), s_found(h, l, k, -1), foot(h0, h, l)
{
    node_at(hl, l, k + 1);
    found_is(hl, l, k, -1, m);
    cut_step(hl, hl.arr_int, h.arr_int, l, k, m);
    reveal(found);
    reveal(foot);
}
// the list has the same shape and other contents
pub open spec fn moved(hl: Heap, h: Heap, l: int) -> bool {
    h == (Heap { arr_int: h.arr_int, Skiplist_seq: h.Skiplist_seq, Skiplist_len: h.Skiplist_len, Locker_held: h.Locker_held, Locker_sections: h.Locker_sections, ..hl }) && h.arr_int == hl.arr_int
}
pub proof fn ins_done(hl: Heap, h: Heap, l: int, k: int, e: int)
    requires s_base(hl, l), moved(hl, h, l), elem_ok(hl, l, e), 0 <= k < gs(hl, l).len(), part(hl.arr_int, hl.Node_next, gs(hl, l), s_ws(hl, l), k, e, hl.Node_next[e].len),
        h.Skiplist_seq[l] == hl.Skiplist_seq[l].insert(k, e), h.Skiplist_len[l] == h.Skiplist_seq[l].len(),
        k == s_lb(hl, l, hl.Element_key[e]), k == s_ub(hl, l, hl.Element_key[e]),
    ensures s_ok(h, l), s_ents(h, l) == s_ents(hl, l).insert(k, (hl.Element_key[e], hl.Element_value[e]))
{
    let f = h.Skiplist_keyCmp[l];
    let key = hl.Element_key[e];
    let lv = hl.Node_next[e].len;
    let G = gs(hl, l); let w = s_ws(hl, l);
    srt_ins(f, s_keys(hl, l), key);
    strict_ins(f, s_keys(hl, l), key);
    assert(s_keys(h, l) =~= s_keys(hl, l).insert(k, key));
    assert(s_ents(h, l) =~= s_ents(hl, l).insert(k, (key, hl.Element_value[e])));
    assert(gs(h, l) =~= G.insert(k + 1, e));
    assert(s_ws(h, l) =~= w.insert(k + 1, lv));
    let S = h.Skiplist_seq[l];
    assert forall|p: int| #![trigger S[p]] 0 <= p < S.len() implies elem_ok(h, l, S[p]) by { reveal(elems); if p < k { assert(S[p] == hl.Skiplist_seq[l][p]); } else if p > k { assert(S[p] == hl.Skiplist_seq[l][p - 1]); } }
    assert(nodes_in(h, l, S)) by { reveal(elems); }
    heights(hl, l);
    let G2 = gs(h, l); let w2 = s_ws(h, l);
    assert forall|p: int, i: int| #![trigger link(G2, w2, p, i)] 0 <= p < G2.len() && 0 <= i < w2[p] implies at(h.arr_int, h.Node_next[G2[p]], i) == link(G2, w2, p, i) by {
        link_ins(G, w, k, e, lv, p, i);
        reveal(part);
        if p == k + 1 {
            assert(at(h.arr_int, h.Node_next[e], i) == link(G, w, pv(w, k, i), i));
        } else {
            let o = if p <= k { p } else { p - 1 };
            assert(at(h.arr_int, h.Node_next[G[o]], i) == old_link(G, w, k, e, lv, o, i));
        }
    }
    assert(chain(h.arr_int, h.Node_next, G2, w2)) by { reveal(chain); }
}
pub proof fn rem_done(hl: Heap, h: Heap, l: int, k: int)
    requires s_base(hl, l), moved(hl, h, l), 0 <= k, k + 1 < gs(hl, l).len(), cut(hl.arr_int, hl.Node_next, gs(hl, l), s_ws(hl, l), k, s_ws(hl, l)[k + 1]),
        h.Skiplist_seq[l] == hl.Skiplist_seq[l].remove(k), h.Skiplist_len[l] == h.Skiplist_seq[l].len(),
    ensures s_ok(h, l), s_ents(h, l) == s_ents(hl, l).remove(k)
{
    let f = h.Skiplist_keyCmp[l];
    let G = gs(hl, l); let w = s_ws(hl, l);
    srt_rem(f, s_keys(hl, l), k);
    strict_rem(f, s_keys(hl, l), k);
    assert(s_keys(h, l) =~= s_keys(hl, l).remove(k));
    assert(s_ents(h, l) =~= s_ents(hl, l).remove(k));
    assert(gs(h, l) =~= G.remove(k + 1));
    assert(s_ws(h, l) =~= w.remove(k + 1));
    let S = h.Skiplist_seq[l];
    assert forall|p: int| #![trigger S[p]] 0 <= p < S.len() implies elem_ok(h, l, S[p]) by { reveal(elems); if p < k { assert(S[p] == hl.Skiplist_seq[l][p]); } else { assert(S[p] == hl.Skiplist_seq[l][p + 1]); } }
    assert(nodes_in(h, l, S)) by { reveal(elems); }
    heights(hl, l);
    let G2 = gs(h, l); let w2 = s_ws(h, l);
    assert forall|p: int, i: int| #![trigger link(G2, w2, p, i)] 0 <= p < G2.len() && 0 <= i < w2[p] implies at(h.arr_int, h.Node_next[G2[p]], i) == link(G2, w2, p, i) by {
        link_rem(G, w, k, p, i);
        reveal(cut);
        let o = if p <= k { p } else { p + 1 };
        assert(at(h.arr_int, h.Node_next[G[o]], i) == cut_link(G, w, k, w[k + 1], o, i));
    }
    assert(chain(h.arr_int, h.Node_next, G2, w2)) by { reveal(chain); }
}
pub proof fn set_value(h0: Heap, h: Heap, l: int, k: int, v: Val)
    requires s_ok(h0, l), 0 <= k < h0.Skiplist_seq[l].len(), h.Skiplist_seq[l] == h0.Skiplist_seq[l], h.Element_key == h0.Element_key, h.Element_value == h0.Element_value.insert(h0.Skiplist_seq[l][k], v)
    ensures s_ents(h, l) == s_ents(h0, l).update(k, (s_ents(h0, l)[k].0, v))
{
    let e = h0.Skiplist_seq[l][k];
    node_at(h0, l, k + 1);
    assert forall|p: int| 0 <= p < h0.Skiplist_seq[l].len() implies #[trigger] s_ents(h, l)[p] == s_ents(h0, l).update(k, (s_ents(h0, l)[k].0, v))[p] by { node_at(h0, l, p + 1); }
    assert(s_ents(h, l) =~= s_ents(h0, l).update(k, (s_ents(h0, l)[k].0, v)));
}
pub proof fn new_list(h: Heap, l: int)
    requires 0 < l < h.top, dyn_of(l) == dyn_Skiplist(), 0 < h.Skiplist_locker[l], h.Skiplist_locker[l] < h.top, 1 <= h.Skiplist_maxLevel[l] <= 63, cmp_ok(h.Skiplist_keyCmp[l]), 0 < h.Skiplist_rander[l] < h.top,
        arr_own(h, l, -l), h.Node_next[-l].len == h.Skiplist_maxLevel[l], cache_ok(h, l), h.Skiplist_seq[l] == Seq::<int>::empty(), h.Skiplist_len[l] == 0,
        forall|i: int| #![trigger at(h.arr_int, h.Node_next[-l], i)] 0 <= i < h.Skiplist_maxLevel[l] ==> at(h.arr_int, h.Node_next[-l], i) == 0,
    ensures s_ok(h, l), s_ents(h, l).len() == 0
{
    reveal(srt); reveal(strict); reveal(elems); reveal(chain);
    assert(s_keys(h, l) =~= Seq::<Val>::empty());
    assert(gs(h, l) =~= seq![-l]);
    let G = gs(h, l); let w = s_ws(h, l);
    assert(G[0] == -l);
    assert forall|p: int, i: int| #![trigger link(G, w, p, i)] 0 <= p < G.len() && 0 <= i < w[p] implies at(h.arr_int, h.Node_next[G[p]], i) == link(G, w, p, i) by { assert(p == 0); np_is(w, p, i); assert(G[p] == -l); }
}
