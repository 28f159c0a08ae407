// ---------- maps over a tree ----------
// the value of one node changes
pub proof fn set_val(h0: Heap, h: Heap, t: int, n: int, v: Val)
    requires t_ok(h0, t), mem(tr(h0, t), n), h.Node_value == h0.Node_value.insert(n, v), h0.top <= h.top,
        h.RbTree_seq == h0.RbTree_seq, h.RbTree_root == h0.RbTree_root, h.RbTree_size == h0.RbTree_size, h.RbTree_keyCmp == h0.RbTree_keyCmp,
        h.Node_own == h0.Node_own, h.Node_idx == h0.Node_idx, h.Node_lo == h0.Node_lo, h.Node_hi == h0.Node_hi, h.Node_left == h0.Node_left, h.Node_right == h0.Node_right,
        h.Node_parent == h0.Node_parent, h.Node_color == h0.Node_color, h.Node_key == h0.Node_key
    ensures t_ok(h, t), t_keys(h, t) == t_keys(h0, t), t_ents(h, t) =~= t_ents(h0, t).update(h0.Node_idx[n], (h0.Node_key[n], v)), t_others(h0, h, t), mem(tr(h, t), n)
{
    node_in(h0, t, n);
    let s = h0.RbTree_seq[t];
    assert(nodes_in(s, h.top)) by { reveal(nodes_in); }
    assert(far(h0, h, t)) by { reveal(farn); }
    others(h0, h, t);
    assert forall|i: int| 0 <= i < s.len() && i != h0.Node_idx[n] implies s[i] != n by { node_at(h0, t, i); }
    assert(t_ents(h, t) =~= t_ents(h0, t).update(h0.Node_idx[n], (h0.Node_key[n], v)));
}
// a map proper; its entries are t_ents of its tree
#[verifier::inline]
pub open spec fn t_lb(h: Heap, t: int, k: Val) -> int { lb(h.RbTree_keyCmp[t], t_keys(h, t), k) }
#[verifier::inline]
pub open spec fn t_ub(h: Heap, t: int, k: Val) -> int { ub(h.RbTree_keyCmp[t], t_keys(h, t), k) }
pub proof fn find_at(h: Heap, t: int, k: Val)
    requires t_ok(h, t)
    ensures 0 <= t_lb(h, t, k) <= t_ub(h, t, k) <= h.RbTree_seq[t].len(),
        (t_find(h, t, k) == 0) == (t_lb(h, t, k) == t_ub(h, t, k)),
        t_find(h, t, k) != 0 ==> mem(tr(h, t), t_find(h, t, k)) && h.Node_idx[t_find(h, t, k)] == t_lb(h, t, k) && h.Node_own[t_find(h, t, k)] == t && is_node(h, t_find(h, t, k)),
{
    lb_is(h.RbTree_keyCmp[t], t_keys(h, t), k);
    let p = t_lb(h, t, k);
    if p < t_ub(h, t, k) { node_at(h, t, p); }
}
pub proof fn node_ok(h: Heap, t: int, n: int)
    requires t_wf(h, t), n == 0 || mem(tr(h, t), n)
    ensures n == 0 || (n_in(h, n) && h.Node_own[n] == t && is_node(h, n) && 0 <= h.Node_idx[n] < h.RbTree_seq[t].len() && h.RbTree_seq[t][h.Node_idx[n]] == n)
{ if n != 0 { node_in(h, t, n); } }
// what is left of s after the entries with positions from a up to b are gone
pub open spec fn without(s: Seq<(Val, Val)>, a: int, b: int) -> Seq<(Val, Val)> { s.take(a) + s.skip(b) }
pub proof fn rem_left(E: Seq<(Val, Val)>, lo: int, j: int)
    requires 0 <= lo <= j < E.len()
    ensures without(E, lo, j).remove(lo) == without(E, lo, j + 1)
{ assert(without(E, lo, j).remove(lo) =~= without(E, lo, j + 1)); }
// the keys equal to k are the ones not gone yet
pub proof fn left_over(h0: Heap, h: Heap, t: int, k: Val, j: int)
    requires t_ok(h0, t), t_ok(h, t), h.RbTree_keyCmp[t] == h0.RbTree_keyCmp[t], t_lb(h0, t, k) <= j <= t_ub(h0, t, k), t_ents(h, t) == without(t_ents(h0, t), t_lb(h0, t, k), j)
    ensures t_lb(h, t, k) == t_lb(h0, t, k), t_ub(h, t, k) == t_lb(h0, t, k) + t_ub(h0, t, k) - j, 0 <= t_lb(h0, t, k), t_ub(h0, t, k) <= t_ents(h0, t).len()
{
    let f = h.RbTree_keyCmp[t];
    let a = t_keys(h0, t); let b = t_keys(h, t);
    let lo = t_lb(h0, t, k); let up = t_ub(h0, t, k);
    lb_is(f, a, k);
    assert(b.len() == t_ents(h, t).len());
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies (cmpv(f, k, b[i]) <= 0) == (i >= lo) && (cmpv(f, k, b[i]) < 0) == (i >= lo + up - j) by {
        assert(b[i] == t_ents(h, t)[i].0);
        let x = if i < lo { i } else { i - lo + j };
        assert(t_ents(h, t)[i] == t_ents(h0, t)[x]);
        assert(b[i] == a[x]);
    }
    bound_is(f, b, k, lo, lo + up - j);
}
pub proof fn others_others(h0: Heap, h1: Heap, h: Heap, t: int)
    requires t_others(h0, h1, t), t_others(h1, h, t), h0.top <= h1.top
    ensures t_others(h0, h, t)
{
    assert forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) && d != t implies t_ok(h, d) && t_same(h0, h, d) by { assert(t_ok(h1, d)) by { let x = h1.RbTree_seq[d]; } }
    assert forall|n: int| #![trigger h.Node_own[n]] 0 < n && n < h0.top && h0.Node_own[n] != t implies h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n] by { assert(h1.Node_own[n] != t); }
}
pub proof fn ents_keys(h0: Heap, h: Heap, t: int, p: int)
    requires 0 <= p < t_ents(h0, t).len(), t_ents(h, t) == t_ents(h0, t).remove(p)
    ensures t_keys(h, t) == t_keys(h0, t).remove(p)
{
    assert(t_keys(h, t).len() == t_ents(h, t).len());
    assert forall|i: int| 0 <= i < t_keys(h, t).len() implies #[trigger] t_keys(h, t)[i] == t_keys(h0, t).remove(p)[i] by { assert(t_ents(h, t)[i].0 == t_keys(h, t)[i]); }
    assert(t_keys(h, t) =~= t_keys(h0, t).remove(p));
}
pub proof fn ents_keys_ins(h0: Heap, h: Heap, t: int, p: int)
    requires 0 <= p <= t_ents(h0, t).len(), t_ents(h, t).len() > p, t_ents(h, t) == t_ents(h0, t).insert(p, t_ents(h, t)[p])
    ensures t_keys(h, t) == t_keys(h0, t).insert(p, t_ents(h, t)[p].0)
{
    let k = t_ents(h, t)[p].0;
    assert(t_keys(h, t).len() == t_ents(h, t).len());
    assert forall|i: int| 0 <= i < t_keys(h, t).len() implies #[trigger] t_keys(h, t)[i] == t_keys(h0, t).insert(p, k)[i] by { assert(t_ents(h, t)[i].0 == t_keys(h, t)[i]); }
    assert(t_keys(h, t) =~= t_keys(h0, t).insert(p, k));
}
pub proof fn ents_keys_cut(h0: Heap, h: Heap, t: int, a: int, b: int)
    requires 0 <= a <= b <= t_ents(h0, t).len(), t_ents(h, t) == without(t_ents(h0, t), a, b)
    ensures t_keys(h, t) == t_keys(h0, t).take(a) + t_keys(h0, t).skip(b)
{
    assert(t_keys(h, t).len() == t_ents(h, t).len());
    let w = t_keys(h0, t).take(a) + t_keys(h0, t).skip(b);
    assert forall|i: int| 0 <= i < t_keys(h, t).len() implies #[trigger] t_keys(h, t)[i] == w[i] by { assert(t_ents(h, t)[i].0 == t_keys(h, t)[i]); }
    assert(t_keys(h, t) =~= w);
}
