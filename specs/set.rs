// ---------- sets over a tree ----------
pub open spec fn s_ok(h: Heap, m: int) -> bool { 0 < m && m < h.top && h.Set_locker[m] != 0 && t_ok(h, h.Set_tree[m]) && strict(h.RbTree_keyCmp[h.Set_tree[m]], t_keys(h, h.Set_tree[m])) && h.Set_keyCmp[m] == h.RbTree_keyCmp[h.Set_tree[m]] }
pub open spec fn ms_ok(h: Heap, m: int) -> bool { 0 < m && m < h.top && h.MultiSet_locker[m] != 0 && t_ok(h, h.MultiSet_tree[m]) }
#[verifier::inline]
pub open spec fn sit_in(h: Heap, it: int, t: int) -> bool { h.SetIterator_node[it] == 0 || (n_in(h, h.SetIterator_node[it]) && h.Node_own[h.SetIterator_node[it]] == t) }
// k is equal to an element of s
#[verifier::opaque]
pub open spec fn inset(f: int, s: Seq<Val>, k: Val) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && cmpv(f, k, s[i]) == 0 }
// common elements (0), all elements (1), the first's that are not in the second (2)
pub open spec fn comb(m: int, f: int, a: Seq<Val>, b: Seq<Val>) -> Seq<Val>
    decreases a.len() + b.len()
{
    if b.len() == 0 { if m == 0 { Seq::empty() } else { a } }
    else if a.len() == 0 { if m == 1 { b } else { Seq::empty() } }
    else if cmpv(f, a[0], b[0]) == 0 { if m == 2 { comb(m, f, a.skip(1), b.skip(1)) } else { seq![a[0]] + comb(m, f, a.skip(1), b.skip(1)) } }
    else if cmpv(f, a[0], b[0]) < 0 { if m == 0 { comb(m, f, a.skip(1), b) } else { seq![a[0]] + comb(m, f, a.skip(1), b) } }
    else { if m == 1 { seq![b[0]] + comb(m, f, a, b.skip(1)) } else { comb(m, f, a, b.skip(1)) } }
}
pub open spec fn want(m: int, x: bool, y: bool) -> bool { if m == 0 { x && y } else if m == 1 { x || y } else { x && !y } }
pub proof fn inset_at(f: int, s: Seq<Val>, k: Val, i: int)
    requires 0 <= i < s.len(), cmpv(f, k, s[i]) == 0
    ensures inset(f, s, k)
{ reveal(inset); }
pub proof fn inset_none(f: int, s: Seq<Val>, k: Val)
    requires s.len() == 0
    ensures !inset(f, s, k)
{ reveal(inset); }
pub proof fn inset_head(f: int, s: Seq<Val>, r: Seq<Val>, x: Val, k: Val)
    requires s == seq![x] + r
    ensures inset(f, s, k) == (cmpv(f, k, x) == 0 || inset(f, r, k))
{
    reveal(inset);
    assert(s[0] == x);
    if inset(f, r, k) { let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && cmpv(f, k, r[i]) == 0; assert(s[i + 1] == r[i]); }
    if inset(f, s, k) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && cmpv(f, k, s[i]) == 0; if i > 0 { assert(r[i - 1] == s[i]); } }
}
// x is below everything in s
#[verifier::opaque]
pub open spec fn under(f: int, x: Val, s: Seq<Val>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> cmpv(f, x, s[i]) < 0 }
pub proof fn strict_head(f: int, s: Seq<Val>)
    requires strict(f, s), s.len() > 0
    ensures strict(f, s.skip(1)), under(f, s[0], s.skip(1)), s == seq![s[0]] + s.skip(1)
{
    reveal(strict); reveal(under);
    let r = s.skip(1);
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies cmpv(f, s[0], r[i]) < 0 by { assert(r[i] == s[i + 1]); }
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cmpv(f, r[i], r[j]) < 0 by { assert(r[i] == s[i + 1] && r[j] == s[j + 1]); }
    assert(s =~= seq![s[0]] + r);
}
pub proof fn strict_cons(f: int, x: Val, s: Seq<Val>)
    requires strict(f, s), under(f, x, s)
    ensures strict(f, seq![x] + s)
{
    reveal(strict); reveal(under);
    let r = seq![x] + s;
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cmpv(f, r[i], r[j]) < 0 by {
        assert(r[j] == s[j - 1]);
        if i > 0 { assert(r[i] == s[i - 1]); } else { assert(r[0] == x); }
    }
}
// x is below s, and y is not above x
pub proof fn under_less(f: int, y: Val, x: Val, s: Seq<Val>)
    requires cmp_ok(f), under(f, x, s), cmpv(f, y, x) <= 0
    ensures under(f, y, s)
{
    reveal(under);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies cmpv(f, y, s[i]) < 0 by { less_trans(f, y, x, s[i]); }
}
pub proof fn less_trans(f: int, a: Val, b: Val, c: Val)
    requires cmp_ok(f), cmpv(f, a, b) <= 0, cmpv(f, b, c) < 0
    ensures cmpv(f, a, c) < 0
{
    assert(cmpv(f, b, c) <= 0);
    assert(cmpv(f, a, c) <= 0);
    if cmpv(f, a, c) == 0 {
        assert(sgn(cmpv(f, c, a)) == -sgn(cmpv(f, a, c)));
        assert(cmpv(f, c, a) <= 0 && cmpv(f, a, b) <= 0);
        assert(cmpv(f, c, b) <= 0);
        assert(sgn(cmpv(f, c, b)) == -sgn(cmpv(f, b, c)));
    }
}
pub proof fn under_not(f: int, x: Val, s: Seq<Val>, k: Val)
    requires cmp_ok(f), under(f, x, s), cmpv(f, k, x) <= 0
    ensures !inset(f, s, k)
{
    reveal(inset);
    if inset(f, s, k) {
        let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && cmpv(f, k, s[i]) == 0;
        reveal(under);
        less_trans(f, k, x, s[i]);
    }
}
// everything in s is equal to something that x is below
pub proof fn under_has(f: int, x: Val, s: Seq<Val>, a: Seq<Val>, b: Seq<Val>)
    requires cmp_ok(f), under(f, x, a), under(f, x, b), forall|k: Val| #![trigger inset(f, s, k)] inset(f, s, k) ==> inset(f, a, k) || inset(f, b, k)
    ensures under(f, x, s)
{
    reveal(under);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies cmpv(f, x, s[i]) < 0 by {
        assert(cmpv(f, s[i], s[i]) == 0);
        inset_at(f, s, s[i], i);
        if cmpv(f, x, s[i]) >= 0 {
            assert(sgn(cmpv(f, x, s[i])) == -sgn(cmpv(f, s[i], x)));
            under_not(f, x, a, s[i]);
            under_not(f, x, b, s[i]);
        }
    }
}
pub proof fn comb_ok(m: int, f: int, a: Seq<Val>, b: Seq<Val>)
    requires cmp_ok(f), strict(f, a), strict(f, b), 0 <= m <= 2
    ensures strict(f, comb(m, f, a, b)), forall|k: Val| #![trigger inset(f, comb(m, f, a, b), k)] inset(f, comb(m, f, a, b), k) == want(m, inset(f, a, k), inset(f, b, k))
    decreases a.len() + b.len()
{
    let r = comb(m, f, a, b);
    if b.len() == 0 {
        assert forall|k: Val| #![trigger inset(f, r, k)] inset(f, r, k) == want(m, inset(f, a, k), inset(f, b, k)) by { inset_none(f, b, k); if m == 0 { inset_none(f, r, k); } }
        if m == 0 { reveal(strict); }
    } else if a.len() == 0 {
        assert forall|k: Val| #![trigger inset(f, r, k)] inset(f, r, k) == want(m, inset(f, a, k), inset(f, b, k)) by { inset_none(f, a, k); if m != 1 { inset_none(f, r, k); } }
        if m != 1 { reveal(strict); }
    } else {
        let x = a[0]; let y = b[0];
        let c = cmpv(f, x, y);
        let a1 = a.skip(1); let b1 = b.skip(1);
        strict_head(f, a); strict_head(f, b);
        assert(sgn(cmpv(f, y, x)) == -sgn(c));
        let a2 = if c <= 0 { a1 } else { a };
        let b2 = if c >= 0 { b1 } else { b };
        let t = comb(m, f, a2, b2);
        comb_ok(m, f, a2, b2);
        let e = if c <= 0 { x } else { y };
        // e is below all that is left
        assert(under(f, e, a2) && under(f, e, b2)) by {
            if c == 0 { under_less(f, x, y, b1); }
            else if c < 0 { under_less(f, x, y, b1); reveal(under); assert(b =~= seq![y] + b1); assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies cmpv(f, x, b[i]) < 0 by { if i > 0 { assert(b[i] == b1[i - 1]); } } }
            else { under_less(f, y, x, a1); reveal(under); assert(a =~= seq![x] + a1); assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies cmpv(f, y, a[i]) < 0 by { if i > 0 { assert(a[i] == a1[i - 1]); } } }
        }
        let takes = if c == 0 { m != 2 } else if c < 0 { m != 0 } else { m == 1 };
        if takes {
            under_has(f, e, t, a2, b2);
            strict_cons(f, e, t);
            assert(r == seq![e] + t);
        } else { assert(r == t); }
        assert forall|k: Val| #![trigger inset(f, r, k)] inset(f, r, k) == want(m, inset(f, a, k), inset(f, b, k)) by {
            inset_head(f, a, a1, x, k);
            inset_head(f, b, b1, y, k);
            if takes { inset_head(f, r, t, e, k); }
            assert(inset(f, t, k) == want(m, inset(f, a2, k), inset(f, b2, k)));
            assert(sgn(cmpv(f, k, x)) == -sgn(cmpv(f, x, k)));
            assert(sgn(cmpv(f, k, y)) == -sgn(cmpv(f, y, k)));
            if cmpv(f, k, e) == 0 { under_not(f, e, a2, k); under_not(f, e, b2, k); }
            if c == 0 {
                assert(cmpv(f, k, x) <= 0 && cmpv(f, x, y) <= 0 ==> cmpv(f, k, y) <= 0);
                assert(cmpv(f, y, x) <= 0 && cmpv(f, x, k) <= 0 ==> cmpv(f, y, k) <= 0);
                assert(cmpv(f, k, y) <= 0 && cmpv(f, y, x) <= 0 ==> cmpv(f, k, x) <= 0);
                assert(cmpv(f, x, y) <= 0 && cmpv(f, y, k) <= 0 ==> cmpv(f, x, k) <= 0);
            }
        }
    }
}
// an element after all others goes to the end
pub proof fn ins_last(f: int, s: Seq<Val>, k: Val, r: Seq<Val>)
    requires cmp_ok(f), srt(f, s), strict(f, s + (seq![k] + r))
    ensures ub(f, s, k) == s.len(), lb(f, s, k) == s.len(), s.insert(s.len() as int, k) == s + seq![k]
{
    lb_is(f, s, k);
    reveal(strict);
    let w = s + (seq![k] + r);
    assert(s.insert(s.len() as int, k) =~= s + seq![k]);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies cmpv(f, k, s[i]) > 0 by {
        assert(w[i] == s[i]); assert(w[s.len() as int] == k);
        assert(cmpv(f, w[i], w[s.len() as int]) < 0);
        assert(sgn(cmpv(f, k, s[i])) == -sgn(cmpv(f, s[i], k)));
    }
    if lb(f, s, k) < s.len() { let z = s[lb(f, s, k)]; assert(false); }
}
pub proof fn strict_left(f: int, s: Seq<Val>, r: Seq<Val>)
    requires strict(f, s + r)
    ensures strict(f, s)
{
    reveal(strict);
    let w = s + r;
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies cmpv(f, s[i], s[j]) < 0 by { assert(w[i] == s[i] && w[j] == s[j]); }
}
// the position of a tree iterator
pub open spec fn pos(h: Heap, t: int, n: int) -> int { if n == 0 { h.RbTree_seq[t].len() as int } else { h.Node_idx[n] } }
pub open spec fn at_pos(h: Heap, t: int, n: int) -> bool { n == 0 || (mem(tr(h, t), n) && n > 0 && h.Node_own[n] == t && is_node(h, n) && 0 <= h.Node_idx[n] < h.RbTree_seq[t].len() && h.RbTree_seq[t][h.Node_idx[n]] == n) }
// all trees there were keep their nodes and entries
#[verifier::opaque]
pub open spec fn t_kept(h0: Heap, h: Heap) -> bool {
    &&& forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) ==> t_ok(h, d) && t_same(h0, h, d)
    &&& forall|n: int| #![trigger h.Node_own[n]] n_in(h0, n) && t_ok(h0, h0.Node_own[n]) ==> n_in(h, n) && h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n]
}
pub proof fn kept_of(h0: Heap, h: Heap, t: int)
    requires t_others(h0, h, t), t >= h0.top
    ensures t_kept(h0, h)
{ reveal(t_kept);
    
    assert forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) implies t_ok(h, d) && t_same(h0, h, d) by { let x = h.RbTree_seq[d]; }
    assert forall|n: int| #![trigger h.Node_own[n]] n_in(h0, n) && t_ok(h0, h0.Node_own[n]) implies n_in(h, n) && h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n] by { node_in(h0, h0.Node_own[n], n); mem_keep(h0, h, t, h0.Node_own[n], n); let x = h.Node_own[n]; }
}
pub proof fn kept_then(h0: Heap, h1: Heap, h: Heap, t: int)
    requires t_kept(h0, h1), t_others(h1, h, t), t >= h0.top
    ensures t_kept(h0, h)
{ reveal(t_kept);
    
    assert forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) implies t_ok(h, d) && t_same(h0, h, d) by { let x = h1.RbTree_seq[d]; assert(t_ok(h1, d)); let y = h.RbTree_seq[d]; }
    assert forall|n: int| #![trigger h.Node_own[n]] n_in(h0, n) && t_ok(h0, h0.Node_own[n]) implies n_in(h, n) && h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n] by { node_in(h0, h0.Node_own[n], n); let x = h1.Node_own[n]; let y = h1.RbTree_seq[h0.Node_own[n]]; assert(n_in(h1, n)); node_in(h1, h0.Node_own[n], n); let z = h.Node_own[n]; mem_keep(h1, h, t, h0.Node_own[n], n); }
}
pub proof fn kept_tree(h0: Heap, h: Heap, d: int)
    requires t_kept(h0, h), t_ok(h0, d)
    ensures t_ok(h, d), t_same(h0, h, d)
{ reveal(t_kept); let x = h.RbTree_seq[d]; }
pub proof fn comb_step(m: int, f: int, a: Seq<Val>, i: int, b: Seq<Val>, j: int)
    requires 0 <= i <= a.len(), 0 <= j <= b.len()
    ensures
        i < a.len() && j < b.len() ==> comb(m, f, a.skip(i), b.skip(j)) == (
            if cmpv(f, a[i], b[j]) == 0 { if m == 2 { comb(m, f, a.skip(i + 1), b.skip(j + 1)) } else { seq![a[i]] + comb(m, f, a.skip(i + 1), b.skip(j + 1)) } }
            else if cmpv(f, a[i], b[j]) < 0 { if m == 0 { comb(m, f, a.skip(i + 1), b.skip(j)) } else { seq![a[i]] + comb(m, f, a.skip(i + 1), b.skip(j)) } }
            else { if m == 1 { seq![b[j]] + comb(m, f, a.skip(i), b.skip(j + 1)) } else { comb(m, f, a.skip(i), b.skip(j + 1)) } }),
        i < a.len() && j == b.len() ==> comb(m, f, a.skip(i), b.skip(j)) == (if m == 0 { Seq::<Val>::empty() } else { seq![a[i]] + comb(m, f, a.skip(i + 1), b.skip(j)) }),
        i == a.len() && j < b.len() ==> comb(m, f, a.skip(i), b.skip(j)) == (if m == 1 { seq![b[j]] + comb(m, f, a.skip(i), b.skip(j + 1)) } else { Seq::<Val>::empty() }),
        i == a.len() && j == b.len() ==> comb(m, f, a.skip(i), b.skip(j)) == Seq::<Val>::empty(),
{
    if i < a.len() { assert(a.skip(i).skip(1) =~= a.skip(i + 1)); assert(a.skip(i)[0] == a[i]); assert(a.skip(i) =~= seq![a[i]] + a.skip(i + 1)); }
    if j < b.len() { assert(b.skip(j).skip(1) =~= b.skip(j + 1)); assert(b.skip(j)[0] == b[j]); assert(b.skip(j) =~= seq![b[j]] + b.skip(j + 1)); }
    if i == a.len() { assert(a.skip(i) =~= Seq::<Val>::empty()); }
    if j == b.len() { assert(b.skip(j) =~= Seq::<Val>::empty()); }
    if i == a.len() && j < b.len() { assert(comb(m, f, a.skip(i), b.skip(j + 1)) =~= (if m == 1 { b.skip(j + 1) } else { Seq::<Val>::empty() })); }
}
pub proof fn put(f: int, w: Seq<Val>, d: Seq<Val>, k: Val, r: Seq<Val>)
    requires cmp_ok(f), srt(f, d), strict(f, w), d + (seq![k] + r) == w
    ensures ub(f, d, k) == d.len(), lb(f, d, k) == d.len(), d.insert(d.len() as int, k) + r == w
{ ins_last(f, d, k, r); assert(d.insert(d.len() as int, k) + r =~= w); }
// nothing of the trees changes
pub proof fn kept_on(h0: Heap, h1: Heap, h: Heap)
    requires t_kept(h0, h1), h1.top <= h.top,
        h.RbTree_seq == h1.RbTree_seq, h.RbTree_root == h1.RbTree_root, h.RbTree_size == h1.RbTree_size, h.RbTree_keyCmp == h1.RbTree_keyCmp,
        h.Node_own == h1.Node_own, h.Node_idx == h1.Node_idx, h.Node_lo == h1.Node_lo, h.Node_hi == h1.Node_hi, h.Node_left == h1.Node_left, h.Node_right == h1.Node_right,
        h.Node_parent == h1.Node_parent, h.Node_color == h1.Node_color, h.Node_key == h1.Node_key, h.Node_value == h1.Node_value
    ensures t_kept(h0, h), forall|d: int| #![trigger t_ok(h1, d)] t_ok(h1, d) ==> t_ok(h, d)
{
    reveal(t_kept); reveal(nodes_in);
    assert forall|n: int| #![trigger h.Node_own[n]] n_in(h0, n) && t_ok(h0, h0.Node_own[n]) implies n_in(h, n) && h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n] by { let x = h1.Node_own[n]; assert(n_in(h1, n)); }
    assert forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) implies t_ok(h, d) && t_same(h0, h, d) by { let y = h1.RbTree_seq[d]; assert(t_ok(h1, d)); }
}
