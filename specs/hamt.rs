// ---------- bits ----------
pub open spec fn ps(x: u64, d: int) -> u8 { ((x >> ((d * 6) as u64)) & 63) as u8 }
pub open spec fn bp(p: u8) -> u64 { 1u64 << (p as u64) }
pub open spec fn bt(b: u64, p: int) -> bool { (b >> (p as u64)) & 1 == 1 }
pub open spec fn rank(b: u64, p: int) -> int
    decreases p
{ if p <= 0 { 0 } else { rank(b, p - 1) + if bt(b, p - 1) { 1int } else { 0 } } }
// the number of bits set; what the standard library's count gives (trusted)
pub open spec fn popcount(b: u64) -> int { rank(b, 64) }
pub proof fn rank_mono(b: u64, p: int, q: int)
    requires 0 <= p <= q
    ensures rank(b, p) <= rank(b, q), rank(b, q) <= rank(b, p) + q - p, rank(b, p) >= 0, p < q && bt(b, p) ==> rank(b, p) < rank(b, q)
    decreases q
{ if p < q { rank_mono(b, p, q - 1); if p == q - 1 { } else { } } else { rank_pos(b, p); } }
pub proof fn rank_pos(b: u64, p: int)
    ensures rank(b, p) >= 0
    decreases p
{ if p > 0 { rank_pos(b, p - 1); } }
pub proof fn rank_same(b: u64, c: u64, p: int)
    requires forall|q: int| #![trigger bt(b, q)] 0 <= q < p ==> bt(b, q) == bt(c, q)
    ensures rank(b, p) == rank(c, p)
    decreases p
{ if p > 0 { rank_same(b, c, p - 1); assert(bt(b, p - 1) == bt(c, p - 1)); } }
// bit p comes in
pub proof fn rank_add(b: u64, c: u64, p: int, q: int)
    requires 0 <= p < 64, !bt(b, p), bt(c, p), forall|r: int| #![trigger bt(c, r)] 0 <= r < 64 && r != p ==> bt(b, r) == bt(c, r), 0 <= q <= 64
    ensures rank(c, q) == rank(b, q) + if q > p { 1int } else { 0 }
    decreases q
{ if q > 0 { rank_add(b, c, p, q - 1); assert(q - 1 != p ==> bt(b, q - 1) == bt(c, q - 1)); } }
// the position of the i-th set bit
pub open spec fn sel(b: u64, i: int, p: int) -> int
    decreases p
{ if p <= 0 { 0 } else if bt(b, p - 1) && rank(b, p - 1) == i { p - 1 } else { sel(b, i, p - 1) } }
pub proof fn sel_is(b: u64, i: int, p: int)
    requires 0 <= i < rank(b, p), 0 <= p
    ensures 0 <= sel(b, i, p) < p, bt(b, sel(b, i, p)), rank(b, sel(b, i, p)) == i
    decreases p
{ if p > 0 { if bt(b, p - 1) && rank(b, p - 1) == i { } else { sel_is(b, i, p - 1); } } }
pub open spec fn nth(b: u64, i: int) -> int { sel(b, i, 64) }
pub proof fn nth_rank(b: u64, p: int)
    requires 0 <= p < 64, bt(b, p)
    ensures nth(b, rank(b, p)) == p, 0 <= rank(b, p) < popcount(b)
{
    rank_mono(b, p, 64);
    sel_is(b, rank(b, p), 64);
    let q = nth(b, rank(b, p));
    if q < p { rank_mono(b, q, p); }
    if p < q { rank_mono(b, p, q); }
}
pub proof fn pos_ok(x: u64, d: int)
    requires 0 <= d
    ensures ps(x, d) < 64
{ let s = (d * 6) as u64; assert((((x >> s) & 63) as u8) < 64u8) by (bit_vector); }
// the tests and updates of the bitmap
pub proof fn bits_of(b: u64, p: u8)
    requires p < 64
    ensures (bp(p) & b == 0) == !bt(b, p as int), bp(p) > 0, forall|q: int| #![trigger bt(b | bp(p), q)] 0 <= q < 64 ==> bt(b | bp(p), q) == (q == p || bt(b, q)),
        forall|q: int| #![trigger bt(b & !bp(p), q)] 0 <= q < 64 ==> bt(b & !bp(p), q) == (q != p && bt(b, q)),
{
    let x = p as u64;
    assert(((1u64 << x) & b == 0) == ((b >> x) & 1 != 1)) by (bit_vector) requires x < 64;
    assert((1u64 << x) > 0) by (bit_vector) requires x < 64;
    assert forall|q: int| #![trigger bt(b | bp(p), q)] 0 <= q < 64 implies bt(b | bp(p), q) == (q == p || bt(b, q)) by {
        let y = q as u64;
        assert((((b | (1u64 << x)) >> y) & 1 == 1) == (y == x || (b >> y) & 1 == 1)) by (bit_vector) requires x < 64, y < 64;
    }
    assert forall|q: int| #![trigger bt(b & !bp(p), q)] 0 <= q < 64 implies bt(b & !bp(p), q) == (q != p && bt(b, q)) by {
        let y = q as u64;
        assert((((b & !(1u64 << x)) >> y) & 1 == 1) == (y != x && (b >> y) & 1 == 1)) by (bit_vector) requires x < 64, y < 64;
    }
}
pub proof fn count_below(b: u64, p: u8)
    requires p < 64
    ensures popcount(((bp(p) - 1) as u64) & b) == rank(b, p as int)
{
    let x = p as u64;
    let m = ((bp(p) - 1) as u64) & b;
    bits_of(b, p);
    assert forall|q: int| #![trigger bt(m, q)] 0 <= q < 64 implies bt(m, q) == (q < p && bt(b, q)) by {
        let y = q as u64;
        assert((((((1u64 << x) - 1) as u64) & b) >> y) & 1 == (if y < x { (b >> y) & 1 } else { 0 })) by (bit_vector) requires x < 64, y < 64;
    }
    below(m, b, p as int, 64);
}
pub proof fn below(m: u64, b: u64, p: int, q: int)
    requires 0 <= p <= 64, 0 <= q <= 64, forall|r: int| #![trigger bt(m, r)] 0 <= r < 64 ==> bt(m, r) == (r < p && bt(b, r))
    ensures rank(m, q) == rank(b, if q < p { q } else { p })
    decreases q
{ if q > 0 { below(m, b, p, q - 1); assert(bt(m, q - 1) == (q - 1 < p && bt(b, q - 1))); } }
pub proof fn no_bits(p: int)
    requires 0 <= p <= 64
    ensures rank(0, p) == 0, p < 64 ==> !bt(0, p)
    decreases p
{ let y = p as u64; assert((0u64 >> y) & 1 == 0) by (bit_vector) requires y <= 64; if p > 0 { no_bits(p - 1); } }
// where the children go when position p comes in, or goes out
pub proof fn shift_in(b: u64, p: u8, j: int)
    requires p < 64, !bt(b, p as int), 0 <= j < popcount(b)
    ensures ({ let q = nth(b, j); let c = b | bp(p); 0 <= q < 64 && q != p && rank(c, q) == (if j >= rank(b, p as int) { j + 1 } else { j }) && rank(c, q) < popcount(c) && rank(c, q) != rank(b, p as int) })
{
    let c = b | bp(p); let q = nth(b, j); let r = p as int;
    sel_is(b, j, 64);
    bits_of(b, p);
    rank_add(b, c, r, q);
    rank_add(b, c, r, 64);
    nth_rank(c, q);
    if q < r { rank_mono(b, q, r); } else { rank_mono(b, r, q); }
}
pub proof fn shift_out(b: u64, p: u8, j: int)
    requires p < 64, bt(b, p as int), 0 <= j < popcount(b)
    ensures ({ let q = nth(b, j); let c = b & !bp(p); 0 <= q < 64 && (q == p) == (j == rank(b, p as int)) && (q != p ==> rank(c, q) == (if j > rank(b, p as int) { j - 1 } else { j }) && 0 <= rank(c, q) < popcount(c)) && popcount(c) == popcount(b) - 1 })
{
    let c = b & !bp(p); let q = nth(b, j); let r = p as int;
    sel_is(b, j, 64);
    bits_of(b, p);
    nth_rank(b, r);
    rank_add(c, b, r, q);
    rank_add(c, b, r, 64);
    if q != r { nth_rank(c, q); if q < r { rank_mono(b, q, r); } else { rank_mono(b, r, q); } }
}
// hashes that agree everywhere are equal
pub open spec fn agree(x: u64, y: u64, d: int) -> bool { forall|e: int| #![trigger ps(x, e)] #![trigger ps(y, e)] 0 <= e < d ==> ps(x, e) == ps(y, e) }
pub proof fn agree_all(x: u64, y: u64, d: int)
    requires agree(x, y, d), d >= 11
    ensures x == y
{
    assert(ps(x, 0) == ps(y, 0)); assert(ps(x, 1) == ps(y, 1)); assert(ps(x, 2) == ps(y, 2)); assert(ps(x, 3) == ps(y, 3)); assert(ps(x, 4) == ps(y, 4)); assert(ps(x, 5) == ps(y, 5));
    assert(ps(x, 6) == ps(y, 6)); assert(ps(x, 7) == ps(y, 7)); assert(ps(x, 8) == ps(y, 8)); assert(ps(x, 9) == ps(y, 9)); assert(ps(x, 10) == ps(y, 10));
    assert(x == y) by (bit_vector) requires
        ((x >> 0) & 63) as u8 == ((y >> 0) & 63) as u8, ((x >> 6) & 63) as u8 == ((y >> 6) & 63) as u8, ((x >> 12) & 63) as u8 == ((y >> 12) & 63) as u8,
        ((x >> 18) & 63) as u8 == ((y >> 18) & 63) as u8, ((x >> 24) & 63) as u8 == ((y >> 24) & 63) as u8, ((x >> 30) & 63) as u8 == ((y >> 30) & 63) as u8,
        ((x >> 36) & 63) as u8 == ((y >> 36) & 63) as u8, ((x >> 42) & 63) as u8 == ((y >> 42) & 63) as u8, ((x >> 48) & 63) as u8 == ((y >> 48) & 63) as u8,
        ((x >> 54) & 63) as u8 == ((y >> 54) & 63) as u8, ((x >> 60) & 63) as u8 == ((y >> 60) & 63) as u8;
}
pub proof fn pos_is(x: u64, d: int)
    requires 0 <= d <= 10
    ensures ps(x, d) == (((((x >> ((d * 6) as u64)) & 63u64) & 0xffu64)) as u8), ps(x, d) < 64
{ let t = (d * 6) as u64; assert((((((x >> t) & 63u64) & 0xffu64)) as u8) == (((x >> t) & 63u64) as u8)) by (bit_vector); pos_ok(x, d); }
pub proof fn bp_inj(p: u8, q: u8)
    requires p < 64, q < 64, bp(p) == bp(q)
    ensures p == q
{ let x = p as u64; let y = q as u64; assert(1u64 << x == 1u64 << y ==> x == y) by (bit_vector) requires x < 64, y < 64; }
// the hash of a byte string: any function
pub uninterp spec fn hf(k: Seq<u8>) -> u64;
pub open spec fn at(A: IMap<int, IMap<int, int>>, s: Slice, i: int) -> int { A[s.a][s.off + i] }
// ---------- the tree: own[n] is the trie of a node, dep its depth, pre a hash on the way to it, par its parent, kid[n][p] its entry at position p ----------
pub struct G { pub top: int, pub own: IMap<int, int>, pub dep: IMap<int, int>, pub pre: IMap<int, u64>, pub par: IMap<int, int>, pub kid: IMap<int, IMap<int, int>>, pub pos: IMap<int, u8>, pub kown: IMap<int, int>, pub hash: IMap<int, u64>, pub list: IMap<int, int> }
#[verifier::inline]
pub open spec fn gv(h: Heap) -> G { G { top: h.top, own: h.BitmapNode_own, dep: h.BitmapNode_dep, pre: h.BitmapNode_pre, par: h.BitmapNode_par, kid: h.BitmapNode_kid, pos: h.BitmapNode_pos, kown: h.KvNode_own, hash: h.KvNode_hash, list: h.KvNode_kvList } }
pub open spec fn kvn(e: int) -> bool { dyn_of(e) == dyn_KvNode() }
pub open spec fn cls(g: G, n: int, p: int, x: u64) -> bool { agree(x, g.pre[n], g.dep[n]) && ps(x, g.dep[n]) == p }
pub open spec fn inner(e: int) -> bool { e != 0 && !kvn(e) }
pub open spec fn slot(g: G, L: IMap<u64, Seq<int>>, l: int, n: int, p: int) -> bool {
    let e = g.kid[n][p];
    if e == 0 { forall|x: u64| #![trigger L[x]] cls(g, n, p, x) ==> L[x].len() == 0 }
    else if kvn(e) { 0 < e < g.top && g.kown[e] == l && cls(g, n, p, g.hash[e]) && L[g.hash[e]].len() > 0 && g.list[e] == L[g.hash[e]][0] && forall|x: u64| #![trigger L[x]] cls(g, n, p, x) && x != g.hash[e] ==> L[x].len() == 0 }
    else { 0 < e < g.top && dyn_of(e) == dyn_BitmapNode() && g.own[e] == l && g.par[e] == n && g.dep[e] == g.dep[n] + 1 && agree(g.pre[e], g.pre[n], g.dep[n]) && ps(g.pre[e], g.dep[n]) == p && g.pos[e] == p }
}
pub open spec fn gnode(g: G, L: IMap<u64, Seq<int>>, l: int, n: int) -> bool {
    &&& 0 < n < g.top && 0 <= g.dep[n] <= 10
    &&& if n == l { g.dep[n] == 0 && dyn_of(n) == dyn_Hamt() } else {
            let m = g.par[n];
            dyn_of(n) == dyn_BitmapNode() && g.own[m] == l && g.dep[m] == g.dep[n] - 1 && agree(g.pre[n], g.pre[m], g.dep[m]) && g.kid[m][ps(g.pre[n], g.dep[m]) as int] == n
        }
    &&& forall|p: int| #![trigger g.kid[n][p]] 0 <= p < 64 ==> slot(g, L, l, n, p)
}
#[verifier::opaque]
pub open spec fn shape(g: G, L: IMap<u64, Seq<int>>, l: int) -> bool { g.own[l] == l && forall|n: int| #![trigger g.own[n]] g.own[n] == l ==> gnode(g, L, l, n) }
pub proof fn node_is(g: G, L: IMap<u64, Seq<int>>, l: int, n: int)
    requires shape(g, L, l), g.own[n] == l
    ensures gnode(g, L, l, n), g.own[l] == l, 0 < l < g.top
{ reveal(shape); assert(g.own[l] == l); }
pub proof fn slot_is(g: G, L: IMap<u64, Seq<int>>, l: int, n: int, p: int)
    requires shape(g, L, l), g.own[n] == l, 0 <= p < 64
    ensures slot(g, L, l, n, p)
{ reveal(shape); let e = g.kid[n][p]; }
pub proof fn agree_tr(x: u64, y: u64, z: u64, d: int)
    requires agree(x, y, d), agree(y, z, d)
    ensures agree(x, z, d)
{ assert forall|e: int| #![trigger ps(x, e)] #![trigger ps(z, e)] 0 <= e < d implies ps(x, e) == ps(z, e) by { assert(ps(x, e) == ps(y, e)); assert(ps(y, e) == ps(z, e)); } }
pub proof fn agree_sym(x: u64, y: u64, d: int)
    requires agree(x, y, d)
    ensures agree(y, x, d)
{ }
pub proof fn agree_less(x: u64, y: u64, d: int, c: int)
    requires agree(x, y, d), c <= d
    ensures agree(x, y, c)
{ }
pub proof fn agree_more(x: u64, y: u64, d: int)
    requires agree(x, y, d), ps(x, d) == ps(y, d)
    ensures agree(x, y, d + 1)
{ }
// one node for a depth and a prefix
pub proof fn same_node(g: G, L: IMap<u64, Seq<int>>, l: int, n: int, m: int)
    requires shape(g, L, l), g.own[n] == l, g.own[m] == l, g.dep[n] == g.dep[m], agree(g.pre[n], g.pre[m], g.dep[n])
    ensures n == m
    decreases g.dep[n]
{
    node_is(g, L, l, n);
    node_is(g, L, l, m);
    if g.dep[n] == 0 {
        if n != l { node_is(g, L, l, g.par[n]); }
        if m != l { node_is(g, L, l, g.par[m]); }
    } else {
        let a = g.par[n]; let b = g.par[m]; let d = g.dep[n] - 1;
        node_is(g, L, l, a);
        node_is(g, L, l, b);
        agree_less(g.pre[n], g.pre[m], d + 1, d);
        agree_tr(g.pre[a], g.pre[n], g.pre[m], d);
        agree_tr(g.pre[a], g.pre[m], g.pre[b], d);
        same_node(g, L, l, a, b);
        assert(ps(g.pre[n], d) == ps(g.pre[m], d));
    }
}
// the way to a deeper node
pub proof fn deeper(g: G, L: IMap<u64, Seq<int>>, l: int, n: int, m: int)
    requires shape(g, L, l), g.own[n] == l, g.own[m] == l, g.dep[m] > g.dep[n], agree(g.pre[m], g.pre[n], g.dep[n])
    ensures inner(g.kid[n][ps(g.pre[m], g.dep[n]) as int])
    decreases g.dep[m]
{
    node_is(g, L, l, n);
    node_is(g, L, l, m);
    let a = g.par[m]; let d = g.dep[n];
    node_is(g, L, l, a);
    agree_less(g.pre[m], g.pre[a], g.dep[a], d);
    agree_tr(g.pre[a], g.pre[m], g.pre[n], d);
    if g.dep[a] == d {
        same_node(g, L, l, a, n);
    } else {
        deeper(g, L, l, n, a);
        assert(ps(g.pre[a], d) == ps(g.pre[m], d));
    }
}
// one place for a hash
pub proof fn one_place(g: G, L: IMap<u64, Seq<int>>, l: int, n: int, m: int, x: u64)
    requires shape(g, L, l), g.own[n] == l, g.own[m] == l, agree(x, g.pre[n], g.dep[n]), agree(x, g.pre[m], g.dep[m]), !inner(g.kid[n][ps(x, g.dep[n]) as int]), !inner(g.kid[m][ps(x, g.dep[m]) as int])
    ensures n == m
{
    let d = g.dep[n]; let e = g.dep[m];
    node_is(g, L, l, n);
    node_is(g, L, l, m);
    if d == e {
        agree_tr(g.pre[n], x, g.pre[m], d);
        same_node(g, L, l, n, m);
    } else if d < e {
        agree_less(x, g.pre[m], e, d);
        agree_tr(g.pre[m], x, g.pre[n], d);
        assert(ps(x, d) == ps(g.pre[m], d));
        deeper(g, L, l, n, m);
    } else {
        agree_less(x, g.pre[n], d, e);
        agree_tr(g.pre[n], x, g.pre[m], e);
        assert(ps(x, e) == ps(g.pre[n], e));
        deeper(g, L, l, m, n);
    }
}
// the list of hash x changes, and with it the entry of node n on its way
pub proof fn new_list(g0: G, L0: IMap<u64, Seq<int>>, g: G, L: IMap<u64, Seq<int>>, l: int, n: int, x: u64, c: int)
    requires shape(g0, L0, l), g0.own[n] == l, agree(x, g0.pre[n], g0.dep[n]), !inner(g0.kid[n][ps(x, g0.dep[n]) as int]),
        g0.top <= g.top, g.own == g0.own, g.dep == g0.dep, g.pre == g0.pre, g.par == g0.par, g.pos == g0.pos, forall|m: int, q: int| #![trigger g.kid[m][q]] g.kid[m][q] == (if m == n && q == ps(x, g0.dep[n]) { c } else { g0.kid[m][q] }), !inner(c),
        forall|e: int| #![trigger g.kown[e]] #![trigger g.hash[e]] #![trigger g.list[e]] 0 < e < g0.top && e != c ==> g.kown[e] == g0.kown[e] && g.hash[e] == g0.hash[e] && g.list[e] == g0.list[e],
        c == 0 || c >= g0.top || c == g0.kid[n][ps(x, g0.dep[n]) as int] && g.hash[c] == g0.hash[c],
        forall|y: u64| #![trigger L[y]] y != x ==> L[y] == L0[y],
        slot(g, L, l, n, ps(x, g0.dep[n]) as int),
    ensures shape(g, L, l)
{
    let p = ps(x, g0.dep[n]) as int;
    node_is(g0, L0, l, n);
    pos_ok(x, g0.dep[n]);
    slot_is(g0, L0, l, n, p);
    assert forall|m: int| #![trigger g.own[m]] g.own[m] == l implies gnode(g, L, l, m) by {
        node_is(g0, L0, l, m);
        if m != l {
            node_is(g0, L0, l, g0.par[m]);
            let k = ps(g.pre[m], g.dep[g.par[m]]) as int;
            pos_ok(g.pre[m], g.dep[g.par[m]]);
            slot_is(g0, L0, l, g0.par[m], k);
            assert(g0.par[m] == n && k == p ==> inner(g0.kid[n][p]));
        }
        assert forall|q: int| #![trigger g.kid[m][q]] 0 <= q < 64 implies slot(g, L, l, m, q) by {
            if m != n || q != p {
                slot_is(g0, L0, l, m, q);
                let e = g0.kid[m][q];
                if !inner(e) && cls(g0, m, q, x) { one_place(g0, L0, l, n, m, x); assert(false); }
                if kvn(e) && e == c && e != 0 {
                    // one entry in two places
                    one_place(g0, L0, l, n, m, g0.hash[e]);
                    assert(false);
                }
                assert forall|y: u64| #![trigger L[y]] cls(g, m, q, y) && !inner(e) && (e == 0 || y != g0.hash[e]) implies L[y].len() == 0 by { assert(cls(g0, m, q, y)); let z = L0[y]; }
            }
        }
    }
    assert(shape(g, L, l)) by { reveal(shape); }
}
// node b, empty, takes the place of leaf c below node n
pub proof fn new_node(g0: G, L0: IMap<u64, Seq<int>>, g: G, L: IMap<u64, Seq<int>>, l: int, n: int, x: u64, b: int)
    requires shape(g0, L0, l), g0.own[n] == l, agree(x, g0.pre[n], g0.dep[n]), ({ let c = g0.kid[n][ps(x, g0.dep[n]) as int]; c != 0 && kvn(c) && x != g0.hash[c] && L == L0.insert(g0.hash[c], Seq::empty()) }),
        b >= g0.top, b < g.top, dyn_of(b) == dyn_BitmapNode(),
        forall|m: int| #![trigger g.own[m]] g.own[m] == if m == b { l } else { g0.own[m] }, forall|m: int| #![trigger g.dep[m]] g.dep[m] == if m == b { g0.dep[n] + 1 } else { g0.dep[m] },
        forall|m: int| #![trigger g.pre[m]] g.pre[m] == if m == b { x } else { g0.pre[m] }, forall|m: int| #![trigger g.par[m]] g.par[m] == if m == b { n } else { g0.par[m] },
        forall|m: int| #![trigger g.pos[m]] g.pos[m] == if m == b { ps(x, g0.dep[n]) } else { g0.pos[m] },
        forall|q: int| #![trigger g.kid[b][q]] g.kid[b][q] == 0, forall|m: int| #![trigger g.kid[m]] m != b ==> g.kid[m] == (if m == n { g0.kid[n].insert(ps(x, g0.dep[n]) as int, b) } else { g0.kid[m] }),
        g.kown == g0.kown, g.hash == g0.hash, g.list == g0.list,
    ensures shape(g, L, l), agree(x, g.pre[b], g.dep[b]), ({ let c = g0.kid[n][ps(x, g0.dep[n]) as int]; agree(g0.hash[c], g.pre[b], g.dep[b]) && L0[g0.hash[c]].len() > 0 && L0[x].len() == 0 && g.list[c] == L0[g0.hash[c]][0] }), g.dep[b] <= 10
{
    let d = g0.dep[n];
    let p = ps(x, d) as int;
    let c = g0.kid[n][p];
    let y = g0.hash[c];
    node_is(g0, L0, l, n);
    pos_ok(x, d);
    slot_is(g0, L0, l, n, p);
    agree_tr(y, g0.pre[n], x, d);
    agree_more(y, x, d);
    if d + 1 >= 11 { agree_all(y, x, d + 1); }
    let z = L0[x];
    assert(cls(g0, n, p, x));
    assert forall|m: int| #![trigger g.own[m]] g.own[m] == l implies gnode(g, L, l, m) by {
        if m == b {
            assert forall|q: int| #![trigger g.kid[b][q]] 0 <= q < 64 implies slot(g, L, l, b, q) by {
                assert forall|w: u64| #![trigger L[w]] cls(g, b, q, w) implies L[w].len() == 0 by {
                    agree_less(w, x, d + 1, d);
                    agree_tr(w, x, g0.pre[n], d);
                    assert(ps(w, d) == ps(x, d));
                    assert(cls(g0, n, p, w));
                    let z = L0[w];
                }
            }
            assert(g.kid[n] == g0.kid[n].insert(p, b));
        } else {
            node_is(g0, L0, l, m);
            assert(g.kid[m] == (if m == n { g0.kid[n].insert(p, b) } else { g0.kid[m] }));
            if m != l {
                let a = g0.par[m];
                node_is(g0, L0, l, a);
                let k = ps(g.pre[m], g.dep[a]) as int;
                pos_ok(g.pre[m], g.dep[a]);
                slot_is(g0, L0, l, a, k);
                assert(g.kid[a] == (if a == n { g0.kid[n].insert(p, b) } else { g0.kid[a] }));
            }
            assert forall|q: int| #![trigger g.kid[m][q]] 0 <= q < 64 implies slot(g, L, l, m, q) by {
                if m != n || q != p {
                    slot_is(g0, L0, l, m, q);
                    let e = g0.kid[m][q];
                    if !inner(e) && e != 0 && g0.hash[e] == y { one_place(g0, L0, l, n, m, y); assert(false); }
                    assert forall|w: u64| #![trigger L[w]] cls(g, m, q, w) && !inner(e) && (e == 0 || w != g0.hash[e]) implies L[w].len() == 0 by { assert(cls(g0, m, q, w)); let z = L0[w]; }
                }
            }
        }
    }
    assert(shape(g, L, l)) by { reveal(shape); assert(g0.own[l] == l); }
}
// leaf c, the only entry of node b, takes its place below node n
pub proof fn collapse(g0: G, L: IMap<u64, Seq<int>>, g: G, l: int, n: int, b: int, c: int, r: int)
    requires shape(g0, L, l), g0.own[n] == l, g0.own[b] == l, b != l, g0.par[b] == n, 0 <= r < 64, c == g0.kid[b][r], c != 0, kvn(c), forall|q: int| #![trigger g0.kid[b][q]] 0 <= q < 64 && q != r ==> g0.kid[b][q] == 0,
        g == (G { own: g0.own.insert(b, 0), kid: g0.kid.insert(n, g0.kid[n].insert(ps(g0.pre[b], g0.dep[n]) as int, c)), ..g0 })
    ensures shape(g, L, l)
{
    let d = g0.dep[n];
    let p = ps(g0.pre[b], d) as int;
    node_is(g0, L, l, n);
    node_is(g0, L, l, b);
    pos_ok(g0.pre[b], d);
    slot_is(g0, L, l, n, p);
    slot_is(g0, L, l, b, r);
    let x = g0.hash[c];
    agree_less(x, g0.pre[b], d + 1, d);
    agree_tr(x, g0.pre[b], g0.pre[n], d);
    assert(ps(x, d) == ps(g0.pre[b], d));
    assert forall|m: int| #![trigger g.own[m]] g.own[m] == l implies gnode(g, L, l, m) by {
        node_is(g0, L, l, m);
        if m != l {
            let a = g0.par[m];
            node_is(g0, L, l, a);
            let k = ps(g.pre[m], g.dep[a]) as int;
            pos_ok(g.pre[m], g.dep[a]);
            slot_is(g0, L, l, a, k);
            assert(a != b) by { if a == b { let z = g0.kid[b][k]; } }
        }
        assert forall|q: int| #![trigger g.kid[m][q]] 0 <= q < 64 implies slot(g, L, l, m, q) by {
            slot_is(g0, L, l, m, q);
            if m == n && q == p {
                assert forall|w: u64| #![trigger L[w]] cls(g, n, p, w) && w != x implies L[w].len() == 0 by {
                    let t = ps(w, d + 1) as int;
                    pos_ok(w, d + 1);
                    agree_tr(w, g0.pre[n], g0.pre[b], d);
                    agree_more(w, g0.pre[b], d);
                    slot_is(g0, L, l, b, t);
                    assert(cls(g0, b, t, w));
                    let z = g0.kid[b][t];
                }
            } else {
                let e = g0.kid[m][q];
                if e == b { assert(false); }
                assert forall|w: u64| #![trigger L[w]] cls(g, m, q, w) implies cls(g0, m, q, w) by {}
            }
        }
    }
    assert(shape(g, L, l)) by { reveal(shape); assert(g0.own[l] == l); }
}
// ---------- the nodes in memory ----------
pub open spec fn cpl(top: int, kid: IMap<int, IMap<int, int>>, B: IMap<int, u64>, C: IMap<int, Slice>, A: IMap<int, IMap<int, int>>, Ao: IMap<int, int>, n: int) -> bool {
    &&& slice_ok(C[n], top) && C[n].len == popcount(B[n]) && (C[n].len > 0 ==> Ao[C[n].a] == n)
    &&& forall|p: int| #![trigger bt(B[n], p)] #![trigger kid[n][p]] 0 <= p < 64 ==> bt(B[n], p) == (kid[n][p] != 0) && (bt(B[n], p) ==> at(A, C[n], rank(B[n], p)) == kid[n][p])
}
#[verifier::opaque]
pub open spec fn coup(top: int, own: IMap<int, int>, dep: IMap<int, int>, kid: IMap<int, IMap<int, int>>, B: IMap<int, u64>, C: IMap<int, Slice>, A: IMap<int, IMap<int, int>>, Ao: IMap<int, int>, l: int, d: int) -> bool {
    forall|n: int| #![trigger own[n]] own[n] == l && dep[n] >= d ==> cpl(top, kid, B, C, A, Ao, n)
}
#[verifier::inline]
pub open spec fn n_cpl(h: Heap, n: int) -> bool { cpl(h.top, h.BitmapNode_kid, h.BitmapNode_bitmap, h.BitmapNode_children, h.arr_int, h.A_own, n) }
#[verifier::inline]
pub open spec fn h_coup(h: Heap, l: int, d: int) -> bool { coup(h.top, h.BitmapNode_own, h.BitmapNode_dep, h.BitmapNode_kid, h.BitmapNode_bitmap, h.BitmapNode_children, h.arr_int, h.A_own, l, d) }
#[verifier::inline]
pub open spec fn h_shape(h: Heap, l: int) -> bool { shape(gv(h), h.Hamt_L[l], l) }
// ---------- lists of pairs ----------
pub open spec fn kb(A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, q: int) -> Seq<u8> { view(A, K[q]) }
pub open spec fn plist(top: int, own: IMap<int, int>, A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, N: IMap<int, int>, l: int, S: Seq<int>, x: u64) -> bool {
    &&& forall|i: int| #![trigger S[i]] 0 <= i < S.len() ==> 0 < S[i] < top && own[S[i]] == l && hf(kb(A, K, S[i])) == x
    &&& forall|i: int| #![trigger N[S[i]]] 0 <= i < S.len() ==> N[S[i]] == (if i + 1 < S.len() { S[i + 1] } else { 0 })
    &&& forall|i: int, j: int| #![trigger S[i], S[j]] 0 <= i < j < S.len() ==> kb(A, K, S[i]) != kb(A, K, S[j])
}
#[verifier::opaque]
pub open spec fn plists(top: int, own: IMap<int, int>, A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, N: IMap<int, int>, l: int, L: IMap<u64, Seq<int>>) -> bool {
    forall|x: u64| #![trigger L[x]] plist(top, own, A, K, N, l, L[x], x)
}
#[verifier::inline]
pub open spec fn h_list(h: Heap, l: int, S: Seq<int>, x: u64) -> bool { plist(h.top, h.KvPair_own, h.arr_u8, h.KvPair_key, h.KvPair_next, l, S, x) }
#[verifier::inline]
pub open spec fn h_lists(h: Heap, l: int) -> bool { plists(h.top, h.KvPair_own, h.arr_u8, h.KvPair_key, h.KvPair_next, l, h.Hamt_L[l]) }
pub proof fn list_is(h: Heap, l: int, x: u64)
    requires h_lists(h, l)
    ensures h_list(h, l, h.Hamt_L[l][x], x)
{ reveal(plists); }
// the place of a key in a list
pub open spec fn fi(A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, S: Seq<int>, k: Seq<u8>, i: int) -> int
    decreases S.len() - i
{ if i >= S.len() { S.len() as int } else if kb(A, K, S[i]) == k { i } else { fi(A, K, S, k, i + 1) } }
#[verifier::inline]
pub open spec fn h_fi(h: Heap, S: Seq<int>, k: Seq<u8>) -> int { fi(h.arr_u8, h.KvPair_key, S, k, 0) }
pub proof fn fi_is(A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, S: Seq<int>, k: Seq<u8>, i: int)
    requires 0 <= i <= S.len()
    ensures i <= fi(A, K, S, k, i) <= S.len(), fi(A, K, S, k, i) < S.len() ==> kb(A, K, S[fi(A, K, S, k, i)]) == k, forall|j: int| #![trigger S[j]] i <= j < fi(A, K, S, k, i) ==> kb(A, K, S[j]) != k
    decreases S.len() - i
{ if i < S.len() && kb(A, K, S[i]) != k { fi_is(A, K, S, k, i + 1); } }
pub proof fn fi_eq(A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, S: Seq<int>, k: Seq<u8>, i: int)
    requires 0 <= i <= S.len(), i < S.len() ==> kb(A, K, S[i]) == k, forall|j: int| #![trigger S[j]] 0 <= j < i ==> kb(A, K, S[j]) != k
    ensures fi(A, K, S, k, 0) == i
{ fi_is(A, K, S, k, 0); let f = fi(A, K, S, k, 0); if f < i { let z = S[f]; } if i < f { let z = S[i]; } }
// ---------- a trie, complete below depth d ----------
pub open spec fn tree(h: Heap, l: int, d: int) -> bool { h_shape(h, l) && h_coup(h, l, d) && h_lists(h, l) }
// only nodes of trie l at depth d or more changed
#[verifier::inline]
pub open spec fn f_node(h0: Heap, h: Heap, n: int) -> bool {
    h.BitmapNode_own[n] == h0.BitmapNode_own[n] && h.BitmapNode_dep[n] == h0.BitmapNode_dep[n] && h.BitmapNode_pre[n] == h0.BitmapNode_pre[n] && h.BitmapNode_par[n] == h0.BitmapNode_par[n] && h.BitmapNode_kid[n] == h0.BitmapNode_kid[n]
    && h.BitmapNode_pos[n] == h0.BitmapNode_pos[n] && h.BitmapNode_bitmap[n] == h0.BitmapNode_bitmap[n] && h.BitmapNode_children[n] == h0.BitmapNode_children[n]
}
#[verifier::opaque]
pub open spec fn foot(h0: Heap, h: Heap, l: int, d: int) -> bool {
    &&& h0.top <= h.top
    &&& forall|n: int| #![trigger h.BitmapNode_own[n]] #![trigger h.BitmapNode_dep[n]] #![trigger h.BitmapNode_bitmap[n]] #![trigger h.BitmapNode_children[n]] #![trigger h.BitmapNode_kid[n]] 0 < n < h0.top && (h0.BitmapNode_own[n] != l || h0.BitmapNode_dep[n] < d) ==> f_node(h0, h, n)
    &&& forall|n: int| #![trigger h.BitmapNode_own[n]] h.BitmapNode_own[n] == l && h.BitmapNode_dep[n] < d ==> h0.BitmapNode_own[n] == l && h0.BitmapNode_dep[n] == h.BitmapNode_dep[n]
    &&& forall|n: int| #![trigger h.BitmapNode_own[n]] h.BitmapNode_own[n] == h0.BitmapNode_own[n] || h0.BitmapNode_own[n] == l && h.BitmapNode_own[n] == 0 || n >= h0.top && (h.BitmapNode_own[n] == l || h.BitmapNode_own[n] == 0)
    &&& forall|e: int| #![trigger h.KvNode_own[e]] #![trigger h.KvNode_hash[e]] #![trigger h.KvNode_kvList[e]] 0 < e < h0.top ==> h.KvNode_own[e] == h0.KvNode_own[e] && h.KvNode_hash[e] == h0.KvNode_hash[e] && (h0.KvNode_own[e] != l ==> h.KvNode_kvList[e] == h0.KvNode_kvList[e])
    &&& forall|a: int| #![trigger h.A_own[a]] #![trigger h.arr_int[a]] 0 < a < h0.top ==> h.A_own[a] == h0.A_own[a] && (0 < h0.A_own[a] < h0.top && (h0.BitmapNode_own[h0.A_own[a]] != l || h0.BitmapNode_dep[h0.A_own[a]] < d) ==> h.arr_int[a] == h0.arr_int[a])
    &&& forall|q: int| #![trigger h.KvPair_next[q]] #![trigger h.KvPair_value[q]] #![trigger h.KvPair_own[q]] #![trigger h.KvPair_key[q]] 0 < q < h0.top ==> h.KvPair_own[q] == h0.KvPair_own[q] && h.KvPair_key[q] == h0.KvPair_key[q] && (h0.KvPair_own[q] != l ==> h.KvPair_next[q] == h0.KvPair_next[q] && h.KvPair_value[q] == h0.KvPair_value[q])
    &&& forall|m: int| #![trigger h.Hamt_L[m]] 0 < m < h0.top && m != l ==> h.Hamt_L[m] == h0.Hamt_L[m]
    &&& h.arr_u8 == h0.arr_u8
}
pub proof fn foot_tr(h0: Heap, h1: Heap, h: Heap, l: int, d: int)
    requires foot(h0, h1, l, d), foot(h1, h, l, d), l > 0
    ensures foot(h0, h, l, d)
{ reveal(foot); }
pub proof fn foot_less(h0: Heap, h: Heap, l: int, d: int)
    requires foot(h0, h, l, d + 1)
    ensures foot(h0, h, l, d)
{ reveal(foot); }
// only trie l changed
#[verifier::opaque]
pub open spec fn foot0(h0: Heap, h: Heap, l: int) -> bool {
    &&& h0.top <= h.top
    &&& forall|n: int| #![trigger h.BitmapNode_own[n]] #![trigger h.BitmapNode_dep[n]] #![trigger h.BitmapNode_bitmap[n]] #![trigger h.BitmapNode_children[n]] #![trigger h.BitmapNode_kid[n]] 0 < n < h0.top && h0.BitmapNode_own[n] != l ==> f_node(h0, h, n)
    &&& forall|n: int| #![trigger h.BitmapNode_own[n]] h.BitmapNode_own[n] == h0.BitmapNode_own[n] || h0.BitmapNode_own[n] == l && h.BitmapNode_own[n] == 0 || n >= h0.top && (h.BitmapNode_own[n] == l || h.BitmapNode_own[n] == 0)
    &&& forall|e: int| #![trigger h.KvNode_own[e]] #![trigger h.KvNode_hash[e]] #![trigger h.KvNode_kvList[e]] 0 < e < h0.top ==> h.KvNode_own[e] == h0.KvNode_own[e] && h.KvNode_hash[e] == h0.KvNode_hash[e] && (h0.KvNode_own[e] != l ==> h.KvNode_kvList[e] == h0.KvNode_kvList[e])
    &&& forall|a: int| #![trigger h.A_own[a]] #![trigger h.arr_int[a]] 0 < a < h0.top ==> h.A_own[a] == h0.A_own[a] && (0 < h0.A_own[a] < h0.top && h0.BitmapNode_own[h0.A_own[a]] != l ==> h.arr_int[a] == h0.arr_int[a])
    &&& forall|q: int| #![trigger h.KvPair_next[q]] #![trigger h.KvPair_value[q]] #![trigger h.KvPair_own[q]] #![trigger h.KvPair_key[q]] 0 < q < h0.top ==> h.KvPair_own[q] == h0.KvPair_own[q] && h.KvPair_key[q] == h0.KvPair_key[q] && (h0.KvPair_own[q] != l ==> h.KvPair_next[q] == h0.KvPair_next[q] && h.KvPair_value[q] == h0.KvPair_value[q])
    &&& forall|m: int| #![trigger h.Hamt_L[m]] 0 < m < h0.top && m != l ==> h.Hamt_L[m] == h0.Hamt_L[m]
    &&& h.arr_u8 == h0.arr_u8
}
pub proof fn foot_is0(h0: Heap, h: Heap, l: int)
    requires foot(h0, h, l, 0)
    ensures foot0(h0, h, l)
{ reveal(foot); reveal(foot0); }
// a whole other trie is kept
pub proof fn kept(h0: Heap, h: Heap, l: int, m: int)
    requires foot0(h0, h, l), m != l, l > 0, tree(h0, m, 0)
    ensures tree(h, m, 0), h.Hamt_L[m] == h0.Hamt_L[m], h.BitmapNode_dep[m] == h0.BitmapNode_dep[m]
{
    assert(h0.BitmapNode_own[m] == m) by { reveal(shape); }
    node_is(gv(h0), h0.Hamt_L[m], m, m);
    reveal(foot0);
    assert(h.Hamt_L[m] == h0.Hamt_L[m]);
    let L = h.Hamt_L[m];
    let g0 = gv(h0); let g = gv(h);
    assert forall|n: int| #![trigger g.own[n]] g.own[n] == m implies gnode(g, L, m, n) && n_cpl(h, n) && g0.own[n] == m by {
        assert(g0.own[n] == m);
        node_is(g0, L, m, n);
        assert(0 < n < h0.top);
        assert(f_node(h0, h, n));
        if n != m { node_is(g0, L, m, g0.par[n]); let z = g.own[g0.par[n]]; assert(f_node(h0, h, g0.par[n])); }
        cpl_is(h0, m, 0, n);
        assert(cpl(h0.top, h0.BitmapNode_kid, h0.BitmapNode_bitmap, h0.BitmapNode_children, h0.arr_int, h0.A_own, n));
        cpl_keep(h0, h, n, n);
        assert forall|p: int| #![trigger g.kid[n][p]] 0 <= p < 64 implies slot(g, L, m, n, p) by {
            slot_is(g0, L, m, n, p);
            let e = g0.kid[n][p];
            let z = g.own[e]; let y = g.kown[e];
            assert forall|x: u64| #![trigger L[x]] cls(g, n, p, x) implies cls(g0, n, p, x) by {}
        }
    }
    reveal(shape); reveal(coup);
    lists_keep(h0, h, m);
}
pub proof fn cpl_is(h: Heap, l: int, d: int, n: int)
    requires h_coup(h, l, d), h.BitmapNode_own[n] == l, h.BitmapNode_dep[n] >= d
    ensures n_cpl(h, n)
{ reveal(coup); }
// node n is as it was
pub proof fn cpl_keep(h0: Heap, h: Heap, n: int, z: int)
    requires n_cpl(h0, n), h0.top <= h.top, h.BitmapNode_kid[n] == h0.BitmapNode_kid[n], h.BitmapNode_bitmap[n] == h0.BitmapNode_bitmap[n], h.BitmapNode_children[n] == h0.BitmapNode_children[n],
        ({ let a = h0.BitmapNode_children[n].a; 0 < a < h0.top && h0.A_own[a] == n ==> h.A_own[a] == n && h.arr_int[a] == h0.arr_int[a] })
    ensures n_cpl(h, n)
{
    assert forall|p: int| #![trigger h0.BitmapNode_kid[n][p]] 0 <= p < 64 && bt(h.BitmapNode_bitmap[n], p) implies at(h.arr_int, h.BitmapNode_children[n], rank(h.BitmapNode_bitmap[n], p)) == h.BitmapNode_kid[n][p] by { nth_rank(h.BitmapNode_bitmap[n], p); }
}
// lists of trie m when only pairs of other tries change
pub proof fn lists_keep(h0: Heap, h: Heap, m: int)
    requires h_lists(h0, m), h0.top <= h.top, h.Hamt_L[m] == h0.Hamt_L[m], h.arr_u8 == h0.arr_u8,
        forall|q: int| #![trigger h.KvPair_next[q]] 0 < q < h0.top && h0.KvPair_own[q] == m ==> h.KvPair_own[q] == m && h.KvPair_key[q] == h0.KvPair_key[q] && h.KvPair_next[q] == h0.KvPair_next[q]
    ensures h_lists(h, m)
{
    let L = h.Hamt_L[m];
    assert forall|x: u64| #![trigger L[x]] h_list(h, m, L[x], x) by {
        list_is(h0, m, x);
        assert forall|i: int| #![trigger L[x][i]] 0 <= i < L[x].len() implies h.KvPair_own[L[x][i]] == m && h.KvPair_next[L[x][i]] == h0.KvPair_next[L[x][i]] && h.KvPair_key[L[x][i]] == h0.KvPair_key[L[x][i]] by { let z = h.KvPair_next[L[x][i]]; }
    }
    reveal(plists);
}
// the levels above
pub proof fn coup_up(h0: Heap, h: Heap, l: int, d: int)
    requires h_shape(h0, l), h_coup(h0, l, d), foot(h0, h, l, d + 1), h_coup(h, l, d + 1)
    ensures h_coup(h, l, d)
{
    reveal(foot);
    assert forall|n: int| #![trigger h.BitmapNode_own[n]] h.BitmapNode_own[n] == l && h.BitmapNode_dep[n] >= d implies n_cpl(h, n) by {
        if h.BitmapNode_dep[n] >= d + 1 { cpl_is(h, l, d + 1, n); } else { node_is(gv(h0), h0.Hamt_L[l], l, n); assert(f_node(h0, h, n)); cpl_is(h0, l, d, n); let a = h0.BitmapNode_children[n].a; let z = h.arr_int[a]; cpl_keep(h0, h, n, n); }
    }
    reveal(coup);
}
pub proof fn coup_less(h: Heap, l: int, d: int)
    requires h_coup(h, l, d)
    ensures h_coup(h, l, d + 1)
{ reveal(coup); }
// node n, only, is new
pub proof fn coup_set(h0: Heap, h: Heap, l: int, n: int, d: int)
    requires h_coup(h0, l, d), h0.top <= h.top, n_cpl(h, n), h.BitmapNode_own[n] == l,
        forall|m: int| #![trigger h.BitmapNode_own[m]] h.BitmapNode_own[m] == l && m != n ==> h0.BitmapNode_own[m] == l && h.BitmapNode_dep[m] == h0.BitmapNode_dep[m] && h.BitmapNode_kid[m] == h0.BitmapNode_kid[m] && h.BitmapNode_bitmap[m] == h0.BitmapNode_bitmap[m] && h.BitmapNode_children[m] == h0.BitmapNode_children[m],
        forall|a: int| #![trigger h.arr_int[a]] #![trigger h.A_own[a]] 0 < a < h0.top && h0.A_own[a] != n ==> h.A_own[a] == h0.A_own[a] && h.arr_int[a] == h0.arr_int[a],
    ensures h_coup(h, l, d)
{
    assert forall|m: int| #![trigger h.BitmapNode_own[m]] h.BitmapNode_own[m] == l && h.BitmapNode_dep[m] >= d implies n_cpl(h, m) by {
        if m != n { cpl_is(h0, l, d, m); let z = h.arr_int[h0.BitmapNode_children[m].a]; cpl_keep(h0, h, m, m); }
    }
    reveal(coup);
}
// ---------- walking down ----------
pub open spec fn at_node(h: Heap, n: int, depth: int, x: u64, d: int) -> bool { tree(h, h.BitmapNode_own[n], d) && h.BitmapNode_dep[n] == depth && agree(x, h.BitmapNode_pre[n], depth) }
pub open spec fn ix(S: Seq<int>, e: int) -> int { if e == 0 { S.len() as int } else { S.index_of(e) } }
pub proof fn look(h: Heap, n: int, depth: int, x: u64, d: int)
    requires at_node(h, n, depth, x, d), d <= depth
    ensures ({
        let l = h.BitmapNode_own[n]; let p = ps(x, depth); let b = h.BitmapNode_bitmap[n]; let c = h.BitmapNode_children[n]; let e = h.BitmapNode_kid[n][p as int];
        &&& p < 64 && 0 < n < h.top && 0 < l < h.top && h.BitmapNode_own[l] == l && 0 <= depth <= 10
        &&& gnode(gv(h), h.Hamt_L[l], l, n) && slot(gv(h), h.Hamt_L[l], l, n, p as int) && n_cpl(h, n) && h_list(h, l, h.Hamt_L[l][x], x)
        &&& (bp(p) & b == 0) == (e == 0)
        &&& (e != 0 ==> 0 <= rank(b, p as int) < c.len && at(h.arr_int, c, rank(b, p as int)) == e)
        &&& (inner(e) ==> at_node(h, e, depth + 1, x, d) && h.BitmapNode_own[e] == l && depth + 1 <= 10 && 0 < e && e < h.top)
        &&& cls(gv(h), n, p as int, x)
    })
{
    let l = h.BitmapNode_own[n]; let p = ps(x, depth); let b = h.BitmapNode_bitmap[n]; let e = h.BitmapNode_kid[n][p as int];
    node_is(gv(h), h.Hamt_L[l], l, n);
    pos_ok(x, depth);
    slot_is(gv(h), h.Hamt_L[l], l, n, p as int);
    cpl_is(h, l, d, n);
    list_is(h, l, x);
    bits_of(b, p);
    if e != 0 { assert(bt(b, p as int)); nth_rank(b, p as int); }
    if inner(e) {
        node_is(gv(h), h.Hamt_L[l], l, e);
        agree_sym(h.BitmapNode_pre[e], h.BitmapNode_pre[n], depth);
        agree_tr(x, h.BitmapNode_pre[n], h.BitmapNode_pre[e], depth);
        agree_more(x, h.BitmapNode_pre[e], depth);
    }
}
pub proof fn ix_is(S: Seq<int>, i: int)
    requires 0 <= i < S.len(), forall|a: int, b: int| #![trigger S[a], S[b]] 0 <= a < b < S.len() ==> S[a] != S[b]
    ensures ix(S, S[i]) == (if S[i] == 0 { S.len() as int } else { i })
{ let j = S.index_of(S[i]); assert(S.contains(S[i])); }
pub proof fn nodup(h: Heap, l: int, S: Seq<int>, x: u64)
    requires h_list(h, l, S, x)
    ensures forall|i: int| #![trigger S[i]] 0 <= i < S.len() ==> ix(S, S[i]) == i && S[i] != 0
{
    assert forall|a: int, b: int| #![trigger S[a], S[b]] 0 <= a < b < S.len() implies S[a] != S[b] by { assert(kb(h.arr_u8, h.KvPair_key, S[a]) != kb(h.arr_u8, h.KvPair_key, S[b])); }
    assert forall|i: int| #![trigger S[i]] 0 <= i < S.len() implies ix(S, S[i]) == i && S[i] != 0 by { ix_is(S, i); }
}
// child number j of node n, whose bitmap was b
pub proof fn child(h: Heap, n: int, depth: int, j: int)
    requires h_shape(h, h.BitmapNode_own[n]), n_cpl(h, n), h.BitmapNode_dep[n] == depth, 0 <= j < h.BitmapNode_children[n].len
    ensures ({
        let b = h.BitmapNode_bitmap[n]; let q = nth(b, j); let e = at(h.arr_int, h.BitmapNode_children[n], j);
        &&& 0 <= q < 64 && bt(b, q) && rank(b, q) == j && h.BitmapNode_kid[n][q] == e && 0 < e < h.top
        &&& if kvn(e) { ps(h.KvNode_hash[e], depth) == q && h.KvNode_own[e] == h.BitmapNode_own[n] } else { dyn_of(e) == dyn_BitmapNode() && h.BitmapNode_pos[e] == q && h.BitmapNode_own[e] == h.BitmapNode_own[n] }
    })
{
    let b = h.BitmapNode_bitmap[n]; let q = nth(b, j); let e = at(h.arr_int, h.BitmapNode_children[n], j);
    sel_is(b, j, 64);
    assert(bt(b, q) == (h.BitmapNode_kid[n][q] != 0));
    node_is(gv(h), h.Hamt_L[h.BitmapNode_own[n]], h.BitmapNode_own[n], n);
    slot_is(gv(h), h.Hamt_L[h.BitmapNode_own[n]], h.BitmapNode_own[n], n, q);
}
// ---------- insert ----------
pub open spec fn pend(h: Heap, l: int, x: u64, kv: int) -> bool {
    let P = h.Pend_s; let S = h.Hamt_L[l][x];
    P.len() > 0 && P[0] == kv && h_list(h, l, P, x) && (S.len() > 0 ==> P.len() == 1) && forall|i: int| #![trigger S[i]] 0 <= i < S.len() ==> S[i] != kv
}
pub open spec fn ins_post(h0: Heap, h: Heap, n: int, depth: int, x: u64, kv: int) -> bool {
    let l = h0.BitmapNode_own[n]; let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let S = L0[x]; let P = h0.Pend_s; let f = h_fi(h0, S, kb(h0.arr_u8, h0.KvPair_key, kv));
    &&& tree(h, l, depth) && foot(h0, h, l, depth)
    &&& h.BitmapNode_own[n] == l && h.BitmapNode_dep[n] == depth && h.BitmapNode_pre[n] == h0.BitmapNode_pre[n] && h.BitmapNode_par[n] == h0.BitmapNode_par[n] && h.BitmapNode_pos[n] == h0.BitmapNode_pos[n]
    &&& forall|y: u64| #![trigger L[y]] L[y] == (if y != x { L0[y] } else if S.len() == 0 { P } else if f < S.len() { S } else { seq![kv] + S })
    &&& h.KvPair_next == (if S.len() > 0 && f >= S.len() { h0.KvPair_next.insert(kv, S[0]) } else { h0.KvPair_next })
    &&& h.KvPair_value == (if S.len() > 0 && f < S.len() { h0.KvPair_value.insert(S[f], h0.KvPair_value[kv]) } else { h0.KvPair_value })
}
#[verifier::inline]
pub open spec fn p_key(h: Heap, kv: int) -> Seq<u8> { kb(h.arr_u8, h.KvPair_key, kv) }
// everything but these stays
pub open spec fn same_nodes(h0: Heap, h: Heap) -> bool { h.BitmapNode_own == h0.BitmapNode_own && h.BitmapNode_dep == h0.BitmapNode_dep && h.BitmapNode_pre == h0.BitmapNode_pre && h.BitmapNode_par == h0.BitmapNode_par && h.BitmapNode_pos == h0.BitmapNode_pos }
pub open spec fn same_pairs(h0: Heap, h: Heap) -> bool { h.KvPair_own == h0.KvPair_own && h.KvPair_key == h0.KvPair_key && h.arr_u8 == h0.arr_u8 && h0.top <= h.top }
// lists: that of x becomes T
pub proof fn lists_set(h0: Heap, h: Heap, l: int, x: u64, T: Seq<int>)
    requires h_lists(h0, l), same_pairs(h0, h), h_list(h, l, T, x),
        forall|y: u64| #![trigger h.Hamt_L[l][y]] h.Hamt_L[l][y] == (if y == x { T } else { h0.Hamt_L[l][y] }),
        forall|q: int| #![trigger h.KvPair_next[q]] hf(p_key(h0, q)) != x ==> h.KvPair_next[q] == h0.KvPair_next[q]
    ensures h_lists(h, l)
{
    let L = h.Hamt_L[l]; let L0 = h0.Hamt_L[l];
    assert forall|y: u64| #![trigger L[y]] h_list(h, l, L[y], y) by {
        if y != x {
            list_is(h0, l, y);
            assert(L[y] == L0[y]);
            assert forall|i: int| #![trigger h.KvPair_next[L[y][i]]] 0 <= i < L[y].len() implies h.KvPair_next[L[y][i]] == (if i + 1 < L[y].len() { L[y][i + 1] } else { 0 }) by { let z = L0[y][i]; let w = h0.KvPair_next[L0[y][i]]; }
        }
    }
    reveal(plists);
}
// a new leaf
pub proof fn ins_leaf(h0: Heap, h: Heap, n: int, depth: int, x: u64, kv: int, e: int)
    requires at_node(h0, n, depth, x, depth), pend(h0, h0.BitmapNode_own[n], x, kv), same_nodes(h0, h), same_pairs(h0, h), h.KvPair_next == h0.KvPair_next, h.KvPair_value == h0.KvPair_value,
        ({
            let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let b = h0.BitmapNode_bitmap[n]; let c0 = h0.BitmapNode_children[n]; let c = h.BitmapNode_children[n]; let r = rank(b, p as int);
            &&& h0.BitmapNode_kid[n][p as int] == 0 && h0.top <= e < h.top && kvn(e) && h.KvNode_hash[e] == x && h.KvNode_kvList[e] == kv && h.KvNode_own[e] == l
            &&& forall|q: int| #![trigger h.KvNode_own[q]] #![trigger h.KvNode_hash[q]] #![trigger h.KvNode_kvList[q]] 0 < q < h0.top ==> h.KvNode_own[q] == h0.KvNode_own[q] && h.KvNode_hash[q] == h0.KvNode_hash[q] && h.KvNode_kvList[q] == h0.KvNode_kvList[q]
            &&& h.BitmapNode_bitmap == h0.BitmapNode_bitmap.insert(n, b | bp(p)) && h.BitmapNode_children == h0.BitmapNode_children.insert(n, c) && h.BitmapNode_kid == h0.BitmapNode_kid.insert(n, h0.BitmapNode_kid[n].insert(p as int, e))
            &&& slice_ok(c, h.top) && c.a >= h0.top && h.A_own[c.a] == n && c.len == c0.len + 1
            &&& forall|a: int| #![trigger h.arr_int[a]] #![trigger h.A_own[a]] 0 < a < h0.top ==> h.arr_int[a] == h0.arr_int[a] && h.A_own[a] == h0.A_own[a]
            &&& at(h.arr_int, c, r) == e && forall|j: int| #![trigger at(h0.arr_int, c0, j)] 0 <= j < c0.len ==> at(h.arr_int, c, if j >= r { j + 1 } else { j }) == at(h0.arr_int, c0, j)
            &&& h.Hamt_L == h0.Hamt_L.insert(l, h0.Hamt_L[l].insert(x, h0.Pend_s))
        })
    ensures ins_post(h0, h, n, depth, x, kv)
{
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let b = h0.BitmapNode_bitmap[n]; let c0 = h0.BitmapNode_children[n]; let c = h.BitmapNode_children[n]; let r = rank(b, p as int);
    let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let g0 = gv(h0); let g = gv(h); let nb = b | bp(p);
    look(h0, n, depth, x, depth);
    bits_of(b, p);
    assert(L0[x].len() == 0);
    assert(slot(g, L, l, n, p as int)) by {
        assert forall|y: u64| #![trigger L[y]] cls(g, n, p as int, y) && y != x implies L[y].len() == 0 by { assert(cls(g0, n, p as int, y)); let z = L0[y]; }
    }
    assert(forall|m: int, q: int| #![trigger g.kid[m][q]] g.kid[m][q] == (if m == n && q == p { e } else { g0.kid[m][q] }));
    new_list(g0, L0, g, L, l, n, x, e);
    assert(n_cpl(h, n)) by {
        rank_add(b, nb, p as int, 64);
        rank_add(b, nb, p as int, p as int);
        assert forall|q: int| #![trigger bt(nb, q)] 0 <= q < 64 implies bt(nb, q) == (h.BitmapNode_kid[n][q] != 0) && (bt(nb, q) ==> at(h.arr_int, c, rank(nb, q)) == h.BitmapNode_kid[n][q]) by {
            let z = h0.BitmapNode_kid[n][q];
            assert(bt(b, q) == (z != 0));
            if q != p && bt(b, q) {
                nth_rank(b, q);
                rank_add(b, nb, p as int, q);
                if q < p { rank_mono(b, q, p as int); } else { rank_mono(b, p as int, q); }
                assert(at(h0.arr_int, c0, rank(b, q)) == z);
            }
        }
    }
    coup_set(h0, h, l, n, depth);
    lists_set(h0, h, l, x, h0.Pend_s);
    assert(foot(h0, h, l, depth)) by { reveal(foot); }
}
// the value of a pair changes
pub proof fn ins_found(h0: Heap, h: Heap, n: int, depth: int, x: u64, kv: int, v: IMap<int, Val>)
    requires at_node(h0, n, depth, x, depth), h == (Heap { KvPair_value: v, ..h0 }),
        ({
            let l = h0.BitmapNode_own[n]; let S = h0.Hamt_L[l][x]; let f = h_fi(h0, S, p_key(h0, kv));
            &&& f < S.len() && h.KvPair_value == h0.KvPair_value.insert(S[f], h0.KvPair_value[kv])
        })
    ensures ins_post(h0, h, n, depth, x, kv)
{
    let l = h0.BitmapNode_own[n]; let S = h0.Hamt_L[l][x];
    look(h0, n, depth, x, depth);
    fi_is(h0.arr_u8, h0.KvPair_key, S, p_key(h0, kv), 0);
    let z = S[h_fi(h0, S, p_key(h0, kv))];
    assert(foot(h0, h, l, depth)) by { reveal(foot); }
}
// a pair comes in front of a list
pub proof fn ins_more(h0: Heap, h: Heap, n: int, depth: int, x: u64, kv: int)
    requires at_node(h0, n, depth, x, depth), pend(h0, h0.BitmapNode_own[n], x, kv), same_nodes(h0, h), same_pairs(h0, h), h.KvPair_value == h0.KvPair_value, h.top == h0.top,
        h.BitmapNode_kid == h0.BitmapNode_kid, h.BitmapNode_bitmap == h0.BitmapNode_bitmap, h.BitmapNode_children == h0.BitmapNode_children, h.arr_int == h0.arr_int, h.A_own == h0.A_own, h.KvNode_hash == h0.KvNode_hash, h.KvNode_own == h0.KvNode_own,
        ({
            let l = h0.BitmapNode_own[n]; let S = h0.Hamt_L[l][x]; let f = h_fi(h0, S, p_key(h0, kv)); let e = h0.BitmapNode_kid[n][ps(x, depth) as int];
            &&& f >= S.len() && kvn(e) && e != 0 && h0.KvNode_hash[e] == x
            &&& h.KvPair_next == h0.KvPair_next.insert(kv, S[0]) && h.KvNode_kvList == h0.KvNode_kvList.insert(e, kv)
            &&& h.Hamt_L == h0.Hamt_L.insert(l, h0.Hamt_L[l].insert(x, seq![kv] + S))
        })
    ensures ins_post(h0, h, n, depth, x, kv)
{
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let g0 = gv(h0); let g = gv(h); let S = L0[x]; let T = seq![kv] + S; let e = h0.BitmapNode_kid[n][p as int]; let k = p_key(h0, kv);
    look(h0, n, depth, x, depth);
    fi_is(h0.arr_u8, h0.KvPair_key, S, k, 0);
    assert(L[x] == T);
    assert(slot(g, L, l, n, p as int)) by {
        assert forall|y: u64| #![trigger L[y]] cls(g, n, p as int, y) && y != x implies L[y].len() == 0 by { assert(cls(g0, n, p as int, y)); let z = L0[y]; }
    }
    new_list(g0, L0, g, L, l, n, x, e);
    assert(h_list(h, l, T, x)) by {
        assert(h0.Pend_s[0] == kv);
        assert forall|i: int| #![trigger T[i]] 0 <= i < T.len() implies 0 < T[i] < h.top && h.KvPair_own[T[i]] == l && hf(p_key(h, T[i])) == x by { if i > 0 { assert(T[i] == S[i - 1]); } }
        assert forall|i: int| #![trigger h.KvPair_next[T[i]]] 0 <= i < T.len() implies h.KvPair_next[T[i]] == (if i + 1 < T.len() { T[i + 1] } else { 0 }) by { if i > 0 { assert(T[i] == S[i - 1]); let z = h0.KvPair_next[S[i - 1]]; } }
        assert forall|i: int, j: int| #![trigger T[i], T[j]] 0 <= i < j < T.len() implies p_key(h, T[i]) != p_key(h, T[j]) by { assert(T[j] == S[j - 1]); if i > 0 { assert(T[i] == S[i - 1]); } }
    }
    assert forall|q: int| #![trigger h.KvPair_next[q]] hf(p_key(h0, q)) != x implies h.KvPair_next[q] == h0.KvPair_next[q] by { assert(h0.Pend_s[0] == kv); }
    lists_set(h0, h, l, x, T);
    assert(foot(h0, h, l, depth)) by { reveal(foot); assert(h0.Pend_s[0] == kv); }
}
pub proof fn ins_down(h0: Heap, h: Heap, n: int, depth: int, x: u64, kv: int)
    requires at_node(h0, n, depth, x, depth), inner(h0.BitmapNode_kid[n][ps(x, depth) as int]), ins_post(h0, h, h0.BitmapNode_kid[n][ps(x, depth) as int], depth + 1, x, kv)
    ensures ins_post(h0, h, n, depth, x, kv)
{
    let l = h0.BitmapNode_own[n];
    look(h0, n, depth, x, depth);
    assert(f_node(h0, h, n)) by { reveal(foot); }
    coup_up(h0, h, l, depth);
    foot_less(h0, h, l, depth);
}

// ---------- a leaf makes way for a node ----------
pub proof fn split_1(h0: Heap, h: Heap, n: int, depth: int, x: u64, kv: int, b: int)
    requires at_node(h0, n, depth, x, depth), pend(h0, h0.BitmapNode_own[n], x, kv), same_pairs(h0, h), h.KvPair_next == h0.KvPair_next, h.KvPair_value == h0.KvPair_value, h.KvNode_own == h0.KvNode_own, h.KvNode_hash == h0.KvNode_hash, h.KvNode_kvList == h0.KvNode_kvList,
        h.arr_int == h0.arr_int, h.A_own == h0.A_own, b == h0.top, h.top == b + 1, dyn_of(b) == dyn_BitmapNode(),
        ({
            let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let c = h0.BitmapNode_kid[n][p as int]; let y = h0.KvNode_hash[c];
            &&& kvn(c) && c != 0 && y != x
            &&& forall|m: int| #![trigger h.BitmapNode_own[m]] h.BitmapNode_own[m] == if m == b { l } else { h0.BitmapNode_own[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_dep[m]] h.BitmapNode_dep[m] == if m == b { depth + 1 } else { h0.BitmapNode_dep[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_pre[m]] h.BitmapNode_pre[m] == if m == b { x } else { h0.BitmapNode_pre[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_par[m]] h.BitmapNode_par[m] == if m == b { n } else { h0.BitmapNode_par[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_pos[m]] h.BitmapNode_pos[m] == if m == b { p } else { h0.BitmapNode_pos[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_kid[m]] h.BitmapNode_kid[m] == if m == b { zarr(0int) } else if m == n { h0.BitmapNode_kid[n].insert(p as int, b) } else { h0.BitmapNode_kid[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_bitmap[m]] h.BitmapNode_bitmap[m] == if m == b { 0 } else { h0.BitmapNode_bitmap[m] }
            &&& forall|m: int| #![trigger h.BitmapNode_children[m]] h.BitmapNode_children[m] == if m == b { Slice { a: 0, off: 0, len: 0, cap: 0 } } else { h0.BitmapNode_children[m] }
            &&& h.Hamt_L == h0.Hamt_L.insert(l, h0.Hamt_L[l].insert(y, Seq::empty())) && h.Pend_s == h0.Hamt_L[l][y]
        })
    ensures ({
        let l = h0.BitmapNode_own[n]; let c = h0.BitmapNode_kid[n][ps(x, depth) as int]; let y = h0.KvNode_hash[c];
        &&& foot(h0, h, l, depth) && at_node(h, b, depth + 1, y, depth + 1) && pend(h, l, y, h.KvNode_kvList[c]) && agree(x, h.BitmapNode_pre[b], depth + 1) && h.BitmapNode_own[b] == l
        &&& depth + 1 <= 10 && 0 < h.KvNode_kvList[c] < h.top && h0.Hamt_L[l][x].len() == 0 && 0 < n < h0.top && 0 < l
    })
{
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let c = h0.BitmapNode_kid[n][p as int]; let y = h0.KvNode_hash[c]; let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l];
    look(h0, n, depth, x, depth);
    let z = h.BitmapNode_kid[b];
    new_node(gv(h0), L0, gv(h), L, l, n, x, b);
    assert(h.BitmapNode_own[b] == l && h.BitmapNode_dep[b] == depth + 1);
    assert(n_cpl(h, b)) by {
        no_bits(64);
        assert forall|q: int| #![trigger bt(0, q)] 0 <= q < 64 implies !bt(0, q) by { no_bits(q); }
        assert(h.BitmapNode_bitmap[b] == 0 && h.BitmapNode_kid[b] == zarr(0int));
        let z = h.BitmapNode_children[b];
    }
    assert forall|m: int| #![trigger h.BitmapNode_own[m]] h.BitmapNode_own[m] == l && h.BitmapNode_dep[m] >= depth + 1 implies n_cpl(h, m) by {
        if m != b {
            let z = h.BitmapNode_dep[m]; let w = h.BitmapNode_kid[m]; let v = h.BitmapNode_bitmap[m]; let u = h.BitmapNode_children[m];
            cpl_is(h0, l, depth, m);
            cpl_keep(h0, h, m, m);
        }
    }
    assert(h_coup(h, l, depth + 1)) by { reveal(coup); }
    list_is(h0, l, y);
    lists_set(h0, h, l, y, Seq::empty());
    let S = L0[y];
    assert(S[0] == h.KvNode_kvList[c]);
    assert(foot(h0, h, l, depth)) by { reveal(foot); }
}
pub proof fn split_2(h0: Heap, h1: Heap, h2: Heap, h3: Heap, l: int, depth: int, x: u64, y: u64, kv: int, b: int, e: int)
    requires foot(h0, h1, l, depth), ins_post(h1, h2, b, depth + 1, y, e), h3 == (Heap { Pend_s: h0.Pend_s, ..h2 }), h1.BitmapNode_own[b] == l, agree(x, h1.BitmapNode_pre[b], depth + 1), pend(h0, l, x, kv), l > 0, x != y,
        same_pairs(h0, h1), h1.KvPair_next == h0.KvPair_next, h1.KvPair_value == h0.KvPair_value, h1.Pend_s == h0.Hamt_L[l][y], h1.Hamt_L[l] == h0.Hamt_L[l].insert(y, Seq::empty()), h0.Hamt_L[l][x].len() == 0, same_pairs(h1, h2), kv < h0.top
    ensures at_node(h3, b, depth + 1, x, depth + 1), pend(h3, l, x, kv), foot(h1, h3, l, depth + 1), h3.BitmapNode_own[b] == l, h3.KvPair_next == h0.KvPair_next, h3.KvPair_value == h0.KvPair_value,
        forall|w: u64| #![trigger h3.Hamt_L[l][w]] h3.Hamt_L[l][w] == h0.Hamt_L[l][w]
{
    assert(h1.Hamt_L[l][y].len() == 0);
    assert(foot(h1, h3, l, depth + 1)) by { reveal(foot); }
    let z = h3.Hamt_L[l][x];
}
pub proof fn split_3(h0: Heap, h1: Heap, h3: Heap, h4: Heap, h: Heap, n: int, depth: int, x: u64, kv: int, b: int)
    requires at_node(h0, n, depth, x, depth), foot(h0, h1, h0.BitmapNode_own[n], depth), foot(h1, h3, h0.BitmapNode_own[n], depth + 1), ins_post(h3, h4, b, depth + 1, x, kv), h3.KvPair_next == h0.KvPair_next, h3.KvPair_value == h0.KvPair_value, h3.Pend_s == h0.Pend_s, h1.arr_int == h0.arr_int, h1.A_own == h0.A_own,
        ({
            let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let e = h0.BitmapNode_kid[n][p as int]; let c = h0.BitmapNode_children[n];
            &&& forall|w: u64| #![trigger h3.Hamt_L[l][w]] h3.Hamt_L[l][w] == h0.Hamt_L[l][w]
            &&& e != 0 && h0.Hamt_L[l][x].len() == 0 && b == h0.top && h1.top == b + 1 && h3.BitmapNode_own[b] == l
            &&& forall|m: int| #![trigger h1.BitmapNode_own[m]] m != b ==> h1.BitmapNode_own[m] == h0.BitmapNode_own[m] && h1.BitmapNode_dep[m] == h0.BitmapNode_dep[m] && h1.BitmapNode_pre[m] == h0.BitmapNode_pre[m] && h1.BitmapNode_par[m] == h0.BitmapNode_par[m] && h1.BitmapNode_pos[m] == h0.BitmapNode_pos[m] && h1.BitmapNode_bitmap[m] == h0.BitmapNode_bitmap[m] && h1.BitmapNode_children[m] == h0.BitmapNode_children[m] && (m != n ==> h1.BitmapNode_kid[m] == h0.BitmapNode_kid[m])
            &&& h1.BitmapNode_own[b] == l && h1.BitmapNode_dep[b] == depth + 1
            &&& h1.BitmapNode_kid[n] == h0.BitmapNode_kid[n].insert(p as int, b)
            &&& h == (Heap { arr_int: h4.arr_int.insert(c.a, h4.arr_int[c.a].insert(c.off + rank(h0.BitmapNode_bitmap[n], p as int), b)), ..h4 })
        })
    ensures ins_post(h0, h, n, depth, x, kv)
{
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let e = h0.BitmapNode_kid[n][p as int]; let c = h0.BitmapNode_children[n]; let bm = h0.BitmapNode_bitmap[n]; let r = rank(bm, p as int);
    look(h0, n, depth, x, depth);
    let z = h1.BitmapNode_own[n];
    foot_tr(h1, h3, h4, l, depth + 1);
    assert(f_node(h1, h4, n) && h4.A_own[c.a] == n && h4.arr_int[c.a] == h0.arr_int[c.a] && c.a > 0) by { reveal(foot); assert(0 < c.a < h1.top); let z = h4.arr_int[c.a]; }
    assert(h4.top >= h0.top) by { reveal(foot); }
    assert(h.BitmapNode_children[n] == c && h.BitmapNode_bitmap[n] == bm && h.BitmapNode_kid[n] == h0.BitmapNode_kid[n].insert(p as int, b));
    assert forall|m: int| #![trigger h.BitmapNode_own[m]] h.BitmapNode_own[m] == l && h.BitmapNode_dep[m] >= depth implies n_cpl(h, m) by {
        if m == n {
            assert forall|q: int| #![trigger bt(bm, q)] #![trigger h.BitmapNode_kid[n][q]] 0 <= q < 64 implies bt(bm, q) == (h.BitmapNode_kid[n][q] != 0) && (bt(bm, q) ==> at(h.arr_int, c, rank(bm, q)) == h.BitmapNode_kid[n][q]) by {
                let z = h0.BitmapNode_kid[n][q];
                if bt(bm, q) { nth_rank(bm, q); nth_rank(bm, p as int); if q < p { rank_mono(bm, q, p as int); } else { rank_mono(bm, p as int, q); } }
            }
        } else if h.BitmapNode_dep[m] >= depth + 1 {
            cpl_is(h4, l, depth + 1, m);
            cpl_keep(h4, h, m, m);
        } else {
            assert(h1.BitmapNode_own[m] == l && h1.BitmapNode_dep[m] == depth) by { reveal(foot); let z = h4.BitmapNode_own[m]; }
            assert(m != b);
            cpl_is(h0, l, depth, m);
            node_is(gv(h0), h0.Hamt_L[l], l, m);
            let a = h0.BitmapNode_children[m].a;
            assert(f_node(h1, h4, m)) by { reveal(foot); }
            assert(0 < a < h0.top && h0.A_own[a] == m ==> h4.A_own[a] == m && h4.arr_int[a] == h0.arr_int[a]) by { reveal(foot); let z = h4.arr_int[a]; }
            cpl_keep(h0, h, m, m);
        }
    }
    assert(h_coup(h, l, depth)) by { reveal(coup); }
    assert(tree(h, l, depth));
    foot_less(h1, h4, l, depth);
    foot_tr(h0, h1, h4, l, depth);
    assert(foot(h4, h, l, depth)) by { reveal(foot); }
    foot_tr(h0, h4, h, l, depth);
    let L = h.Hamt_L[l];
    assert forall|w: u64| #![trigger L[w]] L[w] == (if w != x { h0.Hamt_L[l][w] } else { h0.Pend_s }) by { let z = h3.Hamt_L[l][w]; let y = h4.Hamt_L[l][w]; }
}
pub proof fn foot_node(h0: Heap, h: Heap, l: int, d: int, n: int)
    requires foot(h0, h, l, d), 0 < n < h0.top, h0.BitmapNode_own[n] != l || h0.BitmapNode_dep[n] < d
    ensures f_node(h0, h, n), h0.top <= h.top
{ reveal(foot); }
// ---------- erase ----------
pub open spec fn era_post(h0: Heap, h: Heap, n: int, depth: int, x: u64, k: Seq<u8>, r: bool) -> bool {
    let l = h0.BitmapNode_own[n]; let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let S = L0[x]; let f = h_fi(h0, S, k);
    &&& tree(h, l, depth) && foot(h0, h, l, depth)
    &&& h.BitmapNode_own[n] == l && h.BitmapNode_dep[n] == depth && h.BitmapNode_pre[n] == h0.BitmapNode_pre[n] && h.BitmapNode_par[n] == h0.BitmapNode_par[n] && h.BitmapNode_pos[n] == h0.BitmapNode_pos[n]
    &&& r == (f < S.len())
    &&& forall|y: u64| #![trigger L[y]] L[y] == (if y == x && r { S.remove(f) } else { L0[y] })
    &&& h.KvPair_next == (if r && f > 0 { h0.KvPair_next.insert(S[f - 1], h0.KvPair_next[S[f]]) } else { h0.KvPair_next })
}
pub proof fn era_none(h0: Heap, h: Heap, n: int, depth: int, x: u64, k: Seq<u8>)
    requires at_node(h0, n, depth, x, depth), h_fi(h0, h0.Hamt_L[h0.BitmapNode_own[n]][x], k) >= h0.Hamt_L[h0.BitmapNode_own[n]][x].len(), h == (Heap { Hamt_L: h.Hamt_L, ..h0 }), forall|m: int| #![trigger h.Hamt_L[m]] h.Hamt_L[m] == h0.Hamt_L[m]
    ensures era_post(h0, h, n, depth, x, k, false)
{ assert(foot(h0, h, h0.BitmapNode_own[n], depth)) by { reveal(foot); } }
// a list without its pair number f
pub proof fn cut_list(h0: Heap, h: Heap, l: int, x: u64, S: Seq<int>, f: int)
    requires h_list(h0, l, S, x), same_pairs(h0, h), 0 <= f < S.len(), h.KvPair_next == (if f > 0 { h0.KvPair_next.insert(S[f - 1], h0.KvPair_next[S[f]]) } else { h0.KvPair_next })
    ensures h_list(h, l, S.remove(f), x), forall|q: int| #![trigger h.KvPair_next[q]] hf(p_key(h0, q)) != x ==> h.KvPair_next[q] == h0.KvPair_next[q], forall|q: int| #![trigger h.KvPair_next[q]] h0.KvPair_own[q] != l ==> h.KvPair_next[q] == h0.KvPair_next[q]
{
    let T = S.remove(f);
    nodup(h0, l, S, x);
    assert forall|i: int| #![trigger T[i]] 0 <= i < T.len() implies T[i] == S[if i < f { i } else { i + 1 }] by {}
    if f > 0 { let z = S[f - 1]; }
    let z = h0.KvPair_next[S[f]];
    assert forall|i: int| #![trigger h.KvPair_next[T[i]]] 0 <= i < T.len() implies h.KvPair_next[T[i]] == (if i + 1 < T.len() { T[i + 1] } else { 0 }) by {
        let j = if i < f { i } else { i + 1 };
        assert(T[i] == S[j]);
        let z = h0.KvPair_next[S[j]];
        if f > 0 && j != f - 1 { assert(ix(S, S[j]) == j && ix(S, S[f - 1]) == f - 1); }
    }
}
// a pair goes, its list stays
pub proof fn era_more(h0: Heap, h: Heap, n: int, depth: int, x: u64, k: Seq<u8>)
    requires at_node(h0, n, depth, x, depth), same_nodes(h0, h), same_pairs(h0, h), h.KvPair_value == h0.KvPair_value, h.top == h0.top,
        h.BitmapNode_kid == h0.BitmapNode_kid, h.BitmapNode_bitmap == h0.BitmapNode_bitmap, h.BitmapNode_children == h0.BitmapNode_children, h.arr_int == h0.arr_int, h.A_own == h0.A_own, h.KvNode_hash == h0.KvNode_hash, h.KvNode_own == h0.KvNode_own,
        ({
            let l = h0.BitmapNode_own[n]; let S = h0.Hamt_L[l][x]; let f = h_fi(h0, S, k); let e = h0.BitmapNode_kid[n][ps(x, depth) as int];
            &&& 0 <= f < S.len() && S.len() > 1 && kvn(e) && e != 0 && h0.KvNode_hash[e] == x
            &&& h.KvPair_next == (if f > 0 { h0.KvPair_next.insert(S[f - 1], h0.KvPair_next[S[f]]) } else { h0.KvPair_next }) && h.KvNode_kvList == (if f > 0 { h0.KvNode_kvList } else { h0.KvNode_kvList.insert(e, h0.KvPair_next[S[0]]) })
            &&& h.Hamt_L == h0.Hamt_L.insert(l, h0.Hamt_L[l].insert(x, S.remove(f)))
        })
    ensures era_post(h0, h, n, depth, x, k, true)
{
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let g0 = gv(h0); let g = gv(h); let S = L0[x]; let f = h_fi(h0, S, k); let T = S.remove(f); let e = h0.BitmapNode_kid[n][p as int];
    look(h0, n, depth, x, depth);
    cut_list(h0, h, l, x, S, f);
    assert(L[x] == T);
    let z = h0.KvPair_next[S[0]];
    assert(T[0] == S[if f == 0 { 1int } else { 0 }]);
    assert(slot(g, L, l, n, p as int)) by {
        assert forall|y: u64| #![trigger L[y]] cls(g, n, p as int, y) && y != x implies L[y].len() == 0 by { assert(cls(g0, n, p as int, y)); let z = L0[y]; }
    }
    new_list(g0, L0, g, L, l, n, x, e);
    lists_set(h0, h, l, x, T);
    assert(foot(h0, h, l, depth)) by { reveal(foot); }
}
// the last pair of a leaf goes, and the leaf with it
pub proof fn era_leaf(h0: Heap, h: Heap, n: int, depth: int, x: u64, k: Seq<u8>)
    requires at_node(h0, n, depth, x, depth), same_nodes(h0, h), same_pairs(h0, h), h.KvPair_value == h0.KvPair_value, h.KvPair_next == h0.KvPair_next, h.KvNode_hash == h0.KvNode_hash, h.KvNode_own == h0.KvNode_own,
        ({
            let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let b = h0.BitmapNode_bitmap[n]; let c0 = h0.BitmapNode_children[n]; let c = h.BitmapNode_children[n]; let r = rank(b, p as int); let S = h0.Hamt_L[l][x]; let e = h0.BitmapNode_kid[n][p as int];
            &&& kvn(e) && e != 0 && h0.KvNode_hash[e] == x && S.len() == 1 && h_fi(h0, S, k) == 0
            &&& h.KvNode_kvList == h0.KvNode_kvList.insert(e, 0)
            &&& h.BitmapNode_bitmap == h0.BitmapNode_bitmap.insert(n, b & !bp(p)) && h.BitmapNode_children == h0.BitmapNode_children.insert(n, c) && h.BitmapNode_kid == h0.BitmapNode_kid.insert(n, h0.BitmapNode_kid[n].insert(p as int, 0))
            &&& slice_ok(c, h.top) && c.a >= h0.top && h.A_own[c.a] == n && c.len == c0.len - 1
            &&& forall|a: int| #![trigger h.arr_int[a]] #![trigger h.A_own[a]] 0 < a < h0.top ==> (a != c0.a ==> h.arr_int[a] == h0.arr_int[a]) && h.A_own[a] == h0.A_own[a]
            &&& forall|j: int| #![trigger at(h0.arr_int, c0, j)] 0 <= j < c0.len && j != r ==> at(h.arr_int, c, if j > r { j - 1 } else { j }) == at(h0.arr_int, c0, j)
            &&& h.Hamt_L == h0.Hamt_L.insert(l, h0.Hamt_L[l].insert(x, S.remove(0)))
        })
    ensures era_post(h0, h, n, depth, x, k, true)
{
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let b = h0.BitmapNode_bitmap[n]; let c0 = h0.BitmapNode_children[n]; let c = h.BitmapNode_children[n]; let r = rank(b, p as int);
    let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let g0 = gv(h0); let g = gv(h); let nb = b & !bp(p); let S = L0[x]; let e = h0.BitmapNode_kid[n][p as int];
    look(h0, n, depth, x, depth);
    bits_of(b, p);
    cut_list(h0, h, l, x, S, 0);
    assert(S.remove(0) =~= Seq::empty());
    assert(L[x].len() == 0);
    assert(slot(g, L, l, n, p as int)) by {
        assert forall|y: u64| #![trigger L[y]] cls(g, n, p as int, y) implies L[y].len() == 0 by { assert(cls(g0, n, p as int, y)); let z = L0[y]; }
    }
    assert(forall|m: int, q: int| #![trigger g.kid[m][q]] g.kid[m][q] == (if m == n && q == p { 0 } else { g0.kid[m][q] }));
    era_shape(h0, h, l, n, x);
    assert(n_cpl(h, n)) by {
        rank_add(nb, b, p as int, 64);
        rank_add(nb, b, p as int, p as int);
        assert forall|q: int| #![trigger bt(nb, q)] 0 <= q < 64 implies bt(nb, q) == (h.BitmapNode_kid[n][q] != 0) && (bt(nb, q) ==> at(h.arr_int, c, rank(nb, q)) == h.BitmapNode_kid[n][q]) by {
            let z = h0.BitmapNode_kid[n][q];
            assert(bt(b, q) == (z != 0));
            if q != p && bt(b, q) {
                nth_rank(b, q);
                rank_add(nb, b, p as int, q);
                if q < p { rank_mono(b, q, p as int); } else { rank_mono(b, p as int, q); }
                assert(at(h0.arr_int, c0, rank(b, q)) == z);
            }
        }
    }
    coup_set(h0, h, l, n, depth);
    lists_set(h0, h, l, x, S.remove(0));
    assert(foot(h0, h, l, depth)) by { reveal(foot); }
}
// the leaf of x is no longer there
pub proof fn era_shape(h0: Heap, h: Heap, l: int, n: int, x: u64)
    requires h_shape(h0, l), h0.BitmapNode_own[n] == l, agree(x, h0.BitmapNode_pre[n], h0.BitmapNode_dep[n]), same_nodes(h0, h), h0.top <= h.top, h.KvNode_hash == h0.KvNode_hash, h.KvNode_own == h0.KvNode_own,
        ({
            let p = ps(x, h0.BitmapNode_dep[n]) as int; let e = h0.BitmapNode_kid[n][p];
            &&& kvn(e) && e != 0 && h0.KvNode_hash[e] == x
            &&& forall|m: int, q: int| #![trigger h.BitmapNode_kid[m][q]] h.BitmapNode_kid[m][q] == (if m == n && q == p { 0 } else { h0.BitmapNode_kid[m][q] })
            &&& forall|z: int| #![trigger h.KvNode_kvList[z]] z != e ==> h.KvNode_kvList[z] == h0.KvNode_kvList[z]
            &&& forall|y: u64| #![trigger h.Hamt_L[l][y]] h.Hamt_L[l][y] == (if y == x { Seq::empty() } else { h0.Hamt_L[l][y] })
        })
    ensures h_shape(h, l)
{
    let g0 = gv(h0); let g = gv(h); let L0 = h0.Hamt_L[l]; let L = h.Hamt_L[l]; let p = ps(x, g0.dep[n]) as int; let e = g0.kid[n][p];
    node_is(g0, L0, l, n);
    pos_ok(x, g0.dep[n]);
    slot_is(g0, L0, l, n, p);
    assert forall|m: int| #![trigger g.own[m]] g.own[m] == l implies gnode(g, L, l, m) by {
        node_is(g0, L0, l, m);
        if m != l {
            node_is(g0, L0, l, g0.par[m]);
            let k = ps(g.pre[m], g.dep[g.par[m]]) as int;
            pos_ok(g.pre[m], g.dep[g.par[m]]);
            slot_is(g0, L0, l, g0.par[m], k);
            let z = g.kid[g.par[m]][k];
        }
        assert forall|q: int| #![trigger g.kid[m][q]] 0 <= q < 64 implies slot(g, L, l, m, q) by {
            slot_is(g0, L0, l, m, q);
            let c = g0.kid[m][q];
            if m == n && q == p {
                assert forall|y: u64| #![trigger L[y]] cls(g, n, p, y) implies L[y].len() == 0 by { assert(cls(g0, n, p, y)); let z = L0[y]; }
            } else {
                if !inner(c) && c != 0 && g0.hash[c] == x { one_place(g0, L0, l, n, m, x); assert(false); }
                assert forall|y: u64| #![trigger L[y]] cls(g, m, q, y) && !inner(c) && (c == 0 || y != g0.hash[c]) implies L[y].len() == 0 by { assert(cls(g0, m, q, y)); let z = L0[y]; }
                if kvn(c) && c != 0 { let z = L[g0.hash[c]]; }
            }
        }
    }
    assert(shape(g, L, l)) by { reveal(shape); assert(g0.own[l] == l); }
}
pub proof fn era_down(h0: Heap, h: Heap, n: int, depth: int, x: u64, k: Seq<u8>, r: bool)
    requires at_node(h0, n, depth, x, depth), inner(h0.BitmapNode_kid[n][ps(x, depth) as int]), era_post(h0, h, h0.BitmapNode_kid[n][ps(x, depth) as int], depth + 1, x, k, r)
    ensures era_post(h0, h, n, depth, x, k, r), 0 < n < h0.top
{
    let l = h0.BitmapNode_own[n];
    look(h0, n, depth, x, depth);
    foot_node(h0, h, l, depth + 1, n);
    coup_up(h0, h, l, depth);
    foot_less(h0, h, l, depth);
}
pub proof fn up_coup(h1: Heap, h: Heap, l: int, n: int, depth: int, p: int, b: int, e: int)
    requires h_coup(h1, l, depth), h1.BitmapNode_own[n] == l, h1.BitmapNode_dep[n] >= depth, 0 <= p < 64, h1.BitmapNode_kid[n][p] != 0, e != 0, b != n, l != 0,
        ({
            let c = h1.BitmapNode_children[n];
            h == (Heap { BitmapNode_own: h1.BitmapNode_own.insert(b, 0), BitmapNode_kid: h1.BitmapNode_kid.insert(n, h1.BitmapNode_kid[n].insert(p, e)), arr_int: h1.arr_int.insert(c.a, h1.arr_int[c.a].insert(c.off + rank(h1.BitmapNode_bitmap[n], p), e)), ..h1 })
        })
    ensures h_coup(h, l, depth)
{
    let c = h1.BitmapNode_children[n]; let bm = h1.BitmapNode_bitmap[n];
    cpl_is(h1, l, depth, n);
    assert(bt(bm, p));
    nth_rank(bm, p);
    assert(h1.A_own[c.a] == n);
    assert forall|m: int| #![trigger h.BitmapNode_own[m]] h.BitmapNode_own[m] == l && h.BitmapNode_dep[m] >= depth implies n_cpl(h, m) by {
        assert(m != b && h1.BitmapNode_own[m] == l);
        cpl_is(h1, l, depth, m);
        if m == n {
            assert forall|q: int| #![trigger bt(bm, q)] #![trigger h.BitmapNode_kid[n][q]] 0 <= q < 64 implies bt(bm, q) == (h.BitmapNode_kid[n][q] != 0) && (bt(bm, q) ==> at(h.arr_int, c, rank(bm, q)) == h.BitmapNode_kid[n][q]) by {
                let z = h1.BitmapNode_kid[n][q];
                if bt(bm, q) { nth_rank(bm, q); if q < p { rank_mono(bm, q, p); } else { rank_mono(bm, p, q); } }
            }
        } else { cpl_keep(h1, h, m, m); }
    }
    reveal(coup);
}
// node b below n has one entry left, a leaf: it moves up
pub proof fn up_foot(h1: Heap, h: Heap, l: int, n: int, depth: int, b: int, a: int)
    requires h1.BitmapNode_own[b] == l, h1.BitmapNode_own[n] == l, h1.BitmapNode_dep[n] == depth, h1.BitmapNode_dep[b] == depth + 1, h1.A_own[a] == n,
        h == (Heap { BitmapNode_own: h1.BitmapNode_own.insert(b, 0), BitmapNode_kid: h.BitmapNode_kid, arr_int: h.arr_int, ..h1 }),
        forall|m: int| #![trigger h.BitmapNode_kid[m]] m != n ==> h.BitmapNode_kid[m] == h1.BitmapNode_kid[m], forall|m: int| #![trigger h.arr_int[m]] m != a ==> h.arr_int[m] == h1.arr_int[m], l > 0
    ensures foot(h1, h, l, depth)
{ reveal(foot); }
pub proof fn era_up(h0: Heap, h1: Heap, h: Heap, n: int, depth: int, x: u64, k: Seq<u8>)
    requires at_node(h0, n, depth, x, depth), inner(h0.BitmapNode_kid[n][ps(x, depth) as int]), era_post(h0, h1, h0.BitmapNode_kid[n][ps(x, depth) as int], depth + 1, x, k, true),
        ({
            let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let b = h0.BitmapNode_kid[n][p as int]; let c = h0.BitmapNode_children[n]; let e = at(h1.arr_int, h1.BitmapNode_children[b], 0);
            &&& h1.BitmapNode_children[b].len == 1 && kvn(e)
            &&& h == (Heap { BitmapNode_own: h1.BitmapNode_own.insert(b, 0), BitmapNode_kid: h1.BitmapNode_kid.insert(n, h1.BitmapNode_kid[n].insert(p as int, e)), arr_int: h1.arr_int.insert(c.a, h1.arr_int[c.a].insert(c.off + rank(h0.BitmapNode_bitmap[n], p as int), e)), ..h1 })
        })
    ensures era_post(h0, h, n, depth, x, k, true)
{
    hide(agree);
    let l = h0.BitmapNode_own[n]; let p = ps(x, depth); let b = h0.BitmapNode_kid[n][p as int]; let c = h0.BitmapNode_children[n]; let e = at(h1.arr_int, h1.BitmapNode_children[b], 0); let bm = h0.BitmapNode_bitmap[n]; let L = h1.Hamt_L[l];
    look(h0, n, depth, x, depth);
    era_down(h0, h1, n, depth, x, k, true);
    foot_node(h0, h1, l, depth + 1, n);
    cpl_is(h1, l, depth, n);
    cpl_is(h1, l, depth + 1, b);
    node_is(gv(h1), L, l, b);
    node_is(gv(h1), L, l, n);
    let nb = h1.BitmapNode_bitmap[b];
    child(h1, b, depth + 1, 0);
    let q0 = nth(nb, 0);
    assert forall|q: int| #![trigger h1.BitmapNode_kid[b][q]] 0 <= q < 64 && q != q0 implies h1.BitmapNode_kid[b][q] == 0 by { if bt(nb, q) { nth_rank(nb, q); } }
    let z = h1.BitmapNode_kid[b][q0];
    assert(h1.BitmapNode_par[b] == n && ps(h1.BitmapNode_pre[b], depth) == p) by {
        slot_is(gv(h1), L, l, n, p as int);
    }
    assert(b != l);
    collapse(gv(h1), L, gv(h), l, n, b, e, q0);
    assert(h1.A_own[c.a] == n && c.a > 0);
    up_coup(h1, h, l, n, depth, p as int, b, e);
    up_foot(h1, h, l, n, depth, b, c.a);
    foot_tr(h0, h1, h, l, depth);
}
// ---------- a trie as a map ----------
#[verifier::opaque]
pub open spec fn t_ok(h: Heap, l: int) -> bool { 0 < l < h.top && h.BitmapNode_own[l] == l && h.BitmapNode_dep[l] == 0 && tree(h, l, 0) }
pub open spec fn hm_ok(h: Heap, l: int) -> bool { t_ok(h, l) && h.Hamt_locker[l] > 0 }
#[verifier::inline]
pub open spec fn m_list(h: Heap, l: int, k: Seq<u8>) -> Seq<int> { h.Hamt_L[l][hf(k)] }
#[verifier::opaque]
pub open spec fn m_in(h: Heap, l: int, k: Seq<u8>) -> bool { h_fi(h, m_list(h, l, k), k) < m_list(h, l, k).len() }
#[verifier::opaque]
pub open spec fn m_val(h: Heap, l: int, k: Seq<u8>) -> Val { h.KvPair_value[m_list(h, l, k)[h_fi(h, m_list(h, l, k), k)]] }
// every trie but l is as it was
pub open spec fn as_was(h0: Heap, h: Heap, m: int) -> bool {
    hm_ok(h, m) && forall|k: Seq<u8>| #![trigger m_in(h, m, k)] #![trigger m_val(h, m, k)] m_in(h, m, k) == m_in(h0, m, k) && (m_in(h0, m, k) ==> m_val(h, m, k) == m_val(h0, m, k))
}
#[verifier::opaque]
pub open spec fn hm_others(h0: Heap, h: Heap, l: int) -> bool { forall|m: int| #![trigger t_ok(h0, m)] #![trigger t_ok(h, m)] 0 < m < h0.top && m != l && hm_ok(h0, m) ==> as_was(h0, h, m) }
pub proof fn fi_same(A: IMap<int, IMap<int, u8>>, K: IMap<int, Slice>, J: IMap<int, Slice>, S: Seq<int>, k: Seq<u8>)
    requires forall|i: int| #![trigger S[i]] 0 <= i < S.len() ==> K[S[i]] == J[S[i]]
    ensures fi(A, K, S, k, 0) == fi(A, J, S, k, 0)
{
    fi_is(A, K, S, k, 0);
    let f = fi(A, K, S, k, 0);
    if f < S.len() { let z = S[f]; }
    fi_eq(A, J, S, k, f);
}
pub proof fn root_at(h: Heap, l: int, x: u64)
    requires t_ok(h, l)
    ensures at_node(h, l, 0, x, 0), 0 < l < h.top, h.BitmapNode_own[l] == l, h.BitmapNode_dep[l] == 0
{ reveal(t_ok); }
pub proof fn others_are(h0: Heap, h: Heap, l: int)
    requires foot0(h0, h, l), l > 0, forall|m: int| #![trigger h.Hamt_locker[m]] 0 < m < h0.top ==> h.Hamt_locker[m] == h0.Hamt_locker[m]
    ensures hm_others(h0, h, l)
{
    assert forall|m: int| #![trigger t_ok(h0, m)] #![trigger t_ok(h, m)] 0 < m < h0.top && m != l && hm_ok(h0, m) implies as_was(h0, h, m) by { reveal(t_ok); kept(h0, h, l, m); stays(h0, h, l, m); }
    reveal(hm_others);
}
pub proof fn stays(h0: Heap, h: Heap, l: int, m: int)
    requires foot0(h0, h, l), 0 < m < h0.top, m != l, l > 0, t_ok(h0, m), h.Hamt_L[m] == h0.Hamt_L[m], tree(h, m, 0), h.BitmapNode_dep[m] == 0
    ensures t_ok(h, m), forall|k: Seq<u8>| #![trigger m_in(h, m, k)] #![trigger m_val(h, m, k)] m_in(h, m, k) == m_in(h0, m, k) && (m_in(h0, m, k) ==> m_val(h, m, k) == m_val(h0, m, k))
{
    reveal(t_ok);
    assert(h.BitmapNode_own[m] == m && h.top >= h0.top) by { reveal(foot0); reveal(shape); }
    assert forall|k: Seq<u8>| #![trigger m_in(h, m, k)] #![trigger m_val(h, m, k)] m_in(h, m, k) == m_in(h0, m, k) && (m_in(h0, m, k) ==> m_val(h, m, k) == m_val(h0, m, k)) by {
        let S = m_list(h0, m, k);
        list_is(h0, m, hf(k));
        reveal(foot0);
        assert forall|i: int| #![trigger S[i]] 0 <= i < S.len() implies h.KvPair_key[S[i]] == h0.KvPair_key[S[i]] && h.KvPair_value[S[i]] == h0.KvPair_value[S[i]] by { let z = h.KvPair_next[S[i]]; }
        fi_same(h.arr_u8, h.KvPair_key, h0.KvPair_key, S, k);
        fi_is(h.arr_u8, h.KvPair_key, S, k, 0);
        reveal(m_in); reveal(m_val);
        let f = h_fi(h, S, k);
        if f < S.len() { let z = S[f]; }
    }
}
// a new pair, in no trie yet
pub proof fn pair_made(h0: Heap, h: Heap, l: int, kv: int, k: Seq<u8>)
    requires t_ok(h0, l), kv >= h0.top, kv < h.top, h.KvPair_own[kv] == l, h.KvPair_next[kv] == 0, kb(h.arr_u8, h.KvPair_key, kv) == k, h.Pend_s == seq![kv], foot0(h0, h, h0.top), l != h0.top
    ensures t_ok(h, l), at_node(h, l, 0, hf(k), 0), pend(h, l, hf(k), kv), h.Hamt_L[l] == h0.Hamt_L[l]
{
    reveal(t_ok);
    kept(h0, h, h0.top, l);
    stays(h0, h, h0.top, l);
    list_is(h0, l, hf(k));
    root_at(h, l, hf(k));
}
pub proof fn foot_new(h0: Heap, h: Heap, l: int)
    requires h0.top <= h.top, h.arr_u8 == h0.arr_u8, h.arr_int == h0.arr_int, h.A_own == h0.A_own, h.Hamt_L == h0.Hamt_L, h.BitmapNode_own == h0.BitmapNode_own, h.BitmapNode_dep == h0.BitmapNode_dep, h.BitmapNode_pre == h0.BitmapNode_pre, h.BitmapNode_par == h0.BitmapNode_par, h.BitmapNode_kid == h0.BitmapNode_kid, h.BitmapNode_pos == h0.BitmapNode_pos,
        h.BitmapNode_bitmap == h0.BitmapNode_bitmap, h.BitmapNode_children == h0.BitmapNode_children, h.KvNode_own == h0.KvNode_own, h.KvNode_hash == h0.KvNode_hash, h.KvNode_kvList == h0.KvNode_kvList,
        forall|q: int| #![trigger h.KvPair_next[q]] #![trigger h.KvPair_value[q]] #![trigger h.KvPair_own[q]] #![trigger h.KvPair_key[q]] 0 < q < h0.top ==> h.KvPair_own[q] == h0.KvPair_own[q] && h.KvPair_key[q] == h0.KvPair_key[q] && h.KvPair_next[q] == h0.KvPair_next[q] && h.KvPair_value[q] == h0.KvPair_value[q]
    ensures foot(h0, h, l, 0), foot0(h0, h, l)
{ reveal(foot); reveal(foot0); }
// the pair went in
pub open spec fn ins_map(h0: Heap, h: Heap, l: int, k0: Seq<u8>, v: Val) -> bool {
    forall|k: Seq<u8>| #![trigger m_in(h, l, k)] #![trigger m_val(h, l, k)] #![trigger m_in(h0, l, k)] m_in(h, l, k) == (k == k0 || m_in(h0, l, k)) && (m_in(h, l, k) ==> m_val(h, l, k) == (if k == k0 { v } else { m_val(h0, l, k) }))
}
pub proof fn ins_root(h0: Heap, h: Heap, l: int, kv: int, k0: Seq<u8>)
    requires t_ok(h0, l), ins_post(h0, h, l, 0, hf(k0), kv), pend(h0, l, hf(k0), kv), h0.Pend_s == seq![kv], kb(h0.arr_u8, h0.KvPair_key, kv) == k0, h.KvPair_key == h0.KvPair_key, h.top >= h0.top
    ensures t_ok(h, l), ins_map(h0, h, l, k0, h0.KvPair_value[kv])
{
    reveal(t_ok);
    assert(h.arr_u8 == h0.arr_u8) by { reveal(foot); }
    let A = h.arr_u8; let K = h.KvPair_key; let x = hf(k0);
    let S = h0.Hamt_L[l][x];
    let f = h_fi(h0, S, k0);
    let v = h0.KvPair_value[kv];
    list_is(h0, l, x);
    nodup(h0, l, S, x);
    fi_is(A, K, S, k0, 0);
    assert forall|k: Seq<u8>| #![trigger m_in(h, l, k)] #![trigger m_val(h, l, k)] #![trigger m_in(h0, l, k)] m_in(h, l, k) == (k == k0 || m_in(h0, l, k)) && (m_in(h, l, k) ==> m_val(h, l, k) == (if k == k0 { v } else { m_val(h0, l, k) })) by {
        reveal(m_in); reveal(m_val);
        let T = h0.Hamt_L[l][hf(k)];
        let U = h.Hamt_L[l][hf(k)];
        let g = h_fi(h0, T, k);
        list_is(h0, l, hf(k));
        fi_is(A, K, T, k, 0);
        if hf(k) != x {
            assert(U == T);
            if g < T.len() { let z = T[g]; if f < S.len() { let w = S[f]; assert(hf(kb(A, K, S[f])) == x); } }
        } else if S.len() > 0 && f < S.len() {
            assert(U == S);
            if g < S.len() && g != f { assert(S[g] != S[f]) by { assert(ix(S, S[g]) == g); assert(ix(S, S[f]) == f); } }
            if k == k0 { assert(g == f); }
            if g == f && g < S.len() { assert(k == k0); }
        } else {
            assert(U =~= seq![kv] + S);
            assert(U[0] == kv);
            if k == k0 { fi_eq(A, K, U, k, 0); } else {
                assert forall|j: int| #![trigger U[j]] 0 <= j < g + 1 implies kb(A, K, U[j]) != k by { if j > 0 { assert(U[j] == S[j - 1]); } }
                if g < S.len() { assert(U[g + 1] == S[g]); }
                fi_eq(A, K, U, k, g + 1);
            }
        }
    }
}
// the pair of the key went out
pub open spec fn era_map(h0: Heap, h: Heap, l: int, k0: Seq<u8>) -> bool {
    forall|k: Seq<u8>| #![trigger m_in(h, l, k)] #![trigger m_val(h, l, k)] #![trigger m_in(h0, l, k)] m_in(h, l, k) == (k != k0 && m_in(h0, l, k)) && (m_in(h, l, k) ==> m_val(h, l, k) == m_val(h0, l, k))
}
pub proof fn era_root(h0: Heap, h: Heap, l: int, k0: Seq<u8>, r: bool)
    requires t_ok(h0, l), era_post(h0, h, l, 0, hf(k0), k0, r), h.KvPair_key == h0.KvPair_key, h.KvPair_value == h0.KvPair_value, h.top >= h0.top
    ensures t_ok(h, l), era_map(h0, h, l, k0), r == m_in(h0, l, k0)
{
    reveal(t_ok);
    assert(h.arr_u8 == h0.arr_u8) by { reveal(foot); }
    let A = h.arr_u8; let K = h.KvPair_key; let x = hf(k0);
    let S = h0.Hamt_L[l][x];
    let f = h_fi(h0, S, k0);
    list_is(h0, l, x);
    fi_is(A, K, S, k0, 0);
    assert(r == m_in(h0, l, k0)) by { reveal(m_in); }
    assert forall|k: Seq<u8>| #![trigger m_in(h, l, k)] #![trigger m_val(h, l, k)] #![trigger m_in(h0, l, k)] m_in(h, l, k) == (k != k0 && m_in(h0, l, k)) && (m_in(h, l, k) ==> m_val(h, l, k) == m_val(h0, l, k)) by {
        reveal(m_in); reveal(m_val);
        let T = h0.Hamt_L[l][hf(k)];
        let U = h.Hamt_L[l][hf(k)];
        let g = h_fi(h0, T, k);
        list_is(h0, l, hf(k));
        fi_is(A, K, T, k, 0);
        if hf(k) == x && r {
            assert(U == S.remove(f));
            let i = if k == k0 { S.len() - 1 } else if g < f { g } else { g - 1 };
            assert forall|j: int| #![trigger U[j]] 0 <= j < i implies kb(A, K, U[j]) != k by {
                if j < f { assert(U[j] == S[j]); let w = S[f]; } else { assert(U[j] == S[j + 1]); let w = S[f]; }
            }
            if k != k0 && g < S.len() { assert(g != f); assert(U[i] == S[g]); }
            if k != k0 && g == S.len() { assert(i == U.len()); }
            fi_eq(A, K, U, k, i);
        } else {
            assert(U == T);
            if k == k0 { assert(!r); }
        }
    }
}
// only objects of no trie are new
pub proof fn grown(h0: Heap, h: Heap, l: int, x: u64)
    requires t_ok(h0, l), foot0(h0, h, h0.top), h.Hamt_locker == h0.Hamt_locker
    ensures t_ok(h, l), at_node(h, l, 0, x, 0), h.Hamt_L[l] == h0.Hamt_L[l], 0 < l < h0.top, h.BitmapNode_own[l] == l,
        forall|k: Seq<u8>| #![trigger m_in(h, l, k)] #![trigger m_val(h, l, k)] m_in(h, l, k) == m_in(h0, l, k) && (m_in(h0, l, k) ==> m_val(h, l, k) == m_val(h0, l, k)),
        hm_others(h0, h, h0.top)
{
    assert(0 < l < h0.top) by { reveal(t_ok); }
    others_are(h0, h, h0.top);
    assert(tree(h0, l, 0)) by { reveal(t_ok); }
    kept(h0, h, h0.top, l);
    assert(h.BitmapNode_dep[l] == 0) by { reveal(t_ok); }
    stays(h0, h, h0.top, l);
    root_at(h, l, x);
}
pub proof fn foot_on(h0: Heap, h1: Heap, h: Heap, l: int)
    requires foot(h0, h1, l, 0), foot_eq(h1, h)
    ensures foot(h0, h, l, 0)
{ reveal(foot); }
pub open spec fn foot_eq(h1: Heap, h: Heap) -> bool {
    h.top == h1.top && h.arr_u8 == h1.arr_u8 && h.arr_int == h1.arr_int && h.A_own == h1.A_own && h.Hamt_L == h1.Hamt_L && h.BitmapNode_own == h1.BitmapNode_own && h.BitmapNode_dep == h1.BitmapNode_dep && h.BitmapNode_pre == h1.BitmapNode_pre && h.BitmapNode_par == h1.BitmapNode_par && h.BitmapNode_kid == h1.BitmapNode_kid && h.BitmapNode_pos == h1.BitmapNode_pos
    && h.BitmapNode_bitmap == h1.BitmapNode_bitmap && h.BitmapNode_children == h1.BitmapNode_children && h.KvNode_own == h1.KvNode_own && h.KvNode_hash == h1.KvNode_hash && h.KvNode_kvList == h1.KvNode_kvList
    && h.KvPair_own == h1.KvPair_own && h.KvPair_key == h1.KvPair_key && h.KvPair_next == h1.KvPair_next && h.KvPair_value == h1.KvPair_value
}
// a new trie
pub open spec fn own_new(own: IMap<int, int>, r: int) -> IMap<int, int> { IMap::new(|n: int| true, |n: int| if n == r { r } else if own[n] == r { 0 } else { own[n] }) }
pub open spec fn no_lists() -> IMap<u64, Seq<int>> { IMap::new(|y: u64| true, |y: u64| Seq::empty()) }
pub proof fn trie_new(h0: Heap, h: Heap, r: int)
    requires h0.top <= r, r < h.top, r > 0, dyn_of(r) == dyn_Hamt(), h.BitmapNode_own =~= own_new(h0.BitmapNode_own, r), h.BitmapNode_dep[r] == 0, h.BitmapNode_kid[r] == zarr(0int),
        forall|n: int| #![trigger h.BitmapNode_own[n]] #![trigger h.BitmapNode_dep[n]] #![trigger h.BitmapNode_pre[n]] #![trigger h.BitmapNode_par[n]] #![trigger h.BitmapNode_kid[n]] 0 < n < h0.top ==> h.BitmapNode_dep[n] == h0.BitmapNode_dep[n] && h.BitmapNode_kid[n] == h0.BitmapNode_kid[n] && h.BitmapNode_pre[n] == h0.BitmapNode_pre[n] && h.BitmapNode_par[n] == h0.BitmapNode_par[n],
        forall|n: int| #![trigger h.BitmapNode_bitmap[n]] #![trigger h.BitmapNode_pos[n]] #![trigger h.BitmapNode_children[n]] 0 < n < h0.top ==> h.BitmapNode_bitmap[n] == h0.BitmapNode_bitmap[n] && h.BitmapNode_pos[n] == h0.BitmapNode_pos[n] && h.BitmapNode_children[n] == h0.BitmapNode_children[n],
        h.BitmapNode_bitmap[r] == 0, h.BitmapNode_children[r] == nil_slice(), h.Hamt_L[r] == no_lists(), forall|m: int| #![trigger h.Hamt_L[m]] 0 < m < h0.top ==> h.Hamt_L[m] == h0.Hamt_L[m],
        h.arr_u8 == h0.arr_u8, h.A_own == h0.A_own, forall|a: int| #![trigger h.arr_int[a]] 0 < a < h0.top ==> h.arr_int[a] == h0.arr_int[a], h.KvNode_own == h0.KvNode_own, h.KvNode_hash == h0.KvNode_hash, h.KvNode_kvList == h0.KvNode_kvList,
        h.KvPair_own == h0.KvPair_own, h.KvPair_key == h0.KvPair_key, h.KvPair_next == h0.KvPair_next, h.KvPair_value == h0.KvPair_value,
        forall|m: int| #![trigger h.Hamt_locker[m]] 0 < m < h0.top ==> h.Hamt_locker[m] == h0.Hamt_locker[m]
    ensures t_ok(h, r), forall|k: Seq<u8>| #![trigger m_in(h, r, k)] !m_in(h, r, k), foot0(h0, h, r)
{
    assert(foot0(h0, h, r)) by { reveal(foot0); }
    let L = h.Hamt_L[r];
    let g = gv(h);
    assert forall|x: u64| #![trigger L[x]] L[x].len() == 0 by {}
    assert forall|n: int| #![trigger g.own[n]] g.own[n] == r implies gnode(g, L, r, n) && n_cpl(h, n) by {
        assert(n == r);
        assert forall|p: int| #![trigger g.kid[n][p]] 0 <= p < 64 implies slot(g, L, r, n, p) by { assert(g.kid[n][p] == 0); }
        no_bits(64);
        assert forall|p: int| #![trigger bt(h.BitmapNode_bitmap[n], p)] #![trigger h.BitmapNode_kid[n][p]] 0 <= p < 64 implies !bt(h.BitmapNode_bitmap[n], p) && h.BitmapNode_kid[n][p] == 0 by { no_bits(p); }
    }
    reveal(shape); reveal(coup); reveal(plists); reveal(t_ok);
    assert forall|k: Seq<u8>| #![trigger m_in(h, r, k)] !m_in(h, r, k) by { reveal(m_in); let z = L[hf(k)]; fi_is(h.arr_u8, h.KvPair_key, L[hf(k)], k, 0); }
}
// ---------- walking through ----------
pub open spec fn wk(kid: IMap<int, IMap<int, int>>, hash: IMap<int, u64>, L: IMap<u64, Seq<int>>, n: int, d: int, p: int) -> Seq<int>
    decreases 11 - d, p
{
    if d > 10 || p <= 0 { Seq::empty() } else {
        let e = kid[n][p - 1];
        wk(kid, hash, L, n, d, p - 1) + (if e == 0 { Seq::empty() } else if kvn(e) { L[hash[e]] } else { wk(kid, hash, L, e, d + 1, 64) })
    }
}
#[verifier::inline]
pub open spec fn h_wk(h: Heap, n: int, p: int) -> Seq<int> { wk(h.BitmapNode_kid, h.KvNode_hash, h.Hamt_L[h.BitmapNode_own[n]], n, h.BitmapNode_dep[n], p) }
pub open spec fn hq(h: Heap, q: int) -> u64 { hf(kb(h.arr_u8, h.KvPair_key, q)) }
pub open spec fn wk_in(h: Heap, l: int, n: int, p: int, W: Seq<int>) -> bool {
    forall|i: int| #![trigger W[i]] 0 <= i < W.len() ==> h.Hamt_L[l][hq(h, W[i])].contains(W[i]) && agree(hq(h, W[i]), h.BitmapNode_pre[n], h.BitmapNode_dep[n]) && ps(hq(h, W[i]), h.BitmapNode_dep[n]) < p
}
pub proof fn wk_has(h: Heap, l: int, n: int, p: int)
    requires tree(h, l, 0), h.BitmapNode_own[n] == l, 0 <= p <= 64
    ensures wk_in(h, l, n, p, h_wk(h, n, p))
    decreases 11 - h.BitmapNode_dep[n], p
{
    let d = h.BitmapNode_dep[n];
    let g = gv(h); let L = h.Hamt_L[l];
    node_is(g, L, l, n);
    if p > 0 {
        wk_has(h, l, n, p - 1);
        let e = h.BitmapNode_kid[n][p - 1];
        slot_is(g, L, l, n, p - 1);
        let A = h_wk(h, n, p - 1);
        let W = h_wk(h, n, p);
        wk_slot(h, l, n, p - 1);
        assert forall|i: int| #![trigger W[i]] 0 <= i < W.len() implies L[hq(h, W[i])].contains(W[i]) && agree(hq(h, W[i]), h.BitmapNode_pre[n], d) && ps(hq(h, W[i]), d) < p by {
            if i < A.len() { assert(W[i] == A[i]); } else { let B = h_ent(h, n, p - 1); assert(W[i] == B[i - A.len()]); }
        }
    }
}
pub open spec fn h_ent(h: Heap, n: int, p: int) -> Seq<int> { let e = h.BitmapNode_kid[n][p]; let L = h.Hamt_L[h.BitmapNode_own[n]]; if e == 0 { Seq::empty() } else if kvn(e) { L[h.KvNode_hash[e]] } else { wk(h.BitmapNode_kid, h.KvNode_hash, L, e, h.BitmapNode_dep[n] + 1, 64) } }
pub proof fn wk_slot(h: Heap, l: int, n: int, p: int)
    requires tree(h, l, 0), h.BitmapNode_own[n] == l, 0 <= p < 64
    ensures ({ let W = h_ent(h, n, p); let d = h.BitmapNode_dep[n]; forall|i: int| #![trigger W[i]] 0 <= i < W.len() ==> h.Hamt_L[l][hq(h, W[i])].contains(W[i]) && agree(hq(h, W[i]), h.BitmapNode_pre[n], d) && ps(hq(h, W[i]), d) == p }),
        h_wk(h, n, p + 1) == h_wk(h, n, p) + h_ent(h, n, p),
    decreases 11 - h.BitmapNode_dep[n], 0int
{
    let d = h.BitmapNode_dep[n];
    let g = gv(h); let L = h.Hamt_L[l];
    node_is(g, L, l, n);
    slot_is(g, L, l, n, p);
    let e = h.BitmapNode_kid[n][p];
    let W = h_ent(h, n, p);
    if e == 0 {
    } else if kvn(e) {
        let y = h.KvNode_hash[e];
        list_is(h, l, y);
        assert forall|i: int| #![trigger W[i]] 0 <= i < W.len() implies L[hq(h, W[i])].contains(W[i]) && agree(hq(h, W[i]), h.BitmapNode_pre[n], d) && ps(hq(h, W[i]), d) == p by { assert(W[i] == L[y][i]); assert(hq(h, W[i]) == y); }
    } else {
        node_is(g, L, l, e);
        wk_has(h, l, e, 64);
        assert(W == h_wk(h, e, 64));
        assert forall|i: int| #![trigger W[i]] 0 <= i < W.len() implies L[hq(h, W[i])].contains(W[i]) && agree(hq(h, W[i]), h.BitmapNode_pre[n], d) && ps(hq(h, W[i]), d) == p by {
            let x = hq(h, W[i]);
            agree_less(x, h.BitmapNode_pre[e], d + 1, d);
            agree_tr(x, h.BitmapNode_pre[e], h.BitmapNode_pre[n], d);
            assert(ps(x, d) == ps(h.BitmapNode_pre[e], d));
        }
    }
}
pub proof fn wk_all(h: Heap, l: int, n: int, p: int)
    requires tree(h, l, 0), h.BitmapNode_own[n] == l, 0 <= p <= 64
    ensures ({ let L = h.Hamt_L[l]; let d = h.BitmapNode_dep[n]; let W = h_wk(h, n, p); forall|x: u64, j: int| #![trigger L[x][j]] agree(x, h.BitmapNode_pre[n], d) && ps(x, d) < p && 0 <= j < L[x].len() ==> W.contains(L[x][j]) })
    decreases 11 - h.BitmapNode_dep[n], p
{
    let d = h.BitmapNode_dep[n];
    let g = gv(h); let L = h.Hamt_L[l];
    node_is(g, L, l, n);
    if p > 0 {
        wk_all(h, l, n, p - 1);
        slot_is(g, L, l, n, p - 1);
        let e = h.BitmapNode_kid[n][p - 1];
        wk_slot(h, l, n, p - 1);
        let A = h_wk(h, n, p - 1); let B = h_ent(h, n, p - 1);
        let W = h_wk(h, n, p);
        if inner(e) { node_is(g, L, l, e); wk_all(h, l, e, 64); }
        assert forall|x: u64, j: int| #![trigger L[x][j]] agree(x, h.BitmapNode_pre[n], d) && ps(x, d) < p && 0 <= j < L[x].len() implies W.contains(L[x][j]) by {
            let q = L[x][j];
            if ps(x, d) < p - 1 {
                assert(A.contains(q));
                let i = A.index_of(q);
                assert(W[i] == q);
            } else {
                assert(cls(g, n, p - 1, x));
                let z = L[x];
                if e == 0 { assert(false); }
                else if kvn(e) { assert(x == g.hash[e]); assert(W[A.len() + j] == q); }
                else {
                    agree_tr(x, g.pre[n], g.pre[e], d);
                    agree_more(x, g.pre[e], d);
                    pos_ok(x, d + 1);
                    assert(B.contains(q));
                    let i = B.index_of(q);
                    assert(W[A.len() + i] == q);
                }
            }
        }
    }
}
pub proof fn wk_once(h: Heap, l: int, n: int, p: int)
    requires tree(h, l, 0), h.BitmapNode_own[n] == l, 0 <= p <= 64
    ensures ({ let W = h_wk(h, n, p); forall|i: int, j: int| #![trigger W[i], W[j]] 0 <= i < j < W.len() ==> W[i] != W[j] })
    decreases 11 - h.BitmapNode_dep[n], p
{
    let d = h.BitmapNode_dep[n];
    let g = gv(h); let L = h.Hamt_L[l];
    node_is(g, L, l, n);
    if p > 0 {
        wk_once(h, l, n, p - 1);
        wk_has(h, l, n, p - 1);
        wk_slot(h, l, n, p - 1);
        slot_is(g, L, l, n, p - 1);
        let e = h.BitmapNode_kid[n][p - 1];
        let A = h_wk(h, n, p - 1); let B = h_ent(h, n, p - 1);
        let W = h_wk(h, n, p);
        if inner(e) { node_is(g, L, l, e); wk_once(h, l, e, 64); } else if e != 0 { list_is(h, l, g.hash[e]); nodup(h, l, L[g.hash[e]], g.hash[e]); }
        assert forall|i: int, j: int| #![trigger W[i], W[j]] 0 <= i < j < W.len() implies W[i] != W[j] by {
            if j < A.len() { assert(W[i] == A[i] && W[j] == A[j]); }
            else if i >= A.len() { assert(W[i] == B[i - A.len()] && W[j] == B[j - A.len()]); if kvn(e) { assert(ix(B, B[i - A.len()]) == i - A.len()); assert(ix(B, B[j - A.len()]) == j - A.len()); } }
            else { assert(W[i] == A[i] && W[j] == B[j - A.len()]); }
        }
    }
}
pub open spec fn k_seq(h: Heap, W: Seq<int>) -> Seq<Seq<u8>> { Seq::new(W.len(), |i: int| kb(h.arr_u8, h.KvPair_key, W[i])) }
// Q has every key of the trie once
pub open spec fn all_keys(h: Heap, l: int, Q: Seq<Seq<u8>>) -> bool {
    &&& forall|i: int| #![trigger Q[i]] 0 <= i < Q.len() ==> m_in(h, l, Q[i])
    &&& forall|k: Seq<u8>| #![trigger m_in(h, l, k)] m_in(h, l, k) ==> Q.contains(k)
    &&& forall|i: int, j: int| #![trigger Q[i], Q[j]] 0 <= i < j < Q.len() ==> Q[i] != Q[j]
}
pub proof fn walk_all(h: Heap, l: int)
    requires t_ok(h, l)
    ensures ({ let W = h_wk(h, l, 64); let Q = k_seq(h, W); all_keys(h, l, Q) && forall|i: int| #![trigger Q[i]] #![trigger W[i]] 0 <= i < Q.len() ==> h.KvPair_value[W[i]] == m_val(h, l, Q[i]) })
{
    reveal(t_ok);
    let W = h_wk(h, l, 64); let Q = k_seq(h, W); let L = h.Hamt_L[l];
    let A = h.arr_u8; let K = h.KvPair_key;
    wk_has(h, l, l, 64);
    wk_all(h, l, l, 64);
    wk_once(h, l, l, 64);
    assert forall|i: int| #![trigger Q[i]] #![trigger W[i]] 0 <= i < Q.len() implies m_in(h, l, Q[i]) && h.KvPair_value[W[i]] == m_val(h, l, Q[i]) by {
        let x = hf(Q[i]);
        assert(x == hq(h, W[i]));
        let S = L[x];
        list_is(h, l, x);
        let f = S.index_of(W[i]);
        assert(S[f] == W[i]);
        fi_eq(A, K, S, Q[i], f);
        reveal(m_in); reveal(m_val);
    }
    assert forall|k: Seq<u8>| #![trigger m_in(h, l, k)] m_in(h, l, k) implies Q.contains(k) by {
        reveal(m_in);
        let x = hf(k);
        fi_is(A, K, L[x], k, 0);
        let f = fi(A, K, L[x], k, 0);
        pos_ok(x, 0);
        assert(W.contains(L[x][f]));
        let i = W.index_of(L[x][f]);
        assert(Q[i] == k);
    }
    assert forall|i: int, j: int| #![trigger Q[i], Q[j]] 0 <= i < j < Q.len() implies Q[i] != Q[j] by {
        if Q[i] == Q[j] {
            let x = hf(Q[i]);
            assert(x == hq(h, W[i]) && x == hq(h, W[j]));
            let S = L[x];
            list_is(h, l, x);
            let a = S.index_of(W[i]); let b = S.index_of(W[j]);
            assert(S[a] == W[i] && S[b] == W[j] && W[i] != W[j]);
            assert(kb(A, K, S[a]) == kb(A, K, S[b]));
        }
    }
}
// ---------- what a visitor sees ----------
pub open spec fn ents(K: IMap<int, Slice>, V: IMap<int, Val>, S: Seq<int>) -> Seq<(Val, Val)> { Seq::new(S.len(), |i: int| (val_slice(K[S[i]]), V[S[i]])) }
#[verifier::inline]
pub open spec fn h_ents(h: Heap, S: Seq<int>) -> Seq<(Val, Val)> { ents(h.KvPair_key, h.KvPair_value, S) }
pub open spec fn w_ents(h: Heap, n: int) -> Seq<(Val, Val)> { h_ents(h, h_wk(h, n, 64)) }
pub open spec fn e_keys(h: Heap, E: Seq<(Val, Val)>) -> Seq<Seq<u8>> { Seq::new(E.len(), |i: int| view(h.arr_u8, unval_slice(E[i].0))) }
pub proof fn vrun_cat(f: int, tr: Seq<(Val, Val)>, a: Seq<(Val, Val)>, b: Seq<(Val, Val)>)
    ensures vall(f, tr, a + b) == (vall(f, tr, a) && vall(f, vrun(f, tr, a), b)), vrun(f, tr, a + b) == (if vall(f, tr, a) { vrun(f, vrun(f, tr, a), b) } else { vrun(f, tr, a) })
    decreases a.len()
{
    let s = a + b;
    if a.len() == 0 { assert(s =~= b); } else {
        assert(s[0] == a[0]);
        assert(s.skip(1) =~= a.skip(1) + b);
        vrun_cat(f, tr.push(a[0]), a.skip(1), b);
    }
}
pub proof fn vrun_one(f: int, tr: Seq<(Val, Val)>, x: (Val, Val))
    ensures vall(f, tr, seq![x]) == visr(f, tr, x.0, x.1), vrun(f, tr, seq![x]) == tr.push(x)
{ let s = seq![x]; assert(s.skip(1) =~= Seq::empty()); assert(s[0] == x); if visr(f, tr, x.0, x.1) { assert(vrun(f, tr.push(x), s.skip(1)) == tr.push(x)); assert(vall(f, tr.push(x), s.skip(1))); } }
pub open spec fn ran(f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>, D: Seq<(Val, Val)>) -> bool { vall(f, t0, D) && t == vrun(f, t0, D) }
// one more accepted, or the end
pub proof fn ran_on(f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>, D: Seq<(Val, Val)>, a: Seq<(Val, Val)>, t1: Seq<(Val, Val)>, r: bool, rest: Seq<(Val, Val)>)
    requires ran(f, t0, t, D), t1 == vrun(f, t, a), r == vall(f, t, a)
    ensures r ==> ran(f, t0, t1, D + a), !r ==> t1 == vrun(f, t0, (D + a) + rest) && !vall(f, t0, (D + a) + rest)
{ vrun_cat(f, t0, D, a); vrun_cat(f, t0, D + a, rest); }
pub open spec fn at_pos(h: Heap, n: int, j: int) -> int { if j < h.BitmapNode_children[n].len { nth(h.BitmapNode_bitmap[n], j) } else { 64 } }
// the walk does not grow where no bit is set
pub proof fn wk_gap(kid: IMap<int, IMap<int, int>>, hash: IMap<int, u64>, L: IMap<u64, Seq<int>>, n: int, d: int, p: int, q: int)
    requires 0 <= p <= q, forall|r: int| #![trigger kid[n][r]] p <= r < q ==> kid[n][r] == 0
    ensures wk(kid, hash, L, n, d, q) == wk(kid, hash, L, n, d, p)
    decreases q
{ if p < q { wk_gap(kid, hash, L, n, d, p, q - 1); assert(kid[n][q - 1] == 0); if d <= 10 { assert(wk(kid, hash, L, n, d, q) =~= wk(kid, hash, L, n, d, q - 1)); } } }
// child number j, and what comes after it
pub proof fn wk_step(h: Heap, n: int, j: int)
    requires tree(h, h.BitmapNode_own[n], 0), 0 <= j < h.BitmapNode_children[n].len, n > 0
    ensures ({ let p = at_pos(h, n, j); h_wk(h, n, at_pos(h, n, j + 1)) == h_wk(h, n, p) + h_ent(h, n, p) && 0 <= p < 64 && h.BitmapNode_kid[n][p] == at(h.arr_int, h.BitmapNode_children[n], j) })
{
    let l = h.BitmapNode_own[n]; let d = h.BitmapNode_dep[n]; let b = h.BitmapNode_bitmap[n];
    node_is(gv(h), h.Hamt_L[l], l, n);
    cpl_is(h, l, 0, n);
    child(h, n, d, j);
    let p = nth(b, j);
    let q = at_pos(h, n, j + 1);
    if j + 1 < h.BitmapNode_children[n].len { child(h, n, d, j + 1); if q <= p { rank_mono(b, q, p); } } else { rank_mono(b, p + 1, 64); }
    assert(rank(b, p + 1) == j + 1);
    assert forall|r: int| #![trigger h.BitmapNode_kid[n][r]] p + 1 <= r < q implies h.BitmapNode_kid[n][r] == 0 by {
        if h.BitmapNode_kid[n][r] != 0 { assert(bt(b, r)); rank_mono(b, p + 1, r); rank_mono(b, r, q); }
    }
    wk_gap(h.BitmapNode_kid, h.KvNode_hash, h.Hamt_L[l], n, d, p + 1, q);
    wk_slot(h, l, n, p);
}
pub proof fn wk_first(h: Heap, n: int)
    requires tree(h, h.BitmapNode_own[n], 0), n > 0
    ensures h_wk(h, n, at_pos(h, n, 0)) == Seq::<int>::empty()
{
    let l = h.BitmapNode_own[n]; let d = h.BitmapNode_dep[n]; let b = h.BitmapNode_bitmap[n];
    node_is(gv(h), h.Hamt_L[l], l, n);
    cpl_is(h, l, 0, n);
    let q = at_pos(h, n, 0);
    if h.BitmapNode_children[n].len > 0 { child(h, n, d, 0); }
    assert forall|r: int| #![trigger h.BitmapNode_kid[n][r]] 0 <= r < q implies h.BitmapNode_kid[n][r] == 0 by {
        if h.BitmapNode_kid[n][r] != 0 { assert(bt(b, r)); rank_mono(b, 0, r); rank_mono(b, r, q); }
    }
    wk_gap(h.BitmapNode_kid, h.KvNode_hash, h.Hamt_L[l], n, d, 0, q);
}
// the whole walk goes on from there
pub proof fn wk_rest(h: Heap, n: int, p: int)
    requires 0 <= p <= 64
    ensures h_wk(h, n, p).len() <= h_wk(h, n, 64).len(), h_wk(h, n, 64) == h_wk(h, n, p) + h_wk(h, n, 64).skip(h_wk(h, n, p).len() as int)
    decreases 64 - p
{
    let W = h_wk(h, n, 64);
    let A = h_wk(h, n, p);
    if p < 64 {
        wk_rest(h, n, p + 1);
        let B = h_wk(h, n, p + 1);
        if h.BitmapNode_dep[n] <= 10 { assert(B =~= A + B.skip(A.len() as int)) ; } else { assert(B =~= A); }
        assert(A + W.skip(A.len() as int) =~= W);
    } else { assert(A + W.skip(A.len() as int) =~= W); }
}
pub proof fn ents_cat(h: Heap, a: Seq<int>, b: Seq<int>)
    ensures h_ents(h, a + b) == h_ents(h, a) + h_ents(h, b), h_ents(h, Seq::empty()) == Seq::<(Val, Val)>::empty()
{ assert(h_ents(h, a + b) =~= h_ents(h, a) + h_ents(h, b)); assert(h_ents(h, Seq::empty()) =~= Seq::<(Val, Val)>::empty()); }
// so far: the children before number j, and i pairs of the list there
pub open spec fn seen(h: Heap, n: int, j: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>) -> bool { ran(f, t0, t, h_ents(h, h_wk(h, n, at_pos(h, n, j)))) }
pub open spec fn seen_list(h: Heap, n: int, j: int, i: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>) -> bool { ran(f, t0, t, h_ents(h, h_wk(h, n, at_pos(h, n, j)) + h_ent(h, n, at_pos(h, n, j)).take(i))) }
pub open spec fn over(h: Heap, n: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>, r: bool) -> bool { t == vrun(f, t0, w_ents(h, n)) && r == vall(f, t0, w_ents(h, n)) }
pub proof fn trav_first(h: Heap, n: int, f: int, t0: Seq<(Val, Val)>)
    requires tree(h, h.BitmapNode_own[n], 0), n > 0
    ensures seen(h, n, 0, f, t0, t0)
{ wk_first(h, n); ents_cat(h, Seq::empty(), Seq::empty()); }
pub proof fn trav_last(h: Heap, n: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>)
    requires seen(h, n, h.BitmapNode_children[n].len, f, t0, t)
    ensures over(h, n, f, t0, t, true)
{ }
pub proof fn trav_node(h: Heap, n: int, j: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>)
    requires tree(h, h.BitmapNode_own[n], 0), 0 <= j < h.BitmapNode_children[n].len, n > 0, seen(h, n, j, f, t0, t)
    ensures ({
        let e = at(h.arr_int, h.BitmapNode_children[n], j);
        &&& 0 < e < h.top && (kvn(e) || dyn_of(e) == dyn_BitmapNode() && h.BitmapNode_own[e] == h.BitmapNode_own[n] && h.BitmapNode_dep[e] == h.BitmapNode_dep[n] + 1 && h.BitmapNode_dep[n] <= 10)
        &&& kvn(e) ==> seen_list(h, n, j, 0, f, t0, t) && h_ent(h, n, at_pos(h, n, j)) == h.Hamt_L[h.BitmapNode_own[n]][h.KvNode_hash[e]] && h_list(h, h.BitmapNode_own[n], h.Hamt_L[h.BitmapNode_own[n]][h.KvNode_hash[e]], h.KvNode_hash[e]) && h_ent(h, n, at_pos(h, n, j)).len() > 0 && h.KvNode_kvList[e] == h_ent(h, n, at_pos(h, n, j))[0]
        &&& !kvn(e) ==> (if vall(f, t, w_ents(h, e)) { seen(h, n, j + 1, f, t0, vrun(f, t, w_ents(h, e))) } else { over(h, n, f, t0, vrun(f, t, w_ents(h, e)), false) })
    })
{
    let l = h.BitmapNode_own[n];
    let e = at(h.arr_int, h.BitmapNode_children[n], j);
    node_is(gv(h), h.Hamt_L[l], l, n);
    cpl_is(h, l, 0, n);
    child(h, n, h.BitmapNode_dep[n], j);
    wk_step(h, n, j);
    let p = at_pos(h, n, j);
    let q = at_pos(h, n, j + 1);
    slot_is(gv(h), h.Hamt_L[l], l, n, p);
    let A = h_wk(h, n, p); let B = h_ent(h, n, p);
    if kvn(e) {
        list_is(h, l, h.KvNode_hash[e]);
        assert(A + B.take(0) =~= A);
    } else {
        if j + 1 < h.BitmapNode_children[n].len { child(h, n, h.BitmapNode_dep[n], j + 1); }
        wk_rest(h, n, q);
        let R = h_wk(h, n, 64).skip(h_wk(h, n, q).len() as int);
        ents_cat(h, A, B);
        ents_cat(h, A + B, R);
        assert(h_ents(h, B) == w_ents(h, e));
        let a = w_ents(h, e);
        ran_on(f, t0, t, h_ents(h, A), a, vrun(f, t, a), vall(f, t, a), h_ents(h, R));
    }
}
pub proof fn trav_pair(h: Heap, n: int, j: int, i: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>)
    requires tree(h, h.BitmapNode_own[n], 0), 0 <= j < h.BitmapNode_children[n].len, n > 0, 0 <= i < h_ent(h, n, at_pos(h, n, j)).len(), seen_list(h, n, j, i, f, t0, t)
    ensures ({
        let q = h_ent(h, n, at_pos(h, n, j))[i]; let k = val_slice(h.KvPair_key[q]); let v = h.KvPair_value[q];
        if visr(f, t, k, v) { seen_list(h, n, j, i + 1, f, t0, t.push((k, v))) } else { over(h, n, f, t0, t.push((k, v)), false) }
    })
{
    let p = at_pos(h, n, j);
    let A = h_wk(h, n, p); let B = h_ent(h, n, p);
    let q = B[i]; let x = (val_slice(h.KvPair_key[q]), h.KvPair_value[q]);
    wk_step(h, n, j);
    let z = at_pos(h, n, j + 1);
    node_is(gv(h), h.Hamt_L[h.BitmapNode_own[n]], h.BitmapNode_own[n], n);
    cpl_is(h, h.BitmapNode_own[n], 0, n);
    if j + 1 < h.BitmapNode_children[n].len { child(h, n, h.BitmapNode_dep[n], j + 1); }
    wk_rest(h, n, z);
    let R = B.skip(i + 1) + h_wk(h, n, 64).skip(h_wk(h, n, z).len() as int);
    assert(A + B.take(i + 1) =~= (A + B.take(i)) + seq![q]);
    assert(h_wk(h, n, 64) =~= (A + B.take(i + 1)) + R);
    ents_cat(h, A + B.take(i), seq![q]);
    ents_cat(h, A + B.take(i + 1), R);
    assert(h_ents(h, seq![q]) =~= seq![x]);
    vrun_one(f, t, x);
    ran_on(f, t0, t, h_ents(h, A + B.take(i)), seq![x], t.push(x), visr(f, t, x.0, x.1), h_ents(h, R));
}
pub proof fn trav_list(h: Heap, n: int, j: int, f: int, t0: Seq<(Val, Val)>, t: Seq<(Val, Val)>)
    requires tree(h, h.BitmapNode_own[n], 0), 0 <= j < h.BitmapNode_children[n].len, n > 0, seen_list(h, n, j, h_ent(h, n, at_pos(h, n, j)).len() as int, f, t0, t)
    ensures seen(h, n, j + 1, f, t0, t)
{ wk_step(h, n, j); let p = at_pos(h, n, j); let B = h_ent(h, n, p); assert(B.take(B.len() as int) =~= B); }
pub open spec fn e_sl(E: Seq<(Val, Val)>) -> Seq<Slice> { Seq::new(E.len(), |i: int| unval_slice(E[i].0)) }
pub open spec fn s_bytes(h: Heap, s: Slice) -> Seq<Seq<u8>> { Seq::new(view(h.arr_Slice, s).len(), |i: int| view(h.arr_u8, view(h.arr_Slice, s)[i])) }
