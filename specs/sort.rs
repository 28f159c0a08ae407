pub open spec fn it_rd(h: Heap, it: int) -> bool { true }
pub open spec fn it_pv(h: Heap, it: int) -> bool { true }
pub open spec fn in_rng(h: Heap, i: int) -> bool { it_ok(h, i) && 0 <= h.It_pos[i] && h.It_pos[i] < h.C_seq[h.It_cont[i]].len() }
pub open spec fn sw(s: Seq<Val>, i: int, j: int) -> Seq<Val> { s.update(i, s[j]).update(j, s[i]) }
// t holds in [lo, hi) the same values as s, and is s elsewhere
pub open spec fn same_out(s: Seq<Val>, t: Seq<Val>, lo: int, hi: int) -> bool {
    s.len() == t.len() && forall|i: int| #![trigger t[i]] 0 <= i && i < s.len() && !(lo <= i && i < hi) ==> t[i] == s[i]
}
pub open spec fn perm_in(s: Seq<Val>, t: Seq<Val>, lo: int, hi: int) -> bool {
    same_out(s, t, lo, hi) && t.to_multiset() == s.to_multiset()
}
pub proof fn sw_perm(s: Seq<Val>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len()
    ensures sw(s, i, j).to_multiset() == s.to_multiset(), sw(s, i, j).len() == s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let u = s.update(i, s[j]);
    assert(u.to_multiset() =~= s.to_multiset().insert(s[j]).remove(s[i]));
    if i != j {
        assert(u[j] == s[j]);
        assert(u.update(j, s[i]).to_multiset() =~= u.to_multiset().insert(s[i]).remove(u[j]));
        assert(sw(s, i, j).to_multiset() =~= s.to_multiset());
    } else {
        assert(sw(s, i, j) =~= s);
    }
}
pub proof fn sub_multiset(s: Seq<Val>, t: Seq<Val>, lo: int, hi: int)
    requires perm_in(s, t, lo, hi), 0 <= lo <= hi <= s.len()
    ensures s.subrange(lo, hi).to_multiset() =~= t.subrange(lo, hi).to_multiset()
{
    let a = s.subrange(0, lo); let b = s.subrange(lo, hi); let c = s.subrange(hi, s.len() as int);
    let b2 = t.subrange(lo, hi);
    assert(t.subrange(0, lo) =~= a);
    assert(t.subrange(hi, s.len() as int) =~= c);
    assert(s =~= a + b + c);
    assert(t =~= a + b2 + c);
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(a + b, c);
    vstd::seq_lib::lemma_multiset_commutative(a, b2);
    vstd::seq_lib::lemma_multiset_commutative(a + b2, c);
    assert forall|v: Val| b.to_multiset().count(v) == b2.to_multiset().count(v) by {
        assert(s.to_multiset().count(v) == a.to_multiset().count(v) + b.to_multiset().count(v) + c.to_multiset().count(v));
        assert(t.to_multiset().count(v) == a.to_multiset().count(v) + b2.to_multiset().count(v) + c.to_multiset().count(v));
    }
}
// every value of the permuted range was there before
pub proof fn perm_from(s: Seq<Val>, t: Seq<Val>, lo: int, hi: int)
    requires perm_in(s, t, lo, hi), 0 <= lo <= hi <= s.len()
    ensures forall|i: int| #![trigger t[i]] lo <= i && i < hi ==> exists|j: int| #![trigger s[j]] lo <= j && j < hi && t[i] == s[j]
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    sub_multiset(s, t, lo, hi);
    let b = s.subrange(lo, hi); let b2 = t.subrange(lo, hi);
    assert forall|i: int| #![trigger t[i]] lo <= i && i < hi implies exists|j: int| #![trigger s[j]] lo <= j && j < hi && t[i] == s[j] by {
        assert(b2[i - lo] == t[i]);
        assert(b2.contains(t[i]));
        assert(b2.to_multiset().count(t[i]) > 0);
        assert(b.to_multiset().count(t[i]) > 0);
        assert(b.contains(t[i]));
        let k = choose|k: int| 0 <= k < b.len() && b[k] == t[i];
        assert(s[lo + k] == t[i]);
    }
}
#[verifier::opaque]
pub open spec fn all_le(f: int, s: Seq<Val>, lo: int, hi: int, p: Val) -> bool { forall|i: int| #![trigger s[i]] lo <= i && i < hi ==> cmpv(f, s[i], p) <= 0 }
#[verifier::opaque]
pub open spec fn all_ge(f: int, s: Seq<Val>, lo: int, hi: int, p: Val) -> bool { forall|i: int| #![trigger s[i]] lo <= i && i < hi ==> cmpv(f, p, s[i]) <= 0 }
pub proof fn perm_le(f: int, s: Seq<Val>, t: Seq<Val>, lo: int, hi: int, p: Val)
    requires perm_in(s, t, lo, hi), lo > hi || 0 <= lo <= hi <= s.len()
    ensures all_le(f, s, lo, hi, p) ==> all_le(f, t, lo, hi, p), all_ge(f, s, lo, hi, p) ==> all_ge(f, t, lo, hi, p)
{
    reveal(all_le); reveal(all_ge);
    if lo <= hi { perm_from(s, t, lo, hi); }
}
// the two sides of a pivot at m, each sorted
pub proof fn sorted_join(f: int, s: Seq<Val>, lo: int, m: int, hi: int)
    requires cmp_ok(f), sorted(f, s, lo, m), sorted(f, s, m + 1, hi), lo <= m < hi, all_le(f, s, lo, m, s[m]), all_ge(f, s, m + 1, hi, s[m])
    ensures sorted(f, s, lo, hi)
{ reveal(all_le); reveal(all_ge); }

// ---------- stability ----------
// the values of s that compare equal to v, in order
pub open spec fn cls(f: int, v: Val) -> spec_fn(Val) -> bool { |x: Val| cmpv(f, x, v) == 0 }
#[verifier::inline]
pub open spec fn eqs(f: int, s: Seq<Val>, v: Val) -> Seq<Val> { s.filter(cls(f, v)) }
// same classes of equal values, each in the same order
pub open spec fn stable_of(f: int, s: Seq<Val>, t: Seq<Val>) -> bool { forall|v: Val| #![trigger cls(f, v)] s.filter(cls(f, v)) == t.filter(cls(f, v)) }
pub proof fn filter_add(f: int, a: Seq<Val>, b: Seq<Val>, v: Val)
    ensures (a + b).filter(cls(f, v)) == a.filter(cls(f, v)) + b.filter(cls(f, v))
{
    Seq::filter_distributes_over_add(a, b, cls(f, v));
}
pub proof fn filter_push(f: int, a: Seq<Val>, x: Val, v: Val)
    ensures a.push(x).filter(cls(f, v)) == (if cmpv(f, x, v) == 0 { a.filter(cls(f, v)).push(x) } else { a.filter(cls(f, v)) })
{
    reveal(Seq::filter);
    assert(a.push(x).drop_last() =~= a);
}
pub proof fn filter_none(f: int, a: Seq<Val>, v: Val)
    requires forall|i: int| 0 <= i < a.len() ==> cmpv(f, a[i], v) != 0
    ensures a.filter(cls(f, v)) == Seq::<Val>::empty()
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 { filter_none(f, a.drop_last(), v); }
    else { assert(a.filter(cls(f, v)) =~= Seq::<Val>::empty()); }
}
pub proof fn filter_count(f: int, a: Seq<Val>, v: Val)
    requires cmp_ok(f)
    ensures a.filter(cls(f, v)).to_multiset().count(v) == a.to_multiset().count(v)
    decreases a.len()
{
    reveal(Seq::filter);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if a.len() > 0 {
        filter_count(f, a.drop_last(), v);
        filter_push(f, a.drop_last(), a.last(), v);
        assert(a =~= a.drop_last().push(a.last()));
        assert(cmpv(f, v, v) == 0);
    } else { assert(a.filter(cls(f, v)) =~= Seq::<Val>::empty()); assert(a =~= Seq::<Val>::empty()); }
}
// a stable rearrangement is a rearrangement
pub proof fn stable_perm(f: int, s: Seq<Val>, t: Seq<Val>)
    requires cmp_ok(f), stable_of(f, s, t)
    ensures s.to_multiset() == t.to_multiset()
{
    assert forall|v: Val| s.to_multiset().count(v) == t.to_multiset().count(v) by { filter_count(f, s, v); filter_count(f, t, v); let p = cls(f, v); assert(s.filter(cls(f, v)) == t.filter(cls(f, v))); }
    assert(s.to_multiset() =~= t.to_multiset());
}
// stability of parts
pub open spec fn stable_in(f: int, s: Seq<Val>, t: Seq<Val>, lo: int, hi: int) -> bool {
    same_out(s, t, lo, hi) && (lo <= hi ==> stable_of(f, s.subrange(lo, hi), t.subrange(lo, hi)))
}
pub proof fn stable_add(f: int, a: Seq<Val>, b: Seq<Val>, c: Seq<Val>, d: Seq<Val>)
    requires stable_of(f, a, c), stable_of(f, b, d)
    ensures stable_of(f, a + b, c + d)
{
    assert forall|v: Val| #![trigger cls(f, v)] (a + b).filter(cls(f, v)) == (c + d).filter(cls(f, v)) by {
        filter_add(f, a, b, v); filter_add(f, c, d, v);
        let p = cls(f, v);
        assert(a.filter(cls(f, v)) == c.filter(cls(f, v)));
        assert(b.filter(cls(f, v)) == d.filter(cls(f, v)));
    }
}
pub proof fn stable_trans(f: int, a: Seq<Val>, b: Seq<Val>, c: Seq<Val>)
    requires stable_of(f, a, b), stable_of(f, b, c)
    ensures stable_of(f, a, c)
{
    assert forall|v: Val| #![trigger cls(f, v)] a.filter(cls(f, v)) == c.filter(cls(f, v)) by { assert(a.filter(cls(f, v)) == b.filter(cls(f, v))); assert(b.filter(cls(f, v)) == c.filter(cls(f, v))); }
}
pub proof fn stable_two(f: int, s: Seq<Val>, t: Seq<Val>, u: Seq<Val>, lo: int, mid: int, hi: int)
    requires 0 <= lo <= mid <= hi <= s.len(), stable_in(f, s, t, lo, mid), stable_in(f, t, u, mid, hi)
    ensures stable_in(f, s, u, lo, hi)
{
    let a = s.subrange(lo, mid); let b = s.subrange(mid, hi);
    let c = u.subrange(lo, mid); let d = u.subrange(mid, hi);
    assert(c =~= t.subrange(lo, mid));
    assert(b =~= t.subrange(mid, hi));
    stable_add(f, a, b, c, d);
    assert(a + b =~= s.subrange(lo, hi));
    assert(c + d =~= u.subrange(lo, hi));
}
// the whole of a range rearranged by a stable rearrangement of the range
pub proof fn stable_whole(f: int, s: Seq<Val>, t: Seq<Val>, lo: int, hi: int)
    requires cmp_ok(f), 0 <= lo <= hi <= s.len(), stable_in(f, s, t, lo, hi)
    ensures perm_in(s, t, lo, hi)
{
    let a = s.subrange(0, lo); let b = s.subrange(lo, hi); let c = s.subrange(hi, s.len() as int);
    let b2 = t.subrange(lo, hi);
    assert(t.subrange(0, lo) =~= a);
    assert(t.subrange(hi, s.len() as int) =~= c);
    assert(stable_of(f, a, a));
    assert(stable_of(f, c, c));
    stable_add(f, a, b, a, b2);
    stable_add(f, a + b, c, a + b2, c);
    assert(s =~= a + b + c);
    assert(t =~= a + b2 + c);
    stable_perm(f, s, t);
}
// ---------- merging ----------
// t is the stable merge of s[lo..i) and s[mid..j)
pub open spec fn merged(f: int, t: Seq<Val>, s: Seq<Val>, lo: int, i: int, mid: int, j: int) -> bool {
    stable_of(f, s.subrange(lo, i) + s.subrange(mid, j), t) && t.len() == i - lo + j - mid
}
pub proof fn merge_left(f: int, t: Seq<Val>, s: Seq<Val>, lo: int, i: int, mid: int, j: int)
    requires cmp_ok(f), 0 <= lo <= i < mid <= j <= s.len(), merged(f, t, s, lo, i, mid, j),
        forall|k: int| #![trigger s[k]] mid <= k && k < j ==> cmpv(f, s[k], s[i]) < 0
    ensures merged(f, t.push(s[i]), s, lo, i + 1, mid, j)
{
    let a = s.subrange(lo, i); let b = s.subrange(mid, j);
    assert(s.subrange(lo, i + 1) =~= a.push(s[i]));
    assert forall|v: Val| #![trigger cls(f, v)] (a.push(s[i]) + b).filter(cls(f, v)) == t.push(s[i]).filter(cls(f, v)) by {
        filter_add(f, a.push(s[i]), b, v);
        filter_push(f, a, s[i], v);
        filter_push(f, t, s[i], v);
        filter_add(f, a, b, v);
        assert((a + b).filter(cls(f, v)) == t.filter(cls(f, v)));
        if cmpv(f, s[i], v) == 0 {
            assert forall|k: int| 0 <= k < b.len() implies cmpv(f, b[k], v) != 0 by { assert(b[k] == s[mid + k]); assert(cmpv(f, v, s[i]) <= 0); }
            filter_none(f, b, v);
            assert(b.filter(cls(f, v)) =~= Seq::<Val>::empty());
            assert((a.push(s[i]) + b).filter(cls(f, v)) =~= t.push(s[i]).filter(cls(f, v)));
        }
    }
}
pub proof fn merge_right(f: int, t: Seq<Val>, s: Seq<Val>, lo: int, i: int, mid: int, j: int)
    requires cmp_ok(f), 0 <= lo <= i <= mid <= j < s.len(), merged(f, t, s, lo, i, mid, j)
    ensures merged(f, t.push(s[j]), s, lo, i, mid, j + 1)
{
    let a = s.subrange(lo, i); let b = s.subrange(mid, j);
    assert(s.subrange(mid, j + 1) =~= b.push(s[j]));
    assert(a + b.push(s[j]) =~= (a + b).push(s[j]));
    assert forall|v: Val| #![trigger cls(f, v)] (a + b.push(s[j])).filter(cls(f, v)) == t.push(s[j]).filter(cls(f, v)) by {
        filter_push(f, a + b, s[j], v);
        filter_push(f, t, s[j], v);
        assert((a + b).filter(cls(f, v)) == t.filter(cls(f, v)));
    }
}
pub proof fn merge_start(f: int, t: Seq<Val>, s: Seq<Val>, lo: int, mid: int)
    requires 0 <= lo <= mid <= s.len(), t.len() == 0
    ensures merged(f, t, s, lo, lo, mid, mid)
{
    assert(s.subrange(lo, lo) + s.subrange(mid, mid) =~= t);
}
pub proof fn merge_done(f: int, s: Seq<Val>, t: Seq<Val>, r: Seq<Val>, lo: int, mid: int, hi: int)
    requires 0 <= lo <= mid <= hi <= s.len(), merged(f, t, s, lo, mid, mid, hi), same_out(s, r, lo, hi), r.subrange(lo, hi) == t
    ensures stable_in(f, s, r, lo, hi)
{
    assert(s.subrange(lo, mid) + s.subrange(mid, hi) =~= s.subrange(lo, hi));
}
pub proof fn all_same(f: int, s: Seq<Val>, t: Seq<Val>, lo: int, hi: int, p: Val)
    requires 0 <= lo, hi <= s.len(), s.len() == t.len(), forall|i: int| lo <= i && i < hi ==> #[trigger] t[i] == s[i]
    ensures all_le(f, s, lo, hi, p) ==> all_le(f, t, lo, hi, p), all_ge(f, s, lo, hi, p) ==> all_ge(f, t, lo, hi, p)
{ reveal(all_le); reveal(all_ge); }

// position n of [lo, hi): nothing before is greater, nothing after is smaller
pub open spec fn nth_at(f: int, s: Seq<Val>, lo: int, n: int, hi: int) -> bool {
    &&& forall|i: int| #![trigger s[i]] lo <= i && i < n ==> cmpv(f, s[i], s[n]) <= 0
    &&& forall|i: int| #![trigger s[i]] n <= i && i < hi ==> cmpv(f, s[n], s[i]) <= 0
}
pub proof fn pivot_hi(f: int, s: Seq<Val>, lo: int, m: int)
    requires cmp_ok(f), all_le(f, s, lo, m, s[m])
    ensures all_le(f, s, lo, m + 1, s[m])
{ reveal(all_le); }
pub proof fn nth_low(f: int, s: Seq<Val>, lo: int, n: int, m: int, u: int, p: Val)
    requires cmp_ok(f), lo <= n <= m <= u, nth_at(f, s, lo, n, m + 1), all_le(f, s, lo, m + 1, p), all_ge(f, s, m + 1, u + 1, p)
    ensures nth_at(f, s, lo, n, u + 1)
{
    reveal(all_le); reveal(all_ge);
    assert(cmpv(f, s[n], p) <= 0);
}
pub proof fn nth_high(f: int, s: Seq<Val>, lo: int, m: int, n: int, u: int)
    requires cmp_ok(f), lo <= m < n <= u, nth_at(f, s, m + 1, n, u + 1), all_le(f, s, lo, m, s[m]), all_ge(f, s, m + 1, u + 1, s[m])
    ensures nth_at(f, s, lo, n, u + 1)
{
    reveal(all_le); reveal(all_ge);
    assert(cmpv(f, s[m], s[n]) <= 0);
}

// ---------- counting ----------
pub open spec fn cnt(p: spec_fn(Val) -> bool, s: Seq<Val>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { cnt(p, s.drop_last()) + (if p(s.last()) { 1int } else { 0 }) }
}
pub proof fn cnt_multi(p: spec_fn(Val) -> bool, s: Seq<Val>)
    ensures cnt(p, s) == s.to_multiset().filter(p).len()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    broadcast use vstd::multiset::group_multiset_axioms;
    if s.len() > 0 {
        cnt_multi(p, s.drop_last());
        let d = s.drop_last();
        assert(s =~= d.push(s.last()));
        let m = d.to_multiset();
        assert(s.to_multiset() =~= m.insert(s.last()));
        if p(s.last()) {
            assert(m.insert(s.last()).filter(p) =~= m.filter(p).insert(s.last()));
        } else {
            assert(m.insert(s.last()).filter(p) =~= m.filter(p));
        }
    } else {
        assert(s =~= Seq::<Val>::empty());
        assert(s.to_multiset().filter(p) =~= Multiset::<Val>::empty());
    }
}
pub proof fn cnt_add(p: spec_fn(Val) -> bool, a: Seq<Val>, b: Seq<Val>)
    ensures cnt(p, a + b) == cnt(p, a) + cnt(p, b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        cnt_add(p, a, b.drop_last());
    } else { assert(a + b =~= a); }
}
pub proof fn cnt_bounds(p: spec_fn(Val) -> bool, s: Seq<Val>)
    ensures 0 <= cnt(p, s) <= s.len(),
        (forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i])) ==> cnt(p, s) == 0,
        (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])) ==> cnt(p, s) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        cnt_bounds(p, s.drop_last());
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == #[trigger] s[i]);
        assert(s.last() == s[s.len() - 1]);
    }
}
pub proof fn cnt_some(p: spec_fn(Val) -> bool, s: Seq<Val>, i: int)
    requires 0 <= i < s.len(), p(s[i])
    ensures cnt(p, s) >= 1
    decreases s.len()
{
    cnt_bounds(p, s.drop_last());
    if i < s.len() - 1 { cnt_some(p, s.drop_last(), i); }
}
// two sequences equivalent element by element
pub proof fn cnt_equiv(f: int, p: spec_fn(Val) -> bool, a: Seq<Val>, b: Seq<Val>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> p(#[trigger] a[i]) == p(b[i])
    ensures cnt(p, a) == cnt(p, b)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies p(#[trigger] a.drop_last()[i]) == p(b.drop_last()[i]) by { assert(a.drop_last()[i] == a[i]); }
        cnt_equiv(f, p, a.drop_last(), b.drop_last());
        assert(p(a[a.len() - 1]) == p(b[b.len() - 1]));
    }
}
pub open spec fn gt_than(f: int, c: Val) -> spec_fn(Val) -> bool { |x: Val| cmpv(f, c, x) < 0 }
pub open spec fn lt_than(f: int, c: Val) -> spec_fn(Val) -> bool { |x: Val| cmpv(f, x, c) < 0 }
pub open spec fn between(f: int, c: Val, e: Val) -> spec_fn(Val) -> bool { |x: Val| cmpv(f, c, x) < 0 && cmpv(f, x, e) < 0 }
// the full sort of the same values has an equal value at position n
pub proof fn nth_sorted(f: int, s: Seq<Val>, t: Seq<Val>, lo: int, n: int, hi: int)
    requires cmp_ok(f), 0 <= lo <= n < hi <= s.len(), nth_at(f, s, lo, n, hi), perm_in(s, t, lo, hi), sorted(f, t, lo, hi)
    ensures cmpv(f, s[n], t[n]) == 0
{
    sub_multiset(s, t, lo, hi);
    let a = s.subrange(lo, hi); let b = t.subrange(lo, hi);
    if cmpv(f, t[n], s[n]) < 0 {
        let p = lt_than(f, s[n]);
        cnt_multi(p, a); cnt_multi(p, b);
        assert(a =~= s.subrange(lo, n) + s.subrange(n, hi));
        cnt_add(p, s.subrange(lo, n), s.subrange(n, hi));
        cnt_bounds(p, s.subrange(lo, n)); cnt_bounds(p, s.subrange(n, hi));
        assert(b =~= t.subrange(lo, n + 1) + t.subrange(n + 1, hi));
        cnt_add(p, t.subrange(lo, n + 1), t.subrange(n + 1, hi));
        assert forall|i: int| 0 <= i < n + 1 - lo implies p(#[trigger] t.subrange(lo, n + 1)[i]) by { assert(t.subrange(lo, n + 1)[i] == t[lo + i]); assert(cmpv(f, t[lo + i], t[n]) <= 0); }
        cnt_bounds(p, t.subrange(lo, n + 1)); cnt_bounds(p, t.subrange(n + 1, hi));
    }
    if cmpv(f, s[n], t[n]) < 0 {
        let p = gt_than(f, s[n]);
        cnt_multi(p, a); cnt_multi(p, b);
        assert(a =~= s.subrange(lo, n + 1) + s.subrange(n + 1, hi));
        cnt_add(p, s.subrange(lo, n + 1), s.subrange(n + 1, hi));
        assert forall|i: int| 0 <= i < n + 1 - lo implies !p(#[trigger] s.subrange(lo, n + 1)[i]) by { assert(s.subrange(lo, n + 1)[i] == s[lo + i]); assert(cmpv(f, s[n], s[n]) == 0); if lo + i < n { assert(cmpv(f, s[lo + i], s[n]) <= 0); } }
        cnt_bounds(p, s.subrange(lo, n + 1)); cnt_bounds(p, s.subrange(n + 1, hi));
        assert(b =~= t.subrange(lo, n) + t.subrange(n, hi));
        cnt_add(p, t.subrange(lo, n), t.subrange(n, hi));
        assert forall|i: int| 0 <= i < hi - n implies p(#[trigger] t.subrange(n, hi)[i]) by { assert(t.subrange(n, hi)[i] == t[n + i]); if i > 0 { assert(cmpv(f, t[n], t[n + i]) <= 0); } }
        cnt_bounds(p, t.subrange(lo, n)); cnt_bounds(p, t.subrange(n, hi));
    }
}
// ---------- lexicographic order of arrangements ----------
pub open spec fn lex_lt_at(f: int, a: Seq<Val>, b: Seq<Val>, lo: int, d: int) -> bool {
    cmpv(f, a[d], b[d]) < 0 && forall|i: int| #![trigger a[i]] #![trigger b[i]] lo <= i && i < d ==> cmpv(f, a[i], b[i]) == 0
}
pub open spec fn lex_lt(f: int, a: Seq<Val>, b: Seq<Val>, lo: int, hi: int) -> bool { exists|d: int| #![trigger lex_lt_at(f, a, b, lo, d)] lo <= d && d < hi && lex_lt_at(f, a, b, lo, d) }
pub open spec fn desc(f: int, s: Seq<Val>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i && i < j && j < hi ==> cmpv(f, s[j], s[i]) <= 0
}
// arrangements equivalent up to d have equivalent rests
pub proof fn suffix_cnt(f: int, p: spec_fn(Val) -> bool, a: Seq<Val>, b: Seq<Val>, lo: int, d: int, hi: int)
    requires perm_in(a, b, lo, hi), 0 <= lo <= d <= hi <= a.len(),
        forall|i: int| #![trigger a[i]] lo <= i && i < d ==> p(a[i]) == p(b[i])
    ensures cnt(p, a.subrange(d, hi)) == cnt(p, b.subrange(d, hi))
{
    sub_multiset(a, b, lo, hi);
    cnt_multi(p, a.subrange(lo, hi)); cnt_multi(p, b.subrange(lo, hi));
    assert(a.subrange(lo, hi) =~= a.subrange(lo, d) + a.subrange(d, hi));
    assert(b.subrange(lo, hi) =~= b.subrange(lo, d) + b.subrange(d, hi));
    cnt_add(p, a.subrange(lo, d), a.subrange(d, hi));
    cnt_add(p, b.subrange(lo, d), b.subrange(d, hi));
    assert forall|i: int| 0 <= i < d - lo implies p(#[trigger] a.subrange(lo, d)[i]) == p(b.subrange(lo, d)[i]) by { assert(a.subrange(lo, d)[i] == a[lo + i]); }
    cnt_equiv(f, p, a.subrange(lo, d), b.subrange(lo, d));
}
// nothing follows an arrangement whose rest from k on is descending, at a position from k on
pub proof fn no_later(f: int, a: Seq<Val>, b: Seq<Val>, lo: int, k: int, d: int, hi: int)
    requires cmp_ok(f), perm_in(a, b, lo, hi), 0 <= lo <= k <= d < hi <= a.len(), desc(f, a, k, hi), lex_lt_at(f, a, b, lo, d)
    ensures false
{
    let p = gt_than(f, a[d]);
    assert forall|i: int| #![trigger a[i]] lo <= i && i < d implies p(a[i]) == p(b[i]) by { assert(cmpv(f, a[i], b[i]) == 0); assert(cmpv(f, b[i], a[i]) == 0); if p(a[i]) { assert(cmpv(f, a[d], b[i]) <= 0); if cmpv(f, b[i], a[d]) <= 0 { assert(cmpv(f, a[i], a[d]) <= 0); } } if p(b[i]) { if cmpv(f, a[i], a[d]) <= 0 { assert(cmpv(f, b[i], a[d]) <= 0); } } }
    suffix_cnt(f, p, a, b, lo, d, hi);
    let x = a.subrange(d, hi); let y = b.subrange(d, hi);
    assert forall|i: int| 0 <= i < x.len() implies !p(#[trigger] x[i]) by { assert(x[i] == a[d + i]); if i > 0 { assert(cmpv(f, a[d + i], a[d]) <= 0); } else { assert(cmpv(f, a[d], a[d]) == 0); } }
    cnt_bounds(p, x);
    assert(y[0] == b[d]);
    cnt_some(p, y, 0);
}
pub proof fn is_last(f: int, a: Seq<Val>, lo: int, hi: int)
    requires cmp_ok(f), hi > lo ==> 0 <= lo && hi <= a.len(), desc(f, a, lo, hi)
    ensures forall|b: Seq<Val>| #![trigger lex_lt(f, a, b, lo, hi)] perm_in(a, b, lo, hi) ==> !lex_lt(f, a, b, lo, hi)
{
    assert forall|b: Seq<Val>| #![trigger lex_lt(f, a, b, lo, hi)] perm_in(a, b, lo, hi) implies !lex_lt(f, a, b, lo, hi) by {
        if lex_lt(f, a, b, lo, hi) {
            let d = choose|d: int| #![trigger lex_lt_at(f, a, b, lo, d)] lo <= d && d < hi && lex_lt_at(f, a, b, lo, d);
            no_later(f, a, b, lo, lo, d, hi);
        }
    }
}
// t is a with the value at k raised to the next greater one of its rest and that rest ascending
pub open spec fn next_of(f: int, a: Seq<Val>, t: Seq<Val>, lo: int, k: int, hi: int) -> bool {
    &&& perm_in(a, t, lo, hi) && lo <= k && k + 1 < hi
    &&& forall|i: int| #![trigger t[i]] lo <= i && i < k ==> t[i] == a[i]
    &&& cmpv(f, a[k], t[k]) < 0
    &&& desc(f, a, k + 1, hi) && sorted(f, t, k + 1, hi)
    &&& forall|i: int| #![trigger a[i]] k < i && i < hi ==> cmpv(f, a[i], a[k]) <= 0 || cmpv(f, t[k], a[i]) <= 0
}
pub proof fn is_next(f: int, a: Seq<Val>, t: Seq<Val>, lo: int, k: int, hi: int)
    requires cmp_ok(f), 0 <= lo, hi <= a.len(), next_of(f, a, t, lo, k, hi)
    ensures lex_lt(f, a, t, lo, hi),
        forall|b: Seq<Val>| #![trigger lex_lt(f, b, t, lo, hi)] perm_in(a, b, lo, hi) && lex_lt(f, a, b, lo, hi) ==> !lex_lt(f, b, t, lo, hi)
{
    assert(forall|x: Val| cmpv(f, x, x) == 0);
    assert(lex_lt_at(f, a, t, lo, k));
    assert forall|b: Seq<Val>| #![trigger lex_lt(f, b, t, lo, hi)] perm_in(a, b, lo, hi) && lex_lt(f, a, b, lo, hi) implies !lex_lt(f, b, t, lo, hi) by {
        if lex_lt(f, b, t, lo, hi) {
            let d = choose|d: int| #![trigger lex_lt_at(f, a, b, lo, d)] lo <= d && d < hi && lex_lt_at(f, a, b, lo, d);
            let e = choose|e: int| #![trigger lex_lt_at(f, b, t, lo, e)] lo <= e && e < hi && lex_lt_at(f, b, t, lo, e);
            next_one(f, a, t, b, lo, k, hi, d, e);
        }
    }
}
pub proof fn resp(f: int, x: Val, y: Val, c: Val)
    requires cmp_ok(f), cmpv(f, x, y) == 0
    ensures (cmpv(f, c, x) < 0) == (cmpv(f, c, y) < 0), (cmpv(f, x, c) < 0) == (cmpv(f, y, c) < 0), (cmpv(f, c, x) <= 0) == (cmpv(f, c, y) <= 0)
{
    assert(cmpv(f, y, x) == 0);
    if cmpv(f, x, c) <= 0 { assert(cmpv(f, y, c) <= 0); }
    if cmpv(f, y, c) <= 0 { assert(cmpv(f, x, c) <= 0); }
    if cmpv(f, c, x) <= 0 { assert(cmpv(f, c, y) <= 0); }
    if cmpv(f, c, y) <= 0 { assert(cmpv(f, c, x) <= 0); }
}
pub proof fn next_one(f: int, a: Seq<Val>, t: Seq<Val>, b: Seq<Val>, lo: int, k: int, hi: int, d: int, e: int)
    requires cmp_ok(f), 0 <= lo, hi <= a.len(), next_of(f, a, t, lo, k, hi), perm_in(a, b, lo, hi),
        lo <= d < hi, lex_lt_at(f, a, b, lo, d), lo <= e < hi, lex_lt_at(f, b, t, lo, e)
    ensures false
{
    assert(forall|x: Val| cmpv(f, x, x) == 0);
    if d > k { no_later(f, a, b, lo, k + 1, d, hi); }
    if d < k {
        assert(t[d] == a[d]);
        assert(cmpv(f, t[d], b[d]) < 0);
        if e < d { assert(t[e] == a[e]); assert(cmpv(f, a[e], b[e]) == 0); assert(cmpv(f, b[e], a[e]) == 0); }
        else if e > d { assert(cmpv(f, b[d], t[d]) == 0); }
        else { assert(cmpv(f, b[d], a[d]) < 0); }
    }
    if d == k {
        if e < k { assert(t[e] == a[e]); assert(cmpv(f, a[e], b[e]) == 0); assert(cmpv(f, b[e], a[e]) == 0); }
        else if e == k {
            // b[k] strictly between a[k] and t[k]
            let p = between(f, a[k], t[k]);
            assert forall|i: int| #![trigger a[i]] lo <= i && i < k implies p(a[i]) == p(b[i]) by { resp(f, a[i], b[i], a[k]); resp(f, a[i], b[i], t[k]); }
            suffix_cnt(f, p, a, b, lo, k, hi);
            let x = a.subrange(k, hi); let y = b.subrange(k, hi);
            assert forall|i: int| 0 <= i < x.len() implies !p(#[trigger] x[i]) by { assert(x[i] == a[k + i]); }
            cnt_bounds(p, x);
            assert(y[0] == b[k]);
            cnt_some(p, y, 0);
        } else {
            let p = lt_than(f, t[e]);
            assert(perm_in(b, t, lo, hi));
            assert forall|i: int| #![trigger b[i]] lo <= i && i < e implies p(b[i]) == p(t[i]) by { resp(f, b[i], t[i], t[e]); }
            suffix_cnt(f, p, b, t, lo, e, hi);
            let x = b.subrange(e, hi); let y = t.subrange(e, hi);
            assert forall|i: int| 0 <= i < y.len() implies !p(#[trigger] y[i]) by { assert(y[i] == t[e + i]); if i > 0 { assert(cmpv(f, t[e], t[e + i]) <= 0); } }
            cnt_bounds(p, y);
            assert(x[0] == b[e]);
            cnt_some(p, x, 0);
        }
    }
}
// s with [lo, hi] mirrored
pub open spec fn mirror(s: Seq<Val>, lo: int, hi: int) -> Seq<Val> {
    Seq::new(s.len(), |i: int| if lo <= i && i <= hi { s[lo + hi - i] } else { s[i] })
}
// every full sort of the range has an equal value at position n
pub open spec fn as_sorted(f: int, s: Seq<Val>, lo: int, n: int, hi: int) -> bool {
    forall|t: Seq<Val>| #![trigger sorted(f, t, lo, hi)] perm_in(s, t, lo, hi) && sorted(f, t, lo, hi) ==> cmpv(f, s[n], t[n]) == 0
}
pub proof fn nth_full(f: int, s: Seq<Val>, lo: int, n: int, hi: int)
    requires cmp_ok(f), 0 <= lo <= n < hi <= s.len(), nth_at(f, s, lo, n, hi)
    ensures as_sorted(f, s, lo, n, hi)
{
    assert forall|t: Seq<Val>| #![trigger sorted(f, t, lo, hi)] perm_in(s, t, lo, hi) && sorted(f, t, lo, hi) implies cmpv(f, s[n], t[n]) == 0 by { nth_sorted(f, s, t, lo, n, hi); }
}
