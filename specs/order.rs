// ---------- sorted sequences of keys ----------
pub open spec fn keys(s: Seq<int>, k: IMap<int, Val>) -> Seq<Val> { Seq::new(s.len(), |i: int| k[s[i]]) }
pub open spec fn ents(s: Seq<int>, k: IMap<int, Val>, v: IMap<int, Val>) -> Seq<(Val, Val)> { Seq::new(s.len(), |i: int| (k[s[i]], v[s[i]])) }
#[verifier::opaque]
pub open spec fn srt(f: int, s: Seq<Val>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> cmpv(f, s[i], s[j]) <= 0 }
pub open spec fn at_or_nil(s: Seq<int>, i: int) -> int { if 0 <= i && i < s.len() { s[i] } else { 0 } }
// how many keys are below k (not above k): the position of the first key not less than (greater than) k
pub open spec fn lb(f: int, s: Seq<Val>, k: Val) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if cmpv(f, k, s.last()) > 0 { s.len() as int } else { lb(f, s.drop_last(), k) } }
pub open spec fn ub(f: int, s: Seq<Val>, k: Val) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if cmpv(f, k, s.last()) >= 0 { s.len() as int } else { ub(f, s.drop_last(), k) } }
pub proof fn srt_cut(f: int, s: Seq<Val>)
    requires srt(f, s), s.len() > 0
    ensures srt(f, s.drop_last())
{ reveal(srt); }
pub proof fn lb_is(f: int, s: Seq<Val>, k: Val)
    requires srt(f, s), cmp_ok(f)
    ensures 0 <= lb(f, s, k) <= ub(f, s, k) <= s.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (cmpv(f, k, s[i]) <= 0) == (i >= lb(f, s, k)) && (cmpv(f, k, s[i]) < 0) == (i >= ub(f, s, k)),
    decreases s.len()
{
    if s.len() > 0 {
        srt_cut(f, s);
        lb_is(f, s.drop_last(), k);
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies (cmpv(f, k, s[i]) <= 0) == (i >= lb(f, s, k)) && (cmpv(f, k, s[i]) < 0) == (i >= ub(f, s, k)) by {
            reveal(srt);
            let m = s.last();
            assert(cmpv(f, s[i], m) <= 0) by { assert(s[s.len() - 1] == m); }
            assert(i < s.len() - 1 ==> s.drop_last()[i] == s[i]);
            assert(sgn(cmpv(f, k, s[i])) == -sgn(cmpv(f, s[i], k)));
            assert(sgn(cmpv(f, k, m)) == -sgn(cmpv(f, m, k)));
            assert(cmpv(f, k, s[i]) <= 0 ==> cmpv(f, k, m) <= 0);
            assert(cmpv(f, m, k) <= 0 ==> cmpv(f, s[i], k) <= 0);
        }
    }
}
pub proof fn srt_ins(f: int, s: Seq<Val>, k: Val)
    requires srt(f, s), cmp_ok(f)
    ensures srt(f, s.insert(ub(f, s, k), k))
{
    lb_is(f, s, k);
    let p = ub(f, s, k);
    let t = s.insert(p, k);
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() implies cmpv(f, t[i], t[j]) <= 0 by {
        reveal(srt);
        assert(i < p ==> t[i] == s[i]); assert(i > p ==> t[i] == s[i - 1]); assert(j < p ==> t[j] == s[j]); assert(j > p ==> t[j] == s[j - 1]);
        if i < p { assert(sgn(cmpv(f, k, s[i])) == -sgn(cmpv(f, s[i], k))); }
        assert(cmpv(f, k, k) == 0);
    }
    assert(srt(f, t)) by { reveal(srt); }
}
pub proof fn srt_rem(f: int, s: Seq<Val>, p: int)
    requires srt(f, s), 0 <= p < s.len()
    ensures srt(f, s.remove(p))
{
    let t = s.remove(p);
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i <= j < t.len() implies cmpv(f, t[i], t[j]) <= 0 by {
        reveal(srt);
        assert(t[i] == s[if i < p { i } else { i + 1 }]); assert(t[j] == s[if j < p { j } else { j + 1 }]);
    }
    assert(srt(f, t)) by { reveal(srt); }
}
// the keys ascend strictly
#[verifier::opaque]
pub open spec fn strict(f: int, s: Seq<Val>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> cmpv(f, s[i], s[j]) < 0 }
pub proof fn strict_ins(f: int, s: Seq<Val>, k: Val)
    requires srt(f, s), strict(f, s), cmp_ok(f), lb(f, s, k) == ub(f, s, k)
    ensures strict(f, s.insert(ub(f, s, k), k))
{
    lb_is(f, s, k);
    reveal(strict);
    let p = ub(f, s, k);
    let r = s.insert(p, k);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cmpv(f, r[i], r[j]) < 0 by {
        let a = if i < p { s[i] } else if i == p { k } else { s[i - 1] };
        let b = if j < p { s[j] } else if j == p { k } else { s[j - 1] };
        assert(r[i] == a && r[j] == b);
        assert(sgn(cmpv(f, a, b)) == -sgn(cmpv(f, b, a)));
    }
}
pub proof fn strict_rem(f: int, s: Seq<Val>, p: int)
    requires strict(f, s), 0 <= p < s.len()
    ensures strict(f, s.remove(p))
{
    reveal(strict);
    let r = s.remove(p);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies cmpv(f, r[i], r[j]) < 0 by {
        assert(r[i] == s[if i < p { i } else { i + 1 }]);
        assert(r[j] == s[if j < p { j } else { j + 1 }]);
    }
}
// at most one key is equal to k
pub proof fn strict_one(f: int, s: Seq<Val>, k: Val)
    requires srt(f, s), strict(f, s), cmp_ok(f)
    ensures lb(f, s, k) <= ub(f, s, k) <= lb(f, s, k) + 1, 0 <= lb(f, s, k), ub(f, s, k) <= s.len()
{
    lb_is(f, s, k);
    reveal(strict);
    let p = lb(f, s, k);
    if ub(f, s, k) > p + 1 {
        let a = s[p]; let b = s[p + 1];
        assert(cmpv(f, a, b) < 0);
        assert(cmpv(f, k, a) == 0 && cmpv(f, k, b) == 0);
        assert(sgn(cmpv(f, a, k)) == -sgn(cmpv(f, k, a)));
        assert(sgn(cmpv(f, a, b)) == -sgn(cmpv(f, b, a)));
        assert(cmpv(f, b, k) <= 0) by { assert(sgn(cmpv(f, b, k)) == -sgn(cmpv(f, k, b))); }
        assert(cmpv(f, b, k) <= 0 && cmpv(f, k, a) <= 0);
        assert(cmpv(f, b, a) <= 0);
        assert(false);
    }
}
pub proof fn bound_is(f: int, s: Seq<Val>, k: Val, p: int, q: int)
    requires srt(f, s), cmp_ok(f), 0 <= p <= q <= s.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (cmpv(f, k, s[i]) <= 0) == (i >= p) && (cmpv(f, k, s[i]) < 0) == (i >= q)
    ensures lb(f, s, k) == p, ub(f, s, k) == q
{
    lb_is(f, s, k);
    if lb(f, s, k) < p { let x = s[lb(f, s, k)]; }
    if p < lb(f, s, k) { let x = s[p]; }
    if ub(f, s, k) < q { let x = s[ub(f, s, k)]; }
    if q < ub(f, s, k) { let x = s[q]; }
}
