pub open spec fn par(k: int) -> int { (k - 1) / 2 }
pub open spec fn le(f: int, a: Val, b: Val) -> bool { cmpv(f, a, b) <= 0 }
// the first n values are heap-ordered, as far as parents from lo on are concerned
pub open spec fn heap_from(f: int, s: Seq<Val>, lo: int, n: int) -> bool {
    forall|k: int| #![trigger s[k]] 1 <= k && k < n && lo <= par(k) ==> le(f, s[par(k)], s[k])
}
pub open spec fn heap_ord(f: int, s: Seq<Val>, n: int) -> bool { heap_from(f, s, 0, n) }
// ordered except below i (and, if top, above i); the children of i may stand below the parent of i
#[verifier::opaque]
pub open spec fn but_below(f: int, s: Seq<Val>, lo: int, i: int, n: int, top: bool) -> bool {
    &&& forall|k: int| #![trigger s[k]] 1 <= k && k < n && lo <= par(k) && par(k) != i && (top ==> k != i) ==> le(f, s[par(k)], s[k])
    &&& forall|k: int| #![trigger s[k]] 1 <= k && k < n && par(k) == i && i >= 1 && lo <= par(i) ==> le(f, s[par(i)], s[k])
}
// ordered except above j
#[verifier::opaque]
pub open spec fn but_above(f: int, s: Seq<Val>, j: int, n: int) -> bool {
    &&& forall|k: int| #![trigger s[k]] 1 <= k && k < n && k != j ==> le(f, s[par(k)], s[k])
    &&& forall|k: int| #![trigger s[k]] 1 <= k && k < n && par(k) == j && j >= 1 ==> le(f, s[par(j)], s[k])
}
pub open spec fn sw(s: Seq<Val>, i: int, j: int) -> Seq<Val> { s.update(i, s[j]).update(j, s[i]) }
pub proof fn sw_perm(s: Seq<Val>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len()
    ensures sw(s, i, j).to_multiset() == s.to_multiset()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let u = s.update(i, s[j]);
    assert(u.to_multiset() =~= s.to_multiset().insert(s[j]).remove(s[i]));
    if i != j {
        assert(u[j] == s[j]);
        assert(u.update(j, s[i]).to_multiset() =~= u.to_multiset().insert(s[i]).remove(u[j]));
        assert(sw(s, i, j).to_multiset() =~= s.to_multiset());
    } else {
        assert(sw(s, i, j) =~= s);
    }
}
pub proof fn down_step(f: int, s: Seq<Val>, lo: int, i: int, j: int, n: int, top: bool)
    requires cmp_ok(f), but_below(f, s, lo, i, n, top), 0 <= lo <= i, i < j < n <= s.len(), par(j) == i, le(f, s[j], s[i]),
        forall|k: int| 1 <= k < n && par(k) == i ==> le(f, s[j], s[k])
    ensures but_below(f, sw(s, i, j), lo, j, n, false)
{
    reveal(but_below);
    let t = sw(s, i, j);
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n && lo <= par(k) && par(k) != j implies le(f, t[par(k)], t[k]) by {
        assert(s[k] == s[k]);
        if k == i { assert(le(f, s[par(i)], s[j])); }
        else if par(k) == i { assert(le(f, s[j], s[k])); }
    }
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n && par(k) == j implies le(f, t[par(j)], t[k]) by { assert(le(f, s[par(k)], s[k])); }
}
pub proof fn down_done(f: int, s: Seq<Val>, lo: int, i: int, n: int, top: bool)
    requires cmp_ok(f), but_below(f, s, lo, i, n, top), forall|k: int| 1 <= k < n && par(k) == i ==> le(f, s[i], s[k])
    ensures !top ==> heap_from(f, s, lo, n), i == lo ==> heap_from(f, s, lo, n), i == 0 ==> heap_from(f, s, lo, n), lo == 0 ==> but_above(f, s, i, n)
{ reveal(but_below); reveal(but_above); }
pub proof fn down_start(f: int, s: Seq<Val>, t: Seq<Val>, i: int, n: int)
    requires heap_from(f, s, i + 1, n), 0 <= i
    ensures but_below(f, s, i, i, n, true)
{ reveal(but_below); }
pub proof fn down_changed(f: int, s: Seq<Val>, t: Seq<Val>, i: int, n: int)
    requires cmp_ok(f), heap_ord(f, s, n), 0 <= i, 0 <= n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n && k != i ==> #[trigger] t[k] == s[k]
    ensures but_below(f, t, 0, i, n, true)
{
    reveal(but_below);
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n && par(k) != i && k != i implies le(f, t[par(k)], t[k]) by { assert(le(f, s[par(k)], s[k])); assert(t[par(k)] == s[par(k)]); }
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n && par(k) == i && i >= 1 implies le(f, t[par(i)], t[k]) by { assert(le(f, s[par(k)], s[k])); assert(le(f, s[par(i)], s[i])); assert(t[par(i)] == s[par(i)]); }
}
pub proof fn up_step(f: int, s: Seq<Val>, i: int, j: int, n: int)
    requires cmp_ok(f), but_above(f, s, j, n), 1 <= j < n <= s.len(), i == par(j), cmpv(f, s[j], s[i]) < 0
    ensures but_above(f, sw(s, i, j), i, n)
{
    reveal(but_above);
    let t = sw(s, i, j);
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n && k != i implies le(f, t[par(k)], t[k]) by {
        if k == j { } else if par(k) == i { assert(le(f, s[i], s[k])); } else if par(k) == j { assert(le(f, s[par(j)], s[k])); } else { assert(le(f, s[par(k)], s[k])); }
    }
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n && par(k) == i && i >= 1 implies le(f, t[par(i)], t[k]) by {
        assert(le(f, s[par(i)], s[i]));
        if k != j { assert(le(f, s[i], s[k])); }
    }
}
pub proof fn up_done(f: int, s: Seq<Val>, j: int, n: int)
    requires but_above(f, s, j, n), j == 0 || le(f, s[par(j)], s[j])
    ensures heap_ord(f, s, n)
{ reveal(but_above); }
pub proof fn up_start(f: int, s: Seq<Val>, t: Seq<Val>, n: int)
    requires heap_ord(f, s, n), 0 <= n < t.len(), n <= s.len(), forall|k: int| 0 <= k < n ==> #[trigger] t[k] == s[k]
    ensures but_above(f, t, n, n + 1)
{
    reveal(but_above);
    assert forall|k: int| #![trigger t[k]] 1 <= k && k < n implies le(f, t[par(k)], t[k]) by { assert(le(f, s[par(k)], s[k])); assert(t[par(k)] == s[par(k)]); }
}
// the root precedes all
pub proof fn heap_min(f: int, s: Seq<Val>, n: int, k: int)
    requires cmp_ok(f), heap_ord(f, s, n), 0 <= k < n <= s.len()
    ensures le(f, s[0], s[k])
    decreases k
{
    assert(cmpv(f, s[0], s[0]) == 0);
    if k > 0 { assert(s[k] == s[k]); heap_min(f, s, n, par(k)); }
}
pub open spec fn min_of(f: int, s: Seq<Val>, v: Val) -> bool { forall|k: int| #![trigger s[k]] 0 <= k && k < s.len() ==> le(f, v, s[k]) }
pub proof fn root_min(f: int, s: Seq<Val>)
    requires cmp_ok(f), heap_ord(f, s, s.len() as int), s.len() > 0
    ensures min_of(f, s, s[0])
{
    assert forall|k: int| #![trigger s[k]] 0 <= k && k < s.len() implies le(f, s[0], s[k]) by { heap_min(f, s, s.len() as int, k); }
}
// taking the last of a rearrangement
pub proof fn drop_multi(s: Seq<Val>, t: Seq<Val>, r: Val)
    requires s.to_multiset() == t.to_multiset(), t.len() > 0, r == t.last()
    ensures t.drop_last().to_multiset() =~= s.to_multiset().remove(r)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(t =~= t.drop_last().push(t.last()));
    assert(t.drop_last().to_multiset().insert(r).remove(r) =~= t.drop_last().to_multiset());
}
pub open spec fn dn_post(f: int, s: Seq<Val>, lo: int, i0: int, n: int, moved: bool) -> bool {
    (moved ==> heap_from(f, s, lo, n)) && (i0 == lo ==> heap_from(f, s, lo, n)) && (lo == 0 && !moved ==> but_above(f, s, i0, n))
}
