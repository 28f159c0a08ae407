pub type Ring = IMap<u64, Seq<u8>>;
pub type Names = ISet<Seq<u8>>;
// ---------- the ring as a map from points to owners ----------
pub open spec fn e_key(E: Seq<(Val, Val)>, i: int) -> u64 { unval_u64(E[i].0) }
pub open spec fn e_has(E: Seq<(Val, Val)>, x: u64) -> bool { exists|i: int| 0 <= i < E.len() && #[trigger] e_key(E, i) == x }
pub open spec fn e_at(E: Seq<(Val, Val)>, x: u64) -> int { choose|i: int| 0 <= i < E.len() && #[trigger] e_key(E, i) == x }
#[verifier::opaque]
pub open spec fn ringe(E: Seq<(Val, Val)>) -> Ring { IMap::new(|x: u64| e_has(E, x), |x: u64| unval_str(E[e_at(E, x)].1)) }
#[verifier::opaque]
pub open spec fn e_strict(E: Seq<(Val, Val)>) -> bool { forall|i: int, j: int| #![trigger e_key(E, i), e_key(E, j)] 0 <= i < j < E.len() ==> e_key(E, i) < e_key(E, j) }
pub proof fn ring_at(E: Seq<(Val, Val)>, i: int)
    requires e_strict(E), 0 <= i < E.len()
    ensures ringe(E).dom().contains(e_key(E, i)), ringe(E)[e_key(E, i)] == unval_str(E[i].1)
{
    reveal(ringe); reveal(e_strict);
    let x = e_key(E, i);
    let j = e_at(E, x);
    assert(e_key(E, j) == x);
    if i < j { assert(e_key(E, i) < e_key(E, j)); }
    if j < i { assert(e_key(E, j) < e_key(E, i)); }
}
pub proof fn ring_in(E: Seq<(Val, Val)>, x: u64) -> (i: int)
    requires ringe(E).dom().contains(x)
    ensures 0 <= i < E.len(), e_key(E, i) == x
{ reveal(ringe); e_at(E, x) }
pub proof fn ring_ins(E: Seq<(Val, Val)>, p: int, k: Val, v: Val)
    requires e_strict(E), e_strict(E.insert(p, (k, v))), 0 <= p <= E.len()
    ensures ringe(E.insert(p, (k, v))) == ringe(E).insert(unval_u64(k), unval_str(v))
{
    let F = E.insert(p, (k, v));
    let R = ringe(E).insert(unval_u64(k), unval_str(v));
    assert(e_key(F, p) == unval_u64(k));
    assert forall|x: u64| #[trigger] ringe(F).dom().contains(x) == R.dom().contains(x) by {
        if ringe(F).dom().contains(x) {
            let i = ring_in(F, x);
            if i < p { assert(e_key(E, i) == x); ring_at(E, i); } else if i > p { assert(e_key(E, i - 1) == x); ring_at(E, i - 1); }
        }
        if R.dom().contains(x) {
            if x == unval_u64(k) { ring_at(F, p); }
            else { let i = ring_in(E, x); if i < p { assert(e_key(F, i) == x); ring_at(F, i); } else { assert(e_key(F, i + 1) == x); ring_at(F, i + 1); } }
        }
    }
    assert forall|x: u64| ringe(F).dom().contains(x) implies #[trigger] ringe(F)[x] == R[x] by {
        let i = ring_in(F, x);
        ring_at(F, i);
        if i < p { assert(e_key(E, i) == x); ring_at(E, i); reveal(e_strict); assert(e_key(F, i) < e_key(F, p)); }
        else if i > p { assert(e_key(E, i - 1) == x); ring_at(E, i - 1); reveal(e_strict); assert(e_key(F, p) < e_key(F, i)); }
    }
    assert(ringe(F) =~= R);
}
pub proof fn ring_rem(E: Seq<(Val, Val)>, p: int)
    requires e_strict(E), 0 <= p < E.len()
    ensures ringe(E.remove(p)) == ringe(E).remove(e_key(E, p)), e_strict(E.remove(p))
{
    let F = E.remove(p);
    assert(e_strict(F)) by {
        reveal(e_strict);
        assert forall|i: int, j: int| #![trigger e_key(F, i), e_key(F, j)] 0 <= i < j < F.len() implies e_key(F, i) < e_key(F, j) by {
            let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 };
            assert(e_key(F, i) == e_key(E, a) && e_key(F, j) == e_key(E, b));
        }
    }
    assert(F.insert(p, E[p]) =~= E);
    ring_ins(F, p, E[p].0, E[p].1);
    assert(!ringe(F).dom().contains(e_key(E, p))) by {
        if ringe(F).dom().contains(e_key(E, p)) {
            let i = ring_in(F, e_key(E, p));
            reveal(e_strict);
            let a = if i < p { i } else { i + 1 };
            assert(e_key(F, i) == e_key(E, a));
        }
    }
    assert(ringe(F) =~= ringe(E).remove(e_key(E, p)));
}
pub proof fn ring_none(E: Seq<(Val, Val)>)
    requires E.len() == 0
    ensures ringe(E) == IMap::<u64, Seq<u8>>::empty(), forall|x: u64| !#[trigger] ringe(E).dom().contains(x)
{ reveal(ringe); assert(ringe(E) =~= IMap::<u64, Seq<u8>>::empty()); }
pub open spec fn bare(R: Ring) -> bool { forall|x: u64| !#[trigger] R.dom().contains(x) }
pub proof fn ring_bare(E: Seq<(Val, Val)>)
    requires e_strict(E)
    ensures bare(ringe(E)) == (E.len() == 0)
{ if E.len() == 0 { ring_none(E); } else { ring_at(E, 0); } }
// ---------- lookups ----------
// how far it is clockwise from x to p
pub open spec fn dist(x: u64, p: u64) -> int { if p >= x { p - x } else { p - x + 0x1_0000_0000_0000_0000 } }
// p is the first point at or after x, wrapping around
pub open spec fn is_succ(R: Ring, x: u64, p: u64) -> bool { R.dom().contains(p) && forall|q: u64| #[trigger] R.dom().contains(q) ==> dist(x, p) <= dist(x, q) }
// ---------- placing and taking away points ----------
pub open spec fn pts(node: Seq<u8>, reps: int) -> Seq<u64> { gen_hashes(gc_ketama_salt() + node, reps) }
pub open spec fn add_pts(R: Ring, P: Seq<u64>, n: Seq<u8>, j: int) -> Ring
    decreases j
{
    if j <= 0 { R } else { let Q = add_pts(R, P, n, j - 1); if Q.dom().contains(P[j - 1]) { Q } else { Q.insert(P[j - 1], n) } }
}
pub open spec fn rem_pts(R: Ring, P: Seq<u64>, n: Seq<u8>, j: int) -> Ring
    decreases j
{
    if j <= 0 { R } else { let Q = rem_pts(R, P, n, j - 1); if Q.dom().contains(P[j - 1]) && Q[P[j - 1]] == n { Q.remove(P[j - 1]) } else { Q } }
}
pub open spec fn add_all(R: Ring, N: Seq<Seq<u8>>, reps: int, j: int) -> Ring
    decreases j
{
    if j <= 0 { R } else { add_pts(add_all(R, N, reps, j - 1), pts(N[j - 1], reps), N[j - 1], reps) }
}
pub open spec fn rem_all(R: Ring, N: Seq<Seq<u8>>, reps: int, j: int) -> Ring
    decreases j
{
    if j <= 0 { R } else { rem_pts(rem_all(R, N, reps, j - 1), pts(N[j - 1], reps), N[j - 1], reps) }
}
#[verifier::inline]
pub open spec fn among(N: Seq<Seq<u8>>, j: int, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < j && #[trigger] N[i] == n }
pub open spec fn with(M: Names, N: Seq<Seq<u8>>) -> Names { ISet::new(|n: Seq<u8>| M.contains(n) || N.contains(n)) }
pub open spec fn minus(M: Names, N: Seq<Seq<u8>>) -> Names { ISet::new(|n: Seq<u8>| M.contains(n) && !N.contains(n)) }
// n has point x
pub open spec fn has_pt(n: Seq<u8>, reps: int, x: u64) -> bool { exists|i: int| 0 <= i < reps && #[trigger] pts(n, reps)[i] == x }
// every point belongs to a present node, and is one of its points
#[verifier::opaque]
pub open spec fn own_ok(R: Ring, M: Names, reps: int) -> bool { forall|x: u64| #![trigger R.dom().contains(x)] R.dom().contains(x) ==> M.contains(R[x]) && has_pt(R[x], reps, x) }
// every point of every present node is on the ring, as that node's
pub open spec fn full(R: Ring, M: Names, reps: int) -> bool { forall|n: Seq<u8>, x: u64| #![trigger has_pt(n, reps, x)] M.contains(n) && has_pt(n, reps, x) ==> R.dom().contains(x) && R[x] == n }
// no two nodes' points coincide
pub open spec fn apart(M: Names, reps: int) -> bool { forall|n: Seq<u8>, m: Seq<u8>, x: u64| #![trigger has_pt(n, reps, x), has_pt(m, reps, x)] M.contains(n) && M.contains(m) && has_pt(n, reps, x) && has_pt(m, reps, x) ==> n == m }

// what is on the ring stays, what is new belongs to n
pub proof fn add_pts_is(R: Ring, P: Seq<u64>, n: Seq<u8>, j: int)
    requires 0 <= j
    ensures ({ let Q = add_pts(R, P, n, j);
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) || exists|i: int| 0 <= i < j && #[trigger] P[i] == x)
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) ==> Q[x] == (if R.dom().contains(x) { R[x] } else { n }) })
    decreases j
{
    if j > 0 {
        add_pts_is(R, P, n, j - 1);
        let S = add_pts(R, P, n, j - 1); let Q = add_pts(R, P, n, j);
        let y = P[j - 1];
        assert(Q.dom().contains(y));
        assert forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) || exists|i: int| 0 <= i < j && #[trigger] P[i] == x) by {
            assert(Q.dom().contains(x) == (S.dom().contains(x) || x == y));
        }
        assert forall|x: u64| #[trigger] Q.dom().contains(x) implies Q[x] == (if R.dom().contains(x) { R[x] } else { n }) by {
            assert(Q.dom().contains(x) == (S.dom().contains(x) || x == y));
            assert(R.dom().contains(x) ==> S.dom().contains(x));
        }
    }
}
pub proof fn rem_pts_is(R: Ring, P: Seq<u64>, n: Seq<u8>, j: int)
    requires 0 <= j
    ensures ({ let Q = rem_pts(R, P, n, j);
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) && !(R[x] == n && exists|i: int| 0 <= i < j && #[trigger] P[i] == x))
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) ==> Q[x] == R[x] })
    decreases j
{
    if j > 0 {
        rem_pts_is(R, P, n, j - 1);
        let S = rem_pts(R, P, n, j - 1); let Q = rem_pts(R, P, n, j);
        let y = P[j - 1];
        assert forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) && !(R[x] == n && exists|i: int| 0 <= i < j && #[trigger] P[i] == x)) by {
            assert(Q.dom().contains(x) == (S.dom().contains(x) && !(x == y && S[x] == n)));
        }
        assert forall|x: u64| #[trigger] Q.dom().contains(x) implies Q[x] == R[x] by {
            assert(Q.dom().contains(x) == (S.dom().contains(x) && !(x == y && S[x] == n)));
        }
    }
}
pub proof fn add_all_is(R: Ring, N: Seq<Seq<u8>>, reps: int, j: int)
    requires 0 <= reps, 0 <= j
    ensures ({ let Q = add_all(R, N, reps, j);
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) || exists|i: int| 0 <= i < j && has_pt(#[trigger] N[i], reps, x))
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) && R.dom().contains(x) ==> Q[x] == R[x]
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) && !R.dom().contains(x) ==> has_pt(Q[x], reps, x) && among(N, j, Q[x]) })
    decreases j
{
    if j > 0 {
        add_all_is(R, N, reps, j - 1);
        let S = add_all(R, N, reps, j - 1); let Q = add_all(R, N, reps, j);
        let n = N[j - 1];
        let P = pts(n, reps);
        add_pts_is(S, P, n, reps);
        assert forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) || exists|i: int| 0 <= i < j && has_pt(#[trigger] N[i], reps, x)) by {
            assert(has_pt(n, reps, x) <==> exists|i: int| 0 <= i < reps && #[trigger] P[i] == x);
            assert(Q.dom().contains(x) == (S.dom().contains(x) || has_pt(n, reps, x)));
        }
        assert forall|x: u64| #[trigger] Q.dom().contains(x) && R.dom().contains(x) implies Q[x] == R[x] by { assert(S.dom().contains(x)); }
        assert forall|x: u64| #[trigger] Q.dom().contains(x) && !R.dom().contains(x) implies has_pt(Q[x], reps, x) && among(N, j, Q[x]) by {
            assert(has_pt(n, reps, x) <==> exists|i: int| 0 <= i < reps && #[trigger] P[i] == x);
            if S.dom().contains(x) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] N[i] == S[x]; assert(N[i] == Q[x]); } else { assert(N[j - 1] == Q[x]); }
        }
    }
}
pub proof fn rem_all_is(R: Ring, N: Seq<Seq<u8>>, M: Names, reps: int, j: int)
    requires 0 <= reps, 0 <= j, own_ok(R, M, reps)
    ensures ({ let Q = rem_all(R, N, reps, j);
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) && !among(N, j, R[x]))
        &&& forall|x: u64| #[trigger] Q.dom().contains(x) ==> Q[x] == R[x] })
    decreases j
{
    if j > 0 {
        rem_all_is(R, N, M, reps, j - 1);
        let S = rem_all(R, N, reps, j - 1); let Q = rem_all(R, N, reps, j);
        let n = N[j - 1];
        let P = pts(n, reps);
        rem_pts_is(S, P, n, reps);
        reveal(own_ok);
        assert forall|x: u64| #[trigger] Q.dom().contains(x) <==> (R.dom().contains(x) && !among(N, j, R[x])) by {
            assert(has_pt(n, reps, x) <==> exists|i: int| 0 <= i < reps && #[trigger] P[i] == x);
            assert(Q.dom().contains(x) == (S.dom().contains(x) && !(S[x] == n && has_pt(n, reps, x))));
            if R.dom().contains(x) && !Q.dom().contains(x) && S.dom().contains(x) { assert(N[j - 1] == R[x]); }
        }
        assert forall|x: u64| #[trigger] Q.dom().contains(x) implies Q[x] == R[x] by { assert(S.dom().contains(x)); }
    }
}
// ---------- what Add and Remove come to ----------
// keys only go to the nodes added
pub open spec fn only_to(R: Ring, Q: Ring, N: Seq<Seq<u8>>) -> bool {
    forall|x: u64, p: u64, q: u64| #![trigger is_succ(R, x, p), is_succ(Q, x, q)] is_succ(R, x, p) && is_succ(Q, x, q) ==> N.contains(Q[q]) || Q[q] == R[p]
}
// only keys of the nodes removed move
pub open spec fn only_from(R: Ring, Q: Ring, N: Seq<Seq<u8>>) -> bool {
    forall|x: u64, p: u64| #![trigger is_succ(R, x, p)] is_succ(R, x, p) && !N.contains(R[p]) ==> is_succ(Q, x, p) && Q[p] == R[p]
}
pub proof fn same_owner(K: Names, reps: int, n: Seq<u8>, m: Seq<u8>, x: u64)
    requires apart(K, reps), K.contains(n), K.contains(m), has_pt(n, reps, x), has_pt(m, reps, x)
    ensures n == m
{}
pub proof fn full_at(R: Ring, N: Seq<Seq<u8>>, M: Names, reps: int, n: Seq<u8>, x: u64)
    requires 0 <= reps, full(R, M, reps), apart(with(M, N), reps), own_ok(add_all(R, N, reps, N.len() as int), with(M, N), reps), M.contains(n) || N.contains(n), has_pt(n, reps, x)
    ensures add_all(R, N, reps, N.len() as int).dom().contains(x), add_all(R, N, reps, N.len() as int)[x] == n
{
    let Q = add_all(R, N, reps, N.len() as int); let K = with(M, N);
    add_all_is(R, N, reps, N.len() as int);
    if M.contains(n) { assert(R.dom().contains(x)); } else { let i = choose|i: int| 0 <= i < N.len() && N[i] == n; assert(has_pt(N[i], reps, x)); }
    assert(Q.dom().contains(x));
    reveal(own_ok);
    let m = Q[x];
    assert(K.contains(m) && has_pt(m, reps, x));
    assert(K.contains(n));
    same_owner(K, reps, n, m, x);
}
pub proof fn full_add(R: Ring, N: Seq<Seq<u8>>, M: Names, reps: int)
    requires 0 <= reps, full(R, M, reps), apart(with(M, N), reps), own_ok(add_all(R, N, reps, N.len() as int), with(M, N), reps)
    ensures full(add_all(R, N, reps, N.len() as int), with(M, N), reps)
{
    let Q = add_all(R, N, reps, N.len() as int); let K = with(M, N);
    assert forall|n: Seq<u8>, x: u64| #![trigger has_pt(n, reps, x)] K.contains(n) && has_pt(n, reps, x) implies Q.dom().contains(x) && Q[x] == n by {
        assert(M.contains(n) || N.contains(n));
        full_at(R, N, M, reps, n, x);
        assert(Q.dom().contains(x)); assert(Q[x] == n);
    }
}
pub proof fn added(R: Ring, N: Seq<Seq<u8>>, M: Names, reps: int)
    requires 0 <= reps, own_ok(R, M, reps)
    ensures ({ let Q = add_all(R, N, reps, N.len() as int); let K = with(M, N);
        &&& own_ok(Q, K, reps)
        &&& only_to(R, Q, N)
        &&& full(R, M, reps) && apart(K, reps) ==> full(Q, K, reps)
        &&& full(R, M, reps) && (forall|i: int| 0 <= i < N.len() ==> M.contains(#[trigger] N[i])) ==> Q == R })
{
    let Q = add_all(R, N, reps, N.len() as int); let K = with(M, N);
    add_all_is(R, N, reps, N.len() as int);
    assert(own_ok(Q, K, reps)) by {
        reveal(own_ok);
        assert forall|x: u64| #![trigger Q.dom().contains(x)] Q.dom().contains(x) implies K.contains(Q[x]) && has_pt(Q[x], reps, x) by {
            if R.dom().contains(x) { assert(M.contains(R[x])); }
        }
    }
    assert forall|x: u64, p: u64, q: u64| #![trigger is_succ(R, x, p), is_succ(Q, x, q)] is_succ(R, x, p) && is_succ(Q, x, q) implies N.contains(Q[q]) || Q[q] == R[p] by {
        assert(Q.dom().contains(p) && Q.dom().contains(q));
        if R.dom().contains(q) { assert(dist(x, p) <= dist(x, q)); assert(dist(x, q) <= dist(x, p)); assert(p == q); }
    }
    if full(R, M, reps) && apart(K, reps) { full_add(R, N, M, reps); }
    if full(R, M, reps) && (forall|i: int| 0 <= i < N.len() ==> M.contains(#[trigger] N[i])) {
        assert(Q =~= R);
    }
}
pub proof fn removed(R: Ring, N: Seq<Seq<u8>>, M: Names, reps: int)
    requires 0 <= reps, own_ok(R, M, reps)
    ensures ({ let Q = rem_all(R, N, reps, N.len() as int); let K = minus(M, N);
        &&& own_ok(Q, K, reps)
        &&& only_from(R, Q, N)
        &&& full(R, M, reps) ==> full(Q, K, reps)
        &&& (forall|i: int| 0 <= i < N.len() ==> !M.contains(#[trigger] N[i])) ==> Q == R })
{
    let Q = rem_all(R, N, reps, N.len() as int); let K = minus(M, N);
    rem_all_is(R, N, M, reps, N.len() as int);
    assert forall|n: Seq<u8>| among(N, N.len() as int, n) == #[trigger] N.contains(n) by {}
    reveal(own_ok);
    assert(own_ok(Q, K, reps)) by {
        assert forall|x: u64| #![trigger Q.dom().contains(x)] Q.dom().contains(x) implies K.contains(Q[x]) && has_pt(Q[x], reps, x) by {
            assert(R.dom().contains(x)); assert(!N.contains(R[x]));
        }
    }
    assert forall|x: u64, p: u64| #![trigger is_succ(R, x, p)] is_succ(R, x, p) && !N.contains(R[p]) implies is_succ(Q, x, p) && Q[p] == R[p] by {
        assert(Q.dom().contains(p));
        assert forall|q: u64| #[trigger] Q.dom().contains(q) implies dist(x, p) <= dist(x, q) by { assert(R.dom().contains(q)); }
    }
    if full(R, M, reps) {
        assert forall|n: Seq<u8>, x: u64| #![trigger has_pt(n, reps, x)] K.contains(n) && has_pt(n, reps, x) implies Q.dom().contains(x) && Q[x] == n by {
            assert(M.contains(n) && !N.contains(n));
            assert(R.dom().contains(x) && R[x] == n);
            if among(N, N.len() as int, n) { let i = choose|i: int| 0 <= i < N.len() && N[i] == n; assert(N.contains(n)); }
            assert(Q.dom().contains(x));
        }
    }
    if forall|i: int| 0 <= i < N.len() ==> !M.contains(#[trigger] N[i]) {
        assert forall|x: u64| R.dom().contains(x) implies #[trigger] Q.dom().contains(x) by { assert(M.contains(R[x])); assert(!N.contains(R[x])); }
        assert(Q =~= R);
    }
}
// ---------- the structure ----------
#[verifier::inline]
pub open spec fn kt(h: Heap, k: int) -> int { h.Map_tree[h.Ketama_m[k]] }
#[verifier::inline]
pub open spec fn ring(h: Heap, k: int) -> Ring { ringe(t_ents(h, kt(h, k))) }
pub open spec fn k_shape(h: Heap, k: int) -> bool {
    &&& 0 < k && k < h.top && h.Ketama_locker[k] != 0 && 0 <= h.Ketama_replicas[k]
    &&& m_ok(h, h.Ketama_m[k]) && h.Map_locker[h.Ketama_m[k]] != h.Ketama_locker[k]
    &&& h.RbTree_keyCmp[kt(h, k)] == fv_comparator_Uint64Comparator()
}
pub open spec fn k_ok(h: Heap, k: int) -> bool { k_shape(h, k) && own_ok(ring(h, k), h.Ketama_members[k], h.Ketama_replicas[k]) }
// the comparator orders keys as integers
pub proof fn u64_cmp(a: Val, b: Val)
    ensures ({ let c = cmpv(fv_comparator_Uint64Comparator(), a, b); (c == 0) == (unval_u64(a) == unval_u64(b)) && (c < 0) == (unval_u64(a) < unval_u64(b)) })
{ ax_fv_comparator_Uint64Comparator(); let c = cmpv(fv_comparator_Uint64Comparator(), a, b); }
pub proof fn u64_ok()
    ensures cmp_ok(fv_comparator_Uint64Comparator())
{
    let f = fv_comparator_Uint64Comparator();
    assert forall|a: Val| #[trigger] cmpv(f, a, a) == 0 by { u64_cmp(a, a); }
    assert forall|a: Val, b: Val| sgn(#[trigger] cmpv(f, a, b)) == -sgn(cmpv(f, b, a)) by { u64_cmp(a, b); u64_cmp(b, a); }
    assert forall|a: Val, b: Val, c: Val| (#[trigger] cmpv(f, a, b)) <= 0 && (#[trigger] cmpv(f, b, c)) <= 0 implies cmpv(f, a, c) <= 0 by { u64_cmp(a, b); u64_cmp(b, c); u64_cmp(a, c); }
}
pub proof fn k_strict(h: Heap, k: int)
    requires k_shape(h, k)
    ensures e_strict(t_ents(h, kt(h, k)))
{
    let E = t_ents(h, kt(h, k)); let K = t_keys(h, kt(h, k));
    reveal(strict); reveal(e_strict);
    assert forall|i: int, j: int| #![trigger e_key(E, i), e_key(E, j)] 0 <= i < j < E.len() implies e_key(E, i) < e_key(E, j) by {
        assert(K[i] == E[i].0 && K[j] == E[j].0);
        u64_cmp(K[i], K[j]);
    }
}
// positions of the entries at or after x
pub proof fn k_find(h: Heap, k: int, x: u64)
    requires k_shape(h, k)
    ensures ({ let t = kt(h, k); let E = t_ents(h, t); let p = t_lb(h, t, val_u64(x)); let q = t_ub(h, t, val_u64(x));
        &&& 0 <= p <= q <= E.len() && E.len() == h.RbTree_seq[t].len()
        &&& e_strict(E)
        &&& (p == q) == !ring(h, k).dom().contains(x)
        &&& p < q ==> e_key(E, p) == x && ring(h, k)[x] == unval_str(E[p].1)
        &&& forall|i: int| 0 <= i < E.len() ==> (#[trigger] e_key(E, i) < x) == (i < p) })
{
    let t = kt(h, k); let f = h.RbTree_keyCmp[t]; let E = t_ents(h, t); let K = t_keys(h, t);
    k_strict(h, k);
    lb_is(f, K, val_u64(x));
    let p = t_lb(h, t, val_u64(x)); let q = t_ub(h, t, val_u64(x));
    assert forall|i: int| 0 <= i < E.len() implies (#[trigger] e_key(E, i) < x) == (i < p) && (e_key(E, i) <= x) == (i < q) by {
        assert(K[i] == E[i].0);
        u64_cmp(val_u64(x), K[i]);
        assert((cmpv(f, val_u64(x), K[i]) <= 0) == (i >= p));
        assert((cmpv(f, val_u64(x), K[i]) < 0) == (i >= q));
    }
    if p < q { ring_at(E, p); assert(e_key(E, p) <= x && !(e_key(E, p) < x)); }
    if ring(h, k).dom().contains(x) { let i = ring_in(E, x); }
}
// allocation leaves trees alone
pub proof fn grown(top: int)
    ensures forall|s: Seq<int>, a: int| #![trigger nodes_in(s, a)] nodes_in(s, a) && a <= top ==> nodes_in(s, top)
{ reveal(nodes_in); }
// the owner of the first point at or after x
pub proof fn got(h: Heap, k: int, x: u64)
    requires k_ok(h, k), t_ents(h, kt(h, k)).len() > 0
    ensures ({ let t = kt(h, k); let E = t_ents(h, t); let p = t_lb(h, t, val_u64(x)); let i = if p < E.len() { p } else { 0 };
        &&& is_succ(ring(h, k), x, e_key(E, i)) && ring(h, k)[e_key(E, i)] == unval_str(E[i].1)
        &&& h.Ketama_members[k].contains(unval_str(E[i].1)) && ring(h, k).dom().contains(e_key(E, i)) })
{
    let t = kt(h, k); let E = t_ents(h, t); let p = t_lb(h, t, val_u64(x)); let i = if p < E.len() { p } else { 0 };
    k_find(h, k, x);
    ring_at(E, i);
    reveal(own_ok);
    assert(ring(h, k).dom().contains(e_key(E, i)));
    assert forall|q: u64| #[trigger] ring(h, k).dom().contains(q) implies dist(x, e_key(E, i)) <= dist(x, q) by {
        let j = ring_in(E, q);
        reveal(e_strict);
        assert(i == j || e_key(E, i) < e_key(E, j) || e_key(E, j) < e_key(E, i));
        assert((e_key(E, i) < x) == (i < p) && (e_key(E, j) < x) == (j < p));
    }
}
