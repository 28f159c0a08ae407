// ---------- the tree behind a RbTree object ----------
// Every tree t carries the ghost sequence of its nodes in order; every node its owner, its position in
// that sequence, and the bounds lo..hi of the positions its subtree takes up.
pub struct T {
    pub l: IMap<int, int>, pub r: IMap<int, int>, pub p: IMap<int, int>,
    pub idx: IMap<int, int>, pub lo: IMap<int, int>, pub hi: IMap<int, int>, pub own: IMap<int, int>,
    pub seq: Seq<int>, pub root: int, pub t: int,
}
pub open spec fn tr(h: Heap, t: int) -> T {
    T { l: h.Node_left, r: h.Node_right, p: h.Node_parent, idx: h.Node_idx, lo: h.Node_lo, hi: h.Node_hi, own: h.Node_own,
        seq: h.RbTree_seq[t], root: h.RbTree_root[t], t: t }
}
#[verifier::opaque]
pub open spec fn mem(a: T, n: int) -> bool { n > 0 && a.own[n] == a.t && 0 <= a.idx[n] < a.seq.len() && a.seq[a.idx[n]] == n }
#[verifier::opaque]
pub open spec fn ok(a: T, n: int) -> bool {
    let l = a.l[n]; let r = a.r[n]; let p = a.p[n];
    &&& 0 <= a.lo[n] <= a.idx[n] < a.hi[n] <= a.seq.len()
    &&& if l == 0 { a.lo[n] == a.idx[n] } else { mem(a, l) && a.lo[l] == a.lo[n] && a.hi[l] == a.idx[n] && a.p[l] == n }
    &&& if r == 0 { a.hi[n] == a.idx[n] + 1 } else { mem(a, r) && a.lo[r] == a.idx[n] + 1 && a.hi[r] == a.hi[n] && a.p[r] == n }
    &&& if p == 0 { n == a.root && a.lo[n] == 0 && a.hi[n] == a.seq.len() } else { mem(a, p) && (n == a.l[p] || n == a.r[p]) }
}
#[verifier::opaque]
pub open spec fn sq(a: T) -> bool { forall|i: int| #![trigger a.seq[i]] 0 <= i < a.seq.len() ==> a.seq[i] > 0 && a.own[a.seq[i]] == a.t && a.idx[a.seq[i]] == i }
#[verifier::opaque]
pub open spec fn wf(a: T) -> bool {
    &&& (a.root == 0) == (a.seq.len() == 0)
    &&& a.root != 0 ==> mem(a, a.root) && a.p[a.root] == 0
    &&& sq(a)
    &&& forall|n: int| #![trigger mem(a, n)] mem(a, n) ==> ok(a, n)
}
pub proof fn mk_wf(a: T)
    requires (a.root == 0) == (a.seq.len() == 0), a.root != 0 ==> mem(a, a.root) && a.p[a.root] == 0, sq(a), forall|n: int| #![trigger mem(a, n)] mem(a, n) ==> ok(a, n)
    ensures wf(a)
{ reveal(wf); }
pub proof fn get_ok(a: T, n: int)
    requires wf(a), mem(a, n)
    ensures ok(a, n), n > 0, a.own[n] == a.t, 0 <= a.idx[n] < a.seq.len(), a.seq[a.idx[n]] == n
{ reveal(wf); reveal(mem); }
pub proof fn at_root(a: T)
    requires wf(a)
    ensures (a.root == 0) == (a.seq.len() == 0), a.root != 0 ==> mem(a, a.root) && a.p[a.root] == 0 && a.root > 0, sq(a),
        a.root != 0 ==> a.lo[a.root] == 0 && a.hi[a.root] == a.seq.len()
{ reveal(wf); reveal(mem); reveal(ok); }
pub proof fn open(a: T, n: int)
    requires wf(a), mem(a, n)
    ensures
        n > 0, 0 <= a.lo[n] <= a.idx[n] < a.hi[n] <= a.seq.len(), a.seq[a.idx[n]] == n, a.own[n] == a.t,
        a.l[n] == 0 ==> a.lo[n] == a.idx[n],
        a.l[n] != 0 ==> mem(a, a.l[n]) && a.lo[a.l[n]] == a.lo[n] && a.hi[a.l[n]] == a.idx[n] && a.p[a.l[n]] == n && a.idx[a.l[n]] < a.idx[n] && a.lo[n] < a.idx[n],
        a.r[n] == 0 ==> a.hi[n] == a.idx[n] + 1,
        a.r[n] != 0 ==> mem(a, a.r[n]) && a.lo[a.r[n]] == a.idx[n] + 1 && a.hi[a.r[n]] == a.hi[n] && a.p[a.r[n]] == n && a.idx[a.r[n]] > a.idx[n] && a.hi[n] > a.idx[n] + 1,
        a.p[n] == 0 ==> n == a.root && a.lo[n] == 0 && a.hi[n] == a.seq.len(),
        a.p[n] != 0 ==> mem(a, a.p[n]) && (n == a.l[a.p[n]] || n == a.r[a.p[n]]) && n != a.p[n] && n != a.root,
        a.l[n] != 0 ==> a.l[n] != a.r[n], a.l[n] >= 0, a.r[n] >= 0, a.p[n] >= 0,
{
    reveal(ok);
    get_ok(a, n);
    at_root(a);
    if a.l[n] != 0 { get_ok(a, a.l[n]); }
    if a.r[n] != 0 { get_ok(a, a.r[n]); }
    if a.p[n] != 0 { get_ok(a, a.p[n]); }
}
pub proof fn at_seq(a: T, i: int)
    requires wf(a), 0 <= i < a.seq.len()
    ensures mem(a, a.seq[i]), a.idx[a.seq[i]] == i
{ reveal(mem); reveal(sq); reveal(wf); }
pub proof fn mem_is(a: T, n: int)
    requires mem(a, n)
    ensures n > 0, a.own[n] == a.t, 0 <= a.idx[n] < a.seq.len(), a.seq[a.idx[n]] == n
{ reveal(mem); }
pub proof fn mem_same(a: T, c: T)
    requires a.own == c.own, a.idx == c.idx, a.seq == c.seq, a.t == c.t
    ensures forall|n: int| #![trigger mem(c, n)] #![trigger mem(a, n)] mem(c, n) == mem(a, n), sq(a) == sq(c)
{ reveal(mem); reveal(sq); }
// ---------- rotations ----------
pub open spec fn rotl(a: T, x: int) -> T {
    let y = a.r[x]; let b = a.l[y]; let q = a.p[x];
    T {
        l: (if q != 0 && a.l[q] == x { a.l.insert(q, y) } else { a.l }).insert(y, x),
        r: if q != 0 && a.l[q] != x { a.r.insert(x, b).insert(q, y) } else { a.r.insert(x, b) },
        p: (if b != 0 { a.p.insert(b, x) } else { a.p }).insert(y, q).insert(x, y),
        lo: a.lo.insert(y, a.lo[x]), hi: a.hi.insert(x, a.idx[y]),
        root: if q == 0 { y } else { a.root }, ..a
    }
}
pub open spec fn rotr(a: T, x: int) -> T {
    let y = a.l[x]; let b = a.r[y]; let q = a.p[x];
    T {
        r: (if q != 0 && a.r[q] == x { a.r.insert(q, y) } else { a.r }).insert(y, x),
        l: if q != 0 && a.r[q] != x { a.l.insert(x, b).insert(q, y) } else { a.l.insert(x, b) },
        p: (if b != 0 { a.p.insert(b, x) } else { a.p }).insert(y, q).insert(x, y),
        hi: a.hi.insert(y, a.hi[x]), lo: a.lo.insert(x, a.idx[y] + 1),
        root: if q == 0 { y } else { a.root }, ..a
    }
}
pub open spec fn teq(a: T, b: T) -> bool {
    a.l =~= b.l && a.r =~= b.r && a.p =~= b.p && a.idx =~= b.idx && a.lo =~= b.lo && a.hi =~= b.hi && a.own =~= b.own
        && a.seq =~= b.seq && a.root == b.root && a.t == b.t
}
proof fn rotl_ok(a: T, x: int, n: int)
    requires wf(a), mem(a, x), a.r[x] != 0, mem(a, n)
    ensures ok(rotl(a, x), n)
{
    let c = rotl(a, x);
    mem_same(a, c);
    let y = a.r[x]; let b = a.l[y]; let q = a.p[x];
    open(a, x); open(a, y); at_root(a);
    if b != 0 { open(a, b); }
    if q != 0 { open(a, q); }
    open(a, n);
    if a.l[n] != 0 { open(a, a.l[n]); }
    if a.r[n] != 0 { open(a, a.r[n]); }
    if a.p[n] != 0 { open(a, a.p[n]); }
    reveal(ok);
}
pub proof fn rotl_wf(a: T, x: int)
    requires wf(a), mem(a, x), a.r[x] != 0
    ensures wf(rotl(a, x)), forall|n: int| #![trigger mem(rotl(a, x), n)] mem(rotl(a, x), n) == mem(a, n)
{
    let c = rotl(a, x);
    mem_same(a, c);
    open(a, x); open(a, a.r[x]); at_root(a);
    assert forall|n: int| #![trigger mem(c, n)] mem(c, n) implies ok(c, n) by { rotl_ok(a, x, n); }
    mk_wf(c);
}
proof fn rotr_ok(a: T, x: int, n: int)
    requires wf(a), mem(a, x), a.l[x] != 0, mem(a, n)
    ensures ok(rotr(a, x), n)
{
    let c = rotr(a, x);
    mem_same(a, c);
    let y = a.l[x]; let b = a.r[y]; let q = a.p[x];
    open(a, x); open(a, y); at_root(a);
    if b != 0 { open(a, b); }
    if q != 0 { open(a, q); }
    open(a, n);
    if a.l[n] != 0 { open(a, a.l[n]); }
    if a.r[n] != 0 { open(a, a.r[n]); }
    if a.p[n] != 0 { open(a, a.p[n]); }
    reveal(ok);
}
pub proof fn rotr_wf(a: T, x: int)
    requires wf(a), mem(a, x), a.l[x] != 0
    ensures wf(rotr(a, x)), forall|n: int| #![trigger mem(rotr(a, x), n)] mem(rotr(a, x), n) == mem(a, n)
{
    let c = rotr(a, x);
    mem_same(a, c);
    open(a, x); open(a, a.l[x]); at_root(a);
    assert forall|n: int| #![trigger mem(c, n)] mem(c, n) implies ok(c, n) by { rotr_ok(a, x, n); }
    mk_wf(c);
}
// ---------- a new leaf z below y ----------
pub open spec fn ins_p(a: T, y: int, left: bool) -> int { if y == 0 { 0 } else if left { a.idx[y] } else { a.idx[y] + 1 } }
pub open spec fn ins_idx(a: T, y: int, left: bool, z: int) -> IMap<int, int> {
    let p = ins_p(a, y, left);
    IMap::new(|n: int| true, |n: int| if n == z { p } else if a.own[n] == a.t && a.idx[n] >= p { a.idx[n] + 1 } else { a.idx[n] })
}
pub open spec fn ins_lo(a: T, y: int, left: bool, z: int) -> IMap<int, int> {
    let p = ins_p(a, y, left);
    IMap::new(|n: int| true, |n: int| if n == z { p } else if a.own[n] == a.t && (a.lo[n] > p || (a.lo[n] == p && !left)) { a.lo[n] + 1 } else { a.lo[n] })
}
pub open spec fn ins_hi(a: T, y: int, left: bool, z: int) -> IMap<int, int> {
    let p = ins_p(a, y, left);
    IMap::new(|n: int| true, |n: int| if n == z { p + 1 } else if a.own[n] == a.t && (a.hi[n] > p || (a.hi[n] == p && !left)) { a.hi[n] + 1 } else { a.hi[n] })
}
// a with the new node z linked in below y
pub open spec fn ins(a: T, y: int, left: bool, z: int) -> T {
    T {
        l: (if y != 0 && left { a.l.insert(y, z) } else { a.l }).insert(z, 0),
        r: (if y != 0 && !left { a.r.insert(y, z) } else { a.r }).insert(z, 0),
        p: a.p.insert(z, y), own: a.own.insert(z, a.t),
        idx: ins_idx(a, y, left, z), lo: ins_lo(a, y, left, z), hi: ins_hi(a, y, left, z),
        seq: a.seq.insert(ins_p(a, y, left), z), root: if y == 0 { z } else { a.root }, ..a
    }
}
pub open spec fn ins_pre(a: T, y: int, left: bool, z: int) -> bool {
    wf(a) && z > 0 && !mem(a, z) && a.t != 0 && (if y == 0 { a.root == 0 } else { mem(a, y) && (if left { a.l[y] == 0 } else { a.r[y] == 0 }) })
}
proof fn ins_mem(a: T, y: int, left: bool, z: int)
    requires ins_pre(a, y, left, z)
    ensures mem(ins(a, y, left, z), z), sq(ins(a, y, left, z)),
        forall|n: int| #![trigger mem(a, n)] #![trigger mem(ins(a, y, left, z), n)] n != z ==> mem(a, n) == mem(ins(a, y, left, z), n)
{
    let c = ins(a, y, left, z);
    let p = ins_p(a, y, left);
    if y != 0 { open(a, y); }
    at_root(a);
    assert forall|i: int| #![trigger c.seq[i]] 0 <= i < c.seq.len() implies c.seq[i] > 0 && c.own[c.seq[i]] == c.t && c.idx[c.seq[i]] == i by {
        reveal(mem);
        if i < p { at_seq(a, i); assert(c.seq[i] == a.seq[i]); } else if i > p { at_seq(a, i - 1); assert(c.seq[i] == a.seq[i - 1]); }
    }
    assert(sq(c)) by { reveal(sq); }
    assert forall|n: int| #![trigger mem(a, n)] #![trigger mem(c, n)] n != z implies mem(a, n) == mem(c, n) by {
        reveal(mem);
        if mem(c, n) {
            let i = c.idx[n];
            if i < p { at_seq(a, i); } else if i > p { at_seq(a, i - 1); }
        }
    }
    assert(mem(c, z)) by { reveal(mem); }
}
proof fn ins_ok(a: T, y: int, left: bool, z: int, n: int)
    requires ins_pre(a, y, left, z), n == z || mem(a, n)
    ensures ok(ins(a, y, left, z), n)
{
    let c = ins(a, y, left, z);
    ins_mem(a, y, left, z);
    at_root(a);
    if y != 0 { open(a, y); }
    if n != z {
        open(a, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        if a.p[n] != 0 { open(a, a.p[n]); }
    }
    assert(n == z || mem(c, n)); 
    if a.l[n] != 0 && n != z { assert(mem(c, a.l[n])); }
    if a.r[n] != 0 && n != z { assert(mem(c, a.r[n])); }
    if a.p[n] != 0 && n != z { assert(mem(c, a.p[n])); }
    if y != 0 { assert(mem(c, y)); }
    reveal(ok);
}
pub proof fn ins_wf(a: T, y: int, left: bool, z: int)
    requires ins_pre(a, y, left, z)
    ensures wf(ins(a, y, left, z)), mem(ins(a, y, left, z), z),
        forall|n: int| #![trigger mem(a, n)] #![trigger mem(ins(a, y, left, z), n)] n != z ==> mem(a, n) == mem(ins(a, y, left, z), n)
{
    let c = ins(a, y, left, z);
    ins_mem(a, y, left, z);
    at_root(a);
    if y != 0 { open(a, y); assert(mem(c, a.root)); get_ok(a, a.root); }
    assert forall|n: int| #![trigger mem(c, n)] mem(c, n) implies ok(c, n) by { ins_ok(a, y, left, z, n); }
    mk_wf(c);
}
// ---------- node y spliced out, its only child in its place ----------
pub open spec fn only(a: T, y: int) -> int { if a.l[y] != 0 { a.l[y] } else { a.r[y] } }
pub open spec fn victim(a: T, z: int) -> int { if a.l[z] != 0 && a.r[z] != 0 { a.seq[a.idx[z] + 1] } else { z } }
pub open spec fn cut(a: T, m: IMap<int, int>, p: int) -> IMap<int, int> {
    IMap::new(|n: int| true, |n: int| if a.own[n] == a.t && m[n] > p { m[n] - 1 } else { m[n] })
}
pub open spec fn del(a: T, y: int) -> T {
    let q = a.p[y]; let x = only(a, y); let p = a.idx[y];
    T {
        p: if x != 0 { a.p.insert(x, q) } else { a.p },
        l: if q != 0 && a.l[q] == y { a.l.insert(q, x) } else { a.l },
        r: if q != 0 && a.l[q] != y { a.r.insert(q, x) } else { a.r },
        root: if q == 0 { x } else { a.root },
        own: a.own.insert(y, 0), idx: cut(a, a.idx, p), lo: cut(a, a.lo, p), hi: cut(a, a.hi, p),
        seq: a.seq.remove(p), ..a
    }
}
pub open spec fn del_pre(a: T, y: int) -> bool { wf(a) && mem(a, y) && a.t != 0 && (a.l[y] == 0 || a.r[y] == 0) }
proof fn del_mem(a: T, y: int)
    requires del_pre(a, y)
    ensures sq(del(a, y)), !mem(del(a, y), y), forall|n: int| #![trigger mem(a, n)] #![trigger mem(del(a, y), n)] mem(del(a, y), n) == (mem(a, n) && n != y)
{
    let c = del(a, y);
    let p = a.idx[y];
    open(a, y);
    assert forall|i: int| #![trigger c.seq[i]] 0 <= i < c.seq.len() implies c.seq[i] > 0 && c.own[c.seq[i]] == c.t && c.idx[c.seq[i]] == i by {
        reveal(mem);
        if i < p { at_seq(a, i); assert(c.seq[i] == a.seq[i]); } else { at_seq(a, i + 1); assert(c.seq[i] == a.seq[i + 1]); }
    }
    assert(sq(c)) by { reveal(sq); }
    assert forall|n: int| #![trigger mem(a, n)] #![trigger mem(c, n)] mem(c, n) == (mem(a, n) && n != y) by {
        reveal(mem);
        if mem(c, n) {
            let i = c.idx[n];
            if i < p { at_seq(a, i); } else { at_seq(a, i + 1); }
        }
    }
}
proof fn del_ok(a: T, y: int, n: int)
    requires del_pre(a, y), mem(a, n), n != y
    ensures ok(del(a, y), n)
{
    let c = del(a, y);
    let q = a.p[y]; let x = only(a, y);
    del_mem(a, y);
    at_root(a);
    open(a, y);
    if q != 0 { open(a, q); assert(mem(c, q)); }
    if x != 0 { open(a, x); assert(mem(c, x)); }
    open(a, n);
    if a.l[n] != 0 { open(a, a.l[n]); }
    if a.r[n] != 0 { open(a, a.r[n]); }
    if a.p[n] != 0 { open(a, a.p[n]); }
    if a.l[n] != 0 && a.l[n] != y { assert(mem(c, a.l[n])); }
    if a.r[n] != 0 && a.r[n] != y { assert(mem(c, a.r[n])); }
    if a.p[n] != 0 && a.p[n] != y { assert(mem(c, a.p[n])); }
    reveal(ok);
}
pub proof fn del_wf(a: T, y: int)
    requires del_pre(a, y)
    ensures wf(del(a, y)), !mem(del(a, y), y), forall|n: int| #![trigger mem(a, n)] #![trigger mem(del(a, y), n)] mem(del(a, y), n) == (mem(a, n) && n != y)
{
    let c = del(a, y);
    let q = a.p[y]; let x = only(a, y);
    del_mem(a, y);
    at_root(a);
    open(a, y);
    if q != 0 { open(a, q); }
    if x != 0 { open(a, x); assert(mem(c, x)); }
    assert forall|n: int| #![trigger mem(c, n)] mem(c, n) implies ok(c, n) by { del_ok(a, y, n); }
    mk_wf(c);
}
// ---------- a tree none of whose nodes changed ----------
pub open spec fn same_at(a: T, c: T, n: int) -> bool {
    a.l[n] == c.l[n] && a.r[n] == c.r[n] && a.p[n] == c.p[n] && a.idx[n] == c.idx[n] && a.lo[n] == c.lo[n] && a.hi[n] == c.hi[n] && a.own[n] == c.own[n]
}
pub proof fn frame_wf(a: T, c: T)
    requires wf(a), a.seq == c.seq, a.root == c.root, a.t == c.t, forall|n: int| #![trigger mem(a, n)] mem(a, n) ==> same_at(a, c, n)
    ensures wf(c), forall|n: int| #![trigger mem(c, n)] mem(c, n) == mem(a, n)
{
    assert forall|n: int| #![trigger mem(c, n)] mem(c, n) == mem(a, n) by {
        if mem(c, n) { mem_is(c, n); at_seq(a, c.idx[n]); }
        if mem(a, n) { mem_is(a, n); reveal(mem); }
    }
    assert forall|n: int| #![trigger mem(c, n)] mem(c, n) implies ok(c, n) by {
        open(a, n);
        reveal(ok);
    }
    at_root(a);
    assert forall|i: int| #![trigger c.seq[i]] 0 <= i < c.seq.len() implies c.seq[i] > 0 && c.own[c.seq[i]] == c.t && c.idx[c.seq[i]] == i by { at_seq(a, i); mem_is(a, a.seq[i]); }
    assert(sq(c)) by { reveal(sq); }
    mk_wf(c);
}
// ---------- colours ----------
// b gives the number of black nodes on every path down from a node
pub type CM = IMap<int, bool>;
pub type BM = IMap<int, int>;
pub open spec fn bhof(b: BM, n: int) -> int { if n == 0 { 0 } else { b[n] } }
pub open spec fn blk(c: CM, n: int) -> bool { n == 0 || c[n] }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
// node n obeys the rules, but for a red child e, or for its own colour if it is f
#[verifier::opaque]
pub open spec fn cn(a: T, c: CM, b: BM, n: int, e: int, f: int) -> bool {
    let l = a.l[n]; let r = a.r[n];
    &&& bhof(b, l) == bhof(b, r) && bhof(b, l) >= 0 && b[n] == bhof(b, l) + one(c[n])
    &&& c[n] || n == f || ((blk(c, l) || l == e) && (blk(c, r) || r == e))
}
#[verifier::opaque]
pub open spec fn cs(a: T, c: CM, b: BM, e: int, q: int, f: int) -> bool { forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != q ==> cn(a, c, b, n, e, f) }
pub proof fn copen(a: T, c: CM, b: BM, e: int, q: int, f: int, n: int)
    requires cs(a, c, b, e, q, f), mem(a, n), n != q
    ensures
        bhof(b, a.l[n]) == bhof(b, a.r[n]), bhof(b, a.l[n]) >= 0, b[n] == bhof(b, a.l[n]) + one(c[n]),
        c[n] || n == f || ((blk(c, a.l[n]) || a.l[n] == e) && (blk(c, a.r[n]) || a.r[n] == e)),
{ reveal(cs); reveal(cn); }
pub proof fn mk_cs(a: T, c: CM, b: BM, e: int, q: int, f: int)
    requires forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != q ==> cn(a, c, b, n, e, f)
    ensures cs(a, c, b, e, q, f)
{ reveal(cs); }
// during an insertion: all rules hold, but the red node z may have a red parent or be the root; z == 0: all rules hold
pub open spec fn cib(a: T, c: CM, b: BM, z: int) -> bool {
    cs(a, c, b, z, 0, 0) && (z != 0 ==> mem(a, z) && !c[z]) && (a.root == 0 || a.root == z || c[a.root])
}
pub open spec fn ci(a: T, c: CM, z: int) -> bool { exists|b: BM| #[trigger] cib(a, c, b, z) }
pub open spec fn red_black(a: T, c: CM) -> bool { ci(a, c, 0) }
pub open spec fn ins_step(a: T, c: CM, z: int) -> (T, CM, int) {
    let p = a.p[z]; let g = a.p[p];
    let u = if p == a.l[g] { a.r[g] } else { a.l[g] };
    if !blk(c, u) { (a, c.insert(p, true).insert(u, true).insert(g, false), g) }
    else if p == a.l[g] {
        let z1 = if z == a.r[p] { p } else { z };
        let a1 = if z == a.r[p] { rotl(a, p) } else { a };
        let p1 = a1.p[z1];
        (rotr(a1, a1.p[p1]), c.insert(p1, true).insert(a1.p[p1], false), z1)
    } else {
        let z1 = if z == a.l[p] { p } else { z };
        let a1 = if z == a.l[p] { rotr(a, p) } else { a };
        let p1 = a1.p[z1];
        (rotl(a1, a1.p[p1]), c.insert(p1, true).insert(a1.p[p1], false), z1)
    }
}
proof fn ins_recolour(a: T, c: CM, b: BM, z: int)
    requires wf(a), cib(a, c, b, z), z != 0, a.p[z] != 0, !c[a.p[z]], ({ let p = a.p[z]; let g = a.p[p]; !blk(c, if p == a.l[g] { a.r[g] } else { a.l[g] }) })
    ensures a.p[a.p[z]] != 0, ci(a, ins_step(a, c, z).1, a.p[a.p[z]])
{
    let p = a.p[z]; let g = a.p[p];
    let u = if p == a.l[g] { a.r[g] } else { a.l[g] };
    let c1 = ins_step(a, c, z).1;
    let b1 = b.insert(p, b[p] + 1).insert(u, b[u] + 1);
    open(a, z); open(a, p); at_root(a);
    assert(g != 0);
    open(a, g); open(a, u);
    copen(a, c, b, z, 0, 0, p); copen(a, c, b, z, 0, 0, g); copen(a, c, b, z, 0, 0, u);
    assert forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != 0 implies cn(a, c1, b1, n, g, 0) by {
        open(a, n); copen(a, c, b, z, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a, c1, b1, g, 0, 0);
    assert(cib(a, c1, b1, g));
}
proof fn ins_inner_rotl(a: T, c: CM, b: BM, z: int)
    requires wf(a), cib(a, c, b, z), z != 0, a.p[z] != 0, !c[a.p[z]], z == a.r[a.p[z]], a.p[a.p[z]] != 0
    ensures cib(rotl(a, a.p[z]), c, b, a.p[z])
{
    let p = a.p[z]; let a1 = rotl(a, p); let g = a.p[p];
    open(a, z); open(a, p); at_root(a); open(a, g);
    rotl_wf(a, p);
    copen(a, c, b, z, 0, 0, p); copen(a, c, b, z, 0, 0, z); copen(a, c, b, z, 0, 0, g);
    if a.l[z] != 0 { open(a, a.l[z]); }
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c, b, n, p, 0) by {
        open(a, n); copen(a, c, b, z, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c, b, p, 0, 0);
}
proof fn ins_inner_rotr(a: T, c: CM, b: BM, z: int)
    requires wf(a), cib(a, c, b, z), z != 0, a.p[z] != 0, !c[a.p[z]], z == a.l[a.p[z]], a.p[a.p[z]] != 0
    ensures cib(rotr(a, a.p[z]), c, b, a.p[z])
{
    let p = a.p[z]; let a1 = rotr(a, p); let g = a.p[p];
    open(a, z); open(a, p); at_root(a); open(a, g);
    rotr_wf(a, p);
    copen(a, c, b, z, 0, 0, p); copen(a, c, b, z, 0, 0, z); copen(a, c, b, z, 0, 0, g);
    if a.r[z] != 0 { open(a, a.r[z]); }
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c, b, n, p, 0) by {
        open(a, n); copen(a, c, b, z, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c, b, p, 0, 0);
}
proof fn ins_outer_rotr(a: T, c: CM, b: BM, z: int)
    requires wf(a), cib(a, c, b, z), z != 0, a.p[z] != 0, !c[a.p[z]], z == a.l[a.p[z]], a.p[a.p[z]] != 0, a.p[z] == a.l[a.p[a.p[z]]], blk(c, a.r[a.p[a.p[z]]])
    ensures ({ let p = a.p[z]; let g = a.p[p]; ci(rotr(a, g), c.insert(p, true).insert(g, false), z) })
{
    let p = a.p[z]; let g = a.p[p]; let a1 = rotr(a, g);
    let c1 = c.insert(p, true).insert(g, false);
    let b1 = b.insert(p, b[p] + 1).insert(g, b[g] - 1);
    open(a, z); open(a, p); at_root(a); open(a, g);
    if a.r[p] != 0 { open(a, a.r[p]); }
    if a.p[g] != 0 { open(a, a.p[g]); }
    rotr_wf(a, g);
    copen(a, c, b, z, 0, 0, p); copen(a, c, b, z, 0, 0, z); copen(a, c, b, z, 0, 0, g);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c1, b1, n, z, 0) by {
        open(a, n); copen(a, c, b, z, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, z, 0, 0);
    assert(cib(a1, c1, b1, z));
}
proof fn ins_outer_rotl(a: T, c: CM, b: BM, z: int)
    requires wf(a), cib(a, c, b, z), z != 0, a.p[z] != 0, !c[a.p[z]], z == a.r[a.p[z]], a.p[a.p[z]] != 0, a.p[z] == a.r[a.p[a.p[z]]], blk(c, a.l[a.p[a.p[z]]])
    ensures ({ let p = a.p[z]; let g = a.p[p]; ci(rotl(a, g), c.insert(p, true).insert(g, false), z) })
{
    let p = a.p[z]; let g = a.p[p]; let a1 = rotl(a, g);
    let c1 = c.insert(p, true).insert(g, false);
    let b1 = b.insert(p, b[p] + 1).insert(g, b[g] - 1);
    open(a, z); open(a, p); at_root(a); open(a, g);
    if a.l[p] != 0 { open(a, a.l[p]); }
    if a.p[g] != 0 { open(a, a.p[g]); }
    rotl_wf(a, g);
    copen(a, c, b, z, 0, 0, p); copen(a, c, b, z, 0, 0, z); copen(a, c, b, z, 0, 0, g);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c1, b1, n, z, 0) by {
        open(a, n); copen(a, c, b, z, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, z, 0, 0);
    assert(cib(a1, c1, b1, z));
}
// one round of the insertion repair
pub proof fn ins_round(a: T, c: CM, z: int)
    requires wf(a), ci(a, c, z), z != 0, a.p[z] != 0, !c[a.p[z]]
    ensures
        mem(a, z), mem(a, a.p[z]), a.p[a.p[z]] != 0, mem(a, a.p[a.p[z]]), z == a.l[a.p[z]] || z == a.r[a.p[z]], a.p[z] == a.l[a.p[a.p[z]]] || a.p[z] == a.r[a.p[a.p[z]]],
        ({ let s = ins_step(a, c, z); wf(s.0) && ci(s.0, s.1, s.2) && s.2 != 0 && (s.0.p[s.2] == 0 || s.1[s.0.p[s.2]] || s.0.hi[s.2] - s.0.lo[s.2] > a.hi[z] - a.lo[z]) }),
        z == a.r[a.p[z]] ==> wf(rotl(a, a.p[z])) && mem(rotl(a, a.p[z]), a.p[z]) && ({ let a1 = rotl(a, a.p[z]); let p1 = a1.p[a.p[z]]; p1 == z && a1.p[p1] == a.p[a.p[z]] && mem(a1, p1) && mem(a1, a1.p[p1]) && (a.p[z] == a.l[a.p[a.p[z]]] ==> a1.l[a1.p[p1]] == p1) }),
        z == a.l[a.p[z]] ==> wf(rotr(a, a.p[z])) && mem(rotr(a, a.p[z]), a.p[z]) && ({ let a1 = rotr(a, a.p[z]); let p1 = a1.p[a.p[z]]; p1 == z && a1.p[p1] == a.p[a.p[z]] && mem(a1, p1) && mem(a1, a1.p[p1]) && (a.p[z] == a.r[a.p[a.p[z]]] ==> a1.r[a1.p[p1]] == p1) }),
{
    let b = choose|b: BM| #[trigger] cib(a, c, b, z);
    let p = a.p[z]; let g = a.p[p];
    let u = if p == a.l[g] { a.r[g] } else { a.l[g] };
    open(a, z); open(a, p); at_root(a);
    open(a, g);
    if z == a.r[p] { rotl_wf(a, p); } else { rotr_wf(a, p); }
    if !blk(c, u) { ins_recolour(a, c, b, z); }
    else if p == a.l[g] {
        let z1 = if z == a.r[p] { p } else { z };
        let a1 = if z == a.r[p] { rotl(a, p) } else { a };
        if z == a.r[p] { ins_inner_rotl(a, c, b, z); }
        open(a1, z1); open(a1, a1.p[z1]);
        ins_outer_rotr(a1, c, b, z1);
        rotr_wf(a1, g);
    } else {
        let z1 = if z == a.l[p] { p } else { z };
        let a1 = if z == a.l[p] { rotr(a, p) } else { a };
        if z == a.l[p] { ins_inner_rotr(a, c, b, z); }
        open(a1, z1); open(a1, a1.p[z1]);
        ins_outer_rotl(a1, c, b, z1);
        rotl_wf(a1, g);
    }
}
pub proof fn ins_end(a: T, c: CM, z: int)
    requires wf(a), ci(a, c, z), z != 0, a.p[z] == 0 || c[a.p[z]]
    ensures a.root != 0, red_black(a, c.insert(a.root, true))
{
    let b = choose|b: BM| #[trigger] cib(a, c, b, z);
    let c1 = c.insert(a.root, true);
    let b1 = b.insert(a.root, b[a.root] + one(!c[a.root]));
    open(a, z); at_root(a); open(a, a.root);
    if a.p[z] != 0 { open(a, a.p[z]); copen(a, c, b, z, 0, 0, a.p[z]); }
    assert forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != 0 implies cn(a, c1, b1, n, 0, 0) by {
        open(a, n); copen(a, c, b, z, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a, c1, b1, 0, 0, 0);
    assert(cib(a, c1, b1, 0));
}
// a new red leaf, or a new black root
pub proof fn ins_start(a: T, c: CM, y: int, left: bool, z: int)
    requires ins_pre(a, y, left, z), red_black(a, c)
    ensures
        y != 0 ==> ci(ins(a, y, left, z), c.insert(z, false), z),
        y == 0 ==> red_black(ins(a, y, left, z), c.insert(z, true)),
{
    let b = choose|b: BM| #[trigger] cib(a, c, b, 0);
    let e = if y == 0 { 0 } else { z };
    let c1 = c.insert(z, y == 0); let b1 = b.insert(z, one(y == 0)); let a1 = ins(a, y, left, z);
    ins_wf(a, y, left, z); at_root(a);
    if y != 0 { open(a, y); copen(a, c, b, 0, 0, 0, y); get_ok(a, a.root); }
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c1, b1, n, e, 0) by {
        if n != z {
            open(a, n); copen(a, c, b, 0, 0, 0, n);
            if a.l[n] != 0 { open(a, a.l[n]); }
            if a.r[n] != 0 { open(a, a.r[n]); }
        }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, e, 0, 0);
    assert(cib(a1, c1, b1, e));
}
// during a deletion: the paths through x, a child of q, lack one black node; x may be red below or above a red node
pub open spec fn short(c: CM, b: BM, q: int, x: int, w: int) -> bool {
    w != 0 && bhof(b, x) >= 0 && b[w] == bhof(b, x) + 1 && b[q] == b[w] + one(c[q]) && (c[q] || c[w])
}
pub open spec fn cdb(a: T, c: CM, b: BM, x: int, q: int) -> bool {
    &&& cs(a, c, b, 0, q, x)
    &&& x != 0 ==> mem(a, x) && a.p[x] == q
    &&& if q == 0 { x == a.root } else { mem(a, q) && ((a.l[q] == x && short(c, b, q, x, a.r[q])) || (a.r[q] == x && short(c, b, q, x, a.l[q]))) }
    &&& a.root == 0 || a.root == x || c[a.root]
}
pub open spec fn cd(a: T, c: CM, x: int, q: int) -> bool { exists|b: BM| #[trigger] cdb(a, c, b, x, q) }
proof fn del_red_rotl(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.l[q] == x, a.r[q] != 0, short(c, b, q, x, a.r[q]), !c[a.r[q]]
    ensures ({ let w = a.r[q]; let a1 = rotl(a, q); let c1 = c.insert(w, true).insert(q, false); wf(a1) && cdb(a1, c1, b.insert(w, b[q]).insert(q, b[w]), x, q) && a1.r[q] != 0 && c1[a1.r[q]] && mem(a1, q) && mem(a1, a1.r[q]) })
{
    let w = a.r[q]; let a1 = rotl(a, q); let c1 = c.insert(w, true).insert(q, false); let b1 = b.insert(w, b[q]).insert(q, b[w]);
    open(a, q); open(a, w); at_root(a); rotl_wf(a, q);
    if x != 0 { open(a, x); }
    if a.p[q] != 0 { open(a, a.p[q]); }
    copen(a, c, b, 0, q, x, w);
    assert(a.l[w] != 0);
    open(a, a.l[w]);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != q implies cn(a1, c1, b1, n, 0, x) by {
        open(a, n); copen(a, c, b, 0, q, x, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, 0, q, x);
}
proof fn del_kids_rotl(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.l[q] == x, a.r[q] != 0, short(c, b, q, x, a.r[q]), c[a.r[q]], blk(c, x), ({ let w = a.r[q]; blk(c, a.l[w]) && blk(c, a.r[w]) })
    ensures cd(a, c.insert(a.r[q], false), q, a.p[q])
{
    let w = a.r[q]; let c1 = c.insert(w, false); let b1 = b.insert(w, b[w] - 1).insert(q, b[q] - 1); let g = a.p[q];
    open(a, q); open(a, w); at_root(a);
    if x != 0 { open(a, x); }
    if g != 0 { open(a, g); copen(a, c, b, 0, q, x, g); if a.l[g] != 0 { open(a, a.l[g]); copen(a, c, b, 0, q, x, if a.l[g] == q { g } else { a.l[g] }); } if a.r[g] != 0 { open(a, a.r[g]); copen(a, c, b, 0, q, x, if a.r[g] == q { g } else { a.r[g] }); } }
    copen(a, c, b, 0, q, x, w);
    assert forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != g implies cn(a, c1, b1, n, 0, q) by {
        open(a, n); if n != q { copen(a, c, b, 0, q, x, n); }
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a, c1, b1, 0, g, q);
    assert(cdb(a, c1, b1, q, g));
}
proof fn del_outer_rotl(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.l[q] == x, a.r[q] != 0, short(c, b, q, x, a.r[q]), c[a.r[q]], blk(c, x), !blk(c, a.r[a.r[q]])
    ensures ({ let w = a.r[q]; let a1 = rotl(a, q); wf(a1) && cd(a1, c.insert(w, c[q]).insert(q, true).insert(a.r[w], true), a1.root, 0) && a1.root != 0 })
{
    let w = a.r[q]; let v = a.r[w]; let a1 = rotl(a, q);
    let c1 = c.insert(w, c[q]).insert(q, true).insert(v, true);
    let b1 = b.insert(w, b[q]).insert(q, b[w]).insert(v, b[v] + 1);
    open(a, q); open(a, w); open(a, v); at_root(a); rotl_wf(a, q); at_root(a1);
    if x != 0 { open(a, x); }
    if a.l[w] != 0 { open(a, a.l[w]); }
    if a.p[q] != 0 { open(a, a.p[q]); copen(a, c, b, 0, q, x, a.p[q]); }
    copen(a, c, b, 0, q, x, w); copen(a, c, b, 0, q, x, v);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c1, b1, n, 0, a1.root) by {
        open(a, n); if n != q { copen(a, c, b, 0, q, x, n); }
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, 0, 0, a1.root);
    assert(cdb(a1, c1, b1, a1.root, 0));
}
proof fn del_red_rotr(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.r[q] == x, a.l[q] != 0, short(c, b, q, x, a.l[q]), !c[a.l[q]]
    ensures ({ let w = a.l[q]; let a1 = rotr(a, q); let c1 = c.insert(w, true).insert(q, false); wf(a1) && cdb(a1, c1, b.insert(w, b[q]).insert(q, b[w]), x, q) && a1.l[q] != 0 && c1[a1.l[q]] && mem(a1, q) && mem(a1, a1.l[q]) })
{
    let w = a.l[q]; let a1 = rotr(a, q); let c1 = c.insert(w, true).insert(q, false); let b1 = b.insert(w, b[q]).insert(q, b[w]);
    open(a, q); open(a, w); at_root(a); rotr_wf(a, q);
    if x != 0 { open(a, x); }
    if a.p[q] != 0 { open(a, a.p[q]); }
    copen(a, c, b, 0, q, x, w);
    assert(a.r[w] != 0);
    open(a, a.r[w]);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != q implies cn(a1, c1, b1, n, 0, x) by {
        open(a, n); copen(a, c, b, 0, q, x, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, 0, q, x);
}
proof fn del_kids_rotr(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.r[q] == x, a.l[q] != 0, short(c, b, q, x, a.l[q]), c[a.l[q]], blk(c, x), ({ let w = a.l[q]; blk(c, a.l[w]) && blk(c, a.r[w]) })
    ensures cd(a, c.insert(a.l[q], false), q, a.p[q])
{
    let w = a.l[q]; let c1 = c.insert(w, false); let b1 = b.insert(w, b[w] - 1).insert(q, b[q] - 1); let g = a.p[q];
    open(a, q); open(a, w); at_root(a);
    if x != 0 { open(a, x); }
    if g != 0 { open(a, g); copen(a, c, b, 0, q, x, g); if a.l[g] != 0 { open(a, a.l[g]); copen(a, c, b, 0, q, x, if a.l[g] == q { g } else { a.l[g] }); } if a.r[g] != 0 { open(a, a.r[g]); copen(a, c, b, 0, q, x, if a.r[g] == q { g } else { a.r[g] }); } }
    copen(a, c, b, 0, q, x, w);
    assert forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != g implies cn(a, c1, b1, n, 0, q) by {
        open(a, n); if n != q { copen(a, c, b, 0, q, x, n); }
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a, c1, b1, 0, g, q);
    assert(cdb(a, c1, b1, q, g));
}
proof fn del_outer_rotr(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.r[q] == x, a.l[q] != 0, short(c, b, q, x, a.l[q]), c[a.l[q]], blk(c, x), !blk(c, a.l[a.l[q]])
    ensures ({ let w = a.l[q]; let a1 = rotr(a, q); wf(a1) && cd(a1, c.insert(w, c[q]).insert(q, true).insert(a.l[w], true), a1.root, 0) && a1.root != 0 })
{
    let w = a.l[q]; let v = a.l[w]; let a1 = rotr(a, q);
    let c1 = c.insert(w, c[q]).insert(q, true).insert(v, true);
    let b1 = b.insert(w, b[q]).insert(q, b[w]).insert(v, b[v] + 1);
    open(a, q); open(a, w); open(a, v); at_root(a); rotr_wf(a, q); at_root(a1);
    if x != 0 { open(a, x); }
    if a.r[w] != 0 { open(a, a.r[w]); }
    if a.p[q] != 0 { open(a, a.p[q]); copen(a, c, b, 0, q, x, a.p[q]); }
    copen(a, c, b, 0, q, x, w); copen(a, c, b, 0, q, x, v);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c1, b1, n, 0, a1.root) by {
        open(a, n); if n != q { copen(a, c, b, 0, q, x, n); }
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, 0, 0, a1.root);
    assert(cdb(a1, c1, b1, a1.root, 0));
}
proof fn del_inner_rotr(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.l[q] == x, a.r[q] != 0, short(c, b, q, x, a.r[q]), c[a.r[q]], blk(c, x), ({ let w = a.r[q]; !blk(c, a.l[w]) && blk(c, a.r[w]) })
    ensures ({ let w = a.r[q]; let v = a.l[w]; let a1 = rotr(a, w); let c1 = c.insert(v, true).insert(w, false); wf(a1) && cdb(a1, c1, b.insert(v, b[w]).insert(w, b[v]), x, q) && a1.l[q] == x && a1.r[q] == v && a1.r[v] == w && mem(a1, q) && mem(a1, v) })
{
    let w = a.r[q]; let v = a.l[w]; let a1 = rotr(a, w);
    let c1 = c.insert(v, true).insert(w, false); let b1 = b.insert(v, b[w]).insert(w, b[v]);
    open(a, q); open(a, w); open(a, v); at_root(a); rotr_wf(a, w);
    if x != 0 { open(a, x); }
    if a.r[v] != 0 { open(a, a.r[v]); }
    copen(a, c, b, 0, q, x, w); copen(a, c, b, 0, q, x, v);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != q implies cn(a1, c1, b1, n, 0, x) by {
        open(a, n); copen(a, c, b, 0, q, x, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, 0, q, x);
}
proof fn del_inner_rotl(a: T, c: CM, b: BM, x: int, q: int)
    requires wf(a), cdb(a, c, b, x, q), q != 0, a.r[q] == x, a.l[q] != 0, short(c, b, q, x, a.l[q]), c[a.l[q]], blk(c, x), ({ let w = a.l[q]; !blk(c, a.r[w]) && blk(c, a.l[w]) })
    ensures ({ let w = a.l[q]; let v = a.r[w]; let a1 = rotl(a, w); let c1 = c.insert(v, true).insert(w, false); wf(a1) && cdb(a1, c1, b.insert(v, b[w]).insert(w, b[v]), x, q) && a1.r[q] == x && a1.l[q] == v && a1.l[v] == w && mem(a1, q) && mem(a1, v) })
{
    let w = a.l[q]; let v = a.r[w]; let a1 = rotl(a, w);
    let c1 = c.insert(v, true).insert(w, false); let b1 = b.insert(v, b[w]).insert(w, b[v]);
    open(a, q); open(a, w); open(a, v); at_root(a); rotl_wf(a, w);
    if x != 0 { open(a, x); }
    if a.l[v] != 0 { open(a, a.l[v]); }
    copen(a, c, b, 0, q, x, w); copen(a, c, b, 0, q, x, v);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != q implies cn(a1, c1, b1, n, 0, x) by {
        open(a, n); copen(a, c, b, 0, q, x, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c1, b1, 0, q, x);
}
// one round of the deletion repair at the left child x of q: the new tree, colours and x
pub open spec fn del_left(a: T, c: CM, x: int, q: int) -> (T, CM, int) {
    let w = a.r[q];
    let a1 = if !c[w] { rotl(a, q) } else { a };
    let c1 = if !c[w] { c.insert(w, true).insert(q, false) } else { c };
    let w1 = a1.r[q];
    if blk(c1, a1.l[w1]) && blk(c1, a1.r[w1]) { (a1, c1.insert(w1, false), q) }
    else {
        let a2 = if blk(c1, a1.r[w1]) { rotr(a1, w1) } else { a1 };
        let c2 = if blk(c1, a1.r[w1]) { c1.insert(a1.l[w1], true).insert(w1, false) } else { c1 };
        let w2 = a2.r[q];
        (rotl(a2, q), c2.insert(w2, c2[q]).insert(q, true).insert(a2.r[w2], true), rotl(a2, q).root)
    }
}
pub open spec fn next_q(a: T, x: int) -> int { if x == a.root { 0 } else { a.p[x] } }
pub proof fn del_left_round(a: T, c: CM, x: int, q: int)
    requires wf(a), cd(a, c, x, q), q != 0, x == a.l[q], blk(c, x), x != 0 || a.r[q] != 0
    ensures
        mem(a, q), a.r[q] != 0, mem(a, a.r[q]),
        ({ let w = a.r[q]; !c[w] ==> wf(rotl(a, q)) && mem(rotl(a, q), q) }),
        ({ let w = a.r[q];
           let a1 = if !c[w] { rotl(a, q) } else { a };
           let c1 = if !c[w] { c.insert(w, true).insert(q, false) } else { c };
           let w1 = a1.r[q];
           w1 != 0 && mem(a1, q) && mem(a1, w1) && c1[w1] &&
           (!(blk(c1, a1.l[w1]) && blk(c1, a1.r[w1])) && blk(c1, a1.r[w1]) ==> a1.l[w1] != 0 && wf(rotr(a1, w1)) && mem(rotr(a1, w1), q) && rotr(a1, w1).r[q] == a1.l[w1] && rotr(a1, w1).r[a1.l[w1]] == w1) }),
        ({ let s = del_left(a, c, x, q); wf(s.0) && cd(s.0, s.1, s.2, next_q(s.0, s.2)) && s.2 != 0 && mem(s.0, s.2) && (s.2 == s.0.root || s.0.hi[s.2] - s.0.lo[s.2] > (if x == 0 { 0 } else { a.hi[x] - a.lo[x] })) }),
{
    let b = choose|b: BM| #[trigger] cdb(a, c, b, x, q);
    let w = a.r[q];
    open(a, q); open(a, w);
    if x != 0 { open(a, x); }
    let a1 = if !c[w] { rotl(a, q) } else { a };
    let c1 = if !c[w] { c.insert(w, true).insert(q, false) } else { c };
    let b1 = if !c[w] { b.insert(w, b[q]).insert(q, b[w]) } else { b };
    if !c[w] { del_red_rotl(a, c, b, x, q); }
    let w1 = a1.r[q];
    open(a1, q); open(a1, w1); at_root(a1);
    if blk(c1, a1.l[w1]) && blk(c1, a1.r[w1]) {
        del_kids_rotl(a1, c1, b1, x, q);
    } else {
        let z = blk(c1, a1.r[w1]);
        if z { del_inner_rotr(a1, c1, b1, x, q); }
        let a2 = if z { rotr(a1, w1) } else { a1 };
        let c2 = if z { c1.insert(a1.l[w1], true).insert(w1, false) } else { c1 };
        let b2 = if z { b1.insert(a1.l[w1], b1[w1]).insert(w1, b1[a1.l[w1]]) } else { b1 };
        del_outer_rotl(a2, c2, b2, x, q);
        at_root(rotl(a2, q));
    }
}
// one round of the deletion repair at the right child x of q: the new tree, colours and x
pub open spec fn del_right(a: T, c: CM, x: int, q: int) -> (T, CM, int) {
    let w = a.l[q];
    let a1 = if !c[w] { rotr(a, q) } else { a };
    let c1 = if !c[w] { c.insert(w, true).insert(q, false) } else { c };
    let w1 = a1.l[q];
    if blk(c1, a1.l[w1]) && blk(c1, a1.r[w1]) { (a1, c1.insert(w1, false), q) }
    else {
        let a2 = if blk(c1, a1.l[w1]) { rotl(a1, w1) } else { a1 };
        let c2 = if blk(c1, a1.l[w1]) { c1.insert(a1.r[w1], true).insert(w1, false) } else { c1 };
        let w2 = a2.l[q];
        (rotr(a2, q), c2.insert(w2, c2[q]).insert(q, true).insert(a2.l[w2], true), rotr(a2, q).root)
    }
}
pub proof fn del_right_round(a: T, c: CM, x: int, q: int)
    requires wf(a), cd(a, c, x, q), q != 0, x == a.r[q], blk(c, x), x != 0 || a.l[q] != 0
    ensures
        mem(a, q), a.l[q] != 0, mem(a, a.l[q]),
        ({ let w = a.l[q]; !c[w] ==> wf(rotr(a, q)) && mem(rotr(a, q), q) }),
        ({ let w = a.l[q];
           let a1 = if !c[w] { rotr(a, q) } else { a };
           let c1 = if !c[w] { c.insert(w, true).insert(q, false) } else { c };
           let w1 = a1.l[q];
           w1 != 0 && mem(a1, q) && mem(a1, w1) && c1[w1] &&
           (!(blk(c1, a1.l[w1]) && blk(c1, a1.r[w1])) && blk(c1, a1.l[w1]) ==> a1.r[w1] != 0 && wf(rotl(a1, w1)) && mem(rotl(a1, w1), q) && rotl(a1, w1).l[q] == a1.r[w1] && rotl(a1, w1).l[a1.r[w1]] == w1) }),
        ({ let s = del_right(a, c, x, q); wf(s.0) && cd(s.0, s.1, s.2, next_q(s.0, s.2)) && s.2 != 0 && mem(s.0, s.2) && (s.2 == s.0.root || s.0.hi[s.2] - s.0.lo[s.2] > (if x == 0 { 0 } else { a.hi[x] - a.lo[x] })) }),
{
    let b = choose|b: BM| #[trigger] cdb(a, c, b, x, q);
    let w = a.l[q];
    open(a, q); open(a, w);
    if x != 0 { open(a, x); }
    let a1 = if !c[w] { rotr(a, q) } else { a };
    let c1 = if !c[w] { c.insert(w, true).insert(q, false) } else { c };
    let b1 = if !c[w] { b.insert(w, b[q]).insert(q, b[w]) } else { b };
    if !c[w] { del_red_rotr(a, c, b, x, q); }
    let w1 = a1.l[q];
    open(a1, q); open(a1, w1); at_root(a1);
    if blk(c1, a1.l[w1]) && blk(c1, a1.r[w1]) {
        del_kids_rotr(a1, c1, b1, x, q);
    } else {
        let z = blk(c1, a1.l[w1]);
        if z { del_inner_rotl(a1, c1, b1, x, q); }
        let a2 = if z { rotl(a1, w1) } else { a1 };
        let c2 = if z { c1.insert(a1.r[w1], true).insert(w1, false) } else { c1 };
        let b2 = if z { b1.insert(a1.r[w1], b1[w1]).insert(w1, b1[a1.r[w1]]) } else { b1 };
        del_outer_rotr(a2, c2, b2, x, q);
        at_root(rotr(a2, q));
    }
}
pub proof fn del_at(a: T, c: CM, x: int, q: int)
    requires wf(a), cd(a, c, x, q)
    ensures x == a.root ==> q == 0, x != 0 ==> mem(a, x) && a.p[x] == q,
        q != 0 ==> mem(a, q) && (a.l[q] == x || a.r[q] == x) && (x == 0 ==> (a.l[q] == 0) != (a.r[q] == 0)) && (x != 0 ==> a.l[q] != a.r[q]),
        q == 0 ==> x == a.root,
{
    let b = choose|b: BM| #[trigger] cdb(a, c, b, x, q);
    at_root(a);
    if q != 0 { open(a, q); }
    if x != 0 { open(a, x); }
}
pub proof fn del_end(a: T, c: CM, x: int, q: int)
    requires wf(a), cd(a, c, x, q), x == a.root || !blk(c, x)
    ensures red_black(a, if x != 0 { c.insert(x, true) } else { c })
{
    let b = choose|b: BM| #[trigger] cdb(a, c, b, x, q);
    let c1 = if x != 0 { c.insert(x, true) } else { c };
    let b1 = if x != 0 { b.insert(x, b[x] + one(!c[x])) } else { b };
    del_at(a, c, x, q); at_root(a);
    if x != 0 { open(a, x); copen(a, c, b, 0, q, x, x); if q != 0 { open(a, q); } }
    assert forall|n: int| #![trigger mem(a, n)] mem(a, n) && n != 0 implies cn(a, c1, b1, n, 0, 0) by {
        open(a, n); if n != q { copen(a, c, b, 0, q, x, n); }
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a, c1, b1, 0, 0, 0);
    assert(cib(a, c1, b1, 0));
}
pub proof fn del_start(a: T, c: CM, y: int)
    requires del_pre(a, y), red_black(a, c)
    ensures
        c[y] ==> cd(del(a, y), c, only(a, y), a.p[y]),
        !c[y] ==> red_black(del(a, y), c),
{
    let b = choose|b: BM| #[trigger] cib(a, c, b, 0);
    let a1 = del(a, y); let x = only(a, y); let q = a.p[y];
    let d = if c[y] { q } else { 0 };
    let f = if c[y] { x } else { 0 };
    open(a, y); at_root(a); del_wf(a, y); at_root(a1);
    copen(a, c, b, 0, 0, 0, y);
    if q != 0 {
        open(a, q); copen(a, c, b, 0, 0, 0, q);
        if a.l[q] != 0 { open(a, a.l[q]); copen(a, c, b, 0, 0, 0, a.l[q]); }
        if a.r[q] != 0 { open(a, a.r[q]); copen(a, c, b, 0, 0, 0, a.r[q]); }
    }
    if x != 0 { open(a, x); copen(a, c, b, 0, 0, 0, x); }
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != d implies cn(a1, c, b, n, 0, f) by {
        open(a, n); copen(a, c, b, 0, 0, 0, n);
        if a.l[n] != 0 { open(a, a.l[n]); }
        if a.r[n] != 0 { open(a, a.r[n]); }
        reveal(cn);
    }
    mk_cs(a1, c, b, 0, d, f);
    if c[y] { assert(cdb(a1, c, b, x, q)); } else { assert(cib(a1, c, b, 0)); }
}
// ---------- the self-check ----------
// n's subtree obeys the rules (r is the root), and its number of black nodes on the leftmost path
pub open spec fn width(a: T, n: int) -> nat { if mem(a, n) && ok(a, n) { nn(a.hi[n] - a.lo[n]) } else { 0 } }
pub open spec fn bhr(a: T, c: CM, n: int) -> int
    decreases width(a, n)
{
    if n == 0 || !mem(a, n) || !ok(a, n) || width(a, a.l[n]) >= width(a, n) { 0 } else { bhr(a, c, a.l[n]) + one(c[n]) }
}
pub open spec fn bal(a: T, c: CM, n: int) -> bool
    decreases width(a, n)
{
    n == 0 || (mem(a, n) && ok(a, n) && width(a, a.l[n]) < width(a, n) && width(a, a.r[n]) < width(a, n)
        && bal(a, c, a.l[n]) && bal(a, c, a.r[n]) && bhr(a, c, a.l[n]) == bhr(a, c, a.r[n])
        && (n == a.root ==> c[n]) && (c[n] || (blk(c, a.l[n]) && blk(c, a.r[n]))))
}
pub proof fn widths(a: T, n: int)
    requires wf(a), mem(a, n)
    ensures
        width(a, n) == a.hi[n] - a.lo[n], width(a, n) > 0, width(a, a.l[n]) < width(a, n), width(a, a.r[n]) < width(a, n),
        width(a, n) == width(a, a.l[n]) + width(a, a.r[n]) + 1,
{
    open(a, n); get_ok(a, n);
    if mem(a, 0) { mem_is(a, 0); }
    if a.l[n] != 0 { open(a, a.l[n]); get_ok(a, a.l[n]); }
    if a.r[n] != 0 { open(a, a.r[n]); get_ok(a, a.r[n]); }
}
pub proof fn bal_open(a: T, c: CM, n: int)
    requires wf(a), n == 0 || mem(a, n)
    ensures n == 0 ==> bal(a, c, n) && bhr(a, c, n) == 0,
        n != 0 ==> bhr(a, c, n) == bhr(a, c, a.l[n]) + one(c[n]) && bal(a, c, n) == (bal(a, c, a.l[n]) && bal(a, c, a.r[n]) && bhr(a, c, a.l[n]) == bhr(a, c, a.r[n])
        && (n == a.root ==> c[n]) && (c[n] || (blk(c, a.l[n]) && blk(c, a.r[n]))))
{ if n != 0 { widths(a, n); get_ok(a, n); open(a, n); } }
// every reachable tree passes
proof fn rb_bal_at(a: T, c: CM, b: BM, n: int)
    requires wf(a), cib(a, c, b, 0), n == 0 || mem(a, n)
    ensures bal(a, c, n), bhr(a, c, n) == bhof(b, n)
    decreases width(a, n)
{
    bal_open(a, c, n);
    if n != 0 {
        widths(a, n); open(a, n); copen(a, c, b, 0, 0, 0, n);
        rb_bal_at(a, c, b, a.l[n]); rb_bal_at(a, c, b, a.r[n]);
    }
}
pub proof fn rb_bal(a: T, c: CM)
    requires wf(a), red_black(a, c)
    ensures bal(a, c, a.root)
{
    let b = choose|b: BM| #[trigger] cib(a, c, b, 0);
    at_root(a);
    rb_bal_at(a, c, b, a.root);
}
// height is at most twice the logarithm of the size plus one
pub open spec fn height(a: T, n: int) -> nat
    decreases width(a, n)
{
    if n == 0 || !mem(a, n) || !ok(a, n) || width(a, a.l[n]) >= width(a, n) || width(a, a.r[n]) >= width(a, n) { 0 }
    else { 1 + if height(a, a.l[n]) > height(a, a.r[n]) { height(a, a.l[n]) } else { height(a, a.r[n]) } }
}
proof fn bal_height(a: T, c: CM, n: int)
    requires wf(a), n == 0 || mem(a, n), bal(a, c, n)
    ensures bhr(a, c, n) >= 0, height(a, n) <= 2 * bhr(a, c, n) + one(!blk(c, n)), width(a, n) + 1 >= vstd::arithmetic::power2::pow2(bhr(a, c, n) as nat)
    decreases width(a, n)
{
    bal_open(a, c, n);
    vstd::arithmetic::power2::lemma2_to64();
    if n != 0 {
        widths(a, n); open(a, n);
        bal_height(a, c, a.l[n]); bal_height(a, c, a.r[n]);
        vstd::arithmetic::power2::lemma_pow2_unfold((bhr(a, c, a.l[n]) + 1) as nat);
    }
}
pub proof fn rb_height(a: T, c: CM)
    requires wf(a), bal(a, c, a.root)
    ensures exists|k: nat| height(a, a.root) <= 2 * k && #[trigger] vstd::arithmetic::power2::pow2(k) <= a.seq.len() + 1
{
    at_root(a);
    bal_height(a, c, a.root); bal_open(a, c, a.root);
    if a.root != 0 { widths(a, a.root); open(a, a.root); } else { if mem(a, 0) { mem_is(a, 0); } }
    assert(vstd::arithmetic::power2::pow2(bhr(a, c, a.root) as nat) <= a.seq.len() + 1);
}
// ---------- entries ----------
pub open spec fn is_tree(h: Heap, t: int) -> bool { 0 < t && t < h.top && dyn_of(t) == dyn_RbTree() }
pub open spec fn is_node(h: Heap, n: int) -> bool { 0 < n && n < h.top && dyn_of(n) == dyn_Node() }
#[verifier::opaque]
pub open spec fn nodes_in(s: Seq<int>, top: int) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> 0 < s[i] && s[i] < top && dyn_of(s[i]) == dyn_Node() }
// t is a proper tree / all invariants of the container
pub open spec fn t_wf(h: Heap, t: int) -> bool { is_tree(h, t) && wf(tr(h, t)) && nodes_in(h.RbTree_seq[t], h.top) }
#[verifier::inline]
pub open spec fn t_keys(h: Heap, t: int) -> Seq<Val> { keys(h.RbTree_seq[t], h.Node_key) }
#[verifier::inline]
pub open spec fn t_ents(h: Heap, t: int) -> Seq<(Val, Val)> { ents(h.RbTree_seq[t], h.Node_key, h.Node_value) }
pub open spec fn t_ok(h: Heap, t: int) -> bool {
    &&& t_wf(h, t) && h.RbTree_size[t] == h.RbTree_seq[t].len() && cmp_ok(h.RbTree_keyCmp[t])
    &&& srt(h.RbTree_keyCmp[t], t_keys(h, t))
    &&& red_black(tr(h, t), h.Node_color)
}
// n is a node of the tree it claims
pub open spec fn n_in(h: Heap, n: int) -> bool { t_wf(h, h.Node_own[n]) && mem(tr(h, h.Node_own[n]), n) }
pub open spec fn nxt(h: Heap, n: int) -> int { let s = h.RbTree_seq[h.Node_own[n]]; if h.Node_idx[n] + 1 < s.len() { s[h.Node_idx[n] + 1] } else { 0 } }
pub open spec fn prv(h: Heap, n: int) -> int { let s = h.RbTree_seq[h.Node_own[n]]; if h.Node_idx[n] > 0 { s[h.Node_idx[n] - 1] } else { 0 } }
// at node n of tree t
pub proof fn bound_at(h: Heap, t: int, k: Val, n: int)
    requires t_wf(h, t), srt(h.RbTree_keyCmp[t], t_keys(h, t)), cmp_ok(h.RbTree_keyCmp[t]), mem(tr(h, t), n)
    ensures ({ let f = h.RbTree_keyCmp[t]; let s = t_keys(h, t); let i = h.Node_idx[n];
        &&& 0 <= i < s.len() && s[i] == h.Node_key[n] && h.RbTree_seq[t][i] == n && n > 0 && 0 <= lb(f, s, k) <= ub(f, s, k) <= s.len()
        &&& (cmpv(f, k, h.Node_key[n]) <= 0) == (i >= lb(f, s, k)) && (cmpv(f, k, h.Node_key[n]) < 0) == (i >= ub(f, s, k))
        &&& sgn(cmpv(f, k, h.Node_key[n])) == -sgn(cmpv(f, h.Node_key[n], k)) })
{
    lb_is(h.RbTree_keyCmp[t], t_keys(h, t), k);
    mem_is(tr(h, t), n);
    assert(t_keys(h, t)[h.Node_idx[n]] == h.Node_key[n]);
}
pub proof fn srt_at(h: Heap, t: int, m: int, n: int)
    requires t_wf(h, t), srt(h.RbTree_keyCmp[t], t_keys(h, t)), mem(tr(h, t), n), mem(tr(h, t), m), h.Node_idx[m] <= h.Node_idx[n]
    ensures cmpv(h.RbTree_keyCmp[t], h.Node_key[m], h.Node_key[n]) <= 0
{
    mem_is(tr(h, t), n); mem_is(tr(h, t), m);
    assert(t_keys(h, t)[h.Node_idx[n]] == h.Node_key[n]);
    assert(t_keys(h, t)[h.Node_idx[m]] == h.Node_key[m]);
    reveal(srt);
}
// nodes of other trees keep everything
pub struct N { pub l: IMap<int, int>, pub r: IMap<int, int>, pub p: IMap<int, int>, pub c: IMap<int, bool>, pub idx: IMap<int, int>, pub lo: IMap<int, int>,
    pub hi: IMap<int, int>, pub own: IMap<int, int>, pub k: IMap<int, Val>, pub v: IMap<int, Val> }
pub open spec fn nd(h: Heap) -> N {
    N { l: h.Node_left, r: h.Node_right, p: h.Node_parent, c: h.Node_color, idx: h.Node_idx, lo: h.Node_lo, hi: h.Node_hi, own: h.Node_own, k: h.Node_key, v: h.Node_value }
}
pub open spec fn keep_at(a: N, b: N, n: int) -> bool {
    a.l[n] == b.l[n] && a.r[n] == b.r[n] && a.p[n] == b.p[n] && a.c[n] == b.c[n] && a.idx[n] == b.idx[n] && a.lo[n] == b.lo[n] && a.hi[n] == b.hi[n]
        && a.own[n] == b.own[n] && a.k[n] == b.k[n] && a.v[n] == b.v[n]
}
#[verifier::opaque]
pub open spec fn farn(a: N, b: N, top: int, t: int) -> bool {
    forall|n: int| #![trigger a.own[n]] #![trigger b.own[n]] #![trigger keep_at(a, b, n)] 0 < n && n < top && a.own[n] != t ==> keep_at(a, b, n)
}
pub open spec fn far(h0: Heap, h: Heap, t: int) -> bool { farn(nd(h0), nd(h), h0.top, t) }
pub proof fn far_far(h0: Heap, h1: Heap, h: Heap, t: int)
    requires far(h0, h1, t), far(h1, h, t), h0.top <= h1.top
    ensures far(h0, h, t)
{
    reveal(farn);
    let a = nd(h0); let b = nd(h1); let c = nd(h);
    assert forall|n: int| #![trigger c.own[n]] #![trigger keep_at(a, c, n)] 0 < n && n < h0.top && a.own[n] != t implies keep_at(a, c, n) by { assert(b.own[n] == a.own[n]); assert(keep_at(b, c, n)); }
}
// every other tree keeps its nodes and entries
pub open spec fn t_same(h0: Heap, h: Heap, d: int) -> bool {
    h.RbTree_seq[d] == h0.RbTree_seq[d] && h.RbTree_keyCmp[d] == h0.RbTree_keyCmp[d] && t_ents(h, d) == t_ents(h0, d) && t_keys(h, d) == t_keys(h0, d)
}
pub open spec fn t_others(h0: Heap, h: Heap, t: int) -> bool {
    &&& forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) && d != t ==> t_ok(h, d) && t_same(h0, h, d)
    &&& forall|n: int| #![trigger h.Node_own[n]] 0 < n && n < h0.top && h0.Node_own[n] != t ==> h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n]
}
pub proof fn node_at(h: Heap, t: int, i: int)
    requires t_wf(h, t), 0 <= i < h.RbTree_seq[t].len()
    ensures ({ let n = h.RbTree_seq[t][i]; is_node(h, n) && mem(tr(h, t), n) && h.Node_own[n] == t && h.Node_idx[n] == i })
{ at_seq(tr(h, t), i); mem_is(tr(h, t), h.RbTree_seq[t][i]); reveal(nodes_in); }
pub proof fn node_in(h: Heap, t: int, n: int)
    requires t_wf(h, t), mem(tr(h, t), n)
    ensures is_node(h, n), h.Node_own[n] == t, 0 <= h.Node_idx[n] < h.RbTree_seq[t].len(), h.RbTree_seq[t][h.Node_idx[n]] == n
{ mem_is(tr(h, t), n); node_at(h, t, h.Node_idx[n]); }
pub proof fn others(h0: Heap, h: Heap, t: int)
    requires far(h0, h, t), h0.top <= h.top,
        forall|d: int| #![trigger h.RbTree_seq[d]] 0 < d && d < h0.top && d != t ==> h.RbTree_seq[d] == h0.RbTree_seq[d] && h.RbTree_root[d] == h0.RbTree_root[d] && h.RbTree_size[d] == h0.RbTree_size[d] && h.RbTree_keyCmp[d] == h0.RbTree_keyCmp[d]
    ensures t_others(h0, h, t)
{
    reveal(farn);
    assert forall|d: int| #![trigger t_ok(h, d)] #![trigger h.RbTree_seq[d]] t_ok(h0, d) && d != t implies t_ok(h, d) && t_same(h0, h, d) by {
        let a0 = tr(h0, d); let a = tr(h, d);
        assert forall|n: int| #![trigger mem(a0, n)] mem(a0, n) implies same_at(a0, a, n) && keep_at(nd(h0), nd(h), n) by { node_in(h0, d, n); assert(nd(h).own[n] == nd(h0).own[n]); }
        frame_wf(a0, a);
        let s = h.RbTree_seq[d];
        assert(s == h0.RbTree_seq[d]);
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies h.Node_key[s[i]] == h0.Node_key[s[i]] && h.Node_value[s[i]] == h0.Node_value[s[i]] by { at_seq(a0, i); assert(mem(a0, a0.seq[i])); assert(keep_at(nd(h0), nd(h), s[i])); }
        assert(t_keys(h, d) =~= t_keys(h0, d));
        assert(t_ents(h, d) =~= t_ents(h0, d));
        assert(nodes_in(a.seq, h.top)) by { reveal(nodes_in); }
        rb_frame(a0, h0.Node_color, a, h.Node_color);
    }
    assert forall|n: int| #![trigger h.Node_own[n]] 0 < n && n < h0.top && h0.Node_own[n] != t implies h.Node_own[n] == h0.Node_own[n] && h.Node_idx[n] == h0.Node_idx[n] && h.Node_key[n] == h0.Node_key[n] && h.Node_value[n] == h0.Node_value[n] by { assert(nd(h0).own[n] != t); assert(keep_at(nd(h0), nd(h), n)); }
}
// other trees keep their nodes where they were
pub proof fn mem_keep(h0: Heap, h: Heap, t: int, d: int, n: int)
    requires t_others(h0, h, t), t_ok(h0, d), d != t, mem(tr(h0, d), n)
    ensures mem(tr(h, d), n), h.Node_own[n] == d, h.Node_idx[n] == h0.Node_idx[n], h.Node_key[n] == h0.Node_key[n], t_ok(h, d), t_same(h0, h, d), n_in(h, n)
{ node_in(h0, d, n); let x = h.Node_own[n]; let y = h.RbTree_seq[d]; assert(t_ok(h, d)); reveal(mem); }
pub proof fn rb_frame(a: T, c: CM, a1: T, c1: CM)
    requires wf(a), wf(a1), red_black(a, c), a.root == a1.root, forall|n: int| #![trigger mem(a1, n)] mem(a1, n) == mem(a, n),
        forall|n: int| #![trigger mem(a, n)] mem(a, n) ==> same_at(a, a1, n) && c[n] == c1[n]
    ensures red_black(a1, c1)
{
    let b = choose|b: BM| #[trigger] cib(a, c, b, 0);
    at_root(a);
    assert forall|n: int| #![trigger mem(a1, n)] mem(a1, n) && n != 0 implies cn(a1, c1, b, n, 0, 0) by {
        assert(mem(a, n));
        open(a, n); copen(a, c, b, 0, 0, 0, n);
        reveal(cn);
    }
    mk_cs(a1, c1, b, 0, 0, 0);
    assert(cib(a1, c1, b, 0));
}
// sortedness and entries after insertion and removal
// a node that did not exist is not part of the tree
pub proof fn ins_ok_z(h: Heap, t: int, z: int)
    requires t_wf(h, t), z >= h.top
    ensures !mem(tr(h, t), z)
{ if mem(tr(h, t), z) { node_in(h, t, z); } }
// the relatives of a node belong to the same tree
pub proof fn kin(h: Heap, t: int, n: int)
    requires wf(tr(h, t)), mem(tr(h, t), n)
    ensures ({ let o = h.Node_own; let l = h.Node_left[n]; let r = h.Node_right[n];
        o[n] == t && (l != 0 ==> o[l] == t && (h.Node_left[l] != 0 ==> o[h.Node_left[l]] == t) && (h.Node_right[l] != 0 ==> o[h.Node_right[l]] == t))
        && (r != 0 ==> o[r] == t && (h.Node_left[r] != 0 ==> o[h.Node_left[r]] == t) && (h.Node_right[r] != 0 ==> o[h.Node_right[r]] == t)) })
{
    let a = tr(h, t);
    open(a, n);
    if a.l[n] != 0 { open(a, a.l[n]); if a.l[a.l[n]] != 0 { mem_is(a, a.l[a.l[n]]); } if a.r[a.l[n]] != 0 { mem_is(a, a.r[a.l[n]]); } }
    if a.r[n] != 0 { open(a, a.r[n]); if a.l[a.r[n]] != 0 { mem_is(a, a.l[a.r[n]]); } if a.r[a.r[n]] != 0 { mem_is(a, a.r[a.r[n]]); } }
}
pub proof fn del_victim(h: Heap, t: int, z: int)
    requires t_wf(h, t), mem(tr(h, t), z)
    ensures ({ let a = tr(h, t); let y = victim(a, z);
        &&& del_pre(a, y) && n_in(h, z) && 0 <= a.idx[z] < a.seq.len() && a.seq[a.idx[z]] == z
        &&& y > 0 && 0 <= a.idx[y] < a.seq.len() && a.seq[a.idx[y]] == y && (y != z ==> a.idx[y] == a.idx[z] + 1 && nxt(h, z) == y) })
{
    let a = tr(h, t);
    open(a, z); mem_is(a, z); node_in(h, t, z);
    if a.l[z] != 0 && a.r[z] != 0 {
        let y = victim(a, z);
        open(a, a.r[z]);
        at_seq(a, a.idx[z] + 1);
        open(a, y);
        if a.l[y] != 0 { succ_in_right(a, z, y); }
    }
}
// the first node of z's right subtree has no left child
pub proof fn succ_in_right(a: T, z: int, y: int)
    requires wf(a), mem(a, z), mem(a, y), a.r[z] != 0, a.idx[y] == a.idx[z] + 1, a.l[y] != 0
    ensures false
{
    open(a, z); open(a, y); open(a, a.l[y]);
    nested(a, a.l[y], z);
}
pub proof fn nested(a: T, m: int, z: int)
    requires wf(a), mem(a, m), mem(a, z), a.lo[m] <= a.idx[z] < a.hi[m]
    ensures a.lo[m] <= a.lo[z], a.hi[z] <= a.hi[m]
    decreases a.hi[m] - a.lo[m]
{
    open(a, m); mem_is(a, z);
    if a.idx[z] < a.idx[m] { open(a, a.l[m]); nested(a, a.l[m], z); }
    else if a.idx[z] > a.idx[m] { open(a, a.r[m]); nested(a, a.r[m], z); }
}
pub proof fn del_ents(h0: Heap, h: Heap, t: int, z: int)
    requires
        t_ok(h0, t), mem(tr(h0, t), z), h.top == h0.top,
        ({ let y = victim(tr(h0, t), z);
           &&& h.RbTree_seq[t] == h0.RbTree_seq[t].remove(h0.Node_idx[y])
           &&& forall|n: int| #![trigger h.Node_key[n]] h.Node_key[n] == h0.Node_key[if n == z { y } else { n }]
           &&& forall|n: int| #![trigger h.Node_value[n]] h.Node_value[n] == h0.Node_value[if n == z { y } else { n }] }),
    ensures
        t_ents(h, t) =~= t_ents(h0, t).remove(h0.Node_idx[z]),
        srt(h0.RbTree_keyCmp[t], t_keys(h, t)), nodes_in(h.RbTree_seq[t], h.top),
{
    let s0 = h0.RbTree_seq[t]; let s = h.RbTree_seq[t]; let i = h0.Node_idx[z]; let y = victim(tr(h0, t), z); let j = h0.Node_idx[y];
    del_victim(h0, t, z);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies h.Node_key[s[k]] == t_keys(h0, t).remove(i)[k] && h.Node_value[s[k]] == h0.Node_value[s0[if k < i { k } else { k + 1 }]] by {
        at_seq(tr(h0, t), if k < j { k } else { k + 1 });
    }
    assert(t_ents(h, t) =~= t_ents(h0, t).remove(i));
    assert(t_keys(h, t) =~= t_keys(h0, t).remove(i));
    srt_rem(h0.RbTree_keyCmp[t], t_keys(h0, t), i);
    assert(nodes_in(s, h.top)) by { reveal(nodes_in); }
}
pub open spec fn t_find(h: Heap, t: int, k: Val) -> int {
    let f = h.RbTree_keyCmp[t];
    let p = lb(f, t_keys(h, t), k);
    if p < ub(f, t_keys(h, t), k) { h.RbTree_seq[t][p] } else { 0 }
}
pub proof fn empty_ok(h: Heap, t: int)
    requires is_tree(h, t), h.RbTree_seq[t].len() == 0, h.RbTree_root[t] == 0, h.RbTree_size[t] == 0, cmp_ok(h.RbTree_keyCmp[t])
    ensures t_ok(h, t)
{ reveal(wf); reveal(sq); reveal(mem); reveal(nodes_in); reveal(srt); reveal(cs); assert(cib(tr(h, t), h.Node_color, h.Node_idx, 0)); }
