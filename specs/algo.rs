// iterators and containers seen from outside: ghost fields It.pos, It.cont and C.seq
pub open spec fn c_ok(h: Heap, c: int) -> bool { 0 < c && c < h.top }
pub open spec fn it_ok(h: Heap, i: int) -> bool { 0 < i && i < h.top && 0 < h.It_cont[i] && h.It_cont[i] < h.top }
#[verifier::inline]
pub open spec fn it_pos(h: Heap, i: int) -> int { h.It_pos[i] }
#[verifier::inline]
pub open spec fn it_cont(h: Heap, i: int) -> int { h.It_cont[i] }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { h.C_seq[c] }
pub open spec fn w_ok(h: Heap) -> bool { true }
pub open spec fn c_others(h0: Heap, h: Heap, c: int) -> bool {
    h0.top <= h.top && forall|d: int| #![trigger h.C_seq[d]] 0 < d && d < h0.top && d != c ==> h.C_seq[d] == h0.C_seq[d]
}
pub open spec fn it_others(h0: Heap, h: Heap, it: int) -> bool {
    forall|i: int| #![trigger h.It_pos[i]] #![trigger h.It_cont[i]] 0 < i && i < h0.top && i != it ==> h.It_pos[i] == h0.It_pos[i] && h.It_cont[i] == h0.It_cont[i]
}
// [first, last) is a range of one container
pub open spec fn rng_ok(h: Heap, a: int, b: int) -> bool {
    it_ok(h, a) && it_ok(h, b) && h.It_cont[a] == h.It_cont[b] && 0 <= h.It_pos[a] && h.It_pos[a] <= h.It_pos[b] && h.It_pos[b] <= h.C_seq[h.It_cont[a]].len()
}
// non-decreasing between two positions
pub open spec fn sorted(f: int, s: Seq<Val>, lo: int, hi: int) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] lo <= i && i < j && j < hi ==> cmpv(f, s[i], s[j]) <= 0
}
// every iterator known before stands where it stood
pub open spec fn its_kept(h0: Heap, h: Heap) -> bool {
    h0.top <= h.top && forall|i: int| #![trigger h.It_pos[i]] #![trigger h.It_cont[i]] 0 < i && i < h0.top ==> h.It_pos[i] == h0.It_pos[i] && h.It_cont[i] == h0.It_cont[i]
}
