// containers seen from outside: an object with a sequence of values (the ghost field C.seq)
pub open spec fn c_ok(h: Heap, c: int) -> bool { 0 < c && c < h.top }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { h.C_seq[c] }
pub open spec fn w_ok(h: Heap) -> bool { true }
pub open spec fn c_others(h0: Heap, h: Heap, c: int) -> bool {
    h0.top <= h.top && forall|d: int| #![trigger h.C_seq[d]] 0 < d && d < h0.top && d != c ==> h.C_seq[d] == h0.C_seq[d]
}
