pub open spec fn q_ok(h: Heap, q: int) -> bool { 0 < q && q < h.top && c_ok(h, h.Queue_container[q]) && h.Queue_locker[q] != 0 }
#[verifier::inline]
pub open spec fn q_seq(h: Heap, q: int) -> Seq<Val> { h.C_seq[h.Queue_container[q]] }
