pub open spec fn s_ok(h: Heap, s: int) -> bool { 0 < s && s < h.top && c_ok(h, h.Stack_container[s]) && h.Stack_locker[s] != 0 }
#[verifier::inline]
pub open spec fn s_seq(h: Heap, s: int) -> Seq<Val> { h.C_seq[h.Stack_container[s]] }
