pub open spec fn c_ok(h: Heap, c: int) -> bool { 0 < c && c < h.top && dyn_of(c) == dyn_ElementHolder() && slice_ok(h.ElementHolder_elements[c], h.top) && h.ElementHolder_cmpFun[c] != 0 }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { view(h.arr_Val, h.ElementHolder_elements[c]) }
#[verifier::inline]
pub open spec fn c_ord(h: Heap, c: int) -> int { h.ElementHolder_cmpFun[c] }
// holders never share their storage
pub open spec fn w_ok(h: Heap) -> bool {
    forall|c: int, d: int| #![trigger h.ElementHolder_elements[c], h.ElementHolder_elements[d]] c_ok(h, c) && c_ok(h, d) && c != d && h.ElementHolder_elements[c].cap > 0
        ==> h.ElementHolder_elements[c].a != h.ElementHolder_elements[d].a
}
pub open spec fn c_others(h0: Heap, h: Heap, c: int) -> bool {
    h0.top <= h.top && (w_ok(h0) ==> w_ok(h))
    && (c == 0 || h.ElementHolder_elements[c].a == h0.ElementHolder_elements[c].a || h.ElementHolder_elements[c].a >= h0.top || h.ElementHolder_elements[c].a == 0)
    && forall|d: int| #![trigger h.ElementHolder_elements[d]] 0 < d && d < h0.top && d != c ==> h.ElementHolder_elements[d] == h0.ElementHolder_elements[d] && h.ElementHolder_cmpFun[d] == h0.ElementHolder_cmpFun[d]
        && (w_ok(h0) && c_ok(h0, d) && (c == 0 || c_ok(h0, c)) ==> c_seq(h, d) =~= c_seq(h0, d))
}
pub open spec fn q_ok(h: Heap, q: int) -> bool {
    0 < q && q < h.top && c_ok(h, h.PriorityQueue_holder[q]) && h.PriorityQueue_locker[q] != 0
    && cmp_ok(q_ord(h, q)) && heap_ord(q_ord(h, q), q_seq(h, q), q_seq(h, q).len() as int)
}
#[verifier::inline]
pub open spec fn q_seq(h: Heap, q: int) -> Seq<Val> { c_seq(h, h.PriorityQueue_holder[q]) }
#[verifier::inline]
pub open spec fn q_ord(h: Heap, q: int) -> int { c_ord(h, h.PriorityQueue_holder[q]) }
