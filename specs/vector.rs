pub open spec fn c_ok(h: Heap, c: int) -> bool { 0 < c && c < h.top && dyn_of(c) == dyn_Vector() && slice_ok(h.Vector_data[c], h.top) }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { view(h.arr_Val, h.Vector_data[c]) }
// vectors never share their storage
pub open spec fn w_ok(h: Heap) -> bool {
    forall|c: int, d: int| #![trigger h.Vector_data[c], h.Vector_data[d]] c_ok(h, c) && c_ok(h, d) && c != d && h.Vector_data[c].cap > 0
        ==> h.Vector_data[c].a != h.Vector_data[d].a
}
pub open spec fn it_ok(h: Heap, i: int) -> bool { 0 < i && i < h.top && dyn_of(i) == dyn_VectorIterator() && c_ok(h, h.VectorIterator_vec[i]) }
#[verifier::inline]
pub open spec fn it_pos(h: Heap, i: int) -> int { h.VectorIterator_position[i] }
#[verifier::inline]
pub open spec fn it_cont(h: Heap, i: int) -> int { h.VectorIterator_vec[i] }
