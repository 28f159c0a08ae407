pub open spec fn c_ok(h: Heap, c: int) -> bool { 0 < c && c < h.top && dyn_of(c) == dyn_SliceWrapper() && slice_ok(h.SliceWrapper_slice[c], h.top) }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { view(h.arr_Val, h.SliceWrapper_slice[c]) }
// wrapped slices do not overlap (they are the caller's)
pub open spec fn w_ok(h: Heap) -> bool {
    forall|c: int, d: int| #![trigger h.SliceWrapper_slice[c], h.SliceWrapper_slice[d]] c_ok(h, c) && c_ok(h, d) && c != d && h.SliceWrapper_slice[c].cap > 0
        ==> h.SliceWrapper_slice[c].a != h.SliceWrapper_slice[d].a
}
pub open spec fn it_ok(h: Heap, i: int) -> bool { 0 < i && i < h.top && dyn_of(i) == dyn_SliceIterator() && c_ok(h, h.SliceIterator_s[i]) }
#[verifier::inline]
pub open spec fn it_pos(h: Heap, i: int) -> int { h.SliceIterator_position[i] }
#[verifier::inline]
pub open spec fn it_cont(h: Heap, i: int) -> int { h.SliceIterator_s[i] }
