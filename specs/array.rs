pub open spec fn c_ok(h: Heap, c: int) -> bool { 0 < c && c < h.top && dyn_of(c) == dyn_Array() && slice_ok(h.Array_values[c], h.top) }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { view(h.arr_Val, h.Array_values[c]) }
// arrays never share their storage
pub open spec fn w_ok(h: Heap) -> bool {
    forall|c: int, d: int| #![trigger h.Array_values[c], h.Array_values[d]] c_ok(h, c) && c_ok(h, d) && c != d && h.Array_values[c].cap > 0
        ==> h.Array_values[c].a != h.Array_values[d].a
}
pub open spec fn it_ok(h: Heap, i: int) -> bool { 0 < i && i < h.top && dyn_of(i) == dyn_ArrayIterator() && c_ok(h, h.ArrayIterator_array[i]) }
#[verifier::inline]
pub open spec fn it_pos(h: Heap, i: int) -> int { h.ArrayIterator_position[i] }
#[verifier::inline]
pub open spec fn it_cont(h: Heap, i: int) -> int { h.ArrayIterator_array[i] }
