// frames of iterators and containers in terms of the unit's it_ok / it_pos / it_cont / c_ok / c_seq
pub open spec fn it_others(h0: Heap, h: Heap, it: int) -> bool {
    forall|i: int| #![trigger it_ok(h, i)] #![trigger it_pos(h, i)] #![trigger it_cont(h, i)]
        it_ok(h0, i) && i != it ==> it_ok(h, i) && it_pos(h, i) == it_pos(h0, i) && it_cont(h, i) == it_cont(h0, i)
}
pub open spec fn c_others(h0: Heap, h: Heap, c: int) -> bool {
    forall|d: int| #![trigger c_seq(h, d)] c_ok(h0, d) && d != c ==> c_ok(h, d) && c_seq(h, d) =~= c_seq(h0, d)
}
pub open spec fn it_rd(h: Heap, it: int) -> bool { true }
pub open spec fn it_pv(h: Heap, it: int) -> bool { true }
