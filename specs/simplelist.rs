pub open spec fn is_list(h: Heap, l: int) -> bool { 0 < l && l < h.top && dyn_of(l) == dyn_List() }
pub open spec fn is_node(h: Heap, n: int) -> bool { 0 < n && n < h.top && dyn_of(n) == dyn_Node() }
pub open spec fn nx(s: Seq<int>, i: int) -> int { if i + 1 < s.len() { s[i + 1] } else { 0 } }
// list l is the chain of its ghost sequence of nodes g; own and idx are each node's place
pub open spec fn l_ok(h: Heap, l: int) -> bool {
    let s = h.List_g[l];
    &&& h.List_len[l] == s.len()
    &&& h.List_head[l] == (if s.len() == 0 { 0 } else { s[0] })
    &&& h.List_tail[l] == (if s.len() == 0 { 0 } else { s[s.len() - 1] })
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> is_node(h, s[i]) && h.Node_own[s[i]] == l && h.Node_idx[s[i]] == i
    &&& forall|i: int| #![trigger h.Node_next[s[i]]] 0 <= i < s.len() ==> h.Node_next[s[i]] == nx(s, i)
}
pub open spec fn n_in(h: Heap, n: int) -> bool {
    let l = h.Node_own[n];
    is_list(h, l) && 0 <= h.Node_idx[n] < h.List_g[l].len() && h.List_g[l][h.Node_idx[n]] == n
}
pub open spec fn w_ok(h: Heap) -> bool {
    &&& forall|l: int| #![trigger h.List_g[l]] is_list(h, l) ==> l_ok(h, l)
    &&& forall|n: int| #![trigger h.Node_own[n]] is_node(h, n) && h.Node_own[n] != 0 ==> n_in(h, n)
}
pub open spec fn vals(g: Seq<int>, v: IMap<int, Val>) -> Seq<Val> { Seq::new(g.len(), |i: int| v[g[i]]) }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { vals(h.List_g[c], h.Node_Value) }
pub open spec fn c_others(h0: Heap, h: Heap, c: int) -> bool {
    forall|d: int| #![trigger h.List_g[d]] is_list(h0, d) && d != c ==> h.List_g[d] == h0.List_g[d] && vals(h.List_g[d], h.Node_Value) =~= vals(h0.List_g[d], h0.Node_Value)
}
pub open spec fn nodes_keep(h0: Heap, h: Heap) -> bool {
    forall|n: int| #![trigger h.Node_Value[n]] is_node(h0, n) ==> h.Node_Value[n] == h0.Node_Value[n]
}
// n is the node of l at its ghost position and pre its predecessor (nil for the first)
pub open spec fn pre_ok(h: Heap, l: int, pre: int, n: int) -> bool {
    is_node(h, n) && h.Node_own[n] == l && pre == (if h.Node_idx[n] == 0 { 0 } else { h.List_g[l][h.Node_idx[n] - 1] })
}
pub open spec fn ins_idx(h: Heap, l: int, n: int, p: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if m == n { p } else if h.Node_own[m] == l && h.Node_idx[m] >= p { h.Node_idx[m] + 1 } else { h.Node_idx[m] })
}
pub open spec fn rem_idx(h: Heap, l: int, p: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if h.Node_own[m] == l && h.Node_idx[m] > p { h.Node_idx[m] - 1 } else { h.Node_idx[m] })
}
