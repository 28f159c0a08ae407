// l is a list object, n a node object
pub open spec fn is_list(h: Heap, l: int) -> bool { 0 < l && l < h.top && dyn_of(l) == dyn_List() }
pub open spec fn is_node(h: Heap, n: int) -> bool { 0 < n && n < h.top && dyn_of(n) == dyn_Node() }
// the ring neighbours of position i
pub open spec fn nx(s: Seq<int>, i: int) -> int { if i + 1 < s.len() { s[i + 1] } else { s[0] } }
pub open spec fn pv(s: Seq<int>, i: int) -> int { if i > 0 { s[i - 1] } else { s[s.len() - 1] } }
pub open spec fn at_ok(h: Heap, l: int, i: int) -> bool {
    let s = h.List_g[l];
    let n = s[i];
    h.Node_next[n] == nx(s, i) && h.Node_prev[n] == pv(s, i) && is_node(h, h.Node_next[n]) && is_node(h, h.Node_prev[n])
}
// list l is the ring of its ghost sequence of nodes g
pub open spec fn l_ok(h: Heap, l: int) -> bool {
    let s = h.List_g[l];
    &&& h.List_len[l] == s.len()
    &&& h.List_head[l] == (if s.len() == 0 { 0 } else { s[0] })
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> is_node(h, s[i]) && h.Node_list[s[i]] == l && h.Node_idx[s[i]] == i
    &&& forall|i: int| #![trigger h.Node_next[s[i]]] #![trigger h.Node_prev[s[i]]] #![trigger at_ok(h, l, i)] 0 <= i < s.len() ==> at_ok(h, l, i)
}
pub open spec fn n_in(h: Heap, n: int) -> bool {
    let l = h.Node_list[n];
    is_list(h, l) && 0 <= h.Node_idx[n] < h.List_g[l].len() && h.List_g[l][h.Node_idx[n]] == n
}
// all lists are proper, and every node that claims an owner is in that owner's sequence, except x (being linked in)
pub open spec fn w_x(h: Heap, x: int) -> bool {
    &&& forall|l: int| #![trigger h.List_g[l]] is_list(h, l) ==> l_ok(h, l)
    &&& forall|n: int| #![trigger h.Node_list[n]] is_node(h, n) && h.Node_list[n] != 0 && n != x ==> n_in(h, n)
    &&& forall|l: int, i: int| #![trigger h.List_g[l][i]] is_list(h, l) && 0 <= i < h.List_g[l].len() ==> h.List_g[l][i] != x
}
pub open spec fn w_ok(h: Heap) -> bool { w_x(h, 0) }
pub open spec fn c_ok(h: Heap, c: int) -> bool { is_list(h, c) }
pub open spec fn vals(g: Seq<int>, v: IMap<int, Val>) -> Seq<Val> { Seq::new(g.len(), |i: int| v[g[i]]) }
#[verifier::inline]
pub open spec fn c_seq(h: Heap, c: int) -> Seq<Val> { vals(h.List_g[c], h.Node_Value) }
// every list except l keeps its nodes and values, every node its value
pub open spec fn c_others(h0: Heap, h: Heap, c: int) -> bool {
    &&& forall|d: int| #![trigger h.List_g[d]] is_list(h0, d) && d != c ==> h.List_g[d] == h0.List_g[d] && vals(h.List_g[d], h.Node_Value) =~= vals(h0.List_g[d], h0.Node_Value)
    &&& forall|n: int| #![trigger h.Node_list[n]] is_node(h0, n) && h0.Node_list[n] != c ==> h.Node_list[n] == h0.Node_list[n] || h0.Node_list[n] == 0
}
pub open spec fn nodes_keep(h0: Heap, h: Heap) -> bool {
    forall|n: int| #![trigger h.Node_Value[n]] is_node(h0, n) ==> h.Node_Value[n] == h0.Node_Value[n]
}
// ghost positions after inserting n at p, removing position p, rotating the last to the front
pub open spec fn ins_idx(h: Heap, l: int, n: int, p: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if m == n { p } else if h.Node_list[m] == l && h.Node_idx[m] >= p { h.Node_idx[m] + 1 } else { h.Node_idx[m] })
}
pub open spec fn rem_idx(h: Heap, l: int, p: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if h.Node_list[m] == l && h.Node_idx[m] > p { h.Node_idx[m] - 1 } else { h.Node_idx[m] })
}
pub open spec fn rot_idx(h: Heap, l: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if h.Node_list[m] == l { if h.Node_idx[m] == h.List_g[l].len() - 1 { 0 } else { h.Node_idx[m] + 1 } } else { h.Node_idx[m] })
}
pub open spec fn rot(s: Seq<int>) -> Seq<int> { seq![s[s.len() - 1]] + s.drop_last() }
// the element at p moved to just after the element at a
pub open spec fn mv_to(p: int, a: int) -> int { if p < a { a } else { a + 1 } }
pub open spec fn mv(s: Seq<int>, p: int, a: int) -> Seq<int> { s.remove(p).insert(mv_to(p, a), s[p]) }
pub open spec fn mv_idx(h: Heap, l: int, n: int, p: int, a: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if h.Node_list[m] != l { h.Node_idx[m] } else if m == n { mv_to(p, a) } else {
        let j = if h.Node_idx[m] > p { h.Node_idx[m] - 1 } else { h.Node_idx[m] };
        if j >= mv_to(p, a) { j + 1 } else { j }
    })
}
pub open spec fn lot_idx(h: Heap, l: int) -> IMap<int, int> {
    IMap::new(|m: int| true, |m: int| if h.Node_list[m] == l { if h.Node_idx[m] == 0 { h.List_g[l].len() - 1 } else { h.Node_idx[m] - 1 } } else { h.Node_idx[m] })
}
pub open spec fn lot(s: Seq<int>) -> Seq<int> { s.skip(1).push(s[0]) }
