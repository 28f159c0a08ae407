// ---------- maps ----------
pub open spec fn m_ok(h: Heap, m: int) -> bool { 0 < m && m < h.top && h.Map_locker[m] != 0 && t_ok(h, h.Map_tree[m]) && strict(h.RbTree_keyCmp[h.Map_tree[m]], t_keys(h, h.Map_tree[m])) }
pub open spec fn mm_ok(h: Heap, m: int) -> bool { 0 < m && m < h.top && h.MultiMap_locker[m] != 0 && t_ok(h, h.MultiMap_tree[m]) }
#[verifier::inline]
pub open spec fn mit_in(h: Heap, it: int, t: int) -> bool { h.MapIterator_node[it] == 0 || (n_in(h, h.MapIterator_node[it]) && h.Node_own[h.MapIterator_node[it]] == t) }
#[verifier::inline]
pub open spec fn mit_at(h: Heap, it: int, t: int) -> bool { h.MapIterator_node[it] == 0 || mem(tr(h, t), h.MapIterator_node[it]) }
