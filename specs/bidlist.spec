unit bidlist
tags C06
pkg ds/list/bidlist
use container
types utils/visitor
ghost List.g: Seq<int>
ghost Visit.trace: !Seq<(Val,Val)>
ghost Node.idx: int
lib bidlist.rs
func bidlist.Node.Next(n) r
  requires w_ok(h) && is_node(h, n)
  ensures[next] r == (if h.Node_list[n] == 0 || h.Node_idx[n] + 1 >= h.List_g[h.Node_list[n]].len() { 0 } else { h.List_g[h.Node_list[n]][h.Node_idx[n] + 1] })
func bidlist.Node.Prev(n) r
  requires w_ok(h) && is_node(h, n)
  ensures[prev] r == (if h.Node_list[n] == 0 || h.Node_idx[n] == 0 { 0 } else { h.List_g[h.Node_list[n]][h.Node_idx[n] - 1] })
func bidlist.New() r
  requires w_ok(h)
  ghost exit List.g@list = Seq::<int>::empty()
  ensures[empty] is_list(h, r) && r >= h0.top && h.List_g[r].len() == 0
  ensures[others] w_ok(h) && c_others(h0, h, 0) && nodes_keep(h0, h)
func bidlist.List.Len(l) r
  requires w_ok(h) && is_list(h, l)
  ensures r == h.List_g[l].len()
func bidlist.List.Size(l) r
  implements container.Container.Size
func bidlist.List.Empty(l) r
  implements container.Container.Empty
func bidlist.List.FrontNode(l) r
  requires w_ok(h) && is_list(h, l)
  ensures r == (if h.List_g[l].len() == 0 { 0 } else { h.List_g[l][0] })
func bidlist.List.BackNode(l) r
  requires w_ok(h) && is_list(h, l)
  ensures r == (if h.List_g[l].len() == 0 { 0 } else { h.List_g[l].last() })
func bidlist.List.Front(l) r
  implements container.Container.Front
func bidlist.List.Back(l) r
  implements container.Container.Back
func bidlist.List.pushBack(l, v) r
  requires w_ok(h) && is_list(h, l)
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  hint call:insertAfter*.before { let g = h.List_g[l]; let z = h.List_head[l]; assert(z == g[0] && at_ok(h, l, 0)); }
  ghost exit Node.idx@r = if h0.List_g[l].len() == 0 { 0int } else { h.Node_idx[r] }
  ghost exit List.g@l = if h0.List_g[l].len() == 0 { seq![r] } else { h.List_g[l] }
  ensures[node] is_node(h, r) && r >= h0.top && h.Node_Value[r] == v && h.List_g[l] =~= h0.List_g[l].push(r)
  ensures[others] w_ok(h) && c_others(h0, h, l) && nodes_keep(h0, h)
func bidlist.List.PushBack(l, v)
  implements container.Container.PushBack
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ensures[nodes] h.List_g[l].drop_last() =~= h0.List_g[l] && h.List_g[l].last() >= h0.top && nodes_keep(h0, h)
func bidlist.List.PushFront(l, v)
  implements container.Container.PushFront
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ghost exit Node.idx = rot_idx(h, l)
  ghost exit List.g@l = rot(h.List_g[l])
  ensures[nodes] h.List_g[l].skip(1) =~= h0.List_g[l] && h.List_g[l][0] >= h0.top && nodes_keep(h0, h)
func bidlist.List.InsertAfter(l, v, mark) r
  requires w_ok(h) && is_list(h, l) && is_node(h, mark)
  modifies List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ensures[insert] h0.Node_list[mark] == l ==> is_node(h, r) && r >= h0.top && h.Node_Value[r] == v && h.List_g[l] =~= h0.List_g[l].insert(h0.Node_idx[mark] + 1, r)
  ensures[foreign] h0.Node_list[mark] != l ==> r == 0 && hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l) && nodes_keep(h0, h)
func bidlist.List.InsertBefore(l, v, mark) r
  requires w_ok(h) && is_list(h, l) && is_node(h, mark)
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ghost stmt:"l.head = n"#1.after Node.idx = rot_idx(h, l)
  ghost stmt:"l.head = n"#1.after List.g@l = rot(h.List_g[l])
  ensures[insert] h0.Node_list[mark] == l ==> is_node(h, r) && r >= h0.top && h.Node_Value[r] == v && h.List_g[l] =~= h0.List_g[l].insert(h0.Node_idx[mark], r)
  ensures[foreign] h0.Node_list[mark] != l ==> r == 0 && hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l) && nodes_keep(h0, h)
func bidlist.List.insertAfter(l, n, at) r
  requires w_x(h, n) && is_list(h, l) && is_node(h, n) && h.Node_list[n] == l && is_node(h, at) && h.Node_list[at] == l && at != n
  modifies List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ghost exit Node.idx = ins_idx(h, l, n, h0.Node_idx[at] + 1)
  ghost exit List.g@l = h.List_g[l].insert(h0.Node_idx[at] + 1, n)
  ensures[node] r == n && h.List_g[l] =~= h0.List_g[l].insert(h0.Node_idx[at] + 1, n)
  ensures[others] w_ok(h)
func bidlist.List.Remove(l, n) r
  requires w_ok(h) && is_list(h, l) && is_node(h, n)
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, Node.list@n, List.g@l
  ensures[value] r == h0.Node_Value[n]
  ensures[remove] h0.Node_list[n] == l ==> h.List_g[l] =~= h0.List_g[l].remove(h0.Node_idx[n]) && h.Node_list[n] == 0 && h.Node_next[n] == 0 && h.Node_prev[n] == 0
  ensures[foreign] h0.Node_list[n] != l ==> hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func bidlist.List.remove(l, n) r
  requires w_ok(h) && is_list(h, l) && is_node(h, n) && h.Node_list[n] == l
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, Node.list@n, List.g@l
  ghost exit List.g@l = h.List_g[l].remove(h0.Node_idx[n])
  ghost exit Node.idx = rem_idx(h, l, h0.Node_idx[n])
  ensures[remove] r == n && h.List_g[l] =~= h0.List_g[l].remove(h0.Node_idx[n]) && h.Node_list[n] == 0 && h.Node_next[n] == 0 && h.Node_prev[n] == 0
  ensures[others] w_ok(h) && c_others(h0, h, l)
func bidlist.List.Clear(l)
  implements container.Container.Clear
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, Node.list, List.g@l
  ensures[nodes] nodes_keep(h0, h) && forall|n: int| #![trigger h.Node_list[n]] is_node(h0, n) && h0.Node_list[n] == l ==> h.Node_list[n] == 0
  loop1 inv w_ok(h) && c_others(h0, h, l)
  loop1 inv forall|n: int| #![trigger h.Node_list[n]] is_node(h0, n) && h0.Node_list[n] == l ==> h.Node_list[n] == 0 || h.Node_list[n] == l
  loop1 dec h.List_g[l].len()
func bidlist.List.PopBack(l) r
  implements container.Container.PopBack
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, Node.list@h.List_g[l].last(), List.g@l
  ensures[nodes] h.List_g[l] =~= h0.List_g[l].drop_last() && h.Node_list[h0.List_g[l].last()] == 0
func bidlist.List.PopFront(l) r
  implements container.Container.PopFront
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, Node.list@h.List_g[l][0], List.g@l
  ensures[nodes] h.List_g[l] =~= h0.List_g[l].skip(1) && h.Node_list[h0.List_g[l][0]] == 0
func bidlist.List.MoveToFront(l, n)
  requires w_ok(h) && is_list(h, l) && is_node(h, n)
  modifies List.head@l, Node.next, Node.prev, Node.idx, List.g@l
  ghost stmt:"l.head = n"#1.after Node.idx = rot_idx(h, l)
  ghost stmt:"l.head = n"#1.after List.g@l = rot(h.List_g[l])
  ensures[move] h0.Node_list[n] == l ==> h.List_g[l] =~= seq![n] + h0.List_g[l].remove(h0.Node_idx[n])
  ensures[foreign] h0.Node_list[n] != l ==> hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func bidlist.List.MoveToBack(l, n)
  requires w_ok(h) && is_list(h, l) && is_node(h, n)
  modifies List.head@l, Node.next, Node.prev, Node.idx, List.g@l
  ensures[move] h0.Node_list[n] == l ==> h.List_g[l] =~= h0.List_g[l].remove(h0.Node_idx[n]).push(n)
  ensures[foreign] h0.Node_list[n] != l ==> hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
  ghost stmt:"l.head = n.next"#1.after Node.idx = lot_idx(h, l)
  ghost stmt:"l.head = n.next"#1.after List.g@l = lot(h.List_g[l])
func bidlist.List.MoveAfter(l, n, mark)
  requires w_ok(h) && is_list(h, l) && is_node(h, n) && is_node(h, mark)
  modifies List.head@l, Node.next, Node.prev, Node.idx, List.g@l
  ensures[move] h0.Node_list[n] == l && h0.Node_list[mark] == l && n != mark ==> h.List_g[l] =~= mv(h0.List_g[l], h0.Node_idx[n], h0.Node_idx[mark])
  ensures[foreign] h0.Node_list[n] != l || h0.Node_list[mark] != l || n == mark ==> hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func bidlist.List.moveToAfter(l, n, at)
  rlimit 400
  requires w_ok(h) && is_list(h, l) && is_node(h, n) && h.Node_list[n] == l && is_node(h, at) && h.Node_list[at] == l
  modifies List.head@l, Node.next, Node.prev, Node.idx, List.g@l
  ghost stmt:"at.next = n"#1.after Node.idx = mv_idx(h, l, n, h0.Node_idx[n], h0.Node_idx[at])
  ghost stmt:"at.next = n"#1.after List.g@l = mv(h.List_g[l], h0.Node_idx[n], h0.Node_idx[at])
  ensures[move] n != at && !(h0.Node_idx[n] == 0 && h0.Node_idx[at] == h0.List_g[l].len() - 1) ==> h.List_g[l] =~= mv(h0.List_g[l], h0.Node_idx[n], h0.Node_idx[at])
  ensures[stay] n == at || (h0.Node_idx[n] == 0 && h0.Node_idx[at] == h0.List_g[l].len() - 1) ==> hsame(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func bidlist.List.PushBackList(l, other)
  requires w_ok(h) && is_list(h, l) && is_list(h, other)
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ensures[seq] c_seq(h, l) =~= c_seq(h0, l) + c_seq(h0, other)
  ensures[nodes] nodes_keep(h0, h) && h.List_g[l].take(h0.List_g[l].len() as int) =~= h0.List_g[l] && w_ok(h) && c_others(h0, h, l)
  loop1 inv 0 <= i && i <= h0.List_g[other].len() && w_ok(h) && c_others(h0, h, l) && nodes_keep(h0, h)
  loop1 inv i > 0 ==> n == h0.List_g[other][h0.List_g[other].len() - i]
  loop1 inv h.List_g[l].len() == h0.List_g[l].len() + (h0.List_g[other].len() - i) && h.List_g[l].take(h0.List_g[l].len() as int) =~= h0.List_g[l]
  loop1 inv c_seq(h, l) =~= c_seq(h0, l) + c_seq(h0, other).take(h0.List_g[other].len() - i)
  loop1 dec i
func bidlist.List.PushFrontList(l, other)
  requires w_ok(h) && is_list(h, l) && is_list(h, other)
  modifies List.head@l, List.len@l, Node.next, Node.prev, Node.idx, List.g@l
  ensures[seq] c_seq(h, l) =~= c_seq(h0, other) + c_seq(h0, l)
  ensures[nodes] nodes_keep(h0, h) && h.List_g[l].skip(h0.List_g[other].len() as int) =~= h0.List_g[l] && w_ok(h) && c_others(h0, h, l)
  loop1 inv 0 <= i && i <= h0.List_g[other].len() && w_ok(h) && c_others(h0, h, l) && nodes_keep(h0, h)
  loop1 inv i > 0 ==> e == h0.List_g[other][i - 1]
  loop1 inv h.List_g[l].len() == h0.List_g[l].len() + (h0.List_g[other].len() - i) && h.List_g[l].skip(h0.List_g[other].len() - i) =~= h0.List_g[l]
  loop1 inv c_seq(h, l) =~= c_seq(h0, other).skip(i) + c_seq(h0, l)
  loop1 dec i
func bidlist.List.Traversal(l, visitor)
  requires w_ok(h) && is_list(h, l) && visitor != 0
  modifies Visit.trace
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, keyed(c_seq(h0, l)))
  ghostvar S: Seq<(Val, Val)> = keyed(c_seq(h0, l))
  hint loop1.before { vrun_at(visitor, h.Visit_trace, S, 0); }
  hint loop1.head { if node != 0 { vrun_at(visitor, h.Visit_trace, S, h.Node_idx[node]); } }
  hint loop1.after { vrun_at(visitor, h.Visit_trace, S, S.len() as int); }
  loop1 inv node == 0 || (is_node(h, node) && h.Node_list[node] == l)
  loop1 inv S == keyed(c_seq(h0, l)) && vrun(visitor, h0.Visit_trace, S) == vrun(visitor, h.Visit_trace, S.skip(if node == 0 { S.len() as int } else { h.Node_idx[node] }))
  loop1 dec S.len() - (if node == 0 { S.len() as int } else { h.Node_idx[node] })
func bidlist.NewIterator(node) r
  ensures r >= h0.top && r < h.top && dyn_of(r) == dyn_ListIterator() && h.ListIterator_node[r] == node
func bidlist.ListIterator.IsValid(it) r
  ensures r == (h.ListIterator_node[it] != 0)
func bidlist.ListIterator.Next(it) r
  requires w_ok(h) && (h.ListIterator_node[it] == 0 || is_node(h, h.ListIterator_node[it]))
  modifies ListIterator.node@it
  ensures r == it && h.ListIterator_node[it] == (if h0.ListIterator_node[it] == 0 { 0 } else { let n = h0.ListIterator_node[it]; if h.Node_list[n] == 0 || h.Node_idx[n] + 1 >= h.List_g[h.Node_list[n]].len() { 0 } else { h.List_g[h.Node_list[n]][h.Node_idx[n] + 1] } })
func bidlist.ListIterator.Prev(it) r
  requires w_ok(h) && (h.ListIterator_node[it] == 0 || is_node(h, h.ListIterator_node[it]))
  modifies ListIterator.node@it
  ensures r == it && h.ListIterator_node[it] == (if h0.ListIterator_node[it] == 0 { 0 } else { let n = h0.ListIterator_node[it]; if h.Node_list[n] == 0 || h.Node_idx[n] == 0 { 0 } else { h.List_g[h.Node_list[n]][h.Node_idx[n] - 1] } })
func bidlist.ListIterator.Value(it) r
  panics h.ListIterator_node[it] == 0
  ensures r == h.Node_Value[h.ListIterator_node[it]]
func bidlist.ListIterator.SetValue(it, value)
  requires h.ListIterator_node[it] >= 0
  modifies Node.Value@h.ListIterator_node[it]
  ensures h.Node_Value == (if h0.ListIterator_node[it] == 0 { h0.Node_Value } else { h0.Node_Value.insert(h0.ListIterator_node[it], value) })
func bidlist.ListIterator.Clone(it) r
  ensures r >= h0.top && dyn_of(r) == dyn_ListIterator() && h.ListIterator_node[r] == h0.ListIterator_node[it]
func bidlist.ListIterator.Equal(it, other) r
  ensures r == (other != 0 && dyn_of(other) == dyn_ListIterator() && h.ListIterator_node[it] == h.ListIterator_node[other])
