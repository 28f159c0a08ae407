unit simplelist
tags C07
pkg ds/list/simplelist
types utils/visitor
types utils/iterator
ghost List.g: Seq<int>
ghost Node.idx: int
ghost Node.own: int
ghost Visit.trace: !Seq<(Val,Val)>
lib simplelist.rs
func simplelist.Node.Next(n) r
  ensures[raw] r == h.Node_next[n]
  ensures[next] w_ok(h) && is_node(h, n) && h.Node_own[n] != 0 ==> r == nx(h.List_g[h.Node_own[n]], h.Node_idx[n])
func simplelist.New() r
  requires w_ok(h)
  ghost exit List.g@list = Seq::<int>::empty()
  ensures[empty] is_list(h, r) && r >= h0.top && h.List_g[r].len() == 0
  ensures[others] w_ok(h) && c_others(h0, h, 0) && nodes_keep(h0, h)
func simplelist.List.Len(l) r
  requires w_ok(h) && is_list(h, l)
  ensures r == h.List_g[l].len()
func simplelist.List.FrontNode(l) r
  requires w_ok(h) && is_list(h, l)
  ensures r == (if h.List_g[l].len() == 0 { 0 } else { h.List_g[l][0] })
func simplelist.List.BackNode(l) r
  requires w_ok(h) && is_list(h, l)
  ensures r == (if h.List_g[l].len() == 0 { 0 } else { h.List_g[l].last() })
func simplelist.List.PushFront(l, v)
  requires w_ok(h) && is_list(h, l)
  modifies List.head@l, List.tail@l, List.len@l, Node.next, Node.idx, List.g@l
  ghost exit Node.own@h.List_head[l] = l
  ghost exit Node.idx = ins_idx(h, l, h.List_head[l], 0)
  ghost exit List.g@l = seq![h.List_head[l]] + h.List_g[l]
  ensures[seq] c_seq(h, l) =~= seq![v] + c_seq(h0, l)
  ensures[nodes] h.List_g[l].skip(1) =~= h0.List_g[l] && h.List_g[l][0] >= h0.top && nodes_keep(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func simplelist.List.PushBack(l, v)
  requires w_ok(h) && is_list(h, l)
  modifies List.head@l, List.tail@l, List.len@l, Node.next, Node.idx, List.g@l
  ghost exit Node.own@h.List_tail[l] = l
  ghost exit Node.idx@h.List_tail[l] = h.List_g[l].len() as int
  ghost exit List.g@l = h.List_g[l].push(h.List_tail[l])
  ensures[seq] c_seq(h, l) =~= c_seq(h0, l).push(v)
  ensures[nodes] h.List_g[l].drop_last() =~= h0.List_g[l] && h.List_g[l].last() >= h0.top && nodes_keep(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func simplelist.List.InsertAfter(l, v, mark) r
  requires w_ok(h) && is_list(h, l) && is_node(h, mark) && h.Node_own[mark] == l
  modifies List.tail@l, List.len@l, Node.next@mark, Node.idx, List.g@l
  ensures[insert] is_node(h, r) && r >= h0.top && h.Node_Value[r] == v && h.List_g[l] =~= h0.List_g[l].insert(h0.Node_idx[mark] + 1, r) && nodes_keep(h0, h)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func simplelist.List.insertAfter(l, n, at) r
  requires w_ok(h) && is_list(h, l) && is_node(h, n) && h.Node_own[n] == 0 && is_node(h, at) && h.Node_own[at] == l
  modifies List.tail@l, List.len@l, Node.next@at, Node.next@n, Node.own@n, Node.idx, List.g@l
  ghost exit Node.own@n = l
  ghost exit Node.idx = ins_idx(h, l, n, h0.Node_idx[at] + 1)
  ghost exit List.g@l = h.List_g[l].insert(h0.Node_idx[at] + 1, n)
  ensures[insert] r == n && h.List_g[l] =~= h0.List_g[l].insert(h0.Node_idx[at] + 1, n)
  ensures[others] w_ok(h)
func simplelist.List.Remove(l, pre, n) r
  requires w_ok(h) && is_list(h, l) && (n == 0 || pre_ok(h, l, pre, n))
  modifies List.head@l, List.tail@l, List.len@l, Node.next, Node.own@n, Node.idx, List.g@l
  ghost exit Node.own = if n == 0 { h.Node_own } else { h.Node_own.insert(n, 0) }
  ghost exit Node.idx = if n == 0 { h.Node_idx } else { rem_idx(h, l, h0.Node_idx[n]) }
  ghost exit List.g@l = if n == 0 { h.List_g[l] } else { h.List_g[l].remove(h0.Node_idx[n]) }
  ensures[nil] n == 0 ==> hsame(h0, h)
  ensures[remove] n != 0 ==> r == h0.Node_Value[n] && h.List_g[l] =~= h0.List_g[l].remove(h0.Node_idx[n]) && h.Node_own[n] == 0
  ensures[others] w_ok(h) && c_others(h0, h, l)
func simplelist.List.MoveToFront(l, pre, n)
  requires w_ok(h) && is_list(h, l) && (n == 0 || pre_ok(h, l, pre, n))
  modifies List.head@l, List.tail@l, Node.next, Node.idx, List.g@l
  ghost exit Node.idx = if n == 0 { h.Node_idx } else { ins_idx(Heap { Node_idx: rem_idx(h, l, h0.Node_idx[n]), ..h }, l, n, 0) }
  ghost exit List.g@l = if n == 0 { h.List_g[l] } else { seq![n] + h.List_g[l].remove(h0.Node_idx[n]) }
  ensures[nil] n == 0 ==> hsame(h0, h)
  ensures[move] n != 0 ==> h.List_g[l] =~= seq![n] + h0.List_g[l].remove(h0.Node_idx[n])
  ensures[others] w_ok(h) && c_others(h0, h, l)
func simplelist.List.MoveToBack(l, pre, n)
  requires w_ok(h) && is_list(h, l) && (n == 0 || pre_ok(h, l, pre, n))
  modifies List.head@l, List.tail@l, Node.next, Node.idx, List.g@l
  ghost exit Node.idx = if n == 0 { h.Node_idx } else { ins_idx(Heap { Node_idx: rem_idx(h, l, h0.Node_idx[n]), ..h }, l, n, h.List_g[l].len() - 1) }
  ghost exit List.g@l = if n == 0 { h.List_g[l] } else { h.List_g[l].remove(h0.Node_idx[n]).push(n) }
  ensures[nil] n == 0 ==> hsame(h0, h)
  ensures[move] n != 0 ==> h.List_g[l] =~= h0.List_g[l].remove(h0.Node_idx[n]).push(n)
  ensures[others] w_ok(h) && c_others(h0, h, l)
func simplelist.List.Traversal(l, visitor)
  requires w_ok(h) && is_list(h, l) && visitor != 0
  modifies Visit.trace
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, keyed(c_seq(h0, l)))
  ghostvar S: Seq<(Val, Val)> = keyed(c_seq(h0, l))
  hint loop1.before { vrun_at(visitor, h.Visit_trace, S, 0); }
  hint loop1.head { if node != 0 { vrun_at(visitor, h.Visit_trace, S, h.Node_idx[node]); } }
  hint loop1.after { vrun_at(visitor, h.Visit_trace, S, S.len() as int); }
  loop1 inv node == 0 || (is_node(h, node) && h.Node_own[node] == l)
  loop1 inv S == keyed(c_seq(h0, l)) && vrun(visitor, h0.Visit_trace, S) == vrun(visitor, h.Visit_trace, S.skip(if node == 0 { S.len() as int } else { h.Node_idx[node] }))
  loop1 dec S.len() - (if node == 0 { S.len() as int } else { h.Node_idx[node] })
func simplelist.NewIterator(node) r
  ensures r >= h0.top && r < h.top && dyn_of(r) == dyn_ListIterator() && h.ListIterator_node[r] == node
func simplelist.ListIterator.IsValid(it) r
  ensures r == (h.ListIterator_node[it] != 0)
func simplelist.ListIterator.Next(it) r
  modifies ListIterator.node@it
  ensures r == it && h.ListIterator_node[it] == (if h0.ListIterator_node[it] == 0 { 0 } else { h0.Node_next[h0.ListIterator_node[it]] })
  ensures[next] w_ok(h0) && is_node(h0, h0.ListIterator_node[it]) && h0.Node_own[h0.ListIterator_node[it]] != 0 ==> h.ListIterator_node[it] == nx(h0.List_g[h0.Node_own[h0.ListIterator_node[it]]], h0.Node_idx[h0.ListIterator_node[it]])
func simplelist.ListIterator.Value(it) r
  panics h.ListIterator_node[it] == 0
  ensures r == h.Node_Value[h.ListIterator_node[it]]
func simplelist.ListIterator.SetValue(it, value)
  modifies Node.Value@h.ListIterator_node[it]
  ensures h.Node_Value == (if h0.ListIterator_node[it] == 0 { h0.Node_Value } else { h0.Node_Value.insert(h0.ListIterator_node[it], value) })
func simplelist.ListIterator.Clone(it) r
  ensures r >= h0.top && dyn_of(r) == dyn_ListIterator() && h.ListIterator_node[r] == h0.ListIterator_node[it]
func simplelist.ListIterator.Equal(it, other) r
  ensures r == (other != 0 && dyn_of(other) == dyn_ListIterator() && h.ListIterator_node[it] == h.ListIterator_node[other])
