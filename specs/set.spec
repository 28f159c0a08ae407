unit set
tags C12
pkg ds/set
use rbtree
use sync
lib map0.rs set.rs
guard Set.tree Set.locker
guard MultiSet.tree MultiSet.locker
functype set.Option(f, option)
  requires h.Options_locker[option] != 0
  allocs
  modifies Options.locker@option
  ensures h.Options_locker[option] != 0 && h0.top <= h.top
func set.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as set.Option ensures h.Options_locker[option] >= h0.top
func set.New(cmp, opts) r
  requires cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint exit { assert(h.Set_locker[r] == h.Options_locker[option]); assert(option >= h0.top); reveal(strict); reveal(nodes_in); reveal(farn); others(h0, h, h.Set_tree[r]); }
  loop1 inv h.Options_locker[option] != 0
  ensures[new] s_ok(h, r) && r >= h0.top && h.Set_tree[r] >= h0.top && h.RbTree_keyCmp[h.Set_tree[r]] == cmp && h.RbTree_seq[h.Set_tree[r]].len() == 0
  ensures[others] t_others(h0, h, h.Set_tree[r])
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.Set_locker[r] == h.Options_locker[o]
func set.NewMultiSet(cmp, opts) r
  requires cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint exit { assert(h.MultiSet_locker[r] == h.Options_locker[option]); assert(option >= h0.top); reveal(strict); reveal(nodes_in); reveal(farn); others(h0, h, h.MultiSet_tree[r]); }
  loop1 inv h.Options_locker[option] != 0
  ensures[new] ms_ok(h, r) && r >= h0.top && h.MultiSet_tree[r] >= h0.top && h.RbTree_keyCmp[h.MultiSet_tree[r]] == cmp && h.RbTree_seq[h.MultiSet_tree[r]].len() == 0
  ensures[others] t_others(h0, h, h.MultiSet_tree[r])
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.MultiSet_locker[r] == h.Options_locker[o]
func set.Set.Find(m, key) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  hint entry { find_at(h, h.Set_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.Set_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == t_find(h0, h0.Set_tree[m], key) && sit_in(h, r, h.Set_tree[m])
func set.Set.LowerBound(m, key) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  hint entry { find_at(h, h.Set_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.Set_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.Set_tree[m]], t_lb(h, h.Set_tree[m], key)) && sit_in(h, r, h.Set_tree[m])
func set.Set.UpperBound(m, key) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  hint entry { find_at(h, h.Set_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.Set_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.Set_tree[m]], t_ub(h, h.Set_tree[m], key)) && sit_in(h, r, h.Set_tree[m])
func set.Set.Begin(m) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.Set_tree[m]], 0) && sit_in(h, r, h.Set_tree[m])
func set.Set.First(m) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.Set_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.Set_tree[m]], 0) && sit_in(h, r, h.Set_tree[m])
func set.Set.Last(m) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.Set_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.Set_tree[m]], h.RbTree_seq[h.Set_tree[m]].len() - 1) && sit_in(h, r, h.Set_tree[m])
func set.Set.Contains(m, key) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  hint entry { find_at(h, h.Set_tree[m], key); }
  ensures[contains] r == (t_lb(h, h.Set_tree[m], key) != t_ub(h, h.Set_tree[m], key))
func set.Set.Size(m) r
  locks h.Set_locker[m]
  requires s_ok(h, m)
  ensures[size] r == t_ents(h, h.Set_tree[m]).len()
func set.Set.Clear(m)
  locks h.Set_locker[m]
  requires s_ok(h, m)
  modifies RbTree.root@h.Set_tree[m], RbTree.size@h.Set_tree[m], RbTree.seq@h.Set_tree[m], Node.own
  hint exit { reveal(strict); }
  ensures[clear] s_ok(h, m) && t_ents(h, h.Set_tree[m]).len() == 0
  ensures[others] t_others(h0, h, h0.Set_tree[m])
func set.Set.Traversal(m, visitor)
  locks h.Set_locker[m]
  requires s_ok(h, m) && visitor != 0
  modifies Visit.trace
  ghostvar t: int = h0.Set_tree[m]
  ghostvar S: Seq<(Val, Val)> = keyed(t_keys(h0, t))
  hint loop1.before { vrun_at(visitor, h.Visit_trace, S, 0); vrun_at(visitor, h.Visit_trace, S, S.len() as int); if S.len() > 0 { node_at(h, t, 0); } if node != 0 { node_in(h, t, node); } assert(S.skip(0) =~= S); }
  hint loop1.head { if node != 0 { node_in(h, t, node); vrun_at(visitor, h.Visit_trace, S, h.Node_idx[node]); if h.Node_idx[node] + 1 < h.RbTree_seq[t].len() { node_at(h, t, h.Node_idx[node] + 1); } } }
  hint loop1.after { vrun_at(visitor, h.Visit_trace, S, S.len() as int); }
  loop1 inv node >= 0 && (node != 0 ==> mem(tr(h, t), node) && h.Node_idx[node] <= S.len()) && t_ok(h, t)
  loop1 inv S == keyed(t_keys(h0, t)) && vrun(visitor, h0.Visit_trace, S) == vrun(visitor, h.Visit_trace, S.skip(if node == 0 { S.len() as int } else { h.Node_idx[node] }))
  loop1 dec S.len() - (if node == 0 { S.len() as int } else { h.Node_idx[node] })
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, keyed(t_keys(h0, h0.Set_tree[m])))
func set.Set.Erase(m, key)
  locks h.Set_locker[m]
  requires s_ok(h, m)
  ghostvar t: int = h0.Set_tree[m]
  hint entry { find_at(h, t, key); reveal(farn); }
  hint call:Delete#1.after { strict_rem(h.RbTree_keyCmp[t], t_keys(hp, t), t_lb(h0, t, key)); ents_keys(hp, h, t, t_lb(h0, t, key)); }
  hint post.others { if t_find(h0, t, key) == 0 { others(h0, h, t); } }
  modifies RbTree.root@h.Set_tree[m], RbTree.size@h.Set_tree[m], RbTree.seq@h.Set_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  ensures[erase] s_ok(h, m) && ({ let t = h0.Set_tree[m]; let p = t_lb(h0, t, key); if p == t_ub(h0, t, key) { t_keys(h, t) == t_keys(h0, t) } else { t_keys(h, t) == t_keys(h0, t).remove(p) } })
  ensures[others] t_others(h0, h, h0.Set_tree[m])
func set.MultiSet.Find(m, key) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint entry { find_at(h, h.MultiSet_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiSet_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == t_find(h0, h0.MultiSet_tree[m], key) && sit_in(h, r, h.MultiSet_tree[m])
func set.MultiSet.LowerBound(m, key) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint entry { find_at(h, h.MultiSet_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiSet_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiSet_tree[m]], t_lb(h, h.MultiSet_tree[m], key)) && sit_in(h, r, h.MultiSet_tree[m])
func set.MultiSet.UpperBound(m, key) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint entry { find_at(h, h.MultiSet_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiSet_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiSet_tree[m]], t_ub(h, h.MultiSet_tree[m], key)) && sit_in(h, r, h.MultiSet_tree[m])
func set.MultiSet.Begin(m) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiSet_tree[m]], 0) && sit_in(h, r, h.MultiSet_tree[m])
func set.MultiSet.First(m) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiSet_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiSet_tree[m]], 0) && sit_in(h, r, h.MultiSet_tree[m])
func set.MultiSet.Last(m) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiSet_tree[m], h.SetIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiSet_tree[m]], h.RbTree_seq[h.MultiSet_tree[m]].len() - 1) && sit_in(h, r, h.MultiSet_tree[m])
func set.MultiSet.Contains(m, key) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint entry { find_at(h, h.MultiSet_tree[m], key); }
  ensures[contains] r == (t_lb(h, h.MultiSet_tree[m], key) != t_ub(h, h.MultiSet_tree[m], key))
func set.MultiSet.Size(m) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  ensures[size] r == t_ents(h, h.MultiSet_tree[m]).len()
func set.MultiSet.Clear(m)
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  modifies RbTree.root@h.MultiSet_tree[m], RbTree.size@h.MultiSet_tree[m], RbTree.seq@h.MultiSet_tree[m], Node.own
  hint exit { }
  ensures[clear] ms_ok(h, m) && t_ents(h, h.MultiSet_tree[m]).len() == 0
  ensures[others] t_others(h0, h, h0.MultiSet_tree[m])
func set.MultiSet.Traversal(m, visitor)
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m) && visitor != 0
  modifies Visit.trace
  ghostvar t: int = h0.MultiSet_tree[m]
  ghostvar S: Seq<(Val, Val)> = keyed(t_keys(h0, t))
  hint loop1.before { vrun_at(visitor, h.Visit_trace, S, 0); vrun_at(visitor, h.Visit_trace, S, S.len() as int); if S.len() > 0 { node_at(h, t, 0); } if node != 0 { node_in(h, t, node); } assert(S.skip(0) =~= S); }
  hint loop1.head { if node != 0 { node_in(h, t, node); vrun_at(visitor, h.Visit_trace, S, h.Node_idx[node]); if h.Node_idx[node] + 1 < h.RbTree_seq[t].len() { node_at(h, t, h.Node_idx[node] + 1); } } }
  hint loop1.after { vrun_at(visitor, h.Visit_trace, S, S.len() as int); }
  loop1 inv node >= 0 && (node != 0 ==> mem(tr(h, t), node) && h.Node_idx[node] <= S.len()) && t_ok(h, t)
  loop1 inv S == keyed(t_keys(h0, t)) && vrun(visitor, h0.Visit_trace, S) == vrun(visitor, h.Visit_trace, S.skip(if node == 0 { S.len() as int } else { h.Node_idx[node] }))
  loop1 dec S.len() - (if node == 0 { S.len() as int } else { h.Node_idx[node] })
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, keyed(t_keys(h0, h0.MultiSet_tree[m])))
func set.MultiSet.Erase(m, key)
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  ghostvar t: int = h0.MultiSet_tree[m]
  hint entry { find_at(h, t, key); reveal(farn); }
  hint call:Delete#1.after { ents_keys(hp, h, t, t_lb(h0, t, key)); }
  hint post.others { if t_find(h0, t, key) == 0 { others(h0, h, t); } }
  modifies RbTree.root@h.MultiSet_tree[m], RbTree.size@h.MultiSet_tree[m], RbTree.seq@h.MultiSet_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  ensures[erase] ms_ok(h, m) && ({ let t = h0.MultiSet_tree[m]; let p = t_lb(h0, t, key); if p == t_ub(h0, t, key) { t_keys(h, t) == t_keys(h0, t) } else { t_keys(h, t) == t_keys(h0, t).remove(p) } })
  ensures[others] t_others(h0, h, h0.MultiSet_tree[m])
func set.Set.Insert(m, key)
  locks h.Set_locker[m]
  requires s_ok(h, m)
  ghostvar t: int = h0.Set_tree[m]
  hint entry { find_at(h, t, key); if t_find(h, t, key) == 0 { strict_ins(h.RbTree_keyCmp[t], t_keys(h, t), key); } strict_one(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint call:Insert#1.after { ents_keys_ins(hp, h, t, t_ub(hp, t, c_key)); }
  hint post.others { if t_find(h0, t, key) != 0 { reveal(farn); others(h0, h, t); } }
  modifies RbTree.root@h.Set_tree[m], RbTree.size@h.Set_tree[m], RbTree.seq@h.Set_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ensures[insert] s_ok(h, m) && ({ let t = h0.Set_tree[m]; let p = t_lb(h0, t, key); if t_find(h0, t, key) == 0 { t_keys(h, t) == t_keys(h0, t).insert(p, key) } else { t_keys(h, t) == t_keys(h0, t) } })
  ensures[others] t_others(h0, h, h0.Set_tree[m])
func set.MultiSet.Insert(m, key)
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  hint call:Insert#1.after { ents_keys_ins(hp, h, h0.MultiSet_tree[m], t_ub(hp, h0.MultiSet_tree[m], c_key)); }
  modifies RbTree.root@h.MultiSet_tree[m], RbTree.size@h.MultiSet_tree[m], RbTree.seq@h.MultiSet_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ensures[insert] ms_ok(h, m) && ({ let t = h0.MultiSet_tree[m]; t_keys(h, t) == t_keys(h0, t).insert(t_ub(h0, t, key), key) })
  ensures[others] t_others(h0, h, h0.MultiSet_tree[m])
func set.MultiSet.Count(m, key) r
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  ghostvar t: int = h0.MultiSet_tree[m]
  ghostvar lo: int = t_lb(h0, t, key)
  ghostvar up: int = t_ub(h0, t, key)
  hint entry { find_at(h, t, key); }
  hint loop1.before { if h.RbTree_seq[t].len() > 0 { node_at(h, t, 0); } if lo < h.RbTree_seq[t].len() { node_at(h, t, lo); } }
  hint loop1.head { if node != 0 { node_in(h, t, node); bound_at(h, t, key, node); if h.Node_idx[node] + 1 < h.RbTree_seq[t].len() { node_at(h, t, h.Node_idx[node] + 1); } } }
  loop1 inv node >= 0 && (node != 0 ==> mem(tr(h, t), node)) && t_ok(h, t) && (node != 0 ==> h.Node_idx[node] < h.RbTree_seq[t].len())
  loop1 inv ({ let q = if node == 0 { h.RbTree_seq[t].len() as int } else { h.Node_idx[node] }; count == (if q <= lo { 0 } else if q <= up { q - lo } else { up - lo }) })
  loop1 dec h.RbTree_seq[t].len() - (if node == 0 { h.RbTree_seq[t].len() as int } else { h.Node_idx[node] })
  ensures[count] r == t_ub(h, h.MultiSet_tree[m], key) - t_lb(h, h.MultiSet_tree[m], key)
func set.MultiSet.EraseAll(m, key)
  locks h.MultiSet_locker[m]
  requires ms_ok(h, m)
  ghostvar t: int = h0.MultiSet_tree[m]
  ghostvar E: Seq<(Val, Val)> = t_ents(h0, t)
  ghostvar lo: int = t_lb(h0, t, key)
  ghostvar up: int = t_ub(h0, t, key)
  ghostvar j: int = lo
  hint entry { find_at(h, t, key); reveal(farn); others(h0, h, t); assert(without(E, lo, lo) =~= E); lb_is(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint loop1.start { left_over(h0, h, t, key, j); find_at(h, t, key); }
  hint call:Delete#1.after { rem_left(E, lo, j); others_others(h0, hp, h, t); }
  ghost call:Delete#1.after j = j + 1
  loop1 inv t_ok(h, t) && t_others(h0, h, t) && lo <= j && j <= up && h.RbTree_keyCmp[t] == h0.RbTree_keyCmp[t] && t_ents(h, t) == without(E, lo, j)
  loop1 dec up - j
  modifies RbTree.root@h.MultiSet_tree[m], RbTree.size@h.MultiSet_tree[m], RbTree.seq@h.MultiSet_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  hint post.erase { ents_keys_cut(h0, h, t, lo, up); }
  ensures[erase] ms_ok(h, m) && ({ let t = h0.MultiSet_tree[m]; t_keys(h, t) == t_keys(h0, t).take(t_lb(h0, t, key)) + t_keys(h0, t).skip(t_ub(h0, t, key)) })
  ensures[others] t_others(h0, h, h0.MultiSet_tree[m])
func set.SetIterator.IsValid(it) r
  ensures r == (h.SetIterator_node[it] != 0)
func set.SetIterator.Next(it) r
  requires h.SetIterator_node[it] == 0 || n_in(h, h.SetIterator_node[it])
  modifies SetIterator.node@it
  ensures[next] r == it && h.SetIterator_node[it] == (if h0.SetIterator_node[it] == 0 { 0 } else { nxt(h0, h0.SetIterator_node[it]) })
  ensures[in] h.SetIterator_node[it] != 0 ==> n_in(h, h.SetIterator_node[it]) && h.Node_own[h.SetIterator_node[it]] == h.Node_own[h0.SetIterator_node[it]] && h.Node_idx[h.SetIterator_node[it]] == h.Node_idx[h0.SetIterator_node[it]] + 1
  hint entry { if h.SetIterator_node[it] != 0 { node_in(h, h.Node_own[h.SetIterator_node[it]], h.SetIterator_node[it]); } }
  hint call:Next#1.after { if c_r != 0 { node_in(h, h.Node_own[h.SetIterator_node[it]], c_r); } }
func set.SetIterator.Prev(it) r
  requires h.SetIterator_node[it] == 0 || n_in(h, h.SetIterator_node[it])
  modifies SetIterator.node@it
  ensures[prev] r == it && h.SetIterator_node[it] == (if h0.SetIterator_node[it] == 0 { 0 } else { prv(h0, h0.SetIterator_node[it]) })
  ensures[in] h.SetIterator_node[it] != 0 ==> n_in(h, h.SetIterator_node[it]) && h.Node_own[h.SetIterator_node[it]] == h.Node_own[h0.SetIterator_node[it]] && h.Node_idx[h.SetIterator_node[it]] == h.Node_idx[h0.SetIterator_node[it]] - 1
  hint entry { if h.SetIterator_node[it] != 0 { node_in(h, h.Node_own[h.SetIterator_node[it]], h.SetIterator_node[it]); } }
  hint call:Prev#1.after { if c_r != 0 { node_in(h, h.Node_own[h.SetIterator_node[it]], c_r); } }
func set.SetIterator.Value(it) r
  panics h.SetIterator_node[it] == 0
  ensures r == h.Node_key[h.SetIterator_node[it]]
func set.SetIterator.Clone(it) r
  ensures r >= h0.top && dyn_of(r) == dyn_SetIterator() && h.SetIterator_node[r] == h0.SetIterator_node[it]
func set.SetIterator.Equal(it, other) r
  ensures r == (other != 0 && dyn_of(other) == dyn_SetIterator() && h.SetIterator_node[it] == h.SetIterator_node[other])
func set.Set.snapshot(m) r
  tags C13
  locks h.Set_locker[m]
  requires s_ok(h, m)
  modifies Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ghostvar t: int = h0.Set_tree[m]
  ghostvar f: int = h0.Set_keyCmp[m]
  ghostvar A: Seq<Val> = t_keys(h0, t)
  hint loop1.before { if A.len() > 0 { node_at(h, t, 0); } if node != 0 { node_in(h, t, node); } assert(A.take(0) =~= Seq::empty()); assert(t_keys(h, h.Set_tree[set]) =~= Seq::empty()); assert(A.take(A.len() as int) =~= A); }
  hint loop1.start { node_in(h, t, node); let i = h.Node_idx[node]; let s = h.Set_tree[set]; assert(A.take(i) + (seq![A[i]] + A.skip(i + 1)) =~= A); ins_last(f, t_keys(h, s), A[i], A.skip(i + 1)); if i + 1 < A.len() { node_at(h, t, i + 1); } assert(A.take(i) + seq![A[i]] =~= A.take(i + 1)); assert(A.take(A.len() as int) =~= A); }
  hint call:Insert#1.after { let s = h.Set_tree[set]; ents_keys_ins(hp, h, s, t_ub(hp, s, h0.Node_key[node])); mem_keep(hp, h, s, t, node); others_others(h0, hp, h, s); }
  loop1 inv node >= 0 && h.Set_tree[set] >= h0.top && set >= h0.top && t_ok(h, t) && t_others(h0, h, h.Set_tree[set]) && at_pos(h, t, node)
  loop1 inv t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && A == t_keys(h, t) && t_keys(h, h.Set_tree[set]) == A.take(pos(h, t, node))
  loop1 dec A.len() - pos(h, t, node)
  ensures[copy] s_ok(h, r) && r >= h0.top && h.Set_tree[r] >= h0.top && h.Set_keyCmp[r] == h0.Set_keyCmp[m] && t_keys(h, h.Set_tree[r]) == t_keys(h0, h0.Set_tree[m])
  ensures[others @C13] t_others(h0, h, h.Set_tree[r])
func set.Set.Intersect(s, other) r
  tags C13
  locks h.Set_locker[s] also h.Set_locker[other]
  sections if h0.Set_locker[s] == h0.Set_locker[other] { 2int } else { 1int }
  requires s_ok(h, s) && s_ok(h, other) && h.Set_keyCmp[s] == h.Set_keyCmp[other]
  split
  modifies Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ghostvar t: int = h0.Set_tree[s]
  ghostvar f: int = h0.Set_keyCmp[s]
  ghostvar A: Seq<Val> = t_keys(h0, h0.Set_tree[s])
  ghostvar B: Seq<Val> = t_keys(h0, h0.Set_tree[other])
  ghostvar W: Seq<Val> = comb(0, h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[s]), t_keys(h0, h0.Set_tree[other]))
  hint entry { comb_ok(0, f, A, B); }
  hint call:snapshot#1.after { kept_of(h0, h, h.Set_tree[c_r]); kept_tree(h0, h, t); let x = h.RbTree_seq[t]; }
  hint call:RLock#1.after { kept_on(h0, hp, h); }
  hint call:New#1.after { kept_then(h0, hp, h, h.Set_tree[c_r]); kept_tree(h0, h, t); let x = h.RbTree_seq[t]; let y = h.RbTree_seq[h.Set_tree[other]]; reveal(strict); }
  hint call:IterFirst#1.after { reveal(nodes_in); kept_on(h0, hp, h); }
  hint call:IterFirst#2.after { reveal(nodes_in); kept_on(h0, hp, h); }
  hint call:Next*.after { kept_on(h0, hp, h); }
  hint loop1.before { assert(A.skip(0) =~= A); assert(B.skip(0) =~= B); assert(t_keys(h, h.Set_tree[set]) =~= Seq::empty()); assert(Seq::<Val>::empty() + W =~= W); if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  hint loop1.start { let i = pos(h, t, h.RbTreeIterator_node[sIter]); let j = pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); comb_step(0, f, A, i, B, j); let K = t_keys(h, h.Set_tree[set]); let c = cmpv(f, A[i], B[j]);
    if c == 0 { put(f, W, K, A[i], comb(0, f, A.skip(i + 1), B.skip(j + 1))); } }
  hint call:Insert*.after { let d = h.Set_tree[set]; ents_keys_ins(hp, h, d, t_ub(hp, d, c_key)); if h.RbTreeIterator_node[sIter] != 0 { mem_keep(hp, h, d, t, h.RbTreeIterator_node[sIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { mem_keep(hp, h, d, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } kept_then(h0, hp, h, d); let x = h.RbTree_seq[t]; let y = h.RbTree_seq[h.Set_tree[other]]; }
  hint loop1.end { if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  loop1 inv t_ok(h, t) && t_ok(h, h.Set_tree[other]) && t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && h.Set_tree[set] >= h0.top && h.Set_tree[other] >= h0.top && h.Set_tree[set] != h.Set_tree[other] && t != h.Set_tree[set] && set >= h0.top && sIter >= h0.top && otherIter >= h0.top && sIter != otherIter && set < h.top && h.Set_locker[set] != 0 && h.Set_keyCmp[set] == f
  loop1 inv t_kept(h0, h) && A == t_keys(h, t) && B == t_keys(h, h.Set_tree[other]) && at_pos(h, t, h.RbTreeIterator_node[sIter]) && at_pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  loop1 inv t_keys(h, h.Set_tree[set]) + comb(0, f, A.skip(pos(h, t, h.RbTreeIterator_node[sIter])), B.skip(pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))) == W && strict(f, W) && (forall|k: Val| #![trigger inset(f, W, k)] inset(f, W, k) == want(0, inset(f, A, k), inset(f, B, k)))
  loop1 dec (A.len() - pos(h, t, h.RbTreeIterator_node[sIter])) + (B.len() - pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))
  hint loop1.after { comb_step(0, f, A, pos(h, t, h.RbTreeIterator_node[sIter]), B, pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])); assert(t_keys(h, h.Set_tree[set]) + Seq::<Val>::empty() =~= t_keys(h, h.Set_tree[set])); }
  ensures[intersect] s_ok(h, r) && r >= h0.top && h.Set_tree[r] >= h0.top && h.Set_keyCmp[r] == h0.Set_keyCmp[s] && (forall|k: Val| #![trigger inset(h0.Set_keyCmp[s], t_keys(h, h.Set_tree[r]), k)] inset(h0.Set_keyCmp[s], t_keys(h, h.Set_tree[r]), k) == want(0, inset(h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[s]), k), inset(h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[other]), k)))
  hint call:RUnlock*.after { kept_on(h0, hp, h); }
  ensures[operands] t_kept(h0, h)
func set.Set.Union(s, other) r
  tags C13
  locks h.Set_locker[s] also h.Set_locker[other]
  sections if h0.Set_locker[s] == h0.Set_locker[other] { 2int } else { 1int }
  requires s_ok(h, s) && s_ok(h, other) && h.Set_keyCmp[s] == h.Set_keyCmp[other]
  split
  rlimit 100
  modifies Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ghostvar t: int = h0.Set_tree[s]
  ghostvar f: int = h0.Set_keyCmp[s]
  ghostvar A: Seq<Val> = t_keys(h0, h0.Set_tree[s])
  ghostvar B: Seq<Val> = t_keys(h0, h0.Set_tree[other])
  ghostvar W: Seq<Val> = comb(1, h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[s]), t_keys(h0, h0.Set_tree[other]))
  hint entry { comb_ok(1, f, A, B); }
  hint call:snapshot#1.after { kept_of(h0, h, h.Set_tree[c_r]); kept_tree(h0, h, t); let x = h.RbTree_seq[t]; }
  hint call:RLock#1.after { kept_on(h0, hp, h); }
  hint call:New#1.after { kept_then(h0, hp, h, h.Set_tree[c_r]); kept_tree(h0, h, t); let x = h.RbTree_seq[t]; let y = h.RbTree_seq[h.Set_tree[other]]; reveal(strict); }
  hint call:IterFirst#1.after { reveal(nodes_in); kept_on(h0, hp, h); }
  hint call:IterFirst#2.after { reveal(nodes_in); kept_on(h0, hp, h); }
  hint call:Next*.after { kept_on(h0, hp, h); }
  hint loop1.before { assert(A.skip(0) =~= A); assert(B.skip(0) =~= B); assert(t_keys(h, h.Set_tree[set]) =~= Seq::empty()); assert(Seq::<Val>::empty() + W =~= W); if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  hint loop1.start { let i = pos(h, t, h.RbTreeIterator_node[sIter]); let j = pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); comb_step(1, f, A, i, B, j); let K = t_keys(h, h.Set_tree[set]); let c = cmpv(f, A[i], B[j]);
    if c == 0 { put(f, W, K, A[i], comb(1, f, A.skip(i + 1), B.skip(j + 1))); }
    if c < 0 { put(f, W, K, A[i], comb(1, f, A.skip(i + 1), B.skip(j))); }
    if c > 0 { put(f, W, K, B[j], comb(1, f, A.skip(i), B.skip(j + 1))); } }
  hint call:Insert*.after { let d = h.Set_tree[set]; ents_keys_ins(hp, h, d, t_ub(hp, d, c_key)); if h.RbTreeIterator_node[sIter] != 0 { mem_keep(hp, h, d, t, h.RbTreeIterator_node[sIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { mem_keep(hp, h, d, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } kept_then(h0, hp, h, d); let x = h.RbTree_seq[t]; let y = h.RbTree_seq[h.Set_tree[other]]; }
  hint loop1.end { if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  loop1 inv t_ok(h, t) && t_ok(h, h.Set_tree[other]) && t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && h.Set_tree[set] >= h0.top && h.Set_tree[other] >= h0.top && h.Set_tree[set] != h.Set_tree[other] && t != h.Set_tree[set] && set >= h0.top && sIter >= h0.top && otherIter >= h0.top && sIter != otherIter && set < h.top && h.Set_locker[set] != 0 && h.Set_keyCmp[set] == f
  loop1 inv t_kept(h0, h) && A == t_keys(h, t) && B == t_keys(h, h.Set_tree[other]) && at_pos(h, t, h.RbTreeIterator_node[sIter]) && at_pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  loop1 inv t_keys(h, h.Set_tree[set]) + comb(1, f, A.skip(pos(h, t, h.RbTreeIterator_node[sIter])), B.skip(pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))) == W && strict(f, W) && (forall|k: Val| #![trigger inset(f, W, k)] inset(f, W, k) == want(1, inset(f, A, k), inset(f, B, k)))
  loop1 dec (A.len() - pos(h, t, h.RbTreeIterator_node[sIter])) + (B.len() - pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))
  loop2 inv t_ok(h, t) && t_ok(h, h.Set_tree[other]) && t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && h.Set_tree[set] >= h0.top && h.Set_tree[other] >= h0.top && h.Set_tree[set] != h.Set_tree[other] && t != h.Set_tree[set] && set >= h0.top && sIter >= h0.top && otherIter >= h0.top && sIter != otherIter && set < h.top && h.Set_locker[set] != 0 && h.Set_keyCmp[set] == f
  loop2 inv t_kept(h0, h) && A == t_keys(h, t) && B == t_keys(h, h.Set_tree[other]) && at_pos(h, t, h.RbTreeIterator_node[sIter]) && at_pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  loop2 inv t_keys(h, h.Set_tree[set]) + comb(1, f, A.skip(pos(h, t, h.RbTreeIterator_node[sIter])), B.skip(pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))) == W && strict(f, W) && (forall|k: Val| #![trigger inset(f, W, k)] inset(f, W, k) == want(1, inset(f, A, k), inset(f, B, k))) && (h.RbTreeIterator_node[sIter] == 0 || h.RbTreeIterator_node[otherIter] == 0)
  loop2 dec A.len() - pos(h, t, h.RbTreeIterator_node[sIter])
  hint loop2.start { let i = pos(h, t, h.RbTreeIterator_node[sIter]); let j = pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); comb_step(1, f, A, i, B, j); put(f, W, t_keys(h, h.Set_tree[set]), A[i], comb(1, f, A.skip(i + 1), B.skip(j))); }
  hint loop2.end { if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  loop3 inv t_ok(h, t) && t_ok(h, h.Set_tree[other]) && t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && h.Set_tree[set] >= h0.top && h.Set_tree[other] >= h0.top && h.Set_tree[set] != h.Set_tree[other] && t != h.Set_tree[set] && set >= h0.top && sIter >= h0.top && otherIter >= h0.top && sIter != otherIter && set < h.top && h.Set_locker[set] != 0 && h.Set_keyCmp[set] == f
  loop3 inv t_kept(h0, h) && A == t_keys(h, t) && B == t_keys(h, h.Set_tree[other]) && at_pos(h, t, h.RbTreeIterator_node[sIter]) && at_pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  loop3 inv t_keys(h, h.Set_tree[set]) + comb(1, f, A.skip(pos(h, t, h.RbTreeIterator_node[sIter])), B.skip(pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))) == W && strict(f, W) && (forall|k: Val| #![trigger inset(f, W, k)] inset(f, W, k) == want(1, inset(f, A, k), inset(f, B, k))) && h.RbTreeIterator_node[sIter] == 0
  loop3 dec B.len() - pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  hint loop3.start { let i = pos(h, t, h.RbTreeIterator_node[sIter]); let j = pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); comb_step(1, f, A, i, B, j); put(f, W, t_keys(h, h.Set_tree[set]), B[j], comb(1, f, A.skip(i), B.skip(j + 1))); }
  hint loop3.end { if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  hint loop3.after { comb_step(1, f, A, pos(h, t, h.RbTreeIterator_node[sIter]), B, pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])); assert(t_keys(h, h.Set_tree[set]) + Seq::<Val>::empty() =~= t_keys(h, h.Set_tree[set])); }
  ensures[union] s_ok(h, r) && r >= h0.top && h.Set_tree[r] >= h0.top && h.Set_keyCmp[r] == h0.Set_keyCmp[s] && (forall|k: Val| #![trigger inset(h0.Set_keyCmp[s], t_keys(h, h.Set_tree[r]), k)] inset(h0.Set_keyCmp[s], t_keys(h, h.Set_tree[r]), k) == want(1, inset(h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[s]), k), inset(h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[other]), k)))
  hint call:RUnlock*.after { kept_on(h0, hp, h); }
  ensures[operands] t_kept(h0, h)
func set.Set.Diff(s, other) r
  tags C13
  locks h.Set_locker[s] also h.Set_locker[other]
  sections if h0.Set_locker[s] == h0.Set_locker[other] { 2int } else { 1int }
  requires s_ok(h, s) && s_ok(h, other) && h.Set_keyCmp[s] == h.Set_keyCmp[other]
  split
  modifies Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ghostvar t: int = h0.Set_tree[s]
  ghostvar f: int = h0.Set_keyCmp[s]
  ghostvar A: Seq<Val> = t_keys(h0, h0.Set_tree[s])
  ghostvar B: Seq<Val> = t_keys(h0, h0.Set_tree[other])
  ghostvar W: Seq<Val> = comb(2, h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[s]), t_keys(h0, h0.Set_tree[other]))
  hint entry { comb_ok(2, f, A, B); }
  hint call:snapshot#1.after { kept_of(h0, h, h.Set_tree[c_r]); kept_tree(h0, h, t); let x = h.RbTree_seq[t]; }
  hint call:RLock#1.after { kept_on(h0, hp, h); }
  hint call:New#1.after { kept_then(h0, hp, h, h.Set_tree[c_r]); kept_tree(h0, h, t); let x = h.RbTree_seq[t]; let y = h.RbTree_seq[h.Set_tree[other]]; reveal(strict); }
  hint call:IterFirst#1.after { reveal(nodes_in); kept_on(h0, hp, h); }
  hint call:IterFirst#2.after { reveal(nodes_in); kept_on(h0, hp, h); }
  hint call:Next*.after { kept_on(h0, hp, h); }
  hint loop1.before { assert(A.skip(0) =~= A); assert(B.skip(0) =~= B); assert(t_keys(h, h.Set_tree[set]) =~= Seq::empty()); assert(Seq::<Val>::empty() + W =~= W); if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  hint loop1.start { let i = pos(h, t, h.RbTreeIterator_node[sIter]); let j = pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); comb_step(2, f, A, i, B, j); let K = t_keys(h, h.Set_tree[set]); let c = cmpv(f, A[i], B[j]);
    if c < 0 { put(f, W, K, A[i], comb(2, f, A.skip(i + 1), B.skip(j))); } }
  hint call:Insert*.after { let d = h.Set_tree[set]; ents_keys_ins(hp, h, d, t_ub(hp, d, c_key)); if h.RbTreeIterator_node[sIter] != 0 { mem_keep(hp, h, d, t, h.RbTreeIterator_node[sIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { mem_keep(hp, h, d, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } kept_then(h0, hp, h, d); let x = h.RbTree_seq[t]; let y = h.RbTree_seq[h.Set_tree[other]]; }
  hint loop1.end { if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  loop1 inv t_ok(h, t) && t_ok(h, h.Set_tree[other]) && t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && h.Set_tree[set] >= h0.top && h.Set_tree[other] >= h0.top && h.Set_tree[set] != h.Set_tree[other] && t != h.Set_tree[set] && set >= h0.top && sIter >= h0.top && otherIter >= h0.top && sIter != otherIter && set < h.top && h.Set_locker[set] != 0 && h.Set_keyCmp[set] == f
  loop1 inv t_kept(h0, h) && A == t_keys(h, t) && B == t_keys(h, h.Set_tree[other]) && at_pos(h, t, h.RbTreeIterator_node[sIter]) && at_pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  loop1 inv t_keys(h, h.Set_tree[set]) + comb(2, f, A.skip(pos(h, t, h.RbTreeIterator_node[sIter])), B.skip(pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))) == W && strict(f, W) && (forall|k: Val| #![trigger inset(f, W, k)] inset(f, W, k) == want(2, inset(f, A, k), inset(f, B, k)))
  loop1 dec (A.len() - pos(h, t, h.RbTreeIterator_node[sIter])) + (B.len() - pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))
  loop2 inv t_ok(h, t) && t_ok(h, h.Set_tree[other]) && t_ok(h, h.Set_tree[set]) && h.RbTree_keyCmp[h.Set_tree[set]] == f && h.Set_tree[set] >= h0.top && h.Set_tree[other] >= h0.top && h.Set_tree[set] != h.Set_tree[other] && t != h.Set_tree[set] && set >= h0.top && sIter >= h0.top && otherIter >= h0.top && sIter != otherIter && set < h.top && h.Set_locker[set] != 0 && h.Set_keyCmp[set] == f
  loop2 inv t_kept(h0, h) && A == t_keys(h, t) && B == t_keys(h, h.Set_tree[other]) && at_pos(h, t, h.RbTreeIterator_node[sIter]) && at_pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])
  loop2 inv t_keys(h, h.Set_tree[set]) + comb(2, f, A.skip(pos(h, t, h.RbTreeIterator_node[sIter])), B.skip(pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]))) == W && strict(f, W) && (forall|k: Val| #![trigger inset(f, W, k)] inset(f, W, k) == want(2, inset(f, A, k), inset(f, B, k))) && (h.RbTreeIterator_node[sIter] == 0 || h.RbTreeIterator_node[otherIter] == 0)
  loop2 dec A.len() - pos(h, t, h.RbTreeIterator_node[sIter])
  hint loop2.start { let i = pos(h, t, h.RbTreeIterator_node[sIter]); let j = pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); node_in(h, t, h.RbTreeIterator_node[sIter]); comb_step(2, f, A, i, B, j); put(f, W, t_keys(h, h.Set_tree[set]), A[i], comb(2, f, A.skip(i + 1), B.skip(j))); }
  hint loop2.end { if h.RbTreeIterator_node[sIter] != 0 { node_in(h, t, h.RbTreeIterator_node[sIter]); } if h.RbTreeIterator_node[otherIter] != 0 { node_in(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter]); } }
  hint loop2.after { comb_step(2, f, A, pos(h, t, h.RbTreeIterator_node[sIter]), B, pos(h, h.Set_tree[other], h.RbTreeIterator_node[otherIter])); assert(t_keys(h, h.Set_tree[set]) + Seq::<Val>::empty() =~= t_keys(h, h.Set_tree[set])); }
  ensures[diff] s_ok(h, r) && r >= h0.top && h.Set_tree[r] >= h0.top && h.Set_keyCmp[r] == h0.Set_keyCmp[s] && (forall|k: Val| #![trigger inset(h0.Set_keyCmp[s], t_keys(h, h.Set_tree[r]), k)] inset(h0.Set_keyCmp[s], t_keys(h, h.Set_tree[r]), k) == want(2, inset(h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[s]), k), inset(h0.Set_keyCmp[s], t_keys(h0, h0.Set_tree[other]), k)))
  hint call:RUnlock*.after { kept_on(h0, hp, h); }
  ensures[operands] t_kept(h0, h)
