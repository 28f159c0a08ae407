unit map
tags C12
pkg ds/map
use rbtree
use sync
lib map0.rs map.rs
guard Map.tree Map.locker
guard MultiMap.tree MultiMap.locker
functype treemap.Option(f, option)
  requires h.Options_locker[option] != 0
  allocs
  modifies Options.locker@option
  ensures h.Options_locker[option] != 0 && h0.top <= h.top
func treemap.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as treemap.Option ensures h.Options_locker[option] >= h0.top
func treemap.New(cmp, opts) r
  requires cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint exit { assert(h.Map_locker[r] == h.Options_locker[option]); assert(option >= h0.top); reveal(strict); reveal(nodes_in); }
  loop1 inv h.Options_locker[option] != 0 && (opts.len == 0 ==> h.Options_locker[option] >= h0.top)
  ensures[new] m_ok(h, r) && r >= h0.top && h.Map_tree[r] >= h0.top && h.RbTree_keyCmp[h.Map_tree[r]] == cmp && t_ents(h, h.Map_tree[r]).len() == 0
  ensures[default] opts.len == 0 ==> h.Map_locker[r] >= h0.top
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.Map_locker[r] == h.Options_locker[o]
func treemap.Map.Insert(m, key, value)
  locks h.Map_locker[m]
  requires m_ok(h, m)
  ghostvar t: int = h0.Map_tree[m]
  hint entry { find_at(h, t, key); if t_find(h, t, key) == 0 { strict_ins(h.RbTree_keyCmp[t], t_keys(h, t), key); } strict_one(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint call:SetValue#1.after { set_val(hp, h, t, node, value); }
  hint call:Insert#1.after { assert forall|i: int| 0 <= i && i < t_keys(h, t).len() implies #[trigger] t_keys(h, t)[i] == t_ents(h, t)[i].0 by {} assert(t_keys(h, t) =~= t_keys(hp, t).insert(t_ub(hp, t, key), key)); }
  modifies RbTree.root@h.Map_tree[m], RbTree.size@h.Map_tree[m], RbTree.seq@h.Map_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.value
  ensures[insert] m_ok(h, m) && ({ let t = h0.Map_tree[m]; let p = t_lb(h0, t, key); if t_find(h0, t, key) == 0 { t_ents(h, t) =~= t_ents(h0, t).insert(p, (key, value)) } else { p < t_ents(h0, t).len() && t_ents(h, t) =~= t_ents(h0, t).update(p, (t_ents(h0, t)[p].0, value)) } })
  ensures[others] t_others(h0, h, h0.Map_tree[m])
func treemap.Map.Get(m, key) v, err
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry { find_at(h, h.Map_tree[m], key); }
  ensures[get] ({ let t = h.Map_tree[m]; let p = t_lb(h, t, key); if p == t_ub(h, t, key) { err != 0 && v == zero_val() } else { err == 0 && v == t_ents(h, t)[p].1 } })
func treemap.Map.Erase(m, key)
  locks h.Map_locker[m]
  requires m_ok(h, m)
  ghostvar t: int = h0.Map_tree[m]
  hint entry { find_at(h, t, key); reveal(farn); }
  hint call:Delete#1.after { strict_rem(h.RbTree_keyCmp[t], t_keys(hp, t), t_lb(h0, t, key)); assert(t_keys(h, t) =~= t_keys(hp, t).remove(t_lb(h0, t, key))) by { assert forall|i: int| 0 <= i < t_keys(h, t).len() implies #[trigger] t_keys(h, t)[i] == t_ents(h, t)[i].0 by {} } }
  hint post.others { if t_find(h0, t, key) == 0 { others(h0, h, t); } }
  modifies RbTree.root@h.Map_tree[m], RbTree.size@h.Map_tree[m], RbTree.seq@h.Map_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  ensures[erase] m_ok(h, m) && ({ let t = h0.Map_tree[m]; let p = t_lb(h0, t, key); if p == t_ub(h0, t, key) { t_ents(h, t) == t_ents(h0, t) } else { t_ents(h, t) =~= t_ents(h0, t).remove(p) } })
  ensures[others] t_others(h0, h, h0.Map_tree[m])
//GEN
func treemap.Map.Find(m, key) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry { find_at(h, h.Map_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.Map_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == t_find(h0, h0.Map_tree[m], key) && mit_in(h, r, h.Map_tree[m])
func treemap.Map.LowerBound(m, key) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry { find_at(h, h.Map_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.Map_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.Map_tree[m]], t_lb(h, h.Map_tree[m], key)) && mit_in(h, r, h.Map_tree[m])
func treemap.Map.UpperBound(m, key) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry { find_at(h, h.Map_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.Map_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.Map_tree[m]], t_ub(h, h.Map_tree[m], key)) && mit_in(h, r, h.Map_tree[m])
func treemap.Map.Begin(m) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.Map_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.Map_tree[m]], 0) && mit_in(h, r, h.Map_tree[m])
func treemap.Map.First(m) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.Map_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.Map_tree[m]], 0) && mit_in(h, r, h.Map_tree[m])
func treemap.Map.Last(m) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.Map_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.Map_tree[m]], h.RbTree_seq[h.Map_tree[m]].len() - 1) && mit_in(h, r, h.Map_tree[m])
func treemap.Map.Contains(m, key) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  hint entry { find_at(h, h.Map_tree[m], key); }
  ensures[contains] r == (t_lb(h, h.Map_tree[m], key) != t_ub(h, h.Map_tree[m], key))
func treemap.Map.Size(m) r
  locks h.Map_locker[m]
  requires m_ok(h, m)
  ensures[size] r == t_ents(h, h.Map_tree[m]).len()
func treemap.Map.Clear(m)
  locks h.Map_locker[m]
  requires m_ok(h, m)
  modifies RbTree.root@h.Map_tree[m], RbTree.size@h.Map_tree[m], RbTree.seq@h.Map_tree[m], Node.own
  hint exit { reveal(strict); }
  ensures[clear] m_ok(h, m) && t_ents(h, h.Map_tree[m]).len() == 0
  ensures[others] t_others(h0, h, h0.Map_tree[m])
func treemap.Map.Traversal(m, visitor)
  locks h.Map_locker[m]
  requires m_ok(h, m) && visitor != 0
  modifies Visit.trace
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, t_ents(h0, h0.Map_tree[m]))
func treemap.MultiMap.Find(m, key) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry { find_at(h, h.MultiMap_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiMap_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == t_find(h0, h0.MultiMap_tree[m], key) && mit_in(h, r, h.MultiMap_tree[m])
func treemap.MultiMap.LowerBound(m, key) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry { find_at(h, h.MultiMap_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiMap_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiMap_tree[m]], t_lb(h, h.MultiMap_tree[m], key)) && mit_in(h, r, h.MultiMap_tree[m])
func treemap.MultiMap.UpperBound(m, key) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry { find_at(h, h.MultiMap_tree[m], key); }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiMap_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiMap_tree[m]], t_ub(h, h.MultiMap_tree[m], key)) && mit_in(h, r, h.MultiMap_tree[m])
func treemap.MultiMap.Begin(m) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiMap_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiMap_tree[m]], 0) && mit_in(h, r, h.MultiMap_tree[m])
func treemap.MultiMap.First(m) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiMap_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiMap_tree[m]], 0) && mit_in(h, r, h.MultiMap_tree[m])
func treemap.MultiMap.Last(m) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry {  }
  hint exit { reveal(nodes_in); node_ok(h, h.MultiMap_tree[m], h.MapIterator_node[r]); }
  ensures[node] r >= h0.top && r < h.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == at_or_nil(h.RbTree_seq[h.MultiMap_tree[m]], h.RbTree_seq[h.MultiMap_tree[m]].len() - 1) && mit_in(h, r, h.MultiMap_tree[m])
func treemap.MultiMap.Contains(m, key) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry { find_at(h, h.MultiMap_tree[m], key); }
  ensures[contains] r == (t_lb(h, h.MultiMap_tree[m], key) != t_ub(h, h.MultiMap_tree[m], key))
func treemap.MultiMap.Size(m) r
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  ensures[size] r == t_ents(h, h.MultiMap_tree[m]).len()
func treemap.MultiMap.Clear(m)
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  modifies RbTree.root@h.MultiMap_tree[m], RbTree.size@h.MultiMap_tree[m], RbTree.seq@h.MultiMap_tree[m], Node.own
  hint exit { }
  ensures[clear] mm_ok(h, m) && t_ents(h, h.MultiMap_tree[m]).len() == 0
  ensures[others] t_others(h0, h, h0.MultiMap_tree[m])
func treemap.MultiMap.Traversal(m, visitor)
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m) && visitor != 0
  modifies Visit.trace
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, t_ents(h0, h0.MultiMap_tree[m]))
func treemap.Map.EraseIter(m, iter)
  locks h.Map_locker[m]
  requires m_ok(h, m) && (iter == 0 || dyn_of(iter) != dyn_MapIterator() || mit_at(h, iter, h.Map_tree[m]))
  ghostvar t: int = h0.Map_tree[m]
  hint entry { if iter != 0 && dyn_of(iter) == dyn_MapIterator() { node_ok(h, t, h.MapIterator_node[iter]); } }
  hint call:Delete#1.after { if hp.MapIterator_node[iter] != 0 { let p = hp.Node_idx[hp.MapIterator_node[iter]]; strict_rem(h.RbTree_keyCmp[t], t_keys(hp, t), p); assert(t_keys(h, t) =~= t_keys(hp, t).remove(p)) by { assert forall|i: int| 0 <= i && i < t_keys(h, t).len() implies #[trigger] t_keys(h, t)[i] == t_ents(h, t)[i].0 by {} } } }
  hint post.others { if iter == 0 || dyn_of(iter) != dyn_MapIterator() || h0.MapIterator_node[iter] == 0 { reveal(farn); others(h0, h, t); } }
  modifies RbTree.root@h.Map_tree[m], RbTree.size@h.Map_tree[m], RbTree.seq@h.Map_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  ensures[erase] m_ok(h, m) && ({ let t = h0.Map_tree[m]; let n = h0.MapIterator_node[iter]; if iter == 0 || dyn_of(iter) != dyn_MapIterator() || n == 0 { t_ents(h, t) == t_ents(h0, t) } else { t_ents(h, t) =~= t_ents(h0, t).remove(h0.Node_idx[n]) } })
  ensures[others] t_others(h0, h, h0.Map_tree[m])
func treemap.NewMultiMap(cmp, opts) r
  requires cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint exit { assert(h.MultiMap_locker[r] == h.Options_locker[option]); assert(option >= h0.top); reveal(nodes_in); }
  loop1 inv h.Options_locker[option] != 0
  ensures[new] mm_ok(h, r) && r >= h0.top && h.MultiMap_tree[r] >= h0.top && h.RbTree_keyCmp[h.MultiMap_tree[r]] == cmp && t_ents(h, h.MultiMap_tree[r]).len() == 0
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.MultiMap_locker[r] == h.Options_locker[o]
func treemap.MultiMap.Insert(m, key, value)
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  modifies RbTree.root@h.MultiMap_tree[m], RbTree.size@h.MultiMap_tree[m], RbTree.seq@h.MultiMap_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ensures[insert] mm_ok(h, m) && ({ let t = h0.MultiMap_tree[m]; t_ents(h, t) =~= t_ents(h0, t).insert(t_ub(h0, t, key), (key, value)) })
  ensures[others] t_others(h0, h, h0.MultiMap_tree[m])
func treemap.MultiMap.Get(m, key) v, err
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  hint entry { find_at(h, h.MultiMap_tree[m], key); }
  ensures[get] ({ let t = h.MultiMap_tree[m]; let p = t_lb(h, t, key); if p == t_ub(h, t, key) { err != 0 && v == zero_val() } else { err == 0 && v == t_ents(h, t)[p].1 } })
func treemap.MultiMap.Erase(m, key)
  locks h.MultiMap_locker[m]
  requires mm_ok(h, m)
  ghostvar t: int = h0.MultiMap_tree[m]
  ghostvar E: Seq<(Val, Val)> = t_ents(h0, t)
  ghostvar lo: int = t_lb(h0, t, key)
  ghostvar up: int = t_ub(h0, t, key)
  ghostvar j: int = lo
  hint entry { find_at(h, t, key); reveal(farn); others(h0, h, t); assert(without(E, lo, lo) =~= E); lb_is(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint loop1.start { left_over(h0, h, t, key, j); find_at(h, t, key); }
  hint call:Delete#1.after { rem_left(E, lo, j); others_others(h0, hp, h, t); }
  ghost call:Delete#1.after j = j + 1
  loop1 inv t_ok(h, t) && t_others(h0, h, t) && lo <= j && j <= up && h.RbTree_keyCmp[t] == h0.RbTree_keyCmp[t] && t_ents(h, t) == without(E, lo, j)
  loop1 dec up - j
  modifies RbTree.root@h.MultiMap_tree[m], RbTree.size@h.MultiMap_tree[m], RbTree.seq@h.MultiMap_tree[m], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  ensures[erase] mm_ok(h, m) && ({ let t = h0.MultiMap_tree[m]; t_ents(h, t) == without(t_ents(h0, t), t_lb(h0, t, key), t_ub(h0, t, key)) })
  ensures[others] t_others(h0, h, h0.MultiMap_tree[m])
func treemap.MapIterator.IsValid(it) r
  ensures r == (h.MapIterator_node[it] != 0)
func treemap.MapIterator.Next(it) r
  requires h.MapIterator_node[it] == 0 || n_in(h, h.MapIterator_node[it])
  modifies MapIterator.node@it
  ensures[next] r == it && h.MapIterator_node[it] == (if h0.MapIterator_node[it] == 0 { 0 } else { nxt(h0, h0.MapIterator_node[it]) })
  ensures[in] h.MapIterator_node[it] != 0 ==> n_in(h, h.MapIterator_node[it]) && h.Node_own[h.MapIterator_node[it]] == h.Node_own[h0.MapIterator_node[it]] && h.Node_idx[h.MapIterator_node[it]] == h.Node_idx[h0.MapIterator_node[it]] + 1
  hint entry { if h.MapIterator_node[it] != 0 { node_in(h, h.Node_own[h.MapIterator_node[it]], h.MapIterator_node[it]); } }
  hint call:Next#1.after { if c_r != 0 { node_in(h, h.Node_own[h.MapIterator_node[it]], c_r); } }
func treemap.MapIterator.Prev(it) r
  requires h.MapIterator_node[it] == 0 || n_in(h, h.MapIterator_node[it])
  modifies MapIterator.node@it
  ensures[prev] r == it && h.MapIterator_node[it] == (if h0.MapIterator_node[it] == 0 { 0 } else { prv(h0, h0.MapIterator_node[it]) })
  ensures[in] h.MapIterator_node[it] != 0 ==> n_in(h, h.MapIterator_node[it]) && h.Node_own[h.MapIterator_node[it]] == h.Node_own[h0.MapIterator_node[it]] && h.Node_idx[h.MapIterator_node[it]] == h.Node_idx[h0.MapIterator_node[it]] - 1
  hint entry { if h.MapIterator_node[it] != 0 { node_in(h, h.Node_own[h.MapIterator_node[it]], h.MapIterator_node[it]); } }
  hint call:Prev#1.after { if c_r != 0 { node_in(h, h.Node_own[h.MapIterator_node[it]], c_r); } }
func treemap.MapIterator.Key(it) r
  panics h.MapIterator_node[it] == 0
  ensures r == h.Node_key[h.MapIterator_node[it]]
func treemap.MapIterator.Value(it) r
  panics h.MapIterator_node[it] == 0
  ensures r == h.Node_value[h.MapIterator_node[it]]
func treemap.MapIterator.SetValue(it, val)
  panics h.MapIterator_node[it] == 0
  modifies Node.value@h.MapIterator_node[it]
  ghostvar n: int = h0.MapIterator_node[it]
  ghostvar t: int = h0.Node_own[n]
  hint exit { if t_ok(h0, t) && mem(tr(h0, t), n) { set_val(h0, h, t, n, val); } }
  ensures[value] h.Node_value == h0.Node_value.insert(h0.MapIterator_node[it], val)
  ensures[set] ({ let n = h0.MapIterator_node[it]; let t = h0.Node_own[n]; t_ok(h0, t) && mem(tr(h0, t), n) ==> t_ok(h, t) && t_keys(h, t) == t_keys(h0, t) && t_ents(h, t) =~= t_ents(h0, t).update(h0.Node_idx[n], (h0.Node_key[n], val)) && t_others(h0, h, t) })
func treemap.MapIterator.Clone(it) r
  ensures r >= h0.top && dyn_of(r) == dyn_MapIterator() && h.MapIterator_node[r] == h0.MapIterator_node[it]
func treemap.MapIterator.Equal(it, other) r
  ensures r == (other != 0 && dyn_of(other) == dyn_MapIterator() && h.MapIterator_node[it] == h.MapIterator_node[other])
