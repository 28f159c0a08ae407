unit ketama
tags C18
pkg ds/ketama
use map
use comparator hashints
verify ketama.WithGoroutineSafe ketama.WithReplicas ketama.New ketama.Ketama.Empty ketama.Ketama.Add ketama.Ketama.Remove ketama.Ketama.Get
rename ketama.Options KetamaOptions
lib ketama.rs
guard Ketama.m Ketama.locker
ghost Ketama.members: ISet<Seq<u8>>
fnval comparator.Uint64Comparator
gconst ketama.salt
functype ketama.Option(f, option)
  requires h.KetamaOptions_locker[option] != 0 && h.KetamaOptions_locker[option] < h.top && h.KetamaOptions_replicas[option] >= 0
  allocs
  modifies KetamaOptions.locker@option, KetamaOptions.replicas@option
  ensures h.KetamaOptions_locker[option] != 0 && h.KetamaOptions_locker[option] < h.top && h.KetamaOptions_replicas[option] >= 0 && h0.top <= h.top
func ketama.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as ketama.Option ensures h.KetamaOptions_locker[option] >= h0.top && h.KetamaOptions_replicas[option] == h0.KetamaOptions_replicas[option]
func ketama.WithReplicas(replicas) r
  requires replicas >= 0
  ensures r != 0
  closure 1 (option) as ketama.Option ensures h.KetamaOptions_replicas[option] == replicas && h.KetamaOptions_locker[option] == h0.KetamaOptions_locker[option]
func ketama.New(opts) r
  requires forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint entry { u64_ok(); }
  hint exit { assert(option >= h0.top); ring_none(t_ents(h, kt(h, r))); reveal(own_ok); grown(h.top); }
  hint post.options { assert(h.Ketama_locker[r] == h.KetamaOptions_locker[option] && h.Ketama_replicas[r] == h.KetamaOptions_replicas[option]); }
  loop1 inv h.KetamaOptions_locker[option] != 0 && h.KetamaOptions_locker[option] < h.top && h.KetamaOptions_replicas[option] >= 0
  ghost exit Ketama.members@r = ISet::<Seq<u8>>::empty()
  ensures[new] k_ok(h, r) && r >= h0.top && ring(h, r) == IMap::<u64, Seq<u8>>::empty() && h.Ketama_members[r] == ISet::<Seq<u8>>::empty()
  ensures[options] exists|o: int| #![trigger h.KetamaOptions_locker[o]] o >= h0.top && h.Ketama_locker[r] == h.KetamaOptions_locker[o] && h.Ketama_replicas[r] == h.KetamaOptions_replicas[o]
func ketama.Ketama.Empty(k) r
  locks h.Ketama_locker[k] inner h.Map_locker[h.Ketama_m[k]]
  requires k_ok(h, k)
  hint entry { k_strict(h, k); ring_bare(t_ents(h, kt(h, k))); }
  ensures[empty] r == bare(ring(h, k))
func ketama.Ketama.Add(k, nodes)
  locks h.Ketama_locker[k] inner h.Map_locker[h.Ketama_m[k]]
  requires k_ok(h, k) && slice_ok(nodes, h.top)
  modifies RbTree.root@h.Map_tree[h.Ketama_m[k]], RbTree.size@h.Map_tree[h.Ketama_m[k]], RbTree.seq@h.Map_tree[h.Ketama_m[k]], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.value, Ketama.members@k
  ghostvar N: Seq<Seq<u8>> = view(h0.arr_str, nodes)
  ghostvar R: IMap<u64, Seq<u8>> = ring(h0, k)
  ghostvar M: ISet<Seq<u8>> = h0.Ketama_members[k]
  ghostvar t: int = kt(h0, k)
  ghostvar reps: int = h0.Ketama_replicas[k]
  hint entry { reveal(farn); others(h0, h, t); }
  hint call:GenHashInts#1.after { grown(h.top); }
  hint call:Contains#1.before { k_find(h, k, unval_u64(c_key)); find_at(h, t, c_key); }
  hint call:Insert#1.after { k_strict(h, k); others_others(h0, hp, h, t); ring_ins(t_ents(hp, t), t_lb(hp, t, c_key), c_key, c_value); }
  hint exit { added(R, N, M, reps); }
  ghost exit Ketama.members@k = with(M, N)
  loop1 inv[shape] k_shape(h, k) && kt(h, k) == t && t_others(h0, h, t)
  loop1 inv[ring] ring(h, k) == add_all(R, N, reps, node_idx)
  loop2 dec reps - i
  loop2 inv[shape] 0 <= i && i <= reps && k_shape(h, k) && kt(h, k) == t && t_others(h0, h, t) && slice_ok(hashs, h.top) && hashs.len == reps && view(h.arr_u64, hashs) == pts(node, reps)
  loop2 inv[ring] ring(h, k) == add_pts(add_all(R, N, reps, node_idx), pts(node, reps), node, i)
  ensures[ok] k_ok(h, k) && h.Ketama_members[k] == with(h0.Ketama_members[k], view(h0.arr_str, nodes))
  ensures[ring] ring(h, k) == add_all(ring(h0, k), view(h0.arr_str, nodes), h0.Ketama_replicas[k], nodes.len)
  ensures[disrupt] only_to(ring(h0, k), ring(h, k), view(h0.arr_str, nodes))
  ensures[complete] full(ring(h0, k), h0.Ketama_members[k], h0.Ketama_replicas[k]) && apart(with(h0.Ketama_members[k], view(h0.arr_str, nodes)), h0.Ketama_replicas[k]) ==> full(ring(h, k), h.Ketama_members[k], h0.Ketama_replicas[k])
  ensures[present] full(ring(h0, k), h0.Ketama_members[k], h0.Ketama_replicas[k]) && (forall|i: int| 0 <= i < nodes.len ==> h0.Ketama_members[k].contains(#[trigger] view(h0.arr_str, nodes)[i])) ==> ring(h, k) == ring(h0, k)
  ensures[others] t_others(h0, h, kt(h0, k))
func ketama.Ketama.Remove(k, nodes)
  locks h.Ketama_locker[k] inner h.Map_locker[h.Ketama_m[k]]
  requires k_ok(h, k) && slice_ok(nodes, h.top)
  modifies RbTree.root@h.Map_tree[h.Ketama_m[k]], RbTree.size@h.Map_tree[h.Ketama_m[k]], RbTree.seq@h.Map_tree[h.Ketama_m[k]], Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value, Ketama.members@k
  ghostvar N: Seq<Seq<u8>> = view(h0.arr_str, nodes)
  ghostvar R: IMap<u64, Seq<u8>> = ring(h0, k)
  ghostvar M: ISet<Seq<u8>> = h0.Ketama_members[k]
  ghostvar t: int = kt(h0, k)
  ghostvar reps: int = h0.Ketama_replicas[k]
  hint entry { reveal(farn); others(h0, h, t); }
  hint call:GenHashInts#1.after { grown(h.top); }
  hint call:Find#1.before { k_find(h, k, unval_u64(c_key)); find_at(h, t, c_key); }
  hint call:Find#1.after { grown(h.top); }
  hint call:EraseIter#1.after { others_others(h0, hp, h, t); ring_rem(t_ents(hp, t), t_lb(hp, t, val_u64(key))); }
  hint exit { removed(R, N, M, reps); }
  ghost exit Ketama.members@k = minus(M, N)
  loop1 inv[shape] k_shape(h, k) && kt(h, k) == t && t_others(h0, h, t)
  loop1 inv[ring] ring(h, k) == rem_all(R, N, reps, node_idx)
  loop2 dec reps - i
  loop2 inv[shape] 0 <= i && i <= reps && k_shape(h, k) && kt(h, k) == t && t_others(h0, h, t) && slice_ok(hashs, h.top) && hashs.len == reps && view(h.arr_u64, hashs) == pts(node, reps)
  loop2 inv[ring] ring(h, k) == rem_pts(rem_all(R, N, reps, node_idx), pts(node, reps), node, i)
  ensures[ok] k_ok(h, k) && h.Ketama_members[k] == minus(h0.Ketama_members[k], view(h0.arr_str, nodes))
  ensures[ring] ring(h, k) == rem_all(ring(h0, k), view(h0.arr_str, nodes), h0.Ketama_replicas[k], nodes.len)
  ensures[disrupt] only_from(ring(h0, k), ring(h, k), view(h0.arr_str, nodes))
  ensures[complete] full(ring(h0, k), h0.Ketama_members[k], h0.Ketama_replicas[k]) ==> full(ring(h, k), h.Ketama_members[k], h0.Ketama_replicas[k])
  ensures[absent] (forall|i: int| 0 <= i < nodes.len ==> !h0.Ketama_members[k].contains(#[trigger] view(h0.arr_str, nodes)[i])) ==> ring(h, k) == ring(h0, k)
  ensures[others] t_others(h0, h, kt(h0, k))
func ketama.Ketama.Get(k, key) r, found
  locks h.Ketama_locker[k] inner h.Map_locker[h.Ketama_m[k]]
  requires k_ok(h, k)
  ghostvar x: u64 = pts(key, 1)[0]
  ghostvar E: Seq<(Val, Val)> = t_ents(h0, kt(h0, k))
  hint entry { k_find(h, k, x); find_at(h, kt(h, k), val_u64(x)); if E.len() == 0 { ring_none(E); } else { got(h, k, x); node_at(h, kt(h, k), 0); if t_lb(h, kt(h, k), val_u64(x)) < E.len() { node_at(h, kt(h, k), t_lb(h, kt(h, k), val_u64(x))); } } }
  hint call:GenHashInts#1.after { grown(h.top); }
  hint call:LowerBound#1.after { grown(h.top); }
  ensures[found] found == !bare(ring(h0, k))
  ensures[owner] found ==> exists|p: u64| #[trigger] is_succ(ring(h0, k), pts(key, 1)[0], p) && r == ring(h0, k)[p]
  ensures[member] found ==> h0.Ketama_members[k].contains(r)
