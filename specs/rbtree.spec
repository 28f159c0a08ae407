unit rbtree
tags C10
pkg ds/rbtree
types utils/visitor utils/comparator utils/iterator
use std
ghost Visit.trace: !Seq<(Val,Val)>
ghost RbTree.seq: Seq<int>
ghost Node.own: int
ghost Node.idx: int
ghost Node.lo: int
ghost Node.hi: int
lib order.rs rbtree.rs
func rbtree.minimum(n) r
  requires n_in(h, n)
  ghostvar a: T = tr(h0, h0.Node_own[n])
  hint entry { open(a, n); }
  hint loop1.start { open(a, n); }
  hint loop1.after { open(a, n); at_seq(a, a.lo[n]); }
  loop1 inv n > 0 && mem(a, n) && a.lo[n] == a.lo[n_in]
  loop1 dec a.idx[n]
  ensures[min] r == h.RbTree_seq[h.Node_own[n]][h.Node_lo[n]] && mem(tr(h, h.Node_own[n]), r) && h.Node_idx[r] == h.Node_lo[n]
func rbtree.maximum(n) r
  requires n_in(h, n)
  ghostvar a: T = tr(h0, h0.Node_own[n])
  hint entry { open(a, n); }
  hint loop1.start { open(a, n); }
  hint loop1.after { open(a, n); at_seq(a, a.hi[n] - 1); }
  loop1 inv n > 0 && mem(a, n) && a.hi[n] == a.hi[n_in]
  loop1 dec a.seq.len() - a.idx[n]
  ensures[max] r == h.RbTree_seq[h.Node_own[n]][h.Node_hi[n] - 1] && mem(tr(h, h.Node_own[n]), r) && h.Node_idx[r] == h.Node_hi[n] - 1
func rbtree.successor(x) r
  requires n_in(h, x)
  ghostvar a: T = tr(h0, h0.Node_own[x])
  hint entry { open(a, x); if a.p[x] != 0 { open(a, a.p[x]); } if a.r[x] != 0 { mem_is(a, a.r[x]); } }
  hint loop1.start { open(a, x); if y != 0 { open(a, y); if a.p[y] != 0 { open(a, a.p[y]); } } }
  hint loop1.after { open(a, x); if y != 0 { open(a, y); } }
  loop1 inv x > 0 && y >= 0 && mem(a, x) && a.hi[x] == a.idx[x_in] + 1 && y == a.p[x] && (y != 0 ==> mem(a, y))
  loop1 dec a.seq.len() - (a.hi[x] - a.lo[x])
  ensures[next] r == nxt(h, x)
  ensures[in] r != 0 ==> mem(tr(h, h.Node_own[x]), r) && h.Node_idx[r] == h.Node_idx[x] + 1
func rbtree.presuccessor(x) r
  requires n_in(h, x)
  ghostvar a: T = tr(h0, h0.Node_own[x])
  hint entry { open(a, x); if a.p[x] != 0 { open(a, a.p[x]); } if a.l[x] != 0 { mem_is(a, a.l[x]); } }
  hint loop1.start { open(a, x); open(a, a.p[x]); }
  hint loop1.after { open(a, x); if a.p[x] != 0 { open(a, a.p[x]); } }
  loop1 inv x > 0 && mem(a, x) && a.lo[x] == a.idx[x_in] && a.p[x_in] != 0
  loop1 dec a.seq.len() - (a.hi[x] - a.lo[x])
  ensures[prev] r == prv(h, x)
  ensures[in] r != 0 ==> mem(tr(h, h.Node_own[x]), r) && h.Node_idx[r] == h.Node_idx[x] - 1
func rbtree.Node.Key(n) r
  nilrecv
  panics n == 0
  ensures r == h.Node_key[n]
func rbtree.Node.Value(n) r
  nilrecv
  panics n == 0
  ensures r == h.Node_value[n]
func rbtree.Node.SetValue(n, val)
  nilrecv
  panics n == 0
  modifies Node.value@n
  ensures h.Node_value == h0.Node_value.insert(n, val)
func rbtree.Node.Next(n) r
  requires n_in(h, n)
  ensures[next] r == nxt(h, n)
  ensures[in] r != 0 ==> mem(tr(h, h.Node_own[n]), r) && h.Node_idx[r] == h.Node_idx[n] + 1
func rbtree.Node.Prev(n) r
  requires n_in(h, n)
  ensures[prev] r == prv(h, n)
  ensures[in] r != 0 ==> mem(tr(h, h.Node_own[n]), r) && h.Node_idx[r] == h.Node_idx[n] - 1
func rbtree.RbTree.leftRotate(t, x)
  tags C10 C11
  requires t != 0 && wf(tr(h, t)) && mem(tr(h, t), x) && h.Node_right[x] != 0
  modifies RbTree.root@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi
  ghost exit Node.lo@h0.Node_right[x] = h0.Node_lo[x]
  ghost exit Node.hi@x = h0.Node_idx[h0.Node_right[x]]
  hint entry { open(tr(h0, t), x); open(tr(h0, t), h0.Node_right[x]); if h0.Node_parent[x] != 0 { open(tr(h0, t), h0.Node_parent[x]); } if h0.Node_left[h0.Node_right[x]] != 0 { open(tr(h0, t), h0.Node_left[h0.Node_right[x]]); } rotl_wf(tr(h0, t), x); }
  hint post.rot { assert(teq(tr(h, t), rotl(tr(h0, t), x_in))); }
  hint post.wf { reveal(farn); }
  ensures[rot] tr(h, t) == rotl(tr(h0, t), x)
  ensures[wf] wf(tr(h, t)) && far(h0, h, t) && forall|n: int| #![trigger mem(tr(h, t), n)] mem(tr(h, t), n) == mem(tr(h0, t), n)
func rbtree.RbTree.rightRotate(t, x)
  tags C10 C11
  requires t != 0 && wf(tr(h, t)) && mem(tr(h, t), x) && h.Node_left[x] != 0
  modifies RbTree.root@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi
  ghost exit Node.lo@x = h0.Node_idx[h0.Node_left[x]] + 1
  ghost exit Node.hi@h0.Node_left[x] = h0.Node_hi[x]
  hint entry { open(tr(h0, t), x); open(tr(h0, t), h0.Node_left[x]); if h0.Node_parent[x] != 0 { open(tr(h0, t), h0.Node_parent[x]); } if h0.Node_right[h0.Node_left[x]] != 0 { open(tr(h0, t), h0.Node_right[h0.Node_left[x]]); } rotr_wf(tr(h0, t), x); }
  hint post.rot { assert(teq(tr(h, t), rotr(tr(h0, t), x_in))); }
  hint post.wf { reveal(farn); }
  ensures[rot] tr(h, t) == rotr(tr(h0, t), x)
  ensures[wf] wf(tr(h, t)) && far(h0, h, t) && forall|n: int| #![trigger mem(tr(h, t), n)] mem(tr(h, t), n) == mem(tr(h0, t), n)
func rbtree.RbTree.rbInsertFixup(t, z)
  tags C10 C11
  requires t != 0 && wf(tr(h, t)) && z != 0 && ci(tr(h, t), h.Node_color, z)
  modifies RbTree.root@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.color
  ghostvar a: T = tr(h0, t)
  ghostvar c: CM = h0.Node_color
  ghostvar z0: int = z
  ghostvar hs: Heap = h0
  ghost loop1.start hs = h
  ghost loop1.start a = tr(h, t)
  ghost loop1.start c = h.Node_color
  ghost loop1.start z0 = z
  hint call:leftRotate*.before { assert(far(hs, h, t)) by { reveal(farn); } }
  hint call:leftRotate*.after { far_far(hs, hp, h, t); }
  hint call:rightRotate*.before { assert(far(hs, h, t)) by { reveal(farn); } }
  hint call:rightRotate*.after { far_far(hs, hp, h, t); }
  hint loop1.start { ins_round(tr(h, t), h.Node_color, z); kin(h, t, h.Node_parent[h.Node_parent[z]]); }
  hint loop1.end { let s = ins_step(a, c, z0); assert(teq(tr(h, t), s.0)); assert(h.Node_color =~= s.1); assert(z == s.2); open(s.0, s.2); open(a, z0); open(a, a.p[z0]); open(a, a.p[a.p[z0]]); if a.l[a.p[a.p[z0]]] != 0 { mem_is(a, a.l[a.p[a.p[z0]]]); } if a.r[a.p[a.p[z0]]] != 0 { mem_is(a, a.r[a.p[a.p[z0]]]); } assert(far(hs, h, t)) by { reveal(farn); } far_far(h0, hs, h, t); }
  hint loop1.before { reveal(farn); }
  hint loop1.after { ins_end(tr(h, t), h.Node_color, z); }
  loop1 inv wf(tr(h, t)) && z != 0 && mem(tr(h, t), z) && ci(tr(h, t), h.Node_color, z)
  loop1 inv h.RbTree_seq[t] == h0.RbTree_seq[t] && h.Node_own == h0.Node_own && h.Node_idx == h0.Node_idx && far(h0, h, t)
  loop1 dec if h.Node_parent[z] == 0 || h.Node_color[h.Node_parent[z]] { 0 } else { 1 + h.RbTree_seq[t].len() - (h.Node_hi[z] - h.Node_lo[z]) }
  hint post.wf { assert(far(h0, h, t)) by { at_root(tr(h, t)); mem_is(tr(h, t), h.RbTree_root[t]); reveal(farn); } }
  ensures[wf] wf(tr(h, t)) && h.RbTree_seq[t] == h0.RbTree_seq[t] && h.Node_own == h0.Node_own && h.Node_idx == h0.Node_idx && far(h0, h, t)
  ensures[rb @C11] red_black(tr(h, t), h.Node_color)
func rbtree.New(cmp) r
  requires cmp_ok(cmp)
  hint exit! { empty_ok(h, r); }
  ghost exit RbTree.seq@r = Seq::<int>::empty()
  ensures[empty] t_ok(h, r) && r >= h0.top && h.RbTree_seq[r].len() == 0 && h.RbTree_keyCmp[r] == cmp
func rbtree.RbTree.Insert(t, key, value)
  ownstate
  tags C10 C11
  requires t_ok(h, t)
  modifies RbTree.root@t, RbTree.size@t, RbTree.seq@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color
  ghostvar a: T = tr(h0, t)
  ghostvar f: int = h0.RbTree_keyCmp[t]
  ghostvar p: int = ub(f, t_keys(h0, t), key)
  ghostvar y1: int = 0
  ghostvar z1: int = 0
  ghost loop1.after y1 = y
  ghost call:rbInsertFixup#1.before z1 = z
  hint entry { lb_is(f, t_keys(h0, t), key); at_root(a); }
  loop1 inv x >= 0 && y >= 0 && (y == 0 ==> x == a.root) && (y != 0 ==> mem(a, y) && x == (if cmpv(f, key, h.Node_key[y]) < 0 { a.l[y] } else { a.r[y] }))
  loop1 inv (x != 0 ==> mem(a, x) && a.lo[x] <= p && p <= a.hi[x])
  loop1 inv x == 0 && y != 0 ==> p == ins_p(a, y, cmpv(f, key, h.Node_key[y]) < 0)
  loop1 dec if x == 0 { 0 } else { 1 + a.hi[x] - a.lo[x] }
  hint loop1.start { open(a, x); bound_at(h, t, key, x); }
  ghost call:rbInsertFixup#1.before Node.idx = ins_idx(a, y, cmpv(f, key, h.Node_key[y]) < 0, z)
  ghost call:rbInsertFixup#1.before Node.lo = ins_lo(a, y, cmpv(f, key, h.Node_key[y]) < 0, z)
  ghost call:rbInsertFixup#1.before Node.hi = ins_hi(a, y, cmpv(f, key, h.Node_key[y]) < 0, z)
  ghost call:rbInsertFixup#1.before Node.own@z = t
  ghost call:rbInsertFixup#1.before RbTree.seq@t = a.seq.insert(p, z)
  hint call:rbInsertFixup#1.before! { let lt = cmpv(f, key, h.Node_key[y]) < 0; ins_ok_z(h0, t, z); assert(teq(tr(h, t), ins(a, y, lt, z))); ins_wf(a, y, lt, z); ins_start(a, h0.Node_color, y, lt, z); assert(h.Node_color =~= h0.Node_color.insert(z, false)); mem_is(a, y); assert(far(h0, h, t)) by { reveal(farn); } }
  hint call:rbInsertFixup#1.after { far_far(h0, hp, h, t); }
  ghost exit z1 = if y1 == 0 { h.RbTree_root[t] } else { z1 }
  ghost exit Node.idx = if y1 == 0 { ins_idx(a, 0, false, z1) } else { h.Node_idx }
  ghost exit Node.lo = if y1 == 0 { ins_lo(a, 0, false, z1) } else { h.Node_lo }
  ghost exit Node.hi = if y1 == 0 { ins_hi(a, 0, false, z1) } else { h.Node_hi }
  ghost exit Node.own = if y1 == 0 { h.Node_own.insert(z1, t) } else { h.Node_own }
  ghost exit RbTree.seq = if y1 == 0 { h.RbTree_seq.insert(t, a.seq.insert(p, z1)) } else { h.RbTree_seq }
  hint exit! { if y1 == 0 { ins_ok_z(h0, t, z1); assert(teq(tr(h, t), ins(a, 0, false, z1))); ins_wf(a, 0, false, z1); ins_start(a, h0.Node_color, 0, false, z1); assert(h.Node_color =~= h0.Node_color.insert(z1, true)); assert(far(h0, h, t)) by { reveal(farn); } } reveal(nodes_in); assert(t_ents(h, t) =~= t_ents(h0, t).insert(p, (key, value))); others(h0, h, t); srt_ins(f, t_keys(h0, t), key); assert(t_keys(h, t) =~= t_keys(h0, t).insert(p, key)); }
  ensures[insert] t_wf(h, t) && ({ let p = ub(h.RbTree_keyCmp[t], t_keys(h0, t), key); 0 <= p && p <= h0.RbTree_seq[t].len() && h.RbTree_seq[t][p] >= h0.top && h.RbTree_seq[t] == h0.RbTree_seq[t].insert(p, h.RbTree_seq[t][p]) && t_ents(h, t) =~= t_ents(h0, t).insert(p, (key, value)) })
  ensures[ok @C11] t_ok(h, t)
  ensures[others] t_others(h0, h, t)
func rbtree.RbTree.rbFixupLeft(t, x, parent, w) x1, w1
  tags C10 C11
  requires t != 0 && wf(tr(h, t)) && cd(tr(h, t), h.Node_color, x, parent) && parent != 0 && x == h.Node_left[parent] && blk(h.Node_color, x) && (x != 0 || h.Node_right[parent] != 0)
  modifies RbTree.root@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.color
  ghostvar a: T = tr(h0, t)
  hint entry { del_left_round(a, h0.Node_color, x, parent); open(a, parent); open(a, a.r[parent]); at_root(a); kin(h, t, parent); }
  hint call:leftRotate*.before { assert(far(h0, h, t)) by { reveal(farn); } }
  hint call:leftRotate*.after { far_far(h0, hp, h, t); kin(h, t, parent_in); }
  hint call:rightRotate*.before { assert(far(h0, h, t)) by { reveal(farn); } }
  hint call:rightRotate*.after { far_far(h0, hp, h, t); kin(h, t, parent_in); }
  hint exit { reveal(farn); }
  ensures[step] ({ let s = del_left(tr(h0, t), h0.Node_color, x, parent); teq(tr(h, t), s.0) && h.Node_color =~= s.1 && x1 == s.2 })
  ensures[far] far(h0, h, t)
func rbtree.RbTree.rbFixupRight(t, x, parent, w) x1, w1
  tags C10 C11
  requires t != 0 && wf(tr(h, t)) && cd(tr(h, t), h.Node_color, x, parent) && parent != 0 && x == h.Node_right[parent] && blk(h.Node_color, x) && (x != 0 || h.Node_left[parent] != 0)
  modifies RbTree.root@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.color
  ghostvar a: T = tr(h0, t)
  hint entry { del_right_round(a, h0.Node_color, x, parent); open(a, parent); open(a, a.l[parent]); at_root(a); kin(h, t, parent); }
  hint call:leftRotate*.before { assert(far(h0, h, t)) by { reveal(farn); } }
  hint call:leftRotate*.after { far_far(h0, hp, h, t); kin(h, t, parent_in); }
  hint call:rightRotate*.before { assert(far(h0, h, t)) by { reveal(farn); } }
  hint call:rightRotate*.after { far_far(h0, hp, h, t); kin(h, t, parent_in); }
  hint exit { reveal(farn); }
  ensures[step] ({ let s = del_right(tr(h0, t), h0.Node_color, x, parent); teq(tr(h, t), s.0) && h.Node_color =~= s.1 && x1 == s.2 })
  ensures[far] far(h0, h, t)
func rbtree.RbTree.rbDeleteFixup(t, x, parent)
  tags C10 C11
  requires t != 0 && wf(tr(h, t)) && cd(tr(h, t), h.Node_color, x, parent)
  modifies RbTree.root@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.color
  ghostvar hs: Heap = h0
  ghostvar x0: int = x
  ghostvar q0: int = parent
  ghost loop1.start hs = h
  ghost loop1.start x0 = x
  ghost loop1.start q0 = if x != 0 { h.Node_parent[x] } else { parent }
  hint entry { del_at(tr(h, t), h.Node_color, x, parent); reveal(farn); }
  hint loop1.start { let a = tr(h, t); let q = if x != 0 { a.p[x] } else { parent }; at_root(a); if x != 0 { open(a, x); } del_at(a, h.Node_color, x, q); if q != 0 { kin(h, t, q); if a.l[q] == x { del_left_round(a, h.Node_color, x, q); } else { del_right_round(a, h.Node_color, x, q); } } }
  hint loop1.end { far_far(h0, hs, h, t); let a = tr(h, t); at_root(a); let s = if x0 == hs.Node_left[q0] { del_left(tr(hs, t), hs.Node_color, x0, q0) } else { del_right(tr(hs, t), hs.Node_color, x0, q0) }; assert(a == s.0); assert(h.Node_color == s.1); open(a, x); }
  hint loop1.after { let a = tr(h, t); at_root(a); let q = if x != 0 { a.p[x] } else { parent }; del_end(a, h.Node_color, x, q); del_at(a, h.Node_color, x, q); if x != 0 { mem_is(a, x); } reveal(farn); }
  loop1 inv wf(tr(h, t)) && cd(tr(h, t), h.Node_color, x, if x != 0 { h.Node_parent[x] } else { parent }) && far(h0, h, t)
  loop1 inv h.RbTree_seq[t] == h0.RbTree_seq[t] && h.Node_own == h0.Node_own && h.Node_idx == h0.Node_idx
  loop1 dec if x == h.RbTree_root[t] { 0 } else { 1 + h.RbTree_seq[t].len() - (if x == 0 { 0 } else { h.Node_hi[x] - h.Node_lo[x] }) }
  ensures[wf] wf(tr(h, t)) && h.RbTree_seq[t] == h0.RbTree_seq[t] && h.Node_own == h0.Node_own && h.Node_idx == h0.Node_idx && far(h0, h, t)
  ensures[rb @C11] red_black(tr(h, t), h.Node_color)
func rbtree.RbTree.Delete(t, node)
  ownstate
  tags C10 C11
  requires t_ok(h, t) && (node == 0 || mem(tr(h, t), node))
  modifies RbTree.root@t, RbTree.size@t, RbTree.seq@t, Node.left, Node.right, Node.parent, Node.lo, Node.hi, Node.idx, Node.own, Node.color, Node.key, Node.value
  ghostvar a: T = tr(h0, t)
  ghostvar y0: int = victim(a, node)
  hint entry { if node != 0 { mem_is(a, node); del_victim(h, t, node); del_wf(a, y0); del_start(a, h.Node_color, y0); kin(h, t, y0); open(a, y0); if a.p[y0] != 0 { kin(h, t, a.p[y0]); open(a, a.p[y0]); } } }
  ghost call:rbDeleteFixup#1.before Node.idx = cut(a, a.idx, a.idx[y0])
  ghost call:rbDeleteFixup#1.before Node.lo = cut(a, a.lo, a.idx[y0])
  ghost call:rbDeleteFixup#1.before Node.hi = cut(a, a.hi, a.idx[y0])
  ghost call:rbDeleteFixup#1.before Node.own = h.Node_own.insert(y0, 0)
  ghost call:rbDeleteFixup#1.before RbTree.seq = h.RbTree_seq.insert(t, a.seq.remove(a.idx[y0]))
  hint call:rbDeleteFixup#1.before! { assert(teq(tr(h, t), del(a, y0))); assert(far(h0, h, t)) by { reveal(farn); } }
  hint call:rbDeleteFixup#1.after { far_far(h0, hp, h, t); }
  ghost exit Node.idx = if node != 0 && !h0.Node_color[y0] { cut(a, a.idx, a.idx[y0]) } else { h.Node_idx }
  ghost exit Node.lo = if node != 0 && !h0.Node_color[y0] { cut(a, a.lo, a.idx[y0]) } else { h.Node_lo }
  ghost exit Node.hi = if node != 0 && !h0.Node_color[y0] { cut(a, a.hi, a.idx[y0]) } else { h.Node_hi }
  ghost exit Node.own = if node != 0 && !h0.Node_color[y0] { h.Node_own.insert(y0, 0) } else { h.Node_own }
  ghost exit RbTree.seq = if node != 0 && !h0.Node_color[y0] { h.RbTree_seq.insert(t, a.seq.remove(a.idx[y0])) } else { h.RbTree_seq }
  hint exit! { if node != 0 { if !h0.Node_color[y0] { assert(teq(tr(h, t), del(a, y0))); } assert(far(h0, h, t)) by { reveal(farn); } others(h0, h, t); del_ents(h0, h, t, node); } else { reveal(farn); others(h0, h, t); } }
  ensures[nil] node == 0 ==> hsame(h0, h) && t_ents(h, t) == t_ents(h0, t) && t_keys(h, t) == t_keys(h0, t)
  ensures[delete] node != 0 ==> t_wf(h, t) && t_ents(h, t) =~= t_ents(h0, t).remove(h0.Node_idx[node]) && h.RbTree_seq[t] == h0.RbTree_seq[t].remove(h0.Node_idx[victim(tr(h0, t), node)])
  ensures[ok @C11] t_ok(h, t)
  ensures[others] t_others(h0, h, t)
func rbtree.RbTree.Clear(t)
  ownstate
  tags C10 C11
  requires t_ok(h, t)
  modifies RbTree.root@t, RbTree.size@t, RbTree.seq@t, Node.own
  ghost exit Node.own = IMap::new(|n: int| true, |n: int| if h.Node_own[n] == t { 0 } else { h.Node_own[n] })
  ghost exit RbTree.seq@t = Seq::<int>::empty()
  hint exit! { assert(far(h0, h, t)) by { reveal(farn); } others(h0, h, t); empty_ok(h, t); }
  ensures[clear] t_wf(h, t) && h.RbTree_seq[t].len() == 0
  ensures[ok @C11] t_ok(h, t)
  ensures[others] t_others(h0, h, t)
func rbtree.RbTree.First(t) r
  requires t_wf(h, t)
  hint entry { at_root(tr(h, t)); if h.RbTree_root[t] != 0 { node_in(h, t, h.RbTree_root[t]); } }
  ensures[first] r == at_or_nil(h.RbTree_seq[t], 0) && (r != 0 ==> mem(tr(h, t), r) && h.Node_idx[r] == 0 && h.RbTree_seq[t].len() > 0)
func rbtree.RbTree.Begin(t) r
  requires t_wf(h, t)
  ensures[first] r == at_or_nil(h.RbTree_seq[t], 0) && (r != 0 ==> mem(tr(h, t), r) && h.Node_idx[r] == 0 && h.RbTree_seq[t].len() > 0)
func rbtree.RbTree.Last(t) r
  requires t_wf(h, t)
  hint entry { at_root(tr(h, t)); if h.RbTree_root[t] != 0 { node_in(h, t, h.RbTree_root[t]); } }
  ensures[last] r == at_or_nil(h.RbTree_seq[t], h.RbTree_seq[t].len() - 1) && (r != 0 ==> mem(tr(h, t), r) && h.Node_idx[r] == h.RbTree_seq[t].len() - 1)
func rbtree.RbTree.RBegin(t) r
  requires t_wf(h, t)
  ensures[last] r == at_or_nil(h.RbTree_seq[t], h.RbTree_seq[t].len() - 1) && (r != 0 ==> mem(tr(h, t), r) && h.Node_idx[r] == h.RbTree_seq[t].len() - 1)
func rbtree.RbTree.Empty(t) r
  requires t_ok(h, t)
  ensures r == (h.RbTree_seq[t].len() == 0)
func rbtree.RbTree.Size(t) r
  requires t_ok(h, t)
  ensures r == h.RbTree_seq[t].len()
func rbtree.RbTree.Compare(t, key1, key2) r
  requires t_ok(h, t)
  ensures r == cmpv(h.RbTree_keyCmp[t], key1, key2)
func rbtree.RbTree.findLowerBoundNode(t, x, key) r
  requires t_ok(h, t) && (x == 0 || mem(tr(h, t), x))
  decreases if x == 0 { 0 } else { h.Node_hi[x] - h.Node_lo[x] }
  ghostvar p: int = lb(h.RbTree_keyCmp[t], t_keys(h, t), key)
  hint entry { if x != 0 { let a = tr(h, t); open(a, x); bound_at(h, t, key, x); if a.l[x] != 0 { open(a, a.l[x]); } if a.r[x] != 0 { open(a, a.r[x]); } } }
  hint call:findLowerBoundNode*.after { { let a = tr(h, t); let p = lb(h.RbTree_keyCmp[t], t_keys(h, t), key); if p < a.seq.len() { node_at(h, t, p); } if x != 0 && a.lo[x] < a.seq.len() { node_at(h, t, a.lo[x]); } } if c_r != 0 { if x != 0 && h.Node_idx[c_r] <= h.Node_idx[x] { srt_at(h, t, c_r, x); } } }
  ensures[bound] r == (if x == 0 { 0 } else { let p = lb(h.RbTree_keyCmp[t], t_keys(h, t), key); let q = if p < h.Node_lo[x] { h.Node_lo[x] } else { p }; if q < h.Node_hi[x] { h.RbTree_seq[t][q] } else { 0 } })
  ensures[in] r != 0 ==> mem(tr(h, t), r) && h.RbTree_seq[t][h.Node_idx[r]] == r && h.Node_lo[x] <= h.Node_idx[r] && h.Node_idx[r] < h.Node_hi[x]
func rbtree.RbTree.findUpperBoundNode(t, x, key) r
  requires t_ok(h, t) && (x == 0 || mem(tr(h, t), x))
  decreases if x == 0 { 0 } else { h.Node_hi[x] - h.Node_lo[x] }
  hint entry { if x != 0 { let a = tr(h, t); open(a, x); bound_at(h, t, key, x); if a.l[x] != 0 { open(a, a.l[x]); } if a.r[x] != 0 { open(a, a.r[x]); } } }
  hint call:findUpperBoundNode*.after { { let a = tr(h, t); let p = ub(h.RbTree_keyCmp[t], t_keys(h, t), key); if p < a.seq.len() { node_at(h, t, p); } if x != 0 && a.lo[x] < a.seq.len() { node_at(h, t, a.lo[x]); } } if c_r != 0 { if x != 0 && h.Node_idx[c_r] <= h.Node_idx[x] { srt_at(h, t, c_r, x); } } }
  ensures[bound] r == (if x == 0 { 0 } else { let p = ub(h.RbTree_keyCmp[t], t_keys(h, t), key); let q = if p < h.Node_lo[x] { h.Node_lo[x] } else { p }; if q < h.Node_hi[x] { h.RbTree_seq[t][q] } else { 0 } })
  ensures[in] r != 0 ==> mem(tr(h, t), r) && h.RbTree_seq[t][h.Node_idx[r]] == r && h.Node_lo[x] <= h.Node_idx[r] && h.Node_idx[r] < h.Node_hi[x]
func rbtree.RbTree.FindLowerBoundNode(t, key) r
  requires t_ok(h, t)
  hint entry { at_root(tr(h, t)); lb_is(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint exit { let p = lb(h.RbTree_keyCmp[t], t_keys(h, t), key); if p < h.RbTree_seq[t].len() { node_at(h, t, p); } }
  ensures[lower] r == at_or_nil(h.RbTree_seq[t], lb(h.RbTree_keyCmp[t], t_keys(h, t), key)) && (r != 0 ==> mem(tr(h, t), r))
func rbtree.RbTree.FindUpperBoundNode(t, key) r
  requires t_ok(h, t)
  hint entry { at_root(tr(h, t)); lb_is(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint exit { let p = ub(h.RbTree_keyCmp[t], t_keys(h, t), key); if p < h.RbTree_seq[t].len() { node_at(h, t, p); } }
  ensures[upper] r == at_or_nil(h.RbTree_seq[t], ub(h.RbTree_keyCmp[t], t_keys(h, t), key)) && (r != 0 ==> mem(tr(h, t), r))
func rbtree.RbTree.findNode(t, key) r
  requires t_ok(h, t)
  ghostvar a: T = tr(h0, t)
  hint entry { at_root(a); lb_is(h.RbTree_keyCmp[t], t_keys(h, t), key); }
  hint loop1.start { open(a, x); bound_at(h, t, key, x); }
  loop1 inv x >= 0 && (x != 0 ==> mem(a, x)) && ({ let p = lb(h.RbTree_keyCmp[t], t_keys(h, t), key); let q = ub(h.RbTree_keyCmp[t], t_keys(h, t), key); p < q ==> x != 0 && a.lo[x] <= p && q <= a.hi[x] })
  loop1 dec if x == 0 { 0 } else { a.hi[x] - a.lo[x] }
  ensures[find] (r == 0) == (lb(h.RbTree_keyCmp[t], t_keys(h, t), key) == ub(h.RbTree_keyCmp[t], t_keys(h, t), key)) && (r != 0 ==> mem(tr(h, t), r) && cmpv(h.RbTree_keyCmp[t], key, h.Node_key[r]) == 0)
func rbtree.RbTree.findFirstNode(t, key) r
  requires t_ok(h, t)
  hint call:FindLowerBoundNode#1.after { lb_is(h.RbTree_keyCmp[t], t_keys(h, t), key); let p = lb(h.RbTree_keyCmp[t], t_keys(h, t), key); if p < h.RbTree_seq[t].len() { node_at(h, t, p); } if c_r != 0 { bound_at(h, t, key, c_r); } }
  ensures[find] r == t_find(h, t, key) && (r != 0 ==> mem(tr(h, t), r))
func rbtree.RbTree.FindNode(t, key) r
  requires t_ok(h, t)
  ensures[find] r == t_find(h, t, key) && (r != 0 ==> mem(tr(h, t), r))
func rbtree.RbTree.Find(t, key) v, err
  requires t_ok(h, t)
  ensures[find] (err == 0) == (t_find(h, t, key) != 0) && v == (if t_find(h, t, key) != 0 { h.Node_value[t_find(h, t, key)] } else { zero_val() })
func rbtree.RbTree.Traversal(t, visitor)
  requires t_ok(h, t) && visitor != 0
  modifies Visit.trace
  ghostvar S: Seq<(Val, Val)> = t_ents(h0, t)
  hint loop1.before { vrun_at(visitor, h.Visit_trace, S, 0); vrun_at(visitor, h.Visit_trace, S, S.len() as int); if S.len() > 0 { node_at(h, t, 0); } if node != 0 { node_in(h, t, node); } assert(S.skip(0) =~= S); assert(S.skip(S.len() as int) =~= Seq::empty()); }
  hint loop1.head { if node != 0 { node_in(h, t, node); vrun_at(visitor, h.Visit_trace, S, h.Node_idx[node]); if h.Node_idx[node] + 1 < h.RbTree_seq[t].len() { node_at(h, t, h.Node_idx[node] + 1); } } }
  hint loop1.after { vrun_at(visitor, h.Visit_trace, S, S.len() as int); }
  loop1 inv node >= 0 && (node != 0 ==> mem(tr(h, t), node) && h.Node_idx[node] <= S.len()) && t_ok(h, t)
  loop1 inv S == t_ents(h0, t) && vrun(visitor, h0.Visit_trace, S) == vrun(visitor, h.Visit_trace, S.skip(if node == 0 { S.len() as int } else { h.Node_idx[node] }))
  loop1 dec S.len() - (if node == 0 { S.len() as int } else { h.Node_idx[node] })
  ensures[visit] h.Visit_trace == vrun(visitor, h0.Visit_trace, t_ents(h0, t))
func rbtree.RbTree.test(t, n) cnt, prop, good
  tags C11
  requires t_wf(h, t) && (n == 0 || mem(tr(h, t), n))
  decreases if n == 0 { 0 } else { h.Node_hi[n] - h.Node_lo[n] }
  hint entry { let a = tr(h, t); at_root(a); bal_open(a, h.Node_color, n); if n != 0 { open(a, n); if a.l[n] != 0 { open(a, a.l[n]); } if a.r[n] != 0 { open(a, a.r[n]); } } }
  ensures[test] good == bal(tr(h, t), h.Node_color, n) && (good ==> cnt == 1 + bhr(tr(h, t), h.Node_color, n))
func rbtree.RbTree.IsRbTree(t) good, err
  tags C11
  requires t_wf(h, t)
  hint entry { let a = tr(h, t); at_root(a); if red_black(a, h.Node_color) { rb_bal(a, h.Node_color); } if bal(a, h.Node_color, a.root) { rb_height(a, h.Node_color); } }
  ensures[check] good == bal(tr(h, t), h.Node_color, h.RbTree_root[t])
  ensures[reachable] t_ok(h, t) ==> good
  ensures[height] good ==> exists|k: nat| height(tr(h, t), h.RbTree_root[t]) <= 2 * k && #[trigger] vstd::arithmetic::power2::pow2(k) <= h.RbTree_seq[t].len() + 1
func rbtree.NewIterator(node) r
  ensures r >= h0.top && r < h.top && dyn_of(r) == dyn_RbTreeIterator() && h.RbTreeIterator_node[r] == node
func rbtree.RbTree.IterFirst(t) r
  requires t_wf(h, t)
  ensures[first] r >= h0.top && r < h.top && h.RbTreeIterator_node[r] == at_or_nil(h.RbTree_seq[t], 0) && (h.RbTreeIterator_node[r] != 0 ==> mem(tr(h, t), h.RbTreeIterator_node[r]) && h.Node_idx[h.RbTreeIterator_node[r]] == 0 && h.RbTree_seq[t].len() > 0)
func rbtree.RbTree.IterLast(t) r
  requires t_wf(h, t)
  ensures[last] r >= h0.top && r < h.top && h.RbTreeIterator_node[r] == at_or_nil(h.RbTree_seq[t], h.RbTree_seq[t].len() - 1) && (h.RbTreeIterator_node[r] != 0 ==> mem(tr(h, t), h.RbTreeIterator_node[r]) && h.Node_idx[h.RbTreeIterator_node[r]] == h.RbTree_seq[t].len() - 1 && h.RbTree_seq[t].len() > 0)
func rbtree.RbTreeIterator.IsValid(it) r
  ensures r == (h.RbTreeIterator_node[it] != 0)
func rbtree.RbTreeIterator.Next(it) r
  ownstate
  requires h.RbTreeIterator_node[it] == 0 || n_in(h, h.RbTreeIterator_node[it])
  modifies RbTreeIterator.node@it
  ensures[next] r == it && h.RbTreeIterator_node[it] == (if h0.RbTreeIterator_node[it] == 0 { 0 } else { nxt(h0, h0.RbTreeIterator_node[it]) })
  ensures[in] h.RbTreeIterator_node[it] != 0 ==> n_in(h, h.RbTreeIterator_node[it]) && h.Node_own[h.RbTreeIterator_node[it]] == h.Node_own[h0.RbTreeIterator_node[it]] && h.Node_idx[h.RbTreeIterator_node[it]] == h.Node_idx[h0.RbTreeIterator_node[it]] + 1
  hint entry { if h.RbTreeIterator_node[it] != 0 { node_in(h, h.Node_own[h.RbTreeIterator_node[it]], h.RbTreeIterator_node[it]); } }
  hint call:Next#1.after { if c_r != 0 { node_in(h, h.Node_own[h.RbTreeIterator_node[it]], c_r); } }
func rbtree.RbTreeIterator.Prev(it) r
  ownstate
  requires h.RbTreeIterator_node[it] == 0 || n_in(h, h.RbTreeIterator_node[it])
  modifies RbTreeIterator.node@it
  ensures[prev] r == it && h.RbTreeIterator_node[it] == (if h0.RbTreeIterator_node[it] == 0 { 0 } else { prv(h0, h0.RbTreeIterator_node[it]) })
  ensures[in] h.RbTreeIterator_node[it] != 0 ==> n_in(h, h.RbTreeIterator_node[it]) && h.Node_own[h.RbTreeIterator_node[it]] == h.Node_own[h0.RbTreeIterator_node[it]] && h.Node_idx[h.RbTreeIterator_node[it]] == h.Node_idx[h0.RbTreeIterator_node[it]] - 1
  hint entry { if h.RbTreeIterator_node[it] != 0 { node_in(h, h.Node_own[h.RbTreeIterator_node[it]], h.RbTreeIterator_node[it]); } }
  hint call:Prev#1.after { if c_r != 0 { node_in(h, h.Node_own[h.RbTreeIterator_node[it]], c_r); } }
func rbtree.RbTreeIterator.Key(it) r
  panics h.RbTreeIterator_node[it] == 0
  ensures r == h.Node_key[h.RbTreeIterator_node[it]]
func rbtree.RbTreeIterator.Value(it) r
  panics h.RbTreeIterator_node[it] == 0
  ensures r == h.Node_value[h.RbTreeIterator_node[it]]
func rbtree.RbTreeIterator.SetValue(it, val) r
  panics h.RbTreeIterator_node[it] == 0
  modifies Node.value@h.RbTreeIterator_node[it]
  ensures r == 0 && h.Node_value == h0.Node_value.insert(h0.RbTreeIterator_node[it], val)
func rbtree.RbTreeIterator.Clone(it) r
  ensures r >= h0.top && dyn_of(r) == dyn_RbTreeIterator() && h.RbTreeIterator_node[r] == h0.RbTreeIterator_node[it]
func rbtree.RbTreeIterator.Equal(it, other) r
  ensures r == (other != 0 && dyn_of(other) == dyn_RbTreeIterator() && h.RbTreeIterator_node[it] == h.RbTreeIterator_node[other])
