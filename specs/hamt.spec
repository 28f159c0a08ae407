unit hamt
tags C15
pkg ds/hamt
use sync std
verify hamt.pos hamt.bitPos hamt.hash hamt.BitmapNode.Type hamt.BitmapNode.BitPosNum hamt.BitmapNode.Index hamt.KvNode.Type hamt.KvNode.BitPosNum hamt.BitmapNode.insert hamt.BitmapNode.find hamt.BitmapNode.erase hamt.WithGoroutineSafe hamt.New hamt.Hamt.Insert hamt.Hamt.Get hamt.Hamt.Erase hamt.BitmapNode.traversal hamt.Hamt.Traversal hamt.Hamt.Keys hamt.Hamt.StringKeys
broadcast pre::ax_val_slice
rename hamt.Options HamtOptions
lib hamt.rs
guard BitmapNode.bitmap Hamt.locker
guard BitmapNode.children Hamt.locker
guard KvNode.kvList Hamt.locker
guard KvPair.next Hamt.locker
guard KvPair.value Hamt.locker
ghost Hasher.data: Seq<u8>
ghost BitmapNode.own: int
ghost BitmapNode.dep: int
ghost BitmapNode.pre: u64
ghost BitmapNode.par: int
ghost BitmapNode.kid: IMap<int, int>
ghost KvNode.own: int
ghost KvPair.own: int
ghost A.own: int
ghost Hamt.L: IMap<u64, Seq<int>>
ghost Pend.s: !Seq<int>
ghost Visit.trace: !Seq<(Val, Val)>
heap BitmapNode.bitmap BitmapNode.children KvPair.key KvPair.value KvPair.next arr_u8
// standard library, trusted
extern fnv.New64() r
  allocs
  ensures r >= h0.top && r < h.top && h.Hasher_data[r].len() == 0
extern io.Writer.Write(r, p) n, err
  modifies Hasher.data@r
  ensures h.Hasher_data[r] == h0.Hasher_data[r] + view(h.arr_u8, p)
extern hash.Hash64.Sum64(r) s
  ensures s == hf(h.Hasher_data[r])
func hamt.pos(hash, depth) r
  requires 0 <= depth && depth <= 10
  hint entry { pos_is(hash, depth); }
  ensures[pos] r == ps(hash, depth) && r < 64
func hamt.bitPos(pos) r
  requires pos < 64
  ensures[bit] r == bp(pos)
func hamt.hash(a) r
  allocs
  modifies Hasher.data@fresh
  ensures[hash] r == hf(view(h.arr_u8, a))
iface hamt.Entry.Type(e) r
  requires dyn_of(e) == dyn_KvNode() || dyn_of(e) == dyn_BitmapNode()
  ensures[type] r == (if dyn_of(e) == dyn_KvNode() { 1int } else { 0 })
iface hamt.Entry.BitPosNum(e, depth) r
  requires dyn_of(e) == dyn_KvNode() || dyn_of(e) == dyn_BitmapNode()
  requires 0 <= depth && depth <= 10 && (dyn_of(e) == dyn_BitmapNode() ==> h.BitmapNode_pos[e] < 64)
  ensures[bit] r == bp(if dyn_of(e) == dyn_KvNode() { ps(h.KvNode_hash[e], depth) } else { h.BitmapNode_pos[e] })
func hamt.BitmapNode.Type(e) r
  implements hamt.Entry.Type
  requires[dispatch] dyn_of(e) == dyn_BitmapNode()
func hamt.BitmapNode.BitPosNum(e, depth) r
  implements hamt.Entry.BitPosNum
  requires[dispatch] dyn_of(e) == dyn_BitmapNode()
func hamt.KvNode.Type(e) r
  implements hamt.Entry.Type
  requires[dispatch] dyn_of(e) == dyn_KvNode()
func hamt.KvNode.BitPosNum(e, depth) r
  implements hamt.Entry.BitPosNum
  requires[dispatch] dyn_of(e) == dyn_KvNode()
func hamt.BitmapNode.Index(n, bitPos) r
  requires exists|p: u8| #![trigger bp(p)] p < 64 && bitPos == bp(p)
  hint entry { let p = choose|p: u8| #![trigger bp(p)] p < 64 && bitPos == bp(p); count_below(h.BitmapNode_bitmap[n], p); bits_of(0, p); assert forall|q: u8| #![trigger bp(q)] q < 64 && bitPos == bp(q) implies q == p by { bp_inj(p, q); } }
  ensures[index] forall|p: u8| #![trigger bp(p)] p < 64 && bitPos == bp(p) ==> r == rank(h.BitmapNode_bitmap[n], p as int)
func hamt.BitmapNode.insert(n, depth, hash, kv)
  hide gnode agree
  requires 0 <= depth && depth <= 10 && n > 0 && kv > 0 && kv < h.top && at_node(h, n, depth, hash, depth) && pend(h, h.BitmapNode_own[n], hash, kv)
  allocs
  modifies BitmapNode.bitmap, BitmapNode.children, BitmapNode.own, BitmapNode.dep, BitmapNode.pre, BitmapNode.par, BitmapNode.kid, BitmapNode.pos@fresh, KvNode.hash@fresh, KvNode.kvList, KvNode.own, KvPair.next, KvPair.value, A.own, Hamt.L, Pend.s, arr_int
  split
  decreases 11 - depth
  ghostvar l: int = h.BitmapNode_own[n]
  ghostvar b0: u64 = h.BitmapNode_bitmap[n]
  ghostvar S: Seq<int> = h.Hamt_L[h.BitmapNode_own[n]][hash]
  ghostvar P: Seq<int> = h.Pend_s
  ghostvar e0: int = h.BitmapNode_kid[n][ps(hash, depth) as int]
  ghostvar k: Seq<u8> = kb(h.arr_u8, h.KvPair_key, kv)
  hint entry! { keep; look(h, n, depth, hash, depth); nodup(h, l, S, hash); fi_is(h.arr_u8, h.KvPair_key, S, k, 0); bits_of(b0, ps(hash, depth)); coup_less(h, l, depth); assert(P[0] == kv); }
  hint stmt:"h.bitmap |= bitPos"#1.after { keep; rank_same(b0, b0 | bp(ps(hash, depth)), ps(hash, depth) as int); nth_rank(b0 | bp(ps(hash, depth)), ps(hash, depth) as int); rank_add(b0, b0 | bp(ps(hash, depth)), ps(hash, depth) as int, 64); }
  loop1 inv forall|a: int| #![trigger h.arr_int[a]] 0 < a && a < h0.top ==> h.arr_int[a] == h0.arr_int[a]
  loop1 inv at(h.arr_int, newChildren, rank(b0, ps(hash, depth) as int)) == kvNode
  loop1 inv forall|j: int| #![trigger at(h0.arr_int, h0.BitmapNode_children[n], j)] 0 <= j && j < entry_idx ==> at(h.arr_int, newChildren, if j >= rank(b0, ps(hash, depth) as int) { j + 1 } else { j }) == at(h0.arr_int, h0.BitmapNode_children[n], j)
  hint loop1.start { child(h0, n, depth, entry_idx); shift_in(b0, ps(hash, depth), entry_idx); assert(bp(nth(b0, entry_idx) as u8) == bp(nth(b0, entry_idx) as u8)); }
  ghost loop1.after BitmapNode.kid@n = h.BitmapNode_kid[n].insert(ps(hash, depth) as int, kvNode)
  ghost loop1.after KvNode.own@kvNode = l
  ghost loop1.after Hamt.L@l = h.Hamt_L[l].insert(hash, P)
  ghost loop1.after A.own@newChildren.a = n
  loop2 inv h.KvPair_value == h0.KvPair_value
  loop2 inv 0 <= ix(S, iter) && ix(S, iter) <= h_fi(h, S, k) && (iter == 0 ==> ix(S, iter) == S.len()) && (iter != 0 ==> ix(S, iter) < S.len() && S[ix(S, iter)] == iter)
  loop2 dec S.len() - ix(S, iter)
  ghost loop2.after Hamt.L@l = h.Hamt_L[l].insert(hash, seq![kv] + S)
  ghostvar y0: u64 = h.KvNode_hash[h.BitmapNode_kid[n][ps(hash, depth) as int]]
  ghostvar h1: Heap = h
  ghostvar h2: Heap = h
  ghostvar h3: Heap = h
  ghostvar h4: Heap = h
  ghostvar b1: int = 0
  ghost call:insert#1.before BitmapNode.own@bitmapNode = l
  ghost call:insert#1.before BitmapNode.dep@bitmapNode = depth + 1
  ghost call:insert#1.before BitmapNode.pre@bitmapNode = hash
  ghost call:insert#1.before BitmapNode.par@bitmapNode = n
  ghost call:insert#1.before BitmapNode.kid@bitmapNode = zarr(0int)
  ghost call:insert#1.before BitmapNode.kid@n = h.BitmapNode_kid[n].insert(ps(hash, depth) as int, bitmapNode)
  ghost call:insert#1.before Hamt.L@l = h.Hamt_L[l].insert(y0, Seq::empty())
  ghost call:insert#1.before Pend.s = h0.Hamt_L[l][y0]
  ghost call:insert#1.before h1 = h
  ghost call:insert#1.before b1 = bitmapNode
  hint call:insert#1.before! { split_1(h0, h, n, depth, hash, kv, bitmapNode); }
  ghost call:insert#1.after h2 = h
  ghost call:insert#2.before Pend.s = P
  ghost call:insert#2.before h3 = h
  hint call:insert#2.before! { split_2(h0, h1, h2, h3, l, depth, hash, y0, kv, b1, h1.KvNode_kvList[e0]); }
  ghost call:insert#2.after h4 = h
  hint call:insert#2.after! { foot_node(h1, h3, l, depth + 1, n); foot_node(h3, h4, l, depth + 1, n); }
  hint exit { if e0 != 0 && kvn(e0) && y0 != hash { split_3(h0, h1, h3, h4, h, n, depth, hash, kv, b1); } }
  hint exit { if e0 == 0 { ins_leaf(h0, h, n, depth, hash, kv, h.BitmapNode_kid[n][ps(hash, depth) as int]); } else if kvn(e0) && h0.KvNode_hash[e0] == hash { if h_fi(h0, S, k) < S.len() { ins_found(h0, h, n, depth, hash, kv, h.KvPair_value); } else { ins_more(h0, h, n, depth, hash, kv); } } else if !kvn(e0) { ins_down(h0, h, n, depth, hash, kv); } }
  ensures[insert] ins_post(h0, h, n, depth, hash, kv)
func hamt.BitmapNode.find(n, depth, hash, key) v, err
  requires 0 <= depth && depth <= 10 && n > 0 && at_node(h, n, depth, hash, 0)
  decreases 11 - depth
  ghostvar S: Seq<int> = h.Hamt_L[h.BitmapNode_own[n]][hash]
  ghostvar k: Seq<u8> = view(h.arr_u8, key)
  hint entry! { look(h, n, depth, hash, 0); nodup(h, h.BitmapNode_own[n], S, hash); fi_is(h.arr_u8, h.KvPair_key, S, k, 0); }
  loop1 inv 0 <= ix(S, iter) && ix(S, iter) <= h_fi(h, S, k) && (iter == 0 ==> ix(S, iter) == S.len()) && (iter != 0 ==> ix(S, iter) < S.len() && S[ix(S, iter)] == iter)
  loop1 dec S.len() - ix(S, iter)
  ensures[find] ({ let T = h.Hamt_L[h.BitmapNode_own[n]][hash]; let i = h_fi(h, T, view(h.arr_u8, key)); if i < T.len() { err == 0 && v == h.KvPair_value[T[i]] } else { err != 0 && v == zero_val() } })
func hamt.BitmapNode.erase(n, depth, hash, key) r
  requires 0 <= depth && depth <= 10 && n > 0 && at_node(h, n, depth, hash, depth)
  allocs
  modifies BitmapNode.bitmap, BitmapNode.children, BitmapNode.own, BitmapNode.kid, KvNode.kvList, KvPair.next, A.own, Hamt.L, arr_int
  split
  decreases 11 - depth
  ghostvar l: int = h.BitmapNode_own[n]
  ghostvar b0: u64 = h.BitmapNode_bitmap[n]
  ghostvar c0: Slice = h.BitmapNode_children[n]
  ghostvar S: Seq<int> = h.Hamt_L[h.BitmapNode_own[n]][hash]
  ghostvar e0: int = h.BitmapNode_kid[n][ps(hash, depth) as int]
  ghostvar k: Seq<u8> = view(h.arr_u8, key)
  ghostvar f0: int = 0
  ghostvar h1: Heap = h
  hint entry! { keep; look(h, n, depth, hash, depth); nodup(h, l, S, hash); fi_is(h.arr_u8, h.KvPair_key, S, k, 0); bits_of(b0, ps(hash, depth)); coup_less(h, l, depth); }
  ghost entry f0 = h_fi(h, S, k)
  loop1 inv !found && 0 <= ix(S, iter) && ix(S, iter) <= f0 && (iter == 0 ==> ix(S, iter) == S.len()) && (iter != 0 ==> ix(S, iter) < S.len() && S[ix(S, iter)] == iter)
  loop1 inv preIter == (if ix(S, iter) == 0 { 0 } else { S[ix(S, iter) - 1] })
  loop1 dec S.len() - ix(S, iter)
  ghost loop1.after Hamt.L@l = if found { h.Hamt_L[l].insert(hash, S.remove(f0)) } else { h.Hamt_L[l] }
  loop2 inv forall|a: int| #![trigger h.arr_int[a]] 0 < a && a < h0.top ==> h.arr_int[a] == (if a == c0.a { h0.arr_int[a].insert(c0.off + rank(b0, ps(hash, depth) as int), 0) } else { h0.arr_int[a] })
  loop2 inv forall|j: int| #![trigger at(h0.arr_int, c0, j)] 0 <= j && j < entry_idx && j != rank(b0, ps(hash, depth) as int) ==> at(h.arr_int, newChildren, if j > rank(b0, ps(hash, depth) as int) { j - 1 } else { j }) == at(h0.arr_int, c0, j)
  hint loop2.start { child(h0, n, depth, entry_idx); shift_out(b0, ps(hash, depth), entry_idx); assert(bp(nth(b0, entry_idx) as u8) == bp(nth(b0, entry_idx) as u8)); }
  ghost loop2.after BitmapNode.kid@n = h.BitmapNode_kid[n].insert(ps(hash, depth) as int, 0)
  ghost loop2.after A.own@newChildren.a = n
  ghost call:erase#1.after h1 = h
  hint call:erase#1.after! { foot_node(h0, h, l, depth + 1, n); cpl_is(h, l, depth + 1, e0); if h.BitmapNode_children[e0].len > 0 { child(h, e0, depth + 1, 0); } }
  ghost stmt:"h.children[index] = child"#1.before BitmapNode.own@e0 = 0
  ghost stmt:"h.children[index] = child"#1.before BitmapNode.kid@n = h.BitmapNode_kid[n].insert(ps(hash, depth) as int, child)
  hint exit { if !inner(e0) { if h0.KvNode_hash[e0] != hash || f0 >= S.len() || e0 == 0 { era_none(h0, h, n, depth, hash, k); } else if S.len() > 1 { era_more(h0, h, n, depth, hash, k); } else { era_leaf(h0, h, n, depth, hash, k); } } else if h.BitmapNode_own[e0] == 0 { era_up(h0, h1, h, n, depth, hash, k); } else { era_down(h0, h, n, depth, hash, k, r); } }
  ensures[erase] era_post(h0, h, n, depth, hash, view(h0.arr_u8, key), r)
func hamt.BitmapNode.traversal(n, visitor) r
  requires n > 0 && visitor != 0 && tree(h, h.BitmapNode_own[n], 0)
  modifies Visit.trace
  visits w_ents(h, n)
  decreases 11 - h.BitmapNode_dep[n]
  ghostvar T0: Seq<(Val, Val)> = h.Visit_trace
  ghostvar S: Seq<int> = Seq::empty()
  hint loop1.before { trav_first(h, n, visitor, T0); }
  loop1 inv seen(h, n, entry_idx, visitor, T0, h.Visit_trace)
  hint loop1.start! { trav_node(h, n, entry_idx, visitor, T0, h.Visit_trace); if kvn(at(h.arr_int, h.BitmapNode_children[n], entry_idx)) { nodup(h, h.BitmapNode_own[n], S, h.KvNode_hash[at(h.arr_int, h.BitmapNode_children[n], entry_idx)]); } }
  ghost loop1.start S = h_ent(h, n, at_pos(h, n, entry_idx))
  loop2 inv seen_list(h, n, entry_idx, ix(S, kv), visitor, T0, h.Visit_trace)
  loop2 inv 0 <= ix(S, kv) && (kv == 0 ==> ix(S, kv) == S.len()) && (kv != 0 ==> ix(S, kv) < S.len() && S[ix(S, kv)] == kv)
  loop2 dec S.len() - ix(S, kv)
  hint loop2.start { trav_pair(h, n, entry_idx, ix(S, kv), visitor, T0, h.Visit_trace); }
  hint loop2.after { trav_list(h, n, entry_idx, visitor, T0, h.Visit_trace); }
  ensures[stopped] r == vall(visitor, h0.Visit_trace, w_ents(h0, n))
functype hamt.Option(f, option)
  requires h.HamtOptions_locker[option] > 0 && h.HamtOptions_locker[option] < h.top
  allocs
  modifies HamtOptions.locker@option
  ensures h.HamtOptions_locker[option] > 0 && h.HamtOptions_locker[option] < h.top && h0.top <= h.top
func hamt.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as hamt.Option ensures h.HamtOptions_locker[option] >= h0.top
func hamt.New(opts) r
  requires forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  allocs
  modifies BitmapNode.own
  loop1 inv h.HamtOptions_locker[option] > 0 && h.HamtOptions_locker[option] < h.top
  ghost exit BitmapNode.own = own_new(h.BitmapNode_own, r)
  ghost exit BitmapNode.dep@r = 0
  ghost exit BitmapNode.kid@r = zarr(0int)
  ghost exit Hamt.L@r = no_lists()
  hint exit! { trie_new(h0, h, r); others_are(h0, h, r); assert(h.Hamt_locker[r] == h.HamtOptions_locker[option]); }
  ensures[new] hm_ok(h, r) && r >= h0.top && forall|k: Seq<u8>| #![trigger m_in(h, r, k)] !m_in(h, r, k)
  ensures[options] exists|o: int| #![trigger h.HamtOptions_locker[o]] o >= h0.top && h.Hamt_locker[r] == h.HamtOptions_locker[o]
  ensures[others] hm_others(h0, h, r)
func hamt.Hamt.Insert(l, key, value)
  locks h.Hamt_locker[l]
  requires hm_ok(h, l)
  allocs
  modifies BitmapNode.bitmap, BitmapNode.children, BitmapNode.own, BitmapNode.dep, BitmapNode.pre, BitmapNode.par, BitmapNode.kid, BitmapNode.pos@fresh, KvNode.hash@fresh, KvNode.kvList, KvNode.own, KvPair.next, KvPair.value, KvPair.key@fresh, KvPair.own@fresh, A.own, Hamt.L, Pend.s, arr_int, Hasher.data@fresh
  ghostvar hb: Heap = h
  ghostvar kv: int = 0
  ghostvar k0: Seq<u8> = view(h.arr_u8, key)
  ghost call:insert#1.before KvPair.own@c_kv = l
  ghost call:insert#1.before Pend.s = seq![c_kv]
  ghost call:insert#1.before hb = h
  ghost call:insert#1.before kv = c_kv
  hint call:insert#1.before! { foot_new(h0, h, h0.top); foot_new(h0, h, l); grown(h0, h, l, hf(k0)); pair_made(h0, h, l, kv, k0); }
  ghostvar hc: Heap = h
  ghost call:insert#1.after hc = h
  hint exit { foot_on(hb, hc, h, l); ins_root(hb, h, l, kv, k0); foot_tr(h0, hb, h, l, 0); foot_is0(h0, h, l); others_are(h0, h, l); }
  ensures[insert] hm_ok(h, l) && ins_map(h0, h, l, view(h0.arr_u8, key), value)
  ensures[others] hm_others(h0, h, l)
func hamt.Hamt.Traversal(l, visitor)
  locks h.Hamt_locker[l]
  requires hm_ok(h, l) && visitor != 0
  modifies Visit.trace
  visits w_ents(h, l)
  hint entry { root_at(h, l, 0); walk_all(h, l); }
  hint exit { assert(e_keys(h0, w_ents(h0, l)) =~= k_seq(h0, h_wk(h0, l, 64))); }
  ensures[once] ({ let E = w_ents(h0, l); let Q = e_keys(h0, E); all_keys(h0, l, Q) && forall|i: int| #![trigger E[i]] 0 <= i < E.len() ==> E[i].1 == m_val(h0, l, Q[i]) })
func hamt.Hamt.Keys(l) r
  locks h.Hamt_locker[l]
  requires hm_ok(h, l)
  allocs
  modifies arr_Slice@fresh
  ghostvar E: Seq<(Val, Val)> = w_ents(h0, l)
  hint entry { root_at(h, l, 0); walk_all(h, l); }
  hint call:traversal#1.before { foot_new(h0, h, h0.top); grown(h0, h, l, 0); }
  loop1 inv keys.a >= h0.top && view(h.arr_Slice, keys) =~= e_sl(E).take(vi)
  hint loop1.end { foot_new(h0, h, h0.top); grown(h0, h, l, 0); }
  hint exit { foot_new(h0, h, h0.top); grown(h0, h, l, 0); assert(e_keys(h0, E) =~= k_seq(h0, h_wk(h0, l, 64))); assert(e_sl(E).take(E.len() as int) =~= e_sl(E)); assert(s_bytes(h, r) =~= e_keys(h0, E)); }
  ensures[keys] all_keys(h0, l, s_bytes(h, r))
  ensures[same] hm_ok(h, l) && hm_others(h0, h, h0.top)
func hamt.Hamt.StringKeys(l) r
  locks h.Hamt_locker[l]
  requires hm_ok(h, l)
  allocs
  modifies arr_str@fresh
  ghostvar E: Seq<(Val, Val)> = w_ents(h0, l)
  hint entry { root_at(h, l, 0); walk_all(h, l); }
  hint call:traversal#1.before { foot_new(h0, h, h0.top); grown(h0, h, l, 0); }
  loop1 inv keys.a >= h0.top && view(h.arr_str, keys) =~= e_keys(h0, E).take(vi)
  hint loop1.end { foot_new(h0, h, h0.top); grown(h0, h, l, 0); }
  hint exit { foot_new(h0, h, h0.top); grown(h0, h, l, 0); assert(e_keys(h0, E) =~= k_seq(h0, h_wk(h0, l, 64))); assert(e_keys(h0, E).take(E.len() as int) =~= e_keys(h0, E)); }
  ensures[keys] all_keys(h0, l, view(h.arr_str, r))
  ensures[same] hm_ok(h, l) && hm_others(h0, h, h0.top)
func hamt.Hamt.Get(l, key) v, err
  locks h.Hamt_locker[l]
  requires hm_ok(h, l)
  allocs
  modifies Hasher.data@fresh
  hint call:find#1.before { foot_new(h0, h, h0.top); grown(h0, h, l, hf(view(h.arr_u8, key))); }
  hint exit { foot_new(h0, h, h0.top); grown(h0, h, l, 0); reveal(m_in); reveal(m_val); }
  ensures[get] if m_in(h, l, view(h.arr_u8, key)) { err == 0 && v == m_val(h, l, view(h.arr_u8, key)) } else { err != 0 && v == zero_val() }
  ensures[same] hm_ok(h, l) && hm_others(h0, h, h0.top)
func hamt.Hamt.Erase(l, key) r
  locks h.Hamt_locker[l]
  requires hm_ok(h, l)
  allocs
  modifies BitmapNode.bitmap, BitmapNode.children, BitmapNode.own, BitmapNode.kid, KvNode.kvList, KvPair.next, A.own, Hamt.L, arr_int, Hasher.data@fresh
  ghostvar k0: Seq<u8> = view(h.arr_u8, key)
  ghostvar hb: Heap = h
  ghost call:erase#1.before hb = h
  hint call:erase#1.before! { foot_new(h0, h, h0.top); foot_new(h0, h, l); grown(h0, h, l, hf(k0)); }
  ghostvar hc: Heap = h
  ghost call:erase#1.after hc = h
  hint exit { foot_on(hb, hc, h, l); era_root(hb, h, l, k0, r); foot_tr(h0, hb, h, l, 0); foot_is0(h0, h, l); others_are(h0, h, l); }
  ensures[erase] hm_ok(h, l) && r == m_in(h0, l, view(h0.arr_u8, key)) && era_map(h0, h, l, view(h0.arr_u8, key))
  ensures[others] hm_others(h0, h, l)
