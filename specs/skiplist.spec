unit skiplist
tags C14
pkg ds/skiplist
use sync
verify skiplist.WithGoroutineSafe skiplist.WithMaxLevel skiplist.New skiplist.Skiplist.Insert skiplist.Skiplist.Get skiplist.Skiplist.Remove skiplist.Skiplist.Len skiplist.Skiplist.randomLevel skiplist.Skiplist.findPrevNodes skiplist.Skiplist.Traversal skiplist.Skiplist.Keys
rename skiplist.Options SkiplistOptions
lib order.rs skiplist.rs
guard Node.next Skiplist.locker
guard Element.value Skiplist.locker
guard Skiplist.len Skiplist.locker
guard Skiplist.prevNodesCache Skiplist.locker
guard Skiplist.rander Skiplist.locker
ghost Skiplist.seq: Seq<int>
ghost Element.own: int
ghost A.own: int
ghost A.node: int
ghost Rand.state: int
ghost Visit.trace: !Seq<(Val, Val)>
heap Element.key Element.value
// standard library, trusted
extern rand.New(src) r
  allocs
  ensures r >= h0.top && r < h.top
extern rand.NewSource(seed) r
  allocs
  ensures r != 0
extern time.Now() r
extern time.Time.Unix(t) r
extern rand.Rand.Uint64(r) x
  modifies Rand.state@r
func skiplist.Skiplist.randomLevel(sl) r
  requires 1 <= h.Skiplist_maxLevel[sl] && h.Skiplist_maxLevel[sl] <= 63 && h.Skiplist_rander[sl] != 0
  modifies Rand.state@h.Skiplist_rander[sl]
  ghostvar n: int = h0.Skiplist_maxLevel[sl]
  hint entry { pow2s(n); }
  loop1 dec n - level
  loop1 inv 1 <= level && level <= n && levelN == p2(n - level) && total == p2(n - level) - 1
  hint loop1.start { pow2s(n - level); }
  ensures[range] 1 <= r && r <= h.Skiplist_maxLevel[sl]
func skiplist.Skiplist.findPrevNodes(sl, key) r
  requires s_ok(h, sl)
  modifies arr_int@h.Skiplist_prevNodesCache[sl].a
  ghostvar hb: Heap = h0
  ghostvar k: int = s_lb(h0, sl, key)
  ghostvar G: Seq<int> = gs(h0, sl)
  ghostvar w: Seq<int> = s_ws(h0, sl)
  hint entry { assert(s_found(h, sl, k, h.Skiplist_maxLevel[sl] - 1)) by { reveal(found); } node_at(h, sl, 0); lb_is(h.Skiplist_keyCmp[sl], s_keys(h, sl), key); }
  loop1 dec i + 1
  loop1 inv -1 <= i && i < h.Skiplist_maxLevel[sl] && s_ok(h, sl) && s_found(h, sl, k, i) && prevs == h.Skiplist_prevNodesCache[sl]
  loop1 inv i >= 0 ==> reached(h, sl, key, prev, i)
  loop2 inv[reached] reached(h, sl, key, prev, i) && next == nx(h, prev, i) && s_ok(h, sl)
  loop2 dec gs(h, sl).len() - pos(h, sl, prev)
  hint loop1.start { kept(h0, h, sl); step(h, sl, 0, i, key); if i >= 0 { step(h, sl, pos(h, sl, prev), i, key); } }
  ghost loop1.start hb = h
  hint loop1.end { step(hb, sl, 0, i + 1, key); np_is(w, 0, i + 1); step(hb, sl, pos(hb, sl, prev), i + 1, key); pv_np(w, k, i + 1, pos(hb, sl, prev)); cached(hb, h, sl, k, i + 1, prev); }
  hint loop2.start { step(h, sl, pos(h, sl, prev), i, key); }
  ensures[cache] s_ok(h, sl) && s_found(h, sl, s_lb(h0, sl, key), -1) && r == h.Skiplist_prevNodesCache[sl]
functype skiplist.Option(f, option)
  requires h.SkiplistOptions_locker[option] > 0 && h.SkiplistOptions_locker[option] < h.top && 1 <= h.SkiplistOptions_maxLevel[option] && h.SkiplistOptions_maxLevel[option] <= 63
  allocs
  modifies SkiplistOptions.locker@option, SkiplistOptions.maxLevel@option
  ensures h.SkiplistOptions_locker[option] > 0 && h.SkiplistOptions_locker[option] < h.top && h0.top <= h.top && 1 <= h.SkiplistOptions_maxLevel[option] && h.SkiplistOptions_maxLevel[option] <= 63
func skiplist.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as skiplist.Option ensures h.SkiplistOptions_locker[option] >= h0.top && h.SkiplistOptions_maxLevel[option] == h0.SkiplistOptions_maxLevel[option]
func skiplist.WithMaxLevel(maxLevel) r
  requires 1 <= maxLevel && maxLevel <= 63
  ensures r != 0
  closure 1 (option) as skiplist.Option ensures h.SkiplistOptions_maxLevel[option] == maxLevel && h.SkiplistOptions_locker[option] == h0.SkiplistOptions_locker[option]
func skiplist.New(cmp, opts) r
  requires cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  loop1 inv h.SkiplistOptions_locker[option] > 0 && h.SkiplistOptions_locker[option] < h.top && 1 <= h.SkiplistOptions_maxLevel[option] && h.SkiplistOptions_maxLevel[option] <= 63
  hint exit! { new_list(h, r); reveal(foot); others(h0, h, 0); assert(h.Skiplist_locker[r] == h.SkiplistOptions_locker[option] && h.Skiplist_maxLevel[r] == h.SkiplistOptions_maxLevel[option]); }
  ghost exit A.own@h.Node_next[-r].a = r
  ghost exit A.own@h.Skiplist_prevNodesCache[r].a = r
  ghost exit A.node@h.Node_next[-r].a = -r
  ghost exit A.node@h.Skiplist_prevNodesCache[r].a = 0
  ensures[new] s_ok(h, r) && r >= h0.top && h.Skiplist_keyCmp[r] == cmp && s_ents(h, r).len() == 0
  ensures[options] exists|o: int| #![trigger h.SkiplistOptions_locker[o]] o >= h0.top && h.Skiplist_locker[r] == h.SkiplistOptions_locker[o] && h.Skiplist_maxLevel[r] == h.SkiplistOptions_maxLevel[o]
  ensures[others] s_others(h0, h, 0)
func skiplist.Skiplist.Insert(sl, key, value)
  locks h.Skiplist_locker[sl]
  requires s_ok(h, sl)
  modifies arr_int, Element.value, Skiplist.len@sl, Skiplist.seq@sl, Rand.state@h.Skiplist_rander[sl]
  ghostvar k: int = s_lb(h0, sl, key)
  ghostvar f: int = h0.Skiplist_keyCmp[sl]
  ghostvar G: Seq<int> = gs(h0, sl)
  ghostvar w: Seq<int> = s_ws(h0, sl)
  ghostvar S: Seq<int> = h0.Skiplist_seq[sl]
  ghostvar hb: Heap = h0
  ghostvar ne: int = 0
  hint call:findPrevNodes#1.after { kept(h0, h, sl); lb_is(f, s_keys(h, sl), key); strict_one(f, s_keys(h, sl), key); found_is(h, sl, k, -1, 0); step(h, sl, k, 0, key); }
  ghost call:randomLevel#1.after hb = h
  ghost loop1.before A.own@h.Node_next[e].a = sl
  ghost loop1.before A.node@h.Node_next[e].a = e
  ghost loop1.before Element.own@e = sl
  ghost loop1.before ne = e
  hint loop1.before! { kept(hb, h, sl); part_start(h, sl, k, e); reveal(found); reveal(foot); }
  loop1 inv[shape] s_base(h, sl) && elem_ok(h, sl, e) && ne == e && h0.top <= e && gs(h, sl) == G && s_ws(h, sl) == w && h.Node_next[e].len == level && 1 <= level && level <= h.Skiplist_maxLevel[sl] && s_found(h, sl, k, -1) && prevs == h.Skiplist_prevNodesCache[sl] && foot(h0, h, sl)
  loop1 inv[key] h.Element_key[e] == key && h.Element_value[e] == value && h.Skiplist_seq[sl] == S && s_ents(h, sl) == s_ents(h0, sl) && s_keys(h, sl) == s_keys(h0, sl) && h.Skiplist_keyCmp[sl] == f
  loop1 inv[part] part(h.arr_int, h.Node_next, G, w, k, e, i)
  ghost loop1.start hb = h
  hint loop1.start! { found_is(h, sl, k, -1, i); }
  hint loop1.end { link_step(h0, hb, h, sl, k, e, i - 1); }
  ghost loop1.after hb = h
  ghost loop1.after Skiplist.seq@sl = S.insert(k, e)
  hint exit { reveal(foot); if s_lb(h0, sl, key) == s_ub(h0, sl, key) { ins_done(hb, h, sl, k, ne); } else { set_value(h0, h, sl, k, value); } others(h0, h, sl); }
  ensures[insert] s_ok(h, sl) && ({ let p = s_lb(h0, sl, key); if p == s_ub(h0, sl, key) { s_ents(h, sl) =~= s_ents(h0, sl).insert(p, (key, value)) } else { p < s_ents(h0, sl).len() && s_ents(h, sl) =~= s_ents(h0, sl).update(p, (s_ents(h0, sl)[p].0, value)) } })
  ensures[others] s_others(h0, h, sl)
func skiplist.Skiplist.Get(sl, key) v, err
  locks h.Skiplist_locker[sl]
  requires s_ok(h, sl)
  hint entry { node_at(h, sl, 0); lb_is(h.Skiplist_keyCmp[sl], s_keys(h, sl), key); }
  loop1 dec i + 1
  loop1 inv -1 <= i && i < h.Skiplist_maxLevel[sl] && s_ok(h, sl)
  loop1 inv if i >= 0 { reached(h, sl, key, pre, i) } else { s_lb(h, sl, key) == s_ub(h, sl, key) }
  loop2 inv reached(h, sl, key, pre, i) && cur == nx(h, pre, i) && s_ok(h, sl)
  loop2 dec gs(h, sl).len() - pos(h, sl, pre)
  hint loop2.before { step(h, sl, pos(h, sl, pre), i, key); }
  hint loop2.start { step(h, sl, pos(h, sl, pre), i, key); }
  hint loop2.after { step(h, sl, pos(h, sl, pre), i, key); }
  ensures[get] ({ let p = s_lb(h, sl, key); if p == s_ub(h, sl, key) { err != 0 && v == zero_val() } else { err == 0 && v == s_ents(h, sl)[p].1 } })
func skiplist.Skiplist.Remove(sl, key) r
  locks h.Skiplist_locker[sl]
  requires s_ok(h, sl)
  modifies arr_int, Skiplist.len@sl, Skiplist.seq@sl
  ghostvar k: int = s_lb(h0, sl, key)
  ghostvar f: int = h0.Skiplist_keyCmp[sl]
  ghostvar G: Seq<int> = gs(h0, sl)
  ghostvar w: Seq<int> = s_ws(h0, sl)
  ghostvar S: Seq<int> = h0.Skiplist_seq[sl]
  ghostvar hb: Heap = h0
  hint call:findPrevNodes#1.after { kept(h0, h, sl); lb_is(f, s_keys(h, sl), key); strict_one(f, s_keys(h, sl), key); found_is(h, sl, k, -1, 0); step(h, sl, k, 0, key); reveal(foot); cut_start(h, sl, k); }
  loop1 inv[shape] s_base(h, sl) && k + 1 < G.len() && gs(h, sl) == G && s_ws(h, sl) == w && h.Node_next[G[k + 1]] == i_range && s_found(h, sl, k, -1) && prevs == h.Skiplist_prevNodesCache[sl] && foot(h0, h, sl)
  loop1 inv[key] h.Skiplist_seq[sl] == S && s_ents(h, sl) == s_ents(h0, sl) && s_keys(h, sl) == s_keys(h0, sl) && h.Skiplist_keyCmp[sl] == f
  loop1 inv[cut] cut(h.arr_int, h.Node_next, G, w, k, i)
  ghost loop1.start hb = h
  hint loop1.start! { found_is(h, sl, k, -1, i); node_at(h, sl, k + 1); }
  hint loop1.end { cut_by(h0, hb, h, sl, k, i - 1); }
  ghost loop1.after hb = h
  ghost loop1.after Skiplist.seq@sl = S.remove(k)
  hint exit { reveal(foot); if s_lb(h0, sl, key) != s_ub(h0, sl, key) { rem_done(hb, h, sl, k); } others(h0, h, sl); }
  ensures[remove] s_ok(h, sl) && r == (s_lb(h0, sl, key) != s_ub(h0, sl, key)) && (if r { s_ents(h, sl) =~= s_ents(h0, sl).remove(s_lb(h0, sl, key)) } else { s_ents(h, sl) == s_ents(h0, sl) })
  ensures[others] s_others(h0, h, sl)
func skiplist.Skiplist.Len(sl) r
  locks h.Skiplist_locker[sl]
  requires s_ok(h, sl)
  ensures[len] r == s_ents(h, sl).len()
func skiplist.Skiplist.Traversal(sl, visitor)
  locks h.Skiplist_locker[sl]
  requires s_ok(h, sl) && visitor != 0
  modifies Visit.trace
  visits s_ents(h, sl)
  ghostvar S: Seq<(Val, Val)> = s_ents(h0, sl)
  hint loop1.before { node_at(h, sl, 0); step(h, sl, 0, 0, zero_val()); vrun_at(visitor, h.Visit_trace, S, 0); vrun_at(visitor, h.Visit_trace, S, S.len() as int); }
  hint loop1.head { if e != 0 { node_at(h, sl, pos(h, sl, e)); step(h, sl, pos(h, sl, e), 0, zero_val()); vrun_at(visitor, h.Visit_trace, S, pos(h, sl, e) - 1); } }
  loop1 inv s_ok(h, sl) && (e != 0 ==> 0 < pos(h, sl, e) && pos(h, sl, e) < gs(h, sl).len() && gs(h, sl)[pos(h, sl, e)] == e)
  loop1 inv vrun(visitor, h0.Visit_trace, S) == vrun(visitor, h.Visit_trace, S.skip(if e == 0 { S.len() as int } else { pos(h, sl, e) - 1 }))
  loop1 dec if e == 0 { 0 } else { gs(h, sl).len() - pos(h, sl, e) }
func skiplist.Skiplist.Keys(sl) r
  locks h.Skiplist_locker[sl]
  requires s_ok(h, sl)
  modifies arr_Val@fresh
  allocs
  loop1 inv s_ok(h, sl) && (keys == nil_slice() || keys.a >= h0.top) && view(h.arr_Val, keys) =~= s_keys(h0, sl).take(vi)
  hint loop1.end { kept(h0, h, sl); }
  ensures[keys] view(h.arr_Val, r) =~= s_keys(h0, sl) && s_ok(h, sl) && s_ents(h, sl) == s_ents(h0, sl)
