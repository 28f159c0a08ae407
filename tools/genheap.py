# heap functions over an abstract collection (unit heap) and over the priority queue's holder (unit priorityqueue)
import sys
F='c_ord(h0, h_in)'; S0='c_seq(h0, h_in)'; S='c_seq(h, h_in)'
def gen(mods):
    m={'swap':mods[0],'push':mods[1],'pop':mods[2]}
    o=f'''iface heap.Interface.Len(c) r
  requires[ok] c_ok(h, c)
  ensures[len] r == c_seq(h, c).len()
iface heap.Interface.Less(c, i, j) r
  requires[ok] c_ok(h, c)
  panics !(0 <= i < c_seq(h, c).len() && 0 <= j < c_seq(h, c).len())
  ensures[less] r == (cmpv(c_ord(h, c), c_seq(h, c)[i], c_seq(h, c)[j]) < 0)
iface heap.Interface.Swap(c, i, j)
  requires[ok] c_ok(h, c)
  panics !(0 <= i < c_seq(h, c).len() && 0 <= j < c_seq(h, c).len())
{m['swap']}
  ensures[swap] c_seq(h, c) =~= sw(c_seq(h0, c), i, j)
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
iface heap.Interface.Push(c, x)
  requires[ok] c_ok(h, c)
  allocs
{m['push']}
  ensures[push] c_seq(h, c) =~= c_seq(h0, c).push(x)
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
iface heap.Interface.Pop(c) r
  requires[ok] c_ok(h, c)
  panics c_seq(h, c).len() == 0
{m['pop']}
  ensures[pop] c_seq(h, c) =~= c_seq(h0, c).drop_last() && r == c_seq(h0, c).last()
  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)
'''
    ok='  requires c_ok(h, c) && cmp_ok(c_ord(h, c))\n'
    oth='  ensures[others] c_ok(h, c) && c_ord(h, c) == c_ord(h0, c) && c_others(h0, h, c)\n'
    f0='c_ord(h0, c)'; s0='c_seq(h0, c)'; s='c_seq(h, c)'
    o+=f'''func heap.up(c, j)
{ok}  requires 0 <= j && j < c_seq(h, c).len()
{m['swap']}
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  ghostvar b: int = j
  loop1 inv c_ok(h, c) && c_ord(h, c) == f && c_others(h0, h, c) && 0 <= j && j <= b && {s}.len() == S.len() && {s}.to_multiset() == S.to_multiset()
  loop1 inv forall|k: int| #![trigger {s}[k]] b < k && k < S.len() ==> {s}[k] == S[k]
  loop1 inv forall|n: int| #![trigger but_above(f, S, b, n)] b < n && n <= S.len() && but_above(f, S, b, n) ==> but_above(f, {s}, j, n)
  loop1 dec j
  hint call:Swap#1.after {{ sw_perm(c_seq(hp, c), i, j); assert forall|n: int| #![trigger but_above(f, S, b, n)] b < n && n <= S.len() && but_above(f, S, b, n) implies but_above(f, {s}, i, n) by {{ up_step(f, c_seq(hp, c), i, j, n); assert({s} == sw(c_seq(hp, c), i, j)); }} }}
  hint exit {{ assert forall|n: int| #![trigger but_above(f, S, b, n)] b < n && n <= S.len() && but_above(f, S, b, n) implies heap_ord(f, {s}, n) by {{ up_done(f, {s}, j, n); }} }}
  ensures[heap] forall|n: int| #![trigger but_above({f0}, {s0}, j, n)] j < n && n <= {s0}.len() && but_above({f0}, {s0}, j, n) ==> heap_ord({f0}, {s}, n)
  ensures[same] {s}.len() == {s0}.len() && {s}.to_multiset() == {s0}.to_multiset()
  ensures[rest] forall|k: int| #![trigger {s}[k]] j < k && k < {s0}.len() ==> {s}[k] == {s0}[k]
{oth}'''
    o+=f'''func heap.down(c, i0, n) r
{ok}  requires 0 <= i0 && n <= c_seq(h, c).len()
{m['swap']}
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  loop1 inv c_ok(h, c) && c_ord(h, c) == f && c_others(h0, h, c) && i0 <= i && {s}.len() == S.len() && {s}.to_multiset() == S.to_multiset() && (i == i0 ==> {s} == S)
  loop1 inv i0 >= n ==> i == i0
  loop1 inv forall|k: int| #![trigger {s}[k]] (0 <= k && k < i0) || (n <= k && k < S.len()) ==> {s}[k] == S[k]
  loop1 inv forall|lo: int| #![trigger but_below(f, S, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(f, S, lo, i0, n, true) ==> but_below(f, {s}, lo, i, n, i == i0)
  loop1 dec nn(n - i)
  hint call:Swap#1.after {{ sw_perm(c_seq(hp, c), i, j); assert forall|lo: int| #![trigger but_below(f, S, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(f, S, lo, i0, n, true) implies but_below(f, {s}, lo, j, n, false) by {{ down_step(f, c_seq(hp, c), lo, i, j, n, i == i0); assert({s} == sw(c_seq(hp, c), i, j)); }} }}
  hint exit {{ assert forall|lo: int| #![trigger but_below(f, S, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below(f, S, lo, i0, n, true) implies dn_post(f, {s}, lo, i0, n, r) by {{ down_done(f, {s}, lo, i, n, i == i0); }} }}
  ensures[heap] forall|lo: int| #![trigger but_below({f0}, {s0}, lo, i0, n, true)] 0 <= lo && lo <= i0 && but_below({f0}, {s0}, lo, i0, n, true) ==> dn_post({f0}, {s}, lo, i0, n, r)
  ensures[still] !r ==> {s} == {s0}
  ensures[same] {s}.len() == {s0}.len() && {s}.to_multiset() == {s0}.to_multiset()
  ensures[rest] forall|k: int| #![trigger {s}[k]] (0 <= k && k < i0) || (n <= k && k < {s0}.len()) ==> {s}[k] == {s0}[k]
{oth}'''
    o+=f'''func heap.Init(c)
{ok}{m['swap']}
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  loop1 inv c_ok(h, c) && c_ord(h, c) == f && c_others(h0, h, c) && n == S.len() && -1 <= i && {s}.len() == S.len() && {s}.to_multiset() == S.to_multiset() && heap_from(f, {s}, i + 1, n)
  loop1 dec i + 1
  hint call:down#1.before {{ down_start(f, {s}, {s}, i, n); }}
  ensures[heap] heap_ord({f0}, {s}, {s}.len() as int)
  ensures[same] {s}.len() == {s0}.len() && {s}.to_multiset() == {s0}.to_multiset()
{oth}func heap.Push(c, x)
{ok}  requires heap_ord(c_ord(h, c), c_seq(h, c), c_seq(h, c).len() as int)
  allocs
{m['push']}
  hint call:Push#1.after {{ up_start({f0}, {s0}, {s}, {s0}.len() as int); }}
  hint entry {{ broadcast use vstd::seq_lib::group_to_multiset_ensures; }}
  ensures[heap] heap_ord({f0}, {s}, {s}.len() as int)
  ensures[values] {s}.to_multiset() == {s0}.to_multiset().insert(x) && {s}.len() == {s0}.len() + 1
{oth}func heap.Pop(c) r
{ok}  requires heap_ord(c_ord(h, c), c_seq(h, c), c_seq(h, c).len() as int)
  panics c_seq(h, c).len() == 0
{m['pop']}
{m['swap'] if m['swap']!=m['pop'] else ''}
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  hint call:down#1.before {{ sw_perm(S, 0, n); down_changed(f, S.take(n), {s}, 0, n); }}
  hint exit {{ root_min(f, S); }}
  hint call:Pop#1.before {{ drop_multi(S, {s}, S[0]); }}
  ensures[min] min_of({f0}, {s0}, r) && {s0}.contains(r)
  ensures[heap] heap_ord({f0}, {s}, {s}.len() as int)
  ensures[values] {s}.to_multiset() == {s0}.to_multiset().remove(r) && {s}.len() == {s0}.len() - 1
{oth}func heap.Remove(c, i) r
{ok}  requires heap_ord(c_ord(h, c), c_seq(h, c), c_seq(h, c).len() as int)
  requires 0 <= i && i < c_seq(h, c).len()
{m['pop']}
{m['swap'] if m['swap']!=m['pop'] else ''}
  ghostvar f: int = c_ord(h0, c)
  ghostvar S: Seq<Val> = c_seq(h0, c)
  hint call:down#1.before {{ sw_perm(S, i, n); down_changed(f, S.take(n), {s}, i, n); }}
  hint call:Pop#1.before {{ drop_multi(S, {s}, S[i]); }}
  ensures[value] r == {s0}[i]
  ensures[heap] heap_ord({f0}, {s}, {s}.len() as int)
  ensures[values] {s}.to_multiset() == {s0}.to_multiset().remove(r) && {s}.len() == {s0}.len() - 1
{oth}// Fix: the value at i may have changed since the collection was heap-ordered
func heap.Fix(c, i)
{ok}  requires 0 <= i && i < c_seq(h, c).len() && but_below(c_ord(h, c), c_seq(h, c), 0, i, c_seq(h, c).len() as int, true)
{m['swap']}
  ensures[heap] heap_ord({f0}, {s}, {s}.len() as int)
  ensures[same] {s}.len() == {s0}.len() && {s}.to_multiset() == {s0}.to_multiset()
{oth}'''
    return '\n'.join(x for x in o.split('\n') if x.strip())+'\n'
if __name__=='__main__':
    a='  modifies C.seq@c'
    open('/verif/specs/heap.spec','w').write('''unit heap
tags C09
pkg ds/heap
types ds/heap
ghost C.seq: Seq<Val>
ghost C.ord: int
lib absheap.rs heap.rs
'''+gen((a,a,a)))
