import sys; sys.path.insert(0,'/tmp')
from genheap import gen
A='  modifies arr_Val@h.ElementHolder_elements[c].a'
P='  modifies ElementHolder.elements@c, arr_Val@h.ElementHolder_elements[c].a, arr_Val@fresh'
Q='  modifies ElementHolder.elements@c'
hp='h.PriorityQueue_holder[q]'
L='  locks h.PriorityQueue_locker[q]\n  requires q_ok(h, q)\n'
o='''unit priorityqueue
tags C09
pkg ds/heap ds/priorityqueue
types ds/heap
use sync
guard PriorityQueue.holder PriorityQueue.locker
guard ElementHolder.elements PriorityQueue.locker
lib pq.rs heap.rs
'''+gen((A,P,Q)) .replace('c_seq(h, h_in)','c_seq(h, c)')
for m,sig in (('Len','(e) r'),('Less','(e, i, j) r'),('Swap','(e, i, j)'),('Push','(e, x)'),('Pop','(e) r')):
    o+=f'func priorityqueue.ElementHolder.{m}{sig}\n  implements heap.Interface.{m}\n'+{'Swap':A,'Push':'  allocs\n'+P,'Pop':Q}.get(m,'').replace('[c]','[e]').replace('@c','@e')+('  requires h.ElementHolder_cmpFun[e] != 0\n' if 0 else '')+'\n'
o+=f'''functype priorityqueue.Option(f, option)
  requires h.Options_locker[option] != 0
  allocs
  modifies Options.locker@option
  ensures h.Options_locker[option] != 0 && c_others(h0, h, 0)
func priorityqueue.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as priorityqueue.Option ensures h.Options_locker[option] >= h0.top
func priorityqueue.New(cmp, opts) r
  requires cmp != 0 && cmp_ok(cmp) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  hint exit {{ assert(h.PriorityQueue_locker[r] == h.Options_locker[option]); assert(option >= h0.top); }}
  loop1 inv h.Options_locker[option] != 0 && c_others(h0, h, 0)
  ensures[new] q_ok(h, r) && r >= h0.top && h.PriorityQueue_holder[r] >= h0.top && q_ord(h, r) == cmp
  ensures[empty] q_seq(h, r).len() == 0
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.PriorityQueue_locker[r] == h.Options_locker[o]
  ensures[others] c_others(h0, h, 0)
func priorityqueue.PriorityQueue.Push(q, e)
{L}{P.replace('[c]','['+hp+']').replace('@c','@'+hp)}
  ensures[values] q_ok(h, q) && q_seq(h, q).to_multiset() == q_seq(h0, q).to_multiset().insert(e) && q_seq(h, q).len() == q_seq(h0, q).len() + 1
  ensures[others] c_others(h0, h, {hp}) && {hp} == {hp.replace('h.','h0.')}
func priorityqueue.PriorityQueue.Pop(q) r
{L}  panics q_seq(h, q).len() == 0
{Q.replace('@c','@'+hp)}
{A.replace('[c]','['+hp+']')}
  ensures[min] min_of(q_ord(h0, q), q_seq(h0, q), r) && q_seq(h0, q).contains(r)
  ensures[values] q_ok(h, q) && q_seq(h, q).to_multiset() == q_seq(h0, q).to_multiset().remove(r) && q_seq(h, q).len() == q_seq(h0, q).len() - 1
  ensures[others] c_others(h0, h, {hp})
func priorityqueue.PriorityQueue.Top(q) r
{L}  panics q_seq(h, q).len() == 0
  hint exit {{ root_min(q_ord(h0, q), q_seq(h0, q)); }}
  ensures[min] min_of(q_ord(h0, q), q_seq(h0, q), r) && q_seq(h0, q).contains(r)
func priorityqueue.PriorityQueue.Empty(q) r
{L}  ensures[empty] r == (q_seq(h, q).len() == 0)
func priorityqueue.PriorityQueue.Size(q) r
{L}  ensures[size] r == q_seq(h, q).len()
func priorityqueue.PriorityQueue.Clear(q)
{L}{Q.replace('@c','@'+hp)}
  ensures[empty] q_ok(h, q) && q_seq(h, q).len() == 0
  ensures[others] c_others(h0, h, {hp})
'''
open('/verif/specs/priorityqueue.spec','w').write(o)
