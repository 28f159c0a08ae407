unit queue
tags C08
pkg ds/queue
use container
use sync
ghost C.seq: Seq<Val>
guard Queue.container Queue.locker
lib absseq.rs queue.rs
functype queue.Option(f, option)
  requires c_ok(h, h.Options_container[option]) && h.Options_locker[option] != 0
  allocs
  modifies Options.container@option, Options.locker@option, C.seq@fresh
  ensures c_ok(h, h.Options_container[option]) && h.Options_locker[option] != 0 && h0.top <= h.top
// the contracts of the containers made here are proved in the units deque and bidlist
extern deque.New() r
  allocs
  modifies C.seq@fresh
  ensures c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == 0
extern bidlist.New() r
  allocs
  modifies C.seq@fresh
  ensures c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == 0
func queue.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as queue.Option ensures h.Options_locker[option] >= h0.top && h.Options_container[option] == h0.Options_container[option]
func queue.WithContainer(c) r
  requires c_ok(h, c)
  ensures r != 0
  closure 1 (option) as queue.Option ensures h.Options_container[option] == c && h.Options_locker[option] == h0.Options_locker[option]
func queue.WithListContainer() r
  ensures r != 0
  closure 1 (option) as queue.Option ensures h.Options_container[option] >= h0.top && c_seq(h, h.Options_container[option]).len() == 0 && h.Options_locker[option] == h0.Options_locker[option]
func queue.New(opts) r
  requires forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  loop1 inv c_ok(h, h.Options_container[option]) && h.Options_locker[option] != 0
  loop1 inv opts.len == 0 ==> h.Options_container[option] >= h0.top && c_seq(h, h.Options_container[option]).len() == 0
  hint exit { assert(h.Queue_container[r] == h.Options_container[option] && h.Queue_locker[r] == h.Options_locker[option]); assert(option >= h0.top); }
  ensures[new] q_ok(h, r) && r >= h0.top
  ensures[empty] opts.len == 0 ==> q_seq(h, r).len() == 0 && h.Queue_container[r] >= h0.top
  ensures[options] exists|o: int| #![trigger h.Options_container[o]] o >= h0.top && h.Queue_container[r] == h.Options_container[o] && h.Queue_locker[r] == h.Options_locker[o]
  ensures[others] c_others(h0, h, 0)
func queue.Queue.Size(q) r
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  ensures[size] r == q_seq(h, q).len()
func queue.Queue.Empty(q) r
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  ensures[empty] r == (q_seq(h, q).len() == 0)
func queue.Queue.Push(q, value)
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  modifies C.seq@h.Queue_container[q]
  ensures[seq] q_ok(h, q) && q_seq(h, q) =~= q_seq(h0, q).push(value)
  ensures[others] c_others(h0, h, h.Queue_container[q])
func queue.Queue.Front(q) r
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  panics q_seq(h, q).len() == 0
  ensures[front] r == q_seq(h, q)[0]
func queue.Queue.Back(q) r
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  panics q_seq(h, q).len() == 0
  ensures[back] r == q_seq(h, q).last()
func queue.Queue.Pop(q) r
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  panics q_seq(h, q).len() == 0
  modifies C.seq@h.Queue_container[q]
  ensures[front] r == q_seq(h0, q)[0]
  ensures[seq] q_ok(h, q) && q_seq(h, q) =~= q_seq(h0, q).skip(1)
  ensures[others] c_others(h0, h, h.Queue_container[q])
func queue.Queue.Clear(q)
  locks h.Queue_locker[q]
  requires q_ok(h, q)
  modifies C.seq@h.Queue_container[q]
  ensures[seq] q_ok(h, q) && q_seq(h, q).len() == 0
  ensures[others] c_others(h0, h, h.Queue_container[q])
func queue.Queue.String(q) r
  tags C23
  locks h.Queue_locker[q]
  requires q_ok(h, q)
