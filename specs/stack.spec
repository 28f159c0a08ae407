unit stack
tags C08
pkg ds/stack
use container
use sync
ghost C.seq: Seq<Val>
guard Stack.container Stack.locker
lib absseq.rs stack.rs
functype stack.Option(f, option)
  requires c_ok(h, h.Options_container[option]) && h.Options_locker[option] != 0
  allocs
  modifies Options.container@option, Options.locker@option, C.seq@fresh
  ensures c_ok(h, h.Options_container[option]) && h.Options_locker[option] != 0 && h0.top <= h.top
// the contracts of the containers made here are proved in the units deque and bidlist
extern deque.New() r
  allocs
  modifies C.seq@fresh
  ensures c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == 0
extern bidlist.New() r
  allocs
  modifies C.seq@fresh
  ensures c_ok(h, r) && r >= h0.top && c_seq(h, r).len() == 0
func stack.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as stack.Option ensures h.Options_locker[option] >= h0.top && h.Options_container[option] == h0.Options_container[option]
func stack.WithContainer(c) r
  requires c_ok(h, c)
  ensures r != 0
  closure 1 (option) as stack.Option ensures h.Options_container[option] == c && h.Options_locker[option] == h0.Options_locker[option]
func stack.WithListContainer() r
  ensures r != 0
  closure 1 (option) as stack.Option ensures h.Options_container[option] >= h0.top && c_seq(h, h.Options_container[option]).len() == 0 && h.Options_locker[option] == h0.Options_locker[option]
func stack.New(opts) r
  requires forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  loop1 inv c_ok(h, h.Options_container[option]) && h.Options_locker[option] != 0
  loop1 inv opts.len == 0 ==> h.Options_container[option] >= h0.top && c_seq(h, h.Options_container[option]).len() == 0
  hint exit { assert(h.Stack_container[r] == h.Options_container[option] && h.Stack_locker[r] == h.Options_locker[option]); assert(option >= h0.top); }
  ensures[new] s_ok(h, r) && r >= h0.top
  ensures[empty] opts.len == 0 ==> s_seq(h, r).len() == 0 && h.Stack_container[r] >= h0.top
  ensures[options] exists|o: int| #![trigger h.Options_container[o]] o >= h0.top && h.Stack_container[r] == h.Options_container[o] && h.Stack_locker[r] == h.Options_locker[o]
  ensures[others] c_others(h0, h, 0)
func stack.Stack.Size(s) r
  locks h.Stack_locker[s]
  requires s_ok(h, s)
  ensures[size] r == s_seq(h, s).len()
func stack.Stack.Empty(s) r
  locks h.Stack_locker[s]
  requires s_ok(h, s)
  ensures[empty] r == (s_seq(h, s).len() == 0)
func stack.Stack.Push(s, value)
  locks h.Stack_locker[s]
  requires s_ok(h, s)
  modifies C.seq@h.Stack_container[s]
  ensures[seq] s_ok(h, s) && s_seq(h, s) =~= s_seq(h0, s).push(value)
  ensures[others] c_others(h0, h, h.Stack_container[s])
func stack.Stack.Top(s) r
  locks h.Stack_locker[s]
  requires s_ok(h, s)
  panics s_seq(h, s).len() == 0
  ensures[top] r == s_seq(h, s).last()
func stack.Stack.Pop(s) r
  locks h.Stack_locker[s]
  requires s_ok(h, s)
  panics s_seq(h, s).len() == 0
  modifies C.seq@h.Stack_container[s]
  ensures[top] r == s_seq(h0, s).last()
  ensures[seq] s_ok(h, s) && s_seq(h, s) =~= s_seq(h0, s).drop_last()
  ensures[others] c_others(h0, h, h.Stack_container[s])
func stack.Stack.Clear(s)
  locks h.Stack_locker[s]
  requires s_ok(h, s)
  modifies C.seq@h.Stack_container[s]
  ensures[seq] s_ok(h, s) && s_seq(h, s).len() == 0
  ensures[others] c_others(h0, h, h.Stack_container[s])
func stack.Stack.String(s) r
  tags C23
  locks h.Stack_locker[s]
  requires s_ok(h, s)
