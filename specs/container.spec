// Interface contracts of linear containers, over the abstract functions of iterator.spec
// nopanic: asking a container for its size does not panic, also not for one given by the user; anything else may
types ds/container
iface container.Container.PushBack(c, value)
  requires[ok] c_ok(h, c) && w_ok(h)
  allocs
  modifies C.seq@c
  ensures[seq] c_seq(h, c) =~= c_seq(h0, c).push(value)
  ensures[others] c_ok(h, c) && w_ok(h) && c_others(h0, h, c)
iface container.Container.PushFront(c, value)
  requires[ok] c_ok(h, c) && w_ok(h)
  allocs
  modifies C.seq@c
  ensures[seq] c_seq(h, c) =~= seq![value] + c_seq(h0, c)
  ensures[others] c_ok(h, c) && w_ok(h) && c_others(h0, h, c)
iface container.Container.Front(c) r
  requires[ok] c_ok(h, c) && w_ok(h)
  panics c_seq(h, c).len() == 0
  ensures[front] r == c_seq(h, c)[0]
iface container.Container.Back(c) r
  requires[ok] c_ok(h, c) && w_ok(h)
  panics c_seq(h, c).len() == 0
  ensures[back] r == c_seq(h, c)[c_seq(h, c).len() - 1]
iface container.Container.PopFront(c) r
  requires[ok] c_ok(h, c) && w_ok(h)
  panics c_seq(h, c).len() == 0
  modifies C.seq@c
  ensures[front] r == c_seq(h0, c)[0]
  ensures[seq] c_seq(h, c) =~= c_seq(h0, c).skip(1)
  ensures[others] c_ok(h, c) && w_ok(h) && c_others(h0, h, c)
iface container.Container.PopBack(c) r
  requires[ok] c_ok(h, c) && w_ok(h)
  panics c_seq(h, c).len() == 0
  modifies C.seq@c
  ensures[back] r == c_seq(h0, c)[c_seq(h0, c).len() - 1]
  ensures[seq] c_seq(h, c) =~= c_seq(h0, c).drop_last()
  ensures[others] c_ok(h, c) && w_ok(h) && c_others(h0, h, c)
iface container.Container.Empty(c) r
  nopanic
  requires[ok] c_ok(h, c) && w_ok(h)
  ensures[empty] r == (c_seq(h, c).len() == 0)
iface container.Container.Size(c) r
  nopanic
  requires[ok] c_ok(h, c) && w_ok(h)
  ensures[size] r == c_seq(h, c).len()
iface container.Container.Clear(c)
  requires[ok] c_ok(h, c) && w_ok(h)
  allocs
  modifies C.seq@c
  ensures[seq] c_seq(h, c).len() == 0
  ensures[others] c_ok(h, c) && w_ok(h) && c_others(h0, h, c)
iface container.Container.String(c) r
  requires[ok] c_ok(h, c) && w_ok(h)
