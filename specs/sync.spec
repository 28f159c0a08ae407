// Lockers, trusted: held is 0 (free), 1 (shared), 2 (exclusive); sections counts the critical sections entered
types utils/sync
ghost Locker.held: int
ghost Locker.sections: int
iface sync.Locker.Lock(l)
  requires[free @C23] h.Locker_held[l] == 0
  modifies Locker.held@l, Locker.sections@l
  ensures h.Locker_held[l] == 2 && h.Locker_sections[l] == h0.Locker_sections[l] + 1
iface sync.Locker.RLock(l)
  requires[free @C23] h.Locker_held[l] == 0
  modifies Locker.held@l, Locker.sections@l
  ensures h.Locker_held[l] == 1 && h.Locker_sections[l] == h0.Locker_sections[l] + 1
iface sync.Locker.Unlock(l)
  requires[held @C23] h.Locker_held[l] == 2
  modifies Locker.held@l
  ensures h.Locker_held[l] == 0
iface sync.Locker.RUnlock(l)
  requires[held @C23] h.Locker_held[l] == 1
  modifies Locker.held@l
  ensures h.Locker_held[l] == 0
