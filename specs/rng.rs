// only elements of the range handed to the algorithm may be examined
pub open spec fn it_rd(h: Heap, it: int) -> bool { h.It_cont[it] == h.Rng_cont && h.Rng_lo <= h.It_pos[it] && h.It_pos[it] < h.Rng_hi }
// the range handed to the algorithm
pub open spec fn rng_is(h: Heap, a: int, b: int) -> bool { rng_ok(h, a, b) && h.Rng_cont == h.It_cont[a] && h.Rng_lo == h.It_pos[a] && h.Rng_hi == h.It_pos[b] }
pub open spec fn it_pv(h: Heap, it: int) -> bool { true }
