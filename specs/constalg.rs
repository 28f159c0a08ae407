// only elements of the range handed to the algorithm may be examined
pub open spec fn it_rd(h: Heap, it: int) -> bool { h.It_cont[it] == h.Rng_cont && h.Rng_lo <= h.It_pos[it] && h.It_pos[it] < h.Rng_hi }
// the range handed to the algorithm
pub open spec fn rng_is(h: Heap, a: int, b: int) -> bool { rng_ok(h, a, b) && h.Rng_cont == h.It_cont[a] && h.Rng_lo == h.It_pos[a] && h.Rng_hi == h.It_pos[b] }
pub open spec fn it_pv(h: Heap, it: int) -> bool { h.It_pos[it] >= 1 }

// how many of s[lo..hi) compare equal to v / satisfy the predicate
pub open spec fn cnt_eq(f: int, s: Seq<Val>, v: Val, lo: int, hi: int) -> int
    decreases hi - lo
{
    if hi <= lo { 0 } else { cnt_eq(f, s, v, lo, hi - 1) + (if cmpv(f, s[hi - 1], v) == 0 { 1int } else { 0 }) }
}
pub open spec fn cnt_if(p: int, s: Seq<Val>, lo: int, hi: int) -> int
    decreases hi - lo
{
    if hi <= lo { 0 } else { cnt_if(p, s, lo, hi - 1) + (if predv(p, s[hi - 1]) { 1int } else { 0 }) }
}
pub open spec fn sw(s: Seq<Val>, i: int, j: int) -> Seq<Val> { s.update(i, s[j]).update(j, s[i]) }
// s with [lo, hi) mirrored
pub open spec fn mirror(s: Seq<Val>, lo: int, hi: int) -> Seq<Val> {
    Seq::new(s.len(), |i: int| if lo <= i && i < hi { s[lo + hi - 1 - i] } else { s[i] })
}
