// the 8-byte encoding of an integer in a byte order, as encoding/binary does it
pub uninterp spec fn enc8(order: int, x: u64) -> Seq<u8>;
pub uninterp spec fn dec8(order: int, s: Seq<u8>) -> u64;
pub axiom fn ax_enc8(order: int, x: u64) ensures enc8(order, x).len() == 8, dec8(order, enc8(order, x)) == x;
// "g9hmj2fhgr"
pub open spec fn salted(v: Seq<u8>) -> Seq<u8> { seq![103u8, 57u8, 104u8, 109u8, 106u8, 50u8, 102u8, 104u8, 103u8, 114u8] + v }
// the filter's parameters are usable
pub open spec fn f_ok(h: Heap, f: int) -> bool {
    0 < f && f < h.top && b_ok(h, h.BloomFilter_b[f]) && h.BloomFilter_locker[f] != 0
    && 1 <= h.BloomFilter_m[f] && h.BloomFilter_m[f] <= h.Bitmap_size[h.BloomFilter_b[f]]
    && h.BloomFilter_k[f] < 0x8000_0000_0000_0000
}
#[verifier::inline]
pub open spec fn f_bits(h: Heap, f: int) -> Seq<u8> { b_bytes(h, h.BloomFilter_b[f]) }
// every bit of the value is set
pub open spec fn member(s: Seq<u8>, m: u64, k: u64, v: Seq<u8>) -> bool {
    forall|i: int| #![trigger gen_hashes(salted(v), k as int)[i]] 0 <= i && i < k ==> bit(s, (gen_hashes(salted(v), k as int)[i] % m) as int)
}
#[verifier::inline]
pub open spec fn f_has(h: Heap, f: int, v: Seq<u8>) -> bool { member(f_bits(h, f), h.BloomFilter_m[f], h.BloomFilter_k[f], v) }
// what Data exports
pub open spec fn exported(order: int, m: u64, k: u64, s: Seq<u8>) -> Seq<u8> { enc8(order, m) + enc8(order, k) + s }
pub uninterp spec fn f_ln(x: F) -> F;
pub uninterp spec fn f_ceil(x: F) -> F;
// nothing that concerns bitmaps changed
pub open spec fn quiet(h0: Heap, h: Heap) -> bool { h0.top <= h.top && b_others(h0, h, 0) && (w_ok(h0) ==> w_ok(h))
    && forall|b: int| #![trigger h.Bitmap_data[b]] b_ok(h, b) ==> b < h0.top }
// signs of floating-point results, for values that neither underflow nor overflow (trusted)
pub open spec fn f_pos(x: F) -> bool { f_lt(f_int(0), x) }
pub open spec fn f_neg(x: F) -> bool { f_lt(x, f_int(0)) }
pub axiom fn float_signs()
    ensures
        forall|x: F| #![trigger f_ln(x)] f_pos(x) && f_lt(x, f_int(1)) ==> f_neg(f_ln(x)),
        forall|n: int| #![trigger f_int(n)] (n > 0 ==> f_pos(f_int(n))) && (n < 0 ==> f_neg(f_int(n))),
        forall|n: int, d: int| #![trigger f_rat(n, d)] n > 0 && d > 0 ==> f_pos(f_rat(n, d)),
        forall|x: F, y: F| #![trigger f_mul(x, y)] (f_pos(x) && f_pos(y) || f_neg(x) && f_neg(y) ==> f_pos(f_mul(x, y))) && (f_pos(x) && f_neg(y) || f_neg(x) && f_pos(y) ==> f_neg(f_mul(x, y))),
        forall|x: F, y: F| #![trigger f_div(x, y)] f_pos(x) && f_pos(y) ==> f_pos(f_div(x, y)),
        forall|x: F| #![trigger f_ceil(x)] f_pos(x) ==> 1 <= f_trunc(f_ceil(x)) && f_trunc(f_ceil(x)) < 0x1_0000_0000_0000_0000;
