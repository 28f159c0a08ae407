// the representation: size is a multiple of 8 and the data array has exactly size/8 bytes
pub open spec fn b_ok(h: Heap, b: int) -> bool {
    &&& 0 < b && b < h.top && dyn_of(b) == dyn_Bitmap()
    &&& slice_ok(h.Bitmap_data[b], h.top)
    &&& h.Bitmap_size[b] % 8 == 0
    &&& h.Bitmap_data[b].len == h.Bitmap_size[b] / 8
}
#[verifier::inline]
pub open spec fn b_bytes(h: Heap, b: int) -> Seq<u8> { view(h.arr_u8, h.Bitmap_data[b]) }
pub open spec fn byte_bit(x: u8, k: u8) -> bool { x & (1u8 << k) != 0 }
// the p-th bit of a byte sequence
pub open spec fn bit(s: Seq<u8>, p: int) -> bool { 0 <= p && p / 8 < s.len() && byte_bit(s[p / 8], (p % 8) as u8) }
pub open spec fn round8(n: u64) -> u64 { ((n + 7) / 8 * 8) as u64 }
// two bitmaps never share storage
pub open spec fn w_ok(h: Heap) -> bool {
    forall|c: int, d: int| #![trigger h.Bitmap_data[c], h.Bitmap_data[d]] b_ok(h, c) && b_ok(h, d) && c != d && h.Bitmap_data[c].cap > 0
        ==> h.Bitmap_data[c].a != h.Bitmap_data[d].a
}
pub open spec fn b_others(h0: Heap, h: Heap, c: int) -> bool {
    forall|d: int| #![trigger b_ok(h, d)] b_ok(h0, d) && d != c ==> b_ok(h, d) && h.Bitmap_size[d] == h0.Bitmap_size[d] && b_bytes(h, d) =~= b_bytes(h0, d)
}
proof fn shr3(p: u64) ensures p >> 3 == p / 8, p & 7 == p % 8 {
    assert(p >> 3 == p / 8) by (bit_vector);
    assert(p & 7 == p % 8) by (bit_vector);
}
proof fn shr3_all()
    ensures
        forall|p: u64| #![trigger p >> 3u64] p >> 3u64 == p / 8,
        forall|p: u64| #![trigger p & 7u64] p & 7u64 == p % 8,
        forall|p: u64| #![trigger p & !7u64] p & !7u64 == p - p % 8,
        forall|p: u64| #![trigger p << 3u64] p <= 0x1fff_ffff_ffff_ffff ==> p << 3u64 == p * 8,
{
    assert forall|p: u64| #![trigger p >> 3u64] p >> 3u64 == p / 8 by { shr3(p); }
    assert forall|p: u64| #![trigger p & 7u64] p & 7u64 == p % 8 by { shr3(p); }
    assert forall|p: u64| #![trigger p & !7u64] p & !7u64 == p - p % 8 by { assert(p & !7u64 == p - p % 8) by (bit_vector); }
    assert forall|p: u64| #![trigger p << 3u64] p <= 0x1fff_ffff_ffff_ffff implies p << 3u64 == p * 8 by { assert(p << 3u64 == p * 8) by (bit_vector) requires p <= 0x1fff_ffff_ffff_ffff; }
}
proof fn set_bits(x: u8, k: u8)
    requires k < 8
    ensures
        forall|j: u8| #![trigger byte_bit(x | (1u8 << k), j)] j < 8 ==> byte_bit(x | (1u8 << k), j) == (j == k || byte_bit(x, j)),
        forall|j: u8| #![trigger byte_bit(x & !(1u8 << k), j)] j < 8 ==> byte_bit(x & !(1u8 << k), j) == (j != k && byte_bit(x, j)),
        byte_bit(x, k) == (x & (1u8 << k) > 0),
{
    assert forall|j: u8| #![trigger byte_bit(x | (1u8 << k), j)] j < 8 implies byte_bit(x | (1u8 << k), j) == (j == k || byte_bit(x, j)) by {
        assert(((x | (1u8 << k)) & (1u8 << j) != 0) == (j == k || x & (1u8 << j) != 0)) by (bit_vector) requires j < 8, k < 8;
    }
    assert forall|j: u8| #![trigger byte_bit(x & !(1u8 << k), j)] j < 8 implies byte_bit(x & !(1u8 << k), j) == (j != k && byte_bit(x, j)) by {
        assert(((x & !(1u8 << k)) & (1u8 << j) != 0) == (j != k && x & (1u8 << j) != 0)) by (bit_vector) requires j < 8, k < 8;
    }
}
proof fn zero_bits() ensures forall|j: u8| #![trigger byte_bit(0u8, j)] !byte_bit(0u8, j) {
    assert forall|j: u8| #![trigger byte_bit(0u8, j)] !byte_bit(0u8, j) by {
        assert(0u8 & (1u8 << j) == 0) by (bit_vector);
    }
}
// setting or clearing the bit of one byte is setting or clearing one bit of the sequence
proof fn seq_bits(s: Seq<u8>, p: int)
    requires 0 <= p, p / 8 < s.len()
    ensures
        forall|x: u8, q: int| #![trigger bit(s.update(p / 8, x), q)] q / 8 != p / 8 ==> bit(s.update(p / 8, x), q) == bit(s, q),
        forall|q: int| #![trigger bit(s.update(p / 8, s[p / 8] | (1u8 << ((p % 8) as u8))), q)] bit(s.update(p / 8, s[p / 8] | (1u8 << ((p % 8) as u8))), q) == (q == p || bit(s, q)),
        forall|q: int| #![trigger bit(s.update(p / 8, s[p / 8] & !(1u8 << ((p % 8) as u8))), q)] bit(s.update(p / 8, s[p / 8] & !(1u8 << ((p % 8) as u8))), q) == (q != p && bit(s, q)),
        bit(s, p) == (s[p / 8] & (1u8 << ((p % 8) as u8)) > 0),
{
    set_bits(s[p / 8], (p % 8) as u8);
}
