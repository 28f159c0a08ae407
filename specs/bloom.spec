unit bloom
tags C17
pkg ds/bloomfilter
use bitmap
use sync hashints
ghost bytes_Buffer.content: Seq<u8>
ghost bytes_Reader.rest: Seq<u8>
guard BloomFilter.b BloomFilter.locker
lib bitmap.rs bloom.rs
// encoding, trusted
extern bytes.NewReader(b) r
  allocs
  modifies bytes_Reader.rest@fresh
  ensures r >= h0.top && r < h.top && h.bytes_Reader_rest[r] == view(h0.arr_u8, b) && quiet(h0, h)
extern binary.Read(r, order, data) err
  modifies bytes_Reader.rest@r
  ensures h0.bytes_Reader_rest[r].len() >= 8 ==> unval_u64(data) == dec8(dyn_of(order), h0.bytes_Reader_rest[r].take(8)) && h.bytes_Reader_rest[r] == h0.bytes_Reader_rest[r].skip(8)
extern binary.Write(w, order, data) err
  modifies bytes_Buffer.content@w
  ensures h.bytes_Buffer_content[w] == h0.bytes_Buffer_content[w] + enc8(dyn_of(order), unval_u64(data))
extern bytes.Buffer.Write(b, p) n, err
  modifies bytes_Buffer.content@b
  ensures h.bytes_Buffer_content[b] == h0.bytes_Buffer_content[b] + view(h0.arr_u8, p)
extern bytes.Buffer.Bytes(b) r
  allocs
  modifies arr_u8@fresh
  ensures slice_ok(r, h.top) && r.a >= h0.top && view(h.arr_u8, r) == h.bytes_Buffer_content[b] && quiet(h0, h)
extern math.Log(x) r
  ensures r == f_ln(x)
extern math.Ceil(x) r
  ensures r == f_ceil(x)
functype bloom.Option(f, option)
  requires h.Options_locker[option] != 0
  allocs
  modifies Options.locker@option
  ensures h.Options_locker[option] != 0 && h0.top <= h.top && quiet(h0, h)
func bloom.WithGoroutineSafe() r
  tags C23
  ensures r != 0
  closure 1 (option) as bloom.Option ensures h.Options_locker[option] >= h0.top
func bloom.New(m, k, opts) r
  requires w_ok(h) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  loop1 inv h.Options_locker[opt] != 0 && quiet(h0, h)
  hint exit { assert(h.BloomFilter_locker[r] == h.Options_locker[opt]); assert(opt >= h0.top); }
  ensures[new] 1 <= m && m <= 0x8000_0000_0000_0000 && k < 0x8000_0000_0000_0000 ==> f_ok(h, r)
  ensures[made] w_ok(h) && r >= h0.top && h.BloomFilter_b[r] >= h0.top && h.BloomFilter_m[r] == m && h.BloomFilter_k[r] == k
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.BloomFilter_locker[r] == h.Options_locker[o]
  ensures[others] b_others(h0, h, 0)
func bloom.EstimateParameters(n, p) m, k
  hint entry { float_signs(); }
  requires n >= 1 && f_pos(p) && f_lt(p, f_int(1))
  ensures[usable] m >= 1 && k >= 1
func bloom.NewWithEstimates(n, fp, opts) r
  requires w_ok(h) && n >= 1 && f_pos(fp) && f_lt(fp, f_int(1)) && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  ensures[usable] h.BloomFilter_m[r] >= 1 && h.BloomFilter_k[r] >= 1 && (h.BloomFilter_m[r] <= 0x8000_0000_0000_0000 && h.BloomFilter_k[r] < 0x8000_0000_0000_0000 ==> f_ok(h, r))
  ensures[made] w_ok(h) && r >= h0.top && h.BloomFilter_b[r] >= h0.top
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.BloomFilter_locker[r] == h.Options_locker[o]
  ensures[others] b_others(h0, h, 0)
func bloom.NewFromData(data, opts) r
  requires w_ok(h) && slice_ok(data, h.top) && data.len < 0x1000_0000_0000_0000 && forall|q: int| #![trigger h.arr_int[opts.a][q]] opts.off <= q && q < opts.off + opts.len ==> h.arr_int[opts.a][q] != 0
  // the data is not the storage of a bitmap in use
  requires forall|b: int| #![trigger h.Bitmap_data[b]] b_ok(h, b) ==> h.Bitmap_data[b].a != data.a
  ghostvar s: Seq<u8> = view(h0.arr_u8, data)
  panics data.len < 16
  loop1 inv h.Options_locker[opt] != 0 && quiet(h0, h)
  hint exit { assert(h.BloomFilter_locker[r] == h.Options_locker[opt]); assert(opt >= h0.top); }
  hint post.import { let D = view(h0.arr_u8, data); let o = dyn_binary_littleEndian();
    assert forall|m: u64, k: u64, s: Seq<u8>| #![trigger exported(o, m, k, s)] D == exported(o, m, k, s) && 1 <= m && m <= s.len() * 8 && k < 0x8000_0000_0000_0000 implies f_ok(h, r) && h.BloomFilter_m[r] == m && h.BloomFilter_k[r] == k && f_bits(h, r) == s by {
      ax_enc8(o, m); ax_enc8(o, k); assert(D.take(8) =~= enc8(o, m)); assert(D.skip(8).take(8) =~= enc8(o, k)); assert(D.skip(16) =~= s); assert(D.len() == data.len); assert(f_bits(h, r) =~= D.skip(16)); } }
  // whatever Data exports of a usable filter gives back the same filter
  ensures[import] forall|m: u64, k: u64, s: Seq<u8>| #![trigger exported(dyn_binary_littleEndian(), m, k, s)] view(h0.arr_u8, data) == exported(dyn_binary_littleEndian(), m, k, s) && 1 <= m && m <= s.len() * 8 && k < 0x8000_0000_0000_0000
    ==> f_ok(h, r) && h.BloomFilter_m[r] == m && h.BloomFilter_k[r] == k && f_bits(h, r) == s
  ensures[new] r >= h0.top && h.BloomFilter_b[r] >= h0.top && w_ok(h) && b_others(h0, h, 0)
  ensures[options] exists|o: int| #![trigger h.Options_locker[o]] o >= h0.top && h.BloomFilter_locker[r] == h.Options_locker[o]
func bloom.BloomFilter.Data(f) r
  locks h.BloomFilter_locker[f]
  requires f_ok(h, f) && w_ok(h)
  ensures[export] view(h.arr_u8, r) == exported(dyn_binary_littleEndian(), h.BloomFilter_m[f], h.BloomFilter_k[f], f_bits(h, f)) && r.a >= h0.top
  ensures[same] f_bits(h, f) =~= f_bits(h0, f) && w_ok(h) && b_others(h0, h, 0)
func bloom.BloomFilter.Contains(f, val) r
  locks h.BloomFilter_locker[f]
  requires f_ok(h, f) && w_ok(h)
  loop1 inv 0 <= i <= h.BloomFilter_k[f] && f_bits(h, f) == f_bits(h0, f)
  loop1 inv view(h.arr_u64, hashs) == gen_hashes(salted(val), h.BloomFilter_k[f] as int)
  loop1 inv forall|j: int| #![trigger gen_hashes(salted(val), h.BloomFilter_k[f] as int)[j]] 0 <= j && j < i ==> bit(f_bits(h, f), (gen_hashes(salted(val), h.BloomFilter_k[f] as int)[j] % h.BloomFilter_m[f]) as int)
  loop1 dec h.BloomFilter_k[f] - i
  hint call:IsSet#1.after { assert(view(h.arr_u64, hashs)[i as int] == gen_hashes(salted(val), h.BloomFilter_k[f] as int)[i as int]); }
  ensures[member] r == f_has(h0, f, val)
  ensures[same] f_bits(h, f) =~= f_bits(h0, f) && w_ok(h)
func bloom.BloomFilter.Add(f, val)
  locks h.BloomFilter_locker[f]
  requires f_ok(h, f) && w_ok(h)
  modifies arr_u8@h.Bitmap_data[h.BloomFilter_b[f]].a
  loop1 inv 0 <= i <= h.BloomFilter_k[f] && w_ok(h) && f_ok(h, f)
  loop1 inv view(h.arr_u64, hashs) == gen_hashes(salted(val), h.BloomFilter_k[f] as int)
  loop1 inv forall|j: int| #![trigger gen_hashes(salted(val), h.BloomFilter_k[f] as int)[j]] 0 <= j && j < i ==> bit(f_bits(h, f), (gen_hashes(salted(val), h.BloomFilter_k[f] as int)[j] % h.BloomFilter_m[f]) as int)
  loop1 inv forall|q: int| #![trigger bit(f_bits(h, f), q)] bit(f_bits(h0, f), q) ==> bit(f_bits(h, f), q)
  loop1 dec h.BloomFilter_k[f] - i
  ensures[member] f_ok(h, f) && w_ok(h) && f_has(h, f, val)
  ensures[keep] forall|v: Seq<u8>| #![trigger f_has(h, f, v)] f_has(h0, f, v) ==> f_has(h, f, v)
  ensures[others] b_others(h0, h, h.BloomFilter_b[f])
