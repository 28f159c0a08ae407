unit hash
tags C17 C18
pkg algorithm/hash
use hashints
broadcast pre::ax_val_slice
heap arr_u8 arr_u64
// standard library, trusted: SHA-512 as a function of the bytes written, and reading big-endian words
extern sha512.New() r
  allocs
  modifies Sha.data@fresh
  ensures r >= h0.top && r < h.top && h.Sha_data[r].len() == 0
extern io.Writer.Write(r, p) n, err
  modifies Sha.data@r
  ensures h.Sha_data[r] == h0.Sha_data[r] + view(h.arr_u8, p)
extern hash.Hash.Sum(r, b) s
  allocs
  modifies arr_u8@fresh
  ensures slice_ok(s, h.top) && s.a >= h0.top && s.len == b.len + 64 && view(h.arr_u8, s) == view(h0.arr_u8, b) + sha(h.Sha_data[r])
extern bytes.NewBuffer(b) r
  allocs
  modifies Buf.rest@fresh
  ensures r >= h0.top && r < h.top && h.Buf_rest[r] == view(h.arr_u8, b)
extern binary.Read(r, order, data) err
  modifies Buf.rest@r, arr_u64@unval_slice(data).a
  ensures h.arr_u64[unval_slice(data).a].len() == h0.arr_u64[unval_slice(data).a].len()
  ensures dyn_of(order) == dyn_binary_bigEndian() && h0.Buf_rest[r].len() >= 8 * unval_slice(data).len ==> view(h.arr_u64, unval_slice(data)) =~= words(h0.Buf_rest[r], unval_slice(data).len)
func hash.Hash512(data) r
  allocs
  modifies arr_u8@fresh, Sha.data@fresh
  ensures[sha] slice_ok(r, h.top) && r.a >= h0.top && r.len == 64 && view(h.arr_u8, r) =~= sha(view(h0.arr_u8, data))
