unit bitmap
tags C16
pkg ds/bitmap
lib bitmap.rs
func bitmap.New(size) r
  requires w_ok(h)
  hint entry { shr3_all(); }
  hint exit { zero_bits(); }
  ensures[size] b_ok(h, r) && r >= h0.top && (size <= 0x8000_0000_0000_0000 ==> h.Bitmap_size[r] == round8(size)) && h.Bitmap_data[r].a >= h0.top
  ensures[clear] forall|q: int| !bit(b_bytes(h, r), q)
  ensures[others] b_others(h0, h, 0) && w_ok(h)
func bitmap.NewFromData(data) r
  requires slice_ok(data, h.top) && data.len < 0x1000_0000_0000_0000
  ensures[size] b_ok(h, r) && r >= h0.top && h.Bitmap_size[r] == data.len * 8
  ensures[bits] b_bytes(h, r) =~= view(h0.arr_u8, data) && h.Bitmap_data[r] == data
  ensures[others] b_others(h0, h, 0)
  ensures[apart] w_ok(h0) && (forall|c: int| #![trigger h0.Bitmap_data[c]] b_ok(h0, c) ==> h0.Bitmap_data[c].a != data.a) ==> w_ok(h)
func bitmap.Bitmap.Set(b, pos) r
  requires b_ok(h, b) && w_ok(h)
  modifies arr_u8@h.Bitmap_data[b].a
  hint entry { shr3(pos); if pos < h.Bitmap_size[b] { seq_bits(b_bytes(h, b), pos as int); } }
  ensures[report] r == (pos < h0.Bitmap_size[b])
  ensures[bits] forall|q: int| #![trigger bit(b_bytes(h, b), q)] bit(b_bytes(h, b), q) == (bit(b_bytes(h0, b), q) || (r && q == pos))
  ensures[size] b_ok(h, b) && h.Bitmap_size[b] == h0.Bitmap_size[b] && h.Bitmap_data[b] == h0.Bitmap_data[b]
  ensures[others] b_others(h0, h, b) && w_ok(h)
func bitmap.Bitmap.Unset(b, pos) r
  requires b_ok(h, b) && w_ok(h)
  modifies arr_u8@h.Bitmap_data[b].a
  hint entry { shr3(pos); if pos < h.Bitmap_size[b] { seq_bits(b_bytes(h, b), pos as int); } }
  ensures[report] r == (pos < h0.Bitmap_size[b])
  ensures[bits] forall|q: int| #![trigger bit(b_bytes(h, b), q)] bit(b_bytes(h, b), q) == (bit(b_bytes(h0, b), q) && !(r && q == pos))
  ensures[size] b_ok(h, b) && h.Bitmap_size[b] == h0.Bitmap_size[b] && h.Bitmap_data[b] == h0.Bitmap_data[b]
  ensures[others] b_others(h0, h, b) && w_ok(h)
func bitmap.Bitmap.IsSet(b, pos) r
  requires b_ok(h, b)
  hint entry { shr3(pos); if pos < h.Bitmap_size[b] { seq_bits(b_bytes(h, b), pos as int); } }
  ensures r == bit(b_bytes(h, b), pos as int)
  ensures[range] pos >= h.Bitmap_size[b] ==> !r
func bitmap.Bitmap.Resize(b, size)
  requires b_ok(h, b) && w_ok(h) && size <= 0x8000_0000_0000_0000
  modifies Bitmap.data@b, Bitmap.size@b
  hint entry { shr3_all(); }
  hint exit { zero_bits(); }
  ensures[size] b_ok(h, b) && h.Bitmap_size[b] == round8(size)
  ensures[bits] forall|q: int| #![trigger bit(b_bytes(h, b), q)] bit(b_bytes(h, b), q) == (bit(b_bytes(h0, b), q) && q < h.Bitmap_size[b])
  ensures[others] b_others(h0, h, b) && w_ok(h)
func bitmap.Bitmap.Size(b) r
  ensures r == h.Bitmap_size[b]
func bitmap.Bitmap.Clear(b)
  requires b_ok(h, b) && w_ok(h)
  modifies Bitmap.data@b
  hint exit { zero_bits(); }
  ensures[clear] b_ok(h, b) && h.Bitmap_size[b] == h0.Bitmap_size[b] && forall|q: int| !bit(b_bytes(h, b), q)
  ensures[others] b_others(h0, h, b) && w_ok(h)
func bitmap.Bitmap.Data(b) r
  requires b_ok(h, b)
  ensures r == h.Bitmap_data[b]
