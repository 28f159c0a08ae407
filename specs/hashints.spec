// the contract of GenHashInts, proved in unit hash and used by its clients
types algorithm/hash
lib hash.rs
ghost Sha.data: Seq<u8>
ghost Buf.rest: Seq<u8>
func hash.GenHashInts(seed, n) r
  panics n < 0
  allocs
  modifies arr_u64@fresh, arr_u8@fresh, Sha.data@fresh, Buf.rest@fresh
  hint entry { gh_take(view(h.arr_u8, seed), 0, 0); }
  hint loop1.start { ax_sha(view(h0.arr_u8, seed)); gh_step(view(h0.arr_u8, seed), hashInts.len); }
  ghostvar before: Seq<u64> = Seq::<u64>::empty()
  ghost loop1.start before = view(h.arr_u64, hashInts)
  hint loop1.end { assert(view(h.arr_u64, hashInts) =~= before + words(sha(view(h0.arr_u8, seed)), 8)); }
  hint loop1.after { gh_take(view(h0.arr_u8, seed), if n < 0 { 0 } else { n }, hashInts.len); }
  loop1 inv data == seed && view(h.arr_u8, data) == view(h0.arr_u8, seed)
  loop1 inv slice_ok(hashInts, h.top) && (hashInts.cap == 0 || hashInts.a >= h0.top) && hashInts.len % 8 == 0
  loop1 inv view(h.arr_u64, hashInts) =~= gen_hashes(view(h0.arr_u8, seed), hashInts.len)
  loop1 dec if hashInts.len < n { n - hashInts.len } else { 0 }
  ensures[hashes] slice_ok(r, h.top) && r.len == n && view(h.arr_u64, r) =~= gen_hashes(view(h0.arr_u8, seed), n)
