# the reader: bytes, text, containers
FILE reader.rs
PRELUDE
  /// typed read of a composite element: kind tells the header is of that kind, want is the outcome of reading that element
  pub open spec fn tread(a: Reader<'_>, b: Reader<'_>, ok: bool, kind: bool, want: R) -> bool {
      &&& moved(a, b)
      &&& ok <==> hd(a.s(), a.i()) is End && kind && want is End
      &&& ok ==> R::End(b.i()) == want
  }
  /// a mismatch leaves the reader where it is
  pub open spec fn tkeep(a: Reader<'_>, b: Reader<'_>, kind: bool) -> bool {
      !(hd(a.s(), a.i()) is End && kind) ==> still(a, b)
  }
  pub open spec fn tmiss(a: Reader<'_>, e: ReaderError, kind: bool, want: R) -> bool {
      (hd(a.s(), a.i()) is End ==> kind) ==> rerr(e, want)
  }
  pub proof fn lemma_bds_push(c: Seq<BytesData<'_>>, x: BytesData<'_>)
      ensures bds(c.push(x)) =~= bds(c).push(x.v()),
          chunks_body(2, bds(c.push(x))) == chunks_body(2, bds(c)) + chunk_enc(2, x.v()),
  {
      assert(bds(c.push(x)) =~= bds(c).push(x.v()));
      assert(bds(c).push(x.v()).drop_last() =~= bds(c));
  }
  pub proof fn lemma_tds_push(c: Seq<TextData<'_>>, x: TextData<'_>)
      ensures tds(c.push(x)) =~= tds(c).push(x.v()),
          chunks_body(3, tds(c.push(x))) == chunks_body(3, tds(c)) + chunk_enc(3, x.v()),
  {
      assert(tds(c.push(x)) =~= tds(c).push(x.v()));
      assert(tds(c).push(x.v()).drop_last() =~= tds(c));
  }
  /// a chunk with its header at i and its content at j
  pub proof fn lemma_took_chunk(s: Seq<u8>, i: int, m: int, d: Seq<u8>)
      requires 0 <= i, hd(s, i) is End, ai(s[i]) != 31, major(s[i]) == m, m <= 6,
          content(s, hd(s, i)->End_0, arg(s, i)) is End,
          d == s.subrange(hd(s, i)->End_0, hd(s, i)->End_0 + arg(s, i)),
      ensures ({ let c = Chunk { h: hv(s, i), d }; chunk_wf(c) && took(s, i, hd(s, i)->End_0 + arg(s, i), chunk_enc(m, c)) })
  {
      lemma_arg(s, i);
      lemma_at_hv(s, i);
      lemma_at(s, i, hv_enc(m, hv(s, i)), d);
  }
  pub proof fn lemma_took(s: Seq<u8>, i: int, j: int, k: int, a: Seq<u8>, b: Seq<u8>)
      requires took(s, i, j, a), took(s, j, k, b)
      ensures took(s, i, k, a + b)
  { lemma_at(s, i, a, b); }
  pub proof fn lemma_took_none(s: Seq<u8>, i: int)
      requires 0 <= i <= s.len()
      ensures took(s, i, i, Seq::empty())
  { assert(s.subrange(i, i) =~= Seq::<u8>::empty()); }
  pub proof fn lemma_took_byte(s: Seq<u8>, i: int)
      requires 0 <= i < s.len()
      ensures took(s, i, i + 1, seq![s[i]])
  { lemma_at_byte(s, i, s[i]); }
  pub proof fn lemma_took_sub(s: Seq<u8>, i: int, j: int)
      requires 0 <= i <= j <= s.len()
      ensures took(s, i, j, s.subrange(i, j))
  {}
  pub proof fn lemma_hd31(s: Seq<u8>, i: int)
      requires 0 <= i, hd(s, i) is End, ai(s[i]) == 31
      ensures took(s, i, i + 1, seq![lead(major(s[i]), 31)]), hd(s, i) == R::End(i + 1), extra(s[i]) == 0,
  { lemma_took_byte(s, i); }
FN Reader::bytes
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> strcause(r->Err_0, old(self).s(), old(self).i(), 2)
REQ
  old(self).inv()
ENS
  tread(*old(self), *final(self), r is Ok, hdr_at(old(self).s(), old(self).i()) is Bytes, item(old(self).s(), old(self).i()))
ENS [C05]
  r is Err ==> tkeep(*old(self), *final(self), hdr_at(old(self).s(), old(self).i()) is Bytes)
ENS [C06]
  r is Err ==> tmiss(*old(self), r->Err_0, hdr_at(old(self).s(), old(self).i()) is Bytes, item(old(self).s(), old(self).i()))
ENS [C01 C03 C13]
  r is Ok ==> bv_wf(r->Ok_0.v()) && took(old(self).s(), old(self).i(), final(self).i(), bv_enc(2, r->Ok_0.v()))
ENTRY
  let ghost s = self.s(); let ghost i0 = self.i(); let ghost j0 = hd(s, i0)->End_0;
  proof { if i0 < s.len() { lemma_arg(s, i0); lemma_hv(s, i0); } if hd(s, i0) is End && ai(s[i0]) == 31 { lemma_hd31(s, i0); lemma_took_none(s, j0); } }
LOOP 0
INV
  self.s() == s && self.inv() && s == old(self).s() && i0 == old(self).i()
INV
  0 <= i0 && hd(s, i0) is End && hdr_at(s, i0) is Bytes && ai(s[i0]) == 31 && j0 == i0 + 1 && hd(s, i0) == R::End(j0) && item(s, i0) == chunks(s, j0, 2)
INV
  forall|k: int| 0 <= k < out@.len() ==> chunk_wf(#[trigger] bds(out@)[k])
INVEB [C01 C03 C04 C05 C13]
  self.i() >= j0 && took(s, j0, self.i(), chunks_body(2, bds(out@)))
INVEB
  chunks(s, j0, 2) == chunks(s, self.i(), 2)
INVEB [C23]
  stop(s, j0, 2) == stop(s, self.i(), 2)
LENS [C01 C03 C04 C05 C13]
  took(s, i0, self.i(), bv_enc(2, BV::Chunks(bds(out@)))) && item(s, i0) == R::End(self.i())
LDEC
  s.len() - self.i()
LSTART
  let ghost i1 = self.i(); let ghost out0 = out@;
  proof { if i1 < s.len() { lemma_arg(s, i1); lemma_hv(s, i1); }
    if hd(s, i1) is End && s[i1] == 0xff {
      let b = chunks_body(2, bds(out@)); let l = seq![lead(2, 31)];
      lemma_took_byte(s, i1); lemma_took(s, j0, i1, i1 + 1, b, seq![0xffu8]); lemma_hd31(s, i0);
      lemma_took(s, i0, j0, i1 + 1, l, b + seq![0xffu8]); assert(l + b + seq![0xffu8] =~= l + (b + seq![0xffu8])); } }
AFTER push 0
  proof { lemma_took_chunk(s, i1, 2, data@); lemma_bds_push(out0, out@.last());
    assert(out@ =~= out0.push(out@.last()));
    lemma_took(s, j0, i1, self.i(), chunks_body(2, bds(out0)), chunk_enc(2, out@.last().v())); }
AFTER expect 1
  proof { lemma_took_chunk(s, i0, 2, data@); }
FN Reader::text_data
TAGS C13 C03 C04
ENS [C23]
  r is Err ==> ccause(r->Err_0, old(self).s(), old(self).i(), hv_val($p1), 3)
REQ
  old(self).inv()
ENTRY
  proof { broadcast use group_utf8_lib; }
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> tcontent(old(self).s(), old(self).i(), hv_val($p1)) is End
ENS
  r is Ok ==> R::End(final(self).i()) == content(old(self).s(), old(self).i(), hv_val($p1))
      && r->Ok_0.v() == (Chunk { h: $p1, d: old(self).s().subrange(old(self).i(), final(self).i()) })
ENS [C13]
  r is Ok ==> valid_utf8(r->Ok_0.v().d)
ENS [C06]
  r is Err ==> rerr(r->Err_0, content(old(self).s(), old(self).i(), hv_val($p1)))
FN Reader::text
TAGS C03 C05 C13 C04
ENS [C23]
  r is Err ==> strcause(r->Err_0, old(self).s(), old(self).i(), 3)
REQ
  old(self).inv()
ENS
  tread(*old(self), *final(self), r is Ok, hdr_at(old(self).s(), old(self).i()) is Text, ritem(old(self).s(), old(self).i()))
ENS [C05]
  r is Err ==> tkeep(*old(self), *final(self), hdr_at(old(self).s(), old(self).i()) is Text)
ENS [C06]
  r is Err ==> tmiss(*old(self), r->Err_0, hdr_at(old(self).s(), old(self).i()) is Text, ritem(old(self).s(), old(self).i()))
ENS [C01 C03 C13]
  r is Ok ==> bv_wf(r->Ok_0.v()) && bv_utf8(r->Ok_0.v()) && took(old(self).s(), old(self).i(), final(self).i(), bv_enc(3, r->Ok_0.v()))
ENTRY
  let ghost s = self.s(); let ghost i0 = self.i(); let ghost j0 = hd(s, i0)->End_0;
  proof { if i0 < s.len() { lemma_arg(s, i0); lemma_hv(s, i0); } if hd(s, i0) is End && ai(s[i0]) == 31 { lemma_hd31(s, i0); lemma_took_none(s, j0); } }
LOOP 0
INV
  self.s() == s && self.inv() && s == old(self).s() && i0 == old(self).i()
INV
  0 <= i0 && hd(s, i0) is End && hdr_at(s, i0) is Text && ai(s[i0]) == 31 && j0 == i0 + 1 && hd(s, i0) == R::End(j0) && ritem(s, i0) == tchunks(s, j0)
INV
  forall|k: int| 0 <= k < out@.len() ==> chunk_wf(#[trigger] tds(out@)[k]) && valid_utf8(tds(out@)[k].d)
INVEB [C01 C03 C04 C05 C13]
  self.i() >= j0 && took(s, j0, self.i(), chunks_body(3, tds(out@)))
INVEB
  tchunks(s, j0) == tchunks(s, self.i())
INVEB [C23]
  stop(s, j0, 3) == stop(s, self.i(), 3)
LENS [C01 C03 C04 C05 C13]
  took(s, i0, self.i(), bv_enc(3, BV::Chunks(tds(out@)))) && ritem(s, i0) == R::End(self.i())
LDEC
  s.len() - self.i()
LSTART
  let ghost i1 = self.i(); let ghost out0 = out@;
  proof { if i1 < s.len() { lemma_arg(s, i1); lemma_hv(s, i1); }
    if hd(s, i1) is End && s[i1] == 0xff {
      let b = chunks_body(3, tds(out@)); let l = seq![lead(3, 31)];
      lemma_took_byte(s, i1); lemma_took(s, j0, i1, i1 + 1, b, seq![0xffu8]); lemma_hd31(s, i0);
      lemma_took(s, i0, j0, i1 + 1, l, b + seq![0xffu8]); assert(l + b + seq![0xffu8] =~= l + (b + seq![0xffu8])); } }
AFTER text_data 0
  proof { lemma_took_chunk(s, i1, 3, textdata.v().d); lemma_tds_push(out0, textdata);
    lemma_took(s, j0, i1, self.i(), chunks_body(3, tds(out0)), chunk_enc(3, textdata.v())); }
AFTER text_data 1
  proof { lemma_took_chunk(s, i0, 3, textdata.v().d); }
PRELUDE
  pub proof fn lemma_sls_push(c: Seq<&CborSlice>, x: &CborSlice)
      ensures sls(c.push(x)) =~= sls(c).push(x.0@), cat(sls(c.push(x))) == cat(sls(c)) + x.0@,
  {
      assert(sls(c.push(x)) =~= sls(c).push(x.0@));
      assert(sls(c).push(x.0@).drop_last() =~= sls(c));
  }
  pub proof fn lemma_slps_push(c: Seq<(&CborSlice, &CborSlice)>, x: (&CborSlice, &CborSlice))
      ensures slps(c.push(x)) =~= slps(c).push((x.0.0@, x.1.0@)), catp(slps(c.push(x))) == catp(slps(c)) + x.0.0@ + x.1.0@,
  {
      assert(slps(c.push(x)) =~= slps(c).push((x.0.0@, x.1.0@)));
      assert(slps(c).push((x.0.0@, x.1.0@)).drop_last() =~= slps(c));
  }
  pub proof fn lemma_head_of(s: Seq<u8>, i: int)
      ensures !(hd(s, i) is End) ==> until_break(s, i) == hd(s, i) && pairs(s, i, false) == hd(s, i) && item(s, i) == hd(s, i),
  { assert(!(hd(s, i) is End) ==> item(s, i) == hd(s, i)); }
  pub proof fn lemma_one_took(s: Seq<u8>, i: int, j: int, d: Seq<u8>)
      requires 0 <= i, item(s, i) == R::End(j), d == s.subrange(i, j),
      ensures one(d), took(s, i, j, d), i < j <= s.len(),
  { lemma_one_sub(s, i); }
FN Reader::array
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> contcause(r->Err_0, old(self).s(), old(self).i(), Type::Array)
REQ
  old(self).inv()
ENS
  tread(*old(self), *final(self), r is Ok, hdr_at(old(self).s(), old(self).i()) is Array, item(old(self).s(), old(self).i()))
ENS [C05]
  r is Err ==> tkeep(*old(self), *final(self), hdr_at(old(self).s(), old(self).i()) is Array)
ENS [C06]
  r is Err ==> tmiss(*old(self), r->Err_0, hdr_at(old(self).s(), old(self).i()) is Array, item(old(self).s(), old(self).i()))
ENS [C01 C03]
  r is Ok ==> av_wf(r->Ok_0.v()) && took(old(self).s(), old(self).i(), final(self).i(), av_enc(r->Ok_0.v()))
ENTRY
  let ghost s = self.s(); let ghost i0 = self.i(); let ghost j0 = hd(s, i0)->End_0;
  proof { lemma_item_end(s, i0); if i0 < s.len() { lemma_arg(s, i0); lemma_hv(s, i0); } if hd(s, i0) is End { lemma_took_none(s, j0); if ai(s[i0]) == 31 { lemma_hd31(s, i0); } else if 4 <= 6 && major(s[i0]) == 4 { lemma_at_hv(s, i0); } } }
AFTER new 0
  proof { assert(cat(sls(elements@)) =~= Seq::<u8>::empty()); }
LOOP 0
INV
  self.s() == s && self.inv() && s == old(self).s() && i0 == old(self).i()
INV
  0 <= i0 && hd(s, i0) is End && hdr_at(s, i0) is Array && ai(s[i0]) == 31 && j0 == i0 + 1 && hd(s, i0) == R::End(j0)
INV
  item(s, i0) == until_break(s, self.i())
INV
  !(hd(s, self.i()) is End) ==> item(s, i0) == hd(s, self.i())
INV
  forall|k: int| 0 <= k < elements@.len() ==> one(#[trigger] sls(elements@)[k])
INV [C01 C03 C04 C05 C13]
  self.i() >= j0 && took(s, j0, self.i(), cat(sls(elements@)))
LPRE
  proof { lemma_head_of(s, self.i()); }
LEND
  proof { lemma_head_of(s, self.i()); }
LDEC
  s.len() - self.i()
LSTART
  let ghost i1 = self.i(); let ghost e0 = elements@;
  proof { lemma_item_end(s, i1); if i1 < s.len() { lemma_arg(s, i1); lemma_hv(s, i1); } }
AFTER cbor_slice_neutral 0
  proof { lemma_one_took(s, i1, self.i(), data.0@); lemma_sls_push(e0, data); lemma_took(s, j0, i1, self.i(), cat(sls(e0)), data.0@); }
AFTER advance 1
  proof { let i1 = self.i() - 1; let b = cat(sls(elements@)); let l = seq![lead(4, 31)]; let f = seq![0xffu8];
      lemma_took_byte(s, i1); lemma_took(s, j0, i1, i1 + 1, b, f); lemma_hd31(s, i0);
      lemma_took(s, i0, j0, i1 + 1, l, b + f); assert(l + b + f =~= l + (b + f)); }
LOOP 1
ITER it
INV
  self.s() == s && self.inv() && s == old(self).s() && i0 == old(self).i()
INV
  0 <= i0 && hd(s, i0) is End && hdr_at(s, i0) is Array && ai(s[i0]) != 31 && hd(s, i0) == R::End(j0) && sz as int == arg(s, i0)
INV
  elements@.len() == it.index@ && it.index@ <= sz
INV
  item(s, i0) == items(s, self.i(), sz - it.index@)
INV
  forall|k: int| 0 <= k < elements@.len() ==> one(#[trigger] sls(elements@)[k])
INV [C01 C03 C04 C05 C13]
  self.i() >= j0 && took(s, j0, self.i(), cat(sls(elements@)))
LSTART
  let ghost i1 = self.i(); let ghost e0 = elements@;
  proof { lemma_item_end(s, i1); if i1 < s.len() { lemma_arg(s, i1); } }
AFTER cbor_slice_neutral 1
  proof { lemma_one_took(s, i1, self.i(), data.0@); lemma_sls_push(e0, data); lemma_took(s, j0, i1, self.i(), cat(sls(e0)), data.0@); }
LAFTER
  proof { let b = cat(sls(elements@)); let l = hv_enc(4, hv(s, i0));
      lemma_took(s, i0, j0, self.i(), l, b); assert(l + b + Seq::<u8>::empty() =~= l + b); }
FN Reader::map
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> contcause(r->Err_0, old(self).s(), old(self).i(), Type::Map)
REQ
  old(self).inv()
ENS
  tread(*old(self), *final(self), r is Ok, hdr_at(old(self).s(), old(self).i()) is Map, item(old(self).s(), old(self).i()))
ENS [C05]
  r is Err ==> tkeep(*old(self), *final(self), hdr_at(old(self).s(), old(self).i()) is Map)
ENS [C06]
  r is Err ==> tmiss(*old(self), r->Err_0, hdr_at(old(self).s(), old(self).i()) is Map, item(old(self).s(), old(self).i()))
ENS [C01 C03]
  r is Ok ==> mv_wf(r->Ok_0.v()) && took(old(self).s(), old(self).i(), final(self).i(), mv_enc(r->Ok_0.v()))
ENTRY
  let ghost s = self.s(); let ghost i0 = self.i(); let ghost j0 = hd(s, i0)->End_0;
  proof { lemma_item_end(s, i0); if i0 < s.len() { lemma_arg(s, i0); lemma_hv(s, i0); } if hd(s, i0) is End { lemma_took_none(s, j0); if ai(s[i0]) == 31 { lemma_hd31(s, i0); } else if 5 <= 6 && major(s[i0]) == 5 { lemma_at_hv(s, i0); } } }
AFTER new 0
  proof { assert(catp(slps(elements@)) =~= Seq::<u8>::empty()); }
LOOP 0
INV
  self.s() == s && self.inv() && s == old(self).s() && i0 == old(self).i()
INV
  0 <= i0 && hd(s, i0) is End && hdr_at(s, i0) is Map && ai(s[i0]) == 31 && j0 == i0 + 1 && hd(s, i0) == R::End(j0)
INV
  item(s, i0) == pairs(s, self.i(), false)
INV
  !(hd(s, self.i()) is End) ==> item(s, i0) == hd(s, self.i())
INV
  forall|k: int| 0 <= k < elements@.len() ==> one((#[trigger] slps(elements@)[k]).0) && one(slps(elements@)[k].1)
INV [C01 C03 C04 C05 C13]
  self.i() >= j0 && took(s, j0, self.i(), catp(slps(elements@)))
LPRE
  proof { lemma_head_of(s, self.i()); }
LEND
  proof { lemma_head_of(s, self.i()); }
LDEC
  s.len() - self.i()
LSTART
  let ghost i1 = self.i(); let ghost e0 = elements@;
  proof { lemma_item_end(s, i1); if i1 < s.len() { lemma_arg(s, i1); lemma_hv(s, i1); } }
AFTER cbor_slice_neutral 0
  let ghost i2 = self.i();
  proof { lemma_one_took(s, i1, i2, key.0@); lemma_item_end(s, i2); assert(pairs(s, i1, false) == pairs(s, i2, true)); }
AFTER cbor_slice_neutral 1
  proof { lemma_one_took(s, i2, self.i(), value.0@); lemma_slps_push(e0, (key, value));
    lemma_took(s, j0, i1, i2, catp(slps(e0)), key.0@); lemma_took(s, j0, i2, self.i(), catp(slps(e0)) + key.0@, value.0@); }
AFTER advance 1
  proof { let i1 = self.i() - 1; let b = catp(slps(elements@)); let l = seq![lead(5, 31)]; let f = seq![0xffu8];
      lemma_took_byte(s, i1); lemma_took(s, j0, i1, i1 + 1, b, f); lemma_hd31(s, i0);
      lemma_took(s, i0, j0, i1 + 1, l, b + f); assert(l + b + f =~= l + (b + f)); }
LOOP 1
ITER it
INV
  self.s() == s && self.inv() && s == old(self).s() && i0 == old(self).i()
INV
  0 <= i0 && hd(s, i0) is End && hdr_at(s, i0) is Map && ai(s[i0]) != 31 && hd(s, i0) == R::End(j0) && sz as int == arg(s, i0)
INV
  elements@.len() == it.index@ && it.index@ <= sz
INV
  item(s, i0) == items(s, self.i(), 2 * sz - 2 * it.index@)
INV
  forall|k: int| 0 <= k < elements@.len() ==> one((#[trigger] slps(elements@)[k]).0) && one(slps(elements@)[k].1)
INV [C01 C03 C04 C05 C13]
  self.i() >= j0 && took(s, j0, self.i(), catp(slps(elements@)))
LSTART
  let ghost i1 = self.i(); let ghost e0 = elements@;
  proof { lemma_item_end(s, i1); if i1 < s.len() { lemma_arg(s, i1); } }
AFTER cbor_slice_neutral 2
  let ghost i2 = self.i();
  proof { lemma_one_took(s, i1, i2, key.0@); lemma_item_end(s, i2); assert(items(s, i1, 2 * sz - 2 * it.index@) == items(s, i2, 2 * sz - 2 * it.index@ - 1)); }
AFTER cbor_slice_neutral 3
  proof { lemma_one_took(s, i2, self.i(), value.0@); lemma_slps_push(e0, (key, value));
    lemma_took(s, j0, i1, i2, catp(slps(e0)), key.0@); lemma_took(s, j0, i2, self.i(), catp(slps(e0)) + key.0@, value.0@); }
LAFTER
  proof { let b = catp(slps(elements@)); let l = hv_enc(5, hv(s, i0));
      lemma_took(s, i0, j0, self.i(), l, b); assert(l + b + Seq::<u8>::empty() =~= l + b); }
FN Reader::tag
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> contcause(r->Err_0, old(self).s(), old(self).i(), Type::Tag)
REQ
  old(self).inv()
ENS
  tread(*old(self), *final(self), r is Ok, hdr_at(old(self).s(), old(self).i()) is Tag, item(old(self).s(), old(self).i()))
ENS [C05]
  r is Err ==> tkeep(*old(self), *final(self), hdr_at(old(self).s(), old(self).i()) is Tag)
ENS [C06]
  r is Err ==> tmiss(*old(self), r->Err_0, hdr_at(old(self).s(), old(self).i()) is Tag, item(old(self).s(), old(self).i()))
ENS [C01 C03]
  r is Ok ==> tv_wf(r->Ok_0.v()) && took(old(self).s(), old(self).i(), final(self).i(), tv_enc(r->Ok_0.v()))
ENTRY
  let ghost s = self.s(); let ghost i0 = self.i(); let ghost j0 = hd(s, i0)->End_0;
  proof { lemma_item_end(s, i0); if hd(s, i0) is End { lemma_arg(s, i0); lemma_hv(s, i0); if major(s[i0]) == 6 { lemma_at_hv(s, i0); } } }
AFTER cbor_slice_neutral 0
  proof { lemma_one_took(s, j0, self.i(), data.0@); lemma_took(s, i0, j0, self.i(), hv_enc(6, hv(s, i0)), data.0@); }
FN Reader::data
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> datacause(r->Err_0, old(self).s(), old(self).i())
REQ
  old(self).inv()
ENTRY
  let ghost s = self.s(); let ghost i0 = self.i();
  proof { lemma_ritem(s, i0); lemma_item_end(s, i0); if hd(s, i0) is End { lemma_dv_took(s, i0); } }
ENS
  moved(*old(self), *final(self))
ENS [C03]
  r is Ok <==> ritem(old(self).s(), old(self).i()) is End
ENS [C03]
  r is Ok ==> R::End(final(self).i()) == ritem(old(self).s(), old(self).i())
ENS [C01 C03]
  r is Ok ==> dv_wf(r->Ok_0.v()) && took(old(self).s(), old(self).i(), final(self).i(), dv_enc(r->Ok_0.v()))
ENS [C06]
  r is Err ==> rerr(r->Err_0, ritem(old(self).s(), old(self).i()))
CLOSURE 0
CRET (q: Data<'a>)
CENS
  q == Data::False
CLOSURE 1
CRET (q: Data<'a>)
CENS
  q == Data::True
CLOSURE 2
CRET (q: Data<'a>)
CENS
  q == Data::Null
CLOSURE 3
CRET (q: Data<'a>)
CENS
  q == Data::Undefined
PRELUDE
  /// the header of a one-header element is its encoding
  pub proof fn lemma_dv_took(s: Seq<u8>, i: int)
      requires 0 <= i, hd(s, i) is End
      ensures ({ let j = hd(s, i)->End_0; match hdr_at(s, i) {
          Header::Positive(p) => took(s, i, j, hv_enc(0, p.0)) && hv_wf(p.0),
          Header::Negative(p) => took(s, i, j, hv_enc(1, p.0)) && hv_wf(p.0),
          Header::Byte(b) => took(s, i, j, byte_enc(b.0)) && hv8_wf(b.0),
          Header::Float(f) => took(s, i, j, float_enc(f)),
          Header::Constant(c) => took(s, i, j, seq![const_byte(c)]),
          _ => true,
      } })
  {
      match hdr_at(s, i) {
          Header::Positive(_) | Header::Negative(_) => { lemma_at_hv(s, i); }
          Header::Byte(_) => { lemma_at_byte8(s, i); }
          Header::Float(_) => { lemma_at_float(s, i); }
          Header::Constant(_) => { lemma_took_byte(s, i); }
          _ => {}
      }
  }
