# Theorems over the contracts, second part: types that encode and decode
FILE @end
PRELUDE
  pub mod codecs_ {
  use vstd::prelude::*;
  use vstd::utf8::*;
  use crate::spec_::*;
  use crate::names_::*;
  use crate::lowlevel::header::*;
  use crate::reader::*;
  use crate::writer::*;
  use crate::types::*;
  use crate::prim::*;
  use crate::encode::*;
  use crate::decode::*;
  use crate::tagged::*;
  use crate::{encode_to_bytes, decode_from_bytes};
  use crate::types::float::*;
  use vstd::std_specs::bits::*;
  verus! {
  /// v can be written; wherever its encoding stands it is one item that decodes, to values equal to v, and decoding stops right after it
  pub open spec fn codec<T: Encode + Decode>(v: T, eq: spec_fn(T, T) -> bool) -> bool {
      &&& v.enc_ok()
      &&& forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) ==> item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && T::dec_ok(s, i) && T::dec_end(s, i) == i + v.enc().len() && forall|w: T| #[trigger] T::dec_rel(s, i, w) ==> eq(v, w)
  }
  proof fn lemma_whole_at(e: Seq<u8>)
      ensures at(e, 0, e)
  { assert(e.subrange(0, e.len() as int) =~= e); }
  // ================================================================ C10: native values
  proof fn lemma_int_at(s: Seq<u8>, i: int, v: u64)
      requires at(s, i, hv_enc(0, canon_hv(v)))
      ensures item(s, i) == R::End(i + hv_enc(0, canon_hv(v)).len()), 0 <= i, hd(s, i) == item(s, i), hdr_at(s, i) == Header::Positive(Positive(canon_hv(v))), hv_val(canon_hv(v)) == v,
  { lemma_canon(); lemma_hv_at(s, i, 0, canon_hv(v)); }
  proof fn c10_u8(v: u8)
      ensures codec(v, |a: u8, b: u8| a == b)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && u8::dec_ok(s, i) && u8::dec_end(s, i) == i + v.enc().len() && forall|w: u8| #[trigger] u8::dec_rel(s, i, w) ==> v == w by { lemma_int_at(s, i, v as u64); }
  }
  proof fn c10_u16(v: u16)
      ensures codec(v, |a: u16, b: u16| a == b)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && u16::dec_ok(s, i) && u16::dec_end(s, i) == i + v.enc().len() && forall|w: u16| #[trigger] u16::dec_rel(s, i, w) ==> v == w by { lemma_int_at(s, i, v as u64); }
  }
  proof fn c10_u32(v: u32)
      ensures codec(v, |a: u32, b: u32| a == b)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && u32::dec_ok(s, i) && u32::dec_end(s, i) == i + v.enc().len() && forall|w: u32| #[trigger] u32::dec_rel(s, i, w) ==> v == w by { lemma_int_at(s, i, v as u64); }
  }
  proof fn c10_u64(v: u64)
      ensures codec(v, |a: u64, b: u64| a == b)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && u64::dec_ok(s, i) && u64::dec_end(s, i) == i + v.enc().len() && forall|w: u64| #[trigger] u64::dec_rel(s, i, w) ==> v == w by { lemma_int_at(s, i, v); }
  }
  proof fn c10_bool(v: bool)
      ensures codec(v, |a: bool, b: bool| a == b)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && bool::dec_ok(s, i) && bool::dec_end(s, i) == i + v.enc().len() && forall|w: bool| #[trigger] bool::dec_rel(s, i, w) ==> v == w by { lemma_at_byte(s, i, if v { 0xf5u8 } else { 0xf4u8 }); }
  }
  proof fn lemma_str(s: Seq<u8>, i: int, m: int, d: Seq<u8>)
      requires at(s, i, str_enc(m, d)), d.len() <= u64::MAX, m == 2 || m == 3
      ensures item(s, i) == R::End(i + str_enc(m, d).len()), 0 <= i < s.len(), major(s[i]) == m, hd(s, i) is End, bv_bytes(str_at(m, s, i)) == d,
          m == 2 || valid_utf8(d) ==> ritem(s, i) == item(s, i),
  {
      let v = BV::Imm(Chunk { h: canon_hv(d.len() as u64), d });
      lemma_canon();
      assert(bv_wf(v) && bv_enc(m, v) == str_enc(m, d));
      lemma_bv_at(s, i, m, v);
      lemma_str_at(m, s, i);
  }
  proof fn c10_bytes(v: Vec<u8>)
      requires v@.len() <= u64::MAX
      ensures codec(v, |a: Vec<u8>, b: Vec<u8>| a@ == b@)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && <Vec<u8> as Decode>::dec_ok(s, i) && <Vec<u8> as Decode>::dec_end(s, i) == i + v.enc().len()
              && forall|w: Vec<u8>| #[trigger] <Vec<u8> as Decode>::dec_rel(s, i, w) ==> v@ == w@ by { lemma_str(s, i, 2, v@); }
  }
  proof fn c10_byte_array<const N: usize>(v: [u8; N])
      requires v@.len() == N
      ensures codec(v, |a: [u8; N], b: [u8; N]| a@ == b@)
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && <[u8; N] as Decode>::dec_ok(s, i) && <[u8; N] as Decode>::dec_end(s, i) == i + v.enc().len()
              && forall|w: [u8; N]| #[trigger] <[u8; N] as Decode>::dec_rel(s, i, w) ==> v@ == w@ by { lemma_str(s, i, 2, v@); }
  }
  proof fn c10_string(v: String)
      requires encode_utf8(v@).len() <= u64::MAX
      ensures codec(v, |a: String, b: String| a@ == b@)
  {
      encode_utf8_valid_utf8(v@);
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && <String as Decode>::dec_ok(s, i) && <String as Decode>::dec_end(s, i) == i + v.enc().len()
              && forall|w: String| #[trigger] <String as Decode>::dec_rel(s, i, w) ==> v@ == w@ by {
          lemma_str(s, i, 3, encode_utf8(v@));
          assert forall|w: String| #[trigger] <String as Decode>::dec_rel(s, i, w) implies v@ == w@ by { encode_utf8_decode_utf8(v@); encode_utf8_decode_utf8(w@); }
      }
  }
  /// generic elements and scalars too
  proof fn c10_data(v: DataOwned)
      requires dv_wf(v.v())
      ensures codec(v, |a: DataOwned, b: DataOwned| a.v() == b.v())
  {
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && DataOwned::dec_ok(s, i) && DataOwned::dec_end(s, i) == i + v.enc().len() && forall|w: DataOwned| #[trigger] DataOwned::dec_rel(s, i, w) ==> v.v() == w.v() by {
          lemma_dv_at(s, i, v.v());
          assert forall|w: DataOwned| #[trigger] DataOwned::dec_rel(s, i, w) implies v.v() == w.v() by { lemma_dv_inj(s, i, v.v(), w.v()); }
      }
  }
  /// preserved data: whatever was captured is written and captured again
  proof fn c15_preserved<T: Encode + Decode>(v: CborDataOf<T>)
      requires one(v.1@), dec_all::<T>(v.1@)
      ensures codec(v, |a: CborDataOf<T>, b: CborDataOf<T>| a.1@ == b.1@)
  {
      let e = v.1@;
      assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i
              && CborDataOf::<T>::dec_ok(s, i) && CborDataOf::<T>::dec_end(s, i) == i + v.enc().len() && forall|w: CborDataOf<T>| #[trigger] CborDataOf::<T>::dec_rel(s, i, w) ==> e == w.1@ by {
          lemma_at_agree(s, i, e);
          lemma_item_agree(e, 0, s, i, e.len() as int);
      }
  }
  // ================================================================ C21: whole buffers
  /// a value encoded to bytes decodes from those bytes as a whole, and from nothing longer
  fn c21_whole<T: Encode + Decode>(v: &T, more: u8, Ghost(eq): Ghost<spec_fn(T, T) -> bool>) -> (r: Option<T>)
      requires codec(*v, eq)
      ensures r is Some, eq(*v, r->Some_0)
  {
      let mut b = encode_to_bytes(v);
      let ghost e = b@;
      proof { lemma_whole_at(e); assert(e == v.enc()); }
      let x = decode_from_bytes::<T>(b.as_slice());
      b.push(more);
      proof { assert(b@.subrange(0, e.len() as int) =~= e); assert(at(b@, 0, e)); }
      let y = decode_from_bytes::<T>(b.as_slice());
      assert(y is Err);
      match x { Ok(w) => Some(w), Err(_) => None }
  }
  // ================================================================ C22: sequences
  proof fn lemma_encs_one<T: Encode + Decode>(v: Seq<T>, eq: spec_fn(T, T) -> bool)
      requires forall|k: int| 0 <= k < v.len() ==> codec(#[trigger] v[k], eq), v.len() <= u64::MAX
      ensures av_wf(AV { len: StructureLength::Definite(canon_hv(v.len() as u64)), elems: encs(v) }), encs_ok(v),
          av_enc(AV { len: StructureLength::Definite(canon_hv(v.len() as u64)), elems: encs(v) }) == vec_enc(v),
          elems_ok::<T>(encs(v)),
  {
      lemma_canon();
      let a = AV { len: StructureLength::Definite(canon_hv(v.len() as u64)), elems: encs(v) };
      assert forall|k: int| 0 <= k < v.len() implies one(#[trigger] encs(v)[k]) by { assert(codec(v[k], eq)); lemma_whole_at(v[k].enc()); }
      assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).enc_ok() by { assert(codec(v[k], eq)); }
      assert forall|k: int| 0 <= k < encs(v).len() implies T::dec_ok(#[trigger] encs(v)[k], 0) by { assert(codec(v[k], eq)); lemma_whole_at(v[k].enc()); }
      assert(av_enc(a) =~= vec_enc(v));
  }
  /// a sequence written is read back as that sequence, count and order kept, whatever follows
  fn c22_sequence<T: Encode + Decode>(v: &Vec<T>, before: Vec<u8>, after: &[u8], Ghost(eq): Ghost<spec_fn(T, T) -> bool>) -> (r: Option<Vec<T>>)
      requires forall|k: int| 0 <= k < v@.len() ==> codec(#[trigger] v@[k], eq)
      ensures r is Some, r->Some_0@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> eq(#[trigger] v@[k], r->Some_0@[k]),
  {
      let ghost pre = before@;
      let start = before.len();
      let n = v.len();
      proof { lemma_encs_one(v@, eq); }
      let mut w = Writer::new_from_vec(before);
      encode_vec(v.as_slice(), &mut w);
      let ghost e = vec_enc(v@);
      let mut buf = w.finalize();
      buf.extend_from_slice(after);
      assert(buf@ =~= pre + e + after@);
      let d = vstd::slice::slice_subrange(buf.as_slice(), start, buf.len());
      assert(d@ =~= e + after@);
      assert(d@.subrange(0, e.len() as int) =~= e);
      let ghost a = AV { len: StructureLength::Definite(canon_hv(v@.len() as u64)), elems: encs(v@) };
      proof { lemma_av_at(d@, 0, a); lemma_arr_at(d@, 0); lemma_arg(d@, 0); assert(arr_at(d@, 0) == a); }
      let mut r = Reader::new(d);
      match decode_vec::<T>(&mut r) {
          Ok(o) => {
              assert(r.i() == e.len());
              assert forall|k: int| 0 <= k < v@.len() implies eq(#[trigger] v@[k], o@[k]) by { assert(codec(v@[k], eq)); lemma_whole_at(v@[k].enc()); assert(T::dec_rel(encs(v@)[k], 0, o@[k])); }
              Some(o)
          }
          Err(_) => None,
      }
  }
  // ================================================================ C15: preserved data
  /// what is captured decodes later without failing, and writes back the very bytes that were read
  fn c15_capture<T: Encode + Decode>(r: &mut Reader<'_>, w: &mut Writer) -> (q: Option<T>)
      requires old(r).inv()
      ensures q is Some ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i())
              && R::End(final(r).i()) == item(old(r).s(), old(r).i())
              && T::dec_rel(old(r).s().subrange(old(r).i(), final(r).i()), 0, q->Some_0),
          q is None ==> !(item(old(r).s(), old(r).i()) is End && dec_all::<T>(old(r).s().subrange(old(r).i(), eoi(item(old(r).s(), old(r).i()))))),
  {
      match r.exact_decodable_data::<T>() {
          Ok(d) => { d.encode(w); let c = d.clone(); let x = c.unserialize(); Some(x) }
          Err(_) => None,
      }
  }
  /// a value turned into preserved data is retrieved equal
  fn c15_from<T: Encode + Decode>(v: &T, Ghost(eq): Ghost<spec_fn(T, T) -> bool>) -> (q: T)
      requires codec(*v, eq)
      ensures eq(*v, q)
  {
      let d = CborDataOf::<T>::from(v);
      proof { lemma_whole_at(d.1@); assert(d.1@ == v.enc()); }
      d.unserialize()
  }
  // ================================================================ C17: tagged types
  fn c17_datetime<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (q: bool)
      requires old(r).inv()
      ensures q ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
          q ==> R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  { match StandardDateTime::read(r) { Ok(v) => { v.write(w); true } Err(_) => false } }
  fn c17_positive<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (q: bool)
      requires old(r).inv()
      ensures q ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
          q ==> R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  { match PositiveBignum::read(r) { Ok(v) => { v.write(w); true } Err(_) => false } }
  fn c17_negative<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (q: bool)
      requires old(r).inv()
      ensures q ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
          q ==> R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  { match NegativeBignum::read(r) { Ok(v) => { v.write(w); true } Err(_) => false } }
  fn c17_encoded<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (q: bool)
      requires old(r).inv()
      ensures q ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
          q ==> R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  { match EncodedCBOR::read(r) { Ok(v) => { v.write(w); true } Err(_) => false } }
  fn c17_rational<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (q: bool)
      requires old(r).inv()
      ensures q ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
          q ==> R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  { match RationalNumber::read(r) { Ok(v) => { v.write(w); true } Err(_) => false } }
  /// embedded CBOR made of bytes, written and read, gives those bytes
  fn c17_embed(d: &Vec<u8>) -> (q: Option<Vec<u8>>)
      ensures q is Some, q->Some_0@ == d@
  {
      let x = EncodedCBOR::from_bytes(d.as_slice());
      let mut w = Writer::new();
      x.write(&mut w);
      let b = w.finalize();
      assert(b@ =~= x.tenc());
      let ghost body = bv_enc(2, x.1.v());
      proof {
          lemma_whole_at(body); lemma_bv_at(body, 0, 2, x.1.v()); lemma_arg(body, 0);
          lemma_whole_at(b@);
          let t = TV { tag: x.0.0, data: body };
          assert(tv_wf(t)); assert(at(b@, 0, tv_enc(t)));
          lemma_tv_at(b@, 0, t); lemma_tag_at(b@, 0); lemma_arg(b@, 0);
      }
      let mut r = Reader::new(b.as_slice());
      match EncodedCBOR::read(&mut r) {
          Ok(y) => {
              proof {
                  let ty = TV { tag: y.0.0, data: bv_enc(2, y.1.v()) };
                  lemma_whole_at(ty.data); lemma_bv_at(ty.data, 0, 2, y.1.v());
                  assert(at(b@, 0, tv_enc(ty)) && tv_wf(ty));
                  lemma_tv_inj(b@, 0, TV { tag: x.0.0, data: body }, ty);
                  lemma_bv_inj(body, 0, 2, x.1.v(), y.1.v());
              }
              Some(y.to_bytes())
          }
          Err(_) => None,
      }
  }
  // ================================================================ C09: canonical means shortest
  /// the check on an integer read from the wire answers true exactly when no shorter encoding denotes the same number
  fn c09_check<'a>(r: &mut Reader<'a>) -> (q: Option<bool>)
      requires old(r).inv()
      ensures q is Some ==> (q->Some_0 <==> !(exists|t: Seq<u8>| t.len() < final(r).i() - old(r).i() && #[trigger] hd(t, 0) == R::End(t.len() as int)
              && same_int(hdr_at(t, 0), hdr_at(old(r).s(), old(r).i()))))
  {
      let ghost s = r.s(); let ghost i = r.i();
      match r.scalar() {
          Ok(x) => {
              proof { lemma_hv(s, i); lemma_arg(s, i); lemma_at_hv(s, i); }
              let ghost m: int = match x { Scalar::Positive(_) => 0, Scalar::Negative(_) => 1 };
              assert(hv(s, i) == sc_hv(x) && major(s[i]) == m);
              let q = x.is_canonical();
              proof {
                  lemma_canon();
                  let h = sc_hv(x);
                  let c = canon_hv(hv_val(h) as u64);
                  if !q {
                      let t = hv_enc(m, c);
                      lemma_whole_at(t);
                      lemma_hv_at(t, 0, m, c);
                      assert(hd(t, 0) == R::End(t.len() as int));
                      if hv_len(c) >= hv_len(h) {
                          assert forall|o: HeaderValue| #![trigger hv_len(o)] hv_wf(o) && hv_val(o) == hv_val(h) implies hv_len(h) <= hv_len(o) by { assert(hv_len(c) <= hv_len(o)); }
                          assert(shortest(h));
                      }
                  } else {
                      assert forall|t: Seq<u8>| t.len() < r.i() - i && #[trigger] hd(t, 0) == R::End(t.len() as int) implies !same_int(hdr_at(t, 0), hdr_at(s, i)) by {
                          lemma_hv(t, 0); lemma_arg(t, 0);
                          if major(t[0]) == m { if ai(t[0]) != 31 { lemma_at_hv(t, 0); assert(hv_len(hv(t, 0)) == t.len()); } }
                      }
                  }
              }
              Some(q)
          }
          Err(_) => None,
      }
  }
  /// the same integer, in any width
  pub open spec fn same_int(a: Header, b: Header) -> bool {
      match (a, b) {
          (Header::Positive(x), Header::Positive(y)) => hv_val(x.0) == hv_val(y.0),
          (Header::Negative(x), Header::Negative(y)) => hv_val(x.0) == hv_val(y.0),
          _ => false,
      }
  }
  // ================================================================ C08: nested builders
  /// what the callbacks write stands between the headers and the break
  fn c08_nested(w: &mut Writer, v: u64)
      ensures final(w).data@ =~= old(w).data@ + seq![0x9fu8] + (hv_enc(6, canon_hv(v)) + (seq![0xa1u8] + (seq![0xf5u8] + seq![0xf6u8]))) + seq![0xffu8]
  {
      proof { lemma_canon(); }
      w.array_build(StructureLength::Indefinite, |w: &mut Writer|
          ensures final(w).data@ =~= old(w).data@ + (hv_enc(6, canon_hv(v)) + (seq![0xa1u8] + (seq![0xf5u8] + seq![0xf6u8])))
          {
              w.tag_build(TagValue::from_u64(v), |w: &mut Writer|
                  ensures final(w).data@ =~= old(w).data@ + (seq![0xa1u8] + (seq![0xf5u8] + seq![0xf6u8]))
                  {
                      w.map_build(StructureLength::from(1u64), |w: &mut Writer|
                          ensures final(w).data@ =~= old(w).data@ + (seq![0xf5u8] + seq![0xf6u8])
                          { w.bool(true); w.constant(Constant::Null); });
                      assert(hv_enc(5, canon_hv(1)) =~= seq![0xa1u8]);
                  });
          });
      assert(sl_enc(4, StructureLength::Indefinite) =~= seq![0x9fu8]);
  }
  // ================================================================ C14: array builder
  /// an array built from slices holds exactly them, in order, whether counted or not
  fn c14_builder(parts: &Vec<CborData>) -> (r: (ArrayOwned, ArrayOwned))
      ensures r.0.v().elems =~= cds(parts@), r.1.v().elems =~= cds(parts@), r.1.v().len is Indefinite,
          r.0.v().len == StructureLength::Definite(canon_hv(parts@.len() as u64)),
  {
      let mut b = ArrayBuilder::new();
      let mut c = ArrayBuilder::new();
      let mut k: usize = 0;
      let n = parts.len();
      while k < n
          invariant n == parts@.len(), k <= n, cds(b.elements@) =~= cds(parts@.take(k as int)), cds(c.elements@) =~= cds(parts@.take(k as int)),
          decreases n - k
      {
          b.append(CborData(parts[k].0.clone()));
          c.append(CborData(parts[k].0.clone()));
          k = k + 1;
      }
      assert(parts@.take(k as int) =~= parts@);
      proof { lemma_canon(); }
      (b.finite(), c.indefinite())
  }
  // ================================================================ C13: contents
  /// the content of a bytes element read is what its chunks carry, and its length is the reported one
  fn c13_bytes<'a>(r: &mut Reader<'a>) -> (q: Option<(Vec<u8>, usize)>)
      requires old(r).inv()
      ensures q is Some ==> q->Some_0.0@ == bv_bytes(str_at(2, old(r).s(), old(r).i())) && q->Some_0.0@.len() == q->Some_0.1,
  {
      proof { lemma_str_at(2, r.s(), r.i()); lemma_bytes_len(2); }
      assert(r.reader.data.len() == r.reader.data@.len());
      match r.bytes() { Ok(b) => { let n = b.len(); Some((b.to_vec(), n)) } Err(_) => None }
  }
  // ================================================================ C11: integer views
  /// the views of an integer read, against the number n the argument bytes on the wire spell, big-endian
  fn c11_views<'a>(r: &mut Reader<'a>) -> (q: Option<(bool, bool, u64, Option<i64>)>)
      requires old(r).inv()
      ensures
          q is Some <==> hd(old(r).s(), old(r).i()) is End && major(old(r).s()[old(r).i()]) <= 1,
          q is Some ==> ({
              let s = old(r).s(); let i = old(r).i(); let m = major(s[i]);
              let n = if ai(s[i]) < 24 { ai(s[i]) as int } else { be(s, i + 1, extra(s[i])) };
              let v = if m == 0 { n } else { -1 - n };
              let o = q->Some_0;
              &&& (o.0 <==> m == 0) && (o.1 <==> m == 1) && o.2 == n
              &&& (o.3 is Some <==> i64::MIN <= v <= i64::MAX) && (o.3 is Some ==> o.3->Some_0 == v)
          }),
  {
      let ghost s = r.s(); let ghost i = r.i();
      proof { lemma_p256(); lemma_be(s, i + 1, extra(s[i])); lemma_hv(s, i); lemma_arg(s, i); }
      match r.scalar() {
          Ok(x) => {
              let u = match x { Scalar::Positive(p) => p.to_u64(), Scalar::Negative(n) => n.negative_u64() };
              Some((x.is_positive(), x.is_negative(), u, x.to_i64()))
          }
          Err(_) => None,
      }
  }
  // ================================================================ C12: floats
  /// a float read converts to the number the bits on the wire denote, and is written back as it was
  fn c12_float<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (q: Option<(f32, f64)>)
      requires old(r).inv()
      ensures
          q is Some <==> hd(old(r).s(), old(r).i()) is End && major(old(r).s()[old(r).i()]) == 7 && 25 <= ai(old(r).s()[old(r).i()]) <= 27,
          q is Some ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
          q is Some ==> ({
              let s = old(r).s(); let i = old(r).i(); let a = ai(s[i]); let b = be(s, i + 1, extra(s[i]));
              let single = q->Some_0.0.to_bits_spec(); let double = q->Some_0.1.to_bits_spec();
              &&& a == 25 ==> half_is(b as u16, single) && exists|x: f32| half_is(b as u16, x.to_bits_spec()) && wide_is(x.to_bits_spec(), double)
              &&& a == 26 ==> single == b && wide_is(b as u32, double)
              &&& a == 27 ==> double == b
          }),
  {
      let ghost s = r.s(); let ghost i = r.i();
      proof { lemma_p256(); lemma_be(s, i + 1, extra(s[i])); lemma_hv(s, i); lemma_arg(s, i); }
      match r.float() {
          Ok(x) => {
              proof { lemma_at_float(s, i); let e = extra(s[i]); let b = be(s, i + 1, e); assert(e == 2 || e == 4 || e == 8); assert(b < p256(e)); }
              w.float(x);
              Some((x.to_f32(), x.to_f64()))
          }
          Err(_) => None,
      }
  }
  // ================================================================ C24: places
  /// an error is made and passed outwards: its entries are what it met, in order; its path reads from the outside in
  fn c24_chain<T, U>(k: DecodeErrorKind, a: String, b: &'static str) -> (r: (DecodeError, String))
      requires name_of::<T>().len() > 0, name_of::<U>().len() > 0, a@.len() > 0, b@.len() > 0,
      ensures r.0.error == k, r.1@ == name_of::<U>() + "->"@ + b@ + "->"@ + a@ + "->"@ + name_of::<T>(),
  {
      let e = k.context::<T>().push_string(a).push_str(b).push::<U>();
      let p = e.context_as_path();
      let c = e.context();
      proof {
          let n = places(e);
          assert(c@.len() == 4);
          assert(n =~= seq![name_of::<T>(), a@, b@, name_of::<U>()]);
          reveal_with_fuel(place_path, 5);
          assert(n.skip(1).skip(1).skip(1).skip(1) =~= Seq::empty());
          assert(n.skip(1)[0] == n[1] && n.skip(1).skip(1)[0] == n[2] && n.skip(1).skip(1).skip(1)[0] == n[3]);
      }
      (e, p)
  }
  pub open spec fn named_all(c: Seq<Seq<char>>) -> bool { forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).len() > 0 }
  pub open spec fn vec_place<T: Decode>(p: Seq<char>, own: Seq<Seq<char>>, k: usize) -> bool {
      T::dec_ctx(own) && (named_all(own) && shown(&k).len() > 0 ==> p == place_path(own.push(shown(&k)).push("Vec"@)))
  }
  /// a vector of which an element does not decode: the path leads to the vector, the index of the first such element, and on to
  /// where it failed in the element; an input that is no array: to the vector
  fn c24_vector<T: Decode>(d: &[u8]) -> (r: Option<String>)
      ensures
          r is Some && hd(d@, 0) is End && hdr_at(d@, 0) is Array && item(d@, 0) is End ==> exists|own: Seq<Seq<char>>, k: usize| #[trigger] vec_place::<T>(r->Some_0@, own, k)
              && elems_ok::<T>(arr_at(d@, 0).elems.take(k as int)) && !T::dec_ok(arr_at(d@, 0).elems[k as int], 0),
          r is Some && !(hd(d@, 0) is End && hdr_at(d@, 0) is Array && item(d@, 0) is End) ==> r->Some_0@ == "Vec"@,
  {
      let mut r = Reader::new(d);
      match decode_vec::<T>(&mut r) {
          Ok(_) => None,
          Err(e) => {
              let p = e.context_as_path();
              proof {
                  reveal_strlit("Vec");
                  let c = places(e);
                  if hd(d@, 0) is End && hdr_at(d@, 0) is Array && item(d@, 0) is End {
                      let k = choose|k: int| #[trigger] elem_ctx::<T>(c, k) && 0 <= k < arr_at(d@, 0).elems.len() <= usize::MAX && !T::dec_ok(arr_at(d@, 0).elems[k], 0) && elems_ok::<T>(arr_at(d@, 0).elems.take(k));
                      assert(elem_ctx::<T>(c, k) && 0 <= k < arr_at(d@, 0).elems.len() && !T::dec_ok(arr_at(d@, 0).elems[k], 0));
                      let own = choose|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(shown(&(k as usize))).push("Vec"@);
                      assert(named_all(own) && shown(&(k as usize)).len() > 0 ==> named_all(c)) by {
                          if named_all(own) && shown(&(k as usize)).len() > 0 {
                              assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]).len() > 0 by {
                                  if j < own.len() { assert(c[j] == own[j]); } else if j == own.len() { assert(c[j] == shown(&(k as usize))); } else { assert(c[j] == "Vec"@); }
                              }
                          }
                      }
                      assert(vec_place::<T>(p@, own, k as usize));
                      assert(k as usize as int == k);
                      let kk = k as usize;
                      assert(vec_place::<T>(p@, own, kk) && elems_ok::<T>(arr_at(d@, 0).elems.take(kk as int)) && !T::dec_ok(arr_at(d@, 0).elems[kk as int], 0));
                  } else { reveal_with_fuel(place_path, 2); assert(c.skip(1) =~= Seq::empty()); }
              }
              proof { if hd(d@, 0) is End && hdr_at(d@, 0) is Array && item(d@, 0) is End { assert(exists|own: Seq<Seq<char>>, k: usize| #[trigger] vec_place::<T>(p@, own, k)
              && elems_ok::<T>(arr_at(d@, 0).elems.take(k as int)) && !T::dec_ok(arr_at(d@, 0).elems[k as int], 0)); } }
              let q = Some(p);
              proof { assert(q->Some_0@ == p@); }
              q
          }
      }
  }
  }
  }
