  pub mod derthm_ {
  use vstd::prelude::*;
  use crate::spec_::*;
  use crate::names_::*;
  use crate::lowlevel::header::*;
  use crate::reader::*;
  use crate::types::*;
  use crate::encode::*;
  use crate::decode::*;
  use crate::derived::*;
  use crate::codecs_::codec;
  verus! {
  proof fn lemma_whole_at(e: Seq<u8>)
      ensures at(e, 0, e)
  { assert(e.subrange(0, e.len() as int) =~= e); }
  /// like codec, for what is not one element but several in a row
  pub open spec fn codec_flat<T: Encode + Decode>(v: T, eq: spec_fn(T, T) -> bool) -> bool {
      &&& v.enc_ok()
      &&& forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) ==> T::dec_ok(s, i) && T::dec_end(s, i) == i + v.enc().len() && forall|w: T| #[trigger] T::dec_rel(s, i, w) ==> eq(v, w)
  }
  pub open spec fn eq_opt<T>(e: spec_fn(T, T) -> bool, a: Option<T>, b: Option<T>) -> bool {
      match (a, b) { (Some(x), Some(y)) => e(x, y), (None, None) => true, _ => false }
  }
  pub open spec fn eq_vec<T>(e: spec_fn(T, T) -> bool, a: Seq<T>, b: Seq<T>) -> bool {
      a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> e(#[trigger] a[k], b[k])
  }
  proof fn lemma_codec<T: Encode + Decode>(v: T, eq: spec_fn(T, T) -> bool)
      requires codec(v, eq)
      ensures one(v.enc()), v.enc_ok(), crate::dec_all::<T>(v.enc()), forall|w: T| #[trigger] T::dec_rel(v.enc(), 0, w) ==> eq(v, w),
  { lemma_whole_at(v.enc()); }
  proof fn lemma_vec<T: Encode + Decode>(v: Seq<T>, eq: spec_fn(T, T) -> bool)
      requires forall|k: int| 0 <= k < v.len() ==> codec(#[trigger] v[k], eq), v.len() <= u64::MAX
      ensures one(vec_enc(v)), encs_ok(v), vec_all::<T>(vec_enc(v)), forall|w: Seq<T>| #[trigger] elems_rel(el(vec_enc(v), 0), w) ==> eq_vec(eq, v, w),
  {
      assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).enc_ok() by { lemma_codec(v[k], eq); }
      assert forall|k: int| 0 <= k < encs(v).len() implies one(#[trigger] encs(v)[k]) && T::dec_ok(encs(v)[k], 0) by { lemma_codec(v[k], eq); }
      lemma_whole_at(vec_enc(v));
      lemma_arr(vec_enc(v), 0, v.len() as u64, encs(v));
      assert forall|w: Seq<T>| #[trigger] elems_rel(el(vec_enc(v), 0), w) implies eq_vec(eq, v, w) by {
          assert forall|k: int| 0 <= k < v.len() implies eq(#[trigger] v[k], w[k]) by { lemma_codec(v[k], eq); assert(T::dec_rel(encs(v)[k], 0, w[k])); }
      }
  }
  proof fn lemma_cat_push(s: Seq<Seq<u8>>, e: Seq<u8>)
      ensures cat(s.push(e)) == cat(s) + e
  { assert(s.push(e).drop_last() =~= s); }
  proof fn lemma_catp_push(s: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>, v: Seq<u8>)
      ensures catp(s.push((k, v))) == catp(s) + k + v
  { assert(s.push((k, v)).drop_last() =~= s); }
  /// a header and elements are an array of them
  proof fn lemma_arr(s: Seq<u8>, i: int, n: u64, e: Seq<Seq<u8>>)
      requires at(s, i, hv_enc(4, canon_hv(n)) + cat(e)), e.len() == n, forall|k: int| 0 <= k < e.len() ==> one(#[trigger] e[k])
      ensures arr(s, i), el(s, i) == e, item(s, i) == R::End(i + (hv_enc(4, canon_hv(n)) + cat(e)).len()), 0 <= i,
  {
      lemma_canon();
      let a = AV { len: StructureLength::Definite(canon_hv(n)), elems: e };
      assert(av_enc(a) =~= hv_enc(4, canon_hv(n)) + cat(e));
      lemma_av_at(s, i, a); lemma_arr_at(s, i); lemma_item_end(s, i); lemma_arg(s, i);
  }
  proof fn lemma_map(s: Seq<u8>, i: int, n: u64, e: Seq<(Seq<u8>, Seq<u8>)>)
      requires at(s, i, hv_enc(5, canon_hv(n)) + catp(e)), e.len() == n, forall|k: int| 0 <= k < e.len() ==> one((#[trigger] e[k]).0) && one(e[k].1)
      ensures mapp(s, i), me(s, i) == e, item(s, i) == R::End(i + (hv_enc(5, canon_hv(n)) + catp(e)).len()), 0 <= i,
  {
      lemma_canon();
      let a = MV { len: StructureLength::Definite(canon_hv(n)), elems: e };
      assert(mv_enc(a) =~= hv_enc(5, canon_hv(n)) + catp(e));
      lemma_mv_at(s, i, a); lemma_map_at(s, i); lemma_item_end(s, i); lemma_arg(s, i);
  }
  proof fn lemma_tag(s: Seq<u8>, i: int, n: u64, d: Seq<u8>)
      requires at(s, i, hv_enc(6, canon_hv(n)) + d), one(d)
      ensures tagged(s, i, n as int), tag_at(s, i).data == d, item(s, i) == R::End(i + (hv_enc(6, canon_hv(n)) + d).len()), 0 <= i,
  {
      lemma_canon();
      let t = TV { tag: canon_hv(n), data: d };
      lemma_tv_at(s, i, t); lemma_tag_at(s, i); lemma_item_end(s, i); lemma_arg(s, i);
  }
  proof fn lemma_num(n: u64)
      ensures one(hv_enc(0, canon_hv(n))), num_at(hv_enc(0, canon_hv(n)), 0) == n, crate::dec_all::<u64>(hv_enc(0, canon_hv(n))),
  {
      lemma_canon();
      lemma_whole_at(hv_enc(0, canon_hv(n)));
      lemma_hv_at(hv_enc(0, canon_hv(n)), 0, 0, canon_hv(n));
  }
  proof fn lemma_num_at(s: Seq<u8>, i: int, n: u64)
      requires at(s, i, hv_enc(0, canon_hv(n)))
      ensures hd(s, i) is End && hdr_at(s, i) is Positive, num_at(s, i) == n, item(s, i) == R::End(i + hv_enc(0, canon_hv(n)).len()), hd(s, i) == item(s, i), 0 <= i,
  {
      lemma_canon();
      lemma_hv_at(s, i, 0, canon_hv(n));
  }
  /// the type of an element stays where it is copied to
  proof fn lemma_kind(s: Seq<u8>, i: int, e: Seq<u8>, t: Type)
      requires at(s, i, e), one(e), kind_is(e, 0, t)
      ensures kind_is(s, i, t), 0 <= i
  {
      lemma_item_end(e, 0); lemma_arg(e, 0); lemma_at_agree(s, i, e);
      lemma_hd_agree(e, 0, s, i, e.len() as int);
  }
