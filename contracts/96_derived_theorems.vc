# What is written by the generated code is read back by it; written by tools/gen_derive.py
FILE @end_derived
PRELUDE
  pub mod derthm_ {
  use vstd::prelude::*;
  use crate::spec_::*;
  use crate::names_::*;
  use crate::lowlevel::header::*;
  use crate::reader::*;
  use crate::types::*;
  use crate::encode::*;
  use crate::decode::*;
  use crate::derived::*;
  use crate::codecs_::codec;
  verus! {
  proof fn lemma_whole_at(e: Seq<u8>)
      ensures at(e, 0, e)
  { assert(e.subrange(0, e.len() as int) =~= e); }
  /// like codec, for what is not one element but several in a row
  pub open spec fn codec_flat<T: Encode + Decode>(v: T, eq: spec_fn(T, T) -> bool) -> bool {
      &&& v.enc_ok()
      &&& forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) ==> T::dec_ok(s, i) && T::dec_end(s, i) == i + v.enc().len() && forall|w: T| #[trigger] T::dec_rel(s, i, w) ==> eq(v, w)
  }
  pub open spec fn eq_opt<T>(e: spec_fn(T, T) -> bool, a: Option<T>, b: Option<T>) -> bool {
      match (a, b) { (Some(x), Some(y)) => e(x, y), (None, None) => true, _ => false }
  }
  pub open spec fn eq_vec<T>(e: spec_fn(T, T) -> bool, a: Seq<T>, b: Seq<T>) -> bool {
      a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> e(#[trigger] a[k], b[k])
  }
  proof fn lemma_codec<T: Encode + Decode>(v: T, eq: spec_fn(T, T) -> bool)
      requires codec(v, eq)
      ensures one(v.enc()), v.enc_ok(), crate::dec_all::<T>(v.enc()), forall|w: T| #[trigger] T::dec_rel(v.enc(), 0, w) ==> eq(v, w),
  { lemma_whole_at(v.enc()); }
  proof fn lemma_vec<T: Encode + Decode>(v: Seq<T>, eq: spec_fn(T, T) -> bool)
      requires forall|k: int| 0 <= k < v.len() ==> codec(#[trigger] v[k], eq), v.len() <= u64::MAX
      ensures one(vec_enc(v)), encs_ok(v), vec_all::<T>(vec_enc(v)), forall|w: Seq<T>| #[trigger] elems_rel(el(vec_enc(v), 0), w) ==> eq_vec(eq, v, w),
  {
      assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).enc_ok() by { lemma_codec(v[k], eq); }
      assert forall|k: int| 0 <= k < encs(v).len() implies one(#[trigger] encs(v)[k]) && T::dec_ok(encs(v)[k], 0) by { lemma_codec(v[k], eq); }
      lemma_whole_at(vec_enc(v));
      lemma_arr(vec_enc(v), 0, v.len() as u64, encs(v));
      assert forall|w: Seq<T>| #[trigger] elems_rel(el(vec_enc(v), 0), w) implies eq_vec(eq, v, w) by {
          assert forall|k: int| 0 <= k < v.len() implies eq(#[trigger] v[k], w[k]) by { lemma_codec(v[k], eq); assert(T::dec_rel(encs(v)[k], 0, w[k])); }
      }
  }
  proof fn lemma_cat_push(s: Seq<Seq<u8>>, e: Seq<u8>)
      ensures cat(s.push(e)) == cat(s) + e
  { assert(s.push(e).drop_last() =~= s); }
  proof fn lemma_catp_push(s: Seq<(Seq<u8>, Seq<u8>)>, k: Seq<u8>, v: Seq<u8>)
      ensures catp(s.push((k, v))) == catp(s) + k + v
  { assert(s.push((k, v)).drop_last() =~= s); }
  /// a header and elements are an array of them
  proof fn lemma_arr(s: Seq<u8>, i: int, n: u64, e: Seq<Seq<u8>>)
      requires at(s, i, hv_enc(4, canon_hv(n)) + cat(e)), e.len() == n, forall|k: int| 0 <= k < e.len() ==> one(#[trigger] e[k])
      ensures arr(s, i), el(s, i) == e, item(s, i) == R::End(i + (hv_enc(4, canon_hv(n)) + cat(e)).len()), 0 <= i,
  {
      lemma_canon();
      let a = AV { len: StructureLength::Definite(canon_hv(n)), elems: e };
      assert(av_enc(a) =~= hv_enc(4, canon_hv(n)) + cat(e));
      lemma_av_at(s, i, a); lemma_arr_at(s, i); lemma_item_end(s, i); lemma_arg(s, i);
  }
  proof fn lemma_map(s: Seq<u8>, i: int, n: u64, e: Seq<(Seq<u8>, Seq<u8>)>)
      requires at(s, i, hv_enc(5, canon_hv(n)) + catp(e)), e.len() == n, forall|k: int| 0 <= k < e.len() ==> one((#[trigger] e[k]).0) && one(e[k].1)
      ensures mapp(s, i), me(s, i) == e, item(s, i) == R::End(i + (hv_enc(5, canon_hv(n)) + catp(e)).len()), 0 <= i,
  {
      lemma_canon();
      let a = MV { len: StructureLength::Definite(canon_hv(n)), elems: e };
      assert(mv_enc(a) =~= hv_enc(5, canon_hv(n)) + catp(e));
      lemma_mv_at(s, i, a); lemma_map_at(s, i); lemma_item_end(s, i); lemma_arg(s, i);
  }
  proof fn lemma_tag(s: Seq<u8>, i: int, n: u64, d: Seq<u8>)
      requires at(s, i, hv_enc(6, canon_hv(n)) + d), one(d)
      ensures tagged(s, i, n as int), tag_at(s, i).data == d, item(s, i) == R::End(i + (hv_enc(6, canon_hv(n)) + d).len()), 0 <= i,
  {
      lemma_canon();
      let t = TV { tag: canon_hv(n), data: d };
      lemma_tv_at(s, i, t); lemma_tag_at(s, i); lemma_item_end(s, i); lemma_arg(s, i);
  }
  proof fn lemma_num(n: u64)
      ensures one(hv_enc(0, canon_hv(n))), num_at(hv_enc(0, canon_hv(n)), 0) == n, crate::dec_all::<u64>(hv_enc(0, canon_hv(n))),
  {
      lemma_canon();
      lemma_whole_at(hv_enc(0, canon_hv(n)));
      lemma_hv_at(hv_enc(0, canon_hv(n)), 0, 0, canon_hv(n));
  }
  proof fn lemma_num_at(s: Seq<u8>, i: int, n: u64)
      requires at(s, i, hv_enc(0, canon_hv(n)))
      ensures hd(s, i) is End && hdr_at(s, i) is Positive, num_at(s, i) == n, item(s, i) == R::End(i + hv_enc(0, canon_hv(n)).len()), hd(s, i) == item(s, i), 0 <= i,
  {
      lemma_canon();
      lemma_hv_at(s, i, 0, canon_hv(n));
  }
  /// the type of an element stays where it is copied to
  proof fn lemma_kind(s: Seq<u8>, i: int, e: Seq<u8>, t: Type)
      requires at(s, i, e), one(e), kind_is(e, 0, t)
      ensures kind_is(s, i, t), 0 <= i
  {
      lemma_item_end(e, 0); lemma_arg(e, 0); lemma_at_agree(s, i, e);
      lemma_hd_agree(e, 0, s, i, e.len() as int);
  }
  pub open spec fn eq_FlatOne(e0: spec_fn(F0, F0) -> bool, a: FlatOne, b: FlatOne) -> bool { e0(a.x, b.x) }
  proof fn c18_FlatOne(v: FlatOne, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: FlatOne, b: FlatOne| eq_FlatOne(e0, a, b))
  {
      lemma_codec(v.x, e0); assert(v.content() =~= (v.x.enc())); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && FlatOne::dec_ok(s, i) && FlatOne::dec_end(s, i) == i + v.enc().len() && forall|w: FlatOne| #[trigger] FlatOne::dec_rel(s, i, w) ==> eq_FlatOne(e0, v, w) by {  }
  }
  pub open spec fn eq_FlatThree(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: FlatThree, b: FlatThree) -> bool { e0(a.x, b.x) && e1(a.y, b.y) && e2(a.z, b.z) }
  proof fn c18_FlatThree(v: FlatThree, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires codec(v.x, e0), codec(v.y, e1), codec(v.z, e2)
      ensures codec_flat(v, |a: FlatThree, b: FlatThree| eq_FlatThree(e0, e1, e2, a, b))
  {
      lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_codec(v.z, e2); assert(v.content() =~= (v.x.enc() + v.y.enc() + v.z.enc())); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies FlatThree::dec_ok(s, i) && FlatThree::dec_end(s, i) == i + v.enc().len() && forall|w: FlatThree| #[trigger] FlatThree::dec_rel(s, i, w) ==> eq_FlatThree(e0, e1, e2, v, w) by { lemma_at(s, i, (v.x.enc() + v.y.enc()), v.z.enc()); lemma_at(s, i, (v.x.enc()), v.y.enc());  }
  }
  pub open spec fn eq_FlatTag(e0: spec_fn(F0, F0) -> bool, a: FlatTag, b: FlatTag) -> bool { e0(a.x, b.x) }
  proof fn c18_FlatTag(v: FlatTag, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: FlatTag, b: FlatTag| eq_FlatTag(e0, a, b))
  {
      lemma_codec(v.x, e0); assert(v.content() =~= (v.x.enc())); lemma_whole_at(v.content());  assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && FlatTag::dec_ok(s, i) && FlatTag::dec_end(s, i) == i + v.enc().len() && forall|w: FlatTag| #[trigger] FlatTag::dec_rel(s, i, w) ==> eq_FlatTag(e0, v, w) by { lemma_tag(s, i, 5, v.content()); }
  }
  pub open spec fn eq_FlatTagBig(e0: spec_fn(F0, F0) -> bool, a: FlatTagBig, b: FlatTagBig) -> bool { e0(a.x, b.x) }
  proof fn c18_FlatTagBig(v: FlatTagBig, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: FlatTagBig, b: FlatTagBig| eq_FlatTagBig(e0, a, b))
  {
      lemma_codec(v.x, e0); assert(v.content() =~= (v.x.enc())); lemma_whole_at(v.content());  assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && FlatTagBig::dec_ok(s, i) && FlatTagBig::dec_end(s, i) == i + v.enc().len() && forall|w: FlatTagBig| #[trigger] FlatTagBig::dec_rel(s, i, w) ==> eq_FlatTagBig(e0, v, w) by { lemma_tag(s, i, 4294967296, v.content()); }
  }
  pub open spec fn eq_FlatTuple(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: FlatTuple, b: FlatTuple) -> bool { e0(a.0, b.0) && e1(a.1, b.1) }
  proof fn c18_FlatTuple(v: FlatTuple, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.0, e0), codec(v.1, e1)
      ensures codec_flat(v, |a: FlatTuple, b: FlatTuple| eq_FlatTuple(e0, e1, a, b))
  {
      lemma_codec(v.0, e0); lemma_codec(v.1, e1); assert(v.content() =~= (v.0.enc() + v.1.enc())); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies FlatTuple::dec_ok(s, i) && FlatTuple::dec_end(s, i) == i + v.enc().len() && forall|w: FlatTuple| #[trigger] FlatTuple::dec_rel(s, i, w) ==> eq_FlatTuple(e0, e1, v, w) by { lemma_at(s, i, (v.0.enc()), v.1.enc());  }
  }
  pub open spec fn eq_FlatTagTuple(e0: spec_fn(F0, F0) -> bool, a: FlatTagTuple, b: FlatTagTuple) -> bool { e0(a.0, b.0) }
  proof fn c18_FlatTagTuple(v: FlatTagTuple, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.0, e0)
      ensures codec(v, |a: FlatTagTuple, b: FlatTagTuple| eq_FlatTagTuple(e0, a, b))
  {
      lemma_codec(v.0, e0); assert(v.content() =~= (v.0.enc())); lemma_whole_at(v.content());  assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && FlatTagTuple::dec_ok(s, i) && FlatTagTuple::dec_end(s, i) == i + v.enc().len() && forall|w: FlatTagTuple| #[trigger] FlatTagTuple::dec_rel(s, i, w) ==> eq_FlatTagTuple(e0, v, w) by { lemma_tag(s, i, 0, v.content()); }
  }
  pub open spec fn eq_FlatTagEdge(e0: spec_fn(F0, F0) -> bool, a: FlatTagEdge, b: FlatTagEdge) -> bool { e0(a.x, b.x) }
  proof fn c18_FlatTagEdge(v: FlatTagEdge, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: FlatTagEdge, b: FlatTagEdge| eq_FlatTagEdge(e0, a, b))
  {
      lemma_codec(v.x, e0); assert(v.content() =~= (v.x.enc())); lemma_whole_at(v.content());  assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && FlatTagEdge::dec_ok(s, i) && FlatTagEdge::dec_end(s, i) == i + v.enc().len() && forall|w: FlatTagEdge| #[trigger] FlatTagEdge::dec_rel(s, i, w) ==> eq_FlatTagEdge(e0, v, w) by { lemma_tag(s, i, 23, v.content()); }
  }
  pub open spec fn eq_FlatTagMax(e0: spec_fn(F0, F0) -> bool, a: FlatTagMax, b: FlatTagMax) -> bool { e0(a.x, b.x) }
  proof fn c18_FlatTagMax(v: FlatTagMax, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: FlatTagMax, b: FlatTagMax| eq_FlatTagMax(e0, a, b))
  {
      lemma_codec(v.x, e0); assert(v.content() =~= (v.x.enc())); lemma_whole_at(v.content());  assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && FlatTagMax::dec_ok(s, i) && FlatTagMax::dec_end(s, i) == i + v.enc().len() && forall|w: FlatTagMax| #[trigger] FlatTagMax::dec_rel(s, i, w) ==> eq_FlatTagMax(e0, v, w) by { lemma_tag(s, i, 18446744073709551615, v.content()); }
  }
  pub open spec fn eq_ArrNone(a: ArrNone, b: ArrNone) -> bool { true }
  proof fn c18_ArrNone(v: ArrNone)
      ensures codec(v, |a: ArrNone, b: ArrNone| eq_ArrNone(a, b))
  {
       let e = Seq::<Seq<u8>>::empty(); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(0)) + cat(e)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrNone::dec_ok(s, i) && ArrNone::dec_end(s, i) == i + v.enc().len() && forall|w: ArrNone| #[trigger] ArrNone::dec_rel(s, i, w) ==> eq_ArrNone(v, w) by { lemma_arr(s, i, 0, e); }
  }
  pub open spec fn eq_ArrOne(e0: spec_fn(F0, F0) -> bool, a: ArrOne, b: ArrOne) -> bool { e0(a.x, b.x) }
  proof fn c18_ArrOne(v: ArrOne, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: ArrOne, b: ArrOne| eq_ArrOne(e0, a, b))
  {
      lemma_codec(v.x, e0); lemma_cat_push(Seq::empty(), v.x.enc()); let e = Seq::empty().push(v.x.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == v.x.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrOne::dec_ok(s, i) && ArrOne::dec_end(s, i) == i + v.enc().len() && forall|w: ArrOne| #[trigger] ArrOne::dec_rel(s, i, w) ==> eq_ArrOne(e0, v, w) by { lemma_arr(s, i, 1, e); }
  }
  pub open spec fn eq_ArrThree(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: ArrThree, b: ArrThree) -> bool { e0(a.x, b.x) && e1(a.y, b.y) && e2(a.z, b.z) }
  proof fn c18_ArrThree(v: ArrThree, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires codec(v.x, e0), codec(v.y, e1), codec(v.z, e2)
      ensures codec(v, |a: ArrThree, b: ArrThree| eq_ArrThree(e0, e1, e2, a, b))
  {
      lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_codec(v.z, e2); lemma_cat_push(Seq::empty(), v.x.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()), v.y.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()).push(v.y.enc()), v.z.enc()); let e = Seq::empty().push(v.x.enc()).push(v.y.enc()).push(v.z.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(3)) + cat(e)); assert(e[0] == v.x.enc()); assert(e[1] == v.y.enc()); assert(e[2] == v.z.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrThree::dec_ok(s, i) && ArrThree::dec_end(s, i) == i + v.enc().len() && forall|w: ArrThree| #[trigger] ArrThree::dec_rel(s, i, w) ==> eq_ArrThree(e0, e1, e2, v, w) by { lemma_arr(s, i, 3, e); }
  }
  pub open spec fn eq_ArrTuple(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: ArrTuple, b: ArrTuple) -> bool { e0(a.0, b.0) && e1(a.1, b.1) && e2(a.2, b.2) }
  proof fn c18_ArrTuple(v: ArrTuple, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires codec(v.0, e0), codec(v.1, e1), codec(v.2, e2)
      ensures codec(v, |a: ArrTuple, b: ArrTuple| eq_ArrTuple(e0, e1, e2, a, b))
  {
      lemma_codec(v.0, e0); lemma_codec(v.1, e1); lemma_codec(v.2, e2); lemma_cat_push(Seq::empty(), v.0.enc()); lemma_cat_push(Seq::empty().push(v.0.enc()), v.1.enc()); lemma_cat_push(Seq::empty().push(v.0.enc()).push(v.1.enc()), v.2.enc()); let e = Seq::empty().push(v.0.enc()).push(v.1.enc()).push(v.2.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(3)) + cat(e)); assert(e[0] == v.0.enc()); assert(e[1] == v.1.enc()); assert(e[2] == v.2.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrTuple::dec_ok(s, i) && ArrTuple::dec_end(s, i) == i + v.enc().len() && forall|w: ArrTuple| #[trigger] ArrTuple::dec_rel(s, i, w) ==> eq_ArrTuple(e0, e1, e2, v, w) by { lemma_arr(s, i, 3, e); }
  }
  pub open spec fn eq_ArrTag(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: ArrTag, b: ArrTag) -> bool { e0(a.x, b.x) && e1(a.y, b.y) }
  proof fn c18_ArrTag(v: ArrTag, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.x, e0), codec(v.y, e1)
      ensures codec(v, |a: ArrTag, b: ArrTag| eq_ArrTag(e0, e1, a, b))
  {
      lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_cat_push(Seq::empty(), v.x.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()), v.y.enc()); let e = Seq::empty().push(v.x.enc()).push(v.y.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == v.x.enc()); assert(e[1] == v.y.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 2, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrTag::dec_ok(s, i) && ArrTag::dec_end(s, i) == i + v.enc().len() && forall|w: ArrTag| #[trigger] ArrTag::dec_rel(s, i, w) ==> eq_ArrTag(e0, e1, v, w) by { lemma_tag(s, i, 300, v.content()); }
  }
  pub open spec fn eq_ArrTagSplit(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: ArrTagSplit, b: ArrTagSplit) -> bool { e0(a.x, b.x) && e1(a.y, b.y) }
  proof fn c18_ArrTagSplit(v: ArrTagSplit, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.x, e0), codec(v.y, e1)
      ensures codec(v, |a: ArrTagSplit, b: ArrTagSplit| eq_ArrTagSplit(e0, e1, a, b))
  {
      lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_cat_push(Seq::empty(), v.x.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()), v.y.enc()); let e = Seq::empty().push(v.x.enc()).push(v.y.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == v.x.enc()); assert(e[1] == v.y.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 2, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrTagSplit::dec_ok(s, i) && ArrTagSplit::dec_end(s, i) == i + v.enc().len() && forall|w: ArrTagSplit| #[trigger] ArrTagSplit::dec_rel(s, i, w) ==> eq_ArrTagSplit(e0, e1, v, w) by { lemma_tag(s, i, 24, v.content()); }
  }
  pub open spec fn eq_ArrTagTuple(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: ArrTagTuple, b: ArrTagTuple) -> bool { e0(a.0, b.0) && e1(a.1, b.1) }
  proof fn c18_ArrTagTuple(v: ArrTagTuple, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.0, e0), codec(v.1, e1)
      ensures codec(v, |a: ArrTagTuple, b: ArrTagTuple| eq_ArrTagTuple(e0, e1, a, b))
  {
      lemma_codec(v.0, e0); lemma_codec(v.1, e1); lemma_cat_push(Seq::empty(), v.0.enc()); lemma_cat_push(Seq::empty().push(v.0.enc()), v.1.enc()); let e = Seq::empty().push(v.0.enc()).push(v.1.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == v.0.enc()); assert(e[1] == v.1.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 2, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrTagTuple::dec_ok(s, i) && ArrTagTuple::dec_end(s, i) == i + v.enc().len() && forall|w: ArrTagTuple| #[trigger] ArrTagTuple::dec_rel(s, i, w) ==> eq_ArrTagTuple(e0, e1, v, w) by { lemma_tag(s, i, 255, v.content()); }
  }
  pub open spec fn eq_ArrMany(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F0, F0) -> bool, e4: spec_fn(F1, F1) -> bool, e5: spec_fn(F2, F2) -> bool, e6: spec_fn(F0, F0) -> bool, e7: spec_fn(F1, F1) -> bool, e8: spec_fn(F2, F2) -> bool, e9: spec_fn(F0, F0) -> bool, e10: spec_fn(F1, F1) -> bool, e11: spec_fn(F2, F2) -> bool, e12: spec_fn(F0, F0) -> bool, e13: spec_fn(F1, F1) -> bool, e14: spec_fn(F2, F2) -> bool, e15: spec_fn(F0, F0) -> bool, e16: spec_fn(F1, F1) -> bool, e17: spec_fn(F2, F2) -> bool, e18: spec_fn(F0, F0) -> bool, e19: spec_fn(F1, F1) -> bool, e20: spec_fn(F2, F2) -> bool, e21: spec_fn(F0, F0) -> bool, e22: spec_fn(F1, F1) -> bool, e23: spec_fn(F2, F2) -> bool, e24: spec_fn(F0, F0) -> bool, a: ArrMany, b: ArrMany) -> bool { e0(a.f0, b.f0) && e1(a.f1, b.f1) && e2(a.f2, b.f2) && e3(a.f3, b.f3) && e4(a.f4, b.f4) && e5(a.f5, b.f5) && e6(a.f6, b.f6) && e7(a.f7, b.f7) && e8(a.f8, b.f8) && e9(a.f9, b.f9) && e10(a.f10, b.f10) && e11(a.f11, b.f11) && e12(a.f12, b.f12) && e13(a.f13, b.f13) && e14(a.f14, b.f14) && e15(a.f15, b.f15) && e16(a.f16, b.f16) && e17(a.f17, b.f17) && e18(a.f18, b.f18) && e19(a.f19, b.f19) && e20(a.f20, b.f20) && e21(a.f21, b.f21) && e22(a.f22, b.f22) && e23(a.f23, b.f23) && e24(a.f24, b.f24) }
  proof fn c18_ArrMany(v: ArrMany, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F0, F0) -> bool, e4: spec_fn(F1, F1) -> bool, e5: spec_fn(F2, F2) -> bool, e6: spec_fn(F0, F0) -> bool, e7: spec_fn(F1, F1) -> bool, e8: spec_fn(F2, F2) -> bool, e9: spec_fn(F0, F0) -> bool, e10: spec_fn(F1, F1) -> bool, e11: spec_fn(F2, F2) -> bool, e12: spec_fn(F0, F0) -> bool, e13: spec_fn(F1, F1) -> bool, e14: spec_fn(F2, F2) -> bool, e15: spec_fn(F0, F0) -> bool, e16: spec_fn(F1, F1) -> bool, e17: spec_fn(F2, F2) -> bool, e18: spec_fn(F0, F0) -> bool, e19: spec_fn(F1, F1) -> bool, e20: spec_fn(F2, F2) -> bool, e21: spec_fn(F0, F0) -> bool, e22: spec_fn(F1, F1) -> bool, e23: spec_fn(F2, F2) -> bool, e24: spec_fn(F0, F0) -> bool)
      requires codec(v.f0, e0), codec(v.f1, e1), codec(v.f2, e2), codec(v.f3, e3), codec(v.f4, e4), codec(v.f5, e5), codec(v.f6, e6), codec(v.f7, e7), codec(v.f8, e8), codec(v.f9, e9), codec(v.f10, e10), codec(v.f11, e11), codec(v.f12, e12), codec(v.f13, e13), codec(v.f14, e14), codec(v.f15, e15), codec(v.f16, e16), codec(v.f17, e17), codec(v.f18, e18), codec(v.f19, e19), codec(v.f20, e20), codec(v.f21, e21), codec(v.f22, e22), codec(v.f23, e23), codec(v.f24, e24)
      ensures codec(v, |a: ArrMany, b: ArrMany| eq_ArrMany(e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, a, b))
  {
      lemma_codec(v.f0, e0); lemma_codec(v.f1, e1); lemma_codec(v.f2, e2); lemma_codec(v.f3, e3); lemma_codec(v.f4, e4); lemma_codec(v.f5, e5); lemma_codec(v.f6, e6); lemma_codec(v.f7, e7); lemma_codec(v.f8, e8); lemma_codec(v.f9, e9); lemma_codec(v.f10, e10); lemma_codec(v.f11, e11); lemma_codec(v.f12, e12); lemma_codec(v.f13, e13); lemma_codec(v.f14, e14); lemma_codec(v.f15, e15); lemma_codec(v.f16, e16); lemma_codec(v.f17, e17); lemma_codec(v.f18, e18); lemma_codec(v.f19, e19); lemma_codec(v.f20, e20); lemma_codec(v.f21, e21); lemma_codec(v.f22, e22); lemma_codec(v.f23, e23); lemma_codec(v.f24, e24); lemma_cat_push(Seq::empty(), v.f0.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()), v.f1.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()), v.f2.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()), v.f3.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()), v.f4.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()), v.f5.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()), v.f6.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()), v.f7.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()), v.f8.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()), v.f9.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()), v.f10.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()), v.f11.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()), v.f12.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()), v.f13.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()), v.f14.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()), v.f15.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()), v.f16.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()), v.f17.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()), v.f18.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()), v.f19.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()), v.f20.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()), v.f21.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()), v.f22.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()).push(v.f22.enc()), v.f23.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()).push(v.f22.enc()).push(v.f23.enc()), v.f24.enc()); let e = Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()).push(v.f22.enc()).push(v.f23.enc()).push(v.f24.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(25)) + cat(e)); assert(e[0] == v.f0.enc()); assert(e[1] == v.f1.enc()); assert(e[2] == v.f2.enc()); assert(e[3] == v.f3.enc()); assert(e[4] == v.f4.enc()); assert(e[5] == v.f5.enc()); assert(e[6] == v.f6.enc()); assert(e[7] == v.f7.enc()); assert(e[8] == v.f8.enc()); assert(e[9] == v.f9.enc()); assert(e[10] == v.f10.enc()); assert(e[11] == v.f11.enc()); assert(e[12] == v.f12.enc()); assert(e[13] == v.f13.enc()); assert(e[14] == v.f14.enc()); assert(e[15] == v.f15.enc()); assert(e[16] == v.f16.enc()); assert(e[17] == v.f17.enc()); assert(e[18] == v.f18.enc()); assert(e[19] == v.f19.enc()); assert(e[20] == v.f20.enc()); assert(e[21] == v.f21.enc()); assert(e[22] == v.f22.enc()); assert(e[23] == v.f23.enc()); assert(e[24] == v.f24.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && ArrMany::dec_ok(s, i) && ArrMany::dec_end(s, i) == i + v.enc().len() && forall|w: ArrMany| #[trigger] ArrMany::dec_rel(s, i, w) ==> eq_ArrMany(e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, e24, v, w) by { lemma_arr(s, i, 25, e); }
  }
  pub open spec fn eq_OptEdge(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F0, F0) -> bool, e4: spec_fn(F1, F1) -> bool, e5: spec_fn(F2, F2) -> bool, e6: spec_fn(F0, F0) -> bool, e7: spec_fn(F1, F1) -> bool, e8: spec_fn(F2, F2) -> bool, e9: spec_fn(F0, F0) -> bool, e10: spec_fn(F1, F1) -> bool, e11: spec_fn(F2, F2) -> bool, e12: spec_fn(F0, F0) -> bool, e13: spec_fn(F1, F1) -> bool, e14: spec_fn(F2, F2) -> bool, e15: spec_fn(F0, F0) -> bool, e16: spec_fn(F1, F1) -> bool, e17: spec_fn(F2, F2) -> bool, e18: spec_fn(F0, F0) -> bool, e19: spec_fn(F1, F1) -> bool, e20: spec_fn(F2, F2) -> bool, e21: spec_fn(F0, F0) -> bool, e22: spec_fn(F1, F1) -> bool, e23: spec_fn(F0, F0) -> bool, a: OptEdge, b: OptEdge) -> bool { e0(a.f0, b.f0) && e1(a.f1, b.f1) && e2(a.f2, b.f2) && e3(a.f3, b.f3) && e4(a.f4, b.f4) && e5(a.f5, b.f5) && e6(a.f6, b.f6) && e7(a.f7, b.f7) && e8(a.f8, b.f8) && e9(a.f9, b.f9) && e10(a.f10, b.f10) && e11(a.f11, b.f11) && e12(a.f12, b.f12) && e13(a.f13, b.f13) && e14(a.f14, b.f14) && e15(a.f15, b.f15) && e16(a.f16, b.f16) && e17(a.f17, b.f17) && e18(a.f18, b.f18) && e19(a.f19, b.f19) && e20(a.f20, b.f20) && e21(a.f21, b.f21) && e22(a.f22, b.f22) && eq_opt(e23, a.last, b.last) }
  proof fn c18_OptEdge(v: OptEdge, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F0, F0) -> bool, e4: spec_fn(F1, F1) -> bool, e5: spec_fn(F2, F2) -> bool, e6: spec_fn(F0, F0) -> bool, e7: spec_fn(F1, F1) -> bool, e8: spec_fn(F2, F2) -> bool, e9: spec_fn(F0, F0) -> bool, e10: spec_fn(F1, F1) -> bool, e11: spec_fn(F2, F2) -> bool, e12: spec_fn(F0, F0) -> bool, e13: spec_fn(F1, F1) -> bool, e14: spec_fn(F2, F2) -> bool, e15: spec_fn(F0, F0) -> bool, e16: spec_fn(F1, F1) -> bool, e17: spec_fn(F2, F2) -> bool, e18: spec_fn(F0, F0) -> bool, e19: spec_fn(F1, F1) -> bool, e20: spec_fn(F2, F2) -> bool, e21: spec_fn(F0, F0) -> bool, e22: spec_fn(F1, F1) -> bool, e23: spec_fn(F0, F0) -> bool)
      requires codec(v.f0, e0), codec(v.f1, e1), codec(v.f2, e2), codec(v.f3, e3), codec(v.f4, e4), codec(v.f5, e5), codec(v.f6, e6), codec(v.f7, e7), codec(v.f8, e8), codec(v.f9, e9), codec(v.f10, e10), codec(v.f11, e11), codec(v.f12, e12), codec(v.f13, e13), codec(v.f14, e14), codec(v.f15, e15), codec(v.f16, e16), codec(v.f17, e17), codec(v.f18, e18), codec(v.f19, e19), codec(v.f20, e20), codec(v.f21, e21), codec(v.f22, e22), (v.last is Some ==> codec(v.last->Some_0, e23))
      ensures codec(v, |a: OptEdge, b: OptEdge| eq_OptEdge(e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, a, b))
  {
      if v.last is Some { lemma_codec(v.f0, e0); lemma_codec(v.f1, e1); lemma_codec(v.f2, e2); lemma_codec(v.f3, e3); lemma_codec(v.f4, e4); lemma_codec(v.f5, e5); lemma_codec(v.f6, e6); lemma_codec(v.f7, e7); lemma_codec(v.f8, e8); lemma_codec(v.f9, e9); lemma_codec(v.f10, e10); lemma_codec(v.f11, e11); lemma_codec(v.f12, e12); lemma_codec(v.f13, e13); lemma_codec(v.f14, e14); lemma_codec(v.f15, e15); lemma_codec(v.f16, e16); lemma_codec(v.f17, e17); lemma_codec(v.f18, e18); lemma_codec(v.f19, e19); lemma_codec(v.f20, e20); lemma_codec(v.f21, e21); lemma_codec(v.f22, e22); lemma_codec(v.last->Some_0, e23); lemma_cat_push(Seq::empty(), v.f0.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()), v.f1.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()), v.f2.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()), v.f3.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()), v.f4.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()), v.f5.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()), v.f6.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()), v.f7.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()), v.f8.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()), v.f9.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()), v.f10.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()), v.f11.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()), v.f12.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()), v.f13.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()), v.f14.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()), v.f15.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()), v.f16.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()), v.f17.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()), v.f18.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()), v.f19.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()), v.f20.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()), v.f21.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()), v.f22.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()).push(v.f22.enc()), v.last->Some_0.enc()); let e = Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()).push(v.f22.enc()).push(v.last->Some_0.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(24)) + cat(e)); assert(e[0] == v.f0.enc()); assert(e[1] == v.f1.enc()); assert(e[2] == v.f2.enc()); assert(e[3] == v.f3.enc()); assert(e[4] == v.f4.enc()); assert(e[5] == v.f5.enc()); assert(e[6] == v.f6.enc()); assert(e[7] == v.f7.enc()); assert(e[8] == v.f8.enc()); assert(e[9] == v.f9.enc()); assert(e[10] == v.f10.enc()); assert(e[11] == v.f11.enc()); assert(e[12] == v.f12.enc()); assert(e[13] == v.f13.enc()); assert(e[14] == v.f14.enc()); assert(e[15] == v.f15.enc()); assert(e[16] == v.f16.enc()); assert(e[17] == v.f17.enc()); assert(e[18] == v.f18.enc()); assert(e[19] == v.f19.enc()); assert(e[20] == v.f20.enc()); assert(e[21] == v.f21.enc()); assert(e[22] == v.f22.enc()); assert(e[23] == v.last->Some_0.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 24, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptEdge::dec_ok(s, i) && OptEdge::dec_end(s, i) == i + v.enc().len() && forall|w: OptEdge| #[trigger] OptEdge::dec_rel(s, i, w) ==> eq_OptEdge(e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, v, w) by { lemma_tag(s, i, 65536, v.content()); } }
      if v.last is None { lemma_codec(v.f0, e0); lemma_codec(v.f1, e1); lemma_codec(v.f2, e2); lemma_codec(v.f3, e3); lemma_codec(v.f4, e4); lemma_codec(v.f5, e5); lemma_codec(v.f6, e6); lemma_codec(v.f7, e7); lemma_codec(v.f8, e8); lemma_codec(v.f9, e9); lemma_codec(v.f10, e10); lemma_codec(v.f11, e11); lemma_codec(v.f12, e12); lemma_codec(v.f13, e13); lemma_codec(v.f14, e14); lemma_codec(v.f15, e15); lemma_codec(v.f16, e16); lemma_codec(v.f17, e17); lemma_codec(v.f18, e18); lemma_codec(v.f19, e19); lemma_codec(v.f20, e20); lemma_codec(v.f21, e21); lemma_codec(v.f22, e22); lemma_cat_push(Seq::empty(), v.f0.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()), v.f1.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()), v.f2.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()), v.f3.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()), v.f4.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()), v.f5.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()), v.f6.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()), v.f7.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()), v.f8.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()), v.f9.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()), v.f10.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()), v.f11.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()), v.f12.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()), v.f13.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()), v.f14.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()), v.f15.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()), v.f16.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()), v.f17.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()), v.f18.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()), v.f19.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()), v.f20.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()), v.f21.enc()); lemma_cat_push(Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()), v.f22.enc()); let e = Seq::empty().push(v.f0.enc()).push(v.f1.enc()).push(v.f2.enc()).push(v.f3.enc()).push(v.f4.enc()).push(v.f5.enc()).push(v.f6.enc()).push(v.f7.enc()).push(v.f8.enc()).push(v.f9.enc()).push(v.f10.enc()).push(v.f11.enc()).push(v.f12.enc()).push(v.f13.enc()).push(v.f14.enc()).push(v.f15.enc()).push(v.f16.enc()).push(v.f17.enc()).push(v.f18.enc()).push(v.f19.enc()).push(v.f20.enc()).push(v.f21.enc()).push(v.f22.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(23)) + cat(e)); assert(e[0] == v.f0.enc()); assert(e[1] == v.f1.enc()); assert(e[2] == v.f2.enc()); assert(e[3] == v.f3.enc()); assert(e[4] == v.f4.enc()); assert(e[5] == v.f5.enc()); assert(e[6] == v.f6.enc()); assert(e[7] == v.f7.enc()); assert(e[8] == v.f8.enc()); assert(e[9] == v.f9.enc()); assert(e[10] == v.f10.enc()); assert(e[11] == v.f11.enc()); assert(e[12] == v.f12.enc()); assert(e[13] == v.f13.enc()); assert(e[14] == v.f14.enc()); assert(e[15] == v.f15.enc()); assert(e[16] == v.f16.enc()); assert(e[17] == v.f17.enc()); assert(e[18] == v.f18.enc()); assert(e[19] == v.f19.enc()); assert(e[20] == v.f20.enc()); assert(e[21] == v.f21.enc()); assert(e[22] == v.f22.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 23, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptEdge::dec_ok(s, i) && OptEdge::dec_end(s, i) == i + v.enc().len() && forall|w: OptEdge| #[trigger] OptEdge::dec_rel(s, i, w) ==> eq_OptEdge(e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, e16, e17, e18, e19, e20, e21, e22, e23, v, w) by { lemma_tag(s, i, 65536, v.content()); } }
  }
  pub open spec fn eq_OptOne(e0: spec_fn(F0, F0) -> bool, a: OptOne, b: OptOne) -> bool { eq_opt(e0, a.x, b.x) }
  proof fn c18_OptOne(v: OptOne, e0: spec_fn(F0, F0) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0))
      ensures codec(v, |a: OptOne, b: OptOne| eq_OptOne(e0, a, b))
  {
      if v.x is Some { lemma_codec(v.x->Some_0, e0); lemma_cat_push(Seq::empty(), v.x->Some_0.enc()); let e = Seq::empty().push(v.x->Some_0.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == v.x->Some_0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptOne::dec_ok(s, i) && OptOne::dec_end(s, i) == i + v.enc().len() && forall|w: OptOne| #[trigger] OptOne::dec_rel(s, i, w) ==> eq_OptOne(e0, v, w) by { lemma_arr(s, i, 1, e); } }
      if v.x is None {  let e = Seq::<Seq<u8>>::empty(); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(0)) + cat(e)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptOne::dec_ok(s, i) && OptOne::dec_end(s, i) == i + v.enc().len() && forall|w: OptOne| #[trigger] OptOne::dec_rel(s, i, w) ==> eq_OptOne(e0, v, w) by { lemma_arr(s, i, 0, e); } }
  }
  pub open spec fn eq_OptThree(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: OptThree, b: OptThree) -> bool { e0(a.x, b.x) && e1(a.y, b.y) && eq_opt(e2, a.z, b.z) }
  proof fn c18_OptThree(v: OptThree, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires codec(v.x, e0), codec(v.y, e1), (v.z is Some ==> codec(v.z->Some_0, e2))
      ensures codec(v, |a: OptThree, b: OptThree| eq_OptThree(e0, e1, e2, a, b))
  {
      if v.z is Some { lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_codec(v.z->Some_0, e2); lemma_cat_push(Seq::empty(), v.x.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()), v.y.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()).push(v.y.enc()), v.z->Some_0.enc()); let e = Seq::empty().push(v.x.enc()).push(v.y.enc()).push(v.z->Some_0.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(3)) + cat(e)); assert(e[0] == v.x.enc()); assert(e[1] == v.y.enc()); assert(e[2] == v.z->Some_0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptThree::dec_ok(s, i) && OptThree::dec_end(s, i) == i + v.enc().len() && forall|w: OptThree| #[trigger] OptThree::dec_rel(s, i, w) ==> eq_OptThree(e0, e1, e2, v, w) by { lemma_arr(s, i, 3, e); } }
      if v.z is None { lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_cat_push(Seq::empty(), v.x.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()), v.y.enc()); let e = Seq::empty().push(v.x.enc()).push(v.y.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == v.x.enc()); assert(e[1] == v.y.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptThree::dec_ok(s, i) && OptThree::dec_end(s, i) == i + v.enc().len() && forall|w: OptThree| #[trigger] OptThree::dec_rel(s, i, w) ==> eq_OptThree(e0, e1, e2, v, w) by { lemma_arr(s, i, 2, e); } }
  }
  pub open spec fn eq_OptTag(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: OptTag, b: OptTag) -> bool { e0(a.x, b.x) && eq_opt(e1, a.y, b.y) }
  proof fn c18_OptTag(v: OptTag, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.x, e0), (v.y is Some ==> codec(v.y->Some_0, e1))
      ensures codec(v, |a: OptTag, b: OptTag| eq_OptTag(e0, e1, a, b))
  {
      if v.y is Some { lemma_codec(v.x, e0); lemma_codec(v.y->Some_0, e1); lemma_cat_push(Seq::empty(), v.x.enc()); lemma_cat_push(Seq::empty().push(v.x.enc()), v.y->Some_0.enc()); let e = Seq::empty().push(v.x.enc()).push(v.y->Some_0.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == v.x.enc()); assert(e[1] == v.y->Some_0.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 2, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptTag::dec_ok(s, i) && OptTag::dec_end(s, i) == i + v.enc().len() && forall|w: OptTag| #[trigger] OptTag::dec_rel(s, i, w) ==> eq_OptTag(e0, e1, v, w) by { lemma_tag(s, i, 70000, v.content()); } }
      if v.y is None { lemma_codec(v.x, e0); lemma_cat_push(Seq::empty(), v.x.enc()); let e = Seq::empty().push(v.x.enc()); assert(cat(e) =~= v.body()); assert(v.content() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == v.x.enc()); lemma_whole_at(v.content()); lemma_arr(v.content(), 0, 1, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && OptTag::dec_ok(s, i) && OptTag::dec_end(s, i) == i + v.enc().len() && forall|w: OptTag| #[trigger] OptTag::dec_rel(s, i, w) ==> eq_OptTag(e0, e1, v, w) by { lemma_tag(s, i, 70000, v.content()); } }
  }
  pub open spec fn eq_MapTwo(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapTwo, b: MapTwo) -> bool { e0(a.x, b.x) && e1(a.y, b.y) }
  proof fn c20_MapTwo(v: MapTwo, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.x, e0), codec(v.y, e1)
      ensures codec(v, |a: MapTwo, b: MapTwo| eq_MapTwo(e0, e1, a, b))
  {
      lemma_codec(v.x, e0); lemma_codec(v.y, e1); lemma_num(0); lemma_num(1); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())), hv_enc(0, canon_hv(1)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())).push((hv_enc(0, canon_hv(1)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x.enc() && key_of(e[0]) == 0); assert(e[1].0 == hv_enc(0, canon_hv(1)) && e[1].1 == v.y.enc() && key_of(e[1]) == 1); let keys = seq![0int, 1int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapTwo::dec_ok(s, i) && MapTwo::dec_end(s, i) == i + v.enc().len() && forall|w: MapTwo| #[trigger] MapTwo::dec_rel(s, i, w) ==> eq_MapTwo(e0, e1, v, w) by { lemma_map(s, i, 2, e); }
  }
  pub open spec fn eq_MapMix(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: MapMix, b: MapMix) -> bool { e0(a.x, b.x) && eq_opt(e1, a.y, b.y) && e2(a.z, b.z) }
  proof fn c20_MapMix(v: MapMix, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires codec(v.x, e0), (v.y is Some ==> codec(v.y->Some_0, e1)), codec(v.z, e2)
      ensures codec(v, |a: MapMix, b: MapMix| eq_MapMix(e0, e1, e2, a, b))
  {
      if v.y is Some { lemma_codec(v.x, e0); lemma_codec(v.y->Some_0, e1); lemma_codec(v.z, e2); lemma_num(0); lemma_num(1); lemma_num(2); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())), hv_enc(0, canon_hv(1)), v.y->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())).push((hv_enc(0, canon_hv(1)), v.y->Some_0.enc())), hv_enc(0, canon_hv(2)), v.z.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())).push((hv_enc(0, canon_hv(1)), v.y->Some_0.enc())).push((hv_enc(0, canon_hv(2)), v.z.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 3); assert(v.content() =~= hv_enc(5, canon_hv(3)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x.enc() && key_of(e[0]) == 0); assert(e[1].0 == hv_enc(0, canon_hv(1)) && e[1].1 == v.y->Some_0.enc() && key_of(e[1]) == 1); assert(e[2].0 == hv_enc(0, canon_hv(2)) && e[2].1 == v.z.enc() && key_of(e[2]) == 2); let keys = seq![0int, 1int, 2int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert(keys[2] == 2int); assert(among(keys, 2int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapMix::dec_ok(s, i) && MapMix::dec_end(s, i) == i + v.enc().len() && forall|w: MapMix| #[trigger] MapMix::dec_rel(s, i, w) ==> eq_MapMix(e0, e1, e2, v, w) by { lemma_map(s, i, 3, e); } }
      if v.y is None { lemma_codec(v.x, e0); lemma_codec(v.z, e2); lemma_num(0); lemma_num(2); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())), hv_enc(0, canon_hv(2)), v.z.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x.enc())).push((hv_enc(0, canon_hv(2)), v.z.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x.enc() && key_of(e[0]) == 0); assert(e[1].0 == hv_enc(0, canon_hv(2)) && e[1].1 == v.z.enc() && key_of(e[1]) == 2); let keys = seq![0int, 1int, 2int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert(keys[2] == 2int); assert(among(keys, 2int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapMix::dec_ok(s, i) && MapMix::dec_end(s, i) == i + v.enc().len() && forall|w: MapMix| #[trigger] MapMix::dec_rel(s, i, w) ==> eq_MapMix(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
  }
  pub open spec fn eq_MapOpts(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapOpts, b: MapOpts) -> bool { eq_opt(e0, a.x, b.x) && eq_opt(e1, a.y, b.y) }
  proof fn c20_MapOpts(v: MapOpts, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), (v.y is Some ==> codec(v.y->Some_0, e1))
      ensures codec(v, |a: MapOpts, b: MapOpts| eq_MapOpts(e0, e1, a, b))
  {
      if v.x is Some && v.y is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y->Some_0, e1); lemma_num(0); lemma_num(1); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())), hv_enc(0, canon_hv(1)), v.y->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(1)), v.y->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 0); assert(e[1].0 == hv_enc(0, canon_hv(1)) && e[1].1 == v.y->Some_0.enc() && key_of(e[1]) == 1); let keys = seq![0int, 1int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapOpts::dec_ok(s, i) && MapOpts::dec_end(s, i) == i + v.enc().len() && forall|w: MapOpts| #[trigger] MapOpts::dec_rel(s, i, w) ==> eq_MapOpts(e0, e1, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is Some && v.y is None { lemma_codec(v.x->Some_0, e0); lemma_num(0); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 0); let keys = seq![0int, 1int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapOpts::dec_ok(s, i) && MapOpts::dec_end(s, i) == i + v.enc().len() && forall|w: MapOpts| #[trigger] MapOpts::dec_rel(s, i, w) ==> eq_MapOpts(e0, e1, v, w) by { lemma_map(s, i, 1, e); } }
      if v.x is None && v.y is Some { lemma_codec(v.y->Some_0, e1); lemma_num(1); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(1)), v.y->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(1)), v.y->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(1)) && e[0].1 == v.y->Some_0.enc() && key_of(e[0]) == 1); let keys = seq![0int, 1int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapOpts::dec_ok(s, i) && MapOpts::dec_end(s, i) == i + v.enc().len() && forall|w: MapOpts| #[trigger] MapOpts::dec_rel(s, i, w) ==> eq_MapOpts(e0, e1, v, w) by { lemma_map(s, i, 1, e); } }
      if v.x is None && v.y is None {  let e = Seq::<(Seq<u8>, Seq<u8>)>::empty(); assert(catp(e) =~= v.body()); assert(v.count() == 0); assert(v.content() =~= hv_enc(5, canon_hv(0)) + catp(e)); let keys = seq![0int, 1int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 1int); assert(among(keys, 1int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapOpts::dec_ok(s, i) && MapOpts::dec_end(s, i) == i + v.enc().len() && forall|w: MapOpts| #[trigger] MapOpts::dec_rel(s, i, w) ==> eq_MapOpts(e0, e1, v, w) by { lemma_map(s, i, 0, e); } }
  }
  pub open spec fn eq_MapStart(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapStart, b: MapStart) -> bool { eq_opt(e0, a.x, b.x) && e1(a.y, b.y) }
  proof fn c20_MapStart(v: MapStart, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), codec(v.y, e1)
      ensures codec(v, |a: MapStart, b: MapStart| eq_MapStart(e0, e1, a, b))
  {
      if v.x is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y, e1); lemma_num(5); lemma_num(6); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(5)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(5)), v.x->Some_0.enc())), hv_enc(0, canon_hv(6)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(5)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(6)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(5)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 5); assert(e[1].0 == hv_enc(0, canon_hv(6)) && e[1].1 == v.y.enc() && key_of(e[1]) == 6); let keys = seq![5int, 6int]; assert(keys[0] == 5int); assert(among(keys, 5int)); assert(keys[1] == 6int); assert(among(keys, 6int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapStart::dec_ok(s, i) && MapStart::dec_end(s, i) == i + v.enc().len() && forall|w: MapStart| #[trigger] MapStart::dec_rel(s, i, w) ==> eq_MapStart(e0, e1, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is None { lemma_codec(v.y, e1); lemma_num(6); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(6)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(6)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(6)) && e[0].1 == v.y.enc() && key_of(e[0]) == 6); let keys = seq![5int, 6int]; assert(keys[0] == 5int); assert(among(keys, 5int)); assert(keys[1] == 6int); assert(among(keys, 6int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapStart::dec_ok(s, i) && MapStart::dec_end(s, i) == i + v.enc().len() && forall|w: MapStart| #[trigger] MapStart::dec_rel(s, i, w) ==> eq_MapStart(e0, e1, v, w) by { lemma_map(s, i, 1, e); } }
  }
  pub open spec fn eq_MapSkip(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: MapSkip, b: MapSkip) -> bool { eq_opt(e0, a.x, b.x) && e1(a.y, b.y) && eq_opt(e2, a.z, b.z) }
  proof fn c20_MapSkip(v: MapSkip, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), codec(v.y, e1), (v.z is Some ==> codec(v.z->Some_0, e2))
      ensures codec(v, |a: MapSkip, b: MapSkip| eq_MapSkip(e0, e1, e2, a, b))
  {
      if v.x is Some && v.z is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y, e1); lemma_codec(v.z->Some_0, e2); lemma_num(0); lemma_num(3); lemma_num(5); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())), hv_enc(0, canon_hv(3)), v.y.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(3)), v.y.enc())), hv_enc(0, canon_hv(5)), v.z->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(3)), v.y.enc())).push((hv_enc(0, canon_hv(5)), v.z->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 3); assert(v.content() =~= hv_enc(5, canon_hv(3)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 0); assert(e[1].0 == hv_enc(0, canon_hv(3)) && e[1].1 == v.y.enc() && key_of(e[1]) == 3); assert(e[2].0 == hv_enc(0, canon_hv(5)) && e[2].1 == v.z->Some_0.enc() && key_of(e[2]) == 5); let keys = seq![0int, 3int, 5int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 3int); assert(among(keys, 3int)); assert(keys[2] == 5int); assert(among(keys, 5int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapSkip::dec_ok(s, i) && MapSkip::dec_end(s, i) == i + v.enc().len() && forall|w: MapSkip| #[trigger] MapSkip::dec_rel(s, i, w) ==> eq_MapSkip(e0, e1, e2, v, w) by { lemma_map(s, i, 3, e); } }
      if v.x is Some && v.z is None { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y, e1); lemma_num(0); lemma_num(3); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(0)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())), hv_enc(0, canon_hv(3)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(0)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(3)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(0)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 0); assert(e[1].0 == hv_enc(0, canon_hv(3)) && e[1].1 == v.y.enc() && key_of(e[1]) == 3); let keys = seq![0int, 3int, 5int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 3int); assert(among(keys, 3int)); assert(keys[2] == 5int); assert(among(keys, 5int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapSkip::dec_ok(s, i) && MapSkip::dec_end(s, i) == i + v.enc().len() && forall|w: MapSkip| #[trigger] MapSkip::dec_rel(s, i, w) ==> eq_MapSkip(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is None && v.z is Some { lemma_codec(v.y, e1); lemma_codec(v.z->Some_0, e2); lemma_num(3); lemma_num(5); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(3)), v.y.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(3)), v.y.enc())), hv_enc(0, canon_hv(5)), v.z->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(3)), v.y.enc())).push((hv_enc(0, canon_hv(5)), v.z->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(3)) && e[0].1 == v.y.enc() && key_of(e[0]) == 3); assert(e[1].0 == hv_enc(0, canon_hv(5)) && e[1].1 == v.z->Some_0.enc() && key_of(e[1]) == 5); let keys = seq![0int, 3int, 5int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 3int); assert(among(keys, 3int)); assert(keys[2] == 5int); assert(among(keys, 5int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapSkip::dec_ok(s, i) && MapSkip::dec_end(s, i) == i + v.enc().len() && forall|w: MapSkip| #[trigger] MapSkip::dec_rel(s, i, w) ==> eq_MapSkip(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is None && v.z is None { lemma_codec(v.y, e1); lemma_num(3); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(3)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(3)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(3)) && e[0].1 == v.y.enc() && key_of(e[0]) == 3); let keys = seq![0int, 3int, 5int]; assert(keys[0] == 0int); assert(among(keys, 0int)); assert(keys[1] == 3int); assert(among(keys, 3int)); assert(keys[2] == 5int); assert(among(keys, 5int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapSkip::dec_ok(s, i) && MapSkip::dec_end(s, i) == i + v.enc().len() && forall|w: MapSkip| #[trigger] MapSkip::dec_rel(s, i, w) ==> eq_MapSkip(e0, e1, e2, v, w) by { lemma_map(s, i, 1, e); } }
  }
  pub open spec fn eq_MapSkipFirst(e0: spec_fn(F0, F0) -> bool, a: MapSkipFirst, b: MapSkipFirst) -> bool { e0(a.x, b.x) }
  proof fn c20_MapSkipFirst(v: MapSkipFirst, e0: spec_fn(F0, F0) -> bool)
      requires codec(v.x, e0)
      ensures codec(v, |a: MapSkipFirst, b: MapSkipFirst| eq_MapSkipFirst(e0, a, b))
  {
      lemma_codec(v.x, e0); lemma_num(1); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(1)), v.x.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(1)), v.x.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(1)) && e[0].1 == v.x.enc() && key_of(e[0]) == 1); let keys = seq![1int]; assert(keys[0] == 1int); assert(among(keys, 1int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapSkipFirst::dec_ok(s, i) && MapSkipFirst::dec_end(s, i) == i + v.enc().len() && forall|w: MapSkipFirst| #[trigger] MapSkipFirst::dec_rel(s, i, w) ==> eq_MapSkipFirst(e0, v, w) by { lemma_map(s, i, 1, e); }
  }
  pub open spec fn eq_MapTag(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapTag, b: MapTag) -> bool { eq_opt(e0, a.x, b.x) && e1(a.y, b.y) }
  proof fn c20_MapTag(v: MapTag, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), codec(v.y, e1)
      ensures codec(v, |a: MapTag, b: MapTag| eq_MapTag(e0, e1, a, b))
  {
      if v.x is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y, e1); lemma_num(23); lemma_num(25); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(23)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(23)), v.x->Some_0.enc())), hv_enc(0, canon_hv(25)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(23)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(25)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(23)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 23); assert(e[1].0 == hv_enc(0, canon_hv(25)) && e[1].1 == v.y.enc() && key_of(e[1]) == 25); let keys = seq![23int, 25int]; assert(keys[0] == 23int); assert(among(keys, 23int)); assert(keys[1] == 25int); assert(among(keys, 25int)); lemma_whole_at(v.content()); lemma_map(v.content(), 0, 2, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapTag::dec_ok(s, i) && MapTag::dec_end(s, i) == i + v.enc().len() && forall|w: MapTag| #[trigger] MapTag::dec_rel(s, i, w) ==> eq_MapTag(e0, e1, v, w) by { lemma_tag(s, i, 1000, v.content()); } }
      if v.x is None { lemma_codec(v.y, e1); lemma_num(25); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(25)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(25)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(25)) && e[0].1 == v.y.enc() && key_of(e[0]) == 25); let keys = seq![23int, 25int]; assert(keys[0] == 23int); assert(among(keys, 23int)); assert(keys[1] == 25int); assert(among(keys, 25int)); lemma_whole_at(v.content()); lemma_map(v.content(), 0, 1, e); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapTag::dec_ok(s, i) && MapTag::dec_end(s, i) == i + v.enc().len() && forall|w: MapTag| #[trigger] MapTag::dec_rel(s, i, w) ==> eq_MapTag(e0, e1, v, w) by { lemma_tag(s, i, 1000, v.content()); } }
  }
  pub open spec fn eq_MapHigh(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapHigh, b: MapHigh) -> bool { e0(a.x, b.x) && eq_opt(e1, a.y, b.y) }
  proof fn c20_MapHigh(v: MapHigh, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires codec(v.x, e0), (v.y is Some ==> codec(v.y->Some_0, e1))
      ensures codec(v, |a: MapHigh, b: MapHigh| eq_MapHigh(e0, e1, a, b))
  {
      if v.y is Some { lemma_codec(v.x, e0); lemma_codec(v.y->Some_0, e1); lemma_num(4294967295); lemma_num(4294967296); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(4294967295)), v.x.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(4294967295)), v.x.enc())), hv_enc(0, canon_hv(4294967296)), v.y->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(4294967295)), v.x.enc())).push((hv_enc(0, canon_hv(4294967296)), v.y->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(4294967295)) && e[0].1 == v.x.enc() && key_of(e[0]) == 4294967295); assert(e[1].0 == hv_enc(0, canon_hv(4294967296)) && e[1].1 == v.y->Some_0.enc() && key_of(e[1]) == 4294967296); let keys = seq![4294967295int, 4294967296int]; assert(keys[0] == 4294967295int); assert(among(keys, 4294967295int)); assert(keys[1] == 4294967296int); assert(among(keys, 4294967296int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapHigh::dec_ok(s, i) && MapHigh::dec_end(s, i) == i + v.enc().len() && forall|w: MapHigh| #[trigger] MapHigh::dec_rel(s, i, w) ==> eq_MapHigh(e0, e1, v, w) by { lemma_map(s, i, 2, e); } }
      if v.y is None { lemma_codec(v.x, e0); lemma_num(4294967295); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(4294967295)), v.x.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(4294967295)), v.x.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(4294967295)) && e[0].1 == v.x.enc() && key_of(e[0]) == 4294967295); let keys = seq![4294967295int, 4294967296int]; assert(keys[0] == 4294967295int); assert(among(keys, 4294967295int)); assert(keys[1] == 4294967296int); assert(among(keys, 4294967296int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapHigh::dec_ok(s, i) && MapHigh::dec_end(s, i) == i + v.enc().len() && forall|w: MapHigh| #[trigger] MapHigh::dec_rel(s, i, w) ==> eq_MapHigh(e0, e1, v, w) by { lemma_map(s, i, 1, e); } }
  }
  pub open spec fn eq_MapOrder(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: MapOrder, b: MapOrder) -> bool { e0(a.x, b.x) && eq_opt(e1, a.y, b.y) && e2(a.z, b.z) }
  proof fn c20_MapOrder(v: MapOrder, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires codec(v.x, e0), (v.y is Some ==> codec(v.y->Some_0, e1)), codec(v.z, e2)
      ensures codec(v, |a: MapOrder, b: MapOrder| eq_MapOrder(e0, e1, e2, a, b))
  {
      if v.y is Some { lemma_codec(v.x, e0); lemma_codec(v.y->Some_0, e1); lemma_codec(v.z, e2); lemma_num(1); lemma_num(3); lemma_num(5); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(1)), v.x.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(1)), v.x.enc())), hv_enc(0, canon_hv(3)), v.y->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(1)), v.x.enc())).push((hv_enc(0, canon_hv(3)), v.y->Some_0.enc())), hv_enc(0, canon_hv(5)), v.z.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(1)), v.x.enc())).push((hv_enc(0, canon_hv(3)), v.y->Some_0.enc())).push((hv_enc(0, canon_hv(5)), v.z.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 3); assert(v.content() =~= hv_enc(5, canon_hv(3)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(1)) && e[0].1 == v.x.enc() && key_of(e[0]) == 1); assert(e[1].0 == hv_enc(0, canon_hv(3)) && e[1].1 == v.y->Some_0.enc() && key_of(e[1]) == 3); assert(e[2].0 == hv_enc(0, canon_hv(5)) && e[2].1 == v.z.enc() && key_of(e[2]) == 5); let keys = seq![1int, 3int, 5int]; assert(keys[0] == 1int); assert(among(keys, 1int)); assert(keys[1] == 3int); assert(among(keys, 3int)); assert(keys[2] == 5int); assert(among(keys, 5int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapOrder::dec_ok(s, i) && MapOrder::dec_end(s, i) == i + v.enc().len() && forall|w: MapOrder| #[trigger] MapOrder::dec_rel(s, i, w) ==> eq_MapOrder(e0, e1, e2, v, w) by { lemma_map(s, i, 3, e); } }
      if v.y is None { lemma_codec(v.x, e0); lemma_codec(v.z, e2); lemma_num(1); lemma_num(5); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(1)), v.x.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(1)), v.x.enc())), hv_enc(0, canon_hv(5)), v.z.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(1)), v.x.enc())).push((hv_enc(0, canon_hv(5)), v.z.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(1)) && e[0].1 == v.x.enc() && key_of(e[0]) == 1); assert(e[1].0 == hv_enc(0, canon_hv(5)) && e[1].1 == v.z.enc() && key_of(e[1]) == 5); let keys = seq![1int, 3int, 5int]; assert(keys[0] == 1int); assert(among(keys, 1int)); assert(keys[1] == 3int); assert(among(keys, 3int)); assert(keys[2] == 5int); assert(among(keys, 5int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapOrder::dec_ok(s, i) && MapOrder::dec_end(s, i) == i + v.enc().len() && forall|w: MapOrder| #[trigger] MapOrder::dec_rel(s, i, w) ==> eq_MapOrder(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
  }
  pub open spec fn eq_MapBelow(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapBelow, b: MapBelow) -> bool { eq_opt(e0, a.x, b.x) && e1(a.y, b.y) }
  proof fn c20_MapBelow(v: MapBelow, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), codec(v.y, e1)
      ensures codec(v, |a: MapBelow, b: MapBelow| eq_MapBelow(e0, e1, a, b))
  {
      if v.x is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y, e1); lemma_num(5); lemma_num(7); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(5)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(5)), v.x->Some_0.enc())), hv_enc(0, canon_hv(7)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(5)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(7)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(5)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 5); assert(e[1].0 == hv_enc(0, canon_hv(7)) && e[1].1 == v.y.enc() && key_of(e[1]) == 7); let keys = seq![5int, 7int]; assert(keys[0] == 5int); assert(among(keys, 5int)); assert(keys[1] == 7int); assert(among(keys, 7int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapBelow::dec_ok(s, i) && MapBelow::dec_end(s, i) == i + v.enc().len() && forall|w: MapBelow| #[trigger] MapBelow::dec_rel(s, i, w) ==> eq_MapBelow(e0, e1, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is None { lemma_codec(v.y, e1); lemma_num(7); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(7)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(7)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(7)) && e[0].1 == v.y.enc() && key_of(e[0]) == 7); let keys = seq![5int, 7int]; assert(keys[0] == 5int); assert(among(keys, 5int)); assert(keys[1] == 7int); assert(among(keys, 7int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapBelow::dec_ok(s, i) && MapBelow::dec_end(s, i) == i + v.enc().len() && forall|w: MapBelow| #[trigger] MapBelow::dec_rel(s, i, w) ==> eq_MapBelow(e0, e1, v, w) by { lemma_map(s, i, 1, e); } }
  }
  pub open spec fn eq_MapTop(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: MapTop, b: MapTop) -> bool { eq_opt(e0, a.x, b.x) && e1(a.y, b.y) }
  proof fn c20_MapTop(v: MapTop, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), codec(v.y, e1)
      ensures codec(v, |a: MapTop, b: MapTop| eq_MapTop(e0, e1, a, b))
  {
      if v.x is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y, e1); lemma_num(18446744073709551613); lemma_num(18446744073709551615); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(18446744073709551613)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(18446744073709551613)), v.x->Some_0.enc())), hv_enc(0, canon_hv(18446744073709551615)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(18446744073709551613)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(18446744073709551615)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(18446744073709551613)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 18446744073709551613); assert(e[1].0 == hv_enc(0, canon_hv(18446744073709551615)) && e[1].1 == v.y.enc() && key_of(e[1]) == 18446744073709551615); let keys = seq![18446744073709551613int, 18446744073709551615int]; assert(keys[0] == 18446744073709551613int); assert(among(keys, 18446744073709551613int)); assert(keys[1] == 18446744073709551615int); assert(among(keys, 18446744073709551615int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapTop::dec_ok(s, i) && MapTop::dec_end(s, i) == i + v.enc().len() && forall|w: MapTop| #[trigger] MapTop::dec_rel(s, i, w) ==> eq_MapTop(e0, e1, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is None { lemma_codec(v.y, e1); lemma_num(18446744073709551615); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(18446744073709551615)), v.y.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(18446744073709551615)), v.y.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(18446744073709551615)) && e[0].1 == v.y.enc() && key_of(e[0]) == 18446744073709551615); let keys = seq![18446744073709551613int, 18446744073709551615int]; assert(keys[0] == 18446744073709551613int); assert(among(keys, 18446744073709551613int)); assert(keys[1] == 18446744073709551615int); assert(among(keys, 18446744073709551615int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapTop::dec_ok(s, i) && MapTop::dec_end(s, i) == i + v.enc().len() && forall|w: MapTop| #[trigger] MapTop::dec_rel(s, i, w) ==> eq_MapTop(e0, e1, v, w) by { lemma_map(s, i, 1, e); } }
  }
  pub open spec fn eq_MapEdge(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, a: MapEdge, b: MapEdge) -> bool { eq_opt(e0, a.x, b.x) && eq_opt(e1, a.y, b.y) && eq_opt(e2, a.z, b.z) }
  proof fn c20_MapEdge(v: MapEdge, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool)
      requires (v.x is Some ==> codec(v.x->Some_0, e0)), (v.y is Some ==> codec(v.y->Some_0, e1)), (v.z is Some ==> codec(v.z->Some_0, e2))
      ensures codec(v, |a: MapEdge, b: MapEdge| eq_MapEdge(e0, e1, e2, a, b))
  {
      if v.x is Some && v.y is Some && v.z is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y->Some_0, e1); lemma_codec(v.z->Some_0, e2); lemma_num(254); lemma_num(255); lemma_num(257); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(254)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())), hv_enc(0, canon_hv(255)), v.y->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(255)), v.y->Some_0.enc())), hv_enc(0, canon_hv(257)), v.z->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(255)), v.y->Some_0.enc())).push((hv_enc(0, canon_hv(257)), v.z->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 3); assert(v.content() =~= hv_enc(5, canon_hv(3)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(254)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 254); assert(e[1].0 == hv_enc(0, canon_hv(255)) && e[1].1 == v.y->Some_0.enc() && key_of(e[1]) == 255); assert(e[2].0 == hv_enc(0, canon_hv(257)) && e[2].1 == v.z->Some_0.enc() && key_of(e[2]) == 257); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 3, e); } }
      if v.x is Some && v.y is Some && v.z is None { lemma_codec(v.x->Some_0, e0); lemma_codec(v.y->Some_0, e1); lemma_num(254); lemma_num(255); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(254)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())), hv_enc(0, canon_hv(255)), v.y->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(255)), v.y->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(254)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 254); assert(e[1].0 == hv_enc(0, canon_hv(255)) && e[1].1 == v.y->Some_0.enc() && key_of(e[1]) == 255); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is Some && v.y is None && v.z is Some { lemma_codec(v.x->Some_0, e0); lemma_codec(v.z->Some_0, e2); lemma_num(254); lemma_num(257); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(254)), v.x->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())), hv_enc(0, canon_hv(257)), v.z->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())).push((hv_enc(0, canon_hv(257)), v.z->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(254)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 254); assert(e[1].0 == hv_enc(0, canon_hv(257)) && e[1].1 == v.z->Some_0.enc() && key_of(e[1]) == 257); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is Some && v.y is None && v.z is None { lemma_codec(v.x->Some_0, e0); lemma_num(254); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(254)), v.x->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(254)), v.x->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(254)) && e[0].1 == v.x->Some_0.enc() && key_of(e[0]) == 254); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 1, e); } }
      if v.x is None && v.y is Some && v.z is Some { lemma_codec(v.y->Some_0, e1); lemma_codec(v.z->Some_0, e2); lemma_num(255); lemma_num(257); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(255)), v.y->Some_0.enc()); lemma_catp_push(Seq::empty().push((hv_enc(0, canon_hv(255)), v.y->Some_0.enc())), hv_enc(0, canon_hv(257)), v.z->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(255)), v.y->Some_0.enc())).push((hv_enc(0, canon_hv(257)), v.z->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 2); assert(v.content() =~= hv_enc(5, canon_hv(2)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(255)) && e[0].1 == v.y->Some_0.enc() && key_of(e[0]) == 255); assert(e[1].0 == hv_enc(0, canon_hv(257)) && e[1].1 == v.z->Some_0.enc() && key_of(e[1]) == 257); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 2, e); } }
      if v.x is None && v.y is Some && v.z is None { lemma_codec(v.y->Some_0, e1); lemma_num(255); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(255)), v.y->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(255)), v.y->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(255)) && e[0].1 == v.y->Some_0.enc() && key_of(e[0]) == 255); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 1, e); } }
      if v.x is None && v.y is None && v.z is Some { lemma_codec(v.z->Some_0, e2); lemma_num(257); lemma_catp_push(Seq::empty(), hv_enc(0, canon_hv(257)), v.z->Some_0.enc()); let e = Seq::empty().push((hv_enc(0, canon_hv(257)), v.z->Some_0.enc())); assert(catp(e) =~= v.body()); assert(v.count() == 1); assert(v.content() =~= hv_enc(5, canon_hv(1)) + catp(e)); assert(e[0].0 == hv_enc(0, canon_hv(257)) && e[0].1 == v.z->Some_0.enc() && key_of(e[0]) == 257); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 1, e); } }
      if v.x is None && v.y is None && v.z is None {  let e = Seq::<(Seq<u8>, Seq<u8>)>::empty(); assert(catp(e) =~= v.body()); assert(v.count() == 0); assert(v.content() =~= hv_enc(5, canon_hv(0)) + catp(e)); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254int); assert(among(keys, 254int)); assert(keys[1] == 255int); assert(among(keys, 255int)); assert(keys[2] == 257int); assert(among(keys, 257int)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && MapEdge::dec_ok(s, i) && MapEdge::dec_end(s, i) == i + v.enc().len() && forall|w: MapEdge| #[trigger] MapEdge::dec_rel(s, i, w) ==> eq_MapEdge(e0, e1, e2, v, w) by { lemma_map(s, i, 0, e); } }
  }
  pub open spec fn eq_Code(a: Code, b: Code) -> bool { match (a, b) { (Code::A, Code::A) => true, (Code::B, Code::B) => true, (Code::C, Code::C) => true, _ => false } }
  proof fn c19_Code(v: Code)
      ensures codec(v, |a: Code, b: Code| eq_Code(a, b))
  {
      match v {
          Code::A => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Code::dec_ok(s, i) && Code::dec_end(s, i) == i + v.enc().len() && forall|w: Code| #[trigger] Code::dec_rel(s, i, w) ==> eq_Code(v, w) by { lemma_num_at(s, i, 0); } },
          Code::B => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Code::dec_ok(s, i) && Code::dec_end(s, i) == i + v.enc().len() && forall|w: Code| #[trigger] Code::dec_rel(s, i, w) ==> eq_Code(v, w) by { lemma_num_at(s, i, 1); } },
          Code::C => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Code::dec_ok(s, i) && Code::dec_end(s, i) == i + v.enc().len() && forall|w: Code| #[trigger] Code::dec_rel(s, i, w) ==> eq_Code(v, w) by { lemma_num_at(s, i, 2); } },
      }
  }
  pub open spec fn eq_CodeStart(a: CodeStart, b: CodeStart) -> bool { match (a, b) { (CodeStart::A, CodeStart::A) => true, (CodeStart::B, CodeStart::B) => true, (CodeStart::C, CodeStart::C) => true, _ => false } }
  proof fn c19_CodeStart(v: CodeStart)
      ensures codec(v, |a: CodeStart, b: CodeStart| eq_CodeStart(a, b))
  {
      match v {
          CodeStart::A => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeStart::dec_ok(s, i) && CodeStart::dec_end(s, i) == i + v.enc().len() && forall|w: CodeStart| #[trigger] CodeStart::dec_rel(s, i, w) ==> eq_CodeStart(v, w) by { lemma_num_at(s, i, 3); } },
          CodeStart::B => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeStart::dec_ok(s, i) && CodeStart::dec_end(s, i) == i + v.enc().len() && forall|w: CodeStart| #[trigger] CodeStart::dec_rel(s, i, w) ==> eq_CodeStart(v, w) by { lemma_num_at(s, i, 4); } },
          CodeStart::C => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeStart::dec_ok(s, i) && CodeStart::dec_end(s, i) == i + v.enc().len() && forall|w: CodeStart| #[trigger] CodeStart::dec_rel(s, i, w) ==> eq_CodeStart(v, w) by { lemma_num_at(s, i, 5); } },
      }
  }
  pub open spec fn eq_CodeSkip(a: CodeSkip, b: CodeSkip) -> bool { match (a, b) { (CodeSkip::A, CodeSkip::A) => true, (CodeSkip::B, CodeSkip::B) => true, (CodeSkip::C, CodeSkip::C) => true, (CodeSkip::D, CodeSkip::D) => true, _ => false } }
  proof fn c19_CodeSkip(v: CodeSkip)
      ensures codec(v, |a: CodeSkip, b: CodeSkip| eq_CodeSkip(a, b))
  {
      match v {
          CodeSkip::A => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkip::dec_ok(s, i) && CodeSkip::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkip| #[trigger] CodeSkip::dec_rel(s, i, w) ==> eq_CodeSkip(v, w) by { lemma_num_at(s, i, 23); } },
          CodeSkip::B => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkip::dec_ok(s, i) && CodeSkip::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkip| #[trigger] CodeSkip::dec_rel(s, i, w) ==> eq_CodeSkip(v, w) by { lemma_num_at(s, i, 26); } },
          CodeSkip::C => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkip::dec_ok(s, i) && CodeSkip::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkip| #[trigger] CodeSkip::dec_rel(s, i, w) ==> eq_CodeSkip(v, w) by { lemma_num_at(s, i, 27); } },
          CodeSkip::D => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkip::dec_ok(s, i) && CodeSkip::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkip| #[trigger] CodeSkip::dec_rel(s, i, w) ==> eq_CodeSkip(v, w) by { lemma_num_at(s, i, 28); } },
      }
  }
  pub open spec fn eq_CodeSkipTwo(a: CodeSkipTwo, b: CodeSkipTwo) -> bool { match (a, b) { (CodeSkipTwo::A, CodeSkipTwo::A) => true, (CodeSkipTwo::B, CodeSkipTwo::B) => true, (CodeSkipTwo::C, CodeSkipTwo::C) => true, _ => false } }
  proof fn c19_CodeSkipTwo(v: CodeSkipTwo)
      ensures codec(v, |a: CodeSkipTwo, b: CodeSkipTwo| eq_CodeSkipTwo(a, b))
  {
      match v {
          CodeSkipTwo::A => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkipTwo::dec_ok(s, i) && CodeSkipTwo::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkipTwo| #[trigger] CodeSkipTwo::dec_rel(s, i, w) ==> eq_CodeSkipTwo(v, w) by { lemma_num_at(s, i, 0); } },
          CodeSkipTwo::B => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkipTwo::dec_ok(s, i) && CodeSkipTwo::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkipTwo| #[trigger] CodeSkipTwo::dec_rel(s, i, w) ==> eq_CodeSkipTwo(v, w) by { lemma_num_at(s, i, 2); } },
          CodeSkipTwo::C => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeSkipTwo::dec_ok(s, i) && CodeSkipTwo::dec_end(s, i) == i + v.enc().len() && forall|w: CodeSkipTwo| #[trigger] CodeSkipTwo::dec_rel(s, i, w) ==> eq_CodeSkipTwo(v, w) by { lemma_num_at(s, i, 4); } },
      }
  }
  pub open spec fn eq_CodeMany(a: CodeMany, b: CodeMany) -> bool { match (a, b) { (CodeMany::V0, CodeMany::V0) => true, (CodeMany::V1, CodeMany::V1) => true, (CodeMany::V2, CodeMany::V2) => true, (CodeMany::V3, CodeMany::V3) => true, (CodeMany::V4, CodeMany::V4) => true, (CodeMany::V5, CodeMany::V5) => true, (CodeMany::V6, CodeMany::V6) => true, (CodeMany::V7, CodeMany::V7) => true, (CodeMany::V8, CodeMany::V8) => true, (CodeMany::V9, CodeMany::V9) => true, (CodeMany::V10, CodeMany::V10) => true, (CodeMany::V11, CodeMany::V11) => true, (CodeMany::V12, CodeMany::V12) => true, (CodeMany::V13, CodeMany::V13) => true, (CodeMany::V14, CodeMany::V14) => true, (CodeMany::V15, CodeMany::V15) => true, (CodeMany::V16, CodeMany::V16) => true, (CodeMany::V17, CodeMany::V17) => true, (CodeMany::V18, CodeMany::V18) => true, (CodeMany::V19, CodeMany::V19) => true, (CodeMany::V20, CodeMany::V20) => true, (CodeMany::V21, CodeMany::V21) => true, (CodeMany::V22, CodeMany::V22) => true, (CodeMany::V23, CodeMany::V23) => true, (CodeMany::V24, CodeMany::V24) => true, (CodeMany::V25, CodeMany::V25) => true, (CodeMany::V26, CodeMany::V26) => true, _ => false } }
  proof fn c19_CodeMany(v: CodeMany)
      ensures codec(v, |a: CodeMany, b: CodeMany| eq_CodeMany(a, b))
  {
      match v {
          CodeMany::V0 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 0); } },
          CodeMany::V1 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 1); } },
          CodeMany::V2 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 2); } },
          CodeMany::V3 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 3); } },
          CodeMany::V4 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 4); } },
          CodeMany::V5 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 5); } },
          CodeMany::V6 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 6); } },
          CodeMany::V7 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 7); } },
          CodeMany::V8 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 8); } },
          CodeMany::V9 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 9); } },
          CodeMany::V10 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 10); } },
          CodeMany::V11 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 11); } },
          CodeMany::V12 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 12); } },
          CodeMany::V13 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 13); } },
          CodeMany::V14 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 14); } },
          CodeMany::V15 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 15); } },
          CodeMany::V16 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 16); } },
          CodeMany::V17 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 17); } },
          CodeMany::V18 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 18); } },
          CodeMany::V19 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 19); } },
          CodeMany::V20 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 20); } },
          CodeMany::V21 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 21); } },
          CodeMany::V22 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 22); } },
          CodeMany::V23 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 24); } },
          CodeMany::V24 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 25); } },
          CodeMany::V25 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 26); } },
          CodeMany::V26 => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeMany::dec_ok(s, i) && CodeMany::dec_end(s, i) == i + v.enc().len() && forall|w: CodeMany| #[trigger] CodeMany::dec_rel(s, i, w) ==> eq_CodeMany(v, w) by { lemma_num_at(s, i, 27); } },
      }
  }
  pub open spec fn eq_CodeHigh(a: CodeHigh, b: CodeHigh) -> bool { match (a, b) { (CodeHigh::A, CodeHigh::A) => true, (CodeHigh::B, CodeHigh::B) => true, (CodeHigh::C, CodeHigh::C) => true, _ => false } }
  proof fn c19_CodeHigh(v: CodeHigh)
      ensures codec(v, |a: CodeHigh, b: CodeHigh| eq_CodeHigh(a, b))
  {
      match v {
          CodeHigh::A => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeHigh::dec_ok(s, i) && CodeHigh::dec_end(s, i) == i + v.enc().len() && forall|w: CodeHigh| #[trigger] CodeHigh::dec_rel(s, i, w) ==> eq_CodeHigh(v, w) by { lemma_num_at(s, i, 4294967295); } },
          CodeHigh::B => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeHigh::dec_ok(s, i) && CodeHigh::dec_end(s, i) == i + v.enc().len() && forall|w: CodeHigh| #[trigger] CodeHigh::dec_rel(s, i, w) ==> eq_CodeHigh(v, w) by { lemma_num_at(s, i, 4294967296); } },
          CodeHigh::C => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeHigh::dec_ok(s, i) && CodeHigh::dec_end(s, i) == i + v.enc().len() && forall|w: CodeHigh| #[trigger] CodeHigh::dec_rel(s, i, w) ==> eq_CodeHigh(v, w) by { lemma_num_at(s, i, 4294967297); } },
      }
  }
  pub open spec fn eq_CodeEdge(a: CodeEdge, b: CodeEdge) -> bool { match (a, b) { (CodeEdge::A, CodeEdge::A) => true, (CodeEdge::B, CodeEdge::B) => true, (CodeEdge::C, CodeEdge::C) => true, _ => false } }
  proof fn c19_CodeEdge(v: CodeEdge)
      ensures codec(v, |a: CodeEdge, b: CodeEdge| eq_CodeEdge(a, b))
  {
      match v {
          CodeEdge::A => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeEdge::dec_ok(s, i) && CodeEdge::dec_end(s, i) == i + v.enc().len() && forall|w: CodeEdge| #[trigger] CodeEdge::dec_rel(s, i, w) ==> eq_CodeEdge(v, w) by { lemma_num_at(s, i, 255); } },
          CodeEdge::B => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeEdge::dec_ok(s, i) && CodeEdge::dec_end(s, i) == i + v.enc().len() && forall|w: CodeEdge| #[trigger] CodeEdge::dec_rel(s, i, w) ==> eq_CodeEdge(v, w) by { lemma_num_at(s, i, 257); } },
          CodeEdge::C => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && CodeEdge::dec_ok(s, i) && CodeEdge::dec_end(s, i) == i + v.enc().len() && forall|w: CodeEdge| #[trigger] CodeEdge::dec_rel(s, i, w) ==> eq_CodeEdge(v, w) by { lemma_num_at(s, i, 258); } },
      }
  }
  pub open spec fn eq_VarHigh(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F3, F3) -> bool, e4: spec_fn(F4, F4) -> bool, a: VarHigh, b: VarHigh) -> bool { match (a, b) { (VarHigh::A(a0), VarHigh::A(b0)) => e0(a0, b0), (VarHigh::B, VarHigh::B) => true, (VarHigh::C { x: ax, y: ay, z: az, w: aw }, VarHigh::C { x: bx, y: by, z: bz, w: bw }) => e1(ax, bx) && e2(ay, by) && e3(az, bz) && e4(aw, bw), _ => false } }
  proof fn c19_VarHigh(v: VarHigh, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F3, F3) -> bool, e4: spec_fn(F4, F4) -> bool)
      requires match v { VarHigh::A(f0) => codec(f0, e0), VarHigh::B => true, VarHigh::C { x: fx, y: fy, z: fz, w: fw } => codec(fx, e1) && codec(fy, e2) && codec(fz, e3) && codec(fw, e4) }
      ensures codec(v, |a: VarHigh, b: VarHigh| eq_VarHigh(e0, e1, e2, e3, e4, a, b))
  {
      match v {
          VarHigh::A(f0) => { lemma_codec(f0, e0); lemma_num(65535); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(65535))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(65535))), f0.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(65535))).push(f0.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(65535))); assert(e[1] == f0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarHigh::dec_ok(s, i) && VarHigh::dec_end(s, i) == i + v.enc().len() && forall|w: VarHigh| #[trigger] VarHigh::dec_rel(s, i, w) ==> eq_VarHigh(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 2, e); } },
          VarHigh::B => { lemma_num(65536); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(65536))); let e = Seq::empty().push(hv_enc(0, canon_hv(65536))); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(65536))); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarHigh::dec_ok(s, i) && VarHigh::dec_end(s, i) == i + v.enc().len() && forall|w: VarHigh| #[trigger] VarHigh::dec_rel(s, i, w) ==> eq_VarHigh(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 1, e); } },
          VarHigh::C { x: fx, y: fy, z: fz, w: fw } => { lemma_codec(fx, e1); lemma_codec(fy, e2); lemma_codec(fz, e3); lemma_codec(fw, e4); lemma_num(65537); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(65537))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(65537))), fx.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(65537))).push(fx.enc()), fy.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(65537))).push(fx.enc()).push(fy.enc()), fz.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(65537))).push(fx.enc()).push(fy.enc()).push(fz.enc()), fw.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(65537))).push(fx.enc()).push(fy.enc()).push(fz.enc()).push(fw.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(5)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(65537))); assert(e[1] == fx.enc()); assert(e[2] == fy.enc()); assert(e[3] == fz.enc()); assert(e[4] == fw.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarHigh::dec_ok(s, i) && VarHigh::dec_end(s, i) == i + v.enc().len() && forall|w: VarHigh| #[trigger] VarHigh::dec_rel(s, i, w) ==> eq_VarHigh(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 5, e); } },
      }
  }
  pub open spec fn eq_VarEdge(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F0, F0) -> bool, e2: spec_fn(F1, F1) -> bool, a: VarEdge, b: VarEdge) -> bool { match (a, b) { (VarEdge::A, VarEdge::A) => true, (VarEdge::B(a0, a1, a2), VarEdge::B(b0, b1, b2)) => e0(a0, b0) && e1(a1, b1) && e2(a2, b2), _ => false } }
  proof fn c19_VarEdge(v: VarEdge, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F0, F0) -> bool, e2: spec_fn(F1, F1) -> bool)
      requires match v { VarEdge::A => true, VarEdge::B(f0, f1, f2) => codec(f0, e0) && codec(f1, e1) && codec(f2, e2) }
      ensures codec(v, |a: VarEdge, b: VarEdge| eq_VarEdge(e0, e1, e2, a, b))
  {
      match v {
          VarEdge::A => { lemma_num(23); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(23))); let e = Seq::empty().push(hv_enc(0, canon_hv(23))); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(23))); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarEdge::dec_ok(s, i) && VarEdge::dec_end(s, i) == i + v.enc().len() && forall|w: VarEdge| #[trigger] VarEdge::dec_rel(s, i, w) ==> eq_VarEdge(e0, e1, e2, v, w) by { lemma_arr(s, i, 1, e); } },
          VarEdge::B(f0, f1, f2) => { lemma_codec(f0, e0); lemma_codec(f1, e1); lemma_codec(f2, e2); lemma_num(25); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(25))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(25))), f0.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(25))).push(f0.enc()), f1.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(25))).push(f0.enc()).push(f1.enc()), f2.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(25))).push(f0.enc()).push(f1.enc()).push(f2.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(4)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(25))); assert(e[1] == f0.enc()); assert(e[2] == f1.enc()); assert(e[3] == f2.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarEdge::dec_ok(s, i) && VarEdge::dec_end(s, i) == i + v.enc().len() && forall|w: VarEdge| #[trigger] VarEdge::dec_rel(s, i, w) ==> eq_VarEdge(e0, e1, e2, v, w) by { lemma_arr(s, i, 4, e); } },
      }
  }
  pub open spec fn eq_Var(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F3, F3) -> bool, e4: spec_fn(F4, F4) -> bool, a: Var, b: Var) -> bool { match (a, b) { (Var::A, Var::A) => true, (Var::B(a0), Var::B(b0)) => e0(a0, b0), (Var::C { x: ax, y: ay }, Var::C { x: bx, y: by }) => e1(ax, bx) && e2(ay, by), (Var::D(a0, a1), Var::D(b0, b1)) => e3(a0, b0) && e4(a1, b1), _ => false } }
  proof fn c19_Var(v: Var, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F3, F3) -> bool, e4: spec_fn(F4, F4) -> bool)
      requires match v { Var::A => true, Var::B(f0) => codec(f0, e0), Var::C { x: fx, y: fy } => codec(fx, e1) && codec(fy, e2), Var::D(f0, f1) => codec(f0, e3) && codec(f1, e4) }
      ensures codec(v, |a: Var, b: Var| eq_Var(e0, e1, e2, e3, e4, a, b))
  {
      match v {
          Var::A => { lemma_num(0); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(0))); let e = Seq::empty().push(hv_enc(0, canon_hv(0))); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(0))); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Var::dec_ok(s, i) && Var::dec_end(s, i) == i + v.enc().len() && forall|w: Var| #[trigger] Var::dec_rel(s, i, w) ==> eq_Var(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 1, e); } },
          Var::B(f0) => { lemma_codec(f0, e0); lemma_num(1); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(1))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(1))), f0.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(1))).push(f0.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(1))); assert(e[1] == f0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Var::dec_ok(s, i) && Var::dec_end(s, i) == i + v.enc().len() && forall|w: Var| #[trigger] Var::dec_rel(s, i, w) ==> eq_Var(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 2, e); } },
          Var::C { x: fx, y: fy } => { lemma_codec(fx, e1); lemma_codec(fy, e2); lemma_num(2); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(2))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(2))), fx.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(2))).push(fx.enc()), fy.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(2))).push(fx.enc()).push(fy.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(3)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(2))); assert(e[1] == fx.enc()); assert(e[2] == fy.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Var::dec_ok(s, i) && Var::dec_end(s, i) == i + v.enc().len() && forall|w: Var| #[trigger] Var::dec_rel(s, i, w) ==> eq_Var(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 3, e); } },
          Var::D(f0, f1) => { lemma_codec(f0, e3); lemma_codec(f1, e4); lemma_num(3); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(3))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(3))), f0.enc()); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(3))).push(f0.enc()), f1.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(3))).push(f0.enc()).push(f1.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(3)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(3))); assert(e[1] == f0.enc()); assert(e[2] == f1.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && Var::dec_ok(s, i) && Var::dec_end(s, i) == i + v.enc().len() && forall|w: Var| #[trigger] Var::dec_rel(s, i, w) ==> eq_Var(e0, e1, e2, e3, e4, v, w) by { lemma_arr(s, i, 3, e); } },
      }
  }
  pub open spec fn eq_VarPlain(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: VarPlain, b: VarPlain) -> bool { match (a, b) { (VarPlain::A(a0), VarPlain::A(b0)) => e0(a0, b0), (VarPlain::B(a0), VarPlain::B(b0)) => e1(a0, b0), _ => false } }
  proof fn c19_VarPlain(v: VarPlain, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires match v { VarPlain::A(f0) => codec(f0, e0), VarPlain::B(f0) => codec(f0, e1) }
      ensures codec(v, |a: VarPlain, b: VarPlain| eq_VarPlain(e0, e1, a, b))
  {
      match v {
          VarPlain::A(f0) => { lemma_codec(f0, e0); lemma_num(0); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(0))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(0))), f0.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(0))).push(f0.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(0))); assert(e[1] == f0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarPlain::dec_ok(s, i) && VarPlain::dec_end(s, i) == i + v.enc().len() && forall|w: VarPlain| #[trigger] VarPlain::dec_rel(s, i, w) ==> eq_VarPlain(e0, e1, v, w) by { lemma_arr(s, i, 2, e); } },
          VarPlain::B(f0) => { lemma_codec(f0, e1); lemma_num(1); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(1))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(1))), f0.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(1))).push(f0.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(1))); assert(e[1] == f0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarPlain::dec_ok(s, i) && VarPlain::dec_end(s, i) == i + v.enc().len() && forall|w: VarPlain| #[trigger] VarPlain::dec_rel(s, i, w) ==> eq_VarPlain(e0, e1, v, w) by { lemma_arr(s, i, 2, e); } },
      }
  }
  pub open spec fn eq_VarSkip(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, a: VarSkip, b: VarSkip) -> bool { match (a, b) { (VarSkip::A(a0), VarSkip::A(b0)) => e0(a0, b0), (VarSkip::B, VarSkip::B) => true, (VarSkip::C { x: ax }, VarSkip::C { x: bx }) => e1(ax, bx), _ => false } }
  proof fn c19_VarSkip(v: VarSkip, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool)
      requires match v { VarSkip::A(f0) => codec(f0, e0), VarSkip::B => true, VarSkip::C { x: fx } => codec(fx, e1) }
      ensures codec(v, |a: VarSkip, b: VarSkip| eq_VarSkip(e0, e1, a, b))
  {
      match v {
          VarSkip::A(f0) => { lemma_codec(f0, e0); lemma_num(2); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(2))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(2))), f0.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(2))).push(f0.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(2))); assert(e[1] == f0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarSkip::dec_ok(s, i) && VarSkip::dec_end(s, i) == i + v.enc().len() && forall|w: VarSkip| #[trigger] VarSkip::dec_rel(s, i, w) ==> eq_VarSkip(e0, e1, v, w) by { lemma_arr(s, i, 2, e); } },
          VarSkip::B => { lemma_num(4); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(4))); let e = Seq::empty().push(hv_enc(0, canon_hv(4))); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(1)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(4))); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarSkip::dec_ok(s, i) && VarSkip::dec_end(s, i) == i + v.enc().len() && forall|w: VarSkip| #[trigger] VarSkip::dec_rel(s, i, w) ==> eq_VarSkip(e0, e1, v, w) by { lemma_arr(s, i, 1, e); } },
          VarSkip::C { x: fx } => { lemma_codec(fx, e1); lemma_num(7); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(7))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(7))), fx.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(7))).push(fx.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(7))); assert(e[1] == fx.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarSkip::dec_ok(s, i) && VarSkip::dec_end(s, i) == i + v.enc().len() && forall|w: VarSkip| #[trigger] VarSkip::dec_rel(s, i, w) ==> eq_VarSkip(e0, e1, v, w) by { lemma_arr(s, i, 2, e); } },
      }
  }
  pub open spec fn eq_VarVec(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(Vec<u8>, Vec<u8>) -> bool, e3: spec_fn(u8, u8) -> bool, a: VarVec, b: VarVec) -> bool { match (a, b) { (VarVec::A(a0, a1), VarVec::A(b0, b1)) => eq_vec(e0, a0@, b0@) && e1(a1, b1), (VarVec::B(a0), VarVec::B(b0)) => e2(a0, b0), (VarVec::C(a0), VarVec::C(b0)) => eq_vec(e3, a0@, b0@), _ => false } }
  proof fn c19_VarVec(v: VarVec, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(Vec<u8>, Vec<u8>) -> bool, e3: spec_fn(u8, u8) -> bool)
      requires match v { VarVec::A(f0, f1) => (forall|k: int| 0 <= k < f0@.len() ==> codec(#[trigger] f0@[k], e0)) && f0@.len() <= u64::MAX && codec(f1, e1), VarVec::B(f0) => codec(f0, e2), VarVec::C(f0) => (forall|k: int| 0 <= k < f0@.len() ==> codec(#[trigger] f0@[k], e3)) && f0@.len() <= u64::MAX }
      ensures codec(v, |a: VarVec, b: VarVec| eq_VarVec(e0, e1, e2, e3, a, b))
  {
      match v {
          VarVec::A(f0, f1) => { lemma_vec(f0@, e0); lemma_codec(f1, e1); lemma_num(0); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(0))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(0))), vec_enc(f0@)); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(0))).push(vec_enc(f0@)), f1.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(0))).push(vec_enc(f0@)).push(f1.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(3)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(0))); assert(e[1] == vec_enc(f0@)); assert(e[2] == f1.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarVec::dec_ok(s, i) && VarVec::dec_end(s, i) == i + v.enc().len() && forall|w: VarVec| #[trigger] VarVec::dec_rel(s, i, w) ==> eq_VarVec(e0, e1, e2, e3, v, w) by { lemma_arr(s, i, 3, e); } },
          VarVec::B(f0) => { lemma_codec(f0, e2); lemma_num(1); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(1))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(1))), f0.enc()); let e = Seq::empty().push(hv_enc(0, canon_hv(1))).push(f0.enc()); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(1))); assert(e[1] == f0.enc()); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarVec::dec_ok(s, i) && VarVec::dec_end(s, i) == i + v.enc().len() && forall|w: VarVec| #[trigger] VarVec::dec_rel(s, i, w) ==> eq_VarVec(e0, e1, e2, e3, v, w) by { lemma_arr(s, i, 2, e); } },
          VarVec::C(f0) => { lemma_vec(f0@, e3); lemma_num(2); lemma_cat_push(Seq::empty(), hv_enc(0, canon_hv(2))); lemma_cat_push(Seq::empty().push(hv_enc(0, canon_hv(2))), vec_enc(f0@)); let e = Seq::empty().push(hv_enc(0, canon_hv(2))).push(vec_enc(f0@)); assert(cat(e) =~= v.body()); assert(v.enc() =~= hv_enc(4, canon_hv(2)) + cat(e)); assert(e[0] == hv_enc(0, canon_hv(2))); assert(e[1] == vec_enc(f0@)); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && VarVec::dec_ok(s, i) && VarVec::dec_end(s, i) == i + v.enc().len() && forall|w: VarVec| #[trigger] VarVec::dec_rel(s, i, w) ==> eq_VarVec(e0, e1, e2, e3, v, w) by { lemma_arr(s, i, 2, e); } },
      }
  }
  pub open spec fn eq_TyTwo(e0: spec_fn(F0, F0) -> bool, a: TyTwo, b: TyTwo) -> bool { match (a, b) { (TyTwo::N, TyTwo::N) => true, (TyTwo::P(a0), TyTwo::P(b0)) => e0(a0, b0), _ => false } }
  proof fn c19_TyTwo(v: TyTwo, e0: spec_fn(F0, F0) -> bool)
      requires match v { TyTwo::N => true, TyTwo::P(f0) => codec(f0, e0) && kind_is(f0.enc(), 0, Type::Positive) }
      ensures codec(v, |a: TyTwo, b: TyTwo| eq_TyTwo(e0, a, b))
  {
      match v {
          TyTwo::N => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyTwo::dec_ok(s, i) && TyTwo::dec_end(s, i) == i + v.enc().len() && forall|w: TyTwo| #[trigger] TyTwo::dec_rel(s, i, w) ==> eq_TyTwo(e0, v, w) by { lemma_at_byte(s, i, 0xf6u8); } },
          TyTwo::P(f0) => { lemma_codec(f0, e0); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyTwo::dec_ok(s, i) && TyTwo::dec_end(s, i) == i + v.enc().len() && forall|w: TyTwo| #[trigger] TyTwo::dec_rel(s, i, w) ==> eq_TyTwo(e0, v, w) by { lemma_kind(s, i, f0.enc(), Type::Positive); } },
      }
  }
  pub open spec fn eq_TyAll(e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F3, F3) -> bool, e4: spec_fn(F4, F4) -> bool, e5: spec_fn(F5, F5) -> bool, e6: spec_fn(F6, F6) -> bool, a: TyAll, b: TyAll) -> bool { match (a, b) { (TyAll::P(a0), TyAll::P(b0)) => e0(a0, b0), (TyAll::G(a0), TyAll::G(b0)) => e1(a0, b0), (TyAll::A(a0), TyAll::A(b0)) => e2(a0, b0), (TyAll::M(a0), TyAll::M(b0)) => e3(a0, b0), (TyAll::T(a0), TyAll::T(b0)) => e4(a0, b0), (TyAll::B(a0), TyAll::B(b0)) => e5(a0, b0), (TyAll::S { w: aw }, TyAll::S { w: bw }) => e6(aw, bw), (TyAll::N, TyAll::N) => true, _ => false } }
  proof fn c19_TyAll(v: TyAll, e0: spec_fn(F0, F0) -> bool, e1: spec_fn(F1, F1) -> bool, e2: spec_fn(F2, F2) -> bool, e3: spec_fn(F3, F3) -> bool, e4: spec_fn(F4, F4) -> bool, e5: spec_fn(F5, F5) -> bool, e6: spec_fn(F6, F6) -> bool)
      requires match v { TyAll::P(f0) => codec(f0, e0) && kind_is(f0.enc(), 0, Type::Positive), TyAll::G(f0) => codec(f0, e1) && kind_is(f0.enc(), 0, Type::Negative), TyAll::A(f0) => codec(f0, e2) && kind_is(f0.enc(), 0, Type::Array), TyAll::M(f0) => codec(f0, e3) && kind_is(f0.enc(), 0, Type::Map), TyAll::T(f0) => codec(f0, e4) && kind_is(f0.enc(), 0, Type::Tag), TyAll::B(f0) => codec(f0, e5) && kind_is(f0.enc(), 0, Type::Bytes), TyAll::S { w: fw } => codec(fw, e6) && kind_is(fw.enc(), 0, Type::Text), TyAll::N => true }
      ensures codec(v, |a: TyAll, b: TyAll| eq_TyAll(e0, e1, e2, e3, e4, e5, e6, a, b))
  {
      match v {
          TyAll::P(f0) => { lemma_codec(f0, e0); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, f0.enc(), Type::Positive); } },
          TyAll::G(f0) => { lemma_codec(f0, e1); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, f0.enc(), Type::Negative); } },
          TyAll::A(f0) => { lemma_codec(f0, e2); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, f0.enc(), Type::Array); } },
          TyAll::M(f0) => { lemma_codec(f0, e3); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, f0.enc(), Type::Map); } },
          TyAll::T(f0) => { lemma_codec(f0, e4); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, f0.enc(), Type::Tag); } },
          TyAll::B(f0) => { lemma_codec(f0, e5); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, f0.enc(), Type::Bytes); } },
          TyAll::S { w: fw } => { lemma_codec(fw, e6); assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_kind(s, i, fw.enc(), Type::Text); } },
          TyAll::N => { assert forall|s: Seq<u8>, i: int| #[trigger] at(s, i, v.enc()) implies item(s, i) == R::End(i + v.enc().len()) && 0 <= i && TyAll::dec_ok(s, i) && TyAll::dec_end(s, i) == i + v.enc().len() && forall|w: TyAll| #[trigger] TyAll::dec_rel(s, i, w) ==> eq_TyAll(e0, e1, e2, e3, e4, e5, e6, v, w) by { lemma_at_byte(s, i, 0xf6u8); } },
      }
  }
  }
  }
