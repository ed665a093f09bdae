# What the derive macros generate for the sample definitions; written by tools/gen_derive.py
FILE derived.rs
DROPITEM F0
  a type of which nothing is known but the contract of the traits
DROPITEM F1
  a type of which nothing is known but the contract of the traits
DROPITEM F2
  a type of which nothing is known but the contract of the traits
DROPITEM F3
  a type of which nothing is known but the contract of the traits
DROPITEM F4
  a type of which nothing is known but the contract of the traits
DROPITEM F5
  a type of which nothing is known but the contract of the traits
DROPITEM F6
  a type of which nothing is known but the contract of the traits
PRELUDE
  use crate::{Encode, Decode};
  use vstd::std_specs::iter::*;
  pub use crate::types::structure::Map;
  /// a complete array at i, and its elements
  pub open spec fn arr(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Array && item(s, i) is End }
  pub open spec fn el(s: Seq<u8>, i: int) -> Seq<Seq<u8>> { arr_at(s, i).elems }
  /// a complete map at i, and its elements
  pub open spec fn mapp(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Map && item(s, i) is End }
  pub open spec fn map_at(s: Seq<u8>, i: int) -> MV { choose|v: MV| mv_wf(v) && at(s, i, mv_enc(v)) }
  pub open spec fn me(s: Seq<u8>, i: int) -> Seq<(Seq<u8>, Seq<u8>)> { map_at(s, i).elems }
  /// the number of the element at i
  pub open spec fn num_at(s: Seq<u8>, i: int) -> int { hv_val((hdr_at(s, i)->Positive_0).0) }
  /// the type of the element at i
  pub open spec fn kind_is(s: Seq<u8>, i: int, t: crate::types::Type) -> bool { i < s.len() && lead_ok(s[i]) && type_of(hdr_at(s, i)) == t }
  /// these bytes are an array of T
  pub open spec fn vec_all<T: crate::Decode>(e: Seq<u8>) -> bool { arr(e, 0) && elems_ok::<T>(el(e, 0)) }
  /// the number used as key
  pub open spec fn key_of(e: (Seq<u8>, Seq<u8>)) -> int { num_at(e.0, 0) }
  pub open spec fn among(keys: Seq<int>, k: int) -> bool { exists|j: int| 0 <= j < keys.len() && #[trigger] keys[j] == k }
  pub open spec fn has_key(e: Seq<(Seq<u8>, Seq<u8>)>, k: int) -> bool { exists|j: int| 0 <= j < e.len() && key_of(#[trigger] e[j]) == k }
  /// every key is one of these numbers and none occurs twice
  pub open spec fn keys_ok(e: Seq<(Seq<u8>, Seq<u8>)>, keys: Seq<int>) -> bool {
      &&& forall|j: int| 0 <= j < e.len() ==> <u64 as crate::Decode>::dec_ok((#[trigger] e[j]).0, 0) && among(keys, key_of(e[j]))
      &&& forall|j: int, k: int| 0 <= j < k < e.len() ==> key_of(#[trigger] e[j]) != key_of(#[trigger] e[k])
  }
  /// whatever is stored under k decodes as T; v is what it decodes to, None when there is none
  pub open spec fn val_ok<T: crate::Decode>(e: Seq<(Seq<u8>, Seq<u8>)>, k: int) -> bool { forall|j: int| 0 <= j < e.len() && key_of(#[trigger] e[j]) == k ==> T::dec_ok(e[j].1, 0) }
  pub open spec fn val_rel<T: crate::Decode>(e: Seq<(Seq<u8>, Seq<u8>)>, k: int, v: Option<T>) -> bool {
      &&& v is Some <==> has_key(e, k)
      &&& forall|j: int| 0 <= j < e.len() && key_of(#[trigger] e[j]) == k ==> v is Some && T::dec_rel(e[j].1, 0, v->Some_0)
  }
  pub open spec fn fresh_pair(p: (crate::Reader<'_>, crate::Reader<'_>), e: (Seq<u8>, Seq<u8>)) -> bool { fresh(p.0, e.0) && fresh(p.1, e.1) }
  pub open spec fn fresh_pairs(all: Seq<(crate::Reader<'_>, crate::Reader<'_>)>, e: Seq<(Seq<u8>, Seq<u8>)>) -> bool { all.len() <= e.len() && forall|k: int| 0 <= k < all.len() ==> fresh_pair(#[trigger] all[k], e[k]) }
  /// one more entry
  pub proof fn lemma_keys_step(e: Seq<(Seq<u8>, Seq<u8>)>, n: int, keys: Seq<int>)
      requires 0 <= n < e.len()
      ensures keys_ok(e.take(n + 1), keys) <==> keys_ok(e.take(n), keys) && <u64 as crate::Decode>::dec_ok(e[n].0, 0) && among(keys, key_of(e[n])) && !has_key(e.take(n), key_of(e[n])),
          keys_ok(e, keys) ==> keys_ok(e.take(n + 1), keys),
  {
      let a = e.take(n); let b = e.take(n + 1);
      assert(b =~= a.push(e[n]));
      assert(b[n] == e[n]);
      assert forall|j: int| 0 <= j < n implies a[j] == #[trigger] b[j] by {}
      assert forall|j: int| 0 <= j < n implies b[j] == #[trigger] a[j] by {}
      assert forall|j: int| 0 <= j <= n implies e[j] == #[trigger] b[j] by {}
  }
  pub proof fn lemma_val_step<T: crate::Decode>(e: Seq<(Seq<u8>, Seq<u8>)>, n: int, k: int)
      requires 0 <= n < e.len()
      ensures
          val_ok::<T>(e.take(n + 1), k) <==> val_ok::<T>(e.take(n), k) && (key_of(e[n]) == k ==> T::dec_ok(e[n].1, 0)),
          val_ok::<T>(e, k) ==> val_ok::<T>(e.take(n + 1), k),
          has_key(e.take(n + 1), k) <==> has_key(e.take(n), k) || key_of(e[n]) == k,
          has_key(e.take(n + 1), k) ==> has_key(e, k),
          key_of(e[n]) != k ==> forall|v: Option<T>| #[trigger] val_rel::<T>(e.take(n + 1), k, v) <==> val_rel::<T>(e.take(n), k, v),
          key_of(e[n]) == k && !has_key(e.take(n), k) ==> forall|v: T| T::dec_rel(e[n].1, 0, v) ==> #[trigger] val_rel::<T>(e.take(n + 1), k, Some(v)),
  {
      let a = e.take(n); let b = e.take(n + 1);
      assert(b =~= a.push(e[n]));
      assert(b[n] == e[n]);
      assert forall|j: int| 0 <= j < n implies a[j] == #[trigger] b[j] by {}
      assert forall|j: int| 0 <= j < n implies b[j] == #[trigger] a[j] by {}
      assert forall|j: int| 0 <= j <= n implies e[j] == #[trigger] b[j] by {}
      assert(has_key(b, k) <==> has_key(a, k) || key_of(e[n]) == k);
      assert(has_key(b, k) ==> has_key(e, k));
      if key_of(e[n]) != k {
          assert forall|v: Option<T>| #[trigger] val_rel::<T>(b, k, v) <==> val_rel::<T>(a, k, v) by {}
      }
  }
  pub proof fn lemma_map_at(s: Seq<u8>, i: int)
      ensures forall|v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) ==> map_at(s, i) == v
  {
      assert forall|v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) implies map_at(s, i) == v by {
          let w = map_at(s, i);
          lemma_mv_inj(s, i, v, w);
      }
  }
  /// the element at a place is unique
  pub proof fn lemma_ats_derived()
      ensures
          forall|s: Seq<u8>, i: int, v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) ==> tag_at(s, i) == v,
          forall|s: Seq<u8>, i: int, v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) ==> arr_at(s, i) == v,
          forall|s: Seq<u8>, i: int, v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) ==> map_at(s, i) == v,
  {
      assert forall|s: Seq<u8>, i: int, v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) implies tag_at(s, i) == v by { lemma_tag_at(s, i); }
      assert forall|s: Seq<u8>, i: int, v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) implies arr_at(s, i) == v by { lemma_arr_at(s, i); }
      assert forall|s: Seq<u8>, i: int, v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) implies map_at(s, i) == v by { lemma_map_at(s, i); }
  }
  /// an entry of a map
  pub open spec fn entry_at(e: Seq<(Seq<u8>, Seq<u8>)>, j: int) -> bool { true }
  /// the context of a failure to read a T, with these entries added on the outside
  pub open spec fn led1<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>) -> bool { exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(a) }
  pub open spec fn led2<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>) -> bool { exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(a).push(b) }
  pub open spec fn led3<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>, d: Seq<char>) -> bool { exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(a).push(b).push(d) }
  /// the same for bytes that are to be exactly one T
  pub open spec fn wled0<T: crate::Decode>(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<T>()] || T::dec_ctx(c) }
  pub open spec fn wled1<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>) -> bool { c == seq![name_of::<T>()].push(a) || led1::<T>(c, a) }
  pub open spec fn wled2<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>) -> bool { c == seq![name_of::<T>()].push(a).push(b) || led2::<T>(c, a, b) }
  pub open spec fn wled3<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>, d: Seq<char>) -> bool { c == seq![name_of::<T>()].push(a).push(b).push(d) || led3::<T>(c, a, b, d) }
PRELUDE
  #[verifier::external_body] pub struct F0;
  impl crate::Encode for F0 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F0 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
  #[verifier::external_body] pub struct F1;
  impl crate::Encode for F1 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F1 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
  #[verifier::external_body] pub struct F2;
  impl crate::Encode for F2 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F2 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
  #[verifier::external_body] pub struct F3;
  impl crate::Encode for F3 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F3 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
  #[verifier::external_body] pub struct F4;
  impl crate::Encode for F4 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F4 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
  #[verifier::external_body] pub struct F5;
  impl crate::Encode for F5 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F5 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
  #[verifier::external_body] pub struct F6;
  impl crate::Encode for F6 { uninterp spec fn enc_ok(&self) -> bool; uninterp spec fn enc(&self) -> Seq<u8>; #[verifier::external_body] fn encode(&self, writer: &mut crate::Writer) { unimplemented!() } }
  impl crate::Decode for F6 { uninterp spec fn dec_ok(s: Seq<u8>, i: int) -> bool; uninterp spec fn dec_end(s: Seq<u8>, i: int) -> int; uninterp spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool; uninterp spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool; uninterp spec fn dec_ctx(c: Seq<Seq<char>>) -> bool;
      #[verifier::external_body] fn decode<'a>(reader: &mut crate::Reader<'a>) -> Result<Self, crate::DecodeError> { unimplemented!() } }
PRELUDE
  impl FlatOne {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.x.enc()) }
  }
IMPL crate::Encode for FlatOne
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for FlatOne::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for FlatOne
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { <F0 as crate::Decode>::dec_ok(s, i) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { <F0 as crate::Decode>::dec_end(s, i) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<F0 as crate::Decode>::dec_ok(s, i) { <F0 as crate::Decode>::dec_err(s, i, e) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { led1::<F0>(c, "x"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(s, i, v.x) }
FN crate::Decode for FlatOne::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatThree {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc() + self.y.enc() + self.z.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.x.enc() + self.y.enc() + self.z.enc()) }
  }
IMPL crate::Encode for FlatThree
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && self.y.enc_ok() && self.z.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for FlatThree::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for FlatThree
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { <F0 as crate::Decode>::dec_ok(s, i) && <F1 as crate::Decode>::dec_ok(s, <F0 as crate::Decode>::dec_end(s, i)) && <F2 as crate::Decode>::dec_ok(s, <F1 as crate::Decode>::dec_end(s, <F0 as crate::Decode>::dec_end(s, i))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { <F2 as crate::Decode>::dec_end(s, <F1 as crate::Decode>::dec_end(s, <F0 as crate::Decode>::dec_end(s, i))) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<F0 as crate::Decode>::dec_ok(s, i) { <F0 as crate::Decode>::dec_err(s, i, e) } else if !<F1 as crate::Decode>::dec_ok(s, <F0 as crate::Decode>::dec_end(s, i)) { <F1 as crate::Decode>::dec_err(s, <F0 as crate::Decode>::dec_end(s, i), e) } else if !<F2 as crate::Decode>::dec_ok(s, <F1 as crate::Decode>::dec_end(s, <F0 as crate::Decode>::dec_end(s, i))) { <F2 as crate::Decode>::dec_err(s, <F1 as crate::Decode>::dec_end(s, <F0 as crate::Decode>::dec_end(s, i)), e) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { led1::<F0>(c, "x"@) || led1::<F1>(c, "y"@) || led1::<F2>(c, "z"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(s, i, v.x) && <F1 as crate::Decode>::dec_rel(s, <F0 as crate::Decode>::dec_end(s, i), v.y) && <F2 as crate::Decode>::dec_rel(s, <F1 as crate::Decode>::dec_end(s, <F0 as crate::Decode>::dec_end(s, i)), v.z) }
FN crate::Decode for FlatThree::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatTag {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.x.enc()) }
  }
IMPL crate::Encode for FlatTag
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(5)) + (self.content()) }
FN crate::Encode for FlatTag::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
IMPL crate::Decode for FlatTag
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 5) && dec_all::<F0>(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 5) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 5u64) } else { all_rerr::<F0>(e, tag_at(s, i).data) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<F0>(c, "x"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(tag_at(s, i).data, 0, v.x) }
FN crate::Decode for FlatTag::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatTagBig {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.x.enc()) }
  }
IMPL crate::Encode for FlatTagBig
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(4294967296)) + (self.content()) }
FN crate::Encode for FlatTagBig::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
IMPL crate::Decode for FlatTagBig
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 4294967296) && dec_all::<F0>(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 4294967296) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 4294967296u64) } else { all_rerr::<F0>(e, tag_at(s, i).data) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<F0>(c, "x"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(tag_at(s, i).data, 0, v.x) }
FN crate::Decode for FlatTagBig::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatTuple {
      pub open spec fn body(&self) -> Seq<u8> { (self.0.enc() + self.1.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.0.enc() + self.1.enc()) }
  }
IMPL crate::Encode for FlatTuple
  open spec fn enc_ok(&self) -> bool { self.0.enc_ok() && self.1.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for FlatTuple::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for FlatTuple
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { <F0 as crate::Decode>::dec_ok(s, i) && <F1 as crate::Decode>::dec_ok(s, <F0 as crate::Decode>::dec_end(s, i)) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { <F1 as crate::Decode>::dec_end(s, <F0 as crate::Decode>::dec_end(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<F0 as crate::Decode>::dec_ok(s, i) { <F0 as crate::Decode>::dec_err(s, i, e) } else if !<F1 as crate::Decode>::dec_ok(s, <F0 as crate::Decode>::dec_end(s, i)) { <F1 as crate::Decode>::dec_err(s, <F0 as crate::Decode>::dec_end(s, i), e) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { led1::<F0>(c, "field0"@) || led1::<F1>(c, "field1"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(s, i, v.0) && <F1 as crate::Decode>::dec_rel(s, <F0 as crate::Decode>::dec_end(s, i), v.1) }
FN crate::Decode for FlatTuple::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatTagTuple {
      pub open spec fn body(&self) -> Seq<u8> { (self.0.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.0.enc()) }
  }
IMPL crate::Encode for FlatTagTuple
  open spec fn enc_ok(&self) -> bool { self.0.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(0)) + (self.content()) }
FN crate::Encode for FlatTagTuple::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
IMPL crate::Decode for FlatTagTuple
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 0) && dec_all::<F0>(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 0) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 0u64) } else { all_rerr::<F0>(e, tag_at(s, i).data) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<F0>(c, "field0"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(tag_at(s, i).data, 0, v.0) }
FN crate::Decode for FlatTagTuple::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatTagEdge {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.x.enc()) }
  }
IMPL crate::Encode for FlatTagEdge
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(23)) + (self.content()) }
FN crate::Encode for FlatTagEdge::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
IMPL crate::Decode for FlatTagEdge
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 23) && dec_all::<F0>(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 23) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 23u64) } else { all_rerr::<F0>(e, tag_at(s, i).data) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<F0>(c, "x"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(tag_at(s, i).data, 0, v.x) }
FN crate::Decode for FlatTagEdge::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl FlatTagMax {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { (self.x.enc()) }
  }
IMPL crate::Encode for FlatTagMax
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(18446744073709551615)) + (self.content()) }
FN crate::Encode for FlatTagMax::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
IMPL crate::Decode for FlatTagMax
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 18446744073709551615) && dec_all::<F0>(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 18446744073709551615) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 18446744073709551615u64) } else { all_rerr::<F0>(e, tag_at(s, i).data) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<F0>(c, "x"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(tag_at(s, i).data, 0, v.x) }
FN crate::Decode for FlatTagMax::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl ArrNone {
      pub open spec fn body(&self) -> Seq<u8> { Seq::<u8>::empty() }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(0)) + Seq::<u8>::empty() }
  }
IMPL crate::Encode for ArrNone
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for ArrNone::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrNone
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() == 0 }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 0 { e is Custom } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { true }
FN crate::Decode for ArrNone::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl ArrOne {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(1)) + (self.x.enc()) }
  }
IMPL crate::Encode for ArrOne
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for ArrOne::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrOne
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() == 1 && dec_all::<F0>(el(s, i)[0]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 1 { e is Custom } else if !dec_all::<F0>(el(s, i)[0]) { all_rerr::<F0>(e, el(s, i)[0]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(s, i)[0], 0, v.x) }
FN crate::Decode for ArrOne::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl ArrThree {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc() + self.y.enc() + self.z.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(3)) + (self.x.enc() + self.y.enc() + self.z.enc()) }
  }
IMPL crate::Encode for ArrThree
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && self.y.enc_ok() && self.z.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for ArrThree::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrThree
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() == 3 && dec_all::<F0>(el(s, i)[0]) && dec_all::<F1>(el(s, i)[1]) && dec_all::<F2>(el(s, i)[2]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 3 { e is Custom } else if !dec_all::<F0>(el(s, i)[0]) { all_rerr::<F0>(e, el(s, i)[0]) } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else if !dec_all::<F2>(el(s, i)[2]) { all_rerr::<F2>(e, el(s, i)[2]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) || wled2::<F1>(c, "y"@, name_of::<Self>()) || wled2::<F2>(c, "z"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(s, i)[0], 0, v.x) && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, v.y) && <F2 as crate::Decode>::dec_rel(el(s, i)[2], 0, v.z) }
FN crate::Decode for ArrThree::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl ArrTuple {
      pub open spec fn body(&self) -> Seq<u8> { (self.0.enc() + self.1.enc() + self.2.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(3)) + (self.0.enc() + self.1.enc() + self.2.enc()) }
  }
IMPL crate::Encode for ArrTuple
  open spec fn enc_ok(&self) -> bool { self.0.enc_ok() && self.1.enc_ok() && self.2.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for ArrTuple::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrTuple
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() == 3 && dec_all::<F0>(el(s, i)[0]) && dec_all::<F1>(el(s, i)[1]) && dec_all::<F2>(el(s, i)[2]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 3 { e is Custom } else if !dec_all::<F0>(el(s, i)[0]) { all_rerr::<F0>(e, el(s, i)[0]) } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else if !dec_all::<F2>(el(s, i)[2]) { all_rerr::<F2>(e, el(s, i)[2]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled1::<F0>(c, "field0"@) || wled1::<F1>(c, "field1"@) || wled1::<F2>(c, "field2"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(s, i)[0], 0, v.0) && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, v.1) && <F2 as crate::Decode>::dec_rel(el(s, i)[2], 0, v.2) }
FN crate::Decode for ArrTuple::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl ArrTag {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc() + self.y.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(2)) + (self.x.enc() + self.y.enc()) }
  }
IMPL crate::Encode for ArrTag
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(300)) + (self.content()) }
FN crate::Encode for ArrTag::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrTag
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 300) && arr(tag_at(s, i).data, 0) && el(tag_at(s, i).data, 0).len() == 2 && dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 300) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 300u64) } else if !arr(tag_at(s, i).data, 0) { e is ReaderError && contcause(e->ReaderError_0, tag_at(s, i).data, 0, crate::types::Type::Array) } else if el(tag_at(s, i).data, 0).len() != 2 { e is Custom } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[0]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[1]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) || wled2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[0], 0, v.x) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[1], 0, v.y) }
FN crate::Decode for ArrTag::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |reader: &mut crate::Reader<'a>|
CRET (q: Result<crate::types::Array<'a>, crate::ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Array, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::Array)
CENS
  q is Ok ==> av_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), av_enc(q->Ok_0.v()))
PRELUDE
  impl ArrTagSplit {
      pub open spec fn body(&self) -> Seq<u8> { (self.x.enc() + self.y.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(2)) + (self.x.enc() + self.y.enc()) }
  }
IMPL crate::Encode for ArrTagSplit
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(24)) + (self.content()) }
FN crate::Encode for ArrTagSplit::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrTagSplit
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 24) && arr(tag_at(s, i).data, 0) && el(tag_at(s, i).data, 0).len() == 2 && dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 24) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 24u64) } else if !arr(tag_at(s, i).data, 0) { e is ReaderError && contcause(e->ReaderError_0, tag_at(s, i).data, 0, crate::types::Type::Array) } else if el(tag_at(s, i).data, 0).len() != 2 { e is Custom } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[0]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[1]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) || wled2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[0], 0, v.x) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[1], 0, v.y) }
FN crate::Decode for ArrTagSplit::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |reader: &mut crate::Reader<'a>|
CRET (q: Result<crate::types::Array<'a>, crate::ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Array, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::Array)
CENS
  q is Ok ==> av_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), av_enc(q->Ok_0.v()))
PRELUDE
  impl ArrTagTuple {
      pub open spec fn body(&self) -> Seq<u8> { (self.0.enc() + self.1.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(2)) + (self.0.enc() + self.1.enc()) }
  }
IMPL crate::Encode for ArrTagTuple
  open spec fn enc_ok(&self) -> bool { self.0.enc_ok() && self.1.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(255)) + (self.content()) }
FN crate::Encode for ArrTagTuple::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrTagTuple
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 255) && arr(tag_at(s, i).data, 0) && el(tag_at(s, i).data, 0).len() == 2 && dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 255) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 255u64) } else if !arr(tag_at(s, i).data, 0) { e is ReaderError && contcause(e->ReaderError_0, tag_at(s, i).data, 0, crate::types::Type::Array) } else if el(tag_at(s, i).data, 0).len() != 2 { e is Custom } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[0]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[1]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled1::<F0>(c, "field0"@) || wled1::<F1>(c, "field1"@) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[0], 0, v.0) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[1], 0, v.1) }
FN crate::Decode for ArrTagTuple::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |reader: &mut crate::Reader<'a>|
CRET (q: Result<crate::types::Array<'a>, crate::ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Array, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::Array)
CENS
  q is Ok ==> av_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), av_enc(q->Ok_0.v()))
PRELUDE
  impl ArrMany {
      pub open spec fn body(&self) -> Seq<u8> { (self.f0.enc() + self.f1.enc() + self.f2.enc() + self.f3.enc() + self.f4.enc() + self.f5.enc() + self.f6.enc() + self.f7.enc() + self.f8.enc() + self.f9.enc() + self.f10.enc() + self.f11.enc() + self.f12.enc() + self.f13.enc() + self.f14.enc() + self.f15.enc() + self.f16.enc() + self.f17.enc() + self.f18.enc() + self.f19.enc() + self.f20.enc() + self.f21.enc() + self.f22.enc() + self.f23.enc() + self.f24.enc()) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(25)) + (self.f0.enc() + self.f1.enc() + self.f2.enc() + self.f3.enc() + self.f4.enc() + self.f5.enc() + self.f6.enc() + self.f7.enc() + self.f8.enc() + self.f9.enc() + self.f10.enc() + self.f11.enc() + self.f12.enc() + self.f13.enc() + self.f14.enc() + self.f15.enc() + self.f16.enc() + self.f17.enc() + self.f18.enc() + self.f19.enc() + self.f20.enc() + self.f21.enc() + self.f22.enc() + self.f23.enc() + self.f24.enc()) }
  }
IMPL crate::Encode for ArrMany
  open spec fn enc_ok(&self) -> bool { self.f0.enc_ok() && self.f1.enc_ok() && self.f2.enc_ok() && self.f3.enc_ok() && self.f4.enc_ok() && self.f5.enc_ok() && self.f6.enc_ok() && self.f7.enc_ok() && self.f8.enc_ok() && self.f9.enc_ok() && self.f10.enc_ok() && self.f11.enc_ok() && self.f12.enc_ok() && self.f13.enc_ok() && self.f14.enc_ok() && self.f15.enc_ok() && self.f16.enc_ok() && self.f17.enc_ok() && self.f18.enc_ok() && self.f19.enc_ok() && self.f20.enc_ok() && self.f21.enc_ok() && self.f22.enc_ok() && self.f23.enc_ok() && self.f24.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for ArrMany::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for ArrMany
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() == 25 && dec_all::<F0>(el(s, i)[0]) && dec_all::<F1>(el(s, i)[1]) && dec_all::<F2>(el(s, i)[2]) && dec_all::<F0>(el(s, i)[3]) && dec_all::<F1>(el(s, i)[4]) && dec_all::<F2>(el(s, i)[5]) && dec_all::<F0>(el(s, i)[6]) && dec_all::<F1>(el(s, i)[7]) && dec_all::<F2>(el(s, i)[8]) && dec_all::<F0>(el(s, i)[9]) && dec_all::<F1>(el(s, i)[10]) && dec_all::<F2>(el(s, i)[11]) && dec_all::<F0>(el(s, i)[12]) && dec_all::<F1>(el(s, i)[13]) && dec_all::<F2>(el(s, i)[14]) && dec_all::<F0>(el(s, i)[15]) && dec_all::<F1>(el(s, i)[16]) && dec_all::<F2>(el(s, i)[17]) && dec_all::<F0>(el(s, i)[18]) && dec_all::<F1>(el(s, i)[19]) && dec_all::<F2>(el(s, i)[20]) && dec_all::<F0>(el(s, i)[21]) && dec_all::<F1>(el(s, i)[22]) && dec_all::<F2>(el(s, i)[23]) && dec_all::<F0>(el(s, i)[24]) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 25 { e is Custom } else if !dec_all::<F0>(el(s, i)[0]) { all_rerr::<F0>(e, el(s, i)[0]) } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else if !dec_all::<F2>(el(s, i)[2]) { all_rerr::<F2>(e, el(s, i)[2]) } else if !dec_all::<F0>(el(s, i)[3]) { all_rerr::<F0>(e, el(s, i)[3]) } else if !dec_all::<F1>(el(s, i)[4]) { all_rerr::<F1>(e, el(s, i)[4]) } else if !dec_all::<F2>(el(s, i)[5]) { all_rerr::<F2>(e, el(s, i)[5]) } else if !dec_all::<F0>(el(s, i)[6]) { all_rerr::<F0>(e, el(s, i)[6]) } else if !dec_all::<F1>(el(s, i)[7]) { all_rerr::<F1>(e, el(s, i)[7]) } else if !dec_all::<F2>(el(s, i)[8]) { all_rerr::<F2>(e, el(s, i)[8]) } else if !dec_all::<F0>(el(s, i)[9]) { all_rerr::<F0>(e, el(s, i)[9]) } else if !dec_all::<F1>(el(s, i)[10]) { all_rerr::<F1>(e, el(s, i)[10]) } else if !dec_all::<F2>(el(s, i)[11]) { all_rerr::<F2>(e, el(s, i)[11]) } else if !dec_all::<F0>(el(s, i)[12]) { all_rerr::<F0>(e, el(s, i)[12]) } else if !dec_all::<F1>(el(s, i)[13]) { all_rerr::<F1>(e, el(s, i)[13]) } else if !dec_all::<F2>(el(s, i)[14]) { all_rerr::<F2>(e, el(s, i)[14]) } else if !dec_all::<F0>(el(s, i)[15]) { all_rerr::<F0>(e, el(s, i)[15]) } else if !dec_all::<F1>(el(s, i)[16]) { all_rerr::<F1>(e, el(s, i)[16]) } else if !dec_all::<F2>(el(s, i)[17]) { all_rerr::<F2>(e, el(s, i)[17]) } else if !dec_all::<F0>(el(s, i)[18]) { all_rerr::<F0>(e, el(s, i)[18]) } else if !dec_all::<F1>(el(s, i)[19]) { all_rerr::<F1>(e, el(s, i)[19]) } else if !dec_all::<F2>(el(s, i)[20]) { all_rerr::<F2>(e, el(s, i)[20]) } else if !dec_all::<F0>(el(s, i)[21]) { all_rerr::<F0>(e, el(s, i)[21]) } else if !dec_all::<F1>(el(s, i)[22]) { all_rerr::<F1>(e, el(s, i)[22]) } else if !dec_all::<F2>(el(s, i)[23]) { all_rerr::<F2>(e, el(s, i)[23]) } else if !dec_all::<F0>(el(s, i)[24]) { all_rerr::<F0>(e, el(s, i)[24]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "f0"@, name_of::<Self>()) || wled2::<F1>(c, "f1"@, name_of::<Self>()) || wled2::<F2>(c, "f2"@, name_of::<Self>()) || wled2::<F0>(c, "f3"@, name_of::<Self>()) || wled2::<F1>(c, "f4"@, name_of::<Self>()) || wled2::<F2>(c, "f5"@, name_of::<Self>()) || wled2::<F0>(c, "f6"@, name_of::<Self>()) || wled2::<F1>(c, "f7"@, name_of::<Self>()) || wled2::<F2>(c, "f8"@, name_of::<Self>()) || wled2::<F0>(c, "f9"@, name_of::<Self>()) || wled2::<F1>(c, "f10"@, name_of::<Self>()) || wled2::<F2>(c, "f11"@, name_of::<Self>()) || wled2::<F0>(c, "f12"@, name_of::<Self>()) || wled2::<F1>(c, "f13"@, name_of::<Self>()) || wled2::<F2>(c, "f14"@, name_of::<Self>()) || wled2::<F0>(c, "f15"@, name_of::<Self>()) || wled2::<F1>(c, "f16"@, name_of::<Self>()) || wled2::<F2>(c, "f17"@, name_of::<Self>()) || wled2::<F0>(c, "f18"@, name_of::<Self>()) || wled2::<F1>(c, "f19"@, name_of::<Self>()) || wled2::<F2>(c, "f20"@, name_of::<Self>()) || wled2::<F0>(c, "f21"@, name_of::<Self>()) || wled2::<F1>(c, "f22"@, name_of::<Self>()) || wled2::<F2>(c, "f23"@, name_of::<Self>()) || wled2::<F0>(c, "f24"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(s, i)[0], 0, v.f0) && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, v.f1) && <F2 as crate::Decode>::dec_rel(el(s, i)[2], 0, v.f2) && <F0 as crate::Decode>::dec_rel(el(s, i)[3], 0, v.f3) && <F1 as crate::Decode>::dec_rel(el(s, i)[4], 0, v.f4) && <F2 as crate::Decode>::dec_rel(el(s, i)[5], 0, v.f5) && <F0 as crate::Decode>::dec_rel(el(s, i)[6], 0, v.f6) && <F1 as crate::Decode>::dec_rel(el(s, i)[7], 0, v.f7) && <F2 as crate::Decode>::dec_rel(el(s, i)[8], 0, v.f8) && <F0 as crate::Decode>::dec_rel(el(s, i)[9], 0, v.f9) && <F1 as crate::Decode>::dec_rel(el(s, i)[10], 0, v.f10) && <F2 as crate::Decode>::dec_rel(el(s, i)[11], 0, v.f11) && <F0 as crate::Decode>::dec_rel(el(s, i)[12], 0, v.f12) && <F1 as crate::Decode>::dec_rel(el(s, i)[13], 0, v.f13) && <F2 as crate::Decode>::dec_rel(el(s, i)[14], 0, v.f14) && <F0 as crate::Decode>::dec_rel(el(s, i)[15], 0, v.f15) && <F1 as crate::Decode>::dec_rel(el(s, i)[16], 0, v.f16) && <F2 as crate::Decode>::dec_rel(el(s, i)[17], 0, v.f17) && <F0 as crate::Decode>::dec_rel(el(s, i)[18], 0, v.f18) && <F1 as crate::Decode>::dec_rel(el(s, i)[19], 0, v.f19) && <F2 as crate::Decode>::dec_rel(el(s, i)[20], 0, v.f20) && <F0 as crate::Decode>::dec_rel(el(s, i)[21], 0, v.f21) && <F1 as crate::Decode>::dec_rel(el(s, i)[22], 0, v.f22) && <F2 as crate::Decode>::dec_rel(el(s, i)[23], 0, v.f23) && <F0 as crate::Decode>::dec_rel(el(s, i)[24], 0, v.f24) }
FN crate::Decode for ArrMany::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl OptEdge {
      pub open spec fn body(&self) -> Seq<u8> { match self.last { Some(x) => (self.f0.enc() + self.f1.enc() + self.f2.enc() + self.f3.enc() + self.f4.enc() + self.f5.enc() + self.f6.enc() + self.f7.enc() + self.f8.enc() + self.f9.enc() + self.f10.enc() + self.f11.enc() + self.f12.enc() + self.f13.enc() + self.f14.enc() + self.f15.enc() + self.f16.enc() + self.f17.enc() + self.f18.enc() + self.f19.enc() + self.f20.enc() + self.f21.enc() + self.f22.enc() + x.enc()), None => (self.f0.enc() + self.f1.enc() + self.f2.enc() + self.f3.enc() + self.f4.enc() + self.f5.enc() + self.f6.enc() + self.f7.enc() + self.f8.enc() + self.f9.enc() + self.f10.enc() + self.f11.enc() + self.f12.enc() + self.f13.enc() + self.f14.enc() + self.f15.enc() + self.f16.enc() + self.f17.enc() + self.f18.enc() + self.f19.enc() + self.f20.enc() + self.f21.enc() + self.f22.enc()) } }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(if self.last is Some { 24 } else { 23 })) + self.body() }
  }
IMPL crate::Encode for OptEdge
  open spec fn enc_ok(&self) -> bool { self.f0.enc_ok() && self.f1.enc_ok() && self.f2.enc_ok() && self.f3.enc_ok() && self.f4.enc_ok() && self.f5.enc_ok() && self.f6.enc_ok() && self.f7.enc_ok() && self.f8.enc_ok() && self.f9.enc_ok() && self.f10.enc_ok() && self.f11.enc_ok() && self.f12.enc_ok() && self.f13.enc_ok() && self.f14.enc_ok() && self.f15.enc_ok() && self.f16.enc_ok() && self.f17.enc_ok() && self.f18.enc_ok() && self.f19.enc_ok() && self.f20.enc_ok() && self.f21.enc_ok() && self.f22.enc_ok() && match self.last { Some(x) => x.enc_ok(), None => true } }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(65536)) + (self.content()) }
FN crate::Encode for OptEdge::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for OptEdge
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 65536) && arr(tag_at(s, i).data, 0) && (el(tag_at(s, i).data, 0).len() == 24 || el(tag_at(s, i).data, 0).len() == 23) && dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[2]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[3]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[4]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[5]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[6]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[7]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[8]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[9]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[10]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[11]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[12]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[13]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[14]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[15]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[16]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[17]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[18]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[19]) && dec_all::<F2>(el(tag_at(s, i).data, 0)[20]) && dec_all::<F0>(el(tag_at(s, i).data, 0)[21]) && dec_all::<F1>(el(tag_at(s, i).data, 0)[22]) && (el(tag_at(s, i).data, 0).len() == 24 ==> dec_all::<F0>(el(tag_at(s, i).data, 0)[23])) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 65536) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 65536u64) } else if !arr(tag_at(s, i).data, 0) { e is ReaderError && contcause(e->ReaderError_0, tag_at(s, i).data, 0, crate::types::Type::Array) } else if el(tag_at(s, i).data, 0).len() != 24 && el(tag_at(s, i).data, 0).len() != 23 { e is Custom } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[0]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[1]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[2]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[2]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[3]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[3]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[4]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[4]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[5]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[5]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[6]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[6]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[7]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[7]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[8]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[8]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[9]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[9]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[10]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[10]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[11]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[11]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[12]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[12]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[13]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[13]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[14]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[14]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[15]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[15]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[16]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[16]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[17]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[17]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[18]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[18]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[19]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[19]) } else if !dec_all::<F2>(el(tag_at(s, i).data, 0)[20]) { all_rerr::<F2>(e, el(tag_at(s, i).data, 0)[20]) } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[21]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[21]) } else if !dec_all::<F1>(el(tag_at(s, i).data, 0)[22]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[22]) } else if el(tag_at(s, i).data, 0).len() == 24 && !dec_all::<F0>(el(tag_at(s, i).data, 0)[23]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[23]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "f0"@, name_of::<Self>()) || wled2::<F1>(c, "f1"@, name_of::<Self>()) || wled2::<F2>(c, "f2"@, name_of::<Self>()) || wled2::<F0>(c, "f3"@, name_of::<Self>()) || wled2::<F1>(c, "f4"@, name_of::<Self>()) || wled2::<F2>(c, "f5"@, name_of::<Self>()) || wled2::<F0>(c, "f6"@, name_of::<Self>()) || wled2::<F1>(c, "f7"@, name_of::<Self>()) || wled2::<F2>(c, "f8"@, name_of::<Self>()) || wled2::<F0>(c, "f9"@, name_of::<Self>()) || wled2::<F1>(c, "f10"@, name_of::<Self>()) || wled2::<F2>(c, "f11"@, name_of::<Self>()) || wled2::<F0>(c, "f12"@, name_of::<Self>()) || wled2::<F1>(c, "f13"@, name_of::<Self>()) || wled2::<F2>(c, "f14"@, name_of::<Self>()) || wled2::<F0>(c, "f15"@, name_of::<Self>()) || wled2::<F1>(c, "f16"@, name_of::<Self>()) || wled2::<F2>(c, "f17"@, name_of::<Self>()) || wled2::<F0>(c, "f18"@, name_of::<Self>()) || wled2::<F1>(c, "f19"@, name_of::<Self>()) || wled2::<F2>(c, "f20"@, name_of::<Self>()) || wled2::<F0>(c, "f21"@, name_of::<Self>()) || wled2::<F1>(c, "f22"@, name_of::<Self>()) || wled2::<F0>(c, "last"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[0], 0, v.f0) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[1], 0, v.f1) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[2], 0, v.f2) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[3], 0, v.f3) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[4], 0, v.f4) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[5], 0, v.f5) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[6], 0, v.f6) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[7], 0, v.f7) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[8], 0, v.f8) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[9], 0, v.f9) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[10], 0, v.f10) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[11], 0, v.f11) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[12], 0, v.f12) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[13], 0, v.f13) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[14], 0, v.f14) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[15], 0, v.f15) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[16], 0, v.f16) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[17], 0, v.f17) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[18], 0, v.f18) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[19], 0, v.f19) && <F2 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[20], 0, v.f20) && <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[21], 0, v.f21) && <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[22], 0, v.f22) && (v.last is Some <==> el(tag_at(s, i).data, 0).len() == 24) && (v.last is Some ==> <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[23], 0, v.last->Some_0)) }
FN crate::Decode for OptEdge::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |reader: &mut crate::Reader<'a>|
CRET (q: Result<crate::types::Array<'a>, crate::ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Array, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::Array)
CENS
  q is Ok ==> av_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), av_enc(q->Ok_0.v()))
PRELUDE
  impl OptOne {
      pub open spec fn body(&self) -> Seq<u8> { match self.x { Some(x) => (x.enc()), None => Seq::<u8>::empty() } }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(if self.x is Some { 1 } else { 0 })) + self.body() }
  }
IMPL crate::Encode for OptOne
  open spec fn enc_ok(&self) -> bool { match self.x { Some(x) => x.enc_ok(), None => true } }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for OptOne::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for OptOne
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && (el(s, i).len() == 1 || el(s, i).len() == 0) && (el(s, i).len() == 1 ==> dec_all::<F0>(el(s, i)[0])) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 1 && el(s, i).len() != 0 { e is Custom } else if el(s, i).len() == 1 && !dec_all::<F0>(el(s, i)[0]) { all_rerr::<F0>(e, el(s, i)[0]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { (v.x is Some <==> el(s, i).len() == 1) && (v.x is Some ==> <F0 as crate::Decode>::dec_rel(el(s, i)[0], 0, v.x->Some_0)) }
FN crate::Decode for OptOne::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl OptThree {
      pub open spec fn body(&self) -> Seq<u8> { match self.z { Some(x) => (self.x.enc() + self.y.enc() + x.enc()), None => (self.x.enc() + self.y.enc()) } }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(if self.z is Some { 3 } else { 2 })) + self.body() }
  }
IMPL crate::Encode for OptThree
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && self.y.enc_ok() && match self.z { Some(x) => x.enc_ok(), None => true } }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for OptThree::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for OptThree
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && (el(s, i).len() == 3 || el(s, i).len() == 2) && dec_all::<F0>(el(s, i)[0]) && dec_all::<F1>(el(s, i)[1]) && (el(s, i).len() == 3 ==> dec_all::<F2>(el(s, i)[2])) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() != 3 && el(s, i).len() != 2 { e is Custom } else if !dec_all::<F0>(el(s, i)[0]) { all_rerr::<F0>(e, el(s, i)[0]) } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else if el(s, i).len() == 3 && !dec_all::<F2>(el(s, i)[2]) { all_rerr::<F2>(e, el(s, i)[2]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) || wled2::<F1>(c, "y"@, name_of::<Self>()) || wled2::<F2>(c, "z"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(s, i)[0], 0, v.x) && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, v.y) && (v.z is Some <==> el(s, i).len() == 3) && (v.z is Some ==> <F2 as crate::Decode>::dec_rel(el(s, i)[2], 0, v.z->Some_0)) }
FN crate::Decode for OptThree::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl OptTag {
      pub open spec fn body(&self) -> Seq<u8> { match self.y { Some(x) => (self.x.enc() + x.enc()), None => (self.x.enc()) } }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(4, canon_hv(if self.y is Some { 2 } else { 1 })) + self.body() }
  }
IMPL crate::Encode for OptTag
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && match self.y { Some(x) => x.enc_ok(), None => true } }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(70000)) + (self.content()) }
FN crate::Encode for OptTag::encode
TAGS C18 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for OptTag
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 70000) && arr(tag_at(s, i).data, 0) && (el(tag_at(s, i).data, 0).len() == 2 || el(tag_at(s, i).data, 0).len() == 1) && dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) && (el(tag_at(s, i).data, 0).len() == 2 ==> dec_all::<F1>(el(tag_at(s, i).data, 0)[1])) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 70000) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 70000u64) } else if !arr(tag_at(s, i).data, 0) { e is ReaderError && contcause(e->ReaderError_0, tag_at(s, i).data, 0, crate::types::Type::Array) } else if el(tag_at(s, i).data, 0).len() != 2 && el(tag_at(s, i).data, 0).len() != 1 { e is Custom } else if !dec_all::<F0>(el(tag_at(s, i).data, 0)[0]) { all_rerr::<F0>(e, el(tag_at(s, i).data, 0)[0]) } else if el(tag_at(s, i).data, 0).len() == 2 && !dec_all::<F1>(el(tag_at(s, i).data, 0)[1]) { all_rerr::<F1>(e, el(tag_at(s, i).data, 0)[1]) } else { false } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled2::<F0>(c, "x"@, name_of::<Self>()) || wled2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { <F0 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[0], 0, v.x) && (v.y is Some <==> el(tag_at(s, i).data, 0).len() == 2) && (v.y is Some ==> <F1 as crate::Decode>::dec_rel(el(tag_at(s, i).data, 0)[1], 0, v.y->Some_0)) }
FN crate::Decode for OptTag::decode
TAGS C18 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |reader: &mut crate::Reader<'a>|
CRET (q: Result<crate::types::Array<'a>, crate::ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Array, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::Array)
CENS
  q is Ok ==> av_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), av_enc(q->Ok_0.v()))
PRELUDE
  impl MapTwo {
      pub open spec fn count(&self) -> int { 2int }
      pub open spec fn body(&self) -> Seq<u8> { ((hv_enc(0, canon_hv(0)) + self.x.enc()) + (hv_enc(0, canon_hv(1)) + self.y.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapTwo
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapTwo::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapTwo
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![0int, 1int]) && val_ok::<F0>(me(s, i), 0) && has_key(me(s, i), 0) && val_ok::<F1>(me(s, i), 1) && has_key(me(s, i), 1) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 0 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 1 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 0, Some(v.x)) && val_rel::<F1>(me(s, i), 1, Some(v.y)) }
FN crate::Decode for MapTwo::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![0int, 1int])
INV
  val_ok::<F0>(e.take(n), 0) && val_rel::<F0>(e.take(n), 0, x)
INV
  val_ok::<F1>(e.take(n), 1) && val_rel::<F1>(e.take(n), 1, y)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![0int, 1int]); let keys = seq![0int, 1int]; assert(keys[0] == 0); assert(keys[1] == 1); lemma_val_step::<F0>(e, n, 0); lemma_val_step::<F1>(e, n, 1); n = n + 1; }
PRELUDE
  impl MapMix {
      pub open spec fn count(&self) -> int { 2int + (if self.y is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((hv_enc(0, canon_hv(0)) + self.x.enc()) + (match self.y { Some(x) => hv_enc(0, canon_hv(1)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(2)) + self.z.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapMix
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && (self.y is Some ==> self.y->Some_0.enc_ok()) && self.z.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapMix::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapMix
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![0int, 1int, 2int]) && val_ok::<F0>(me(s, i), 0) && has_key(me(s, i), 0) && val_ok::<F1>(me(s, i), 1) && val_ok::<F2>(me(s, i), 2) && has_key(me(s, i), 2) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 0 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 1 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 2 && !<F2 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F2 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) || led2::<F2>(c, "z"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 0, Some(v.x)) && val_rel::<F1>(me(s, i), 1, v.y) && val_rel::<F2>(me(s, i), 2, Some(v.z)) }
FN crate::Decode for MapMix::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![0int, 1int, 2int])
INV
  val_ok::<F0>(e.take(n), 0) && val_rel::<F0>(e.take(n), 0, x)
INV
  val_ok::<F1>(e.take(n), 1) && val_rel::<F1>(e.take(n), 1, y)
INV
  val_ok::<F2>(e.take(n), 2) && val_rel::<F2>(e.take(n), 2, z)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![0int, 1int, 2int]); let keys = seq![0int, 1int, 2int]; assert(keys[0] == 0); assert(keys[1] == 1); assert(keys[2] == 2); lemma_val_step::<F0>(e, n, 0); lemma_val_step::<F1>(e, n, 1); lemma_val_step::<F2>(e, n, 2); n = n + 1; }
PRELUDE
  impl MapOpts {
      pub open spec fn count(&self) -> int { 0int + (if self.x is Some { 1int } else { 0 }) + (if self.y is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(0)) + x.enc(), None => Seq::empty() }) + (match self.y { Some(x) => hv_enc(0, canon_hv(1)) + x.enc(), None => Seq::empty() })) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapOpts
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && (self.y is Some ==> self.y->Some_0.enc_ok()) }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapOpts::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapOpts
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![0int, 1int]) && val_ok::<F0>(me(s, i), 0) && val_ok::<F1>(me(s, i), 1) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 0 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 1 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 0, v.x) && val_rel::<F1>(me(s, i), 1, v.y) }
FN crate::Decode for MapOpts::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![0int, 1int])
INV
  val_ok::<F0>(e.take(n), 0) && val_rel::<F0>(e.take(n), 0, x)
INV
  val_ok::<F1>(e.take(n), 1) && val_rel::<F1>(e.take(n), 1, y)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![0int, 1int]); let keys = seq![0int, 1int]; assert(keys[0] == 0); assert(keys[1] == 1); lemma_val_step::<F0>(e, n, 0); lemma_val_step::<F1>(e, n, 1); n = n + 1; }
PRELUDE
  impl MapStart {
      pub open spec fn count(&self) -> int { 1int + (if self.x is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(5)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(6)) + self.y.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapStart
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapStart::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapStart
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![5int, 6int]) && val_ok::<F0>(me(s, i), 5) && val_ok::<F1>(me(s, i), 6) && has_key(me(s, i), 6) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 5 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 6 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 5, v.x) && val_rel::<F1>(me(s, i), 6, Some(v.y)) }
FN crate::Decode for MapStart::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![5int, 6int])
INV
  val_ok::<F0>(e.take(n), 5) && val_rel::<F0>(e.take(n), 5, x)
INV
  val_ok::<F1>(e.take(n), 6) && val_rel::<F1>(e.take(n), 6, y)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![5int, 6int]); let keys = seq![5int, 6int]; assert(keys[0] == 5); assert(keys[1] == 6); lemma_val_step::<F0>(e, n, 5); lemma_val_step::<F1>(e, n, 6); n = n + 1; }
PRELUDE
  impl MapSkip {
      pub open spec fn count(&self) -> int { 1int + (if self.x is Some { 1int } else { 0 }) + (if self.z is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(0)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(3)) + self.y.enc()) + (match self.z { Some(x) => hv_enc(0, canon_hv(5)) + x.enc(), None => Seq::empty() })) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapSkip
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && self.y.enc_ok() && (self.z is Some ==> self.z->Some_0.enc_ok()) }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapSkip::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapSkip
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![0int, 3int, 5int]) && val_ok::<F0>(me(s, i), 0) && val_ok::<F1>(me(s, i), 3) && has_key(me(s, i), 3) && val_ok::<F2>(me(s, i), 5) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 0 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 3 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 5 && !<F2 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F2 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) || led2::<F2>(c, "z"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 0, v.x) && val_rel::<F1>(me(s, i), 3, Some(v.y)) && val_rel::<F2>(me(s, i), 5, v.z) }
FN crate::Decode for MapSkip::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![0int, 3int, 5int])
INV
  val_ok::<F0>(e.take(n), 0) && val_rel::<F0>(e.take(n), 0, x)
INV
  val_ok::<F1>(e.take(n), 3) && val_rel::<F1>(e.take(n), 3, y)
INV
  val_ok::<F2>(e.take(n), 5) && val_rel::<F2>(e.take(n), 5, z)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![0int, 3int, 5int]); let keys = seq![0int, 3int, 5int]; assert(keys[0] == 0); assert(keys[1] == 3); assert(keys[2] == 5); lemma_val_step::<F0>(e, n, 0); lemma_val_step::<F1>(e, n, 3); lemma_val_step::<F2>(e, n, 5); n = n + 1; }
PRELUDE
  impl MapSkipFirst {
      pub open spec fn count(&self) -> int { 1int }
      pub open spec fn body(&self) -> Seq<u8> { ((hv_enc(0, canon_hv(1)) + self.x.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapSkipFirst
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapSkipFirst::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapSkipFirst
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![1int]) && val_ok::<F0>(me(s, i), 1) && has_key(me(s, i), 1) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 1 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 1, Some(v.x)) }
FN crate::Decode for MapSkipFirst::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![1int])
INV
  val_ok::<F0>(e.take(n), 1) && val_rel::<F0>(e.take(n), 1, x)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![1int]); let keys = seq![1int]; assert(keys[0] == 1); lemma_val_step::<F0>(e, n, 1); n = n + 1; }
PRELUDE
  impl MapTag {
      pub open spec fn count(&self) -> int { 1int + (if self.x is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(23)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(25)) + self.y.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapTag
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(6, canon_hv(1000)) + (self.content()) }
FN crate::Encode for MapTag::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.content()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapTag
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 1000) && mapp(tag_at(s, i).data, 0) && keys_ok(me(tag_at(s, i).data, 0), seq![23int, 25int]) && val_ok::<F0>(me(tag_at(s, i).data, 0), 23) && val_ok::<F1>(me(tag_at(s, i).data, 0), 25) && has_key(me(tag_at(s, i).data, 0), 25) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !tagged(s, i, 1000) { e is ReaderError && tag_err(e->ReaderError_0, s, i, 1000u64) } else if !mapp(tag_at(s, i).data, 0) { e is ReaderError && contcause(e->ReaderError_0, tag_at(s, i).data, 0, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(tag_at(s, i).data, 0).len() && #[trigger] entry_at(me(tag_at(s, i).data, 0), j) && ((!<u64 as crate::Decode>::dec_ok(me(tag_at(s, i).data, 0)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(tag_at(s, i).data, 0)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(tag_at(s, i).data, 0)[j].0, 0) && key_of(me(tag_at(s, i).data, 0)[j]) == 23 && !<F0 as crate::Decode>::dec_ok(me(tag_at(s, i).data, 0)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(tag_at(s, i).data, 0)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(tag_at(s, i).data, 0)[j].0, 0) && key_of(me(tag_at(s, i).data, 0)[j]) == 25 && !<F1 as crate::Decode>::dec_ok(me(tag_at(s, i).data, 0)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(tag_at(s, i).data, 0)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(tag_at(s, i).data, 0), 23, v.x) && val_rel::<F1>(me(tag_at(s, i).data, 0), 25, Some(v.y)) }
FN crate::Decode for MapTag::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |reader: &mut crate::Reader<'a>|
CRET (q: Result<crate::types::Map<'a>, crate::ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Map, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> contcause(q->Err_0, old(reader).s(), old(reader).i(), crate::types::Type::Map)
CENS
  q is Ok ==> mv_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), mv_enc(q->Ok_0.v()))
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![23int, 25int])
INV
  val_ok::<F0>(e.take(n), 23) && val_rel::<F0>(e.take(n), 23, x)
INV
  val_ok::<F1>(e.take(n), 25) && val_rel::<F1>(e.take(n), 25, y)
INV
  e == map.v().elems && e == me(tag_at(old($p0).s(), old($p0).i()).data, 0) && tagged(old($p0).s(), old($p0).i(), 1000) && mapp(tag_at(old($p0).s(), old($p0).i()).data, 0) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![23int, 25int]); let keys = seq![23int, 25int]; assert(keys[0] == 23); assert(keys[1] == 25); lemma_val_step::<F0>(e, n, 23); lemma_val_step::<F1>(e, n, 25); n = n + 1; }
PRELUDE
  impl MapHigh {
      pub open spec fn count(&self) -> int { 1int + (if self.y is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((hv_enc(0, canon_hv(4294967295)) + self.x.enc()) + (match self.y { Some(x) => hv_enc(0, canon_hv(4294967296)) + x.enc(), None => Seq::empty() })) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapHigh
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && (self.y is Some ==> self.y->Some_0.enc_ok()) }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapHigh::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapHigh
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![4294967295int, 4294967296int]) && val_ok::<F0>(me(s, i), 4294967295) && has_key(me(s, i), 4294967295) && val_ok::<F1>(me(s, i), 4294967296) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 4294967295 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 4294967296 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 4294967295, Some(v.x)) && val_rel::<F1>(me(s, i), 4294967296, v.y) }
FN crate::Decode for MapHigh::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![4294967295int, 4294967296int])
INV
  val_ok::<F0>(e.take(n), 4294967295) && val_rel::<F0>(e.take(n), 4294967295, x)
INV
  val_ok::<F1>(e.take(n), 4294967296) && val_rel::<F1>(e.take(n), 4294967296, y)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![4294967295int, 4294967296int]); let keys = seq![4294967295int, 4294967296int]; assert(keys[0] == 4294967295); assert(keys[1] == 4294967296); lemma_val_step::<F0>(e, n, 4294967295); lemma_val_step::<F1>(e, n, 4294967296); n = n + 1; }
PRELUDE
  impl MapOrder {
      pub open spec fn count(&self) -> int { 2int + (if self.y is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((hv_enc(0, canon_hv(1)) + self.x.enc()) + (match self.y { Some(x) => hv_enc(0, canon_hv(3)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(5)) + self.z.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapOrder
  open spec fn enc_ok(&self) -> bool { self.x.enc_ok() && (self.y is Some ==> self.y->Some_0.enc_ok()) && self.z.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapOrder::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapOrder
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![1int, 3int, 5int]) && val_ok::<F0>(me(s, i), 1) && has_key(me(s, i), 1) && val_ok::<F1>(me(s, i), 3) && val_ok::<F2>(me(s, i), 5) && has_key(me(s, i), 5) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 1 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 3 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 5 && !<F2 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F2 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) || led2::<F2>(c, "z"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 1, Some(v.x)) && val_rel::<F1>(me(s, i), 3, v.y) && val_rel::<F2>(me(s, i), 5, Some(v.z)) }
FN crate::Decode for MapOrder::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![1int, 3int, 5int])
INV
  val_ok::<F0>(e.take(n), 1) && val_rel::<F0>(e.take(n), 1, x)
INV
  val_ok::<F1>(e.take(n), 3) && val_rel::<F1>(e.take(n), 3, y)
INV
  val_ok::<F2>(e.take(n), 5) && val_rel::<F2>(e.take(n), 5, z)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![1int, 3int, 5int]); let keys = seq![1int, 3int, 5int]; assert(keys[0] == 1); assert(keys[1] == 3); assert(keys[2] == 5); lemma_val_step::<F0>(e, n, 1); lemma_val_step::<F1>(e, n, 3); lemma_val_step::<F2>(e, n, 5); n = n + 1; }
PRELUDE
  impl MapBelow {
      pub open spec fn count(&self) -> int { 1int + (if self.x is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(5)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(7)) + self.y.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapBelow
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapBelow::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapBelow
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![5int, 7int]) && val_ok::<F0>(me(s, i), 5) && val_ok::<F1>(me(s, i), 7) && has_key(me(s, i), 7) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 5 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 7 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 5, v.x) && val_rel::<F1>(me(s, i), 7, Some(v.y)) }
FN crate::Decode for MapBelow::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![5int, 7int])
INV
  val_ok::<F0>(e.take(n), 5) && val_rel::<F0>(e.take(n), 5, x)
INV
  val_ok::<F1>(e.take(n), 7) && val_rel::<F1>(e.take(n), 7, y)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![5int, 7int]); let keys = seq![5int, 7int]; assert(keys[0] == 5); assert(keys[1] == 7); lemma_val_step::<F0>(e, n, 5); lemma_val_step::<F1>(e, n, 7); n = n + 1; }
PRELUDE
  impl MapTop {
      pub open spec fn count(&self) -> int { 1int + (if self.x is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(18446744073709551613)) + x.enc(), None => Seq::empty() }) + (hv_enc(0, canon_hv(18446744073709551615)) + self.y.enc())) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapTop
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && self.y.enc_ok() }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapTop::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapTop
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![18446744073709551613int, 18446744073709551615int]) && val_ok::<F0>(me(s, i), 18446744073709551613) && val_ok::<F1>(me(s, i), 18446744073709551615) && has_key(me(s, i), 18446744073709551615) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 18446744073709551613 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 18446744073709551615 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 18446744073709551613, v.x) && val_rel::<F1>(me(s, i), 18446744073709551615, Some(v.y)) }
FN crate::Decode for MapTop::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![18446744073709551613int, 18446744073709551615int])
INV
  val_ok::<F0>(e.take(n), 18446744073709551613) && val_rel::<F0>(e.take(n), 18446744073709551613, x)
INV
  val_ok::<F1>(e.take(n), 18446744073709551615) && val_rel::<F1>(e.take(n), 18446744073709551615, y)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![18446744073709551613int, 18446744073709551615int]); let keys = seq![18446744073709551613int, 18446744073709551615int]; assert(keys[0] == 18446744073709551613); assert(keys[1] == 18446744073709551615); lemma_val_step::<F0>(e, n, 18446744073709551613); lemma_val_step::<F1>(e, n, 18446744073709551615); n = n + 1; }
PRELUDE
  impl MapEdge {
      pub open spec fn count(&self) -> int { 0int + (if self.x is Some { 1int } else { 0 }) + (if self.y is Some { 1int } else { 0 }) + (if self.z is Some { 1int } else { 0 }) }
      pub open spec fn body(&self) -> Seq<u8> { ((match self.x { Some(x) => hv_enc(0, canon_hv(254)) + x.enc(), None => Seq::empty() }) + (match self.y { Some(x) => hv_enc(0, canon_hv(255)) + x.enc(), None => Seq::empty() }) + (match self.z { Some(x) => hv_enc(0, canon_hv(257)) + x.enc(), None => Seq::empty() })) }
      pub open spec fn content(&self) -> Seq<u8> { hv_enc(5, canon_hv(self.count() as u64)) + self.body() }
  }
IMPL crate::Encode for MapEdge
  open spec fn enc_ok(&self) -> bool { (self.x is Some ==> self.x->Some_0.enc_ok()) && (self.y is Some ==> self.y->Some_0.enc_ok()) && (self.z is Some ==> self.z->Some_0.enc_ok()) }
  open spec fn enc(&self) -> Seq<u8> { self.content() }
FN crate::Encode for MapEdge::encode
TAGS C18 C04 C20
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for MapEdge
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { mapp(s, i) && keys_ok(me(s, i), seq![254int, 255int, 257int]) && val_ok::<F0>(me(s, i), 254) && val_ok::<F1>(me(s, i), 255) && val_ok::<F2>(me(s, i), 257) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !mapp(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Map) } else { e is Custom || exists|j: int| 0 <= j < me(s, i).len() && #[trigger] entry_at(me(s, i), j) && ((!<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && <u64 as crate::Decode>::dec_err(me(s, i)[j].0, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 254 && !<F0 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F0 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 255 && !<F1 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F1 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e)) || (<u64 as crate::Decode>::dec_ok(me(s, i)[j].0, 0) && key_of(me(s, i)[j]) == 257 && !<F2 as crate::Decode>::dec_ok(me(s, i)[j].1, 0) && <F2 as crate::Decode>::dec_err(me(s, i)[j].1, 0, e))) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led1::<u64>(c, name_of::<Self>()) || led2::<F0>(c, "x"@, name_of::<Self>()) || led2::<F1>(c, "y"@, name_of::<Self>()) || led2::<F2>(c, "z"@, name_of::<Self>()) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { val_rel::<F0>(me(s, i), 254, v.x) && val_rel::<F1>(me(s, i), 255, v.y) && val_rel::<F2>(me(s, i), 257, v.z) }
FN crate::Decode for MapEdge::decode
TAGS C18 C04 C20 C25
ENTRY
  proof { lemma_ats_derived(); }
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = map.v().elems; let ghost mut n: int = 0;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn && fresh_pairs(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  0 <= n <= all.len() && it.remaining() =~= all.subrange(n, all.len() as int)
INV
  keys_ok(e.take(n), seq![254int, 255int, 257int])
INV
  val_ok::<F0>(e.take(n), 254) && val_rel::<F0>(e.take(n), 254, x)
INV
  val_ok::<F1>(e.take(n), 255) && val_rel::<F1>(e.take(n), 255, y)
INV
  val_ok::<F2>(e.take(n), 257) && val_rel::<F2>(e.take(n), 257, z)
INV
  e == map.v().elems && e == me(old($p0).s(), old($p0).i()) && mapp(old($p0).s(), old($p0).i()) && moved(*old($p0), *reader) && reader.i() == eoi(item(old($p0).s(), old($p0).i()))
LENS
  n == e.len() && e.take(n) =~= e
LDEC
  e.len() - n
LSTART
  proof { assert(fresh_pair(all[n], e[n])); assert(entry_at(e, n)); lemma_keys_step(e, n, seq![254int, 255int, 257int]); let keys = seq![254int, 255int, 257int]; assert(keys[0] == 254); assert(keys[1] == 255); assert(keys[2] == 257); lemma_val_step::<F0>(e, n, 254); lemma_val_step::<F1>(e, n, 255); lemma_val_step::<F2>(e, n, 257); n = n + 1; }
PRELUDE
  impl Code {
      pub open spec fn body(&self) -> Seq<u8> { match self { Code::A => hv_enc(0, canon_hv(0)), Code::B => hv_enc(0, canon_hv(1)), Code::C => hv_enc(0, canon_hv(2)) } }
  }
IMPL crate::Encode for Code
  open spec fn enc_ok(&self) -> bool { match self { Code::A => true, Code::B => true, Code::C => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { Code::A => hv_enc(0, canon_hv(0)), Code::B => hv_enc(0, canon_hv(1)), Code::C => hv_enc(0, canon_hv(2)) } }
FN crate::Encode for Code::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for Code
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 0 { false } else if num_at(s, i) == 1 { false } else if num_at(s, i) == 2 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 0 || num_at(s, i) == 1 || num_at(s, i) == 2) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { Code::A => num_at(s, i) == 0, Code::B => num_at(s, i) == 1, Code::C => num_at(s, i) == 2 } }
FN crate::Decode for Code::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl CodeStart {
      pub open spec fn body(&self) -> Seq<u8> { match self { CodeStart::A => hv_enc(0, canon_hv(3)), CodeStart::B => hv_enc(0, canon_hv(4)), CodeStart::C => hv_enc(0, canon_hv(5)) } }
  }
IMPL crate::Encode for CodeStart
  open spec fn enc_ok(&self) -> bool { match self { CodeStart::A => true, CodeStart::B => true, CodeStart::C => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { CodeStart::A => hv_enc(0, canon_hv(3)), CodeStart::B => hv_enc(0, canon_hv(4)), CodeStart::C => hv_enc(0, canon_hv(5)) } }
FN crate::Encode for CodeStart::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for CodeStart
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 3 { false } else if num_at(s, i) == 4 { false } else if num_at(s, i) == 5 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 3 || num_at(s, i) == 4 || num_at(s, i) == 5) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { CodeStart::A => num_at(s, i) == 3, CodeStart::B => num_at(s, i) == 4, CodeStart::C => num_at(s, i) == 5 } }
FN crate::Decode for CodeStart::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl CodeSkip {
      pub open spec fn body(&self) -> Seq<u8> { match self { CodeSkip::A => hv_enc(0, canon_hv(23)), CodeSkip::B => hv_enc(0, canon_hv(26)), CodeSkip::C => hv_enc(0, canon_hv(27)), CodeSkip::D => hv_enc(0, canon_hv(28)) } }
  }
IMPL crate::Encode for CodeSkip
  open spec fn enc_ok(&self) -> bool { match self { CodeSkip::A => true, CodeSkip::B => true, CodeSkip::C => true, CodeSkip::D => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { CodeSkip::A => hv_enc(0, canon_hv(23)), CodeSkip::B => hv_enc(0, canon_hv(26)), CodeSkip::C => hv_enc(0, canon_hv(27)), CodeSkip::D => hv_enc(0, canon_hv(28)) } }
FN crate::Encode for CodeSkip::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for CodeSkip
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 23 { false } else if num_at(s, i) == 26 { false } else if num_at(s, i) == 27 { false } else if num_at(s, i) == 28 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 23 || num_at(s, i) == 26 || num_at(s, i) == 27 || num_at(s, i) == 28) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { CodeSkip::A => num_at(s, i) == 23, CodeSkip::B => num_at(s, i) == 26, CodeSkip::C => num_at(s, i) == 27, CodeSkip::D => num_at(s, i) == 28 } }
FN crate::Decode for CodeSkip::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl CodeSkipTwo {
      pub open spec fn body(&self) -> Seq<u8> { match self { CodeSkipTwo::A => hv_enc(0, canon_hv(0)), CodeSkipTwo::B => hv_enc(0, canon_hv(2)), CodeSkipTwo::C => hv_enc(0, canon_hv(4)) } }
  }
IMPL crate::Encode for CodeSkipTwo
  open spec fn enc_ok(&self) -> bool { match self { CodeSkipTwo::A => true, CodeSkipTwo::B => true, CodeSkipTwo::C => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { CodeSkipTwo::A => hv_enc(0, canon_hv(0)), CodeSkipTwo::B => hv_enc(0, canon_hv(2)), CodeSkipTwo::C => hv_enc(0, canon_hv(4)) } }
FN crate::Encode for CodeSkipTwo::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for CodeSkipTwo
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 0 { false } else if num_at(s, i) == 2 { false } else if num_at(s, i) == 4 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 0 || num_at(s, i) == 2 || num_at(s, i) == 4) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { CodeSkipTwo::A => num_at(s, i) == 0, CodeSkipTwo::B => num_at(s, i) == 2, CodeSkipTwo::C => num_at(s, i) == 4 } }
FN crate::Decode for CodeSkipTwo::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl CodeMany {
      pub open spec fn body(&self) -> Seq<u8> { match self { CodeMany::V0 => hv_enc(0, canon_hv(0)), CodeMany::V1 => hv_enc(0, canon_hv(1)), CodeMany::V2 => hv_enc(0, canon_hv(2)), CodeMany::V3 => hv_enc(0, canon_hv(3)), CodeMany::V4 => hv_enc(0, canon_hv(4)), CodeMany::V5 => hv_enc(0, canon_hv(5)), CodeMany::V6 => hv_enc(0, canon_hv(6)), CodeMany::V7 => hv_enc(0, canon_hv(7)), CodeMany::V8 => hv_enc(0, canon_hv(8)), CodeMany::V9 => hv_enc(0, canon_hv(9)), CodeMany::V10 => hv_enc(0, canon_hv(10)), CodeMany::V11 => hv_enc(0, canon_hv(11)), CodeMany::V12 => hv_enc(0, canon_hv(12)), CodeMany::V13 => hv_enc(0, canon_hv(13)), CodeMany::V14 => hv_enc(0, canon_hv(14)), CodeMany::V15 => hv_enc(0, canon_hv(15)), CodeMany::V16 => hv_enc(0, canon_hv(16)), CodeMany::V17 => hv_enc(0, canon_hv(17)), CodeMany::V18 => hv_enc(0, canon_hv(18)), CodeMany::V19 => hv_enc(0, canon_hv(19)), CodeMany::V20 => hv_enc(0, canon_hv(20)), CodeMany::V21 => hv_enc(0, canon_hv(21)), CodeMany::V22 => hv_enc(0, canon_hv(22)), CodeMany::V23 => hv_enc(0, canon_hv(24)), CodeMany::V24 => hv_enc(0, canon_hv(25)), CodeMany::V25 => hv_enc(0, canon_hv(26)), CodeMany::V26 => hv_enc(0, canon_hv(27)) } }
  }
IMPL crate::Encode for CodeMany
  open spec fn enc_ok(&self) -> bool { match self { CodeMany::V0 => true, CodeMany::V1 => true, CodeMany::V2 => true, CodeMany::V3 => true, CodeMany::V4 => true, CodeMany::V5 => true, CodeMany::V6 => true, CodeMany::V7 => true, CodeMany::V8 => true, CodeMany::V9 => true, CodeMany::V10 => true, CodeMany::V11 => true, CodeMany::V12 => true, CodeMany::V13 => true, CodeMany::V14 => true, CodeMany::V15 => true, CodeMany::V16 => true, CodeMany::V17 => true, CodeMany::V18 => true, CodeMany::V19 => true, CodeMany::V20 => true, CodeMany::V21 => true, CodeMany::V22 => true, CodeMany::V23 => true, CodeMany::V24 => true, CodeMany::V25 => true, CodeMany::V26 => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { CodeMany::V0 => hv_enc(0, canon_hv(0)), CodeMany::V1 => hv_enc(0, canon_hv(1)), CodeMany::V2 => hv_enc(0, canon_hv(2)), CodeMany::V3 => hv_enc(0, canon_hv(3)), CodeMany::V4 => hv_enc(0, canon_hv(4)), CodeMany::V5 => hv_enc(0, canon_hv(5)), CodeMany::V6 => hv_enc(0, canon_hv(6)), CodeMany::V7 => hv_enc(0, canon_hv(7)), CodeMany::V8 => hv_enc(0, canon_hv(8)), CodeMany::V9 => hv_enc(0, canon_hv(9)), CodeMany::V10 => hv_enc(0, canon_hv(10)), CodeMany::V11 => hv_enc(0, canon_hv(11)), CodeMany::V12 => hv_enc(0, canon_hv(12)), CodeMany::V13 => hv_enc(0, canon_hv(13)), CodeMany::V14 => hv_enc(0, canon_hv(14)), CodeMany::V15 => hv_enc(0, canon_hv(15)), CodeMany::V16 => hv_enc(0, canon_hv(16)), CodeMany::V17 => hv_enc(0, canon_hv(17)), CodeMany::V18 => hv_enc(0, canon_hv(18)), CodeMany::V19 => hv_enc(0, canon_hv(19)), CodeMany::V20 => hv_enc(0, canon_hv(20)), CodeMany::V21 => hv_enc(0, canon_hv(21)), CodeMany::V22 => hv_enc(0, canon_hv(22)), CodeMany::V23 => hv_enc(0, canon_hv(24)), CodeMany::V24 => hv_enc(0, canon_hv(25)), CodeMany::V25 => hv_enc(0, canon_hv(26)), CodeMany::V26 => hv_enc(0, canon_hv(27)) } }
FN crate::Encode for CodeMany::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for CodeMany
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 0 { false } else if num_at(s, i) == 1 { false } else if num_at(s, i) == 2 { false } else if num_at(s, i) == 3 { false } else if num_at(s, i) == 4 { false } else if num_at(s, i) == 5 { false } else if num_at(s, i) == 6 { false } else if num_at(s, i) == 7 { false } else if num_at(s, i) == 8 { false } else if num_at(s, i) == 9 { false } else if num_at(s, i) == 10 { false } else if num_at(s, i) == 11 { false } else if num_at(s, i) == 12 { false } else if num_at(s, i) == 13 { false } else if num_at(s, i) == 14 { false } else if num_at(s, i) == 15 { false } else if num_at(s, i) == 16 { false } else if num_at(s, i) == 17 { false } else if num_at(s, i) == 18 { false } else if num_at(s, i) == 19 { false } else if num_at(s, i) == 20 { false } else if num_at(s, i) == 21 { false } else if num_at(s, i) == 22 { false } else if num_at(s, i) == 24 { false } else if num_at(s, i) == 25 { false } else if num_at(s, i) == 26 { false } else if num_at(s, i) == 27 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 0 || num_at(s, i) == 1 || num_at(s, i) == 2 || num_at(s, i) == 3 || num_at(s, i) == 4 || num_at(s, i) == 5 || num_at(s, i) == 6 || num_at(s, i) == 7 || num_at(s, i) == 8 || num_at(s, i) == 9 || num_at(s, i) == 10 || num_at(s, i) == 11 || num_at(s, i) == 12 || num_at(s, i) == 13 || num_at(s, i) == 14 || num_at(s, i) == 15 || num_at(s, i) == 16 || num_at(s, i) == 17 || num_at(s, i) == 18 || num_at(s, i) == 19 || num_at(s, i) == 20 || num_at(s, i) == 21 || num_at(s, i) == 22 || num_at(s, i) == 24 || num_at(s, i) == 25 || num_at(s, i) == 26 || num_at(s, i) == 27) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { CodeMany::V0 => num_at(s, i) == 0, CodeMany::V1 => num_at(s, i) == 1, CodeMany::V2 => num_at(s, i) == 2, CodeMany::V3 => num_at(s, i) == 3, CodeMany::V4 => num_at(s, i) == 4, CodeMany::V5 => num_at(s, i) == 5, CodeMany::V6 => num_at(s, i) == 6, CodeMany::V7 => num_at(s, i) == 7, CodeMany::V8 => num_at(s, i) == 8, CodeMany::V9 => num_at(s, i) == 9, CodeMany::V10 => num_at(s, i) == 10, CodeMany::V11 => num_at(s, i) == 11, CodeMany::V12 => num_at(s, i) == 12, CodeMany::V13 => num_at(s, i) == 13, CodeMany::V14 => num_at(s, i) == 14, CodeMany::V15 => num_at(s, i) == 15, CodeMany::V16 => num_at(s, i) == 16, CodeMany::V17 => num_at(s, i) == 17, CodeMany::V18 => num_at(s, i) == 18, CodeMany::V19 => num_at(s, i) == 19, CodeMany::V20 => num_at(s, i) == 20, CodeMany::V21 => num_at(s, i) == 21, CodeMany::V22 => num_at(s, i) == 22, CodeMany::V23 => num_at(s, i) == 24, CodeMany::V24 => num_at(s, i) == 25, CodeMany::V25 => num_at(s, i) == 26, CodeMany::V26 => num_at(s, i) == 27 } }
FN crate::Decode for CodeMany::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl CodeHigh {
      pub open spec fn body(&self) -> Seq<u8> { match self { CodeHigh::A => hv_enc(0, canon_hv(4294967295)), CodeHigh::B => hv_enc(0, canon_hv(4294967296)), CodeHigh::C => hv_enc(0, canon_hv(4294967297)) } }
  }
IMPL crate::Encode for CodeHigh
  open spec fn enc_ok(&self) -> bool { match self { CodeHigh::A => true, CodeHigh::B => true, CodeHigh::C => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { CodeHigh::A => hv_enc(0, canon_hv(4294967295)), CodeHigh::B => hv_enc(0, canon_hv(4294967296)), CodeHigh::C => hv_enc(0, canon_hv(4294967297)) } }
FN crate::Encode for CodeHigh::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for CodeHigh
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 4294967295 { false } else if num_at(s, i) == 4294967296 { false } else if num_at(s, i) == 4294967297 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 4294967295 || num_at(s, i) == 4294967296 || num_at(s, i) == 4294967297) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { CodeHigh::A => num_at(s, i) == 4294967295, CodeHigh::B => num_at(s, i) == 4294967296, CodeHigh::C => num_at(s, i) == 4294967297 } }
FN crate::Decode for CodeHigh::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl CodeEdge {
      pub open spec fn body(&self) -> Seq<u8> { match self { CodeEdge::A => hv_enc(0, canon_hv(255)), CodeEdge::B => hv_enc(0, canon_hv(257)), CodeEdge::C => hv_enc(0, canon_hv(258)) } }
  }
IMPL crate::Encode for CodeEdge
  open spec fn enc_ok(&self) -> bool { match self { CodeEdge::A => true, CodeEdge::B => true, CodeEdge::C => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { CodeEdge::A => hv_enc(0, canon_hv(255)), CodeEdge::B => hv_enc(0, canon_hv(257)), CodeEdge::C => hv_enc(0, canon_hv(258)) } }
FN crate::Encode for CodeEdge::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for CodeEdge
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !<u64 as crate::Decode>::dec_ok(s, i) { <u64 as crate::Decode>::dec_err(s, i, e) } else if num_at(s, i) == 255 { false } else if num_at(s, i) == 257 { false } else if num_at(s, i) == 258 { false } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || <u64 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && (num_at(s, i) == 255 || num_at(s, i) == 257 || num_at(s, i) == 258) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { CodeEdge::A => num_at(s, i) == 255, CodeEdge::B => num_at(s, i) == 257, CodeEdge::C => num_at(s, i) == 258 } }
FN crate::Decode for CodeEdge::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl VarHigh {
      pub open spec fn body(&self) -> Seq<u8> { match self { VarHigh::A(field0) => (hv_enc(0, canon_hv(65535)) + field0.enc()), VarHigh::B => (hv_enc(0, canon_hv(65536))), VarHigh::C { x, y, z, w } => (hv_enc(0, canon_hv(65537)) + x.enc() + y.enc() + z.enc() + w.enc()) } }
  }
IMPL crate::Encode for VarHigh
  open spec fn enc_ok(&self) -> bool { match self { VarHigh::A(field0) => field0.enc_ok(), VarHigh::B => true, VarHigh::C { x, y, z, w } => x.enc_ok() && y.enc_ok() && z.enc_ok() && w.enc_ok() } }
  open spec fn enc(&self) -> Seq<u8> { match self { VarHigh::A(field0) => hv_enc(4, canon_hv(2)) + self.body(), VarHigh::B => hv_enc(4, canon_hv(1)) + self.body(), VarHigh::C { x, y, z, w } => hv_enc(4, canon_hv(5)) + self.body() } }
FN crate::Encode for VarHigh::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 2
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for VarHigh
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() == 0 { e is Custom } else if !dec_all::<u64>(el(s, i)[0]) { all_rerr::<u64>(e, el(s, i)[0]) } else if num_at(el(s, i)[0], 0) == 65535 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<F0>(el(s, i)[1]) { all_rerr::<F0>(e, el(s, i)[1]) } else { false } } else if num_at(el(s, i)[0], 0) == 65536 { if el(s, i).len() != 1 { e is Custom } else { false } } else if num_at(el(s, i)[0], 0) == 65537 { if el(s, i).len() != 5 { e is Custom } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else if !dec_all::<F2>(el(s, i)[2]) { all_rerr::<F2>(e, el(s, i)[2]) } else if !dec_all::<F3>(el(s, i)[3]) { all_rerr::<F3>(e, el(s, i)[3]) } else if !dec_all::<F4>(el(s, i)[4]) { all_rerr::<F4>(e, el(s, i)[4]) } else { false } } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled0::<u64>(c) || wled3::<F0>(c, "field0"@, "A"@, name_of::<Self>()) || wled3::<F1>(c, "x"@, "C"@, name_of::<Self>()) || wled3::<F2>(c, "y"@, "C"@, name_of::<Self>()) || wled3::<F3>(c, "z"@, "C"@, name_of::<Self>()) || wled3::<F4>(c, "w"@, "C"@, name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ((num_at(el(s, i)[0], 0) == 65535 && el(s, i).len() == 2 && dec_all::<F0>(el(s, i)[1])) || (num_at(el(s, i)[0], 0) == 65536 && el(s, i).len() == 1) || (num_at(el(s, i)[0], 0) == 65537 && el(s, i).len() == 5 && dec_all::<F1>(el(s, i)[1]) && dec_all::<F2>(el(s, i)[2]) && dec_all::<F3>(el(s, i)[3]) && dec_all::<F4>(el(s, i)[4]))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { VarHigh::A(field0) => num_at(el(s, i)[0], 0) == 65535 && <F0 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0), VarHigh::B => num_at(el(s, i)[0], 0) == 65536, VarHigh::C { x, y, z, w } => num_at(el(s, i)[0], 0) == 65537 && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, x) && <F2 as crate::Decode>::dec_rel(el(s, i)[2], 0, y) && <F3 as crate::Decode>::dec_rel(el(s, i)[3], 0, z) && <F4 as crate::Decode>::dec_rel(el(s, i)[4], 0, w) } }
FN crate::Decode for VarHigh::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl VarEdge {
      pub open spec fn body(&self) -> Seq<u8> { match self { VarEdge::A => (hv_enc(0, canon_hv(23))), VarEdge::B(field0, field1, field2) => (hv_enc(0, canon_hv(25)) + field0.enc() + field1.enc() + field2.enc()) } }
  }
IMPL crate::Encode for VarEdge
  open spec fn enc_ok(&self) -> bool { match self { VarEdge::A => true, VarEdge::B(field0, field1, field2) => field0.enc_ok() && field1.enc_ok() && field2.enc_ok() } }
  open spec fn enc(&self) -> Seq<u8> { match self { VarEdge::A => hv_enc(4, canon_hv(1)) + self.body(), VarEdge::B(field0, field1, field2) => hv_enc(4, canon_hv(4)) + self.body() } }
FN crate::Encode for VarEdge::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for VarEdge
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() == 0 { e is Custom } else if !dec_all::<u64>(el(s, i)[0]) { all_rerr::<u64>(e, el(s, i)[0]) } else if num_at(el(s, i)[0], 0) == 23 { if el(s, i).len() != 1 { e is Custom } else { false } } else if num_at(el(s, i)[0], 0) == 25 { if el(s, i).len() != 4 { e is Custom } else if !dec_all::<F0>(el(s, i)[1]) { all_rerr::<F0>(e, el(s, i)[1]) } else if !dec_all::<F0>(el(s, i)[2]) { all_rerr::<F0>(e, el(s, i)[2]) } else if !dec_all::<F1>(el(s, i)[3]) { all_rerr::<F1>(e, el(s, i)[3]) } else { false } } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled0::<u64>(c) || wled3::<F0>(c, "field0"@, "B"@, name_of::<Self>()) || wled3::<F0>(c, "field1"@, "B"@, name_of::<Self>()) || wled3::<F1>(c, "field2"@, "B"@, name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ((num_at(el(s, i)[0], 0) == 23 && el(s, i).len() == 1) || (num_at(el(s, i)[0], 0) == 25 && el(s, i).len() == 4 && dec_all::<F0>(el(s, i)[1]) && dec_all::<F0>(el(s, i)[2]) && dec_all::<F1>(el(s, i)[3]))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { VarEdge::A => num_at(el(s, i)[0], 0) == 23, VarEdge::B(field0, field1, field2) => num_at(el(s, i)[0], 0) == 25 && <F0 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0) && <F0 as crate::Decode>::dec_rel(el(s, i)[2], 0, field1) && <F1 as crate::Decode>::dec_rel(el(s, i)[3], 0, field2) } }
FN crate::Decode for VarEdge::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl Var {
      pub open spec fn body(&self) -> Seq<u8> { match self { Var::A => (hv_enc(0, canon_hv(0))), Var::B(field0) => (hv_enc(0, canon_hv(1)) + field0.enc()), Var::C { x, y } => (hv_enc(0, canon_hv(2)) + x.enc() + y.enc()), Var::D(field0, field1) => (hv_enc(0, canon_hv(3)) + field0.enc() + field1.enc()) } }
  }
IMPL crate::Encode for Var
  open spec fn enc_ok(&self) -> bool { match self { Var::A => true, Var::B(field0) => field0.enc_ok(), Var::C { x, y } => x.enc_ok() && y.enc_ok(), Var::D(field0, field1) => field0.enc_ok() && field1.enc_ok() } }
  open spec fn enc(&self) -> Seq<u8> { match self { Var::A => hv_enc(4, canon_hv(1)) + self.body(), Var::B(field0) => hv_enc(4, canon_hv(2)) + self.body(), Var::C { x, y } => hv_enc(4, canon_hv(3)) + self.body(), Var::D(field0, field1) => hv_enc(4, canon_hv(3)) + self.body() } }
FN crate::Encode for Var::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 2
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 3
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for Var
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() == 0 { e is Custom } else if !dec_all::<u64>(el(s, i)[0]) { all_rerr::<u64>(e, el(s, i)[0]) } else if num_at(el(s, i)[0], 0) == 0 { if el(s, i).len() != 1 { e is Custom } else { false } } else if num_at(el(s, i)[0], 0) == 1 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<F0>(el(s, i)[1]) { all_rerr::<F0>(e, el(s, i)[1]) } else { false } } else if num_at(el(s, i)[0], 0) == 2 { if el(s, i).len() != 3 { e is Custom } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else if !dec_all::<F2>(el(s, i)[2]) { all_rerr::<F2>(e, el(s, i)[2]) } else { false } } else if num_at(el(s, i)[0], 0) == 3 { if el(s, i).len() != 3 { e is Custom } else if !dec_all::<F3>(el(s, i)[1]) { all_rerr::<F3>(e, el(s, i)[1]) } else if !dec_all::<F4>(el(s, i)[2]) { all_rerr::<F4>(e, el(s, i)[2]) } else { false } } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled0::<u64>(c) || wled3::<F0>(c, "field0"@, "B"@, name_of::<Self>()) || wled3::<F1>(c, "x"@, "C"@, name_of::<Self>()) || wled3::<F2>(c, "y"@, "C"@, name_of::<Self>()) || wled3::<F3>(c, "field0"@, "D"@, name_of::<Self>()) || wled3::<F4>(c, "field1"@, "D"@, name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ((num_at(el(s, i)[0], 0) == 0 && el(s, i).len() == 1) || (num_at(el(s, i)[0], 0) == 1 && el(s, i).len() == 2 && dec_all::<F0>(el(s, i)[1])) || (num_at(el(s, i)[0], 0) == 2 && el(s, i).len() == 3 && dec_all::<F1>(el(s, i)[1]) && dec_all::<F2>(el(s, i)[2])) || (num_at(el(s, i)[0], 0) == 3 && el(s, i).len() == 3 && dec_all::<F3>(el(s, i)[1]) && dec_all::<F4>(el(s, i)[2]))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { Var::A => num_at(el(s, i)[0], 0) == 0, Var::B(field0) => num_at(el(s, i)[0], 0) == 1 && <F0 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0), Var::C { x, y } => num_at(el(s, i)[0], 0) == 2 && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, x) && <F2 as crate::Decode>::dec_rel(el(s, i)[2], 0, y), Var::D(field0, field1) => num_at(el(s, i)[0], 0) == 3 && <F3 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0) && <F4 as crate::Decode>::dec_rel(el(s, i)[2], 0, field1) } }
FN crate::Decode for Var::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl VarPlain {
      pub open spec fn body(&self) -> Seq<u8> { match self { VarPlain::A(field0) => (hv_enc(0, canon_hv(0)) + field0.enc()), VarPlain::B(field0) => (hv_enc(0, canon_hv(1)) + field0.enc()) } }
  }
IMPL crate::Encode for VarPlain
  open spec fn enc_ok(&self) -> bool { match self { VarPlain::A(field0) => field0.enc_ok(), VarPlain::B(field0) => field0.enc_ok() } }
  open spec fn enc(&self) -> Seq<u8> { match self { VarPlain::A(field0) => hv_enc(4, canon_hv(2)) + self.body(), VarPlain::B(field0) => hv_enc(4, canon_hv(2)) + self.body() } }
FN crate::Encode for VarPlain::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for VarPlain
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() == 0 { e is Custom } else if !dec_all::<u64>(el(s, i)[0]) { all_rerr::<u64>(e, el(s, i)[0]) } else if num_at(el(s, i)[0], 0) == 0 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<F0>(el(s, i)[1]) { all_rerr::<F0>(e, el(s, i)[1]) } else { false } } else if num_at(el(s, i)[0], 0) == 1 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else { false } } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled0::<u64>(c) || wled3::<F0>(c, "field0"@, "A"@, name_of::<Self>()) || wled3::<F1>(c, "field0"@, "B"@, name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ((num_at(el(s, i)[0], 0) == 0 && el(s, i).len() == 2 && dec_all::<F0>(el(s, i)[1])) || (num_at(el(s, i)[0], 0) == 1 && el(s, i).len() == 2 && dec_all::<F1>(el(s, i)[1]))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { VarPlain::A(field0) => num_at(el(s, i)[0], 0) == 0 && <F0 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0), VarPlain::B(field0) => num_at(el(s, i)[0], 0) == 1 && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0) } }
FN crate::Decode for VarPlain::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl VarSkip {
      pub open spec fn body(&self) -> Seq<u8> { match self { VarSkip::A(field0) => (hv_enc(0, canon_hv(2)) + field0.enc()), VarSkip::B => (hv_enc(0, canon_hv(4))), VarSkip::C { x } => (hv_enc(0, canon_hv(7)) + x.enc()) } }
  }
IMPL crate::Encode for VarSkip
  open spec fn enc_ok(&self) -> bool { match self { VarSkip::A(field0) => field0.enc_ok(), VarSkip::B => true, VarSkip::C { x } => x.enc_ok() } }
  open spec fn enc(&self) -> Seq<u8> { match self { VarSkip::A(field0) => hv_enc(4, canon_hv(2)) + self.body(), VarSkip::B => hv_enc(4, canon_hv(1)) + self.body(), VarSkip::C { x } => hv_enc(4, canon_hv(2)) + self.body() } }
FN crate::Encode for VarSkip::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 2
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
IMPL crate::Decode for VarSkip
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() == 0 { e is Custom } else if !dec_all::<u64>(el(s, i)[0]) { all_rerr::<u64>(e, el(s, i)[0]) } else if num_at(el(s, i)[0], 0) == 2 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<F0>(el(s, i)[1]) { all_rerr::<F0>(e, el(s, i)[1]) } else { false } } else if num_at(el(s, i)[0], 0) == 4 { if el(s, i).len() != 1 { e is Custom } else { false } } else if num_at(el(s, i)[0], 0) == 7 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<F1>(el(s, i)[1]) { all_rerr::<F1>(e, el(s, i)[1]) } else { false } } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled0::<u64>(c) || wled3::<F0>(c, "field0"@, "A"@, name_of::<Self>()) || wled3::<F1>(c, "x"@, "C"@, name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ((num_at(el(s, i)[0], 0) == 2 && el(s, i).len() == 2 && dec_all::<F0>(el(s, i)[1])) || (num_at(el(s, i)[0], 0) == 4 && el(s, i).len() == 1) || (num_at(el(s, i)[0], 0) == 7 && el(s, i).len() == 2 && dec_all::<F1>(el(s, i)[1]))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { VarSkip::A(field0) => num_at(el(s, i)[0], 0) == 2 && <F0 as crate::Decode>::dec_rel(el(s, i)[1], 0, field0), VarSkip::B => num_at(el(s, i)[0], 0) == 4, VarSkip::C { x } => num_at(el(s, i)[0], 0) == 7 && <F1 as crate::Decode>::dec_rel(el(s, i)[1], 0, x) } }
FN crate::Decode for VarSkip::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl VarVec {
      pub open spec fn body(&self) -> Seq<u8> { match self { VarVec::A(field0, field1) => (hv_enc(0, canon_hv(0)) + vec_enc(field0@) + field1.enc()), VarVec::B(field0) => (hv_enc(0, canon_hv(1)) + field0.enc()), VarVec::C(field0) => (hv_enc(0, canon_hv(2)) + vec_enc(field0@)) } }
  }
IMPL crate::Encode for VarVec
  open spec fn enc_ok(&self) -> bool { match self { VarVec::A(field0, field1) => encs_ok(field0@) && field1.enc_ok(), VarVec::B(field0) => field0.enc_ok(), VarVec::C(field0) => encs_ok(field0@) } }
  open spec fn enc(&self) -> Seq<u8> { match self { VarVec::A(field0, field1) => hv_enc(4, canon_hv(3)) + self.body(), VarVec::B(field0) => hv_enc(4, canon_hv(2)) + self.body(), VarVec::C(field0) => hv_enc(4, canon_hv(2)) + self.body() } }
FN crate::Encode for VarVec::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + cat(encs(field0@))
LOOP 0
ITER it
INV
  encs_ok(field0@) && it.seq().len() == field0@.len() && forall|k: int| 0 <= k < field0@.len() ==> *(#[trigger] it.seq()[k]) == field0@[k]
INV
  writer.data@ =~= old(writer).data@ + cat(encs(field0@.take(it.index@)))
LSTART
  proof { lemma_encs(field0@, it.index@); }
LPRE
  proof { assert(encs(field0@.take(0)) =~= Seq::<Seq<u8>>::empty()); }
LAFTER
  proof { assert(field0@.take(field0@.len() as int) =~= field0@); }
CLOSURE 2
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 3
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 4
PARAMS |writer: &mut crate::Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + cat(encs(field0@))
LOOP 1
ITER it
INV
  encs_ok(field0@) && it.seq().len() == field0@.len() && forall|k: int| 0 <= k < field0@.len() ==> *(#[trigger] it.seq()[k]) == field0@[k]
INV
  writer.data@ =~= old(writer).data@ + cat(encs(field0@.take(it.index@)))
LSTART
  proof { lemma_encs(field0@, it.index@); }
LPRE
  proof { assert(encs(field0@.take(0)) =~= Seq::<Seq<u8>>::empty()); }
LAFTER
  proof { assert(field0@.take(field0@.len() as int) =~= field0@); }
IMPL crate::Decode for VarVec
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !arr(s, i) { e is ReaderError && contcause(e->ReaderError_0, s, i, crate::types::Type::Array) } else if el(s, i).len() == 0 { e is Custom } else if !dec_all::<u64>(el(s, i)[0]) { all_rerr::<u64>(e, el(s, i)[0]) } else if num_at(el(s, i)[0], 0) == 0 { if el(s, i).len() != 3 { e is Custom } else if !vec_all::<F0>(el(s, i)[1]) { true } else if !dec_all::<F1>(el(s, i)[2]) { all_rerr::<F1>(e, el(s, i)[2]) } else { false } } else if num_at(el(s, i)[0], 0) == 1 { if el(s, i).len() != 2 { e is Custom } else if !dec_all::<Vec<u8>>(el(s, i)[1]) { all_rerr::<Vec<u8>>(e, el(s, i)[1]) } else { false } } else if num_at(el(s, i)[0], 0) == 2 { if el(s, i).len() != 2 { e is Custom } else if !vec_all::<u8>(el(s, i)[1]) { true } else { false } } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || wled0::<u64>(c) || <F0 as crate::Decode>::dec_ctx(c) || wled3::<F1>(c, "field1"@, "A"@, name_of::<Self>()) || wled3::<Vec<u8>>(c, "field0"@, "B"@, name_of::<Self>()) || <u8 as crate::Decode>::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { arr(s, i) && el(s, i).len() >= 1 && dec_all::<u64>(el(s, i)[0]) && ((num_at(el(s, i)[0], 0) == 0 && el(s, i).len() == 3 && vec_all::<F0>(el(s, i)[1]) && dec_all::<F1>(el(s, i)[2])) || (num_at(el(s, i)[0], 0) == 1 && el(s, i).len() == 2 && dec_all::<Vec<u8>>(el(s, i)[1])) || (num_at(el(s, i)[0], 0) == 2 && el(s, i).len() == 2 && vec_all::<u8>(el(s, i)[1]))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { VarVec::A(field0, field1) => num_at(el(s, i)[0], 0) == 0 && elems_rel(el(el(s, i)[1], 0), field0@) && <F1 as crate::Decode>::dec_rel(el(s, i)[2], 0, field1), VarVec::B(field0) => num_at(el(s, i)[0], 0) == 1 && <Vec<u8> as crate::Decode>::dec_rel(el(s, i)[1], 0, field0), VarVec::C(field0) => num_at(el(s, i)[0], 0) == 2 && elems_rel(el(el(s, i)[1], 0), field0@) } }
FN crate::Decode for VarVec::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
CLOSURE 0
PARAMS |p0__: crate::Reader<'_>|
CRET (q: Result<F0, crate::DecodeError>)
CREQ
  p0__.inv()
CENS
  q is Ok <==> <F0 as crate::Decode>::dec_ok(p0__.s(), p0__.i())
CENS
  q is Ok ==> <F0 as crate::Decode>::dec_rel(p0__.s(), p0__.i(), q->Ok_0)
CENS [C24]
  q is Err ==> <F0 as crate::Decode>::dec_ctx(places(q->Err_0))
CLOSURE 1
PARAMS |p0__: crate::Reader<'_>|
CRET (q: Result<u8, crate::DecodeError>)
CREQ
  p0__.inv()
CENS
  q is Ok <==> <u8 as crate::Decode>::dec_ok(p0__.s(), p0__.i())
CENS
  q is Ok ==> <u8 as crate::Decode>::dec_rel(p0__.s(), p0__.i(), q->Ok_0)
CENS [C24]
  q is Err ==> <u8 as crate::Decode>::dec_ctx(places(q->Err_0))
PRELUDE
  impl TyTwo {
      pub open spec fn body(&self) -> Seq<u8> { match self { TyTwo::N => seq![0xf6u8], TyTwo::P(field0) => field0.enc() } }
  }
IMPL crate::Encode for TyTwo
  open spec fn enc_ok(&self) -> bool { match self { TyTwo::N => true, TyTwo::P(field0) => field0.enc_ok() } }
  open spec fn enc(&self) -> Seq<u8> { match self { TyTwo::N => seq![0xf6u8], TyTwo::P(field0) => field0.enc() } }
FN crate::Encode for TyTwo::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for TyTwo
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !(i < s.len() && lead_ok(s[i])) { e is ReaderError && hcause(e->ReaderError_0, s, i) } else if kind_is(s, i, crate::types::Type::Null) { e is ReaderError } else if kind_is(s, i, crate::types::Type::Positive) { !<F0 as crate::Decode>::dec_ok(s, i) && <F0 as crate::Decode>::dec_err(s, i, e) } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || c == seq!["N"@].push(name_of::<Self>()) || led2::<F0>(c, "P"@, name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { kind_is(s, i, crate::types::Type::Null) || (kind_is(s, i, crate::types::Type::Positive) && <F0 as crate::Decode>::dec_ok(s, i)) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { if kind_is(s, i, crate::types::Type::Positive) { <F0 as crate::Decode>::dec_end(s, i) } else { i + 1 } }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { TyTwo::N => kind_is(s, i, crate::types::Type::Null), TyTwo::P(field0) => kind_is(s, i, crate::types::Type::Positive) && <F0 as crate::Decode>::dec_rel(s, i, field0) } }
FN crate::Decode for TyTwo::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
PRELUDE
  impl TyAll {
      pub open spec fn body(&self) -> Seq<u8> { match self { TyAll::P(field0) => field0.enc(), TyAll::G(field0) => field0.enc(), TyAll::A(field0) => field0.enc(), TyAll::M(field0) => field0.enc(), TyAll::T(field0) => field0.enc(), TyAll::B(field0) => field0.enc(), TyAll::S { w } => w.enc(), TyAll::N => seq![0xf6u8] } }
  }
IMPL crate::Encode for TyAll
  open spec fn enc_ok(&self) -> bool { match self { TyAll::P(field0) => field0.enc_ok(), TyAll::G(field0) => field0.enc_ok(), TyAll::A(field0) => field0.enc_ok(), TyAll::M(field0) => field0.enc_ok(), TyAll::T(field0) => field0.enc_ok(), TyAll::B(field0) => field0.enc_ok(), TyAll::S { w } => w.enc_ok(), TyAll::N => true } }
  open spec fn enc(&self) -> Seq<u8> { match self { TyAll::P(field0) => field0.enc(), TyAll::G(field0) => field0.enc(), TyAll::A(field0) => field0.enc(), TyAll::M(field0) => field0.enc(), TyAll::T(field0) => field0.enc(), TyAll::B(field0) => field0.enc(), TyAll::S { w } => w.enc(), TyAll::N => seq![0xf6u8] } }
FN crate::Encode for TyAll::encode
TAGS C19 C04
ENTRY
  proof { lemma_canon(); }
IMPL crate::Decode for TyAll
  open spec fn dec_err(s: Seq<u8>, i: int, e: crate::decode::DecodeErrorKind) -> bool { if !(i < s.len() && lead_ok(s[i])) { e is ReaderError && hcause(e->ReaderError_0, s, i) } else if kind_is(s, i, crate::types::Type::Positive) { !<F0 as crate::Decode>::dec_ok(s, i) && <F0 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Negative) { !<F1 as crate::Decode>::dec_ok(s, i) && <F1 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Array) { !<F2 as crate::Decode>::dec_ok(s, i) && <F2 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Map) { !<F3 as crate::Decode>::dec_ok(s, i) && <F3 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Tag) { !<F4 as crate::Decode>::dec_ok(s, i) && <F4 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Bytes) { !<F5 as crate::Decode>::dec_ok(s, i) && <F5 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Text) { !<F6 as crate::Decode>::dec_ok(s, i) && <F6 as crate::Decode>::dec_err(s, i, e) } else if kind_is(s, i, crate::types::Type::Null) { e is ReaderError } else { e is Custom } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || led2::<F0>(c, "P"@, name_of::<Self>()) || led2::<F1>(c, "G"@, name_of::<Self>()) || led2::<F2>(c, "A"@, name_of::<Self>()) || led2::<F3>(c, "M"@, name_of::<Self>()) || led2::<F4>(c, "T"@, name_of::<Self>()) || led2::<F5>(c, "B"@, name_of::<Self>()) || led2::<F6>(c, "S"@, name_of::<Self>()) || c == seq!["N"@].push(name_of::<Self>()) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { (kind_is(s, i, crate::types::Type::Positive) && <F0 as crate::Decode>::dec_ok(s, i)) || (kind_is(s, i, crate::types::Type::Negative) && <F1 as crate::Decode>::dec_ok(s, i)) || (kind_is(s, i, crate::types::Type::Array) && <F2 as crate::Decode>::dec_ok(s, i)) || (kind_is(s, i, crate::types::Type::Map) && <F3 as crate::Decode>::dec_ok(s, i)) || (kind_is(s, i, crate::types::Type::Tag) && <F4 as crate::Decode>::dec_ok(s, i)) || (kind_is(s, i, crate::types::Type::Bytes) && <F5 as crate::Decode>::dec_ok(s, i)) || (kind_is(s, i, crate::types::Type::Text) && <F6 as crate::Decode>::dec_ok(s, i)) || kind_is(s, i, crate::types::Type::Null) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { if kind_is(s, i, crate::types::Type::Positive) { <F0 as crate::Decode>::dec_end(s, i) } else if kind_is(s, i, crate::types::Type::Negative) { <F1 as crate::Decode>::dec_end(s, i) } else if kind_is(s, i, crate::types::Type::Array) { <F2 as crate::Decode>::dec_end(s, i) } else if kind_is(s, i, crate::types::Type::Map) { <F3 as crate::Decode>::dec_end(s, i) } else if kind_is(s, i, crate::types::Type::Tag) { <F4 as crate::Decode>::dec_end(s, i) } else if kind_is(s, i, crate::types::Type::Bytes) { <F5 as crate::Decode>::dec_end(s, i) } else if kind_is(s, i, crate::types::Type::Text) { <F6 as crate::Decode>::dec_end(s, i) } else { i + 1 } }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { TyAll::P(field0) => kind_is(s, i, crate::types::Type::Positive) && <F0 as crate::Decode>::dec_rel(s, i, field0), TyAll::G(field0) => kind_is(s, i, crate::types::Type::Negative) && <F1 as crate::Decode>::dec_rel(s, i, field0), TyAll::A(field0) => kind_is(s, i, crate::types::Type::Array) && <F2 as crate::Decode>::dec_rel(s, i, field0), TyAll::M(field0) => kind_is(s, i, crate::types::Type::Map) && <F3 as crate::Decode>::dec_rel(s, i, field0), TyAll::T(field0) => kind_is(s, i, crate::types::Type::Tag) && <F4 as crate::Decode>::dec_rel(s, i, field0), TyAll::B(field0) => kind_is(s, i, crate::types::Type::Bytes) && <F5 as crate::Decode>::dec_rel(s, i, field0), TyAll::S { w } => kind_is(s, i, crate::types::Type::Text) && <F6 as crate::Decode>::dec_rel(s, i, w), TyAll::N => kind_is(s, i, crate::types::Type::Null) } }
FN crate::Decode for TyAll::decode
TAGS C19 C04 C25
ENTRY
  proof { lemma_ats_derived(); }
