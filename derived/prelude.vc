  use crate::{Encode, Decode};
  use vstd::std_specs::iter::*;
  pub use crate::types::structure::Map;
  /// a complete array at i, and its elements
  pub open spec fn arr(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Array && item(s, i) is End }
  pub open spec fn el(s: Seq<u8>, i: int) -> Seq<Seq<u8>> { arr_at(s, i).elems }
  /// a complete map at i, and its elements
  pub open spec fn mapp(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Map && item(s, i) is End }
  pub open spec fn map_at(s: Seq<u8>, i: int) -> MV { choose|v: MV| mv_wf(v) && at(s, i, mv_enc(v)) }
  pub open spec fn me(s: Seq<u8>, i: int) -> Seq<(Seq<u8>, Seq<u8>)> { map_at(s, i).elems }
  /// the number of the element at i
  pub open spec fn num_at(s: Seq<u8>, i: int) -> int { hv_val((hdr_at(s, i)->Positive_0).0) }
  /// the type of the element at i
  pub open spec fn kind_is(s: Seq<u8>, i: int, t: crate::types::Type) -> bool { i < s.len() && lead_ok(s[i]) && type_of(hdr_at(s, i)) == t }
  /// these bytes are an array of T
  pub open spec fn vec_all<T: crate::Decode>(e: Seq<u8>) -> bool { arr(e, 0) && elems_ok::<T>(el(e, 0)) }
  /// the number used as key
  pub open spec fn key_of(e: (Seq<u8>, Seq<u8>)) -> int { num_at(e.0, 0) }
  pub open spec fn among(keys: Seq<int>, k: int) -> bool { exists|j: int| 0 <= j < keys.len() && #[trigger] keys[j] == k }
  pub open spec fn has_key(e: Seq<(Seq<u8>, Seq<u8>)>, k: int) -> bool { exists|j: int| 0 <= j < e.len() && key_of(#[trigger] e[j]) == k }
  /// every key is one of these numbers and none occurs twice
  pub open spec fn keys_ok(e: Seq<(Seq<u8>, Seq<u8>)>, keys: Seq<int>) -> bool {
      &&& forall|j: int| 0 <= j < e.len() ==> <u64 as crate::Decode>::dec_ok((#[trigger] e[j]).0, 0) && among(keys, key_of(e[j]))
      &&& forall|j: int, k: int| 0 <= j < k < e.len() ==> key_of(#[trigger] e[j]) != key_of(#[trigger] e[k])
  }
  /// whatever is stored under k decodes as T; v is what it decodes to, None when there is none
  pub open spec fn val_ok<T: crate::Decode>(e: Seq<(Seq<u8>, Seq<u8>)>, k: int) -> bool { forall|j: int| 0 <= j < e.len() && key_of(#[trigger] e[j]) == k ==> T::dec_ok(e[j].1, 0) }
  pub open spec fn val_rel<T: crate::Decode>(e: Seq<(Seq<u8>, Seq<u8>)>, k: int, v: Option<T>) -> bool {
      &&& v is Some <==> has_key(e, k)
      &&& forall|j: int| 0 <= j < e.len() && key_of(#[trigger] e[j]) == k ==> v is Some && T::dec_rel(e[j].1, 0, v->Some_0)
  }
  pub open spec fn fresh_pair(p: (crate::Reader<'_>, crate::Reader<'_>), e: (Seq<u8>, Seq<u8>)) -> bool { fresh(p.0, e.0) && fresh(p.1, e.1) }
  pub open spec fn fresh_pairs(all: Seq<(crate::Reader<'_>, crate::Reader<'_>)>, e: Seq<(Seq<u8>, Seq<u8>)>) -> bool { all.len() <= e.len() && forall|k: int| 0 <= k < all.len() ==> fresh_pair(#[trigger] all[k], e[k]) }
  /// one more entry
  pub proof fn lemma_keys_step(e: Seq<(Seq<u8>, Seq<u8>)>, n: int, keys: Seq<int>)
      requires 0 <= n < e.len()
      ensures keys_ok(e.take(n + 1), keys) <==> keys_ok(e.take(n), keys) && <u64 as crate::Decode>::dec_ok(e[n].0, 0) && among(keys, key_of(e[n])) && !has_key(e.take(n), key_of(e[n])),
          keys_ok(e, keys) ==> keys_ok(e.take(n + 1), keys),
  {
      let a = e.take(n); let b = e.take(n + 1);
      assert(b =~= a.push(e[n]));
      assert(b[n] == e[n]);
      assert forall|j: int| 0 <= j < n implies a[j] == #[trigger] b[j] by {}
      assert forall|j: int| 0 <= j < n implies b[j] == #[trigger] a[j] by {}
      assert forall|j: int| 0 <= j <= n implies e[j] == #[trigger] b[j] by {}
  }
  pub proof fn lemma_val_step<T: crate::Decode>(e: Seq<(Seq<u8>, Seq<u8>)>, n: int, k: int)
      requires 0 <= n < e.len()
      ensures
          val_ok::<T>(e.take(n + 1), k) <==> val_ok::<T>(e.take(n), k) && (key_of(e[n]) == k ==> T::dec_ok(e[n].1, 0)),
          val_ok::<T>(e, k) ==> val_ok::<T>(e.take(n + 1), k),
          has_key(e.take(n + 1), k) <==> has_key(e.take(n), k) || key_of(e[n]) == k,
          has_key(e.take(n + 1), k) ==> has_key(e, k),
          key_of(e[n]) != k ==> forall|v: Option<T>| #[trigger] val_rel::<T>(e.take(n + 1), k, v) <==> val_rel::<T>(e.take(n), k, v),
          key_of(e[n]) == k && !has_key(e.take(n), k) ==> forall|v: T| T::dec_rel(e[n].1, 0, v) ==> #[trigger] val_rel::<T>(e.take(n + 1), k, Some(v)),
  {
      let a = e.take(n); let b = e.take(n + 1);
      assert(b =~= a.push(e[n]));
      assert(b[n] == e[n]);
      assert forall|j: int| 0 <= j < n implies a[j] == #[trigger] b[j] by {}
      assert forall|j: int| 0 <= j < n implies b[j] == #[trigger] a[j] by {}
      assert forall|j: int| 0 <= j <= n implies e[j] == #[trigger] b[j] by {}
      assert(has_key(b, k) <==> has_key(a, k) || key_of(e[n]) == k);
      assert(has_key(b, k) ==> has_key(e, k));
      if key_of(e[n]) != k {
          assert forall|v: Option<T>| #[trigger] val_rel::<T>(b, k, v) <==> val_rel::<T>(a, k, v) by {}
      }
  }
  pub proof fn lemma_map_at(s: Seq<u8>, i: int)
      ensures forall|v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) ==> map_at(s, i) == v
  {
      assert forall|v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) implies map_at(s, i) == v by {
          let w = map_at(s, i);
          lemma_mv_inj(s, i, v, w);
      }
  }
  /// the element at a place is unique
  pub proof fn lemma_ats_derived()
      ensures
          forall|s: Seq<u8>, i: int, v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) ==> tag_at(s, i) == v,
          forall|s: Seq<u8>, i: int, v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) ==> arr_at(s, i) == v,
          forall|s: Seq<u8>, i: int, v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) ==> map_at(s, i) == v,
  {
      assert forall|s: Seq<u8>, i: int, v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) implies tag_at(s, i) == v by { lemma_tag_at(s, i); }
      assert forall|s: Seq<u8>, i: int, v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) implies arr_at(s, i) == v by { lemma_arr_at(s, i); }
      assert forall|s: Seq<u8>, i: int, v: MV| mv_wf(v) && #[trigger] at(s, i, mv_enc(v)) implies map_at(s, i) == v by { lemma_map_at(s, i); }
  }
  /// an entry of a map
  pub open spec fn entry_at(e: Seq<(Seq<u8>, Seq<u8>)>, j: int) -> bool { true }
  /// the context of a failure to read a T, with these entries added on the outside
  pub open spec fn led1<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>) -> bool { exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(a) }
  pub open spec fn led2<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>) -> bool { exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(a).push(b) }
  pub open spec fn led3<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>, d: Seq<char>) -> bool { exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(a).push(b).push(d) }
  /// the same for bytes that are to be exactly one T
  pub open spec fn wled0<T: crate::Decode>(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<T>()] || T::dec_ctx(c) }
  pub open spec fn wled1<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>) -> bool { c == seq![name_of::<T>()].push(a) || led1::<T>(c, a) }
  pub open spec fn wled2<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>) -> bool { c == seq![name_of::<T>()].push(a).push(b) || led2::<T>(c, a, b) }
  pub open spec fn wled3<T: crate::Decode>(c: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>, d: Seq<char>) -> bool { c == seq![name_of::<T>()].push(a).push(b).push(d) || led3::<T>(c, a, b, d) }
