# whole-buffer decoding, preserved data, homogeneous sequences
FILE decode.rs
PRELUDE
  use vstd::std_specs::iter::*;
  /// every reader of the sequence is at the start of the corresponding element
  pub open spec fn fresh_all(all: Seq<Reader<'_>>, e: Seq<Seq<u8>>) -> bool { all.len() <= e.len() && forall|k: int| 0 <= k < all.len() ==> fresh(#[trigger] all[k], e[k]) }
  /// these bytes decode as one T with nothing left over
  pub open spec fn dec_all<T: Decode>(e: Seq<u8>) -> bool { T::dec_ok(e, 0) && T::dec_end(e, 0) == e.len() }
  /// the error for bytes that are not exactly one T; the bytes left over counted
  pub open spec fn all_err<T: Decode>(e: DecodeErrorKind, d: Seq<u8>) -> bool {
      if T::dec_ok(d, 0) { e == (DecodeErrorKind::ReaderNotTerminated { remaining_bytes: (d.len() - T::dec_end(d, 0)) as usize }) && T::dec_end(d, 0) < d.len() } else { T::dec_err(d, 0, e) }
  }
  pub open spec fn all_rerr<T: Decode>(e: DecodeErrorKind, d: Seq<u8>) -> bool {
      if T::dec_ok(d, 0) { e is ReaderError && left_err(e->ReaderError_0, d, T::dec_end(d, 0)) } else { T::dec_err(d, 0, e) }
  }
  pub open spec fn pres_err<T: Decode>(e: DecodeErrorKind, s: Seq<u8>, i: int) -> bool {
      if item(s, i) is End { all_err::<T>(e, s.subrange(i, eoi(item(s, i)))) } else { e is ReaderError && itcause(e->ReaderError_0, item(s, i)) && rerr(e->ReaderError_0, item(s, i)) }
  }
  /// the error of the first element that does not decode
  pub open spec fn elem_err<T: Decode>(x: DecodeErrorKind, e: Seq<Seq<u8>>, k: int) -> bool {
      0 <= k < e.len() && elems_ok::<T>(e.take(k)) && !T::dec_ok(e[k], 0) && T::dec_err(e[k], 0, x)
  }
  pub open spec fn elems_ok<T: Decode>(e: Seq<Seq<u8>>) -> bool { forall|k: int| 0 <= k < e.len() ==> T::dec_ok(#[trigger] e[k], 0) }
  pub open spec fn elems_rel<T: Decode>(e: Seq<Seq<u8>>, v: Seq<T>) -> bool { v.len() == e.len() && forall|k: int| 0 <= k < e.len() ==> T::dec_rel(#[trigger] e[k], 0, v[k]) }
  /// the context of a failed element k of a vector: where it failed in the element, its index, the vector
  pub open spec fn elem_ctx<T: Decode>(c: Seq<Seq<char>>, k: int) -> bool {
      exists|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) && c == own.push(shown(&(k as usize))).push("Vec"@)
  }
  /// the context for bytes that are not exactly one T
  pub open spec fn whole_ctx<T: Decode>(c: Seq<Seq<char>>, d: Seq<u8>, i: int) -> bool {
      if T::dec_ok(d, i) { c == seq![name_of::<T>()] } else { T::dec_ctx(c) }
  }
FN decode_vec
TAGS C22 C04
ENS [C24]
  r is Err ==> (if hd(old($p0).s(), old($p0).i()) is End && hdr_at(old($p0).s(), old($p0).i()) is Array && item(old($p0).s(), old($p0).i()) is End {
      exists|k: int| #[trigger] elem_ctx::<T>(places(r->Err_0), k) && 0 <= k < arr_at(old($p0).s(), old($p0).i()).elems.len() <= usize::MAX && !T::dec_ok(arr_at(old($p0).s(), old($p0).i()).elems[k], 0) && elems_ok::<T>(arr_at(old($p0).s(), old($p0).i()).elems.take(k))
    } else { places(r->Err_0) == seq!["Vec"@] })
ENS [C23]
  r is Err ==> (if hd(old($p0).s(), old($p0).i()) is End && hdr_at(old($p0).s(), old($p0).i()) is Array && item(old($p0).s(), old($p0).i()) is End {
      exists|k: int| elem_err::<T>(r->Err_0.error, arr_at(old($p0).s(), old($p0).i()).elems, k)
    } else { r->Err_0.error is ReaderError && contcause(r->Err_0.error->ReaderError_0, old($p0).s(), old($p0).i(), Type::Array) })
REQ
  old($p0).inv()
ENTRY
  proof { lemma_arr_at(reader.s(), reader.i()); }
ENS
  moved(*old($p0), *final($p0))
ENS
  r is Ok <==> hd(old($p0).s(), old($p0).i()) is End && hdr_at(old($p0).s(), old($p0).i()) is Array && item(old($p0).s(), old($p0).i()) is End
      && elems_ok::<T>(arr_at(old($p0).s(), old($p0).i()).elems)
ENS
  r is Ok ==> R::End(final($p0).i()) == item(old($p0).s(), old($p0).i()) && elems_rel(arr_at(old($p0).s(), old($p0).i()).elems, r->Ok_0@)
LOOP 0
DESUGAR it
LPRE
  let ghost all = it.remaining(); let ghost wn = it.will_return_none(); let ghost e = a.v().elems;
INV
  it.obeys_prophetic_iter_laws() && it.will_return_none() == wn
INV
  e == a.v().elems && fresh_all(all, e) && e.len() <= usize::MAX && (wn ==> all.len() == e.len())
INV
  out@.len() <= all.len() && it.remaining() =~= all.subrange(out@.len() as int, all.len() as int) && i__ == out@.len()
INV
  elems_rel(e.take(out@.len() as int), out@) && elems_ok::<T>(e.take(out@.len() as int))
INV
  moved(*old($p0), *reader) && R::End(reader.i()) == item(old($p0).s(), old($p0).i()) && hd(old($p0).s(), old($p0).i()) is End && hdr_at(old($p0).s(), old($p0).i()) is Array && e == arr_at(old($p0).s(), old($p0).i()).elems
LENS
  out@.len() == e.len()
LDEC
  e.len() - out@.len()
LSTART
  proof { assert(fresh(all[out@.len() as int], e[out@.len() as int]));
    assert(forall|x: DecodeErrorKind| #[trigger] T::dec_err(e[out@.len() as int], 0, x) && !T::dec_ok(e[out@.len() as int], 0) ==> elem_err::<T>(x, e, out@.len() as int));
    assert(forall|own: Seq<Seq<char>>| #[trigger] T::dec_ctx(own) ==> elem_ctx::<T>(own.push(shown(&i__)).push("Vec"@), i__ as int)); }
BEFORE tail
  proof { assert(a.v().elems.take(out@.len() as int) =~= a.v().elems); }
IMPL Decode for CborDataOf<T>
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { pres_err::<T>(e, s, i) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] || c == seq![name_of::<CborSlice>()] || T::dec_ctx(c) }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { item(s, i) is End && dec_all::<T>(s.subrange(i, eoi(item(s, i)))) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v.1@ == s.subrange(i, eoi(item(s, i))) }
FN Decode for CborDataOf<T>::decode
TAGS C15 C04
FILE prim.rs
TAGS C15 C04
PRELUDE
  use crate::decode::*;
  use crate::writer::*;
FN CborSlice::validate_as
ENS [C24]
  r is Err ==> (if T::dec_ok(self.0@, 0) { places(r->Err_0) == seq![name_of::<CborSlice>()] } else { T::dec_ctx(places(r->Err_0)) })
ENS [C23]
  r is Err ==> all_err::<T>(r->Err_0.error, self.0@)
CLOSURE 0
CRET (q: &CborSliceOf<T>)
CENS
  q.1@ == self.0@
ENS
  r is Ok <==> dec_all::<T>(self.0@)
ENS
  r is Ok ==> r->Ok_0.1@ == self.0@
FN CborData::validate_as
ENS [C24]
  r is Err ==> (if T::dec_ok(self.0@, 0) { places(r->Err_0) == seq![name_of::<CborData>()] } else { T::dec_ctx(places(r->Err_0)) })
ENS [C23]
  r is Err ==> all_err::<T>(r->Err_0.error, self.0@)
ENS
  r is Ok <==> dec_all::<T>(self.0@)
ENS
  r is Ok ==> r->Ok_0.1@ == self.0@
FN CborSlice::decode
TAGS C21 C04
ENS [C24]
  r is Err ==> whole_ctx::<T>(places(r->Err_0), self.0@, 0)
ENS [C23]
  r is Err ==> all_rerr::<T>(r->Err_0.error, self.0@)
ENS
  r is Ok <==> dec_all::<T>(self.0@)
ENS
  r is Ok ==> T::dec_rel(self.0@, 0, r->Ok_0)
FN CborData::decode
TAGS C21 C04
ENS [C24]
  r is Err ==> whole_ctx::<T>(places(r->Err_0), self.0@, 0)
ENS [C23]
  r is Err ==> all_rerr::<T>(r->Err_0.error, self.0@)
ENS
  r is Ok <==> dec_all::<T>(self.0@)
ENS
  r is Ok ==> T::dec_rel(self.0@, 0, r->Ok_0)
FN CborData::type_unchecked
ENS
  r.1@ == self.0@
FN AsRef<[u8]> for CborDataOf<T>::as_ref
ENS
  r@ == self.1@
FN CborSliceOf<T>::untype
ENS
  r.0@ == self.1@
FN CborDataOf<T>::untype
ENS
  r.0@ == self.1@
FN CborDataOf<T>::unserialize
REQ
  T::dec_ok(self.1@, 0)
ENS
  T::dec_rel(self.1@, 0, r)
FN Borrow<CborSliceOf<T>> for CborDataOf<T>::borrow
ENS
  slice_of_is(r, self.1@)
PRELUDE
  pub open spec fn slice_of_is<T>(r: &CborSliceOf<T>, b: Seq<u8>) -> bool { r.1@ == b }
FN ToOwned for CborSliceOf<T>::to_owned
ENS
  r.1@ == self.1@
PRELUDE
  impl<'b, T: Encode> vstd::std_specs::convert::FromSpecImpl<&'b T> for CborDataOf<T> {
      open spec fn obeys_from_spec() -> bool { false }
      open spec fn from_spec(e: &'b T) -> CborDataOf<T> { arbitrary() }
  }
FN From<&T> for CborDataOf<T>::from
RET res
ENTRY
  assume($p0.enc_ok()); // the trait From admits no precondition
ENS
  $p0.enc_ok() ==> res.1@ == $p0.enc()
FILE reader.rs
PRELUDE
  use crate::decode::*;
FN Reader::decode
TAGS C10 C21 C04
ENS [C24]
  r is Err ==> T::dec_ctx(places(r->Err_0))
ENS [C23]
  r is Err ==> T::dec_err(old(self).s(), old(self).i(), r->Err_0.error)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> T::dec_ok(old(self).s(), old(self).i())
ENS
  r is Ok ==> final(self).i() == T::dec_end(old(self).s(), old(self).i()) && T::dec_rel(old(self).s(), old(self).i(), r->Ok_0)
FN Reader::decode_one
TAGS C21 C04
ENS [C24]
  r is Err ==> whole_ctx::<T>(places(r->Err_0), old(self).s(), old(self).i())
ENS [C23]
  r is Err ==> (if T::dec_ok(old(self).s(), old(self).i()) { r->Err_0.error == (DecodeErrorKind::ReaderNotTerminated { remaining_bytes: (old(self).s().len() - T::dec_end(old(self).s(), old(self).i())) as usize }) && T::dec_end(old(self).s(), old(self).i()) < old(self).s().len() }
    else { T::dec_err(old(self).s(), old(self).i(), r->Err_0.error) })
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> T::dec_ok(old(self).s(), old(self).i()) && T::dec_end(old(self).s(), old(self).i()) == old(self).s().len()
ENS
  r is Ok ==> T::dec_rel(old(self).s(), old(self).i(), r->Ok_0)
FN Reader::exact_decodable_slice
TAGS C15 C21 C04
ENS [C24]
  r is Err ==> places(r->Err_0) == seq![name_of::<&CborSliceOf<T>>()] || places(r->Err_0) == seq![name_of::<CborSlice>()] || T::dec_ctx(places(r->Err_0))
ENS [C23]
  r is Err ==> pres_err::<T>(r->Err_0.error, old(self).s(), old(self).i())
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> item(old(self).s(), old(self).i()) is End && dec_all::<T>(old(self).s().subrange(old(self).i(), eoi(item(old(self).s(), old(self).i()))))
ENS
  r is Ok ==> R::End(final(self).i()) == item(old(self).s(), old(self).i()) && r->Ok_0.1@ == old(self).s().subrange(old(self).i(), final(self).i())
FN Reader::exact_decodable_data
TAGS C15 C21 C04
ENS [C24]
  r is Err ==> places(r->Err_0) == seq![name_of::<CborDataOf<T>>()] || places(r->Err_0) == seq![name_of::<CborSlice>()] || T::dec_ctx(places(r->Err_0))
ENS [C23]
  r is Err ==> pres_err::<T>(r->Err_0.error, old(self).s(), old(self).i())
REQ
  old(self).inv()
CLOSURE 0
PARAMS |slice: &CborSliceOf<T>|
CRET (q: CborDataOf<T>)
CENS
  q.1@ == slice.1@
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> item(old(self).s(), old(self).i()) is End && dec_all::<T>(old(self).s().subrange(old(self).i(), eoi(item(old(self).s(), old(self).i()))))
ENS
  r is Ok ==> R::End(final(self).i()) == item(old(self).s(), old(self).i()) && r->Ok_0.1@ == old(self).s().subrange(old(self).i(), final(self).i())
FILE lib.rs
PRELUDE
  use crate::decode::*;
FN decode_from_bytes
TAGS C21 C04
ENS [C24]
  r is Err ==> whole_ctx::<T>(places(r->Err_0), $p0@, 0)
ENS [C23]
  r is Err ==> all_rerr::<T>(r->Err_0.error, $p0@)
ENS
  r is Ok <==> dec_all::<T>($p0@)
ENS
  r is Ok ==> T::dec_rel($p0@, 0, r->Ok_0)
FILE types/structure.rs
PRELUDE
  use crate::decode::*;
FN Tag::decode_data
TAGS C21 C04
ENS [C24]
  r is Err && !T::dec_ok(self.v().data, 0) ==> T::dec_ctx(places(r->Err_0))
ENS [C23]
  r is Err ==> all_rerr::<T>(r->Err_0.error, self.v().data)
ENS
  r is Ok <==> dec_all::<T>(self.v().data)
ENS
  r is Ok ==> T::dec_rel(self.v().data, 0, r->Ok_0)
FN ArrayBuilder::append_encodable
REQ
  $p1.enc_ok()
ENS
  cds(final(self).elements@) =~= cds(old(self).elements@).push($p1.enc())
