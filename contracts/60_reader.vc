# views of the containers
FILE prim.rs
PRELUDE
  pub open spec fn sls(e: Seq<&CborSlice>) -> Seq<Seq<u8>> { Seq::new(e.len(), |k: int| e[k].0@) }
  pub open spec fn cds(e: Seq<CborData>) -> Seq<Seq<u8>> { Seq::new(e.len(), |k: int| e[k].0@) }
  pub open spec fn slps(e: Seq<(&CborSlice, &CborSlice)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(e.len(), |k: int| (e[k].0.0@, e[k].1.0@)) }
  pub open spec fn cdps(e: Seq<(CborData, CborData)>) -> Seq<(Seq<u8>, Seq<u8>)> { Seq::new(e.len(), |k: int| (e[k].0.0@, e[k].1.0@)) }
FILE types/structure.rs
PRELUDE
  impl<'a> Array<'a> { pub open spec fn v(&self) -> AV { AV { len: self.len_encoding, elems: sls(self.elements@) } } }
  impl ArrayOwned { pub open spec fn v(&self) -> AV { AV { len: self.len_encoding, elems: cds(self.elements@) } } }
  impl<'a> Map<'a> { pub open spec fn v(&self) -> MV { MV { len: self.len_encoding, elems: slps(self.elements@) } } }
  impl MapOwned { pub open spec fn v(&self) -> MV { MV { len: self.len_encoding, elems: cdps(self.elements@) } } }
  impl<'a> Tag<'a> { pub open spec fn v(&self) -> TV { TV { tag: self.tag_val.0, data: self.data.0@ } } }
  impl TagOwned { pub open spec fn v(&self) -> TV { TV { tag: self.tag_val.0, data: self.data.0@ } } }
  impl vstd::std_specs::convert::FromSpecImpl<Option<HeaderValue>> for StructureLength {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(v: Option<HeaderValue>) -> StructureLength {
          match v { None => StructureLength::Indefinite, Some(h) => StructureLength::Definite(h) }
      }
  }
FN From<Option<HeaderValue>> for StructureLength::from
TAGS C01 C03
ENS
  r == match $p0 { None => StructureLength::Indefinite, Some(h) => StructureLength::Definite(h) }
FILE types/mod.rs
PRELUDE
  impl<'a> Data<'a> {
      pub open spec fn v(&self) -> DV {
          match self {
              Data::Positive(x) => DV::Positive(x.0), Data::Negative(x) => DV::Negative(x.0),
              Data::Float(x) => DV::Float(*x), Data::Byte(x) => DV::Byte(x.0),
              Data::Bytes(x) => DV::Bytes(x.v()), Data::Text(x) => DV::Text(x.v()),
              Data::Array(x) => DV::Array(x.v()), Data::Map(x) => DV::Map(x.v()), Data::Tag(x) => DV::Tag(x.v()),
              Data::True => DV::True, Data::False => DV::False, Data::Null => DV::Null, Data::Undefined => DV::Undefined,
          }
      }
  }
  impl DataOwned {
      pub open spec fn v(&self) -> DV {
          match self {
              DataOwned::Positive(x) => DV::Positive(x.0), DataOwned::Negative(x) => DV::Negative(x.0),
              DataOwned::Float(x) => DV::Float(*x), DataOwned::Byte(x) => DV::Byte(x.0),
              DataOwned::Bytes(x) => DV::Bytes(x.v()), DataOwned::Text(x) => DV::Text(x.v()),
              DataOwned::Array(x) => DV::Array(x.v()), DataOwned::Map(x) => DV::Map(x.v()), DataOwned::Tag(x) => DV::Tag(x.v()),
              DataOwned::True => DV::True, DataOwned::False => DV::False, DataOwned::Null => DV::Null, DataOwned::Undefined => DV::Undefined,
          }
      }
  }
# the reader
FILE reader.rs
TAGS C03 C04
PRELUDE
  use crate::lowlevel::lead::*;
  impl vstd::std_specs::convert::FromSpecImpl<LeadError> for ReaderError {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: LeadError) -> ReaderError { ReaderError::LeadError(e) }
  }
  impl vstd::std_specs::convert::FromSpecImpl<StateError> for ReaderError {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: StateError) -> ReaderError { ReaderError::StateError(e) }
  }
  impl vstd::std_specs::convert::FromSpecImpl<CborDataMissing> for ReaderError {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: CborDataMissing) -> ReaderError { ReaderError::DataMissing(e) }
  }
  impl<'a> Reader<'a> {
      pub open spec fn s(&self) -> Seq<u8> { self.reader.data@ }
      pub open spec fn i(&self) -> int { self.reader.index as int }
      pub open spec fn inv(&self) -> bool { self.reader.inv() }
  }
  /// a piece that is not all there is reported, with its counts
  pub open spec fn rerr(e: ReaderError, r: R) -> bool {
      r is Missing ==> e is DataMissing && missing_is(e->DataMissing_0, r->n, r->got)
  }
  /// the error for a header that is not there, or cannot be one
  pub open spec fn hcause(e: ReaderError, s: Seq<u8>, i: int) -> bool {
      if i >= s.len() { missing_in(e, CborDataContext::Header, 1, 0) }
      else if !lead_ok(s[i]) { e is LeadError && lerr(e->LeadError_0, s[i]) }
      else { missing_in(e, CborDataContext::IndirectLen, extra(s[i]), s.len() - (i + 1)) }
  }
  pub open spec fn missing_in(e: ReaderError, c: CborDataContext, n: int, got: int) -> bool {
      e is DataMissing && missing_is(e->DataMissing_0, n, got) && (e->DataMissing_0).context == c
  }
  /// the error for an element of another kind: the kind asked for, and the kind found
  pub open spec fn wrong(e: ReaderError, s: Seq<u8>, i: int, t: Type) -> bool {
      if hd(s, i) is End { e == ReaderError::WrongExpectedType { expected: t, got: type_of(hdr_at(s, i)) } } else { hcause(e, s, i) }
  }
  pub open spec fn wrong_of(e: ReaderError, s: Seq<u8>, i: int, t: Seq<Type>) -> bool {
      if hd(s, i) is End { wrong_types(e, t, type_of(hdr_at(s, i))) } else { hcause(e, s, i) }
  }
  pub open spec fn wrong_types(e: ReaderError, t: Seq<Type>, g: Type) -> bool {
      match e { ReaderError::WrongExpectedTypes { expected, got } => got == g && expected@ =~= t, _ => false }
  }
  /// the place where the chunks from i on stop being right
  pub open spec fn stop(s: Seq<u8>, i: int, m: int) -> int
      decreases s.len() - i
  {
      if hd(s, i) is End && s[i] != 0xff && major(s[i]) == m && ai(s[i]) != 31 {
          match if m == 3 { tcontent(s, eoi(hd(s, i)), arg(s, i)) } else { content(s, eoi(hd(s, i)), arg(s, i)) } {
              R::End(k) => if i < k <= s.len() { stop(s, k, m) } else { i },
              _ => i,
          }
      } else { i }
  }
  /// the error for content that is not all there (or is not text)
  pub open spec fn ccause(e: ReaderError, s: Seq<u8>, i: int, n: int, m: int) -> bool {
      match content(s, i, n) {
          R::Missing { n, got } => missing_in(e, CborDataContext::Content, n, got),
          _ => m == 3 && e is TextUTF8Error,
      }
  }
  /// the error for the chunk at i
  pub open spec fn chcause(e: ReaderError, s: Seq<u8>, i: int, m: int) -> bool {
      if !(hd(s, i) is End) { hcause(e, s, i) }
      else if major(s[i]) != m { if m == 3 { e == ReaderError::WrongExpectedTypeInText { got: type_of(hdr_at(s, i)) } } else { e == ReaderError::WrongExpectedTypeInBytes { got: type_of(hdr_at(s, i)) } } }
      else if ai(s[i]) == 31 { if m == 3 { e is TextChunksInTextChunks } else { e is BytesChunksInBytesChunks } }
      else { ccause(e, s, eoi(hd(s, i)), arg(s, i), m) }
  }
  /// the error for a string at i: m its major type
  pub open spec fn strcause(e: ReaderError, s: Seq<u8>, i: int, m: int) -> bool {
      if !(hd(s, i) is End) || major(s[i]) != m { wrong(e, s, i, if m == 3 { Type::Text } else { Type::Bytes }) }
      else if ai(s[i]) == 31 { chcause(e, s, stop(s, eoi(hd(s, i)), m), m) }
      else { ccause(e, s, eoi(hd(s, i)), arg(s, i), m) }
  }
  /// the error for an element skipped as a whole
  pub open spec fn itcause(e: ReaderError, r: R) -> bool {
      (e is DataMissing || e is LeadError || e is StateError) && (r is Bad && e is DataMissing ==> content_missing(e->DataMissing_0))
  }
  /// the error for a container, a tag at i
  pub open spec fn contcause(e: ReaderError, s: Seq<u8>, i: int, t: Type) -> bool {
      if !(hd(s, i) is End) || type_of(hdr_at(s, i)) != t { wrong(e, s, i, t) } else { itcause(e, item(s, i)) }
  }
  /// the error of a read of one element of any kind
  pub open spec fn datacause(e: ReaderError, s: Seq<u8>, i: int) -> bool {
      if !(hd(s, i) is End) { hcause(e, s, i) }
      else if s[i] == 0xff { e is UnexpectedBreakType }
      else if major(s[i]) == 2 || major(s[i]) == 3 { strcause(e, s, i, major(s[i])) }
      else { itcause(e, item(s, i)) }
  }
  /// the reader is at the same place of the same buffer
  pub open spec fn still(a: Reader<'_>, b: Reader<'_>) -> bool { a.s() == b.s() && a.i() == b.i() && b.inv() }
  /// the reader went forward in the same buffer
  pub open spec fn moved(a: Reader<'_>, b: Reader<'_>) -> bool { a.s() == b.s() && a.i() <= b.i() && b.inv() }
  /// the bytes from i to j are e
  pub open spec fn took(s: Seq<u8>, i: int, j: int, e: Seq<u8>) -> bool { j == i + e.len() && at(s, i, e) }
  pub proof fn lemma_one_sub(s: Seq<u8>, i: int)
      requires 0 <= i, item(s, i) is End
      ensures one(s.subrange(i, item(s, i)->End_0)), i < item(s, i)->End_0 <= s.len()
  {
      lemma_item_end(s, i);
      let j = item(s, i)->End_0;
      lemma_item_agree(s, i, s.subrange(i, j), 0, j - i);
  }
FN From<LeadError> for ReaderError::from
ENS
  r == ReaderError::LeadError($p0)
FN From<StateError> for ReaderError::from
ENS
  r == ReaderError::StateError($p0)
FN From<CborDataMissing> for ReaderError::from
ENS
  r == ReaderError::DataMissing($p0)
FN state_process_header
ENS [C23]
  r is Err ==> st_err(old($p0).ctx@, $p1, r->Err_0->StateError_0)
ENS [C23]
  r is Err ==> r->Err_0 is StateError
REQ
  ctx_wf(old($p0).ctx@)
ENS
  r is Ok <==> st_header(old($p0).ctx@, $p1) is Some
ENS
  r is Ok ==> final($p0).ctx@ == st_header(old($p0).ctx@, $p1)->Some_0
ENS
  ctx_wf(final($p0).ctx@)
FN Reader::remaining_bytes
REQ
  self.inv()
ENS [C05]
  r as int == self.s().len() - self.i()
FN Reader::expect
ENS [C23]
  r is Err ==> (r->Err_0->DataMissing_0).context == $p1
REQ
  old(self).inv()
ENS
  final(self).s() == old(self).s() && final(self).inv()
ENS
  r is Ok <==> content(old(self).s(), old(self).i(), $p2 as int) is End
ENS
  r is Ok ==> final(self).i() == old(self).i() + $p2 && r->Ok_0@ == old(self).s().subrange(old(self).i(), old(self).i() + $p2)
ENS [C05]
  r is Err ==> final(self).i() == old(self).i()
ENS [C06]
  r is Err ==> rerr(r->Err_0, content(old(self).s(), old(self).i(), $p2 as int))
FN Reader::peek_at
ENS [C23]
  r is Err ==> (r->Err_0->DataMissing_0).context == $p1
REQ
  self.inv() && $p3 > 0
ENS
  r is Ok <==> self.i() + $p2 + $p3 <= self.s().len()
ENS
  r is Ok ==> r->Ok_0@ == self.s().subrange(self.i() + $p2, self.i() + $p2 + $p3)
ENS [C06]
  r is Err ==> rerr(r->Err_0, R::Missing { n: $p3 as int, got: if self.s().len() - self.i() >= $p2 { self.s().len() - self.i() - $p2 } else { 0 } })
FN Reader::new
ENS
  r.s() == data@ && r.i() == 0 && r.inv()
FN Reader::lead
ENS [C23]
  r is Err ==> hcause(r->Err_0, self.s(), self.i())
REQ
  self.inv()
ENS
  r is Ok <==> self.i() < self.s().len() && lead_ok(self.s()[self.i()])
ENS
  r is Ok ==> r->Ok_0 == lead_of(self.s()[self.i()])
ENS [C06]
  r is Err && self.i() >= self.s().len() ==> rerr(r->Err_0, R::Missing { n: 1, got: 0 })
FN Reader::resolve_indirect
ENS [C23]
  r is Err ==> missing_in(r->Err_0, CborDataContext::IndirectLen, $p1.num(), self.s().len() - (self.i() + 1))
REQ
  self.inv() && self.i() < self.s().len()
ENTRY
  reveal_with_fuel(be, 10);
ENS
  r is Ok <==> self.s().len() - (self.i() + 1) >= $p1.num()
ENS
  r is Ok ==> ilen(self.s()[self.i()]) == Some($p1) ==> Some(r->Ok_0) == ival(self.s(), self.i())
ENS [C06]
  r is Err ==> rerr(r->Err_0, R::Missing { n: $p1.num(), got: self.s().len() - (self.i() + 1) })
FN Reader::consumed_bytes
ENS [C05]
  r as int == self.i()
FN Reader::is_finished
REQ
  self.inv()
ENS [C05]
  r <==> self.i() == self.s().len()
FN Reader::expect_finished
ENS [C23]
  r is Err ==> r->Err_0 == (ReaderError::NotTerminated { at: self.i() as usize, remaining_bytes: (self.s().len() - self.i()) as usize, next_byte: self.s()[self.i()] })
REQ
  self.inv()
ENS [C05 C21]
  r is Ok <==> self.i() == self.s().len()
FN Reader::header_parts
ENS [C23]
  r is Err ==> hcause(r->Err_0, self.s(), self.i())
REQ
  self.inv()
ENTRY
  proof { if self.i() < self.s().len() && lead_ok(self.s()[self.i()]) { lemma_parts(self.s(), self.i()); } }
ENS
  r is Ok <==> hd(self.s(), self.i()) is End
ENS
  r is Ok ==> self.i() + r->Ok_0.1 == hd(self.s(), self.i())->End_0 && goes(lead_extra(r->Ok_0.0), r->Ok_0.2)
      && parts(r->Ok_0.0, r->Ok_0.2) == hdr_at(self.s(), self.i())
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(self.s(), self.i()))
FN Reader::header
ENS [C23]
  r is Err ==> hcause(r->Err_0, self.s(), self.i())
REQ
  self.inv()
ENS
  r is Ok <==> hd(self.s(), self.i()) is End
ENS
  r is Ok ==> self.i() + r->Ok_0.1 == hd(self.s(), self.i())->End_0 && r->Ok_0.0 == hdr_at(self.s(), self.i()) && r->Ok_0.1 > 0
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(self.s(), self.i()))
FN Reader::advance_data
ENS [C23]
  r is Err ==> r->Err_0 is DataMissing && content_missing(r->Err_0->DataMissing_0)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  ({ let e = match *$p1 { Header::Bytes(Some(h)) | Header::Text(Some(h)) => content(old(self).s(), old(self).i(), hv_val(h)), _ => R::End(old(self).i()) };
    (r is Ok <==> e is End) && (r is Ok ==> R::End(final(self).i()) == e) && (r is Err ==> rerr(r->Err_0, e)) })
FN Reader::peek_type
TAGS C05 C04
ENS [C23]
  r is Err ==> hcause(r->Err_0, self.s(), self.i())
REQ
  self.inv()
ENTRY
  proof { if self.i() < self.s().len() && lead_ok(self.s()[self.i()]) { lemma_parts(self.s(), self.i()); } }
ENS
  r is Ok <==> self.i() < self.s().len() && lead_ok(self.s()[self.i()])
ENS
  r is Ok ==> r->Ok_0 == type_of(hdr_at(self.s(), self.i()))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(self.s(), self.i()))
FN Reader::positive
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong(r->Err_0, old(self).s(), old(self).i(), Type::Positive)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h is Positive })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; h == Header::Positive(v) })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::negative
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong(r->Err_0, old(self).s(), old(self).i(), Type::Negative)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h is Negative })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; h == Header::Negative(v) })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::scalar
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong_of(r->Err_0, old(self).s(), old(self).i(), seq![Type::Positive, Type::Negative])
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h is Positive || h is Negative })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; match v { Scalar::Positive(p) => h == Header::Positive(p), Scalar::Negative(n) => h == Header::Negative(n) } })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::byte
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong(r->Err_0, old(self).s(), old(self).i(), Type::Byte)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h is Byte })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; h == Header::Byte(v) })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::float
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong(r->Err_0, old(self).s(), old(self).i(), Type::Float)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h is Float })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; h == Header::Float(v) })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::constant
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong_of(r->Err_0, old(self).s(), old(self).i(), seq![Type::False, Type::True, Type::Null, Type::Undefined])
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h is Constant })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; h == Header::Constant(v) })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::null
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong(r->Err_0, old(self).s(), old(self).i(), Type::Null)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h == Header::Constant(Constant::Null) })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; true })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::undefined
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong(r->Err_0, old(self).s(), old(self).i(), Type::Undefined)
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h == Header::Constant(Constant::Undefined) })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; true })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::bool
TAGS C03 C05 C04
ENS [C23]
  r is Err ==> wrong_of(r->Err_0, old(self).s(), old(self).i(), seq![Type::False, Type::True])
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End && ({ let h = hdr_at(old(self).s(), old(self).i()); h == Header::Constant(Constant::True) || h == Header::Constant(Constant::False) })
ENS
  r is Ok ==> R::End(final(self).i()) == hd(old(self).s(), old(self).i())
ENS [C01 C03 C05]
  r is Ok ==> ({ let h = hdr_at(old(self).s(), old(self).i()); let v = r->Ok_0; h == Header::Constant(if v { Constant::True } else { Constant::False }) })
ENS [C05]
  r is Err ==> still(*old(self), *final(self))
ENS [C06]
  r is Err ==> rerr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Reader::cbor_slice_neutral
ENS [C23]
  r is Err ==> itcause(r->Err_0, item(old(self).s(), old(self).i()))
REQ
  old(self).inv()
ENS
  moved(*old(self), *final(self))
ENS
  r is Ok <==> item(old(self).s(), old(self).i()) is End
ENS
  r is Ok ==> R::End(final(self).i()) == item(old(self).s(), old(self).i())
ENS
  r is Ok ==> r->Ok_0.0@ == old(self).s().subrange(old(self).i(), final(self).i())
ENS [C06]
  r is Err ==> rerr(r->Err_0, item(old(self).s(), old(self).i()))
LOOP 0
INV
  self.inv() && self.s() == old(self).s() && self.i() >= old(self).i() && start as int == old(self).i()
INV
  ctx_wf(state.ctx@)
INVEB
  (state.ctx@.len() == 0 ==> self.i() == old(self).i())
INVEB
  item(self.s(), start as int) == todo(self.s(), self.i(), state.ctx@)
LENS
  item(self.s(), start as int) == R::End(self.i())
LDEC
  self.s().len() - self.i()
LSTART
  proof { lemma_step(self.s(), self.i(), state.ctx@); }
