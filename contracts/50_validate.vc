# the validator
FILE validate.rs
TAGS C02 C04
PRELUDE
  use crate::lowlevel::lead::*;
  use crate::types::Type;
  impl vstd::std_specs::convert::FromSpecImpl<LeadError> for ValidateError {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: LeadError) -> ValidateError { ValidateError::LeadError(e) }
  }
  impl vstd::std_specs::convert::FromSpecImpl<StateError> for ValidateError {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: StateError) -> ValidateError { ValidateError::StateError(e) }
  }
  impl vstd::std_specs::convert::FromSpecImpl<CborDataMissing> for ValidateError {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: CborDataMissing) -> ValidateError { ValidateError::DataMissing(e) }
  }
  impl<'a> Validator<'a> {
      pub open spec fn s(&self) -> Seq<u8> { self.reader.data@ }
      pub open spec fn i(&self) -> int { self.reader.index as int }
      pub open spec fn inv(&self) -> bool { self.reader.inv() }
  }
  /// a piece that is not all there is reported, with its counts
  pub open spec fn verr(e: ValidateError, r: R) -> bool {
      r is Missing ==> e is DataMissing && missing_is(e->DataMissing_0, r->n, r->got)
  }
  pub open spec fn vmissing_in(e: ValidateError, c: CborDataContext, n: int, got: int) -> bool {
      e is DataMissing && missing_is(e->DataMissing_0, n, got) && (e->DataMissing_0).context == c
  }
  pub open spec fn vhcause(e: ValidateError, s: Seq<u8>, i: int) -> bool {
      if i >= s.len() { vmissing_in(e, CborDataContext::Header, 1, 0) }
      else if !lead_ok(s[i]) { e is LeadError && lerr(e->LeadError_0, s[i]) }
      else { vmissing_in(e, CborDataContext::IndirectLen, extra(s[i]), s.len() - (i + 1)) }
  }
  pub open spec fn vitcause(e: ValidateError, r: R) -> bool {
      (e is DataMissing || e is LeadError || e is StateError) && (r is Bad && e is DataMissing ==> content_missing(e->DataMissing_0))
  }
FN From<LeadError> for ValidateError::from
ENS
  r == ValidateError::LeadError($p0)
FN From<StateError> for ValidateError::from
ENS
  r == ValidateError::StateError($p0)
FN From<CborDataMissing> for ValidateError::from
ENS
  r == ValidateError::DataMissing($p0)
FN Validator::remaining_bytes
REQ
  self.inv()
ENS [C05]
  r as int == self.s().len() - self.i()
FN Validator::expect
ENS [C23]
  r is Err ==> (r->Err_0->DataMissing_0).context == $p1
REQ
  old(self).inv()
ENS
  final(self).s() == old(self).s() && final(self).inv() && final(self).state == old(self).state
ENS
  r is Ok <==> content(old(self).s(), old(self).i(), $p2 as int) is End
ENS
  r is Ok ==> final(self).i() == old(self).i() + $p2 && r->Ok_0@ == old(self).s().subrange(old(self).i(), old(self).i() + $p2)
ENS [C05]
  r is Err ==> final(self).i() == old(self).i()
ENS [C06]
  r is Err ==> verr(r->Err_0, content(old(self).s(), old(self).i(), $p2 as int))
FN Validator::peek_at
ENS [C23]
  r is Err ==> (r->Err_0->DataMissing_0).context == $p1
REQ
  self.inv() && $p3 > 0
ENS
  r is Ok <==> self.i() + $p2 + $p3 <= self.s().len()
ENS
  r is Ok ==> r->Ok_0@ == self.s().subrange(self.i() + $p2, self.i() + $p2 + $p3)
ENS [C06]
  r is Err ==> verr(r->Err_0, R::Missing { n: $p3 as int, got: if self.s().len() - self.i() >= $p2 { self.s().len() - self.i() - $p2 } else { 0 } })
FN Validator::new
ENS
  r.s() == data@ && r.i() == 0 && r.inv()
FN Validator::lead
ENS [C23]
  r is Err ==> vhcause(r->Err_0, self.s(), self.i())
REQ
  self.inv()
ENS
  r is Ok <==> self.i() < self.s().len() && lead_ok(self.s()[self.i()])
ENS
  r is Ok ==> r->Ok_0 == lead_of(self.s()[self.i()])
ENS [C06]
  r is Err && self.i() >= self.s().len() ==> verr(r->Err_0, R::Missing { n: 1, got: 0 })
FN Validator::resolve_indirect
ENS [C23]
  r is Err ==> vmissing_in(r->Err_0, CborDataContext::IndirectLen, $p1.num(), self.s().len() - (self.i() + 1))
REQ
  self.inv() && self.i() < self.s().len()
ENTRY
  reveal_with_fuel(be, 10);
ENS
  r is Ok <==> self.s().len() - (self.i() + 1) >= $p1.num()
ENS
  r is Ok ==> ilen(self.s()[self.i()]) == Some($p1) ==> Some(r->Ok_0) == ival(self.s(), self.i())
ENS [C06]
  r is Err ==> verr(r->Err_0, R::Missing { n: $p1.num(), got: self.s().len() - (self.i() + 1) })
FN Validator::header_parts
ENS [C23]
  r is Err ==> vhcause(r->Err_0, old(self).s(), old(self).i())
REQ
  old(self).inv()
ENTRY
  proof { if self.i() < self.s().len() && lead_ok(self.s()[self.i()]) { lemma_parts(self.s(), self.i()); } }
ENS
  *final(self) == *old(self)
ENS
  r is Ok <==> hd(old(self).s(), old(self).i()) is End
ENS
  r is Ok ==> old(self).i() + r->Ok_0.1 == hd(old(self).s(), old(self).i())->End_0 && goes(lead_extra(r->Ok_0.0), r->Ok_0.2)
      && parts(r->Ok_0.0, r->Ok_0.2) == hdr_at(old(self).s(), old(self).i())
ENS [C06]
  r is Err ==> verr(r->Err_0, hd(old(self).s(), old(self).i()))
FN Validator::consume_data_streamable
ENS [C23]
  r is Err ==> r->Err_0 is DataMissing && content_missing(r->Err_0->DataMissing_0)
REQ
  old(self).inv()
ENS
  final(self).s() == old(self).s() && final(self).inv() && final(self).state == old(self).state
ENS
  ({ let e = match $p1 { None => R::End(old(self).i()), Some(h) => content(old(self).s(), old(self).i(), hv_val(h)) };
    (r is Ok <==> e is End) && (r is Ok ==> R::End(final(self).i()) == e) && (r is Err ==> verr(r->Err_0, e) && final(self).i() == old(self).i()) })
FN Validator::process_header
ENS [C23]
  r is Err ==> (if r->Err_0 is DataMissing { content_missing(r->Err_0->DataMissing_0)
      && (match $p1 { Header::Bytes(Some(h)) | Header::Text(Some(h)) => !(content(old(self).s(), old(self).i(), hv_val(h)) is End), _ => false })
    } else { r->Err_0 is StateError && st_err(old(self).state.ctx@, $p1, r->Err_0->StateError_0) })
REQ
  old(self).inv() && ctx_wf(old(self).state.ctx@)
ENS
  final(self).s() == old(self).s() && final(self).inv() && final(self).i() >= old(self).i() && ctx_wf(final(self).state.ctx@)
ENS
  ({ let e = match $p1 { Header::Bytes(Some(h)) | Header::Text(Some(h)) => content(old(self).s(), old(self).i(), hv_val(h)), _ => R::End(old(self).i()) };
    let t = st_header(old(self).state.ctx@, $p1);
    (r is Ok <==> e is End && t is Some)
    && (r is Ok ==> R::End(final(self).i()) == e && final(self).state.ctx@ == t->Some_0)
    && (r is Err && !(e is End) ==> verr(r->Err_0, e)) })
FN Validator::next
TAGS C02 C04 C05
ENS [C23]
  r is Err ==> vitcause(r->Err_0, item(old(self).s(), old(self).i()))
REQ
  old(self).inv()
ENS [C02 C05]
  final(self).s() == old(self).s() && final(self).inv() && final(self).i() >= old(self).i()
ENS [C02]
  r is Ok <==> item(old(self).s(), old(self).i()) is End
ENS [C02 C05]
  r is Ok ==> R::End(final(self).i()) == item(old(self).s(), old(self).i()) && r->Ok_0.1 as int == final(self).i() - old(self).i()
ENS [C02]
  r is Ok ==> r->Ok_0.0.0@ == old(self).s().subrange(old(self).i(), final(self).i())
ENS [C06]
  r is Err ==> verr(r->Err_0, item(old(self).s(), old(self).i()))
LOOP 0
INV
  self.inv() && self.s() == old(self).s() && self.i() >= old(self).i() && start as int == old(self).i()
INV
  ctx_wf(self.state.ctx@) && (self.state.ctx@.len() == 0 ==> self.i() == old(self).i())
INV
  item(self.s(), start as int) == todo(self.s(), self.i(), self.state.ctx@)
LDEC
  self.s().len() - self.i()
LSTART
  proof { lemma_step(self.s(), self.i(), self.state.ctx@); }
