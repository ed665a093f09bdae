# the Decode trait
FILE decode.rs
TAGS C10 C04
IMPL trait Decode
  /// the bytes at i decode as Self
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { false }
  /// where decoding stops
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { 0 }
  /// v is what the bytes at i decode to
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { true }
  /// e is the error for bytes that do not decode
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { true }
  /// c is a context that such an error comes with
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { true }
FN trait Decode::decode
ENS [C24]
  r is Err ==> Self::dec_ctx(places(r->Err_0))
ENS [C23]
  r is Err ==> Self::dec_err(old(reader).s(), old(reader).i(), r->Err_0.error)
REQ
  old(reader).inv()
ENS [C05]
  moved(*old(reader), *final(reader))
ENS
  r is Ok <==> Self::dec_ok(old(reader).s(), old(reader).i())
ENS
  r is Ok ==> final(reader).i() == Self::dec_end(old(reader).s(), old(reader).i()) && Self::dec_rel(old(reader).s(), old(reader).i(), r->Ok_0)
PRELUDE
  use crate::lowlevel::header::*;
  use crate::types::*;
  use crate::reader::*;
  use crate::prim::*;
  /// the bytes element at i, the text element at i, the array at i
  pub open spec fn str_at(m: int, s: Seq<u8>, i: int) -> BV { choose|v: BV| bv_wf(v) && at(s, i, bv_enc(m, v)) }
  pub open spec fn arr_at(s: Seq<u8>, i: int) -> AV { choose|v: AV| av_wf(v) && at(s, i, av_enc(v)) }
  pub proof fn lemma_str_at(m: int, s: Seq<u8>, i: int)
      requires m == 2 || m == 3
      ensures forall|v: BV| bv_wf(v) && #[trigger] at(s, i, bv_enc(m, v)) ==> str_at(m, s, i) == v
  {
      assert forall|v: BV| bv_wf(v) && #[trigger] at(s, i, bv_enc(m, v)) implies str_at(m, s, i) == v by {
          let w = str_at(m, s, i);
          lemma_bv_inj(s, i, m, v, w);
      }
  }
  pub proof fn lemma_arr_at(s: Seq<u8>, i: int)
      ensures forall|v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) ==> arr_at(s, i) == v
  {
      assert forall|v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) implies arr_at(s, i) == v by {
          let w = arr_at(s, i);
          lemma_av_inj(s, i, v, w);
      }
  }
  pub proof fn lemma_body_len(m: int, c: Seq<Chunk>)
      ensures concat(c).len() <= chunks_body(m, c).len()
      decreases c.len()
  { if c.len() > 0 { lemma_body_len(m, c.drop_last()); } }
  pub proof fn lemma_bytes_len(m: int)
      ensures forall|v: BV| bv_bytes(v).len() <= #[trigger] bv_enc(m, v).len()
  {
      assert forall|v: BV| bv_bytes(v).len() <= #[trigger] bv_enc(m, v).len() by {
          match v { BV::Imm(c) => {}, BV::Chunks(c) => { lemma_body_len(m, c); } }
      }
  }
  /// an error of the reader, as a decoding error
  pub open spec fn of_reader(e: DecodeErrorKind) -> bool { e is ReaderError }
  /// the error for an unsigned integer
  pub open spec fn uint_err(e: DecodeErrorKind, s: Seq<u8>, i: int, top: u64) -> bool {
      if hd(s, i) is End && hdr_at(s, i) is Positive {
          e == (DecodeErrorKind::OutOfRange { min: 0, max: top, got: hv_val((hdr_at(s, i)->Positive_0).0) as u64 }) && hv_val((hdr_at(s, i)->Positive_0).0) > top
      } else { e is ReaderError && wrong(e->ReaderError_0, s, i, Type::Positive) }
  }
  /// the error for trailing bytes
  pub open spec fn left_err(e: ReaderError, s: Seq<u8>, i: int) -> bool {
      e == (ReaderError::NotTerminated { at: i as usize, remaining_bytes: (s.len() - i) as usize, next_byte: s[i] })
  }
  pub open spec fn eoi(r: R) -> int { r->End_0 }
FN DecodeErrorKind::context
TAGS C04
ENS [C23]
  r.error == self
ENS [C24]
  places(r) == seq![name_of::<T>()]
FN DecodeErrorKind::context_str
TAGS C04
ENS [C23]
  r.error == self
ENS [C24]
  places(r) == seq![$p1@]
FN DecodeError::error
TAGS C04
ENS [C23]
  *r == self.error
FN DecodeError::context
TAGS C04
ENS [C24]
  r@ == self.context@
FN From<ReaderError> for DecodeErrorKind::from
RET res
ENS
  res == DecodeErrorKind::ReaderError($p0)
PRELUDE
  impl vstd::std_specs::convert::FromSpecImpl<ReaderError> for DecodeErrorKind {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(e: ReaderError) -> DecodeErrorKind { DecodeErrorKind::ReaderError(e) }
  }
IMPL Decode for DataOwned
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && datacause(e->ReaderError_0, s, i) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { ritem(s, i) is End }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(ritem(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { dv_wf(v.v()) && took(s, i, eoi(ritem(s, i)), dv_enc(v.v())) }
FN Decode for DataOwned::decode
TAGS C07 C10 C04
IMPL Decode for bool
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && wrong_of(e->ReaderError_0, s, i, seq![Type::False, Type::True]) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && (hdr_at(s, i) == Header::Constant(Constant::True) || hdr_at(s, i) == Header::Constant(Constant::False)) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { hdr_at(s, i) == Header::Constant(if v { Constant::True } else { Constant::False }) }
FN Decode for bool::decode
TAGS C10 C04
IMPL Decode for u8
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { uint_err(e, s, i, 255) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && hv_val((hdr_at(s, i)->Positive_0).0) <= 255 }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v as int == hv_val((hdr_at(s, i)->Positive_0).0) }
FN Decode for u8::decode
TAGS C10 C04
ENTRY
  proof { if reader.i() < reader.s().len() { lemma_arg(reader.s(), reader.i()); lemma_hv(reader.s(), reader.i()); } }
IMPL Decode for u16
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { uint_err(e, s, i, 65535) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && hv_val((hdr_at(s, i)->Positive_0).0) <= 65535 }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v as int == hv_val((hdr_at(s, i)->Positive_0).0) }
FN Decode for u16::decode
TAGS C10 C04
ENTRY
  proof { if reader.i() < reader.s().len() { lemma_arg(reader.s(), reader.i()); lemma_hv(reader.s(), reader.i()); } }
IMPL Decode for u32
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { uint_err(e, s, i, 4294967295) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive && hv_val((hdr_at(s, i)->Positive_0).0) <= 4294967295 }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v as int == hv_val((hdr_at(s, i)->Positive_0).0) }
FN Decode for u32::decode
TAGS C10 C04
ENTRY
  proof { if reader.i() < reader.s().len() { lemma_arg(reader.s(), reader.i()); lemma_hv(reader.s(), reader.i()); } }
IMPL Decode for u64
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && wrong(e->ReaderError_0, s, i, Type::Positive) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Positive }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v as int == hv_val((hdr_at(s, i)->Positive_0).0) }
FN Decode for u64::decode
TAGS C10 C04
ENTRY
  proof { if reader.i() < reader.s().len() { lemma_arg(reader.s(), reader.i()); lemma_hv(reader.s(), reader.i()); } }
IMPL Decode for String
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && strcause(e->ReaderError_0, s, i, 3) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Text && ritem(s, i) is End }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(ritem(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { encode_utf8(v@) == bv_bytes(str_at(3, s, i)) }
FN Decode for String::decode
TAGS C10 C04
ENTRY
  proof { lemma_str_at(3, reader.s(), reader.i()); }
IMPL Decode for [u8;N]
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { if hd(s, i) is End && hdr_at(s, i) is Bytes && item(s, i) is End { e == (DecodeErrorKind::UnexpectedLength { expected: N, got: bv_bytes(str_at(2, s, i)).len() as usize }) && bv_bytes(str_at(2, s, i)).len() != N } else { e is ReaderError && strcause(e->ReaderError_0, s, i, 2) } }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Bytes && item(s, i) is End && bv_bytes(str_at(2, s, i)).len() == N }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v@ == bv_bytes(str_at(2, s, i)) }
FN Decode for [u8;N]::decode
TAGS C10 C04
ENTRY
  assert(reader.reader.data.len() == reader.reader.data@.len());
  proof { lemma_bytes_len(2); }
  proof { lemma_str_at(2, reader.s(), reader.i()); }
IMPL Decode for Vec<u8>
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && strcause(e->ReaderError_0, s, i, 2) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && hdr_at(s, i) is Bytes && item(s, i) is End }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v@ == bv_bytes(str_at(2, s, i)) }
FN Decode for Vec<u8>::decode
TAGS C10 C04
ENTRY
  proof { lemma_str_at(2, reader.s(), reader.i()); }
IMPL Decode for Scalar
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && wrong_of(e->ReaderError_0, s, i, seq![Type::Positive, Type::Negative]) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { hd(s, i) is End && (hdr_at(s, i) is Positive || hdr_at(s, i) is Negative) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(hd(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { match v { Scalar::Positive(p) => hdr_at(s, i) == Header::Positive(p), Scalar::Negative(n) => hdr_at(s, i) == Header::Negative(n) } }
FN Decode for Scalar::decode
TAGS C10 C04
