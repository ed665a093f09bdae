# the Encode and Decode traits
FILE encode.rs
TAGS C08 C10
IMPL trait Encode
  /// the value can be written
  open spec fn enc_ok(&self) -> bool { false }
  /// its encoding
  open spec fn enc(&self) -> Seq<u8> { Seq::empty() }
FN trait Encode::encode
TAGS C08
REQ
  self.enc_ok()
ENS
  final(writer).data@ =~= old(writer).data@ + self.enc()
PRELUDE
  use crate::lowlevel::header::*;
  /// a definite string of canonical length
  pub open spec fn str_enc(m: int, d: Seq<u8>) -> Seq<u8> { chunk_enc(m, Chunk { h: canon_hv(d.len() as u64), d }) }
IMPL Encode for Positive
  open spec fn enc_ok(&self) -> bool { hv_wf(self.0) }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(0, self.0) }
FN Encode for Positive::encode
TAGS C08 C07
IMPL Encode for Negative
  open spec fn enc_ok(&self) -> bool { hv_wf(self.0) }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(1, self.0) }
FN Encode for Negative::encode
TAGS C08 C07
IMPL Encode for Scalar
  open spec fn enc_ok(&self) -> bool { match *self { Scalar::Positive(p) => hv_wf(p.0), Scalar::Negative(p) => hv_wf(p.0) } }
  open spec fn enc(&self) -> Seq<u8> { match *self { Scalar::Positive(p) => hv_enc(0, p.0), Scalar::Negative(p) => hv_enc(1, p.0) } }
FN Encode for Scalar::encode
TAGS C08 C07
IMPL Encode for Byte
  open spec fn enc_ok(&self) -> bool { hv8_wf(self.0) }
  open spec fn enc(&self) -> Seq<u8> { byte_enc(self.0) }
FN Encode for Byte::encode
TAGS C08 C07
IMPL Encode for BytesOwned
  open spec fn enc_ok(&self) -> bool { bv_wf(self.v()) }
  open spec fn enc(&self) -> Seq<u8> { bv_enc(2, self.v()) }
FN Encode for BytesOwned::encode
TAGS C08 C07
IMPL Encode for Constant
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { seq![const_byte(*self)] }
FN Encode for Constant::encode
TAGS C08 C07
IMPL Encode for Float
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { float_enc(*self) }
FN Encode for Float::encode
TAGS C08 C07
IMPL Encode for Bytes
  open spec fn enc_ok(&self) -> bool { bv_wf(self.v()) }
  open spec fn enc(&self) -> Seq<u8> { bv_enc(2, self.v()) }
FN Encode for Bytes::encode
TAGS C08 C07
IMPL Encode for Text
  open spec fn enc_ok(&self) -> bool { bv_wf(self.v()) }
  open spec fn enc(&self) -> Seq<u8> { bv_enc(3, self.v()) }
FN Encode for Text::encode
TAGS C08 C07
IMPL Encode for Array
  open spec fn enc_ok(&self) -> bool { self.v().len is Definite ==> hv_wf(self.v().len->Definite_0) }
  open spec fn enc(&self) -> Seq<u8> { av_enc(self.v()) }
FN Encode for Array::encode
TAGS C08 C07
IMPL Encode for Map
  open spec fn enc_ok(&self) -> bool { self.v().len is Definite ==> hv_wf(self.v().len->Definite_0) }
  open spec fn enc(&self) -> Seq<u8> { mv_enc(self.v()) }
FN Encode for Map::encode
TAGS C08 C07
IMPL Encode for Tag
  open spec fn enc_ok(&self) -> bool { hv_wf(self.v().tag) }
  open spec fn enc(&self) -> Seq<u8> { tv_enc(self.v()) }
FN Encode for Tag::encode
TAGS C08 C07
IMPL Encode for Data
  open spec fn enc_ok(&self) -> bool { dv_writable(self.v()) }
  open spec fn enc(&self) -> Seq<u8> { dv_enc(self.v()) }
FN Encode for Data::encode
TAGS C08 C07
IMPL Encode for DataOwned
  open spec fn enc_ok(&self) -> bool { dv_writable(self.v()) }
  open spec fn enc(&self) -> Seq<u8> { dv_enc(self.v()) }
FN Encode for DataOwned::encode
TAGS C08 C07
IMPL Encode for bool
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { seq![if *self { 0xf5u8 } else { 0xf4u8 }] }
FN Encode for bool::encode
TAGS C10 C08
IMPL Encode for u8
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(0, canon_hv(*self as u64)) }
FN Encode for u8::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for u16
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(0, canon_hv(*self as u64)) }
FN Encode for u16::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for u32
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(0, canon_hv(*self as u64)) }
FN Encode for u32::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for u64
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { hv_enc(0, canon_hv(*self as u64)) }
FN Encode for u64::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for String
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { str_enc(3, encode_utf8(self@)) }
FN Encode for String::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for str
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { str_enc(3, encode_utf8(self@)) }
FN Encode for str::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for [u8]
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { str_enc(2, self@) }
FN Encode for [u8]::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for [u8;N]
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { str_enc(2, self@) }
FN Encode for [u8;N]::encode
TAGS C10 C08
ENTRY
  proof { lemma_canon(); }
IMPL Encode for Vec<u8>
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { str_enc(2, self@) }
FN Encode for Vec<u8>::encode
TAGS C10 C08
IMPL Encode for CborDataOf<T>
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { self.1@ }
FN Encode for CborDataOf<T>::encode
TAGS C15 C08
IMPL Encode for CborSliceOf<T>
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { self.1@ }
FN Encode for CborSliceOf<T>::encode
TAGS C15 C08
IMPL Encode for CborData
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { self.0@ }
FN Encode for CborData::encode
TAGS C15 C08
IMPL Encode for CborSlice
  open spec fn enc_ok(&self) -> bool { true }
  open spec fn enc(&self) -> Seq<u8> { self.0@ }
FN Encode for CborSlice::encode
TAGS C15 C08
FILE writer.rs
FN Writer::encode
TAGS C08
REQ
  $p1.enc_ok()
ENS
  final(self).data@ =~= old(self).data@ + $p1.enc()
FILE tagged.rs
TAGS C17 C08
PRELUDE
  use crate::lowlevel::header::*;
PRELUDE
  impl StandardDateTime {
      pub open spec fn wf(&self) -> bool { hv_wf(self.0.0) && bv_wf(self.1.v()) }
      pub open spec fn tenc(&self) -> Seq<u8> { hv_enc(6, self.0.0) + bv_enc(3, self.1.v()) }
  }
FN StandardDateTime::write
REQ
  self.wf()
CLOSURE 0
PARAMS |writer: &mut Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + bv_enc(3, self.1.v())
ENS
  final($p1).data@ =~= old($p1).data@ + self.tenc()
IMPL Encode for StandardDateTime
  open spec fn enc_ok(&self) -> bool { self.wf() }
  open spec fn enc(&self) -> Seq<u8> { self.tenc() }
FN Encode for StandardDateTime::encode
TAGS C17 C08
PRELUDE
  impl PositiveBignum {
      pub open spec fn wf(&self) -> bool { hv_wf(self.0.0) && bv_wf(self.1.v()) }
      pub open spec fn tenc(&self) -> Seq<u8> { hv_enc(6, self.0.0) + bv_enc(2, self.1.v()) }
  }
FN PositiveBignum::write
REQ
  self.wf()
CLOSURE 0
PARAMS |writer: &mut Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + bv_enc(2, self.1.v())
ENS
  final($p1).data@ =~= old($p1).data@ + self.tenc()
IMPL Encode for PositiveBignum
  open spec fn enc_ok(&self) -> bool { self.wf() }
  open spec fn enc(&self) -> Seq<u8> { self.tenc() }
FN Encode for PositiveBignum::encode
TAGS C17 C08
PRELUDE
  impl NegativeBignum {
      pub open spec fn wf(&self) -> bool { hv_wf(self.0.0) && bv_wf(self.1.v()) }
      pub open spec fn tenc(&self) -> Seq<u8> { hv_enc(6, self.0.0) + bv_enc(2, self.1.v()) }
  }
FN NegativeBignum::write
REQ
  self.wf()
CLOSURE 0
PARAMS |writer: &mut Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + bv_enc(2, self.1.v())
ENS
  final($p1).data@ =~= old($p1).data@ + self.tenc()
IMPL Encode for NegativeBignum
  open spec fn enc_ok(&self) -> bool { self.wf() }
  open spec fn enc(&self) -> Seq<u8> { self.tenc() }
FN Encode for NegativeBignum::encode
TAGS C17 C08
PRELUDE
  impl EncodedCBOR {
      pub open spec fn wf(&self) -> bool { hv_wf(self.0.0) && bv_wf(self.1.v()) }
      pub open spec fn tenc(&self) -> Seq<u8> { hv_enc(6, self.0.0) + bv_enc(2, self.1.v()) }
  }
FN EncodedCBOR::write
REQ
  self.wf()
CLOSURE 0
PARAMS |writer: &mut Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + bv_enc(2, self.1.v())
ENS
  final($p1).data@ =~= old($p1).data@ + self.tenc()
IMPL Encode for EncodedCBOR
  open spec fn enc_ok(&self) -> bool { self.wf() }
  open spec fn enc(&self) -> Seq<u8> { self.tenc() }
FN Encode for EncodedCBOR::encode
TAGS C17 C08
PRELUDE
  impl RationalNumerator {
      pub open spec fn wf(&self) -> bool {
          match self { RationalNumerator::Positive(p) => hv_wf(p.0), RationalNumerator::Negative(p) => hv_wf(p.0), RationalNumerator::PositiveBignum(b) => b.wf(), RationalNumerator::NegativeBignum(b) => b.wf() }
      }
      pub open spec fn tenc(&self) -> Seq<u8> {
          match self { RationalNumerator::Positive(p) => hv_enc(0, p.0), RationalNumerator::Negative(p) => hv_enc(1, p.0), RationalNumerator::PositiveBignum(b) => b.tenc(), RationalNumerator::NegativeBignum(b) => b.tenc() }
      }
  }
  impl RationalDenominator {
      pub open spec fn wf(&self) -> bool {
          match self { RationalDenominator::Positive(p) => hv_wf(p.0), RationalDenominator::PositiveBignum(b) => b.wf() }
      }
      pub open spec fn tenc(&self) -> Seq<u8> {
          match self { RationalDenominator::Positive(p) => hv_enc(0, p.0), RationalDenominator::PositiveBignum(b) => b.tenc() }
      }
  }
  impl RationalNumber {
      pub open spec fn wf(&self) -> bool { hv_wf(self.tag.0) && sl_wf(self.len_encoding, 2) && self.numerator.wf() && self.denominator.wf() }
      pub open spec fn body(&self) -> Seq<u8> { sl_enc(4, self.len_encoding) + (self.numerator.tenc() + self.denominator.tenc()) + sl_brk(self.len_encoding) }
      pub open spec fn tenc(&self) -> Seq<u8> { hv_enc(6, self.tag.0) + self.body() }
  }
FN RationalNumber::write
REQ
  self.wf()
CLOSURE 0
PARAMS |writer: &mut Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + self.body()
CLOSURE 1
PARAMS |writer: &mut Writer|
CENS
  final(writer).data@ =~= old(writer).data@ + (self.numerator.tenc() + self.denominator.tenc())
ENS
  final($p1).data@ =~= old($p1).data@ + self.tenc()
IMPL Encode for RationalNumber
  open spec fn enc_ok(&self) -> bool { self.wf() }
  open spec fn enc(&self) -> Seq<u8> { self.tenc() }
FN Encode for RationalNumber::encode
TAGS C17 C08
FN RationalNumber::numerator
ENS
  *r == self.numerator
FN RationalNumber::denominator
ENS
  *r == self.denominator
FN PositiveBignum::to_be_bytes
TAGS C17 C13
ENS
  r@ == bv_bytes(self.1.v())
FN NegativeBignum::to_be_bytes
TAGS C17 C13
ENS
  r@ == bv_bytes(self.1.v())
FN EncodedCBOR::to_bytes
TAGS C17 C13
ENS
  r@ == bv_bytes(self.1.v())
FN EncodedCBOR::from_bytes
TAGS C17
ENS
  r.wf() && hv_val(r.0.0) == 24 && r.1.v() is Imm && bv_bytes(r.1.v()) == $p0@
FILE lib.rs
FN encode_to_bytes
TAGS C21 C08
REQ
  $p0.enc_ok()
ENS
  r@ =~= $p0.enc()
