FILE context.rs
TAGS C04 C05
PRELUDE
  impl<'a> CborDataReader<'a> {
      pub open spec fn inv(&self) -> bool { self.index <= self.data@.len() }
  }
  pub open spec fn content_missing(d: CborDataMissing) -> bool { d.context == CborDataContext::Content && d.got_bytes < d.expecting_bytes }
  /// the error that says a piece of n bytes is not all there
  pub open spec fn missing_is(e: CborDataMissing, n: int, got: int) -> bool {
      e.expecting_bytes as int == n && e.got_bytes as int == got
  }
FN CborDataReader::new
ENS
  r.data@ == data@ && r.index == 0 && r.inv()
FN CborDataReader::remaining_bytes
REQ
  self.inv()
ENS [C05]
  r as int == self.data@.len() - self.index
FN CborDataReader::peek
TAGS C02 C03 C04 C06
ENS [C23]
  r is Err ==> r->Err_0.context == $p1
ENTRY
  assert(self.data.len() == self.data@.len());
REQ
  self.inv()
ENS
  r is Ok <==> ($p3 == 0 || self.index + $p2 + $p3 <= self.data@.len())
ENS
  r is Ok && $p3 > 0 ==> r->Ok_0@ == self.data@.subrange(self.index + $p2, self.index + $p2 + $p3)
ENS
  r is Ok ==> r->Ok_0@.len() == $p3
ENS [C06]
  r is Err ==> missing_is(r->Err_0, $p3 as int, if self.data@.len() - self.index >= $p2 { self.data@.len() - self.index - $p2 } else { 0 })
FN CborDataReader::peek_byte
REQ
  self.inv() && self.index < self.data@.len()
ENS
  r == self.data@[self.index as int]
FN CborDataReader::advance
ENTRY
  assert(self.data.len() == self.data@.len());
REQ
  old(self).inv() && old(self).index + $p1 <= old(self).data@.len()
ENS
  final(self).data@ == old(self).data@ && final(self).index == old(self).index + $p1
FN CborDataReader::consume
TAGS C02 C03 C04 C06
ENS [C23]
  r is Err ==> r->Err_0.context == $p1
ENTRY
  assert(self.data.len() == self.data@.len());
REQ
  old(self).inv()
ENS
  final(self).data@ == old(self).data@ && final(self).inv()
ENS
  r is Ok <==> old(self).index + $p2 <= old(self).data@.len()
ENS
  r is Ok ==> final(self).index == old(self).index + $p2
      && r->Ok_0@ == old(self).data@.subrange(old(self).index as int, old(self).index + $p2)
ENS [C05]
  r is Err ==> final(self).index == old(self).index
ENS [C06]
  r is Err ==> missing_is(r->Err_0, $p2 as int, old(self).data@.len() - old(self).index)
FN CborDataReader::slice_from
TAGS C02 C03
REQ
  self.inv() && $p1 <= self.index
ENS
  r.0@ == self.data@.subrange($p1 as int, self.index as int)

FILE lowlevel/lead.rs
TAGS C02 C03 C04
PRELUDE
  impl vstd::std_specs::convert::FromSpecImpl<Option<Content>> for ContentStream {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(v: Option<Content>) -> ContentStream {
          match v { None => ContentStream::Stream, Some(Content::Imm(v)) => ContentStream::Imm(v), Some(Content::Indirect(l)) => ContentStream::Indirect(l) }
      }
  }
  impl Major {
      pub open spec fn num(self) -> int {
          match self {
              Major::Positive => 0, Major::Negative => 1, Major::Bytes => 2, Major::Text => 3,
              Major::Array => 4, Major::Map => 5, Major::Tag => 6, Major::Other => 7,
          }
      }
  }
  impl IndirectLen {
      pub open spec fn num(self) -> int {
          match self { IndirectLen::I1 => 1, IndirectLen::I2 => 2, IndirectLen::I4 => 4, IndirectLen::I8 => 8 }
      }
  }
  /// what the error for the first byte b must be
  pub open spec fn lerr(e: LeadError, b: u8) -> bool {
      match e {
          LeadError::Reserved(x) => 28 <= ai(b) <= 30 && ai(x) == ai(b),
          LeadError::IndefiniteNotSupported(x) => ai(b) == 31 && ai(x) == ai(b),
      }
  }
  pub open spec fn ilen(b: u8) -> Option<IndirectLen> {
      if ai(b) == 24 { Some(IndirectLen::I1) } else if ai(b) == 25 { Some(IndirectLen::I2) }
      else if ai(b) == 26 { Some(IndirectLen::I4) } else if ai(b) == 27 { Some(IndirectLen::I8) } else { None }
  }
  pub open spec fn content_of(b: u8) -> Content {
      match ilen(b) { None => Content::Imm(ai(b) as u8), Some(l) => Content::Indirect(l) }
  }
  pub open spec fn stream_of(b: u8) -> ContentStream {
      if ai(b) == 31 { ContentStream::Stream } else {
          match ilen(b) { None => ContentStream::Imm(ai(b) as u8), Some(l) => ContentStream::Indirect(l) }
      }
  }
  pub open spec fn lead_of(b: u8) -> Lead {
      let m = major(b);
      if m == 0 { Lead::Positive(content_of(b)) }
      else if m == 1 { Lead::Negative(content_of(b)) }
      else if m == 2 { Lead::Bytes(stream_of(b)) }
      else if m == 3 { Lead::Text(stream_of(b)) }
      else if m == 4 { Lead::Array(stream_of(b)) }
      else if m == 5 { Lead::Map(stream_of(b)) }
      else if m == 6 { Lead::Tag(content_of(b)) }
      else if ai(b) < 20 { Lead::ByteImm(ai(b) as u8) }
      else if ai(b) == 20 { Lead::False }
      else if ai(b) == 21 { Lead::True }
      else if ai(b) == 22 { Lead::Null }
      else if ai(b) == 23 { Lead::Undefined }
      else if ai(b) == 24 { Lead::ByteI1 }
      else if ai(b) == 25 { Lead::FP16 }
      else if ai(b) == 26 { Lead::FP32 }
      else if ai(b) == 27 { Lead::FP64 }
      else { Lead::Break }
  }
  pub open spec fn content_extra(c: Content) -> Option<IndirectLen> {
      match c { Content::Imm(_) => None, Content::Indirect(l) => Some(l) }
  }
  pub open spec fn stream_extra(c: ContentStream) -> Option<IndirectLen> {
      match c { ContentStream::Indirect(l) => Some(l), _ => None }
  }
  pub open spec fn lead_extra(l: Lead) -> Option<IndirectLen> {
      match l {
          Lead::Positive(c) | Lead::Negative(c) | Lead::Tag(c) => content_extra(c),
          Lead::Bytes(c) | Lead::Text(c) | Lead::Array(c) | Lead::Map(c) => stream_extra(c),
          Lead::ByteI1 => Some(IndirectLen::I1),
          Lead::FP16 => Some(IndirectLen::I2),
          Lead::FP32 => Some(IndirectLen::I4),
          Lead::FP64 => Some(IndirectLen::I8),
          _ => None,
      }
  }
FN Major::from_byte
ENTRY
  assert($p0 >> 5 == $p0 / 32 && $p0 / 32 <= 7) by(bit_vector);
ENS
  r.num() == major($p0)
FN Major::to_value
TAGS C08
ENS
  r as int == self.num()
FN Major::to_high_bits
TAGS C08
ENTRY
  assert(forall|x: u8| x < 8 ==> #[trigger] (x << 5u32) == x * 32) by(bit_vector);
  assert(forall|x: u8| x < 8 ==> #[trigger] (x << 5i32) == x * 32) by(bit_vector);
ENS
  r as int == self.num() * 32
FN IndirectLen::len_bytes
ENS
  r as int == self.num()
FN Content::from_byte
ENS [C23]
  r is Err ==> lerr(r->Err_0, $p0)
ENTRY
  assert($p0 & CONTENT_MASK == $p0 % 32) by(bit_vector);
ENS
  r is Ok <==> ai($p0) <= 27
ENS
  r is Ok ==> r->Ok_0 == content_of($p0)
FN Content::expected_extra
ENS
  r == content_extra(self)
FN Content::to_byte
TAGS C08
REQ
  self is Imm ==> self->Imm_0 < 24
ENS
  r as int == match self { Content::Imm(v) => v as int, Content::Indirect(IndirectLen::I1) => 24, Content::Indirect(IndirectLen::I2) => 25, Content::Indirect(IndirectLen::I4) => 26, Content::Indirect(IndirectLen::I8) => 27 }
FN ContentStream::from_byte
ENS [C23]
  r is Err ==> lerr(r->Err_0, $p0)
ENTRY
  assert($p0 & CONTENT_MASK == $p0 % 32) by(bit_vector);
ENS
  r is Ok <==> !(28 <= ai($p0) <= 30)
ENS
  r is Ok ==> r->Ok_0 == stream_of($p0)
FN ContentStream::expected_extra
ENS
  r == stream_extra(self)
FN ContentStream::to_byte
TAGS C08
REQ
  self is Imm ==> self->Imm_0 < 24
ENS
  r as int == match self { ContentStream::Imm(v) => v as int, ContentStream::Indirect(IndirectLen::I1) => 24, ContentStream::Indirect(IndirectLen::I2) => 25, ContentStream::Indirect(IndirectLen::I4) => 26, ContentStream::Indirect(IndirectLen::I8) => 27, ContentStream::Stream => 31 }
FN From<Option<Content>> for ContentStream::from
TAGS C08
ENS
  r == match $p0 { None => ContentStream::Stream, Some(Content::Imm(v)) => ContentStream::Imm(v), Some(Content::Indirect(l)) => ContentStream::Indirect(l) }
FN Lead::special
ENS [C23]
  r is Err ==> lerr(r->Err_0, $p0)
ENTRY
  assert($p0 & CONTENT_MASK == $p0 % 32) by(bit_vector);
  assert(($p0 & CONTENT_MASK) & CONTENT_MASK == $p0 % 32) by(bit_vector);
ENS
  major($p0) == 7 ==> (r is Ok <==> lead_ok($p0))
ENS
  major($p0) == 7 && r is Ok ==> r->Ok_0 == lead_of($p0)
FN Lead::from_byte
ENS [C23]
  r is Err ==> lerr(r->Err_0, $p0)
ENS
  r is Ok <==> lead_ok($p0)
ENS
  r is Ok ==> r->Ok_0 == lead_of($p0)
FN Lead::expected_extra
ENS
  r == lead_extra(*self)

FILE lowlevel/header.rs
TAGS C02 C03 C04
PRELUDE
  impl vstd::std_specs::convert::FromSpecImpl<IndirectValue> for HeaderValue {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(v: IndirectValue) -> HeaderValue { ind_hv(v) }
  }
  pub open spec fn hv_val(v: HeaderValue) -> int {
      match v {
          HeaderValue::Imm(x) => x as int, HeaderValue::U8(x) => x as int, HeaderValue::U16(x) => x as int,
          HeaderValue::U32(x) => x as int, HeaderValue::U64(x) => x as int,
      }
  }
  /// the value can be written: an immediate takes less than 24
  pub open spec fn hv_wf(v: HeaderValue) -> bool { v is Imm ==> v->Imm_0 < 24 }
  /// length of the encoded header
  pub open spec fn hv_len(v: HeaderValue) -> int {
      match v {
          HeaderValue::Imm(_) => 1, HeaderValue::U8(_) => 2, HeaderValue::U16(_) => 3,
          HeaderValue::U32(_) => 5, HeaderValue::U64(_) => 9,
      }
  }
  pub open spec fn hv8_val(v: HeaderValue8) -> int {
      match v { HeaderValue8::Imm(x) => x as int, HeaderValue8::U8(x) => x as int }
  }
  /// immediate bytes stop before the constants
  pub open spec fn hv8_wf(v: HeaderValue8) -> bool { v is Imm ==> v->Imm_0 < 20 }
  pub open spec fn hv8_len(v: HeaderValue8) -> int {
      match v { HeaderValue8::Imm(_) => 1, HeaderValue8::U8(_) => 2 }
  }
  /// no shorter encoding of the same value
  pub open spec fn shortest(v: HeaderValue) -> bool {
      forall|o: HeaderValue| #![trigger hv_len(o)] hv_wf(o) && hv_val(o) == hv_val(v) ==> hv_len(v) <= hv_len(o)
  }
  /// the value in its shortest form
  pub open spec fn canon_hv(v: u64) -> HeaderValue {
      if v < 24 { HeaderValue::Imm(v as u8) } else if v < 0x100 { HeaderValue::U8(v as u8) } else if v < 0x1_0000 { HeaderValue::U16(v as u16) }
      else if v < 0x1_0000_0000 { HeaderValue::U32(v as u32) } else { HeaderValue::U64(v) }
  }
  /// the shortest form is unique
  pub proof fn lemma_canon()
      ensures forall|h: HeaderValue| #[trigger] hv_wf(h) && shortest(h) ==> h == canon_hv(hv_val(h) as u64),
          forall|v: u64| hv_wf(#[trigger] canon_hv(v)) && hv_val(canon_hv(v)) == v && shortest(canon_hv(v)),
  {
      assert forall|h: HeaderValue| #[trigger] hv_wf(h) && shortest(h) implies h == canon_hv(hv_val(h) as u64) by {
          let c = canon_hv(hv_val(h) as u64);
          assert(hv_wf(c) && hv_val(c) == hv_val(h));
          assert(hv_len(h) <= hv_len(c));
      }
      assert forall|v: u64| hv_wf(#[trigger] canon_hv(v)) && hv_val(canon_hv(v)) == v && shortest(canon_hv(v)) by {
          let c = canon_hv(v);
          assert forall|o: HeaderValue| #![trigger hv_len(o)] hv_wf(o) && hv_val(o) == hv_val(c) implies hv_len(c) <= hv_len(o) by {}
      }
  }
  pub open spec fn shortest8(v: HeaderValue8) -> bool {
      forall|o: HeaderValue8| #![trigger hv8_len(o)] hv8_wf(o) && hv8_val(o) == hv8_val(v) ==> hv8_len(v) <= hv8_len(o)
  }
  /// the argument at i, with its width
  pub open spec fn hv(s: Seq<u8>, i: int) -> HeaderValue {
      let a = ai(s[i]);
      if a == 24 { HeaderValue::U8(be(s, i + 1, 1) as u8) }
      else if a == 25 { HeaderValue::U16(be(s, i + 1, 2) as u16) }
      else if a == 26 { HeaderValue::U32(be(s, i + 1, 4) as u32) }
      else if a == 27 { HeaderValue::U64(be(s, i + 1, 8) as u64) }
      else { HeaderValue::Imm(a as u8) }
  }
  pub open spec fn hvs(s: Seq<u8>, i: int) -> HeaderValueStream {
      if ai(s[i]) == 31 { None } else { Some(hv(s, i)) }
  }
  /// the header at i
  pub open spec fn hdr_at(s: Seq<u8>, i: int) -> Header {
      let m = major(s[i]);
      let a = ai(s[i]);
      if m == 0 { Header::Positive(Positive(hv(s, i))) }
      else if m == 1 { Header::Negative(Negative(hv(s, i))) }
      else if m == 2 { Header::Bytes(hvs(s, i)) }
      else if m == 3 { Header::Text(hvs(s, i)) }
      else if m == 4 { Header::Array(hvs(s, i)) }
      else if m == 5 { Header::Map(hvs(s, i)) }
      else if m == 6 { Header::Tag(hv(s, i)) }
      else if a < 20 { Header::Byte(Byte(HeaderValue8::Imm(a as u8))) }
      else if a == 20 { Header::Constant(Constant::False) }
      else if a == 21 { Header::Constant(Constant::True) }
      else if a == 22 { Header::Constant(Constant::Null) }
      else if a == 23 { Header::Constant(Constant::Undefined) }
      else if a == 24 { Header::Byte(Byte(HeaderValue8::U8(be(s, i + 1, 1) as u8))) }
      else if a == 25 { Header::Float(Float::FP16(be(s, i + 1, 2) as u16)) }
      else if a == 26 { Header::Float(Float::FP32(be(s, i + 1, 4) as u32)) }
      else if a == 27 { Header::Float(Float::FP64(be(s, i + 1, 8) as u64)) }
      else { Header::Break }
  }
  /// the argument read at i as it comes out of the buffer
  pub open spec fn ival(s: Seq<u8>, i: int) -> Option<IndirectValue> {
      match ilen(s[i]) {
          None => None,
          Some(IndirectLen::I1) => Some(IndirectValue::U8(be(s, i + 1, 1) as u8)),
          Some(IndirectLen::I2) => Some(IndirectValue::U16(be(s, i + 1, 2) as u16)),
          Some(IndirectLen::I4) => Some(IndirectValue::U32(be(s, i + 1, 4) as u32)),
          Some(IndirectLen::I8) => Some(IndirectValue::U64(be(s, i + 1, 8) as u64)),
      }
  }
  pub open spec fn ind_hv(v: IndirectValue) -> HeaderValue {
      match v {
          IndirectValue::U8(v) => HeaderValue::U8(v), IndirectValue::U16(v) => HeaderValue::U16(v),
          IndirectValue::U32(v) => HeaderValue::U32(v), IndirectValue::U64(v) => HeaderValue::U64(v),
      }
  }
  pub open spec fn ind_len(v: IndirectValue) -> IndirectLen {
      match v {
          IndirectValue::U8(_) => IndirectLen::I1, IndirectValue::U16(_) => IndirectLen::I2,
          IndirectValue::U32(_) => IndirectLen::I4, IndirectValue::U64(_) => IndirectLen::I8,
      }
  }
  /// the argument goes with the lead byte
  pub open spec fn goes(l: Option<IndirectLen>, v: Option<IndirectValue>) -> bool {
      match l { None => v is None, Some(l) => v is Some && ind_len(v->Some_0) == l }
  }
  pub open spec fn res(c: Content, v: Option<IndirectValue>) -> HeaderValue {
      match c { Content::Imm(x) => HeaderValue::Imm(x), Content::Indirect(_) => ind_hv(v->Some_0) }
  }
  pub open spec fn ress(c: ContentStream, v: Option<IndirectValue>) -> HeaderValueStream {
      match c {
          ContentStream::Imm(x) => Some(HeaderValue::Imm(x)),
          ContentStream::Indirect(_) => Some(ind_hv(v->Some_0)),
          ContentStream::Stream => None,
      }
  }
  pub open spec fn parts(l: Lead, v: Option<IndirectValue>) -> Header {
      match l {
          Lead::Positive(c) => Header::Positive(Positive(res(c, v))),
          Lead::Negative(c) => Header::Negative(Negative(res(c, v))),
          Lead::Bytes(c) => Header::Bytes(ress(c, v)),
          Lead::Text(c) => Header::Text(ress(c, v)),
          Lead::Array(c) => Header::Array(ress(c, v)),
          Lead::Map(c) => Header::Map(ress(c, v)),
          Lead::Tag(c) => Header::Tag(res(c, v)),
          Lead::ByteImm(x) => Header::Byte(Byte(HeaderValue8::Imm(x))),
          Lead::False => Header::Constant(Constant::False),
          Lead::True => Header::Constant(Constant::True),
          Lead::Null => Header::Constant(Constant::Null),
          Lead::Undefined => Header::Constant(Constant::Undefined),
          Lead::ByteI1 => Header::Byte(Byte(HeaderValue8::U8(v->Some_0->U8_0))),
          Lead::FP16 => Header::Float(Float::FP16(v->Some_0->U16_0)),
          Lead::FP32 => Header::Float(Float::FP32(v->Some_0->U32_0)),
          Lead::FP64 => Header::Float(Float::FP64(v->Some_0->U64_0)),
          Lead::Break => Header::Break,
      }
  }
  pub proof fn lemma_parts(s: Seq<u8>, i: int)
      requires lead_ok(s[i])
      ensures parts(lead_of(s[i]), ival(s, i)) == hdr_at(s, i),
          goes(lead_extra(lead_of(s[i])), ival(s, i)),
          lead_extra(lead_of(s[i])) == ilen(s[i]),
          match ilen(s[i]) { None => extra(s[i]) == 0, Some(l) => extra(s[i]) == l.num() },
  {}
  pub proof fn lemma_be_bound(s: Seq<u8>, i: int)
      ensures 0 <= be(s, i, 1) <= 0xff, 0 <= be(s, i, 2) <= 0xffff, 0 <= be(s, i, 4) <= 0xffff_ffff,
          0 <= be(s, i, 8) <= 0xffff_ffff_ffff_ffff,
  { reveal_with_fuel(be, 10); }
  pub proof fn lemma_hv(s: Seq<u8>, i: int)
      ensures hv_wf(hv(s, i)) || ai(s[i]) >= 28, ai(s[i]) < 28 ==> hv_val(hv(s, i)) == arg(s, i) && hv_len(hv(s, i)) == hlen(s[i]),
  { lemma_be_bound(s, i + 1); }
  pub open spec fn type_of(h: Header) -> Type {
      match h {
          Header::Positive(_) => Type::Positive, Header::Negative(_) => Type::Negative,
          Header::Bytes(_) => Type::Bytes, Header::Text(_) => Type::Text,
          Header::Array(_) => Type::Array, Header::Map(_) => Type::Map, Header::Tag(_) => Type::Tag,
          Header::Constant(Constant::True) => Type::True, Header::Constant(Constant::False) => Type::False,
          Header::Constant(Constant::Null) => Type::Null, Header::Constant(Constant::Undefined) => Type::Undefined,
          Header::Float(_) => Type::Float, Header::Byte(_) => Type::Byte, Header::Break => Type::Break,
      }
  }
FN HeaderValue::to_size
ENS
  r as int == hv_val(self)
FN HeaderValue::to_u64
TAGS C11
ENS
  r as int == hv_val(self)
FN HeaderValue::to_lead_content
TAGS C08
ENS
  r == match self { HeaderValue::Imm(v) => Content::Imm(v), HeaderValue::U8(_) => Content::Indirect(IndirectLen::I1), HeaderValue::U16(_) => Content::Indirect(IndirectLen::I2), HeaderValue::U32(_) => Content::Indirect(IndirectLen::I4), HeaderValue::U64(_) => Content::Indirect(IndirectLen::I8) }
FN HeaderValue::canonical
TAGS C09 C10
ENS
  hv_val(r) == $p0
ENS
  hv_wf(r)
ENS
  shortest(r)
FN HeaderValue::is_canonical
TAGS C09
REQ
  hv_wf(*self)
ENS
  r <==> shortest(*self)
ENTRY
  assert(hv_len(HeaderValue::Imm(hv_val(*self) as u8)) == 1);
  assert(hv_len(HeaderValue::U8(hv_val(*self) as u8)) == 2);
  assert(hv_len(HeaderValue::U16(hv_val(*self) as u16)) == 3);
  assert(hv_len(HeaderValue::U32(hv_val(*self) as u32)) == 5);
FN From<IndirectValue> for HeaderValue::from
ENS
  r == ind_hv($p0)
FN resolve_value
REQ
  goes(content_extra($p0), $p1)
ENS
  r == res($p0, $p1)
FN resolve_value_stream
REQ
  goes(stream_extra($p0), $p1)
ENS
  r == ress($p0, $p1)
FN Header::to_type
TAGS C05
ENS
  r == type_of(*self)
FN Header::from_parts/other_payload
REQ
  $p0 is Some
ENS
  r == match $p0->Some_0 { IndirectValue::U8(v) => Header::Byte(Byte(HeaderValue8::U8(v))), IndirectValue::U16(v) => Header::Float(Float::FP16(v)), IndirectValue::U32(v) => Header::Float(Float::FP32(v)), IndirectValue::U64(v) => Header::Float(Float::FP64(v)) }
FN Header::from_parts
REQ
  goes(lead_extra($p0), $p1)
ENS
  r == parts($p0, $p1)
FN HeaderValue8::to_u8
TAGS C11
ENS
  r as int == hv8_val(self)
FN HeaderValue8::canonical
TAGS C09
ENS
  hv8_val(r) == $p0 && hv8_wf(r)
ENS
  shortest8(r)
FN HeaderValue8::is_canonical
TAGS C09
REQ
  hv8_wf(*self)
ENS
  r <==> shortest8(*self)
ENTRY
  assert(hv8_len(HeaderValue8::Imm(hv8_val(*self) as u8)) == 1);
FILE types/mod.rs
PRELUDE
  pub open spec fn type_of_lead(l: Lead) -> Type {
      match l {
          Lead::Positive(_) => Type::Positive, Lead::Negative(_) => Type::Negative,
          Lead::Bytes(_) => Type::Bytes, Lead::Text(_) => Type::Text, Lead::Array(_) => Type::Array,
          Lead::Map(_) => Type::Map, Lead::Tag(_) => Type::Tag,
          Lead::ByteImm(_) | Lead::ByteI1 => Type::Byte,
          Lead::False => Type::False, Lead::True => Type::True, Lead::Null => Type::Null,
          Lead::Undefined => Type::Undefined,
          Lead::FP16 | Lead::FP32 | Lead::FP64 => Type::Float,
          Lead::Break => Type::Break,
      }
  }
FN Type::from_lead
TAGS C05
ENS
  r == type_of_lead($p0)
