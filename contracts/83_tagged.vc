# reading the standard tagged types
FILE types/structure.rs
FN Tag::read_data
TAGS C17 C21
REQ
  forall|x: &mut Reader<'a>| (*x).inv() ==> #[trigger] $p1.requires((x,))
REQ
  forall|x: &mut Reader<'a>, q: Result<T, ReaderError>| (*x).inv() && #[trigger] $p1.ensures((x,), q) ==> (*final(x)).inv()
ENS
  r is Ok ==> exists|x: &mut Reader<'a>| fresh(*x, self.v().data) && #[trigger] $p1.ensures((x,), r) && (*final(x)).i() == (*final(x)).s().len()
ENS
  r is Err ==> exists|x: &mut Reader<'a>, q: Result<T, ReaderError>| fresh(*x, self.v().data) && #[trigger] $p1.ensures((x,), q) && (q is Ok ==> (*final(x)).i() != (*final(x)).s().len() && left_err(r->Err_0, (*final(x)).s(), (*final(x)).i())) && (q is Err ==> q->Err_0 == r->Err_0)
FILE tagged.rs
PRELUDE
  use crate::decode::*;
  /// the tag element at i
  pub open spec fn tag_at(s: Seq<u8>, i: int) -> TV { choose|v: TV| tv_wf(v) && at(s, i, tv_enc(v)) }
  pub proof fn lemma_tag_at(s: Seq<u8>, i: int)
      ensures forall|v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) ==> tag_at(s, i) == v
  {
      assert forall|v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) implies tag_at(s, i) == v by {
          let w = tag_at(s, i);
          lemma_tv_inj(s, i, v, w);
      }
  }
  /// a complete tag element of number n at i
  pub open spec fn tagged(s: Seq<u8>, i: int, n: int) -> bool { item(s, i) is End && hdr_at(s, i) is Tag && hv_val(tag_at(s, i).tag) == n }
  /// the error for a tagged element that is not there, or of another number
  pub open spec fn tag_err(e: ReaderError, s: Seq<u8>, i: int, n: u64) -> bool {
      if !(item(s, i) is End && hdr_at(s, i) is Tag) { contcause(e, s, i, Type::Tag) }
      else { e == (ReaderError::WrongExpectedTag { expected: n, got: hv_val(tag_at(s, i).tag) as u64 }) }
  }
  /// the error for content d that is not exactly one string
  pub open spec fn str_err(e: ReaderError, d: Seq<u8>, m: int) -> bool {
      let w = if m == 3 { ritem(d, 0) } else { item(d, 0) };
      if hd(d, 0) is End && major(d[0]) == m && w is End { left_err(e, d, eoi(w)) } else { strcause(e, d, 0, m) }
  }
  pub open spec fn tstr_err(e: ReaderError, s: Seq<u8>, i: int, n: u64, m: int) -> bool {
      if tagged(s, i, n as int) { str_err(e, tag_at(s, i).data, m) } else { tag_err(e, s, i, n) }
  }
  pub open spec fn wrong_tags(e: ReaderError, t: Seq<u64>, g: u64) -> bool {
      match e { ReaderError::WrongExpectedTags { expected, got } => got == g && expected@ =~= t, _ => false }
  }
  /// the error for a numerator, a denominator, the content of a rational
  pub open spec fn num_err(e: ReaderError, d: Seq<u8>) -> bool {
      match hdr_at(d, 0) {
          Header::Tag(_) => if tagged(d, 0, 2) || tagged(d, 0, 3) { str_err(e, tag_at(d, 0).data, 2) } else { wrong_tags(e, seq![2u64, 3u64], hv_val(tag_at(d, 0).tag) as u64) },
          _ => wrong_types(e, seq![Type::Positive, Type::Negative, Type::Tag], type_of(hdr_at(d, 0))),
      }
  }
  pub open spec fn den_err(e: ReaderError, d: Seq<u8>) -> bool {
      match hdr_at(d, 0) {
          Header::Tag(_) => tstr_err(e, d, 0, 2, 2),
          _ => wrong_types(e, seq![Type::Positive, Type::Tag], type_of(hdr_at(d, 0))),
      }
  }
  pub open spec fn rat_err(e: ReaderError, d: Seq<u8>, i: int) -> bool {
      if !(hd(d, i) is End && hdr_at(d, i) is Array && item(d, i) is End) { contcause(e, d, i, Type::Array) }
      else {
          let x = arr_at(d, i).elems;
          if x.len() != 2 { e == (ReaderError::WrongExpectedLength { expected: 2, got: x.len() as usize }) }
          else if !num_all(x[0]) { num_err(e, x[0]) } else { den_err(e, x[1]) }
      }
  }
  /// these bytes are exactly one text / bytes element
  pub open spec fn text_all(d: Seq<u8>) -> bool { hd(d, 0) is End && hdr_at(d, 0) is Text && ritem(d, 0) == R::End(d.len() as int) }
  pub open spec fn bytes_all(d: Seq<u8>) -> bool { hd(d, 0) is End && hdr_at(d, 0) is Bytes && item(d, 0) == R::End(d.len() as int) }
  pub proof fn lemma_whole()
      ensures forall|d: Seq<u8>, i: int, j: int, e: Seq<u8>| #[trigger] took(d, i, j, e) && i == 0 && j == d.len() ==> e == d
  {
      assert forall|d: Seq<u8>, i: int, j: int, e: Seq<u8>| #[trigger] took(d, i, j, e) && i == 0 && j == d.len() implies e == d by {
          assert(d.subrange(0, d.len() as int) =~= d); assert(e =~= d);
      }
  }
  pub proof fn lemma_ats()
      ensures
          forall|s: Seq<u8>, i: int, v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) ==> tag_at(s, i) == v,
          forall|s: Seq<u8>, i: int, v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) ==> arr_at(s, i) == v,
          forall|e: Seq<Seq<u8>>| e.len() == 2 ==> #[trigger] cat(e) == e[0] + e[1],
          forall|s: Seq<u8>, i: int| #![trigger hdr_at(s, i)] 0 <= i && hd(s, i) is End ==> match hdr_at(s, i) {
              Header::Positive(p) => took(s, i, eoi(hd(s, i)), hv_enc(0, p.0)) && hv_wf(p.0),
              Header::Negative(p) => took(s, i, eoi(hd(s, i)), hv_enc(1, p.0)) && hv_wf(p.0),
              _ => true,
          },
  {
      assert forall|s: Seq<u8>, i: int| #![trigger hdr_at(s, i)] 0 <= i && hd(s, i) is End implies match hdr_at(s, i) {
              Header::Positive(p) => took(s, i, eoi(hd(s, i)), hv_enc(0, p.0)) && hv_wf(p.0),
              Header::Negative(p) => took(s, i, eoi(hd(s, i)), hv_enc(1, p.0)) && hv_wf(p.0),
              _ => true,
          } by { lemma_dv_took(s, i); }
      assert forall|e: Seq<Seq<u8>>| e.len() == 2 implies #[trigger] cat(e) == e[0] + e[1] by {
          reveal_with_fuel(cat, 3); assert(e.drop_last().drop_last().len() == 0); assert(e.drop_last().last() == e[0]);
          assert(Seq::<u8>::empty() + e[0] =~= e[0]); }
      assert forall|s: Seq<u8>, i: int, v: TV| tv_wf(v) && #[trigger] at(s, i, tv_enc(v)) implies tag_at(s, i) == v by { lemma_tag_at(s, i); }
      assert forall|s: Seq<u8>, i: int, v: AV| av_wf(v) && #[trigger] at(s, i, av_enc(v)) implies arr_at(s, i) == v by { lemma_arr_at(s, i); }
  }
FN StandardDateTime::read
TAGS C17 C04
ENS [C23]
  r is Err ==> tstr_err(r->Err_0, old($p0).s(), old($p0).i(), 0, 3)
REQ
  old($p0).inv()
ENTRY
  proof { lemma_tag_at(reader.s(), reader.i()); lemma_whole(); }
CLOSURE 0
PARAMS |reader: &mut Reader<'a>|
CRET (q: Result<Text<'a>, ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Text, ritem(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> strcause(q->Err_0, old(reader).s(), old(reader).i(), 3)
CENS
  q is Ok ==> bv_wf(q->Ok_0.v()) && bv_utf8(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), bv_enc(3, q->Ok_0.v()))
ENS
  moved(*old($p0), *final($p0))
ENS
  r is Ok <==> tagged(old($p0).s(), old($p0).i(), 0) && text_all(tag_at(old($p0).s(), old($p0).i()).data)
ENS
  r is Ok ==> R::End(final($p0).i()) == item(old($p0).s(), old($p0).i()) && r->Ok_0.wf() && hv_val(r->Ok_0.0.0) == 0 && bv_utf8(r->Ok_0.1.v())
      && took(old($p0).s(), old($p0).i(), final($p0).i(), r->Ok_0.tenc())
IMPL Decode for StandardDateTime
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && tstr_err(e->ReaderError_0, s, i, 0, 3) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 0) && text_all(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v.wf() && took(s, i, eoi(item(s, i)), v.tenc()) }
FN Decode for StandardDateTime::decode
TAGS C17 C04
FN PositiveBignum::read
TAGS C17 C04
ENS [C23]
  r is Err ==> tstr_err(r->Err_0, old($p0).s(), old($p0).i(), 2, 2)
REQ
  old($p0).inv()
ENTRY
  proof { lemma_tag_at(reader.s(), reader.i()); lemma_whole(); }
CLOSURE 0
PARAMS |reader: &mut Reader<'a>|
CRET (q: Result<Bytes<'a>, ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Bytes, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> strcause(q->Err_0, old(reader).s(), old(reader).i(), 2)
CENS
  q is Ok ==> bv_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), bv_enc(2, q->Ok_0.v()))
ENS
  moved(*old($p0), *final($p0))
ENS
  r is Ok <==> tagged(old($p0).s(), old($p0).i(), 2) && bytes_all(tag_at(old($p0).s(), old($p0).i()).data)
ENS
  r is Ok ==> R::End(final($p0).i()) == item(old($p0).s(), old($p0).i()) && r->Ok_0.wf() && hv_val(r->Ok_0.0.0) == 2
      && took(old($p0).s(), old($p0).i(), final($p0).i(), r->Ok_0.tenc())
IMPL Decode for PositiveBignum
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && tstr_err(e->ReaderError_0, s, i, 2, 2) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 2) && bytes_all(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v.wf() && took(s, i, eoi(item(s, i)), v.tenc()) }
FN Decode for PositiveBignum::decode
TAGS C17 C04
FN NegativeBignum::read
TAGS C17 C04
ENS [C23]
  r is Err ==> tstr_err(r->Err_0, old($p0).s(), old($p0).i(), 3, 2)
REQ
  old($p0).inv()
ENTRY
  proof { lemma_tag_at(reader.s(), reader.i()); lemma_whole(); }
CLOSURE 0
PARAMS |reader: &mut Reader<'a>|
CRET (q: Result<Bytes<'a>, ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Bytes, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> strcause(q->Err_0, old(reader).s(), old(reader).i(), 2)
CENS
  q is Ok ==> bv_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), bv_enc(2, q->Ok_0.v()))
ENS
  moved(*old($p0), *final($p0))
ENS
  r is Ok <==> tagged(old($p0).s(), old($p0).i(), 3) && bytes_all(tag_at(old($p0).s(), old($p0).i()).data)
ENS
  r is Ok ==> R::End(final($p0).i()) == item(old($p0).s(), old($p0).i()) && r->Ok_0.wf() && hv_val(r->Ok_0.0.0) == 3
      && took(old($p0).s(), old($p0).i(), final($p0).i(), r->Ok_0.tenc())
IMPL Decode for NegativeBignum
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && tstr_err(e->ReaderError_0, s, i, 3, 2) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 3) && bytes_all(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v.wf() && took(s, i, eoi(item(s, i)), v.tenc()) }
FN Decode for NegativeBignum::decode
TAGS C17 C04
FN EncodedCBOR::read
TAGS C17 C04
ENS [C23]
  r is Err ==> tstr_err(r->Err_0, old($p0).s(), old($p0).i(), 24, 2)
REQ
  old($p0).inv()
ENTRY
  proof { lemma_tag_at(reader.s(), reader.i()); lemma_whole(); }
CLOSURE 0
PARAMS |reader: &mut Reader<'a>|
CRET (q: Result<Bytes<'a>, ReaderError>)
CREQ
  old(reader).inv()
CENS
  tread(*old(reader), *final(reader), q is Ok, hdr_at(old(reader).s(), old(reader).i()) is Bytes, item(old(reader).s(), old(reader).i()))
CENS [C23]
  q is Err ==> strcause(q->Err_0, old(reader).s(), old(reader).i(), 2)
CENS
  q is Ok ==> bv_wf(q->Ok_0.v()) && took(old(reader).s(), old(reader).i(), final(reader).i(), bv_enc(2, q->Ok_0.v()))
ENS
  moved(*old($p0), *final($p0))
ENS
  r is Ok <==> tagged(old($p0).s(), old($p0).i(), 24) && bytes_all(tag_at(old($p0).s(), old($p0).i()).data)
ENS
  r is Ok ==> R::End(final($p0).i()) == item(old($p0).s(), old($p0).i()) && r->Ok_0.wf() && hv_val(r->Ok_0.0.0) == 24
      && took(old($p0).s(), old($p0).i(), final($p0).i(), r->Ok_0.tenc())
IMPL Decode for EncodedCBOR
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && tstr_err(e->ReaderError_0, s, i, 24, 2) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 24) && bytes_all(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v.wf() && took(s, i, eoi(item(s, i)), v.tenc()) }
FN Decode for EncodedCBOR::decode
TAGS C17 C04
PRELUDE
  pub open spec fn num_all(e: Seq<u8>) -> bool {
      item(e, 0) == R::End(e.len() as int) && match hdr_at(e, 0) {
          Header::Positive(_) => true,
          Header::Negative(_) => true,
          Header::Tag(_) => (tagged(e, 0, 2) || tagged(e, 0, 3)) && bytes_all(tag_at(e, 0).data),
          _ => false,
      }
  }
  pub open spec fn den_all(e: Seq<u8>) -> bool {
      item(e, 0) == R::End(e.len() as int) && match hdr_at(e, 0) {
          Header::Positive(_) => true,
          Header::Tag(_) => tagged(e, 0, 2) && bytes_all(tag_at(e, 0).data),
          _ => false,
      }
  }
  /// the contents of a rational: an array of a numerator and a denominator
  pub open spec fn rat_at(d: Seq<u8>, i: int) -> bool {
      hd(d, i) is End && hdr_at(d, i) is Array && item(d, i) is End && arr_at(d, i).elems.len() == 2
      && num_all(arr_at(d, i).elems[0]) && den_all(arr_at(d, i).elems[1])
  }
  pub open spec fn rat_all(d: Seq<u8>) -> bool { rat_at(d, 0) && item(d, 0) == R::End(d.len() as int) }
FN RationalNumber::read
ATTR #[verifier::rlimit(300)]
TAGS C17 C04
ENS [C23]
  r is Err ==> (if tagged(old($p0).s(), old($p0).i(), 30) { let d = tag_at(old($p0).s(), old($p0).i()).data; if rat_at(d, 0) { left_err(r->Err_0, d, eoi(item(d, 0))) } else { rat_err(r->Err_0, d, 0) } } else { tag_err(r->Err_0, old($p0).s(), old($p0).i(), 30) })
REQ
  old($p0).inv()
ENTRY
  proof { lemma_ats(); lemma_whole(); }
CLOSURE 0
PARAMS |reader: &mut Reader<'a>|
CRET (q: Result<RationalNumber, ReaderError>)
CREQ
  old(reader).inv()
CENS
  moved(*old(reader), *final(reader))
CENS [C23]
  q is Err ==> rat_err(q->Err_0, old(reader).s(), old(reader).i())
CENS
  q is Ok <==> rat_at(old(reader).s(), old(reader).i())
CENS
  q is Ok ==> R::End(final(reader).i()) == item(old(reader).s(), old(reader).i()) && q->Ok_0.wf() && q->Ok_0.tag.0 == tag.v().tag
      && took(old(reader).s(), old(reader).i(), final(reader).i(), q->Ok_0.body())
ENS
  moved(*old($p0), *final($p0))
ENS
  r is Ok <==> tagged(old($p0).s(), old($p0).i(), 30) && rat_all(tag_at(old($p0).s(), old($p0).i()).data)
ENS
  r is Ok ==> R::End(final($p0).i()) == item(old($p0).s(), old($p0).i()) && r->Ok_0.wf() && hv_val(r->Ok_0.tag.0) == 30
      && took(old($p0).s(), old($p0).i(), final($p0).i(), r->Ok_0.tenc())
IMPL Decode for RationalNumber
  open spec fn dec_err(s: Seq<u8>, i: int, e: DecodeErrorKind) -> bool { e is ReaderError && (if tagged(s, i, 30) { let d = tag_at(s, i).data; if rat_at(d, 0) { left_err(e->ReaderError_0, d, eoi(item(d, 0))) } else { rat_err(e->ReaderError_0, d, 0) } } else { tag_err(e->ReaderError_0, s, i, 30) }) }
  open spec fn dec_ctx(c: Seq<Seq<char>>) -> bool { c == seq![name_of::<Self>()] }
  open spec fn dec_ok(s: Seq<u8>, i: int) -> bool { tagged(s, i, 30) && rat_all(tag_at(s, i).data) }
  open spec fn dec_end(s: Seq<u8>, i: int) -> int { eoi(item(s, i)) }
  open spec fn dec_rel(s: Seq<u8>, i: int, v: Self) -> bool { v.wf() && took(s, i, eoi(item(s, i)), v.tenc()) }
FN Decode for RationalNumber::decode
TAGS C17 C04
