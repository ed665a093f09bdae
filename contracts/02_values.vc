# Element values as mathematical objects, their RFC 8949 encodings, and the theorems
# linking encodings to the grammar.
FILE @crate
PRELUDE
  pub mod vals_ {
  use vstd::prelude::*;
  use crate::spec_::*;
  use crate::lemmas_::*;
  use crate::names_::*;
  use crate::lowlevel::header::*;
  use crate::types::float::Float;
  use crate::types::scalar::*;
  use crate::types::structure::StructureLength;
  verus! {
  // ---------------------------------------------------------------- value views
  /// content of a bytes or text element: (kept argument width, bytes) per chunk
  #[verifier::ext_equal]
  pub struct Chunk { pub h: HeaderValue, pub d: Seq<u8> }
  #[verifier::ext_equal]
  pub enum BV { Imm(Chunk), Chunks(Seq<Chunk>) }
  #[verifier::ext_equal]
  pub struct AV { pub len: StructureLength, pub elems: Seq<Seq<u8>> }
  #[verifier::ext_equal]
  pub struct MV { pub len: StructureLength, pub elems: Seq<(Seq<u8>, Seq<u8>)> }
  #[verifier::ext_equal]
  pub struct TV { pub tag: HeaderValue, pub data: Seq<u8> }
  #[verifier::ext_equal]
  pub enum DV {
      Positive(HeaderValue), Negative(HeaderValue), Float(Float), Byte(HeaderValue8),
      Bytes(BV), Text(BV), Array(AV), Map(MV), Tag(TV), True, False, Null, Undefined,
  }
  // ---------------------------------------------------------------- encodings
  pub open spec fn lead(m: int, a: int) -> u8 { (m * 32 + a) as u8 }
  pub open spec fn hv_enc(m: int, v: HeaderValue) -> Seq<u8> {
      match v {
          HeaderValue::Imm(x) => seq![lead(m, x as int)],
          HeaderValue::U8(x) => seq![lead(m, 24)] + be_seq(x as int, 1),
          HeaderValue::U16(x) => seq![lead(m, 25)] + be_seq(x as int, 2),
          HeaderValue::U32(x) => seq![lead(m, 26)] + be_seq(x as int, 4),
          HeaderValue::U64(x) => seq![lead(m, 27)] + be_seq(x as int, 8),
      }
  }
  pub open spec fn sl_enc(m: int, l: StructureLength) -> Seq<u8> {
      match l { StructureLength::Indefinite => seq![lead(m, 31)], StructureLength::Definite(h) => hv_enc(m, h) }
  }
  pub open spec fn sl_brk(l: StructureLength) -> Seq<u8> {
      match l { StructureLength::Indefinite => seq![0xffu8], StructureLength::Definite(h) => Seq::empty() }
  }
  pub open spec fn chunk_enc(m: int, c: Chunk) -> Seq<u8> { hv_enc(m, c.h) + c.d }
  pub open spec fn chunks_body(m: int, c: Seq<Chunk>) -> Seq<u8>
      decreases c.len()
  {
      if c.len() == 0 { Seq::empty() } else { chunks_body(m, c.drop_last()) + chunk_enc(m, c.last()) }
  }
  pub open spec fn bv_enc(m: int, v: BV) -> Seq<u8> {
      match v {
          BV::Imm(c) => chunk_enc(m, c),
          BV::Chunks(c) => seq![lead(m, 31)] + chunks_body(m, c) + seq![0xffu8],
      }
  }
  pub open spec fn cat(e: Seq<Seq<u8>>) -> Seq<u8>
      decreases e.len()
  {
      if e.len() == 0 { Seq::empty() } else { cat(e.drop_last()) + e.last() }
  }
  pub open spec fn catp(e: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8>
      decreases e.len()
  {
      if e.len() == 0 { Seq::empty() } else { catp(e.drop_last()) + e.last().0 + e.last().1 }
  }
  pub open spec fn av_enc(v: AV) -> Seq<u8> { sl_enc(4, v.len) + cat(v.elems) + sl_brk(v.len) }
  pub open spec fn mv_enc(v: MV) -> Seq<u8> { sl_enc(5, v.len) + catp(v.elems) + sl_brk(v.len) }
  pub open spec fn tv_enc(v: TV) -> Seq<u8> { hv_enc(6, v.tag) + v.data }
  pub open spec fn byte_enc(v: HeaderValue8) -> Seq<u8> {
      match v { HeaderValue8::Imm(x) => seq![lead(7, x as int)], HeaderValue8::U8(x) => seq![0xf8u8, x] }
  }
  pub open spec fn float_enc(v: Float) -> Seq<u8> {
      match v {
          Float::FP16(x) => seq![0xf9u8] + be_seq(x as int, 2),
          Float::FP32(x) => seq![0xfau8] + be_seq(x as int, 4),
          Float::FP64(x) => seq![0xfbu8] + be_seq(x as int, 8),
      }
  }
  pub open spec fn const_byte(v: Constant) -> u8 {
      match v { Constant::False => 0xf4, Constant::True => 0xf5, Constant::Null => 0xf6, Constant::Undefined => 0xf7 }
  }
  pub open spec fn dv_enc(v: DV) -> Seq<u8> {
      match v {
          DV::Positive(h) => hv_enc(0, h), DV::Negative(h) => hv_enc(1, h),
          DV::Float(f) => float_enc(f), DV::Byte(b) => byte_enc(b),
          DV::Bytes(b) => bv_enc(2, b), DV::Text(b) => bv_enc(3, b),
          DV::Array(a) => av_enc(a), DV::Map(a) => mv_enc(a), DV::Tag(t) => tv_enc(t),
          DV::True => seq![0xf5u8], DV::False => seq![0xf4u8], DV::Null => seq![0xf6u8], DV::Undefined => seq![0xf7u8],
      }
  }
  // ---------------------------------------------------------------- well-formed values
  pub open spec fn chunk_wf(c: Chunk) -> bool { hv_wf(c.h) && hv_val(c.h) == c.d.len() }
  pub open spec fn bv_wf(v: BV) -> bool {
      match v { BV::Imm(c) => chunk_wf(c), BV::Chunks(c) => forall|k: int| 0 <= k < c.len() ==> chunk_wf(#[trigger] c[k]) }
  }
  pub open spec fn bv_utf8(v: BV) -> bool {
      match v { BV::Imm(c) => valid_utf8(c.d), BV::Chunks(c) => forall|k: int| 0 <= k < c.len() ==> valid_utf8((#[trigger] c[k]).d) }
  }
  /// exactly one well-formed item
  pub open spec fn one(e: Seq<u8>) -> bool { item(e, 0) == R::End(e.len() as int) }
  pub open spec fn sl_wf(l: StructureLength, n: int) -> bool {
      match l { StructureLength::Indefinite => true, StructureLength::Definite(h) => hv_wf(h) && hv_val(h) == n }
  }
  pub open spec fn av_wf(v: AV) -> bool {
      sl_wf(v.len, v.elems.len() as int) && forall|k: int| 0 <= k < v.elems.len() ==> one(#[trigger] v.elems[k])
  }
  pub open spec fn mv_wf(v: MV) -> bool {
      sl_wf(v.len, v.elems.len() as int) && forall|k: int| 0 <= k < v.elems.len() ==> one((#[trigger] v.elems[k]).0) && one(v.elems[k].1)
  }
  pub open spec fn tv_wf(v: TV) -> bool { hv_wf(v.tag) && one(v.data) }
  pub open spec fn dv_wf(v: DV) -> bool {
      match v {
          DV::Positive(h) => hv_wf(h), DV::Negative(h) => hv_wf(h), DV::Byte(b) => hv8_wf(b),
          DV::Bytes(b) => bv_wf(b), DV::Text(b) => bv_wf(b) && bv_utf8(b),
          DV::Array(a) => av_wf(a), DV::Map(a) => mv_wf(a), DV::Tag(t) => tv_wf(t), _ => true,
      }
  }
  // ---------------------------------------------------------------- contents
  pub open spec fn concat(c: Seq<Chunk>) -> Seq<u8>
      decreases c.len()
  {
      if c.len() == 0 { Seq::empty() } else { concat(c.drop_last()) + c.last().d }
  }
  pub open spec fn bv_bytes(v: BV) -> Seq<u8> {
      match v { BV::Imm(c) => c.d, BV::Chunks(c) => concat(c) }
  }

  // ---------------------------------------------------------------- lemmas: arguments
  pub open spec fn p256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * p256(n - 1) } }
  pub proof fn lemma_be_seq_len(v: int, n: int)
      requires n >= 0
      ensures be_seq(v, n).len() == n
      decreases n
  { if n > 0 { lemma_be_seq_len(v / 256, n - 1); } }
  pub proof fn lemma_p256()
      ensures p256(0) == 1, p256(1) == 0x100, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000, p256(8) == 0x1_0000_0000_0000_0000,
  { reveal_with_fuel(p256, 10); }
  /// the bytes of v found at i read back as v
  pub proof fn lemma_be_of_seq(v: int, n: int, s: Seq<u8>, i: int)
      requires 0 <= n, 0 <= i, i + n <= s.len(), 0 <= v < p256(n), forall|x: int| 0 <= x < n ==> #[trigger] s[i + x] == be_seq(v, n)[x],
      ensures be(s, i, n) == v
      decreases n
  {
      lemma_be_seq_len(v, n);
      if n > 0 {
          lemma_be_seq_len(v / 256, n - 1);
          assert(0 <= v / 256 < p256(n - 1)) by (nonlinear_arith) requires 0 <= v < p256(n), p256(n) == 256 * p256(n - 1);
          assert forall|x: int| 0 <= x < n - 1 implies #[trigger] s[i + x] == be_seq(v / 256, n - 1)[x] by {
              assert(be_seq(v, n)[x] == be_seq(v / 256, n - 1)[x]);
          }
          lemma_be_of_seq(v / 256, n - 1, s, i);
          assert(s[i + (n - 1)] == be_seq(v, n)[n - 1]);
          assert(0 <= v % 256 < 256);
          assert((v / 256) * 256 + v % 256 == v);
      }
  }
  /// the bytes read give the same bytes again
  pub proof fn lemma_seq_of_be(s: Seq<u8>, i: int, n: int)
      requires 0 <= n, 0 <= i, i + n <= s.len()
      ensures be_seq(be(s, i, n), n) =~= s.subrange(i, i + n), 0 <= be(s, i, n) < p256(n)
      decreases n
  {
      if n > 0 {
          lemma_seq_of_be(s, i, n - 1);
          let h = be(s, i, n - 1);
          let l = s[i + n - 1] as int;
          assert((h * 256 + l) / 256 == h && (h * 256 + l) % 256 == l) by (nonlinear_arith) requires 0 <= l < 256, 0 <= h;
          assert(s.subrange(i, i + n) =~= s.subrange(i, i + n - 1).push(s[i + n - 1]));
      }
  }
  /// t is found in s at i
  pub open spec fn at(s: Seq<u8>, i: int, t: Seq<u8>) -> bool {
      0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t
  }
  pub proof fn lemma_at(s: Seq<u8>, i: int, a: Seq<u8>, b: Seq<u8>)
      ensures at(s, i, a + b) <==> at(s, i, a) && at(s, i + a.len(), b),
  {
      if at(s, i, a + b) {
          let n = a.len() as int;
          let t = a + b;
          assert(t.subrange(0, n) =~= a);
          assert(t.subrange(n, t.len() as int) =~= b);
          assert(s.subrange(i, i + n) =~= s.subrange(i, i + t.len()).subrange(0, n));
          assert(s.subrange(i + n, i + n + b.len()) =~= s.subrange(i, i + t.len()).subrange(n, t.len() as int));
      }
      if at(s, i, a) && at(s, i + a.len(), b) {
          assert(s.subrange(i, i + a.len() + b.len()) =~= s.subrange(i, i + a.len()) + s.subrange(i + a.len(), i + a.len() + b.len()));
      }
  }
  pub proof fn lemma_at_byte(s: Seq<u8>, i: int, b: u8)
      ensures at(s, i, seq![b]) <==> 0 <= i < s.len() && s[i] == b,
  {
      if at(s, i, seq![b]) { assert(s.subrange(i, i + 1)[0] == b); }
      if 0 <= i < s.len() && s[i] == b { assert(s.subrange(i, i + 1) =~= seq![b]); }
  }
  pub proof fn lemma_at_agree(s: Seq<u8>, i: int, t: Seq<u8>)
      requires at(s, i, t)
      ensures agree(t, 0, s, i, t.len() as int),
  {
      assert forall|x: int| 0 <= x < t.len() implies #[trigger] t[x] == s[x - 0 + i] by {
          assert(s.subrange(i, i + t.len())[x] == t[x]);
      }
  }
  pub proof fn lemma_hv_enc_len(m: int, v: HeaderValue)
      ensures hv_enc(m, v).len() == hv_len(v), hv_enc(m, v).len() >= 1,
  {
      match v {
          HeaderValue::Imm(x) => {}
          HeaderValue::U8(x) => { lemma_be_seq_len(x as int, 1); }
          HeaderValue::U16(x) => { lemma_be_seq_len(x as int, 2); }
          HeaderValue::U32(x) => { lemma_be_seq_len(x as int, 4); }
          HeaderValue::U64(x) => { lemma_be_seq_len(x as int, 8); }
      }
  }
  proof fn lemma_arg_at(s: Seq<u8>, i: int, b: u8, v: int, n: int)
      requires at(s, i, seq![b] + be_seq(v, n)), 0 <= n, 0 <= v < p256(n)
      ensures s[i] == b, i + 1 + n <= s.len(), be(s, i + 1, n) == v
  {
      lemma_be_seq_len(v, n);
      lemma_at(s, i, seq![b], be_seq(v, n));
      lemma_at_byte(s, i, b);
      lemma_at_agree(s, i + 1, be_seq(v, n));
      assert forall|x: int| 0 <= x < n implies #[trigger] s[i + 1 + x] == be_seq(v, n)[x] by {
          assert(be_seq(v, n)[x] == s[x - 0 + (i + 1)]);
      }
      lemma_be_of_seq(v, n, s, i + 1);
  }
  /// an encoded header is found as that header
  pub proof fn lemma_hv_at(s: Seq<u8>, i: int, m: int, v: HeaderValue)
      requires 0 <= m <= 6, hv_wf(v), at(s, i, hv_enc(m, v))
      ensures hd(s, i) == R::End(i + hv_len(v)), major(s[i]) == m, ai(s[i]) != 31, hv(s, i) == v, arg(s, i) == hv_val(v), hv_enc(m, v).len() == hv_len(v),
          s[i] != 0xff, i < s.len(),
  {
      lemma_p256();
      lemma_hv_enc_len(m, v);
      match v {
          HeaderValue::Imm(x) => { lemma_at_byte(s, i, lead(m, x as int)); }
          HeaderValue::U8(x) => { lemma_arg_at(s, i, lead(m, 24), x as int, 1); }
          HeaderValue::U16(x) => { lemma_arg_at(s, i, lead(m, 25), x as int, 2); }
          HeaderValue::U32(x) => { lemma_arg_at(s, i, lead(m, 26), x as int, 4); }
          HeaderValue::U64(x) => { lemma_arg_at(s, i, lead(m, 27), x as int, 8); }
      }
      lemma_hv(s, i);
  }
  proof fn lemma_at_arg(s: Seq<u8>, i: int, n: int)
      requires 0 <= i, 0 <= n, i + 1 + n <= s.len()
      ensures at(s, i, seq![s[i]] + be_seq(be(s, i + 1, n), n)), 0 <= be(s, i + 1, n) < p256(n),
          (seq![s[i]] + be_seq(be(s, i + 1, n), n)).len() == 1 + n,
  {
      lemma_seq_of_be(s, i + 1, n);
      lemma_be_seq_len(be(s, i + 1, n), n);
      assert(s.subrange(i, i + 1 + n) =~= seq![s[i]] + s.subrange(i + 1, i + 1 + n));
  }
  /// the header found is encoded as it was found
  pub proof fn lemma_at_hv(s: Seq<u8>, i: int)
      requires 0 <= i, hd(s, i) is End, ai(s[i]) != 31, major(s[i]) <= 6
      ensures at(s, i, hv_enc(major(s[i]), hv(s, i))), hv_wf(hv(s, i)), hv_val(hv(s, i)) == arg(s, i),
          hv_enc(major(s[i]), hv(s, i)).len() == hd(s, i)->End_0 - i,
          hv_len(hv(s, i)) == hd(s, i)->End_0 - i,
  {
      lemma_p256();
      lemma_hv(s, i);
      let m = major(s[i]);
      assert(s[i] == lead(m, ai(s[i])));
      lemma_at_arg(s, i, extra(s[i]));
      lemma_hv_enc_len(m, hv(s, i));
      if extra(s[i]) == 0 { lemma_at_byte(s, i, s[i]); }
  }
  pub proof fn lemma_float_at(s: Seq<u8>, i: int, f: Float)
      requires at(s, i, float_enc(f))
      ensures hd(s, i) == R::End(i + float_enc(f).len()), hdr_at(s, i) == Header::Float(f), i < s.len(),
  {
      lemma_p256();
      match f {
          Float::FP16(x) => { lemma_be_seq_len(x as int, 2); lemma_arg_at(s, i, 0xf9, x as int, 2); }
          Float::FP32(x) => { lemma_be_seq_len(x as int, 4); lemma_arg_at(s, i, 0xfa, x as int, 4); }
          Float::FP64(x) => { lemma_be_seq_len(x as int, 8); lemma_arg_at(s, i, 0xfb, x as int, 8); }
      }
  }
  pub proof fn lemma_at_float(s: Seq<u8>, i: int)
      requires 0 <= i, hd(s, i) is End, hdr_at(s, i) is Float
      ensures at(s, i, float_enc(hdr_at(s, i)->Float_0)), float_enc(hdr_at(s, i)->Float_0).len() == hd(s, i)->End_0 - i,
  {
      lemma_p256();
      lemma_at_arg(s, i, extra(s[i]));
  }
  pub proof fn lemma_byte_at(s: Seq<u8>, i: int, b: HeaderValue8)
      requires at(s, i, byte_enc(b)), hv8_wf(b)
      ensures hd(s, i) == R::End(i + byte_enc(b).len()), hdr_at(s, i) == Header::Byte(Byte(b)), i < s.len(),
  {
      match b {
          HeaderValue8::Imm(x) => { lemma_at_byte(s, i, lead(7, x as int)); }
          HeaderValue8::U8(x) => {
              assert(s.subrange(i, i + 2)[0] == 0xf8u8);
              assert(s.subrange(i, i + 2)[1] == x);
              reveal_with_fuel(be, 3);
          }
      }
  }
  pub proof fn lemma_at_byte8(s: Seq<u8>, i: int)
      requires 0 <= i, hd(s, i) is End, hdr_at(s, i) is Byte
      ensures at(s, i, byte_enc(hdr_at(s, i)->Byte_0.0)), byte_enc(hdr_at(s, i)->Byte_0.0).len() == hd(s, i)->End_0 - i, hv8_wf(hdr_at(s, i)->Byte_0.0),
  {
      reveal_with_fuel(be, 3);
      if ai(s[i]) == 24 { assert(s.subrange(i, i + 2) =~= seq![s[i], s[i + 1]]); }
      else { lemma_at_byte(s, i, s[i]); }
  }
  // ---------------------------------------------------------------- lemmas: containers
  /// n elements, encoded one after the other at i, are n items
  pub proof fn lemma_cat_take(e: Seq<Seq<u8>>, k: int)
      requires 0 <= k < e.len()
      ensures cat(e.take(k + 1)) == cat(e.take(k)) + e[k]
  {
      assert(e.take(k + 1).drop_last() =~= e.take(k));
  }
  pub proof fn lemma_cat_split(e: Seq<Seq<u8>>, k: int)
      requires 0 <= k <= e.len()
      ensures cat(e) == cat(e.take(k)) + cat(e.skip(k))
      decreases e.len() - k
  {
      if k == e.len() { assert(e.take(k) =~= e); assert(e.skip(k) =~= Seq::<Seq<u8>>::empty()); assert(cat(e) =~= cat(e) + Seq::<u8>::empty()); }
      else {
          lemma_cat_split(e, k + 1);
          lemma_cat_take(e, k);
          lemma_cat_cons(e.skip(k));
          assert(e.skip(k).skip(1) =~= e.skip(k + 1));
          assert(cat(e) =~= cat(e.take(k)) + cat(e.skip(k)));
      }
  }
  pub proof fn lemma_cat_cons(e: Seq<Seq<u8>>)
      requires e.len() > 0
      ensures cat(e) == e[0] + cat(e.skip(1))
      decreases e.len()
  {
      if e.len() == 1 {
          assert(e.drop_last() =~= Seq::<Seq<u8>>::empty());
          assert(e.skip(1) =~= Seq::<Seq<u8>>::empty());
          assert(cat(e) =~= e[0] + cat(e.skip(1)));
      } else {
          lemma_cat_cons(e.drop_last());
          assert(e.drop_last().skip(1) =~= e.skip(1).drop_last());
          assert(cat(e) =~= e[0] + cat(e.skip(1)));
      }
  }
  proof fn lemma_one_at(s: Seq<u8>, i: int, e: Seq<u8>)
      requires at(s, i, e), one(e)
      ensures item(s, i) == R::End(i + e.len()), e.len() > 0,
  {
      lemma_item_end(e, 0);
      lemma_at_agree(s, i, e);
      lemma_item_agree(e, 0, s, i, e.len() as int);
  }
  pub proof fn lemma_items_at(s: Seq<u8>, i: int, e: Seq<Seq<u8>>)
      requires at(s, i, cat(e)), forall|k: int| 0 <= k < e.len() ==> one(#[trigger] e[k])
      ensures items(s, i, e.len() as int) == R::End(i + cat(e).len())
      decreases e.len()
  {
      if e.len() > 0 {
          lemma_cat_cons(e);
          lemma_at(s, i, e[0], cat(e.skip(1)));
          lemma_one_at(s, i, e[0]);
          lemma_items_at(s, i + e[0].len(), e.skip(1));
      }
  }
  pub proof fn lemma_until_at(s: Seq<u8>, i: int, e: Seq<Seq<u8>>)
      requires at(s, i, cat(e) + seq![0xffu8]), forall|k: int| 0 <= k < e.len() ==> one(#[trigger] e[k])
      ensures until_break(s, i) == R::End(i + cat(e).len() + 1)
      decreases e.len()
  {
      lemma_at(s, i, cat(e), seq![0xffu8]);
      lemma_at_byte(s, i + cat(e).len(), 0xff);
      if e.len() > 0 {
          lemma_cat_cons(e);
          lemma_at(s, i, e[0], cat(e.skip(1)));
          lemma_one_at(s, i, e[0]);
          lemma_at(s, i + e[0].len(), cat(e.skip(1)), seq![0xffu8]);
          lemma_until_at(s, i + e[0].len(), e.skip(1));
      }
  }
  pub open spec fn flat(e: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<Seq<u8>> {
      Seq::new((2 * e.len()) as nat, |k: int| if k % 2 == 0 { e[k / 2].0 } else { e[k / 2].1 })
  }
  pub proof fn lemma_flat(e: Seq<(Seq<u8>, Seq<u8>)>)
      ensures cat(flat(e)) == catp(e)
      decreases e.len()
  {
      if e.len() > 0 {
          lemma_flat(e.drop_last());
          let f = flat(e);
          assert(f.drop_last().drop_last() =~= flat(e.drop_last()));
          assert(f.last() == e.last().1);
          assert(f.drop_last().last() == e.last().0);
          assert(cat(f) == cat(f.drop_last()) + f.last());
          assert(cat(f.drop_last()) == cat(f.drop_last().drop_last()) + f.drop_last().last());
      } else { assert(flat(e) =~= Seq::<Seq<u8>>::empty()); }
  }
  pub proof fn lemma_pairs_at(s: Seq<u8>, i: int, e: Seq<Seq<u8>>, val: bool)
      requires at(s, i, cat(e) + seq![0xffu8]), forall|k: int| 0 <= k < e.len() ==> one(#[trigger] e[k]),
          e.len() % 2 == (if val { 1int } else { 0int }),
      ensures pairs(s, i, val) == R::End(i + cat(e).len() + 1)
      decreases e.len()
  {
      lemma_at(s, i, cat(e), seq![0xffu8]);
      lemma_at_byte(s, i + cat(e).len(), 0xff);
      if e.len() > 0 {
          lemma_cat_cons(e);
          lemma_at(s, i, e[0], cat(e.skip(1)));
          lemma_one_at(s, i, e[0]);
          lemma_at(s, i + e[0].len(), cat(e.skip(1)), seq![0xffu8]);
          lemma_pairs_at(s, i + e[0].len(), e.skip(1), !val);
      }
  }
  pub proof fn lemma_chunks_cons(m: int, c: Seq<Chunk>)
      requires c.len() > 0
      ensures chunks_body(m, c) == chunk_enc(m, c[0]) + chunks_body(m, c.skip(1))
      decreases c.len()
  {
      if c.len() == 1 {
          assert(c.drop_last() =~= Seq::<Chunk>::empty());
          assert(c.skip(1) =~= Seq::<Chunk>::empty());
          assert(chunks_body(m, c) =~= chunk_enc(m, c[0]) + chunks_body(m, c.skip(1)));
      } else {
          lemma_chunks_cons(m, c.drop_last());
          assert(c.drop_last().skip(1) =~= c.skip(1).drop_last());
          assert(chunks_body(m, c) =~= chunk_enc(m, c[0]) + chunks_body(m, c.skip(1)));
      }
  }
  pub proof fn lemma_chunks_at(s: Seq<u8>, i: int, m: int, c: Seq<Chunk>)
      requires at(s, i, chunks_body(m, c) + seq![0xffu8]), 2 <= m <= 3, forall|k: int| 0 <= k < c.len() ==> chunk_wf(#[trigger] c[k])
      ensures chunks(s, i, m) == R::End(i + chunks_body(m, c).len() + 1),
          m == 3 && (forall|k: int| 0 <= k < c.len() ==> valid_utf8((#[trigger] c[k]).d)) ==> tchunks(s, i) == R::End(i + chunks_body(m, c).len() + 1),
      decreases c.len()
  {
      lemma_at(s, i, chunks_body(m, c), seq![0xffu8]);
      lemma_at_byte(s, i + chunks_body(m, c).len(), 0xff);
      if c.len() > 0 {
          lemma_chunks_cons(m, c);
          let e = chunk_enc(m, c[0]);
          lemma_at(s, i, e, chunks_body(m, c.skip(1)));
          lemma_at(s, i, hv_enc(m, c[0].h), c[0].d);
          lemma_hv_at(s, i, m, c[0].h);
          lemma_at(s, i + e.len(), chunks_body(m, c.skip(1)), seq![0xffu8]);
          lemma_chunks_at(s, i + e.len(), m, c.skip(1));
          assert(c[0] == c[0 as int]);
          assert(chunk_wf(c[0]));
          if m == 3 && (forall|k: int| 0 <= k < c.len() ==> valid_utf8((#[trigger] c[k]).d)) {
              assert(valid_utf8(c[0].d));
              assert forall|k: int| 0 <= k < c.skip(1).len() implies valid_utf8((#[trigger] c.skip(1)[k]).d) by { assert(c.skip(1)[k] == c[k + 1]); }
          }
      }
  }
  /// C07 (grammar side): an encoded well-formed value is one element, whatever follows
  pub proof fn lemma_dv_at(s: Seq<u8>, i: int, v: DV)
      requires at(s, i, dv_enc(v)), dv_wf(v)
      ensures ritem(s, i) == R::End(i + dv_enc(v).len()), item(s, i) == R::End(i + dv_enc(v).len()), 0 <= i < s.len(), dv_enc(v).len() > 0,
  {
      match v {
          DV::Positive(h) => { lemma_hv_at(s, i, 0, h); }
          DV::Negative(h) => { lemma_hv_at(s, i, 1, h); }
          DV::Float(f) => { lemma_float_at(s, i, f); }
          DV::Byte(b) => { lemma_byte_at(s, i, b); }
          DV::Bytes(b) => { lemma_bv_at(s, i, 2, b); }
          DV::Text(b) => { lemma_bv_at(s, i, 3, b); }
          DV::Array(a) => { lemma_av_at(s, i, a); }
          DV::Map(a) => { lemma_mv_at(s, i, a); }
          DV::Tag(t) => { lemma_tv_at(s, i, t); }
          DV::True => { lemma_at_byte(s, i, 0xf5); }
          DV::False => { lemma_at_byte(s, i, 0xf4); }
          DV::Null => { lemma_at_byte(s, i, 0xf6); }
          DV::Undefined => { lemma_at_byte(s, i, 0xf7); }
      }
      lemma_ritem(s, i);
  }
  pub proof fn lemma_bv_at(s: Seq<u8>, i: int, m: int, v: BV)
      requires at(s, i, bv_enc(m, v)), bv_wf(v), 2 <= m <= 3
      ensures item(s, i) == R::End(i + bv_enc(m, v).len()), 0 <= i < s.len(), major(s[i]) == m, bv_enc(m, v).len() > 0,
          m == 2 || bv_utf8(v) ==> ritem(s, i) == R::End(i + bv_enc(m, v).len()),
          v is Imm <==> ai(s[i]) != 31,
  {
      match v {
          BV::Imm(c) => {
              lemma_at(s, i, hv_enc(m, c.h), c.d);
              lemma_hv_at(s, i, m, c.h);
          }
          BV::Chunks(c) => {
              let b = chunks_body(m, c);
              let l = seq![lead(m, 31)];
              assert(l + b + seq![0xffu8] =~= l + (b + seq![0xffu8]));
              lemma_at(s, i, l, b + seq![0xffu8]);
              lemma_at_byte(s, i, lead(m, 31));
              lemma_chunks_at(s, i + 1, m, c);
          }
      }
  }
  pub proof fn lemma_av_at(s: Seq<u8>, i: int, v: AV)
      requires at(s, i, av_enc(v)), av_wf(v)
      ensures item(s, i) == R::End(i + av_enc(v).len()), 0 <= i < s.len(), major(s[i]) == 4, av_enc(v).len() > 0, ritem(s, i) == item(s, i),
  {
      let l = sl_enc(4, v.len);
      assert(l + cat(v.elems) + sl_brk(v.len) =~= l + (cat(v.elems) + sl_brk(v.len)));
      lemma_at(s, i, l, cat(v.elems) + sl_brk(v.len));
      match v.len {
          StructureLength::Indefinite => { lemma_at_byte(s, i, lead(4, 31)); lemma_until_at(s, i + 1, v.elems); }
          StructureLength::Definite(h) => {
              lemma_hv_at(s, i, 4, h);
              assert(cat(v.elems) + sl_brk(v.len) =~= cat(v.elems));
              lemma_items_at(s, i + hv_len(h), v.elems);
          }
      }
  }
  pub proof fn lemma_mv_at(s: Seq<u8>, i: int, v: MV)
      requires at(s, i, mv_enc(v)), mv_wf(v)
      ensures item(s, i) == R::End(i + mv_enc(v).len()), 0 <= i < s.len(), major(s[i]) == 5, mv_enc(v).len() > 0, ritem(s, i) == item(s, i),
  {
      let l = sl_enc(5, v.len);
      let f = flat(v.elems);
      lemma_flat(v.elems);
      assert forall|k: int| 0 <= k < f.len() implies one(#[trigger] f[k]) by { assert(one(v.elems[k / 2].0) && one(v.elems[k / 2].1)); }
      assert(l + catp(v.elems) + sl_brk(v.len) =~= l + (catp(v.elems) + sl_brk(v.len)));
      lemma_at(s, i, l, catp(v.elems) + sl_brk(v.len));
      match v.len {
          StructureLength::Indefinite => { lemma_at_byte(s, i, lead(5, 31)); lemma_pairs_at(s, i + 1, f, false); }
          StructureLength::Definite(h) => {
              lemma_hv_at(s, i, 5, h);
              assert(catp(v.elems) + sl_brk(v.len) =~= catp(v.elems));
              lemma_items_at(s, i + hv_len(h), f);
          }
      }
  }
  pub proof fn lemma_tv_at(s: Seq<u8>, i: int, v: TV)
      requires at(s, i, tv_enc(v)), tv_wf(v)
      ensures item(s, i) == R::End(i + tv_enc(v).len()), 0 <= i < s.len(), major(s[i]) == 6, tv_enc(v).len() > 0, ritem(s, i) == item(s, i),
  {
      lemma_at(s, i, hv_enc(6, v.tag), v.data);
      lemma_hv_at(s, i, 6, v.tag);
      lemma_one_at(s, i + hv_len(v.tag), v.data);
  }
  // ---------------------------------------------------------------- an encoding denotes one value
  /// the same place cannot hold two different lists of items
  pub proof fn lemma_cat_inj(s: Seq<u8>, i: int, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
      requires at(s, i, cat(a)), at(s, i, cat(b)), a.len() == b.len(),
          forall|k: int| 0 <= k < a.len() ==> one(#[trigger] a[k]), forall|k: int| 0 <= k < b.len() ==> one(#[trigger] b[k]),
      ensures a =~= b
      decreases a.len()
  {
      if a.len() > 0 {
          lemma_cat_cons(a); lemma_cat_cons(b);
          lemma_at(s, i, a[0], cat(a.skip(1)));
          lemma_at(s, i, b[0], cat(b.skip(1)));
          lemma_one_at(s, i, a[0]); lemma_one_at(s, i, b[0]);
          lemma_cat_inj(s, i + a[0].len(), a.skip(1), b.skip(1));
          assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { if k > 0 { assert(a[k] == a.skip(1)[k - 1]); assert(b[k] == b.skip(1)[k - 1]); } }
      }
  }
  /// same, up to a break
  pub proof fn lemma_until_inj(s: Seq<u8>, i: int, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
      requires at(s, i, cat(a) + seq![0xffu8]), at(s, i, cat(b) + seq![0xffu8]),
          forall|k: int| 0 <= k < a.len() ==> one(#[trigger] a[k]), forall|k: int| 0 <= k < b.len() ==> one(#[trigger] b[k]),
      ensures a =~= b
      decreases a.len()
  {
      lemma_at(s, i, cat(a), seq![0xffu8]); lemma_at(s, i, cat(b), seq![0xffu8]);
      lemma_at_byte(s, i + cat(a).len(), 0xff); lemma_at_byte(s, i + cat(b).len(), 0xff);
      if a.len() > 0 { lemma_cat_cons(a); lemma_at(s, i, a[0], cat(a.skip(1))); lemma_one_at(s, i, a[0]); lemma_item_end(s, i); assert(s[i] != 0xff); }
      if b.len() > 0 { lemma_cat_cons(b); lemma_at(s, i, b[0], cat(b.skip(1))); lemma_one_at(s, i, b[0]); lemma_item_end(s, i); assert(s[i] != 0xff); }
      if a.len() > 0 && b.len() > 0 {
          lemma_at(s, i + a[0].len(), cat(a.skip(1)), seq![0xffu8]);
          lemma_at(s, i + b[0].len(), cat(b.skip(1)), seq![0xffu8]);
          lemma_until_inj(s, i + a[0].len(), a.skip(1), b.skip(1));
          assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { if k > 0 { assert(a[k] == a.skip(1)[k - 1]); assert(b[k] == b.skip(1)[k - 1]); } }
          assert(a.len() == b.len());
      }
  }
  pub proof fn lemma_chunks_inj(s: Seq<u8>, i: int, m: int, a: Seq<Chunk>, b: Seq<Chunk>)
      requires at(s, i, chunks_body(m, a) + seq![0xffu8]), at(s, i, chunks_body(m, b) + seq![0xffu8]), 2 <= m <= 3,
          forall|k: int| 0 <= k < a.len() ==> chunk_wf(#[trigger] a[k]), forall|k: int| 0 <= k < b.len() ==> chunk_wf(#[trigger] b[k]),
      ensures a =~= b
      decreases a.len()
  {
      lemma_at(s, i, chunks_body(m, a), seq![0xffu8]); lemma_at(s, i, chunks_body(m, b), seq![0xffu8]);
      lemma_at_byte(s, i + chunks_body(m, a).len(), 0xff); lemma_at_byte(s, i + chunks_body(m, b).len(), 0xff);
      if a.len() > 0 {
          lemma_chunks_cons(m, a); lemma_at(s, i, chunk_enc(m, a[0]), chunks_body(m, a.skip(1)));
          lemma_at(s, i, hv_enc(m, a[0].h), a[0].d); lemma_hv_at(s, i, m, a[0].h);
      }
      if b.len() > 0 {
          lemma_chunks_cons(m, b); lemma_at(s, i, chunk_enc(m, b[0]), chunks_body(m, b.skip(1)));
          lemma_at(s, i, hv_enc(m, b[0].h), b[0].d); lemma_hv_at(s, i, m, b[0].h);
      }
      if a.len() > 0 && b.len() > 0 {
          assert(a[0].d == b[0].d);
          let n = chunk_enc(m, a[0]).len();
          lemma_at(s, i + n, chunks_body(m, a.skip(1)), seq![0xffu8]);
          lemma_at(s, i + n, chunks_body(m, b.skip(1)), seq![0xffu8]);
          lemma_chunks_inj(s, i + n, m, a.skip(1), b.skip(1));
          assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { if k > 0 { assert(a[k] == a.skip(1)[k - 1]); assert(b[k] == b.skip(1)[k - 1]); } }
          assert(a.len() == b.len());
      }
  }
  pub proof fn lemma_bv_inj(s: Seq<u8>, i: int, m: int, a: BV, b: BV)
      requires at(s, i, bv_enc(m, a)), at(s, i, bv_enc(m, b)), bv_wf(a), bv_wf(b), 2 <= m <= 3
      ensures a == b
  {
      lemma_bv_at(s, i, m, a); lemma_bv_at(s, i, m, b);
      match (a, b) {
          (BV::Imm(c), BV::Imm(d)) => {
              lemma_at(s, i, hv_enc(m, c.h), c.d); lemma_hv_at(s, i, m, c.h);
              lemma_at(s, i, hv_enc(m, d.h), d.d); lemma_hv_at(s, i, m, d.h);
          }
          (BV::Chunks(c), BV::Chunks(d)) => {
              let l = seq![lead(m, 31)];
              assert(l + chunks_body(m, c) + seq![0xffu8] =~= l + (chunks_body(m, c) + seq![0xffu8]));
              assert(l + chunks_body(m, d) + seq![0xffu8] =~= l + (chunks_body(m, d) + seq![0xffu8]));
              lemma_at(s, i, l, chunks_body(m, c) + seq![0xffu8]);
              lemma_at(s, i, l, chunks_body(m, d) + seq![0xffu8]);
              lemma_chunks_inj(s, i + 1, m, c, d);
          }
          _ => {}
      }
  }
  proof fn lemma_sl_inj(s: Seq<u8>, i: int, m: int, a: StructureLength, b: StructureLength, n: int, k: int)
      requires at(s, i, sl_enc(m, a)), at(s, i, sl_enc(m, b)), 4 <= m <= 5, sl_wf(a, n), sl_wf(b, k)
      ensures a == b, a is Definite ==> n == k
  {
      if a is Definite { lemma_hv_at(s, i, m, a->Definite_0); } else { lemma_at_byte(s, i, lead(m, 31)); }
      if b is Definite { lemma_hv_at(s, i, m, b->Definite_0); } else { lemma_at_byte(s, i, lead(m, 31)); }
  }
  pub proof fn lemma_av_inj(s: Seq<u8>, i: int, a: AV, b: AV)
      requires at(s, i, av_enc(a)), at(s, i, av_enc(b)), av_wf(a), av_wf(b)
      ensures a == b
  {
      let l = sl_enc(4, a.len);
      assert(av_enc(a) =~= l + (cat(a.elems) + sl_brk(a.len)));
      lemma_at(s, i, l, cat(a.elems) + sl_brk(a.len));
      let k = sl_enc(4, b.len);
      assert(av_enc(b) =~= k + (cat(b.elems) + sl_brk(b.len)));
      lemma_at(s, i, k, cat(b.elems) + sl_brk(b.len));
      lemma_sl_inj(s, i, 4, a.len, b.len, a.elems.len() as int, b.elems.len() as int);
      match a.len {
          StructureLength::Indefinite => { lemma_until_inj(s, i + 1, a.elems, b.elems); }
          StructureLength::Definite(h) => {
              assert(cat(a.elems) + sl_brk(a.len) =~= cat(a.elems));
              assert(cat(b.elems) + sl_brk(b.len) =~= cat(b.elems));
              lemma_cat_inj(s, i + l.len(), a.elems, b.elems);
          }
      }
  }
  proof fn lemma_flat_inj(a: Seq<(Seq<u8>, Seq<u8>)>, b: Seq<(Seq<u8>, Seq<u8>)>)
      requires flat(a) == flat(b)
      ensures a =~= b
  {
      assert(flat(a).len() == flat(b).len());
      assert(flat(a).len() == 2 * a.len() && flat(b).len() == 2 * b.len());
      assert(a.len() == b.len());
      assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
          assert((2 * k) % 2 == 0 && (2 * k) / 2 == k && (2 * k + 1) % 2 == 1 && (2 * k + 1) / 2 == k);
          assert(flat(a)[2 * k] == a[k].0 && flat(b)[2 * k] == b[k].0);
          assert(flat(a)[2 * k + 1] == a[k].1 && flat(b)[2 * k + 1] == b[k].1);
      }
  }
  pub proof fn lemma_mv_inj(s: Seq<u8>, i: int, a: MV, b: MV)
      requires at(s, i, mv_enc(a)), at(s, i, mv_enc(b)), mv_wf(a), mv_wf(b)
      ensures a == b
  {
      let l = sl_enc(5, a.len);
      let f = flat(a.elems); let g = flat(b.elems);
      lemma_flat(a.elems); lemma_flat(b.elems);
      assert forall|k: int| 0 <= k < f.len() implies one(#[trigger] f[k]) by { assert(one(a.elems[k / 2].0) && one(a.elems[k / 2].1)); }
      assert forall|k: int| 0 <= k < g.len() implies one(#[trigger] g[k]) by { assert(one(b.elems[k / 2].0) && one(b.elems[k / 2].1)); }
      assert(mv_enc(a) =~= l + (cat(f) + sl_brk(a.len)));
      lemma_at(s, i, l, cat(f) + sl_brk(a.len));
      let k = sl_enc(5, b.len);
      assert(mv_enc(b) =~= k + (cat(g) + sl_brk(b.len)));
      lemma_at(s, i, k, cat(g) + sl_brk(b.len));
      lemma_sl_inj(s, i, 5, a.len, b.len, a.elems.len() as int, b.elems.len() as int);
      match a.len {
          StructureLength::Indefinite => { lemma_until_inj(s, i + 1, f, g); }
          StructureLength::Definite(h) => {
              assert(cat(f) + sl_brk(a.len) =~= cat(f));
              assert(cat(g) + sl_brk(b.len) =~= cat(g));
              lemma_cat_inj(s, i + l.len(), f, g);
          }
      }
      lemma_flat_inj(a.elems, b.elems);
  }
  pub proof fn lemma_tv_inj(s: Seq<u8>, i: int, a: TV, b: TV)
      requires at(s, i, tv_enc(a)), at(s, i, tv_enc(b)), tv_wf(a), tv_wf(b)
      ensures a == b
  {
      lemma_at(s, i, hv_enc(6, a.tag), a.data); lemma_hv_at(s, i, 6, a.tag);
      lemma_at(s, i, hv_enc(6, b.tag), b.data); lemma_hv_at(s, i, 6, b.tag);
      lemma_one_at(s, i + hv_len(a.tag), a.data);
      lemma_one_at(s, i + hv_len(b.tag), b.data);
  }
  /// which kind of value starts at i
  pub open spec fn dv_major(v: DV) -> int {
      match v {
          DV::Positive(_) => 0, DV::Negative(_) => 1, DV::Bytes(_) => 2, DV::Text(_) => 3, DV::Array(_) => 4,
          DV::Map(_) => 5, DV::Tag(_) => 6, _ => 7,
      }
  }
  pub proof fn lemma_dv_major(s: Seq<u8>, i: int, v: DV)
      requires at(s, i, dv_enc(v)), dv_wf(v)
      ensures major(s[i]) == dv_major(v), hd(s, i) is End,
          v is Positive ==> hdr_at(s, i) == Header::Positive(Positive(v->Positive_0)),
          v is Negative ==> hdr_at(s, i) == Header::Negative(Negative(v->Negative_0)),
          v is Float ==> hdr_at(s, i) == Header::Float(v->Float_0),
          v is Byte ==> hdr_at(s, i) == Header::Byte(Byte(v->Byte_0)),
          v is True ==> hdr_at(s, i) == Header::Constant(Constant::True),
          v is False ==> hdr_at(s, i) == Header::Constant(Constant::False),
          v is Null ==> hdr_at(s, i) == Header::Constant(Constant::Null),
          v is Undefined ==> hdr_at(s, i) == Header::Constant(Constant::Undefined),
  {
      lemma_dv_at(s, i, v);
      lemma_item_end(s, i);
      match v {
          DV::Positive(h) => { lemma_hv_at(s, i, 0, h); }
          DV::Negative(h) => { lemma_hv_at(s, i, 1, h); }
          DV::Float(f) => { lemma_float_at(s, i, f); }
          DV::Byte(b) => { lemma_byte_at(s, i, b); }
          DV::Bytes(b) => { lemma_bv_at(s, i, 2, b); }
          DV::Text(b) => { lemma_bv_at(s, i, 3, b); }
          DV::Array(a) => { lemma_av_at(s, i, a); }
          DV::Map(a) => { lemma_mv_at(s, i, a); }
          DV::Tag(t) => { lemma_tv_at(s, i, t); }
          DV::True => { lemma_at_byte(s, i, 0xf5); }
          DV::False => { lemma_at_byte(s, i, 0xf4); }
          DV::Null => { lemma_at_byte(s, i, 0xf6); }
          DV::Undefined => { lemma_at_byte(s, i, 0xf7); }
      }
  }
  /// two well-formed values encoded at the same place are the same value
  pub proof fn lemma_dv_inj(s: Seq<u8>, i: int, a: DV, b: DV)
      requires at(s, i, dv_enc(a)), at(s, i, dv_enc(b)), dv_wf(a), dv_wf(b)
      ensures a == b
  {
      lemma_dv_major(s, i, a); lemma_dv_major(s, i, b);
      match (a, b) {
          (DV::Bytes(x), DV::Bytes(y)) => { lemma_bv_inj(s, i, 2, x, y); }
          (DV::Text(x), DV::Text(y)) => { lemma_bv_inj(s, i, 3, x, y); }
          (DV::Array(x), DV::Array(y)) => { lemma_av_inj(s, i, x, y); }
          (DV::Map(x), DV::Map(y)) => { lemma_mv_inj(s, i, x, y); }
          (DV::Tag(x), DV::Tag(y)) => { lemma_tv_inj(s, i, x, y); }
          _ => {}
      }
  }
  /// the content is no longer than the encoding
  pub proof fn lemma_concat_len(m: int, c: Seq<Chunk>)
      ensures concat(c).len() <= chunks_body(m, c).len()
      decreases c.len()
  { if c.len() > 0 { lemma_concat_len(m, c.drop_last()); } }
  pub proof fn lemma_bv_bytes_len(m: int, v: BV)
      ensures bv_bytes(v).len() <= bv_enc(m, v).len()
  { match v { BV::Imm(c) => {}, BV::Chunks(c) => { lemma_concat_len(m, c); } } }
  pub proof fn lemma_concat_take(c: Seq<Chunk>, k: int)
      requires 0 <= k < c.len()
      ensures concat(c.take(k + 1)) == concat(c.take(k)) + c[k].d, concat(c.take(k + 1)).len() <= concat(c).len(),
      decreases c.len()
  {
      assert(c.take(k + 1).drop_last() =~= c.take(k));
      if k + 1 < c.len() {
          lemma_concat_take(c.drop_last(), k);
          assert(c.drop_last().take(k + 1) =~= c.take(k + 1));
      } else { assert(c.take(k + 1) =~= c); }
  }
  }
  }
