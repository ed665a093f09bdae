# types: scalars, floats, bytes/text, containers
FILE types/scalar.rs
TAGS C11
PRELUDE
  /// trusted: i64::try_from(u64) succeeds exactly on the values i64 holds
  pub axiom fn ax_try_i64()
      ensures <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(),
          forall|x: u64| #![trigger <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(x)] ({
              let r = <i64 as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(x);
              (r is Ok <==> x <= i64::MAX) && (r is Ok ==> r->Ok_0 == x)
          });
FN Positive::raw_value
ENS
  r == self.0
FN Positive::to_u64
ENS
  r as int == hv_val(self.0)
FN Positive::canonical
TAGS C09 C10
ENS
  hv_val(r.0) == $p0 && hv_wf(r.0) && shortest(r.0)
FN Positive::is_canonical
TAGS C09
REQ
  hv_wf(self.0)
ENS
  r <==> shortest(self.0)
FN Negative::raw_value
ENS
  r == self.0
FN Negative::negative_u64
ENS
  r as int == hv_val(self.0)
FN Negative::to_i64
ENTRY
  proof { ax_try_i64(); }
CLOSURE 0
PARAMS |v: i64|
CRET (q: Option<i64>)
CENS
  q is Some <==> i64::MIN <= -1 - v <= i64::MAX
CENS
  q is Some ==> q->Some_0 == -1 - v
ENS
  r is Some <==> -1 - hv_val(self.0) >= i64::MIN
ENS
  r is Some ==> r->Some_0 as int == -1 - hv_val(self.0)
FN Negative::canonical
TAGS C09
ENS
  hv_val(r.0) == $p0 && hv_wf(r.0) && shortest(r.0)
FN Negative::is_canonical
TAGS C09
REQ
  hv_wf(self.0)
ENS
  r <==> shortest(self.0)
FN Scalar::is_positive
ENS
  r == (self is Positive)
FN Scalar::is_negative
ENS
  r == (self is Negative)
PRELUDE
  pub open spec fn sc_hv(s: Scalar) -> HeaderValue {
      match s { Scalar::Positive(p) => p.0, Scalar::Negative(n) => n.0 }
  }
  pub open spec fn sc_major(s: Scalar) -> int {
      match s { Scalar::Positive(_) => 0, Scalar::Negative(_) => 1 }
  }
  /// the integer a scalar denotes
  pub open spec fn sc_int(s: Scalar) -> int {
      match s { Scalar::Positive(p) => hv_val(p.0), Scalar::Negative(n) => -1 - hv_val(n.0) }
  }
FN Scalar::raw_value
ENS
  r == sc_hv(self)
FN Scalar::to_i64
ENTRY
  proof { ax_try_i64(); }
ENS
  r is Some <==> i64::MIN <= sc_int(self) <= i64::MAX
ENS
  r is Some ==> r->Some_0 as int == sc_int(self)
FN Scalar::canonical_positive
TAGS C09
ENS
  r is Positive && sc_int(r) == $p0 && hv_wf(sc_hv(r)) && shortest(sc_hv(r))
FN Scalar::canonical_negative
TAGS C09
ENS
  r is Negative && sc_int(r) == -1 - $p0 && hv_wf(sc_hv(r)) && shortest(sc_hv(r))
FN Scalar::is_canonical
TAGS C09
REQ
  hv_wf(sc_hv(*self))
ENS
  r <==> shortest(sc_hv(*self))
FN Byte::raw_value
ENS
  r == self.0
FN Byte::to_u8
ENS
  r as int == hv8_val(self.0)
FN Byte::canonical
TAGS C09
ENS
  hv8_val(r.0) == $p0 && hv8_wf(r.0) && shortest8(r.0)
FN Byte::is_canonical
TAGS C09
REQ
  hv8_wf(self.0)
ENS
  r <==> shortest8(self.0)

FILE types/float.rs
TAGS C12
PRELUDE
  use vstd::std_specs::bits::*;
  pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
  /// single-precision pattern r denotes the number half-precision pattern v denotes:
  /// (-1)^s * f * 2^-24 (subnormal), (-1)^s * (1 + f/2^10) * 2^(e-15) (normal), infinity, NaN
  pub open spec fn half_is(v: u16, r: u32) -> bool {
      let s = v as int / 0x8000; let e = (v as int / 0x400) % 32; let f = v as int % 0x400;
      let rs = r as int / 0x8000_0000; let re = (r as int / 0x80_0000) % 256; let rf = r as int % 0x80_0000;
      &&& e == 31 ==> re == 255 && (f == 0 <==> rf == 0)
      &&& e == 31 && f == 0 ==> rs == s
      &&& e < 31 ==> rs == s
      &&& 0 < e < 31 ==> re == e - 15 + 127 && rf == f * 0x2000
      &&& e == 0 && f == 0 ==> re == 0 && rf == 0
      // f * 2^-24 == (1 + rf / 2^23) * 2^(re - 127)
      &&& e == 0 && f > 0 ==> 103 <= re <= 254 && f * 0x80_0000 == (0x80_0000 + rf) * p2(re - 103)
  }
  /// double r denotes the number single x denotes (both as bit patterns)
  pub open spec fn wide_is(x: u32, r: u64) -> bool {
      let s = x as int / 0x8000_0000; let e = (x as int / 0x80_0000) % 256; let f = x as int % 0x80_0000;
      let rs = r as int / 0x8000_0000_0000_0000; let re = (r as int / 0x10_0000_0000_0000) % 2048; let rf = r as int % 0x10_0000_0000_0000;
      &&& e == 255 ==> re == 2047 && (f == 0 <==> rf == 0)
      &&& e == 255 && f == 0 ==> rs == s
      &&& e < 255 ==> rs == s
      &&& 0 < e < 255 ==> re == e - 127 + 1023 && rf == f * 0x2000_0000
      &&& e == 0 && f == 0 ==> re == 0 && rf == 0
      &&& e == 0 && f > 0 ==> 874 <= re <= 2046 && f * 0x10_0000_0000_0000 == (0x10_0000_0000_0000 + rf) * p2(re - 874)
  }
  /// trusted: the conversion of a single to a double (f64: From<f32>) is exact
  pub axiom fn ax_widen()
      ensures
          <f64 as vstd::std_specs::convert::FromSpec<f32>>::obeys_from_spec(),
          forall|x: f32| wide_is(x.to_bits_spec(), (#[trigger] <f64 as vstd::std_specs::convert::FromSpec<f32>>::from_spec(x)).to_bits_spec()),
  ;
  proof fn lemma_half(v: u16)
    ensures
     ((v & 0x8000) as u32) == (v as int / 0x8000) * 0x8000,
     (v & 0x7c00) as u32 == (v as int / 0x400) % 32 * 0x400,
     (v & 0x3ff) as u32 == v as int % 0x400,
     v & 0x7fff == 0 <==> (v & 0x3ff == 0 && v & 0x7c00 == 0),
     v & 0x7fff == 0 ==> half_is(v, (v as u32) << 16),
  {
     assert(v & 0x8000 == v / 0x8000 * 0x8000) by(bit_vector);
     assert(v & 0x7c00 == (v / 0x400) % 32 * 0x400) by(bit_vector);
     assert(v & 0x3ff == v % 0x400) by(bit_vector);
     assert(v & 0x7fff == 0 <==> (v & 0x3ff == 0 && v & 0x7c00 == 0)) by(bit_vector);
     let w = v as u32;
     assert(w == 0 || w == 0x8000 ==> (w << 16) == 0 || (w << 16) == 0x8000_0000u32) by(bit_vector);
     assert(w == 0 ==> (w << 16) == 0) by(bit_vector);
     assert(w == 0x8000 ==> (w << 16) == 0x8000_0000u32) by(bit_vector);
     assert(v & 0x7fff == 0 ==> v == 0 || v == 0x8000) by(bit_vector);
  }
  proof fn lemma_join(z: u32, x: u32, y: u32)
    requires z == 0 || z == 0x8000, x < 256, y < 0x80_0000
    ensures ({ let r = (z << 16) | (x << 23usize) | y; r as int == z as int * 0x1_0000 + x * 0x80_0000 + y
         && r as int / 0x8000_0000 == z as int / 0x8000 && (r as int / 0x80_0000) % 256 == x && r as int % 0x80_0000 == y  })
  {
     let r = (z << 16) | (x << 23usize) | y;
     assert(r == add(add(mul(z, 0x1_0000), mul(x, 0x80_0000)), y)) by(bit_vector) requires z == 0 || z == 0x8000, x < 256u32, y < 0x80_0000u32, r == (z << 16) | (x << 23usize) | y;
  }
  proof fn lemma_norm(f: u32)
    requires f < 0x400
    ensures (f << 13) == f * 0x2000, (f << 13) < 0x80_0000
  { assert((f << 13) == mul(f, 0x2000) && (f << 13) < 0x80_0000) by(bit_vector) requires f < 0x400; }
  proof fn lemma_exp(fe: u32)
    requires fe <= 0x7c00, fe % 0x400 == 0
    ensures (fe >> 10usize) == fe / 0x400, (fe >> 10usize) <= 31,
  { assert((fe >> 10usize) == fe / 0x400) by(bit_vector); }
  proof fn lemma_nan(z: u32, f: u32)
    requires z == 0 || z == 0x8000, f < 0x400
    ensures ({ let r = (z << 16) | 0x7F80_0000; r == z * 0x1_0000 + 0x7F80_0000 }),
      f > 0 ==> ({ let r = (z << 16) | 0x7FC0_0000 | (f << 13); (r as int / 0x80_0000) % 256 == 255 && r as int % 0x80_0000 != 0 }),
  {
    assert((z << 16) | 0x7F80_0000 == add(mul(z, 0x1_0000), 0x7F80_0000)) by(bit_vector) requires z == 0 || z == 0x8000;
    let r = (z << 16) | 0x7FC0_0000 | (f << 13);
    assert((r / 0x80_0000) % 256 == 255 && r % 0x80_0000 != 0) by(bit_vector) requires z == 0 || z == 0x8000, f < 0x400, r == (z << 16) | 0x7FC0_0000 | (f << 13);
  }
  proof fn lemma_sub(f: u32, lz: u32)
    requires 0 < f < 0x400, lz == u16_leading_zeros(f as u16)
    ensures 6 <= lz <= 15,
      ({ let e = (lz - 6) as u32; let y = (f << ((14 + e) as u32)) & 0x7f_ffff; y < 0x80_0000 && f * 0x80_0000 == (0x80_0000 + y) * p2(9 - e) }),
  {
     axiom_u16_leading_zeros(f as u16);
     let g = f as u16;
     let k = (16 - lz) as u16; 
     assert(lz < 16);
     assert(lz >= 6) by {
         let sh = (15 - lz) as u16;
         assert(g < 0x400 && sh > 9 ==> g >> sh == 0) by(bit_vector);
         if lz < 6 { assert((g >> sh) & 1u16 != 0); assert((0u16 & 1u16) == 0) by(bit_vector); }
     }
     let e = (lz - 6) as u32;
     let sh = (15 - lz) as u16;
     assert((g >> sh) & 1u16 != 0);
     assert(g >> k == 0);
     let y = (f << ((14 + e) as u32)) & 0x7f_ffff;
     let s2 = (14 + e) as u32;
     assert(y < 0x80_0000) by(bit_vector) requires y == (f << s2) & 0x7f_ffff;
     let h = f as u64;
     // f in [2^(9-e), 2^(10-e))
     let n = (9 - e) as u32;
     assert(f < (2u32 << n) && f >= (1u32 << n)) by(bit_vector) requires g == f as u16, f < 0x400, (g >> sh) & 1u16 != 0, g >> k == 0, sh == n as u16, k == (n + 1) as u16, n <= 9;
     assert(mul(add(0x80_0000u32, y) as u64, 1u64 << (n as u64)) == mul(f as u64, 0x80_0000u64)) by(bit_vector) requires
        y == (f << s2) & 0x7f_ffff, s2 == sub(23u32, n), n <= 9, f < (2u32 << n) , f >= (1u32 << n);
     assert((1u64 << (n as u64)) == p2(n as int)) by {
        reveal_with_fuel(p2, 11);
        assert(1u64 << 0u64 == 1 && 1u64 << 1u64 == 2 && 1u64 << 2u64 == 4 && 1u64 << 3u64 == 8 && 1u64 << 4u64 == 16 && 1u64 << 5u64 == 32 && 1u64 << 6u64 == 64 && 1u64 << 7u64 == 128 && 1u64 << 8u64 == 256 && 1u64 << 9u64 == 512) by(bit_vector);
        let q = n as u64;
        assert(n == 0 || n == 1 || n == 2 || n == 3 || n == 4 || n == 5 || n == 6 || n == 7 || n == 8 || n == 9);
     }
     let p = 1u64 << (n as u64);
     assert(p <= 512) by(bit_vector) requires p == 1u64 << (n as u64), n <= 9;
     assert((0x80_0000u32 + y) * p < 0x1_0000_0000_0000_0000) by(nonlinear_arith) requires y < 0x80_0000, 0 <= p <= 512;
  }
FN ieee754_u16_to_u32
ENTRY
    proof {
        lemma_half($p0);
        let z = ($p0 & 0x8000) as u32; let fe = ($p0 & 0x7c00) as u32; let f = ($p0 & 0x3ff) as u32;
        lemma_norm(f); lemma_nan(z, f); lemma_exp(fe);
        if 0 < fe < 0x7c00 { lemma_join(z, (fe / 0x400 + 112) as u32, f << 13); }
        if fe == 0 && f > 0 {
            let lz = u16_leading_zeros(f as u16);
            lemma_sub(f, lz);
            let e = (lz - 6) as u32;
            lemma_join(z, (112 - e) as u32, (f << ((14 + e) as u32)) & 0x7f_ffff);
        }
    }
ENS
  half_is($p0, r)
FN Float::to_f32
ENS
  match *self {
      Float::FP16(v) => half_is(v, r.to_bits_spec()),
      Float::FP32(v) => r.to_bits_spec() == v,
      Float::FP64(v) => true,
  }
FN Float::to_f64
ENTRY
  proof { ax_widen(); }
ENS
  match *self {
      Float::FP16(v) => exists|x: f32| half_is(v, x.to_bits_spec()) && wide_is(x.to_bits_spec(), r.to_bits_spec()),
      Float::FP32(v) => wide_is(v, r.to_bits_spec()),
      Float::FP64(v) => r.to_bits_spec() == v,
  }

FILE types/streamable.rs
TAGS C13 C14
PRELUDE
  impl<'a> BytesData<'a> { pub open spec fn v(&self) -> Chunk { Chunk { h: self.0, d: self.1@ } } }
  impl BytesDataOwned { pub open spec fn v(&self) -> Chunk { Chunk { h: self.0, d: self.1@ } } }
  impl<'a> TextData<'a> { pub open spec fn v(&self) -> Chunk { Chunk { h: self.0, d: encode_utf8(self.1@) } } }
  impl TextDataOwned { pub open spec fn v(&self) -> Chunk { Chunk { h: self.0, d: encode_utf8(self.1@) } } }
  pub open spec fn bds(c: Seq<BytesData<'_>>) -> Seq<Chunk> { Seq::new(c.len(), |k: int| c[k].v()) }
  pub open spec fn bdos(c: Seq<BytesDataOwned>) -> Seq<Chunk> { Seq::new(c.len(), |k: int| c[k].v()) }
  pub open spec fn tds(c: Seq<TextData<'_>>) -> Seq<Chunk> { Seq::new(c.len(), |k: int| c[k].v()) }
  pub open spec fn tdos(c: Seq<TextDataOwned>) -> Seq<Chunk> { Seq::new(c.len(), |k: int| c[k].v()) }
  impl<'a> Bytes<'a> {
      pub open spec fn v(&self) -> BV { match self { Bytes::Imm(c) => BV::Imm(c.v()), Bytes::Chunks(c) => BV::Chunks(bds(c@)) } }
  }
  impl BytesOwned {
      pub open spec fn v(&self) -> BV { match self { BytesOwned::Imm(c) => BV::Imm(c.v()), BytesOwned::Chunks(c) => BV::Chunks(bdos(c@)) } }
  }
  impl<'a> Text<'a> {
      pub open spec fn v(&self) -> BV { match self { Text::Imm(c) => BV::Imm(c.v()), Text::Chunks(c) => BV::Chunks(tds(c@)) } }
  }
  impl TextOwned {
      pub open spec fn v(&self) -> BV { match self { TextOwned::Imm(c) => BV::Imm(c.v()), TextOwned::Chunks(c) => BV::Chunks(tdos(c@)) } }
  }
  pub open spec fn cs_of<'a>(b: Bytes<'a>) -> Seq<Chunk> { match b { Bytes::Chunks(c) => bds(c@), _ => Seq::empty() } }
  pub open spec fn ts_of<'a>(b: Text<'a>) -> Seq<Chunk> { match b { Text::Chunks(c) => tds(c@), _ => Seq::empty() } }
FN Bytes::len
TAGS C13 C10
REQ
  bv_bytes(self.v()).len() <= usize::MAX
ENS
  r as int == bv_bytes(self.v()).len()
LOOP 100
INV
  acc__ as int == concat(cs_of(*self).take(fit.index@)).len()
INV
  fit.seq().len() == cs_of(*self).len() && forall|k: int| 0 <= k < cs_of(*self).len() ==> (#[trigger] fit.seq()[k]).v() == cs_of(*self)[k]
INV
  self is Chunks && concat(cs_of(*self)).len() <= usize::MAX
LSTART
  proof { lemma_concat_take(cs_of(*self), fit.index@); assert(fit.seq()[fit.index@].v() == cs_of(*self)[fit.index@]); }
LPRE
  proof { let c = cs_of(*self); assert(c.take(c.len() as int) =~= c); }
