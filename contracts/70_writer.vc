# the writer: every call appends exactly the encoding of its argument
FILE writer.rs
TAGS C08 C07
PRELUDE
  pub open spec fn lc_of(c: HeaderValue) -> Content {
      match c { HeaderValue::Imm(v) => Content::Imm(v), HeaderValue::U8(_) => Content::Indirect(IndirectLen::I1), HeaderValue::U16(_) => Content::Indirect(IndirectLen::I2), HeaderValue::U32(_) => Content::Indirect(IndirectLen::I4), HeaderValue::U64(_) => Content::Indirect(IndirectLen::I8) }
  }
  /// what the constructors of the crate guarantee of a value: immediate arguments are below 24 (20 for a byte),
  /// a bytes or text length is the length of the content
  pub open spec fn dv_writable(v: DV) -> bool {
      match v {
          DV::Positive(h) => hv_wf(h), DV::Negative(h) => hv_wf(h), DV::Byte(b) => hv8_wf(b),
          DV::Bytes(b) => bv_wf(b), DV::Text(b) => bv_wf(b),
          DV::Array(a) => a.len is Definite ==> hv_wf(a.len->Definite_0), DV::Map(a) => a.len is Definite ==> hv_wf(a.len->Definite_0), DV::Tag(t) => hv_wf(t.tag), _ => true,
      }
  }
  pub proof fn lemma_lead_or()
      ensures forall|h: u8, c: u8| h % 32 == 0 && c < 32 ==> #[trigger] (h | c) == h + c
  {
      assert(forall|h: u8, c: u8| h % 32 == 0 && c < 32 ==> #[trigger] (h | c) == add(h, c)) by(bit_vector);
  }
  pub proof fn lemma_be1()
      ensures forall|x: u8| #[trigger] be_seq(x as int, 1) =~= seq![x]
  {
      assert forall|x: u8| #[trigger] be_seq(x as int, 1) =~= seq![x] by { reveal_with_fuel(be_seq, 2); assert(be_seq(x as int / 256, 0) =~= Seq::empty()); }
  }
  pub proof fn lemma_cat_take(e: Seq<Seq<u8>>, k: int)
      requires 0 <= k < e.len()
      ensures cat(e.take(k + 1)) == cat(e.take(k)) + e[k]
  { assert(e.take(k + 1).drop_last() =~= e.take(k)); }
  pub proof fn lemma_catp_take(e: Seq<(Seq<u8>, Seq<u8>)>, k: int)
      requires 0 <= k < e.len()
      ensures catp(e.take(k + 1)) == catp(e.take(k)) + e[k].0 + e[k].1
  { assert(e.take(k + 1).drop_last() =~= e.take(k)); }
  pub proof fn lemma_body_take(m: int, e: Seq<Chunk>, k: int)
      requires 0 <= k < e.len()
      ensures chunks_body(m, e.take(k + 1)) == chunks_body(m, e.take(k)) + chunk_enc(m, e[k])
  { assert(e.take(k + 1).drop_last() =~= e.take(k)); }
FN Writer::new
ENS
  r.data@ =~= Seq::<u8>::empty()
FN Writer::new_from_vec
ENS
  r.data@ == data@
FN Writer::finalize_data
ENS
  r.0@ == self.data@
FN Writer::finalize
ENS
  r@ == self.data@
FN Writer::append_byte
ENS
  final(self).data@ == old(self).data@.push($p1)
FN Writer::append_slice
ENS
  final(self).data@ =~= old(self).data@ + $p1@
FN Writer::write_break
ENS
  final(self).data@ =~= old(self).data@ + seq![0xffu8]
FN Writer::write_value
TAGS C08 C07 C01
REQ
  hv_wf($p2)
ENTRY
  proof { lemma_lead_or(); lemma_be1(); }
ENS
  final(self).data@ =~= old(self).data@ + hv_enc($p1.num(), $p2)
FN Writer::write_value_stream
TAGS C08 C07 C01
REQ
  $p2 is Some ==> hv_wf($p2->Some_0)
ENTRY
  proof { lemma_lead_or(); lemma_be1(); }
CLOSURE 0
PARAMS |c: HeaderValue|
CRET (q: Content)
CENS
  q == lc_of(c)
ENS
  final(self).data@ =~= old(self).data@ + sl_enc($p1.num(), match $p2 { None => StructureLength::Indefinite, Some(h) => StructureLength::Definite(h) })
FN Writer::write_structure_length
TAGS C08 C07 C01
REQ
  $p2 is Definite ==> hv_wf($p2->Definite_0)
ENS
  final(self).data@ =~= old(self).data@ + sl_enc($p1.num(), $p2)
FN Writer::positive
REQ
  hv_wf($p1.0)
ENS
  final(self).data@ =~= old(self).data@ + hv_enc(0, $p1.0)
FN Writer::negative
REQ
  hv_wf($p1.0)
ENS
  final(self).data@ =~= old(self).data@ + hv_enc(1, $p1.0)
FN Writer::scalar
REQ
  match $p1 { Scalar::Positive(p) => hv_wf(p.0), Scalar::Negative(p) => hv_wf(p.0) }
ENS
  final(self).data@ =~= old(self).data@ + match $p1 { Scalar::Positive(p) => hv_enc(0, p.0), Scalar::Negative(p) => hv_enc(1, p.0) }
FN Writer::byte
TAGS C08 C07 C01 C09
REQ
  hv8_wf($p1.0)
ENS
  final(self).data@ =~= old(self).data@ + byte_enc($p1.0)
FN Writer::bytes
TAGS C08 C07 C01
REQ
  bv_wf($p1.v())
ENS
  final(self).data@ =~= old(self).data@ + bv_enc(2, $p1.v())
LOOP 0
ITER it
INV
  self.data@ =~= old(self).data@ + seq![lead(2, 31)] + chunks_body(2, cs_of(*d).take(it.index@))
INV
  it.seq().len() == cs_of(*d).len() && forall|k: int| 0 <= k < cs_of(*d).len() ==> (#[trigger] it.seq()[k]).v() == cs_of(*d)[k]
INV
  $p1 is Chunks && bv_wf($p1.v())
LSTART
  proof { lemma_body_take(2, cs_of(*d), it.index@); assert(0 <= it.index@ < cs_of(*d).len()); assert(it.seq()[it.index@].v() == cs_of(*d)[it.index@]); assert(d.v() is Chunks); assert(d.v()->Chunks_0 == cs_of(*d)); assert(chunk_wf(d.v()->Chunks_0[it.index@])); }
LPRE
  proof { let c = cs_of(*d); assert(c.take(c.len() as int) =~= c); assert(c.take(0) =~= Seq::empty()); }
FN Writer::text
TAGS C08 C07 C01
REQ
  bv_wf($p1.v())
ENS
  final(self).data@ =~= old(self).data@ + bv_enc(3, $p1.v())
LOOP 0
ITER it
INV
  self.data@ =~= old(self).data@ + seq![lead(3, 31)] + chunks_body(3, ts_of(*d).take(it.index@))
INV
  it.seq().len() == ts_of(*d).len() && forall|k: int| 0 <= k < ts_of(*d).len() ==> (#[trigger] it.seq()[k]).v() == ts_of(*d)[k]
INV
  $p1 is Chunks && bv_wf($p1.v())
LSTART
  proof { lemma_body_take(3, ts_of(*d), it.index@); assert(0 <= it.index@ < ts_of(*d).len()); assert(it.seq()[it.index@].v() == ts_of(*d)[it.index@]); assert(d.v() is Chunks); assert(d.v()->Chunks_0 == ts_of(*d)); assert(chunk_wf(d.v()->Chunks_0[it.index@])); }
LPRE
  proof { let c = ts_of(*d); assert(c.take(c.len() as int) =~= c); assert(c.take(0) =~= Seq::empty()); }
FN Writer::array
TAGS C08 C07 C01
REQ
  $p1.v().len is Definite ==> hv_wf($p1.v().len->Definite_0)
ENS
  final(self).data@ =~= old(self).data@ + av_enc($p1.v())
LOOP 0
ITER it
INV
  self.data@ =~= old(self).data@ + sl_enc(4, $p1.v().len) + cat($p1.v().elems.take(it.index@))
INV
  it.seq().len() == $p1.v().elems.len() && forall|k: int| 0 <= k < $p1.v().elems.len() ==> (#[trigger] it.seq()[k]).0@ == $p1.v().elems[k]
INV
  true
LSTART
  proof { lemma_cat_take($p1.v().elems, it.index@); assert(0 <= it.index@ < $p1.v().elems.len()); }
LPRE
  proof { let c = $p1.v().elems; assert(c.take(c.len() as int) =~= c); assert(c.take(0) =~= Seq::empty()); }
FN Writer::map
TAGS C08 C07 C01
REQ
  $p1.v().len is Definite ==> hv_wf($p1.v().len->Definite_0)
ENS
  final(self).data@ =~= old(self).data@ + mv_enc($p1.v())
LOOP 0
ITER it
INV
  self.data@ =~= old(self).data@ + sl_enc(5, $p1.v().len) + catp($p1.v().elems.take(it.index@))
INV
  it.seq().len() == $p1.v().elems.len() && forall|k: int| 0 <= k < $p1.v().elems.len() ==> (#[trigger] it.seq()[k]).0.0@ == $p1.v().elems[k].0 && it.seq()[k].1.0@ == $p1.v().elems[k].1
INV
  true
LSTART
  proof { lemma_catp_take($p1.v().elems, it.index@); assert(0 <= it.index@ < $p1.v().elems.len()); }
LPRE
  proof { let c = $p1.v().elems; assert(c.take(c.len() as int) =~= c); assert(c.take(0) =~= Seq::empty()); }
FN Writer::tag
TAGS C08 C07 C01
REQ
  hv_wf($p1.tag_val.0)
ENS
  final(self).data@ =~= old(self).data@ + tv_enc($p1.v())
FN Writer::constant
TAGS C08 C07 C01
ENS
  final(self).data@ =~= old(self).data@ + seq![const_byte($p1)]
FN Writer::bool
TAGS C08 C07 C10
ENS
  final(self).data@ =~= old(self).data@ + seq![if $p1 { 0xf5u8 } else { 0xf4u8 }]
FN Writer::float
TAGS C08 C07 C01 C12
ENS
  final(self).data@ =~= old(self).data@ + float_enc($p1)
FN Writer::data
TAGS C08 C07 C01
REQ
  dv_writable($p1.v())
ENS
  final(self).data@ =~= old(self).data@ + dv_enc($p1.v())
FN Writer::array_build
TAGS C08
REQ
  forall|x: &mut Writer| #[trigger] $p2.requires((x,))
REQ
  $p1 is Definite ==> hv_wf($p1->Definite_0)
ENS
  exists|x: &mut Writer| (*x).data@ =~= old(self).data@ + sl_enc(4, $p1) && #[trigger] $p2.ensures((x,), ()) && final(self).data@ =~= (*final(x)).data@ + sl_brk($p1)
FN Writer::map_build
TAGS C08
REQ
  forall|x: &mut Writer| #[trigger] $p2.requires((x,))
REQ
  $p1 is Definite ==> hv_wf($p1->Definite_0)
ENS
  exists|x: &mut Writer| (*x).data@ =~= old(self).data@ + sl_enc(5, $p1) && #[trigger] $p2.ensures((x,), ()) && final(self).data@ =~= (*final(x)).data@ + sl_brk($p1)
FN Writer::tag_build
TAGS C08
REQ
  forall|x: &mut Writer| #[trigger] $p2.requires((x,))
REQ
  hv_wf($p1.0)
ENS
  exists|x: &mut Writer| (*x).data@ =~= old(self).data@ + hv_enc(6, $p1.0) && #[trigger] $p2.ensures((x,), ()) && final(self).data@ == (*final(x)).data@
FILE types/structure.rs
FN StructureLength::is_indefinite
TAGS C08
ENS
  r <==> self is Indefinite
FN From<u64> for StructureLength::from
TAGS C09 C22
ENTRY
  proof { lemma_canon(); }
ENS
  r is Definite && hv_val(r->Definite_0) == $p0 && hv_wf(r->Definite_0) && shortest(r->Definite_0)
