# conversions and accessors of bytes and text values
FILE types/streamable.rs
TAGS C14
FN Bytes::owned
TAGS C14 C01
CLOSURE 0
PARAMS |bd: &BytesData<'a>|
CRET (q: BytesDataOwned)
CENS
  q.v() == bd.v()
ENS
  r.v() =~= self.v()
FN Text::owned
TAGS C14 C01
CLOSURE 0
PARAMS |bd: &TextData<'a>|
CRET (q: TextDataOwned)
CENS
  q.v() == bd.v()
ENS
  r.v() =~= self.v()
FN BytesOwned::borrow
TAGS C14 C01
CLOSURE 0
PARAMS |bd: &'a BytesDataOwned|
CRET (q: BytesData<'a>)
CENS
  q.v() == bd.v()
ENS
  r.v() =~= self.v()
FN TextOwned::borrow
TAGS C14 C01
CLOSURE 0
PARAMS |bd: &'a TextDataOwned|
CRET (q: TextData<'a>)
CENS
  q.v() == bd.v()
ENS
  r.v() =~= self.v()
FN BytesData::owned
ENS
  r.v() == self.v()
FN BytesDataOwned::borrow
ENS
  r.v() == self.v()
FN TextData::owned
ENS
  r.v() == self.v()
FN TextDataOwned::borrow
ENS
  r.v() == self.v()
FN BytesData::value
ENS
  r == self.v().h
FN BytesDataOwned::value
ENS
  r == self.v().h
FN TextData::value
ENS
  r == self.v().h
FN TextDataOwned::value
ENS
  r == self.v().h
FN BytesData::as_slice
TAGS C13 C14
ENS
  r@ == self.v().d
FN BytesDataOwned::as_slice
TAGS C13 C14
ENS
  r@ == self.v().d
FN TextData::as_str
TAGS C13 C14
ENS
  encode_utf8(r@) == self.v().d
FN TextDataOwned::as_str
TAGS C13 C14
ENS
  encode_utf8(r@) == self.v().d
FN AsRef<&str> for TextData::as_ref
TAGS C13
ENS
  encode_utf8((*r)@) == self.v().d
FN BytesData::from_slice
TAGS C10 C07
ENS
  r.v().d == $p0@ && chunk_wf(r.v()) && shortest(r.v().h)
FN BytesDataOwned::from_vec
TAGS C10 C07
ENS
  r.v().d == $p0@ && chunk_wf(r.v()) && shortest(r.v().h)
FN TextData::from_str
TAGS C10 C07
ENTRY
  proof { ax_str_len($p0); }
ENS
  r.v().d == encode_utf8($p0@) && chunk_wf(r.v()) && shortest(r.v().h)
FN TextDataOwned::from_string
TAGS C10 C07
ENS
  r.v().d == encode_utf8($p0@) && chunk_wf(r.v()) && shortest(r.v().h)
FN Bytes::from_slice
TAGS C10 C07
ENS
  r.v() is Imm && bv_bytes(r.v()) == $p0@ && bv_wf(r.v()) && shortest(r.v()->Imm_0.h)
FN BytesOwned::from_vec
TAGS C10 C07
ENS
  r.v() is Imm && bv_bytes(r.v()) == $p0@ && bv_wf(r.v()) && shortest(r.v()->Imm_0.h)
FN Text::from_str
TAGS C10 C07
ENTRY
  proof { encode_utf8_valid_utf8($p0@); }
ENS
  r.v() is Imm && bv_bytes(r.v()) == encode_utf8($p0@) && bv_wf(r.v()) && bv_utf8(r.v()) && shortest(r.v()->Imm_0.h)
FN TextOwned::from_string
TAGS C10 C07
ENTRY
  proof { encode_utf8_valid_utf8($p0@); }
ENS
  r.v() is Imm && bv_bytes(r.v()) == encode_utf8($p0@) && bv_wf(r.v()) && bv_utf8(r.v()) && shortest(r.v()->Imm_0.h)
FN Bytes::to_vec
TAGS C13 C10
ENS
  r@ == bv_bytes(self.v())
LOOP 100
INV
  acc__@ == concat(cs_of(*self).take(fit.index@))
INV
  fit.seq().len() == cs_of(*self).len() && forall|k: int| 0 <= k < cs_of(*self).len() ==> (#[trigger] fit.seq()[k]).v() == cs_of(*self)[k]
INV
  self is Chunks
LSTART
  proof { lemma_concat_take(cs_of(*self), fit.index@); assert(fit.seq()[fit.index@].v() == cs_of(*self)[fit.index@]); }
LPRE
  proof { let c = cs_of(*self); assert(c.take(c.len() as int) =~= c); }
FN Text::to_string
TAGS C13 C10
ENS
  encode_utf8(r@) == bv_bytes(self.v())
LOOP 100
INV
  encode_utf8(acc__@) == concat(ts_of(*self).take(fit.index@))
INV
  fit.seq().len() == ts_of(*self).len() && forall|k: int| 0 <= k < ts_of(*self).len() ==> (#[trigger] fit.seq()[k]).v() == ts_of(*self)[k]
INV
  self is Chunks
LSTART
  proof { lemma_concat_take(ts_of(*self), fit.index@); assert(fit.seq()[fit.index@].v() == ts_of(*self)[fit.index@]); encode_utf8_concat(acc__@, fit.seq()[fit.index@].1@); }
LPRE
  proof { let c = ts_of(*self); assert(c.take(c.len() as int) =~= c); }
FN Text::to_str_chunks
TAGS C13
CLOSURE 0
PARAMS |td: &TextData<'a>|
CRET (q: &'a str)
CENS
  encode_utf8(q@) == td.v().d
ENS
  match self.v() { BV::Imm(c) => r@.len() == 1 && encode_utf8(r@[0]@) == c.d, BV::Chunks(c) => r@.len() == c.len() && forall|k: int| 0 <= k < c.len() ==> encode_utf8((#[trigger] r@[k])@) == c[k].d }
