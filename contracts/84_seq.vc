# writing homogeneous sequences
FILE encode.rs
PRELUDE
  /// every element can be written; the encodings of the elements
  pub open spec fn encs_ok<T: Encode>(e: Seq<T>) -> bool { forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).enc_ok() }
  pub open spec fn encs<T: Encode>(e: Seq<T>) -> Seq<Seq<u8>> { Seq::new(e.len(), |k: int| e[k].enc()) }
  pub open spec fn vec_enc<T: Encode>(e: Seq<T>) -> Seq<u8> { hv_enc(4, canon_hv(e.len() as u64)) + cat(encs(e)) }
  pub proof fn lemma_encs<T: Encode>(e: Seq<T>, k: int)
      requires 0 <= k < e.len()
      ensures cat(encs(e.take(k + 1))) == cat(encs(e.take(k))) + e[k].enc()
  { assert(encs(e.take(k + 1)).drop_last() =~= encs(e.take(k))); assert(encs(e.take(k + 1)).last() == e[k].enc()); }
FN encode_vec
TAGS C22 C08
REQ
  encs_ok($p0@)
ENTRY
  proof { lemma_canon(); }
CLOSURE 0
PARAMS |inner_writer: &mut Writer|
CENS
  final(inner_writer).data@ =~= old(inner_writer).data@ + cat(encs($p0@))
LOOP 0
ITER it
INV
  encs_ok($p0@) && it.seq().len() == $p0@.len() && forall|k: int| 0 <= k < $p0@.len() ==> *(#[trigger] it.seq()[k]) == $p0@[k]
INV
  inner_writer.data@ =~= old(inner_writer).data@ + cat(encs($p0@.take(it.index@)))
LSTART
  proof { lemma_encs($p0@, it.index@); }
LPRE
  proof { assert(encs($p0@.take(0)) =~= Seq::<Seq<u8>>::empty()); }
LAFTER
  proof { assert($p0@.take($p0@.len() as int) =~= $p0@); }
ENS
  final($p1).data@ =~= old($p1).data@ + vec_enc($p0@)
FILE prim.rs
FN Clone for CborDataOf<T>::clone
TAGS C15 C14
ENS
  r.1@ == self.1@
FILE decode.rs
PRELUDE
  /// the entries of c, innermost first, as a path from the outermost to the innermost
  pub open spec fn place_path(c: Seq<Seq<char>>) -> Seq<char>
      decreases c.len()
  { if c.len() == 0 { Seq::empty() } else { place_join(place_path(c.skip(1)), c[0]) } }
  pub open spec fn place_join(p: Seq<char>, e: Seq<char>) -> Seq<char> { if p.len() == 0 { e } else { p + "->"@ + e } }
FN DecodeError::context_as_path
TAGS C04
ENS [C24]
  (forall|k: int| 0 <= k < places(*self).len() ==> (#[trigger] places(*self)[k]).len() > 0) ==> r@ == place_path(places(*self))
LOOP 0
ITER it
INV
  it.seq().len() == self.context@.len() && (forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == self.context@[self.context@.len() - 1 - k])
INV
  s@ == place_path(places(*self).skip(self.context@.len() - it.index@))
LSTART
  let ghost n = self.context@.len() - it.index@; let ghost s0 = s@;
  proof { let c = places(*self); assert(*it.seq()[it.index@] == self.context@[n - 1]); assert(c.skip(n - 1).skip(1) =~= c.skip(n)); assert(c.skip(n - 1)[0] == c[n - 1]);
    reveal_strlit("->"); }
LAFTER
  proof { assert(places(*self).skip(0) =~= places(*self)); }
