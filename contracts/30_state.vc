# the structure state machine
FILE state.rs
TAGS C16 C02 C03 C04
PRELUDE
  use crate::header::*;
  pub open spec fn reducible(t: StructTy) -> bool {
      match t {
          StructTy::Array(n) => n == 0,
          StructTy::Map { exp_val, elements } => elements == 0,
          StructTy::Tag(f) => f,
          StructTy::Stream(_) => false,
      }
  }
  /// between events no structure on the stack is complete
  pub open spec fn ctx_wf(c: Seq<StructTy>) -> bool { forall|k: int| 0 <= k < c.len() ==> !reducible(#[trigger] c[k]) }
  /// one more item inside the structure t
  pub open spec fn adv_top(t: StructTy) -> StructTy {
      match t {
          StructTy::Array(n) => StructTy::Array((n - 1) as usize),
          StructTy::Map { exp_val, elements } => if exp_val { StructTy::Map { exp_val: false, elements: (elements - 1) as usize } } else { StructTy::Map { exp_val: true, elements } },
          StructTy::Tag(_) => StructTy::Tag(true),
          StructTy::Stream(StreamType::Map { exp_val }) => StructTy::Stream(StreamType::Map { exp_val: !exp_val }),
          t => t,
      }
  }
  pub open spec fn adv(c: Seq<StructTy>) -> Seq<StructTy> {
      if c.len() == 0 { c } else { c.drop_last().push(adv_top(c.last())) }
  }
  /// close every complete structure; closing one is one more item in its parent
  pub open spec fn red(c: Seq<StructTy>) -> Seq<StructTy>
      decreases c.len()
  {
      if c.len() > 0 && reducible(c.last()) { red(adv(c.drop_last())) } else { c }
  }
  /// one complete item more
  pub open spec fn done(c: Seq<StructTy>) -> Seq<StructTy> { red(adv(c)) }
  pub open spec fn in_chunks(c: Seq<StructTy>) -> bool {
      c.len() > 0 && (c.last() == StructTy::Stream(StreamType::Bytes) || c.last() == StructTy::Stream(StreamType::Text))
  }
  pub open spec fn st_simple(c: Seq<StructTy>) -> Option<Seq<StructTy>> {
      if in_chunks(c) { None } else { Some(done(c)) }
  }
  /// bytes (other: Text) or text (other: Bytes)
  pub open spec fn st_chunk(c: Seq<StructTy>, v: HeaderValueStream, ty: StreamType, other: StreamType) -> Option<Seq<StructTy>> {
      match v {
          None => if in_chunks(c) { None } else { Some(c.push(StructTy::Stream(ty))) },
          Some(_) => if c.len() > 0 && c.last() == StructTy::Stream(other) { None } else { Some(done(c)) },
      }
  }
  pub open spec fn st_bytes(c: Seq<StructTy>, v: HeaderValueStream) -> Option<Seq<StructTy>> { st_chunk(c, v, StreamType::Bytes, StreamType::Text) }
  pub open spec fn st_text(c: Seq<StructTy>, v: HeaderValueStream) -> Option<Seq<StructTy>> { st_chunk(c, v, StreamType::Text, StreamType::Bytes) }
  pub open spec fn st_array(c: Seq<StructTy>, v: HeaderValueStream) -> Option<Seq<StructTy>> {
      if in_chunks(c) { None } else {
          match v {
              None => Some(c.push(StructTy::Stream(StreamType::Array))),
              Some(h) => Some(red(c.push(StructTy::Array(hv_val(h) as usize)))),
          }
      }
  }
  pub open spec fn st_map(c: Seq<StructTy>, v: HeaderValueStream) -> Option<Seq<StructTy>> {
      if in_chunks(c) { None } else {
          match v {
              None => Some(c.push(StructTy::Stream(StreamType::Map { exp_val: false }))),
              Some(h) => Some(red(c.push(StructTy::Map { exp_val: false, elements: hv_val(h) as usize }))),
          }
      }
  }
  pub open spec fn st_brk(c: Seq<StructTy>) -> Option<Seq<StructTy>> {
      if c.len() == 0 { None } else {
          match c.last() {
              StructTy::Stream(StreamType::Map { exp_val: true }) => None,
              StructTy::Stream(_) => Some(done(c.drop_last())),
              _ => None,
          }
      }
  }
  pub open spec fn st_tag(c: Seq<StructTy>) -> Option<Seq<StructTy>> {
      if in_chunks(c) { None } else { Some(c.push(StructTy::Tag(false))) }
  }
  /// why the machine does not move from c by the header h
  pub open spec fn st_err(c: Seq<StructTy>, h: Header, e: StateError) -> bool {
      match h {
          Header::Bytes(None) | Header::Text(None) => e is ChunksInChunks,
          Header::Bytes(Some(_)) | Header::Text(Some(_)) => e is InvalidTypeInChunk,
          Header::Array(_) | Header::Map(_) => e is StructureInChunks,
          Header::Tag(_) => e is TagInChunk,
          Header::Break => if c.len() == 0 { e is BreakEmptyStack }
              else if c.last() == StructTy::Stream(StreamType::Map { exp_val: true }) { e is StructureNotFinished } else { e is BreakInNonStreamable },
          _ => e is InvalidTypeInChunk,
      }
  }
  /// the machine moves from c by the header h
  pub open spec fn st_header(c: Seq<StructTy>, h: Header) -> Option<Seq<StructTy>> {
      match h {
          Header::Bytes(v) => st_bytes(c, v), Header::Text(v) => st_text(c, v),
          Header::Array(v) => st_array(c, v), Header::Map(v) => st_map(c, v),
          Header::Tag(_) => st_tag(c), Header::Break => st_brk(c),
          _ => st_simple(c),
      }
  }
  pub proof fn lemma_adv_wf(c: Seq<StructTy>)
      requires ctx_wf(c)
      ensures adv(c).len() == c.len(), c.len() > 0 ==> adv(c).drop_last() =~= c.drop_last(), ctx_wf(c.drop_last()) || c.len() == 0,
  {}
  pub proof fn lemma_red_wf(c: Seq<StructTy>)
      requires c.len() > 0 ==> ctx_wf(c.drop_last())
      ensures ctx_wf(red(c)), red(c).len() <= c.len(),
      decreases c.len()
  {
      if c.len() > 0 {
          if reducible(c.last()) { lemma_adv_wf(c.drop_last()); lemma_red_wf(adv(c.drop_last())); }
          else { assert forall|k: int| 0 <= k < c.len() implies !reducible(#[trigger] c[k]) by { if k < c.len() - 1 { assert(c[k] == c.drop_last()[k]); } } }
      }
  }
  pub proof fn lemma_done_wf(c: Seq<StructTy>)
      requires ctx_wf(c)
      ensures ctx_wf(done(c)), done(c).len() <= c.len(),
  { lemma_adv_wf(c); lemma_red_wf(adv(c)); }
  pub proof fn lemma_push_wf(c: Seq<StructTy>, t: StructTy)
      requires ctx_wf(c)
      ensures c.push(t).drop_last() =~= c, ctx_wf(red(c.push(t))), !reducible(t) ==> ctx_wf(c.push(t)) && red(c.push(t)) == c.push(t),
  { assert(c.push(t).drop_last() =~= c); lemma_red_wf(c.push(t)); }

  // ---------------------------------------------------------------- the machine and the grammar
  /// what is left of the structure t at i
  pub open spec fn rest_of(s: Seq<u8>, i: int, t: StructTy) -> R {
      match t {
          StructTy::Array(n) => items(s, i, n as int),
          StructTy::Map { exp_val, elements } => items(s, i, 2 * elements - (if exp_val { 1int } else { 0 })),
          StructTy::Tag(f) => if f { R::End(i) } else { item(s, i) },
          StructTy::Stream(StreamType::Array) => until_break(s, i),
          StructTy::Stream(StreamType::Map { exp_val }) => pairs(s, i, exp_val),
          StructTy::Stream(StreamType::Bytes) => chunks(s, i, 2),
          StructTy::Stream(StreamType::Text) => chunks(s, i, 3),
      }
  }
  /// finish every structure on the stack, innermost first
  pub open spec fn fin(s: Seq<u8>, i: int, c: Seq<StructTy>) -> R
      decreases c.len()
  {
      if c.len() == 0 { R::End(i) } else {
          match rest_of(s, i, c.last()) {
              R::End(j) => fin(s, j, adv(c.drop_last())),
              e => e,
          }
      }
  }
  /// what remains to be read, when the stack is c: one item if nothing is started
  pub open spec fn todo(s: Seq<u8>, i: int, c: Seq<StructTy>) -> R {
      if c.len() == 0 { item(s, i) } else { fin(s, i, c) }
  }
  proof fn lemma_fin_red(s: Seq<u8>, i: int, c: Seq<StructTy>)
      ensures fin(s, i, red(c)) == fin(s, i, c)
      decreases c.len()
  {
      if c.len() > 0 && reducible(c.last()) {
          lemma_fin_red(s, i, adv(c.drop_last()));
          match c.last() { StructTy::Map { exp_val, elements } => { assert(items(s, i, 2 * elements - (if exp_val { 1int } else { 0 })) == R::End(i)); }, _ => {} }
      }
  }
  /// the next item is one item of the innermost structure
  proof fn lemma_fin_item(s: Seq<u8>, i: int, c: Seq<StructTy>)
      requires 0 <= i <= s.len(), ctx_wf(c), c.len() > 0, !in_chunks(c),
          (c.last() is Stream) ==> !(i < s.len() && s[i] == 0xff),
      ensures fin(s, i, c) == match item(s, i) { R::End(j) => fin(s, j, done(c)), e => e },
  {
      lemma_item_end(s, i);
      assert(!reducible(c.last()));
      match item(s, i) {
          R::End(j) => {
              lemma_fin_red(s, j, adv(c));
              assert(adv(c).drop_last() =~= c.drop_last());
              assert(adv(c).last() == adv_top(c.last()));
          },
          _ => {},
      }
  }
  /// one header: what remains before it is what remains after it
  pub proof fn lemma_step(s: Seq<u8>, i: int, c: Seq<StructTy>)
      requires 0 <= i <= s.len(), ctx_wf(c),
      ensures
          !(hd(s, i) is End) ==> todo(s, i, c) == hd(s, i),
          hd(s, i) is End ==> ({
              let j = hd(s, i)->End_0;
              let h = hdr_at(s, i);
              let e = match h { Header::Bytes(Some(v)) | Header::Text(Some(v)) => content(s, j, hv_val(v)), _ => R::End(j) };
              &&& i < j <= s.len()
              &&& !(e is End) ==> todo(s, i, c) == e || todo(s, i, c) is Bad
              &&& e is End ==> match st_header(c, h) {
                  None => todo(s, i, c) is Bad,
                  Some(d) => ctx_wf(d) && todo(s, i, c) == fin(s, e->End_0, d),
              }
          }),
  {
      if i < s.len() { lemma_arg(s, i); lemma_hv(s, i); lemma_be_bound(s, i + 1); }
      lemma_item_end(s, i);
      if c.len() > 0 {
          assert(!reducible(c.last()));
          if in_chunks(c) {
          } else if c.last() is Stream && i < s.len() && s[i] == 0xff {
          } else { lemma_fin_item(s, i, c); }
      }
      if hd(s, i) is End {
          let j = hd(s, i)->End_0;
          let h = hdr_at(s, i);
          let e = match h { Header::Bytes(Some(v)) | Header::Text(Some(v)) => content(s, j, hv_val(v)), _ => R::End(j) };
          assert(e is End ==> fin(s, e->End_0, Seq::<StructTy>::empty()) == e);
          lemma_done_wf(c);
          if e is End {
              let k = e->End_0;
              lemma_fin_red(s, k, adv(c));
              if c.len() == 0 { assert(done(c) =~= c); }
              match h {
                  Header::Bytes(None) => { lemma_pushed(s, j, c, StructTy::Stream(StreamType::Bytes)); }
                  Header::Text(None) => { lemma_pushed(s, j, c, StructTy::Stream(StreamType::Text)); }
                  Header::Bytes(Some(_)) | Header::Text(Some(_)) => {
                      if in_chunks(c) { assert(adv(c) =~= c); assert(done(c) == c); }
                  }
                  Header::Array(None) => { lemma_pushed(s, j, c, StructTy::Stream(StreamType::Array)); }
                  Header::Array(Some(v)) => { lemma_pushed(s, j, c, StructTy::Array(hv_val(v) as usize)); }
                  Header::Map(None) => { lemma_pushed(s, j, c, StructTy::Stream(StreamType::Map { exp_val: false })); }
                  Header::Map(Some(v)) => { lemma_pushed(s, j, c, StructTy::Map { exp_val: false, elements: hv_val(v) as usize }); }
                  Header::Tag(_) => { lemma_pushed(s, j, c, StructTy::Tag(false)); }
                  Header::Break => {
                      if c.len() > 0 {
                          lemma_adv_wf(c);
                          lemma_done_wf(c.drop_last()); lemma_fin_red(s, j, adv(c.drop_last()));
                      }
                  }
                  _ => {}
              }
          }
      }
  }
  proof fn lemma_pushed(s: Seq<u8>, j: int, c: Seq<StructTy>, t: StructTy)
      requires ctx_wf(c)
      ensures ctx_wf(red(c.push(t))), !reducible(t) ==> red(c.push(t)) == c.push(t),
          fin(s, j, red(c.push(t))) == match rest_of(s, j, t) { R::End(k) => fin(s, k, done(c)), e => e },
          !reducible(t) ==> ctx_wf(c.push(t)),
  {
      lemma_push_wf(c, t);
      assert(c.push(t).drop_last() =~= c);
      lemma_fin_red(s, j, c.push(t));
      match rest_of(s, j, t) { R::End(k) => { lemma_fin_red(s, k, adv(c)); }, _ => {} }
  }
FN StreamType::composite_scalar
ENS
  r == (self is Bytes || self is Text)
FN StructTy::reduceable
ENS
  r == reducible(*self)
FN State::new
ENS
  r.ctx@.len() == 0
FN State::acceptable
ENS
  r == (self.ctx@.len() == 0)
FN State::push_stream
ENS [C23]
  r is Err ==> r->Err_0 is ChunksInChunks
ENS
  r is Ok <==> !in_chunks(old(self).ctx@)
ENS
  final(self).ctx@ == if r is Ok { old(self).ctx@.push(StructTy::Stream($p1)) } else { old(self).ctx@ }
FN State::advance
REQ
  old(self).ctx@.len() > 0 ==> !reducible(old(self).ctx@.last())
ENS
  r is Ok
ENS
  final(self).ctx@ =~= adv(old(self).ctx@)
FN State::reduce
REQ
  old(self).ctx@.len() > 0 && reducible(old(self).ctx@.last())
ENS
  r is Ok
ENS
  final(self).ctx@ =~= old(self).ctx@.drop_last()
FN State::check_reduce
REQ
  old(self).ctx@.len() > 0 ==> ctx_wf(old(self).ctx@.drop_last())
ENS
  r is Ok
ENS
  final(self).ctx@ == red(old(self).ctx@)
ENS
  ctx_wf(final(self).ctx@)
ENTRY
  proof { lemma_red_wf(old(self).ctx@); }
LOOP 0
INVEB
  red(self.ctx@) == red(old(self).ctx@)
INV
  ctx_wf(red(old(self).ctx@))
INVEB
  self.ctx@.len() > 0 ==> ctx_wf(self.ctx@.drop_last())
LENS
  self.ctx@ == red(old(self).ctx@)
LDEC
  self.ctx@.len()
LSTART
  proof { if self.ctx@.len() > 0 { lemma_adv_wf(self.ctx@.drop_last()); } }
FN State::item_streamable
ENS [C23]
  r is Err ==> (if $p1 is None { r->Err_0 is ChunksInChunks } else { r->Err_0 is InvalidTypeInChunk })
REQ
  ctx_wf(old(self).ctx@) && ($p2 is Bytes || $p2 is Text)
ENTRY
  proof { lemma_done_wf(old(self).ctx@); lemma_adv_wf(old(self).ctx@); lemma_push_wf(old(self).ctx@, StructTy::Stream($p2)); }
ENS
  r is Ok <==> st_chunk(old(self).ctx@, $p1, $p2, if $p2 is Bytes { StreamType::Text } else { StreamType::Bytes }) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_chunk(old(self).ctx@, $p1, $p2, if $p2 is Bytes { StreamType::Text } else { StreamType::Bytes })->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::struct_start
ENS [C23]
  r is Err ==> r->Err_0 is StructureInChunks
REQ
  ctx_wf(old(self).ctx@)
REQ
  forall|n: usize| $p3.requires((n,))
REQ
  $p2 is Array || $p2 is Map
ENTRY
  proof { lemma_push_wf(old(self).ctx@, StructTy::Stream($p2)); }
AFTER push 0
  proof { lemma_push_wf(old(self).ctx@, self.ctx@.last()); }
ENS
  r is Ok <==> !in_chunks(old(self).ctx@)
ENS
  r is Ok && $p1 is None ==> final(self).ctx@ == old(self).ctx@.push(StructTy::Stream($p2))
ENS
  r is Ok && $p1 is Some ==> exists|t: StructTy| $p3.ensures((hv_val($p1->Some_0) as usize,), t) && final(self).ctx@ == red(#[trigger] old(self).ctx@.push(t))
ENS
  ctx_wf(final(self).ctx@)
FN State::simple
ENS [C23]
  r is Err ==> r->Err_0 is InvalidTypeInChunk
REQ
  ctx_wf(old(self).ctx@)
ENTRY
  proof { lemma_done_wf(old(self).ctx@); lemma_adv_wf(old(self).ctx@); }
ENS
  r is Ok <==> st_simple(old(self).ctx@) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_simple(old(self).ctx@)->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::text
ENS [C23]
  r is Err ==> st_err(old(self).ctx@, Header::Text($p1), r->Err_0)
REQ
  ctx_wf(old(self).ctx@)
ENS
  r is Ok <==> st_text(old(self).ctx@, $p1) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_text(old(self).ctx@, $p1)->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::bytes
ENS [C23]
  r is Err ==> st_err(old(self).ctx@, Header::Bytes($p1), r->Err_0)
REQ
  ctx_wf(old(self).ctx@)
ENS
  r is Ok <==> st_bytes(old(self).ctx@, $p1) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_bytes(old(self).ctx@, $p1)->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::array
ENS [C23]
  r is Err ==> st_err(old(self).ctx@, Header::Array($p1), r->Err_0)
REQ
  ctx_wf(old(self).ctx@)
CLOSURE 0
PARAMS |nz: usize|
CRET (q: StructTy)
CENS
  q == StructTy::Array(nz)
ENS
  r is Ok <==> st_array(old(self).ctx@, $p1) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_array(old(self).ctx@, $p1)->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::map
ENS [C23]
  r is Err ==> st_err(old(self).ctx@, Header::Map($p1), r->Err_0)
REQ
  ctx_wf(old(self).ctx@)
CLOSURE 0
PARAMS |nz: usize|
CRET (q: StructTy)
CENS
  q == (StructTy::Map { exp_val: false, elements: nz })
ENS
  r is Ok <==> st_map(old(self).ctx@, $p1) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_map(old(self).ctx@, $p1)->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::brk
ENS [C23]
  r is Err ==> st_err(old(self).ctx@, Header::Break, r->Err_0)
REQ
  ctx_wf(old(self).ctx@)
ENTRY
  proof { lemma_adv_wf(old(self).ctx@); if old(self).ctx@.len() > 0 { lemma_done_wf(old(self).ctx@.drop_last()); lemma_adv_wf(old(self).ctx@.drop_last()); } }
ENS
  r is Ok <==> st_brk(old(self).ctx@) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_brk(old(self).ctx@)->Some_0
ENS
  ctx_wf(final(self).ctx@)
FN State::tag
ENS [C23]
  r is Err ==> r->Err_0 is TagInChunk
REQ
  ctx_wf(old(self).ctx@)
ENTRY
  proof { lemma_push_wf(old(self).ctx@, StructTy::Tag(false)); }
ENS
  r is Ok <==> st_tag(old(self).ctx@) is Some
ENS
  r is Ok ==> final(self).ctx@ == st_tag(old(self).ctx@)->Some_0
ENS
  ctx_wf(final(self).ctx@)
