# C16: the state machine against the grammar of event sequences
FILE @end
PRELUDE
  pub mod events_ {
  use vstd::prelude::*;
  use crate::spec_::*;
  use crate::names_::*;
  use crate::lowlevel::header::*;
  use crate::state::*;
  verus! {
  /// a structure event
  pub enum Ev { Simple, Bytes(HeaderValueStream), Text(HeaderValueStream), Array(HeaderValueStream), Map(HeaderValueStream), Tag, Break }
  /// outcome of parsing events: the end, more events needed, not well-formed
  pub enum ER { End(int), More, Bad }

  // ---------------------------------------------------------------- grammar of event sequences (RFC 8949)
  pub open spec fn eitem(f: Seq<Ev>, k: int) -> ER
      decreases f.len() - k, 0int, 0int
  {
      if k < 0 || k >= f.len() { ER::More } else {
          match f[k] {
              Ev::Simple => ER::End(k + 1),
              Ev::Bytes(Some(_)) | Ev::Text(Some(_)) => ER::End(k + 1),
              Ev::Bytes(None) => echunks(f, k + 1, true),
              Ev::Text(None) => echunks(f, k + 1, false),
              Ev::Array(Some(h)) => eitems(f, k + 1, hv_val(h)),
              Ev::Array(None) => euntil(f, k + 1),
              Ev::Map(Some(h)) => eitems(f, k + 1, 2 * hv_val(h)),
              Ev::Map(None) => epairs(f, k + 1, false),
              Ev::Tag => eitem(f, k + 1),
              Ev::Break => ER::Bad,
          }
      }
  }
  pub open spec fn eitems(f: Seq<Ev>, k: int, n: int) -> ER
      decreases f.len() - k, 1int, n
  {
      if n <= 0 { ER::End(k) } else {
          match eitem(f, k) { ER::End(j) => if k < j <= f.len() { eitems(f, j, n - 1) } else { ER::Bad }, e => e }
      }
  }
  pub open spec fn euntil(f: Seq<Ev>, k: int) -> ER
      decreases f.len() - k, 1int, 0int
  {
      if 0 <= k < f.len() && f[k] is Break { ER::End(k + 1) } else {
          match eitem(f, k) { ER::End(j) => if k < j <= f.len() { euntil(f, j) } else { ER::Bad }, e => e }
      }
  }
  pub open spec fn epairs(f: Seq<Ev>, k: int, val: bool) -> ER
      decreases f.len() - k, 1int, 0int
  {
      if 0 <= k < f.len() && f[k] is Break { if val { ER::Bad } else { ER::End(k + 1) } } else {
          match eitem(f, k) { ER::End(j) => if k < j <= f.len() { epairs(f, j, !val) } else { ER::Bad }, e => e }
      }
  }
  pub open spec fn echunks(f: Seq<Ev>, k: int, bytes: bool) -> ER
      decreases f.len() - k, 1int, 0int
  {
      if k < 0 || k >= f.len() { ER::More } else {
          match f[k] {
              Ev::Break => ER::End(k + 1),
              Ev::Bytes(Some(_)) => if bytes { echunks(f, k + 1, bytes) } else { ER::Bad },
              Ev::Text(Some(_)) => if bytes { ER::Bad } else { echunks(f, k + 1, bytes) },
              _ => ER::Bad,
          }
      }
  }
  /// complete items up to the end
  pub open spec fn eall(f: Seq<Ev>, k: int) -> ER
      decreases f.len() - k
  {
      if k < 0 || k >= f.len() { ER::End(k) } else {
          match eitem(f, k) { ER::End(j) => if k < j <= f.len() { eall(f, j) } else { ER::Bad }, e => e }
      }
  }
  /// f is a sequence of complete well-formed items
  pub open spec fn complete(f: Seq<Ev>) -> bool { eall(f, 0) is End }

  // ---------------------------------------------------------------- the machine
  pub open spec fn step(c: Seq<StructTy>, e: Ev) -> Option<Seq<StructTy>> {
      match e {
          Ev::Simple => st_simple(c),
          Ev::Bytes(v) => st_bytes(c, v), Ev::Text(v) => st_text(c, v),
          Ev::Array(v) => st_array(c, v), Ev::Map(v) => st_map(c, v),
          Ev::Tag => st_tag(c), Ev::Break => st_brk(c),
      }
  }
  pub open spec fn run(c: Seq<StructTy>, f: Seq<Ev>) -> Option<Seq<StructTy>>
      decreases f.len()
  {
      if f.len() == 0 { Some(c) } else { match run(c, f.drop_last()) { None => None, Some(d) => step(d, f.last()) } }
  }

  // ---------------------------------------------------------------- what is left to come
  pub open spec fn erest(f: Seq<Ev>, k: int, t: StructTy) -> ER {
      match t {
          StructTy::Array(n) => eitems(f, k, n as int),
          StructTy::Map { exp_val, elements } => eitems(f, k, 2 * elements - (if exp_val { 1int } else { 0 })),
          StructTy::Tag(b) => if b { ER::End(k) } else { eitem(f, k) },
          StructTy::Stream(StreamType::Array) => euntil(f, k),
          StructTy::Stream(StreamType::Map { exp_val }) => epairs(f, k, exp_val),
          StructTy::Stream(StreamType::Bytes) => echunks(f, k, true),
          StructTy::Stream(StreamType::Text) => echunks(f, k, false),
      }
  }
  pub open spec fn efin(f: Seq<Ev>, k: int, c: Seq<StructTy>) -> ER
      decreases c.len()
  {
      if c.len() == 0 { eall(f, k) } else {
          match erest(f, k, c.last()) { ER::End(j) => efin(f, j, adv(c.drop_last())), e => e }
      }
  }
  proof fn lemma_eitem_end(f: Seq<Ev>, k: int)
      requires 0 <= k
      ensures eitem(f, k) is End ==> k < eitem(f, k)->End_0 <= f.len(),
      decreases f.len() - k, 0int, 0int
  {
      if k < f.len() {
          match f[k] {
              Ev::Bytes(None) => lemma_echunks_end(f, k + 1, true),
              Ev::Text(None) => lemma_echunks_end(f, k + 1, false),
              Ev::Array(Some(h)) => lemma_eitems_end(f, k + 1, hv_val(h)),
              Ev::Array(None) => lemma_euntil_end(f, k + 1),
              Ev::Map(Some(h)) => lemma_eitems_end(f, k + 1, 2 * hv_val(h)),
              Ev::Map(None) => lemma_epairs_end(f, k + 1, false),
              Ev::Tag => lemma_eitem_end(f, k + 1),
              _ => {},
          }
      }
  }
  proof fn lemma_eitems_end(f: Seq<Ev>, k: int, n: int)
      requires 0 <= k <= f.len()
      ensures eitems(f, k, n) is End ==> k <= eitems(f, k, n)->End_0 <= f.len(),
      decreases f.len() - k, 1int, n
  { if n > 0 { lemma_eitem_end(f, k); match eitem(f, k) { ER::End(j) => lemma_eitems_end(f, j, n - 1), _ => {} } } }
  proof fn lemma_euntil_end(f: Seq<Ev>, k: int)
      requires 0 <= k <= f.len()
      ensures euntil(f, k) is End ==> k < euntil(f, k)->End_0 <= f.len(),
      decreases f.len() - k, 1int, 0int
  { if !(k < f.len() && f[k] is Break) { lemma_eitem_end(f, k); match eitem(f, k) { ER::End(j) => lemma_euntil_end(f, j), _ => {} } } }
  proof fn lemma_epairs_end(f: Seq<Ev>, k: int, v: bool)
      requires 0 <= k <= f.len()
      ensures epairs(f, k, v) is End ==> k < epairs(f, k, v)->End_0 <= f.len(),
      decreases f.len() - k, 1int, 0int
  { if !(k < f.len() && f[k] is Break) { lemma_eitem_end(f, k); match eitem(f, k) { ER::End(j) => lemma_epairs_end(f, j, !v), _ => {} } } }
  proof fn lemma_echunks_end(f: Seq<Ev>, k: int, b: bool)
      requires 0 <= k <= f.len()
      ensures echunks(f, k, b) is End ==> k < echunks(f, k, b)->End_0 <= f.len(),
      decreases f.len() - k, 1int, 0int
  { if k < f.len() { match f[k] { Ev::Bytes(Some(_)) | Ev::Text(Some(_)) => lemma_echunks_end(f, k + 1, b), _ => {} } } }

  proof fn lemma_efin_red(f: Seq<Ev>, k: int, c: Seq<StructTy>)
      ensures efin(f, k, red(c)) == efin(f, k, c)
      decreases c.len()
  {
      if c.len() > 0 && reducible(c.last()) {
          lemma_efin_red(f, k, adv(c.drop_last()));
          match c.last() { StructTy::Map { exp_val, elements } => { assert(eitems(f, k, 2 * elements - (if exp_val { 1int } else { 0 })) == ER::End(k)); }, _ => {} }
      }
  }
  proof fn lemma_efin_item(f: Seq<Ev>, k: int, c: Seq<StructTy>)
      requires 0 <= k < f.len(), ctx_wf(c), !in_chunks(c), c.len() > 0 && c.last() is Stream ==> !(f[k] is Break),
      ensures efin(f, k, c) == match eitem(f, k) { ER::End(j) => efin(f, j, done(c)), e => e },
  {
      lemma_eitem_end(f, k);
      if c.len() > 0 { assert(!reducible(c.last())); }
      match eitem(f, k) {
          ER::End(j) => {
              lemma_efin_red(f, j, adv(c));
              if c.len() > 0 { assert(adv(c).drop_last() =~= c.drop_last()); assert(adv(c).last() == adv_top(c.last())); }
          },
          _ => {},
      }
  }
  proof fn lemma_epushed(f: Seq<Ev>, k: int, c: Seq<StructTy>, t: StructTy)
      requires ctx_wf(c)
      ensures ctx_wf(red(c.push(t))), !reducible(t) ==> red(c.push(t)) == c.push(t) && ctx_wf(c.push(t)),
          efin(f, k, red(c.push(t))) == match erest(f, k, t) { ER::End(j) => efin(f, j, done(c)), e => e },
  {
      lemma_push_wf(c, t);
      assert(c.push(t).drop_last() =~= c);
      lemma_efin_red(f, k, c.push(t));
      match erest(f, k, t) { ER::End(j) => { lemma_efin_red(f, j, adv(c)); }, _ => {} }
  }
  /// one event: what was to come is what is still to come, or nothing well-formed can
  proof fn lemma_estep(f: Seq<Ev>, k: int, c: Seq<StructTy>)
      requires 0 <= k < f.len(), ctx_wf(c)
      ensures match step(c, f[k]) { None => efin(f, k, c) is Bad, Some(d) => ctx_wf(d) && efin(f, k, c) == efin(f, k + 1, d) },
  {
      lemma_done_wf(c);
      lemma_eitem_end(f, k);
      if c.len() > 0 { assert(!reducible(c.last())); }
      if !in_chunks(c) && !(c.len() > 0 && c.last() is Stream && f[k] is Break) { lemma_efin_item(f, k, c); }
      match f[k] {
          Ev::Bytes(None) => { lemma_epushed(f, k + 1, c, StructTy::Stream(StreamType::Bytes)); }
          Ev::Text(None) => { lemma_epushed(f, k + 1, c, StructTy::Stream(StreamType::Text)); }
          Ev::Bytes(Some(_)) | Ev::Text(Some(_)) => { if in_chunks(c) { assert(adv(c) =~= c); assert(done(c) == c); } }
          Ev::Array(None) => { lemma_epushed(f, k + 1, c, StructTy::Stream(StreamType::Array)); }
          Ev::Array(Some(v)) => { lemma_epushed(f, k + 1, c, StructTy::Array(hv_val(v) as usize)); }
          Ev::Map(None) => { lemma_epushed(f, k + 1, c, StructTy::Stream(StreamType::Map { exp_val: false })); }
          Ev::Map(Some(v)) => { lemma_epushed(f, k + 1, c, StructTy::Map { exp_val: false, elements: hv_val(v) as usize }); }
          Ev::Tag => { lemma_epushed(f, k + 1, c, StructTy::Tag(false)); }
          Ev::Break => {
              if c.len() > 0 { lemma_adv_wf(c); lemma_done_wf(c.drop_last()); lemma_efin_red(f, k + 1, adv(c.drop_last())); }
          }
          Ev::Simple => {}
      }
  }
  /// the events so far, then whatever comes
  proof fn lemma_run(f: Seq<Ev>, n: int)
      requires 0 <= n <= f.len()
      ensures match run(Seq::empty(), f.take(n)) { None => eall(f, 0) is Bad, Some(d) => ctx_wf(d) && eall(f, 0) == efin(f, n, d) },
      decreases n
  {
      if n > 0 {
          lemma_run(f, n - 1);
          assert(f.take(n).drop_last() =~= f.take(n - 1));
          match run(Seq::empty(), f.take(n - 1)) { Some(d) => lemma_estep(f, n - 1, d), None => {} }
      } else { assert(f.take(0) =~= Seq::empty()); }
  }
  proof fn lemma_run_wf(f: Seq<Ev>)
      ensures run(Seq::empty(), f) is Some ==> ctx_wf(run(Seq::empty(), f)->Some_0)
  { lemma_run(f, f.len() as int); assert(f.take(f.len() as int) =~= f); }
  /// a structure started is not complete: it needs more events
  proof fn lemma_open(f: Seq<Ev>, c: Seq<StructTy>)
      requires ctx_wf(c)
      ensures efin(f, f.len() as int, c) is End <==> c.len() == 0,
  { if c.len() > 0 { assert(!reducible(c.last())); lemma_eitem_end(f, f.len() as int); } }
  // ---------------------------------------------------------------- every state reached can still be completed
  pub open spec fn simples(n: int) -> Seq<Ev> { Seq::new(n as nat, |k: int| Ev::Simple) }
  pub open spec fn closing(t: StructTy) -> Seq<Ev> {
      match t {
          StructTy::Array(n) => simples(n as int),
          StructTy::Map { exp_val, elements } => simples(2 * elements - (if exp_val { 1int } else { 0 })),
          StructTy::Tag(_) => simples(1),
          StructTy::Stream(StreamType::Map { exp_val: true }) => seq![Ev::Simple, Ev::Break],
          StructTy::Stream(_) => seq![Ev::Break],
      }
  }
  proof fn lemma_run_cat(c: Seq<StructTy>, a: Seq<Ev>, b: Seq<Ev>)
      ensures run(c, a + b) == match run(c, a) { None => None, Some(d) => run(d, b) },
      decreases b.len()
  {
      if b.len() == 0 { assert(a + b =~= a); }
      else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_run_cat(c, a, b.drop_last()); }
  }
  proof fn lemma_run_one(c: Seq<StructTy>, e: Ev)
      ensures run(c, seq![e]) == step(c, e)
  { reveal_with_fuel(run, 3); assert(seq![e].drop_last() =~= Seq::<Ev>::empty()); assert(seq![e].last() == e); }
  proof fn lemma_close_counted(c: Seq<StructTy>, n: int)
      requires ctx_wf(c), c.len() > 0,
          match c.last() { StructTy::Array(k) => n == k, StructTy::Map { exp_val, elements } => n == 2 * elements - (if exp_val { 1int } else { 0 }), StructTy::Tag(b) => n == 1, _ => false },
      ensures run(c, simples(n)) == Some(done(c.drop_last()))
      decreases n
  {
      assert(!reducible(c.last()));
      assert(simples(n) =~= seq![Ev::Simple] + simples(n - 1));
      lemma_run_cat(c, seq![Ev::Simple], simples(n - 1));
      lemma_run_one(c, Ev::Simple);
      let a = adv(c);
      assert(a.drop_last() =~= c.drop_last());
      assert(a.last() == adv_top(c.last()));
      if reducible(a.last()) {
          assert(done(c) == red(adv(c.drop_last())));
          assert(n == 1);
          assert(simples(0) =~= Seq::empty());
      } else {
          assert(done(c) == a);
          lemma_done_wf(c);
          lemma_close_counted(a, n - 1);
      }
  }
  proof fn lemma_close(c: Seq<StructTy>)
      requires ctx_wf(c), c.len() > 0
      ensures run(c, closing(c.last())) == Some(done(c.drop_last()))
  {
      assert(!reducible(c.last()));
      match c.last() {
          StructTy::Array(n) => { lemma_close_counted(c, n as int); }
          StructTy::Map { exp_val, elements } => { lemma_close_counted(c, 2 * elements - (if exp_val { 1int } else { 0 })); }
          StructTy::Tag(_) => { lemma_close_counted(c, 1); }
          StructTy::Stream(StreamType::Map { exp_val: true }) => {
              assert(seq![Ev::Simple, Ev::Break] =~= seq![Ev::Simple] + seq![Ev::Break]);
              lemma_run_cat(c, seq![Ev::Simple], seq![Ev::Break]);
              lemma_run_one(c, Ev::Simple);
              let a = adv(c);
              assert(a.drop_last() =~= c.drop_last());
              assert(done(c) == a);
              lemma_run_one(a, Ev::Break);
          }
          StructTy::Stream(_) => { lemma_run_one(c, Ev::Break); }
      }
  }
  pub open spec fn completion(c: Seq<StructTy>) -> Seq<Ev>
      decreases c.len()
      when ctx_wf(c)
      via completion_dec
  {
      if c.len() == 0 { Seq::empty() } else { closing(c.last()) + completion(done(c.drop_last())) }
  }
  #[via_fn]
  proof fn completion_dec(c: Seq<StructTy>) { if c.len() > 0 { lemma_adv_wf(c); lemma_done_wf(c.drop_last()); } }
  proof fn lemma_completion(c: Seq<StructTy>)
      requires ctx_wf(c)
      ensures run(c, completion(c)) == Some(Seq::<StructTy>::empty())
      decreases c.len()
  {
      if c.len() > 0 {
          lemma_adv_wf(c); lemma_done_wf(c.drop_last());
          lemma_close(c);
          lemma_run_cat(c, closing(c.last()), completion(done(c.drop_last())));
          lemma_completion(done(c.drop_last()));
      } else { assert(c =~= Seq::empty()); }
  }
  /// a complete sequence is one the machine runs through to the empty stack
  pub proof fn c16_complete(f: Seq<Ev>)
      ensures complete(f) <==> run(Seq::empty(), f) == Some(Seq::<StructTy>::empty())
  {
      lemma_run(f, f.len() as int);
      assert(f.take(f.len() as int) =~= f);
      match run(Seq::empty(), f) { Some(d) => { lemma_open(f, d); if d.len() == 0 { assert(d =~= Seq::empty()); } }, None => {} }
  }
  /// the machine goes on exactly while the events can still begin a well-formed sequence
  pub proof fn c16_viable(f: Seq<Ev>)
      ensures run(Seq::empty(), f) is Some <==> exists|g: Seq<Ev>| #[trigger] complete(f + g),
  {
      if run(Seq::empty(), f) is Some {
          let d = run(Seq::empty(), f)->Some_0;
          lemma_run_wf(f);
          let g = completion(d);
          lemma_completion(d);
          lemma_run_cat(Seq::empty(), f, g);
          c16_complete(f + g);
          assert(complete(f + g));
      } else {
          assert forall|g: Seq<Ev>| !(#[trigger] complete(f + g)) by {
              lemma_run(f + g, f.len() as int);
              assert((f + g).take(f.len() as int) =~= f);
          }
      }
  }
  /// the real machine on any sequence of events
  pub fn c16_machine(evs: &Vec<Ev>) -> (r: Result<State, usize>)
      ensures
          // an error comes exactly at the first event that no well-formed sequence can contain there
          r is Err ==> r->Err_0 < evs@.len() && !(exists|g: Seq<Ev>| #[trigger] complete(evs@.take(r->Err_0 + 1) + g))
              && exists|g: Seq<Ev>| #[trigger] complete(evs@.take(r->Err_0 as int) + g),
          r is Ok ==> exists|g: Seq<Ev>| #[trigger] complete(evs@ + g),
          // acceptable exactly when every structure started is complete
          r is Ok ==> (complete(evs@) <==> r->Ok_0.ctx@.len() == 0),
  {
      let mut st = State::new();
      assert(st.ctx@ =~= Seq::empty());
      assert(evs@.take(0) =~= Seq::empty());
      let mut n: usize = 0;
      while n < evs.len()
          invariant n <= evs@.len(), ctx_wf(st.ctx@), run(Seq::empty(), evs@.take(n as int)) == Some(st.ctx@),
          decreases evs@.len() - n
      {
          let ghost c = st.ctx@;
          proof { assert(evs@.take(n + 1).drop_last() =~= evs@.take(n as int)); assert(evs@.take(n + 1).last() == evs@[n as int]); }
          let q = match &evs[n] {
              Ev::Simple => st.simple(),
              Ev::Bytes(v) => st.bytes(*v),
              Ev::Text(v) => st.text(*v),
              Ev::Array(v) => st.array(*v),
              Ev::Map(v) => st.map(*v),
              Ev::Tag => st.tag(),
              Ev::Break => st.brk(),
          };
          assert(q is Ok <==> step(c, evs@[n as int]) is Some);
          if q.is_err() {
              proof { c16_viable(evs@.take(n as int)); c16_viable(evs@.take(n + 1)); }
              return Err(n);
          }
          n = n + 1;
      }
      proof { assert(evs@.take(n as int) =~= evs@); c16_viable(evs@); c16_complete(evs@); if st.ctx@.len() == 0 { assert(st.ctx@ =~= Seq::empty()); } }
      let a = st.acceptable();
      assert(a <==> complete(evs@));
      Ok(st)
  }
  }
  }
