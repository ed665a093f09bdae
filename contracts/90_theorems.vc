# The properties as theorems over the contracts: small client programs of the public functions, and lemmas.
# They use nothing of the crate but the contracts of what they call. Names: the property they belong to first.
FILE @end
PRELUDE
  pub mod theorems_ {
  use vstd::prelude::*;
  use crate::spec_::*;
  use crate::names_::*;
  use crate::lowlevel::header::*;
  use crate::reader::*;
  use crate::writer::*;
  use crate::types::*;
  use crate::types::Map;
  use crate::prim::*;
  use crate::validate::*;
  use crate::encode::*;
  use crate::decode::*;
  use crate::tagged::*;
  use crate::state::*;
  verus! {
  // ================================================================ C01: read then write
  /// reading an element anywhere and writing it appends exactly the bytes consumed
  fn c01_read_write<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (ok: bool)
      requires old(r).inv()
      ensures ok <==> ritem(old(r).s(), old(r).i()) is End,
          ok ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()) && R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  {
      proof { lemma_ritem(r.s(), r.i()); }
      match r.data() {
          Ok(d) => { w.data(&d); true }
          Err(_) => false,
      }
  }
  /// the same through the owned form
  fn c01_read_owned_write<'a>(r: &mut Reader<'a>, w: &mut Writer) -> (ok: bool)
      requires old(r).inv()
      ensures ok <==> ritem(old(r).s(), old(r).i()) is End,
          ok ==> final(w).data@ =~= old(w).data@ + old(r).s().subrange(old(r).i(), final(r).i()),
  {
      match r.data() {
          Ok(d) => { let o = d.owned(); o.encode(w); let b = o.borrow(); assert(b.v() == d.v()); true }
          Err(_) => false,
      }
  }
  // ================================================================ C02: a buffer of items
  /// the items of s from i on: where each ends, or none when they are not all well formed
  pub open spec fn all_items(s: Seq<u8>, i: int) -> bool
      decreases s.len() - i
  {
      if i == s.len() { true } else { match item(s, i) { R::End(j) => i < j <= s.len() && all_items(s, j), _ => false } }
  }
  /// validating item after item accepts exactly the buffers that are sequences of well-formed items
  fn c02_all(d: &[u8]) -> (r: bool)
      ensures r <==> all_items(d@, 0)
  {
      let mut v = Validator::new(d);
      let mut n: usize = 0;
      while n < d.len()
          invariant v.inv(), v.s() == d@, v.i() == n, n <= d@.len(), all_items(d@, 0) <==> all_items(d@, n as int),
          decreases d@.len() - n
      {
          proof { lemma_item_end(d@, n as int); }
          match v.next() { Ok((_, k)) => { n = n + k; } Err(_) => { return false; } }
      }
      true
  }
  // ================================================================ C03: readers, validator and slices agree
  /// a reader and a validator over the same bytes: what the reader takes the validator takes, with the same extent;
  /// what the validator takes and the reader does not is a text that is not UTF-8
  fn c03_agree<'a>(d: &'a [u8]) -> (r: (bool, bool))
      ensures r.0 ==> r.1, r.1 && !r.0 ==> hdr_at(d@, 0) is Text,
  {
      proof { lemma_ritem(d@, 0); if d@.len() > 0 { lemma_hv(d@, 0); lemma_arg(d@, 0); } }
      let mut a = Reader::new(d);
      let mut b = Validator::new(d);
      let x = a.data();
      let y = b.next();
      match (&x, &y) {
          (Ok(_), Ok((sl, n))) => { assert(a.i() == b.i() && *n == a.i() && sl.0@ == d@.subrange(0, a.i())); }
          _ => {}
      }
      (x.is_ok(), y.is_ok())
  }
  /// every slice of an array is one item that validates alone, and header, slices and break together are the bytes consumed
  fn c03_array<'a>(r: &mut Reader<'a>) -> (q: Option<Array<'a>>)
      requires old(r).inv()
      ensures q is Some ==> old(r).s().subrange(old(r).i(), final(r).i()) == sl_enc(4, q->Some_0.v().len) + cat(q->Some_0.v().elems) + sl_brk(q->Some_0.v().len),
          q is Some ==> forall|k: int| 0 <= k < q->Some_0.v().elems.len() ==> item(#[trigger] q->Some_0.v().elems[k], 0) == R::End(q->Some_0.v().elems[k].len() as int),
          q is Some ==> match q->Some_0.v().len { StructureLength::Definite(h) => hv_val(h) == q->Some_0.v().elems.len(), StructureLength::Indefinite => true },
          q is Some ==> R::End(final(r).i()) == item(old(r).s(), old(r).i()),
  {
      match r.array() {
          Ok(a) => {
              assert forall|k: int| 0 <= k < a.v().elems.len() implies item(#[trigger] a.v().elems[k], 0) == R::End(a.v().elems[k].len() as int) by { assert(one(a.v().elems[k])); }
              Some(a)
          }
          Err(_) => None,
      }
  }
  fn c03_map<'a>(r: &mut Reader<'a>) -> (q: Option<Map<'a>>)
      requires old(r).inv()
      ensures q is Some ==> old(r).s().subrange(old(r).i(), final(r).i()) == sl_enc(5, q->Some_0.v().len) + catp(q->Some_0.v().elems) + sl_brk(q->Some_0.v().len),
          q is Some ==> forall|k: int| 0 <= k < q->Some_0.v().elems.len() ==> one((#[trigger] q->Some_0.v().elems[k]).0) && one(q->Some_0.v().elems[k].1),
          q is Some ==> match q->Some_0.v().len { StructureLength::Definite(h) => hv_val(h) == q->Some_0.v().elems.len(), StructureLength::Indefinite => true },
  {
      match r.map() { Ok(a) => Some(a), Err(_) => None }
  }
  // ================================================================ C04: nothing panics, whatever the input
  /// every read tried at every position: the verifier asks for no precondition on the bytes
  fn c04_reads<'a>(d: &'a [u8])
  {
      let mut r = Reader::new(d);
      let n = d.len();
      let mut k: usize = 0;
      while k < n
          invariant r.inv(),
          decreases n - k
      {
          let _ = r.peek_type(); let _ = r.positive(); let _ = r.negative(); let _ = r.scalar(); let _ = r.byte(); let _ = r.float();
          let _ = r.constant(); let _ = r.null(); let _ = r.undefined(); let _ = r.bool(); let _ = r.bytes(); let _ = r.text();
          let _ = r.array(); let _ = r.map(); let _ = r.tag(); let _ = r.data(); let _ = r.is_finished(); let _ = r.expect_finished();
          let _ = r.remaining_bytes(); let _ = r.consumed_bytes();
          let _ = r.decode::<u8>(); let _ = r.decode::<u16>(); let _ = r.decode::<u32>(); let _ = r.decode::<u64>(); let _ = r.decode::<bool>();
          let _ = r.decode::<String>(); let _ = r.decode::<Vec<u8>>(); let _ = r.decode::<[u8; 7]>(); let _ = r.decode::<DataOwned>();
          let _ = r.exact_decodable_slice::<u64>(); let _ = r.exact_decodable_data::<String>(); let _ = decode_vec::<String>(&mut r);
          k = k + 1;
      }
  }
  // ================================================================ C05: types and positions
  /// peeking reports the type the next read finds: the reader of that type, and no other, takes the element
  fn c05_peek<'a>(r: &mut Reader<'a>) -> (q: (Option<Type>, bool))
      requires old(r).inv()
      ensures q.0 is None ==> !(ritem(old(r).s(), old(r).i()) is End) && still(*old(r), *final(r)),
          q.0 is Some ==> (q.1 <==> ritem(old(r).s(), old(r).i()) is End),
          q.1 ==> R::End(final(r).i()) == ritem(old(r).s(), old(r).i()),
  {
      proof { lemma_ritem(r.s(), r.i()); if r.i() < r.s().len() { lemma_hv(r.s(), r.i()); lemma_arg(r.s(), r.i()); } }
      let t = match r.peek_type() { Ok(t) => t, Err(_) => { return (None, false); } };
      let ok = match t {
          Type::Positive => r.positive().is_ok(),
          Type::Negative => r.negative().is_ok(),
          Type::Byte => r.byte().is_ok(),
          Type::Float => r.float().is_ok(),
          Type::Null => r.null().is_ok(),
          Type::Undefined => r.undefined().is_ok(),
          Type::True | Type::False => r.bool().is_ok(),
          Type::Bytes => r.bytes().is_ok(),
          Type::Text => r.text().is_ok(),
          Type::Array => r.array().is_ok(),
          Type::Map => r.map().is_ok(),
          Type::Tag => r.tag().is_ok(),
          Type::Break => r.data().is_ok(),
      };
      (Some(t), ok)
  }
  /// failing attempts of the wrong type leave everything to the right one
  fn c05_try<'a>(r: &mut Reader<'a>) -> (q: Option<Text<'a>>)
      requires old(r).inv(), old(r).i() < old(r).s().len(), hdr_at(old(r).s(), old(r).i()) is Text,
      ensures q is Some <==> ritem(old(r).s(), old(r).i()) is End, q is Some ==> R::End(final(r).i()) == ritem(old(r).s(), old(r).i()),
  {
      let ghost a = *r;
      proof { lemma_ritem(r.s(), r.i()); lemma_hv(r.s(), r.i()); lemma_arg(r.s(), r.i()); }
      let _ = r.positive(); assert(still(a, *r));
      let _ = r.negative(); assert(still(a, *r));
      let _ = r.scalar(); assert(still(a, *r));
      let _ = r.byte(); assert(still(a, *r));
      let _ = r.float(); assert(still(a, *r));
      let _ = r.null(); assert(still(a, *r));
      let _ = r.undefined(); assert(still(a, *r));
      let _ = r.bool(); assert(still(a, *r));
      let _ = r.bytes(); assert(still(a, *r));
      let _ = r.array(); assert(still(a, *r));
      let _ = r.map(); assert(still(a, *r));
      let _ = r.tag(); assert(still(a, *r));
      match r.text() { Ok(t) => Some(t), Err(_) => None }
  }
  // ================================================================ C06: truncation
  /// an element cut short: the reader reports missing data, and less is there than is needed
  fn c06_cut_read(d: &[u8], k: usize) -> (e: ReaderError)
      requires k < d@.len(), ritem(d@, 0) == R::End(d@.len() as int)
      ensures e is DataMissing, e->DataMissing_0.expecting_bytes > e->DataMissing_0.got_bytes,
  {
      let t = vstd::slice::slice_subrange(d, 0, k);
      assert(t@ =~= d@.take(k as int));
      proof { lemma_ritem_cut(d@, t@, 0, k as int); }
      let mut r = Reader::new(t);
      match r.data() { Ok(_) => { assert(false); ReaderError::UnexpectedBreakType } Err(e) => e }
  }
  fn c06_cut_validate(d: &[u8], k: usize) -> (e: ValidateError)
      requires k < d@.len(), item(d@, 0) == R::End(d@.len() as int)
      ensures e is DataMissing, e->DataMissing_0.expecting_bytes > e->DataMissing_0.got_bytes,
  {
      let t = vstd::slice::slice_subrange(d, 0, k);
      assert(t@ =~= d@.take(k as int));
      proof { lemma_item_cut(d@, t@, 0, k as int); }
      let mut r = Validator::new(t);
      match r.next() { Ok(_) => { assert(false); ValidateError::StateError(StateError::BreakEmptyStack) } Err(e) => e }
  }
  // ================================================================ C07: write then read
  /// where a value has been written, the generic reader gives that value back, whatever is around
  fn c07_generic<'a>(r: &mut Reader<'a>, v: &Data<'_>) -> (d: Data<'a>)
      requires old(r).inv(), dv_wf(v.v()), at(old(r).s(), old(r).i(), dv_enc(v.v()))
      ensures d.v() == v.v(), final(r).i() == old(r).i() + dv_enc(v.v()).len(), final(r).s() == old(r).s(), final(r).inv(),
  {
      let ghost s = r.s(); let ghost i = r.i();
      proof { lemma_dv_at(s, i, v.v()); }
      match r.data() {
          Ok(d) => { proof { lemma_dv_inj(s, i, d.v(), v.v()); } d }
          Err(_) => { proof { assert(false); } Data::Null }
      }
  }
  /// the reader of its kind gives it back too
  fn c07_typed<'a>(r: &mut Reader<'a>, v: &Data<'_>) -> (d: Option<Data<'a>>)
      requires old(r).inv(), dv_wf(v.v()), at(old(r).s(), old(r).i(), dv_enc(v.v()))
      ensures d is Some, d->Some_0.v() == v.v(), final(r).i() == old(r).i() + dv_enc(v.v()).len(),
  {
      let ghost s = r.s(); let ghost i = r.i();
      proof { lemma_dv_at(s, i, v.v()); lemma_dv_major(s, i, v.v()); lemma_hv(s, i); lemma_arg(s, i); lemma_dv_took(s, i); lemma_ritem(s, i); }
      let d = match v {
          Data::Positive(_) => r.positive().ok().map(|x: Positive| -> (q: Data<'a>) ensures q == Data::Positive(x) { Data::Positive(x) }),
          Data::Negative(_) => r.negative().ok().map(|x: Negative| -> (q: Data<'a>) ensures q == Data::Negative(x) { Data::Negative(x) }),
          Data::Float(_) => r.float().ok().map(|x: Float| -> (q: Data<'a>) ensures q == Data::Float(x) { Data::Float(x) }),
          Data::Byte(_) => r.byte().ok().map(|x: Byte| -> (q: Data<'a>) ensures q == Data::Byte(x) { Data::Byte(x) }),
          Data::Bytes(_) => r.bytes().ok().map(|x: Bytes<'a>| -> (q: Data<'a>) ensures q == Data::Bytes(x) { Data::Bytes(x) }),
          Data::Text(_) => r.text().ok().map(|x: Text<'a>| -> (q: Data<'a>) ensures q == Data::Text(x) { Data::Text(x) }),
          Data::Array(_) => r.array().ok().map(|x: Array<'a>| -> (q: Data<'a>) ensures q == Data::Array(x) { Data::Array(x) }),
          Data::Map(_) => r.map().ok().map(|x: Map<'a>| -> (q: Data<'a>) ensures q == Data::Map(x) { Data::Map(x) }),
          Data::Tag(_) => r.tag().ok().map(|x: Tag<'a>| -> (q: Data<'a>) ensures q == Data::Tag(x) { Data::Tag(x) }),
          Data::True | Data::False => r.bool().ok().map(|x: bool| -> (q: Data<'a>) ensures q == (if x { Data::<'a>::True } else { Data::<'a>::False }) { if x { Data::True } else { Data::False } }),
          Data::Null => if r.null().is_ok() { Some(Data::Null) } else { None },
          Data::Undefined => if r.undefined().is_ok() { Some(Data::Undefined) } else { None },
      };
      assert(d is Some);
      proof { lemma_dv_inj(s, i, d->Some_0.v(), v.v()); }
      d
  }
  proof fn lemma_cat_at(d: Seq<u8>, e: Seq<Seq<u8>>, after: Seq<u8>, k: int)
      requires d == cat(e) + after, 0 <= k < e.len()
      ensures at(d, cat(e.take(k)).len() as int, e[k]), cat(e.take(k + 1)).len() == cat(e.take(k)).len() + e[k].len()
  {
      crate::vals_::lemma_cat_take(e, k);
      lemma_cat_split(e, k + 1);
      let i = cat(e.take(k)).len() as int;
      assert(d =~= cat(e.take(k)) + e[k] + cat(e.skip(k + 1)) + after);
      assert(d.subrange(i, i + e[k].len()) =~= e[k]);
  }
  pub open spec fn dvs(e: Seq<Data<'_>>) -> Seq<Seq<u8>> { Seq::new(e.len(), |k: int| dv_enc(e[k].v())) }
  /// a sequence of values written after anything and followed by anything reads back as that sequence
  fn c07_sequence(vs: &Vec<Data<'_>>, before: Vec<u8>, after: &[u8]) -> (ok: bool)
      requires forall|k: int| 0 <= k < vs@.len() ==> dv_wf((#[trigger] vs@[k]).v()), before@.len() <= usize::MAX
      ensures ok
  {
      let ghost pre = before@;
      let start = before.len();
      let mut w = Writer::new_from_vec(before);
      let mut k: usize = 0;
      assert(cat(dvs(vs@.take(0))) =~= Seq::<u8>::empty());
      while k < vs.len()
          invariant k <= vs@.len(), w.data@ =~= pre + cat(dvs(vs@.take(k as int))), forall|k: int| 0 <= k < vs@.len() ==> dv_wf((#[trigger] vs@[k]).v()),
          decreases vs@.len() - k
      {
          assert(dv_wf(vs@[k as int].v()));
          w.data(&vs[k]);
          proof { assert(dvs(vs@.take(k + 1)).drop_last() =~= dvs(vs@.take(k as int))); }
          k = k + 1;
      }
      assert(vs@.take(k as int) =~= vs@);
      let ghost e = dvs(vs@);
      let mut buf = w.finalize();
      buf.extend_from_slice(after);
      assert(buf@ =~= pre + cat(e) + after@);
      let d = vstd::slice::slice_subrange(buf.as_slice(), start, buf.len());
      assert(d@ =~= cat(e) + after@);
      let mut r = Reader::new(d);
      let mut k: usize = 0;
      assert(e.take(0) =~= Seq::<Seq<u8>>::empty());
      while k < vs.len()
          invariant k <= vs@.len(), r.inv(), r.s() == d@, r.i() == cat(e.take(k as int)).len(), d@ == cat(e) + after@, e == dvs(vs@),
              forall|k: int| 0 <= k < vs@.len() ==> dv_wf((#[trigger] vs@[k]).v()),
          decreases vs@.len() - k
      {
          proof { lemma_cat_at(d@, e, after@, k as int); assert(dv_wf(vs@[k as int].v())); }
          let x = c07_generic(&mut r, &vs[k]);
          assert(x.v() == vs@[k as int].v());
          k = k + 1;
      }
      assert(e.take(k as int) =~= e);
      assert(r.i() == cat(e).len());
      true
  }
  }
  }
