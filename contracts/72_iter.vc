# iteration over the elements of a container
FILE types/structure.rs
PRELUDE
  use vstd::std_specs::iter::*;
  /// a reader at the start of these bytes
  pub open spec fn fresh(r: Reader<'_>, b: Seq<u8>) -> bool { r.s() == b && r.i() == 0 && r.inv() }
FN Array::iter
TAGS C14 C22 C03
CLOSURE 0
PARAMS |v: &'a &'a CborSlice|
CRET (q: Reader<'a>)
CENS
  fresh(q, v.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| #![trigger r.remaining()[k]] #![trigger self.v().elems[k]] 0 <= k < r.remaining().len() ==> fresh(r.remaining()[k], self.v().elems[k])
FN ArrayOwned::iter
TAGS C14 C22 C03
CLOSURE 0
PARAMS |v: &'a CborData|
CRET (q: &'a CborSlice)
CENS
  q.0@ == v.0@
CLOSURE 1
PARAMS |v: &'a CborSlice|
CRET (q: Reader<'a>)
CENS
  fresh(q, v.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh(#[trigger] r.remaining()[k], self.v().elems[k])
FN Map::iter
TAGS C14 C22 C03
CLOSURE 0
CRET (q: (Reader<'a>, Reader<'a>))
CENS
  fresh(q.0, p0__.0.0@) && fresh(q.1, p0__.1.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh((#[trigger] r.remaining()[k]).0, self.v().elems[k].0) && fresh(r.remaining()[k].1, self.v().elems[k].1)
FN Map::keys
TAGS C14 C22 C03
CLOSURE 0
CRET (q: Reader<'a>)
CENS
  fresh(q, p0__.0.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh(#[trigger] r.remaining()[k], self.v().elems[k].0)
FN Map::values
TAGS C14 C22 C03
CLOSURE 0
CRET (q: Reader<'a>)
CENS
  fresh(q, p0__.1.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh(#[trigger] r.remaining()[k], self.v().elems[k].1)
FN MapOwned::iter
TAGS C14 C22 C03
CLOSURE 0
CRET (q: (Reader<'a>, Reader<'a>))
CENS
  fresh(q.0, p0__.0.0@) && fresh(q.1, p0__.1.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh((#[trigger] r.remaining()[k]).0, self.v().elems[k].0) && fresh(r.remaining()[k].1, self.v().elems[k].1)
FN MapOwned::keys
TAGS C14 C22 C03
CLOSURE 0
CRET (q: Reader<'a>)
CENS
  fresh(q, p0__.0.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh(#[trigger] r.remaining()[k], self.v().elems[k].0)
FN MapOwned::values
TAGS C14 C22 C03
CLOSURE 0
CRET (q: Reader<'a>)
CENS
  fresh(q, p0__.1.0@)
ENS
  r.obeys_prophetic_iter_laws() && (r.will_return_none() ==> r.remaining().len() == self.v().elems.len()) && r.remaining().len() <= self.v().elems.len()
ENS
  forall|k: int| 0 <= k < r.remaining().len() ==> fresh(#[trigger] r.remaining()[k], self.v().elems[k].1)
PRELUDE
  impl<'a> vstd::std_specs::core::IndexSpecImpl<usize> for Array<'a> {
      open spec fn index_req(&self, i: &usize) -> bool { *i < self.elements@.len() }
  }
  impl vstd::std_specs::core::IndexSpecImpl<usize> for ArrayOwned {
      open spec fn index_req(&self, i: &usize) -> bool { *i < self.elements@.len() }
  }
  impl<'a> vstd::std_specs::core::IndexSpecImpl<usize> for Map<'a> {
      open spec fn index_req(&self, i: &usize) -> bool { *i < self.elements@.len() }
  }
  /// f, given a reader at the start of these bytes, may answer res
  pub open spec fn ran<'b, F: Fn(&mut Reader<'b>) -> Result<T, DecodeErrorKind>, T>(f: F, e: Seq<u8>, res: Result<T, DecodeErrorKind>) -> bool {
      exists|x: &mut Reader<'b>| fresh(*x, e) && #[trigger] f.ensures((x,), res)
  }
  pub open spec fn ran2<'b, F: Fn(&mut Reader<'b>) -> Result<K, DecodeErrorKind>, G: Fn(&mut Reader<'b>) -> Result<V, DecodeErrorKind>, K, V>(f: F, g: G, e: Seq<(Seq<u8>, Seq<u8>)>, o: Seq<(K, V)>) -> bool {
      forall|k: int| 0 <= k < o.len() ==> ran(f, (#[trigger] e[k]).0, Ok(o[k].0)) && ran(g, e[k].1, Ok(o[k].1))
  }
  pub open spec fn fine<'b, F: Fn(&mut Reader<'b>) -> Result<T, DecodeErrorKind>, T>(f: F, e: Seq<u8>) -> bool {
      exists|v: T| ran(f, e, Ok(v))
  }
  pub open spec fn runnable<'b, F: Fn(&mut Reader<'b>) -> Result<T, DecodeErrorKind>, T>(f: F) -> bool {
      forall|x: &mut Reader<'b>| (*x).inv() ==> #[trigger] f.requires((x,))
  }
FN std::ops::Index<usize> for Array::index
TAGS C14 C22 C03
ENS
  (*r).0@ == self.v().elems[index as int]
FN std::ops::Index<usize> for ArrayOwned::index
TAGS C14 C22
ENS
  (*r).0@ == self.v().elems[index as int]
FN std::ops::Index<usize> for Map::index
TAGS C14 C22 C03
ENS
  (*r).0.0@ == self.v().elems[index as int].0 && (*r).1.0@ == self.v().elems[index as int].1
FN Array::to_vec
TAGS C22
REQ
  runnable($p1)
ENS
  r is Ok ==> r->Ok_0@.len() == self.v().elems.len() && forall|k: int| 0 <= k < r->Ok_0@.len() ==> ran($p1, #[trigger] self.v().elems[k], Ok(r->Ok_0@[k]))
ENS
  r is Err ==> exists|k: int| #![trigger self.v().elems[k]] 0 <= k < self.v().elems.len() && ran($p1, self.v().elems[k], Err::<T, DecodeErrorKind>(r->Err_0))
      && forall|q: int| 0 <= q < k ==> fine($p1, #[trigger] self.v().elems[q])
LOOP 0
ITER it
INV
  it.seq().len() == self.v().elems.len() && forall|k: int| 0 <= k < self.v().elems.len() ==> (#[trigger] it.seq()[k]).0@ == self.v().elems[k]
INV
  runnable($p1)
INV
  output@.len() == it.index@ && forall|k: int| 0 <= k < output@.len() ==> ran($p1, #[trigger] self.v().elems[k], Ok(output@[k]))
LSTART
  proof { let e = self.v().elems[it.index@]; assert(it.seq()[it.index@].0@ == e);
      assert forall|q: int| 0 <= q < it.index@ implies fine($p1, #[trigger] self.v().elems[q]) by { assert(ran($p1, self.v().elems[q], Ok(output@[q]))); } }
FN ArrayOwned::to_vec
TAGS C22
REQ
  runnable($p1)
ENS
  r is Ok ==> r->Ok_0@.len() == self.v().elems.len() && forall|k: int| 0 <= k < r->Ok_0@.len() ==> ran($p1, #[trigger] self.v().elems[k], Ok(r->Ok_0@[k]))
ENS
  r is Err ==> exists|k: int| #![trigger self.v().elems[k]] 0 <= k < self.v().elems.len() && ran($p1, self.v().elems[k], Err::<T, DecodeErrorKind>(r->Err_0))
      && forall|q: int| 0 <= q < k ==> fine($p1, #[trigger] self.v().elems[q])
LOOP 0
ITER it
INV
  it.seq().len() == self.v().elems.len() && forall|k: int| 0 <= k < self.v().elems.len() ==> (#[trigger] it.seq()[k]).0@ == self.v().elems[k]
INV
  runnable($p1)
INV
  output@.len() == it.index@ && forall|k: int| 0 <= k < output@.len() ==> ran($p1, #[trigger] self.v().elems[k], Ok(output@[k]))
LSTART
  proof { let e = self.v().elems[it.index@]; assert(it.seq()[it.index@].0@ == e);
      assert forall|q: int| 0 <= q < it.index@ implies fine($p1, #[trigger] self.v().elems[q]) by { assert(ran($p1, self.v().elems[q], Ok(output@[q]))); } }
FN Map::to_vec
TAGS C22
REQ
  runnable($p1) && runnable($p2)
ENS
  r is Ok ==> r->Ok_0@.len() == self.v().elems.len() && forall|k: int| 0 <= k < r->Ok_0@.len() ==> ran($p1, (#[trigger] self.v().elems[k]).0, Ok(r->Ok_0@[k].0)) && ran($p2, self.v().elems[k].1, Ok(r->Ok_0@[k].1))
ENS
  r is Err ==> exists|k: int| #![trigger self.v().elems[k]] 0 <= k < self.v().elems.len()
      && (ran($p1, self.v().elems[k].0, Err::<K, DecodeErrorKind>(r->Err_0)) || (ran($p2, self.v().elems[k].1, Err::<V, DecodeErrorKind>(r->Err_0)) && fine($p1, self.v().elems[k].0)))
      && forall|q: int| 0 <= q < k ==> fine($p1, (#[trigger] self.v().elems[q]).0) && fine($p2, self.v().elems[q].1)
LOOP 0
ITER it
INV
  it.seq().len() == self.v().elems.len() && forall|k: int| 0 <= k < self.v().elems.len() ==> (#[trigger] it.seq()[k]).0.0@ == self.v().elems[k].0 && it.seq()[k].1.0@ == self.v().elems[k].1
INV
  runnable($p1) && runnable($p2)
INV
  output@.len() == it.index@ && ran2($p1, $p2, self.v().elems, output@)
LSTART
  proof { let e = self.v().elems[it.index@]; assert(it.seq()[it.index@].0.0@ == e.0);
      assert forall|q: int| 0 <= q < it.index@ implies fine($p1, (#[trigger] self.v().elems[q]).0) && fine($p2, self.v().elems[q].1) by {
          assert(ran($p1, self.v().elems[q].0, Ok(output@[q].0)) && ran($p2, self.v().elems[q].1, Ok(output@[q].1))); } }
BEFORE new 1
  proof { assert(ran($p1, self.v().elems[it.index@].0, Ok(key))); }
FN MapOwned::to_vec
TAGS C22
REQ
  runnable($p1) && runnable($p2)
ENS
  r is Ok ==> r->Ok_0@.len() == self.v().elems.len() && forall|k: int| 0 <= k < r->Ok_0@.len() ==> ran($p1, (#[trigger] self.v().elems[k]).0, Ok(r->Ok_0@[k].0)) && ran($p2, self.v().elems[k].1, Ok(r->Ok_0@[k].1))
ENS
  r is Err ==> exists|k: int| #![trigger self.v().elems[k]] 0 <= k < self.v().elems.len()
      && (ran($p1, self.v().elems[k].0, Err::<K, DecodeErrorKind>(r->Err_0)) || (ran($p2, self.v().elems[k].1, Err::<V, DecodeErrorKind>(r->Err_0)) && fine($p1, self.v().elems[k].0)))
      && forall|q: int| 0 <= q < k ==> fine($p1, (#[trigger] self.v().elems[q]).0) && fine($p2, self.v().elems[q].1)
LOOP 0
ITER it
INV
  it.seq().len() == self.v().elems.len() && forall|k: int| 0 <= k < self.v().elems.len() ==> (#[trigger] it.seq()[k]).0.0@ == self.v().elems[k].0 && it.seq()[k].1.0@ == self.v().elems[k].1
INV
  runnable($p1) && runnable($p2)
INV
  output@.len() == it.index@ && ran2($p1, $p2, self.v().elems, output@)
LSTART
  proof { let e = self.v().elems[it.index@]; assert(it.seq()[it.index@].0.0@ == e.0);
      assert forall|q: int| 0 <= q < it.index@ implies fine($p1, (#[trigger] self.v().elems[q]).0) && fine($p2, self.v().elems[q].1) by {
          assert(ran($p1, self.v().elems[q].0, Ok(output@[q].0)) && ran($p2, self.v().elems[q].1, Ok(output@[q].1))); } }
BEFORE new 1
  proof { assert(ran($p1, self.v().elems[it.index@].0, Ok(key))); }
