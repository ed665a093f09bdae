# containers: conversions, accessors
FILE prim.rs
TAGS C14 C15
PRELUDE
  pub open spec fn slice_is(r: &CborSlice, b: Seq<u8>) -> bool { r.0@ == b }
FN ToOwned for CborSlice::to_owned
TAGS C14 C01
ENS
  r.0@ == self.0@
FN Borrow<CborSlice> for CborData::borrow
TAGS C14 C01
ENS
  slice_is(r, self.0@)
FN AsRef<[u8]> for &CborSlice::as_ref
TAGS C22 C14
ENS
  r@ == self.0@
FN AsRef<[u8]> for CborData::as_ref
TAGS C22 C14
ENS
  r@ == self.0@
FN CborSlice::reader
TAGS C03 C14 C17
ENS
  r.s() == self.0@ && r.i() == 0 && r.inv()
FN CborData::read
TAGS C03 C14
ENS
  r.s() == self.0@ && r.i() == 0 && r.inv()
FILE types/structure.rs
TAGS C14
PRELUDE
  impl vstd::std_specs::convert::FromSpecImpl<u64> for StructureLength {
      open spec fn obeys_from_spec() -> bool { true }
      open spec fn from_spec(v: u64) -> StructureLength { StructureLength::Definite(canon_hv(v)) }
  }
FN Array::struct_len
ENS
  r == self.v().len
FN ArrayOwned::struct_len
ENS
  r == self.v().len
FN Map::struct_len
ENS
  r == self.v().len
FN MapOwned::struct_len
ENS
  r == self.v().len
FN Array::len
TAGS C14 C22
ENS
  r == self.v().elems.len()
ENS [C04]
  held(r as int)
ENTRY
  proof { ax_held(&self.elements); }
FN ArrayOwned::len
TAGS C14 C22
ENS
  r == self.v().elems.len()
ENS [C04]
  held(r as int)
ENTRY
  proof { ax_held(&self.elements); }
FN Map::len
TAGS C14 C22
ENS
  r == self.v().elems.len()
ENS [C04]
  held(r as int)
ENTRY
  proof { ax_held(&self.elements); }
FN MapOwned::len
TAGS C14 C22
ENS
  r == self.v().elems.len()
ENS [C04]
  held(r as int)
ENTRY
  proof { ax_held(&self.elements); }
FN Array::owned
TAGS C14 C01
CLOSURE 0
PARAMS |slice: &&'a CborSlice|
CRET (q: CborData)
CENS
  q.0@ == slice.0@
ENS
  r.v() =~= self.v()
FN ArrayOwned::borrow
TAGS C14 C01
CLOSURE 0
PARAMS |v: &'a CborData|
CRET (q: &'a CborSlice)
CENS
  q.0@ == v.0@
ENS
  r.v() =~= self.v()
FN Map::owned
TAGS C14 C01
CLOSURE 0
CRET (q: (CborData, CborData))
CENS
  q.0.0@ == p0__.0.0@ && q.1.0@ == p0__.1.0@
ENS
  r.v() =~= self.v()
FN MapOwned::borrow
TAGS C14 C01
CLOSURE 0
CRET (q: (&'a CborSlice, &'a CborSlice))
CENS
  q.0.0@ == p0__.0.0@ && q.1.0@ == p0__.1.0@
ENS
  r.v() =~= self.v()
FN ArrayBuilder::new
ENS
  cds(r.elements@) =~= Seq::<Seq<u8>>::empty()
FN ArrayBuilder::append
ENS
  cds(final(self).elements@) =~= cds(old(self).elements@).push(data.0@)
FN ArrayBuilder::finite
ENS
  r.v().elems =~= cds(self.elements@) && sl_wf(r.v().len, r.v().elems.len() as int) && r.v().len is Definite && shortest(r.v().len->Definite_0)
FN ArrayBuilder::indefinite
ENS
  r.v().elems =~= cds(self.elements@) && r.v().len is Indefinite
FN TagValue::raw_value
TAGS C11 C09
ENS
  r == self.0
FN TagValue::to_u64
TAGS C11 C17
ENS
  r == hv_val(self.0)
FN TagValue::from_u64
TAGS C09
ENS
  hv_val(r.0) == v && hv_wf(r.0) && shortest(r.0)
FN Tag::tag_repr
ENS
  r.0 == self.v().tag
FN TagOwned::tag_repr
ENS
  r.0 == self.v().tag
FN Tag::value
TAGS C11 C17
ENS
  r == hv_val(self.v().tag)
FN TagOwned::value
TAGS C11 C17
ENS
  r == hv_val(self.v().tag)
FN Tag::data
ENS
  r.0@ == self.v().data
FN TagOwned::data
ENS
  r.0@ == self.v().data
FN Tag::reader
TAGS C03
ENS
  r.s() == self.v().data && r.i() == 0 && r.inv()
FN TagOwned::read_data
ENS
  r.s() == self.v().data && r.i() == 0 && r.inv()
FN Tag::owned
TAGS C14 C01
ENS
  r.v() =~= self.v()
FN TagOwned::borrow
TAGS C14 C01
ENS
  r.v() =~= self.v()
FILE types/mod.rs
FN Data::owned
TAGS C14 C01
ENS
  r.v() == self.v()
FN DataOwned::borrow
TAGS C14 C01
ENS
  r.v() == self.v()
