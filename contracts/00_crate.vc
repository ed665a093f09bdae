# Crate prelude: mathematical specification of the CBOR data format (RFC 8949),
# independent of the code, and the trusted specifications of std functions used.
FILE @crate
PRELUDE
  pub mod spec_ {
  use vstd::prelude::*;
  pub use crate::lemmas_::*;
  pub use crate::vals_::*;
  pub use vstd::utf8::*;
  pub use vstd::string::*;
  pub use vstd::std_specs::iter::*;
  pub use vstd::float::*;
  use core::str::Utf8Error;
  verus! {
  global size_of usize == 8;
  pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
  
  // ---------------------------------------------------------------- headers
  pub open spec fn major(b: u8) -> int { (b as int) / 32 }
  pub open spec fn ai(b: u8) -> int { (b as int) % 32 }
  /// number of argument bytes following the lead byte
  pub open spec fn extra(b: u8) -> int {
      if ai(b) == 24 { 1 } else if ai(b) == 25 { 2 } else if ai(b) == 26 { 4 } else if ai(b) == 27 { 8 } else { 0 }
  }
  /// RFC 8949: additional information 28..30 is reserved; 31 means indefinite
  /// for majors 2..5 and break for major 7, and is not allowed elsewhere
  pub open spec fn lead_ok(b: u8) -> bool {
      !(28 <= ai(b) <= 30) && (ai(b) == 31 ==> (2 <= major(b) <= 5 || major(b) == 7))
  }
  pub open spec fn be(s: Seq<u8>, i: int, n: int) -> int
      decreases n
  {
      if n <= 0 { 0 } else { be(s, i, n - 1) * 256 + s[i + n - 1] as int }
  }
  /// the argument of the header at i
  pub open spec fn arg(s: Seq<u8>, i: int) -> int {
      if ai(s[i]) < 24 { ai(s[i]) } else { be(s, i + 1, extra(s[i])) }
  }
  pub open spec fn hlen(b: u8) -> int { 1 + extra(b) }

  // ---------------------------------------------------------------- grammar
  /// Outcome of parsing from a position: the end of the item, or the piece that is not
  /// all there (bytes it needs, bytes available), or not well-formed.
  pub enum R { End(int), Missing { n: int, got: int }, Bad }

  /// the item header at i (lead byte and argument)
  pub open spec fn hd(s: Seq<u8>, i: int) -> R {
      if i >= s.len() { R::Missing { n: 1, got: 0 } }
      else if !lead_ok(s[i]) { R::Bad }
      else if s.len() - (i + 1) < extra(s[i]) { R::Missing { n: extra(s[i]), got: s.len() - (i + 1) } }
      else { R::End(i + hlen(s[i])) }
  }
  /// n bytes of content at j
  pub open spec fn content(s: Seq<u8>, j: int, n: int) -> R {
      if s.len() - j >= n { R::End(j + n) } else { R::Missing { n, got: s.len() - j } }
  }
  /// one complete item at i (RFC 8949 section 3)
  pub open spec fn item(s: Seq<u8>, i: int) -> R
      decreases s.len() - i, 0int, 0int
  {
      match hd(s, i) {
          R::End(j) => {
              let m = major(s[i]);
              if ai(s[i]) == 31 {
                  if m == 2 || m == 3 { chunks(s, j, m) }
                  else if m == 4 { until_break(s, j) }
                  else if m == 5 { pairs(s, j, false) }
                  else { R::Bad }
              } else if m == 2 || m == 3 { content(s, j, arg(s, i)) }
              else if m == 4 { items(s, j, arg(s, i)) }
              else if m == 5 { items(s, j, 2 * arg(s, i)) }
              else if m == 6 { item(s, j) }
              else { R::End(j) }
          },
          e => e,
      }
  }
  /// n items in a row
  pub open spec fn items(s: Seq<u8>, i: int, n: int) -> R
      decreases s.len() - i, 1int, n
  {
      if n <= 0 { R::End(i) } else {
          match item(s, i) {
              R::End(j) => if i < j <= s.len() { items(s, j, n - 1) } else { R::Bad },
              e => e,
          }
      }
  }
  /// items up to and including a break
  pub open spec fn until_break(s: Seq<u8>, i: int) -> R
      decreases s.len() - i, 1int, 0int
  {
      if i < s.len() && s[i] == 0xff { R::End(i + 1) } else {
          match item(s, i) {
              R::End(j) => if i < j <= s.len() { until_break(s, j) } else { R::Bad },
              e => e,
          }
      }
  }
  /// items in pairs up to and including a break; val: the next one is the second of a pair
  pub open spec fn pairs(s: Seq<u8>, i: int, val: bool) -> R
      decreases s.len() - i, 1int, 0int
  {
      if i < s.len() && s[i] == 0xff { if val { R::Bad } else { R::End(i + 1) } } else {
          match item(s, i) {
              R::End(j) => if i < j <= s.len() { pairs(s, j, !val) } else { R::Bad },
              e => e,
          }
      }
  }
  /// definite chunks of major m up to and including a break
  pub open spec fn chunks(s: Seq<u8>, i: int, m: int) -> R
      decreases s.len() - i, 1int, 0int
  {
      match hd(s, i) {
          R::End(j) => {
              if s[i] == 0xff { R::End(j) }
              else if major(s[i]) != m || ai(s[i]) == 31 { R::Bad }
              else {
                  match content(s, j, arg(s, i)) {
                      R::End(k) => if k > i { chunks(s, k, m) } else { R::Bad },
                      e => e,
                  }
              }
          },
          e => e,
      }
  }
  // ---- text: every chunk valid UTF-8 by itself
  pub open spec fn tcontent(s: Seq<u8>, j: int, n: int) -> R {
      match content(s, j, n) {
          R::End(k) => if valid_utf8(s.subrange(j, k)) { R::End(k) } else { R::Bad },
          e => e,
      }
  }
  pub open spec fn tchunks(s: Seq<u8>, i: int) -> R
      decreases s.len() - i
  {
      match hd(s, i) {
          R::End(j) => {
              if s[i] == 0xff { R::End(j) }
              else if major(s[i]) != 3 || ai(s[i]) == 31 { R::Bad }
              else {
                  match tcontent(s, j, arg(s, i)) {
                      R::End(k) => if k > i { tchunks(s, k) } else { R::Bad },
                      e => e,
                  }
              }
          },
          e => e,
      }
  }
  /// an element as read: its own text content must be UTF-8
  pub open spec fn ritem(s: Seq<u8>, i: int) -> R {
      match hd(s, i) {
          R::End(j) => if major(s[i]) == 3 {
              if ai(s[i]) == 31 { tchunks(s, j) } else { tcontent(s, j, arg(s, i)) }
          } else { item(s, i) },
          e => e,
      }
  }

  // ---------------------------------------------------------------- trusted std wrappers
  #[verifier::external_body]
  pub fn u16_from_be_bytes(a: [u8; 2]) -> (r: u16)
      ensures r as int == be(a@, 0, 2),
  { u16::from_be_bytes(a) }
  #[verifier::external_body]
  pub fn u32_from_be_bytes(a: [u8; 4]) -> (r: u32)
      ensures r as int == be(a@, 0, 4),
  { u32::from_be_bytes(a) }
  #[verifier::external_body]
  pub fn u64_from_be_bytes(a: [u8; 8]) -> (r: u64)
      ensures r as int == be(a@, 0, 8),
  { u64::from_be_bytes(a) }
  /// that many things are held in memory already. A reservation is only proved harmless when it is for a number of things
  /// that are there, not for a number that an input declares
  pub uninterp spec fn held(n: int) -> bool;
  #[verifier::external_body]
  pub proof fn ax_held<T>(v: &Vec<T>)
      ensures held(v@.len() as int),
  { }
  #[verifier::external_body]
  pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
      requires held(n as int),
      ensures r@.len() == 0,
  { Vec::with_capacity(n) }
  #[verifier::external_body]
  pub fn vec_reserve<T>(v: &mut Vec<T>, n: usize)
      requires held(n as int),
      ensures final(v)@ == old(v)@,
  { v.reserve(n) }
  /// the n-byte big-endian encoding of v
  pub open spec fn be_seq(v: int, n: int) -> Seq<u8>
      decreases n
  {
      if n <= 0 { Seq::empty() } else { be_seq(v / 256, n - 1).push((v % 256) as u8) }
  }
  pub trait BeBytes: Sized {
      type A;
      spec fn be_val(self) -> int;
      spec fn be_post(self, r: Self::A) -> bool;
      fn be_bytes(self) -> (r: Self::A)
          ensures self.be_post(r);
  }
  impl BeBytes for u16 {
      type A = [u8; 2];
      open spec fn be_val(self) -> int { self as int }
      open spec fn be_post(self, r: [u8; 2]) -> bool { r@ == be_seq(self as int, 2) }
      #[verifier::external_body]
      fn be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
  }
  impl BeBytes for u32 {
      type A = [u8; 4];
      open spec fn be_val(self) -> int { self as int }
      open spec fn be_post(self, r: [u8; 4]) -> bool { r@ == be_seq(self as int, 4) }
      #[verifier::external_body]
      fn be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
  }
  impl BeBytes for u64 {
      type A = [u8; 8];
      open spec fn be_val(self) -> int { self as int }
      open spec fn be_post(self, r: [u8; 8]) -> bool { r@ == be_seq(self as int, 8) }
      #[verifier::external_body]
      fn be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
  }
  // ---------------------------------------------------------------- std functions vstd does not specify
  #[verifier::external_type_specification]
  #[verifier::external_body]
  pub struct ExUtf8Error(Utf8Error);
  pub assume_specification [ std::str::from_utf8 ](v: &[u8]) -> (r: Result<&str, Utf8Error>)
      ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0@ == decode_utf8(v@);
  pub assume_specification [ String::len ](v: &String) -> (r: usize)
      ensures r == encode_utf8(v@).len();
  pub assume_specification [ f32::from_bits ](v: u32) -> (r: f32)
      ensures r.to_bits_spec() == v;
  pub assume_specification [ f64::from_bits ](v: u64) -> (r: f64)
      ensures r.to_bits_spec() == v;
  pub assume_specification<T: Clone> [ <[T]>::to_vec ](v: &[T]) -> (r: Vec<T>)
      ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> cloned::<T>(v@[i], #[trigger] r@[i]);
  pub assume_specification<T, A: core::alloc::Allocator> [ <Vec<T, A> as AsRef<[T]>>::as_ref ](v: &Vec<T, A>) -> (r: &[T])
      ensures r@ == v@;
  pub assume_specification<T, A: core::alloc::Allocator> [ <Vec<T, A> as core::borrow::Borrow<[T]>>::borrow ](v: &Vec<T, A>) -> (r: &[T])
      ensures r@ == v@;
  pub assume_specification<T> [ <T as core::convert::From<T>>::from ](t: T) -> (r: T)
      ensures r == t;
  /// a string slice occupies at most usize::MAX bytes
  #[verifier::external_body]
  pub proof fn ax_str_len(v: &str)
      ensures v.spec_bytes().len() <= usize::MAX, v.spec_bytes() == encode_utf8(v@)
  {}
  pub fn map_collect<I: Iterator, T, F: Fn(I::Item) -> T>(it: I, f: F) -> (r: Vec<T>)
      requires it.obeys_prophetic_iter_laws(), forall|x: I::Item| #[trigger] f.requires((x,)),
      ensures r@.len() == it.remaining().len(),
          forall|k: int| 0 <= k < r@.len() ==> f.ensures((it.remaining()[k],), #[trigger] r@[k]),
  { it.map(f).collect() }
  /// collecting into a Result: up to the first error (that the iterator comes to its end is not proved here)
  #[verifier::exec_allows_no_decreases_clause]
  pub fn try_collect<I: Iterator, T, E, F: Fn(I::Item) -> Result<T, E>>(it: I, f: F) -> (r: Result<Vec<T>, E>)
      requires it.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < it.remaining().len() ==> #[trigger] f.requires((it.remaining()[k],)),
      ensures r is Ok ==> it.will_return_none() && r->Ok_0@.len() == it.remaining().len() && forall|k: int| 0 <= k < it.remaining().len() ==> f.ensures((#[trigger] it.remaining()[k],), Ok(r->Ok_0@[k])),
          r is Err ==> exists|k: int| 0 <= k < it.remaining().len() && f.ensures((#[trigger] it.remaining()[k],), Err(r->Err_0)),
  {
      let mut rest = it;
      let mut out: Vec<T> = Vec::new();
      let ghost all = it.remaining(); let ghost wn = it.will_return_none();
      loop
          invariant
              all == it.remaining() && wn == it.will_return_none() && rest.obeys_prophetic_iter_laws() && rest.will_return_none() == wn,
              out@.len() <= all.len() && rest.remaining() =~= all.subrange(out@.len() as int, all.len() as int),
              forall|k: int| 0 <= k < all.len() ==> #[trigger] f.requires((all[k],)),
              forall|k: int| 0 <= k < out@.len() ==> f.ensures((#[trigger] all[k],), Ok(out@[k])),
          ensures wn && out@.len() == all.len(),
      {
          match rest.next() {
              None => { break; }
              Some(x) => {
                  assert(x == all[out@.len() as int]);
                  match f(x) { Ok(v) => { out.push(v); } Err(e) => { proof { let ghost k = out@.len() as int; assert(f.ensures((all[k],), Err::<T, E>(e))); } return Err(e); } }
              }
          }
      }
      Ok(out)
  }
  /// the name of a type, the text of a displayed value: of these only is known that they are functions
  pub uninterp spec fn name_of<T: ?Sized>() -> Seq<char>;
  pub uninterp spec fn shown<T: ?Sized>(t: &T) -> Seq<char>;
  pub assume_specification<T: ?Sized> [ core::any::type_name::<T> ]() -> (r: &'static str)
      ensures r@ == name_of::<T>();
  #[verifier::external_body]
  pub fn format_display<T: ?Sized>(t: &T) -> (r: String)
      ensures r@ == shown(t),
  { String::new() }
  /// what dereferences to str, and the text it stands for
  pub trait Textual {
      spec fn text_of(&self) -> Seq<char>;
      fn as_text(&self) -> (r: &str) ensures r@ == self.text_of();
  }
  impl Textual for str {
      open spec fn text_of(&self) -> Seq<char> { self@ }
      fn as_text(&self) -> (r: &str) { self }
  }
  impl Textual for String {
      open spec fn text_of(&self) -> Seq<char> { self@ }
      fn as_text(&self) -> (r: &str) { self.as_str() }
  }
  impl Textual for std::borrow::Cow<'static, str> {
      open spec fn text_of(&self) -> Seq<char> { match *self { std::borrow::Cow::Borrowed(s) => s@, std::borrow::Cow::Owned(o) => o@ } }
      fn as_text(&self) -> (r: &str) { match self { std::borrow::Cow::Borrowed(s) => s, std::borrow::Cow::Owned(o) => o.as_str() } }
  }
  pub fn str_push<T: Textual + ?Sized>(s: &mut String, t: &T)
      ensures final(s)@ == old(s)@ + t.text_of()
  { let t = t.as_text(); s.push_str(t); }
  #[verifier::external_body]
  pub fn format_any() -> (r: String) { String::new() }
  #[verifier::external_body]
  pub fn into_CborSlice<'a>(s: &'a [u8]) -> (r: &'a crate::prim::CborSlice)
      ensures r.0@ == s@,
  { unsafe { &*(s as *const [u8] as *const crate::prim::CborSlice) } }
  #[verifier::external_body]
  pub fn into_CborSliceOf<'a, T>(s: &'a [u8]) -> (r: &'a crate::prim::CborSliceOf<T>)
      ensures r.1@ == s@,
  { unsafe { &*(s as *const [u8] as *const crate::prim::CborSliceOf<T>) } }
  }
  }
FILE types/mod.rs
DERIVE Type Clone Copy PartialEq Eq Structural
