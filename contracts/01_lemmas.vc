# Lemmas about the grammar: progress, locality, truncation.
FILE @crate
PRELUDE
  pub mod lemmas_ {
  use vstd::prelude::*;
  use crate::spec_::*;
  verus! {
  // arguments are never negative
  pub proof fn lemma_be(s: Seq<u8>, i: int, n: int)
      ensures 0 <= be(s, i, n),
      decreases n
  { if n > 0 { lemma_be(s, i, n - 1); } }

  pub proof fn lemma_arg(s: Seq<u8>, i: int)
      ensures 0 <= arg(s, i),
  { lemma_be(s, i + 1, extra(s[i])); }

  /// an end is inside the buffer and after the start
  pub proof fn lemma_item_end(s: Seq<u8>, i: int)
      requires 0 <= i
      ensures item(s, i) is End ==> i < item(s, i)->End_0 <= s.len() && hd(s, i) is End && hd(s, i)->End_0 <= item(s, i)->End_0,
          item(s, i) is Missing ==> 0 <= item(s, i)->got < item(s, i)->n,
      decreases s.len() - i, 0int, 0int
  {
      if i < s.len() { lemma_arg(s, i); }
      match hd(s, i) {
          R::End(j) => {
              let m = major(s[i]);
              if ai(s[i]) == 31 {
                  if m == 2 || m == 3 { lemma_chunks_end(s, j, m); }
                  else if m == 4 { lemma_until_break_end(s, j); }
                  else if m == 5 { lemma_pairs_end(s, j, false); }
              } else if m == 4 { lemma_items_end(s, j, arg(s, i)); }
              else if m == 5 { lemma_items_end(s, j, 2 * arg(s, i)); }
              else if m == 6 { lemma_item_end(s, j); }
          },
          e => {},
      }
  }
  pub proof fn lemma_items_end(s: Seq<u8>, i: int, n: int)
      requires 0 <= i <= s.len()
      ensures items(s, i, n) is End ==> i <= items(s, i, n)->End_0 <= s.len(),
          items(s, i, n) is Missing ==> 0 <= items(s, i, n)->got < items(s, i, n)->n,
      decreases s.len() - i, 1int, n
  {
      if n > 0 {
          lemma_item_end(s, i);
          match item(s, i) { R::End(j) => lemma_items_end(s, j, n - 1), e => {} }
      }
  }
  pub proof fn lemma_until_break_end(s: Seq<u8>, i: int)
      requires 0 <= i <= s.len()
      ensures until_break(s, i) is End ==> i < until_break(s, i)->End_0 <= s.len(),
          until_break(s, i) is Missing ==> 0 <= until_break(s, i)->got < until_break(s, i)->n,
      decreases s.len() - i, 1int, 0int
  {
      if i < s.len() && s[i] == 0xff { } else {
          lemma_item_end(s, i);
          match item(s, i) { R::End(j) => lemma_until_break_end(s, j), e => {} }
      }
  }
  pub proof fn lemma_pairs_end(s: Seq<u8>, i: int, val: bool)
      requires 0 <= i <= s.len()
      ensures pairs(s, i, val) is End ==> i < pairs(s, i, val)->End_0 <= s.len(),
          pairs(s, i, val) is Missing ==> 0 <= pairs(s, i, val)->got < pairs(s, i, val)->n,
      decreases s.len() - i, 1int, 0int
  {
      if i < s.len() && s[i] == 0xff { } else {
          lemma_item_end(s, i);
          match item(s, i) { R::End(j) => lemma_pairs_end(s, j, !val), e => {} }
      }
  }
  pub proof fn lemma_chunks_end(s: Seq<u8>, i: int, m: int)
      requires 0 <= i <= s.len()
      ensures chunks(s, i, m) is End ==> i < chunks(s, i, m)->End_0 <= s.len(),
          chunks(s, i, m) is Missing ==> 0 <= chunks(s, i, m)->got < chunks(s, i, m)->n,
      decreases s.len() - i, 1int, 0int
  {
      match hd(s, i) {
          R::End(j) => {
              lemma_arg(s, i);
              match content(s, j, arg(s, i)) { R::End(k) => lemma_chunks_end(s, k, m), e => {} }
          },
          e => {},
      }
  }

  // ------------------------------------------------------------ locality
  /// the same bytes at another place
  pub open spec fn agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int) -> bool {
      &&& 0 <= i && 0 <= k && 0 <= n && i + n <= s.len() && k + n <= t.len()
      &&& forall|x: int| i <= x < i + n ==> #[trigger] s[x] == t[x - i + k]
  }
  pub proof fn lemma_be_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int)
      requires agree(s, i, t, k, n)
      ensures be(s, i, n) == be(t, k, n)
      decreases n
  {
      if n > 0 {
          lemma_be_agree(s, i, t, k, n - 1);
          assert(s[i + n - 1] == t[i + n - 1 - i + k]);
      }
  }
  pub proof fn lemma_hd_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int)
      requires agree(s, i, t, k, n), hd(s, i) is End, i + n >= hd(s, i)->End_0,
      ensures hd(t, k) == R::End(hd(s, i)->End_0 - i + k), arg(s, i) == arg(t, k), s[i] == t[k],
  {
      assert(s[i] == t[i - i + k]);
      assert(agree(s, i + 1, t, k + 1, extra(s[i])));
      lemma_be_agree(s, i + 1, t, k + 1, extra(s[i]));
  }
  /// an item ending at j is found again wherever its bytes are
  pub proof fn lemma_item_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int)
      requires agree(s, i, t, k, n), item(s, i) == R::End(i + n),
      ensures item(t, k) == R::End(k + n),
      decreases s.len() - i, 0int, 0int
  {
      lemma_item_end(s, i);
      let j = hd(s, i)->End_0;
      let m = major(s[i]);
      lemma_arg(s, i);
      if ai(s[i]) == 31 {
          if m == 2 || m == 3 { lemma_chunks_end(s, j, m); }
          else if m == 4 { lemma_until_break_end(s, j); }
          else if m == 5 { lemma_pairs_end(s, j, false); }
      } else if m == 4 { lemma_items_end(s, j, arg(s, i)); }
      else if m == 5 { lemma_items_end(s, j, 2 * arg(s, i)); }
      else if m == 6 { lemma_item_end(s, j); }
      lemma_hd_agree(s, i, t, k, n);
      let d = j - i;
      assert(agree(s, j, t, k + d, n - d));
      if ai(s[i]) == 31 {
          if m == 2 || m == 3 { lemma_chunks_agree(s, j, t, k + d, n - d, m); }
          else if m == 4 { lemma_until_break_agree(s, j, t, k + d, n - d); }
          else if m == 5 { lemma_pairs_agree(s, j, t, k + d, n - d, false); }
      } else if m == 4 { lemma_items_agree(s, j, t, k + d, n - d, arg(s, i)); }
      else if m == 5 { lemma_items_agree(s, j, t, k + d, n - d, 2 * arg(s, i)); }
      else if m == 6 { lemma_item_agree(s, j, t, k + d, n - d); }
  }
  pub proof fn lemma_items_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int, c: int)
      requires agree(s, i, t, k, n), items(s, i, c) == R::End(i + n),
      ensures items(t, k, c) == R::End(k + n),
      decreases s.len() - i, 1int, c
  {
      if c > 0 {
          lemma_item_end(s, i);
          let j = item(s, i)->End_0;
          let d = j - i;
          lemma_items_end(s, j, c - 1);
          lemma_item_agree(s, i, t, k, d);
          lemma_items_agree(s, j, t, k + d, n - d, c - 1);
      }
  }
  pub proof fn lemma_until_break_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int)
      requires agree(s, i, t, k, n), until_break(s, i) == R::End(i + n),
      ensures until_break(t, k) == R::End(k + n),
      decreases s.len() - i, 1int, 0int
  {
      lemma_until_break_end(s, i);
      assert(s[i] == t[i - i + k]);
      if s[i] != 0xff {
          lemma_item_end(s, i);
          let j = item(s, i)->End_0;
          let d = j - i;
          lemma_until_break_end(s, j);
          lemma_item_agree(s, i, t, k, d);
          lemma_until_break_agree(s, j, t, k + d, n - d);
      }
  }
  pub proof fn lemma_pairs_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int, v: bool)
      requires agree(s, i, t, k, n), pairs(s, i, v) == R::End(i + n),
      ensures pairs(t, k, v) == R::End(k + n),
      decreases s.len() - i, 1int, 0int
  {
      lemma_pairs_end(s, i, v);
      assert(s[i] == t[i - i + k]);
      if s[i] != 0xff {
          lemma_item_end(s, i);
          let j = item(s, i)->End_0;
          let d = j - i;
          lemma_pairs_end(s, j, !v);
          lemma_item_agree(s, i, t, k, d);
          lemma_pairs_agree(s, j, t, k + d, n - d, !v);
      }
  }
  pub proof fn lemma_chunks_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int, m: int)
      requires agree(s, i, t, k, n), chunks(s, i, m) == R::End(i + n),
      ensures chunks(t, k, m) == R::End(k + n),
      decreases s.len() - i, 1int, 0int
  {
      lemma_chunks_end(s, i, m);
      lemma_arg(s, i);
      let j = hd(s, i)->End_0;
      if s[i] != 0xff {
          let e = j + arg(s, i);
          lemma_chunks_end(s, e, m);
          lemma_hd_agree(s, i, t, k, n);
          lemma_chunks_agree(s, e, t, k + (e - i), n - (e - i), m);
      } else { lemma_hd_agree(s, i, t, k, n); }
  }

  // ------------------------------------------------------------ truncation
  /// a strict prefix of an item lacks a piece, and the piece is not all there
  pub open spec fn lacks(r: R) -> bool { r is Missing && 0 <= r->got < r->n }

  pub proof fn lemma_hd_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), hd(s, i) is End,
      ensures k < hd(s, i)->End_0 ==> lacks(hd(t, i)),
          k >= hd(s, i)->End_0 ==> hd(t, i) == hd(s, i) && arg(t, i) == arg(s, i) && t[i] == s[i],
  {
      if k >= hd(s, i)->End_0 { lemma_hd_agree(s, i, t, i, hd(s, i)->End_0 - i); }
  }
  pub proof fn lemma_item_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), item(s, i) is End, k < item(s, i)->End_0,
      ensures lacks(item(t, i)),
      decreases s.len() - i, 0int, 0int
  {
      lemma_item_end(s, i);
      lemma_hd_cut(s, t, i, k);
      let j = hd(s, i)->End_0;
      if k >= j {
          let m = major(s[i]);
          lemma_arg(s, i);
          if ai(s[i]) == 31 {
              if m == 2 || m == 3 { lemma_chunks_cut(s, t, j, k, m); }
              else if m == 4 { lemma_until_break_cut(s, t, j, k); }
              else if m == 5 { lemma_pairs_cut(s, t, j, k, false); }
          } else if m == 4 { lemma_items_cut(s, t, j, k, arg(s, i)); }
          else if m == 5 { lemma_items_cut(s, t, j, k, 2 * arg(s, i)); }
          else if m == 6 { lemma_item_cut(s, t, j, k); }
      }
  }
  /// an item that ends before the cut is still there
  pub proof fn lemma_item_kept(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
      requires 0 <= i <= k <= s.len(), t == s.take(k), item(s, i) is End, item(s, i)->End_0 <= k,
      ensures item(t, i) == item(s, i),
  {
      lemma_item_end(s, i);
      lemma_item_agree(s, i, t, i, item(s, i)->End_0 - i);
  }
  pub proof fn lemma_items_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int, c: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), items(s, i, c) is End, k < items(s, i, c)->End_0,
      ensures lacks(items(t, i, c)),
      decreases s.len() - i, 1int, c
  {
      lemma_items_end(s, i, c);
      lemma_item_end(s, i);
      let j = item(s, i)->End_0;
      if j <= k { lemma_item_kept(s, t, i, k); lemma_items_cut(s, t, j, k, c - 1); }
      else { lemma_item_cut(s, t, i, k); }
  }
  pub proof fn lemma_until_break_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), until_break(s, i) is End, k < until_break(s, i)->End_0,
      ensures lacks(until_break(t, i)),
      decreases s.len() - i, 1int, 0int
  {
      lemma_until_break_end(s, i);
      if s[i] != 0xff {
          lemma_item_end(s, i);
          let j = item(s, i)->End_0;
          if j <= k { lemma_item_kept(s, t, i, k); lemma_until_break_cut(s, t, j, k); }
          else { lemma_item_cut(s, t, i, k); }
      }
  }
  pub proof fn lemma_pairs_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int, v: bool)
      requires 0 <= i <= k < s.len(), t == s.take(k), pairs(s, i, v) is End, k < pairs(s, i, v)->End_0,
      ensures lacks(pairs(t, i, v)),
      decreases s.len() - i, 1int, 0int
  {
      lemma_pairs_end(s, i, v);
      if s[i] != 0xff {
          lemma_item_end(s, i);
          let j = item(s, i)->End_0;
          if j <= k { lemma_item_kept(s, t, i, k); lemma_pairs_cut(s, t, j, k, !v); }
          else { lemma_item_cut(s, t, i, k); }
      }
  }
  pub proof fn lemma_chunks_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int, m: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), chunks(s, i, m) is End, k < chunks(s, i, m)->End_0,
      ensures lacks(chunks(t, i, m)),
      decreases s.len() - i, 1int, 0int
  {
      lemma_chunks_end(s, i, m);
      lemma_hd_cut(s, t, i, k);
      lemma_arg(s, i);
      let j = hd(s, i)->End_0;
      if k >= j && s[i] != 0xff {
          let e = j + arg(s, i);
          if e <= k { lemma_chunks_cut(s, t, e, k, m); }
      }
  }
  // ---- text
  /// reading a text differs from validating it only by UTF-8
  pub proof fn lemma_tchunks(s: Seq<u8>, i: int)
      requires 0 <= i <= s.len()
      ensures tchunks(s, i) is End ==> tchunks(s, i) == chunks(s, i, 3),
          tchunks(s, i) is Missing ==> tchunks(s, i) == chunks(s, i, 3),
          chunks(s, i, 3) is Missing ==> tchunks(s, i) == chunks(s, i, 3) || tchunks(s, i) is Bad,
          chunks(s, i, 3) is Bad ==> tchunks(s, i) is Bad,
      decreases s.len() - i
  {
      match hd(s, i) {
          R::End(j) => {
              lemma_arg(s, i);
              match content(s, j, arg(s, i)) { R::End(k) => if k > i { lemma_tchunks(s, k) }, e => {} }
          },
          e => {},
      }
  }
  pub proof fn lemma_ritem(s: Seq<u8>, i: int)
      requires 0 <= i <= s.len()
      ensures ritem(s, i) is End ==> ritem(s, i) == item(s, i),
          ritem(s, i) is Missing ==> ritem(s, i) == item(s, i),
          i < s.len() && major(s[i]) != 3 ==> ritem(s, i) == item(s, i),
          ritem(s, i) is End ==> i < ritem(s, i)->End_0 <= s.len(),
          ritem(s, i) is Missing ==> 0 <= ritem(s, i)->got < ritem(s, i)->n,
  {
      match hd(s, i) { R::End(j) => lemma_tchunks(s, j), e => {} }
      lemma_item_end(s, i);
  }
  pub proof fn lemma_tchunks_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int)
      requires agree(s, i, t, k, n), tchunks(s, i) == R::End(i + n),
      ensures tchunks(t, k) == R::End(k + n),
      decreases s.len() - i
  {
      lemma_tchunks(s, i);
      lemma_chunks_end(s, i, 3);
      lemma_arg(s, i);
      let j = hd(s, i)->End_0;
      if s[i] != 0xff {
          let e = j + arg(s, i);
          lemma_tchunks(s, e);
          lemma_chunks_end(s, e, 3);
          lemma_hd_agree(s, i, t, k, n);
          assert(s.subrange(j, e) =~= t.subrange(j - i + k, e - i + k)) by {
              assert forall|x: int| 0 <= x < e - j implies s.subrange(j, e)[x] == t.subrange(j - i + k, e - i + k)[x] by {
                  assert(s[j + x] == t[j + x - i + k]);
              }
          }
          lemma_tchunks_agree(s, e, t, k + (e - i), n - (e - i));
      } else { lemma_hd_agree(s, i, t, k, n); }
  }
  pub proof fn lemma_ritem_agree(s: Seq<u8>, i: int, t: Seq<u8>, k: int, n: int)
      requires agree(s, i, t, k, n), ritem(s, i) == R::End(i + n),
      ensures ritem(t, k) == R::End(k + n),
  {
      lemma_ritem(s, i);
      lemma_arg(s, i);
      let j = hd(s, i)->End_0;
      if major(s[i]) == 3 {
          lemma_tchunks(s, j);
          if ai(s[i]) == 31 { lemma_chunks_end(s, j, 3); }
          lemma_hd_agree(s, i, t, k, n);
          if ai(s[i]) == 31 {
              assert(agree(s, j, t, k + (j - i), n - (j - i)));
              lemma_tchunks_agree(s, j, t, k + (j - i), n - (j - i));
          } else {
              let e = j + arg(s, i);
              assert(s.subrange(j, e) =~= t.subrange(j - i + k, e - i + k)) by {
                  assert forall|x: int| 0 <= x < e - j implies s.subrange(j, e)[x] == t.subrange(j - i + k, e - i + k)[x] by {
                      assert(s[j + x] == t[j + x - i + k]);
                  }
              }
          }
      } else {
          lemma_item_agree(s, i, t, k, n);
          lemma_item_end(s, i);
          lemma_hd_agree(s, i, t, k, n);
      }
  }
  pub proof fn lemma_tchunks_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), tchunks(s, i) is End, k < tchunks(s, i)->End_0,
      ensures lacks(tchunks(t, i)),
      decreases s.len() - i
  {
      lemma_tchunks(s, i);
      lemma_hd_cut(s, t, i, k);
      lemma_arg(s, i);
      let j = hd(s, i)->End_0;
      if k >= j && s[i] != 0xff {
          let e = j + arg(s, i);
          if e <= k {
              assert(s.subrange(j, e) =~= t.subrange(j, e));
              lemma_tchunks_cut(s, t, e, k);
          }
      }
  }
  /// C06: reading a strict prefix of an element lacks a piece
  pub proof fn lemma_ritem_cut(s: Seq<u8>, t: Seq<u8>, i: int, k: int)
      requires 0 <= i <= k < s.len(), t == s.take(k), ritem(s, i) is End, k < ritem(s, i)->End_0,
      ensures lacks(ritem(t, i)),
  {
      lemma_ritem(s, i);
      lemma_hd_cut(s, t, i, k);
      lemma_arg(s, i);
      let j = hd(s, i)->End_0;
      if k >= j {
          if major(s[i]) == 3 {
              if ai(s[i]) == 31 { lemma_tchunks_cut(s, t, j, k); }
          } else {
              lemma_item_cut(s, t, i, k);
          }
      }
  }
  }
  }
