FILE decode.rs
PRELUDE
  /// the text of a context entry; the context of an error, innermost first
  pub open spec fn place_text(c: Cow<'static, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(o) => o@ } }
  pub open spec fn places(e: DecodeError) -> Seq<Seq<char>> { e.context@.map_values(|c: Cow<'static, str>| place_text(c)) }
FN DecodeError::push
TAGS C04
ENS [C23]
  r.error == self.error
ENS [C24]
  places(r) =~= places(self).push(name_of::<T>())
FN DecodeError::push_str
TAGS C04
ENS [C23]
  r.error == self.error
ENS [C24]
  places(r) =~= places(self).push($p1@)
FN DecodeError::push_string
TAGS C04
ENS [C23]
  r.error == self.error
ENS [C24]
  places(r) =~= places(self).push($p1@)
FN DecodeError::new
TAGS C04
ENS [C23]
  r.error == $p0
ENS [C24]
  places(r) =~= seq![name_of::<T>()]
FN DecodeError::new_str
TAGS C04
ENS [C23]
  r.error == $p1
ENS [C24]
  places(r) =~= seq![$p0@]
FN DecodeError::new_string
TAGS C04
ENS [C23]
  r.error == $p1
ENS [C24]
  places(r) =~= seq![$p0@]
