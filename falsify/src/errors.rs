//! C23: the error says what was expected and what was found.
use super::gen::*;
use super::oracle::*;
use super::props::{lib_hv, seed, type_at};
use super::{ensure, nontrivial, Kind, Res, Suite};
use cbored::state::{State, StateError};
use cbored::tagged::*;
use cbored::validate::{ValidateError, Validator};
use cbored::*;

pub fn suites(p: &str) -> Vec<Suite> {
    match p {
        "C23" => vec![
            Suite { name: "causes", kind: Kind::Buf, f: c23 },
            Suite { name: "causes-wf", kind: Kind::Seed, f: c23_wf },
            Suite { name: "events", kind: Kind::Seed, f: c23_events },
        ],
        _ => vec![],
    }
}

/// the error, with what it says
#[derive(Clone, Debug, PartialEq)]
enum E {
    /// which piece, how many bytes it takes, how many are there
    Missing(&'static str, u64, u64),
    /// low bits of the first byte; whether they are reserved
    Lead(bool, u8),
    State,
    Wrong(Type, Type),
    WrongOf(Vec<Type>, Type),
    Tag(u64, u64),
    Tags(Vec<u64>, u64),
    Len(usize, usize),
    Break,
    Utf8,
    TextInText,
    BytesInBytes,
    InText(Type),
    InBytes(Type),
    Left(usize, usize, u8),
}
fn lead_of(d: String) -> E {
    let n: u8 = d.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(255);
    E::Lead(d.starts_with("Reserved"), n % 32)
}
fn ctx(d: String) -> &'static str {
    match &d[..] {
        "Header" => "Header",
        "IndirectLen" => "IndirectLen",
        "Content" => "Content",
        _ => "?",
    }
}
fn e_r(e: &ReaderError) -> E {
    match e {
        ReaderError::LeadError(l) => lead_of(format!("{:?}", l)),
        ReaderError::DataMissing(m) => E::Missing(ctx(format!("{:?}", m.context)), m.expecting_bytes as u64, m.got_bytes as u64),
        ReaderError::StateError(_) => E::State,
        ReaderError::WrongExpectedType { expected, got } => E::Wrong(*expected, *got),
        ReaderError::WrongExpectedTypes { expected, got } => E::WrongOf(expected.to_vec(), *got),
        ReaderError::WrongExpectedTag { expected, got } => E::Tag(*expected, *got),
        ReaderError::WrongExpectedTags { expected, got } => E::Tags(expected.to_vec(), *got),
        ReaderError::WrongExpectedLength { expected, got } => E::Len(*expected, *got),
        ReaderError::UnexpectedBreakType => E::Break,
        ReaderError::TextUTF8Error(_) => E::Utf8,
        ReaderError::TextChunksInTextChunks => E::TextInText,
        ReaderError::BytesChunksInBytesChunks => E::BytesInBytes,
        ReaderError::WrongExpectedTypeInText { got } => E::InText(*got),
        ReaderError::WrongExpectedTypeInBytes { got } => E::InBytes(*got),
        ReaderError::NotTerminated { at, remaining_bytes, next_byte } => E::Left(*at, *remaining_bytes, *next_byte),
    }
}
fn e_v(e: &ValidateError) -> E {
    match e {
        ValidateError::LeadError(l) => lead_of(format!("{:?}", l)),
        ValidateError::DataMissing(m) => E::Missing(ctx(format!("{:?}", m.context)), m.expecting_bytes as u64, m.got_bytes as u64),
        ValidateError::StateError(_) => E::State,
    }
}

/// a place where reading goes on, or the errors it may stop with
type W = Result<usize, Vec<E>>;
fn whd(s: &[u8], i: usize) -> W {
    match hd(s, i) {
        R::End(j) => Ok(j),
        R::Bad => Err(vec![E::Lead(ai(s[i]) != 31, ai(s[i]))]),
        R::Missing { n, got } => Err(vec![E::Missing(if i >= s.len() { "Header" } else { "IndirectLen" }, n, got)]),
    }
}
fn wcontent(s: &[u8], j: usize, n: u64, text: bool) -> W {
    match content(s, j, n) {
        R::End(k) if text && !is_utf8(&s[j..k]) => Err(vec![E::Utf8]),
        R::End(k) => Ok(k),
        R::Missing { n, got } => Err(vec![E::Missing("Content", n, got)]),
        R::Bad => unreachable!(),
    }
}
/// an element skipped as a whole
fn witem(s: &[u8], i: usize) -> W {
    let j = whd(s, i)?;
    let m = major(s[i]);
    if ai(s[i]) == 31 {
        let mut k = j;
        match m {
            2 | 3 => loop {
                let c = whd(s, k)?;
                if s[k] == 0xff {
                    return Ok(c);
                }
                if major(s[k]) != m || ai(s[k]) == 31 {
                    let mut v = vec![E::State];
                    // a string of the other kind: its content may be looked for first
                    if matches!(major(s[k]), 2 | 3) && ai(s[k]) != 31 {
                        v.extend(wcontent(s, c, arg(s, k), false).err().unwrap_or_default());
                    }
                    return Err(v);
                }
                k = wcontent(s, c, arg(s, k), false)?;
            },
            4 | 5 => {
                let mut val = false;
                loop {
                    if k < s.len() && s[k] == 0xff {
                        return if val && m == 5 { Err(vec![E::State]) } else { Ok(k + 1) };
                    }
                    k = witem(s, k)?;
                    val = !val;
                }
            }
            _ => return Err(vec![E::State]),
        }
    }
    match m {
        2 | 3 => wcontent(s, j, arg(s, i), false),
        4 | 5 => {
            let mut k = j;
            let mut c = 0u128;
            while c < arg(s, i) as u128 * if m == 5 { 2 } else { 1 } {
                k = witem(s, k)?;
                c += 1;
            }
            Ok(k)
        }
        6 => witem(s, j),
        _ => Ok(j),
    }
}
fn ty(s: &[u8], i: usize) -> Type {
    type_at(s, i).unwrap()
}
/// a string read as such
fn wstr(s: &[u8], i: usize, m: u8) -> W {
    let j = whd(s, i)?;
    if major(s[i]) != m {
        return Err(vec![E::Wrong(if m == 3 { Type::Text } else { Type::Bytes }, ty(s, i))]);
    }
    if ai(s[i]) != 31 {
        return wcontent(s, j, arg(s, i), m == 3);
    }
    let mut k = j;
    loop {
        let c = whd(s, k)?;
        if s[k] == 0xff {
            return Ok(c);
        }
        if major(s[k]) != m {
            return Err(vec![if m == 3 { E::InText(ty(s, k)) } else { E::InBytes(ty(s, k)) }]);
        }
        if ai(s[k]) == 31 {
            return Err(vec![if m == 3 { E::TextInText } else { E::BytesInBytes }]);
        }
        k = wcontent(s, c, arg(s, k), m == 3)?;
    }
}
fn wcont(s: &[u8], i: usize, t: Type) -> W {
    whd(s, i)?;
    if ty(s, i) != t {
        return Err(vec![E::Wrong(t, ty(s, i))]);
    }
    witem(s, i)
}
fn wone(s: &[u8], i: usize, t: Type) -> W {
    let j = whd(s, i)?;
    if ty(s, i) != t {
        return Err(vec![E::Wrong(t, ty(s, i))]);
    }
    Ok(j)
}
fn wof(s: &[u8], i: usize, t: &[Type]) -> W {
    let j = whd(s, i)?;
    if !t.contains(&ty(s, i)) {
        return Err(vec![E::WrongOf(t.to_vec(), ty(s, i))]);
    }
    Ok(j)
}
fn wdata(s: &[u8], i: usize) -> W {
    whd(s, i)?;
    match ty(s, i) {
        Type::Break => Err(vec![E::Break]),
        Type::Bytes => wstr(s, i, 2),
        Type::Text => wstr(s, i, 3),
        _ => witem(s, i),
    }
}
fn left(s: &[u8], j: usize) -> W {
    if j == s.len() {
        Ok(j)
    } else {
        Err(vec![E::Left(j, s.len() - j, s[j])])
    }
}
/// a tagged element: its number, then its content as a whole
fn wtag(s: &[u8], i: usize, n: u64, f: &dyn Fn(&[u8]) -> W) -> W {
    let e = wcont(s, i, Type::Tag)?;
    let g = arg(s, i);
    if g != n {
        return Err(vec![E::Tag(n, g)]);
    }
    let d = &s[i + 1 + extra(s[i])..e];
    left(d, f(d)?)?;
    Ok(e)
}
fn wrat(s: &[u8]) -> W {
    let e = wcont(s, 0, Type::Array)?;
    let el = match V::parse(s, 0) {
        Some((V::Arr(_, el), _)) => el,
        _ => return Ok(e),
    };
    if el.len() != 2 {
        return Err(vec![E::Len(2, el.len())]);
    }
    let (n, d) = (&el[0], &el[1]);
    match ty(n, 0) {
        Type::Positive | Type::Negative => {}
        Type::Tag => match arg(n, 0) {
            t @ (2 | 3) => drop(wtag(n, 0, t, &|d| wstr(d, 0, 2))?),
            t => return Err(vec![E::Tags(vec![2, 3], t)]),
        },
        t => return Err(vec![E::WrongOf(vec![Type::Positive, Type::Negative, Type::Tag], t)]),
    }
    match ty(d, 0) {
        Type::Positive => {}
        Type::Tag => drop(wtag(d, 0, 2, &|d| wstr(d, 0, 2))?),
        t => return Err(vec![E::WrongOf(vec![Type::Positive, Type::Tag], t)]),
    }
    Ok(e)
}

fn same(w: &E, e: &E) -> bool {
    match (w, e) {
        (E::WrongOf(a, g), E::WrongOf(b, h)) => g == h && a.len() == b.len() && a.iter().all(|x| b.contains(x)),
        (E::Tags(a, g), E::Tags(b, h)) => g == h && a.len() == b.len() && a.iter().all(|x| b.contains(x)),
        _ => w == e,
    }
}
fn check(b: &[u8], p: usize, what: &str, want: W, got: Option<E>) -> Res {
    if let (Err(w), Some(e)) = (&want, &got) {
        nontrivial();
        ensure!(w.iter().any(|w| same(w, e)), "{} at {}: {} reports {:?}, expected {:?}", hx(b), p, what, e, w);
    }
    Ok(())
}
fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("")
}
fn at(b: &[u8], p: usize) -> Reader<'_> {
    let mut r = Reader::new(b);
    if p > 0 {
        let _ = r.data();
    }
    r
}
fn c23(b: &[u8]) -> Res {
    c23_at(b, 0)?;
    if let R::End(e) = ritem(b, 0) {
        c23_at(b, e)?;
    }
    Ok(())
}
fn c23_at(b: &[u8], p: usize) -> Res {
    macro_rules! rd {
        ($m:ident, $w:expr) => {
            check(b, p, stringify!($m), $w, at(b, p).$m().err().map(|e| e_r(&e)))?;
        };
    }
    rd!(positive, wone(b, p, Type::Positive));
    rd!(negative, wone(b, p, Type::Negative));
    rd!(byte, wone(b, p, Type::Byte));
    rd!(float, wone(b, p, Type::Float));
    rd!(null, wone(b, p, Type::Null));
    rd!(undefined, wone(b, p, Type::Undefined));
    rd!(bool, wof(b, p, &[Type::False, Type::True]));
    rd!(constant, wof(b, p, &[Type::False, Type::True, Type::Null, Type::Undefined]));
    rd!(scalar, wof(b, p, &[Type::Positive, Type::Negative]));
    rd!(bytes, wstr(b, p, 2));
    rd!(text, wstr(b, p, 3));
    rd!(array, wcont(b, p, Type::Array));
    rd!(map, wcont(b, p, Type::Map));
    rd!(tag, wcont(b, p, Type::Tag));
    rd!(data, wdata(b, p));
    rd!(peek_type, if p < b.len() && lead_ok(b[p]) { Ok(0) } else { whd(b, p) });
    rd!(expect_finished, left(b, p));
    // the validator
    let mut v = Validator::new(b);
    if p == 0 || v.next().is_ok() {
        // the state is kept between items, so the second one is looked at only after a good first one
        check(b, p, "validating", witem(b, p), v.next().err().map(|e| e_v(&e)))?;
    }
    // tagged types
    macro_rules! tg {
        ($t:ident, $w:expr) => {
            check(b, p, stringify!($t), $w, $t::read(&mut at(b, p)).err().map(|e| e_r(&e)))?;
            check(b, p, stringify!($t), $w, inner(b, at(b, p).decode::<$t>())?)?;
        };
    }
    tg!(StandardDateTime, wtag(b, p, 0, &|d| wstr(d, 0, 3)));
    tg!(PositiveBignum, wtag(b, p, 2, &|d| wstr(d, 0, 2)));
    tg!(NegativeBignum, wtag(b, p, 3, &|d| wstr(d, 0, 2)));
    tg!(EncodedCBOR, wtag(b, p, 24, &|d| wstr(d, 0, 2)));
    tg!(RationalNumber, wtag(b, p, 30, &|d| wrat(d)));
    // decoding
    uint::<u8>(b, p, 0xff)?;
    uint::<u16>(b, p, 0xffff)?;
    uint::<u32>(b, p, 0xffff_ffff)?;
    uint::<u64>(b, p, u64::MAX)?;
    check(b, p, "bool", wof(b, p, &[Type::False, Type::True]), inner(b, at(b, p).decode::<bool>())?)?;
    check(b, p, "Scalar", wof(b, p, &[Type::Positive, Type::Negative]), inner(b, at(b, p).decode::<Scalar>())?)?;
    check(b, p, "String", wstr(b, p, 3), inner(b, at(b, p).decode::<String>())?)?;
    check(b, p, "Vec<u8>", wstr(b, p, 2), inner(b, at(b, p).decode::<Vec<u8>>())?)?;
    check(b, p, "DataOwned", wdata(b, p), inner(b, at(b, p).decode::<DataOwned>())?)?;
    arr::<0>(b, p)?;
    arr::<1>(b, p)?;
    arr::<3>(b, p)?;
    arr::<32>(b, p)?;
    vect(b, p)?;
    // whole buffers, captured slices
    if p == 0 {
        rest::<u64>(b, wone(b, 0, Type::Positive))?;
        rest::<Vec<u8>>(b, wstr(b, 0, 2))?;
        rest::<String>(b, wstr(b, 0, 3))?;
        rest::<DataOwned>(b, wdata(b, 0))?;
    }
    Ok(())
}
/// the reader's error inside a decoding error
fn inner<T>(b: &[u8], r: Result<T, DecodeError>) -> Result<Option<E>, String> {
    match r {
        Ok(_) => Ok(None),
        Err(e) => match e.error() {
            DecodeErrorKind::ReaderError(e) => Ok(Some(e_r(e))),
            k => Err(format!("{}: {} reports {:?}", hx(b), std::any::type_name::<T>(), k)),
        },
    }
}
fn uint<T: Decode>(b: &[u8], p: usize, top: u64) -> Res {
    let n = std::any::type_name::<T>();
    if let Some(e) = at(b, p).decode::<T>().err() {
        match (wone(b, p, Type::Positive), e.error()) {
            (Ok(_), DecodeErrorKind::OutOfRange { min, max, got }) => {
                nontrivial();
                ensure!(*min == 0 && *max == top && *got == arg(b, p), "{} at {}: {} reports {:?}", hx(b), p, n, e.error())
            }
            (w, DecodeErrorKind::ReaderError(e)) => check(b, p, n, w, Some(e_r(e)))?,
            (_, k) => return Err(format!("{} at {}: {} reports {:?}", hx(b), p, n, k)),
        }
    }
    Ok(())
}
fn arr<const N: usize>(b: &[u8], p: usize) -> Res {
    if let Some(e) = at(b, p).decode::<[u8; N]>().err() {
        match (wstr(b, p, 2), e.error()) {
            (Ok(_), DecodeErrorKind::UnexpectedLength { expected, got }) => {
                nontrivial();
                let l = V::parse(b, p).unwrap().0.flat().len();
                ensure!(*expected == N && *got == l, "{} at {}: {} bytes as an array of {} reports {:?}", hx(b), p, l, N, e.error())
            }
            (w, DecodeErrorKind::ReaderError(e)) => check(b, p, "[u8; N]", w, Some(e_r(e)))?,
            (_, k) => return Err(format!("{} at {}: [u8; {}] reports {:?}", hx(b), p, N, k)),
        }
    }
    Ok(())
}
/// a vector: the error of the first element that does not decode
fn vect(b: &[u8], p: usize) -> Res {
    if let Some(e) = decode_vec::<u8>(&mut at(b, p)).err() {
        if let Err(w) = wcont(b, p, Type::Array) {
            return check(b, p, "Vec<_>", Err(w), inner::<()>(b, Err(e))?);
        }
        if let Some((V::Arr(_, el), _)) = V::parse(b, p) {
            for x in el {
                if wone(&x, 0, Type::Positive).is_ok() && arg(&x, 0) <= 255 {
                    continue;
                }
                match (wone(&x, 0, Type::Positive), e.error()) {
                    (Ok(_), DecodeErrorKind::OutOfRange { min: 0, max: 255, got }) if *got == arg(&x, 0) => nontrivial(),
                    (w, DecodeErrorKind::ReaderError(e)) => check(b, p, "Vec<_>", w, Some(e_r(e)))?,
                    (_, k) => return Err(format!("{} at {}: Vec<_> reports {:?}, first bad element {}", hx(b), p, k, hx(&x))),
                }
                break;
            }
        }
    }
    Ok(())
}
/// bytes left over are counted
fn rest<T: Decode>(b: &[u8], w: W) -> Res {
    let n = std::any::type_name::<T>();
    let one = |what: &str, b: &[u8], end: Option<usize>, r: Result<(), DecodeError>| -> Res {
        if let (Some(j), Err(e)) = (end, r) {
            nontrivial();
            let ok = match e.error() {
                DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => j < b.len() && *remaining_bytes == b.len() - j,
                DecodeErrorKind::ReaderError(e) => j < b.len() && e_r(e) == E::Left(j, b.len() - j, b[j]),
                _ => false,
            };
            ensure!(ok, "{}: {} of {} reports {:?}, {} bytes taken", hx(b), what, n, e.error(), j);
        }
        Ok(())
    };
    let end = w.as_ref().ok().copied();
    one("decode_from_bytes", b, end, decode_from_bytes::<T>(b).map(|_| ()))?;
    one("decode_one", b, end, Reader::new(b).decode_one::<T>().map(|_| ()))?;
    // the same inside a tag: the element is followed by nothing there
    let mut t = vec![0xc1];
    t.extend(b);
    if let Ok(tag) = Reader::new(&t).tag() {
        if let R::End(e) = item(b, 0) {
            let d = &b[..e];
            one("decode_data", d, end, tag.decode_data::<T>().map(|_| ()))?;
            one("capture", d, end, Reader::new(b).exact_decodable_slice::<T>().map(|_| ()))?;
            one("capture", d, end, Reader::new(b).exact_decodable_data::<T>().map(|_| ()))?;
        }
    }
    // a capture whose element is not all there
    if let Err(w) = witem(b, 0) {
        check(b, 0, "capture", Err(w.clone()), inner(b, Reader::new(b).exact_decodable_slice::<T>().map(|_| ()))?)?;
        check(b, 0, "capture", Err(w), inner(b, Reader::new(b).exact_decodable_data::<T>().map(|_| ()))?)?;
    }
    Ok(())
}
fn c23_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let b = match r.below(8) {
        0 | 1 => {
            let mut b = wf(&mut r);
            let n = r.below(b.len() as u64 + 1) as usize;
            b.truncate(n);
            b
        }
        2 => {
            let mut b = wf(&mut r);
            b.extend(wf(&mut r));
            b
        }
        3 => {
            // tagged contents of any kind
            let t = *r.pick(&[0u64, 2, 3, 24, 30]);
            let mut o = vec![];
            hv(&mut r, t).enc(6, &mut o);
            let k = *r.pick(&[2u8, 3, 4, 4]);
            o.extend(if r.one_in(3) { elem(&mut r, 1).enc() } else { elem_kind(&mut r, k, 1).enc() });
            o
        }
        4 => {
            // rationals with odd parts
            let part = |r: &mut Rng| -> Vec<u8> {
                let mut o = vec![];
                if r.one_in(2) {
                    let t = r.below(5);
                    hv(r, t).enc(6, &mut o);
                }
                let k = r.below(4) as u8;
                o.extend(elem_kind(r, k, 0).enc());
                o
            };
            let n = if r.one_in(5) { r.below(4) } else { 2 };
            let e: Vec<Vec<u8>> = (0..n).map(|_| part(&mut r)).collect();
            V::Tag(hv(&mut r, 30), V::Arr(None, e).enc()).enc()
        }
        5 => {
            // chunks with something odd among them
            let m = 2 + r.below(2) as u8;
            let mut o = vec![m * 32 + 31];
            for _ in 0..r.below(4) {
                let x = bytes(&mut r);
                let h = hv(&mut r, x.len() as u64);
                if m == 2 || is_utf8(&x) {
                    h.enc(m, &mut o);
                    o.extend(x);
                }
            }
            o.extend(elem(&mut r, 1).enc());
            if r.one_in(2) {
                o.push(0xff);
            }
            o
        }
        _ => wf(&mut r),
    };
    c23(&b)
}

/// which state errors the machine may give, from a stack of open structures
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Count(u128),
    Items,
    Pairs(bool),
    Chunks(u8),
    Tag,
}
fn done(st: &mut Vec<T>) {
    loop {
        match st.last_mut() {
            None => return,
            Some(T::Count(n)) => {
                *n -= 1;
                if *n > 0 {
                    return;
                }
            }
            Some(T::Pairs(v)) => {
                *v = !*v;
                return;
            }
            Some(T::Tag) => {}
            _ => return,
        }
        st.pop();
    }
}
fn c23_events(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut lib = State::new();
    let mut st: Vec<T> = vec![];
    let mut log = String::new();
    for _ in 0..1 + r.below(20) {
        let n = r.below(3);
        let h = Hv::shortest(n);
        let inch = matches!(st.last(), Some(T::Chunks(_)));
        let ev = r.below(9);
        let (name, res) = match ev {
            0 => ("simple", lib.simple()),
            1 => ("bytes", lib.bytes(Some(lib_hv(h)))),
            2 => ("text", lib.text(Some(lib_hv(h)))),
            3 => ("bytes(*)", lib.bytes(None)),
            4 => ("text(*)", lib.text(None)),
            5 => {
                if r.one_in(2) {
                    ("array", lib.array(Some(lib_hv(h))))
                } else {
                    ("map", lib.map(Some(lib_hv(h))))
                }
            }
            6 => {
                if r.one_in(2) {
                    ("array(*)", lib.array(None))
                } else {
                    ("map(*)", lib.map(None))
                }
            }
            7 => ("tag", lib.tag()),
            _ => ("brk", lib.brk()),
        };
        log.push_str(name);
        log.push(' ');
        let want = match ev {
            0 if inch => Some(StateError::InvalidTypeInChunk),
            1 | 2 if inch && st.last() != Some(&T::Chunks(ev as u8 + 1)) => Some(StateError::InvalidTypeInChunk),
            3 | 4 if inch => Some(StateError::ChunksInChunks),
            5 | 6 if inch => Some(StateError::StructureInChunks),
            7 if inch => Some(StateError::TagInChunk),
            8 => match st.last() {
                None => Some(StateError::BreakEmptyStack),
                Some(T::Pairs(true)) => Some(StateError::StructureNotFinished),
                Some(T::Items | T::Pairs(_) | T::Chunks(_)) => None,
                Some(_) => Some(StateError::BreakInNonStreamable),
            },
            _ => None,
        };
        match (want, res) {
            (Some(w), Err(e)) => {
                nontrivial();
                ensure!(format!("{:?}", w) == format!("{:?}", e), "{}: reports {:?}, expected {:?}", log, e, w);
                return Ok(());
            }
            (None, Ok(())) => {}
            // accepting or refusing is the matter of C16
            _ => return Ok(()),
        }
        match name {
            "simple" => done(&mut st),
            "bytes" | "text" => {
                if !inch {
                    done(&mut st)
                }
            }
            "bytes(*)" => st.push(T::Chunks(2)),
            "text(*)" => st.push(T::Chunks(3)),
            "array" | "map" => {
                if n == 0 {
                    done(&mut st)
                } else {
                    st.push(T::Count(n as u128 * if name == "map" { 2 } else { 1 }))
                }
            }
            "array(*)" => st.push(T::Items),
            "map(*)" => st.push(T::Pairs(false)),
            "tag" => st.push(T::Tag),
            _ => {
                st.pop();
                done(&mut st)
            }
        }
    }
    Ok(())
}
