//! C24: the context of a decoding error leads to where it happened.
use super::gen::*;
use super::oracle::*;
use super::props::seed;
use super::{ensure, nontrivial, Kind, Res, Suite};
use cbored::tagged::*;
use cbored::*;
use std::any::type_name;
use std::borrow::Borrow;

pub fn suites(p: &str) -> Vec<Suite> {
    match p {
        "C24" => vec![
            Suite { name: "paths", kind: Kind::Seed, f: paths },
            Suite { name: "places", kind: Kind::Buf, f: places },
            Suite { name: "places-wf", kind: Kind::Seed, f: places_wf },
        ],
        _ => vec![],
    }
}
fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn ctx(e: &DecodeError) -> Vec<String> {
    e.context().iter().map(|c| c.to_string()).collect()
}
fn path_of(c: &[String]) -> String {
    let mut o: Vec<&str> = c.iter().map(|x| &x[..]).collect();
    o.reverse();
    o.join("->")
}
/// an error has this context, and the path that goes with it
fn has(e: &DecodeError, want: &[String], what: &str) -> Res {
    let got = ctx(e);
    ensure!(got == want, "{}: context {:?} instead of {:?}", what, got, want);
    if want.iter().all(|x| !x.is_empty()) {
        ensure!(e.context_as_path() == path_of(want), "{}: path {:?} instead of {:?}", what, e.context_as_path(), path_of(want));
    }
    Ok(())
}

struct Local;
const STATIC: [&str; 7] = ["a", "Vec", "->", "field", "", "0", "é"];

fn paths(c: &[u8]) -> Res {
    let mut r = seed(c);
    let k = match r.below(4) {
        0 => DecodeErrorKind::Custom(text(&mut r)),
        1 => DecodeErrorKind::OutOfRange { min: r.next(), max: r.next(), got: int(&mut r) },
        2 => DecodeErrorKind::UnexpectedLength { expected: r.below(9) as usize, got: r.below(9) as usize },
        _ => DecodeErrorKind::ReaderNotTerminated { remaining_bytes: int(&mut r) as usize },
    };
    let kind = format!("{:?}", k);
    let mut want = vec![];
    let mut log = kind.clone();
    let name = |r: &mut Rng| if r.one_in(3) { text(r) } else { format!("n{}", r.below(30)) };
    let mut e = match r.below(5) {
        0 => { want.push(type_name::<Local>().to_string()); DecodeError::new::<Local>(k) }
        1 => { let s = *r.pick(&STATIC); want.push(s.to_string()); DecodeError::new_str(s, k) }
        2 => { let s = name(&mut r); want.push(s.clone()); DecodeError::new_string(s, k) }
        3 => { want.push(type_name::<[u8]>().to_string()); k.context::<[u8]>() }
        _ => { let s = *r.pick(&STATIC); want.push(s.to_string()); k.context_str(s) }
    };
    let n = if r.one_in(20) { *r.pick(&[63u64, 64, 65, 255, 256, 300]) } else { r.below(7) };
    if n > 0 {
        nontrivial();
    }
    for _ in 0..n {
        e = match r.below(5) {
            0 => { want.push(type_name::<Vec<Local>>().to_string()); e.push::<Vec<Local>>() }
            1 => { want.push(type_name::<str>().to_string()); e.push::<str>() }
            2 | 3 => { let s = if r.one_in(4) { want[want.len() - 1].clone() } else { name(&mut r) }; want.push(s.clone()); e.push_string(s) }
            _ => { let s = *r.pick(&STATIC); want.push(s.to_string()); e.push_str(s) }
        };
        log = format!("{} {:?}", log, want[want.len() - 1]);
        ensure!(format!("{:?}", e.error()) == kind, "{}: the error is {:?}", log, e.error());
        if want.len() < 5 {
            has(&e, &want, &log)?;
        }
    }
    has(&e, &want, &log)?;
    let f = e.clone();
    has(&f, &want, &log)
}

/// a type whose errors have a context of several entries
#[derive(Debug, PartialEq)]
struct Deep(u64);
impl Decode for Deep {
    fn decode<'a>(reader: &mut Reader<'a>) -> Result<Self, DecodeError> {
        reader.decode::<u64>().map(Deep).map_err(|e| e.push_str("field").push_string("x".to_string()).push::<Deep>())
    }
}

fn own<T: Decode>(b: &[u8]) -> Option<Vec<String>> {
    Reader::new(b).decode::<T>().err().map(|e| ctx(&e))
}

/// reading one T from the start of b; `leaf`: T is one of the library's
fn at<T: Decode>(b: &[u8], leaf: bool) -> Res {
    let t = type_name::<T>().to_string();
    let mut r = Reader::new(b);
    let first = r.decode::<T>();
    let left = r.remaining_bytes();
    let what = format!("{} as {}", hx(b), t);
    let o = match &first {
        Err(e) => {
            if leaf {
                has(e, &[t.clone()], &what)?;
            } else {
                has(e, &ctx(e), &what)?;
            }
            Some(ctx(e))
        }
        Ok(_) => None,
    };
    let want = match (&o, left) {
        (Some(c), _) => Some(c.clone()),
        (None, 0) => None,
        _ => Some(vec![t.clone()]),
    };
    let same = |got: Option<DecodeError>, how: &str| -> Res {
        match (&got, &want) {
            (Some(e), Some(w)) => has(e, w, &format!("{} by {}", what, how)),
            (None, None) => Ok(()),
            _ => Ok(()), // whether it fails is the matter of another property
        }
    };
    same(decode_from_bytes::<T>(b).err(), "decode_from_bytes")?;
    same(Reader::new(b).decode_one::<T>().err(), "decode_one")?;
    let cd = Writer::new_from_vec(b.to_vec()).finalize_data();
    same(cd.decode::<T>().err(), "CborData::decode")?;
    let sl: &CborSlice = cd.borrow();
    same(sl.decode::<T>().err(), "CborSlice::decode")?;
    // preserved: an error of the element itself keeps its context
    if let (Some(c), Err(e)) = (&o, cd.validate_as::<T>()) {
        has(&e, c, &format!("{} by CborData::validate_as", what))?;
    }
    if let (Some(c), Err(e)) = (&o, sl.validate_as::<T>()) {
        has(&e, c, &format!("{} by CborSlice::validate_as", what))?;
    }
    Ok(())
}

fn vec_of<T: Decode>(b: &[u8]) -> Res {
    let got = decode_vec::<T>(&mut Reader::new(b)).err();
    let what = format!("{} as vector of {}", hx(b), type_name::<T>());
    let e = match got {
        Some(e) => e,
        None => return Ok(()),
    };
    match V::parse(b, 0) {
        Some((V::Arr(_, el), _)) => {
            let k = match el.iter().position(|x| own::<T>(x).is_some()) {
                Some(k) => k,
                None => return Ok(()),
            };
            nontrivial();
            let mut w = own::<T>(&el[k]).unwrap();
            w.push(k.to_string());
            w.push("Vec".to_string());
            has(&e, &w, &what)
        }
        _ => has(&e, &["Vec".to_string()], &what),
    }
}

fn places(b: &[u8]) -> Res {
    at::<u8>(b, true)?;
    at::<u16>(b, true)?;
    at::<u32>(b, true)?;
    at::<u64>(b, true)?;
    at::<bool>(b, true)?;
    at::<String>(b, true)?;
    at::<Vec<u8>>(b, true)?;
    at::<[u8; 2]>(b, true)?;
    at::<Scalar>(b, true)?;
    at::<DataOwned>(b, true)?;
    at::<StandardDateTime>(b, true)?;
    at::<PositiveBignum>(b, true)?;
    at::<NegativeBignum>(b, true)?;
    at::<EncodedCBOR>(b, true)?;
    at::<RationalNumber>(b, true)?;
    at::<Deep>(b, false)?;
    vec_of::<u8>(b)?;
    vec_of::<String>(b)?;
    vec_of::<Deep>(b)?;
    vec_of::<[u8; 2]>(b)?;
    if b.iter().any(|x| *x != 0) {
        nontrivial();
    }
    Ok(())
}
fn places_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    match r.below(5) {
        0 => {
            b.pop();
        }
        1 => b.extend(bytes(&mut r)),
        2 | 3 => {
            // a long vector in which one element, or some, are of another kind
            let n = match dict(&mut r, 4, 3000) {
                Some(n) => n + 1,
                None if r.one_in(3) => *r.pick(&[24u64, 100, 101, 255, 256, 257, 258, 300, 513, 1001]),
                None => 1 + r.below(12),
            };
            let k = if r.one_in(2) { n - 1 } else { r.below(n) };
            let many = r.one_in(3);
            b = vec![];
            hv(&mut r, n).enc(4, &mut b);
            for i in 0..n {
                if i == k || many && r.one_in(9) {
                    b.extend(if r.one_in(3) { wf(&mut r) } else { vec![0xf6] });
                } else {
                    Hv::shortest(r.below(200)).enc(0, &mut b);
                }
            }
            if n > 20 {
                return vec_of::<u64>(&b);
            }
        }
        _ => {}
    }
    places(&b)
}
