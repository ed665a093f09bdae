//! Derived codecs (C18, C19, C20): sample definitions covering every documented layout, compared
//! with an interpreter of the documentation. `Sch` says what the documentation of the derive
//! promises for a definition; `enc` and `dec` interpret it over the reference grammar.
use super::gen::*;
use super::oracle::*;
use super::{ensure, nontrivial, Kind, Res, Suite};
use cbored::{CborRepr, Decode, Encode, Reader, Writer};

/// what the documentation promises
#[derive(Clone)]
pub enum Sch {
    U(u32),
    Bool,
    Text,
    Bytes,
    Fix(usize),
    VecOf(Box<Sch>),
    Flat(Vec<Sch>),
    Arr(Vec<Sch>),
    ArrOpt(Vec<Sch>),
    /// key, content, mandatory
    Map(Vec<(u64, Sch, bool)>),
    Tag(u64, Box<Sch>),
    Variant(Vec<(u64, Vec<Sch>)>),
    Int(Vec<u64>),
    /// type of the content, content (None: null)
    Type(Vec<(Ty, Option<Sch>)>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Pos,
    Neg,
    Bytes,
    Text,
    Arr,
    Map,
    Tag,
    Null,
}
/// a value of a schema
#[derive(Clone, PartialEq, Debug)]
pub enum D {
    U(u64),
    B(bool),
    T(String),
    Y(Vec<u8>),
    L(Vec<D>),
    S(Vec<D>),
    O(Option<Box<D>>),
    E(usize, Vec<D>),
    /// any other element, by its bytes
    Raw(Vec<u8>),
}
use Sch::*;

fn head(m: u8, v: u64, o: &mut Vec<u8>) {
    Hv::shortest(v).enc(m, o)
}
fn str_(m: u8, b: &[u8], o: &mut Vec<u8>) {
    head(m, b.len() as u64, o);
    o.extend(b)
}

/// the documented encoding
fn enc(s: &Sch, d: &D, o: &mut Vec<u8>) {
    match (s, d) {
        (U(_), D::U(v)) => head(0, *v, o),
        (Bool, D::B(b)) => o.push(0xf4 + *b as u8),
        (Text, D::T(t)) => str_(3, t.as_bytes(), o),
        (Bytes, D::Y(b)) | (Fix(_), D::Y(b)) => str_(2, b, o),
        (VecOf(t), D::L(v)) => {
            head(4, v.len() as u64, o);
            v.iter().for_each(|x| enc(t, x, o))
        }
        (Flat(f), D::S(v)) => f.iter().zip(v).for_each(|(t, x)| enc(t, x, o)),
        (Arr(f), D::S(v)) => {
            head(4, f.len() as u64, o);
            f.iter().zip(v).for_each(|(t, x)| enc(t, x, o))
        }
        (ArrOpt(f), D::S(v)) => {
            let here = matches!(v.last(), Some(D::O(Some(_))));
            head(4, f.len() as u64 - !here as u64, o);
            for (t, x) in f.iter().zip(v).take(f.len() - 1) {
                enc(t, x, o)
            }
            if let Some(D::O(Some(x))) = v.last() {
                enc(&f[f.len() - 1], x, o)
            }
        }
        (Map(f), D::S(v)) => {
            head(5, v.iter().filter(|x| !matches!(x, D::O(None))).count() as u64, o);
            for ((k, t, m), x) in f.iter().zip(v) {
                match x {
                    D::O(None) => {}
                    D::O(Some(y)) if !m => {
                        head(0, *k, o);
                        enc(t, y, o)
                    }
                    y => {
                        head(0, *k, o);
                        enc(t, y, o)
                    }
                }
            }
        }
        (Tag(n, t), d) => {
            head(6, *n, o);
            enc(t, d, o)
        }
        (Variant(vs), D::E(i, f)) => {
            head(4, 1 + f.len() as u64, o);
            head(0, vs[*i].0, o);
            vs[*i].1.iter().zip(f).for_each(|(t, x)| enc(t, x, o))
        }
        (Int(ns), D::E(i, _)) => head(0, ns[*i], o),
        (Type(vs), D::E(i, f)) => match &vs[*i].1 {
            None => o.push(0xf6),
            Some(t) => enc(t, &f[0], o),
        },
        (s, D::Raw(b)) if matches!(s, U(99)) => o.extend(b),
        _ => panic!("ill-typed sample value"),
    }
}

fn whole(t: &Sch, b: &[u8]) -> Option<D> {
    dec(t, b, 0).filter(|x| x.1 == b.len()).map(|x| x.0)
}
fn all(ts: &[Sch], bs: &[Vec<u8>]) -> Option<Vec<D>> {
    if ts.len() != bs.len() {
        return None;
    }
    ts.iter().zip(bs).map(|(t, b)| whole(t, b)).collect()
}

/// the value the documentation gives to the bytes at i, and its end
fn dec(s: &Sch, b: &[u8], i: usize) -> Option<(D, usize)> {
    if let Flat(f) = s {
        let mut v = vec![];
        let mut k = i;
        for t in f {
            let (x, e) = dec(t, b, k)?;
            v.push(x);
            k = e;
        }
        return Some((D::S(v), k));
    }
    if let U(99) = s {
        let (_, e) = V::parse(b, i)?;
        return Some((D::Raw(b[i..e].to_vec()), e));
    }
    let (v, e) = V::parse(b, i)?;
    let d = match (s, v) {
        (U(w), V::Pos(h)) if *w == 64 || h.v >> w == 0 => D::U(h.v),
        (Bool, V::Const(c @ 20..=21)) => D::B(c == 21),
        (Text, x @ (V::Str(3, _) | V::Chunks(3, _))) => D::T(String::from_utf8(x.flat()).ok()?),
        (Bytes, x @ (V::Str(2, _) | V::Chunks(2, _))) => D::Y(x.flat()),
        (Fix(n), x @ (V::Str(2, _) | V::Chunks(2, _))) if x.flat().len() == *n => D::Y(x.flat()),
        (VecOf(t), V::Arr(_, es)) => D::L(es.iter().map(|x| whole(t, x)).collect::<Option<_>>()?),
        (Arr(f), V::Arr(_, es)) => D::S(all(f, &es)?),
        (ArrOpt(f), V::Arr(_, es)) => {
            let n = f.len() - 1;
            if es.len() == n {
                let mut v = all(&f[..n], &es)?;
                v.push(D::O(None));
                D::S(v)
            } else {
                let mut v = all(f, &es)?;
                let l = v.pop()?;
                v.push(D::O(Some(Box::new(l))));
                D::S(v)
            }
        }
        (Map(f), V::Map(_, es)) => {
            let mut got: Vec<Option<D>> = vec![None; f.len()];
            for (k, x) in &es {
                let k = match whole(&U(64), k)? {
                    D::U(k) => k,
                    _ => return None,
                };
                let p = f.iter().position(|x| x.0 == k)?;
                if got[p].is_some() {
                    return None;
                }
                got[p] = Some(whole(&f[p].1, x)?);
            }
            let mut v = vec![];
            for ((_, _, m), x) in f.iter().zip(got) {
                if *m {
                    v.push(x?)
                } else {
                    v.push(D::O(x.map(Box::new)))
                }
            }
            D::S(v)
        }
        (Tag(n, t), V::Tag(h, x)) if h.v == *n => whole(t, &x)?,
        (Variant(vs), V::Arr(_, es)) => {
            let n = match whole(&U(64), es.first()?)? {
                D::U(n) => n,
                _ => return None,
            };
            let p = vs.iter().position(|x| x.0 == n)?;
            D::E(p, all(&vs[p].1, &es[1..])?)
        }
        (Int(ns), V::Pos(h)) => D::E(ns.iter().position(|x| *x == h.v)?, vec![]),
        (Type(vs), x) => {
            let t = match &x {
                V::Pos(_) => Ty::Pos,
                V::Neg(_) => Ty::Neg,
                V::Str(2, _) | V::Chunks(2, _) => Ty::Bytes,
                V::Str(..) | V::Chunks(..) => Ty::Text,
                V::Arr(..) => Ty::Arr,
                V::Map(..) => Ty::Map,
                V::Tag(..) => Ty::Tag,
                V::Const(22) => Ty::Null,
                _ => return None,
            };
            let p = vs.iter().position(|x| x.0 == t)?;
            match &vs[p].1 {
                None => D::E(p, vec![]),
                Some(t) => D::E(p, vec![whole(t, &b[i..e])?]),
            }
        }
        _ => return None,
    };
    Some((d, e))
}

/// a value of the schema
fn gen_d(r: &mut Rng, s: &Sch) -> D {
    match s {
        U(99) => D::Raw(wf(r)),
        U(w) => {
            let v = int(r);
            D::U(if *w == 64 { v } else { v & ((1 << w) - 1) })
        }
        Bool => D::B(r.below(2) == 1),
        Text => D::T(text(r)),
        Bytes => D::Y(bytes(r)),
        Fix(n) => D::Y((0..*n).map(|_| r.next() as u8).collect()),
        VecOf(t) => {
            let n = if r.one_in(8) { 20 + r.below(10) } else { r.below(4) };
            D::L((0..n).map(|_| gen_d(r, t)).collect())
        }
        Flat(f) | Arr(f) => D::S(f.iter().map(|t| gen_d(r, t)).collect()),
        ArrOpt(f) => {
            let mut v: Vec<D> = f.iter().map(|t| gen_d(r, t)).collect();
            let l = v.pop().unwrap();
            v.push(D::O(if r.below(2) == 0 { None } else { Some(Box::new(l)) }));
            D::S(v)
        }
        Map(f) => D::S(
            f.iter()
                .map(|(_, t, m)| {
                    let x = gen_d(r, t);
                    if *m {
                        x
                    } else {
                        D::O(if r.below(2) == 0 { None } else { Some(Box::new(x)) })
                    }
                })
                .collect(),
        ),
        Tag(_, t) => gen_d(r, t),
        Variant(vs) => {
            let p = r.below(vs.len() as u64) as usize;
            D::E(p, vs[p].1.iter().map(|t| gen_d(r, t)).collect())
        }
        Int(ns) => D::E(r.below(ns.len() as u64) as usize, vec![]),
        Type(vs) => {
            let p = r.below(vs.len() as u64) as usize;
            D::E(p, vs[p].1.iter().map(|t| gen_d(r, t)).collect())
        }
    }
}

/// change one thing in one of the elements that follow each other
fn mutate_items(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut es = vec![];
    let mut k = 0;
    while k < b.len() {
        match item(b, k) {
            R::End(e) => {
                es.push(b[k..e].to_vec());
                k = e;
            }
            _ => return b.to_vec(),
        }
    }
    if es.is_empty() {
        return vec![];
    }
    let p = r.below(es.len() as u64) as usize;
    match r.below(20) {
        0 => drop(es.remove(p)),
        1 => es.push(wf(r)),
        2 => es.insert(0, wf(r)),
        _ => es[p] = mutate_item(r, &es[p]),
    }
    es.concat()
}
fn count(r: &mut Rng, l: &Option<Hv>, n: usize) -> Option<Hv> {
    if r.one_in(5) {
        return if l.is_some() { None } else { Some(Hv::shortest(n as u64)) };
    }
    l.map(|h| {
        let s = Hv::shortest(n as u64);
        let w = if r.one_in(4) { *r.pick(&[1, 2, 4, 8]) } else { h.w };
        Hv { w: w.max(s.w), v: n as u64 }
    })
}
fn mutate_item(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    if r.one_in(24) {
        return wf(r);
    }
    let v = match V::parse(b, 0) {
        Some((v, _)) => v,
        None => return wf(r),
    };
    match v {
        V::Pos(h) => {
            let v = match r.below(10) {
                0 => h.v.wrapping_add(1),
                1 => h.v.wrapping_sub(1),
                2 => h.v.wrapping_add(64),
                3 => h.v.wrapping_add(1 << 32),
                4 => r.below(12),
                5 => h.v.wrapping_add(256),
                6 => int(r),
                _ => h.v,
            };
            let s = Hv::shortest(v);
            let mut o = vec![];
            Hv { w: (*r.pick(&[0u8, 1, 2, 4, 8])).max(s.w), v }.enc(if r.one_in(20) { 1 } else { 0 }, &mut o);
            o
        }
        V::Arr(l, mut es) => {
            let n = es.len() as u64;
            match r.below(12) {
                0 if n > 0 => drop(es.remove(r.below(n) as usize)),
                1 => es.insert(r.below(n + 1) as usize, wf(r)),
                2 if n > 0 => {
                    let x = es[r.below(n) as usize].clone();
                    es.insert(r.below(n + 1) as usize, x)
                }
                3 if n > 1 => es.swap(r.below(n) as usize, r.below(n) as usize),
                4 => {}
                _ if n > 0 => {
                    let p = r.below(n) as usize;
                    es[p] = mutate_item(r, &es[p])
                }
                _ => {}
            }
            V::Arr(count(r, &l, es.len()), es).enc()
        }
        V::Map(l, mut es) => {
            let n = es.len() as u64;
            for _ in 0..1 + r.below(3) {
                let n = es.len() as u64;
                match r.below(12) {
                    0 if n > 0 => drop(es.remove(r.below(n) as usize)),
                    1 => {
                        let mut k = vec![];
                        let v = int(r);
                        hv(r, v).enc(0, &mut k);
                        es.insert(r.below(n + 1) as usize, (k, wf(r)))
                    }
                    2 if n > 0 => {
                        let x = es[r.below(n) as usize].clone();
                        es.insert(r.below(n + 1) as usize, x)
                    }
                    3..=5 if n > 1 => es.swap(r.below(n) as usize, r.below(n) as usize),
                    6 => {}
                    7 if n > 0 => {
                        let p = r.below(n) as usize;
                        es[p].0 = mutate_item(r, &es[p].0)
                    }
                    8 if n > 0 => {
                        let p = r.below(n) as usize;
                        es[p].1 = mutate_item(r, &es[p].1)
                    }
                    _ => {}
                }
            }
            let _ = n;
            V::Map(count(r, &l, es.len()), es).enc()
        }
        V::Tag(h, d) => {
            let v = if r.one_in(4) { *r.pick(&[h.v.wrapping_add(1), h.v.wrapping_sub(1), h.v ^ 256, h.v.wrapping_add(1 << 32), 0, 24]) } else { h.v };
            let w = if r.one_in(4) { *r.pick(&[1, 2, 4, 8]) } else { 0 };
            let d = if r.one_in(5) { d } else { mutate_item(r, &d) };
            V::Tag(Hv { w: w.max(Hv::shortest(v).w), v }, d).enc()
        }
        V::Str(m, (h, d)) => match r.below(4) {
            0 => V::Chunks(m, vec![(h, d)]).enc(),
            1 => V::Chunks(m, vec![]).enc(),
            2 => V::Str(5 - m, (h, d)).enc(),
            _ => V::Str(m, (Hv { w: (*r.pick(&[1u8, 2, 4, 8])).max(h.w), v: h.v }, d)).enc(),
        },
        V::Const(_) => vec![0xf4 + r.below(4) as u8],
        x => x.enc(),
    }
}

// ------------------------------------------------------------------ the samples
pub trait Dy: Sized {
    fn dy(&self) -> D;
    fn mk(d: D) -> Self;
}
macro_rules! dy_uint { ($($t:ty)*) => { $( impl Dy for $t {
    fn dy(&self) -> D { D::U(*self as u64) }
    fn mk(d: D) -> Self { match d { D::U(v) => v as $t, _ => panic!("ill-typed") } }
} )* } }
dy_uint!(u8 u16 u32 u64);
macro_rules! dy_leaf { ($($t:ty, $c:path);*) => { $( impl Dy for $t {
    fn dy(&self) -> D { $c(self.clone()) }
    fn mk(d: D) -> Self { match d { $c(v) => v, _ => panic!("ill-typed") } }
} )* } }
dy_leaf!(bool, D::B; String, D::T; Vec<u8>, D::Y);
impl<const N: usize> Dy for [u8; N] {
    fn dy(&self) -> D {
        D::Y(self.to_vec())
    }
    fn mk(d: D) -> Self {
        match d {
            D::Y(v) => v.try_into().unwrap(),
            _ => panic!("ill-typed"),
        }
    }
}
impl<T: Dy> Dy for Option<T> {
    fn dy(&self) -> D {
        D::O(self.as_ref().map(|x| Box::new(x.dy())))
    }
    fn mk(d: D) -> Self {
        match d {
            D::O(x) => x.map(|y| T::mk(*y)),
            _ => panic!("ill-typed"),
        }
    }
}
macro_rules! dy_list { ($($t:ty)*) => { $( impl Dy for Vec<$t> {
    fn dy(&self) -> D { D::L(self.iter().map(|x| x.dy()).collect()) }
    fn mk(d: D) -> Self { match d { D::L(v) => v.into_iter().map(<$t>::mk).collect(), _ => panic!("ill-typed") } }
} )* } }
dy_list!(u32 String PointA EnumV);

fn xs(d: D) -> std::vec::IntoIter<D> {
    match d {
        D::S(v) => v.into_iter(),
        _ => panic!("ill-typed"),
    }
}
macro_rules! named { ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* }) => {
    #[derive(CborRepr, Debug, PartialEq, Clone)]
    $(#[$m])*
    pub struct $n { $($(#[$fm])* pub $f: $t),* }
    impl Dy for $n {
        fn dy(&self) -> D { D::S(vec![$(self.$f.dy()),*]) }
        fn mk(d: D) -> Self { let mut it = xs(d); $n { $($f: <$t>::mk(it.next().unwrap())),* } }
    }
} }
macro_rules! tuple { ($(#[$m:meta])* $n:ident ( $($(#[$fm:meta])* $f:ident : $t:ty),* )) => {
    #[derive(CborRepr, Debug, PartialEq, Clone)]
    $(#[$m])*
    pub struct $n ( $($(#[$fm])* pub $t),* );
    impl Dy for $n {
        fn dy(&self) -> D { let $n($($f),*) = self; D::S(vec![$($f.dy()),*]) }
        fn mk(d: D) -> Self { let mut it = xs(d); $n($(<$t>::mk(it.next().unwrap())),*) }
    }
} }

named!(#[cborrepr(structure = "flat")] PointF { x: u64, y: u64 });
named!(#[cborrepr(structure = "array")] PointA { x: u32, y: u32 });
named!(#[cborrepr(structure = "array")] Wide { a: u8, b: String, c: Vec<u8>, d: bool, e: [u8; 4], f: u16, g: u64, h: PointA, i: u64, j: u32 });
named!(#[cborrepr(structure = "array")] One { only: u64 });
named!(#[cborrepr(structure = "array", tag = 300)] ArrTag { x: u64, y: Wide });
named!(#[cborrepr(tag = 24)] #[cborrepr(structure = "array")] ArrTag2 { a: String, b: u8 });
named!(#[cborrepr(structure = "array_lastopt")] Opt2 { x: u32, y: Option<u32> });
named!(#[cborrepr(structure = "array_lastopt")] Opt1 { y: Option<String> });
named!(#[cborrepr(structure = "array_lastopt", tag = 70000)] OptTag { x: u32, y: u64, z: Option<PointA> });
named!(#[cborrepr(structure = "flat")] FlatN { x: u64, inner: PointF, z: String });
named!(PlainFlat { a: u8, b: bool });
named!(#[cborrepr(structure = "flat", tag = 5)] FlatTag { x: u64 });
named!(#[cborrepr(structure = "flat", tag = 4294967296)] FlatTagBig { x: PointA });
tuple!(#[cborrepr(structure = "array")] TupA(a: u32, b: String, c: u64));
tuple!(#[cborrepr(structure = "flat")] TupF(a: u32, b: u64));
tuple!(#[cborrepr(structure = "flat", tag = 0)] TupTag(a: Vec<u8>));
tuple!(#[cborrepr(structure = "array", tag = 255)] TupArrTag(a: u64, b: PointA));
named!(#[cborrepr(structure = "mapint")] MapA { #[cborrepr(mandatory)] x: u32, #[cborrepr(mandatory)] y: u32, z: Option<u32> });
named!(#[cborrepr(structure = "mapint", map_starts_at = 5)] MapS { #[cborrepr(mandatory)] x: u32, y: Option<String>, z: Option<u64> });
named!(#[cborrepr(structure = "mapint", skipkey = 1, skipkey = 2, skipkey = 5)] MapK { a: Option<u64>, #[cborrepr(mandatory)] b: String, c: Option<u8>, #[cborrepr(mandatory)] d: u16 });
named!(#[cborrepr(structure = "mapint", map_starts_at = 22, skipkey = 22, skipkey = 25, tag = 1000)] MapT { a: Option<u64>, b: Option<PointA>, #[cborrepr(mandatory)] c: Vec<u8>, d: Option<u64> });
named!(#[cborrepr(structure = "mapint")] MapO { a: Option<u8>, b: Option<MapA>, c: Option<bool> });
named!(#[cborrepr(structure = "mapint", skipkey = 0)] MapZ { #[cborrepr(mandatory)] only: u64 });
named!(#[cborrepr(structure = "mapint", map_starts_at = 65530)] MapHi { a: Option<u64>, b: Option<u64>, c: Option<u64>, d: Option<u64>, #[cborrepr(mandatory)] e: u64, f: Option<u64>, g: Option<u64> });
named!(#[cborrepr(structure = "array")] ArrN { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, g: bool, h: u64 });
named!(#[cborrepr(structure = "array_lastopt", tag = 65536)] OptN { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, last: Option<u64> });
named!(#[cborrepr(structure = "flat", tag = 18446744073709551615)] FlatTagMax { x: u64 });
named!(#[cborrepr(structure = "flat", tag = 23)] FlatTagEdge { x: u64 });
named!(#[cborrepr(structure = "mapint", skipkey = 4, skipkey = 2, skipkey = 2, map_starts_at = 1)] MapOrder { #[cborrepr(mandatory)] x: u64, y: Option<u8>, #[cborrepr(mandatory)] z: String });
named!(#[cborrepr(structure = "mapint", map_starts_at = 5, skipkey = 0, skipkey = 1, skipkey = 6)] MapBelow { x: Option<u64>, #[cborrepr(mandatory)] y: u64 });
named!(#[cborrepr(structure = "mapint", map_starts_at = 18446744073709551613, skipkey = 18446744073709551614)] MapTop { x: Option<u64>, #[cborrepr(mandatory)] y: u64 });
named!(#[cborrepr(structure = "mapint", skipkey = 7)] MapW {
    f0: Option<u64>, f1: Option<u64>, f2: Option<u64>, #[cborrepr(mandatory)] f3: u64, f4: Option<u64>, f5: Option<u64>,
    f6: Option<u64>, f7: Option<u64>, f8: Option<u64>, f9: Option<u64>, f10: Option<u64>, f11: Option<u64>, f12: Option<u64>,
    f13: Option<u64>, f14: Option<u64>, f15: Option<u64>, f16: Option<u64>, f17: Option<u64>, f18: Option<u64>, f19: Option<u64>,
    f20: Option<u64>, f21: Option<u64>, f22: Option<u64>, f23: Option<u64>, f24: Option<u64>, f25: Option<u64>, f26: Option<u64>,
    f27: Option<u64>, f28: Option<u64>, f29: Option<u64>, f30: Option<u64>, f31: Option<u64>, f32: Option<u64>, f33: Option<u64>
});

#[derive(CborRepr, Debug, PartialEq, Clone)]
#[cborrepr(enumtype = "tagvariant")]
pub enum EnumV {
    One(u32),
    Two(u64, String),
    Three(PointA),
    Four,
    Named { a: u8, b: String, c: u64 },
    Vecs(Vec<u32>, u8, Vec<PointA>),
}
impl Dy for EnumV {
    fn dy(&self) -> D {
        match self {
            EnumV::One(a) => D::E(0, vec![a.dy()]),
            EnumV::Two(a, b) => D::E(1, vec![a.dy(), b.dy()]),
            EnumV::Three(a) => D::E(2, vec![a.dy()]),
            EnumV::Four => D::E(3, vec![]),
            EnumV::Named { a, b, c } => D::E(4, vec![a.dy(), b.dy(), c.dy()]),
            EnumV::Vecs(a, b, c) => D::E(5, vec![a.dy(), b.dy(), c.dy()]),
        }
    }
    fn mk(d: D) -> Self {
        let (i, v) = match d {
            D::E(i, v) => (i, v),
            _ => panic!("ill-typed"),
        };
        let mut it = v.into_iter();
        let mut n = || it.next().unwrap();
        match i {
            0 => EnumV::One(Dy::mk(n())),
            1 => EnumV::Two(Dy::mk(n()), Dy::mk(n())),
            2 => EnumV::Three(Dy::mk(n())),
            3 => EnumV::Four,
            4 => EnumV::Named { a: Dy::mk(n()), b: Dy::mk(n()), c: Dy::mk(n()) },
            _ => EnumV::Vecs(Dy::mk(n()), Dy::mk(n()), Dy::mk(n())),
        }
    }
}
macro_rules! en { ($(#[$m:meta])* $n:ident { $($(#[$vm:meta])* $v:ident = $i:literal ( $($f:ident : $t:ty),* )),* }) => {
    #[derive(CborRepr, Debug, PartialEq, Clone)]
    $(#[$m])*
    pub enum $n { $($(#[$vm])* $v { $($f: $t),* }),* }
    impl Dy for $n {
        fn dy(&self) -> D { match self { $($n::$v { $($f),* } => D::E($i, vec![$($f.dy()),*])),* } }
        #[allow(unused_mut, unused_variables)]
        fn mk(d: D) -> Self {
            let (i, v) = match d { D::E(i, v) => (i, v), _ => panic!("ill-typed") };
            let mut it = v.into_iter();
            match i { $($i => $n::$v { $($f: <$t>::mk(it.next().unwrap())),* },)* _ => panic!("ill-typed") }
        }
    }
} }
macro_rules! unit { ($(#[$m:meta])* $n:ident { $($v:ident = $i:literal),* }) => {
    #[derive(CborRepr, Debug, PartialEq, Clone)]
    $(#[$m])*
    pub enum $n { $($v),* }
    impl Dy for $n {
        fn dy(&self) -> D { match self { $($n::$v => D::E($i, vec![])),* } }
        fn mk(d: D) -> Self { match d { $(D::E($i, _) => $n::$v,)* _ => panic!("ill-typed") } }
    }
} }
en!(#[cborrepr(enumtype = "tagvariant", variant_starts_at = 2, skipkey = 3, skipkey = 6, skipkey = 7)] VarS {
    A = 0 (x: u64), B = 1 (x: u8, y: String), C = 2 (p: PointA), E = 3 (v: Vec<u8>), F = 4 (w: u64, x: u64, y: u64), G = 5 (b: bool) });
en!(#[cborrepr(enumtype = "tagvariant", skipkey = 0)] VarZ { A = 0 (x: u64), B = 1 (e: EnumV) });
en!(VarD { A = 0 (x: u64), B = 1 (x: String) });
unit!(#[cborrepr(enumtype = "enumint")] Code { Code1 = 0, Code2 = 1, Code3 = 2 });
unit!(#[cborrepr(enumtype = "enumint", variant_starts_at = 3)] CodeS { A = 0, B = 1, C = 2, E = 3 });
unit!(#[cborrepr(enumtype = "enumint", variant_starts_at = 22, skipkey = 22, skipkey = 24, skipkey = 25)] CodeK { A = 0, B = 1, C = 2, E = 3 });
unit!(#[cborrepr(enumtype = "enumint", skipkey = 1, skipkey = 3)] CodeJ { A = 0, B = 1, C = 2, E = 3 });
unit!(#[cborrepr(enumtype = "enumint", variant_starts_at = 4294967295)] CodeHigh { A = 0, B = 1, C = 2 });
unit!(#[cborrepr(enumtype = "enumint", variant_starts_at = 255, skipkey = 1, skipkey = 256)] CodeEdge { A = 0, B = 1, C = 2 });
unit!(#[cborrepr(enumtype = "enumint", skipkey = 23)] CodeN { V0 = 0, V1 = 1, V2 = 2, V3 = 3, V4 = 4, V5 = 5, V6 = 6, V7 = 7, V8 = 8, V9 = 9, V10 = 10, V11 = 11, V12 = 12, V13 = 13, V14 = 14, V15 = 15, V16 = 16, V17 = 17, V18 = 18, V19 = 19, V20 = 20, V21 = 21, V22 = 22, V23 = 23, V24 = 24, V25 = 25, V26 = 26 });
en!(#[cborrepr(enumtype = "tagvariant", variant_starts_at = 65535)] VarHigh { A = 0 (x: u64), B = 1 (a: u8, b: u8, c: u8, d: u64) });
unit!(#[cborrepr(enumtype = "tagvariant")] VarU { A = 0, B = 1, C = 2 });

macro_rules! ty_enum { ($n:ident { $($(#[$m:meta])* $v:ident = $i:literal $(($t:ty))?),* } $($dv:ident)?) => {
    #[derive(CborRepr, Debug, PartialEq, Clone)]
    #[cborrepr(enumtype = "enumtype")]
    pub enum $n { $($(#[$m])* $v $(($t))?),* }
} }
ty_enum!(OneOrEmpty { #[cborrepr(cbortype = "null")] Empty = 0, #[cborrepr(cbortype = "positive")] One = 1 (u64) });
ty_enum!(Many {
    #[cborrepr(cbortype = "positive")] P = 0 (u32), #[cborrepr(cbortype = "array")] A = 1 (PointA), #[cborrepr(cbortype = "map")] M = 2 (MapA),
    #[cborrepr(cbortype = "tag")] T = 3 (FlatTag), #[cborrepr(cbortype = "bytes")] B = 4 (Vec<u8>), #[cborrepr(cbortype = "text")] S = 5 (String),
    #[cborrepr(cbortype = "null")] N = 6, #[cborrepr(cbortype = "negative")] G = 7 (NegRaw) });
#[derive(CborRepr, Debug, PartialEq, Clone)]
#[cborrepr(enumtype = "enumtype")]
pub enum TyNamed {
    #[cborrepr(cbortype = "text")]
    S { s: String },
    #[cborrepr(cbortype = "null")]
    N,
}
/// any element, kept as it is
#[derive(Debug, PartialEq, Clone)]
pub struct NegRaw(Vec<u8>);
impl Encode for NegRaw {
    fn encode(&self, w: &mut Writer) {
        w.negative(Reader::new(&self.0).negative().unwrap())
    }
}
impl Decode for NegRaw {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, cbored::DecodeError> {
        let n = r.negative().map_err(cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?;
        let mut w = Writer::new();
        w.negative(n);
        Ok(NegRaw(w.finalize()))
    }
}
impl Dy for NegRaw {
    fn dy(&self) -> D {
        D::Raw(self.0.clone())
    }
    fn mk(d: D) -> Self {
        match d {
            D::Raw(v) => NegRaw(v),
            _ => panic!("ill-typed"),
        }
    }
}
macro_rules! ty_dy { ($n:ident, $($u:ident = $ui:literal),* ; $($v:ident = $i:literal $t:ty),*) => {
    impl Dy for $n {
        fn dy(&self) -> D { match self { $($n::$u => D::E($ui, vec![]),)* $($n::$v(x) => D::E($i, vec![x.dy()])),* } }
        fn mk(d: D) -> Self {
            let (i, mut v) = match d { D::E(i, v) => (i, v), _ => panic!("ill-typed") };
            match i { $($ui => $n::$u,)* $($i => $n::$v(<$t>::mk(v.pop().unwrap())),)* _ => panic!("ill-typed") }
        }
    }
} }
ty_dy!(OneOrEmpty, Empty = 0; One = 1 u64);
ty_dy!(Many, N = 6; P = 0 u32, A = 1 PointA, M = 2 MapA, T = 3 FlatTag, B = 4 Vec<u8>, S = 5 String, G = 7 NegRaw);
impl Dy for TyNamed {
    fn dy(&self) -> D {
        match self {
            TyNamed::S { s } => D::E(0, vec![s.dy()]),
            TyNamed::N => D::E(1, vec![]),
        }
    }
    fn mk(d: D) -> Self {
        match d {
            D::E(0, mut v) => TyNamed::S { s: Dy::mk(v.pop().unwrap()) },
            _ => TyNamed::N,
        }
    }
}

#[allow(clippy::type_complexity)]
struct Sample {
    name: &'static str,
    sch: Sch,
    enc: fn(&D) -> Vec<u8>,
    dec: fn(&[u8]) -> Option<(D, usize)>,
    same: fn(&D, &[u8]) -> bool,
}
fn r_enc<T: Dy + Encode>(d: &D) -> Vec<u8> {
    let t = T::mk(d.clone());
    let mut w = Writer::new();
    w.encode(&t);
    w.finalize()
}
fn r_dec<T: Dy + Decode>(b: &[u8]) -> Option<(D, usize)> {
    let mut r = Reader::new(b);
    let x = r.decode::<T>().ok()?;
    Some((x.dy(), r.consumed_bytes()))
}
/// decoding gives the value back, compared with the derived equality
fn r_same<T: Dy + Decode + PartialEq>(d: &D, b: &[u8]) -> bool {
    cbored::decode_from_bytes::<T>(b).ok() == Some(T::mk(d.clone()))
}
fn b(s: Sch) -> Box<Sch> {
    Box::new(s)
}
fn samples(p: &str) -> Vec<Sample> {
    let mut v = vec![];
    macro_rules! s {
        ($t:ty, $s:expr) => {
            v.push(Sample { name: stringify!($t), sch: $s, enc: r_enc::<$t>, dec: r_dec::<$t>, same: r_same::<$t> })
        };
    }
    let pa = || Arr(vec![U(32), U(32)]);
    let pf = || Flat(vec![U(64), U(64)]);
    let wide = || Arr(vec![U(8), Text, Bytes, Bool, Fix(4), U(16), U(64), pa(), U(64), U(32)]);
    let mapa = || Map(vec![(0, U(32), true), (1, U(32), true), (2, U(32), false)]);
    let opt = |ks: &[u64]| ks.iter().map(|k| (*k, U(64), false)).collect::<Vec<_>>();
    let enumv = || {
        Variant(vec![
            (0, vec![U(32)]),
            (1, vec![U(64), Text]),
            (2, vec![pa()]),
            (3, vec![]),
            (4, vec![U(8), Text, U(64)]),
            (5, vec![VecOf(b(U(32))), U(8), VecOf(b(pa()))]),
        ])
    };
    if p == "C18" {
        s!(PointF, pf());
        s!(PointA, pa());
        s!(Wide, wide());
        s!(One, Arr(vec![U(64)]));
        s!(ArrTag, Tag(300, b(Arr(vec![U(64), wide()]))));
        s!(ArrTag2, Tag(24, b(Arr(vec![Text, U(8)]))));
        s!(Opt2, ArrOpt(vec![U(32), U(32)]));
        s!(Opt1, ArrOpt(vec![Text]));
        s!(OptTag, Tag(70000, b(ArrOpt(vec![U(32), U(64), pa()]))));
        s!(FlatN, Flat(vec![U(64), pf(), Text]));
        s!(PlainFlat, Flat(vec![U(8), Bool]));
        s!(FlatTag, Tag(5, b(Flat(vec![U(64)]))));
        s!(FlatTagBig, Tag(1 << 32, b(Flat(vec![pa()]))));
        let wide23 = || (0..23).map(|_| U(8)).collect::<Vec<_>>();
        let (mut n, mut o) = (wide23(), wide23());
        n.push(Bool);
        n.push(U(64));
        o.push(U(64));
        s!(ArrN, Arr(n));
        s!(OptN, Tag(65536, b(ArrOpt(o))));
        s!(FlatTagMax, Tag(u64::MAX, b(Flat(vec![U(64)]))));
        s!(FlatTagEdge, Tag(23, b(Flat(vec![U(64)]))));
        s!(TupA, Arr(vec![U(32), Text, U(64)]));
        s!(TupF, Flat(vec![U(32), U(64)]));
        s!(TupTag, Tag(0, b(Flat(vec![Bytes]))));
        s!(TupArrTag, Tag(255, b(Arr(vec![U(64), pa()]))));
    }
    if p == "C18" || p == "C20" {
        s!(MapA, mapa());
        s!(MapS, Map(vec![(5, U(32), true), (6, Text, false), (7, U(64), false)]));
        s!(MapK, Map(vec![(0, U(64), false), (3, Text, true), (4, U(8), false), (6, U(16), true)]));
        s!(MapT, Tag(1000, b(Map(vec![(23, U(64), false), (24, pa(), false), (26, Bytes, true), (27, U(64), false)]))));
        s!(MapO, Map(vec![(0, U(8), false), (1, mapa(), false), (2, Bool, false)]));
        s!(MapOrder, Map(vec![(1, U(64), true), (3, U(8), false), (5, Text, true)]));
        s!(MapBelow, Map(vec![(5, U(64), false), (7, U(64), true)]));
        s!(MapTop, Map(vec![(u64::MAX - 2, U(64), false), (u64::MAX, U(64), true)]));
        s!(MapZ, Map(vec![(1, U(64), true)]));
        let mut hi = opt(&[65530, 65531, 65532, 65533, 65534, 65535, 65536]);
        hi[4].2 = true;
        s!(MapHi, Map(hi));
        let mut w = opt(&(0..35).filter(|k| *k != 7).collect::<Vec<_>>());
        w[3].2 = true;
        s!(MapW, Map(w));
    }
    if p == "C19" {
        s!(EnumV, enumv());
        s!(VarS, Variant(vec![
            (2, vec![U(64)]), (4, vec![U(8), Text]), (5, vec![pa()]), (8, vec![Bytes]), (9, vec![U(64), U(64), U(64)]), (10, vec![Bool])
        ]));
        s!(VarZ, Variant(vec![(1, vec![U(64)]), (2, vec![enumv()])]));
        s!(VarD, Variant(vec![(0, vec![U(64)]), (1, vec![Text])]));
        s!(VarU, Variant(vec![(0, vec![]), (1, vec![]), (2, vec![])]));
        s!(Code, Int(vec![0, 1, 2]));
        s!(CodeS, Int(vec![3, 4, 5, 6]));
        s!(CodeK, Int(vec![23, 26, 27, 28]));
        s!(CodeHigh, Int(vec![u32::MAX as u64, 1 << 32, (1 << 32) + 1]));
        s!(CodeEdge, Int(vec![255, 257, 258]));
        s!(CodeN, Int((0..28).filter(|k| *k != 23).collect()));
        s!(VarHigh, Variant(vec![(65535, vec![U(64)]), (65536, vec![U(8), U(8), U(8), U(64)])]));
        s!(CodeJ, Int(vec![0, 2, 4, 5]));
        s!(OneOrEmpty, Type(vec![(Ty::Null, None), (Ty::Pos, Some(U(64)))]));
        s!(Many, Type(vec![
            (Ty::Pos, Some(U(32))), (Ty::Arr, Some(pa())), (Ty::Map, Some(mapa())), (Ty::Tag, Some(Tag(5, b(Flat(vec![U(64)]))))),
            (Ty::Bytes, Some(Bytes)), (Ty::Text, Some(Text)), (Ty::Null, None), (Ty::Neg, Some(U(99)))
        ]));
        s!(TyNamed, Type(vec![(Ty::Text, Some(Text)), (Ty::Null, None)]));
    }
    v
}

pub fn suites(p: &str) -> Vec<Suite> {
    match p {
        "C18" => vec![
            Suite { name: "derived-values", kind: Kind::Seed, f: |c| values("C18", c) },
            Suite { name: "derived-inputs", kind: Kind::Seed, f: |c| inputs("C18", c) },
            Suite { name: "derived-buffers", kind: Kind::Buf, f: |c| buffers("C18", c) },
        ],
        "C19" => vec![
            Suite { name: "derived-values", kind: Kind::Seed, f: |c| values("C19", c) },
            Suite { name: "derived-inputs", kind: Kind::Seed, f: |c| inputs("C19", c) },
            Suite { name: "derived-buffers", kind: Kind::Buf, f: |c| buffers("C19", c) },
        ],
        "C20" => vec![
            Suite { name: "derived-values", kind: Kind::Seed, f: |c| values("C20", c) },
            Suite { name: "derived-inputs", kind: Kind::Seed, f: |c| inputs("C20", c) },
            Suite { name: "derived-buffers", kind: Kind::Buf, f: |c| buffers("C20", c) },
        ],
        _ => vec![],
    }
}
thread_local! {
    static SAMPLES: Vec<(&'static str, Vec<Sample>)> = vec![("C18", samples("C18")), ("C19", samples("C19")), ("C20", samples("C20"))];
}
fn with(p: &str, f: impl Fn(&[Sample]) -> Res) -> Res {
    SAMPLES.with(|v| f(&v.iter().find(|x| x.0 == p).unwrap().1))
}
fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn rng(c: &[u8]) -> Rng {
    let mut x = [0u8; 8];
    let n = c.len().min(8);
    x[..n].copy_from_slice(&c[..n]);
    Rng::new(u64::from_le_bytes(x))
}
/// a literally constructed value has the documented encoding and comes back
fn values(p: &str, c: &[u8]) -> Res {
    with(p, |ss| {
        let mut r = rng(c);
        for s in ss {
            let d = gen_d(&mut r, &s.sch);
            let d = match (&s.sch, d) {
                // the negative sample of a type enum is a generated negative number
                (Type(vs), D::E(i, _)) if vs[i].0 == Ty::Neg => {
                    let mut o = vec![];
                    let v = int(&mut r);
                    hv(&mut r, v).enc(1, &mut o);
                    D::E(i, vec![D::Raw(o)])
                }
                (_, d) => d,
            };
            nontrivial();
            let mut want = vec![];
            enc(&s.sch, &d, &mut want);
            let got = (s.enc)(&d);
            ensure!(got == want, "{}: {:?} encodes as {} instead of {}", s.name, d, hx(&got), hx(&want));
            ensure!((s.same)(&d, &got), "{}: {:?} does not come back from {}", s.name, d, hx(&got));
            compare(s, &got)?;
        }
        Ok(())
    })
}
fn compare(s: &Sample, b: &[u8]) -> Res {
    let want = dec(&s.sch, b, 0);
    let got = (s.dec)(b);
    if want.is_some() {
        nontrivial();
    }
    ensure!(got == want, "{}: {} decodes as {:?} instead of {:?}", s.name, hx(b), got, want);
    Ok(())
}
/// changed encodings are accepted or refused as documented
fn inputs(p: &str, c: &[u8]) -> Res {
    with(p, |ss| {
        let mut r = rng(c);
        for s in ss {
            let mut d = gen_d(&mut r, &s.sch);
            if let (Type(vs), D::E(i, _)) = (&s.sch, &d) {
                if vs[*i].0 == Ty::Neg {
                    d = D::E(*i, vec![D::Raw(vec![0x20])]);
                }
            }
            let mut o = vec![];
            enc(&s.sch, &d, &mut o);
            for _ in 0..3 {
                o = mutate_items(&mut r, &o);
                compare(s, &o)?;
            }
            if r.one_in(4) {
                o = mutate(&mut r, o);
                compare(s, &o)?;
            }
        }
        Ok(())
    })
}
fn buffers(p: &str, c: &[u8]) -> Res {
    with(p, |ss| {
        for s in ss {
            compare(s, c)?;
        }
        Ok(())
    })
}
