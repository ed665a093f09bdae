//! C25: the errors of derived codecs. Each definition comes with a description (`Def`), from which the expected
//! kind and context are worked out with the reference grammar; what a field's own decoder reports is asked of it alone.
use super::gen::*;
use super::oracle::*;
use super::props::seed;
use super::{ensure, nontrivial, Kind, Res, Suite};
use cbored::*;
use std::any::type_name;

pub fn suites(p: &str) -> Vec<Suite> {
    match p {
        "C25" => vec![
            Suite { name: "blame", kind: Kind::Seed, f: blame },
            Suite { name: "blame-buffers", kind: Kind::Buf, f: |c| with(|ds| ds.iter().try_for_each(|d| check(d, c))) },
        ],
        _ => vec![],
    }
}
fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// a number below 1000, whose errors have contexts of one or two entries
#[derive(Debug)]
struct P<const K: usize>(#[allow(dead_code)] u64);
const OWN: [&str; 4] = ["p0", "p1", "p2", "p3"];
impl<const K: usize> Encode for P<K> {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0)
    }
}
impl<const K: usize> Decode for P<K> {
    fn decode<'a>(reader: &mut Reader<'a>) -> Result<Self, DecodeError> {
        let n: u64 = reader.decode().map_err(|e| e.push_str(OWN[K]))?;
        if n >= 1000 {
            return Err(DecodeErrorKind::Custom(format!("{} is too much", n)).context_str(OWN[K]));
        }
        Ok(P(n))
    }
}

#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
struct FlatTwo {
    a: P<0>,
    b: P<1>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "flat", tag = 7)]
struct FlatTagged {
    inside: P<2>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "flat")]
struct FlatPair(P<0>, P<1>);
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
struct ArrThree {
    a: P<0>,
    b: P<1>,
    c: P<0>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "array", tag = 300)]
struct ArrTagged {
    first: P<3>,
    second: P<3>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "array")]
struct ArrPair(P<0>, P<1>);
#[derive(CborRepr)]
#[cborrepr(structure = "array_lastopt")]
struct OptTwo {
    a: P<0>,
    z: Option<P<1>>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", map_starts_at = 5, skipkey = 6)]
struct MapThree {
    #[cborrepr(mandatory)]
    a: P<0>,
    b: Option<P<1>>,
    #[cborrepr(mandatory)]
    c: P<0>,
}
#[derive(CborRepr)]
#[cborrepr(structure = "mapint", tag = 24)]
struct MapTagged {
    x: Option<P<2>>,
    y: Option<P<2>>,
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumint", variant_starts_at = 2, skipkey = 3)]
enum Code {
    A,
    B,
    C,
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "tagvariant", skipkey = 1)]
enum Var {
    A,
    B(P<0>),
    C { x: P<1>, y: P<1> },
    D(P<2>, P<3>, P<2>),
}
#[derive(CborRepr)]
#[cborrepr(enumtype = "enumtype")]
enum Ty {
    #[cborrepr(cbortype = "null")]
    N,
    #[cborrepr(cbortype = "positive")]
    Num(P<0>),
    #[cborrepr(cbortype = "array")]
    Arr(ArrThree),
    #[cborrepr(cbortype = "tag")]
    Tag { t: ArrTagged },
    #[cborrepr(cbortype = "text")]
    Txt(P<1>),
}

type F = (&'static str, fn(&[u8]) -> Option<Blame>);
/// the kind of an error, as far as it is told, and its context
#[derive(Clone, PartialEq, Debug)]
struct Blame {
    kind: Option<String>,
    ctx: Vec<String>,
}
enum Lay {
    Flat(Vec<F>),
    Arr(Vec<F>),
    Opt(Vec<F>),
    Map(Vec<(u64, bool, F)>),
    Int(Vec<u64>),
    Var(Vec<(u64, &'static str, Vec<F>)>),
    Ty(Vec<(u8, F)>),
}
struct Def {
    name: &'static str,
    tag: Option<u64>,
    named: bool,
    lay: Lay,
    run: fn(&[u8]) -> Option<Blame>,
}
/// what T says of a failure to read it at the start of these bytes
fn run<T: Decode>(b: &[u8]) -> Option<Blame> {
    let e = Reader::new(b).decode::<T>().err()?;
    Some(Blame { kind: Some(format!("{:?}", e.error())), ctx: e.context().iter().map(|c| c.to_string()).collect() })
}
fn told<T: std::fmt::Debug>(e: ReaderError, _: Option<T>) -> Option<String> {
    Some(format!("ReaderError({:?})", e))
}
fn defs() -> Vec<Def> {
    let p0: fn(&[u8]) -> Option<Blame> = run::<P<0>>;
    let p1: fn(&[u8]) -> Option<Blame> = run::<P<1>>;
    let p2: fn(&[u8]) -> Option<Blame> = run::<P<2>>;
    let p3: fn(&[u8]) -> Option<Blame> = run::<P<3>>;
    macro_rules! d {
        ($t:ty, $tag:expr, $n:expr, $l:expr) => {
            Def { name: type_name::<$t>(), tag: $tag, named: $n, lay: $l, run: run::<$t> }
        };
    }
    vec![
        d!(FlatTwo, None, true, Lay::Flat(vec![("a", p0), ("b", p1)])),
        d!(FlatTagged, Some(7), true, Lay::Flat(vec![("inside", p2)])),
        d!(FlatPair, None, false, Lay::Flat(vec![("field0", p0), ("field1", p1)])),
        d!(ArrThree, None, true, Lay::Arr(vec![("a", p0), ("b", p1), ("c", p0)])),
        d!(ArrTagged, Some(300), true, Lay::Arr(vec![("first", p3), ("second", p3)])),
        d!(ArrPair, None, false, Lay::Arr(vec![("field0", p0), ("field1", p1)])),
        d!(OptTwo, None, true, Lay::Opt(vec![("a", p0), ("z", p1)])),
        d!(MapThree, None, true, Lay::Map(vec![(5, true, ("a", p0)), (7, false, ("b", p1)), (8, true, ("c", p0))])),
        d!(MapTagged, Some(24), true, Lay::Map(vec![(0, false, ("x", p2)), (1, false, ("y", p2))])),
        d!(Code, None, true, Lay::Int(vec![2, 4, 5])),
        d!(Var, None, true, Lay::Var(vec![
            (0, "A", vec![]),
            (2, "B", vec![("field0", p0)]),
            (3, "C", vec![("x", p1), ("y", p1)]),
            (4, "D", vec![("field0", p2), ("field1", p3), ("field2", p2)]),
        ])),
        d!(Ty, None, true, Lay::Ty(vec![
            (0, ("Num", p0)), (4, ("Arr", run::<ArrThree>)), (6, ("Tag", run::<ArrTagged>)), (3, ("Txt", p1)), (7, ("N", |_| None)),
        ])),
    ]
}
thread_local! { static DEFS: Vec<Def> = defs(); }
fn with(f: impl FnOnce(&[Def]) -> Res) -> Res {
    DEFS.with(|d| f(d))
}

impl Def {
    /// an own refusal
    fn own(&self, kind: Option<String>) -> Option<Blame> {
        Some(Blame { kind, ctx: vec![self.name.to_string()] })
    }
    fn custom(&self) -> Option<Blame> {
        self.own(Some("Custom(".to_string()))
    }
    /// a field is to blame
    fn led(&self, f: &F, b: &[u8], more: &[&str]) -> Option<Blame> {
        let mut x = (f.1)(b)?;
        x.ctx.extend(more.iter().map(|s| s.to_string()));
        Some(x)
    }
    /// the error for these bytes: None when they decode
    fn expect(&self, b: &[u8]) -> Option<Blame> {
        let held;
        let mut b = b;
        if let Some(n) = self.tag {
            match V::parse(b, 0) {
                Some((V::Tag(h, d), _)) if h.v == n => {
                    held = d;
                    b = &held;
                }
                Some((V::Tag(h, _), _)) => return self.own(told::<u8>(ReaderError::WrongExpectedTag { expected: n, got: h.v }, None)),
                _ => return self.own(Reader::new(b).tag().err().and_then(|e| told::<u8>(e, None))),
            }
        }
        let up = if self.named { Some(self.name) } else { None };
        match &self.lay {
            Lay::Flat(fs) => {
                let mut i = 0;
                for f in fs {
                    if let Some(x) = self.led(f, &b[i..], &[f.0]) {
                        return Some(x);
                    }
                    i = match hd(b, i) {
                        R::End(j) => j,
                        _ => return None,
                    };
                }
                None
            }
            Lay::Arr(fs) | Lay::Opt(fs) => {
                let es = match V::parse(b, 0) {
                    Some((V::Arr(_, es), _)) => es,
                    _ => return self.own(Reader::new(b).array().err().and_then(|e| told::<u8>(e, None))),
                };
                if es.len() != fs.len() && !(matches!(self.lay, Lay::Opt(_)) && es.len() + 1 == fs.len()) {
                    return self.custom();
                }
                for (f, e) in fs.iter().zip(&es) {
                    let mut more = vec![f.0];
                    more.extend(up);
                    if let Some(x) = self.led(f, e, &more) {
                        return Some(x);
                    }
                }
                None
            }
            Lay::Map(fs) => {
                let es = match V::parse(b, 0) {
                    Some((V::Map(_, es), _)) => es,
                    _ => return self.own(Reader::new(b).map().err().and_then(|e| told::<u8>(e, None))),
                };
                let mut seen = vec![];
                for (k, v) in &es {
                    if let Some(mut x) = run::<u64>(k) {
                        x.ctx.push(self.name.to_string());
                        return Some(x);
                    }
                    let n = Hv::at(k, 0).v;
                    match fs.iter().find(|f| f.0 == n) {
                        None => return self.custom(),
                        Some(_) if seen.contains(&n) => return self.custom(),
                        Some((_, _, f)) => {
                            if let Some(x) = self.led(f, v, &[f.0, self.name]) {
                                return Some(x);
                            }
                        }
                    }
                    seen.push(n);
                }
                if fs.iter().any(|f| f.1 && !seen.contains(&f.0)) {
                    return self.custom();
                }
                None
            }
            Lay::Int(ns) => match run::<u64>(b) {
                Some(x) => Some(x),
                None if ns.contains(&Hv::at(b, 0).v) => None,
                None => self.custom(),
            },
            Lay::Var(vs) => {
                let es = match V::parse(b, 0) {
                    Some((V::Arr(_, es), _)) => es,
                    _ => return self.own(Reader::new(b).array().err().and_then(|e| told::<u8>(e, None))),
                };
                if es.is_empty() {
                    return self.custom();
                }
                if let Some(x) = run::<u64>(&es[0]) {
                    return Some(x);
                }
                let n = Hv::at(&es[0], 0).v;
                match vs.iter().find(|v| v.0 == n) {
                    Some((_, name, fs)) if fs.len() + 1 == es.len() => {
                        fs.iter().zip(&es[1..]).find_map(|(f, e)| self.led(f, e, &[f.0, name, self.name]))
                    }
                    _ => self.custom(),
                }
            }
            Lay::Ty(vs) => {
                if b.is_empty() || !lead_ok(b[0]) {
                    return self.own(Reader::new(b).peek_type().err().and_then(|e| told::<u8>(e, None)));
                }
                match vs.iter().find(|v| v.0 == major(b[0]) && (v.0 != 7 || b[0] == 0xf6)) {
                    Some((_, f)) => self.led(f, b, &[f.0, self.name]),
                    None => self.custom(),
                }
            }
        }
    }
}

fn check(d: &Def, b: &[u8]) -> Res {
    let (got, want) = ((d.run)(b), d.expect(b));
    if let (Some(g), Some(w)) = (&got, &want) {
        nontrivial();
        ensure!(g.ctx == w.ctx, "{} as {}: context {:?} instead of {:?}", hx(b), d.name, g.ctx, w.ctx);
        let k = g.kind.as_ref().unwrap();
        match &w.kind {
            Some(x) if x == "Custom(" => ensure!(k.starts_with("Custom("), "{} as {}: {} instead of a refusal of its own", hx(b), d.name, k),
            Some(x) => ensure!(k == x, "{} as {}: {} instead of {}", hx(b), d.name, k, x),
            None => {}
        }
    }
    // whether there is an error is the matter of another property
    Ok(())
}

fn head(m: u8, v: u64, o: &mut Vec<u8>) {
    Hv::shortest(v).enc(m, o)
}
/// something to find in a field: mostly a number that is accepted
fn field(r: &mut Rng, o: &mut Vec<u8>) {
    match r.below(12) {
        0 => o.extend(elem(r, 1).enc()),
        1 => head(0, 1000 + r.below(3), o),
        2 => o.push(0xf6),
        _ => head(0, r.below(1000), o),
    }
}
fn near(r: &mut Rng, n: u64) -> u64 {
    if r.one_in(6) { n.wrapping_add(r.below(3)).wrapping_sub(1) } else { n }
}
fn blame(c: &[u8]) -> Res {
    let mut r = seed(c);
    with(|ds| {
        for d in ds {
            let mut b = vec![];
            if let Some(n) = d.tag {
                head(6, near(&mut r, n), &mut b);
            }
            match &d.lay {
                Lay::Flat(fs) => (0..fs.len()).for_each(|_| field(&mut r, &mut b)),
                Lay::Arr(fs) | Lay::Opt(fs) => {
                    let n = if r.one_in(4) { near(&mut r, fs.len() as u64) } else { fs.len() as u64 };
                    head(4, n, &mut b);
                    (0..n).for_each(|_| field(&mut r, &mut b));
                }
                Lay::Map(fs) => {
                    let n = r.below(fs.len() as u64 + 2);
                    head(5, n, &mut b);
                    for _ in 0..n {
                        if r.one_in(12) {
                            b.extend(elem(&mut r, 0).enc());
                        } else {
                            let k = r.pick(fs).0;
                            let k = near(&mut r, k);
                            head(0, k, &mut b);
                        }
                        field(&mut r, &mut b);
                    }
                }
                Lay::Int(ns) => {
                    let k = *r.pick(ns);
                    head(0, near(&mut r, k), &mut b)
                }
                Lay::Var(vs) => {
                    let v = r.pick(vs);
                    let n = if r.one_in(4) { near(&mut r, v.2.len() as u64 + 1) } else { v.2.len() as u64 + 1 };
                    head(4, n, &mut b);
                    for k in 0..n {
                        if k > 0 || r.one_in(10) {
                            field(&mut r, &mut b)
                        } else {
                            let x = near(&mut r, v.0);
                            head(0, x, &mut b)
                        }
                    }
                }
                Lay::Ty(vs) => match r.pick(vs).0 {
                    4 => {
                        head(4, 3, &mut b);
                        (0..3).for_each(|_| field(&mut r, &mut b));
                    }
                    6 => {
                        let k = near(&mut r, 300);
                        head(6, k, &mut b);
                        head(4, 2, &mut b);
                        (0..2).for_each(|_| field(&mut r, &mut b));
                    }
                    3 => b.extend(elem_kind(&mut r, 3, 0).enc()),
                    7 => b.push(0xf6),
                    _ => field(&mut r, &mut b),
                },
            }
            check(d, &b)?;
            if r.one_in(3) {
                let m = mutate(&mut r, b);
                check(d, &m)?;
            }
        }
        Ok(())
    })
}
