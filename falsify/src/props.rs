//! One or more suites per property.
use super::gen::*;
use super::oracle::*;
use super::{ensure, nontrivial, Kind, Res, Suite};
use cbored::state::{HeaderValue, State};
use cbored::tagged::*;
use cbored::validate::{ValidateError, Validator};
use cbored::*;
use std::borrow::{Borrow, ToOwned};

pub fn suites(p: &str) -> Vec<Suite> {
    let b = |name, f| Suite { name, kind: Kind::Buf, f };
    let s = |name, f| Suite { name, kind: Kind::Seed, f };
    let h = |name, f| Suite { name, kind: Kind::Half, f };
    let o = |name, f| Suite { name, kind: Kind::Once, f };
    match p {
        "C01" => vec![b("reencode", c01), s("reencode-wf", c01_wf)],
        "C02" => vec![b("validate", c02), s("validate-events", c02_events)],
        "C03" => vec![b("data", c03), s("data-wf", c03_wf), s("long", c03_long)],
        "C04" => vec![b("api", c04), s("api-wf", c04_seed)],
        "C05" => vec![b("typed", c05), s("typed-wf", c05_seed)],
        "C06" => vec![b("missing", c06), s("prefix", c06_prefix)],
        "C07" => vec![s("roundtrip", c07), s("sequence", c07_seq), s("built", c07_built)],
        "C08" => vec![s("append", c08), s("builders", c08_build), o("constants", c08_const)],
        "C09" => vec![s("canonical", c09), b("is-canonical", c09_wire), o("edges", c09_edges)],
        "C10" => vec![b("decode", c10), s("roundtrip", c10_rt)],
        "C11" => vec![s("views", c11), b("views-wire", c11_wire), o("edges", c11_edges)],
        "C12" => vec![h("half", c12_half), s("wide", c12_wide)],
        "C13" => vec![b("content", c13), s("content-wf", c13_wf)],
        "C14" => vec![b("owned", c14), s("owned-wf", c14_wf), s("builder", c14_build)],
        "C15" => vec![b("capture", c15), s("capture-wf", c15_wf), s("from", c15_from)],
        "C16" => vec![s("events", c16)],
        "C17" => vec![b("tagged", c17), s("tagged-wf", c17_wf)],
        "C21" => vec![b("leftover", c21), s("leftover-wf", c21_wf)],
        "C22" => vec![s("sequences", c22), b("vectors", c22_buf)],
        _ => vec![],
    }
}

// ------------------------------------------------------------------ views of library values
pub fn from_hv(h: HeaderValue) -> Hv {
    match h {
        HeaderValue::Imm(v) => Hv { w: 0, v: v as u64 },
        HeaderValue::U8(v) => Hv { w: 1, v: v as u64 },
        HeaderValue::U16(v) => Hv { w: 2, v: v as u64 },
        HeaderValue::U32(v) => Hv { w: 4, v: v as u64 },
        HeaderValue::U64(v) => Hv { w: 8, v },
    }
}
fn from_len(l: StructureLength) -> Option<Hv> {
    match l {
        StructureLength::Indefinite => None,
        StructureLength::Definite(h) => Some(from_hv(h)),
    }
}
fn v_byte(b: Byte) -> V {
    let w = if format!("{:?}", b.raw_value()).starts_with("Imm") { 0 } else { 1 };
    V::Byte(Hv { w, v: b.to_u8() as u64 })
}
fn v_float(f: Float) -> V {
    match f {
        Float::FP16(x) => V::Float(2, x as u64),
        Float::FP32(x) => V::Float(4, x as u64),
        Float::FP64(x) => V::Float(8, x),
    }
}
fn v_const(c: Constant) -> V {
    V::Const(match c {
        Constant::False => 20,
        Constant::True => 21,
        Constant::Null => 22,
        Constant::Undefined => 23,
    })
}
fn v_bytes(b: &Bytes<'_>) -> V {
    match b {
        Bytes::Imm(d) => V::Str(2, (from_hv(d.value()), d.as_slice().to_vec())),
        Bytes::Chunks(c) => V::Chunks(2, c.iter().map(|d| (from_hv(d.value()), d.as_slice().to_vec())).collect()),
    }
}
fn v_text(b: &Text<'_>) -> V {
    match b {
        Text::Imm(d) => V::Str(3, (from_hv(d.value()), d.as_str().as_bytes().to_vec())),
        Text::Chunks(c) => V::Chunks(3, c.iter().map(|d| (from_hv(d.value()), d.as_str().as_bytes().to_vec())).collect()),
    }
}
fn v_bytes_owned(b: &BytesOwned) -> V {
    match b {
        BytesOwned::Imm(d) => V::Str(2, (from_hv(d.value()), d.as_slice().to_vec())),
        BytesOwned::Chunks(c) => V::Chunks(2, c.iter().map(|d| (from_hv(d.value()), d.as_slice().to_vec())).collect()),
    }
}
fn v_text_owned(b: &TextOwned) -> V {
    match b {
        TextOwned::Imm(d) => V::Str(3, (from_hv(d.value()), d.as_str().as_bytes().to_vec())),
        TextOwned::Chunks(c) => V::Chunks(3, c.iter().map(|d| (from_hv(d.value()), d.as_str().as_bytes().to_vec())).collect()),
    }
}
fn sl(c: &CborSlice) -> Vec<u8> {
    let c: &CborSlice = c;
    (&c).as_ref().to_vec()
}
fn v_array(a: &Array<'_>) -> V {
    V::Arr(from_len(a.struct_len()), (0..a.len()).map(|i| sl(a[i])).collect())
}
fn v_map(a: &Map<'_>) -> V {
    V::Map(from_len(a.struct_len()), (0..a.len()).map(|i| (sl(a[i].0), sl(a[i].1))).collect())
}
fn v_tag(t: &Tag<'_>) -> V {
    V::Tag(from_hv(t.tag_repr().raw_value()), sl(t.data()))
}
pub fn v_data(d: &Data<'_>) -> V {
    match d {
        Data::Positive(p) => V::Pos(from_hv(p.raw_value())),
        Data::Negative(p) => V::Neg(from_hv(p.raw_value())),
        Data::Float(f) => v_float(*f),
        Data::Byte(b) => v_byte(*b),
        Data::Bytes(b) => v_bytes(b),
        Data::Text(b) => v_text(b),
        Data::Array(a) => v_array(a),
        Data::Map(a) => v_map(a),
        Data::Tag(t) => v_tag(t),
        Data::False => V::Const(20),
        Data::True => V::Const(21),
        Data::Null => V::Const(22),
        Data::Undefined => V::Const(23),
    }
}
/// None: a map holds a text that is not UTF-8
fn v_owned(d: &DataOwned) -> Option<V> {
    Some(match d {
        DataOwned::Positive(p) => V::Pos(from_hv(p.raw_value())),
        DataOwned::Negative(p) => V::Neg(from_hv(p.raw_value())),
        DataOwned::Float(f) => v_float(*f),
        DataOwned::Byte(b) => v_byte(*b),
        DataOwned::Bytes(b) => v_bytes_owned(b),
        DataOwned::Text(b) => v_text_owned(b),
        DataOwned::Array(a) => V::Arr(from_len(a.struct_len()), (0..a.len()).map(|i| a[i].as_ref().to_vec()).collect()),
        DataOwned::Map(m) => {
            let ks = m.keys().map(whole).collect::<Option<Vec<_>>>()?;
            let vs = m.values().map(whole).collect::<Option<Vec<_>>>()?;
            V::Map(from_len(m.struct_len()), ks.into_iter().zip(vs).collect())
        }
        DataOwned::Tag(t) => V::Tag(from_hv(t.tag_repr().raw_value()), t.data().as_ref().to_vec()),
        DataOwned::False => V::Const(20),
        DataOwned::True => V::Const(21),
        DataOwned::Null => V::Const(22),
        DataOwned::Undefined => V::Const(23),
    })
}
/// the bytes of the element a container hands out a reader of (None: its text is not UTF-8)
fn whole(mut r: Reader<'_>) -> Option<Vec<u8>> {
    let n = r.remaining_bytes();
    let b = sl(r.exact_decodable_slice::<Any>().ok()?.untype());
    (r.is_finished() && b.len() == n).then_some(b)
}
/// decodes any element without looking at it
pub struct Any;
impl Decode for Any {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        r.data().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context::<Any>())?;
        Ok(Any)
    }
}

fn enc1<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    let mut w = Writer::new();
    w.encode(t);
    w.finalize()
}
fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn seed(c: &[u8]) -> Rng {
    let mut a = [0u8; 8];
    for (i, b) in c.iter().take(8).enumerate() {
        a[i] = *b
    }
    Rng::new(u64::from_le_bytes(a))
}

// ------------------------------------------------------------------ C01
fn c01(b: &[u8]) -> Res {
    let mut r = Reader::new(b);
    for _ in 0..4 {
        let p = r.consumed_bytes();
        let d = match r.data() {
            Ok(d) => d,
            Err(_) => return Ok(()),
        };
        nontrivial();
        let got = &b[p..r.consumed_bytes()];
        reenc(&d, got, 0)?;
    }
    Ok(())
}
fn reenc(d: &Data<'_>, want: &[u8], depth: u32) -> Res {
    let w = enc1(d);
    ensure!(w == want, "wrote {} for consumed {}", hx(&w), hx(want));
    let mut wr = Writer::new_from_vec(vec![1, 2]);
    wr.data(d);
    let w = wr.finalize();
    ensure!(&w[2..] == want, "Writer::data wrote {} for consumed {}", hx(&w), hx(want));
    let o = d.owned();
    let w = enc1(&o);
    ensure!(w == want, "owned form wrote {} for consumed {}", hx(&w), hx(want));
    match decode_from_bytes::<DataOwned>(want) {
        Ok(o2) => {
            let w = enc1(&o2);
            ensure!(w == want, "DataOwned decode/encode wrote {} for {}", hx(&w), hx(want));
        }
        Err(e) => return Err(format!("DataOwned refuses {}: {:?}", hx(want), e)),
    }
    // each kind by its own writer function
    let mut wr = Writer::new();
    match d {
        Data::Positive(v) => wr.positive(*v),
        Data::Negative(v) => wr.negative(*v),
        Data::Float(v) => wr.float(*v),
        Data::Byte(v) => wr.byte(*v),
        Data::Bytes(v) => wr.bytes(v),
        Data::Text(v) => wr.text(v),
        Data::Array(v) => wr.array(v),
        Data::Map(v) => wr.map(v),
        Data::Tag(v) => wr.tag(v),
        Data::True => wr.constant(Constant::True),
        Data::False => wr.constant(Constant::False),
        Data::Null => wr.constant(Constant::Null),
        Data::Undefined => wr.constant(Constant::Undefined),
    }
    let w = wr.finalize();
    ensure!(w == want, "typed writer wrote {} for consumed {}", hx(&w), hx(want));
    if depth < 6 {
        let mut sub: Vec<Vec<u8>> = vec![];
        match d {
            Data::Array(a) => (0..a.len()).for_each(|i| sub.push(sl(a[i]))),
            Data::Map(a) => (0..a.len()).for_each(|i| {
                sub.push(sl(a[i].0));
                sub.push(sl(a[i].1))
            }),
            Data::Tag(t) => sub.push(sl(t.data())),
            _ => {}
        }
        for s in sub {
            let mut r = Reader::new(&s);
            if let Ok(d) = r.data() {
                let n = r.consumed_bytes();
                reenc(&d, &s[..n], depth + 1)?;
            }
        }
    }
    Ok(())
}
fn c01_wf(c: &[u8]) -> Res {
    let b = wf(&mut seed(c));
    let mut r = Reader::new(&b);
    match r.data() {
        Ok(d) => {
            nontrivial();
            reenc(&d, &b[..r.consumed_bytes()], 0)
        }
        Err(e) => Err(format!("{} is well-formed but refused: {:?}", hx(&b), e)),
    }
}

// ------------------------------------------------------------------ C02
fn c02(b: &[u8]) -> Res {
    let mut v = Validator::new(b);
    for _ in 0..5 {
        ensure!(v.remaining_bytes() <= b.len(), "remaining");
        let p = b.len() - v.remaining_bytes();
        let want = item(b, p);
        match (v.next(), want) {
            (Ok((s, n)), R::End(e)) => {
                nontrivial();
                ensure!(sl(s) == b[p..e], "at {} of {}: validated {} instead of {}", p, hx(b), hx(&sl(s)), hx(&b[p..e]));
                ensure!(n == e - p, "at {} of {}: length {} instead of {}", p, hx(b), n, e - p);
                ensure!(v.remaining_bytes() == b.len() - e, "at {} of {}: left with {} remaining", p, hx(b), v.remaining_bytes());
            }
            (Err(_), R::End(_)) => return Err(format!("at {} of {}: a well-formed item is refused", p, hx(b))),
            (Ok((s, _)), _) => return Err(format!("at {} of {}: {} is accepted", p, hx(b), hx(&sl(s)))),
            (Err(_), _) => {}
        }
    }
    Ok(())
}
fn c02_events(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    if r.one_in(2) {
        b.extend(wf(&mut r));
    }
    if r.one_in(2) {
        b = mutate(&mut r, b);
    }
    c02(&b)
}

// ------------------------------------------------------------------ C03
fn c03(b: &[u8]) -> Res {
    let mut r = Reader::new(b);
    let mut v = Validator::new(b);
    for _ in 0..4 {
        let p = r.consumed_bytes();
        let want = ritem(b, p);
        match (r.data(), want) {
            (Ok(d), R::End(e)) => {
                nontrivial();
                ensure!(r.consumed_bytes() == e, "at {} of {}: consumed up to {} instead of {}", p, hx(b), r.consumed_bytes(), e);
                let (wv, _) = V::parse(b, p).unwrap();
                let gv = v_data(&d);
                ensure!(gv == wv, "at {} of {}: read {:?} instead of {:?}", p, hx(b), gv, wv);
                iters(&d)?;
                match v.next() {
                    Ok((_, n)) => ensure!(n == e - p, "at {} of {}: validated {} bytes, read {}", p, hx(b), n, e - p),
                    Err(e) => return Err(format!("at {} of {}: read but not validated: {:?}", p, hx(b), e)),
                }
            }
            (Err(e), R::End(_)) => return Err(format!("at {} of {}: a well-formed element is refused: {:?}", p, hx(b), e)),
            (Ok(d), _) => return Err(format!("at {} of {}: {:?} is accepted", p, hx(b), d)),
            (Err(_), _) => return c03_typed(b, p),
        }
        c03_typed(b, p)?;
    }
    Ok(())
}
/// the typed container readers
fn c03_typed(b: &[u8], p: usize) -> Res {
    let want = V::parse(b, p);
    for k in 0..3 {
        let s = &b[p..];
        let mut r = Reader::new(s);
        let got = match k {
            0 => r.array().map(|a| v_array(&a)).ok(),
            1 => r.map().map(|a| v_map(&a)).ok(),
            _ => r.tag().map(|a| v_tag(&a)).ok(),
        };
        let w = match &want {
            Some((v, e)) if matches!((k, v), (0, V::Arr(..)) | (1, V::Map(..)) | (2, V::Tag(..))) => Some((v.clone(), e - p)),
            _ => None,
        };
        match (got, w) {
            (Some(g), Some((w, e))) => {
                ensure!(g == w, "{}: {:?} instead of {:?}", hx(s), g, w);
                ensure!(r.consumed_bytes() == e, "{}: consumed {} instead of {}", hx(s), r.consumed_bytes(), e);
            }
            (None, None) => {}
            (g, w) => return Err(format!("{}: got {:?}, expected {:?}", hx(s), g, w)),
        }
    }
    Ok(())
}
/// iterators agree with the slices
fn iters(d: &Data<'_>) -> Res {
    match d {
        Data::Array(a) => {
            let n = a.iter().count();
            ensure!(n == a.len(), "iter yields {} of {}", n, a.len());
            for (i, r) in a.iter().enumerate() {
                same_el(r, &sl(a[i]))?;
            }
            let o = a.owned();
            ensure!(o.len() == a.len() && o.iter().count() == a.len(), "owned len");
            for (i, r) in o.iter().enumerate() {
                same_el(r, &sl(a[i]))?;
            }
        }
        Data::Map(m) => {
            ensure!(m.iter().count() == m.len() && m.keys().count() == m.len() && m.values().count() == m.len(), "map iter count");
            for (i, (k, v)) in m.iter().enumerate() {
                same_el(k, &sl(m[i].0))?;
                same_el(v, &sl(m[i].1))?;
            }
            for (i, k) in m.keys().enumerate() {
                same_el(k, &sl(m[i].0))?;
            }
            for (i, v) in m.values().enumerate() {
                same_el(v, &sl(m[i].1))?;
            }
            let o = m.owned();
            ensure!(o.len() == m.len() && o.iter().count() == m.len() && o.keys().count() == m.len() && o.values().count() == m.len(), "owned map iter count");
            for (i, (k, v)) in o.iter().enumerate() {
                same_el(k, &sl(m[i].0))?;
                same_el(v, &sl(m[i].1))?;
            }
            for (i, k) in o.keys().enumerate() {
                same_el(k, &sl(m[i].0))?;
            }
            for (i, v) in o.values().enumerate() {
                same_el(v, &sl(m[i].1))?;
            }
        }
        Data::Tag(t) => {
            same_el(t.reader(), &sl(t.data()))?;
            let o = t.owned();
            same_el(o.read_data(), &sl(t.data()))?;
            ensure!(t.value() == from_hv(t.tag_repr().raw_value()).v && o.value() == t.value(), "tag value");
        }
        _ => {}
    }
    Ok(())
}
/// the reader stands in front of exactly this element
fn same_el(mut r: Reader<'_>, want: &[u8]) -> Res {
    ensure!(r.consumed_bytes() == 0 && r.remaining_bytes() == want.len(), "inner reader of {} bytes for {}", r.remaining_bytes(), hx(want));
    let mut q = Reader::new(want);
    let (a, b) = (r.data(), q.data());
    match (a, b) {
        (Ok(a), Ok(b)) => ensure!(v_data(&a) == v_data(&b), "inner reader reads {:?} for {}", a, hx(want)),
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("inner reader reads {:?}, not {:?}", a, b)),
    }
    Ok(())
}
fn c03_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    b.extend(wf(&mut r));
    if r.one_in(3) {
        b = mutate(&mut r, b)
    }
    c03(&b)
}
/// long containers: counts that need wider lengths
fn c03_long(c: &[u8]) -> Res {
    let mut r = seed(c);
    if !r.one_in(40) {
        return Ok(());
    }
    let n = *r.pick(&[23u64, 24, 25, 255, 256, 257, 300]);
    let h = hv(&mut r, n);
    let m = r.one_in(2);
    let els: Vec<Vec<u8>> = (0..n).map(|i| { let mut o = vec![]; Hv::shortest(i).enc(0, &mut o); o }).collect();
    let ind = r.one_in(3);
    let v = if m {
        V::Map(if ind { None } else { Some(h) }, els.iter().map(|e| (e.clone(), vec![0xf6])).collect())
    } else {
        V::Arr(if ind { None } else { Some(h) }, els)
    };
    let mut b = v.enc();
    b.push(0);
    c03(&b)
}

// ------------------------------------------------------------------ C04
fn c04_seed(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    if r.one_in(2) {
        b.extend(wf(&mut r));
    }
    if r.one_in(2) {
        b = mutate(&mut r, b);
    }
    if r.one_in(8) {
        let t = *r.pick(&[0u64, 2, 3, 24, 30]);
        b = V::Tag(hv(&mut r, t), b).enc();
    }
    if b.len() > 3000 {
        b.truncate(3000)
    }
    for _ in 0..3 {
        let ops: Vec<u8> = (0..6).map(|_| r.next() as u8).collect();
        api(&ops, &b)?;
    }
    c04(&b)
}
fn c04(b: &[u8]) -> Res {
    // every single call on a fresh reader, then short sequences
    for k in 0..NOPS {
        api(&[k], b)?;
    }
    let h = b.iter().fold(7u8, |a, x| a.wrapping_mul(31).wrapping_add(*x));
    api(&[h, h / 3, h.wrapping_mul(7), h ^ 0x55], b)?;
    let mut v = Validator::new(b);
    let mut last = v.remaining_bytes();
    ensure!(last == b.len(), "validator remaining");
    for _ in 0..6 {
        let _ = v.next();
        ensure!(v.remaining_bytes() <= last, "validator moved backwards");
        last = v.remaining_bytes();
    }
    let _ = decode_from_bytes::<u64>(b);
    let _ = decode_from_bytes::<DataOwned>(b);
    let _ = decode_from_bytes::<RationalNumber>(b);
    Ok(())
}
const NOPS: u8 = 44;
fn api(ops: &[u8], b: &[u8]) -> Res {
    let mut r = Reader::new(b);
    for o in ops {
        let p = r.consumed_bytes();
        nontrivial();
        match o % NOPS {
            0 => drop(r.positive().map(|x| (x.to_u64(), x.is_canonical()))),
            1 => drop(r.negative().map(|x| (x.to_i64(), x.negative_u64(), x.is_canonical()))),
            2 => drop(r.scalar().map(|x| (x.to_i64(), x.is_canonical(), x.is_negative()))),
            3 => drop(r.byte().map(|x| (x.to_u8(), x.is_canonical(), enc1(&x)))),
            4 => drop(r.float().map(|x| (x.to_f32(), x.to_f64()))),
            5 => drop(r.constant()),
            6 => drop(r.null()),
            7 => drop(r.undefined()),
            8 => drop(r.bool()),
            9 => drop(r.bytes().map(|x| (x.len(), x.to_vec(), x.owned(), enc1(&x)))),
            10 => drop(r.text().map(|x| (x.to_string(), x.to_str_chunks().len(), x.owned(), enc1(&x)))),
            11 => {
                if let Ok(a) = r.array() {
                    walk(&Data::Array(a), 0)
                }
            }
            12 => {
                if let Ok(a) = r.map() {
                    walk(&Data::Map(a), 0)
                }
            }
            13 => {
                if let Ok(a) = r.tag() {
                    walk(&Data::Tag(a), 0)
                }
            }
            14 => {
                if let Ok(d) = r.data() {
                    walk(&d, 0)
                }
            }
            15 => drop(r.peek_type()),
            16 => drop(r.expect_finished()),
            17 => drop(r.decode::<u8>()),
            18 => drop(r.decode::<u16>()),
            19 => drop(r.decode::<u32>()),
            20 => drop(r.decode::<u64>()),
            21 => drop(r.decode::<bool>()),
            22 => drop(r.decode::<String>()),
            23 => drop(r.decode::<Vec<u8>>()),
            24 => drop(r.decode::<[u8; 4]>()),
            25 => drop(r.decode::<[u8; 0]>()),
            26 => drop(r.decode::<Scalar>()),
            27 => drop(r.decode::<DataOwned>().map(|d| d.borrow().owned())),
            28 => drop(r.decode::<CborDataOf<u64>>().map(|d| d.unserialize())),
            29 => drop(r.decode::<CborDataOf<DataOwned>>().map(|d| d.unserialize())),
            30 => drop(r.decode::<CborDataOf<CborDataOf<String>>>().map(|d| d.unserialize().unserialize())),
            31 => drop(decode_vec::<u64>(&mut r)),
            32 => drop(decode_vec::<DataOwned>(&mut r)),
            33 => drop(r.decode::<StandardDateTime>().map(|x| enc1(&x))),
            34 => drop(r.decode::<PositiveBignum>().map(|x| (x.to_be_bytes(), enc1(&x)))),
            35 => drop(r.decode::<NegativeBignum>().map(|x| (x.to_be_bytes(), enc1(&x)))),
            36 => drop(r.decode::<EncodedCBOR>().map(|x| (x.to_bytes(), enc1(&x)))),
            37 => drop(r.decode::<RationalNumber>().map(|x| enc1(&x))),
            38 => drop(r.exact_decodable_slice::<u64>().map(|s| s.to_owned().unserialize())),
            39 => drop(r.exact_decodable_data::<RationalNumber>().map(|s| enc1(&s.unserialize()))),
            40 => drop(r.decode_one::<u64>()),
            41 => drop(r.decode_one::<DataOwned>()),
            42 => drop(r.decode::<super::derive::MapA>().map(|x| enc1(&x))),
            _ => drop(r.decode::<super::derive::EnumV>().map(|x| enc1(&x))),
        }
        ensure!(r.consumed_bytes() >= p, "op {} moved backwards", o % NOPS);
        ensure!(r.consumed_bytes() <= b.len(), "op {} moved beyond the end", o % NOPS);
        ensure!(r.remaining_bytes() + r.consumed_bytes() == b.len(), "op {} accounting", o % NOPS);
    }
    Ok(())
}
/// everything one can do with an element
fn walk(d: &Data<'_>, depth: u32) {
    let o = d.owned();
    let _ = o.borrow();
    let _ = enc1(d);
    if depth > 4 {
        return;
    }
    match d {
        Data::Array(a) => {
            for mut r in a.iter() {
                if let Ok(d) = r.data() {
                    walk(&d, depth + 1)
                }
            }
            let _ = a.to_vec(|r| r.decode::<u64>().map_err(|e| e.error().clone()));
            let _ = a.owned().to_vec(|r| r.decode::<String>().map_err(|e| e.error().clone()));
        }
        Data::Map(m) => {
            for (mut k, mut v) in m.iter() {
                if let Ok(d) = k.data() {
                    walk(&d, depth + 1)
                }
                if let Ok(d) = v.data() {
                    walk(&d, depth + 1)
                }
            }
            let _ = m.to_vec(|r| r.decode::<u64>().map_err(|e| e.error().clone()), |r| r.decode::<u64>().map_err(|e| e.error().clone()));
            let _ = m.owned().to_vec(|r| r.decode::<u64>().map_err(|e| e.error().clone()), |r| r.decode::<u64>().map_err(|e| e.error().clone()));
        }
        Data::Tag(t) => {
            let _ = t.value();
            let _ = t.read_data(|r| r.text().map(|_| ()));
            let _ = t.decode_data::<u64>();
            let _ = t.decode_data::<DataOwned>();
            if let Ok(d) = t.reader().data() {
                walk(&d, depth + 1)
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ C05
pub fn type_at(s: &[u8], p: usize) -> Option<Type> {
    if p >= s.len() || !lead_ok(s[p]) {
        return None;
    }
    Some(match (major(s[p]), ai(s[p])) {
        (0, _) => Type::Positive,
        (1, _) => Type::Negative,
        (2, _) => Type::Bytes,
        (3, _) => Type::Text,
        (4, _) => Type::Array,
        (5, _) => Type::Map,
        (6, _) => Type::Tag,
        (_, 20) => Type::False,
        (_, 21) => Type::True,
        (_, 22) => Type::Null,
        (_, 23) => Type::Undefined,
        (_, 25..=27) => Type::Float,
        (_, 31) => Type::Break,
        _ => Type::Byte,
    })
}
fn c05(b: &[u8]) -> Res {
    c05_at(b, 0)?;
    // after a first element
    if let R::End(e) = ritem(b, 0) {
        c05_at(b, e)?;
    }
    Ok(())
}
fn c05_at(b: &[u8], p: usize) -> Res {
    let ty = type_at(b, p);
    let head = hd(b, p);
    let el = V::parse(b, p);
    for k in 0..14 {
        let mut r = Reader::new(b);
        if p > 0 {
            match r.data() {
                Ok(_) => {}
                Err(e) => return Err(format!("{}: {:?}", hx(b), e)),
            }
        }
        ensure!(r.consumed_bytes() == p, "{}: at {} instead of {}", hx(b), r.consumed_bytes(), p);
        ensure!(r.remaining_bytes() + p == b.len(), "accounting");
        ensure!(r.is_finished() == (p == b.len()), "is_finished");
        ensure!(r.expect_finished().is_ok() == (p == b.len()), "expect_finished");
        if let Err(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) = r.expect_finished() {
            ensure!(at == p && remaining_bytes == b.len() - p && next_byte == b[p], "expect_finished report");
        }
        let pt = r.peek_type();
        ensure!(pt.as_ref().ok().cloned() == ty, "{} at {}: peek_type {:?} instead of {:?}", hx(b), p, pt, ty);
        ensure!(r.consumed_bytes() == p, "peek_type moved");
        let (name, got): (&str, Option<V>) = match k {
            0 => ("positive", r.positive().ok().map(|x| V::Pos(from_hv(x.raw_value())))),
            1 => ("negative", r.negative().ok().map(|x| V::Neg(from_hv(x.raw_value())))),
            2 => (
                "scalar",
                r.scalar().ok().map(|x| match x {
                    Scalar::Positive(x) => V::Pos(from_hv(x.raw_value())),
                    Scalar::Negative(x) => V::Neg(from_hv(x.raw_value())),
                }),
            ),
            3 => ("byte", r.byte().ok().map(v_byte)),
            4 => ("float", r.float().ok().map(v_float)),
            5 => ("constant", r.constant().ok().map(v_const)),
            6 => ("null", r.null().ok().map(|_| V::Const(22))),
            7 => ("undefined", r.undefined().ok().map(|_| V::Const(23))),
            8 => ("bool", r.bool().ok().map(|x| V::Const(20 + x as u8))),
            9 => ("bytes", r.bytes().ok().map(|x| v_bytes(&x))),
            10 => ("text", r.text().ok().map(|x| v_text(&x))),
            11 => ("array", r.array().ok().map(|x| v_array(&x))),
            12 => ("map", r.map().ok().map(|x| v_map(&x))),
            _ => ("tag", r.tag().ok().map(|x| v_tag(&x))),
        };
        let fits = match (k, ty) {
            (0, Some(Type::Positive))
            | (1, Some(Type::Negative))
            | (2, Some(Type::Positive | Type::Negative))
            | (3, Some(Type::Byte))
            | (4, Some(Type::Float))
            | (5, Some(Type::False | Type::True | Type::Null | Type::Undefined))
            | (6, Some(Type::Null))
            | (7, Some(Type::Undefined))
            | (8, Some(Type::False | Type::True))
            | (9, Some(Type::Bytes))
            | (10, Some(Type::Text))
            | (11, Some(Type::Array))
            | (12, Some(Type::Map))
            | (13, Some(Type::Tag)) => true,
            _ => false,
        };
        if !fits || !matches!(head, R::End(_)) {
            ensure!(got.is_none(), "{} at {}: {} accepts {:?}", hx(b), p, name, got);
            ensure!(r.consumed_bytes() == p, "{} at {}: failed {} moved to {}", hx(b), p, name, r.consumed_bytes());
        } else {
            nontrivial();
            match (&got, &el) {
                (Some(g), Some((w, e))) => {
                    ensure!(g == w, "{} at {}: {} gives {:?} instead of {:?}", hx(b), p, name, g, w);
                    ensure!(r.consumed_bytes() == *e, "{} at {}: {} consumed up to {} instead of {}", hx(b), p, name, r.consumed_bytes(), e);
                }
                (None, None) => ensure!(r.consumed_bytes() >= p && r.consumed_bytes() <= b.len(), "moved backwards"),
                (g, w) => return Err(format!("{} at {}: {} gives {:?}, expected {:?}", hx(b), p, name, g, w)),
            }
        }
        ensure!(r.remaining_bytes() + r.consumed_bytes() == b.len(), "accounting");
        if got.is_none() && r.consumed_bytes() == p {
            // another read can be tried
            let d = r.data().ok().map(|d| v_data(&d));
            ensure!(d == el.as_ref().map(|x| x.0.clone()), "{} at {}: after {}, data gives {:?}", hx(b), p, name, d);
        }
    }
    Ok(())
}
fn c05_seed(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    b.extend(wf(&mut r));
    if r.one_in(3) {
        b = mutate(&mut r, b)
    }
    c05(&b)
}

// ------------------------------------------------------------------ C06
fn miss_r(e: &ReaderError) -> Option<(u64, u64)> {
    match e {
        ReaderError::DataMissing(m) => Some((m.expecting_bytes as u64, m.got_bytes as u64)),
        _ => None,
    }
}
fn miss_v(e: &ValidateError) -> Option<(u64, u64)> {
    match e {
        ValidateError::DataMissing(m) => Some((m.expecting_bytes as u64, m.got_bytes as u64)),
        _ => None,
    }
}
fn c06(b: &[u8]) -> Res {
    c06_at(b, 0)?;
    if let R::End(e) = ritem(b, 0) {
        c06_at(b, e)?;
    }
    Ok(())
}
fn c06_at(b: &[u8], p: usize) -> Res {
    if let R::Missing { n, got } = item(b, p) {
        nontrivial();
        ensure!(got < n, "oracle");
        let mut v = Validator::new(b);
        if p > 0 {
            if v.next().is_err() {
                return Err(format!("{}: first item refused", hx(b)));
            }
        }
        match v.next() {
            Ok(_) => return Err(format!("{} at {}: truncated item accepted", hx(b), p)),
            Err(e) => ensure!(miss_v(&e) == Some((n, got)), "{} at {}: validating reports {:?}, expected {} with {}", hx(b), p, e, n, got),
        }
    }
    if let R::Missing { n, got } = ritem(b, p) {
        nontrivial();
        ensure!(got < n, "oracle");
        for k in 0..3 {
            let mut r = Reader::new(b);
            if p > 0 {
                let _ = r.data();
            }
            let e = match k {
                0 => r.data().err(),
                1 => match type_at(b, p) {
                    Some(Type::Positive) => r.positive().err(),
                    Some(Type::Negative) => r.negative().err(),
                    Some(Type::Byte) => r.byte().err(),
                    Some(Type::Float) => r.float().err(),
                    Some(Type::Bytes) => r.bytes().err(),
                    Some(Type::Text) => r.text().err(),
                    Some(Type::Array) => r.array().err(),
                    Some(Type::Map) => r.map().err(),
                    Some(Type::Tag) => r.tag().err(),
                    _ => r.positive().err(),
                },
                _ => {
                    if matches!(type_at(b, p), Some(Type::Positive | Type::Negative)) {
                        r.scalar().err()
                    } else {
                        r.data().err()
                    }
                }
            };
            match e {
                None => return Err(format!("{} at {}: truncated element accepted", hx(b), p)),
                Some(e) => ensure!(miss_r(&e) == Some((n, got)), "{} at {}: reading reports {:?}, expected {} with {}", hx(b), p, e, n, got),
            }
        }
    }
    Ok(())
}
fn c06_prefix(c: &[u8]) -> Res {
    let mut r = seed(c);
    let w = wf(&mut r);
    for k in 0..w.len() {
        if w.len() > 60 && k > 20 && k + 20 < w.len() && !r.one_in(8) {
            continue;
        }
        ensure!(matches!(item(&w[..k], 0), R::Missing { .. }), "oracle: {} cut at {}", hx(&w), k);
        c06_at(&w[..k], 0)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C07
/// write the value the library reads from these bytes, with a prefix and a suffix, and read it back
fn c07(c: &[u8]) -> Res {
    let mut r = seed(c);
    let b = wf(&mut r);
    let mut rd = Reader::new(&b);
    let d = match rd.data() {
        Ok(d) => d,
        Err(e) => return Err(format!("{} refused: {:?}", hx(&b), e)),
    };
    nontrivial();
    let pre = bytes(&mut r);
    let mut w = Writer::new_from_vec(pre.clone());
    w.data(&d);
    let mut o = w.finalize();
    let end = o.len();
    o.extend(bytes(&mut r));
    let mut q = Reader::new(&o[pre.len()..]);
    let e = q.data().map_err(|e| format!("{:?} written as {} is refused: {:?}", d, hx(&o[pre.len()..end]), e))?;
    ensure!(e == d, "{:?} read back as {:?}", d, e);
    ensure!(v_data(&e) == v_data(&d), "{:?} read back with another representation {:?}", d, e);
    ensure!(q.consumed_bytes() == end - pre.len(), "wrote {} bytes, read back {}", end - pre.len(), q.consumed_bytes());
    // the matching reader
    let mut q = Reader::new(&o[pre.len()..]);
    let ok = match &d {
        Data::Positive(v) => q.positive().ok() == Some(*v),
        Data::Negative(v) => q.negative().ok() == Some(*v),
        Data::Float(v) => q.float().ok() == Some(*v),
        Data::Byte(v) => q.byte().ok() == Some(*v),
        Data::Bytes(v) => q.bytes().ok().as_ref() == Some(v),
        Data::Text(v) => q.text().ok().as_ref() == Some(v),
        Data::Array(v) => q.array().ok().as_ref() == Some(v),
        Data::Map(v) => q.map().ok().as_ref() == Some(v),
        Data::Tag(v) => q.tag().ok().as_ref() == Some(v),
        Data::True => q.bool().ok() == Some(true),
        Data::False => q.bool().ok() == Some(false),
        Data::Null => q.null().is_ok(),
        Data::Undefined => q.undefined().is_ok(),
    };
    ensure!(ok, "{:?} is not read back by its own reader from {}", d, hx(&o[pre.len()..]));
    ensure!(q.consumed_bytes() == end - pre.len(), "wrote {} bytes, typed read {}", end - pre.len(), q.consumed_bytes());
    Ok(())
}
fn c07_seq(c: &[u8]) -> Res {
    let mut r = seed(c);
    let n = 1 + r.below(5);
    let bs: Vec<Vec<u8>> = (0..n).map(|_| wf(&mut r)).collect();
    let ds: Vec<Data<'_>> = bs.iter().map(|b| Reader::new(b).data()).collect::<Result<_, _>>().map_err(|e| format!("{:?}", e))?;
    nontrivial();
    let mut w = Writer::new();
    for d in &ds {
        w.data(d)
    }
    let o = w.finalize();
    let mut q = Reader::new(&o);
    for d in &ds {
        let e = q.data().map_err(|e| format!("{} refused: {:?}", hx(&o), e))?;
        ensure!(e == *d, "sequence: {:?} read back as {:?}", d, e);
    }
    ensure!(q.is_finished(), "sequence: bytes left");
    Ok(())
}
/// values built by the public constructors
fn c07_built(c: &[u8]) -> Res {
    let mut r = seed(c);
    let bs: Vec<Vec<u8>> = (0..r.below(4)).map(|_| bytes(&mut r)).collect();
    let ts: Vec<String> = (0..r.below(4)).map(|_| text(&mut r)).collect();
    let n = int(&mut r);
    let big: Vec<u8> = vec![7; *r.pick(&[23usize, 24, 255, 256, 65535, 65536])];
    nontrivial();
    let d = match r.below(12) {
        0 => Data::Positive(Positive::canonical(n)),
        1 => Data::Negative(Negative::canonical(n)),
        2 => Data::Byte(Byte::canonical(n as u8)),
        3 => Data::Float(*r.pick(&[Float::FP16(n as u16), Float::FP32(n as u32), Float::FP64(n)])),
        4 => Data::Bytes(Bytes::from_slice(bs.first().map(|x| &x[..]).unwrap_or(&[]))),
        5 => Data::Bytes(Bytes::Chunks(bs.iter().map(|b| BytesData::from_slice(b)).collect())),
        6 => Data::Text(Text::from_str(ts.first().map(|x| &x[..]).unwrap_or(""))),
        7 => Data::Text(Text::Chunks(ts.iter().map(|b| TextData::from_str(b)).collect())),
        8 => r.pick(&[Data::True, Data::False, Data::Null, Data::Undefined]).clone(),
        9 if r.one_in(30) => Data::Bytes(Bytes::from_slice(&big)),
        10 => Data::Bytes(Bytes::Chunks(vec![BytesData::from_slice(&big[..300.min(big.len())]), BytesData::from_slice(&[])])),
        _ => Data::Positive(Positive::canonical(n)),
    };
    let o = enc1(&d);
    let want = v_data(&d).enc();
    ensure!(o == want, "{:?} written as {} instead of {}", d, hx(&o), hx(&want));
    let mut o2 = o.clone();
    o2.push(0xff);
    let mut q = Reader::new(&o2);
    let e = q.data().map_err(|e| format!("{:?} written as {} is refused: {:?}", d, hx(&o), e))?;
    ensure!(e == d && q.consumed_bytes() == o.len(), "{:?} read back as {:?}", d, e);
    // elements of containers
    let mut bld = ArrayBuilder::new();
    for _ in 0..r.below(4) {
        bld.append_encodable(&d);
    }
    let a = if r.one_in(2) { bld.finite() } else { bld.indefinite() };
    let mut w = Writer::new();
    w.array(&a.borrow());
    let o = w.finalize();
    let mut q = Reader::new(&o);
    let e = q.array().map_err(|e| format!("built array {} refused: {:?}", hx(&o), e))?;
    ensure!(e == a.borrow() && q.is_finished(), "built array read back as {:?}", e);
    Ok(())
}

// ------------------------------------------------------------------ C08
fn c08(c: &[u8]) -> Res {
    let mut r = seed(c);
    let b = wf(&mut r);
    let want = V::parse(&b, 0).ok_or("generator")?.0.enc();
    let d = Reader::new(&b).data().map_err(|e| format!("{} refused: {:?}", hx(&b), e))?;
    nontrivial();
    let pre = bytes(&mut r);
    for k in 0..3 {
        let mut w = Writer::new_from_vec(pre.clone());
        let o = match k {
            0 => {
                w.data(&d);
                w.finalize()
            }
            1 => {
                w.encode(&d.owned());
                w.finalize()
            }
            _ => {
                match &d {
                    Data::Positive(v) => w.scalar(Scalar::Positive(*v)),
                    Data::Negative(v) => w.scalar(Scalar::Negative(*v)),
                    Data::Float(v) => w.float(*v),
                    Data::Byte(v) => w.byte(*v),
                    Data::Bytes(v) => w.bytes(v),
                    Data::Text(v) => w.text(v),
                    Data::Array(v) => w.array(v),
                    Data::Map(v) => w.map(v),
                    Data::Tag(v) => w.tag(v),
                    Data::True => w.bool(true),
                    Data::False => w.bool(false),
                    Data::Null => w.constant(Constant::Null),
                    Data::Undefined => w.constant(Constant::Undefined),
                }
                w.finalize_data().as_ref().to_vec()
            }
        };
        ensure!(o.len() >= pre.len() && o[..pre.len()] == pre[..], "the bytes already there changed");
        ensure!(o[pre.len()..] == want[..], "{:?} written as {} instead of {}", d, hx(&o[pre.len()..]), hx(&want));
    }
    Ok(())
}
pub fn lib_hv(h: Hv) -> HeaderValue {
    match h.w {
        0 => HeaderValue::Imm(h.v as u8),
        1 => HeaderValue::U8(h.v as u8),
        2 => HeaderValue::U16(h.v as u16),
        4 => HeaderValue::U32(h.v as u32),
        _ => HeaderValue::U64(h.v),
    }
}
fn c08_build(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut want = bytes(&mut r);
    let mut w = Writer::new_from_vec(want.clone());
    nontrivial();
    build(&mut r, &mut w, &mut want, 3);
    build(&mut r, &mut w, &mut want, 2);
    let o = w.finalize();
    ensure!(o == want, "built {} instead of {}", hx(&o), hx(&want));
    Ok(())
}
fn build(r: &mut Rng, w: &mut Writer, want: &mut Vec<u8>, depth: u32) {
    let v = int(r);
    let h = hv(r, v);
    let k = if depth == 0 { 3 + r.below(4) } else { r.below(7) };
    match k {
        0 | 1 => {
            let m = 4 + k as u8;
            let len = if r.one_in(3) { StructureLength::Indefinite } else { StructureLength::Definite(lib_hv(h)) };
            let n = r.below(4);
            if len.is_indefinite() {
                want.push(m * 32 + 31)
            } else {
                h.enc(m, want)
            }
            let f = |w: &mut Writer| {
                for _ in 0..n {
                    build(r, w, want, depth - 1)
                }
                if len.is_indefinite() {
                    want.push(0xff)
                }
            };
            if m == 4 {
                w.array_build(len, f)
            } else {
                w.map_build(len, f)
            }
        }
        2 => {
            let s = Hv::shortest(v);
            s.enc(6, want);
            w.tag_build(TagValue::from_u64(v), |w| build(r, w, want, depth - 1))
        }
        3 => {
            w.positive(Positive::canonical(v));
            Hv::shortest(v).enc(0, want)
        }
        4 => {
            w.negative(Negative::canonical(v));
            Hv::shortest(v).enc(1, want)
        }
        5 => {
            let t = text(r);
            w.text(&Text::from_str(&t));
            Hv::shortest(t.len() as u64).enc(3, want);
            want.extend(t.as_bytes())
        }
        _ => {
            let b = v as u8;
            w.byte(Byte::canonical(b));
            if b < 20 {
                want.push(0xe0 + b)
            } else {
                want.extend([0xf8, b])
            }
        }
    }
}
fn c08_const(_: &[u8]) -> Res {
    nontrivial();
    let t = |f: &dyn Fn(&mut Writer), want: &[u8]| -> Res {
        let mut w = Writer::new();
        f(&mut w);
        let o = w.finalize();
        ensure!(o == want, "{} instead of {}", hx(&o), hx(want));
        Ok(())
    };
    t(&|w| w.constant(Constant::False), &[0xf4])?;
    t(&|w| w.constant(Constant::True), &[0xf5])?;
    t(&|w| w.constant(Constant::Null), &[0xf6])?;
    t(&|w| w.constant(Constant::Undefined), &[0xf7])?;
    t(&|w| w.bool(true), &[0xf5])?;
    t(&|w| w.bool(false), &[0xf4])?;
    t(&|w| w.float(Float::FP16(0x1234)), &[0xf9, 0x12, 0x34])?;
    t(&|w| w.float(Float::FP32(0x12345678)), &[0xfa, 0x12, 0x34, 0x56, 0x78])?;
    t(&|w| w.float(Float::FP64(0x123456789abcdef0)), &[0xfb, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0])?;
    t(&|w| w.array_build(StructureLength::Indefinite, |_| ()), &[0x9f, 0xff])?;
    t(&|w| w.map_build(StructureLength::Indefinite, |_| ()), &[0xbf, 0xff])?;
    t(&|w| w.array_build(StructureLength::from(0), |_| ()), &[0x80])?;
    Ok(())
}

// ------------------------------------------------------------------ C09
fn c09(c: &[u8]) -> Res {
    let mut r = seed(c);
    let v = int(&mut r);
    nontrivial();
    c09_v(v)
}
fn c09_v(v: u64) -> Res {
    let s = Hv::shortest(v);
    let ck = |m: u8, o: Vec<u8>, what: &str| -> Res {
        let mut w = vec![];
        s.enc(m, &mut w);
        ensure!(o == w, "{} {} encoded as {} instead of {}", what, v, hx(&o), hx(&w));
        Ok(())
    };
    let p = Positive::canonical(v);
    ensure!(p.to_u64() == v && p.is_canonical(), "Positive::canonical({})", v);
    ck(0, enc1(&p), "positive")?;
    let n = Negative::canonical(v);
    ensure!(n.negative_u64() == v && n.is_canonical(), "Negative::canonical({})", v);
    ck(1, enc1(&n), "negative")?;
    let sp = Scalar::canonical_positive(v);
    ensure!(sp.is_positive() && sp.is_canonical() && sp == Scalar::Positive(p), "Scalar::canonical_positive({})", v);
    ck(0, enc1(&sp), "scalar")?;
    let sn = Scalar::canonical_negative(v);
    ensure!(sn.is_negative() && sn.is_canonical() && sn == Scalar::Negative(n), "Scalar::canonical_negative({})", v);
    ck(1, enc1(&sn), "scalar")?;
    let t = TagValue::from_u64(v);
    ensure!(t.to_u64() == v && from_hv(t.raw_value()) == s, "TagValue::from_u64({})", v);
    let mut w = Writer::new();
    w.tag_build(t, |_| ());
    ck(6, w.finalize(), "tag")?;
    let l = StructureLength::from(v);
    ensure!(from_len(l) == Some(s), "StructureLength::from({})", v);
    let mut w = Writer::new();
    w.array_build(l, |_| ());
    ck(4, w.finalize(), "array length")?;
    let mut w = Writer::new();
    w.map_build(l, |_| ());
    ck(5, w.finalize(), "map length")?;
    let h = HeaderValue::canonical(v);
    ensure!(from_hv(h) == s && h.is_canonical() && h.to_u64() == v && h.to_size() as u64 == v, "HeaderValue::canonical({})", v);
    let b = Byte::canonical(v as u8);
    ensure!(b.to_u8() == v as u8 && b.is_canonical(), "Byte::canonical({})", v as u8);
    let o = enc1(&b);
    let want = if (v as u8) < 20 { vec![0xe0 + v as u8] } else { vec![0xf8, v as u8] };
    ensure!(o == want, "Byte::canonical({}) encoded as {}", v as u8, hx(&o));
    // every wider form of the same number is not canonical
    for w in [0u8, 1, 2, 4, 8] {
        if w >= s.w {
            let h = lib_hv(Hv { w, v });
            ensure!(h.is_canonical() == (w == s.w), "HeaderValue {:?} is_canonical {}", h, h.is_canonical());
            for m in 0..2 {
                let mut o = vec![];
                Hv { w, v }.enc(m, &mut o);
                let mut r = Reader::new(&o);
                let x = r.scalar().map_err(|e| format!("{:?}", e))?;
                ensure!(x.is_canonical() == (w == s.w), "{} is_canonical {}", hx(&o), x.is_canonical());
            }
        }
    }
    Ok(())
}
fn c09_edges(_: &[u8]) -> Res {
    for v in EDGES {
        c09_v(*v)?
    }
    for v in 0..=70000 {
        c09_v(v)?
    }
    nontrivial();
    Ok(())
}
fn c09_wire(b: &[u8]) -> Res {
    if let Some((v, _)) = V::parse(b, 0) {
        let mut r = Reader::new(b);
        let (got, want) = match v {
            V::Pos(h) => (r.positive().ok().map(|x| x.is_canonical()), h == Hv::shortest(h.v)),
            V::Neg(h) => (r.negative().ok().map(|x| x.is_canonical()), h == Hv::shortest(h.v)),
            V::Byte(h) => (r.byte().ok().map(|x| x.is_canonical()), h.w == if h.v < 20 { 0 } else { 1 }),
            _ => return Ok(()),
        };
        nontrivial();
        ensure!(got == Some(want), "{}: is_canonical {:?} instead of {}", hx(b), got, want);
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
fn c10(b: &[u8]) -> Res {
    let v = V::parse(b, 0);
    let num = match &v {
        Some((V::Pos(h), e)) => Some((h.v, *e)),
        _ => None,
    };
    macro_rules! ck {
        ($t:ty, $want:expr) => {{
            let want: Option<($t, usize)> = $want;
            let mut r = Reader::new(b);
            let got = r.decode::<$t>().ok();
            let at = r.consumed_bytes();
            match (&got, &want) {
                (Some(g), Some((w, e))) => {
                    nontrivial();
                    ensure!(g == w, "{}: {} decodes as {:?} instead of {:?}", hx(b), stringify!($t), g, w);
                    ensure!(at == *e, "{}: {} consumes {} instead of {}", hx(b), stringify!($t), at, e);
                }
                (None, None) => {}
                _ => return Err(format!("{}: {} decodes as {:?}, expected {:?}", hx(b), stringify!($t), got, want)),
            }
            let whole = decode_from_bytes::<$t>(b).ok();
            let ww = want.filter(|x| x.1 == b.len()).map(|x| x.0);
            ensure!(whole == ww, "{}: decode_from_bytes::<{}> gives {:?} instead of {:?}", hx(b), stringify!($t), whole, ww);
        }};
    }
    ck!(u8, num.filter(|x| x.0 <= 0xff).map(|x| (x.0 as u8, x.1)));
    ck!(u16, num.filter(|x| x.0 <= 0xffff).map(|x| (x.0 as u16, x.1)));
    ck!(u32, num.filter(|x| x.0 <= 0xffff_ffff).map(|x| (x.0 as u32, x.1)));
    ck!(u64, num);
    ck!(bool, match &v {
        Some((V::Const(c @ (20 | 21)), e)) => Some((*c == 21, *e)),
        _ => None,
    });
    let tx = match &v {
        Some((x @ (V::Str(3, _) | V::Chunks(3, _)), e)) => Some((String::from_utf8(x.flat()).map_err(|_| "oracle")?, *e)),
        _ => None,
    };
    ck!(String, tx.clone());
    let by = match &v {
        Some((x @ (V::Str(2, _) | V::Chunks(2, _)), e)) => Some((x.flat(), *e)),
        _ => None,
    };
    ck!(Vec<u8>, by.clone());
    macro_rules! fx {
        ($n:expr) => {
            ck!([u8; $n], by.clone().and_then(|(x, e)| <[u8; $n]>::try_from(x).ok().map(|a| (a, e))));
        };
    }
    fx!(0);
    fx!(1);
    fx!(2);
    fx!(3);
    fx!(5);
    fx!(32);
    ck!(Scalar, match &v {
        Some((V::Pos(h), e)) => {
            let mut o = vec![];
            h.enc(0, &mut o);
            Reader::new(&o).positive().ok().map(|p| (Scalar::Positive(p), *e))
        }
        Some((V::Neg(h), e)) => {
            let mut o = vec![];
            h.enc(1, &mut o);
            Reader::new(&o).negative().ok().map(|p| (Scalar::Negative(p), *e))
        }
        _ => None,
    });
    Ok(())
}
fn c10_rt(c: &[u8]) -> Res {
    let mut r = seed(c);
    let v = int(&mut r);
    nontrivial();
    macro_rules! rt {
        ($t:ty, $v:expr, $want:expr) => {{
            let x: $t = $v;
            let o = encode_to_bytes(&x);
            let w: Vec<u8> = $want;
            ensure!(o == w, "{} {:?} encodes as {} instead of {}", stringify!($t), x, hx(&o), hx(&w));
            let y = decode_from_bytes::<$t>(&o);
            ensure!(y.as_ref().ok() == Some(&x), "{} {:?} decodes as {:?}", stringify!($t), x, y);
        }};
    }
    let u = |m: u8, v: u64| {
        let mut o = vec![];
        Hv::shortest(v).enc(m, &mut o);
        o
    };
    rt!(u8, v as u8, u(0, v as u8 as u64));
    rt!(u16, v as u16, u(0, v as u16 as u64));
    rt!(u32, v as u32, u(0, v as u32 as u64));
    rt!(u64, v, u(0, v));
    rt!(bool, v & 1 == 1, vec![0xf4 + (v & 1) as u8]);
    let t = text(&mut r);
    let st = |m: u8, d: &[u8]| {
        let mut o = u(m, d.len() as u64);
        o.extend(d);
        o
    };
    rt!(String, t.clone(), st(3, t.as_bytes()));
    let b = bytes(&mut r);
    rt!(Vec<u8>, b.clone(), st(2, &b));
    rt!([u8; 4], [v as u8, 1, 2, 3], st(2, &[v as u8, 1, 2, 3]));
    rt!([u8; 0], [], vec![0x40]);
    rt!([u8; 24], [v as u8; 24], st(2, &[v as u8; 24]));
    rt!([u8; 300], [v as u8; 300], st(2, &[v as u8; 300]));
    let o = enc1(t.as_str());
    ensure!(o == st(3, t.as_bytes()), "str encodes as {}", hx(&o));
    let o = enc1(&b[..]);
    ensure!(o == st(2, &b), "[u8] encodes as {}", hx(&o));
    Ok(())
}

// ------------------------------------------------------------------ C11
fn c11(c: &[u8]) -> Res {
    let mut r = seed(c);
    let v = int(&mut r);
    let h = hv(&mut r, v);
    nontrivial();
    c11_v(h)
}
fn c11_v(h: Hv) -> Res {
    let v = h.v;
    for m in 0..2u8 {
        let mut o = vec![];
        h.enc(m, &mut o);
        let want = if m == 0 {
            i64::try_from(v as i128).ok()
        } else {
            i64::try_from(-1 - v as i128).ok()
        };
        let s = Reader::new(&o).scalar().map_err(|e| format!("{:?}", e))?;
        ensure!(s.to_i64() == want, "{}: to_i64 {:?} instead of {:?}", hx(&o), s.to_i64(), want);
        ensure!(s.is_positive() == (m == 0) && s.is_negative() == (m == 1), "{}: sign", hx(&o));
        ensure!(from_hv(s.raw_value()) == h, "{}: raw_value", hx(&o));
        let c = if m == 0 { Scalar::canonical_positive(v) } else { Scalar::canonical_negative(v) };
        ensure!(c.to_i64() == want && c.is_positive() == (m == 0), "canonical {}: to_i64 {:?}", v, c.to_i64());
        match s {
            Scalar::Positive(p) => {
                let p2 = Reader::new(&o).positive().map_err(|e| format!("{:?}", e))?;
                ensure!(p.to_u64() == v && p2.to_u64() == v && p == p2 && from_hv(p.raw_value()) == h, "{}: to_u64", hx(&o))
            }
            Scalar::Negative(n) => {
                let p2 = Reader::new(&o).negative().map_err(|e| format!("{:?}", e))?;
                ensure!(n.negative_u64() == v && n.to_i64() == want && p2 == n && from_hv(n.raw_value()) == h, "{}: negative views", hx(&o))
            }
        }
    }
    Ok(())
}
fn c11_wire(b: &[u8]) -> Res {
    match V::parse(b, 0) {
        Some((V::Pos(h), _)) | Some((V::Neg(h), _)) => {
            nontrivial();
            c11_v(h)
        }
        _ => Ok(()),
    }
}
fn c11_edges(_: &[u8]) -> Res {
    nontrivial();
    for v in EDGES {
        for w in [0u8, 1, 2, 4, 8] {
            if w >= Hv::shortest(*v).w {
                c11_v(Hv { w, v: *v })?
            }
        }
    }
    for b in 0..64 {
        for d in 0..5u64 {
            let v = (1u64 << b).wrapping_add(d).wrapping_sub(2);
            c11_v(Hv::shortest(v))?
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
fn fl(w: u8, bits: u64) -> Res {
    let b = V::Float(w, bits).enc();
    let mut r = Reader::new(&b);
    let f = r.float().map_err(|e| format!("{:?}", e))?;
    ensure!(v_float(f) == V::Float(w, bits), "{}: bits {:?}", hx(&b), f);
    ensure!(enc1(&f) == b, "{}: rewritten as {}", hx(&b), hx(&enc1(&f)));
    let val = match w {
        2 => half(bits as u16),
        4 => single(bits as u32),
        _ => {
            let f = f64::from_bits(bits);
            if f.is_nan() {
                None
            } else {
                Some(f)
            }
        }
    };
    match val {
        None => ensure!(f.to_f32().is_nan() && f.to_f64().is_nan(), "{}: a NaN is converted to {} {}", hx(&b), f.to_f32(), f.to_f64()),
        Some(x) => {
            ensure!(f.to_f64().to_bits() == x.to_bits(), "{}: to_f64 {:e} instead of {:e}", hx(&b), f.to_f64(), x);
            if w < 8 {
                ensure!((f.to_f32() as f64).to_bits() == x.to_bits(), "{}: to_f32 {:e} instead of {:e}", hx(&b), f.to_f32(), x);
            }
        }
    }
    if w == 4 && !f32::from_bits(bits as u32).is_nan() {
        ensure!(f.to_f32().to_bits() as u64 == bits, "{}: to_f32 changes the bits", hx(&b));
    }
    // through the generic element too
    let mut r = Reader::new(&b);
    match r.data() {
        Ok(Data::Float(g)) => ensure!(g == f, "{}: data gives {:?}", hx(&b), g),
        x => return Err(format!("{}: {:?}", hx(&b), x)),
    }
    nontrivial();
    Ok(())
}
fn c12_half(c: &[u8]) -> Res {
    fl(2, u16::from_be_bytes([c[0], c[1]]) as u64)
}
fn c12_wide(c: &[u8]) -> Res {
    let mut r = seed(c);
    let m = r.next();
    let e = match r.below(3) {
        0 => 0,
        1 => u64::MAX,
        _ => r.next(),
    };
    let z = if r.one_in(3) { 0 } else { m };
    fl(4, ((e & 0x1ff) << 23) | (z & 0x7f_ffff))?;
    fl(8, ((e & 0xfff) << 52) | (z & 0xf_ffff_ffff_ffff))?;
    fl(2, r.next() & 0xffff)
}

// ------------------------------------------------------------------ C13
fn c13(b: &[u8]) -> Res {
    let v = V::parse(b, 0);
    let mut r = Reader::new(b);
    match (r.bytes(), &v) {
        (Ok(x), Some((w @ (V::Str(2, _) | V::Chunks(2, _)), _))) => {
            nontrivial();
            let f = w.flat();
            ensure!(x.to_vec() == f, "{}: content {} instead of {}", hx(b), hx(&x.to_vec()), hx(&f));
            ensure!(x.len() == f.len(), "{}: len {} instead of {}", hx(b), x.len(), f.len());
            ensure!(x.owned().borrow().to_vec() == f && x.owned().borrow().len() == f.len(), "{}: owned content", hx(b));
            ensure!(v_bytes(&x) == *w, "{}: chunks {:?}", hx(b), x);
        }
        (Err(_), Some((V::Str(2, _) | V::Chunks(2, _), _))) => return Err(format!("{}: bytes refused", hx(b))),
        (Ok(x), _) => return Err(format!("{}: bytes accepted as {:?}", hx(b), x)),
        _ => {}
    }
    let mut r = Reader::new(b);
    match (r.text(), &v) {
        (Ok(x), Some((w @ (V::Str(3, _) | V::Chunks(3, _)), _))) => {
            nontrivial();
            let f = w.flat();
            ensure!(x.to_string().as_bytes() == &f[..], "{}: content {:?}", hx(b), x.to_string());
            let cs = x.to_str_chunks();
            ensure!(cs.concat().as_bytes() == &f[..], "{}: chunks {:?}", hx(b), cs);
            match w {
                V::Str(_, c) => ensure!(cs.len() == 1 && cs[0].as_bytes() == &c.1[..], "{}: chunks {:?}", hx(b), cs),
                V::Chunks(_, c) => {
                    ensure!(cs.len() == c.len() && cs.iter().zip(c).all(|(a, b)| a.as_bytes() == &b.1[..]), "{}: chunks {:?}", hx(b), cs)
                }
                _ => {}
            }
            ensure!(x.owned().borrow().to_string().as_bytes() == &f[..], "{}: owned content", hx(b));
            ensure!(v_text(&x) == *w, "{}: chunks {:?}", hx(b), x);
        }
        (Err(_), Some((V::Str(3, _) | V::Chunks(3, _), _))) => return Err(format!("{}: text refused", hx(b))),
        (Ok(x), _) => return Err(format!("{}: text accepted as {:?}", hx(b), x)),
        _ => {}
    }
    Ok(())
}
fn c13_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let k = 2 + r.below(2) as u8;
    let mut b = elem_kind(&mut r, k, 1).enc();
    if r.one_in(2) {
        b = mutate(&mut r, b)
    }
    if r.one_in(3) {
        // a chunk boundary within a character
        let mut t = text(&mut r).into_bytes();
        let n = r.below(t.len() as u64 + 1) as usize;
        let u = t.split_off(n);
        b = V::Chunks(3, vec![(hv(&mut r, t.len() as u64), t), (hv(&mut r, u.len() as u64), u)]).enc();
    }
    c13(&b)
}

// ------------------------------------------------------------------ C14
fn c14(b: &[u8]) -> Res {
    let mut r = Reader::new(b);
    let d = match r.data() {
        Ok(d) => d,
        Err(_) => return Ok(()),
    };
    nontrivial();
    let o = d.owned();
    let e = o.borrow();
    ensure!(e == d, "{}: {:?} becomes {:?}", hx(b), d, e);
    ensure!(v_data(&e) == v_data(&d), "{}: {:?} becomes {:?}", hx(b), d, e);
    ensure!(o == e.owned(), "{}: owned twice", hx(b));
    match &o {
        DataOwned::Map(m) => {
            let vm = match &d {
                Data::Map(m) => m.clone(),
                _ => return Err("kind".into()),
            };
            ensure!(m.len() == vm.len() && m.struct_len() == vm.struct_len(), "map owned len");
            ensure!(v_owned(&o).map_or(true, |v| v == v_data(&d)), "{}: owned is {:?}", hx(b), o);
            iters(&d)?;
        }
        _ => {
            ensure!(v_owned(&o).map_or(true, |v| v == v_data(&d)), "{}: owned is {:?}", hx(b), o);
            iters(&d)?;
        }
    }
    // captured slices
    let p = r.consumed_bytes();
    let mut r = Reader::new(&b[..p]);
    if let Ok(s) = r.exact_decodable_slice::<DataOwned>() {
        let u = s.untype();
        let ow = u.to_owned();
        let back: &CborSlice = ow.borrow();
        ensure!(back == u && ow.as_ref() == &b[..p], "CborSlice to_owned/borrow");
        let ow = s.to_owned();
        ensure!(ow.as_ref() == &b[..p] && ow.clone().untype().as_ref() == &b[..p], "CborSliceOf to_owned");
        let back: &CborSliceOf<DataOwned> = ow.borrow();
        ensure!(back.untype() == u, "CborDataOf borrow");
    }
    Ok(())
}
fn c14_wf(c: &[u8]) -> Res {
    c14(&wf(&mut seed(c)))
}
fn c14_build(c: &[u8]) -> Res {
    let mut r = seed(c);
    nontrivial();
    for fin in [true, false] {
        let n = if r.one_in(10) { r.below(30) + 20 } else { r.below(5) };
        let mut bld = ArrayBuilder::new();
        let mut want = vec![];
        for _ in 0..n {
            let v = int(&mut r);
            let t = text(&mut r);
            match r.below(3) {
                0 => {
                    bld.append_encodable(&v);
                    want.push(enc1(&v));
                }
                1 => {
                    bld.append_encodable(&t);
                    want.push(enc1(&t));
                }
                _ => {
                    let b = wf(&mut r);
                    let mut w = Writer::new_from_vec(b.clone());
                    if r.one_in(2) {
                        w = Writer::new_from_vec(w.finalize());
                    }
                    bld.append(w.finalize_data());
                    want.push(b);
                }
            }
        }
        let a = if fin { bld.finite() } else { bld.indefinite() };
        let l = if fin { Some(Hv::shortest(n)) } else { None };
        ensure!(a.len() as u64 == n && from_len(a.struct_len()) == l, "builder of {}: {:?}", n, a.struct_len());
        ensure!((0..a.len()).all(|i| a[i].as_ref() == &want[i][..]), "builder contents");
        let b = a.borrow();
        ensure!(v_array(&b) == V::Arr(l, want.clone()), "builder borrowed contents");
        ensure!(b.owned() == a, "builder owned");
        for (i, r) in a.iter().enumerate() {
            same_el(r, &want[i])?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15
/// a type that reads the count of an array only
#[derive(Debug, PartialEq)]
pub struct Pair(u64, String);
impl Decode for Pair {
    fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> {
        // two elements in a row
        let a = r.decode()?;
        let b = r.decode()?;
        Ok(Pair(a, b))
    }
}
impl Encode for Pair {
    fn encode(&self, w: &mut Writer) {
        w.encode(&self.0);
        w.encode(&self.1);
    }
}
/// reads nothing
#[derive(Debug, PartialEq)]
pub struct Nothing;
impl Decode for Nothing {
    fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> {
        Ok(Nothing)
    }
}
impl Encode for Nothing {
    fn encode(&self, _: &mut Writer) {}
}
fn cap<T: Decode + Encode + PartialEq + std::fmt::Debug>(b: &[u8]) -> Res {
    let end = match item(b, 0) {
        R::End(e) => Some(e),
        _ => None,
    };
    let n = std::any::type_name::<T>();
    // what decoding the element's bytes yields
    let want: Option<T> = end.and_then(|e| decode_from_bytes::<T>(&b[..e]).ok());
    let mut r = Reader::new(b);
    let ds = r.exact_decodable_data::<T>();
    let at = r.consumed_bytes();
    match (&ds, &want) {
        (Ok(d), Some(w)) => {
            nontrivial();
            let e = end.unwrap();
            ensure!(at == e, "{}: capture as {} leaves the reader at {}", hx(b), n, at);
            ensure!(d.as_ref() == &b[..e], "{}: captured as {}: {}", hx(b), n, hx(d.as_ref()));
            ensure!(enc1(d) == b[..e], "{}: captured as {} encodes as {}", hx(b), n, hx(&enc1(d)));
            let u = d.unserialize();
            ensure!(u == *w, "{}: unserialize gives {:?} instead of {:?}", hx(b), u, w);
            let c = d.clone();
            ensure!(c == *d && c.unserialize() == *w, "clone");
            let un = c.untype();
            ensure!(un.as_ref() == &b[..e], "untype");
            ensure!(enc1(&un) == b[..e], "untyped encode");
            match un.decode::<T>() {
                Ok(x) => ensure!(x == *w, "untyped decode"),
                Err(e) => return Err(format!("{}: untyped decode fails {:?}", hx(b), e)),
            }
            match un.validate_as::<T>() {
                Ok(x) => ensure!(x == *d, "validate_as gives other bytes"),
                Err(e) => return Err(format!("{}: validate_as fails {:?}", hx(b), e)),
            }
        }
        (Err(_), None) => {}
        (g, w) => return Err(format!("{}: capture as {} gives {}, decoding gives {:?}", hx(b), n, if g.is_ok() { "ok" } else { "an error" }, w)),
    }
    let mut r = Reader::new(b);
    match (r.exact_decodable_slice::<T>(), &want) {
        (Ok(s), Some(_)) => {
            let e = end.unwrap();
            ensure!(sl(s.untype()) == b[..e] && enc1(s) == b[..e], "{}: slice captured as {}: {}", hx(b), n, hx(&sl(s.untype())));
            ensure!(s.to_owned().as_ref() == &b[..e], "to_owned");
            ensure!(s.untype().validate_as::<T>().is_ok(), "validate_as of a captured slice");
            ensure!(r.consumed_bytes() == e, "slice capture leaves the reader at {}", r.consumed_bytes());
        }
        (Err(_), None) => {}
        (g, w) => return Err(format!("{}: slice capture as {} gives {}, decoding gives {:?}", hx(b), n, if g.is_ok() { "ok" } else { "an error" }, w)),
    }
    let mut r = Reader::new(b);
    match (r.decode::<CborDataOf<T>>(), &want) {
        (Ok(d), Some(w)) => ensure!(d.unserialize() == *w && d.as_ref() == &b[..end.unwrap()], "{}: decode as CborDataOf", hx(b)),
        (Err(_), None) => {}
        (g, _) => return Err(format!("{}: CborDataOf<{}> decode ok: {}", hx(b), n, g.is_ok())),
    }
    // untyped captured data against the type (bytes beyond the decoded value are leftovers)
    let mut w = Writer::new_from_vec(b.to_vec());
    let _ = &mut w;
    let cd = w.finalize_data();
    let wantw = decode_from_bytes::<T>(b).ok();
    let va = cd.validate_as::<T>();
    ensure!(va.is_ok() == wantw.is_some(), "{}: CborData::validate_as::<{}> ok: {}, decoding ok: {}", hx(b), n, va.is_ok(), wantw.is_some());
    if let Ok(d) = va {
        ensure!(d.as_ref() == b && d.unserialize() == wantw.unwrap(), "validate_as contents");
    }
    let slc: &CborSlice = cd.borrow();
    ensure!(slc.validate_as::<T>().is_ok() == decode_from_bytes::<T>(b).is_ok(), "{}: CborSlice::validate_as::<{}>", hx(b), n);
    Ok(())
}
fn c15(b: &[u8]) -> Res {
    cap::<u64>(b)?;
    cap::<u8>(b)?;
    cap::<String>(b)?;
    cap::<Vec<u8>>(b)?;
    cap::<bool>(b)?;
    cap::<DataOwned>(b)?;
    cap::<Pair>(b)?;
    cap::<Nothing>(b)?;
    cap::<CborDataOf<u64>>(b)?;
    cap::<PositiveBignum>(b)?;
    cap::<super::derive::PointF>(b)?;
    cap::<super::derive::PointA>(b)
}
fn c15_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    match r.below(4) {
        0 => b.extend(wf(&mut r)),
        1 => b = mutate(&mut r, b),
        2 => {
            let v = int(&mut r);
            b = vec![];
            hv(&mut r, v).enc(0, &mut b);
            b.extend(enc1(&text(&mut r)));
        }
        _ => {}
    }
    c15(&b)
}
fn c15_from(c: &[u8]) -> Res {
    let mut r = seed(c);
    nontrivial();
    fn f<T: Decode + Encode + PartialEq + std::fmt::Debug>(t: T) -> Res {
        let d = CborDataOf::from(&t);
        let o = encode_to_bytes(&t);
        ensure!(d.as_ref() == &o[..], "{:?} stored as {} instead of {}", t, hx(d.as_ref()), hx(&o));
        ensure!(enc1(&d) == o, "{:?} stored, then encoded as {}", t, hx(&enc1(&d)));
        ensure!(d.unserialize() == t, "{:?} retrieved as {:?}", t, d.unserialize());
        let s: &CborSliceOf<T> = d.borrow();
        ensure!(enc1(s) == o, "borrowed form encodes as {}", hx(&enc1(s)));
        Ok(())
    }
    let v = int(&mut r);
    f(v)?;
    f(v as u8)?;
    f(v as u32)?;
    f(v & 1 == 0)?;
    f(text(&mut r))?;
    f(bytes(&mut r))?;
    f([v as u8; 7])?;
    let b = wf(&mut r);
    f(Reader::new(&b).data().map_err(|e| format!("{:?}", e))?.owned())?;
    f(Pair(v, text(&mut r)))?;
    let d = CborDataOf::from(&v);
    f(d)
}

// ------------------------------------------------------------------ C16
fn c16(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut st = State::new();
    ensure!(st.acceptable(), "a new state is not acceptable");
    let mut bs: Vec<u8> = vec![];
    let n = 1 + r.below(24);
    let mut log = String::new();
    let bias = r.below(4);
    for _ in 0..n {
        let small = r.below(4);
        let v = if r.one_in(6) { int(&mut r) } else { small };
        let h = hv(&mut r, v);
        let op = match bias {
            0 => r.below(10),
            1 => *r.pick(&[0u64, 3, 4, 5, 6, 9, 9]),
            2 => *r.pick(&[0u64, 1, 2, 7, 8, 9, 9, 6]),
            _ => *r.pick(&[0u64, 0, 3, 4, 6]),
        };
        let (res, name): (Result<(), _>, String) = match op {
            0 => {
                bs.push(0);
                (st.simple(), "simple".into())
            }
            1 => {
                // a definite string: its own content is not part of the event
                bs.push(0x40);
                (st.bytes(Some(lib_hv(h))), "bytes".into())
            }
            2 => {
                bs.push(0x60);
                (st.text(Some(lib_hv(h))), "text".into())
            }
            3 => {
                h.enc(4, &mut bs);
                (st.array(Some(lib_hv(h))), format!("array({})", h.v))
            }
            4 => {
                h.enc(5, &mut bs);
                (st.map(Some(lib_hv(h))), format!("map({})", h.v))
            }
            5 => {
                let a = r.one_in(2);
                bs.push(if a { 0x9f } else { 0xbf });
                (if a { st.array(None) } else { st.map(None) }, if a { "array(*)".into() } else { "map(*)".into() })
            }
            6 => {
                bs.push(0xc0);
                (st.tag(), "tag".into())
            }
            7 => {
                bs.push(0x5f);
                (st.bytes(None), "bytes(*)".into())
            }
            8 => {
                bs.push(0x7f);
                (st.text(None), "text(*)".into())
            }
            _ => {
                bs.push(0xff);
                (st.brk(), "brk".into())
            }
        };
        log.push_str(&name);
        log.push(' ');
        // where the items of these events end
        let mut i = 0;
        let want = loop {
            if i == bs.len() {
                break R::End(i);
            }
            match item(&bs, i) {
                R::End(e) => i = e,
                e => break e,
            }
        };
        match (res, want) {
            (Ok(()), R::End(_)) => ensure!(st.acceptable(), "{}: complete but not acceptable", log),
            (Ok(()), R::Missing { .. }) => ensure!(!st.acceptable(), "{}: incomplete but acceptable", log),
            (Ok(()), R::Bad) => return Err(format!("{}: accepted", log)),
            (Err(_), R::Bad) => {
                nontrivial();
                break;
            }
            (Err(e), _) => return Err(format!("{}: refused: {:?}", log, e)),
        }
        if !matches!(want, R::Bad) {
            nontrivial()
        }
    }
    // after an error too, no call may panic
    for _ in 0..4 {
        match r.below(6) {
            0 => drop(st.simple()),
            1 => drop(st.brk()),
            2 => drop(st.tag()),
            3 => drop(st.array(Some(lib_hv(Hv::shortest(r.below(3)))))),
            4 => drop(st.map(Some(lib_hv(Hv::shortest(r.below(3)))))),
            _ => drop(st.bytes(None)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
#[derive(Debug, PartialEq)]
enum Shape {
    Date,
    Pos,
    Neg,
    Emb,
    Rat,
}
fn want_tagged(k: &Shape, v: &Option<(V, usize)>) -> bool {
    let (h, d) = match v {
        Some((V::Tag(h, d), _)) => (h.v, d),
        _ => return false,
    };
    let inner = match V::parse(d, 0) {
        Some((x, e)) if e == d.len() => x,
        _ => return false,
    };
    let is_bytes = |x: &V| matches!(x, V::Str(2, _) | V::Chunks(2, _));
    match k {
        Shape::Date => h == 0 && matches!(inner, V::Str(3, _) | V::Chunks(3, _)),
        Shape::Pos => h == 2 && is_bytes(&inner),
        Shape::Neg => h == 3 && is_bytes(&inner),
        Shape::Emb => h == 24 && is_bytes(&inner),
        Shape::Rat => {
            h == 30
                && match inner {
                    V::Arr(_, e) if e.len() == 2 => {
                        let n = V::parse(&e[0], 0);
                        let d = V::parse(&e[1], 0);
                        (matches!(n, Some((V::Pos(_) | V::Neg(_), _))) || want_tagged(&Shape::Pos, &n) || want_tagged(&Shape::Neg, &n))
                            && (matches!(d, Some((V::Pos(_), _))) || want_tagged(&Shape::Pos, &d))
                    }
                    _ => false,
                }
        }
    }
}
fn tg<T: Decode + Encode + Clone + PartialEq + std::fmt::Debug>(
    b: &[u8],
    k: Shape,
    acc: impl Fn(&T) -> Option<Vec<u8>>,
    rd: impl Fn(&mut Reader<'_>) -> Result<T, ReaderError>,
) -> Res {
    let v = V::parse(b, 0);
    let want = want_tagged(&k, &v);
    let mut r = Reader::new(b);
    let got = r.decode::<T>();
    ensure!(got.is_ok() == want, "{}: as {:?}: {:?}", hx(b), k, got);
    let mut r2 = Reader::new(b);
    let g2 = rd(&mut r2);
    ensure!(g2.is_ok() == want, "{}: read as {:?}: {:?}", hx(b), k, g2);
    if let Ok(x) = got {
        nontrivial();
        let (tv, e) = v.unwrap();
        ensure!(r.consumed_bytes() == e && r2.consumed_bytes() == e, "{}: {:?} consumed {}", hx(b), k, r.consumed_bytes());
        ensure!(enc1(&x) == b[..e], "{}: {:?} written as {}", hx(b), k, hx(&enc1(&x)));
        ensure!(g2.ok().as_ref() == Some(&x), "read and decode differ");
        if let Some(a) = acc(&x) {
            let d = match tv {
                V::Tag(_, d) => d,
                _ => return Err("oracle".into()),
            };
            let f = V::parse(&d, 0).unwrap().0.flat();
            ensure!(a == f, "{}: {:?} content {}", hx(b), k, hx(&a));
        }
    }
    Ok(())
}
fn c17(b: &[u8]) -> Res {
    tg::<StandardDateTime>(b, Shape::Date, |_| None, |r| StandardDateTime::read(r))?;
    tg::<PositiveBignum>(b, Shape::Pos, |x| Some(x.to_be_bytes()), |r| PositiveBignum::read(r))?;
    tg::<NegativeBignum>(b, Shape::Neg, |x| Some(x.to_be_bytes()), |r| NegativeBignum::read(r))?;
    tg::<EncodedCBOR>(b, Shape::Emb, |x| Some(x.to_bytes()), |r| EncodedCBOR::read(r))?;
    tg::<RationalNumber>(b, Shape::Rat, |_| None, |r| RationalNumber::read(r))?;
    if let Ok(x) = Reader::new(b).decode::<RationalNumber>() {
        // the parts, as on the wire
        let (v, _) = V::parse(b, 0).unwrap();
        let d = match v {
            V::Tag(_, d) => d,
            _ => return Err("oracle".into()),
        };
        let e = match V::parse(&d, 0) {
            Some((V::Arr(_, e), _)) => e,
            _ => return Err("oracle".into()),
        };
        let n = match x.numerator() {
            RationalNumerator::Positive(p) => enc1(p),
            RationalNumerator::Negative(p) => enc1(p),
            RationalNumerator::PositiveBignum(p) => enc1(p),
            RationalNumerator::NegativeBignum(p) => enc1(p),
        };
        let m = match x.denominator() {
            RationalDenominator::Positive(p) => enc1(p),
            RationalDenominator::PositiveBignum(p) => enc1(p),
        };
        ensure!(n == e[0] && m == e[1], "{}: rational parts {} {}", hx(b), hx(&n), hx(&m));
        match (V::parse(&e[0], 0), x.numerator()) {
            (Some((V::Tag(h, _), _)), RationalNumerator::PositiveBignum(_)) => ensure!(h.v == 2, "numerator sign"),
            (Some((V::Tag(h, _), _)), RationalNumerator::NegativeBignum(_)) => ensure!(h.v == 3, "numerator sign"),
            (Some((V::Pos(_), _)), RationalNumerator::Positive(_)) => {}
            (Some((V::Neg(_), _)), RationalNumerator::Negative(_)) => {}
            x => return Err(format!("numerator {:?}", x)),
        }
    }
    let e = EncodedCBOR::from_bytes(b);
    ensure!(e.to_bytes() == b, "EncodedCBOR::from_bytes");
    let mut w = vec![0xd8, 24];
    Hv::shortest(b.len() as u64).enc(2, &mut w);
    w.extend(b);
    ensure!(enc1(&e) == w, "EncodedCBOR::from_bytes({}) written as {}", hx(b), hx(&enc1(&e)));
    Ok(())
}
fn c17_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let big = |r: &mut Rng, t: u64| -> Vec<u8> {
        let k = if r.one_in(8) { r.below(10) as u8 } else { 2 };
        let mut d = elem_kind(r, k, 1).enc();
        if r.one_in(10) {
            d.push(0)
        }
        let mut o = vec![];
        hv(r, t).enc(6, &mut o);
        o.extend(d);
        o
    };
    let num = |r: &mut Rng, neg: bool| -> Vec<u8> {
        match r.below(6) {
            0 | 1 => elem_kind(r, 0, 0).enc(),
            2 if neg || r.one_in(6) => elem_kind(r, 1, 0).enc(),
            3 if neg || r.one_in(6) => big(r, 3),
            4 => big(r, 2),
            _ => {
                if r.one_in(4) {
                    elem(r, 1).enc()
                } else {
                    big(r, 2)
                }
            }
        }
    };
    let mut b = match r.below(6) {
        0 => {
            let mut o = vec![];
            hv(&mut r, 0).enc(6, &mut o);
            o.extend(elem_kind(&mut r, 3, 1).enc());
            o
        }
        1 => {
            let t = 2 + r.below(2);
            big(&mut r, t)
        }
        2 => big(&mut r, 24),
        _ => {
            let mut e = vec![num(&mut r, true), num(&mut r, false)];
            if r.one_in(10) {
                e.push(vec![0])
            }
            let l = if r.one_in(3) { None } else { Some(hv(&mut r, e.len() as u64)) };
            V::Tag(hv(&mut r, 30), V::Arr(l, e).enc()).enc()
        }
    };
    if r.one_in(6) {
        b.extend(wf(&mut r))
    }
    if r.one_in(5) {
        b = mutate(&mut r, b)
    }
    c17(&b)
}

// ------------------------------------------------------------------ C21
fn left<T: Decode + PartialEq + std::fmt::Debug>(b: &[u8]) -> Res {
    let n = std::any::type_name::<T>();
    let mut r = Reader::new(b);
    let one = r.decode::<T>().ok();
    let at = r.consumed_bytes();
    let want = one.is_some() && at == b.len();
    if one.is_some() {
        nontrivial()
    }
    ensure!(decode_from_bytes::<T>(b).is_ok() == want, "{}: decode_from_bytes::<{}> ok {} (decoding stops at {})", hx(b), n, !want, at);
    if let (Ok(x), Some(y)) = (decode_from_bytes::<T>(b), &one) {
        ensure!(x == *y, "decode_from_bytes value")
    }
    let mut r = Reader::new(b);
    ensure!(r.decode_one::<T>().is_ok() == want, "{}: decode_one::<{}> (decoding stops at {})", hx(b), n, at);
    let cd = Writer::new_from_vec(b.to_vec()).finalize_data();
    ensure!(cd.decode::<T>().is_ok() == want, "{}: CborData::decode::<{}> (decoding stops at {})", hx(b), n, at);
    let s: &CborSlice = cd.borrow();
    ensure!(s.decode::<T>().is_ok() == want, "{}: CborSlice::decode::<{}> (decoding stops at {})", hx(b), n, at);
    ensure!(s.validate_as::<T>().is_ok() == want && cd.validate_as::<T>().is_ok() == want, "{}: validate_as::<{}> (decoding stops at {})", hx(b), n, at);
    // in a tag, element of any length
    let mut t = vec![0xc7];
    t.extend(b);
    let mut r = Reader::new(&t);
    if let Ok(tag) = r.tag() {
        let d = sl(tag.data());
        let w = {
            let mut r = Reader::new(&d);
            r.decode::<T>().is_ok() && r.is_finished()
        };
        ensure!(tag.decode_data::<T>().is_ok() == w, "{}: Tag::decode_data::<{}>", hx(&t), n);
        let rd = tag.read_data(|r| r.decode::<T>().map_err(|_| ReaderError::UnexpectedBreakType));
        ensure!(rd.is_ok() == w, "{}: Tag::read_data::<{}>", hx(&t), n);
        let cl = tag.read_data(|_| Ok(()));
        ensure!(cl.is_ok() == d.is_empty(), "{}: Tag::read_data reading nothing", hx(&t));
    }
    Ok(())
}
fn c21(b: &[u8]) -> Res {
    left::<u64>(b)?;
    left::<u8>(b)?;
    left::<bool>(b)?;
    left::<String>(b)?;
    left::<Vec<u8>>(b)?;
    left::<[u8; 2]>(b)?;
    left::<Scalar>(b)?;
    left::<DataOwned>(b)?;
    left::<Pair>(b)?;
    left::<Nothing>(b)?;
    left::<CborDataOf<u64>>(b)?;
    left::<RationalNumber>(b)?;
    left::<super::derive::PointF>(b)?;
    // containers of several elements
    for n in [0u8, 1, 2] {
        let mut t = vec![0x80 + n];
        t.extend(b);
        let mut r = Reader::new(&t);
        if let Ok(a) = r.array() {
            for i in 0..a.len() {
                let e = sl(a[i]);
                let mut q = Reader::new(&e);
                let w = q.decode::<DataOwned>().is_ok() && q.is_finished();
                ensure!(a[i].decode::<DataOwned>().is_ok() == w, "{}: element {} decode", hx(&t), i);
                ensure!(a.owned()[i].decode::<DataOwned>().is_ok() == w, "{}: owned element {} decode", hx(&t), i);
                ensure!(a[i].decode::<Nothing>().is_err(), "{}: element {} read as nothing", hx(&t), i);
            }
        }
    }
    Ok(())
}
fn c21_wf(c: &[u8]) -> Res {
    let mut r = seed(c);
    let mut b = wf(&mut r);
    match r.below(4) {
        0 => b.extend(bytes(&mut r)),
        1 => b.extend(wf(&mut r)),
        _ => {}
    }
    let v = int(&mut r);
    let o = encode_to_bytes(&v);
    ensure!(decode_from_bytes::<u64>(&o).ok() == Some(v), "u64 {}", v);
    let d = wf(&mut r);
    if let Ok(x) = decode_from_bytes::<DataOwned>(&d) {
        ensure!(decode_from_bytes::<DataOwned>(&encode_to_bytes(&x)).ok() == Some(x), "{}", hx(&d));
    } else {
        return Err(format!("{} refused as a whole", hx(&d)));
    }
    c21(&b)
}

// ------------------------------------------------------------------ C22
fn c22(c: &[u8]) -> Res {
    let mut r = seed(c);
    if r.one_in(300) {
        // long slices of bare booleans: only the count is of interest
        let n = *r.pick(&[65534u64, 65535, 65536, 65537]);
        let bs: Vec<bool> = (0..n).map(|i| i % 3 == 0).collect();
        let mut w = Writer::new();
        encode_vec(&bs, &mut w);
        let o = w.finalize();
        let mut want = Vec::new();
        Hv::shortest(n).enc(4, &mut want);
        want.extend(bs.iter().map(|b| if *b { 0xf5u8 } else { 0xf4 }));
        ensure!(o == want, "encode_vec of {} booleans: starts with {} instead of {}", n, hx(&o[..6]), hx(&want[..6]));
        let mut q = Reader::new(&o);
        let back = decode_vec::<bool>(&mut q);
        ensure!(back.as_ref().ok() == Some(&bs), "decode_vec of {} booleans fails or differs", n);
        return Ok(());
    }
    let n = if r.one_in(12) { *r.pick(&[22u64, 23, 24, 25, 255, 256, 300]) } else { r.below(6) };
    nontrivial();
    let us: Vec<u64> = (0..n).map(|_| int(&mut r)).collect();
    let ts: Vec<String> = (0..n).map(|_| text(&mut r)).collect();
    let pre = bytes(&mut r);
    let mut w = Writer::new_from_vec(pre.clone());
    encode_vec(&us, &mut w);
    let o = w.finalize();
    let mut want = pre.clone();
    Hv::shortest(n).enc(4, &mut want);
    for u in &us {
        Hv::shortest(*u).enc(0, &mut want)
    }
    ensure!(o == want, "encode_vec of {} numbers: {} instead of {}", n, hx(&o), hx(&want));
    let mut q = Reader::new(&o[pre.len()..]);
    let back = decode_vec::<u64>(&mut q);
    ensure!(back.as_ref().ok() == Some(&us), "decode_vec gives {:?}", back);
    ensure!(q.is_finished(), "decode_vec leaves bytes");
    let mut w = Writer::new();
    encode_vec(&ts, &mut w);
    let o = w.finalize();
    let mut q = Reader::new(&o);
    let back = decode_vec::<String>(&mut q);
    ensure!(back.as_ref().ok() == Some(&ts), "decode_vec gives {:?}", back);
    // mixed: a wrong element is reported
    let mut els: Vec<Vec<u8>> = (0..r.below(5)).map(|_| if r.one_in(6) { elem(&mut r, 1).enc() } else { elem_kind(&mut r, 0, 0).enc() }).collect();
    if r.one_in(5) {
        els.push(elem_kind(&mut r, 3, 0).enc())
    }
    let l = if r.one_in(2) { None } else { Some(hv(&mut r, els.len() as u64)) };
    let mut b = V::Arr(l, els).enc();
    c22_buf(&b)?;
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = (0..r.below(4))
        .map(|_| (if r.one_in(8) { elem(&mut r, 1).enc() } else { elem_kind(&mut r, 0, 0).enc() }, if r.one_in(8) { elem(&mut r, 1).enc() } else { elem_kind(&mut r, 3, 0).enc() }))
        .collect();
    let l = if r.one_in(2) { None } else { Some(hv(&mut r, pairs.len() as u64)) };
    b = V::Map(l, pairs).enc();
    c22_buf(&b)
}
fn k<T>(r: Result<T, DecodeError>) -> Result<T, DecodeErrorKind> {
    r.map_err(|e| e.error().clone())
}
fn c22_buf(b: &[u8]) -> Res {
    match V::parse(b, 0) {
        Some((V::Arr(_, e), end)) => {
            nontrivial();
            let each: Vec<Result<u64, String>> = e.iter().map(|x| k(Reader::new(x).decode::<u64>()).map_err(|e| format!("{:?}", e))).collect();
            let want: Result<Vec<u64>, String> = each.iter().cloned().collect();
            let mut r = Reader::new(b);
            let got = k(decode_vec::<u64>(&mut r)).map_err(|e| format!("{:?}", e));
            ensure!(got == want, "{}: decode_vec {:?} instead of {:?}", hx(b), got, want);
            ensure!(r.consumed_bytes() == end, "{}: decode_vec consumed {}", hx(b), r.consumed_bytes());
            let a = Reader::new(b).array().map_err(|e| format!("{:?}", e))?;
            let got = a.to_vec(|r| k(r.decode::<u64>())).map_err(|e| format!("{:?}", e));
            ensure!(got == want, "{}: Array::to_vec {:?} instead of {:?}", hx(b), got, want);
            let o = a.owned();
            let got = o.to_vec(|r| k(r.decode::<u64>())).map_err(|e| format!("{:?}", e));
            ensure!(got == want, "{}: ArrayOwned::to_vec {:?} instead of {:?}", hx(b), got, want);
            let all: Result<Vec<DataOwned>, _> = a.to_vec(|r| k(r.decode::<DataOwned>()));
            if let Ok(v) = all {
                ensure!(v.len() == e.len() && v.iter().zip(&e).all(|(x, y)| enc1(x) == *y), "{}: to_vec elements", hx(b));
            }
        }
        Some((V::Map(_, e), _)) => {
            nontrivial();
            let mut want = Ok(vec![]);
            for (x, y) in &e {
                let kk = k(Reader::new(x).decode::<u64>()).map_err(|e| format!("{:?}", e));
                let kv = match kk {
                    Ok(kk) => k(Reader::new(y).decode::<String>()).map_err(|e| format!("{:?}", e)).map(|v| (kk, v)),
                    Err(e) => Err(e),
                };
                match (kv, &mut want) {
                    (Ok(kv), Ok(v)) => v.push(kv),
                    (Err(e), Ok(_)) => want = Err(e),
                    _ => {}
                }
            }
            let a = Reader::new(b).map().map_err(|e| format!("{:?}", e))?;
            let got = a.to_vec(|r| k(r.decode::<u64>()), |r| k(r.decode::<String>())).map_err(|e| format!("{:?}", e));
            ensure!(got == want, "{}: Map::to_vec {:?} instead of {:?}", hx(b), got, want);
            let got = a.owned().to_vec(|r| k(r.decode::<u64>()), |r| k(r.decode::<String>())).map_err(|e| format!("{:?}", e));
            ensure!(got == want, "{}: MapOwned::to_vec {:?} instead of {:?}", hx(b), got, want);
        }
        _ => {}
    }
    Ok(())
}
