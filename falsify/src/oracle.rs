//! Independent reference for the CBOR data format (RFC 8949), written from the RFC and the
//! property statements, sharing no code with cbored.
//! It mirrors the mathematical specification used by the verifier (contracts/00_crate.vc).

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum R {
    End(usize),
    Missing { n: u64, got: u64 },
    Bad,
}

pub fn major(b: u8) -> u8 {
    b / 32
}
pub fn ai(b: u8) -> u8 {
    b % 32
}
pub fn extra(b: u8) -> usize {
    match ai(b) {
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => 0,
    }
}
pub fn lead_ok(b: u8) -> bool {
    let a = ai(b);
    if (28..=30).contains(&a) {
        return false;
    }
    if a == 31 {
        let m = major(b);
        return (2..=5).contains(&m) || m == 7;
    }
    true
}
pub fn arg(s: &[u8], i: usize) -> u64 {
    if ai(s[i]) < 24 {
        ai(s[i]) as u64
    } else {
        let mut v = 0u64;
        for k in 0..extra(s[i]) {
            v = v * 256 + s[i + 1 + k] as u64;
        }
        v
    }
}
pub fn hd(s: &[u8], i: usize) -> R {
    if i >= s.len() {
        R::Missing { n: 1, got: 0 }
    } else if !lead_ok(s[i]) {
        R::Bad
    } else if s.len() - i - 1 < extra(s[i]) {
        R::Missing { n: extra(s[i]) as u64, got: (s.len() - i - 1) as u64 }
    } else {
        R::End(i + 1 + extra(s[i]))
    }
}
pub fn content(s: &[u8], j: usize, n: u64) -> R {
    let rem = (s.len() - j) as u64;
    if rem >= n {
        R::End(j + n as usize)
    } else {
        R::Missing { n, got: rem }
    }
}
pub fn item(s: &[u8], i: usize) -> R {
    let j = match hd(s, i) {
        R::End(j) => j,
        e => return e,
    };
    let m = major(s[i]);
    if ai(s[i]) == 31 {
        return match m {
            2 | 3 => chunks(s, j, m, false),
            4 => {
                let mut k = j;
                loop {
                    if k < s.len() && s[k] == 0xff {
                        return R::End(k + 1);
                    }
                    match item(s, k) {
                        R::End(e) => k = e,
                        e => return e,
                    }
                }
            }
            5 => {
                let mut k = j;
                let mut val = false;
                loop {
                    if k < s.len() && s[k] == 0xff {
                        return if val { R::Bad } else { R::End(k + 1) };
                    }
                    match item(s, k) {
                        R::End(e) => {
                            k = e;
                            val = !val
                        }
                        e => return e,
                    }
                }
            }
            _ => R::Bad,
        };
    }
    match m {
        2 | 3 => content(s, j, arg(s, i)),
        4 => items(s, j, arg(s, i) as u128),
        5 => items(s, j, arg(s, i) as u128 * 2),
        6 => item(s, j),
        _ => R::End(j),
    }
}
pub fn items(s: &[u8], i: usize, n: u128) -> R {
    let mut k = i;
    let mut c = 0u128;
    while c < n {
        match item(s, k) {
            R::End(e) => k = e,
            e => return e,
        }
        c += 1;
    }
    R::End(k)
}
/// chunks of major m up to and including the break; utf8: each must be valid UTF-8
pub fn chunks(s: &[u8], i: usize, m: u8, utf8: bool) -> R {
    let mut k = i;
    loop {
        let j = match hd(s, k) {
            R::End(j) => j,
            e => return e,
        };
        if s[k] == 0xff {
            return R::End(j);
        }
        if major(s[k]) != m || ai(s[k]) == 31 {
            return R::Bad;
        }
        match content(s, j, arg(s, k)) {
            R::End(e) => {
                if utf8 && !is_utf8(&s[j..e]) {
                    return R::Bad;
                }
                k = e
            }
            e => return e,
        }
    }
}
/// RFC 3629
pub fn is_utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for k in 0..n {
            match b.get(i + 1 + k) {
                None => return false,
                Some(&x) => {
                    let (l, h) = if k == 0 { (lo, hi) } else { (0x80, 0xbf) };
                    if x < l || x > h {
                        return false;
                    }
                }
            }
        }
        i += 1 + n;
    }
    true
}
/// an element as read: when the element itself is a text, its chunks are UTF-8
pub fn ritem(s: &[u8], i: usize) -> R {
    match hd(s, i) {
        R::End(j) => {
            if major(s[i]) == 3 {
                if ai(s[i]) == 31 {
                    chunks(s, j, 3, true)
                } else {
                    match content(s, j, arg(s, i)) {
                        R::End(e) if !is_utf8(&s[j..e]) => R::Bad,
                        r => r,
                    }
                }
            } else {
                item(s, i)
            }
        }
        e => e,
    }
}

/// an argument with its encoded width in bytes (0: immediate)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hv {
    pub w: u8,
    pub v: u64,
}
impl Hv {
    pub fn shortest(v: u64) -> Hv {
        let w = if v < 24 {
            0
        } else if v <= 0xff {
            1
        } else if v <= 0xffff {
            2
        } else if v <= 0xffff_ffff {
            4
        } else {
            8
        };
        Hv { w, v }
    }
    pub fn at(s: &[u8], i: usize) -> Hv {
        Hv { w: extra(s[i]) as u8, v: arg(s, i) }
    }
    pub fn enc(&self, m: u8, out: &mut Vec<u8>) {
        let ai = match self.w {
            0 => self.v as u8,
            1 => 24,
            2 => 25,
            4 => 26,
            _ => 27,
        };
        out.push(m * 32 + ai);
        for k in (0..self.w).rev() {
            out.push((self.v >> (8 * k as u32)) as u8);
        }
    }
}

/// a reference element
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Pos(Hv),
    Neg(Hv),
    /// bytes (2) or text (3), one definite chunk
    Str(u8, (Hv, Vec<u8>)),
    /// indefinite
    Chunks(u8, Vec<(Hv, Vec<u8>)>),
    Arr(Option<Hv>, Vec<Vec<u8>>),
    Map(Option<Hv>, Vec<(Vec<u8>, Vec<u8>)>),
    Tag(Hv, Vec<u8>),
    /// 20 false, 21 true, 22 null, 23 undefined
    Const(u8),
    /// simple value: width 0 or 1
    Byte(Hv),
    Float(u8, u64),
}

impl V {
    /// the element at i, if the specification accepts one there, and its end
    pub fn parse(s: &[u8], i: usize) -> Option<(V, usize)> {
        let end = match ritem(s, i) {
            R::End(e) => e,
            _ => return None,
        };
        let j = match hd(s, i) {
            R::End(j) => j,
            _ => unreachable!(),
        };
        let b = s[i];
        let indef = ai(b) == 31;
        let h = Hv::at(s, i);
        let el = |k: usize| match item(s, k) {
            R::End(e) => e,
            _ => unreachable!(),
        };
        let v = match major(b) {
            0 => V::Pos(h),
            1 => V::Neg(h),
            m @ (2 | 3) => {
                if indef {
                    let mut out = Vec::new();
                    let mut k = j;
                    while s[k] != 0xff {
                        let c = Hv::at(s, k);
                        let st = k + 1 + extra(s[k]);
                        let en = st + c.v as usize;
                        out.push((c, s[st..en].to_vec()));
                        k = en;
                    }
                    V::Chunks(m, out)
                } else {
                    V::Str(m, (h, s[j..end].to_vec()))
                }
            }
            4 => {
                let mut out = Vec::new();
                let mut k = j;
                let stop = if indef { end - 1 } else { end };
                while k < stop {
                    let e = el(k);
                    out.push(s[k..e].to_vec());
                    k = e;
                }
                V::Arr(if indef { None } else { Some(h) }, out)
            }
            5 => {
                let mut out = Vec::new();
                let mut k = j;
                let stop = if indef { end - 1 } else { end };
                while k < stop {
                    let e = el(k);
                    let f = el(e);
                    out.push((s[k..e].to_vec(), s[e..f].to_vec()));
                    k = f;
                }
                V::Map(if indef { None } else { Some(h) }, out)
            }
            6 => V::Tag(h, s[j..end].to_vec()),
            _ => match ai(b) {
                a @ 20..=23 => V::Const(a),
                25..=27 => V::Float(extra(b) as u8, h.v),
                _ => V::Byte(h),
            },
        };
        Some((v, end))
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut o = Vec::new();
        match self {
            V::Pos(h) => h.enc(0, &mut o),
            V::Neg(h) => h.enc(1, &mut o),
            V::Str(m, (h, d)) => {
                h.enc(*m, &mut o);
                o.extend(d);
            }
            V::Chunks(m, v) => {
                o.push(m * 32 + 31);
                for (h, d) in v {
                    h.enc(*m, &mut o);
                    o.extend(d);
                }
                o.push(0xff);
            }
            V::Arr(l, e) => {
                match l {
                    None => o.push(0x9f),
                    Some(h) => h.enc(4, &mut o),
                }
                for x in e {
                    o.extend(x);
                }
                if l.is_none() {
                    o.push(0xff);
                }
            }
            V::Map(l, e) => {
                match l {
                    None => o.push(0xbf),
                    Some(h) => h.enc(5, &mut o),
                }
                for (k, x) in e {
                    o.extend(k);
                    o.extend(x);
                }
                if l.is_none() {
                    o.push(0xff);
                }
            }
            V::Tag(h, d) => {
                h.enc(6, &mut o);
                o.extend(d);
            }
            V::Const(a) => o.push(0xe0 + a),
            V::Byte(h) => h.enc(7, &mut o),
            V::Float(w, b) => {
                o.push(0xe0 + match w {
                    2 => 25,
                    4 => 26,
                    _ => 27,
                });
                for k in (0..*w).rev() {
                    o.push((b >> (8 * k as u32)) as u8);
                }
            }
        }
        o
    }
    /// content of a bytes or text element
    pub fn flat(&self) -> Vec<u8> {
        match self {
            V::Str(_, (_, d)) => d.clone(),
            V::Chunks(_, v) => v.iter().flat_map(|c| c.1.clone()).collect(),
            _ => panic!("not a string"),
        }
    }
}

/// the number a half float denotes, as f64 bits (NaN: None)
pub fn half(b: u16) -> Option<f64> {
    let s = if b & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = (b >> 10) & 31;
    let f = (b & 0x3ff) as f64;
    match e {
        31 => {
            if b & 0x3ff != 0 {
                None
            } else {
                Some(s * f64::INFINITY)
            }
        }
        0 => Some(s * f * 2f64.powi(-24)),
        _ => Some(s * (1024.0 + f) * 2f64.powi(e as i32 - 25)),
    }
}
/// the number a single float denotes, as f64 (NaN: None)
pub fn single(b: u32) -> Option<f64> {
    let s = if b >> 31 != 0 { -1.0 } else { 1.0 };
    let e = (b >> 23) & 255;
    let f = (b & 0x7f_ffff) as f64;
    match e {
        255 => {
            if b & 0x7f_ffff != 0 {
                None
            } else {
                Some(s * f64::INFINITY)
            }
        }
        0 => Some(s * f * 2f64.powi(-149)),
        _ => Some(s * (8388608.0 + f) * 2f64.powi(e as i32 - 150)),
    }
}
