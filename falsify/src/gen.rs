//! Deterministic generation of inputs.
use super::oracle::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub const EDGES: &[u64] = &[
    0, 1, 2, 3, 9, 10, 15, 16, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 63, 64, 65, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 258, 1000, 1023, 1024, 4095, 4096,
    32767, 32768, 65534, 65535, 65536, 65537, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff,
    0x1_0000_0000, 0x1_0000_0001, 0x7fff_ffff_ffff_fffe, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000,
    0x8000_0000_0000_0001, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
];

/// numbers the tree under test mentions and the tree the contracts were written for does not: where to look first
pub static DICT: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
pub fn dict(r: &mut Rng, n: u64, max: u64) -> Option<u64> {
    let d = DICT.get()?;
    if d.is_empty() || !r.one_in(n) {
        return None;
    }
    let v = r.pick(d).wrapping_add(r.below(3)).wrapping_sub(1);
    if v <= max {
        Some(v)
    } else {
        None
    }
}
fn any_byte(r: &mut Rng) -> u8 {
    match dict(r, 4, 255) {
        Some(v) => v as u8,
        None => r.next() as u8,
    }
}
fn lead(r: &mut Rng) -> u8 {
    match dict(r, 8, 255) {
        Some(v) => v as u8,
        None => *r.pick(LEADS),
    }
}

pub fn int(r: &mut Rng) -> u64 {
    if let Some(v) = dict(r, 4, u64::MAX) {
        return v;
    }
    match r.below(5) {
        0 => r.below(32),
        1 | 2 => *r.pick(EDGES),
        3 => {
            let b = r.below(65);
            let m = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
            r.next() & m
        }
        _ => r.next() >> r.below(64),
    }
}
/// an encoding of v at least as wide as needed
pub fn hv(r: &mut Rng, v: u64) -> Hv {
    let s = Hv::shortest(v);
    if r.one_in(2) {
        return s;
    }
    let ws: Vec<u8> = [0u8, 1, 2, 4, 8].iter().cloned().filter(|w| *w >= s.w).collect();
    Hv { w: *r.pick(&ws), v }
}
pub fn text(r: &mut Rng) -> String {
    let d = dict(r, 10, 70000);
    let n = match r.below(12) {
        _ if d.is_some() => d.unwrap(),
        0 => 0,
        1 => 20 + r.below(8),
        2 => 250 + r.below(10),
        _ => r.below(6),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push(*r.pick(&['a', 'z', '0', '\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}']));
    }
    s
}
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let d = dict(r, 10, 70000);
    let n = match r.below(14) {
        _ if d.is_some() => d.unwrap(),
        0 => 0,
        1 => 22 + r.below(4),
        2 => 254 + r.below(4),
        3 => 30 + r.below(6),
        _ => r.below(7),
    };
    let k = r.below(3);
    (0..n).map(|i| if k == 0 { i as u8 } else { any_byte(r) }).collect()
}
fn chunk(r: &mut Rng, m: u8) -> (Hv, Vec<u8>) {
    let d = if m == 3 { text(r).into_bytes() } else { bytes(r) };
    (hv(r, d.len() as u64), d)
}
/// a well-formed element of a given kind
pub fn elem_kind(r: &mut Rng, k: u8, depth: u32) -> V {
    let d = depth.saturating_sub(1);
    match k {
        0 => {
            let v = int(r);
            V::Pos(hv(r, v))
        }
        1 => {
            let v = int(r);
            V::Neg(hv(r, v))
        }
        m @ (2 | 3) => {
            if r.one_in(2) {
                let n = dict(r, 12, 300).unwrap_or_else(|| r.below(4));
                V::Chunks(m, (0..n).map(|_| chunk(r, m)).collect())
            } else {
                V::Str(m, chunk(r, m))
            }
        }
        4 => {
            let n = dict(r, 12, 3000).unwrap_or_else(|| if r.one_in(12) { 20 + r.below(8) } else { r.below(4) });
            let e: Vec<Vec<u8>> = (0..n).map(|_| elem(r, if n > 4 { 0 } else { d }).enc()).collect();
            let l = hv(r, n);
            V::Arr(if r.one_in(2) { None } else { Some(l) }, e)
        }
        5 => {
            let n = dict(r, 12, 3000).unwrap_or_else(|| if r.one_in(12) { 20 + r.below(8) } else { r.below(3) });
            let e: Vec<(Vec<u8>, Vec<u8>)> =
                (0..n).map(|_| (elem(r, if n > 4 { 0 } else { d }).enc(), elem(r, if n > 4 { 0 } else { d }).enc())).collect();
            let l = hv(r, n);
            V::Map(if r.one_in(2) { None } else { Some(l) }, e)
        }
        6 => {
            let t = if r.one_in(2) { *r.pick(&[0u64, 1, 2, 3, 24, 30, 55799]) } else { int(r) };
            V::Tag(hv(r, t), elem(r, d).enc())
        }
        7 => V::Const(20 + r.below(4) as u8),
        8 => {
            if r.one_in(2) {
                V::Byte(Hv { w: 0, v: r.below(20) })
            } else {
                V::Byte(Hv { w: 1, v: dict(r, 4, 255).unwrap_or_else(|| r.below(256)) })
            }
        }
        _ => {
            let w = *r.pick(&[2u8, 4, 8]);
            let m = match w {
                2 => 0xffff,
                4 => 0xffff_ffff,
                _ => u64::MAX,
            };
            let x = dict(r, 4, u64::MAX);
            let b = match r.below(4) {
                _ if x.is_some() => x.unwrap() << if r.one_in(2) { 0 } else { r.below(64) },
                0 => *r.pick(&[0u64, 1, 0x7c00, 0xfc00, 0x7e00, 0x7f80_0000, 0x7ff0_0000_0000_0000, 0x8000, 0x8000_0000, 0x3c00, 0x03ff, 0x0400, 0x7bff]),
                _ => r.next(),
            };
            V::Float(w, b & m)
        }
    }
}
pub fn elem(r: &mut Rng, depth: u32) -> V {
    let k = if depth == 0 { *r.pick(&[0u8, 1, 2, 3, 7, 8, 9]) } else { r.below(10) as u8 };
    elem_kind(r, k, depth)
}
pub fn wf(r: &mut Rng) -> Vec<u8> {
    let d = 1 + r.below(4) as u32;
    elem(r, d).enc()
}
/// a whole buffer: usually near to well-formed
pub fn buf(r: &mut Rng) -> Vec<u8> {
    match r.below(20) {
        0 => (0..r.below(12)).map(|_| any_byte(r)).collect(),
        1 => {
            // header soup
            let mut o = Vec::new();
            for _ in 0..r.below(8) {
                o.push(lead(r));
                if r.one_in(3) {
                    o.push(r.next() as u8);
                }
            }
            o
        }
        2 => {
            // absurd counts
            let m = 2 + r.below(5) as u8;
            let v = int(r);
            let h = hv(r, v);
            let mut o = Vec::new();
            if r.one_in(2) {
                o.push(*r.pick(&[0x81u8, 0x9f, 0xa1, 0xbf, 0xc1, 0x5f, 0x7f, 0x82]));
            }
            h.enc(m, &mut o);
            if r.one_in(2) {
                o.extend(wf(r));
            }
            o
        }
        3 => {
            // deep nesting
            let d = dict(r, 4, 5000).unwrap_or_else(|| r.below(64));
            let mut o = Vec::new();
            let mut tail = Vec::new();
            for _ in 0..d {
                match r.below(5) {
                    0 => o.push(0x81),
                    1 => {
                        o.push(0x9f);
                        tail.push(0xff)
                    }
                    2 => o.push(0xc0 + r.below(24) as u8),
                    3 => {
                        o.push(0xa1);
                        o.push(0)
                    }
                    _ => {
                        o.push(0xbf);
                        o.push(0);
                        tail.push(0xff)
                    }
                }
            }
            o.extend(elem(r, 0).enc());
            tail.reverse();
            o.extend(tail);
            mutate(r, o)
        }
        4 | 5 => {
            let mut o = Vec::new();
            for _ in 0..r.below(4) {
                o.extend(wf(r));
            }
            o
        }
        6..=11 => wf(r),
        _ => {
            let mut w = wf(r);
            if r.one_in(4) {
                w.extend(wf(r));
            }
            mutate(r, w)
        }
    }
}
pub const LEADS: &[u8] = &[
    0x00, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x3b, 0x3f, 0x40, 0x41, 0x42, 0x57, 0x58, 0x59, 0x5b, 0x5c, 0x5f, 0x60, 0x61, 0x78, 0x7b,
    0x7e, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9b, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2, 0xb8, 0xbb, 0xbf, 0xc0, 0xc2, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xf3, 0xf4, 0xf5, 0xf6,
    0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xfe, 0xff,
];
pub fn mutate(r: &mut Rng, mut w: Vec<u8>) -> Vec<u8> {
    for _ in 0..1 + r.below(2) {
        let n = w.len() as u64;
        match r.below(8) {
            0 if n > 0 => {
                let k = r.below(n) as usize;
                w.truncate(k)
            }
            1 if n > 0 => {
                let k = r.below(n) as usize;
                w[k] = any_byte(r)
            }
            2 if n > 0 => {
                let k = r.below(n) as usize;
                w[k] = lead(r)
            }
            3 => {
                let k = r.below(n + 1) as usize;
                w.insert(k, lead(r))
            }
            4 if n > 0 => {
                let k = r.below(n) as usize;
                w.remove(k);
            }
            5 if n > 0 => {
                let k = r.below(n) as usize;
                w[k] ^= 1 << r.below(8)
            }
            6 => w.push(*r.pick(LEADS)),
            7 if n > 0 => {
                let k = r.below(n) as usize;
                w[k] = w[k].wrapping_add(if r.one_in(2) { 1 } else { 255 })
            }
            _ => {}
        }
    }
    w
}

/// alphabet for exhaustive short strings
pub const ALPHA: &[u8] = &[0x00, 0x01, 0x18, 0x20, 0x40, 0x41, 0x5f, 0x61, 0x7f, 0x80, 0x81, 0x9f, 0xa1, 0xbf, 0xc2, 0xf4, 0xf6, 0xf8, 0xff];
