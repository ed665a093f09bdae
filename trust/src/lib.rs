//! The trusted specifications of std functions in /verif/contracts, checked by Kani on their whole domain
//! (no loop is cut short; every input is symbolic). They do not depend on /repo.
#![cfg(kani)]

fn be(s: &[u8]) -> u128 {
    let mut v = 0;
    let mut k = 0;
    while k < s.len() {
        v = v * 256 + s[k] as u128;
        k += 1;
    }
    v
}

#[kani::proof]
#[kani::unwind(10)]
fn be_bytes() {
    let (a, b, c): ([u8; 2], [u8; 4], [u8; 8]) = (kani::any(), kani::any(), kani::any());
    assert!(u16::from_be_bytes(a) as u128 == be(&a));
    assert!(u32::from_be_bytes(b) as u128 == be(&b));
    assert!(u64::from_be_bytes(c) as u128 == be(&c));
    let (x, y, z): (u16, u32, u64) = (kani::any(), kani::any(), kani::any());
    assert!(be(&x.to_be_bytes()) == x as u128);
    assert!(be(&y.to_be_bytes()) == y as u128);
    assert!(be(&z.to_be_bytes()) == z as u128);
}

/// ax_try_i64
#[kani::proof]
fn try_i64() {
    let x: u64 = kani::any();
    match i64::try_from(x) {
        Ok(v) => assert!(x <= i64::MAX as u64 && v as i128 == x as i128),
        Err(_) => assert!(x > i64::MAX as u64),
    }
}

/// ax_widen: wide_is(x.to_bits(), f64::from(x).to_bits()) as in contracts/20_types.vc
#[kani::proof]
#[kani::unwind(40)]
fn widen() {
    let x: u32 = kani::any();
    let r = f64::from(f32::from_bits(x)).to_bits();
    let (s, e, f) = (x >> 31, (x >> 23) % 256, (x % 0x80_0000) as u64);
    let (rs, re, rf) = ((r >> 63) as u32, ((r >> 52) % 2048) as u32, r % 0x10_0000_0000_0000);
    if e == 255 {
        assert!(re == 2047 && (f == 0) == (rf == 0));
    }
    if e == 255 && f == 0 || e < 255 {
        assert!(rs == s);
    }
    if 0 < e && e < 255 {
        assert!(re == e + 896 && rf == f * 0x2000_0000);
    }
    if e == 0 && f == 0 {
        assert!(re == 0 && rf == 0);
    }
    if e == 0 && f > 0 {
        // f * 2^52 == (2^52 + rf) * 2^(re - 874): f has at most 23 bits
        assert!(874 <= re && re <= 897);
        assert!((f as u128) << 52 == ((0x10_0000_0000_0000 + rf) as u128) << (re - 874));
    }
}

/// from_bits and to_bits keep every pattern
#[kani::proof]
fn bits() {
    let (x, y): (u32, u64) = (kani::any(), kani::any());
    assert!(f32::from_bits(x).to_bits() == x);
    assert!(f64::from_bits(y).to_bits() == y);
}
