//! HMAC and CMAC over an arbitrary hash / block cipher
use crate::vp::*;
use rcrypto::{sha, sha3, Digest, CMAC, HMAC, MD5, SM3, AES, SM4, TDES};

fn hmac_ref(h: &dyn Fn(&[u8]) -> Vec<u8>, b: usize, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > b { h(key) } else { key.to_vec() };
    k.resize(b, 0);
    let mut x: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
    x.extend_from_slice(m);
    let mut y: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
    y.extend_from_slice(&h(&x));
    h(&y)
}

/// one message in two writes, checksum twice
pub fn h_hmac() {
    let (b, s) = (param(0), param(1));
    let kl = choose(param(2), param(3));
    let n = choose(param(4), param(5));
    let i = choose(0, n);
    let key = sym(kl);
    let m = sym(n);
    let h = AnyHash::new(0, b, s);
    match HMAC::new(key.clone(), h.clone()) {
        Ok(mut mac) => {
            check(b >= s, 9);
            check(mac.bits_len() == s * 8, 4);
            check(mac.block_size() == Some(b), 5);
            let (mut o, mut o2) = (vec![7u8; 2], Vec::new());
            if i > 0 || n == 0 { mac.write(&m[..i]); }
            if i < n { mac.write(&m[i..]); }
            mac.checksum(&mut o);
            mac.checksum(&mut o2);
            let r = hmac_ref(&|x| h.of(x), b, &key, &m);
            same(&o, &r, 1);
            same(&o2, &r, 2);
            out(&o);
        }
        Err(_) => check(b < s, 9),
    }
}

/// a history of operations; every checksum equals the HMAC of what was written since the last fresh start
pub fn h_hmac_hist() {
    let (b, s) = (param(0), param(1));
    let steps = param(2);
    let mut key = sym(choose(b, b + 1));
    let dirty = sym(2);
    let mut h = AnyHash::new(0, b, s);
    let h0 = h.clone();
    if choose(0, 1) == 1 { h.write(&dirty); }
    let mut mac = HMAC::new(key.clone(), h).unwrap();
    let mut cur: Vec<u8> = Vec::new();
    let mut done = false;
    for _ in 0..steps {
        match choose(0, 3) {
            0 => {
                let d = sym(2);
                mac.write(&d);
                if done { cur.clear(); done = false; }
                cur.extend_from_slice(&d);
            }
            1 => {
                let mut o = Vec::new();
                mac.checksum(&mut o);
                let r = hmac_ref(&|x| h0.of(x), b, &key, &cur);
                same(&o, &r, 1);
                out(&o);
                done = true;
            }
            2 => { mac.reset(); cur.clear(); done = false; }
            _ => {
                key = sym([b - 1, b + 1, 2 * b, 2 * b + 1][choose(0, 3)]);
                mac.set_key(key.clone());
                cur.clear();
                done = false;
            }
        }
    }
    let mut o = Vec::new();
    mac.checksum(&mut o);
    let r = hmac_ref(&|x| h0.of(x), b, &key, &cur);
    same(&o, &r, 2);
    out(&o);
}

/// HMAC over the library's own digests
pub fn h_hmac_real() {
    let alg = param(0);
    let kl = choose(param(1), param(2));
    let n = param(3);
    let key = sym(kl);
    let m = sym(n);
    let (mut o, mut o2) = (Vec::new(), Vec::new());
    let b;
    macro_rules! go { ($d: expr) => {{
        let mut mac = HMAC::new(key.clone(), $d).unwrap();
        b = mac.block_size().unwrap();
        mac.write(&m);
        mac.checksum(&mut o);
        mac.checksum(&mut o2);
    }} }
    match alg {
        1 => go!(MD5::new()),
        2 => go!(sha::SHA1::new()),
        3 => go!(sha::SHA256::new()),
        4 => go!(sha::SHA224::new()),
        5 => go!(sha::SHA512::new()),
        6 => go!(sha::SHA384::new()),
        9 => go!(SM3::new()),
        11 => go!(sha3::SHA256::new()),
        _ => go!(sha3::SHA512::new()),
    }
    let r = hmac_ref(&|x| { argn(alg); argn(0); arg(x); spec(1, 64) }, b, &key, &m);
    same(&o, &r, 1);
    same(&o2, &r, 2);
    out(&o);
}

fn dbl(x: &[u8], rb: u32) -> Vec<u8> {
    let n = x.len();
    let mut r = vec![0u8; n];
    for i in 0..n { r[i] = (x[i] << 1) | if i + 1 < n { x[i + 1] >> 7 } else { 0 }; }
    // conditional xor without branching on data
    let m = 0u8.wrapping_sub(x[0] >> 7);
    let rb = rb.to_be_bytes();
    for i in 0..4 { if n + i >= 4 { r[n + i - 4] ^= rb[i] & m; } }
    r
}
fn cmac_ref(e: &dyn Fn(&[u8]) -> Vec<u8>, b: usize, rb: u32, m: &[u8]) -> Vec<u8> {
    let l = e(&vec![0u8; b]);
    let k1 = dbl(&l, rb);
    let k2 = dbl(&k1, rb);
    let full = if m.is_empty() { 0 } else { (m.len() - 1) / b };
    let mut x = vec![0u8; b];
    for i in 0..full {
        for j in 0..b { x[j] ^= m[i * b + j]; }
        x = e(&x);
    }
    let mut last = m[full * b..].to_vec();
    let k = if last.len() == b { &k1 } else { last.push(0x80); last.resize(b, 0); &k2 };
    for j in 0..b { x[j] ^= last[j] ^ k[j]; }
    e(&x)
}
// irreducible polynomials: SP 800-38B for 64 and 128 bits, the first pentanomial for the other sizes the library documents
fn rb(b: usize) -> u32 {
    match b {
        4 => 0x8d, 6 => 0x2d, 8 => 0x1b, 12 => 0x641, 16 => 0x87, 20 => 0x2d, 24 => 0x87, 28 => 0x309, 32 => 0x425,
        40 => 0x1b, 48 => 0x100d, 56 => 0x851, 64 => 0x125, 96 => 0xa0011, 128 => 0x80043, 256 => 0x86001,
        _ => 0,
    }
}

/// one message in three writes, checksum twice
pub fn h_cmac() {
    let b = param(0);
    let n = choose(param(1), param(2));
    let i = choose(0, n);
    let j = if param(3) == 0 { i } else { choose(i, n) };
    let m = sym(n);
    let c = AnyCipher::new(0, b);
    check(CMAC::is_support(&c) == (rb(b) != 0), 7);
    match CMAC::new(c.clone()) {
        Ok(mut mac) => {
            check(rb(b) != 0, 6);
            check(mac.bits_len() == b * 8, 4);
            let (mut o, mut o2) = (vec![7u8; 2], Vec::new());
            mac.write(&m[..i]);
            mac.write(&m[i..j]);
            mac.write(&m[j..]);
            mac.checksum(&mut o);
            mac.checksum(&mut o2);
            let r = cmac_ref(&|x| c.e(x), b, rb(b), &m);
            same(&o, &r, 1);
            same(&o2, &r, 2);
            out(&o);
        }
        Err(_) => check(rb(b) == 0, 6),
    }
}

pub fn h_cmac_hist() {
    let b = param(0);
    let steps = param(1);
    let c = AnyCipher::new(0, b);
    let mut mac = CMAC::new(c.clone()).unwrap();
    let mut cur: Vec<u8> = Vec::new();
    let mut done = false;
    for _ in 0..steps {
        match choose(0, 3) {
            k if k < 2 => {
                let d = sym(if k == 0 { b } else { b / 2 + 1 });
                mac.write(&d);
                if done { cur.clear(); done = false; }
                cur.extend_from_slice(&d);
            }
            2 => {
                let mut o = Vec::new();
                mac.checksum(&mut o);
                let r = cmac_ref(&|x| c.e(x), b, rb(b), &cur);
                same(&o, &r, 1);
                out(&o);
                done = true;
            }
            _ => { mac.reset(); cur.clear(); done = false; }
        }
    }
    let mut o = Vec::new();
    mac.checksum(&mut o);
    let r = cmac_ref(&|x| c.e(x), b, rb(b), &cur);
    same(&o, &r, 2);
    out(&o);
}

/// CMAC over the library's own ciphers
pub fn h_cmac_real() {
    let alg = param(0);
    let n = choose(param(1), param(2));
    let key = sym(if alg == 1 || alg == 6 { 16 } else if alg == 2 || alg == 5 { 24 } else { 32 });
    let m = sym(n);
    let mut o = Vec::new();
    let b;
    macro_rules! go { ($c: expr) => {{
        let mut mac = CMAC::new($c).unwrap();
        b = mac.block_size().unwrap();
        mac.write(&m);
        mac.checksum(&mut o);
    }} }
    match alg {
        1..=3 => go!(AES::new(key.clone()).unwrap()),
        5 => {
            let k = |i: usize| { let mut a = [0u8; 8]; a.copy_from_slice(&key[8 * i..8 * i + 8]); a };
            go!(TDES::new(k(0), k(1), k(2)))
        }
        _ => go!(SM4::from_slice(&key).unwrap()),
    }
    let r = cmac_ref(&|x| { argn(alg); argn(0); arg(&key); arg(x); spec(2, 16) }, b, rb(b), &m);
    same(&o, &r, 1);
    out(&o);
}
