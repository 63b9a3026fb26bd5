//! digests against their reference, for every content and each length / split / history
use crate::vp::*;
use rcrypto::{sha, sha3, Digest, DigestXOF, MD5, SM3, SHA, SHA3};

fn with<R>(alg: usize, f: &mut dyn FnMut(&mut dyn Digest) -> R) -> R {
    match alg {
        1 => f(&mut MD5::new()),
        2 => f(&mut sha::SHA1::new()),
        3 => f(&mut sha::SHA256::new()),
        4 => f(&mut sha::SHA224::new()),
        5 => f(&mut sha::SHA512::new()),
        6 => f(&mut sha::SHA384::new()),
        7 => f(&mut sha::SHA512T224::new()),
        8 => f(&mut sha::SHA512T256::new()),
        9 => f(&mut SM3::new()),
        10 => f(&mut sha3::SHA224::new()),
        11 => f(&mut sha3::SHA256::new()),
        12 => f(&mut sha3::SHA384::new()),
        13 => f(&mut sha3::SHA512::new()),
        14 => f(&mut sha3::Shake128::new(param(9))),
        15 => f(&mut sha3::Shake256::new(param(9))),
        16 => f(&mut sha::SHA512T::new(param(9)).unwrap()),
        21 => f(&mut SHA::sha1()),
        22 => f(&mut SHA::sha256()),
        23 => f(&mut SHA::sha224()),
        24 => f(&mut SHA::sha512()),
        25 => f(&mut SHA::sha384()),
        26 => f(&mut SHA::sha512_224()),
        27 => f(&mut SHA::sha512_256()),
        30 => f(&mut SHA3::sha224()),
        31 => f(&mut SHA3::sha256()),
        32 => f(&mut SHA3::sha384()),
        33 => f(&mut SHA3::sha512()),
        _ => f(&mut SHA::sha512t(param(9)).unwrap()),
    }
}

fn reference(alg: usize, bits: usize, m: &[u8]) -> Vec<u8> {
    argn(alg);
    argn(bits);
    arg(m);
    spec(1, 512)
}

/// one write, one checksum
pub fn h_digest() {
    let alg = param(0);
    let n = choose(param(1), param(2));
    let m = sym(n);
    let bits = param(9);
    let mut o = vec![0xa5u8; 3];
    let quiet = n == 0 && choose(0, 1) == 1;
    let adv = with(alg, &mut |d: &mut dyn Digest| { if !quiet { d.write(&m); } d.checksum(&mut o); d.bits_len() });
    let r = reference(alg, bits, &m);
    same(&o, &r, 1);
    check(adv == if bits != 0 { bits } else { r.len() * 8 }, 2);
    out(&o);
}

/// three writes, then repeated checksums
pub fn h_split() {
    let alg = param(0);
    let n = choose(param(1), param(2));
    let i = choose(param(4), if param(5) == 0 { n } else { param(5).min(n) });
    let j = if param(3) == 0 { i } else { choose(i, n) };
    let m = sym(n);
    let (mut o, mut o2) = (Vec::new(), Vec::new());
    with(alg, &mut |d: &mut dyn Digest| {
        d.write(&m[..i]);
        d.write(&m[i..j]);
        d.write(&m[j..]);
        d.checksum(&mut o);
        d.checksum(&mut o2);
    });
    let r = reference(alg, param(9), &m);
    same(&o, &r, 1);
    same(&o2, &r, 2);
    out(&o);
}

/// write, optional checksum, reset, then a fresh message
pub fn h_reuse() {
    let alg = param(0);
    let a = choose(param(1), param(2));
    let b = choose(param(3), param(4));
    let how = choose(0, 2);
    let m0 = sym(a);
    let m = sym(b);
    let mut o = Vec::new();
    with(alg, &mut |d: &mut dyn Digest| {
        d.write(&m0);
        if how > 0 { d.checksum(&mut o); }
        if how > 1 { d.checksum(&mut o); }
        d.reset();
        if b > 0 { d.write(&m); }
        d.checksum(&mut o);
    });
    let r = reference(alg, param(9), &m);
    same(&o, &r, 1);
    out(&o);
}

/// extendable output: changing the requested length starts a fresh computation
pub fn h_xof() {
    let alg = param(0);
    let a = choose(param(1), param(2));
    let b = choose(param(3), param(4));
    let m0 = sym(a);
    let m = sym(b);
    let how = choose(0, 1);
    let bits = param(9);
    let mut o = Vec::new();
    let adv;
    macro_rules! go { ($t: ty) => {{
        let mut d = <$t>::new(param(8));
        d.write(&m0);
        if how > 0 { d.checksum(&mut o); }
        d.set_digest_len(bits);
        if b > 0 { d.write(&m); }
        d.checksum(&mut o);
        adv = d.bits_len();
    }} }
    if alg == 14 { go!(sha3::Shake128) } else { go!(sha3::Shake256) }
    let r = reference(alg, bits, &m);
    same(&o, &r, 1);
    check(adv == bits, 2);
    out(&o);
}

/// SHA-3 of a message that is not a whole number of bytes
pub fn h_bits() {
    let alg = param(0);
    let n = choose(param(1), param(2));
    let k = choose(param(3), param(4));
    let m = sym(n);
    let t = sym(k);
    let mut o = Vec::new();
    macro_rules! go { ($e: expr) => {{
        let mut d = $e;
        d.write(&m);
        for i in 0..k { d.write_bit(t[i]); }
        d.checksum(&mut o);
    }} }
    match alg {
        10 => go!(sha3::SHA224::new()),
        11 => go!(sha3::SHA256::new()),
        12 => go!(sha3::SHA384::new()),
        13 => go!(sha3::SHA512::new()),
        30 => go!(SHA3::sha224()),
        31 => go!(SHA3::sha256()),
        32 => go!(SHA3::sha384()),
        _ => go!(SHA3::sha512()),
    }
    argn(alg);
    arg(&m);
    arg(&t);
    let r = spec(3, 512);
    same(&o, &r, 1);
    out(&o);
}
