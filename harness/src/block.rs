//! block ciphers against their reference, for every key and block
use crate::vp::*;
use rcrypto::{Cipher, AES, DES, SM4, TDES};

fn key<const N: usize>() -> [u8; N] { let mut k = [0u8; N]; fill(&mut k); k }

type F<'a> = &'a mut dyn FnMut(&dyn Cipher<Output = usize>, &[u8]);
fn go<C: Cipher<Output = usize> + Clone>(c: C, k: &[u8], f: F) {
    if param(2) == 1 { f(&c.clone(), k) } else { f(&c, k) }
}
/// param 2: how the object was made (0 array constructor, 1 a clone of that, 2 slice or vector constructor)
fn with(alg: usize, f: F) {
    let how = param(2);
    match alg {
        1 => { let k = key::<16>(); go(if how == 2 { AES::new(k.to_vec()).ok().unwrap() } else { AES::aes_128(k) }, &k, f) }
        2 => { let k = key::<24>(); go(if how == 2 { AES::new(k.to_vec()).ok().unwrap() } else { AES::aes_192(k) }, &k, f) }
        3 => { let k = key::<32>(); go(if how == 2 { AES::new(k.to_vec()).ok().unwrap() } else { AES::aes_256(k) }, &k, f) }
        4 => { let k = key::<8>(); go(DES::new(k), &k, f) }
        5 => { let (a, b, c) = (key::<8>(), key::<8>(), key::<8>()); let mut k = a.to_vec(); k.extend(&b); k.extend(&c); go(TDES::new(a, b, c), &k, f) }
        _ => { let k = key::<16>(); go(if how == 2 { SM4::from_slice(&k).ok().unwrap() } else { SM4::new(k) }, &k, f) }
    }
}

/// keys of every length from a byte vector or slice: exactly the legal lengths are accepted
pub fn h_key() {
    let n = choose(0, 40);
    let k = sym(n);
    match param(0) {
        6 => check(SM4::from_slice(&k).is_ok() == (n == 16), 1),
        _ => check(AES::new(k).is_ok() == (n == 16 || n == 24 || n == 32), 1),
    }
}

/// param 0: algorithm, 1: operation (0 encrypt, 1 decrypt, 2 wrong length, 3 encrypt then decrypt)
pub fn h_block() {
    let alg = param(0);
    let op = param(1);
    let bs = if alg == 4 || alg == 5 { 8 } else { 16 };
    with(alg, &mut |c, k| {
        check(c.block_size() == Some(bs), 1);
        let mut o = Vec::new();
        if op == 2 {
            let n = choose(0, 2 * bs + 1);
            if n == bs { return; }
            let x = sym(n);
            check(c.encrypt(&mut o, &x).is_err(), 2);
            check(c.decrypt(&mut o, &x).is_err(), 3);
            return;
        }
        if op == 3 {
            // two operations on one object and one output vector
            let (x, y) = (sym(bs), sym(bs));
            check(c.encrypt(&mut o, &x).ok() == Some(bs), 4);
            argn(alg);
            argn(0);
            arg(k);
            arg(&x);
            same(&o, &spec(2, 16), 5);
            check(c.decrypt(&mut o, &y).ok() == Some(bs), 4);
            argn(alg);
            argn(1);
            arg(k);
            arg(&y);
            same(&o, &spec(2, 16), 6);
            out(&o);
            return;
        }
        let x = sym(bs);
        let r = if op == 0 { c.encrypt(&mut o, &x) } else { c.decrypt(&mut o, &x) };
        check(r.ok() == Some(bs), 4);
        argn(alg);
        argn(op);
        arg(k);
        arg(&x);
        same(&o, &spec(2, 16), 5);
        out(&o);
    });
}
