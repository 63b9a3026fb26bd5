use crate::keys::KEYS;
use crate::num::*;
use crate::vp::*;
use rcrypto::rsa::*;
use rcrypto::{Cipher, Digest, Signature, MD5};
use rcrypto::sha::{SHA1, SHA224, SHA256, SHA384, SHA512};
use rmath::bigint::BigInt;

/// (primes, e, d) of keys small enough for exact tables
const SMALL: &[(&[u32], u32, u32)] = &[
    (&[11, 13], 7, 103),
    (&[13, 11], 7, 103),
    (&[3, 11], 3, 7),
    (&[61, 53], 17, 2753),
    (&[5, 7, 11], 7, 103),
    (&[11, 7, 5], 7, 103),
    (&[7, 11, 5, 3], 7, 343),
    (&[7, 5], 5, 5),
];
fn small(i: usize, crt: bool) -> (PrivateKey, u32, u32, u32) {
    let (ps, e, d) = SMALL[i];
    let n: u32 = ps.iter().product();
    let primes: Vec<BigInt> = ps.iter().map(|&p| b(p)).collect();
    let k = PrivateKey::verif_from_parts(&b(n), &b(e), &b(d), &primes, crt).ok().unwrap();
    (k, n, e, d)
}
/// the integer operations with a small key
pub fn h_rsa() {
    let (key, n, e, d) = small(param(0), param(2) == 1);
    let (op, blind) = (param(1), param(3));
    let x = sym_u32();
    assume(x < 1 << param(4));
    let xb = b(x);
    match op {
        // m^e mod n
        0 => { assume(x < n); let c = key.public_key().encrypt(&xb); check(c == b(specn(70, &[x, e, n])), 1); }
        // c^d mod n, and refusal of c >= n
        1 | 2 => {
            let mut rng = AnyRng::new(param(5));
            let rd = if blind == 1 { Some(&mut rng) } else { None };
            let r = if op == 1 { key.decrypt(&xb, rd) } else { key.decrypt_and_check(&xb, rd) };
            match r {
                Ok(m) => { check(x < n, 1); if decide(x < n) { check(m == b(specn(70, &[x, d, n])), 2); check(xb == b(x), 5); } }
                Err(_) => check(x >= n, 3),
            }
        }
        // decrypt(encrypt(m)) = m
        _ => {
            assume(x < n);
            let c = key.public_key().encrypt(&xb);
            let mut rng = AnyRng::new(param(5));
            let rd = if blind == 1 { Some(&mut rng) } else { None };
            match key.clone().decrypt(&c, rd) { Ok(m) => check(m == xb, 1), Err(_) => check(false, 2) }
        }
    }
}

/// a key with a modulus of the given bits; the private operation is the power with d
pub fn key(bits: usize) -> (PrivateKey, BigInt, usize) {
    let k = KEYS.iter().find(|k| k.0 == bits).unwrap();
    let (n, d) = (big(k.1), big(k.2));
    let primes = vec![big(k.3), big(k.4)];
    (PrivateKey::verif_from_parts(&n, &b(65537), &d, &primes, false).ok().unwrap(), n, (bits + 7) / 8)
}
fn pair(bits: usize) -> KeyPair { KeyPair::from(key(bits).0) }
/// c = em^e as k bytes
fn public(bits: usize, em: &[u8]) -> Vec<u8> { argn(bits); arg(em); spec(71, 400) }
pub fn below(em: &[u8], n: &BigInt) -> bool { BigInt::from_be_bytes(em) < *n }

/// p0 modulus bits, p1 digest bytes, p2 longest label, p3 extra message bytes beyond the maximum, p4 blinding word
pub fn h_oaep_enc() {
    let (bits, h) = (param(0), param(1));
    let k = (bits + 7) / 8;
    let max = k - 2 * h - 2;
    let label = sym(choose(0, param(2)));
    let msg = sym(choose(0, max + param(3)));
    let words: Vec<u32> = (0..(h + 3) / 2 + 1).map(|_| sym_u32()).collect();
    let o = match OAEP::new(AnyHash::new(1, 64, h), ListRng::new(&words), pair(bits), label.clone(), false) { Ok(o) => o, Err(_) => { check(false, 9); return } };
    check(o.max_message_len() == max, 6);
    let mut c = sym(choose(0, 1));
    let r = o.encrypt(&mut c, &msg);
    if msg.len() > max { check(r.is_err(), 1); return }
    check(r.is_ok(), 2);
    let mut seed = Vec::new();
    for w in &words { seed.extend_from_slice(&w.to_be_bytes()) }
    argn(bits); argn(h); arg(&label); arg(&msg); arg(&seed[..h]);
    let want = spec(72, 200);
    same(&c, &want, 3);
    out(&c);
    // and back, on an object with the same label
    let o2 = OAEP::new(AnyHash::new(1, 64, h), ListRng::new(&[param(4) as u32; 8]), pair(bits), label, param(4) > 0).ok().unwrap();
    let mut m = sym(choose(0, 1));
    let r = o2.decrypt(&mut m, &c);
    check(r.is_ok(), 4);
    same(&m, &msg, 5);
}
/// every encoded block
pub fn h_oaep_dec() {
    let (bits, h) = (param(0), param(1));
    let (key, n, k) = key(bits);
    let max = k - 2 * h - 2;
    let label = sym(choose(0, param(2)));
    let em = sym(k);
    assume(below(&em, &n));
    let c = public(bits, &em);
    let o = OAEP::new(AnyHash::new(1, 64, h), ListRng::new(&[param(4) as u32; 8]), KeyPair::from(key), label.clone(), param(4) > 0).ok().unwrap();
    let mut m = Vec::new();
    match o.decrypt(&mut m, &c) {
        Ok(_) => {
            if m.len() > max { check(false, 1); return }
            argn(h); arg(&label); arg(&em); argn(m.len());
            let v = spec(73, 200);
            check(v[0] == 1, 2);
            same(&m, &v[1..], 3);
            out(&m);
        }
        Err(_) => for l in 0..=max { argn(h); arg(&label); arg(&em); argn(l); check(spec(73, 200)[0] == 0, 4) },
    }
}
/// ciphertexts of another length: a valid one without its leading zero bytes or with one more, or not below the modulus
pub fn h_oaep_len() {
    let (bits, h) = (param(0), param(1));
    let (key, n, k) = key(bits);
    let o = OAEP::new(AnyHash::new(1, 64, h), NoRng, KeyPair::from(key), Vec::new(), false).ok().unwrap();
    let mut m = Vec::new();
    let what = choose(0, 3);
    let c = if what == 3 {
        let c = sym(k);
        assume(!below(&c, &n));
        c
    } else {
        let msg = sym(choose(0, k - 2 * h - 2));
        argn(bits); argn(h); arg(&[]); arg(&msg); arg(&sym(h));
        let c = spec(72, 200);
        match what {
            0 => { assume(c[0] == 0); c[1..].to_vec() }
            1 => { let mut v = vec![0u8]; v.extend_from_slice(&c); v }
            _ => { let mut v = c; v.push(sym_u8()); v }
        }
    };
    check(o.decrypt(&mut m, &c).is_err(), 1);
}

// ---------------------------------------------------------------- PKCS1 v1.5

/// p0 modulus bits, p1 words of the random source, p2 position (in bytes) of a zero or beyond, p4 blinding word
pub fn h_p1_enc() {
    let (bits, nw) = (param(0), param(1));
    let k = (bits + 7) / 8;
    let max = k.saturating_sub(11);
    let msg = sym(choose(0, max + 1));
    let words: Vec<u32> = (0..nw).map(|_| sym_u32()).collect();
    // which bytes of the source are zero: up to two positions
    let zeros = [choose(0, param(2)), choose(0, param(2))];
    let mut ps = Vec::new();
    for (i, w) in words.iter().enumerate() {
        for (j, &x) in w.to_be_bytes().iter().enumerate() {
            let z = zeros.contains(&(4 * i + j + 1));
            assume((x == 0) == z);
            if !z { ps.push(x) }
        }
    }
    let o = PKCS1::new(AnyHash::new(1, 64, 1), EndRng::new(&words), pair(bits), false).ok().unwrap();
    check(o.encrypt_max_message_len() == max, 6);
    let mut c = sym(choose(0, 1));
    let r = o.encrypt(&mut c, &msg);
    if msg.len() > max { check(r.is_err(), 1); return }
    let need = k - 3 - msg.len();
    if ps.len() < need { check(r.is_err(), 7); return }
    check(r.is_ok(), 2);
    argn(bits); arg(&msg); arg(&ps[..need]);
    same(&c, &spec(75, 200), 3);
    out(&c);
    let o2 = PKCS1::new(AnyHash::new(1, 64, 1), ListRng::new(&[param(4) as u32; 16]), pair(bits), param(4) > 0).ok().unwrap();
    let mut m = sym(choose(0, 1));
    check(o2.decrypt(&mut m, &c).is_ok(), 4);
    same(&m, &msg, 5);
}
/// every encoded block below the modulus
pub fn h_p1_dec() {
    let bits = param(0);
    let (key, n, k) = key(bits);
    let em = sym(k);
    assume(below(&em, &n));
    let c = public(bits, &em);
    let o = PKCS1::new(AnyHash::new(1, 64, 1), ListRng::new(&[param(4) as u32; 16]), KeyPair::from(key), param(4) > 0).ok().unwrap();
    let mut m = sym(choose(0, 1));
    match o.decrypt(&mut m, &c) {
        Ok(_) => {
            if m.len() > k - 11 { check(false, 1); return }
            arg(&em); argn(m.len());
            let v = spec(76, 200);
            check(v[0] == 1, 2);
            same(&m, &v[1..], 3);
            out(&m);
        }
        Err(_) => for l in 0..=k - 11 { arg(&em); argn(l); check(spec(76, 200)[0] == 0, 4) },
    }
}
/// other lengths of a valid ciphertext, values not below the modulus
pub fn h_p1_len() {
    let bits = param(0);
    let (key, n, k) = key(bits);
    let o = PKCS1::new(AnyHash::new(1, 64, 1), NoRng, KeyPair::from(key), false).ok().unwrap();
    let mut m = Vec::new();
    let what = choose(0, 3);
    let c = if what == 3 {
        let c = sym(k);
        assume(!below(&c, &n));
        c
    } else {
        let msg = sym(choose(0, k - 11));
        let ps = sym(k - 3 - msg.len());
        for &x in &ps { assume(x != 0) }
        argn(bits); arg(&msg); arg(&ps);
        let c = spec(75, 200);
        match what {
            0 => { assume(c[0] == 0); c[1..].to_vec() }
            1 => { let mut v = vec![0u8]; v.extend_from_slice(&c); v }
            _ => { let mut v = c; v.push(sym_u8()); v }
        }
    };
    check(o.decrypt(&mut m, &c).is_err(), 1);
}

macro_rules! hashes { ($i:expr, $f:ident) => { match $i { 0 => $f(MD5::new()), 1 => $f(SHA1::new()), 2 => $f(SHA224::new()), 3 => $f(SHA256::new()), 4 => $f(SHA384::new()), _ => $f(SHA512::new()) } } }
/// p0 modulus bits, p1 hash (0..5), p2 message bytes, p3 1 if the modulus is too short, p4 blinding word
pub fn h_p1_sign() { hashes!(param(1), p1_sign) }
fn p1_sign<H: Digest + Clone + 'static>(h: H) {
    let bits = param(0);
    let msg = sym(param(2));
    let mut o = PKCS1::new(h.clone(), ListRng::new(&[param(4) as u32; 64]), pair(bits), param(4) > 0).ok().unwrap();
    let mut s = SignatureContent::from(sym(choose(0, 1)));
    let r = o.sign(&mut s, &msg);
    if param(3) == 1 { check(r.is_err(), 1); check(o.verify(&s, &msg).is_err(), 4); return }
    check(r.is_ok(), 2);
    argn(bits); argn(param(1)); arg(&msg);
    let want = spec(78, 400);
    check(s.as_slice().len() == (bits + 7) / 8, 6);
    check(below(s.as_slice(), &key(bits).1), 7);
    // the private operation is a permutation: the public one brings the encoding back
    same(&public(bits, s.as_slice()), &want, 3);
    out(s.as_slice());
    // a fresh object accepts it
    let mut o2 = PKCS1::new(h, NoRng, pair(bits), false).ok().unwrap();
    check(o2.verify(&s, &msg).is_ok(), 5);
}
/// verification accepts exactly the encoding
pub fn h_p1_ver() { hashes!(param(1), p1_ver) }
fn p1_ver<H: Digest + Clone + 'static>(h: H) {
    let bits = param(0);
    let (_, n, k) = key(bits);
    let msg = vec![0x61u8; param(2)];
    let em = sym(k);
    assume(below(&em, &n));
    argn(bits); arg(&em);
    let s = spec(74, 400);
    let mut o = PKCS1::new(h, NoRng, pair(bits), false).ok().unwrap();
    let r = o.verify(&SignatureContent::from(s), &msg);
    argn(bits); argn(param(1)); arg(&msg);
    let want = spec(78, 400);
    match r {
        Ok(_) => same(&em, &want, 1),
        Err(_) => check(em[..] != want[..], 2),
    }
}
/// the valid signature in another guise: other lengths, or plus the modulus
pub fn h_p1_alt() { hashes!(param(1), p1_alt) }
fn p1_alt<H: Digest + Clone + 'static>(h: H) {
    let bits = param(0);
    let k = (bits + 7) / 8;
    let msg = sym(param(2));
    let mut o = PKCS1::new(h.clone(), NoRng, pair(bits), false).ok().unwrap();
    let mut s = SignatureContent::new();
    check(o.sign(&mut s, &msg).is_ok(), 2);
    let s = s.as_slice().to_vec();
    let v = match choose(0, 3) {
        0 => { assume(s[0] == 0); s[1..].to_vec() }
        1 => { let mut v = vec![0u8]; v.extend_from_slice(&s); v }
        2 => { let mut v = s; v.push(sym_u8()); v }
        _ => { argn(bits); arg(&s); let (v, c) = split(spec(79, 400), k); assume(c == 0); v }
    };
    let mut o = PKCS1::new(h, NoRng, pair(bits), false).ok().unwrap();
    check(o.verify(&SignatureContent::from(v), &msg).is_err(), 1);
}
/// a hash for which there is no identifier
pub fn h_p1_other() {
    let bits = param(0);
    let msg = sym(1);
    if let Ok(mut o) = PKCS1::new(AnyHash::new(1, 64, 8), NoRng, pair(bits), false) {
        let mut s = SignatureContent::new();
        check(o.sign(&mut s, &msg).is_err(), 1);
        let t = SignatureContent::from(sym((bits + 7) / 8));
        check(o.verify(&t, &msg).is_err(), 2);
    }
}
fn split(mut v: Vec<u8>, k: usize) -> (Vec<u8>, u8) { let c = v[k]; v.truncate(k); (v, c) }

// ---------------------------------------------------------------- PSS

fn salt_arg() -> Option<usize> { match param(3) { 99 => None, x => Some(x) } }
/// p0 modulus bits, p1 hash bytes, p2 message bytes, p3 salt setting (99: none), p4 blinding word, p5 words the source delivers
pub fn h_pss_sign() {
    let (bits, h) = (param(0), param(1));
    let k = (bits + 7) / 8;
    let em_len = (bits + 6) / 8;
    let msg = sym(param(2));
    let slen = match salt_arg() { None => h, Some(0) => k - 2 - h, Some(x) => x };
    let words: Vec<u32> = (0..param(5)).map(|_| sym_u32()).collect();
    let mut all = words.clone();
    if param(4) > 0 { all.extend_from_slice(&[param(4) as u32; 16]) }
    let o = PSS::new(AnyHash::new(1, 64, h), EndRng::new(&all), pair(bits), salt_arg(), param(4) > 0);
    if em_len < h + slen + 2 { check(o.is_err(), 1); return }
    let mut o = match o { Ok(o) => o, Err(_) => { check(false, 2); return } };
    check(o.salt_len() == slen, 6);
    let mut s = SignatureContent::from(sym(choose(0, 1)));
    let r = o.sign(&mut s, &msg);
    if 4 * words.len() < slen { check(r.is_err(), 7); return }
    check(r.is_ok(), 3);
    let mut salt = Vec::new();
    for w in &words { salt.extend_from_slice(&w.to_be_bytes()) }
    argn(bits); argn(h); arg(&msg); arg(&salt[..slen]);
    same(s.as_slice(), &spec(80, 200), 4);
    out(s.as_slice());
    let mut o2 = PSS::new(AnyHash::new(1, 64, h), NoRng, pair(bits), salt_arg(), false).ok().unwrap();
    check(o2.verify(&s, &msg).is_ok(), 5);
}
/// verification of every value below the modulus
pub fn h_pss_ver() {
    let (bits, h) = (param(0), param(1));
    let (_, n, k) = key(bits);
    let msg = sym(param(2));
    let slen = match salt_arg() { None => h, Some(0) => k - 2 - h, Some(x) => x };
    let em = sym(k);
    assume(below(&em, &n));
    argn(bits); arg(&em);
    let s = spec(74, 200);
    let mut o = PSS::new(AnyHash::new(1, 64, h), NoRng, pair(bits), salt_arg(), false).ok().unwrap();
    let r = o.verify(&SignatureContent::from(s), &msg);
    argn(bits); argn(h); arg(&msg); arg(&em); argn(slen);
    let v = spec(81, 200);
    match r { Ok(_) => check(v[0] == 1, 1), Err(_) => check(v[0] == 0, 2) }
}
/// a valid signature in another guise
pub fn h_pss_alt() {
    let (bits, h) = (param(0), param(1));
    let (_, n, k) = key(bits);
    let msg = sym(param(2));
    let slen = match salt_arg() { None => h, Some(0) => k - 2 - h, Some(x) => x };
    argn(bits); argn(h); arg(&msg); arg(&sym(slen));
    let s = spec(80, 200);
    let v = match choose(0, 3) {
        0 => { assume(s[0] == 0); s[1..].to_vec() }
        1 => { let mut v = vec![0u8]; v.extend_from_slice(&s); v }
        2 => { let mut v = s; v.push(sym_u8()); v }
        _ => { argn(bits); arg(&s); let (v, c) = split(spec(79, 200), k); assume(c == 0); v }
    };
    let _ = n;
    let mut o = PSS::new(AnyHash::new(1, 64, h), NoRng, pair(bits), salt_arg(), false).ok().unwrap();
    check(o.verify(&SignatureContent::from(v), &msg).is_err(), 1);
}
