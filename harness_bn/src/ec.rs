use crate::num::*;
use crate::vp::*;
use rcrypto::ecdsa::*;
use rcrypto::elliptic::{CurveParams, EllipticCurve, KeyPair, PrivateKey, PublicKey};
use rcrypto::Signature;
use rmath::bigint::{BigInt, Nat};
use std::cell::RefCell;

/// (p, order of the base point, b, gx, gy)
const CURVES: &[(u32, u32, u32, u32, u32)] = &[
    (11, 7, 10, 2, 1),
    (13, 19, 12, 0, 5),
    (17, 23, 3, 1, 1),
    (23, 31, 8, 0, 10),
    (23, 17, 15, 1, 6),
    (31, 41, 6, 1, 2),
    (61, 71, 4, 0, 2),
    (251, 223, 26, 2, 84),
    (257, 271, 9, 0, 3),
    (521, 547, 73, 1, 160),
];
fn curve(i: usize) -> CurveParams {
    let (p, n, c, gx, gy) = CURVES[i];
    CurveParams::verif_from_parts(b(p), b(n), b(c), b(gx), b(gy), 32 - p.leading_zeros() as usize)
}
fn cargs(i: usize, l: &[u32]) {
    let (p, _, c, _, _) = CURVES[i];
    for a in [p, c].iter().chain(l) { arg(&a.to_le_bytes()); }
}
fn w(i: usize) -> u32 { (1u32 << (32 - CURVES[i].0.leading_zeros())) - 1 }
fn two(id: usize) -> (u32, u32) {
    let v = spec(id, 8);
    (u32::from_le_bytes([v[0], v[1], v[2], v[3]]), u32::from_le_bytes([v[4], v[5], v[6], v[7]]))
}
/// k * (x, y) by the reference
fn times(i: usize, x: u32, y: u32, k: u32) -> (u32, u32) { cargs(i, &[x, y, k]); two(97) }
/// any point of the curve, or the identity: the order is prime, so each is a multiple of the base point
fn point(i: usize) -> (u32, u32) {
    let (_, n, _, gx, gy) = CURVES[i];
    let j = sym_u32() & ((1u32 << (32 - n.leading_zeros())) - 1);
    assume(j < n);
    cargs(i, &[gx, gy, j, n]);
    two(98)
}
fn same_point(r: &(BigInt, BigInt), want: (u32, u32), id: usize) {
    check(r.0 == b(want.0), id);
    check(r.1 == b(want.1), id + 1);
    out(&r.0.to_be_bytes()); out(&r.1.to_be_bytes());
}
/// p0 curve, p1 operation: 0 is_on_curve, 1 add, 2 double, 3 scalar of a point by k in p2..p3, 4 of the base point by k up to p2
pub fn h_ec() {
    let i = param(0);
    let c = curve(i);
    match param(1) {
        0 => {
            let m = 2 * w(i) + 1;
            let (x, y) = (sym_u32() & m, sym_u32() & m);
            assume(x != 0 || y != 0);
            let r = c.is_on_curve(&b(x), &b(y));
            cargs(i, &[x, y]);
            check(r == (spec(94, 1)[0] == 1), 1);
            out(&[r as u8]);
        }
        1 => {
            let ((x1, y1), (x2, y2)) = (point(i), point(i));
            let r = c.add(&b(x1), &b(y1), &b(x2), &b(y2));
            cargs(i, &[x1, y1, x2, y2]);
            same_point(&r, two(96), 1);
        }
        2 => {
            let (x, y) = point(i);
            let r = c.double(&b(x), &b(y));
            cargs(i, &[x, y, x, y]);
            same_point(&r, two(96), 1);
        }
        3 => {
            let (x, y) = point(i);
            assume(x != 0 || y != 0);
            let k = choose(param(2), param(3)) as u32;
            let r = c.scalar(&b(x), &b(y), &Nat::from(k));
            same_point(&r, times(i, x, y, k), 1);
        }
        _ => {
            let k = sym_u32() & param(2) as u32;
            let r = c.scalar_base_point(&Nat::from(k));
            let (_, n, _, gx, gy) = CURVES[i];
            cargs(i, &[gx, gy, k, n]);
            same_point(&r, two(98), 1);
        }
    }
}

/// The curve as the reference knows it; keeps the scalars it is asked for.
struct SpecCurve { i: usize, c: CurveParams, asked: RefCell<(usize, Vec<u8>)> }
impl SpecCurve { fn new(i: usize) -> Self { SpecCurve { i, c: curve(i), asked: RefCell::new((0, Vec::new())) } } }
impl Clone for SpecCurve { fn clone(&self) -> Self { SpecCurve { i: self.i, c: self.c.clone(), asked: RefCell::new(self.asked.borrow().clone()) } } }
impl EllipticCurve for SpecCurve {
    fn curve_params(&self) -> &CurveParams { &self.c }
    fn is_on_curve(&self, x: &BigInt, y: &BigInt) -> bool { self.c.is_on_curve(x, y) }
    fn add(&self, x1: &BigInt, y1: &BigInt, x2: &BigInt, y2: &BigInt) -> (BigInt, BigInt) { self.c.add(x1, y1, x2, y2) }
    fn double(&self, x: &BigInt, y: &BigInt) -> (BigInt, BigInt) { self.c.double(x, y) }
    fn scalar(&self, x: &BigInt, y: &BigInt, k: &Nat) -> (BigInt, BigInt) { self.c.scalar(x, y, k) }
    fn scalar_base_point(&self, k: &Nat) -> (BigInt, BigInt) {
        let k = k.to_be_bytes();
        let c = self.asked.borrow().0;
        if c >= param(3) { stop() }
        let (_, n, _, gx, gy) = CURVES[self.i];
        cargs(self.i, &[gx, gy, n]); arg(&k);
        *self.asked.borrow_mut() = (c + 1, k);
        let r = two(101);
        (b(r.0), b(r.1))
    }
}
fn dirty(h: usize) -> FoldHash { let mut f = FoldHash::new(h); rcrypto::Digest::write(&mut f, &[7]); f }
fn pair(i: usize, d: u32) -> (PrivateKey, u32, u32) {
    let (_, _, _, gx, gy) = CURVES[i];
    let (qx, qy) = times(i, gx, gy, d);
    (PrivateKey::new_uncheck(PublicKey::new_uncheck(&b(qx), &b(qy)), &b(d)), qx, qy)
}
/// p0 curve, p1 digest bytes, p2 private key, p3 most nonces
pub fn h_ecdsa_sign() {
    let (i, h, d) = (param(0), param(1), param(2) as u32);
    let n = CURVES[i].1;
    let (key, _, _) = pair(i, d);
    let msg = sym(h);
    let rng = ListRng::new(&[sym_u32(), sym_u32(), sym_u32(), sym_u32()]);
    let mut o = ECDSA::new_unchcek(dirty(h), rng, SpecCurve::new(i), KeyPair::from(key)).ok().unwrap();
    let mut sg = SignatureContent::new();
    if o.sign(&mut sg, &msg).is_err() { check(false, 1); return }
    let (r, s) = sg.to_bigint();
    let asked = o.curve().asked.into_inner();
    let k = BigInt::from_be_bytes(&asked.1);
    check(k > b(0), 2);
    check(k < b(n), 6);
    let (_, _, _, gx, gy) = CURVES[i];
    cargs(i, &[gx, gy, n, d]);
    arg(&asked.1);
    arg(&FoldHash::new(h).of(&msg));
    let v = spec(99, 9);
    check(v[8] == 1, 3);
    check(r == b(u32::from_le_bytes([v[0], v[1], v[2], v[3]])), 4);
    check(s == b(u32::from_le_bytes([v[4], v[5], v[6], v[7]])), 5);
    out(sg.as_ref());
}
/// p0 curve, p1 digest bytes, p2 private key, p3 bits of r and s, p4 1: with the key pair
pub fn h_ecdsa_ver() {
    let (i, h, d) = (param(0), param(1), param(2) as u32);
    let (key, qx, qy) = pair(i, d);
    let msg = sym(h);
    let m = (1u32 << param(3)) - 1;
    let (r, s) = (sym_u32() & m, sym_u32() & m);
    let mut sg = SignatureContent::form_bigint(&b(r), &b(s));
    if param(4) == 2 { sg = SignatureContent::form_bigint(&b(70000), &b(5)); sg.set(b(r), b(s)); }
    let pair = if param(4) == 1 { KeyPair::from(key) } else { KeyPair::from(key.public_key().clone()) };
    let mut o = ECDSA::new_unchcek(dirty(h), NoRng, curve(i), pair).ok().unwrap();
    let ok = o.verify(&sg, &msg).is_ok();
    let (_, n, _, gx, gy) = CURVES[i];
    cargs(i, &[gx, gy, n, qx, qy, r, s]);
    arg(&FoldHash::new(h).of(&msg));
    check(ok == (spec(100, 1)[0] == 1), 1);
    out(&[ok as u8]);
}

/// key generation: p0 curve, p1 words before the source fails, p2 attempts
pub fn h_key_ec() {
    let (i, words) = (param(0), param(1));
    let (_, n, _, gx, gy) = CURVES[i];
    let c = curve(i);
    let l: Vec<u32> = (0..words).map(|_| sym_u32()).collect();
    let r = if param(2) == 1 { c.generate_key(&mut EndRng::new(&l)) } else { c.generate_key(&mut ListRng::new(&l)) };
    match r {
        Ok(k) => {
            let d = k.verif_secret();
            check(!d.is_nan(), 1);
            check(*d > b(0), 2);
            check(*d < b(n), 3);
            cargs(i, &[gx, gy, n]); arg(&d.to_be_bytes());
            let w = two(101);
            let (qx, qy) = k.public_key().verif_parts();
            check(*qx == b(w.0), 4);
            check(*qy == b(w.1), 5);
            out(&d.to_be_bytes());
        }
        Err(_) => check(param(2) == 1, 6),
    }
}
/// a key pair made for signing: p0 curve, p1 words before the source fails, p2 1: it may fail
pub fn h_key_ecdsa() {
    let (i, words) = (param(0), param(1));
    let (_, n, _, gx, gy) = CURVES[i];
    let l: Vec<u32> = (0..words).map(|_| sym_u32()).collect();
    let r = ECDSA::auto_generate_key(dirty(1), EndRng::new(&l), SpecCurve::new(i));
    match r {
        Ok(o) => {
            let asked = o.curve().asked.into_inner();
            check(asked.0 == 1, 1);
            let d = BigInt::from_be_bytes(&asked.1);
            check(!d.is_nan(), 2);
            check(d > b(0), 3);
            check(d < b(n), 4);
            cargs(i, &[gx, gy, n]); arg(&asked.1);
            let w = two(101);
            let (qx, qy) = o.public_key().verif_parts();
            check(*qx == b(w.0), 5);
            check(*qy == b(w.1), 6);
            out(&asked.1);
        }
        Err(_) => check(param(2) == 1, 7),
    }
}
