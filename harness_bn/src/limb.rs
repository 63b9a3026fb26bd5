//! field arithmetic in limbs
use crate::vp::*;
use rcrypto::elliptic::{CurveP224, CurveP256};
use rmath::bigint::BigInt;

const P224: &str = "0xffffffffffffffffffffffffffffffff000000000000000000000001";
const P256: &str = "0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff";
fn num(s: &str) -> BigInt { s.parse().ok().unwrap() }
fn value(a: &[u32], pos: impl Fn(usize) -> usize) -> BigInt {
    let mut v = BigInt::from(0u32);
    for (i, &x) in a.iter().enumerate() { v = v + (BigInt::from(x) << pos(i)); }
    v
}
fn limbs<const N: usize>(mask: impl Fn(usize) -> u32) -> [u32; N] {
    let mut a = [0u32; N];
    for i in 0..N { a[i] = sym_u32() & mask(i); }
    a
}
fn show(a: &[u32]) { for x in a { out(&x.to_le_bytes()); } }
/// equality of numbers below 2^600 (a remainder has no leading zero words)
fn same(a: BigInt, b: BigInt) -> bool {
    let m = BigInt::from(1u32) << 600;
    a % m.clone() == b % m
}
fn cong(a: BigInt, b: BigInt, p: &BigInt, id: usize) { check(a % p.clone() == b % p.clone(), id); }
/// p0 operation, p1 and p2 bits of the limbs of the operands
pub fn h_p224() {
    let op = param(0);
    let p = num(P224);
    let (ba, bb) = (param(1), param(2));
    let a: [u32; 8] = limbs(|_| ((1u64 << ba) - 1) as u32);
    let b: [u32; 8] = limbs(|_| ((1u64 << bb) - 1) as u32);
    let r = CurveP224::verif_field(op, &a, &b);
    show(&r);
    let at = |i| 28 * i;
    let (va, vb, vr) = (value(&a, at), value(&b, at), value(&r, at));
    match op {
        0 => cong(va * vb, vr, &p, 1),
        1 => cong(va.clone() * va, vr, &p, 1),
        2 => cong(va + vb, vr, &p, 1),
        3 => cong(va, vr + vb, &p, 1),
        _ => cong(va, vr, &p, 1),
    }
    if op < 2 || op == 4 { for i in 0..8 { check(r[i] < 1 << 29, 2) } }
}
/// the least residue: p0 0 reduced limbs, 1 test for zero; p1 bits of the limbs
pub fn h_p224_least() {
    let op = param(0);
    let p = num(P224);
    let a: [u32; 8] = limbs(|_| ((1u64 << param(1)) - 1) as u32);
    let va = value(&a, |i| 28 * i);
    // a value is below 2^(196 + bits of a limb) + 2^(169 + bits), fewer than n moduli
    let n = (1u32 << (param(1) - 28)) + 2;
    let r = match op {
        0 => {
            let r = CurveP224::verif_field(5, &a, &a);
            show(&r);
            for i in 0..8 { check(r[i] < 1 << 28, 1) }
            value(&r, |i| 28 * i)
        },
        _ => {
            let z = CurveP224::verif_field(6, &a, &a)[0];
            out(&[z as u8]);
            let mut want = false; let mut m = BigInt::from(0u32);
            for _ in 0..n { want |= same(va.clone(), m.clone()); m = m + p.clone(); }
            check((z == 1) == want, 4);
            check(z <= 1, 5);
            return;
        },
    };
    check(r < p, 2);
    let mut eq = false; let mut m = r;
    for _ in 0..n { eq |= same(va.clone(), m.clone()); m = m + p.clone(); }
    check(eq, 3);
}
/// conversions: p0 0 from a number of p1 bytes and back, 1 to a number
pub fn h_p224_number() {
    let at = |i| 28 * i;
    if param(0) == 0 {
        let n = BigInt::from_be_bytes(&sym(param(1)));
        let r = CurveP224::verif_from_bigint(&n);
        show(&r);
        for i in 0..8 { check(r[i] < 1 << 28, 1) }
        check(same(value(&r, at), n.clone()), 2);
        check(same(CurveP224::verif_to_bigint(&r), n), 3);
    } else {
        let a: [u32; 8] = limbs(|_| (1 << 28) - 1);
        check(same(CurveP224::verif_to_bigint(&a), value(&a, at)), 4);
    }
}
/// conversions: p0 0 from a number of p1 bytes, 1 to a number
pub fn h_p256_number() {
    let p = num(P256);
    let c = CurveP256::new().ok().unwrap();
    let at = |i| 57 * (i / 2) + 29 * (i % 2);
    // the inverse of 2^257
    let inv = num("0x7fffffff00000001fffffffe8000000100000000ffffffff0000000180000000");
    check((inv.clone() << 257) % p.clone() == BigInt::from(1u32), 1);
    if param(0) == 0 {
        let n = BigInt::from_be_bytes(&sym(param(1)));
        let r = c.verif_from_bigint(&n);
        show(&r);
        for i in 0..9 { check(r[i] < if i % 2 == 0 { 1 << 29 } else { 1 << 28 }, 2) }
        check(same(value(&r, at), (n << 257) % p), 3);
    } else {
        let a: [u32; 9] = limbs(|i| if i % 2 == 0 { (1u32 << 30) - 1 } else { (1 << 29) - 1 });
        check(c.verif_to_bigint(&a) == (value(&a, at) * inv) % p, 4);
    }
}
/// p0 operation
pub fn h_p256() {
    let op = param(0);
    let p = num(P256);
    let m = |i| if i % 2 == 0 { (1u32 << 30) - 1 } else { (1 << 29) - 1 };
    // eight times is only taken of products, whose last limb is shorter
    let a: [u32; 9] = limbs(|i| if op == 6 && i == 8 { (1 << 29) - 1 } else { m(i) });
    let b: [u32; 9] = limbs(m);
    let r = CurveP256::verif_field(op, &a, &b);
    show(&r);
    let at = |i| 57 * (i / 2) + 29 * (i % 2);
    let (va, vb, vr) = (value(&a, at), value(&b, at), value(&r, at));
    let k = |n: u32, v: BigInt| v * BigInt::from(n);
    match op {
        0 => cong(va * vb, vr << 257, &p, 1),
        1 => cong(va.clone() * va, vr << 257, &p, 1),
        2 => cong(va + vb, vr, &p, 1),
        3 => cong(va, vr + vb, &p, 1),
        4 => cong(k(3, va), vr, &p, 1),
        5 => cong(k(4, va), vr, &p, 1),
        _ => cong(k(8, va), vr, &p, 1),
    }
    for i in 0..9 { check(r[i] <= m(i), 2) }
    if op < 2 { check(r[8] < 1 << 29, 3) }
}
