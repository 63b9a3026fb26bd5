use crate::rand::IterSource;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{Binary, Debug, Display, Formatter, LowerHex, Octal, UpperHex};
use std::ops::*;
use std::rc::Rc;
use std::str::FromStr;

mod raw {
    // a handle names an immutable natural number known to the executor; 0 is NaN
    extern "C" {
        pub fn vp_bn_u64(v: u64) -> u64;
        pub fn vp_bn_bytes(p: *const u8, n: usize, big: usize) -> u64;
        pub fn vp_bn_str(p: *const u8, n: usize) -> u64;
        pub fn vp_bn_len(h: u64) -> usize;
        pub fn vp_bn_put(h: u64, p: *mut u8, n: usize);
        pub fn vp_bn_bits(h: u64) -> usize;
        pub fn vp_bn_bit(h: u64, i: usize) -> u8;
        pub fn vp_bn_word(h: u64, i: usize) -> u32;
        pub fn vp_bn_tz(h: u64) -> usize;
        pub fn vp_bn_op(op: usize, a: u64, b: u64) -> u64;
        pub fn vp_bn_shl(a: u64, n: usize) -> u64;
        pub fn vp_bn_shr(a: u64, n: usize) -> u64;
        pub fn vp_bn_lt(a: u64, b: u64) -> u8;
        pub fn vp_bn_eq(a: u64, b: u64) -> u8;
        pub fn vp_bn_sel(c: u8, a: u64, b: u64) -> u64;
        pub fn vp_bn_exp(a: u64, e: u64, n: u64) -> u64;
        pub fn vp_bn_inv(a: u64, n: u64) -> u64;
        pub fn vp_bn_isprime(a: u64) -> u8;
        pub fn vp_bn_missing() -> u64;
    }
}
use raw::*;
const ADD: usize = 0; const DIFF: usize = 1; const MUL: usize = 2; const DIV: usize = 3; const REM: usize = 4;
const AND: usize = 5; const OR: usize = 6; const XOR: usize = 7; const ANDNOT: usize = 8; const GCD: usize = 9;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum ParseErrKind { BeginWithIllegalChar, IllegalCharEncounter, InvalidParameters }
pub struct NatError { kind: ParseErrKind }
impl NatError {
    pub fn new<E>(kind: ParseErrKind, _e: E) -> NatError { NatError { kind } }
    pub fn kind(&self) -> ParseErrKind { self.kind }
}
impl Debug for NatError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("nat") } }
impl Display for NatError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("nat") } }
impl std::error::Error for NatError {}

#[derive(Clone)]
pub struct Nat { nat: Rc<Cell<u64>> }
fn n(h: u64) -> Nat { Nat { nat: Rc::new(Cell::new(h)) } }
fn u(v: u64) -> u64 { unsafe { vp_bn_u64(v) } }
fn op(o: usize, a: u64, b: u64) -> u64 { if a == 0 || b == 0 { 0 } else { unsafe { vp_bn_op(o, a, b) } } }
fn lt(a: u64, b: u64) -> bool { unsafe { vp_bn_lt(a, b) != 0 } }
fn eq(a: u64, b: u64) -> bool { unsafe { vp_bn_eq(a, b) != 0 } }

impl Nat {
    fn h(&self) -> u64 { self.nat.get() }
    fn set(&self, h: u64) { self.nat.set(h) }
    fn nan() -> Nat { n(0) }
    pub fn deep_clone(&self) -> Self { n(self.h()) }
    pub fn is_nan(&self) -> bool { self.h() == 0 }
    pub fn from_le_bytes(data: &[u8]) -> Nat { if data.is_empty() { Nat::nan() } else { n(unsafe { vp_bn_bytes(data.as_ptr(), data.len(), 0) }) } }
    pub fn from_be_bytes(data: &[u8]) -> Nat { if data.is_empty() { Nat::nan() } else { n(unsafe { vp_bn_bytes(data.as_ptr(), data.len(), 1) }) } }
    pub fn copy_to_be(&self, dst: &mut Vec<u8>) { *dst = self.to_be_bytes() }
    pub fn copy_to_le(&self, dst: &mut Vec<u8>) { *dst = self.to_le_bytes() }
    pub fn to_be_bytes(&self) -> Vec<u8> { let mut v = self.to_le_bytes(); v.reverse(); v }
    pub fn to_le_bytes(&self) -> Vec<u8> {
        if self.is_nan() { return Vec::new(); }
        let l = unsafe { vp_bn_len(self.h()) };
        let mut v = vec![0u8; l];
        unsafe { vp_bn_put(self.h(), v.as_mut_ptr(), l) };
        v
    }
    pub fn bits_len(&self) -> usize { if self.is_nan() { 0 } else { unsafe { vp_bn_bits(self.h()) } } }
    pub fn is_set_bit(&self, i: usize) -> Option<bool> { if i >= self.bits_len() { None } else { Some(unsafe { vp_bn_bit(self.h(), i) } != 0) } }
    pub fn trailling_zeros(&self) -> usize { unsafe { vp_bn_tz(self.h()) } }
    pub fn and_not(self, rhs: Nat) -> Nat { n(op(ANDNOT, self.h(), rhs.h())) }
    pub fn and_not_assign(&mut self, rhs: Nat) { self.set(op(ANDNOT, self.h(), rhs.h())) }
    pub fn sub_with_sign(&self, rhs: Self) -> (Nat, bool) {
        if self.is_nan() || rhs.is_nan() { return (Nat::nan(), false); }
        (n(op(DIFF, self.h(), rhs.h())), !lt(self.h(), rhs.h()))
    }
    pub fn sub_assign_with_sign(&mut self, rhs: Self) -> bool { let (a, b) = self.sub_with_sign(rhs); self.set(a.h()); b }
    pub fn pow(&self, b: Nat) -> Nat { self.exp(&b, &n(u(0))) }
    pub fn pow_mod(&self, b: Nat, m: Nat) -> Nat { self.exp(&b, &m) }
    pub fn exp(&self, b: &Nat, m: &Nat) -> Nat {
        if self.is_nan() || b.is_nan() || m.is_nan() { return Nat::nan(); }
        n(unsafe { vp_bn_exp(self.h(), b.h(), m.h()) })
    }
    pub fn sqr(&self) -> Nat { n(op(MUL, self.h(), self.h())) }
    pub fn mul_karatsuba(&self, b: &Nat) -> Nat { n(op(MUL, self.h(), b.h())) }
    pub fn sqrt(&self) -> Nat { n(unsafe { vp_bn_missing() }) }
    fn words(&self) -> usize { (self.bits_len() + 31) >> 5 }
    fn random_inner<Rng: IterSource<u32>>(&self, rng: &mut Rng) -> Nat {
        let bits_len = self.bits_len();
        let (num, rem) = (self.words(), bits_len & 31);
        let mask = if rem == 0 { u32::MAX } else { (1u32 << rem) - 1 };
        let mut itr = rng.iter_mut();
        loop {
            let mut v: Vec<u8> = Vec::with_capacity(num * 4);
            let mut i = 0;
            while i < num {
                match itr.next() {
                    Some(x) => { i += 1; let x = if i == num { x & mask } else { x }; v.extend_from_slice(&x.to_le_bytes()) }
                    None => itr.clear_error(),
                }
            }
            let r = Nat::from_le_bytes(&v);
            if lt(r.h(), self.h()) { return r; }
        }
    }
    pub fn random<Rng: IterSource<u32>>(&self, rng: &mut Rng) -> Nat {
        if self.is_nan() || self == &0u32 { return Nat::nan(); }
        self.random_inner(rng)
    }
    pub fn probably_prime_test<Rng: IterSource<u32>>(&self, rounds: usize, rng: &mut Rng) -> bool {
        if self.is_nan() || self == &0u32 { return false; }
        if self < &128u32 { return unsafe { vp_bn_isprime(self.h()) } != 0; }
        // division by the primes below 54, then rounds + 1 Miller-Rabin bases drawn from the source
        for &p in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53].iter() {
            if self.clone() % p == 0u32 { return false; }
        }
        let m1 = self.clone() - 1u32;
        let t = m1.trailling_zeros();
        let e = m1.clone() >> t;
        for _ in 0..=rounds {
            let a = self.random_inner(rng);
            let mut x = a.exp(&e, self);
            for _ in 0..t {
                let y = x.sqr() % self.clone();
                if y == 1u32 && x != 1u32 && x != m1 { return false; }
                x = y;
            }
            if x != 1u32 { return false; }
        }
        unsafe { vp_bn_isprime(self.h()) != 0 }
    }
    pub fn generate_prime<Rng: IterSource<u32>>(bits_len: usize, rounds: usize, rng: &mut Rng) -> Result<Nat, NatError> {
        if bits_len < 2 { return Err(NatError::new(ParseErrKind::InvalidParameters, "")); }
        const SMALL: [u8; 15] = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53];
        let b = if (bits_len & 31) == 0 { 32 } else { bits_len & 31 };
        let len = (bits_len + 31) >> 5;
        loop {
            let mut p: Vec<u32> = rng.iter_mut().take(len).collect();
            if b != 32 { p[len - 1] &= (1u32 << b) - 1; }
            if b >= 2 { p[len - 1] |= 3 << (b - 2); } else { p[len - 1] |= 1; if len > 1 { p[len - 2] |= 0x80000000; } }
            p[0] |= 1;
            let mut p = Nat::from(p);
            let m = p.clone() % Nat::from(16294579238595022365u64);
            let m = unsafe { vp_bn_word(m.h(), 0) as u64 | (vp_bn_word(m.h(), 1) as u64) << 32 };
            'next: for delta in (0u64..(1u64 << 20)).step_by(2) {
                let m = m + delta;
                for &q in SMALL.iter() { if m % (q as u64) == 0 && (bits_len > 6 || m != q as u64) { continue 'next; } }
                if delta > 0 { p += delta as u32; }
                break;
            }
            if p.bits_len() == bits_len && p.probably_prime_test(rounds, rng) { return Ok(p); }
        }
    }
}
impl Default for Nat { fn default() -> Self { Nat::nan() } }
macro_rules! nat_basic { ($($t:ty),*) => { $(
    impl From<$t> for Nat { fn from(x: $t) -> Self { if std::mem::size_of::<$t>() <= 8 { n(u(x as u64)) } else { Nat::from_le_bytes(&x.to_le_bytes()) } } }
    impl PartialEq<$t> for Nat { fn eq(&self, o: &$t) -> bool { !self.is_nan() && eq(self.h(), Nat::from(*o).h()) } }
    impl PartialOrd<$t> for Nat {
        fn partial_cmp(&self, o: &$t) -> Option<Ordering> { self.partial_cmp(&Nat::from(*o)) }
        fn lt(&self, o: &$t) -> bool { *self < Nat::from(*o) }
        fn le(&self, o: &$t) -> bool { *self <= Nat::from(*o) }
        fn gt(&self, o: &$t) -> bool { *self > Nat::from(*o) }
        fn ge(&self, o: &$t) -> bool { *self >= Nat::from(*o) }
    }
)* } }
nat_basic!(u8, u16, u32, u64, u128, usize);
impl From<&[u32]> for Nat { fn from(x: &[u32]) -> Self { let mut v = Vec::with_capacity(x.len() * 4); for w in x { v.extend_from_slice(&w.to_le_bytes()) } Nat::from_le_bytes(&v) } }
impl From<Vec<u32>> for Nat { fn from(x: Vec<u32>) -> Self { Nat::from(x.as_slice()) } }
impl From<&Vec<u32>> for Nat { fn from(x: &Vec<u32>) -> Self { Nat::from(x.as_slice()) } }
impl From<&[u8]> for Nat { fn from(x: &[u8]) -> Self { Nat::from_le_bytes(x) } }
impl From<Vec<u8>> for Nat { fn from(x: Vec<u8>) -> Self { Nat::from_le_bytes(&x) } }
impl From<&Vec<u8>> for Nat { fn from(x: &Vec<u8>) -> Self { Nat::from_le_bytes(x) } }
impl FromStr for Nat {
    type Err = NatError;
    fn from_str(s: &str) -> Result<Self, NatError> {
        let h = unsafe { vp_bn_str(s.as_ptr(), s.len()) };
        if h == 0 { Err(NatError::new(ParseErrKind::IllegalCharEncounter, "")) } else { Ok(n(h)) }
    }
}
impl PartialEq for Nat { fn eq(&self, o: &Self) -> bool { if self.is_nan() || o.is_nan() { false } else { eq(self.h(), o.h()) } } }
impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() { None }
        else if lt(self.h(), o.h()) { Some(Ordering::Less) } else if eq(self.h(), o.h()) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
    fn lt(&self, o: &Self) -> bool { !self.is_nan() && !o.is_nan() && lt(self.h(), o.h()) }
    fn gt(&self, o: &Self) -> bool { !self.is_nan() && !o.is_nan() && lt(o.h(), self.h()) }
    fn le(&self, o: &Self) -> bool { !self.is_nan() && !o.is_nan() && !lt(o.h(), self.h()) }
    fn ge(&self, o: &Self) -> bool { !self.is_nan() && !o.is_nan() && !lt(self.h(), o.h()) }
}
macro_rules! nat_ops { ($(($T:ident, $TA:ident, $f:ident, $fa:ident, $op:expr)),*) => { $(
    impl $T<Nat> for Nat { type Output = Nat; fn $f(self, r: Nat) -> Nat { n(op($op, self.h(), r.h())) } }
    impl $TA<Nat> for Nat { fn $fa(&mut self, r: Nat) { self.set(op($op, self.h(), r.h())) } }
    impl $T<u32> for Nat { type Output = Nat; fn $f(self, r: u32) -> Nat { n(op($op, self.h(), u(r as u64))) } }
    impl $TA<u32> for Nat { fn $fa(&mut self, r: u32) { self.set(op($op, self.h(), u(r as u64))) } }
)* } }
nat_ops!((Add, AddAssign, add, add_assign, ADD), (Sub, SubAssign, sub, sub_assign, DIFF), (Mul, MulAssign, mul, mul_assign, MUL),
    (Div, DivAssign, div, div_assign, DIV), (Rem, RemAssign, rem, rem_assign, REM), (BitAnd, BitAndAssign, bitand, bitand_assign, AND),
    (BitOr, BitOrAssign, bitor, bitor_assign, OR), (BitXor, BitXorAssign, bitxor, bitxor_assign, XOR));
fn shl_(a: u64, k: usize) -> u64 { if a == 0 { 0 } else { unsafe { vp_bn_shl(a, k) } } }
fn shr_(a: u64, k: usize) -> u64 { if a == 0 { 0 } else { unsafe { vp_bn_shr(a, k) } } }
impl Shl<usize> for Nat { type Output = Nat; fn shl(self, k: usize) -> Nat { n(shl_(self.h(), k)) } }
impl ShlAssign<usize> for Nat { fn shl_assign(&mut self, k: usize) { self.set(shl_(self.h(), k)) } }
impl Shr<usize> for Nat { type Output = Nat; fn shr(self, k: usize) -> Nat { n(shr_(self.h(), k)) } }
impl ShrAssign<usize> for Nat { fn shr_assign(&mut self, k: usize) { self.set(shr_(self.h(), k)) } }
macro_rules! fmts { ($t:ty: $($T:ident),*) => { $( impl $T for $t { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unsafe { vp_bn_missing() }; f.write_str("") } } )* } }
fmts!(Nat: Display, Octal, LowerHex, UpperHex, Debug, Binary);
fmts!(BigInt: Display, Octal, LowerHex, UpperHex, Debug, Binary);

/// sign: 1 for negative; as in the original, a remainder of a negative number keeps its sign even if it is zero
#[derive(Clone)]
pub struct BigInt { nat: Nat, sign: u8 }
fn nz(h: u64) -> u8 { if h == 0 { 0 } else { 1 ^ unsafe { vp_bn_eq(h, vp_bn_u64(0)) } } }
impl BigInt {
    pub fn deep_clone(&self) -> Self { Self { nat: self.nat.deep_clone(), sign: self.sign } }
    fn h(&self) -> u64 { self.nat.h() }
    fn nan() -> BigInt { BigInt { nat: Nat::nan(), sign: 0 } }
    pub fn is_nan(&self) -> bool { self.nat.is_nan() }
    pub fn is_negative(&self) -> bool { !self.is_nan() && self.sign != 0 }
    pub fn is_positive(&self) -> bool { !self.is_nan() && (self.sign | (1 ^ nz(self.h()))) == 0 }
    pub fn is_natural(&self) -> bool { !self.is_nan() && self.sign == 0 }
    pub fn set_natural(&mut self) { if !self.is_nan() { self.sign = 0; } }
    pub fn set_negative(&mut self) { if !self.is_nan() { self.sign |= nz(self.h()); } }
    pub fn signnum(&self) -> Option<isize> {
        if self.is_nan() { None } else if self.sign != 0 { Some(-1) } else { Some(nz(self.h()) as isize) }
    }
    pub fn abs(&self) -> BigInt { BigInt { nat: self.nat.deep_clone(), sign: 0 } }
    pub fn copy_to_le(&self, dst: &mut Vec<u8>) { self.nat.copy_to_le(dst) }
    pub fn to_le_bytes(&self) -> Vec<u8> { self.nat.to_le_bytes() }
    pub fn copy_to_be(&self, dst: &mut Vec<u8>) { self.nat.copy_to_be(dst) }
    pub fn to_be_bytes(&self) -> Vec<u8> { self.nat.to_be_bytes() }
    pub fn from_le_bytes(data: &[u8]) -> BigInt { BigInt { nat: Nat::from_le_bytes(data), sign: 0 } }
    pub fn from_be_bytes(data: &[u8]) -> BigInt { BigInt { nat: Nat::from_be_bytes(data), sign: 0 } }
    pub fn rem_euclid(&self, n: BigInt) -> BigInt { let mut b = self.deep_clone(); b.rem_euclid_inner(n); b }
    pub fn rem_euclid_assign(&mut self, n: BigInt) { self.rem_euclid_inner(n) }
    fn rem_euclid_inner(&mut self, m: BigInt) {
        self.rem_inner(m.clone());
        if self.is_nan() { return; }
        // a negative remainder (including a negative zero) becomes | |m| - r |
        let neg = self.sign;
        let d = op(DIFF, m.h(), self.h());
        self.nat.set(unsafe { vp_bn_sel(neg, d, self.h()) });
        self.sign = 0;
    }
    pub fn div_euclid(&self, n: BigInt) -> BigInt { let mut b = self.deep_clone(); b.div_euclid_assign(n); b }
    pub fn div_euclid_assign(&mut self, m: BigInt) {
        let r = self.clone() % m.clone();
        let pos = m.is_positive();
        self.div_inner(m);
        if r.is_negative() { if pos { self.sub_inner(BigInt::from(1u32)) } else { self.add_inner(BigInt::from(1u32)) } }
    }
    pub fn gcd(&self, other: Self) -> (BigInt, BigInt, BigInt) {
        if self.is_nan() || other.is_nan() { return (BigInt::nan(), BigInt::nan(), BigInt::nan()); }
        if self == &0u32 && other == 0u32 { return (BigInt::from(0), BigInt::from(0), BigInt::from(0)); }
        if self == &0u32 { return (other.abs(), BigInt::from(0), if other.is_negative() { BigInt::from(-1) } else { BigInt::from(1) }); }
        if other == 0u32 { return (self.abs(), if self.is_negative() { BigInt::from(-1) } else { BigInt::from(1) }, BigInt::from(0)); }
        let (d, mut x, mut y) = BigInt::gcd_extend(self.abs(), other.abs());
        if self.is_negative() { x.neg_inner() }
        if other.is_negative() { y.neg_inner() }
        (d, x, y)
    }
    fn gcd_extend(lhs: BigInt, rhs: BigInt) -> (BigInt, BigInt, BigInt) {
        if rhs == 0u32 { return (lhs, BigInt::from(1), BigInt::from(0)); }
        let rem = lhs.clone() % rhs.clone();
        let div = lhs / rhs.clone();
        let (d, x, y) = BigInt::gcd_extend(rhs, rem);
        (d, y.deep_clone(), x - div * y)
    }
    pub fn mod_inverse(&self, other: BigInt) -> BigInt {
        if self.is_nan() || other.is_nan() { return BigInt::nan(); }
        let m = other.abs();
        let g = if self.is_negative() { self.rem_euclid(m.clone()) } else { self.clone() };
        BigInt { nat: n(unsafe { vp_bn_inv(g.h(), m.h()) }), sign: 0 }
    }
    pub fn solve_mod_linear_equation(&self, _b: BigInt, _n: BigInt) -> Option<Vec<BigInt>> { unsafe { vp_bn_missing() }; None }
    fn addsub(&mut self, r: Self, flip: u8) {
        let (a, b) = (self.h(), r.h());
        if a == 0 || b == 0 { self.nat.set(0); self.sign = 0; return; }
        let opp = self.sign ^ r.sign ^ flip;
        let less = unsafe { vp_bn_lt(a, b) };
        let s = self.sign ^ (opp & less);
        let h = unsafe { vp_bn_sel(opp, op(DIFF, a, b), op(ADD, a, b)) };
        self.nat.set(h);
        self.sign = s & nz(h);
    }
    fn add_inner(&mut self, r: Self) { self.addsub(r, 0) }
    fn sub_inner(&mut self, r: Self) { self.addsub(r, 1) }
    fn mul_inner(&mut self, r: Self) {
        let h = op(MUL, self.h(), r.h());
        self.nat.set(h);
        self.sign = (self.sign ^ r.sign) & nz(h);
    }
    fn div_inner(&mut self, r: Self) {
        assert!(r.nat != 0u32, "The divisor cannot be the 0");
        self.sign = (self.sign ^ r.sign) & nz(self.h());
        self.nat.set(op(DIV, self.h(), r.h()));
    }
    fn rem_inner(&mut self, r: Self) {
        assert!(r.nat != 0u32, "the modulus can't be the 0");
        self.nat.set(op(REM, self.h(), r.h()));
    }
    fn nat_only(&mut self, r: &Self) { if self.sign != 0 || r.sign != 0 { unsafe { vp_bn_missing() }; } }
    fn bitand_inner(&mut self, r: Self) { self.nat_only(&r); self.nat &= r.nat }
    fn bitor_inner(&mut self, r: Self) { self.nat_only(&r); self.nat |= r.nat }
    fn bitxor_inner(&mut self, r: Self) { self.nat_only(&r); self.nat ^= r.nat }
    pub fn and_not(self, r: BigInt) -> BigInt { let mut l = self.deep_clone(); l.and_not_assign(r); l }
    pub fn and_not_assign(&mut self, r: BigInt) { self.nat_only(&r); self.nat.and_not_assign(r.nat) }
    fn neg_inner(&mut self) { if !self.is_nan() { self.sign = (self.sign ^ 1) & nz(self.h()) | self.sign & (1 ^ nz(self.h())); } }
    fn shl_inner(&mut self, k: usize) { self.nat <<= k }
    fn shr_inner(&mut self, k: usize) {
        if self.sign != 0 { self.nat -= 1u32; self.nat >>= k; self.nat += 1u32; self.sign = if self.is_nan() { 0 } else { 1 }; } else { self.nat >>= k }
    }
    pub fn mul_range(_a: i64, _b: i64) -> BigInt { unsafe { vp_bn_missing() }; BigInt::nan() }
    pub fn binomial(_n: i64, _k: i64) -> BigInt { unsafe { vp_bn_missing() }; BigInt::nan() }
    pub fn exp(&self, b: &BigInt, m: &BigInt) -> BigInt {
        if self.is_nan() || b.is_nan() || m.is_nan() { return BigInt::nan(); }
        let mut x = self.nat.clone();
        if b.is_negative() {
            if m == &0u32 { return BigInt::from(1u32); }
            x = self.mod_inverse(m.clone()).nat;
        }
        let e = x.exp(&b.nat, &m.nat);
        if self.is_negative() { unsafe { vp_bn_missing() }; }
        BigInt { nat: e, sign: 0 }
    }
    pub fn is_set_bit(&self, i: usize) -> Option<bool> { if self.sign != 0 { unsafe { vp_bn_missing() }; } self.nat.is_set_bit(i) }
    pub fn bits_len(&self) -> usize { self.nat.bits_len() }
    pub fn random<Rng: IterSource<u32>>(&self, rng: &mut Rng) -> BigInt {
        if self.is_nan() || self == &0u32 { return BigInt::nan(); }
        let r = self.nat.random(rng);
        let s = self.sign & nz(r.h());
        BigInt { nat: r, sign: s }
    }
    pub fn jacobi(&self, _b: &BigInt) -> Option<isize> { unsafe { vp_bn_missing() }; None }
    pub fn sqr(&self) -> BigInt { BigInt { nat: self.nat.sqr(), sign: 0 } }
    pub fn mod_sqrt(&self, _p: &BigInt) -> Option<BigInt> { unsafe { vp_bn_missing() }; None }
    pub fn sqrt(&self) -> BigInt { BigInt { nat: self.nat.sqrt(), sign: 0 } }
    #[allow(unused)]
    fn gcd_nat(&self, o: &BigInt) -> u64 { op(GCD, self.h(), o.h()) }
}
macro_rules! big_basic { ($($t:ty),*) => { $( impl From<$t> for BigInt { fn from(x: $t) -> Self { BigInt { nat: Nat::from(x), sign: 0 } } } )* } }
big_basic!(u8, u16, u32, u64, u128, usize, Vec<u8>, &Vec<u8>, &[u8], Vec<u32>, &Vec<u32>, &[u32]);
macro_rules! big_signed { ($($t:ty),*) => { $( impl From<$t> for BigInt { fn from(x: $t) -> Self { BigInt { nat: Nat::from((x as i128).unsigned_abs()), sign: (x < 0) as u8 } } } )* } }
big_signed!(i8, i16, i32, i64, isize, i128);
impl From<Nat> for BigInt { fn from(x: Nat) -> Self { BigInt { nat: x.deep_clone(), sign: 0 } } }
impl FromStr for BigInt {
    type Err = NatError;
    fn from_str(s: &str) -> Result<Self, NatError> {
        let neg = s.as_bytes().first() == Some(&b'-');
        let nat = Nat::from_str(if neg { &s[1..] } else { s })?;
        let sign = (neg as u8) & nz(nat.h());
        Ok(BigInt { nat, sign })
    }
}
impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { let mut b = self.deep_clone(); b.neg_inner(); b } }
impl PartialEq for BigInt { fn eq(&self, o: &Self) -> bool { if self.is_nan() || o.is_nan() { return false; } ((self.sign ^ o.sign ^ 1) & unsafe { vp_bn_eq(self.h(), o.h()) }) != 0 } }
impl PartialEq<u32> for BigInt { fn eq(&self, o: &u32) -> bool { if self.is_nan() { return false; } ((self.sign ^ 1) & unsafe { vp_bn_eq(self.h(), u(*o as u64)) }) != 0 } }
/// a < b with the sign compared first
fn blt(a: &BigInt, b: &BigInt) -> bool {
    if a.is_nan() || b.is_nan() { return false; }
    let (l, g) = unsafe { (vp_bn_lt(a.h(), b.h()), vp_bn_lt(b.h(), a.h())) };
    let same = a.sign ^ b.sign ^ 1;
    ((a.sign & (b.sign ^ 1)) | (same & (a.sign ^ 1) & l) | (same & a.sign & g)) != 0
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() { None }
        else if blt(self, o) { Some(Ordering::Less) } else if blt(o, self) { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
    }
    fn lt(&self, o: &Self) -> bool { blt(self, o) }
    fn gt(&self, o: &Self) -> bool { blt(o, self) }
    fn le(&self, o: &Self) -> bool { !self.is_nan() && !o.is_nan() && !blt(o, self) }
    fn ge(&self, o: &Self) -> bool { !self.is_nan() && !o.is_nan() && !blt(self, o) }
}
macro_rules! big_ops { ($(($R:ty, $T:ident, $TA:ident, $f:ident, $fa:ident, $i:ident)),*) => { $(
    impl $T<$R> for BigInt { type Output = BigInt; fn $f(self, r: $R) -> BigInt { let mut l = self.deep_clone(); l.$i(r); l } }
    impl $TA<$R> for BigInt { fn $fa(&mut self, r: $R) { self.$i(r) } }
)* } }
big_ops!((BigInt, Add, AddAssign, add, add_assign, add_inner), (BigInt, Sub, SubAssign, sub, sub_assign, sub_inner),
    (BigInt, Mul, MulAssign, mul, mul_assign, mul_inner), (BigInt, Div, DivAssign, div, div_assign, div_inner),
    (BigInt, Rem, RemAssign, rem, rem_assign, rem_inner), (BigInt, BitAnd, BitAndAssign, bitand, bitand_assign, bitand_inner),
    (BigInt, BitOr, BitOrAssign, bitor, bitor_assign, bitor_inner), (BigInt, BitXor, BitXorAssign, bitxor, bitxor_assign, bitxor_inner),
    (usize, Shl, ShlAssign, shl, shl_assign, shl_inner), (usize, Shr, ShrAssign, shr, shr_assign, shr_inner));
impl AsRef<Nat> for BigInt { fn as_ref(&self) -> &Nat { &self.nat } }
impl AsRef<[u32]> for Nat {
    fn as_ref(&self) -> &[u32] {
        let v: Vec<u32> = (0..self.words()).map(|i| unsafe { vp_bn_word(self.h(), i) }).collect();
        Box::leak(v.into_boxed_slice())
    }
}
