//! modes of operation over an arbitrary block cipher
use crate::vp::*;
use rcrypto::cipher_mode::*;
use rcrypto::{Cipher, CryptoError};
use rmath::rand::{RandErrKind, RandError, Seed, Source};

const ECB_: usize = 0;
const CBC_: usize = 1;
const CFB_: usize = 2;
const OFB_: usize = 3;
const CTR_: usize = 4;

#[derive(Clone)]
pub struct Iv(Vec<u8>);
impl InitialVec<AnyCipher> for Iv {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        iv.clear();
        iv.extend_from_slice(&self.0);
        Ok(())
    }
}

// ---- reference (SP 800-38A) ----
fn padded(m: &[u8], b: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % b != 0 { v.push(0); }
    v
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b.iter()).map(|(x, y)| x ^ y).collect() }
/// start + i as a big-endian number of that many bytes
fn plus(start: &[u8], i: usize) -> Vec<u8> {
    let mut v = start.to_vec();
    let mut c = i as u32;
    for x in v.iter_mut().rev() {
        c += *x as u32;
        *x = c as u8;
        c >>= 8;
    }
    v
}
/// encrypt (dir 0) or decrypt (dir 1) data that is already padded
fn reference(mode: usize, dir: usize, c: &AnyCipher, iv: &[u8], s: usize, x: &[u8]) -> Vec<u8> {
    let b = c.block;
    let mut r = Vec::new();
    let mut i = iv.to_vec();
    let unit = if mode == CFB_ { s } else { b };
    for (n, t) in x.chunks(unit).enumerate() {
        match mode {
            ECB_ => r.extend(if dir == 0 { c.e(t) } else { c.d(t) }),
            CBC_ => {
                if dir == 0 { i = c.e(&xor(t, &i)); r.extend_from_slice(&i); }
                else { r.extend(xor(&c.d(t), &i)); i = t.to_vec(); }
            }
            CFB_ => {
                let y = xor(t, &c.e(&i)[..s]);
                r.extend_from_slice(&y);
                i = i[s..].to_vec();
                i.extend_from_slice(if dir == 0 { &y } else { t });
            }
            OFB_ => { i = c.e(&i); r.extend(xor(t, &i)); }
            _ => r.extend(xor(t, &c.e(&plus(iv, n)))),
        }
    }
    r
}

/// the mode object, with either padding
enum M {
    E0(ECB<AnyCipher, EmptyPadding>),
    E1(ECB<AnyCipher, DefaultPadding<AnyCipher>>),
    B0(CBC<AnyCipher, EmptyPadding, Iv>),
    B1(CBC<AnyCipher, DefaultPadding<AnyCipher>, Iv>),
    F0(CFB<AnyCipher, EmptyPadding, Iv>),
    F1(CFB<AnyCipher, DefaultPadding<AnyCipher>, Iv>),
    O(OFB<AnyCipher, Iv>),
    T(CTR<AnyCipher, DefaultCounter>),
}
macro_rules! all { ($m: expr, $x: ident => $e: expr) => { match $m { M::E0($x) => $e, M::E1($x) => $e, M::B0($x) => $e, M::B1($x) => $e, M::F0($x) => $e, M::F1($x) => $e, M::O($x) => $e, M::T($x) => $e } } }
fn ok<T>(r: Result<T, CryptoError>) -> T { match r { Ok(x) => x, Err(_) => { check(false, 90); panic!("refused") } } }
fn make(mode: usize, pad: usize, c: &AnyCipher, iv: &[u8], s: usize) -> M {
    let c = c.clone();
    let p = DefaultPadding::new(&c);
    let b = c.block;
    let i = Iv(iv.to_vec());
    match (mode, pad) {
        (ECB_, 0) => M::E0(ECB::new(c, EmptyPadding::new())),
        (ECB_, _) => M::E1(ECB::new(c, p)),
        (CBC_, 0) => M::B0(ok(CBC::new(c, EmptyPadding::new(), i))),
        (CBC_, _) => M::B1(ok(CBC::new(c, p, i))),
        (CFB_, 0) => M::F0(ok(CFB::new(c, EmptyPadding::new(), i, s * 8))),
        (CFB_, _) => M::F1(ok(CFB::new(c, p, i, s * 8))),
        (OFB_, _) => M::O(ok(OFB::new(c, i))),
        _ => M::T(ok(CTR::new(c, ok(DefaultCounter::new(iv.to_vec(), b * 8))))),
    }
}
impl M {
    fn enc(&self, o: &mut Vec<u8>, x: &[u8]) -> Result<usize, CryptoError> { all!(self, m => m.encrypt(o, x)) }
    fn dec(&self, o: &mut Vec<u8>, x: &[u8]) -> Result<usize, CryptoError> { all!(self, m => m.decrypt(o, x)) }
    fn dup(&self) -> M {
        match self { M::E0(m) => M::E0(m.clone()), M::E1(m) => M::E1(m.clone()), M::B0(m) => M::B0(m.clone()), M::B1(m) => M::B1(m.clone()),
            M::F0(m) => M::F0(m.clone()), M::F1(m) => M::F1(m.clone()), M::O(m) => M::O(m.clone()), M::T(m) => M::T(m.clone()) }
    }
}
fn unit(mode: usize, b: usize, s: usize) -> usize { if mode == CFB_ { s } else if mode < CFB_ { b } else { 1 } }
fn prep(mode: usize, pad: usize, b: usize, s: usize, m: &[u8]) -> Vec<u8> {
    // the trailing part of the message is padded to the cipher block
    if pad == 0 || mode > CFB_ { return m.to_vec(); }
    let keep = m.len() - m.len() % unit(mode, b, s);
    let mut v = m[..keep].to_vec();
    v.extend(padded(&m[keep..], b));
    v
}
fn start(mode: usize, b: usize) -> Vec<u8> {
    if mode == CTR_ {
        // a counter shorter than the block is extended with zeros in front
        let k = choose(param(6), b);
        let mut v = vec![0u8; b - k];
        v.extend(sym(k));
        v
    } else { sym(b) }
}

/// params 0 mode, 1 block, 2..3 length, 4 padding, 5 segment, 6 shortest counter
pub fn h_mode_enc() {
    let (mode, b, pad, s) = (param(0), param(1), param(4), param(5));
    let n = choose(param(2), param(3));
    let c = AnyCipher::new(0, b);
    let iv = start(mode, b);
    let m = sym(n);
    let x = make(mode, pad, &c, &iv, s);
    let x = if choose(0, 1) == 1 { x.dup() } else { x };
    let y = x.dup();
    let mut o = vec![1u8, 2, 3];
    let r = x.enc(&mut o, &m);
    if pad == 0 && n % unit(mode, b, s) != 0 {
        check(r.is_err(), 3);
        return;
    }
    let want = reference(mode, 0, &c, &iv, s, &prep(mode, pad, b, s, &m));
    check(r.ok() == Some(want.len()), 1);
    same(&o, &want, 1);
    out(&o);
    let mut p = vec![9u8; 2];
    check(y.dec(&mut p, &o).ok() == Some(n), 2);
    same(&p, &m, 2);
    // a second message on the same object
    if mode != CTR_ {
        let m2 = sym(b);
        ok(x.enc(&mut o, &m2));
        same(&o, &reference(mode, 0, &c, &iv, s, &prep(mode, pad, b, s, &m2)), 4);
        ok(x.dec(&mut p, &o));
        same(&p, &m2, 5);
    } else {
        let m2 = sym(b + 1);
        ok(x.enc(&mut o, &m2));
        same(&o, &reference(mode, 0, &c, &plus(&iv, (n + b - 1) / b), s, &m2), 4);
        // decryption of the pieces in the same order
        ok(y.dec(&mut p, &o));
        same(&p, &m2, 5);
    }
}

/// last byte of the plaintext that is not zero, if it is the padding marker
fn unpadded(p: &[u8]) -> Option<usize> {
    let mut i = p.len();
    while i > 0 {
        i -= 1;
        if decide(p[i] == 0) { continue; }
        return if decide(p[i] == 0x80) { Some(i) } else { None };
    }
    None
}

/// one-shot decryption of an arbitrary ciphertext
pub fn h_mode_dec() {
    let (mode, b, pad, s) = (param(0), param(1), param(4), param(5));
    let n = choose(param(2), param(3));
    let c = AnyCipher::new(0, b);
    let iv = start(mode, b);
    let t = sym(n);
    let x = make(mode, pad, &c, &iv, s);
    let mut o = vec![1u8, 2, 3];
    let r = x.dec(&mut o, &t);
    if n % unit(mode, b, s) != 0 { check(r.is_err(), 3); return; }
    let p = reference(mode, 1, &c, &iv, s, &t);
    if pad == 0 || mode > CFB_ {
        check(r.ok() == Some(n), 1);
        same(&o, &p, 1);
        out(&o);
        return;
    }
    match unpadded(&p) {
        Some(k) => {
            // a padding longer than a block is never produced; either answer is accepted for it
            if n - k > b && r.is_err() { return; }
            check(r.ok() == Some(k), 2);
            same(&o, &p[..k], 2);
            out(&o);
        }
        None => check(r.is_err(), 4),
    }
}

// ---- streams ----
trait S {
    fn w(&mut self, x: &[u8], draw: bool, o: &mut Vec<u8>) -> bool;
    fn f(&mut self, o: &mut Vec<u8>) -> bool;
    fn again(&mut self);
}
macro_rules! stream { ($t: ident < $($g: ident),* >, $tr: ident, [$($w: tt)*]) => {
    impl<$($g),*> S for $t<$($g),*> where $($w)* {
        fn w(&mut self, x: &[u8], draw: bool, o: &mut Vec<u8>) -> bool {
            match $tr::write(self, x) { Ok(p) => { if draw { let n = o.len(); let k = p.draw_off(o); check(o.len() == n + k, 80); } true } Err(_) => false }
        }
        fn f(&mut self, o: &mut Vec<u8>) -> bool {
            match $tr::finish(self) { Ok(p) => { let n = o.len(); let k = p.draw_off(o); check(o.len() == n + k, 81); true } Err(_) => false }
        }
        fn again(&mut self) { self.reset() }
    }
} }
stream!(ECBEncrypt<C, P>, EncryptStream, [C: Cipher, P: 'static + Padding]);
stream!(ECBDecrypt<C, P>, DecryptStream, [C: Cipher, P: 'static + Padding]);
stream!(CBCEncrypt<C, P, I>, EncryptStream, [C: Cipher, P: 'static + Padding, I: InitialVec<C>]);
stream!(CBCDecrypt<C, P, I>, DecryptStream, [C: Cipher, P: 'static + Padding, I: InitialVec<C>]);
stream!(CFBEncrypt<C, P, I>, EncryptStream, [C: Cipher, P: 'static + Padding, I: InitialVec<C>]);
stream!(CFBDecrypt<C, P, I>, DecryptStream, [C: Cipher, P: 'static + Padding, I: InitialVec<C>]);
stream!(OFBEncrypt<C, I>, EncryptStream, [C: Cipher, I: InitialVec<C>]);
stream!(OFBDecrypt<C, I>, DecryptStream, [C: Cipher, I: InitialVec<C>]);
stream!(CTREncrypt<C, T>, EncryptStream, [C: Cipher, T: Counter]);
stream!(CTRDecrypt<C, T>, DecryptStream, [C: Cipher, T: Counter]);

fn go(m: M, dir: usize, f: &mut dyn FnMut(&mut dyn S)) {
    if dir == 0 { all!(m, x => f(&mut x.encrypt_stream())) } else { all!(m, x => f(&mut x.decrypt_stream())) }
}

/// params as above, 7: three chunks instead of two, 8: direction
pub fn h_stream() {
    let (mode, b, pad, s, dir) = (param(0), param(1), param(4), param(5), param(8));
    let n = choose(param(2), param(3));
    let before = choose(0, 3);
    let c = AnyCipher::new(0, b);
    let iv = start(mode, b);
    let x = make(mode, pad, &c, &iv, s);
    let m = sym(n);
    let fits = n % unit(mode, b, s) == 0 || (pad == 1 && mode <= CFB_);
    // what goes in and what has to come out
    let mut used = 0;
    let whole = |at: usize, m: &[u8]| -> (Vec<u8>, Vec<u8>) {
        let p = prep(mode, pad, b, s, m);
        let iv = if mode == CTR_ { plus(&iv, at) } else { iv.clone() };
        let t = reference(mode, 0, &c, &iv, s, &p);
        if dir == 0 { (m.to_vec(), t) } else { (t, m.to_vec()) }
    };
    go(x, dir, &mut |st: &mut dyn S| {
        if before == 1 {
            // something unfinished, then reset
            let j = sym(b + 1);
            let mut d = Vec::new();
            st.w(&j, false, &mut d);
            st.again();
        } else if before > 1 {
            // a complete earlier message, drawn off or not
            let j = sym(if pad == 1 { b + 1 } else { 2 * b });
            let (i, w) = whole(0, &j);
            let mut d = Vec::new();
            check(st.w(&i, before == 2, &mut d), 10);
            check(st.f(&mut d), 11);
            same(&d, &w, 12);
            used = (j.len() + b - 1) / b;
        }
        if !fits {
            // not a whole number of units and no padding: refused at the end, never accepted
            let mut d = Vec::new();
            let i = choose(0, n);
            let mut good = st.w(&m[..i], true, &mut d);
            good = good && st.w(&m[i..], true, &mut d);
            good = good && st.f(&mut d);
            check(!good, 13);
            return;
        }
        let (inp, want) = whole(used, &m);
        let l = inp.len();
        let i = choose(0, l);
        let j = if param(7) == 1 { choose(i, l) } else { i };
        let draw = choose(0, 1) == 1;
        let mut o = Vec::new();
        check(st.w(&inp[..i], draw, &mut o), 14);
        if param(7) == 1 { check(st.w(&inp[i..j], draw, &mut o), 14); }
        check(st.w(&inp[j..], draw, &mut o), 14);
        check(st.f(&mut o), 15);
        same(&o, &want, 16);
        out(&o);
    });
}

/// a decryption stream fed an arbitrary ciphertext: what one-shot decryption would say
pub fn h_stream_any() {
    let (mode, b, pad, s) = (param(0), param(1), param(4), param(5));
    let n = choose(param(2), param(3));
    let c = AnyCipher::new(0, b);
    let iv = start(mode, b);
    let t = sym(n);
    let x = make(mode, pad, &c, &iv, s);
    let i = choose(0, n);
    let draw = choose(0, 1) == 1;
    go(x, 1, &mut |st: &mut dyn S| {
        let mut o = Vec::new();
        let mut r = st.w(&t[..i], draw, &mut o);
        r = r && st.w(&t[i..], draw, &mut o);
        r = r && st.f(&mut o);
        if n % unit(mode, b, s) != 0 { check(!r, 3); return; }
        let p = reference(mode, 1, &c, &iv, s, &t);
        if pad == 0 || mode > CFB_ { check(r, 1); same(&o, &p, 1); out(&o); return; }
        match unpadded(&p) {
            Some(k) => {
                if n - k > b && !r { return; }
                check(r, 2);
                same(&o, &p[..k], 2);
                out(&o);
            }
            None => check(!r, 4),
        }
    });
}

/// padding on its own: params 1 block, 2..3 length
pub fn h_pad() {
    let b = param(1);
    let n = choose(param(2), param(3));
    let m = sym(n);
    let p = DefaultPadding::new(&AnyCipher::new(0, b));
    let mut v = m.clone();
    p.padding(&mut v);
    same(&v, &padded(&m, b), 1);
    out(&v);
    check(p.unpadding(&mut v).ok() == Some(n), 2);
    same(&v, &m, 2);
    let e = EmptyPadding::new();
    e.padding(&mut v);
    same(&v, &m, 3);
    check(e.unpadding(&mut v).ok() == Some(n), 4);
    same(&v, &m, 4);
}
/// removal of padding from arbitrary data
pub fn h_unpad() {
    let b = param(1);
    let n = choose(param(2), param(3));
    let m = sym(n);
    let p = DefaultPadding::new(&AnyCipher::new(0, b));
    let mut v = m.clone();
    let r = p.unpadding(&mut v);
    match unpadded(&m) {
        Some(k) => {
            if n - k > b && r.is_err() { same(&v, &m, 5); return; }
            check(r.ok() == Some(k), 1);
            same(&v, &m[..k], 2);
        }
        None => { check(r.is_err(), 3); same(&v, &m, 4); }
    }
    out(&v);
}

/// a random source that yields the given words and then fails
#[derive(Clone)]
struct Words(Vec<u32>, usize);
impl Source<u32> for Words {
    fn gen(&mut self) -> Result<u32, RandError> {
        self.1 += 1;
        match self.0.get(self.1 - 1) { Some(&x) => Ok(x), None => Err(RandError::new(RandErrKind::InnerErr, "")) }
    }
    fn reset<Sd: Seed<u32>>(&mut self, _: &Sd) -> Result<(), RandError> { Ok(()) }
}
/// initial vectors: taken from the source, replaced on request, wrong lengths refused; params 0 mode, 1 block
pub fn h_iv() {
    let (mode, b) = (param(0), param(1));
    let c = AnyCipher::new(0, b);
    let need = (b + 3) / 4;
    let have = choose(0, 2 * need);
    let w: Vec<u32> = (0..have).map(|_| sym_u32()).collect();
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect();
    let src = DefaultInitialVec::new(&c, Words(w, 0));
    let m = sym(b);
    let k = choose(b - 1, b + 1);
    let z = sym(k);
    macro_rules! run { ($e: expr) => { match $e {
        Ok(mut x) => {
            check(have >= need, 1);
            same(&x.cur_iv(), &bytes[..b], 2);
            let mut o = Vec::new();
            check(x.encrypt(&mut o, &m).is_ok(), 3);
            same(&o, &reference(mode, 0, &c, &bytes[..b], b, &m), 3);
            out(&o);
            if have == 2 * need {
                let good = x.update_iv().is_ok();
                check(good, 4);
                same(&x.cur_iv(), &bytes[4 * need..4 * need + b], 4);
                let good = x.set_iv(z.clone()).is_ok();
                check(good == (k == b), 5);
                let now: &[u8] = if k == b { &z } else { &bytes[4 * need..4 * need + b] };
                same(&x.cur_iv(), now, 6);
                check(x.encrypt(&mut o, &m).is_ok(), 7);
                same(&o, &reference(mode, 0, &c, now, b, &m), 7);
            } else { check(x.update_iv().is_err(), 8); }
        }
        Err(_) => check(have < need, 1),
    } } }
    match mode {
        CBC_ => run!(CBC::new(c.clone(), EmptyPadding::new(), src)),
        CFB_ => run!(CFB::new(c.clone(), EmptyPadding::new(), src, b * 8)),
        _ => run!(OFB::new(c.clone(), src)),
    }
}
/// parameters a mode has to refuse
pub fn h_mode_new() {
    let b = param(1);
    let c = AnyCipher::new(0, b);
    let k = choose(0, b + 1);
    let iv = Iv(sym(k));
    check(CBC::new(c.clone(), EmptyPadding::new(), iv.clone()).is_ok() == (k == b), 1);
    check(OFB::new(c.clone(), iv.clone()).is_ok() == (k == b), 2);
    let s = choose(0, 8 * b + 8);
    let legal = s % 8 == 0 && s >= 8 && s <= 8 * b;
    check(CFB::new(c.clone(), EmptyPadding::new(), iv, s).is_ok() == (k == b && legal), 3);
    match DefaultCounter::new(sym(k), s) {
        Ok(t) => { check((s + 7) / 8 >= k, 4); check(CTR::new(c, t).is_ok() == (s >= 8 * b), 5); }
        Err(_) => check((s + 7) / 8 < k, 4),
    }
}
