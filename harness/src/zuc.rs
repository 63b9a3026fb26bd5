//! ZUC keystream, 128-EEA3 and 128-EIA3 for every key, counter, bearer and direction
use crate::vp::*;
use rcrypto::{Cipher, Digest, ZUCCipher, ZUCMac, ZUC};

fn arr() -> [u8; 16] { let mut k = [0u8; 16]; fill(&mut k); k }

/// param 0: how the generator was made (0 new, 1 slices, 2 set on a used one, 3 a clone), 1: words
pub fn h_zuc() {
    let (k, iv) = (arr(), arr());
    let n = param(1);
    let mut z = match param(0) {
        0 => ZUC::new(k, iv),
        1 => ZUC::from_slice(&k, &iv).ok().unwrap(),
        2 => { let mut z = ZUC::new([3; 16], [4; 16]); z.zuc(); z.set(k, iv); z }
        3 => { let mut z = ZUC::new([3; 16], [4; 16]); z.zuc(); check(z.set_slice(&k, &iv).is_ok(), 3); z }
        _ => ZUC::new(k, iv).clone(),
    };
    let mut o = Vec::new();
    for i in 0..n {
        let w = if i & 1 == 0 { z.zuc() } else { z.next().unwrap() };
        o.extend_from_slice(&w.to_be_bytes());
        if i == 1 && param(0) > 3 { z = z.clone() }
    }
    arg(&k); arg(&iv); argn(n);
    let r = spec(20, 4 * n);
    same(&o, &r, 1);
    out(&o);
}

/// keys and vectors of every length
pub fn h_zuc_len() {
    let (a, b) = (choose(14, 18), choose(14, 18));
    let (k, iv) = (sym(a), sym(b));
    check(ZUC::from_slice(&k, &iv).is_ok() == (a == 16 && b == 16), 1);
    let mut z = ZUC::new([3; 16], [4; 16]);
    let mut y = z.clone();
    let r = z.set_slice(&k, &iv);
    check(r.is_ok() == (a == 16 && b == 16), 2);
    if r.is_err() { check(z.zuc() == y.zuc(), 3) }
    check(ZUCCipher::from_slice(1, 2, true, &k).is_ok() == (a == 16), 4);
    check(ZUCMac::from_slice(1, 2, true, &k).is_ok() == (a == 16), 5);
}

struct Par { count: u32, bearer: u8, dir: bool, ck: [u8; 16] }
fn par() -> Par {
    let p = Par { count: sym_u32(), bearer: sym_u8(), dir: sym_u8() & 1 == 1, ck: arr() };
    assume(p.bearer < 32);
    p
}
fn reference(id: usize, p: &Par, m: &[u8], cap: usize) -> Vec<u8> {
    arg(&p.count.to_le_bytes()); arg(&[p.bearer]); arg(&[p.dir as u8]); arg(&p.ck); arg(m);
    spec(id, cap)
}

/// `calls` messages of param 1..=param 2 bytes each on one object: together they are encrypted with one keystream
pub fn h_eea3() {
    let p = par();
    let c = if choose(0, 1) == 0 { ZUCCipher::new(p.count, p.bearer, p.dir, p.ck) } else { ZUCCipher::from_slice(p.count, p.bearer, p.dir, &p.ck).ok().unwrap() };
    let mut c = c;
    let (mut m, mut o) = (Vec::new(), Vec::new());
    let mut reset = choose(0, 1) == 1;
    for i in 0..param(0) {
        let n = choose(param(1), param(2));
        let d = sym(n);
        let mut x = vec![9u8; i];
        let dec = i & 1 == 1;
        match if dec { c.decrypt(&mut x, &d) } else { c.encrypt(&mut x, &d) } {
            Ok(l) => check(l == n && x.len() == n, 2),
            Err(_) => check(false, 3),
        }
        if reset && i == 0 { c.reset(); reset = false; if choose(0, 1) == 1 { c = c.clone() } continue; }
        m.extend_from_slice(&d);
        o.extend_from_slice(&x);
        if i == 0 && choose(0, 1) == 1 { c = c.clone() }
    }
    let r = reference(21, &p, &m, m.len());
    same(&o, &r, 1);
    out(&o);
}

/// what one object encrypted, another decrypts
pub fn h_eea3_round() {
    let p = par();
    let c = ZUCCipher::new(p.count, p.bearer, p.dir, p.ck);
    let n = choose(param(1), param(2));
    let m = sym(n);
    let (mut x, mut y) = (Vec::new(), Vec::new());
    c.encrypt(&mut x, &m).ok().unwrap();
    let c = ZUCCipher::new(p.count, p.bearer, p.dir, p.ck);
    c.decrypt(&mut y, &x).ok().unwrap();
    same(&y, &m, 1);
    out(&y);
}

/// one message in up to three writes, checksum twice
pub fn h_eia3() {
    let p = par();
    let n = choose(param(1), param(2));
    let i = choose(0, n);
    let j = if param(0) > 0 { choose(i, n) } else { n };
    let m = sym(n);
    let mut z = if n & 1 == 0 { ZUCMac::new(p.count, p.bearer, p.dir, p.ck) } else { ZUCMac::from_slice(p.count, p.bearer, p.dir, &p.ck).ok().unwrap() };
    check(z.bits_len() == 32, 5);
    if i > 0 { z.write(&m[..i]); }
    if j > i { z.write(&m[i..j]); }
    if n > j { z.write(&m[j..]); }
    let (mut o, mut o2) = (vec![1u8], Vec::new());
    z.checksum(&mut o);
    z.checksum(&mut o2);
    let r = reference(22, &p, &m, 4);
    same(&o, &r, 1);
    same(&o2, &r, 2);
    out(&o);
}

/// a history of writes, checksums, resets and clones
pub fn h_eia3_hist() {
    let p = par();
    let mut z = ZUCMac::new(p.count, p.bearer, p.dir, p.ck);
    let mut cur: Vec<u8> = Vec::new();
    let mut done = false;
    for k in 0..param(0) + 1 {
        match if k == param(0) { 1 } else { choose(0, 3) } {
            0 => {
                let d = sym([1, 4, 3][choose(0, param(1) - 1)]);
                z.write(&d);
                if done { cur.clear(); done = false; }
                cur.extend_from_slice(&d);
            }
            1 => {
                let mut o = Vec::new();
                z.checksum(&mut o);
                let r = reference(22, &p, &cur, 4);
                same(&o, &r, 1);
                out(&o);
                done = true;
            }
            2 => { z.reset(); cur.clear(); done = false; }
            _ => { z = z.clone(); }
        }
    }
}
