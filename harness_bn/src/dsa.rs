use crate::num::*;
use crate::vp::*;
use rcrypto::dsa::*;
use rcrypto::Signature;

/// (p, q, g)
const DOM: &[(u32, u32, u32)] = &[(503, 251, 4), (1049, 131, 256), (797, 199, 16), (263, 131, 4), (655211, 65521, 1024)];
fn dom(i: usize) -> (u32, u32, u32) {
    let (p, q, g) = DOM[i];
    (p, q, g)
}
fn keys(i: usize, x: u32) -> (PrivateKey, u32) {
    let (p, q, g) = dom(i);
    let y = specn(70, &[g, x, p]);
    let dp = DomainParameters::new_uncheck(&b(p), &b(q), &b(g)).ok().unwrap();
    (PrivateKey::new_uncheck(&PublicKey::new_uncheck(&dp, &b(y)).ok().unwrap(), &b(x)).ok().unwrap(), y)
}
fn dirty(h: usize) -> FoldHash { let mut f = FoldHash::new(h); rcrypto::Digest::write(&mut f, &[7]); f }
fn two(id: usize) -> (u32, u32, u8) {
    let v = spec(id, 9);
    (u32::from_le_bytes([v[0], v[1], v[2], v[3]]), u32::from_le_bytes([v[4], v[5], v[6], v[7]]), v[8])
}
fn args(i: usize, k: &[u32], h: &[u8]) {
    let (p, q, g) = dom(i);
    for a in [p, q, g].iter().chain(k) { arg(&a.to_le_bytes()); }
    arg(h);
}
/// p0 domain, p1 digest bytes, p2 private key (0: any), p3 words from the source, p4 verify too, p5 nonce (0: any)
pub fn h_dsa_sign() {
    let (i, h) = (param(0), param(1));
    let (_, q, _) = dom(i);
    let x = if param(2) == 0 { let x = sym_u32() & 255; assume(x > 0 && x < q); x } else { param(2) as u32 };
    let (key, y) = keys(i, x);
    let msg = sym(h);
    let words: Vec<u32> = if param(5) > 0 { vec![param(5) as u32] } else { (0..param(3)).map(|_| sym_u32()).collect() };
    let mut o = DSA::new_uncheck(dirty(h), ListRng::new(&words), KeyPair::from(key.clone())).ok().unwrap();
    let mut sg = SignatureContent::new();
    if o.sign(&mut sg, &msg).is_err() { check(false, 1); return }
    let (r, s) = sg.to_bigint();
    let k = words[o.rand_source().i - 1] & ((1u32 << (32 - q.leading_zeros())) - 1);
    check(k > 0 && k < q, 2);
    let hm = FoldHash::new(h).of(&msg);
    args(i, &[x, k], &hm);
    let (wr, ws, ok) = two(90);
    check(ok == 1, 3);
    check(r == b(wr), 4);
    check(s == b(ws), 5);
    out(sg.as_ref());
    if param(4) == 0 { return }
    let dp = DomainParameters::new_uncheck(&b(dom(i).0), &b(q), &b(dom(i).2)).ok().unwrap();
    let mut v = DSA::new_uncheck(dirty(h), NoRng, KeyPair::from(PublicKey::new_uncheck(&dp, &b(y)).ok().unwrap())).ok().unwrap();
    check(v.verify(&sg, &msg).is_ok(), 6);
    check(v.verify(&sg, &msg).is_ok(), 7);
    // the public key alone cannot sign
    check(v.sign(&mut sg, &msg).is_err(), 8);
}
/// p0 domain, p1 digest bytes, p2 private key, p3 bits of r and s, p4 1: with the key pair; 2: signature set into an object used before
pub fn h_dsa_ver() {
    let (i, h, x) = (param(0), param(1), param(2) as u32);
    let (key, y) = keys(i, x);
    let msg = sym(h);
    let m = (1u32 << param(3)) - 1;
    let (r, s) = (sym_u32() & m, sym_u32() & m);
    let mut sg = SignatureContent::form_bigint(&b(r), &b(s));
    if param(4) == 2 { sg = SignatureContent::form_bigint(&b(70000), &b(5)); sg.set(b(r), b(s)); }
    let pair = if param(4) == 1 { KeyPair::from(key) } else { KeyPair::from(key.public_key().clone()) };
    let mut o = DSA::new_uncheck(dirty(h), NoRng, pair).ok().unwrap();
    let ok = o.verify(&sg, &msg).is_ok();
    args(i, &[y, r, s], &FoldHash::new(h).of(&msg));
    check(ok == (spec(91, 1)[0] == 1), 1);
    out(&[ok as u8]);
}
/// key generation: p0 domain, p1 words
pub fn h_key_dsa() {
    let i = param(0);
    let (p, q, g) = dom(i);
    let dp = DomainParameters::new_uncheck(&b(p), &b(q), &b(g)).ok().unwrap();
    let l: Vec<u32> = (0..param(1)).map(|_| sym_u32()).collect();
    let mut rd = ListRng::new(&l);
    match DSA::<FoldHash, ListRng>::verif_generate_key(dp, &mut rd) {
        Ok(k) => {
            let (x, y) = k.verif_parts();
            check(*x > b(0), 1);
            check(*x < b(q), 2);
            arg(&p.to_le_bytes()); arg(&g.to_le_bytes()); arg(&x.to_be_bytes());
            check(*y == b(u32::from_le_bytes({ let v = spec(92, 4); [v[0], v[1], v[2], v[3]] })), 3);
            out(&x.to_be_bytes());
        }
        Err(_) => check(false, 4),
    }
}
