//! Interface between a harness and whoever executes it: the symbolic executor, or the native
//! runner that replays recorded answers.
use rcrypto::{Cipher, CryptoError, CryptoErrorKind, Digest};

mod raw {
    extern "C" {
        pub fn vp_sym(p: *mut u8, n: usize);
        pub fn vp_choose(lo: usize, hi: usize) -> usize;
        pub fn vp_param(i: usize) -> usize;
        pub fn vp_assume(c: bool);
        pub fn vp_check(c: bool, id: usize);
        pub fn vp_eq(a: *const u8, b: *const u8, n: usize, id: usize);
        pub fn vp_out(p: *const u8, n: usize);
        pub fn vp_arg(p: *const u8, n: usize);
        pub fn vp_spec(id: usize, out: *mut u8, cap: usize) -> usize;
        pub fn vp_perm(dir: usize, key: usize, src: *const u8, dst: *mut u8, n: usize);
        pub fn vp_hash(id: usize, src: *const u8, n: usize, dst: *mut u8, m: usize);
        pub fn vp_decide(c: bool) -> bool;
    }
}

/// `n` symbolic bytes
pub fn sym(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { raw::vp_sym(v.as_mut_ptr(), n) };
    v
}
pub fn fill(v: &mut [u8]) { unsafe { raw::vp_sym(v.as_mut_ptr(), v.len()) } }
pub fn sym_u8() -> u8 { let mut b = [0u8; 1]; fill(&mut b); b[0] }
pub fn sym_u32() -> u32 { let mut b = [0u8; 4]; fill(&mut b); u32::from_le_bytes(b) }
pub fn sym_u64() -> u64 { let mut b = [0u8; 8]; fill(&mut b); u64::from_le_bytes(b) }
/// every value of lo..=hi, one path each
pub fn choose(lo: usize, hi: usize) -> usize { unsafe { raw::vp_choose(lo, hi) } }
pub fn param(i: usize) -> usize { unsafe { raw::vp_param(i) } }
pub fn assume(c: bool) { unsafe { raw::vp_assume(c) } }
pub fn check(c: bool, id: usize) { unsafe { raw::vp_check(c, id) } }
pub fn decide(c: bool) -> bool { unsafe { raw::vp_decide(c) } }
/// obligation: equal length and contents
pub fn same(a: &[u8], b: &[u8], id: usize) {
    check(a.len() == b.len(), id);
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    unsafe { raw::vp_eq(a.as_ptr(), b.as_ptr(), n, id) }
}
pub fn out(a: &[u8]) { unsafe { raw::vp_out(a.as_ptr(), a.len()) } }
pub fn arg(a: &[u8]) { unsafe { raw::vp_arg(a.as_ptr(), a.len()) } }
pub fn argn(n: usize) { arg(&(n as u64).to_le_bytes()) }
/// the reference result for the arguments pushed so far
pub fn spec(id: usize, cap: usize) -> Vec<u8> {
    let mut v = vec![0u8; cap];
    let n = unsafe { raw::vp_spec(id, v.as_mut_ptr(), cap) };
    v.truncate(n);
    v
}
pub fn spec_args(id: usize, cap: usize, args: &[&[u8]]) -> Vec<u8> {
    for a in args { arg(a); }
    spec(id, cap)
}

/// A block cipher about which nothing is known except that it is a permutation for each key.
pub struct AnyCipher { pub key: usize, pub block: usize }
impl Clone for AnyCipher { fn clone(&self) -> Self { AnyCipher { key: self.key, block: self.block } } }
impl AnyCipher {
    pub fn new(key: usize, block: usize) -> Self { AnyCipher { key, block } }
    fn go(&self, dir: usize, dst: &mut Vec<u8>, src: &[u8]) -> Result<usize, CryptoError> {
        if src.len() != self.block {
            return Err(CryptoError::new(CryptoErrorKind::InvalidParameter, ""));
        }
        dst.clear();
        dst.resize(self.block, 0);
        unsafe { raw::vp_perm(dir, self.key, src.as_ptr(), dst.as_mut_ptr(), self.block) };
        Ok(self.block)
    }
    pub fn e(&self, x: &[u8]) -> Vec<u8> { let mut d = vec![0u8; self.block]; unsafe { raw::vp_perm(0, self.key, x.as_ptr(), d.as_mut_ptr(), self.block) }; d }
    pub fn d(&self, x: &[u8]) -> Vec<u8> { let mut d = vec![0u8; self.block]; unsafe { raw::vp_perm(1, self.key, x.as_ptr(), d.as_mut_ptr(), self.block) }; d }
}
impl Cipher for AnyCipher {
    type Output = usize;
    fn block_size(&self) -> Option<usize> { Some(self.block) }
    fn encrypt(&self, dst: &mut Vec<u8>, p: &[u8]) -> Result<usize, CryptoError> { self.go(0, dst, p) }
    fn decrypt(&self, dst: &mut Vec<u8>, c: &[u8]) -> Result<usize, CryptoError> { self.go(1, dst, c) }
}

/// A hash function about which nothing is known except its block and digest sizes.
#[derive(Clone)]
pub struct AnyHash { pub id: usize, pub block: usize, pub size: usize, pub data: Vec<u8> }
impl AnyHash {
    pub fn new(id: usize, block: usize, size: usize) -> Self { AnyHash { id, block, size, data: Vec::new() } }
    pub fn of(&self, m: &[u8]) -> Vec<u8> { hash(self.id, m, self.size) }
}
pub fn hash(id: usize, m: &[u8], size: usize) -> Vec<u8> {
    let mut d = vec![0u8; size];
    unsafe { raw::vp_hash(id, m.as_ptr(), m.len(), d.as_mut_ptr(), size) };
    d
}
impl Digest for AnyHash {
    fn block_size(&self) -> Option<usize> { Some(self.block) }
    fn bits_len(&self) -> usize { self.size * 8 }
    fn write(&mut self, data: &[u8]) { self.data.extend_from_slice(data) }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        digest.clear();
        digest.extend_from_slice(&hash(self.id, &self.data, self.size));
    }
    fn reset(&mut self) { self.data.clear() }
}
/// this path is outside the bound
pub fn stop() -> ! { assume(false); loop {} }
