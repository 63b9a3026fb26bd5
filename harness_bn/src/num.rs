use crate::vp::*;
use rmath::bigint::BigInt;
use rmath::rand::{IterSource, Iter, Seed, Source, Result, RandError, RandErrKind};

/// A random source about whose output nothing is known; `left` words at most.
#[derive(Clone)]
pub struct AnyRng { pub left: usize, pub seen: Vec<u32> }
impl AnyRng { pub fn new(left: usize) -> Self { AnyRng { left, seen: Vec::new() } } }
impl Source<u32> for AnyRng {
    fn gen(&mut self) -> Result<u32> {
        if self.left == 0 { stop() }
        self.left -= 1;
        Ok(sym_u32())
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for AnyRng { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }

/// A source that delivers the given words, then ends the path.
#[derive(Clone)]
pub struct ListRng { pub v: Vec<u32>, pub i: usize }
impl ListRng { pub fn new(v: &[u32]) -> Self { ListRng { v: v.to_vec(), i: 0 } } }
impl Source<u32> for ListRng {
    fn gen(&mut self) -> Result<u32> {
        if self.i >= self.v.len() { stop() }
        self.i += 1;
        Ok(self.v[self.i - 1])
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for ListRng { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }
/// A source that delivers the given words, then fails.
#[derive(Clone)]
pub struct EndRng { pub v: Vec<u32>, pub i: usize }
impl EndRng { pub fn new(v: &[u32]) -> Self { EndRng { v: v.to_vec(), i: 0 } } }
impl Source<u32> for EndRng {
    fn gen(&mut self) -> Result<u32> {
        if self.i >= self.v.len() { return Err(RandError::new(RandErrKind::InnerErr, "")) }
        self.i += 1;
        Ok(self.v[self.i - 1])
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for EndRng { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }
/// no words at all: an error instead
#[derive(Clone)]
pub struct NoRng;
impl Source<u32> for NoRng {
    fn gen(&mut self) -> Result<u32> { Err(RandError::new(RandErrKind::InnerErr, "")) }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<()> { Ok(()) }
}
impl IterSource<u32> for NoRng { fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) } }

pub fn big(s: &str) -> BigInt { s.parse::<BigInt>().ok().unwrap() }
pub fn b(x: u32) -> BigInt { BigInt::from(x) }
/// reference number below 2^32
pub fn specn(id: usize, args: &[u32]) -> u32 {
    for a in args { arg(&a.to_le_bytes()); }
    let v = spec(id, 4);
    u32::from_le_bytes([v[0], v[1], v[2], v[3]])
}

/// A digest of the given size that takes every value as its input does: the input folded into it.
#[derive(Clone)]
pub struct FoldHash { pub size: usize, pub data: Vec<u8> }
impl FoldHash {
    pub fn new(size: usize) -> Self { FoldHash { size, data: Vec::new() } }
    pub fn of(&self, m: &[u8]) -> Vec<u8> {
        let mut d = vec![m.len().wrapping_sub(self.size) as u8; self.size];
        for (i, x) in m.iter().enumerate() { d[i % self.size] ^= x }
        d
    }
}
impl rcrypto::Digest for FoldHash {
    fn block_size(&self) -> Option<usize> { Some(64) }
    fn bits_len(&self) -> usize { self.size * 8 }
    fn write(&mut self, data: &[u8]) { self.data.extend_from_slice(data) }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        digest.clear();
        digest.extend_from_slice(&self.of(&self.data));
    }
    fn reset(&mut self) { self.data.clear() }
}
