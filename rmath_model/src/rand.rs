use std::fmt::{Debug, Display, Formatter};
use std::marker::PhantomData;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum RandErrKind { NoNewRandSeedGen, NoNewRandNumberGen, DivisorIsZero, InvalidRngPara, InnerErr }
pub struct RandError { kind: RandErrKind }
impl RandError {
    pub fn new<E>(kind: RandErrKind, _e: E) -> RandError { RandError { kind } }
    pub fn kind(&self) -> RandErrKind { self.kind }
}
impl Debug for RandError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("rand") } }
impl Display for RandError { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("rand") } }
impl std::error::Error for RandError {}
pub type Result<T> = std::result::Result<T, RandError>;

pub trait PrimitiveType { fn bits_len() -> Self; fn mask(&self) -> Self; }
macro_rules! prim { ($($t:ty),*) => { $( impl PrimitiveType for $t {
    fn bits_len() -> Self { (std::mem::size_of::<$t>() << 3) as $t }
    fn mask(&self) -> Self { if *self == Self::bits_len() { <$t>::MAX } else { (1 << (self & (Self::bits_len() - 1))) - 1 } }
} )* } }
prim!(u32, usize, u64);
pub trait Seed<T: PrimitiveType> { fn seed(&self) -> Result<T>; }
pub trait Source<T: PrimitiveType> {
    fn gen(&mut self) -> Result<T>;
    fn reset<Sd: Seed<T>>(&mut self, sd: &Sd) -> Result<()>;
}
pub trait IterSource<T: PrimitiveType>: Source<T> {
    fn iter_mut(&mut self) -> Iter<'_, Self, T> where Self: std::marker::Sized;
}
pub struct Iter<'a, T, P> where P: PrimitiveType, T: 'a + Source<P> {
    inner: &'a mut T,
    last_err: Option<RandError>,
    ph: PhantomData<P>,
}
impl<'a, T, P> Iter<'a, T, P> where P: PrimitiveType, T: 'a + Source<P> {
    pub fn new(rd_src: &'a mut T) -> Iter<'a, T, P> { Self { inner: rd_src, last_err: None, ph: PhantomData } }
    pub fn last_error(&self) -> Option<&RandError> { self.last_err.as_ref() }
    pub fn clear_error(&mut self) { self.last_err = None; }
}
impl<'a, T, P> Iterator for Iter<'a, T, P> where P: PrimitiveType, T: 'a + Source<P> {
    type Item = P;
    fn next(&mut self) -> Option<P> {
        if self.last_err.is_some() { return None; }
        match self.inner.gen() {
            Ok(x) => Some(x),
            Err(e) => { self.last_err = Some(e); None }
        }
    }
}
