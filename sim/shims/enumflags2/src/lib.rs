//! Stand-in for the `enumflags2` crate (unavailable offline).
pub use enumflags2_derive_standin::bitflags;
use std::marker::PhantomData;
pub trait BitFlag: Copy + PartialEq + 'static { const LIST: &'static [Self]; }
pub struct BitFlags<T>(u64, PhantomData<T>);
impl<T> Clone for BitFlags<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T> Eq for BitFlags<T> {}
impl<T> PartialOrd for BitFlags<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T> Ord for BitFlags<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T> std::hash::Hash for BitFlags<T> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T> Default for BitFlags<T> { fn default() -> Self { Self(0, PhantomData) } }
impl<T> std::fmt::Debug for BitFlags<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "BitFlags({:#b})", self.0) } }
impl<T: BitFlag> BitFlags<T> {
    pub const ALL: Self = Self((1 << T::LIST.len()) - 1, PhantomData);
    pub const EMPTY: Self = Self(0, PhantomData);
    pub fn empty() -> Self { Self::EMPTY }
    pub fn all() -> Self { Self::ALL }
    pub fn is_empty(self) -> bool { self.0 == 0 }
    pub fn contains(self, o: impl Into<Self>) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn insert(&mut self, o: impl Into<Self>) { self.0 |= o.into().0 }
    pub fn remove(&mut self, o: impl Into<Self>) { self.0 &= !o.into().0 }
    pub fn iter(self) -> impl Iterator<Item = T> + Clone { T::LIST.iter().copied().enumerate().filter(move |(i, _)| self.0 >> i & 1 == 1).map(|x| x.1) }
}
impl<T: BitFlag> From<T> for BitFlags<T> { fn from(t: T) -> Self { Self(1 << T::LIST.iter().position(|x| *x == t).unwrap(), PhantomData) } }
impl<T: BitFlag> FromIterator<T> for BitFlags<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { i.into_iter().fold(Self::EMPTY, |a, b| a | b) } }
impl<T: BitFlag, R: Into<BitFlags<T>>> std::ops::BitOr<R> for BitFlags<T> { type Output = Self; fn bitor(self, r: R) -> Self { Self(self.0 | r.into().0, PhantomData) } }
impl<T: BitFlag> std::ops::Not for BitFlags<T> { type Output = Self; fn not(self) -> Self { Self(Self::ALL.0 & !self.0, PhantomData) } }
