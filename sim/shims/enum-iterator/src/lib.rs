//! Stand-in for the enum-iterator crate (not available offline): the part mintlayer-core uses.
pub use enum_iterator_derive::Sequence;
pub trait Sequence: Sized {
    const CARDINALITY: usize;
    fn from_index(i: usize) -> Option<Self>;
    fn index(&self) -> usize;
    fn next(&self) -> Option<Self> { Self::from_index(self.index() + 1) }
    fn previous(&self) -> Option<Self> { self.index().checked_sub(1).and_then(Self::from_index) }
    fn first() -> Option<Self> { Self::from_index(0) }
    fn last() -> Option<Self> { Self::from_index(Self::CARDINALITY - 1) }
}
pub fn all<T: Sequence>() -> impl DoubleEndedIterator<Item = T> + Clone { (0..T::CARDINALITY).map(|i| T::from_index(i).unwrap()) }
pub fn reverse_all<T: Sequence>() -> impl Iterator<Item = T> { all::<T>().rev() }
pub fn next<T: Sequence>(x: &T) -> Option<T> { x.next() }
pub fn previous<T: Sequence>(x: &T) -> Option<T> { x.previous() }
pub fn first<T: Sequence>() -> Option<T> { T::first() }
pub fn last<T: Sequence>() -> Option<T> { T::last() }
pub fn cardinality<T: Sequence>() -> usize { T::CARDINALITY }
