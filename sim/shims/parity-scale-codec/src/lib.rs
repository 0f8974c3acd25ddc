//! A from-scratch implementation of the SCALE codec traits, API-compatible with the subset of
//! parity-scale-codec that mintlayer-core uses (the real crate is not available offline here).
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub use parity_scale_codec_derive::{CompactAs, Decode, Encode, MaxEncodedLen};

mod compact;
pub use compact::{Compact, CompactAs, CompactLen, CompactRef, HasCompact};

#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Error {
    cause: Option<Box<Error>>,
    desc: Cow<'static, str>,
}
impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self {
        Self { desc: desc.into(), cause: Some(Box::new(self)) }
    }
    fn display_with_indent(&self, indent: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for _ in 0..indent {
            f.write_str("\t")?;
        }
        f.write_str(&self.desc)?;
        if let Some(cause) = &self.cause {
            f.write_str(":")?;
            f.write_str("\n")?;
            cause.display_with_indent(indent + 1, f)
        } else {
            if indent != 0 {
                f.write_str("\n")?;
            }
            Ok(())
        }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.display_with_indent(0, f)
    }
}
impl From<&'static str> for Error {
    fn from(desc: &'static str) -> Self {
        Self { cause: None, desc: desc.into() }
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|e| e as _)
    }
}

pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> {
        let mut b = [0u8];
        self.read(&mut b)?;
        Ok(b[0])
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> {
        Ok(())
    }
}
impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() {
            return Err("Not enough data to fill buffer".into());
        }
        let len = into.len();
        into.copy_from_slice(&self[..len]);
        *self = &self[len..];
        Ok(())
    }
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read_exact(into).map_err(|_| "io error".into())
    }
}

pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, byte: u8) {
        self.write(&[byte]);
    }
}
impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) {
        (self as &mut dyn std::io::Write).write_all(bytes).expect("Codec outputs are infallible");
    }
}

struct SizeTracker {
    written: usize,
}
impl std::io::Write for SizeTracker {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.written += buf.len();
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub trait Encode {
    fn size_hint(&self) -> usize {
        0
    }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
        self.using_encoded(|buf| dest.write(buf));
    }
    fn encode(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.size_hint());
        self.encode_to(&mut r);
        r
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&self.encode())
    }
    fn encoded_size(&self) -> usize {
        let mut s = SizeTracker { written: 0 };
        self.encode_to(&mut s);
        s.written
    }
}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait EncodeAsRef<'a, T: 'a> {
    type RefType: Encode + From<&'a T>;
}

pub trait Decode: Sized {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
        Self::decode(input).map(|_| ())
    }
    fn encoded_fixed_size() -> Option<usize> {
        None
    }
}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait FullCodec: Decode + FullEncode {}
impl<S: Decode + FullEncode> FullCodec for S {}
pub trait FullEncode: Encode + EncodeLike {}
impl<S: Encode + EncodeLike> FullEncode for S {}

pub trait DecodeAll: Sized {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let res = T::decode(input)?;
        if input.is_empty() {
            Ok(res)
        } else {
            Err("Input buffer has still data left after decoding!".into())
        }
    }
}
pub trait DecodeWithMemTracking: Decode {}
pub trait MaxEncodedLen: Encode {
    fn max_encoded_len() -> usize;
}

pub trait WrapperTypeEncode: Deref {}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'_, T> {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl<T> WrapperTypeEncode for Vec<T> {}
impl WrapperTypeEncode for String {}

impl<T, X> Encode for X
where
    T: Encode + ?Sized,
    X: WrapperTypeEncode<Target = T>,
{
    fn size_hint(&self) -> usize {
        (**self).size_hint()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        (**self).using_encoded(f)
    }
    fn encode(&self) -> Vec<u8> {
        (**self).encode()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (**self).encode_to(dest)
    }
}
impl<T: Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl<T: Encode> EncodeLike for Vec<T> {}
impl EncodeLike for String {}

pub trait WrapperTypeDecode: Sized {
    type Wrapped: Into<Self>;
    fn decode_wrapped<I: Input>(input: &mut I) -> Result<Self, Error>
    where
        Self::Wrapped: Decode,
    {
        input.descend_ref()?;
        let r = Ok(Self::Wrapped::decode(input)?.into());
        input.ascend_ref();
        r
    }
}
impl<T> WrapperTypeDecode for Box<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Rc<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Arc<T> {
    type Wrapped = T;
}
impl<T, X> Decode for X
where
    T: Decode + Into<X>,
    X: WrapperTypeDecode<Wrapped = T>,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::decode_wrapped(input)
    }
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
        }
        impl EncodeLike for $t {}
        impl Decode for $t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                input.read(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

macro_rules! nonzero {
    ($($n:ty, $t:ty);*) => {$(
        impl Encode for $n {
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { self.get().using_encoded(f) }
        }
        impl EncodeLike for $n {}
        impl Decode for $n {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Self::new(Decode::decode(input)?).ok_or_else(|| Error::from("cannot create non-zero number from 0"))
            }
        }
    )*};
}
nonzero!(std::num::NonZeroU8, u8; std::num::NonZeroU16, u16; std::num::NonZeroU32, u32; std::num::NonZeroU64, u64; std::num::NonZeroU128, u128;
 std::num::NonZeroI8, i8; std::num::NonZeroI16, i16; std::num::NonZeroI32, i32; std::num::NonZeroI64, i64; std::num::NonZeroI128, i128);

impl Encode for bool {
    fn size_hint(&self) -> usize {
        1
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[*self as u8])
    }
}
impl EncodeLike for bool {}
impl Decode for bool {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("Invalid boolean representation".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}
impl Encode for () {
    fn encode_to<T: Output + ?Sized>(&self, _dest: &mut T) {}
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[])
    }
    fn encode(&self) -> Vec<u8> {
        Vec::new()
    }
}
impl EncodeLike for () {}
impl Decode for () {
    fn decode<I: Input>(_: &mut I) -> Result<(), Error> {
        Ok(())
    }
}
impl<T> Encode for PhantomData<T> {
    fn encode_to<W: Output + ?Sized>(&self, _dest: &mut W) {}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(PhantomData)
    }
}
impl<T: Encode> Encode for Option<T> {
    fn size_hint(&self) -> usize {
        1 + self.as_ref().map_or(0, |x| x.size_hint())
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            None => dest.push_byte(0),
            Some(t) => {
                dest.push_byte(1);
                t.encode_to(dest);
            }
        }
    }
}
impl<T: Encode> EncodeLike for Option<T> {}
impl<T: Decode> Decode for Option<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte().map_err(|e| e.chain("Could not decode `Option`"))? {
            0 => Ok(None),
            1 => Ok(Some(T::decode(input)?)),
            _ => Err("unexpected first byte decoding Option".into()),
        }
    }
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Ok(t) => {
                dest.push_byte(0);
                t.encode_to(dest)
            }
            Err(e) => {
                dest.push_byte(1);
                e.encode_to(dest)
            }
        }
    }
}
impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(Ok(T::decode(input)?)),
            1 => Ok(Err(E::decode(input)?)),
            _ => Err("unexpected first byte decoding Result".into()),
        }
    }
}
fn encode_len<W: Output + ?Sized>(len: usize, dest: &mut W) {
    Compact(u32::try_from(len).expect("Attempted to serialize a collection with too many elements."))
        .encode_to(dest)
}
impl<T: Encode> Encode for [T] {
    fn size_hint(&self) -> usize {
        5 + std::mem::size_of_val(self)
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        encode_len(self.len(), dest);
        for x in self {
            x.encode_to(dest);
        }
    }
}
impl Encode for str {
    fn size_hint(&self) -> usize {
        5 + self.len()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        encode_len(self.len(), dest);
        dest.write(self.as_bytes());
    }
}
impl<T: Encode, const N: usize> Encode for [T; N] {
    fn size_hint(&self) -> usize {
        std::mem::size_of::<T>() * N
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        for x in self {
            x.encode_to(dest);
        }
    }
}
impl<T: Encode, const N: usize> EncodeLike for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            v.push(T::decode(input)?);
        }
        Ok(v.try_into().ok().expect("exactly N elements"))
    }
    fn encoded_fixed_size() -> Option<usize> {
        T::encoded_fixed_size().map(|x| x * N)
    }
}
fn decode_n<T: Decode, I: Input>(input: &mut I) -> Result<Vec<T>, Error> {
    let len = Compact::<u32>::decode(input)?.0 as usize;
    if let (Some(fixed), Some(rem)) = (T::encoded_fixed_size(), input.remaining_len()?) {
        if fixed.checked_mul(len).map_or(true, |need| need > rem) {
            return Err("Not enough data to decode vector".into());
        }
    }
    let cap = match input.remaining_len()? {
        Some(r) => len.min(r.max(1)),
        None => len.min(4096),
    }
    .min(16 * 1024 / std::mem::size_of::<T>().max(1) + 1);
    let mut v = Vec::with_capacity(cap);
    for _ in 0..len {
        v.push(T::decode(input)?);
    }
    Ok(v)
}
impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        decode_n(input)
    }
}
impl Decode for String {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
    }
}
impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T>
where
    <T as ToOwned>::Owned: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Cow::Owned(Decode::decode(input)?))
    }
}
macro_rules! coll {
    ($($ty:ident [$($b:tt)*]);* $(;)?) => {$(
        impl<T: Encode $($b)*> Encode for $ty<T> {
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
                encode_len(self.len(), dest);
                for x in self.iter() { x.encode_to(dest); }
            }
        }
        impl<T: Encode $($b)*> EncodeLike for $ty<T> {}
        impl<T: Decode $($b)*> Decode for $ty<T> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Ok(decode_n::<T, I>(input)?.into_iter().collect())
            }
        }
    )*};
}
coll!(VecDeque []; BTreeSet [+ Ord]; LinkedList []; BinaryHeap [+ Ord]);
impl<K: Encode + Ord, V: Encode> Encode for BTreeMap<K, V> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        encode_len(self.len(), dest);
        for x in self.iter() {
            x.encode_to(dest);
        }
    }
}
impl<K: Encode + Ord, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(decode_n::<(K, V), I>(input)?.into_iter().collect())
    }
}
impl Encode for Duration {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (self.as_secs(), self.subsec_nanos()).encode_to(dest)
    }
}
impl EncodeLike for Duration {}
impl Decode for Duration {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (secs, nanos) = <(u64, u32)>::decode(input)?;
        if nanos >= 1_000_000_000 {
            return Err("Could not decode `Duration`: Number of nanoseconds should not be higher than 10^9.".into());
        }
        Ok(Duration::new(secs, nanos))
    }
}
impl<T: Encode> Encode for std::ops::Range<T> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (&self.start, &self.end).encode_to(dest)
    }
}
impl<T: Decode> Decode for std::ops::Range<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (start, end) = Decode::decode(input)?;
        Ok(start..end)
    }
}
impl<T: Encode> Encode for std::ops::RangeInclusive<T> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (self.start(), self.end()).encode_to(dest)
    }
}
impl<T: Decode> Decode for std::ops::RangeInclusive<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (s, e): (T, T) = Decode::decode(input)?;
        Ok(s..=e)
    }
}
macro_rules! tuples {
    ($($n:ident)+) => {
        impl<$($n: Encode),+> Encode for ($($n,)+) {
            #[allow(non_snake_case)]
            fn size_hint(&self) -> usize { let ($($n,)+) = self; 0 $(+ $n.size_hint())+ }
            #[allow(non_snake_case)]
            fn encode_to<W__: Output + ?Sized>(&self, dest: &mut W__) { let ($($n,)+) = self; $($n.encode_to(dest);)+ }
        }
        impl<$($n: Encode),+> EncodeLike for ($($n,)+) {}
        impl<$($n: Decode),+> Decode for ($($n,)+) {
            fn decode<I__: Input>(input: &mut I__) -> Result<Self, Error> { Ok(($($n::decode(input)?,)+)) }
            fn encoded_fixed_size() -> Option<usize> { Some(0 $(+ $n::encoded_fixed_size()?)+) }
        }
    };
}
tuples!(A);
tuples!(A B);
tuples!(A B C);
tuples!(A B C D);
tuples!(A B C D E);
tuples!(A B C D E F);
tuples!(A B C D E F G);
tuples!(A B C D E F G H);
tuples!(A B C D E F G H I);
tuples!(A B C D E F G H I J);
tuples!(A B C D E F G H I J K);
tuples!(A B C D E F G H I J K L);
