use crate::{Decode, Encode, EncodeAsRef, EncodeLike, Error, Input, Output};

#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Debug)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
    fn from(x: T) -> Self {
        Compact(x)
    }
}
impl<'a, T: Copy> From<&'a T> for Compact<T> {
    fn from(x: &'a T) -> Self {
        Compact(*x)
    }
}
#[derive(Eq, PartialEq, Clone, Copy)]
pub struct CompactRef<'a, T>(pub &'a T);
impl<'a, T> From<&'a T> for CompactRef<'a, T> {
    fn from(x: &'a T) -> Self {
        CompactRef(x)
    }
}
pub trait CompactLen<T> {
    fn compact_len(val: &T) -> usize;
}
pub trait CompactAs: From<Compact<Self>> {
    type As;
    fn encode_as(&self) -> &Self::As;
    fn decode_from(_: Self::As) -> Result<Self, Error>;
}
pub trait HasCompact: Sized {
    type Type: for<'a> EncodeAsRef<'a, Self> + Decode + From<Self> + Into<Self>;
}
impl<'a, T: 'a> EncodeAsRef<'a, T> for Compact<T>
where
    CompactRef<'a, T>: Encode + From<&'a T>,
{
    type RefType = CompactRef<'a, T>;
}
impl<T: 'static> HasCompact for T
where
    Compact<T>: for<'a> EncodeAsRef<'a, T> + Decode + From<Self> + Into<Self>,
{
    type Type = Compact<T>;
}
impl<T> Encode for Compact<T>
where
    for<'a> CompactRef<'a, T>: Encode,
{
    fn size_hint(&self) -> usize {
        CompactRef(&self.0).size_hint()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        CompactRef(&self.0).encode_to(dest)
    }
    fn encode(&self) -> Vec<u8> {
        CompactRef(&self.0).encode()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        CompactRef(&self.0).using_encoded(f)
    }
}
impl<T> EncodeLike for Compact<T> where for<'a> CompactRef<'a, T>: Encode {}

// CompactAs types
impl<'a, T> Encode for CompactRef<'a, T>
where
    T: CompactAs,
    for<'b> CompactRef<'b, T::As>: Encode,
{
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        CompactRef(self.0.encode_as()).encode_to(dest)
    }
}
impl<T> Decode for Compact<T>
where
    T: CompactAs,
    Compact<T::As>: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Compact(T::decode_from(Compact::<T::As>::decode(input)?.0)?))
    }
}

fn enc<W: Output + ?Sized>(v: u128, dest: &mut W) {
    match v {
        0..=0x3f => dest.push_byte((v as u8) << 2),
        0..=0x3fff => (((v as u16) << 2) | 0b01).encode_to(dest),
        0..=0x3fff_ffff => (((v as u32) << 2) | 0b10).encode_to(dest),
        _ => {
            let bytes = v.to_le_bytes();
            let n = (16 - v.leading_zeros() as usize / 8).max(4);
            dest.push_byte(0b11 | (((n - 4) as u8) << 2));
            dest.write(&bytes[..n]);
        }
    }
}
fn len(v: u128) -> usize {
    match v {
        0..=0x3f => 1,
        0..=0x3fff => 2,
        0..=0x3fff_ffff => 4,
        _ => 1 + (16 - v.leading_zeros() as usize / 8).max(4),
    }
}
const OUT_OF_RANGE: &str = "out of range decoding Compact";
fn dec<I: Input>(input: &mut I, bits: u32) -> Result<u128, Error> {
    let prefix = input.read_byte()?;
    let v: u128 = match prefix & 3 {
        0 => (prefix >> 2) as u128,
        1 => {
            let x = (u16::from_le_bytes([prefix, input.read_byte()?]) >> 2) as u128;
            if x <= 0x3f {
                return Err(OUT_OF_RANGE.into());
            }
            x
        }
        2 => {
            let mut b = [prefix, 0, 0, 0];
            input.read(&mut b[1..])?;
            let x = (u32::from_le_bytes(b) >> 2) as u128;
            if x <= 0x3fff {
                return Err(OUT_OF_RANGE.into());
            }
            x
        }
        _ => {
            let n = (prefix >> 2) as usize + 4;
            if n > 16 || n > (bits as usize / 8).max(4) {
                return Err("unexpected prefix decoding Compact".into());
            }
            let mut b = [0u8; 16];
            input.read(&mut b[..n])?;
            let x = u128::from_le_bytes(b);
            let min = if n == 4 { 0x3fff_ffff } else { u128::MAX >> (128 - (n - 1) * 8) };
            if x <= min {
                return Err(OUT_OF_RANGE.into());
            }
            x
        }
    };
    if bits < 128 && v >> bits != 0 {
        return Err(OUT_OF_RANGE.into());
    }
    Ok(v)
}
macro_rules! compacts {
    ($($t:ty),*) => {$(
        impl Encode for CompactRef<'_, $t> {
            fn size_hint(&self) -> usize { len(*self.0 as u128) }
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { enc(*self.0 as u128, dest) }
        }
        impl Decode for Compact<$t> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(Compact(dec(input, <$t>::BITS)? as $t)) }
        }
        impl CompactLen<$t> for Compact<$t> { fn compact_len(val: &$t) -> usize { len(*val as u128) } }
        impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
    )*};
}
compacts!(u8, u16, u32, u64, u128);
