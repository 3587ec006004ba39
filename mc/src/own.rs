//! Block types of a user's own: newtypes that implement only what `BlockType` requires, so that every provided method
//! of the trait is the library's default (the built-in types replace some of them), among them one wider than any
//! built-in type.

use crate::bits::Blk;
use byteorder::{ByteOrder, ReadBytesExt, WriteBytesExt};
use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, Num, NumCast, One, PrimInt, Saturating, ToPrimitive, Zero};
use std::fmt::Debug;
use std::hash::Hash;
use std::io;
use std::ops::*;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::storage::BlockType;
use succinct::{BitVec, BitVecMut, SpaceUsage};

/// A block of any width up to 128 bits.
pub trait Wide: BlockType + BitVec<Block = Self> + BitVecMut + Hash + Debug + Send + Sync + 'static {
    const W: usize;
    const NAME: &'static str;
    /// low bits of x
    fn of(x: u128) -> Self;
    fn u(self) -> u128;
}

macro_rules! builtin {
    ($($t:ident $w:expr),*) => {$(
        impl Wide for $t {
            const W: usize = $w;
            const NAME: &'static str = stringify!($t);
            fn of(x: u128) -> Self { x as $t }
            fn u(self) -> u128 { self as u128 }
        })*
    }
}
builtin!(u8 8, u16 16, u32 32, u64 64, usize 64);

macro_rules! op {
    ($n:ident $($tr:ident $f:ident),*) => {$(
        impl $tr for $n {
            type Output = $n;
            fn $f(self, o: $n) -> $n { $n(self.0.$f(o.0)) }
        })*
    }
}
macro_rules! checked {
    ($n:ident $($tr:ident $f:ident),*) => {$(
        impl $tr for $n {
            fn $f(&self, o: &$n) -> Option<$n> { self.0.$f(o.0).map($n) }
        })*
    }
}

macro_rules! own {
    ($n:ident, $t:ident, $w:expr, $bits:ident, $read:expr, $write:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n(pub $t);

        impl Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                Debug::fmt(&self.0, f)
            }
        }
        op!($n Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor);
        checked!($n CheckedAdd checked_add, CheckedSub checked_sub, CheckedMul checked_mul, CheckedDiv checked_div);
        impl Not for $n {
            type Output = $n;
            fn not(self) -> $n { $n(!self.0) }
        }
        impl Shl<usize> for $n {
            type Output = $n;
            fn shl(self, k: usize) -> $n { $n(self.0 << k) }
        }
        impl Shr<usize> for $n {
            type Output = $n;
            fn shr(self, k: usize) -> $n { $n(self.0 >> k) }
        }
        impl Zero for $n {
            fn zero() -> $n { $n(0) }
            fn is_zero(&self) -> bool { self.0 == 0 }
        }
        impl One for $n {
            fn one() -> $n { $n(1) }
        }
        impl Num for $n {
            type FromStrRadixErr = std::num::ParseIntError;
            fn from_str_radix(s: &str, r: u32) -> Result<$n, Self::FromStrRadixErr> { $t::from_str_radix(s, r).map($n) }
        }
        impl Bounded for $n {
            fn min_value() -> $n { $n(0) }
            fn max_value() -> $n { $n($t::MAX) }
        }
        impl Saturating for $n {
            fn saturating_add(self, o: $n) -> $n { $n(self.0.saturating_add(o.0)) }
            fn saturating_sub(self, o: $n) -> $n { $n(self.0.saturating_sub(o.0)) }
        }
        impl ToPrimitive for $n {
            fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
            fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
            fn to_u128(&self) -> Option<u128> { self.0.to_u128() }
            fn to_i128(&self) -> Option<i128> { self.0.to_i128() }
        }
        impl NumCast for $n {
            fn from<T: ToPrimitive>(x: T) -> Option<$n> { <$t as NumCast>::from(x).map($n) }
        }
        impl PrimInt for $n {
            fn count_ones(self) -> u32 { self.0.count_ones() }
            fn count_zeros(self) -> u32 { self.0.count_zeros() }
            fn leading_zeros(self) -> u32 { self.0.leading_zeros() }
            fn trailing_zeros(self) -> u32 { self.0.trailing_zeros() }
            fn rotate_left(self, k: u32) -> $n { $n(self.0.rotate_left(k)) }
            fn rotate_right(self, k: u32) -> $n { $n(self.0.rotate_right(k)) }
            fn signed_shl(self, k: u32) -> $n { $n(PrimInt::signed_shl(self.0, k)) }
            fn signed_shr(self, k: u32) -> $n { $n(PrimInt::signed_shr(self.0, k)) }
            fn unsigned_shl(self, k: u32) -> $n { $n(PrimInt::unsigned_shl(self.0, k)) }
            fn unsigned_shr(self, k: u32) -> $n { $n(PrimInt::unsigned_shr(self.0, k)) }
            fn swap_bytes(self) -> $n { $n(self.0.swap_bytes()) }
            fn from_be(x: $n) -> $n { $n($t::from_be(x.0)) }
            fn from_le(x: $n) -> $n { $n($t::from_le(x.0)) }
            fn to_be(self) -> $n { $n(self.0.to_be()) }
            fn to_le(self) -> $n { $n(self.0.to_le()) }
            fn pow(self, e: u32) -> $n { $n(self.0.pow(e)) }
        }
        own!(@ $bits $n $t $w);
        // plain counting: no help from the library
        impl RankSupport for $n {
            type Over = bool;
            fn rank(&self, p: u64, v: bool) -> u64 {
                assert!(p < $w);
                (0..=p).filter(|&i| (self.0 >> i & 1 == 1) == v).count() as u64
            }
            fn limit(&self) -> u64 { $w }
        }
        impl BitRankSupport for $n {}
        impl SpaceUsage for $n {
            fn is_stack_only() -> bool { true }
            fn heap_bytes(&self) -> usize { 0 }
        }
        impl BlockType for $n {
            fn read_block<R: io::Read, T: ByteOrder>(s: &mut R) -> io::Result<$n> { $read(s, std::marker::PhantomData::<T>).map($n) }
            fn write_block<W: io::Write, T: ByteOrder>(&self, s: &mut W) -> io::Result<()> { $write(s, self.0, std::marker::PhantomData::<T>) }
        }
        impl Wide for $n {
            const W: usize = $w;
            const NAME: &'static str = stringify!($n);
            fn of(x: u128) -> Self { $n(x as $t) }
            fn u(self) -> u128 { self.0 as u128 }
        }
    };
    // the one of the two mutually defined accessors that the type provides
    (@ block $n:ident $t:ident $w:expr) => {
        impl BitVec for $n {
            type Block = $n;
            fn bit_len(&self) -> u64 { $w }
            fn get_block(&self, i: usize) -> $n { assert!(i == 0); *self }
        }
        impl BitVecMut for $n {
            fn set_block(&mut self, i: usize, v: $n) { assert!(i == 0); *self = v }
        }
    };
    (@ bit $n:ident $t:ident $w:expr) => {
        impl BitVec for $n {
            type Block = $n;
            fn bit_len(&self) -> u64 { $w }
            fn get_bit(&self, i: u64) -> bool { assert!(i < $w); self.0 >> i & 1 == 1 }
        }
        impl BitVecMut for $n {
            fn set_bit(&mut self, i: u64, v: bool) {
                assert!(i < $w);
                self.0 = if v { self.0 | 1 << i } else { self.0 & !(1 << i) }
            }
        }
    };
}

type P<T> = std::marker::PhantomData<T>;
fn r8<R: io::Read, T>(s: &mut R, _: P<T>) -> io::Result<u8> { s.read_u8() }
fn w8<W: io::Write, T>(s: &mut W, x: u8, _: P<T>) -> io::Result<()> { s.write_u8(x) }
fn r16<R: io::Read, T: ByteOrder>(s: &mut R, _: P<T>) -> io::Result<u16> { s.read_u16::<T>() }
fn w16<W: io::Write, T: ByteOrder>(s: &mut W, x: u16, _: P<T>) -> io::Result<()> { s.write_u16::<T>(x) }
fn r64<R: io::Read, T: ByteOrder>(s: &mut R, _: P<T>) -> io::Result<u64> { s.read_u64::<T>() }
fn w64<W: io::Write, T: ByteOrder>(s: &mut W, x: u64, _: P<T>) -> io::Result<()> { s.write_u64::<T>(x) }
fn r128<R: io::Read, T: ByteOrder>(s: &mut R, _: P<T>) -> io::Result<u128> { s.read_u128::<T>() }
fn w128<W: io::Write, T: ByteOrder>(s: &mut W, x: u128, _: P<T>) -> io::Result<()> { s.write_u128::<T>(x) }

own!(N8, u8, 8, block, r8, w8);
own!(N16, u16, 16, bit, r16, w16);
own!(N64, u64, 64, block, r64, w64);
own!(N128, u128, 128, block, r128, w128);

macro_rules! narrow {
    ($($n:ident $t:ident $w:expr),*) => {$(
        impl Blk for $n {
            const W: usize = $w;
            const NAME: &'static str = stringify!($n);
            fn of(x: u64) -> Self { $n(x as $t) }
            fn u(self) -> u64 { self.0 as u64 }
        })*
    }
}
narrow!(N8 u8 8, N16 u16 16, N64 u64 64);
