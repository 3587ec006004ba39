//! User-side bit-vector implementations: the minimal ones the traits allow, and virtual ones.

use crate::bits::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use succinct::{BitVec, BitVecMut, BitVecPush};

/// Defines only `bit_len` and `get_bit` (plus `set_bit`, `push_bit`, `pop_bit`).
#[derive(Clone, Debug, PartialEq)]
pub struct ByBit<B> {
    pub bits: Vec<bool>,
    p: PhantomData<B>,
}
impl<B: Blk> ByBit<B> {
    pub fn new(m: &[bool]) -> Self {
        ByBit { bits: m.to_vec(), p: PhantomData }
    }
}
impl<B: Blk> BitVec for ByBit<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.bits.len() as u64
    }
    fn get_bit(&self, i: u64) -> bool {
        self.bits[usize::try_from(i).unwrap()]
    }
}
impl<B: Blk> BitVecMut for ByBit<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        self.bits[usize::try_from(i).unwrap()] = v
    }
}
impl<B: Blk> BitVecPush for ByBit<B> {
    fn push_bit(&mut self, v: bool) {
        self.bits.push(v)
    }
    fn pop_bit(&mut self) -> Option<bool> {
        self.bits.pop()
    }
}

/// Defines only `bit_len`, `get_block` (plus `set_block`); the unused bits of the last block hold what they like.
#[derive(Clone, Debug, PartialEq)]
pub struct ByBlock<B> {
    pub len: usize,
    pub blocks: Vec<B>,
}
impl<B: Blk> ByBlock<B> {
    /// garbage: value of the unused bits of the last block
    pub fn new(m: &[bool], garbage: u64) -> Self {
        let mut p = pack(m, B::W);
        if m.len() % B::W != 0 {
            let n = p.len();
            p[n - 1] |= garbage & mask(B::W) & !mask(m.len() % B::W);
        }
        ByBlock { len: m.len(), blocks: p.into_iter().map(B::of).collect() }
    }
}
impl<B: Blk> BitVec for ByBlock<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.len as u64
    }
    fn get_block(&self, i: usize) -> B {
        self.blocks[i]
    }
}
impl<B: Blk> BitVecMut for ByBlock<B> {
    fn set_block(&mut self, i: usize, v: B) {
        self.blocks[i] = v
    }
}

/// Contents computed, never stored; refuses any access outside.
#[derive(Clone, Copy)]
pub struct Virtual<B> {
    pub len: u64,
    pub f: fn(usize) -> u64,
    p: PhantomData<B>,
}
impl<B: Blk> Virtual<B> {
    pub fn new(len: u64, f: fn(usize) -> u64) -> Self {
        Virtual { len, f, p: PhantomData }
    }
}
impl<B: Blk> BitVec for Virtual<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.len
    }
    fn get_block(&self, i: usize) -> B {
        let n = (self.len as u128 + B::W as u128 - 1) / B::W as u128;
        assert!((i as u128) < n, "Virtual: block {} of {}", i, n);
        B::of((self.f)(i))
    }
}

/// Writable, growable contents of any length: computed, except where written. Defines only the by-bit methods.
#[derive(Clone)]
pub struct FarBit<B> {
    pub len: u64,
    pub f: fn(u64) -> bool,
    pub over: BTreeMap<u64, bool>,
    p: PhantomData<B>,
}
impl<B: Blk> FarBit<B> {
    pub fn new(len: u64, f: fn(u64) -> bool) -> Self {
        FarBit { len, f, over: BTreeMap::new(), p: PhantomData }
    }
}
impl<B: Blk> BitVec for FarBit<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.len
    }
    fn get_bit(&self, i: u64) -> bool {
        assert!(i < self.len, "FarBit: bit {} of {}", i, self.len);
        self.over.get(&i).cloned().unwrap_or_else(|| (self.f)(i))
    }
}
impl<B: Blk> BitVecMut for FarBit<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        assert!(i < self.len, "FarBit: bit {} of {}", i, self.len);
        self.over.insert(i, v);
    }
}
impl<B: Blk> BitVecPush for FarBit<B> {
    fn push_bit(&mut self, v: bool) {
        self.over.insert(self.len, v);
        self.len += 1;
    }
    fn pop_bit(&mut self) -> Option<bool> {
        if self.len == 0 {
            return None;
        }
        let v = self.get_bit(self.len - 1);
        self.len -= 1;
        Some(v)
    }
}

/// The same, but defining only the by-block methods; the unused bits of the last block hold what they like.
#[derive(Clone)]
pub struct FarBlock<B> {
    pub len: u64,
    pub f: fn(u64) -> bool,
    pub over: BTreeMap<usize, B>,
}
impl<B: Blk> FarBlock<B> {
    pub fn new(len: u64, f: fn(u64) -> bool) -> Self {
        FarBlock { len, f, over: BTreeMap::new() }
    }
    fn check(&self, i: usize) {
        let n = (self.len as u128 + B::W as u128 - 1) / B::W as u128;
        assert!((i as u128) < n, "FarBlock: block {} of {}", i, n);
    }
}
impl<B: Blk> BitVec for FarBlock<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.len
    }
    fn get_block(&self, i: usize) -> B {
        self.check(i);
        self.over.get(&i).cloned().unwrap_or_else(|| B::of((0..B::W as u64).fold(0, |x, k| x | ((self.f)((i as u64 * B::W as u64).wrapping_add(k)) as u64) << k)))
    }
}
impl<B: Blk> BitVecMut for FarBlock<B> {
    fn set_block(&mut self, i: usize, v: B) {
        self.check(i);
        self.over.insert(i, v);
    }
}

// ---------------------------------------------------------------- every implementation, from plain bits

use crate::vecs::{bv_from, iv_from};
use succinct::stream::BitBuffer;
use succinct::{BitVector, IntVector};

/// A mutable bit-vector implementation that can be built holding given bits, in several ways.
pub trait Store: BitVecMut + Clone
where
    Self::Block: Blk,
{
    fn variants(m: &[bool]) -> Vec<(String, Self)>;
}

impl<B: Blk> Store for BitVector<B> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        let mut longer = BitVector::<B>::with_fill(m.len() as u64 + 2 * B::W as u64 + 1, true);
        longer.truncate(m.len() as u64);
        for (i, &b) in m.iter().enumerate() {
            longer.set_bit(i as u64, b)
        }
        vec![(format!("BitVector<{}>", B::NAME), bv_from(m)), (format!("BitVector<{}> cut from a longer one", B::NAME), longer)]
    }
}
impl<B: Blk> Store for Vec<B> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        if m.len() % B::W != 0 {
            return vec![];
        }
        vec![(format!("Vec<{}>", B::NAME), pack(m, B::W).into_iter().map(B::of).collect())]
    }
}
impl Store for Vec<bool> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        vec![("Vec<bool>".to_string(), m.to_vec())]
    }
}
impl<B: Blk> Store for IntVector<B> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        let mut v = vec![];
        for k in 1..=B::W {
            if m.len() % k == 0 && (k < 4 || k == B::W || k == B::W - 1 || k == B::W / 2 + 1 || k == 7) && (k > 1 || B::W < 16) {
                v.push((format!("IntVector<{}>({})", B::NAME, k), iv_from::<B>(k, m)));
            }
        }
        v
    }
}
impl<B: Blk> Store for BitBuffer<BitVector<B>> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        let mut v = vec![];
        for p in [0, m.len() as u64 / 2, m.len() as u64] {
            let mut b = BitBuffer::from(bv_from::<B>(m));
            b.seek(p).expect("HARNESS: seek");
            v.push((format!("BitBuffer<BitVector<{}>> at {}", B::NAME, p), b));
        }
        v
    }
}
impl<B: Blk> Store for ByBit<B> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        vec![(format!("user store by bit<{}>", B::NAME), ByBit::new(m))]
    }
}
impl<B: Blk> Store for ByBlock<B> {
    fn variants(m: &[bool]) -> Vec<(String, Self)> {
        let mut v = vec![];
        for g in [u64::MAX, 0, mix(7)] {
            v.push((format!("user store by block<{}> with unused bits {:#x}", B::NAME, g), ByBlock::new(m, g)));
        }
        v
    }
}
macro_rules! prim_store {
    ($($t:ident),*) => {$(
        impl Store for $t {
            fn variants(m: &[bool]) -> Vec<(String, Self)> {
                if m.len() != <$t as Blk>::W {
                    return vec![];
                }
                vec![(stringify!($t).to_string(), pack(m, <$t as Blk>::W)[0] as $t)]
            }
        })*
    }
}
prim_store!(u8, u16, u32, u64, usize);

/// The bits of a store, one by one.
pub fn raw<V: BitVec + ?Sized>(v: &V) -> Vec<bool> {
    (0..v.bit_len()).map(|i| v.get_bit(i)).collect()
}
