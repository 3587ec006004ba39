//! Reads and writes at places up to 2^64 in writable stores of any length.

use crate::bits::*;
use crate::*;
use std::collections::BTreeMap;
use succinct::{BitVec, BitVecMut};

/// Lengths around every power of two, and near the top.
pub fn lengths(from: u32) -> Vec<u64> {
    let mut v = vec![];
    for k in from..64u32 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 69]);
    }
    v.extend([(1 << 63) + (1 << 32), (3 << 32) + 7, u64::MAX - 64, u64::MAX - 1, u64::MAX]);
    v
}

/// Places to look at in something of `len` bits.
pub fn places(w: u64, len: u64, all: bool) -> Vec<u64> {
    let mut v = vec![0, 1, w, len / 2];
    for k in 3..64u32 {
        if all || k % 8 == 0 || k == 31 {
            v.extend([(1u64 << k) - 1, 1 << k, (1u64 << k).wrapping_sub(w / 2)]);
        }
    }
    for d in [1, 2, w - 1, w, w + 1, 2 * w] {
        v.push(len.wrapping_sub(d));
    }
    v.push(if len % w == 0 { len.wrapping_sub(w / 2) } else { len - len % w });
    v.retain(|&p| p < len);
    v.sort();
    v.dedup();
    v
}

/// The bits a store should have: bit `off + i` of the computed ones, except where written.
pub struct Want {
    pub off: u64,
    pub len: u64,
    pub f: fn(u64) -> bool,
    pub over: BTreeMap<u64, bool>,
    /// the unused bits of the last block read as zero
    pub strict: bool,
}
impl Want {
    pub fn bit(&self, i: u64) -> bool {
        self.over.get(&(self.off + i)).cloned().unwrap_or_else(|| (self.f)(self.off + i))
    }
    pub fn bits(&self, i: u64, c: u64) -> u64 {
        (0..c).fold(0, |x, k| x | (self.bit(i + k) as u64) << k)
    }
    pub fn set(&mut self, i: u64, c: u64, x: u64) {
        for k in 0..c {
            self.over.insert(self.off + i + k, x >> k & 1 == 1);
        }
    }
}

/// Every view at and around place `p`.
pub fn look<V: BitVec + ?Sized>(wk: &mut W, name: &dyn Fn() -> String, v: &V, m: &Want, p: u64) -> R
where
    V::Block: Blk,
{
    let w = V::Block::W as u64;
    wk.transitions += 30;
    chk!(v.bit_len() == m.len, "far", "{}: length {}", name(), v.bit_len());
    let bl = (m.len as u128 + w as u128 - 1) / w as u128;
    chk!(v.block_len() as u128 == bl, "far", "{}: {} blocks", name(), v.block_len());
    for i in p.saturating_sub(2)..p.saturating_add(3).min(m.len) {
        let g = ok!(v.get_bit(i), "far", "{}: get_bit({})", name(), i);
        chk!(g == m.bit(i), "far", "{}: get_bit({}) is {}", name(), i, g);
    }
    for s in [p.saturating_sub(1), p, p.saturating_add(1)] {
        for c in [0, 1, 2, w / 2, w - 1, w] {
            if s <= m.len && c <= m.len - s {
                let g = ok!(v.get_bits(s, c as usize).u(), "far", "{}: get_bits({}, {})", name(), s, c);
                chk!(g == m.bits(s, c), "far", "{}: get_bits({}, {}) = {:#x}, expected {:#x}", name(), s, c, g, m.bits(s, c));
            }
        }
    }
    for b in [(p / w).saturating_sub(1), p / w, p / w + 1] {
        if (b as u128) < bl {
            let c = w.min(m.len - b * w);
            let g = ok!(v.get_block(b as usize).u(), "far", "{}: get_block({})", name(), b);
            let g = if m.strict { g } else { g & mask(c as usize) };
            chk!(g == m.bits(b * w, c), "far", "{}: get_block({}) = {:#x}, expected {:#x}", name(), b, g, m.bits(b * w, c));
        }
    }
    Ok(())
}

/// Every kind of write at place `p`, each followed by all views.
pub fn writes<V: BitVecMut + ?Sized>(wk: &mut W, name: &dyn Fn() -> String, v: &mut V, m: &mut Want, p: u64) -> R
where
    V::Block: Blk,
{
    let w = V::Block::W as u64;
    look(wk, name, v, m, p)?;
    wk.step();
    let x = !m.bit(p);
    ok!(v.set_bit(p, x), "far", "{}: set_bit({}, {})", name(), p, x);
    m.set(p, 1, x as u64);
    look(wk, &|| format!("{} after set_bit({}, {})", name(), p, x), v, m, p)?;
    for c in [1, w / 2 + 1, w - 1, w] {
        if c <= m.len - p {
            wk.step();
            let x = !m.bits(p, c);
            ok!(v.set_bits(p, c as usize, V::Block::of(x & mask(w as usize))), "far", "{}: set_bits({}, {}, {:#x})", name(), p, c, x);
            m.set(p, c, x);
            let what = || format!("{} after set_bits({}, {}, {:#x})", name(), p, c, x);
            look(wk, &what, v, m, p)?;
            look(wk, &what, v, m, p + c - 1)?;
        }
    }
    wk.step();
    let b = p / w;
    let c = w.min(m.len - b * w);
    let x = !m.bits(b * w, c) & mask(w as usize);
    ok!(v.set_block(b as usize, V::Block::of(x)), "far", "{}: set_block({}, {:#x})", name(), b, x);
    m.set(b * w, c, x);
    look(wk, &|| format!("{} after set_block({}, {:#x})", name(), b, x), v, m, p)?;
    wk.tick();
    Ok(())
}
