//! BitVector / IntVector driven in lock step with plain sequences.

use crate::bits::*;
use crate::same;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

/// Two values that must be indistinguishable to every comparison, in both directions.
pub fn same_value<T: Ord + std::hash::Hash + Clone>(a: &T, b: &T) -> Result<(), String> {
    use std::cmp::Ordering::Equal;
    for (a, b) in [(a, b), (b, a)] {
        same!("== with the same contents", a == b, true);
        same!("!= with the same contents", a != b, false);
        same!("cmp with the same contents", a.cmp(b), Equal);
        same!("partial_cmp with the same contents", a.partial_cmp(b), Some(Equal));
        same!("< with the same contents", a < b, false);
        same!("> with the same contents", a > b, false);
        same!("<= with the same contents", a <= b, true);
        same!(">= with the same contents", a >= b, true);
    }
    same!("hash equality with the same contents", hash_of(a), hash_of(b));
    Ok(())
}

/// Observation through the bit-vector interface against plain bits. `full` reads every span.
pub fn agree_bits<V: BitVec + ?Sized>(v: &V, m: &[bool], full: bool) -> Result<(), String>
where
    V::Block: Blk,
{
    let w = V::Block::W;
    same!("bit_len", v.bit_len(), m.len() as u64);
    let bl = (m.len() + w - 1) / w;
    same!("block_len", v.block_len(), bl);
    for i in 0..m.len() {
        let g = v.get_bit(i as u64);
        if g != m[i] {
            return Err(format!("get_bit({}): got {}, expected {}", i, g, m[i]));
        }
    }
    let p = pack(m, w);
    for (i, &e) in p.iter().enumerate() {
        let valid = mask((m.len() - i * w).min(w));
        let g = v.get_block(i).u() & valid;
        if g != e {
            return Err(format!("get_block({}): got {:#x}, expected {:#x}", i, g, e));
        }
    }
    if full {
        for s in 0..=m.len() {
            for c in 0..=w.min(m.len() - s) {
                let g = v.get_bits(s as u64, c).u();
                let e = field(m, s, c);
                if g != e {
                    return Err(format!("get_bits({}, {}): got {:#x}, expected {:#x}", s, c, g, e));
                }
            }
        }
    }
    Ok(())
}

/// As `agree_bits(full)` with every span start but only interesting counts (for wide blocks).
pub fn agree_spans<V: BitVec + ?Sized>(v: &V, m: &[bool]) -> Result<(), String>
where
    V::Block: Blk,
{
    let w = V::Block::W;
    let p = pack(m, 64);
    let fieldp = |s: usize, c: usize| -> u64 {
        if c == 0 {
            return 0;
        }
        let lo = p[s / 64] >> (s % 64);
        let hi = if s % 64 != 0 && s / 64 + 1 < p.len() { p[s / 64 + 1] << (64 - s % 64) } else { 0 };
        (lo | hi) & mask(c)
    };
    for s in 0..=m.len() {
        let top = w.min(m.len() - s);
        for c in 0..=top {
            if w > 16 && !(c < 3 || c + 3 > w || c == w - s % w || c == w - s % w + 1 || c == top || c == w / 2) {
                continue;
            }
            let g = v.get_bits(s as u64, c).u();
            let e = fieldp(s, c);
            if g != e {
                return Err(format!("get_bits({}, {}): got {:#x}, expected {:#x}", s, c, g, e));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- BitVector

#[derive(Clone, Debug, PartialEq)]
pub enum BOp {
    New,
    Default,
    WithCapacity(u64),
    BlockWithCapacity(usize),
    WithFill(u64, bool),
    BlockWithFill(usize, u64),
    CloneIt,
    PushBit(bool),
    PopBit,
    PushBlock(u64),
    Align(bool),
    SetBit(u64, bool),
    SetBits(u64, usize, u64),
    SetBlock(usize, u64),
    Truncate(u64),
    BlockTruncate(usize),
    Resize(u64, bool),
    BlockResize(usize, u64),
    Clear,
    Reserve(u64),
    ReserveExact(u64),
    BlockReserve(usize),
    BlockReserveExact(usize),
    Shrink,
}

pub fn bm_resize_blocks(m: &mut Vec<bool>, w: usize, n: usize, x: u64) {
    bm_resize_blocks_with(m, w, n, |i| x >> i & 1 == 1)
}
pub fn bm_resize_blocks_with(m: &mut Vec<bool>, w: usize, n: usize, bit: impl Fn(usize) -> bool) {
    let have = (m.len() + w - 1) / w;
    if n > have {
        m.resize(have * w, false);
        for _ in have..n {
            for i in 0..w {
                m.push(bit(i));
            }
        }
    } else {
        // growing up to the end of the last kept block pads with zeros
        m.resize(n * w, false);
    }
}

/// Effect of an operation on the ideal sequence; None = operation returns something else of interest.
pub fn bmodel(m: &mut Vec<bool>, op: &BOp, w: usize) {
    use self::BOp::*;
    match *op {
        New | Default | WithCapacity(_) | BlockWithCapacity(_) | Clear => m.clear(),
        WithFill(n, b) => {
            m.clear();
            m.resize(n as usize, b)
        }
        BlockWithFill(n, x) => {
            m.clear();
            bm_resize_blocks(m, w, n, x)
        }
        CloneIt | Reserve(_) | ReserveExact(_) | BlockReserve(_) | BlockReserveExact(_) | Shrink => {}
        PushBit(b) => m.push(b),
        PopBit => {
            m.pop();
        }
        PushBlock(x) => {
            let have = (m.len() + w - 1) / w;
            bm_resize_blocks(m, w, have + 1, x)
        }
        Align(b) => {
            while m.len() % w != 0 {
                m.push(b)
            }
        }
        SetBit(i, b) => m[i as usize] = b,
        SetBits(s, c, x) => set_field(m, s as usize, c, x),
        SetBlock(i, x) => {
            for j in 0..w {
                if i * w + j < m.len() {
                    m[i * w + j] = x >> j & 1 == 1
                }
            }
        }
        Truncate(n) => {
            if (n as usize) < m.len() {
                m.truncate(n as usize)
            }
        }
        BlockTruncate(n) => {
            if n < (m.len() + w - 1) / w {
                m.truncate(n * w)
            }
        }
        Resize(n, b) => m.resize(n as usize, b),
        BlockResize(n, x) => bm_resize_blocks(m, w, n, x),
    }
}

/// Runs the real operation; returns a popped bit.
pub fn breal<B: Blk>(v: &mut BitVector<B>, op: &BOp) -> Option<Option<bool>> {
    use self::BOp::*;
    match *op {
        New => *v = BitVector::new(),
        Default => *v = ::std::default::Default::default(),
        WithCapacity(n) => *v = BitVector::with_capacity(n),
        BlockWithCapacity(n) => *v = BitVector::block_with_capacity(n),
        WithFill(n, b) => *v = BitVector::with_fill(n, b),
        BlockWithFill(n, x) => *v = BitVector::block_with_fill(n, B::of(x)),
        CloneIt => *v = v.clone(),
        PushBit(b) => v.push_bit(b),
        PopBit => return Some(v.pop_bit()),
        PushBlock(x) => v.push_block(B::of(x)),
        Align(b) => v.align_block(b),
        SetBit(i, b) => v.set_bit(i, b),
        SetBits(s, c, x) => v.set_bits(s, c, B::of(x)),
        SetBlock(i, x) => v.set_block(i, B::of(x)),
        Truncate(n) => v.truncate(n),
        BlockTruncate(n) => v.block_truncate(n),
        Resize(n, b) => v.resize(n, b),
        BlockResize(n, x) => v.block_resize(n, B::of(x)),
        Clear => v.clear(),
        Reserve(n) => v.reserve(n),
        ReserveExact(n) => v.reserve_exact(n),
        BlockReserve(n) => v.block_reserve(n),
        BlockReserveExact(n) => v.block_reserve_exact(n),
        Shrink => v.shrink_to_fit(),
    }
    None
}

#[derive(Clone)]
pub struct BvSys<B: Blk> {
    pub v: BitVector<B>,
    pub m: Vec<bool>,
    pub maxlen: usize,
    /// alphabet size: 0 small, 1 medium, 2 full
    pub alpha: u8,
    pub strict: bool,
}

/// The canonical way to make a vector with these contents.
pub fn bv_from<B: Blk>(m: &[bool]) -> BitVector<B> {
    let mut v = BitVector::new();
    for &b in m {
        v.push_bit(b)
    }
    v
}

impl<B: Blk> BvSys<B> {
    pub fn start(m: Vec<bool>, maxlen: usize, alpha: u8) -> Self {
        BvSys { v: bv_from(&m), m, maxlen, alpha, strict: false }
    }
}

/// All operations applicable to a vector of `len` bits.
pub fn bops(w: usize, len: usize, maxlen: usize, alpha: u8) -> Vec<BOp> {
    use self::BOp::*;
    let mut o = vec![PushBit(true), PushBit(false), PopBit, Clear, CloneIt, Shrink];
    let ps = pats(w);
    let bl = (len + w - 1) / w;
    let near = |i: usize| -> bool {
        i < 2 || i + 3 > len || i % w < 2 || i % w + 2 > w || (w > 8 && i % w == w / 2)
    };
    o.push(Align(false));
    o.push(Align(true));
    for &p in if alpha == 0 { &ps[1..2] } else { &ps[..] } {
        o.push(PushBlock(p));
    }
    for i in 0..len {
        if alpha >= 2 || near(i) {
            o.push(SetBit(i as u64, true));
            o.push(SetBit(i as u64, false));
        }
    }
    for s in 0..=len {
        if alpha < 2 && !near(s) {
            continue;
        }
        for c in 0..=w.min(len - s) {
            if alpha < 2 && !(c == 1 || c == w || c == len - s || c == w - 1 || c == w / 2 || (c + s) % w == 1) {
                continue;
            }
            if alpha == 2 && w > 16 && !(c < 3 || c + 3 > w || (s + c) % w < 2 || s + c == len || c % 7 == 3) {
                continue;
            }
            for &p in if alpha == 0 { &ps[1..2] } else { &ps[..] } {
                // value with and without bits above the field
                let lo = p & mask(c);
                o.push(SetBits(s as u64, c, p));
                if alpha == 2 && lo != p && w <= 16 {
                    o.push(SetBits(s as u64, c, lo));
                }
                if alpha == 2 && c > 0 && c < w && w <= 16 {
                    o.push(SetBits(s as u64, c, mask(w) & !mask(c)));
                }
            }
        }
    }
    for i in 0..bl {
        for &p in &ps {
            o.push(SetBlock(i, p));
        }
    }
    for n in 0..=(maxlen + 2) {
        let nn = n.abs_diff(len) < 3 || n % w < 2 || n % w + 1 == w;
        if alpha >= 2 || nn {
            o.push(Resize(n as u64, true));
            o.push(Resize(n as u64, false));
        }
        if n <= len + 2 && (alpha >= 2 || nn) {
            o.push(Truncate(n as u64));
        }
    }
    o.push(Truncate(u64::MAX));
    o.push(BlockTruncate(usize::MAX));
    for n in 0..=(maxlen + w + 1) / w {
        for &p in if alpha == 0 { &ps[..2] } else { &ps[..] } {
            o.push(BlockResize(n, p));
        }
        o.push(BlockTruncate(n));
    }
    for n in [0, 1, 2 * w, 2 * w + 1] {
        o.push(Reserve(n as u64));
        o.push(ReserveExact(n as u64));
        o.push(BlockReserve(n / w));
        o.push(BlockReserveExact(n / w));
    }
    if alpha >= 2 {
        o.push(New);
        o.push(Default);
        o.push(WithCapacity(w as u64 + 1));
        o.push(BlockWithCapacity(2));
        for n in 0..=maxlen {
            o.push(WithFill(n as u64, true));
            o.push(WithFill(n as u64, false));
        }
        for n in 0..=maxlen / w {
            for &p in &ps {
                o.push(BlockWithFill(n, p));
            }
        }
    }
    o
}

impl<B: Blk> Sys for BvSys<B> {
    type Op = BOp;
    fn key(&self) -> Vec<u8> {
        let mut k = (self.v.bit_len() as u32).to_le_bytes().to_vec();
        for i in 0..self.v.block_len() {
            k.extend_from_slice(&self.v.get_block(i).u().to_le_bytes()[..B::W / 8]);
        }
        // the derived hash covers the whole private state
        k.extend_from_slice(&hash_of(&self.v).to_le_bytes());
        k
    }
    fn ops(&self) -> Vec<BOp> {
        bops(B::W, self.m.len(), self.maxlen, self.alpha)
    }
    fn apply(&mut self, op: &BOp) -> Result<(), String> {
        let before = if *op == BOp::PopBit { Some(self.m.last().copied()) } else { None };
        let v = &mut self.v;
        let got = np("operation", || breal(v, op))?;
        if let Some(e) = before {
            same!("pop_bit", got, Some(e));
        }
        bmodel(&mut self.m, op, B::W);
        Ok(())
    }
    fn agree(&self) -> Result<(), String> {
        np("reading", || agree_bits(&self.v, &self.m, false))??;
        if self.strict {
            np("comparing", || -> Result<(), String> {
                let c = bv_from::<B>(&self.m);
                same_value(&self.v, &c)
            })??
        }
        Ok(())
    }
    fn observe(&self) -> Result<(), String> {
        np("reading", || if B::W <= 8 { agree_bits(&self.v, &self.m, true) } else { agree_spans(&self.v, &self.m) })??;
        np("iterating", || -> Result<(), String> {
            let got: Vec<bool> = self.v.iter().collect();
            same!("iterated contents", bitstr(&got), bitstr(&self.m));
            Ok(())
        })?
    }
    fn in_bound(&self) -> bool {
        self.m.len() <= self.maxlen
    }
    fn show(&self) -> String {
        format!("BitVector<{}> {}", B::NAME, if self.m.is_empty() { "(empty)".into() } else { bitstr(&self.m) })
    }
}

// ---------------------------------------------------------------- IntVector

#[derive(Clone, Debug, PartialEq)]
pub enum IOp {
    New,
    WithCapacity(u64),
    BlockWithCapacity(usize),
    WithFill(u64, u64),
    BlockWithFill(usize, u64),
    CloneIt,
    Push(u64),
    /// value too wide: must be rejected, changing nothing
    PushBad(u64),
    Pop,
    Set(u64, u64),
    SetBad(u64, u64),
    SetBit(u64, bool),
    SetBits(u64, usize, u64),
    SetBlock(usize, u64),
    /// offset, width, index, value
    SetRandom(u64, usize, u64, u64),
    Truncate(u64),
    BlockTruncate(usize),
    Resize(u64, u64),
    BlockResize(usize, u64),
    Clear,
    Reserve(u64),
    ReserveExact(u64),
    BlockReserve(usize),
    BlockReserveExact(usize),
    Shrink,
}

fn push_int(m: &mut Vec<bool>, k: usize, x: u64) {
    for i in 0..k {
        m.push(x >> i & 1 == 1)
    }
}
fn im_blocks(m: &mut Vec<bool>, w: usize, k: usize, n: usize, x: u64) {
    bm_resize_blocks(m, w, n, x);
    let keep = m.len() / k * k;
    m.truncate(keep);
}

/// m is the packed bits, a multiple of k long
pub fn imodel(m: &mut Vec<bool>, op: &IOp, w: usize, k: usize) {
    use self::IOp::*;
    match *op {
        New | WithCapacity(_) | BlockWithCapacity(_) | Clear => m.clear(),
        WithFill(n, x) => {
            m.clear();
            for _ in 0..n {
                push_int(m, k, x)
            }
        }
        BlockWithFill(n, x) => {
            m.clear();
            im_blocks(m, w, k, n, x)
        }
        CloneIt | Reserve(_) | ReserveExact(_) | BlockReserve(_) | BlockReserveExact(_) | Shrink => {}
        PushBad(_) | SetBad(_, _) => {}
        Push(x) => push_int(m, k, x),
        Pop => {
            let n = m.len().saturating_sub(k);
            m.truncate(n)
        }
        Set(i, x) => set_field(m, i as usize * k, k, x),
        SetBit(i, b) => m[i as usize] = b,
        SetBits(s, c, x) => set_field(m, s as usize, c, x),
        SetBlock(i, x) => {
            for j in 0..w {
                if i * w + j < m.len() {
                    m[i * w + j] = x >> j & 1 == 1
                }
            }
        }
        SetRandom(off, c, i, x) => set_field(m, off as usize + c * i as usize, c, x),
        Truncate(n) => {
            if n < (m.len() / k) as u64 {
                m.truncate(n as usize * k)
            }
        }
        BlockTruncate(n) => {
            if n < (m.len() + w - 1) / w {
                m.truncate(n * w);
                let keep = m.len() / k * k;
                m.truncate(keep)
            }
        }
        Resize(n, x) => {
            let have = m.len() / k;
            if (n as usize) < have {
                m.truncate(n as usize * k)
            } else {
                for _ in have..n as usize {
                    push_int(m, k, x)
                }
            }
        }
        BlockResize(n, x) => im_blocks(m, w, k, n, x),
    }
}

pub fn ireal<B: Blk>(v: &mut IntVector<B>, op: &IOp) -> Option<Option<B>> {
    use self::IOp::*;
    let k = v.element_bits();
    match *op {
        New => *v = IntVector::new(k),
        WithCapacity(n) => *v = IntVector::with_capacity(k, n),
        BlockWithCapacity(n) => *v = IntVector::block_with_capacity(k, n),
        WithFill(n, x) => *v = IntVector::with_fill(k, n, B::of(x)),
        BlockWithFill(n, x) => *v = IntVector::block_with_fill(k, n, B::of(x)),
        CloneIt => *v = v.clone(),
        Push(x) | PushBad(x) => v.push(B::of(x)),
        Pop => return Some(v.pop()),
        Set(i, x) | SetBad(i, x) => v.set(i, B::of(x)),
        SetBit(i, b) => v.set_bit(i, b),
        SetBits(s, c, x) => v.set_bits(s, c, B::of(x)),
        SetBlock(i, x) => v.set_block(i, B::of(x)),
        SetRandom(off, c, i, x) => v.set_random(off, c, i, B::of(x)),
        Truncate(n) => v.truncate(n),
        BlockTruncate(n) => v.block_truncate(n),
        Resize(n, x) => v.resize(n, B::of(x)),
        BlockResize(n, x) => v.block_resize(n, B::of(x)),
        Clear => v.clear(),
        Reserve(n) => v.reserve(n),
        ReserveExact(n) => v.reserve_exact(n),
        BlockReserve(n) => v.block_reserve(n),
        BlockReserveExact(n) => v.block_reserve_exact(n),
        Shrink => v.shrink_to_fit(),
    }
    None
}

#[derive(Clone)]
pub struct IvSys<B: Blk> {
    pub k: usize,
    pub v: IntVector<B>,
    pub m: Vec<bool>,
    /// bound in elements
    pub maxn: usize,
    pub alpha: u8,
    pub strict: bool,
}

pub fn iv_from<B: Blk>(k: usize, m: &[bool]) -> IntVector<B> {
    let mut v = IntVector::new(k);
    for i in 0..m.len() / k {
        v.push(B::of(field(m, i * k, k)))
    }
    v
}

impl<B: Blk> IvSys<B> {
    pub fn start(k: usize, m: Vec<bool>, maxn: usize, alpha: u8) -> Self {
        IvSys { k, v: iv_from(k, &m), m, maxn, alpha, strict: false }
    }
}

/// Values of k bits, all of them for k <= 3
pub fn kvals(k: usize) -> Vec<u64> {
    if k <= 3 {
        (0..1u64 << k).collect()
    } else {
        let mut v: Vec<u64> = vec![0, mask(k), 1, 1 << (k - 1), 0x5555_5555_5555_5555 & mask(k), mix(k as u64) & mask(k)];
        v.dedup();
        v
    }
}

pub fn iops(w: usize, k: usize, n: usize, maxn: usize, alpha: u8) -> Vec<IOp> {
    use self::IOp::*;
    let bits = n * k;
    let bl = (bits + w - 1) / w;
    let kv = kvals(k);
    let some: &[u64] = if alpha == 0 { &kv[1..2] } else { &kv };
    let ps = pats(w);
    let mut o = vec![];
    for &x in some {
        o.push(Push(x));
    }
    if k < w {
        o.push(PushBad(1 << k));
        o.push(PushBad(mask(w)));
        o.push(PushBad(1 << (w - 1)));
    }
    o.extend([Pop, Clear, CloneIt, Shrink]);
    let nearby = |i: usize, len: usize| i < 2 || i + 2 >= len || (i * k) % w < k || (i * k + k) % w < k;
    for i in 0..n {
        if alpha < 2 && !nearby(i, n) {
            continue;
        }
        for &x in some {
            o.push(Set(i as u64, x));
        }
        if k < w && (i == 0 || i + 1 == n) {
            o.push(SetBad(i as u64, 1 << k));
            o.push(SetBad(i as u64, mask(w)));
        }
    }
    let nearbit = |i: usize| i < 2 || i + 2 >= bits || i % w < 2 || i % w + 2 > w || i % k == 0;
    for i in 0..bits {
        if (alpha >= 2 && bits <= 24) || (nearbit(i) && i % 3 != 1) {
            o.push(SetBit(i as u64, true));
            o.push(SetBit(i as u64, false));
        }
    }
    for s in 0..=bits {
        if !(alpha >= 2 && bits <= 24) && !(i_near(s, w) || s + 1 >= bits) {
            continue;
        }
        for c in 0..=w.min(bits - s) {
            if !(alpha >= 2 && bits <= 24)
                && !(c == 1 || c == w || c == bits - s || c + 1 == w || c == k || (c + s) % w == 1)
            {
                continue;
            }
            for &p in if alpha == 0 { &ps[1..2] } else { &ps[..] } {
                o.push(SetBits(s as u64, c, p));
            }
        }
    }
    for i in 0..bl {
        for &p in &ps {
            o.push(SetBlock(i, p));
        }
    }
    // arbitrary-width fields
    for c in 1..=w {
        if !(alpha >= 2 && w <= 8) && !(c == k || c == w || c == 1 || c == k / 2 + 1 || c + 1 == w) {
            continue;
        }
        for off in 0..=3usize.min(bits) {
            for i in 0..=(bits / c) {
                if off + (i + 1) * c > bits {
                    continue;
                }
                if !(alpha >= 2 && bits <= 24) && !(i < 2 || off + (i + 2) * c > bits || (off + i * c) % w < c) {
                    continue;
                }
                o.push(SetRandom(off as u64, c, i as u64, mask(c)));
                o.push(SetRandom(off as u64, c, i as u64, 0));
                if alpha > 0 {
                    o.push(SetRandom(off as u64, c, i as u64, 0x5555_5555_5555_5555 & mask(c)));
                }
            }
        }
    }
    for j in 0..=(maxn + 1) {
        if alpha >= 2 || j.abs_diff(n) < 2 || (j * k) % w < k {
            for &x in some {
                o.push(Resize(j as u64, x));
            }
            if j <= n + 1 {
                o.push(Truncate(j as u64));
            }
        }
    }
    o.push(Truncate(u64::MAX));
    o.push(BlockTruncate(usize::MAX));
    for b in 0..=((maxn * k + w) / w) {
        for &p in if alpha == 0 { &ps[1..2] } else { &ps[..] } {
            o.push(BlockResize(b, p));
        }
        o.push(BlockTruncate(b));
    }
    for j in [0, 1, 5] {
        o.push(Reserve(j));
        o.push(ReserveExact(j));
        o.push(BlockReserve(j as usize));
        o.push(BlockReserveExact(j as usize));
    }
    if alpha >= 2 {
        o.push(New);
        o.push(WithCapacity(3));
        o.push(BlockWithCapacity(2));
        for j in 0..=maxn {
            for &x in some {
                o.push(WithFill(j as u64, x));
            }
        }
        for b in 0..=(maxn * k / w) {
            for &p in &ps {
                o.push(BlockWithFill(b, p));
            }
        }
    }
    o
}
fn i_near(i: usize, w: usize) -> bool {
    i < 2 || i % w < 2 || i % w + 2 > w
}

impl<B: Blk> Sys for IvSys<B> {
    type Op = IOp;
    fn key(&self) -> Vec<u8> {
        let mut k = (self.v.len() as u32).to_le_bytes().to_vec();
        for i in 0..self.v.block_len() {
            k.extend_from_slice(&self.v.get_block(i).u().to_le_bytes()[..B::W / 8]);
        }
        k.extend_from_slice(&hash_of(&self.v).to_le_bytes());
        k
    }
    fn ops(&self) -> Vec<IOp> {
        iops(B::W, self.k, self.m.len() / self.k, self.maxn, self.alpha)
    }
    fn apply(&mut self, op: &IOp) -> Result<(), String> {
        let k = self.k;
        let n = self.m.len();
        let before =
            if *op == IOp::Pop { Some(if n == 0 { None } else { Some(B::of(field(&self.m, n - k, k))) }) } else { None };
        let v = &mut self.v;
        if matches!(op, IOp::PushBad(_) | IOp::SetBad(_, _)) {
            let v0 = v.clone();
            match crate::guard(|| ireal(v, op)) {
                Ok(_) => return Err(format!("{:?} with a value wider than {} bits was not rejected", op, k)),
                Err(()) => same!("contents after rejection equal contents before", *v == v0, true),
            }
            return Ok(());
        }
        let got = np("operation", || ireal(v, op))?;
        if let Some(e) = before {
            same!("pop", got, Some(e));
        }
        imodel(&mut self.m, op, B::W, k);
        Ok(())
    }
    fn agree(&self) -> Result<(), String> {
        np("reading", || -> Result<(), String> {
            let n = self.m.len() / self.k;
            same!("len", self.v.len(), n as u64);
            same!("is_empty", self.v.is_empty(), n == 0);
            same!("element_bits", self.v.element_bits(), self.k);
            for i in 0..n {
                let g = self.v.get(i as u64).u();
                let e = field(&self.m, i * self.k, self.k);
                if g != e {
                    return Err(format!("get({}): got {:#x}, expected {:#x}", i, g, e));
                }
            }
            agree_bits(&self.v, &self.m, false)
        })??;
        if self.strict {
            np("comparing", || -> Result<(), String> {
                let c = iv_from::<B>(self.k, &self.m);
                same_value(&self.v, &c)
            })??
        }
        Ok(())
    }
    fn observe(&self) -> Result<(), String> {
        np("reading", || -> Result<(), String> {
            let bits = self.m.len();
            agree_spans(&self.v, &self.m)?;
            let got: Vec<u64> = self.v.iter().map(|x| x.u()).collect();
            let want: Vec<u64> = (0..bits / self.k).map(|i| field(&self.m, i * self.k, self.k)).collect();
            same!("iterated elements", got, want);
            same!("is_block_sized", self.v.is_block_sized(), self.k == B::W);
            same!("is_aligned", self.v.is_aligned(), B::W % self.k == 0);
            for c in 1..=B::W {
                if B::W > 8 && !(c == self.k || c == B::W || c == 1 || c == self.k / 2 + 1 || c + 1 == B::W) {
                    continue;
                }
                for off in 0..=3usize.min(bits) {
                    for i in 0..=(bits / c) {
                        if off + (i + 1) * c <= bits {
                            let g = self.v.get_random(off as u64, c, i as u64).u();
                            let e = field(&self.m, off + i * c, c);
                            if g != e {
                                return Err(format!(
                                    "get_random({}, {}, {}): got {:#x}, expected {:#x}",
                                    off, c, i, g, e
                                ));
                            }
                        }
                    }
                }
            }
            Ok(())
        })?
    }
    fn in_bound(&self) -> bool {
        self.m.len() / self.k <= self.maxn
    }
    fn show(&self) -> String {
        format!(
            "IntVector<{}>({}) {:?}",
            B::NAME,
            self.k,
            (0..self.m.len() / self.k).map(|i| field(&self.m, i * self.k, self.k)).collect::<Vec<_>>()
        )
    }
}

// ---------------------------------------------------------------- depth-bounded search from seeds

/// Every operation sequence up to the given depths from one seed: alphabets[d] is used for the d-th operation.
pub fn from_seed<S: Sys>(
    w: &mut crate::W,
    name: &str,
    seed: &S,
    depth: usize,
    set_alpha: &dyn Fn(&mut S, usize),
    path: &mut Vec<String>,
    level: usize,
) -> crate::R {
    let mut s0 = seed.clone();
    set_alpha(&mut s0, level);
    for op in s0.ops() {
        let mut t = s0.clone();
        w.step();
        if level == 0 {
            w.tick();
        }
        let r = t.apply(&op).and_then(|_| t.agree());
        if let Err(e) = r {
            return crate::fail(name, format!("history: {}; {:?}\n  {}", path.join("; "), op, e));
        }
        w.traces += 1;
        if level + 1 < depth {
            path.push(format!("{:?}", op));
            from_seed(w, name, &t, depth, set_alpha, path, level + 1)?;
            path.pop();
        } else if w.traces % 20011 == 1 {
            let p = path.join("; ");
            w.sample(|| format!("{}; {:?} -> {}", p, op, t.show()));
        }
    }
    Ok(())
}
