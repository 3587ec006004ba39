//! Long vectors: sizes at which a length-dependent shortcut would take effect.

use crate::bits::*;
use crate::vecs::*;
use crate::{chk, fail, W, R};
use succinct::{BitVec, BitVecPush, BitVector, IntVec, IntVector};

/// Lengths in blocks: dense, then around powers of two and round decimal numbers.
pub fn long_blocks(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (3..if th { 140 } else { 20 }).collect();
    for k in 5..=(if th { 13 } else { 10 }) {
        v.push((1 << k) + 1);
        if th || k < 7 {
            v.extend([(1usize << k) - 1, 1 << k]);
        }
    }
    if th {
        v.extend([192, 200, 300, 500, 1000]);
    }
    v.sort();
    v.dedup();
    v
}

/// Blocks of a vector of `bl` blocks at which something might change.
pub fn mark_blocks(bl: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, bl / 2, bl.saturating_sub(3), bl.saturating_sub(2), bl.saturating_sub(1)];
    for k in 2..20 {
        for d in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            v.push(d);
            v.push(bl.saturating_sub(d));
        }
    }
    v.extend([100, 1000]);
    v.retain(|&b| b < bl);
    v.sort();
    v.dedup();
    v
}

/// Bit positions (<= len) around the marked blocks' boundaries.
pub fn marks(w: usize, len: usize) -> Vec<usize> {
    let mut v = vec![];
    for b in mark_blocks((len + w - 1) / w) {
        v.extend([b * w, b * w + 1, b * w + w - 1]);
    }
    v.extend([len.saturating_sub(1), len]);
    v.retain(|&p| p <= len);
    v.sort();
    v.dedup();
    v
}

pub fn long_bops(w: usize, len: usize) -> Vec<BOp> {
    use crate::vecs::BOp::*;
    let ps = pats(w);
    let (x, y) = (ps[1], ps[5]);
    let bl = (len + w - 1) / w;
    let mut o = vec![
        PushBit(true), PushBit(false), PopBit, PushBlock(x), PushBlock(y), Align(true), Align(false), CloneIt, Shrink, Clear,
        Reserve(1), Reserve(len as u64), ReserveExact(len as u64 + 1), BlockReserve(bl), BlockReserveExact(1),
        WithFill(len as u64, true), WithFill(len as u64, false), BlockWithFill(bl, y), BlockWithFill(bl, x),
        Truncate(u64::MAX), BlockTruncate(usize::MAX),
    ];
    for p in marks(w, len) {
        let q = p as u64;
        if p < len {
            o.extend([SetBit(q, true), SetBit(q, false)]);
        }
        for c in [1, w / 2, w - 1, w] {
            if p + c <= len {
                o.push(SetBits(q, c, y));
                if p % w + c > w {
                    o.push(SetBits(q, c, x));
                }
            }
        }
        o.extend([Truncate(q), Resize(q, true)]);
    }
    for b in mark_blocks(bl) {
        o.extend([SetBlock(b, y), SetBlock(b, !y), BlockTruncate(b), BlockResize(b, y)]);
    }
    // shrinking to every place within a block, by much and by little
    let mut bs = vec![0, 1, bl / 2, bl.saturating_sub(2)];
    bs.dedup();
    for b in bs {
        for p in b * w + 1..len.min(b * w + w) {
            o.push(if p % 3 == 1 { Resize(p as u64, false) } else { Truncate(p as u64) });
        }
    }
    for g in [1, w - 1, w, w + 1, 3 * w, 9 * w + 1, 33 * w + 5, 100 * w, 300 * w + 1] {
        o.extend([Resize((len + g) as u64, true), Resize((len + g) as u64, false)]);
    }
    for g in [0, 1, 2, 5, 9, 17, 40, 130, 300] {
        o.push(BlockResize(bl + g, y));
    }
    o
}

/// Every operation of the long alphabet on vectors of `blocks` blocks, then a growth that would reveal leftovers.
pub fn long_bv<B: Blk>(wk: &mut W, blocks: usize, strict: bool) -> R {
    let w = B::W;
    for len in [(blocks - 1) * w + 1, (blocks - 1) * w + w / 2 + 1, blocks * w - 1, blocks * w] {
        for kind in [1, 3] {
            let mut seed = BvSys::<B>::start(pattern(kind, len), usize::MAX, 0);
            seed.strict = strict;
            wk.state();
            let start = format!("start from {} bits (pattern {}) over {}", len, kind, B::NAME);
            if let Err(e) = seed.agree().and_then(|_| if strict { Ok(()) } else { seed.observe() }) {
                return fail("long", format!("{}\n  {}", start, short(e)));
            }
            for op in long_bops(w, len) {
                wk.tick();
                if wk.stopped() {
                    return Ok(());
                }
                let mut t = seed.clone();
                wk.step();
                if let Err(e) = t.apply(&op).and_then(|_| t.agree()) {
                    return fail("long", format!("history: {}; {:?}\n  {}", start, op, short(e)));
                }
                wk.traces += 1;
                let n = t.m.len();
                let more: &[BOp] = &match wk.traces % 3 {
                    0 => [BOp::Resize((n + w + 1) as u64, false), BOp::PopBit],
                    1 => [BOp::Align(false), BOp::PushBit(false)],
                    _ => [BOp::PushBit(false), BOp::PushBlock(pats(w)[5])],
                };
                for m in more {
                    wk.step();
                    if let Err(e) = t.apply(m) {
                        return fail("long", format!("history: {}; {:?}; {:?}\n  {}", start, op, more, short(e)));
                    }
                }
                if let Err(e) = t.agree() {
                    return fail("long", format!("history: {}; {:?}; {:?}\n  {}", start, op, more, short(e)));
                }
            }
        }
    }
    Ok(())
}

fn short(e: String) -> String {
    if e.len() > 2000 { format!("{}...", e.chars().take(2000).collect::<String>()) } else { e }
}

/// Bit by bit to `top` bits and back, and block by block, the end watched at every step.
pub fn ratchet_bv<B: Blk>(wk: &mut W, top: usize) -> R {
    let w = B::W;
    for mode in 0..3usize {
        let mut v = BitVector::<B>::new();
        let mut m: Vec<bool> = vec![];
        let tail = |v: &BitVector<B>, m: &[bool], what: &str| -> R {
            let n = m.len();
            chk!(v.bit_len() == n as u64 && v.block_len() == (n + w - 1) / w, "long", "{} ({}, mode {}): lengths {} / {} at {} bits", what, B::NAME, mode, v.bit_len(), v.block_len(), n);
            for i in (n.saturating_sub(w + 2)..n).chain(0..n.min(2)) {
                chk!(v.get_bit(i as u64) == m[i], "long", "{} ({}, mode {}): bit {} of {} wrong", what, B::NAME, mode, i, n);
            }
            if n >= w {
                chk!(v.get_bits((n - w) as u64, w).u() == field(m, n - w, w), "long", "{} ({}, mode {}): last {} bits of {} wrong", what, B::NAME, mode, w, n);
            }
            Ok(())
        };
        let full = |v: &BitVector<B>, m: &[bool], what: &str| -> R {
            match agree_bits(v, m, false) {
                Ok(()) => Ok(()),
                Err(e) => fail("long", format!("{} ({}, mode {}) to {} bits: {}", what, B::NAME, mode, m.len(), short(e))),
            }
        };
        let mut i = 0u64;
        while m.len() < top {
            wk.step();
            i += 1;
            let b = mix(i) & 1 == 1;
            match mode {
                0 => {
                    v.push_bit(b);
                    m.push(b);
                }
                1 => {
                    v.push_block(B::of(mix(i)));
                    bm_resize_blocks(&mut m, w, (v.bit_len() as usize + w - 1) / w, mix(i));
                }
                _ => {
                    // grow by resizing with an odd stride
                    let n = m.len() + 1 + (i as usize * 7) % (w + 3);
                    v.resize(n as u64, b);
                    m.resize(n, b);
                }
            }
            tail(&v, &m, "growing")?;
            if i.is_power_of_two() || i % 997 == 0 {
                wk.tick();
                full(&v, &m, "growing")?;
            }
        }
        full(&v, &m, "grown")?;
        wk.state();
        while !m.is_empty() {
            wk.step();
            i += 1;
            match mode {
                0 => {
                    let g = v.pop_bit();
                    chk!(g == m.pop(), "long", "pop_bit at {} bits over {}", m.len() + 1, B::NAME);
                }
                1 => {
                    let bl = (m.len() + w - 1) / w - 1;
                    v.block_truncate(bl);
                    m.truncate(bl * w);
                }
                _ => {
                    let n = m.len().saturating_sub(1 + (i as usize * 5) % (w + 3));
                    if i % 2 == 0 { v.truncate(n as u64) } else { v.resize(n as u64, true) }
                    m.truncate(n);
                }
            }
            tail(&v, &m, "shrinking")?;
            if i % 997 == 0 || m.len() < 2 {
                wk.tick();
                full(&v, &m, "shrinking")?;
            }
        }
        chk!(v.pop_bit() == None, "long", "pop_bit of an emptied vector");
        wk.traces += 1;
    }
    Ok(())
}

pub fn long_iops(w: usize, k: usize, n: usize) -> Vec<IOp> {
    use crate::vecs::IOp::*;
    let ps = pats(w);
    let (x, y) = (mask(k), mix(k as u64) & mask(k));
    let bits = n * k;
    let bl = (bits + w - 1) / w;
    let mut o = vec![
        Push(x), Push(y), Pop, CloneIt, Shrink, Clear, Reserve(1), Reserve(n as u64), ReserveExact(n as u64 + 1), BlockReserve(bl),
        BlockReserveExact(1), WithFill(n as u64, x), WithFill(n as u64, y), BlockWithFill(bl, ps[5]), Truncate(u64::MAX),
        BlockTruncate(usize::MAX),
    ];
    let mut es = vec![];
    for p in marks(w, bits) {
        let e = p / k;
        es.extend([e.saturating_sub(1), e, e + 1]);
        let q = p as u64;
        if p < bits {
            o.push(SetBit(q, p % 2 == 0));
        }
        for c in [w / 2 + 1, w] {
            if p + c <= bits {
                o.push(SetBits(q, c, ps[5]));
            }
        }
    }
    for b in mark_blocks(n) {
        es.extend([b, b + 1]);
    }
    es.retain(|&e| e <= n);
    es.sort();
    es.dedup();
    let mut bs = vec![0, bl / 2, bl.saturating_sub(2)];
    bs.dedup();
    for b in bs {
        for e in b * w / k + 1..n.min((b + 2) * w / k) {
            o.push(if e % 3 == 1 { Resize(e as u64, 0) } else { Truncate(e as u64) });
        }
    }
    for e in es {
        let q = e as u64;
        if e < n {
            o.extend([Set(q, 0), Set(q, x), Set(q, y)]);
            let c = k / 2 + 1;
            o.push(SetRandom(k as u64 - 1, c, q * k as u64 / c as u64, mask(c)));
            if let Some(SetRandom(s, c, i, _)) = o.last() {
                if *s as usize + c * (*i as usize + 1) > bits {
                    o.pop();
                }
            }
        }
        o.extend([Truncate(q), Resize(q, y)]);
    }
    for b in mark_blocks(bl) {
        o.extend([SetBlock(b, ps[5]), BlockTruncate(b), BlockResize(b, ps[5])]);
    }
    for g in [1, 2, 9, 65, 130, 300] {
        o.extend([Resize((n + g) as u64, x), Resize((n + g) as u64, y), Resize((n + g) as u64, 0)]);
    }
    for g in [0, 1, 2, 9, 40, 130] {
        o.push(BlockResize(bl + g, ps[5]));
    }
    o
}

/// As `long_bv` for vectors of about `blocks` blocks of k-bit elements.
pub fn long_iv<B: Blk>(wk: &mut W, k: usize, blocks: usize, strict: bool) -> R {
    let w = B::W;
    let mut ns = vec![blocks * w / k, ((blocks - 1) * w + w / 2) / k + 1];
    if ns[0] == ns[1] {
        ns.pop();
    }
    for n in ns {
        for kind in [1, 3] {
            let mut seed = IvSys::<B>::start(k, pattern(kind, n * k), usize::MAX, 0);
            seed.strict = strict;
            wk.state();
            let start = format!("start from {} elements of {} bits (pattern {}) over {}", n, k, kind, B::NAME);
            if let Err(e) = seed.agree().and_then(|_| if strict { Ok(()) } else { seed.observe() }) {
                return fail("long", format!("{}\n  {}", start, short(e)));
            }
            for op in long_iops(w, k, n) {
                wk.tick();
                if wk.stopped() {
                    return Ok(());
                }
                let mut t = seed.clone();
                wk.step();
                if let Err(e) = t.apply(&op).and_then(|_| t.agree()) {
                    return fail("long", format!("history: {}; {:?}\n  {}", start, op, short(e)));
                }
                wk.traces += 1;
                let e = (t.m.len() / k) as u64;
                let more: &[IOp] = &match wk.traces % 2 {
                    0 => [IOp::Resize(e + 2, 0), IOp::Pop],
                    _ => [IOp::Push(0), IOp::BlockResize((t.m.len() + k + w - 1) / w + 1, pats(w)[5])],
                };
                for m in more {
                    wk.step();
                    if let Err(e) = t.apply(m) {
                        return fail("long", format!("history: {}; {:?}; {:?}\n  {}", start, op, more, short(e)));
                    }
                }
                if let Err(e) = t.agree() {
                    return fail("long", format!("history: {}; {:?}; {:?}\n  {}", start, op, more, short(e)));
                }
            }
        }
    }
    Ok(())
}

pub fn ratchet_iv<B: Blk>(wk: &mut W, k: usize, top: usize) -> R {
    let mut v = IntVector::<B>::new(k);
    let mut m: Vec<u64> = vec![];
    let tail = |v: &IntVector<B>, m: &[u64], what: &str| -> R {
        let n = m.len();
        chk!(v.len() == n as u64 && v.bit_len() == (n * k) as u64 && v.block_len() == (n * k + B::W - 1) / B::W, "long", "{} k={} {}: lengths {} / {} / {} at {} elements", B::NAME, k, what, v.len(), v.bit_len(), v.block_len(), n);
        for i in n.saturating_sub(4)..n {
            chk!(v.get(i as u64).u() == m[i], "long", "{} k={} {}: element {} of {} wrong", B::NAME, k, what, i, n);
        }
        Ok(())
    };
    let full = |v: &IntVector<B>, m: &[u64], what: &str| -> R {
        for i in 0..m.len() {
            chk!(v.get(i as u64).u() == m[i], "long", "{} k={} {}: element {} of {} wrong", B::NAME, k, what, i, m.len());
        }
        Ok(())
    };
    while m.len() < top {
        wk.step();
        let i = m.len() as u64 + 1;
        let x = mix(i) & mask(k);
        if k < B::W && (i < 3000 || i % 7 == 0) {
            // what does not fit is refused at every length
            let bad = if i % 2 == 0 { mask(k) + 1 } else { mask(B::W) };
            chk!(crate::guard(|| v.push(B::of(bad))).is_err(), "long", "{} k={}: push of {:#x} onto {} elements was accepted", B::NAME, k, bad, m.len());
        }
        v.push(B::of(x));
        m.push(x);
        tail(&v, &m, "pushing")?;
        if i.is_power_of_two() || i % 997 == 0 {
            wk.tick();
            full(&v, &m, "pushing")?;
        }
    }
    full(&v, &m, "pushed")?;
    wk.state();
    while let Some(x) = m.pop() {
        wk.step();
        let g = v.pop();
        chk!(g.map(|g| g.u()) == Some(x), "long", "{} k={}: pop at {} elements gave {:?}, expected {:#x}", B::NAME, k, m.len() + 1, g, x);
        tail(&v, &m, "popping")?;
        if m.len() % 997 == 0 {
            wk.tick();
            full(&v, &m, "popping")?;
        }
    }
    chk!(v.pop().is_none(), "long", "pop of an emptied vector");
    wk.traces += 1;
    Ok(())
}

pub const LEAPS: &[usize] = &[4097, 10007, 65537];
pub const LEAPS_TH: &[usize] = &[4096, 4097, 5000, 10007, 32771, 65537, 200003];

fn hashed<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Operations that change a bit vector's length by thousands of bits at once, and removals far beyond that;
/// `same`: instead of the contents, compare with an equal vector built bit by bit (C03).
pub fn leap_bv<B: Blk>(wk: &mut W, same: bool, sizes: &[usize]) -> R {
    let w = B::W;
    for &g in sizes {
        for n0 in [0usize, 1, w + 3, 9000] {
            for fill in [true, false] {
                for shape in 0..7usize {
                    wk.tick();
                    wk.state();
                    let mut m = pattern(3, n0);
                    let mut v: BitVector<B> = bv_from(&m);
                    let p = pats(w)[5];
                    let n = n0 + g;
                    match shape {
                        0 => {
                            v.resize(n as u64, fill);
                            m.resize(n, fill);
                        }
                        1 => {
                            v = BitVector::with_fill(n as u64, fill);
                            m = vec![fill; n];
                        }
                        2 => {
                            let bl = (n + w - 1) / w;
                            v.block_resize(bl, B::of(p));
                            bm_resize_blocks(&mut m, w, bl, p);
                        }
                        3 => {
                            v.resize(n as u64, fill);
                            m.resize(n, fill);
                            for _ in 0..w / 2 + 3 {
                                v.pop_bit();
                                m.pop();
                            }
                        }
                        4 => {
                            v.resize(n as u64, true);
                            m.resize(n, true);
                            let cut = n0 + g / 3 + 1;
                            if fill { v.truncate(cut as u64) } else { v.resize(cut as u64, true) }
                            m.truncate(cut);
                        }
                        5 => {
                            v = BitVector::with_fill((2 * n) as u64, true);
                            v.truncate(n as u64 - 1);
                            m = vec![true; n - 1];
                            v.shrink_to_fit();
                        }
                        _ => {
                            v.resize(n as u64, fill);
                            m.resize(n, fill);
                            v.align_block(!fill);
                            while m.len() % w != 0 {
                                m.push(!fill);
                            }
                            v.push_block(B::of(p));
                            for i in 0..w {
                                m.push(p >> i & 1 == 1);
                            }
                        }
                    }
                    for _ in 0..2 {
                        wk.step();
                        let what = || format!("BitVector<{}> of {} bits grown by {} with {} (shape {}), now {} bits", B::NAME, n0, g, fill, shape, m.len());
                        if same {
                            let f: BitVector<B> = {
                                let mut f = BitVector::new();
                                for &b in &m {
                                    f.push_bit(b);
                                }
                                f
                            };
                            chk!(v == f && f == v && !(v != f) && v.cmp(&f) == std::cmp::Ordering::Equal && hashed(&v) == hashed(&f), "equality", "{} differs from the same bits pushed one by one", what());
                        } else {
                            if let Err(e) = agree_bits(&v, &m, false) {
                                return fail("long", format!("{}: {}", what(), short(e)));
                            }
                        }
                        v.push_bit(false);
                        m.push(false);
                    }
                    wk.traces += 1;
                }
            }
        }
    }
    Ok(())
}

/// As `leap_bv`, for integer vectors.
pub fn leap_iv<B: Blk>(wk: &mut W, k: usize, same: bool, sizes: &[usize]) -> R {
    use succinct::IntVecMut;
    let w = B::W;
    for &g in sizes {
        for n0 in [0usize, 1, 700] {
            for x in [mask(k), 0, mix(k as u64) & mask(k)] {
                for shape in 0..6usize {
                    wk.tick();
                    wk.state();
                    let mut m: Vec<u64> = (0..n0 as u64).map(|i| mix(i) & mask(k)).collect();
                    let mut v = IntVector::<B>::new(k);
                    for &e in &m {
                        v.push(B::of(e));
                    }
                    let n = n0 + g;
                    let bl = (n * k + w - 1) / w;
                    match shape {
                        0 => {
                            v.resize(n as u64, B::of(x));
                            m.resize(n, x);
                        }
                        1 => {
                            v = IntVector::with_fill(k, n as u64, B::of(x));
                            m = vec![x; n];
                        }
                        2 => {
                            v.resize(n as u64, B::of(x));
                            m.resize(n, x);
                            for i in 0..w + 3 {
                                let got = v.pop().map(|e| e.u());
                                let want = m.pop();
                                chk!(got == want, "long", "IntVector<{}> k={} of {} elements: pop {} gives {:?}, expected {:?}", B::NAME, k, n, i, got, want);
                            }
                        }
                        3 => {
                            v.resize(n as u64, B::of(mask(k)));
                            m.resize(n, mask(k));
                            let cut = n0 + g / 3 + 1;
                            if x == 0 { v.truncate(cut as u64) } else { v.resize(cut as u64, B::of(x)) }
                            m.truncate(cut);
                        }
                        4 => {
                            v = IntVector::block_with_fill(k, bl, B::of(mask(w)));
                            m = vec![mask(k); bl * w / k];
                            v.set(m.len() as u64 - 1, B::of(x));
                            *m.last_mut().unwrap() = x;
                        }
                        _ => {
                            v = IntVector::with_fill(k, 2 * n as u64, B::of(mask(k)));
                            v.truncate(n as u64 - 1);
                            m = vec![mask(k); n - 1];
                            v.shrink_to_fit();
                        }
                    }
                    for _ in 0..2 {
                        wk.step();
                        let what = || format!("IntVector<{}> k={} of {} elements grown by {} with {:#x} (shape {}), now {}", B::NAME, k, n0, g, x, shape, m.len());
                        if same {
                            let mut f = IntVector::<B>::new(k);
                            for &e in &m {
                                f.push(B::of(e));
                            }
                            chk!(v == f && f == v && !(v != f) && v.cmp(&f) == std::cmp::Ordering::Equal && hashed(&v) == hashed(&f), "equality", "{} differs from the same elements pushed one by one", what());
                        } else {
                            chk!(v.len() == m.len() as u64, "long", "{}: len() = {}", what(), v.len());
                            for i in 0..m.len() {
                                let e = v.get(i as u64).u();
                                chk!(e == m[i], "long", "{}: element {} is {:#x}, expected {:#x}", what(), i, e, m[i]);
                            }
                        }
                        v.push(B::of(0));
                        m.push(0);
                    }
                    wk.traces += 1;
                }
            }
        }
    }
    Ok(())
}
