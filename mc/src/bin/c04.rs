//! C04: out-of-range accesses panic and change nothing; in-range ones succeed.
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::storage::BlockType;
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVecMut, BitVector, IntVec, IntVecMut, JacobsonRank};

/// Indices far outside any small object, including ones whose arithmetic wraps.
fn far(w: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 8..64u32 {
        let p = 1u64 << k;
        v.extend([p, p + 1, p - 1, p + w, p - w]);
    }
    for j in 0..=2 * w {
        v.push(u64::MAX - j);
    }
    v.sort();
    v.dedup();
    v
}

fn counts(w: usize) -> Vec<usize> {
    vec![0, 1, 2, w / 2, w - 1, w]
}

fn read<V: BitVec>(wk: &mut W, name: &str, v: &V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    let w = V::Block::W;
    let n = m.len() as u64;
    let bl = (m.len() + w - 1) / w;
    chk!(v.bit_len() == n, "length", "{}: bit_len {}", name, v.bit_len());
    chk!(v.block_len() == bl, "length", "{}: block_len {}", name, v.block_len());
    wk.state();
    let idx: Vec<u64> = (0..n + 2 * w as u64 + 2).chain(far(w as u64)).collect();
    for &i in &idx {
        wk.tick();
        wk.step();
        let r = guard(|| v.get_bit(i));
        wk.outcome(if r.is_ok() { "ok" } else { "panic" });
        let inside = i < n;
        match r {
            Ok(b) => {
                chk!(inside, "get_bit", "{}: get_bit({}) returned {} although the length is {}", name, i, b, n);
                chk!(b == m[i as usize], "get_bit", "{}: get_bit({}) wrong", name, i)
            }
            Err(()) => chk!(!inside, "get_bit", "{}: get_bit({}) panicked although the length is {}", name, i, n),
        }
        for &c in counts(w).iter().chain(&[usize::MAX, usize::MAX - 1, 1usize << 32, usize::MAX / 2 + 1]) {
            let over = (i as u128 + c as u128) > n as u128;
            if c > w && !over {
                continue; // wider than a block: not specified
            }
            wk.step();
            match guard(|| v.get_bits(i, c)) {
                Ok(b) => {
                    chk!(!over, "get_bits", "{}: get_bits({}, {}) returned {:?} although the length is {}", name, i, c, b, n);
                    chk!(b.u() == field(m, i as usize, c), "get_bits", "{}: get_bits({}, {}) wrong", name, i, c)
                }
                Err(()) => chk!(over, "get_bits", "{}: get_bits({}, {}) panicked although the length is {}", name, i, c, n),
            }
        }
    }
    let p = pack(m, w);
    for i in (0..bl as u64 + 4).chain(far(w as u64)) {
        wk.step();
        match guard(|| v.get_block(i as usize)) {
            Ok(b) => {
                chk!(i < bl as u64, "get_block", "{}: get_block({}) returned {:?} although there are {} blocks", name, i, b, bl);
                let valid = mask((m.len() - i as usize * w).min(w));
                chk!(b.u() & valid == p[i as usize], "get_block", "{}: get_block({}) wrong", name, i)
            }
            Err(()) => chk!(i >= bl as u64, "get_block", "{}: get_block({}) panicked although there are {} blocks", name, i, bl),
        }
    }
    Ok(())
}

/// Contents readable as bits without going through the accessors under test more than needed.
fn same_bits<V: BitVec>(v: &V, m: &[bool]) -> bool {
    v.bit_len() == m.len() as u64 && (0..m.len()).all(|i| v.get_bit(i as u64) == m[i])
}

fn write<V: BitVecMut>(wk: &mut W, name: &str, v: &mut V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    let w = V::Block::W;
    let n = m.len() as u64;
    let bl = (m.len() + w - 1) / w;
    let idx: Vec<u64> = (0..n + 2 * w as u64 + 2).chain(far(w as u64)).collect();
    let mut cur = m.to_vec();
    for &i in &idx {
        wk.tick();
        for b in [true, false] {
            wk.step();
            match guard(|| v.set_bit(i, b)) {
                Ok(()) => {
                    chk!(i < n, "set_bit", "{}: set_bit({}, {}) returned although the length is {}", name, i, b, n);
                    cur[i as usize] = b;
                }
                Err(()) => chk!(i >= n, "set_bit", "{}: set_bit({}, {}) panicked although the length is {}", name, i, b, n),
            }
            chk!(same_bits(v, &cur), "set_bit", "{}: set_bit({}, {}) with length {} left unexpected contents", name, i, b, n);
        }
        for &c in counts(w).iter().chain(&[usize::MAX, 1usize << 32]) {
            let over = (i as u128 + c as u128) > n as u128;
            if c > w && !over {
                continue;
            }
            for x in [mask(w), 0] {
                wk.step();
                match guard(|| v.set_bits(i, c, V::Block::of(x))) {
                    Ok(()) => {
                        chk!(!over, "set_bits", "{}: set_bits({}, {}, {:#x}) returned although the length is {}", name, i, c, x, n);
                        set_field(&mut cur, i as usize, c, x)
                    }
                    Err(()) => {
                        chk!(over, "set_bits", "{}: set_bits({}, {}, {:#x}) panicked although the length is {}", name, i, c, x, n)
                    }
                }
                chk!(same_bits(v, &cur), "set_bits", "{}: set_bits({}, {}, {:#x}) with length {} left unexpected contents", name, i, c, x, n);
            }
        }
    }
    for i in (0..bl as u64 + 4).chain(far(w as u64)) {
        for x in [mask(w), 0x5a5a_5a5a_5a5a_5a5a & mask(w), 0] {
            wk.step();
            match guard(|| v.set_block(i as usize, V::Block::of(x))) {
                Ok(()) => {
                    chk!(i < bl as u64, "set_block", "{}: set_block({}, {:#x}) returned although there are {} blocks", name, i, x, bl);
                    for j in 0..w {
                        if i as usize * w + j < m.len() {
                            cur[i as usize * w + j] = x >> j & 1 == 1
                        }
                    }
                }
                Err(()) => {
                    chk!(i >= bl as u64, "set_block", "{}: set_block({}, {:#x}) panicked although there are {} blocks", name, i, x, bl)
                }
            }
            chk!(same_bits(v, &cur), "set_block", "{}: set_block({}, {:#x}) with length {} left unexpected contents", name, i, x, n);
        }
    }
    wk.traces += 1;
    Ok(())
}

fn both<V: BitVecMut>(wk: &mut W, name: String, mut v: V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    read(wk, &name, &v, m)?;
    write(wk, &name, &mut v, m)
}

fn stores<B: Blk>(m: &mut Main) {
    let w = B::W;
    let mut ls = vec![0, 1, w / 2, w - 1, w, w + 1, 2 * w, 2 * w + w / 2];
    if m.thorough {
        ls.extend([2 * w - 1, 2 * w + 1, 3 * w]);
    }
    for len in ls {
        m.job(format!("vectors {} len {}", B::NAME, len), move |wk| {
            let p = pattern(3, len);
            let n = B::NAME;
            both(wk, format!("BitVector<{}>", n), bv_from::<B>(&p), &p)?;
            both(wk, format!("BitBuffer<BitVector<{}>>", n), BitBuffer::from(bv_from::<B>(&p)), &p)?;
            // with spare capacity and leftovers of longer contents
            let mut v = BitVector::<B>::with_fill(len as u64 + 3 * B::W as u64, true);
            v.truncate(len as u64);
            for i in 0..len {
                v.set_bit(i as u64, p[i])
            }
            both(wk, format!("truncated BitVector<{}>", n), v, &p)?;
            both(wk, format!("Vec<bool> (as {})", n), p.clone(), &p)?;
            if len % B::W == 0 {
                let blocks: Vec<B> = pack(&p, B::W).into_iter().map(B::of).collect();
                both(wk, format!("Vec<{}>", n), blocks.clone(), &p)?;
                let mut b2 = blocks.clone();
                both(wk, format!("&mut [{}]", n), &mut b2[..], &p)?;
                read(wk, &format!("&[{}]", n), &&blocks[..], &p)?;
                let mut b3 = blocks.clone();
                read(wk, &format!("[{}]", n), &Sized2(&mut b3[..]), &p)?;
                write(wk, &format!("[{}]", n), &mut Sized2(&mut b3[..]), &p)?;
            }
            if len == B::W {
                let x = B::of(pack(&p, B::W)[0]);
                word(wk, x, &p)?;
            }
            Ok(())
        });
        m.job(format!("slices {} len {}", B::NAME, len), move |wk| {
            let n = B::NAME;
            for (before, after) in [(0, 0), (0, 5), (3, 0), (B::W, 1), (B::W - 1, B::W), (1, 2 * B::W)] {
                let all = pattern(8, before + len + after);
                let p = all[before..before + len].to_vec();
                let (s, e) = (before as u64, (before + len) as u64);
                let base = bv_from::<B>(&all);
                read(wk, &format!("BitSlice of BitVector<{}> {}..{}", n, s, e), &BitSlice::new(&base, s..e), &p)?;
                let mut base = bv_from::<B>(&all);
                let name = format!("BitSliceMut of BitVector<{}> {}..{}", n, s, e);
                read(wk, &name, &BitSliceMut::new(&mut base, s..e), &p)?;
                write(wk, &name, &mut BitSliceMut::new(&mut base, s..e), &p)?;
                for i in (0..before).chain(before + len..all.len()) {
                    chk!(base.get_bit(i as u64) == all[i], "outside", "{}: bit {} outside the slice changed", name, i);
                }
                if before + after > 0 {
                    let mut base = all.clone();
                    let name = format!("BitSliceMut of Vec<bool> {}..{}", s, e);
                    read(wk, &name, &BitSliceMut::new(&mut base, s..e), &p)?;
                    write(wk, &name, &mut BitSliceMut::new(&mut base, s..e), &p)?;
                    for i in (0..before).chain(before + len..all.len()) {
                        chk!(base[i] == all[i], "outside", "{}: bit {} outside the slice changed", name, i);
                    }
                }
                if all.len() % B::W == 0 {
                    let mut base: Vec<B> = pack(&all, B::W).into_iter().map(B::of).collect();
                    let name = format!("BitSliceMut of Vec<{}> {}..{}", n, s, e);
                    read(wk, &name, &BitSliceMut::new(&mut base, s..e), &p)?;
                    write(wk, &name, &mut BitSliceMut::new(&mut base, s..e), &p)?;
                }
            }
            Ok(())
        });
        m.job(format!("rank wrappers {} len {}", B::NAME, len), move |wk| {
            let p = pattern(3, len);
            // building it is C11's business
            match guard(|| JacobsonRank::new(bv_from::<B>(&p))) {
                Ok(r) => read(wk, &format!("JacobsonRank<BitVector<{}>>", B::NAME), &r, &p),
                Err(()) => Ok(()),
            }
        });
    }
    let ks: Vec<usize> = if w == 8 { (1..=8).collect() } else if m.thorough { (1..=w).collect() } else { vec![1, 3, w / 2, w / 2 + 1, w - 1, w] };
    for k in ks {
        m.job(format!("intvec {} k={}", B::NAME, k), move |wk| {
            for n in [0, 1, w / k, w / k + 1, 2 * w / k + 1] {
                ints::<B>(wk, k, n)?;
            }
            Ok(())
        });
    }
}

/// `[B]` itself through a sized shim that only forwards.
struct Sized2<'a, B: Blk>(&'a mut [B]);
impl<'a, B: Blk> BitVec for Sized2<'a, B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        <[B] as BitVec>::bit_len(self.0)
    }
    fn block_len(&self) -> usize {
        <[B] as BitVec>::block_len(self.0)
    }
    fn get_bit(&self, i: u64) -> bool {
        <[B] as BitVec>::get_bit(self.0, i)
    }
    fn get_block(&self, i: usize) -> B {
        <[B] as BitVec>::get_block(self.0, i)
    }
    fn get_bits(&self, i: u64, c: usize) -> B {
        <[B] as BitVec>::get_bits(self.0, i, c)
    }
}
impl<'a, B: Blk> BitVecMut for Sized2<'a, B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        <[B] as BitVecMut>::set_bit(self.0, i, v)
    }
    fn set_block(&mut self, i: usize, v: B) {
        <[B] as BitVecMut>::set_block(self.0, i, v)
    }
    fn set_bits(&mut self, i: u64, c: usize, v: B) {
        <[B] as BitVecMut>::set_bits(self.0, i, c, v)
    }
}

/// A machine word: as a bit vector, and through BlockType's own accessors.
fn word<B: Blk>(wk: &mut W, x: B, p: &[bool]) -> R {
    let n = B::NAME;
    read(wk, n, &x, p)?;
    let mut y = x;
    write(wk, n, &mut y, p)?;
    let w = B::W;
    let huge: Vec<usize> = (0..2 * w + 2).chain(far(w as u64).into_iter().map(|x| x as usize)).collect();
    for &i in &huge {
        wk.tick();
        wk.step();
        let r = guard(|| BlockType::get_bit(x, i));
        chk!(r.is_ok() == (i < w), "word", "{}: BlockType::get_bit({}) gives {:?}", n, i, r);
        for b in [true, false] {
            let r = guard(|| x.with_bit(i, b));
            chk!(r.is_ok() == (i < w), "word", "{}: BlockType::with_bit({}, {}) gives {:?}", n, i, b, r);
        }
        for &c in &huge {
            if i > 2 * w && c > 2 * w && (i ^ c) & 7 != 7 && i.wrapping_add(c) > 2 * w {
                continue; // both far: keep those whose sum wraps to something small, and a sample class
            }
            wk.step();
            let inside = i as u128 + c as u128 <= w as u128;
            let r = guard(|| BlockType::get_bits(x, i, c));
            chk!(r.is_ok() == inside, "word", "{}: BlockType::get_bits({}, {}) gives {:?}", n, i, c, r);
            let r = guard(|| x.with_bits(i, c, B::of(mask(w))));
            chk!(r.is_ok() == inside, "word", "{}: BlockType::with_bits({}, {}, ones) gives {:?}", n, i, c, r);
        }
    }
    Ok(())
}

fn ints<B: Blk>(wk: &mut W, k: usize, n: usize) -> R {
    let p = pattern(3, n * k);
    let mut v = iv_from::<B>(k, &p);
    let name = format!("IntVector<{}>({}) of {}", B::NAME, k, n);
    both(wk, format!("{} as bits", name), v.clone(), &p)?;
    let w = B::W;
    // indices, including ones whose product with the width wraps
    let mut idx: Vec<u64> = (0..n as u64 + 2 * w as u64 + 2).chain(far(w as u64)).collect();
    for mul in 1..=(k as u64).min(4) {
        let q = ((1u128 << 64) * mul as u128 / k as u128) as u128;
        for d in 0..4u128 {
            idx.push((q + d).min(u64::MAX as u128) as u64);
            idx.push((q - d).min(u64::MAX as u128) as u64);
        }
    }
    idx.sort();
    idx.dedup();
    let mut cur = p.clone();
    let ones = B::of(mask(k));
    for &i in &idx {
        wk.tick();
        wk.step();
        match guard(|| v.get(i)) {
            Ok(x) => {
                chk!(i < n as u64, "get", "{}: get({}) returned {:?}", name, i, x);
                chk!(x.u() == field(&cur, i as usize * k, k), "get", "{}: get({}) wrong", name, i)
            }
            Err(()) => chk!(i >= n as u64, "get", "{}: get({}) panicked", name, i),
        }
        for x in [ones, B::of(0)] {
            wk.step();
            match guard(|| v.set(i, x)) {
                Ok(()) => {
                    chk!(i < n as u64, "set", "{}: set({}, {:?}) returned", name, i, x);
                    set_field(&mut cur, i as usize * k, k, x.u())
                }
                Err(()) => chk!(i >= n as u64, "set", "{}: set({}, {:?}) panicked", name, i, x),
            }
            chk!(same_bits(&v, &cur) && v.len() == n as u64, "set", "{}: set({}, {:?}) left unexpected contents", name, i, x);
        }
    }
    // arbitrary fields: wholly inside the elements succeeds, anything else panics
    let mut offs: Vec<u64> = vec![0, 1, 2, k as u64, (n * k) as u64, w as u64 + 1, u64::MAX, u64::MAX - 1, u64::MAX - w as u64, 1 << 63];
    offs.dedup();
    for &off in &offs {
        for c in [0, 1, k, w / 2 + 1, w] {
            let mut idx2: Vec<u64> = (0..(n * k / c.max(1)).min(if c == 0 { 2 } else { !0 }) as u64 + 3).collect();
            let q = ((1u128 << 64) / c.max(1) as u128) as u128;
            for d in 0..3u128 {
                idx2.push((q + d).min(u64::MAX as u128) as u64);
                idx2.push((q - d).min(u64::MAX as u128) as u64);
            }
            idx2.extend([1 << 32, 1 << 58, 1 << 61, 1 << 63, u64::MAX]);
            for &i in &idx2 {
                wk.tick();
                let start = off as u128 + i as u128 * c as u128;
                let end = start + c as u128;
                let inside = end <= (n * k) as u128;
                let outside = !inside;
                wk.step();
                let r = guard(|| v.get_random(off, c, i));
                if inside {
                    chk!(
                        r.map(|x| x.u()) == Ok(field(&cur, start as usize, c)),
                        "get_random",
                        "{}: get_random({}, {}, {}) gives {:?}",
                        name,
                        off,
                        c,
                        i,
                        r
                    );
                }
                if outside {
                    chk!(r.is_err(), "get_random", "{}: get_random({}, {}, {}) returned {:?}", name, off, c, i, r);
                }
                wk.step();
                let x = B::of(mask(c));
                let r = guard(|| v.set_random(off, c, i, x));
                if inside {
                    chk!(r.is_ok(), "set_random", "{}: set_random({}, {}, {}) panicked", name, off, c, i);
                    set_field(&mut cur, start as usize, c, x.u());
                }
                if outside {
                    chk!(r.is_err(), "set_random", "{}: set_random({}, {}, {}) returned", name, off, c, i);
                }
                chk!(
                    same_bits(&v, &cur) && v.len() == n as u64,
                    "set_random",
                    "{}: set_random({}, {}, {}) left unexpected contents",
                    name,
                    off,
                    c,
                    i
                );
            }
        }
    }
    wk.traces += 1;
    Ok(())
}

fn user<B: Blk>(m: &mut Main) {
    // user implementations whose own accessors refuse bad positions: the default methods must too
    m.job(format!("minimal user stores {}", B::NAME), |wk| {
        for len in [0, 1, B::W - 1, B::W, B::W + 1, 2 * B::W + 3] {
            let p = pattern(3, len);
            both(wk, format!("user store by bit<{}>", B::NAME), ByBit::<B>::new(&p), &p)?;
            both(wk, format!("user store by block<{}>", B::NAME), ByBlock::<B>::new(&p, u64::MAX), &p)?;
        }
        Ok(())
    });
}

/// Places around the ends and the marked blocks of a long object, and far ones.
fn places(w: usize, len: usize) -> Vec<u64> {
    let mut v: Vec<u64> = mc::long::marks(w, len).into_iter().map(|x| x as u64).collect();
    let n = len as u64;
    v.extend(n.saturating_sub(w as u64 + 2)..n + 2 * w as u64 + 2);
    for k in 0..14 {
        v.extend([n + (1 << k), n + (w as u64) * (1 << k), n.next_power_of_two() - 1 + (k & 3)]);
    }
    v.extend(far(w as u64));
    v.sort();
    v.dedup();
    v
}
/// Contents by blocks (cheap enough to compare after every access).
fn same_blocks<V: BitVec>(v: &V, p: &[u64], len: usize) -> bool
where
    V::Block: Blk,
{
    let w = V::Block::W;
    v.bit_len() == len as u64 && v.block_len() == p.len() && p.iter().enumerate().all(|(i, &x)| v.get_block(i).u() & mask((len - i * w).min(w)) == x)
}
fn long_obj<V: BitVecMut>(wk: &mut W, name: String, v: &mut V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    let w = V::Block::W;
    let n = m.len() as u64;
    let p = pack(m, w);
    wk.state();
    chk!(same_blocks(v, &p, m.len()), "length", "{}: contents wrong to begin with", name);
    for i in places(w, m.len()) {
        wk.tick();
        let inside = i < n;
        wk.step();
        let r = guard(|| v.get_bit(i));
        chk!(r == if inside { Ok(m[i as usize]) } else { Err(()) }, "get_bit", "{}: get_bit({}) gives {:?}", name, i, r);
        // writing what is there already, and outside the opposite of anything
        let b = inside && m[i as usize];
        let r = guard(|| v.set_bit(i, b)).and(guard(|| if !inside { v.set_bit(i, true) }));
        chk!(r.is_ok() == inside, "set_bit", "{}: set_bit({}) gives {:?}", name, i, r);
        for c in [0, 1, w / 2, w, usize::MAX - 3, 1usize << 32] {
            let over = i as u128 + c as u128 > n as u128;
            if c > w && !over {
                continue;
            }
            wk.step();
            let want = if over { Err(()) } else { Ok(field(m, i as usize, c)) };
            let r = guard(|| v.get_bits(i, c).u());
            chk!(r == want, "get_bits", "{}: get_bits({}, {}) gives {:?}", name, i, c, r);
            let x = V::Block::of(want.unwrap_or(mix(i) & mask(c.min(w))));
            let r = guard(|| v.set_bits(i, c, x));
            chk!(r.is_ok() != over, "set_bits", "{}: set_bits({}, {}, {:?}) gives {:?}", name, i, c, x, r);
        }
        chk!(same_blocks(v, &p, m.len()), "write", "{}: accesses at {} changed the contents", name, i);
    }
    let bl = p.len() as u64;
    let mut bs: Vec<u64> = mc::long::mark_blocks(p.len()).into_iter().map(|x| x as u64).collect();
    bs.extend(bl..bl + 4);
    for k in 0..14 {
        bs.extend([bl + (1 << k), bl.next_power_of_two() + (k & 3)]);
    }
    bs.extend(far(w as u64));
    // products with the block size that wrap to something inside
    for q in 1..4u64 {
        bs.extend([(1u64 << 32) / w as u64 * q, (1u64 << 63) / w as u64 * q, (u64::MAX / w as u64) * q + 1]);
    }
    for i in bs {
        wk.tick();
        wk.step();
        let inside = i < bl;
        let r = guard(|| v.get_block(i as usize).u());
        chk!(r.is_ok() == inside, "get_block", "{}: get_block({}) gives {:?}", name, i, r);
        let x = V::Block::of(if inside { p[i as usize] } else { mix(i) & mask(w) });
        let r = guard(|| v.set_block(i as usize, x));
        chk!(r.is_ok() == inside, "set_block", "{}: set_block({}, {:?}) gives {:?}", name, i, x, r);
        chk!(same_blocks(v, &p, m.len()), "write", "{}: accesses to block {} changed the contents", name, i);
    }
    wk.traces += 1;
    Ok(())
}
/// Just inside and just outside, at every length.
fn brink<V: BitVecMut>(wk: &mut W, name: &dyn Fn() -> String, v: &mut V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    let (w, n) = (V::Block::W, m.len() as u64);
    let bl = (m.len() + w - 1) / w;
    wk.step();
    if n > 0 {
        let r = guard(|| v.get_bit(n - 1));
        chk!(r == Ok(m[m.len() - 1]), "get_bit", "{}: get_bit({}) gives {:?}", name(), n - 1, r);
        let r = guard(|| v.set_bit(n - 1, m[m.len() - 1]));
        chk!(r.is_ok(), "set_bit", "{}: set_bit({}) gives {:?}", name(), n - 1, r);
        let c = m.len().min(w);
        let want = field(m, m.len() - c, c);
        let r = guard(|| v.get_bits(n - c as u64, c).u());
        chk!(r == Ok(want), "get_bits", "{}: get_bits({}, {}) gives {:?}", name(), n - c as u64, c, r);
        let r = guard(|| v.set_bits(n - c as u64, c, V::Block::of(want)));
        chk!(r.is_ok(), "set_bits", "{}: set_bits({}, {}) gives {:?}", name(), n - c as u64, c, r);
    }
    for i in [n, n + 1, (bl * w) as u64] {
        if i < n {
            continue;
        }
        let r = guard(|| v.get_bit(i));
        chk!(r.is_err(), "get_bit", "{}: get_bit({}) gives {:?}", name(), i, r);
        let r = guard(|| v.set_bit(i, true));
        chk!(r.is_err(), "set_bit", "{}: set_bit({}) gives {:?}", name(), i, r);
        for c in [1u64, w as u64] {
            // ends one past the last bit, or starts there
            for s in [(i + 1).saturating_sub(c), i] {
                let r = guard(|| v.get_bits(s, c as usize).u());
                chk!(r.is_err(), "get_bits", "{}: get_bits({}, {}) gives {:?}", name(), s, c, r);
                let r = guard(|| v.set_bits(s, c as usize, V::Block::of(mask(w))));
                chk!(r.is_err(), "set_bits", "{}: set_bits({}, {}) gives {:?}", name(), s, c, r);
            }
        }
    }
    let r = guard(|| v.get_block(bl).u());
    chk!(r.is_err(), "get_block", "{}: get_block({}) gives {:?}", name(), bl, r);
    let r = guard(|| v.set_block(bl, V::Block::of(mask(w))));
    chk!(r.is_err(), "set_block", "{}: set_block({}) gives {:?}", name(), bl, r);
    chk!(v.bit_len() == n, "write", "{}: bit_len {}", name(), v.bit_len());
    Ok(())
}
fn brinks<B: Blk>(m: &mut Main) {
    let top = m.pick(1100usize, 6000);
    let step = 8;
    for part in 0..step {
        m.job(format!("brink {} part {}", B::NAME, part), move |wk| {
            let w = B::W;
            for n in (0..top).filter(|n| n % step == part) {
                wk.tick();
                if wk.stopped() {
                    break;
                }
                wk.state();
                let p = pattern(3, n);
                let packed = pack(&p, w);
                let mut v = bv_from::<B>(&p);
                brink(wk, &|| format!("BitVector<{}> of {} bits", B::NAME, n), &mut v, &p)?;
                chk!(same_blocks(&v, &packed, n), "write", "BitVector<{}> of {} bits: accesses at its end changed the contents", B::NAME, n);
                let all = [&[true; 5][..], &p, &[true; 70][..]].concat();
                let mut base = bv_from::<B>(&all);
                brink(wk, &|| format!("BitSliceMut 5..{} of BitVector<{}> of {} bits", 5 + n, B::NAME, all.len()), &mut BitSliceMut::new(&mut base, 5..(5 + n) as u64), &p)?;
                chk!(same_blocks(&base, &pack(&all, w), all.len()), "outside", "accesses at the end of BitSliceMut 5..{} of BitVector<{}> of {} bits changed it", 5 + n, B::NAME, all.len());
                if w == 8 {
                    let mut v = p.clone();
                    brink(wk, &|| format!("Vec<bool> of {} bits", n), &mut v, &p)?;
                    chk!(v == p, "write", "Vec<bool> of {} bits: accesses at its end changed the contents", n);
                }
                let k = 1 + n % w;
                let e = n / k;
                let q = &p[..e * k];
                let mut iv = iv_from::<B>(k, q);
                let name = || format!("IntVector<{}>({}) of {} elements", B::NAME, k, e);
                brink(wk, &name, &mut iv, q)?;
                for i in [e as u64, e as u64 + 1] {
                    let r = guard(|| iv.get(i).u());
                    chk!(r.is_err(), "get", "{}: get({}) gives {:?}", name(), i, r);
                    let r = guard(|| iv.set(i, B::of(mask(k))));
                    chk!(r.is_err(), "set", "{}: set({}) gives {:?}", name(), i, r);
                }
                if e > 0 {
                    let want = field(q, (e - 1) * k, k);
                    let r = guard(|| iv.get(e as u64 - 1).u());
                    chk!(r == Ok(want), "get", "{}: get({}) gives {:?}", name(), e - 1, r);
                    let r = guard(|| iv.set(e as u64 - 1, B::of(want)));
                    chk!(r.is_ok(), "set", "{}: set({}) gives {:?}", name(), e - 1, r);
                }
                chk!(same_blocks(&iv, &pack(q, w), q.len()), "write", "{}: accesses at its end changed the contents", name());
                wk.traces += 1;
            }
            Ok(())
        });
    }
}
fn long<B: Blk>(m: &mut Main) {
    let ns: Vec<usize> = if m.thorough { (4..140).chain([255, 256, 257, 511, 513, 1023, 1025, 2049, 4097]).collect() } else { vec![4, 5, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 257, 513, 1025] };
    for bl in ns {
        m.job(format!("long {} {} blocks", B::NAME, bl), move |wk| {
            let w = B::W;
            for len in [bl * w, bl * w - 1, bl * w - w + 1] {
                let p = pattern(3, len);
                long_obj(wk, format!("BitVector<{}> of {} bits", B::NAME, len), &mut bv_from::<B>(&p), &p)?;
                let mut v = BitVector::<B>::with_fill((len + 5 * w) as u64, true);
                v.truncate(len as u64);
                for i in 0..len {
                    v.set_bit(i as u64, p[i])
                }
                long_obj(wk, format!("BitBuffer over a truncated BitVector<{}> of {} bits", B::NAME, len), &mut BitBuffer::from(v), &p)?;
                if len % w == 0 {
                    long_obj(wk, format!("Vec<{}> of {} bits", B::NAME, len), &mut pack(&p, w).into_iter().map(B::of).collect::<Vec<B>>(), &p)?;
                }
                if B::W == 16 {
                    long_obj(wk, format!("Vec<bool> of {} bits", len), &mut p.clone(), &p)?;
                }
                let (a, z) = (bl % 3 * 7, bl % 4 * 11);
                let all = [&vec![true; a][..], &p, &vec![true; z][..]].concat();
                let mut base = bv_from::<B>(&all);
                long_obj(wk, format!("BitSliceMut {}..{} of BitVector<{}> of {} bits", a, a + len, B::NAME, all.len()), &mut BitSliceMut::new(&mut base, a as u64..(a + len) as u64), &p)?;
                chk!((0..a).chain(a + len..all.len()).all(|i| base.get_bit(i as u64)), "outside", "accesses through a BitSliceMut {}..{} of BitVector<{}> of {} bits changed bits outside it", a, a + len, B::NAME, all.len());
                let k = [1, w / 2 + 1, w - 1, w][bl % 4];
                let n = len / k;
                let q = &p[..n * k];
                let mut iv = iv_from::<B>(k, q);
                long_obj(wk, format!("IntVector<{}>({}) of {} as bits", B::NAME, k, n), &mut iv, q)?;
                let name = format!("IntVector<{}>({}) of {} elements", B::NAME, k, n);
                let packed = pack(q, w);
                for i in places(w, n) {
                    wk.tick();
                    wk.step();
                    let want = if i < n as u64 { Ok(field(q, i as usize * k, k)) } else { Err(()) };
                    let r = guard(|| iv.get(i).u());
                    chk!(r == want, "get", "{}: get({}) gives {:?}", name, i, r);
                    let x = B::of(want.unwrap_or(mix(i) & mask(k)));
                    let r = guard(|| iv.set(i, x));
                    chk!(r.is_ok() == want.is_ok() && iv.len() == n as u64, "set", "{}: set({}, {:?}) gives {:?}", name, i, x, r);
                    chk!(same_blocks(&iv, &packed, q.len()), "set", "{}: accesses at {} changed the contents", name, i);
                }
            }
            Ok(())
        });
    }
}
/// Slices far along enormous bases: positions whose sum with the start wraps.
fn far_slices<B: Blk>(m: &mut Main) {
    m.job(format!("far slices {}", B::NAME), |wk| {
        let w = B::W as u64;
        let bit = |i: u64| B::of(mix(i / w)).u() >> (i % w) & 1 == 1;
        for total in [(1u64 << 32) + 3 * w, (1 << 63) + 5, u64::MAX] {
            let base = Virtual::<B>::new(total, |i| mix(i as u64));
            let mut starts = vec![0, 1, w, total / 2, total - 3 * w - 1, total - w, total - 1, total];
            starts.extend([1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62) + 1]);
            starts.retain(|&s| s <= total);
            for &s in &starts {
                for len in [0, 1, w - 1, w + 3, 1 << 31, 1 << 32, total / 2, total - s] {
                    if len > total - s {
                        continue;
                    }
                    let x = ok!(BitSlice::new(&base, s..s + len), "far slice", "slice {}..{} of {} bits", s, s + len, total);
                    wk.state();
                    let mut is = far(w);
                    is.extend([0, 1, len / 2, len.saturating_sub(1), len, len.wrapping_add(1), 0u64.wrapping_sub(s), 0u64.wrapping_sub(s).wrapping_add(1), (total - s), (total - s).wrapping_sub(1), (u64::MAX - s), (1u64 << 63).wrapping_sub(s)]);
                    is.sort();
                    is.dedup();
                    for i in is {
                        wk.tick();
                        wk.step();
                        let want = if i < len { Ok(bit(s + i)) } else { Err(()) };
                        let r = guard(|| x.get_bit(i));
                        chk!(r == want, "far slice", "slice {}..{} of {} bits: get_bit({}) gives {:?}", s, s + len, total, i, r);
                        for c in [0u64, 1, w - 1, w] {
                            let over = i as u128 + c as u128 > len as u128;
                            let want = if over { Err(()) } else { Ok((0..c).fold(0, |v, j| v | (bit(s + i + j) as u64) << j)) };
                            let r = guard(|| x.get_bits(i, c as usize).u());
                            chk!(r == want, "far slice", "slice {}..{} of {} bits: get_bits({}, {}) gives {:?}", s, s + len, total, i, c, r);
                        }
                        let bl = (len as u128 + w as u128 - 1) / w as u128;
                        let r = guard(|| x.get_block(i as usize).u());
                        chk!(r.is_ok() == ((i as u128) < bl), "far slice", "slice {}..{} of {} bits: get_block({}) gives {:?}", s, s + len, total, i, r);
                    }
                    wk.traces += 1;
                }
            }
        }
        Ok(())
    });
}

fn main() {
    let mut m = Main::new("C04");
    m.bound("long objects: 19 block counts from 4 to 1025 (thorough every one to 139 and 9 more to 4097), three lengths each, five implementations and element access: every marked position and block around powers of two and the ends, 2^k past the end, and the far ones");
    m.bound("slices of virtual stores of 2^32, 2^63 and 2^64-1 bits: positions at their ends and ones whose sum with the start wraps");
    brinks::<u8>(&mut m);
    brinks::<u16>(&mut m);
    brinks::<u32>(&mut m);
    brinks::<u64>(&mut m);
    brinks::<usize>(&mut m);
    m.bound("every length to 1100 (thorough 6000) bits: the last bit and span, and the ones just past the end, in vectors, slices, Vec<bool> and integer vectors");
    long::<u8>(&mut m);
    long::<u16>(&mut m);
    long::<u32>(&mut m);
    long::<u64>(&mut m);
    long::<usize>(&mut m);
    far_slices::<u8>(&mut m);
    far_slices::<u16>(&mut m);
    far_slices::<u32>(&mut m);
    far_slices::<u64>(&mut m);
    far_slices::<usize>(&mut m);
    m.rule("state = one object of one implementation, block type and length; transition = one read or write at one index/span: inside must succeed with the right value, outside must panic with contents unchanged");
    stores::<u8>(&mut m);
    stores::<u16>(&mut m);
    stores::<u32>(&mut m);
    stores::<u64>(&mut m);
    stores::<usize>(&mut m);
    user::<u8>(&mut m);
    user::<u16>(&mut m);
    user::<u32>(&mut m);
    user::<u64>(&mut m);
    user::<usize>(&mut m);
    m.bound("every index from 0 to two blocks past the end, 2^k, 2^k±1, 2^k±block for k=8..63, 2^64-1-j for j up to two blocks, and element indices whose product wraps; span widths 0,1,2,W/2,W-1,W and wrapping widths");
    m.run()
}
