//! C29: queries and growth do bounded work.
use mc::bits::*;
use mc::rankck::far_lengths;
use mc::*;
use std::cell::{Cell, RefCell};
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::{Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitBuffer, BitWrite};
use succinct::{BinSearchSelect, BitVec, BitVecMut, BitVecPush, BitVector, IntVector, JacobsonRank, Rank9};

/// At most this many different blocks per query, whatever the length.
const BLOCKS: usize = 4;

/// Computed contents; notes which blocks are read and written.
struct Counted<B> {
    len: u64,
    f: fn(usize) -> u64,
    log: RefCell<Vec<usize>>,
    reads: Cell<u64>,
    p: std::marker::PhantomData<B>,
}
impl<B: Blk> Counted<B> {
    fn new(len: u64, f: fn(usize) -> u64) -> Self {
        Counted { len, f, log: RefCell::new(vec![]), reads: Cell::new(0), p: std::marker::PhantomData }
    }
    fn note(&self, i: usize) {
        self.reads.set(self.reads.get() + 1);
        let mut l = self.log.borrow_mut();
        if l.len() <= BLOCKS && !l.contains(&i) {
            l.push(i)
        }
    }
    fn touched(&self) -> usize {
        let n = self.log.borrow().len();
        self.log.borrow_mut().clear();
        n
    }
}
impl<B: Blk> BitVec for Counted<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.len
    }
    fn get_block(&self, i: usize) -> B {
        assert!((i as u128) * (B::W as u128) < self.len as u128, "Counted: block {}", i);
        self.note(i);
        B::of((self.f)(i) & mask(B::W))
    }
}
impl<B: Blk> BitVecMut for Counted<B> {
    fn set_block(&mut self, i: usize, _: B) {
        assert!((i as u128) * (B::W as u128) < self.len as u128, "Counted: block {}", i);
        self.note(i);
    }
}

const FS: [fn(usize) -> u64; 3] = [|i| mix(i as u64), |_| 0, |_| !0];

fn positions(n: u64) -> Vec<u64> {
    if n <= 1200 {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = vec![];
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            let x = (1u64 << k).wrapping_add(d as u64);
            v.extend([x, n.wrapping_sub(x), n / 2 + x % 5000]);
        }
    }
    v.extend((0..200).map(|i| mix(i) % n));
    v.extend((n / 512 * 512).saturating_sub(1100)..n.min(n / 512 * 512 + 600));
    v.retain(|&x| x < n);
    v.sort();
    v.dedup();
    v
}

/// How a store is reached from a structure wrapped around it.
trait Over {
    type B: Blk;
    fn store(&self) -> &Counted<Self::B>;
}
impl<B: Blk> Over for Counted<B> {
    type B = B;
    fn store(&self) -> &Counted<B> {
        self
    }
}
impl<B: Blk> Over for JacobsonRank<Counted<B>> {
    type B = B;
    fn store(&self) -> &Counted<B> {
        self.inner()
    }
}
impl Over for Rank9<Counted<u64>> {
    type B = u64;
    fn store(&self) -> &Counted<u64> {
        self.inner()
    }
}
impl<T: Over + RankSupport> Over for BinSearchSelect<T> {
    type B = T::B;
    fn store(&self) -> &Counted<T::B> {
        self.inner().store()
    }
}
impl<B: Blk> Over for BitBuffer<Counted<B>> {
    type B = B;
    fn store(&self) -> &Counted<B> {
        self.inner()
    }
}

fn ranks<S: Over + BitRankSupport>(w: &mut W, name: &str, s: &S, n: u64) -> R {
    s.store().touched();
    s.limit();
    chk!(s.store().touched() <= BLOCKS, "rank", "{} over {} bits: asking for the limit examines more than {} blocks", name, n, BLOCKS);
    for p in positions(n) {
        w.at(|| format!("{} over {} bits: rank at {}", name, n, p));
        for k in 0..3 {
            w.transitions += 1;
            let _ = match k { 0 => s.rank1(p), 1 => s.rank0(p), _ => s.rank(p, p % 2 == 0) };
            let t = s.store().touched();
            chk!(t <= BLOCKS, "rank", "{} over {} bits: one rank query at {} (kind {}) examines more than {} blocks", name, n, p, k, BLOCKS);
        }
    }
    Ok(())
}
fn reads<S: BitVec>(w: &mut W, name: &str, s: &S, n: u64, log: &dyn Fn() -> usize) -> R {
    let bw = <S::Block as succinct::storage::BlockType>::nbits() as u64;
    log();
    for p in positions(n) {
        w.at(|| format!("{} over {} bits: reads at {}", name, n, p));
        let _ = (s.bit_len(), s.block_len());
        chk!(log() <= BLOCKS, "read", "{} of {} bits: asking for its length examines more than {} blocks", name, n, BLOCKS);
        s.get_bit(p);
        chk!(log() <= BLOCKS, "read", "{} of {} bits: reading bit {} examines more than {} blocks", name, n, p, BLOCKS);
        for c in [0, 1, bw / 2, bw] {
            if p + c <= n {
                s.get_bits(p, c as usize);
                chk!(log() <= BLOCKS, "read", "{} of {} bits: reading {} bits at {} examines more than {} blocks", name, n, c, p, BLOCKS);
            }
        }
        s.get_block((p / bw) as usize);
        chk!(log() <= BLOCKS, "read", "{} of {} bits: reading block {} examines more than {} blocks", name, n, p / bw, BLOCKS);
        w.transitions += 6;
    }
    Ok(())
}
fn built<S: Over>(name: &str, s: &S, n: u64) -> R {
    let w = <S::B as Blk>::W as u64;
    let r = s.store().reads.get();
    let blocks = n / w + 1;
    chk!(r <= 4 * w * blocks + 64, "build", "{} over {} bits: built with {} block reads of {} blocks", name, n, r, blocks);
    Ok(())
}
/// Selecting over a structure over a store: the rank queries it makes show as block reads.
fn selects<S: Over + Select1Support + Select0Support + SelectSupport<Over = bool>>(w: &mut W, name: &str, s: &S, n: u64) -> R {
    let per = 4 * (64 - n.leading_zeros() as u64) + 8;
    for i in positions(n).into_iter().step_by(if n > 300 { 5 } else { 1 }).chain([n, n + 1, u64::MAX]) {
        for k in 0..3 {
            w.at(|| format!("{} over {} bits: select {}", name, n, i));
            w.transitions += 1;
            let r0 = s.store().reads.get();
            let _ = match k { 0 => s.select1(i), 1 => s.select0(i), _ => s.select(i, i % 2 == 0) };
            let r = s.store().reads.get() - r0;
            // a rank query may look at every bit of its blocks
            let most = per * BLOCKS as u64 * <S::B as Blk>::W as u64;
            chk!(r <= most, "select", "{} over {} bits: select({}) (kind {}) reads {} blocks", name, n, i, k, r);
        }
    }
    Ok(())
}

fn jacobson<B: Blk>(w: &mut W, n: u64, f: fn(usize) -> u64, sel: bool) -> R {
    w.state();
    let name = format!("JacobsonRank over {} blocks", B::NAME);
    let j = JacobsonRank::new(Counted::<B>::new(n, f));
    built(&name, &j, n)?;
    ranks(w, &name, &j, n)?;
    reads(w, &name, &j, n, &|| j.inner().touched())?;
    if sel {
        let s = BinSearchSelect::new(j);
        selects(w, &format!("select over {}", name), &s, n)?;
        ranks(w, &format!("select over {}", name), &s, n)?;
        reads(w, &format!("select over {}", name), &s, n, &|| s.store().touched())?;
    }
    w.traces += 1;
    Ok(())
}
fn nine(w: &mut W, n: u64, f: fn(usize) -> u64, sel: bool) -> R {
    w.state();
    let j = Rank9::new(Counted::<u64>::new(n, f));
    built("Rank9", &j, n)?;
    ranks(w, "Rank9", &j, n)?;
    reads(w, "Rank9", &j, n, &|| j.inner().touched())?;
    if sel {
        let s = BinSearchSelect::new(j);
        selects(w, "select over Rank9", &s, n)?;
        ranks(w, "select over Rank9", &s, n)?;
        reads(w, "select over Rank9", &s, n, &|| s.store().touched())?;
    }
    w.traces += 1;
    Ok(())
}

/// Views: nested slices, buffers, mutable slices, at every length including computed ones to 2^64-1.
fn views<B: Blk>(w: &mut W, n: u64) -> R {
    let c = Counted::<B>::new(n, FS[0]);
    w.state();
    reads(w, "store", &c, n, &|| c.touched())?;
    let b = BitBuffer::from(c);
    reads(w, "BitBuffer", &b, n, &|| b.inner().touched())?;
    let c = b.into_inner();
    for cut in [0, 1, B::W as u64 - 1, B::W as u64 + 3] {
        if 6 * cut > n {
            continue;
        }
        let a = BitSlice::new(&c, cut..);
        let a = a.slice(cut..);
        let d = BitSlice::new(&a, ..n - 3 * cut);
        let e = BitSlice::new(&d, cut..);
        reads(w, "slice of a slice of a slice", &e, n - 4 * cut, &|| c.touched())?;
    }
    w.traces += 1;
    Ok(())
}
fn writes<B: Blk>(w: &mut W, n: u64) -> R {
    w.state();
    let mut c = Counted::<B>::new(n, FS[0]);
    let bw = B::W as u64;
    for depth in 0..3u64 {
        if n < 2 * depth {
            continue;
        }
        for p in positions(n - 2 * depth) {
            for k in 0..5 {
                w.at(|| format!("write kind {} at {} of {}, depth {}", k, p, n, depth));
                let count = [0, 1, bw / 2, bw, bw][k];
                if k < 4 && p + count > n - 2 * depth {
                    continue;
                }
                w.transitions += 1;
                fn go<V: BitVecMut>(v: &mut V, k: usize, p: u64, count: u64, bw: u64) {
                    let x = !<V::Block as num_traits::Zero>::zero();
                    match k {
                        0 => v.set_bit(p, true),
                        4 => v.set_block((p / bw) as usize, x),
                        _ => v.set_bits(p, count as usize, x),
                    }
                }
                c.touched();
                match depth {
                    0 => go(&mut c, k, p, count, bw),
                    1 => go(&mut BitSliceMut::new(&mut c, 1..n - 1), k, p, count, bw),
                    _ => {
                        let mut a = BitSliceMut::new(&mut c, 1..n - 1);
                        let mut b = a.slice_mut(1..n - 3);
                        go(&mut b, k, p, count, bw)
                    }
                }
                chk!(c.touched() <= BLOCKS, "write", "{} bits of {} blocks: write kind {} at {} through {} slices touches more than {} blocks", n, B::NAME, k, p, depth, BLOCKS);
            }
        }
    }
    w.traces += 1;
    Ok(())
}

// ---------------------------------------------------------------- number of rank queries

/// Ones exactly in from..to; counts the queries.
struct Run {
    limit: u64,
    from: u64,
    to: u64,
    queries: Cell<u64>,
}
impl RankSupport for Run {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        self.queries.set(self.queries.get() + 1);
        assert!(p < self.limit);
        let ones = (p as u128 + 1).min(self.to as u128).saturating_sub(self.from as u128);
        if v { ones as u64 } else { (p as u128 + 1 - ones) as u64 }
    }
    fn limit(&self) -> u64 {
        self.limit
    }
}
impl BitRankSupport for Run {
    fn rank1(&self, p: u64) -> u64 {
        self.rank(p, true)
    }
    fn rank0(&self, p: u64) -> u64 {
        self.rank(p, false)
    }
}
fn queries(w: &mut W, limit: u64) -> R {
    let mut ends: Vec<u64> = (0..limit.min(12)).collect();
    for d in 0..3 {
        ends.extend([limit.wrapping_sub(d), limit / 2 + d, limit / 3 + d, (1u64 << 32) + d].iter().filter(|&&x| x <= limit));
    }
    ends.sort();
    ends.dedup();
    let most = 4 * (64 - limit.leading_zeros() as u64) + 8;
    for &from in &ends {
        for &to in ends.iter().filter(|&&t| t >= from) {
            w.state();
            let s = BinSearchSelect::new(Run { limit, from, to, queries: Cell::new(0) });
            let mut is: Vec<u64> = (0..8).collect();
            for c in [to - from, limit - (to - from), limit, limit / 2, u64::MAX] {
                is.extend((0..4).map(|d| c.wrapping_sub(d)));
                is.push(c.wrapping_add(1));
            }
            for i in is {
                for k in 0..3 {
                    w.at(|| format!("select {} (kind {}) among {} with ones in {}..{}", i, k, limit, from, to));
                    w.transitions += 1;
                    s.inner().queries.set(0);
                    let _ = match k { 0 => s.select1(i), 1 => s.select0(i), _ => s.select(i, i % 2 == 0) };
                    let q = s.inner().queries.get();
                    chk!(q <= most, "queries", "select({}) (kind {}) over {} positions with ones in {}..{} makes {} rank queries", i, k, limit, from, to, q);
                }
            }
        }
    }
    w.traces += 1;
    Ok(())
}

// ---------------------------------------------------------------- growth

/// Grows by `n` steps; at every point the allocator has been called at most 4 lg(bytes) + 8 times. At marked sizes,
/// also alternates removing and adding.
fn growth<T>(w: &mut W, name: &str, mut v: T, n: u64, per: u64, add: &dyn Fn(&mut T, u64), del: Option<&dyn Fn(&mut T)>) -> R {
    let c0 = alloc_calls();
    w.state();
    w.traces += 1;
    for i in 1..=n {
        w.at(|| format!("{}: growing to {}", name, i));
        add(std::hint::black_box(&mut v), i);
        w.transitions += 1;
        let most = 4 * (64 - (i * per / 8 + 1).leading_zeros() as u64) + 8;
        let c = alloc_calls() - c0;
        chk!(c <= most, "growth", "{}: growing one at a time to {} allocates {} times", name, i, c);
        if let Some(del) = del {
            let near = i < 70 || (i & (i - 1)) == 0 || ((i - 1) & (i.wrapping_sub(2))) == 0 || i % 997 == 0;
            if near {
                for back in [1u64, 2, 70] {
                    for _ in 0..12 {
                        for _ in 0..back.min(i) {
                            del(std::hint::black_box(&mut v));
                        }
                        for j in 0..back.min(i) {
                            add(std::hint::black_box(&mut v), j);
                        }
                        w.transitions += 1;
                    }
                }
                let c = alloc_calls() - c0;
                chk!(c <= most, "growth", "{}: at {}, removing and adding back in turn: {} allocations in all", name, i, c);
            }
        }
    }
    Ok(())
}
fn bit_growth<B: Blk>(m: &mut Main, n: u64) {
    m.job(format!("growth of bit vectors of {}", B::NAME), move |w| {
        growth(w, "BitVector::push_bit", BitVector::<B>::new(), n, 1, &|v, i| v.push_bit(i % 3 == 0), Some(&|v| { v.pop_bit(); }))?;
        growth(w, "BitVector::push_block", BitVector::<B>::new(), n / 16, B::W as u64, &|v, i| v.push_block(B::of(i & mask(B::W))), None)?;
        growth(w, "BitVector::push_bit after clear", { let mut v = BitVector::<B>::with_fill(100, true); v.clear(); v }, n / 4, 1, &|v, i| v.push_bit(i % 3 == 0), Some(&|v| { v.pop_bit(); }))?;
        growth(w, "BitBuffer::write_bit", BitBuffer::<BitVector<B>>::new(), n, 1, &|v, i| v.write_bit(i % 3 == 0).unwrap(), None)?;
        growth(w, "BitBuffer::write_int", BitBuffer::<BitVector<B>>::new(), n / 16, 23, &|v, i| v.write_int(23, i & mask(23)).unwrap(), None)
    });
    for k in 1..=B::W {
        m.job(format!("growth of integer vectors of {} width {}", B::NAME, k), move |w| {
            growth(w, &format!("IntVector<{}>({})::push", B::NAME, k), IntVector::<B>::new(k), n / 8, k as u64, &|v, i| v.push(B::of(i & mask(k))), Some(&|v| { v.pop(); }))
        });
    }
}

fn main() {
    let mut m = Main::new("C29");
    m.rule("state = one structure over one computed store (or one growing vector); transition = one query, read, write or growth step with its block accesses, rank queries or allocations counted");
    let all = m.pick(1100u64, 3000);
    let parts = 32;
    for part in 0..parts {
        m.job(format!("every length part {}", part), move |w| {
            for n in (0..=all).filter(|n| n % parts == part) {
                for f in 0..3 {
                    jacobson::<u8>(w, n, FS[f], f == 0)?;
                    jacobson::<u16>(w, n, FS[f], f == 0)?;
                    jacobson::<u32>(w, n, FS[f], f == 0)?;
                    jacobson::<u64>(w, n, FS[f], f == 0)?;
                    jacobson::<usize>(w, n, FS[f], false)?;
                    nine(w, n, FS[f], f == 0)?;
                }
                if n % 7 == 0 || n < 200 {
                    views::<u8>(w, n)?;
                    views::<u32>(w, n)?;
                    views::<u64>(w, n)?;
                    writes::<u8>(w, n)?;
                    writes::<u64>(w, n)?;
                }
            }
            w.sample(|| format!("every rank position, marked selections and reads over lengths = {} mod {}", part, parts));
            Ok(())
        });
    }
    let far = far_lengths(11, m.pick(20, 24));
    for (i, n) in far.into_iter().enumerate() {
        m.job(format!("length {}", n), move |w| {
            let n = n as u64;
            jacobson::<u64>(w, n, FS[0], true)?;
            nine(w, n, FS[0], true)?;
            match i % 3 {
                0 => jacobson::<u8>(w, n, FS[0], true),
                1 => jacobson::<u16>(w, n, FS[0], true),
                _ => jacobson::<u32>(w, n, FS[0], true),
            }
        });
    }
    let big = m.pick(1u64 << 27, 1 << 33) + 321;
    m.job("big Jacobson", move |w| jacobson::<u64>(w, big, FS[0], true));
    m.job("big rank9", move |w| nine(w, big, FS[0], true));
    m.job("far views", |w| {
        for k in 20..64 {
            for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 9] {
                views::<u64>(w, n)?;
                views::<u16>(w, n)?;
                writes::<u32>(w, n)?;
            }
        }
        Ok(())
    });
    for k in 0..64u32 {
        m.job(format!("rank queries 2^{}", k), move |w| {
            for d in -2i64..=2 {
                queries(w, (1u64 << k).saturating_add_signed(d))?;
            }
            if k == 63 {
                for d in 0..4 {
                    queries(w, u64::MAX - d)?;
                }
            }
            Ok(())
        });
    }
    let n = m.pick(1u64 << 20, 1 << 23);
    bit_growth::<u8>(&mut m, n);
    bit_growth::<u16>(&mut m, n);
    bit_growth::<u32>(&mut m, n);
    bit_growth::<u64>(&mut m, n);
    bit_growth::<usize>(&mut m, n);
    m.bound(format!("every length to {}, lengths around powers of two to 2^20 (thorough 2^24), one of 2^27 (thorough 2^33) bits: every position (marked ones beyond 1200 bits) of rank, select and every kind of read, at most {} different blocks each; views and writes over computed stores to 2^63 bits", all, BLOCKS));
    m.bound("select over user rank structures with limits around every power of two to 2^64-1 and ones in every interval between critical places: at most 4 lg + 8 rank queries");
    m.bound(format!("growth one at a time to {} bits, and to an eighth as many elements of every width, with removals and additions alternating at marked sizes: at most 4 lg + 8 allocator calls", n));
    m.run()
}
