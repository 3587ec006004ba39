//! C17: rank/select wrappers and exported adapter macros are transparent.
#[macro_use]
extern crate succinct;
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use std::fmt::Debug;
use succinct::bit_vec::BitSlice;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::{Select0Support, Select1Support, SelectSupport};
use succinct::stream::BitBuffer;
use succinct::{BinSearchSelect, BitVec, BitVector, IntVector, JacobsonRank, Rank9, SpaceUsage};

// ---- a user's wrapper types, made with the exported macros (fields with different names, generic and concrete)
struct Wrap<S> {
    #[allow(dead_code)]
    decoy: u64,
    store: S,
}
fn wrap<S>(store: S) -> Wrap<S> {
    Wrap { decoy: 0x5555_5555_5555_5555, store }
}
impl<S: BitVec> BitVec for Wrap<S> {
    impl_bit_vec_adapter!(S::Block, store);
}
impl<S: RankSupport> RankSupport for Wrap<S> {
    impl_rank_support_adapter!(S::Over, store);
}
impl<S: BitRankSupport> BitRankSupport for Wrap<S> {
    impl_bit_rank_support_adapter!(store);
}
impl<S: Select1Support> Select1Support for Wrap<S> {
    impl_select1_support_adapter!(store);
}
impl<S: Select0Support> Select0Support for Wrap<S> {
    impl_select0_support_adapter!(store);
}
impl<S: SelectSupport> SelectSupport for Wrap<S> {
    impl_select_support_adapter!(S::Over, store);
}
struct Concrete {
    inner: BinSearchSelect<Rank9<BitVector<u64>>>,
}
impl BitVec for Concrete {
    impl_bit_vec_adapter!(u64, inner);
}
impl RankSupport for Concrete {
    impl_rank_support_adapter!(bool, inner);
}
impl BitRankSupport for Concrete {
    impl_bit_rank_support_adapter!(inner);
}
impl Select1Support for Concrete {
    impl_select1_support_adapter!(inner);
}
impl Select0Support for Concrete {
    impl_select0_support_adapter!(inner);
}
impl SelectSupport for Concrete {
    impl_select_support_adapter!(bool, inner);
}
#[derive(Clone, Copy)]
struct Flat(#[allow(dead_code)] u8, #[allow(dead_code)] u64);
impl_stack_only_space_usage!(Flat);

/// Answers that identify the method and every argument, over an alphabet that is not bool.
struct Mark(u64);
#[derive(Clone, Copy, PartialEq, Debug)]
struct Sym(u16);
fn h(salt: u64, m: u64, a: u64, b: u64) -> u64 {
    mix(mix(mix(salt ^ m) ^ a) ^ b)
}
impl RankSupport for Mark {
    type Over = Sym;
    fn rank(&self, p: u64, v: Sym) -> u64 {
        h(self.0, 1, p, v.0 as u64)
    }
    fn limit(&self) -> u64 {
        h(self.0, 2, 0, 0)
    }
}
impl SelectSupport for Mark {
    type Over = Sym;
    fn select(&self, i: u64, v: Sym) -> Option<u64> {
        let x = h(self.0, 3, i, v.0 as u64);
        if x % 3 == 0 {
            None
        } else {
            Some(x)
        }
    }
}
impl Select1Support for Mark {
    fn select1(&self, i: u64) -> Option<u64> {
        let x = h(self.0, 4, i, 0);
        if x % 3 == 0 {
            None
        } else {
            Some(x)
        }
    }
}
impl Select0Support for Mark {
    fn select0(&self, i: u64) -> Option<u64> {
        let x = h(self.0, 5, i, 0);
        if x % 3 == 0 {
            None
        } else {
            Some(x)
        }
    }
}

/// A rank and select structure of a user's own in which some positions hold neither 0 nor 1.
#[derive(Clone, PartialEq, Debug)]
struct Live(Vec<u8>);
impl Live {
    fn count(&self, p: u64, v: u8) -> u64 {
        assert!(p < self.0.len() as u64, "Live: out of bounds");
        self.0[..=p as usize].iter().filter(|&&x| x == v).count() as u64
    }
    fn find(&self, i: u64, v: u8) -> Option<u64> {
        self.0.iter().enumerate().filter(|x| *x.1 == v).nth(i as usize).map(|x| x.0 as u64)
    }
}
impl RankSupport for Live {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        self.count(p, v as u8)
    }
    fn limit(&self) -> u64 {
        self.0.len() as u64
    }
}
impl BitRankSupport for Live {
    fn rank1(&self, p: u64) -> u64 {
        self.count(p, 1)
    }
    fn rank0(&self, p: u64) -> u64 {
        self.count(p, 0)
    }
}
impl Select1Support for Live {
    fn select1(&self, i: u64) -> Option<u64> {
        self.find(i, 1)
    }
}
impl Select0Support for Live {
    fn select0(&self, i: u64) -> Option<u64> {
        self.find(i, 0)
    }
}
impl SelectSupport for Live {
    type Over = bool;
    fn select(&self, i: u64, v: bool) -> Option<u64> {
        self.find(i, v as u8)
    }
}
fn live_one<S: BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>>(w: &mut W, what: &str, s: &S, l: &Live) -> R {
    w.at(|| format!("{} over a user rank structure holding {:?}", what, l.0));
    w.state();
    let n = l.0.len() as u64;
    chk!(s.limit() == n, "live", "{} over a user rank structure holding {:?}: limit {}", what, l.0, s.limit());
    for p in 0..n {
        w.step();
        let got = (s.rank0(p), s.rank1(p), s.rank(p, false), s.rank(p, true));
        let (z, o) = (l.count(p, 0), l.count(p, 1));
        chk!(got == (z, o, z, o), "live", "{} over a user rank structure holding {:?} (2 is neither 0 nor 1): ranks at {}: {:?}, expected {:?}", what, l.0, p, got, (z, o, z, o));
    }
    for p in [n, n + 1, u64::MAX] {
        chk!(guard(|| s.rank0(p)).is_err() && guard(|| s.rank1(p)).is_err() && guard(|| s.rank(p, false)).is_err(), "live", "{} over a user rank structure holding {:?}: answers at {}", what, l.0, p);
    }
    for i in (0..n + 2).chain([u64::MAX - 1, u64::MAX]) {
        w.step();
        let got = (s.select0(i), s.select1(i), s.select(i, false), s.select(i, true));
        let (z, o) = (l.find(i, 0), l.find(i, 1));
        chk!(got == (z, o, z, o), "live", "{} over a user rank structure holding {:?} (2 is neither 0 nor 1): selects of {}: {:?}, expected {:?}", what, l.0, i, got, (z, o, z, o));
    }
    w.traces += 1;
    Ok(())
}
/// wrappers over it: the macro-made one, the select structure, and both nestings
fn live(w: &mut W, l: Live) -> R {
    live_one(w, "macro-made wrapper", &wrap(l.clone()), &l)?;
    live_one(w, "macro-made wrapper twice", &wrap(wrap(l.clone())), &l)?;
    live_one(w, "BinSearchSelect", &BinSearchSelect::new(l.clone()), &l)?;
    live_one(w, "BinSearchSelect twice", &BinSearchSelect::new(BinSearchSelect::new(l.clone())), &l)?;
    live_one(w, "macro-made wrapper over BinSearchSelect", &wrap(BinSearchSelect::new(l.clone())), &l)?;
    live_one(w, "BinSearchSelect over macro-made wrapper", &BinSearchSelect::new(wrap(l.clone())), &l)?;
    let b = BinSearchSelect::new(l.clone());
    chk!(*b.inner() == l && b.into_inner() == l, "live", "BinSearchSelect does not give back a user rank structure holding {:?}", l.0);
    Ok(())
}

/// the bits through every read method, in range, and refusal out of range
fn reads<S: BitVec>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool], full: bool) -> R
where
    S::Block: Blk,
{
    w.state();
    w.traces += 1;
    w.transitions += m.len() as u64 * 3 + 2;
    let r = np("read", || {
        agree_bits(s, m, full && S::Block::W <= 16)?;
        if full && S::Block::W > 16 {
            agree_spans(s, m)?;
        }
        Ok(())
    })
    .and_then(|r| r);
    if let Err(e) = r {
        return fail("reads", format!("{} holding {}: {}", what(), bitstr(m), e));
    }
    let n = m.len() as u64;
    for p in [n, n + 1, u64::MAX] {
        if let Ok(b) = guard(|| s.get_bit(p)) {
            return fail("reads", format!("{} holding {}: get_bit({}) returned {}", what(), bitstr(m), p, b));
        }
        if let Ok(b) = guard(|| s.get_bits(p, 1)) {
            return fail("reads", format!("{} holding {}: get_bits({}, 1) returned {:?}", what(), bitstr(m), p, b));
        }
    }
    // spans that start inside and end just or well outside, and blocks past the end
    let wd = S::Block::W as u64;
    for (p, c) in [(n.wrapping_sub(1), 2), (n / wd * wd, n % wd + 1), (n.wrapping_sub(wd / 2), wd), (n.saturating_sub(wd - 1), wd)] {
        if p < n && c <= wd {
            if let Ok(b) = guard(|| s.get_bits(p, c as usize)) {
                return fail("reads", format!("{} holding {}: get_bits({}, {}) returned {:?}", what(), bitstr(m), p, c, b));
            }
        }
    }
    for b in [s.block_len(), usize::MAX] {
        if let Ok(x) = guard(|| s.get_block(b)) {
            return fail("reads", format!("{} holding {}: get_block({}) returned {:?}", what(), bitstr(m), b, x));
        }
    }
    Ok(())
}
fn ranks<S: BitRankSupport>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool]) -> R {
    w.at(what);
    chk!(s.limit() == m.len() as u64, "limit", "{}: limit {} for {}", what(), s.limit(), bitstr(m));
    let mut ones = 0;
    for p in 0..m.len() {
        w.step();
        ones += m[p] as u64;
        let q = p as u64;
        let got = (s.rank1(q), s.rank0(q), s.rank(q, true), s.rank(q, false));
        let z = q + 1 - ones;
        chk!(got == (ones, z, ones, z), "rank", "{}: at {}: {:?}, expected {:?}; bits {}", what(), p, got, (ones, z, ones, z), bitstr(m));
    }
    Ok(())
}
fn selects<S: Select1Support + Select0Support + SelectSupport<Over = bool>>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool]) -> R {
    for v in [false, true] {
        let pos: Vec<u64> = (0..m.len() as u64).filter(|&i| m[i as usize] == v).collect();
        for i in 0..pos.len() as u64 + 2 {
            w.step();
            w.at(what);
            let want = pos.get(i as usize).cloned();
            let a = if v { s.select1(i) } else { s.select0(i) };
            let b = s.select(i, v);
            chk!(a == want && b == want, "select", "{}: select{}({}) = {:?}, select = {:?}, expected {:?}; bits {}", what(), v as u8, i, a, b, want, bitstr(m));
        }
    }
    Ok(())
}

fn whole<S: BitVec + BitRankSupport + Select1Support + Select0Support + SelectSupport<Over = bool>>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool], full: bool) -> R
where
    S::Block: Blk,
{
    reads(w, what, s, m, full)?;
    ranks(w, what, s, m)?;
    selects(w, what, s, m)
}

/// every wrapper of a store: transparent, and the store comes back unchanged
fn jac<V: BitVec + Clone + PartialEq + Debug>(w: &mut W, name: &str, v: V, m: &[bool], full: bool) -> R
where
    V::Block: Blk,
{
    w.at(|| format!("wrappers over {}", name));
    let j = JacobsonRank::new(v.clone());
    let w1 = || format!("JacobsonRank over {}", name);
    reads(w, &w1, &j, m, full)?;
    ranks(w, &w1, &j, m)?;
    chk!(*j.inner() == v, "inner", "{}: inner() is {:?}, was {:?}", w1(), j.inner(), v);
    let c = j.clone();
    chk!(c.into_inner() == v, "into_inner", "{}: into_inner() of a clone differs from {:?}", w1(), v);
    let b = BinSearchSelect::new(j);
    let w2 = || format!("BinSearchSelect over JacobsonRank over {}", name);
    whole(w, &w2, &b, m, full)?;
    chk!(*b.inner().inner() == v, "inner", "{}: inner().inner() is {:?}, was {:?}", w2(), b.inner().inner(), v);
    let x = wrap(b);
    let w3 = || format!("user wrapper over BinSearchSelect over JacobsonRank over {}", name);
    whole(w, &w3, &x, m, full)?;
    let b = BinSearchSelect::new(x.store);
    whole(w, &|| format!("BinSearchSelect twice over JacobsonRank over {}", name), &b, m, false)?;
    let back = b.into_inner().into_inner().into_inner();
    chk!(back == v, "into_inner", "{}: into_inner() gives {:?}, was {:?}", w2(), back, v);
    // a rank structure over a wrapper of the store
    let j = JacobsonRank::new(wrap(v.clone()));
    let w4 = || format!("JacobsonRank over a user wrapper over {}", name);
    reads(w, &w4, &j, m, false)?;
    ranks(w, &w4, &j, m)?;
    chk!(j.into_inner().store == v, "into_inner", "{}", w4());
    reads(w, &|| format!("user wrapper over {}", name), &wrap(v), m, full)
}
fn nine<V: BitVec<Block = u64> + Clone + PartialEq + Debug>(w: &mut W, name: &str, v: V, m: &[bool], full: bool) -> R {
    w.at(|| format!("Rank9 over {}", name));
    let j = Rank9::new(v.clone());
    let w1 = || format!("Rank9 over {}", name);
    reads(w, &w1, &j, m, full)?;
    ranks(w, &w1, &j, m)?;
    chk!(*j.inner() == v, "inner", "{}: inner() is {:?}, was {:?}", w1(), j.inner(), v);
    chk!(j.clone().into_inner() == v, "into_inner", "{}: into_inner() of a clone differs from {:?}", w1(), v);
    let b = BinSearchSelect::new(j);
    let w2 = || format!("BinSearchSelect over Rank9 over {}", name);
    whole(w, &w2, &b, m, full)?;
    whole(w, &|| format!("user wrapper of a reference-free {}", w2()), &wrap(BinSearchSelect::new(Rank9::new(JacobsonRank::new(v.clone())))), m, full)?;
    let back = b.into_inner().into_inner();
    chk!(back == v, "into_inner", "{}: into_inner() gives {:?}, was {:?}", w2(), back, v);
    Ok(())
}

fn block<B: Blk>(w: &mut W, m: &[bool], full: bool) -> R {
    jac(w, &format!("BitVector<{}>", B::NAME), bv_from::<B>(m), m, full)?;
    jac(w, &format!("IntVector<{}>(1)", B::NAME), iv_from::<B>(1, m), m, false)?;
    if m.len() % 3 == 0 {
        jac(w, &format!("IntVector<{}>(3)", B::NAME), iv_from::<B>(3, m), m, false)?;
    }
    jac(w, &format!("user store by bit<{}>", B::NAME), ByBit::<B>::new(m), m, false)?;
    for g in [!0, mix(5)] {
        jac(w, &format!("user store by block<{}> with unused bits {:#x}", B::NAME, g), ByBlock::<B>::new(m, g), m, full)?;
    }
    if m.len() % B::W == 0 {
        let v: Vec<B> = pack(m, B::W).into_iter().map(B::of).collect();
        jac(w, &format!("Vec<{}>", B::NAME), v.clone(), m, full)?;
    }
    // wrappers that cannot be compared or cloned: read only
    let buf = JacobsonRank::new(BitBuffer::append(bv_from::<B>(m)));
    reads(w, &|| format!("JacobsonRank over BitBuffer<BitVector<{}>>", B::NAME), &buf, m, full)?;
    let b = buf.into_inner();
    chk!(b.position() == m.len() as u64 && raw(&b) == m, "into_inner", "JacobsonRank over BitBuffer: buffer came back at {} with {}", b.position(), bitstr(&raw(&b)));
    let base = bv_from::<B>(&[&[true, false, true][..], m, &[true; 9][..]].concat());
    let s = JacobsonRank::new(BitSlice::new(&base, 3..3 + m.len() as u64));
    let what = || format!("JacobsonRank over slice of BitVector<{}>", B::NAME);
    reads(w, &what, &s, m, full)?;
    ranks(w, &what, &s, m)?;
    reads(w, &|| "inner() of it".into(), s.inner(), m, full)?;
    reads(w, &|| "into_inner() of it".into(), &s.into_inner(), m, full)?;
    if m.len() == B::W {
        let x = B::of(pack(m, B::W)[0]);
        jac(w, B::NAME, x, m, full)?;
        whole(w, &|| format!("BinSearchSelect over {}", B::NAME), &BinSearchSelect::new(x), m, full)?;
        whole(w, &|| format!("user wrapper over BinSearchSelect over {}", B::NAME), &wrap(BinSearchSelect::new(wrap(x))), m, full)?;
    }
    Ok(())
}
fn all(w: &mut W, m: &[bool], full: bool) -> R {
    block::<u8>(w, m, full)?;
    block::<u16>(w, m, full)?;
    block::<u32>(w, m, full)?;
    block::<u64>(w, m, full)?;
    block::<usize>(w, m, full)?;
    jac(w, "Vec<bool>", m.to_vec(), m, full)?;
    nine(w, "BitVector<u64>", bv_from::<u64>(m), m, full)?;
    nine(w, "user store by block<u64>", ByBlock::<u64>::new(m, !0), m, full)?;
    nine(w, "user store by bit<u64>", ByBit::<u64>::new(m), m, false)?;
    let c = Concrete { inner: BinSearchSelect::new(Rank9::new(bv_from::<u64>(m))) };
    whole(w, &|| "a user's concrete wrapper".into(), &c, m, full)?;
    if m.len() == 64 {
        let x = BinSearchSelect::new(Broadword(pack(m, 64)[0]));
        ranks(w, &|| "BinSearchSelect over Broadword".into(), &x, m)?;
        ranks(w, &|| "user wrapper over BinSearchSelect over Broadword".into(), &wrap(x), m)?;
    }
    Ok(())
}

/// the adapters pass every argument through and every answer back
fn marks(w: &mut W) -> R {
    let args: Vec<u64> = (0..70).chain([255, 256, 65535, 65536, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]).collect();
    for salt in 0..50 {
        let m = Mark(salt);
        let x = wrap(Mark(salt));
        let y = BinSearchSelect::new(wrap(wrap(Mark(salt))));
        w.state();
        w.traces += 1;
        chk!(x.limit() == m.limit() && y.limit() == m.limit(), "adapter", "limit not forwarded");
        for &a in &args {
            w.tick();
            for v in (0..20).chain([255, 256, 65535]).map(Sym) {
                w.transitions += 3;
                chk!(x.rank(a, v) == m.rank(a, v), "adapter", "impl_rank_support_adapter: rank({}, {:?}) not forwarded", a, v);
                chk!(y.rank(a, v) == m.rank(a, v), "adapter", "BinSearchSelect: rank({}, {:?}) not forwarded", a, v);
                chk!(x.select(a, v) == m.select(a, v), "adapter", "impl_select_support_adapter: select({}, {:?}) not forwarded", a, v);
            }
            chk!(x.select1(a) == m.select1(a), "adapter", "impl_select1_support_adapter: select1({}) = {:?}, field {:?}", a, x.select1(a), m.select1(a));
            chk!(x.select0(a) == m.select0(a), "adapter", "impl_select0_support_adapter: select0({}) = {:?}, field {:?}", a, x.select0(a), m.select0(a));
        }
    }
    let f = Flat(1, 2);
    chk!(Flat::is_stack_only() && f.heap_bytes() == 0 && f.total_bytes() == std::mem::size_of::<Flat>() && Flat::stack_bytes() == std::mem::size_of::<Flat>(), "stack_only", "impl_stack_only_space_usage: stack only {}, heap {}, total {}", Flat::is_stack_only(), f.heap_bytes(), f.total_bytes());
    Ok(())
}

/// far positions through the bit-vector adapter
fn far<B: Blk>(w: &mut W) -> R {
    for len in [(1u64 << 32) - 1, (1 << 32) + 5, (1 << 38) + 1, 1 << 63, u64::MAX - 64] {
        let v = Virtual::<B>::new(len, |i| mix(i as u64) & mask(B::W));
        let x = wrap(wrap(v));
        w.state();
        chk!(x.bit_len() == len && x.block_len() == v.block_len(), "far", "wrapper over {} bits: lengths {} / {}", len, x.bit_len(), x.block_len());
        for k in 0..64u32 {
            for d in 0..8u64 {
                for p in [(1u64 << k).wrapping_sub(3).wrapping_add(d), len.wrapping_sub(1 + d * 9)] {
                    if p >= len {
                        continue;
                    }
                    w.step();
                    chk!(x.get_bit(p) == v.get_bit(p), "far", "wrapper over {} bits: get_bit({})", len, p);
                    let b = (p / B::W as u64) as usize;
                    chk!(x.get_block(b).u() == mix(b as u64) & mask(B::W), "far", "wrapper over {} bits: get_block({})", len, b);
                    for c in [0, 1, B::W / 2, B::W] {
                        if len - p >= c as u64 {
                            chk!(x.get_bits(p, c).u() == v.get_bits(p, c).u(), "far", "wrapper over {} bits: get_bits({}, {})", len, p, c);
                        } else if let Ok(b) = guard(|| x.get_bits(p, c)) {
                            return fail("far", format!("wrapper over {} bits: get_bits({}, {}) returned {:?}", len, p, c, b));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C17");
    m.rule("state = one wrapper (rank structure, select structure, macro-made type, and nestings) over one store with one content; transition = one query compared with the plain bits; into_inner/inner compared with the original store");
    let n0 = m.pick(8, 11);
    let top = m.pick(200usize, 700);
    m.bound(format!("every content of every length <= {}, three families for every length <= {}, over every store kind and block type", n0, top));
    m.bound("adapter macros over fields whose answers identify the method and all arguments: 80 indices x 23 symbols x 50 fields");
    m.job("adapters", marks);
    let nl = m.pick(8usize, 11);
    m.bound(format!("wrappers over a user's rank structure with positions that are neither 0 nor 1: every content of every length <= {}", nl));
    for n in 0..=nl {
        m.job(format!("user rank structure len {}", n), move |w| {
            for x in 0..3u64.pow(n as u32) {
                let mut y = x;
                live(w, Live((0..n).map(|_| { let d = y % 3; y /= 3; d as u8 }).collect()))?;
            }
            Ok(())
        });
    }
    m.job("far", |w| {
        far::<u8>(w)?;
        far::<u16>(w)?;
        far::<u32>(w)?;
        far::<u64>(w)?;
        far::<usize>(w)
    });
    for n in 0..=n0 {
        m.job(format!("all contents len {}", n), move |w| {
            for x in 0..1u64 << n {
                all(w, &word_bits(x, n), true)?;
            }
            w.sample(|| format!("every wrapper nesting over every store with each of the {} contents of length {}", 1u64 << n, n));
            Ok(())
        });
    }
    for part in 0..32usize {
        m.job(format!("long part {}", part), move |w| {
            for n in (0..=top).chain([511, 512, 513, 1024, 1088, 2049, 4097, 8257, 16449]).filter(|n| n % 32 == part) {
                for k in [1, 3, 4] {
                    all(w, &pattern(k, n), n % 4 == 0 && n < 300)?;
                }
            }
            Ok(())
        });
    }
    let _ = |v: IntVector<u8>| v;
    m.run()
}
