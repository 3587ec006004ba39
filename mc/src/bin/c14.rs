//! C14: binary-search select is the exact inverse of rank.
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use std::cell::Cell;
use succinct::bit_vec::BitSlice;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::{Select0Support, Select1Support, SelectSupport};
use succinct::{BinSearchSelect, BitVector, JacobsonRank, Rank9};

/// Rank over any alphabet, by counting; notes queries outside.
struct Text {
    s: Vec<u8>,
    outside: Cell<u64>,
    queries: Cell<u64>,
}
impl RankSupport for Text {
    type Over = u8;
    fn rank(&self, p: u64, v: u8) -> u64 {
        self.queries.set(self.queries.get() + 1);
        if p >= self.s.len() as u64 {
            self.outside.set(self.outside.get() + 1);
            return 0;
        }
        self.s[..=p as usize].iter().filter(|&&c| c == v).count() as u64
    }
    fn limit(&self) -> u64 {
        self.s.len() as u64
    }
}

/// Bits given by the sorted positions of the exceptional bits over a constant background.
#[derive(Clone, Debug)]
struct Sparse {
    limit: u64,
    background: bool,
    odd: Vec<u64>,
    outside: Cell<u64>,
}
impl Sparse {
    fn exceptional(&self, p: u64) -> u64 {
        if p >= self.limit {
            self.outside.set(self.outside.get() + 1);
        }
        self.odd.iter().filter(|&&o| o <= p).count() as u64
    }
    /// i-th occurrence of v
    fn find(&self, i: u64, v: bool) -> Option<u64> {
        if v != self.background {
            return self.odd.get(usize::try_from(i).unwrap_or(usize::MAX)).cloned();
        }
        let mut p = i;
        for &o in &self.odd {
            if o <= p {
                p = p.checked_add(1)?
            }
        }
        if p < self.limit {
            Some(p)
        } else {
            None
        }
    }
}
impl RankSupport for Sparse {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 {
        let e = self.exceptional(p);
        if v != self.background {
            e
        } else {
            p.wrapping_add(1).wrapping_sub(e)
        }
    }
    fn limit(&self) -> u64 {
        self.limit
    }
}
impl BitRankSupport for Sparse {}

const HUGE: [u64; 12] = [1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 1, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 2, u64::MAX - 1, u64::MAX];

fn bits_select<S>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool]) -> R
where
    S: Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    w.state();
    w.traces += 1;
    for v in [true, false] {
        let pos: Vec<u64> = (0..m.len() as u64).filter(|&i| m[i as usize] == v).collect();
        let n = pos.len() as u64;
        for i in (0..n + 3).chain(HUGE) {
            w.at(|| format!("{}: select({}, {}) in {}", what(), i, v, bitstr(m)));
            w.transitions += 2;
            let want = if i < n { Some(pos[i as usize]) } else { None };
            let a = if v { s.select1(i) } else { s.select0(i) };
            let b = s.select(i, v);
            chk!(a == want, "select", "{}: select{}({}) = {:?}, expected {:?}; bits {}", what(), v as u8, i, a, want, bitstr(m));
            chk!(b == want, "select", "{}: select({}, {}) = {:?}, expected {:?}; bits {}", what(), i, v, b, want, bitstr(m));
        }
    }
    Ok(())
}

fn structures<B: Blk>(w: &mut W, m: &[bool]) -> R {
    let j = BinSearchSelect::new(JacobsonRank::new(bv_from::<B>(m)));
    bits_select(w, &|| format!("JacobsonRank<BitVector<{}>>", B::NAME), &j, m)?;
    bits_select(w, &|| "twice".into(), &BinSearchSelect::new(j), m)?;
    let j = BinSearchSelect::new(JacobsonRank::new(ByBlock::<B>::new(m, !0)));
    bits_select(w, &|| format!("JacobsonRank<user store by block<{}>>", B::NAME), &j, m)?;
    let base = bv_from::<B>(&[&[true, false, true], m, &[true, true, false]].concat());
    let j = BinSearchSelect::new(JacobsonRank::new(BitSlice::new(&base, 3..3 + m.len() as u64)));
    bits_select(w, &|| format!("JacobsonRank<slice of BitVector<{}>>", B::NAME), &j, m)?;
    if m.len() == B::W {
        bits_select(w, &|| format!("{}", B::NAME), &BinSearchSelect::new(B::of(pack(m, B::W)[0])), m)?;
    }
    Ok(())
}
fn nine(w: &mut W, m: &[bool]) -> R {
    bits_select(w, &|| "Rank9<BitVector<u64>>".into(), &BinSearchSelect::new(Rank9::new(bv_from::<u64>(m))), m)?;
    bits_select(w, &|| "Rank9<user store by block>".into(), &BinSearchSelect::new(Rank9::new(ByBlock::<u64>::new(m, !0))), m)?;
    if m.len() == 64 {
        bits_select(w, &|| "Broadword".into(), &BinSearchSelect::new(Broadword(pack(m, 64)[0])), m)?;
    }
    Ok(())
}
fn all(w: &mut W, m: &[bool]) -> R {
    structures::<u8>(w, m)?;
    structures::<u16>(w, m)?;
    structures::<u32>(w, m)?;
    structures::<u64>(w, m)?;
    structures::<usize>(w, m)?;
    nine(w, m)
}

fn text(w: &mut W, s: &[u8], symbols: &[u8]) -> R {
    let b = BinSearchSelect::new(Text { s: s.to_vec(), outside: Cell::new(0), queries: Cell::new(0) });
    w.state();
    w.traces += 1;
    for &c in symbols {
        let pos: Vec<u64> = (0..s.len() as u64).filter(|&i| s[i as usize] == c).collect();
        for i in (0..s.len() as u64 + 2).chain(HUGE) {
            w.at(|| format!("select({}, {}) in {:?}", i, c, s));
            w.step();
            let want = pos.get(usize::try_from(i).unwrap()).cloned();
            let got = b.select(i, c);
            chk!(got == want, "symbol", "select({}, {}) in {:?} = {:?}, expected {:?}", i, c, s, got, want);
            chk!(b.inner().outside.get() == 0, "outside", "select({}, {}) in {:?} asked for a rank outside", i, c, s);
        }
    }
    Ok(())
}

fn sparse(w: &mut W, s: Sparse) -> R {
    w.state();
    w.traces += 1;
    let n = s.odd.len() as u64;
    let b = BinSearchSelect::new(s.clone());
    let mut is: Vec<u64> = (0..n + 3).chain(HUGE).collect();
    for d in 0..5u64 {
        for c in [s.limit, s.limit - n, s.limit / 2, s.limit / 3].iter().chain(s.odd.iter()) {
            is.push(c.wrapping_add(d));
            is.push(c.wrapping_sub(d));
        }
    }
    is.sort();
    is.dedup();
    for i in is {
        for v in [true, false] {
            w.at(|| format!("select({}, {}) in {:?}", i, v, s));
            w.transitions += 2;
            let want = s.find(i, v);
            let a = if v { b.select1(i) } else { b.select0(i) };
            let c = b.select(i, v);
            chk!(a == want, "sparse", "select{}({}) in {:?} = {:?}, expected {:?}", v as u8, i, s, a, want);
            chk!(c == want, "sparse", "select({}, {}) in {:?} = {:?}, expected {:?}", i, v, s, c, want);
            chk!(b.inner().outside.get() == 0, "outside", "select({}, {}) in {:?} asked for a rank outside", i, v, s);
        }
    }
    Ok(())
}

/// Long contents: the first, last and marked occurrences, and everything with a stride.
fn long_select<S>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool]) -> R
where
    S: Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    w.state();
    w.traces += 1;
    for v in [true, false] {
        let pos: Vec<u64> = (0..m.len() as u64).filter(|&i| m[i as usize] == v).collect();
        let n = pos.len() as u64;
        let mut is: Vec<u64> = (0..n + 3).step_by((n / 300 + 1) as usize).collect();
        for k in 0..24 {
            for d in [-1i64, 0, 1] {
                is.push(((1i64 << k) + d) as u64);
                is.push((n as i64 - (1i64 << k) + d).max(0) as u64);
            }
        }
        is.extend(n.saturating_sub(70)..n + 3);
        is.extend(HUGE);
        for i in is {
            w.at(|| format!("{}: select({}, {})", what(), i, v));
            w.transitions += 2;
            let want = pos.get(i as usize).cloned();
            let a = if v { s.select1(i) } else { s.select0(i) };
            let b = s.select(i, v);
            chk!(a == want && b == want, "select", "{}: select{}({}) = {:?}, select = {:?}, expected {:?}", what(), v as u8, i, a, b, want);
        }
    }
    Ok(())
}
fn long_job(m: &mut Main, n: usize) {
    for kind in 0..NPAT + 3 {
        m.job(format!("long contents {} {}", n, kind), move |w| {
            let c: Vec<bool> = match kind.checked_sub(NPAT) {
                None => pattern(kind, n),
                // one in 1000, all but one in 5000, dense in the middle only
                Some(0) => (0..n).map(|i| mix(i as u64) % 1000 == 0).collect(),
                Some(1) => (0..n).map(|i| i % 5000 != 4321).collect(),
                _ => (0..n).map(|i| i / 4096 == n / 8192).collect(),
            };
            let what = |s: &str| format!("{} over {} bits, contents {}", s, n, kind);
            long_select(w, &|| what("Rank9<BitVector>"), &BinSearchSelect::new(Rank9::new(bv_from::<u64>(&c))), &c)?;
            long_select(w, &|| what("JacobsonRank<BitVector<u64>>"), &BinSearchSelect::new(JacobsonRank::new(bv_from::<u64>(&c))), &c)?;
            long_select(w, &|| what("JacobsonRank<BitVector<u8>>"), &BinSearchSelect::new(JacobsonRank::new(bv_from::<u8>(&c))), &c)?;
            long_select(w, &|| what("JacobsonRank<BitVector<u16>>"), &BinSearchSelect::new(JacobsonRank::new(bv_from::<u16>(&c))), &c)?;
            long_select(w, &|| what("JacobsonRank<BitVector<u32>>"), &BinSearchSelect::new(BinSearchSelect::new(JacobsonRank::new(bv_from::<u32>(&c)))), &c)
        });
    }
}
/// Every third block full, the others empty, over more than 2^32 bits.
fn beyond_32<S>(w: &mut W, name: &str, s: &S, n: u64) -> R
where
    S: Select1Support + Select0Support + SelectSupport<Over = bool>,
{
    let full = |b: u64| b % 3 == 0;
    let one = |i: u64| i / 64 * 192 + i % 64;
    let zero = |i: u64| (i / 128) * 192 + 64 + i % 128;
    let (mut ones, mut zeros) = (n / 192 * 64, n / 192 * 128);
    for p in n / 192 * 192..n {
        if full(p / 64) { ones += 1 } else { zeros += 1 }
    }
    w.state();
    w.traces += 1;
    for (v, count) in [(true, ones), (false, zeros)] {
        let mut is: Vec<u64> = HUGE.to_vec();
        for k in 0..34 {
            is.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, count.saturating_sub(1 << k), (1u64 << 32) / 3 + (1 << k >> 2)]);
        }
        for d in 0..200 {
            is.extend([count + d, count - 1 - d, d]);
            // around the places where positions cross 2^32
            is.push((1u64 << 32) / 192 * if v { 64 } else { 128 } + d);
        }
        for i in is {
            w.at(|| format!("{}: select({}, {}) over {} bits", name, i, v, n));
            w.transitions += 2;
            let want = if i < count { Some(if v { one(i) } else { zero(i) }) } else { None };
            let a = if v { s.select1(i) } else { s.select0(i) };
            let b = s.select(i, v);
            chk!(a == want && b == want, "select", "{} over {} bits: select{}({}) = {:?}, select = {:?}, expected {:?}", name, n, v as u8, i, a, b, want);
        }
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C14");
    for n in if m.thorough { vec![5000usize, 32_768, 65_535, 65_536, 65_537, 100_001, 262_145, (1 << 20) + 7, 1 << 22] } else { vec![5000, 65_535, 65_537, 262_145, (1 << 20) + 7] } {
        long_job(&mut m, n);
    }
    let n = (1u64 << 32) + 12345;
    m.job("beyond 2^32 rank9", move |w| beyond_32(w, "Rank9", &BinSearchSelect::new(Rank9::new(Virtual::<u64>::new(n, |i| if i % 3 == 0 { !0 } else { 0 }))), n));
    m.job("beyond 2^32 Jacobson", move |w| beyond_32(w, "JacobsonRank", &BinSearchSelect::new(JacobsonRank::new(Virtual::<u64>::new(n, |i| if i % 3 == 0 { !0 } else { 0 }))), n));
    m.bound("contents of 5000 to 2^20+7 (thorough 2^22) bits, 11 families, over Jacobson (four block types) and rank9: marked and strided occurrences; virtual stores of more than 2^32 bits");
    m.rule("state = one select structure over one content; transition = one select query (every index from 0 to the count plus 2, and huge ones) compared with a scan; user rank structures record every query outside");
    let n2 = m.pick(10, 14);
    let (n3, n4) = (m.pick(8usize, 10), m.pick(6usize, 8));
    let long = m.pick(700usize, 3000);
    m.bound(format!("every bit string of length <= {} over Jacobson, rank9, doubled, slices, garbage-holding user stores, all block types; 8 families of every length <= {}; every u8 and u16 word, word families of u32/u64/usize/Broadword", n2, long));
    m.bound(format!("every text of length <= {} over 3 symbols and <= {} over 4 (user rank structure recording its queries)", n3, n4));
    m.bound("virtual bit ranks with limits up to 2^64-1 and every set of at most 3 exceptional bits from 13 critical places, over both backgrounds");
    for n in 0..=n2 {
        m.job(format!("all bit strings len {}", n), move |w| {
            for x in 0..1u64 << n {
                all(w, &word_bits(x, n))?;
            }
            w.sample(|| format!("each of the {} bit strings of length {}: select0/select1/select of every index", 1u64 << n, n));
            Ok(())
        });
    }
    for part in 0..32usize {
        m.job(format!("long part {}", part), move |w| {
            for n in (0..=long).filter(|n| n % 32 == part) {
                for k in 0..NPAT {
                    let b = pattern(k, n);
                    structures::<u8>(w, &b)?;
                    structures::<u64>(w, &b)?;
                    nine(w, &b)?;
                }
            }
            Ok(())
        });
        m.job(format!("words part {}", part), move |w| {
            for x in (0..65536u64).filter(|x| *x as usize % 32 == part) {
                let b = word_bits(x, 16);
                bits_select(w, &|| "u16".into(), &BinSearchSelect::new(x as u16), &b)?;
                if x < 256 {
                    bits_select(w, &|| "u8".into(), &BinSearchSelect::new(x as u8), &b[..8])?;
                }
            }
            let f = mc::words::family(64, 100);
            for &x in f.iter().skip(part).step_by(if w.thorough { 32 } else { 256 }) {
                let b = word_bits(x, 64);
                bits_select(w, &|| "u64".into(), &BinSearchSelect::new(x), &b)?;
                bits_select(w, &|| "usize".into(), &BinSearchSelect::new(x as usize), &b)?;
                bits_select(w, &|| "Broadword".into(), &BinSearchSelect::new(Broadword(x)), &b)?;
                bits_select(w, &|| "u32".into(), &BinSearchSelect::new(x as u32), &b[..32])?;
            }
            Ok(())
        });
    }
    for (sigma, n) in [(3u64, n3), (4, n4)] {
        for n in 0..=n {
            m.job(format!("texts over {} symbols len {}", sigma, n), move |w| {
                let syms = [0u8, 7, 200, 255, 3];
                for x in 0..sigma.pow(n as u32) {
                    let s: Vec<u8> = (0..n).map(|i| syms[(x / sigma.pow(i as u32) % sigma) as usize]).collect();
                    text(w, &s, &syms)?;
                }
                w.sample(|| format!("each text of length {} over {:?}: select(i, c) for each symbol c, absent one included", n, &syms[..sigma as usize]));
                Ok(())
            });
        }
    }
    for limit in [1u64, 2, 3, 5, 64, 1000, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX] {
        m.job(format!("virtual limit {}", limit), move |w| {
            let mut c: Vec<u64> = [0, 1, 2, 63, limit / 2, limit / 2 + 1, limit / 4, limit / 3, 1 << 32, limit.wrapping_sub(64), limit.wrapping_sub(3), limit.wrapping_sub(2), limit - 1].iter().cloned().filter(|&p| p < limit).collect();
            c.sort();
            c.dedup();
            for x in 0..1u64 << c.len() {
                if x.count_ones() <= 3 {
                    let odd: Vec<u64> = (0..c.len()).filter(|&i| x >> i & 1 == 1).map(|i| c[i]).collect();
                    for background in [false, true] {
                        sparse(w, Sparse { limit, background, odd: odd.clone(), outside: Cell::new(0) })?;
                    }
                }
            }
            w.sample(|| format!("virtual rank with limit {}: exceptional bits among {:?}", limit, c));
            Ok(())
        });
    }
    let _ = BitVector::<u8>::new();
    m.run()
}
