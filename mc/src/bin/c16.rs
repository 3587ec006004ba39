//! C16: rank queries at or beyond the limit are refused in every build.
#[macro_use]
extern crate succinct;
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use succinct::bit_vec::BitSlice;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::{BinSearchSelect, BitVector, IntVector, JacobsonRank, Rank9};

/// A user's wrapper made with the exported macros.
struct Mine<S>(Inner<S>);
struct Inner<S> {
    field: S,
}
impl<S: RankSupport> RankSupport for Inner<S> {
    impl_rank_support_adapter!(S::Over, field);
}
impl<S: BitRankSupport> BitRankSupport for Inner<S> {
    impl_bit_rank_support_adapter!(field);
}

/// positions at and beyond the limit
fn beyond(limit: u64, full: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for d in 0..if full { 140 } else { 20 } {
        v.push(limit + d);
        v.push(u64::MAX - d);
    }
    // the rest of the last block / basic block / large block, and what is one and two behind
    for b in [8u64, 16, 32, 64, 128, 256, 512] {
        for k in 0..3 {
            let e = (limit / b + 1 + k) * b;
            v.extend([e - 1, e, e + 1]);
        }
    }
    // positions that agree with in-range ones modulo a power of two
    for k in 6..64 {
        for d in [0, 1, limit / 2, limit.saturating_sub(1), limit, limit + 1] {
            v.push((1u64 << k).wrapping_add(d));
            v.push((1u64 << k).wrapping_sub(d + 1));
        }
    }
    for d in [0, 1, limit / 2, limit] {
        v.push(0u64.wrapping_sub(512).wrapping_add(d));
        v.push(0u64.wrapping_sub(64).wrapping_sub(d));
    }
    v.retain(|&p| p >= limit);
    v.sort();
    v.dedup();
    v
}

fn refuses<S: BitRankSupport>(w: &mut W, what: &dyn Fn() -> String, s: &S, full: bool) -> R {
    w.state();
    w.traces += 1;
    w.at(what);
    let n = s.limit();
    if n > 0 {
        // the last position inside is answered (so that refusing everything would not pass)
        ok!((s.rank1(n - 1), s.rank0(n - 1)), "inside", "{}: rank at the last position {}", what(), n - 1);
    }
    for p in beyond(n, full) {
        w.transitions += 4;
        if let Ok(r) = guard(|| s.rank1(p)) {
            return fail("rank1", format!("{}: limit {}, rank1({}) returned {}", what(), n, p, r));
        }
        if let Ok(r) = guard(|| s.rank0(p)) {
            return fail("rank0", format!("{}: limit {}, rank0({}) returned {}", what(), n, p, r));
        }
        for v in [false, true] {
            if let Ok(r) = guard(|| s.rank(p, v)) {
                return fail("rank", format!("{}: limit {}, rank({}, {}) returned {}", what(), n, p, v, r));
            }
        }
        w.tick();
    }
    Ok(())
}

/// only the positions nearest to the limit
fn brink<S: BitRankSupport>(w: &mut W, what: &dyn Fn() -> String, s: &S) -> R {
    w.state();
    w.at(what);
    let n = s.limit();
    if n > 0 {
        ok!((s.rank1(n - 1), s.rank0(n - 1)), "inside", "{}: rank at the last position {}", what(), n - 1);
    }
    for p in [n, n + 1, n + 2, n / 64 * 64 + 63, n / 512 * 512 + 511, n + (1 << 32)] {
        if p < n {
            continue;
        }
        w.transitions += 3;
        let r = guard(|| s.rank1(p)).ok().or_else(|| guard(|| s.rank0(p)).ok()).or_else(|| guard(|| s.rank(p, true)).ok());
        if let Some(r) = r {
            return fail("brink", format!("{}: limit {}, a rank query at {} returned {}", what(), n, p, r));
        }
    }
    w.tick();
    Ok(())
}

fn nest<S: BitRankSupport>(w: &mut W, what: String, s: S, full: bool) -> R {
    refuses(w, &|| what.clone(), &s, full)?;
    let s = BinSearchSelect::new(s);
    refuses(w, &|| format!("BinSearchSelect over {}", what), &s, full)?;
    let s = Mine(Inner { field: BinSearchSelect::new(s) });
    refuses(w, &|| format!("user wrapper over BinSearchSelect twice over {}", what), &s.0, full)
}

fn jac<B: Blk>(w: &mut W, n: usize, full: bool) -> R {
    for k in [1, 3] {
        let m = pattern(k, n);
        if k == 1 {
            nest(w, format!("JacobsonRank<BitVector<{}>> of {} ones", B::NAME, n), JacobsonRank::new(bv_from::<B>(&m)), full)?;
        } else {
            refuses(w, &|| format!("JacobsonRank<BitVector<{}>> of {} bits", B::NAME, n), &JacobsonRank::new(bv_from::<B>(&m)), full)?;
        }
        if n % B::W == 0 {
            let v: Vec<B> = pack(&m, B::W).into_iter().map(B::of).collect();
            refuses(w, &|| format!("JacobsonRank<Vec<{}>> of {} bits", B::NAME, n), &JacobsonRank::new(v), full)?;
        }
        refuses(w, &|| format!("JacobsonRank<user store by block<{}>> of {} bits", B::NAME, n), &JacobsonRank::new(ByBlock::<B>::new(&m, !0)), full)?;
        let base = bv_from::<B>(&[&[true; 5][..], &m, &[true; 200][..]].concat());
        refuses(w, &|| format!("JacobsonRank<slice 5..{} of BitVector<{}>>", 5 + n, B::NAME), &JacobsonRank::new(BitSlice::new(&base, 5..5 + n as u64)), full)?;
        let iv: IntVector<B> = iv_from(1, &m);
        refuses(w, &|| format!("JacobsonRank<IntVector<{}>(1)> of {} bits", B::NAME, n), &JacobsonRank::new(iv), full)?;
    }
    Ok(())
}
fn nine(w: &mut W, n: usize, full: bool) -> R {
    let m = pattern(1, n);
    nest(w, format!("Rank9<BitVector> of {} ones", n), Rank9::new(bv_from::<u64>(&m)), full)?;
    let mut spare = BitVector::<u64>::with_capacity(n as u64 + 2000);
    for b in pattern(3, n) {
        spare.push_bit_(b)
    }
    refuses(w, &|| format!("Rank9<BitVector with spare capacity> of {} bits", n), &Rank9::new(spare), full)?;
    refuses(w, &|| format!("Rank9<user store by block> of {} bits", n), &Rank9::new(ByBlock::<u64>::new(&m, !0)), full)?;
    let base = bv_from::<u64>(&[&[true; 5][..], &m, &[true; 1200][..]].concat());
    refuses(w, &|| format!("Rank9<slice 5..{}>", 5 + n), &Rank9::new(BitSlice::new(&base, 5..5 + n as u64)), full)?;
    refuses(w, &|| format!("Rank9<Rank9> of {} bits", n), &Rank9::new(Rank9::new(bv_from::<u64>(&m))), full)?;
    refuses(w, &|| format!("Rank9<JacobsonRank> of {} bits", n), &Rank9::new(JacobsonRank::new(bv_from::<u64>(&m))), full)
}
trait PushBit {
    fn push_bit_(&mut self, b: bool);
}
impl PushBit for BitVector<u64> {
    fn push_bit_(&mut self, b: bool) {
        use succinct::BitVecPush;
        self.push_bit(b)
    }
}
fn prims(w: &mut W) -> R {
    for x in [0u64, 1, !0, 1 << 63, 0x5555_5555_5555_5555, mix(3), mix(4)] {
        nest(w, format!("u8 {:#x}", x as u8), x as u8, true)?;
        nest(w, format!("u16 {:#x}", x as u16), x as u16, true)?;
        nest(w, format!("u32 {:#x}", x as u32), x as u32, true)?;
        nest(w, format!("u64 {:#x}", x), x, true)?;
        nest(w, format!("usize {:#x}", x), x as usize, true)?;
        nest(w, format!("Broadword {:#x}", x), Broadword(x), true)?;
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C16");
    m.rule("state = one rank structure; transition = one query at or beyond its limit (rank1, rank0, rank of both values), which must panic; the last position inside must answer");
    let top = m.pick(200usize, 1100);
    let mut far: Vec<usize> = vec![255, 256, 257, 300, 511, 512, 513, 520, 575, 576, 577, 640, 1000, 1023, 1024, 1025, 1087, 1088, 1089, 2047, 2048, 2049, 4095, 4096, 4097, 5000];
    m.bound(format!("every length <= {} and 26 lengths up to 5000; Jacobson over 5 store kinds x 5 block types, rank9 over 6 store kinds, every word type and Broadword, each bare, under BinSearchSelect and under a macro-made wrapper", top));
    m.bound("positions: limit..limit+140, the ends of the enclosing blocks of 8..512 bits and the next ones, 2^k +- in-range offsets for every k >= 6, the last 140 before 2^64 (every tenth length; a subset for the others)");
    let mut ls: Vec<usize> = (0..=top).collect();
    ls.append(&mut far);
    m.job("words", prims);
    for (name, n) in [("2^20", 1u64 << 20), ("2^20+3", (1 << 20) + 3), ("2^32-1", (1 << 32) - 1), ("2^32", 1 << 32), ("2^32+5", (1 << 32) + 5)] {
        m.job(format!("far Jacobson {}", name), move |w| refuses(w, &|| format!("JacobsonRank over {} virtual bits", n), &BinSearchSelect::new(JacobsonRank::new(Virtual::<u64>::new(n, |i| mix(i as u64)))), true));
        m.job(format!("far rank9 {}", name), move |w| refuses(w, &|| format!("Rank9 over {} virtual bits", n), &BinSearchSelect::new(Rank9::new(Virtual::<u64>::new(n, |i| mix(i as u64)))), true));
    }
    m.bound("virtual stores of 2^20 and 2^32 bits and thereabouts");
    let brim = m.pick(6000usize, 20000);
    m.bound(format!("the brink of every length <= {}: the limit itself, the next positions, the end of the enclosing block and a position 2^32 further, of rank9 and Jacobson structures", brim));
    for part in 0..24usize {
        m.job(format!("brinks part {}", part), move |w| {
            for n in (part..=brim).step_by(24) {
                brink(w, &|| format!("JacobsonRank<BitVector> of {} ones", n), &JacobsonRank::new(BitVector::<u64>::with_fill(n as u64, true)))?;
                brink(w, &|| format!("Rank9<BitVector> of {} ones", n), &BinSearchSelect::new(Rank9::new(BitVector::<u64>::with_fill(n as u64, true))))?;
                match n % 4 {
                    0 => brink(w, &|| format!("JacobsonRank<BitVector<u8>> of {} ones", n), &JacobsonRank::new(BitVector::<u8>::with_fill(n as u64, true)))?,
                    1 => brink(w, &|| format!("JacobsonRank<BitVector<u16>> of {} ones", n), &JacobsonRank::new(BitVector::<u16>::with_fill(n as u64, true)))?,
                    2 => brink(w, &|| format!("JacobsonRank<BitVector<u32>> of {} ones", n), &JacobsonRank::new(BitVector::<u32>::with_fill(n as u64, true)))?,
                    _ => brink(w, &|| format!("JacobsonRank<Vec<bool>> of {} ones", n), &JacobsonRank::new(vec![true; n]))?,
                }
            }
            Ok(())
        });
    }
    for part in 0..97usize {
        let ls: Vec<usize> = ls.iter().cloned().filter(|n| n % 97 == part).collect();
        m.job(format!("lengths part {}", part), move |w| {
            for &n in &ls {
                let full = n % 10 == 0 || n > 500;
                jac::<u8>(w, n, full)?;
                jac::<u16>(w, n, false)?;
                jac::<u32>(w, n, false)?;
                jac::<u64>(w, n, full)?;
                jac::<usize>(w, n, false)?;
                nine(w, n, full)?;
                let v = pattern(3, n);
                refuses(w, &|| format!("JacobsonRank<Vec<bool>> of {} bits", n), &JacobsonRank::new(v), full)?;
            }
            w.sample(|| format!("lengths congruent {} mod 97: rank1/rank0/rank at {:?} ... of a structure of {} bits", part, &beyond(ls[1] as u64, true)[..6], ls[1]));
            Ok(())
        });
    }
    m.run()
}
