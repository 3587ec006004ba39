//! C11: Jacobson rank equals counting, for every store, length and position.
use mc::bits::*;
use mc::rankck::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use succinct::bit_vec::BitSlice;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::stream::BitBuffer;
use succinct::{BitVector, IntVector, JacobsonRank, Rank9};

type Bb<B> = BitBuffer<BitVector<B>>;

fn slices<B: Blk>(w: &mut W, m: &[bool], tag: &str, at: At) -> R {
    let n = m.len();
    for (pre, post) in [(1usize, 3usize), (B::W - 1, 1), (B::W / 2, B::W), (B::W, 0)] {
        let mut whole = vec![true; pre];
        whole.extend_from_slice(m);
        whole.extend(vec![true; post]);
        let v = bv_from::<B>(&whole);
        let what = || format!("JacobsonRank over slice {}..{} of BitVector<{}> of {} bits ({})", pre, pre + n, B::NAME, whole.len(), tag);
        w.at(&what);
        let j = JacobsonRank::new(BitSlice::new(&v, pre as u64..(pre + n) as u64));
        check_ranks(w, &what, &j, m, at)?;
    }
    Ok(())
}

fn everything<B: Blk + Store>(w: &mut W, m: &[bool], tag: &str, at: At) -> R {
    over::<BitVector<B>, _>(w, m, tag, JacobsonRank::new, at)?;
    over::<Vec<B>, _>(w, m, tag, JacobsonRank::new, at)?;
    over::<ByBlock<B>, _>(w, m, tag, JacobsonRank::new, at)?;
    over::<ByBit<B>, _>(w, m, tag, JacobsonRank::new, at)?;
    over::<IntVector<B>, _>(w, m, tag, JacobsonRank::new, at)?;
    over::<Bb<B>, _>(w, m, tag, JacobsonRank::new, at)?;
    over::<B, _>(w, m, tag, JacobsonRank::new, at)?;
    slices::<B>(w, m, tag, at)?;
    over::<BitVector<B>, _>(w, m, tag, |v| JacobsonRank::new(JacobsonRank::new(v)), at)?;
    over::<ByBlock<B>, _>(w, m, tag, |v| JacobsonRank::new(JacobsonRank::new(v)), at)?;
    over::<BitVector<B>, _>(w, m, tag, |v| {
        if m.len() % 2 == 0 {
            return JacobsonRank::new(v).clone();
        }
        let mut r = JacobsonRank::new(BitVector::with_fill(m.len() as u64 / 2 + 700, true));
        r.clone_from(&JacobsonRank::new(v));
        r
    }, at)?;
    over::<BitVector<B>, _>(w, m, tag, |v| JacobsonRank::new(JacobsonRank::new(v).into_inner()), at)
}

fn jobs<B: Blk + Store>(mn: &mut Main) {
    let small = mn.pick(11, 15);
    let mid = mn.pick(600usize, 1300);
    let long = mn.pick(6000usize, 20000);
    let kmax = mn.pick(19, 23);
    // every content of every small length, every store
    for n in 0..=small {
        mn.job(format!("all contents {} len {}", B::NAME, n), move |w| {
            for x in 0..1u64 << n {
                let m = word_bits(x, n);
                everything::<B>(w, &m, "all contents", At::All)?;
            }
            w.sample(|| format!("JacobsonRank over every store of {} blocks holding each of the {} contents of length {}", B::NAME, 1u64 << n, n));
            Ok(())
        });
    }
    // every length, pattern families, every store
    for part in 0..8usize {
        mn.job(format!("every length {} part {}", B::NAME, part), move |w| {
            for n in (0..=mid).filter(|n| n % 8 == part) {
                for k in 0..NPAT {
                    everything::<B>(w, &pattern(k, n), &format!("pattern {}", k), At::All)?;
                }
            }
            Ok(())
        });
    }
    for part in 0..16usize {
        mn.job(format!("long lengths {} part {}", B::NAME, part), move |w| {
            for n in (mid..=long).filter(|n| n % 16 == part) {
                for k in [0, 1, 3, 7] {
                    over::<BitVector<B>, _>(w, &pattern(k, n), &format!("pattern {}", k), JacobsonRank::new, At::Edges(B::W.min(16)))?;
                }
                over::<ByBlock<B>, _>(w, &pattern(1, n), "pattern 1", JacobsonRank::new, At::Edges(B::W))?;
            }
            Ok(())
        });
    }
    // a single one bit (or a single zero bit) at every place
    for n in [1usize, 2, 63, 64, 65, 129, 255, 257, 520] {
        mn.job(format!("single bit {} len {}", B::NAME, n), move |w| {
            for i in 0..n {
                for bg in [false, true] {
                    let mut m = vec![bg; n];
                    m[i] = !bg;
                    over::<BitVector<B>, _>(w, &m, &format!("bit {} of {} is {}", i, n, !bg), JacobsonRank::new, At::All)?;
                }
            }
            Ok(())
        });
    }
    for k in 12..=kmax {
        mn.job(format!("around 2^{} {}", k, B::NAME), move |w| {
            for n in far_lengths(k, k) {
                for p in [1, 3] {
                    over::<BitVector<B>, _>(w, &pattern(p, n), &format!("pattern {}", p), JacobsonRank::new, At::Edges(B::W))?;
                }
            }
            Ok(())
        });
    }
}

fn ones(_: usize) -> u64 {
    !0
}
/// beyond 2^32 bits: all ones, so that rank(p) = p + 1
fn virt<B: Blk>(w: &mut W, len: u64) -> R {
    w.at(|| format!("JacobsonRank over a virtual vector of {} ones, blocks {}", len, B::NAME));
    w.state();
    w.traces += 1;
    let j = JacobsonRank::new(Virtual::<B>::new(len, ones));
    chk!(j.limit() == len, "limit", "limit {} of {}", j.limit(), len);
    let step = 999_983;
    let mut p = 0;
    let mut ps = vec![];
    while p < len {
        ps.push(p);
        p += step
    }
    for b in [1u64 << 31, 1 << 32, len] {
        for d in 0..3000 {
            for q in [b.wrapping_sub(d), b + d] {
                if q < len {
                    ps.push(q)
                }
            }
        }
    }
    // somewhere in every stretch of 512 bits
    let last = (len - 1) / 512;
    ps.extend((0..=last).filter(|i| last < 1 << 24 || i % 61 == 0 || *i < 1 << 20).map(|i| (i * 512 + i * 37 % 512).min(len - 1)));
    for p in ps {
        w.transitions += 2;
        w.tick();
        chk!(j.rank1(p) == p + 1 && j.rank0(p) == 0, "rank", "all ones, {} bits, blocks {}: rank1({}) = {}, rank0 = {}", len, B::NAME, p, j.rank1(p), j.rank0(p));
    }
    Ok(())
}

fn alternate(i: usize) -> u64 {
    if i % 2 == 0 {
        !0
    } else {
        0
    }
}
/// ones below p (exclusive) where every second block is all ones
fn alternate_rank<B: Blk>(p: u64) -> u64 {
    let w = B::W as u64;
    p / (2 * w) * w + (p % (2 * w)).min(w)
}

/// Large lengths, whatever the sizes of the directory's blocks there: lengths at every block multiple
/// (and one off) over a stretch longer than any large block, low, middle and high in each [2^k, 2^(k+1)].
fn sweep<B: Blk>(mn: &mut Main) {
    let kmax = mn.pick(23, 27);
    for k in 13..=kmax {
        mn.job(format!("sweep 2^{} {}", k, B::NAME), move |w| {
            let span = k * k + 3 * B::W as u64;
            let wd = B::W as u64;
            let lo = (1u64 << k) / wd * wd;
            let starts = if w.thorough || k <= 18 { vec![lo, lo + lo / 2, 2 * lo - span / wd * wd] } else { vec![lo, 2 * lo - span / wd * wd] };
            for s in starts {
                let mut i = 0;
                while i <= span {
                    for n in [s + i, s + i + 1] {
                        for ones_only in [true, false] {
                            if !ones_only && n % wd != 0 {
                                continue;
                            }
                            w.at(|| format!("JacobsonRank over a virtual vector of {} bits, {}, blocks {}", n, if ones_only { "all ones" } else { "alternating blocks" }, B::NAME));
                            w.state();
                            w.traces += 1;
                            let j = JacobsonRank::new(Virtual::<B>::new(n, if ones_only { ones } else { alternate }));
                            chk!(j.limit() == n, "limit", "limit {} of {}", j.limit(), n);
                            let near = 2 * span;
                            let ps = (0..near).chain(n - near..n).chain((0..64).map(|i| n / 64 * i + i * 7 % 64));
                            for p in ps {
                                if p >= n {
                                    continue;
                                }
                                w.step();
                                let e = if ones_only { p + 1 } else { alternate_rank::<B>(p + 1) };
                                chk!(j.rank1(p) == e, "rank", "{}, {} bits, blocks {}: rank1({}) = {}, expected {}", if ones_only { "all ones" } else { "alternating blocks" }, n, B::NAME, p, j.rank1(p), e);
                            }
                        }
                    }
                    i += wd;
                }
            }
            Ok(())
        });
    }
}

fn vecbool(mn: &mut Main) {
    let mid = mn.pick(700usize, 3000);
    for part in 0..8usize {
        mn.job(format!("Vec<bool> part {}", part), move |w| {
            for n in (0..=mid).filter(|n| n % 8 == part) {
                for k in 0..NPAT {
                    over::<Vec<bool>, _>(w, &pattern(k, n), &format!("pattern {}", k), JacobsonRank::new, At::All)?;
                }
                over::<BitVector<u64>, _>(w, &pattern(3, n), "over Rank9", |v| JacobsonRank::new(Rank9::new(v)), At::All)?;
            }
            Ok(())
        });
    }
}

fn main() {
    let mut m = Main::new("C11");
    m.rule("state = one JacobsonRank built over one store holding one content; transition = one rank query compared with counting; trace = one structure with all its selected positions");
    m.bound(format!("all contents of every length <= {}; 8 content families for every length <= {}; 4 families for every length <= {}; lengths around every power of two to 2^{}", m.pick(11, 15), m.pick(600, 1300), m.pick(6000, 20000), m.pick(19, 23)));
    m.bound("stores: BitVector, Vec of blocks, Vec<bool>, machine word, IntVector, BitBuffer, minimal user stores (by bit; by block with garbage in unused bits), unaligned slices, other rank structures");
    m.bound("single one (zero) at every place of 9 lengths; virtual all-ones store of more than 2^32 bits");
    m.job("virtual u64", |w| virt::<u64>(w, (1 << 32) + 777));
    if m.thorough {
        m.job("virtual u32", |w| virt::<u32>(w, (1 << 32) + 4097));
        m.job("virtual u64 big", |w| virt::<u64>(w, (1 << 35) + 63));
        m.job("virtual u16", |w| virt::<u16>(w, (1 << 32) + 5));
    }
    sweep::<u64>(&mut m);
    sweep::<u32>(&mut m);
    sweep::<u16>(&mut m);
    sweep::<u8>(&mut m);
    sweep::<usize>(&mut m);
    m.bound(format!("every block-multiple length (and one more) over a stretch longer than any large block, at the low, middle and high end of each [2^k, 2^(k+1)], k = 13..{}: all ones and alternating blocks", m.pick(23, 27)));
    vecbool(&mut m);
    jobs::<u8>(&mut m);
    jobs::<u16>(&mut m);
    jobs::<u32>(&mut m);
    jobs::<u64>(&mut m);
    jobs::<usize>(&mut m);
    m.run()
}
