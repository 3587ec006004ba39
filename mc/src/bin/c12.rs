//! C12: rank9 equals counting, for every store, length and position.
use mc::bits::*;
use mc::rankck::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use succinct::bit_vec::BitSlice;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::stream::BitBuffer;
use succinct::{BinSearchSelect, BitVector, IntVector, JacobsonRank, Rank9};

fn slices(w: &mut W, m: &[bool], tag: &str, at: At) -> R {
    let n = m.len();
    for (pre, post) in [(1usize, 3usize), (63, 1), (32, 64), (64, 0), (511, 5)] {
        let mut whole = vec![true; pre];
        whole.extend_from_slice(m);
        whole.extend(vec![true; post]);
        let v = bv_from::<u64>(&whole);
        let what = || format!("Rank9 over slice {}..{} of {} bits ({})", pre, pre + n, whole.len(), tag);
        w.at(&what);
        let j = Rank9::new(BitSlice::new(&v, pre as u64..(pre + n) as u64));
        check_ranks(w, &what, &j, m, at)?;
    }
    Ok(())
}

fn everything(w: &mut W, m: &[bool], tag: &str, at: At) -> R {
    over::<BitVector<u64>, _>(w, m, tag, Rank9::new, at)?;
    over::<Vec<u64>, _>(w, m, tag, Rank9::new, at)?;
    over::<ByBlock<u64>, _>(w, m, tag, Rank9::new, at)?;
    over::<ByBit<u64>, _>(w, m, tag, Rank9::new, at)?;
    over::<IntVector<u64>, _>(w, m, tag, Rank9::new, at)?;
    over::<BitBuffer<BitVector<u64>>, _>(w, m, tag, Rank9::new, at)?;
    over::<u64, _>(w, m, tag, Rank9::new, at)?;
    slices(w, m, tag, at)?;
    over::<BitVector<u64>, _>(w, m, tag, |v| Rank9::new(Rank9::new(v)), at)?;
    over::<ByBlock<u64>, _>(w, m, tag, |v| Rank9::new(JacobsonRank::new(v)), at)?;
    over::<ByBlock<u64>, _>(w, m, tag, |v| Rank9::new(BinSearchSelect::new(Rank9::new(v))), at)?;
    over::<BitVector<u64>, _>(w, m, tag, |v| {
        if m.len() % 2 == 0 {
            return Rank9::new(v).clone();
        }
        let mut r = Rank9::new(BitVector::with_fill(m.len() as u64 / 2 + 700, true));
        r.clone_from(&Rank9::new(v));
        r
    }, at)?;
    over::<BitVector<u64>, _>(w, m, tag, |v| Rank9::new(Rank9::new(v).into_inner()), at)
}

fn ones(_: usize) -> u64 {
    !0
}
fn virt(w: &mut W, len: u64) -> R {
    w.at(|| format!("Rank9 over a virtual vector of {} ones", len));
    w.state();
    w.traces += 1;
    let j = Rank9::new(Virtual::<u64>::new(len, ones));
    chk!(j.limit() == len, "limit", "limit {} of {}", j.limit(), len);
    let mut ps: Vec<u64> = (0..len).step_by(999_983).collect();
    for b in [1u64 << 31, 1 << 32, len] {
        for d in 0..3000 {
            for q in [b.wrapping_sub(d), b + d] {
                if q < len {
                    ps.push(q)
                }
            }
        }
    }
    // somewhere in every stretch of 512 bits
    let last = (len - 1) / 512;
    ps.extend((0..=last).filter(|i| last < 1 << 24 || i % 61 == 0 || *i < 1 << 20).map(|i| (i * 512 + i * 37 % 512).min(len - 1)));
    for p in ps {
        w.transitions += 2;
        w.tick();
        chk!(j.rank1(p) == p + 1 && j.rank0(p) == 0, "rank", "all ones, {} bits: rank1({}) = {}, rank0 = {}", len, p, j.rank1(p), j.rank0(p));
    }
    Ok(())
}

fn alternate(i: usize) -> u64 {
    if i % 2 == 0 {
        !0
    } else {
        0
    }
}

/// Every word of long vectors, and every basic-block multiple of a length (and one more) over a stretch of them.
fn sweep(mn: &mut Main) {
    let kmax = mn.pick(26u32, 28);
    for k in 13..=kmax {
        mn.job(format!("sweep 2^{}", k), move |w| {
            let lo = 1u64 << k;
            let starts = [lo, lo + lo / 2, 2 * lo - 4096];
            for (si, s) in starts.iter().enumerate() {
                for i in 0..=(if k <= 19 { 24 } else { 8 }) {
                    for n in [s + 512 * i, s + 512 * i + 1 + 64 * (i % 8)] {
                        for ones_only in [true, false] {
                            w.at(|| format!("Rank9 over a virtual vector of {} bits, {}", n, if ones_only { "all ones" } else { "alternating words" }));
                            w.state();
                            w.traces += 1;
                            w.tick();
                            if w.stopped() {
                                return Ok(());
                            }
                            let j = Rank9::new(Virtual::<u64>::new(n, if ones_only { ones } else { alternate }));
                            chk!(j.limit() == n, "limit", "limit {} of {}", j.limit(), n);
                            let every = i == 0 && si == 0;
                            let step = if every { 1 } else { (n / 64 / 4000).max(1) };
                            let ps = (0..n / 64).step_by(step as usize).map(|b| b * 64 + b * 7 % 64);
                            let near = (0..600u64).chain(n - 3000..n);
                            for p in ps.chain(near) {
                                w.step();
                                let e = if ones_only { p + 1 } else { (p + 1) / 128 * 64 + ((p + 1) % 128).min(64) };
                                chk!(j.rank1(p) == e && j.rank0(p) == p + 1 - e, "rank", "{}, {} bits: rank1({}) = {}, rank0 = {}, expected {}", if ones_only { "all ones" } else { "alternating words" }, n, p, j.rank1(p), j.rank0(p), e);
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

fn main() {
    let mut mn = Main::new("C12");
    mn.rule("state = one Rank9 built over one store holding one content; transition = one rank query compared with counting; trace = one structure with all its selected positions");
    let small = mn.pick(12, 16);
    let mid = mn.pick(1700usize, 4200);
    let long = mn.pick(9000usize, 40000);
    let kmax = mn.pick(19, 23);
    mn.bound(format!("all contents of every length <= {}; 8 content families for every length <= {} over every store; 4 families for every length <= {}; lengths around every power of two to 2^{}", small, mid, long, kmax));
    mn.bound("every assignment of empty/full to 11 words and of empty/full/irregular to 9 words, with a partial last word; a single one (zero) at every place of lengths 1, 64, 512, 513, 1030, 1600");
    mn.bound("stores: BitVector, Vec<u64>, u64, IntVector, BitBuffer, minimal user stores (by bit; by block with garbage in unused bits), unaligned slices, other rank and select structures; virtual all-ones store of more than 2^32 bits");
    let th = mn.thorough;
    mn.job("virtual", move |w| virt(w, if th { (1 << 36) + 63 } else { (1 << 32) + 777 }));
    for n in 0..=small {
        mn.job(format!("all contents len {}", n), move |w| {
            for x in 0..1u64 << n {
                everything(w, &word_bits(x, n), "all contents", At::All)?;
            }
            w.sample(|| format!("Rank9 over every store holding each of the {} contents of length {}", 1u64 << n, n));
            Ok(())
        });
    }
    for part in 0..32usize {
        mn.job(format!("every length part {}", part), move |w| {
            for n in (0..=mid).filter(|n| n % 32 == part) {
                for k in 0..NPAT {
                    everything(w, &pattern(k, n), &format!("pattern {}", k), At::Edges(16))?;
                }
            }
            Ok(())
        });
        mn.job(format!("long lengths part {}", part), move |w| {
            for n in (mid..=long).filter(|n| n % 32 == part) {
                for k in [0, 1, 3, 7] {
                    over::<BitVector<u64>, _>(w, &pattern(k, n), &format!("pattern {}", k), Rank9::new, At::Edges(64))?;
                }
                over::<ByBlock<u64>, _>(w, &pattern(1, n), "pattern 1", Rank9::new, At::Edges(64))?;
            }
            Ok(())
        });
    }
    for part in 0..16u64 {
        mn.job(format!("word fills part {}", part), move |w| {
            let (n2, n3) = (11, 9u32);
            for x in (0..1u64 << n2).filter(|x| x % 16 == part) {
                let mut m: Vec<bool> = (0..n2 * 64).map(|i| x >> (i / 64) & 1 == 1).collect();
                over::<BitVector<u64>, _>(w, &m, &format!("words {:#b}", x), Rank9::new, At::Edges(64))?;
                m.truncate(n2 * 64 - 30);
                over::<BitVector<u64>, _>(w, &m, &format!("words {:#b}, cut", x), Rank9::new, At::Edges(64))?;
            }
            for x in (0..3u64.pow(n3)).filter(|x| x % 16 == part) {
                let mut m: Vec<bool> = vec![];
                for i in 0..n3 {
                    match x / 3u64.pow(i) % 3 {
                        0 => m.extend(vec![false; 64]),
                        1 => m.extend(vec![true; 64]),
                        _ => m.extend(word_bits(mix(i as u64), 64)),
                    }
                }
                over::<BitVector<u64>, _>(w, &m, &format!("words base 3 {}", x), Rank9::new, At::Edges(64))?;
            }
            Ok(())
        });
    }
    for n in [1usize, 64, 512, 513, 1030, 1600] {
        mn.job(format!("single bit len {}", n), move |w| {
            for i in 0..n {
                for bg in [false, true] {
                    let mut m = vec![bg; n];
                    m[i] = !bg;
                    over::<BitVector<u64>, _>(w, &m, &format!("bit {} of {} is {}", i, n, !bg), Rank9::new, At::Edges(32))?;
                }
            }
            Ok(())
        });
    }
    sweep(&mut mn);
    mn.bound("virtual stores of all ones and of alternating words: every word of lengths around 2^k, lengths at basic-block multiples (and odd ones) low, middle and high in [2^k, 2^(k+1)], k = 13..26 (thorough 28)");
    for k in 12..=kmax {
        mn.job(format!("around 2^{}", k), move |w| {
            for n in far_lengths(k, k) {
                for p in [1, 3] {
                    over::<BitVector<u64>, _>(w, &pattern(p, n), &format!("pattern {}", p), Rank9::new, At::Edges(64))?;
                }
            }
            Ok(())
        });
    }
    mn.run()
}
