//! C13: machine words answer rank and population count exactly.
use mc::bits::*;
use mc::words::*;
use mc::*;
use succinct::broadword::{count_ones, Broadword};
use succinct::rank::{BitRankSupport, RankSupport};

fn rank_all<S: BitRankSupport>(w: &mut W, what: &dyn Fn() -> String, s: &S, x: u64, n: usize) -> R {
    w.at(what);
    w.evals += 1;
    w.nontrivial += (x != 0) as u64;
    chk!(s.limit() == n as u64, "limit", "{}: limit() = {}", what(), s.limit());
    let mut ones = 0;
    for p in 0..n as u64 {
        ones += x >> p & 1;
        let z = p + 1 - ones;
        let got = (s.rank1(p), s.rank0(p), s.rank(p, true), s.rank(p, false));
        chk!(got == (ones, z, ones, z), "rank", "{}: at {}: (rank1, rank0, rank(true), rank(false)) = {:?}, expected {:?}", what(), p, got, (ones, z, ones, z));
    }
    Ok(())
}

fn pop(x: u64) -> usize {
    (0..64).filter(|i| x >> i & 1 == 1).count()
}

fn prim<B: Blk>(m: &mut Main, irregular: usize) {
    for s in 0..32 {
        m.job(format!("rank {} {}", B::NAME, s), move |w| {
            let f = family(B::W, irregular);
            for &x in f.iter().skip(s).step_by(32) {
                rank_all(w, &|| format!("{} {:#x}", B::NAME, x), &B::of(x), x, B::W)?;
            }
            w.sample(|| format!("{} word {:#x}: rank of 1 and 0 at each of {} positions", B::NAME, f[f.len() / 2 + s], B::W));
            Ok(())
        });
    }
}

fn main() {
    let mut m = Main::new("C13");
    m.rule("case = one word (all positions, both values, both methods); non-trivial = a non-zero word; oracle = counting bit by bit");
    m.bound("u8, u16: every word; u32, u64, usize, Broadword: every word with one run of ones or zeros, sums/differences of two powers of two (+-1), every byte in every lane over three backgrounds, irregular words; count_ones also on every pair of bytes in every pair of adjacent lanes");
    let irr = m.pick(100_000, 5_000_000);
    prim::<u8>(&mut m, 0);
    prim::<u16>(&mut m, 0);
    prim::<u32>(&mut m, irr);
    prim::<u64>(&mut m, irr);
    prim::<usize>(&mut m, irr);
    for s in 0..32 {
        m.job(format!("broadword {}", s), move |w| {
            for &x in family(64, irr).iter().skip(s).step_by(32) {
                rank_all(w, &|| format!("Broadword({:#x})", x), &Broadword(x), x, 64)?;
                chk!(count_ones(x) == pop(x), "count_ones", "count_ones({:#x}) = {}, expected {}", x, count_ones(x), pop(x));
            }
            Ok(())
        });
        m.job(format!("count_ones pairs {}", s), move |w| {
            for lane in 0..7 {
                for x in (0..65536u64).skip(s).step_by(32) {
                    w.at(|| format!("count_ones of {:#x} in lane {}", x, lane));
                    for bg in [0, !0, 0x5555_5555_5555_5555u64, 0xaaaa_aaaa_aaaa_aaaa] {
                        let y = (bg & !(0xffff << (8 * lane))) | x << (8 * lane);
                        w.evals += 1;
                        w.nontrivial += 1;
                        chk!(count_ones(y) == pop(y), "count_ones", "count_ones({:#x}) = {}, expected {}", y, count_ones(y), pop(y));
                    }
                }
            }
            Ok(())
        });
    }
    m.run()
}
