//! Checking a rank structure against counting.
use crate::bits::*;
use crate::stores::*;
use crate::{chk, R, W};
use succinct::rank::{BitRankSupport, RankSupport};

/// Which positions to ask about.
#[derive(Clone, Copy)]
pub enum At {
    All,
    /// first, last and middle bit of every `0`-bit block, and their neighbours
    Edges(usize),
}

pub fn check_ranks<S: BitRankSupport>(w: &mut W, what: &dyn Fn() -> String, s: &S, m: &[bool], at: At) -> R {
    w.state();
    w.traces += 1;
    chk!(s.limit() == m.len() as u64, "limit", "{}: limit() = {}, expected {}", what(), s.limit(), m.len());
    let mut ones = 0u64;
    for p in 0..m.len() {
        ones += m[p] as u64;
        if let At::Edges(b) = at {
            let r = p % b;
            if !(r <= 1 || r == b - 1 || r == b / 2 || p + 70 > m.len()) {
                continue;
            }
        }
        w.transitions += 4;
        let q = p as u64;
        let zeros = q + 1 - ones;
        let got = (s.rank1(q), s.rank0(q), s.rank(q, true), s.rank(q, false));
        chk!(
            got == (ones, zeros, ones, zeros),
            "rank",
            "{}: at position {}: (rank1, rank0, rank(true), rank(false)) = {:?}, expected {:?}; bits {}",
            what(),
            p,
            got,
            (ones, zeros, ones, zeros),
            if m.len() <= 2000 { bitstr(m) } else { "(long)".into() }
        );
    }
    Ok(())
}

/// Builds the structure over every variant of one store type and checks all positions.
pub fn over<V: Store, S: BitRankSupport>(w: &mut W, m: &[bool], tag: &str, mk: impl Fn(V) -> S, at: At) -> R
where
    V::Block: Blk,
{
    for (name, v) in V::variants(m) {
        let what = || format!("{} over {} ({}, length {})", std::any::type_name::<S>().split('<').next().unwrap(), name, tag, m.len());
        w.at(&what);
        let s = mk(v);
        check_ranks(w, &what, &s, m, at)?;
    }
    Ok(())
}

/// Lengths around powers of two and around block multiples, up to 2^k.
pub fn far_lengths(k0: u32, k1: u32) -> Vec<usize> {
    let mut v = vec![];
    for k in k0..=k1 {
        for d in [-65i64, -64, -63, -9, -8, -7, -1, 0, 1, 2, 7, 8, 9, 63, 64, 65, 200, 512, 513] {
            v.push(((1i64 << k) + d) as usize);
        }
        v.push((1 << k) + (1 << (k - 1)) + 11);
    }
    v
}
