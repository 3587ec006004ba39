//! C09: block-word bit and size arithmetic is exact for every word.
use mc::bits::*;
use mc::words::*;
use mc::*;
use succinct::storage::{Address, BlockType};

fn same<T: PartialEq + std::fmt::Debug>(w: &mut W, key: &str, got: Result<T, String>, want: T, what: impl FnOnce() -> String) -> R {
    w.evals += 1;
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => fail(key, format!("{}: got {:?}, expected {:?}", what(), g, want)),
        Err(p) => fail(key, format!("{}: unexpected panic: {}", what(), p)),
    }
}
/// Fast path: the common case costs no formatting and no catch.
macro_rules! eq {
    ($w:expr, $key:expr, $got:expr, $want:expr, $($a:tt)*) => {{
        $w.evals += 1;
        let want = $want;
        let got = $got;
        if got != want {
            return fail($key, format!("{}: got {:?}, expected {:?}", format!($($a)*), got, want));
        }
    }};
}

fn fixed<B: Blk>(w: &mut W) -> R {
    let n = B::W;
    let lg = n.trailing_zeros() as usize;
    same(w, "nbits", guard_msg(|| B::nbits()), n, || format!("{}::nbits()", B::NAME))?;
    same(w, "lg_nbits", guard_msg(|| B::lg_nbits()), lg, || format!("{}::lg_nbits()", B::NAME))?;
    same(w, "lg_nbits_mask", guard_msg(|| B::lg_nbits_mask::<u8>()), mask(lg) as u8, || format!("{}::lg_nbits_mask::<u8>()", B::NAME))?;
    same(w, "lg_nbits_mask", guard_msg(|| B::lg_nbits_mask::<u16>()), mask(lg) as u16, || format!("{}::lg_nbits_mask::<u16>()", B::NAME))?;
    same(w, "lg_nbits_mask", guard_msg(|| B::lg_nbits_mask::<u32>()), mask(lg) as u32, || format!("{}::lg_nbits_mask::<u32>()", B::NAME))?;
    same(w, "lg_nbits_mask", guard_msg(|| B::lg_nbits_mask::<u64>()), mask(lg), || format!("{}::lg_nbits_mask::<u64>()", B::NAME))?;
    same(w, "lg_nbits_mask", guard_msg(|| B::lg_nbits_mask::<usize>()), mask(lg) as usize, || format!("{}::lg_nbits_mask::<usize>()", B::NAME))?;
    for k in 0..=n {
        same(w, "low_mask", guard_msg(|| B::low_mask(k)), B::of(mask(k)), || format!("{}::low_mask({})", B::NAME, k))?;
    }
    for k in 0..n {
        same(w, "nth_mask", guard_msg(|| B::nth_mask(k)), B::of(1 << k), || format!("{}::nth_mask({})", B::NAME, k))?;
    }
    w.nontrivial += n as u64;
    Ok(())
}

fn sizes<B: Blk>(w: &mut W, dense: u64) -> R {
    let n = B::W as u128;
    for i in indices(dense) {
        w.tick();
        w.nontrivial += 1;
        let q = (i as u128 / n) as usize;
        let c = ((i as u128 + n - 1) / n) as usize;
        let r = (i as u128 % n) as usize;
        same(w, "div_nbits", guard_msg(|| B::div_nbits(i)), q, || format!("{}::div_nbits({})", B::NAME, i))?;
        same(w, "checked_div_nbits", guard_msg(|| B::checked_div_nbits(i)), Some(q), || format!("{}::checked_div_nbits({})", B::NAME, i))?;
        same(w, "ceil_div_nbits", guard_msg(|| B::ceil_div_nbits(i)), c, || format!("{}::ceil_div_nbits({})", B::NAME, i))?;
        same(w, "checked_ceil_div_nbits", guard_msg(|| B::checked_ceil_div_nbits(i)), Some(c), || format!("{}::checked_ceil_div_nbits({})", B::NAME, i))?;
        same(w, "mod_nbits", guard_msg(|| B::mod_nbits(i)), r, || format!("{}::mod_nbits({})", B::NAME, i))?;
        let l = if r == 0 { B::W } else { r };
        same(w, "last_block_bits", guard_msg(|| B::last_block_bits(i)), l, || format!("{}::last_block_bits({})", B::NAME, i))?;
        if i as u128 * n < 1u128 << 64 {
            same(w, "mul_nbits", guard_msg(|| B::mul_nbits(i as usize)), (i as u128 * n) as u64, || format!("{}::mul_nbits({})", B::NAME, i))?;
        }
        let want = Address { block_index: q, bit_offset: r };
        same(w, "address", guard_msg(|| Address::new::<B>(i)), want, || format!("Address::new::<{}>({})", B::NAME, i))?;
        same(w, "address", guard_msg(|| Address::new::<B>(i).bit_index::<B>()), i, || format!("Address::new::<{}>({}).bit_index()", B::NAME, i))?;
        same(w, "address", guard_msg(|| want.bit_index::<B>()), i, || format!("{:?}.bit_index::<{}>()", want, B::NAME))?;
    }
    Ok(())
}

/// args: subset of words (shard s of n)
fn fields<B: Blk>(w: &mut W, words: &[u64], few: bool) -> R {
    let n = B::W;
    // the fast path runs many calls under one catch; a panic re-runs them one by one
    for &x in words {
        w.at(|| format!("{}: fields of {:#x}", B::NAME, x));
        w.nontrivial += 1;
        let b = B::of(x);
        for i in 0..n {
            eq!(w, "get_bit", BlockType::get_bit(b, i), x >> i & 1 == 1, "{}: ({:#x}).get_bit({})", B::NAME, x, i);
            for v in [false, true] {
                let want = if v { x | 1 << i } else { x & !(1 << i) };
                eq!(w, "with_bit", b.with_bit(i, v).u(), want, "{}: ({:#x}).with_bit({}, {})", B::NAME, x, i, v);
            }
        }
        if x > 0 {
            eq!(w, "floor_lg", b.floor_lg(), 63 - x.leading_zeros() as usize, "{}: ({:#x}).floor_lg()", B::NAME, x);
        }
        let mut k = 0;
        while (1u128 << k) < x as u128 {
            k += 1
        }
        eq!(w, "ceil_lg", b.ceil_lg(), k, "{}: ({:#x}).ceil_lg()", B::NAME, x);
        for s in 0..=n {
            for l in 0..=n - s {
                if few && !(l <= 2 || s <= 1 || s + l >= n - 1 || l == n / 2 || l == s || (s + l) % 8 == 0) {
                    continue;
                }
                let got = BlockType::get_bits(b, s, l);
                let want = if s == n { 0 } else { x >> s & mask(l) };
                eq!(w, "get_bits", got.u(), want, "{}: ({:#x}).get_bits({}, {})", B::NAME, x, s, l);
                for v in [!x & mask(n), mask(n), 0, mix(x ^ (s * 64 + l) as u64) & mask(n)] {
                    let m = if s == n { 0 } else { (mask(l) << s) & mask(n) };
                    let want = (x & !m) | (if s == n { 0 } else { v << s } & m);
                    let got = BlockType::with_bits(b, s, l, B::of(v));
                    eq!(w, "with_bits", got.u(), want, "{}: ({:#x}).with_bits({}, {}, {:#x})", B::NAME, x, s, l, v);
                }
            }
        }
    }
    Ok(())
}

fn ceil_div<B: Blk>(w: &mut W, ns: impl Iterator<Item = u64>, ds: &[u64]) -> R {
    for a in ns {
        w.at(|| format!("{}: ceil_div of {} by some of {} divisors", B::NAME, a, ds.len()));
        w.nontrivial += 1;
        for &d in ds {
            if d != 0 {
                let want = a / d + (a % d != 0) as u64;
                eq!(w, "ceil_div", B::of(a).ceil_div(B::of(d)).u(), want, "{}: ({}).ceil_div({})", B::NAME, a, d);
            }
        }
    }
    Ok(())
}
/// as ceil_div, but shows the exact arguments that panic
fn ceil_div_safe<B: Blk>(w: &mut W, ns: Vec<u64>, ds: &[u64]) -> R {
    match guard_msg(|| ceil_div::<B>(w, ns.iter().cloned(), ds)) {
        Ok(r) => r,
        Err(_) => {
            for a in ns {
                for &d in ds {
                    if d != 0 {
                        ok!(B::of(a).ceil_div(B::of(d)), "ceil_div", "{}: ({}).ceil_div({})", B::NAME, a, d);
                    }
                }
            }
            panic!("HARNESS: panic did not recur")
        }
    }
}

fn jobs<B: Blk>(m: &mut Main) {
    let th = m.thorough;
    m.job(format!("fixed {}", B::NAME), |w| fixed::<B>(w));
    m.job(format!("sizes {}", B::NAME), move |w| sizes::<B>(w, if th { 2_000_000 } else { 40_000 }));
    let shards = 32;
    for s in 0..shards {
        m.job(format!("fields {} {}", B::NAME, s), move |w| {
            let f = family(B::W, if th { 20000 } else { 500 });
            let mine: Vec<u64> = f.iter().cloned().skip(s).step_by(shards).collect();
            w.sample(|| format!("{}: get/with_bit(s), lg of {:#x} and {} more words", B::NAME, mine[mine.len() / 2], mine.len() - 1));
            fields::<B>(w, &mine, B::W > 16 && !th)
        });
        m.job(format!("ceil_div {} {}", B::NAME, s), move |w| {
            let f = family(B::W, 300);
            let mine: Vec<u64> = f.iter().cloned().skip(s).step_by(shards).collect();
            let ds: Vec<u64> = match B::W {
                8 => f,
                16 if th => f,
                16 => f.iter().cloned().filter(|&d| d < 300 || d > 65535 - 300 || (d & (d - 1)) == 0 || d % 251 == 0).collect(),
                _ => f.iter().cloned().step_by(if th { 7 } else { 61 }).chain([1, 2, 3, 7, 8, 10, mask(B::W), mask(B::W - 1), mask(B::W) - 1, mask(B::W - 1) + 1]).collect(),
            };
            w.sample(|| format!("{}: {:#x}.ceil_div({:#x}) among {} x {}", B::NAME, mine[mine.len() / 3], ds[ds.len() / 2], mine.len(), ds.len()));
            ceil_div_safe::<B>(w, mine, &ds)
        });
    }
}

fn main() {
    let mut m = Main::new("C09");
    m.rule("case = (operation, word, arguments); all are distinct; distinct_nontrivial counts the distinct words, indices and dividends; oracle = wider-integer arithmetic");
    m.bound("u8, u16: every word x every in-range argument; u8 ceil_div: every pair");
    m.bound("u32, u64, usize: every word with one run of ones or zeros, 2^a +- 2^b +- {0,1}, every byte value in every lane, irregular words");
    m.bound("bit indices: dense from 0, within 70 of every power of two and of 3*2^k, the last 300 before 2^64");
    jobs::<u8>(&mut m);
    jobs::<u16>(&mut m);
    jobs::<u32>(&mut m);
    jobs::<u64>(&mut m);
    jobs::<usize>(&mut m);
    m.run()
}
