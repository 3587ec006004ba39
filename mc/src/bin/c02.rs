//! C02: IntVector against a plain list of k-bit integers packed little-endian.
use mc::bits::*;
use mc::long::*;
use mc::vecs::*;
use mc::*;
use succinct::{BitVec, BitVecMut, IntVec, IntVecMut, IntVector};

fn lens(w: usize, k: usize, thorough: bool) -> Vec<usize> {
    // element counts around block boundaries
    let mut v = vec![0, 1, 2];
    let mut bounds = vec![w, 2 * w];
    if thorough {
        bounds.push(3 * w);
    }
    for b in bounds {
        let n = b / k;
        v.extend([n.saturating_sub(1), n, n + 1]);
    }
    v.sort();
    v.dedup();
    v
}

fn seeds<B: Blk>(m: &mut Main, ks: Vec<usize>) {
    for k in ks {
        let th = m.thorough;
        m.job(format!("seed {} k={}", B::NAME, k), move |wk| {
            for n in lens(B::W, k, th) {
                for kind in if th { vec![0, 1, 2, 3, 7, 9] } else { vec![1, 3] } {
                    let seed = IvSys::<B>::start(k, pattern(kind, n * k), n + B::W / k + 1, if B::W <= 16 { 2 } else { 1 });
                    if let Err(e) = seed.agree().and_then(|_| seed.observe()) {
                        return fail("sequence", format!("{}: {}", seed.show(), e));
                    }
                    for op in seed.ops() {
                        let mut t = seed.clone();
                        wk.step();
                        wk.state();
                        let r = t.apply(&op).and_then(|_| t.agree()).and_then(|_| {
                            if matches!(op, IOp::SetBits(..) | IOp::SetRandom(..)) {
                                Ok(())
                            } else {
                                t.observe()
                            }
                        });
                        if let Err(e) = r {
                            return fail("sequence", format!("history: start from {}; {:?}\n  {}", seed.show(), op, e));
                        }
                        wk.traces += 1;
                    }
                    if (kind == 3 && (n * k <= 2 * B::W + k)) || (th && kind == 9) {
                        let mut path = vec![format!("start from {}", seed.show())];
                        from_seed(wk, "sequence", &seed, 2, &|s: &mut IvSys<B>, _| s.alpha = 0, &mut path, 0)?;
                    }
                }
            }
            Ok(())
        });
    }
}

fn scratch<B: Blk>(m: &mut Main, k: usize, depth: usize) {
    use mc::vecs::IOp::*;
    let w = B::W;
    let v = kvals(k);
    let x = *v.last().unwrap();
    let per = (w / k) as u64;
    let mut a = vec![
        Push(x),
        Push(mask(k)),
        Pop,
        Resize(per + 1, x),
        Resize(2, mask(k)),
        Truncate(1),
        BlockResize(2, pats(w)[5]),
        BlockTruncate(1),
        Clear,
        WithFill(per + 1, x),
        BlockWithFill(1, mask(w)),
        WithCapacity(per + 2),
        Shrink,
        Reserve(per + 2),
    ];
    if k < w {
        a.push(PushBad(mask(w)));
    }
    for first in 0..a.len() {
        let a = a.clone();
        m.job(format!("scratch {} k={} first {:?}", B::NAME, k, a[first]), move |wk| {
            let op0 = a[first].clone();
            stateless(
                wk,
                "sequence",
                || {
                    let mut s = IvSys::<B>::start(k, vec![], 1000, 2);
                    let _ = s.apply(&op0);
                    s
                },
                &a,
                depth - 1,
            )
        });
    }
}

fn huge<B: Blk>(m: &mut Main, k: usize) {
    m.job(format!("huge {} k={}", B::NAME, k), move |wk| {
        let w = B::W as u64;
        let base: u64 = 1 << 32;
        let blocks = (base / w) as usize + 2;
        let p = pats(B::W)[5];
        let mut v = IntVector::<B>::block_with_fill(k, blocks, B::of(p));
        wk.step();
        let kk = k as u64;
        let n = (blocks as u64 * w) / kk;
        let bit = |i: u64| p >> (i % w) & 1 == 1;
        let mut over: std::collections::HashMap<u64, bool> = Default::default();
        let el = |over: &std::collections::HashMap<u64, bool>, i: u64| -> u64 {
            (0..kk).map(|j| (*over.get(&(i * kk + j)).unwrap_or(&bit(i * kk + j)) as u64) << j).sum()
        };
        let near: Vec<u64> = (0..5).chain(n / 2..n / 2 + 3).chain(base / kk - 40 / kk - 3..n).collect();
        let look = |v: &IntVector<B>, over: &std::collections::HashMap<u64, bool>, n: u64, what: &str| -> R {
            chk!(v.len() == n, "huge", "{}: length {} expected {}", what, v.len(), n);
            chk!(v.bit_len() == n * kk, "huge", "{}: bit_len {} expected {}", what, v.bit_len(), n * kk);
            for &i in near.iter().filter(|&&i| i < n) {
                chk!(v.get(i).u() == el(over, i), "huge", "{}: get({}) = {:#x}, expected {:#x}", what, i, v.get(i).u(), el(over, i));
                chk!(v.get_random(0, k, i).u() == el(over, i), "huge", "{}: get_random(0, {}, {})", what, k, i);
                chk!(v.get_bit(i * kk) == (el(over, i) & 1 == 1), "huge", "{}: get_bit({})", what, i * kk);
            }
            Ok(())
        };
        look(&v, &over, n, "block_with_fill")?;
        wk.state();
        for (i, x) in [(n - 1, mask(k)), (base / kk, 0), (base / kk - 1, mask(k)), (base / kk + 1, 1)] {
            v.set(i, B::of(x));
            for j in 0..kk {
                over.insert(i * kk + j, x >> j & 1 == 1);
            }
            wk.step();
            look(&v, &over, n, "set")?;
            wk.state();
        }
        v.set_bit(base, true);
        v.set_bit(base - 1, false);
        over.insert(base, true);
        over.insert(base - 1, false);
        wk.step();
        look(&v, &over, n, "set_bit")?;
        let e = el(&over, n - 1);
        chk!(v.pop().map(|x| x.u()) == Some(e), "huge", "pop");
        wk.step();
        look(&v, &over, n - 1, "pop")?;
        v.push(B::of(mask(k) ^ 1));
        for j in 0..kk {
            over.insert((n - 1) * kk + j, j != 0);
        }
        wk.step();
        look(&v, &over, n, "push")?;
        v.truncate(n - 3);
        wk.step();
        look(&v, &over, n - 3, "truncate")?;
        v.resize(n - 1, B::of(mask(k)));
        for j in 0..2 * kk {
            over.insert((n - 3) * kk + j, true);
        }
        wk.step();
        look(&v, &over, n - 1, "resize")?;
        wk.traces += 1;
        Ok(())
    });
}

fn long<B: Blk>(m: &mut Main, ks: &[usize]) {
    for &k in ks {
        let most = m.pick(40000, usize::MAX) / B::W;
        for n in long_blocks(m.thorough).into_iter().filter(|n| *n <= most) {
            m.job(format!("long {} k={} {} blocks", B::NAME, k, n), move |wk| long_iv::<B>(wk, k, n, false));
        }
        let top = m.pick(5000, 20000);
        m.job(format!("ratchet {} k={}", B::NAME, k), move |wk| ratchet_iv::<B>(wk, k, top));
        let th = m.thorough;
        m.job(format!("leap {} k={}", B::NAME, k), move |wk| leap_iv::<B>(wk, k, false, if th { LEAPS_TH } else { LEAPS }));
    }
    // at every width
    for k in (1..=B::W).filter(|k| !ks.contains(k)) {
        m.job(format!("ratchet {} k={}", B::NAME, k), move |wk| ratchet_iv::<B>(wk, k, 1100));
    }
}

fn main() {
    let mut m = Main::new("C02");
    m.rule("state = (length, raw blocks, derived hash) of a live IntVector; transition = one public operation run on the real object and on the packed-bit list");
    for k in 1..=8usize {
        // bits kept within the bound (elements * k)
        let bits = m.pick(if k == 7 { 14 } else { 12 }, if k == 8 { 16 } else { 15 });
        let n = bits / k;
        m.job(format!("fixpoint u8 k={}", k), move |w| {
            let ex = bfs(w, "sequence", vec![IvSys::<u8>::start(k, vec![], n, 2)], 1000)?;
            assert!(ex || w.stopped(), "HARNESS: search not exhausted");
            Ok(())
        });
    }
    m.bound("IntVector<u8>, k=1..8: every operation with every argument from every reachable state up to 12 (k=7: 14; thorough 15..16) bits, to fixpoint");
    huge::<u64>(&mut m, 33);
    huge::<u8>(&mut m, 1);
    if m.thorough {
        for k in [7, 31, 63, 64, 1] {
            huge::<u64>(&mut m, k);
        }
        huge::<u32>(&mut m, 17);
        huge::<u8>(&mut m, 5);
    }
    m.bound("vectors of more than 2^32 bits (u64 k=33, u8 k=1; thorough more), around bit 2^32");
    seeds::<u8>(&mut m, (1..=8).collect());
    seeds::<u16>(&mut m, (1..=16).collect());
    seeds::<u32>(&mut m, (1..=32).collect());
    seeds::<u64>(&mut m, (1..=64).collect());
    let us = m.pick(vec![1, 7, 31, 33, 63, 64], vec![1, 2, 5, 7, 8, 13, 16, 21, 31, 32, 33, 48, 57, 63, 64]);
    seeds::<usize>(&mut m, us);
    m.bound("every element width of every block type, lengths around block boundaries x patterns: full alphabet depth 1, reduced alphabet depth 2");
    let th = m.thorough;
    long::<u64>(&mut m, if th { &[1, 2, 7, 8, 31, 32, 33, 48, 63, 64] } else { &[1, 8, 33, 64] });
    long::<u32>(&mut m, if th { &[1, 3, 16, 17, 31, 32] } else { &[5, 16] });
    long::<u16>(&mut m, if th { &[1, 4, 7, 9, 15, 16] } else { &[7, 16] });
    long::<u8>(&mut m, if th { &[1, 2, 3, 4, 5, 6, 7, 8] } else { &[3, 4, 8] });
    long::<usize>(&mut m, if th { &[13, 64] } else { &[13] });
    m.bound("3 to 1025 (wide blocks: 513; thorough 8193) blocks, dense at first, then around powers of two: one operation of a long-vector alphabet and two follow-ups at selected widths; pushing to 5000 elements (thorough 20000), with unfit values refused at every length, and popping to nothing, the end watched at every step, and to 1100 elements at every width of every block type; lengths changed by 4097 to 65537 (thorough 200003) elements at once in six ways at the selected widths");
    let d = m.pick(4, 5);
    scratch::<u8>(&mut m, 3, d);
    scratch::<u8>(&mut m, 8, d);
    scratch::<u64>(&mut m, 13, d);
    scratch::<u64>(&mut m, 64, d);
    if m.thorough {
        scratch::<u16>(&mut m, 11, d);
        scratch::<u32>(&mut m, 32, d);
    }
    m.bound(format!("every sequence of {} operations of a 15-operation alphabet on fresh vectors with real capacities", d));
    mc::copies::int_copies::<u8>(&mut m, "copy");
    mc::copies::int_copies::<u16>(&mut m, "copy");
    mc::copies::int_copies::<u32>(&mut m, "copy");
    mc::copies::int_copies::<u64>(&mut m, "copy");
    mc::copies::int_copies::<usize>(&mut m, "copy");
    m.bound("clone_from between vectors of every pair of lengths (u8: 0..26 bits, thorough 58; others: around block boundaries) with and without spare room and of every pair of widths, then one further operation");
    m.run()
}
