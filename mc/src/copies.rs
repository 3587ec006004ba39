//! Copying: clone, clone_from and to_owned onto targets of every kind.
use crate::bits::*;
use crate::vecs::*;
use crate::*;
use succinct::{BitVector, IntVector};

fn lens(w: usize, th: bool) -> Vec<usize> {
    if w == 8 {
        return (0..=if th { 58 } else { 26 }).collect();
    }
    let mut v = vec![0, 1, 2, w / 2, w - 1, w, w + 1, w + w / 2, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w - 1, 3 * w];
    if th {
        v.extend([3, w / 4, w + 2, 3 * w + 1, 5 * w - 1, 5 * w, 5 * w + 1, 9 * w + 3]);
    }
    v
}

/// clone_from between bit vectors of every pair of lengths, then one more operation.
pub fn bit_copies<B: Blk>(m: &mut Main, key: &'static str) {
    for src in lens(B::W, m.thorough) {
        m.job(format!("copies {} from {}", B::NAME, src), move |wk| {
            let th = wk.thorough;
            for kind in [0, 1, 3] {
                let b = pattern(kind, src);
                for dst in lens(B::W, th) {
                    for (spare_s, spare_d) in [(0, 0), (0, 3), (3, 0), (40, 2)] {
                        wk.state();
                        wk.tick();
                        let mut s = bv_from::<B>(&b);
                        s.block_reserve(spare_s);
                        let ops = [BOp::PushBit(true), BOp::PopBit, BOp::PushBlock(!0 & mask(B::W)), BOp::Resize((src + B::W + 1) as u64, false), BOp::Resize((src + 2) as u64, true), BOp::BlockResize(src / B::W + 2, 0), BOp::Truncate(src as u64 / 2), BOp::Shrink];
                        for op in &ops {
                            wk.step();
                            wk.traces += 1;
                            let mut d = BitVector::<B>::with_fill(dst as u64, kind != 1);
                            d.block_reserve(spare_d);
                            let what = || format!("clone_from {} ({} blocks spare) onto {} bits of {} ({} spare)", bitstr(&b), spare_s, dst, kind != 1, spare_d);
                            ok!(d.clone_from(&s), key, "{}", what());
                            let mut t = BvSys::<B>::start(vec![], usize::MAX, 0);
                            t.v = d;
                            t.m = b.clone();
                            t.strict = true;
                            if let Err(e) = t.agree().and_then(|_| same_value(&t.v, &s)) {
                                return fail(key, format!("BitVector<{}>: {}: {}", B::NAME, what(), e));
                            }
                            if let Err(e) = t.apply(op).and_then(|_| t.agree()) {
                                return fail(key, format!("BitVector<{}>: {}, then {:?}: {}", B::NAME, what(), op, e));
                            }
                            if let Err(e) = agree_bits(&s, &b, false) {
                                return fail(key, format!("BitVector<{}>: {}, then {:?}: the source changed: {}", B::NAME, what(), op, e));
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// The same between integer vectors, also of different widths.
pub fn int_copies<B: Blk>(m: &mut Main, key: &'static str) {
    let w = B::W;
    let ks: Vec<usize> = if w == 8 { (1..=8).collect() } else { vec![1, 3, w / 2, w / 2 + 1, w - 1, w] };
    for k in ks.clone() {
        let ks = ks.clone();
        m.job(format!("copies {} k={}", B::NAME, k), move |wk| {
            let ns = |k: usize| {
                let e = w / k;
                let mut v = vec![0, 1, 2, e.saturating_sub(1), e, e + 1, 2 * e, 2 * e + 1, 2 * w / k + 1, 3 * w / k];
                v.sort();
                v.dedup();
                v
            };
            for n in ns(k) {
                let b = pattern(3, n * k);
                let mut s = iv_from::<B>(k, &b);
                for &k2 in &ks {
                    for n2 in ns(k2) {
                        for spare in [0, 3] {
                            wk.state();
                            wk.tick();
                            s.block_reserve(spare);
                            for op in [IOp::Push(mask(k)), IOp::Pop, IOp::Resize((n + w / k + 1) as u64, 0), IOp::Resize((n + 1) as u64, mask(k)), IOp::BlockResize(n * k / w + 2, 0), IOp::Truncate(n as u64 / 2)] {
                                wk.step();
                                wk.traces += 1;
                                let mut d = IntVector::<B>::with_fill(k2, n2 as u64, B::of(mask(k2)));
                                d.block_reserve(3 - spare);
                                let what = || format!("clone_from {:?} onto {} elements of {} bits", s, n2, k2);
                                ok!(d.clone_from(&s), key, "{}", what());
                                let mut t = IvSys::<B>::start(k, vec![], usize::MAX, 0);
                                t.v = d;
                                t.m = b.clone();
                                t.strict = true;
                                if let Err(e) = t.agree().and_then(|_| same_value(&t.v, &s)) {
                                    return fail(key, format!("IntVector<{}>: {}: {}", B::NAME, what(), e));
                                }
                                if let Err(e) = t.apply(&op).and_then(|_| t.agree()) {
                                    return fail(key, format!("IntVector<{}>: {}, then {:?}: {}", B::NAME, what(), op, e));
                                }
                            }
                        }
                    }
                }
                if let Err(e) = agree_bits(&s, &b, false) {
                    return fail(key, format!("IntVector<{}>: {} elements of {} bits: the source changed: {}", B::NAME, n, k, e));
                }
            }
            Ok(())
        });
    }
}
