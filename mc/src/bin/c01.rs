//! C01: BitVector against a plain sequence of booleans.
use mc::bits::*;
use mc::long::*;
use mc::vecs::*;
use mc::*;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

fn seeds<B: Blk>(m: &mut Main) {
    let w = B::W;
    let mut lens = vec![0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1];
    if m.thorough {
        lens.extend([w / 2, w + w / 2, 3 * w - 1, 3 * w, 3 * w + 1, 5 * w]);
    }
    for len in lens {
        let kinds: Vec<usize> = if m.thorough { (0..NPAT).collect() } else { vec![0, 1, 3, 7] };
        for kind in kinds {
            m.job(format!("seed {} len {} pattern {}", B::NAME, len, kind), move |wk| {
                let seed = BvSys::<B>::start(pattern(kind, len), len + w + 2, 2);
                ok_r(seed.observe(), "seed")?;
                let first = seed.ops();
                // full alphabet, then complete observation
                for op in &first {
                    let mut t = seed.clone();
                    wk.step();
                    wk.state();
                    let r = t.apply(op).and_then(|_| t.agree()).and_then(|_| {
                        if matches!(op, BOp::SetBits(..)) {
                            Ok(())
                        } else {
                            t.observe()
                        }
                    });
                    if let Err(e) = r {
                        return fail("sequence", format!("history: start from {}; {:?}\n  {}", seed.show(), op, e));
                    }
                    wk.traces += 1;
                }
                // every pair (thorough: triple) of operations from smaller alphabets
                let depth = if wk.thorough { 3 } else { 2 };
                let mut path = vec![format!("start from {}", seed.show())];
                let thorough = wk.thorough;
                from_seed(
                    wk,
                    "sequence",
                    &seed,
                    depth,
                    &|s: &mut BvSys<B>, l| s.alpha = if thorough && l == 0 && B::W <= 16 { 1 } else { 0 },
                    &mut path,
                    0,
                )
            });
        }
    }
}

fn ok_r(r: Result<(), String>, k: &str) -> R {
    r.map_err(|e| Fail { what: e, key: k.to_string() })
}

/// Fresh objects, real capacities (no cloning between operations): every sequence of `depth` operations.
fn scratch<B: Blk>(m: &mut Main, depth: usize) {
    use mc::vecs::BOp::*;
    let w = B::W;
    let x = pats(w)[5];
    let alphabet = vec![
        PushBit(true),
        PushBit(false),
        PopBit,
        PushBlock(x),
        Resize(w as u64 + 3, true),
        Resize(w as u64 + 3, false),
        Resize(3, true),
        Truncate(w as u64),
        BlockResize(2, x),
        BlockTruncate(1),
        Clear,
        WithFill(w as u64 + 1, true),
        WithCapacity(2 * w as u64),
        Shrink,
        Reserve(w as u64 + 1),
        Align(true),
    ];
    for first in 0..alphabet.len() {
        let alphabet = alphabet.clone();
        m.job(format!("scratch {} first {:?}", B::NAME, alphabet[first]), move |wk| {
            let a = alphabet.clone();
            let op0 = a[first].clone();
            stateless(
                wk,
                "sequence",
                || {
                    let mut s = BvSys::<B>::start(vec![], 1000, 2);
                    let _ = s.apply(&op0);
                    s
                },
                &a,
                depth - 1,
            )
        });
    }
}

/// Lengths beyond 2^32 bits.
fn huge<B: Blk>(m: &mut Main) {
    m.job(format!("huge {}", B::NAME), |wk| {
        let base: u64 = 1 << 32;
        let blocks = (base / B::W as u64) as usize;
        let pat = B::of(pats(B::W)[5]);
        let bit = |i: u64| pats(B::W)[5] >> (i % B::W as u64) & 1 == 1;
        let mut v = BitVector::<B>::block_with_fill(blocks + 1, pat);
        wk.step();
        chk!(v.bit_len() == base + B::W as u64, "huge", "block_with_fill length {}", v.bit_len());
        let probe: Vec<u64> = (0..70).chain(base / 2 - 3..base / 2 + 3).chain(base - 70..base + B::W as u64).collect();
        let look = |v: &BitVector<B>, changed: &[(u64, bool)], n: u64, what: &str| -> R {
            chk!(v.bit_len() == n, "huge", "{}: length {} expected {}", what, v.bit_len(), n);
            for &i in probe.iter().filter(|&&i| i < n) {
                let e = changed.iter().rev().find(|c| c.0 == i).map(|c| c.1).unwrap_or(bit(i));
                let g = v.get_bit(i);
                chk!(g == e, "huge", "{}: get_bit({}) = {} expected {}", what, i, g, e);
                let c = (n - i).min(B::W as u64) as usize;
                let g = v.get_bits(i, c).u();
                let mut e = 0;
                for j in 0..c {
                    let b = changed
                        .iter()
                        .rev()
                        .find(|c| c.0 == i + j as u64)
                        .map(|c| c.1)
                        .unwrap_or(bit(i + j as u64));
                    if b {
                        e |= 1 << j
                    }
                }
                chk!(g == e, "huge", "{}: get_bits({}, {}) = {:#x} expected {:#x}", what, i, c, g, e);
            }
            Ok(())
        };
        look(&v, &[], base + B::W as u64, "block_with_fill")?;
        wk.state();
        let mut ch: Vec<(u64, bool)> = vec![];
        for i in [base + 1, base, base - 1, base - 2, 5] {
            v.set_bit(i, !bit(i));
            ch.push((i, !bit(i)));
            wk.step();
            look(&v, &ch, base + B::W as u64, "set_bit")?;
            wk.state();
        }
        let s = base - 3;
        let c = 7;
        v.set_bits(s, c, B::of(0x55));
        for j in 0..c {
            ch.push((s + j as u64, 0x55u64 >> j & 1 == 1));
        }
        wk.step();
        look(&v, &ch, base + B::W as u64, "set_bits")?;
        let b = blocks;
        v.set_block(b, B::of(0x3c));
        for j in 0..B::W {
            ch.push((base + j as u64, 0x3cu64 >> j & 1 == 1));
        }
        wk.step();
        look(&v, &ch, base + B::W as u64, "set_block")?;
        v.truncate(base + 3);
        wk.step();
        look(&v, &ch, base + 3, "truncate")?;
        let e = ch.iter().rev().find(|c| c.0 == base + 2).unwrap().1;
        chk!(v.pop_bit() == Some(e), "huge", "pop_bit at 2^32 + 2");
        v.pop_bit();
        v.pop_bit();
        v.pop_bit();
        wk.step();
        look(&v, &ch, base - 1, "pop_bit across 2^32")?;
        for (j, x) in [true, false, true, true].iter().enumerate() {
            v.push_bit(*x);
            ch.push((base - 1 + j as u64, *x));
            wk.step();
            look(&v, &ch, base + j as u64, "push_bit across 2^32")?;
            wk.state();
        }
        v.resize(base + 5, true);
        ch.push((base + 3, true));
        ch.push((base + 4, true));
        wk.step();
        look(&v, &ch, base + 5, "resize")?;
        v.resize(base - 2, false);
        wk.step();
        look(&v, &ch, base - 2, "resize down")?;
        v.block_truncate(blocks - 1);
        wk.step();
        look(&v, &ch, base - B::W as u64, "block_truncate")?;
        v.block_resize(blocks + 1, B::of(0x71));
        for i in base - B::W as u64..base + B::W as u64 {
            ch.push((i, 0x71u64 >> (i % B::W as u64) & 1 == 1));
        }
        wk.step();
        look(&v, &ch, base + B::W as u64, "block_resize")?;
        v.truncate(3);
        wk.step();
        look(&v, &ch, 3, "truncate to 3")?;
        drop(v);
        let v = BitVector::<B>::with_fill(base + 5, true);
        wk.step();
        wk.tick();
        chk!(v.bit_len() == base + 5, "huge", "with_fill(2^32+5) length {}", v.bit_len());
        for i in (0..100).chain(base - 100..base + 5) {
            chk!(v.get_bit(i), "huge", "with_fill(2^32+5, true): bit {} is false", i);
        }
        wk.traces += 1;
        Ok(())
    });
}

fn long<B: Blk>(m: &mut Main) {
    for n in long_blocks(m.thorough) {
        m.job(format!("long {} {} blocks", B::NAME, n), move |wk| long_bv::<B>(wk, n, false));
    }
    let top = m.pick(5000, 70000);
    m.job(format!("ratchet {}", B::NAME), move |wk| ratchet_bv::<B>(wk, top + 40 * B::W));
    let th = m.thorough;
    for &g in if th { LEAPS_TH } else { LEAPS } {
        m.job(format!("leap {} {}", B::NAME, g), move |wk| leap_bv::<B>(wk, false, &[g]));
    }
}

fn main() {
    let mut m = Main::new("C01");
    m.rule("state = (length, raw blocks, derived hash) of a live BitVector; transition = one public operation run on the real object and on a Vec<bool>");
    huge::<u64>(&mut m);
    let deep = m.pick(13, 15);
    m.bound(format!("BitVector<u8>: every operation with every argument from every reachable state of length <= {}, to fixpoint", deep));
    m.job("fixpoint u8", move |w| {
        let ex = bfs(w, "sequence", vec![BvSys::<u8>::start(vec![], deep, 2)], 1000)?;
        assert!(ex || w.stopped(), "HARNESS: search not exhausted");
        Ok(())
    });
    // the same from contents that cannot be reached cheaply: 2..3 blocks, all low-entropy contents
    let wide = m.pick(18, 26);
    m.bound(format!("BitVector<u8>: every operation once from every pattern of every length <= {}", wide));
    for len in 0..=wide {
        m.job(format!("onestep u8 len {}", len), move |w| {
            for kind in 0..24 {
                let s = BvSys::<u8>::start(pattern(kind, len), len + 10, 2);
                w.state();
                for op in s.ops() {
                    let mut t = s.clone();
                    w.step();
                    if let Err(e) = t.apply(&op).and_then(|_| t.agree()).and_then(|_| t.observe()) {
                        return fail("sequence", format!("history: start from {}; {:?}\n  {}", s.show(), op, e));
                    }
                }
            }
            Ok(())
        });
    }
    seeds::<u8>(&mut m);
    seeds::<u16>(&mut m);
    seeds::<u32>(&mut m);
    seeds::<u64>(&mut m);
    seeds::<usize>(&mut m);
    m.bound("seeds at block-boundary lengths x patterns, all block types: full alphabet depth 1, reduced alphabet depth 2 (thorough: 3)");
    long::<u64>(&mut m);
    long::<u32>(&mut m);
    long::<u16>(&mut m);
    long::<u8>(&mut m);
    long::<usize>(&mut m);
    m.bound("3 to 1025 (thorough 8193) blocks, dense at first, then around powers of two: one operation of a long-vector alphabet (every kind, positions around every power-of-two block from either end, growth by up to 300 blocks) and two follow-ups, all block types; growing to 5000+ bits and shrinking to nothing one step at a time; lengths changed by 4097 to 65537 (thorough 200003) bits at once in seven ways");
    let d = m.pick(4, 5);
    scratch::<u8>(&mut m, d);
    scratch::<u64>(&mut m, d);
    m.bound(format!("every sequence of {} operations of a 16-operation alphabet from a fresh vector, real capacities (u8, u64)", d));
    huge::<u8>(&mut m);
    if m.thorough {
        huge::<u16>(&mut m);
        huge::<u32>(&mut m);
        huge::<usize>(&mut m);
    }
    m.bound("contents of 2^32 + one block bits (u64, u8; thorough: all types) around bit 2^32");
    mc::copies::bit_copies::<u8>(&mut m, "copy");
    mc::copies::bit_copies::<u16>(&mut m, "copy");
    mc::copies::bit_copies::<u32>(&mut m, "copy");
    mc::copies::bit_copies::<u64>(&mut m, "copy");
    mc::copies::bit_copies::<usize>(&mut m, "copy");
    m.bound("clone_from between vectors of every pair of lengths (u8: 0..26 bits, thorough 58; others: around block boundaries) with and without spare room, then one further operation");
    m.run()
}
