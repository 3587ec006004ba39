//! C03: equality, hash and order are functions of the contents.
use mc::bits::*;
use mc::vecs::*;
use mc::*;
use std::cmp::Ordering;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

/// Pairwise laws over a list of objects with distinct contents.
fn order_laws<T: Ord + Clone + std::hash::Hash, D: Fn(usize) -> String>(w: &mut W, xs: &[T], show: D, triples: bool) -> R {
    let n = xs.len();
    let mut c = vec![Ordering::Equal; n * n];
    for i in 0..n {
        w.tick();
        for j in 0..n {
            w.evals += 1;
            let o = xs[i].cmp(&xs[j]);
            c[i * n + j] = o;
            let eq = xs[i] == xs[j];
            chk!(eq == (i == j), "equality", "{} == {} gives {}", show(i), show(j), eq);
            chk!((xs[i] != xs[j]) == (i != j), "equality", "{} != {}", show(i), show(j));
            chk!((o == Ordering::Equal) == (i == j), "order", "{} cmp {} gives {:?}", show(i), show(j), o);
            chk!(xs[i].partial_cmp(&xs[j]) == Some(o), "order", "partial_cmp differs from cmp: {} / {}", show(i), show(j));
            chk!((xs[i] < xs[j]) == (o == Ordering::Less), "order", "< differs from cmp: {} / {}", show(i), show(j));
            chk!((xs[i] <= xs[j]) == (o != Ordering::Greater), "order", "<= differs from cmp: {} / {}", show(i), show(j));
            chk!((xs[i] >= xs[j]) == (o != Ordering::Less), "order", ">= differs from cmp: {} / {}", show(i), show(j));
            chk!((xs[i] > xs[j]) == (o == Ordering::Greater), "order", "> differs from cmp: {} / {}", show(i), show(j));
            if j <= i {
                chk!(c[j * n + i] == o.reverse(), "order", "cmp not antisymmetric: {} / {}", show(i), show(j));
            }
        }
    }
    w.nontrivial += (n * n) as u64;
    if triples {
        for i in 0..n {
            w.tick();
            for j in 0..n {
                if c[i * n + j] == Ordering::Less {
                    for k in 0..n {
                        if c[j * n + k] == Ordering::Less {
                            chk!(
                                c[i * n + k] == Ordering::Less,
                                "order",
                                "cmp not transitive: {} < {} < {}",
                                show(i),
                                show(j),
                                show(k)
                            );
                        }
                    }
                }
            }
        }
    } else {
        // a total order sorts consistently: every pair in sorted order agrees
        let mut idx: Vec<usize> = (0..n).collect();
        idx.sort_by(|&a, &b| c[a * n + b]);
        for a in 0..n {
            for b in a + 1..n {
                chk!(
                    c[idx[a] * n + idx[b]] == Ordering::Less,
                    "order",
                    "cmp not transitive around {} and {}",
                    show(idx[a]),
                    show(idx[b])
                );
            }
        }
    }
    Ok(())
}

/// Clone equals source; then no operation on one is seen by the other.
fn clone_indep_b<B: Blk>(w: &mut W, m: &[bool], cap: usize) -> R {
    let mut src = bv_from::<B>(m);
    src.block_reserve(cap);
    let show = || format!("BitVector<{}> {}", B::NAME, bitstr(m));
    for op in bops(B::W, m.len(), m.len() + B::W + 1, 1) {
        w.step();
        w.tick();
        let mut a = src.clone();
        let b = a.clone();
        chk!(a == src && b == a && hash_of(&a) == hash_of(&b), "clone", "clone of {} differs", show());
        breal(&mut a, &op);
        if let Err(e) = agree_bits(&b, m, false) {
            return fail("clone", format!("after clone of {}, {:?} on the source changed the clone: {}", show(), op, e));
        }
        let b2 = src.clone();
        breal(&mut a, &BOp::Clear);
        chk!(b2 == src, "clone", "clone of {} changed by clearing another", show());
        let mut c = src.clone();
        breal(&mut c, &op);
        if let Err(e) = agree_bits(&src, m, false) {
            return fail("clone", format!("{:?} on a clone of {} changed the source: {}", op, show(), e));
        }
        // clone_from, onto something longer and something shorter
        for n in [0, m.len() + 3 * B::W + 1] {
            let mut d = BitVector::<B>::with_fill(n as u64, true);
            d.clone_from(&src);
            chk!(d == src && hash_of(&d) == hash_of(&src), "clone", "clone_from {} onto {} ones differs", show(), n);
        }
        let _ = c.bit_len();
    }
    Ok(())
}

fn clone_indep_i<B: Blk>(w: &mut W, k: usize, m: &[bool]) -> R {
    let mut src = iv_from::<B>(k, m);
    src.block_reserve(3);
    let n = m.len() / k;
    for op in iops(B::W, k, n, n + 3, 1) {
        if matches!(op, IOp::PushBad(_) | IOp::SetBad(..)) {
            continue;
        }
        w.step();
        w.tick();
        let mut a = src.clone();
        let b = a.clone();
        chk!(a == src && b == a && hash_of(&a) == hash_of(&b), "clone", "clone of {:?} differs", src);
        ireal(&mut a, &op);
        chk!(b == src, "clone", "after clone of {:?}, {:?} on the source changed the clone to {:?}", src, op, b);
        if let Err(e) = agree_bits(&b, m, false) {
            return fail("clone", format!("after clone of {:?}, {:?} on the source changed the clone: {}", src, op, e));
        }
        // clone_from, onto something longer, shorter, of another width
        for (k2, n2) in [(k, 0), (k, n + 3 * B::W + 1), (k % B::W + 1, n), (B::W, 2)] {
            let mut d = IntVector::<B>::block_with_fill(k2, n2 as usize, !B::zero());
            d.clone_from(&src);
            chk!(d == src && hash_of(&d) == hash_of(&src), "clone", "clone_from {:?} onto {} blocks of ones of width {} differs", src, n2, k2);
        }
    }
    Ok(())
}

fn histories<B: Blk>(m: &mut Main) {
    let w = B::W;
    for len in [0, 1, w - 1, w, w + 1, 2 * w + 1] {
        m.job(format!("history {} len {}", B::NAME, len), move |wk| {
            for kind in [0, 1, 3, 9] {
                let mut seed = BvSys::<B>::start(pattern(kind, len), len + w + 1, 0);
                seed.strict = true;
                let mut path = vec![format!("start from {}", seed.show())];
                wk.state();
                let th = wk.thorough;
                from_seed(wk, "history", &seed, 2, &|s: &mut BvSys<B>, l| s.alpha = if th && l == 0 { 1 } else { 0 }, &mut path, 0)?;
                clone_indep_b::<B>(wk, &pattern(kind, len), 2)?;
            }
            Ok(())
        });
    }
    let ks: Vec<usize> = if w == 8 { (1..=8).collect() } else { vec![1, 3, 7, w / 2, w / 2 + 1, w - 1, w] };
    for k in ks {
        m.job(format!("history {} k={}", B::NAME, k), move |wk| {
            for n in [0, 1, w / k, w / k + 1] {
                for kind in [1, 3] {
                    let mut seed = IvSys::<B>::start(k, pattern(kind, n * k), n + w / k + 1, 0);
                    seed.strict = true;
                    wk.state();
                    let mut path = vec![format!("start from {}", seed.show())];
                    from_seed(wk, "history", &seed, 2, &|s: &mut IvSys<B>, _| s.alpha = 0, &mut path, 0)?;
                    clone_indep_i::<B>(wk, k, &pattern(kind, n * k))?;
                }
            }
            Ok(())
        });
    }
}

/// Different one-bit neighbours and different lengths are different; wide blocks.
fn neighbours<B: Blk>(m: &mut Main) {
    m.job(format!("neighbours {}", B::NAME), |w| {
        for len in [1, B::W - 1, B::W, B::W + 1, 2 * B::W, 2 * B::W + 1] {
            let mut ms: Vec<Vec<bool>> = vec![];
            let base = pattern(3, len);
            ms.push(base.clone());
            for i in 0..len {
                let mut x = base.clone();
                x[i] = !x[i];
                ms.push(x);
            }
            // prefixes, and extensions by zeros and ones
            for c in 1..=len.min(B::W + 1) {
                ms.push(base[..len - c].to_vec());
            }
            for c in 1..=B::W + 1 {
                let mut x = base.clone();
                x.extend(vec![false; c]);
                ms.push(x);
            }
            let mut x = base.clone();
            x.push(true);
            ms.push(x);
            ms.sort();
            ms.dedup();
            let xs: Vec<BitVector<B>> = ms.iter().map(|m| bv_from(m)).collect();
            w.states += xs.len() as u64;
            order_laws(w, &xs, |i| bitstr(&ms[i]), false)?;
        }
        Ok(())
    });
}

/// Long vectors: one differing bit anywhere, or one element more, is a different vector; and back again.
fn long<B: Blk>(m: &mut Main) {
    let (w, th) = (B::W, m.thorough);
    let ns: Vec<usize> = if th { vec![7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 4096, 4097, 65537] } else { vec![8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1024, 1025, 4097] };
    for n in ns {
        m.job(format!("long {} {} blocks", B::NAME, n), move |wk| {
            for len in [n * w, n * w - w + 1] {
                for kind in [1, 3] {
                    let base = pattern(kind, len);
                    let a: BitVector<B> = bv_from(&base);
                    let mut b = a.clone();
                    wk.state();
                    let ks: Vec<usize> = [1, 3, w / 2 + 1, w].iter().cloned().filter(|k| *k <= w).collect();
                    let ia: Vec<IntVector<B>> = ks.iter().map(|&k| iv_from(k, &base[..len / k * k])).collect();
                    let mut ib: Vec<IntVector<B>> = ia.clone();
                    let h = hash_of(&a);
                    let step = if n <= 300 { 1 } else { w - 1 };
                    let mut prev = Ordering::Less;
                    for p in (0..len).step_by(step) {
                        if n > 1100 && p / w % 61 > 1 && p / w < n - 2 {
                            continue;
                        }
                        wk.tick();
                        wk.evals += 1;
                        b.set_bit(p as u64, !base[p]);
                        let o = a.cmp(&b);
                        let show = || format!("{} of {} bits (pattern {}), bit {} flipped", B::NAME, len, kind, p);
                        chk!(a != b && b != a && !(a == b) && !(b == a), "equality", "BitVector {}: still equal", show());
                        chk!(o != Ordering::Equal && b.cmp(&a) == o.reverse() && a.partial_cmp(&b) == Some(o), "order", "BitVector {}: {:?} / {:?}", show(), o, b.cmp(&a));
                        // a whole-value comparison that looks only at part of the bits repeats: transitivity with the neighbour
                        let mut c = b.clone();
                        let q = (p + w) % len;
                        c.set_bit(q as u64, !c.get_bit(q as u64));
                        chk!(b.cmp(&c) != Ordering::Equal && b != c, "order", "BitVector {} and bit {}: still equal", show(), q);
                        if p == q || (o == b.cmp(&c) && a.cmp(&c) != o) {
                            chk!(p == q, "order", "BitVector {} and bit {}: not transitive", show(), q);
                        }
                        b.set_bit(p as u64, base[p]);
                        chk!(a == b && a.cmp(&b) == Ordering::Equal && !(a < b) && hash_of(&b) == h, "equality", "BitVector {} and back: differs", show());
                        prev = o;
                        for (j, &k) in ks.iter().enumerate() {
                            let (e, sh) = (p / k, p % k);
                            if e >= len / k {
                                continue;
                            }
                            let v = ib[j].get(e as u64);
                            ib[j].set(e as u64, v ^ B::one() << sh);
                            let o = ia[j].cmp(&ib[j]);
                            chk!(ia[j] != ib[j] && o != Ordering::Equal && ib[j].cmp(&ia[j]) == o.reverse(), "equality", "IntVector k={} {}: still equal ({:?})", k, show(), o);
                            ib[j].set(e as u64, v);
                            chk!(ia[j] == ib[j] && ia[j].cmp(&ib[j]) == Ordering::Equal, "equality", "IntVector k={} {} and back: differs", k, show());
                        }
                    }
                    let _ = prev;
                    // lengths
                    for d in [1, w - 1, w, w + 1] {
                        for fill in [false, true] {
                            let mut c = a.clone();
                            c.resize((len + d) as u64, fill);
                            chk!(a != c && a.cmp(&c) != Ordering::Equal && a.cmp(&c) == c.cmp(&a).reverse(), "equality", "BitVector<{}> of {} bits equals itself with {} more bits", B::NAME, len, d);
                            c.truncate(len as u64);
                            chk!(a == c && hash_of(&c) == h, "equality", "BitVector<{}> of {} bits differs after growing by {} and shrinking back", B::NAME, len, d);
                            wk.evals += 2;
                        }
                    }
                    for (j, &k) in ks.iter().enumerate() {
                        let e = ia[j].len();
                        let mut c = ia[j].clone();
                        c.push(B::zero());
                        chk!(ia[j] != c, "equality", "IntVector<{}> k={} of {} elements equals itself with one more", B::NAME, k, e);
                        c.pop();
                        chk!(ia[j] == c && hash_of(&ia[j]) == hash_of(&c), "equality", "IntVector<{}> k={} of {} elements differs after push and pop", B::NAME, k, e);
                        if k < w {
                            // the same bits at another width
                            let d: IntVector<B> = iv_from(k + 1, &base[..len / (k + 1) * (k + 1)]);
                            chk!(d != ia[j] && d.cmp(&ia[j]) != Ordering::Equal, "equality", "IntVector<{}>: width {} equals width {}", B::NAME, k, k + 1);
                        }
                    }
                    wk.nontrivial += 1;
                }
            }
            Ok(())
        });
    }
}

/// After changes of length by thousands of elements at once.
fn leaps<B: Blk>(m: &mut Main, ks: &'static [usize]) {
    let th = m.thorough;
    m.job(format!("leap {}", B::NAME), move |wk| mc::long::leap_bv::<B>(wk, true, if th { mc::long::LEAPS_TH } else { mc::long::LEAPS }));
    for &k in ks {
        m.job(format!("leap {} k={}", B::NAME, k), move |wk| mc::long::leap_iv::<B>(wk, k, true, if th { mc::long::LEAPS_TH } else { mc::long::LEAPS }));
    }
}

/// Shortened to every length in every way: the same value as one that never was longer.
fn cuts<B: Blk>(m: &mut Main, ks: &'static [usize]) {
    let top = m.pick(3300usize, 9000);
    m.job(format!("cuts {}", B::NAME), move |wk| {
        let bits = pattern(3, top + 70);
        let long = bv_from::<B>(&bits);
        let mut fresh = BitVector::<B>::new();
        let mut all = vec![];
        for t in 0..=top {
            wk.tick();
            wk.state();
            let mut v = long.clone();
            v.truncate(t as u64);
            let mut u = long.clone();
            u.resize(t as u64, t % 2 == 0);
            for (how, x) in [("truncating", &v), ("resizing", &u)] {
                wk.step();
                np("comparing", || same_value(x, &fresh)).and_then(|r| r).map_err(|e| Fail { key: "cut".into(), what: format!("BitVector<{}>: {} from {} bits to {}: {}", B::NAME, how, bits.len(), t, e) })?;
            }
            all.push(fresh.clone());
            fresh.push_bit(bits[t]);
        }
        let mut v = long.clone();
        while v.bit_len() > top as u64 {
            v.pop_bit();
        }
        while let Some(f) = all.pop() {
            wk.step();
            np("comparing", || same_value(&v, &f)).and_then(|r| r).map_err(|e| Fail { key: "cut".into(), what: format!("BitVector<{}>: popping from {} bits to {}: {}", B::NAME, bits.len(), f.bit_len(), e) })?;
            v.pop_bit();
            wk.tick();
        }
        Ok(())
    });
    for &k in ks {
        m.job(format!("cuts {} k={}", B::NAME, k), move |wk| {
            let n = top / 2;
            let xs: Vec<B> = (0..n as u64 + 9).map(|i| B::of(mix(i) & mask(k))).collect();
            let mut long = IntVector::<B>::new(k);
            for &x in &xs {
                long.push(x)
            }
            let mut fresh = IntVector::<B>::new(k);
            let mut all = vec![];
            for t in 0..=n {
                wk.tick();
                wk.state();
                let mut v = long.clone();
                v.truncate(t as u64);
                let mut u = long.clone();
                u.resize(t as u64, B::of(1));
                for (how, x) in [("truncating", &v), ("resizing", &u)] {
                    wk.step();
                    np("comparing", || same_value(x, &fresh)).and_then(|r| r).map_err(|e| Fail { key: "cut".into(), what: format!("IntVector<{}>({}): {} from {} elements to {}: {}", B::NAME, k, how, xs.len(), t, e) })?;
                }
                all.push(fresh.clone());
                fresh.push(xs[t]);
            }
            let mut v = long.clone();
            while v.len() > n as u64 {
                v.pop();
            }
            while let Some(f) = all.pop() {
                wk.step();
                np("comparing", || same_value(&v, &f)).and_then(|r| r).map_err(|e| Fail { key: "cut".into(), what: format!("IntVector<{}>({}): popping from {} elements to {}: {}", B::NAME, k, xs.len(), f.len(), e) })?;
                v.pop();
                wk.tick();
            }
            Ok(())
        });
    }
}

/// Beyond 2^32 bits.
fn huge(m: &mut Main) {
    m.job("huge", |wk| {
        let n: u64 = std::hint::black_box((1 << 32) + 101); // LLVM 23 truncates the bit size of a constant-size comparison to 32 bits
        let a = BitVector::<u64>::with_fill(n, true);
        let mut b = a.clone();
        wk.state();
        chk!(a == b && a.cmp(&b) == Ordering::Equal, "huge", "a clone of {} ones differs", n);
        for p in [0, 1, 63, 64, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 63, (1 << 32) + 64, n - 1] {
            wk.tick();
            wk.evals += 1;
            b.set_bit(p, false);
            let o = a.cmp(&b);
            chk!(a != b && !(b == a) && o != Ordering::Equal && b.cmp(&a) == o.reverse(), "huge", "{} ones, bit {} cleared: still equal ({:?})", n, p, o);
            b.set_bit(p, true);
            chk!(a == b, "huge", "{} ones, bit {} cleared and set again: differs", n, p);
        }
        Ok(())
    });
    m.job("huge lengths", |wk| {
        let n: u64 = std::hint::black_box((1 << 32) + 101); // LLVM 23 truncates the bit size of a constant-size comparison to 32 bits
        let a = BitVector::<u64>::with_fill(n, true);
        let mut b = a.clone();
        wk.state();
        let h = hash_of(&a);
        for d in [1, 64, 100, 1 << 32] {
            wk.tick();
            wk.evals += 1;
            b.truncate(n - d);
            let o = a.cmp(&b);
            chk!(a != b && o != Ordering::Equal && b.cmp(&a) == o.reverse(), "huge", "{} ones equal {} ones", n, n - d);
            b.resize(n, true);
            chk!(a == b, "huge", "{} ones differ after losing and regaining {}", n, d);
        }
        chk!(hash_of(&b) == h, "huge", "{} ones hash differently after another history", n);
        b.truncate(100);
        chk!(b == BitVector::<u64>::with_fill(100, true) && hash_of(&b) == hash_of(&BitVector::<u64>::with_fill(100, true)), "huge", "100 ones left of {} differ from 100 ones", n);
        Ok(())
    });
    m.job("huge elements", |wk| {
        let n: u64 = std::hint::black_box((1 << 32) + 101); // LLVM 23 truncates the bit size of a constant-size comparison to 32 bits
        wk.state();
        let a = IntVector::<u64>::block_with_fill(1, (n / 64) as usize + 1, !0);
        let n = a.len();
        let mut b = a.clone();
        chk!(a == b, "huge", "a clone of {} one-bit elements differs", n);
        for p in [0, (1 << 32) - 1, 1 << 32, n - 1] {
            wk.tick();
            wk.evals += 1;
            b.set(p, 0);
            let o = a.cmp(&b);
            chk!(a != b && o != Ordering::Equal && b.cmp(&a) == o.reverse(), "huge", "{} one-bit elements, element {} cleared: still equal ({:?})", n, p, o);
            b.set(p, 1);
            chk!(a == b, "huge", "{} one-bit elements, element {} cleared and set again: differs", n, p);
        }
        let c: IntVector<u64> = IntVector::with_fill(1, 100, 1);
        chk!(a != c && c != a && a.cmp(&c) == c.cmp(&a).reverse(), "huge", "{} elements equal 100", n);
        Ok(())
    });
}

fn main() {
    let mut m = Main::new("C03");
    huge(&mut m);
    m.rule("strict mode: after every transition the object must equal, hash as and compare Equal with a vector built by pushing the model's contents; a pair is non-trivial always (both orders, eq/ne/lt/le/gt/ge/cmp/partial_cmp)");
    let deep = m.pick(11, 13);
    m.job("fixpoint u8", move |w| {
        let mut s = BvSys::<u8>::start(vec![], deep, 2);
        s.strict = true;
        let ex = bfs(w, "history", vec![s], 1000)?;
        assert!(ex || w.stopped(), "HARNESS: search not exhausted");
        Ok(())
    });
    m.bound(format!("BitVector<u8> length <= {}: every operation from every reachable state, compared with the canonical vector of equal contents", deep));
    for k in 1..=8usize {
        let n = m.pick(10, 14) / k;
        m.job(format!("fixpoint u8 k={}", k), move |w| {
            let mut s = IvSys::<u8>::start(k, vec![], n.max(1), 2);
            s.strict = true;
            let ex = bfs(w, "history", vec![s], 1000)?;
            assert!(ex || w.stopped(), "HARNESS: search not exhausted");
            Ok(())
        });
    }
    m.bound("IntVector<u8> k=1..8, up to 10..14 bits: the same");
    let pl = m.pick(9, 11);
    m.job("order bits u8", move |w| {
        let mut ms = vec![];
        for len in 0..=pl {
            for x in 0..1u64 << len {
                ms.push(word_bits(x, len));
            }
        }
        let xs: Vec<BitVector<u8>> = ms.iter().map(|m| bv_from(m)).collect();
        w.states += xs.len() as u64;
        order_laws(w, &xs, |i| bitstr(&ms[i]), false)
    });
    m.job("order ints u8", |w| {
        // all vectors of several widths and lengths together: widths distinguish too
        let mut xs: Vec<IntVector<u8>> = vec![];
        for k in 1..=8usize {
            for n in 0..=(if k <= 2 { 4 } else if k <= 4 { 2 } else { 1 }) {
                for x in 0..1u64 << (n * k) {
                    xs.push(iv_from(k, &word_bits(x, n * k)));
                }
            }
        }
        w.states += xs.len() as u64;
        let ys = xs.clone();
        order_laws(w, &xs, |i| format!("{:?}", ys[i]), false)
    });
    m.job("order triples", |w| {
        let mut ms = vec![];
        for len in 0..=6 {
            for x in 0..1u64 << len {
                ms.push(word_bits(x, len));
            }
        }
        for kind in 0..8 {
            for len in [8, 9, 15, 16, 17, 24, 25] {
                ms.push(pattern(kind, len));
            }
        }
        ms.sort();
        ms.dedup();
        let xs: Vec<BitVector<u8>> = ms.iter().map(|m| bv_from(m)).collect();
        w.states += xs.len() as u64;
        order_laws(w, &xs, |i| bitstr(&ms[i]), true)
    });
    m.bound(format!("order and equality laws: all pairs of all bit strings of length <= {}, all triples of length <= 6, all pairs of small integer vectors of all widths", pl));
    neighbours::<u8>(&mut m);
    neighbours::<u16>(&mut m);
    neighbours::<u32>(&mut m);
    neighbours::<u64>(&mut m);
    neighbours::<usize>(&mut m);
    histories::<u8>(&mut m);
    histories::<u16>(&mut m);
    histories::<u32>(&mut m);
    histories::<u64>(&mut m);
    histories::<usize>(&mut m);
    long::<u8>(&mut m);
    long::<u16>(&mut m);
    long::<u32>(&mut m);
    long::<u64>(&mut m);
    long::<usize>(&mut m);
    m.bound("vectors of 8 to 4097 (thorough 65537) blocks: every single-bit change (first/last blocks and a spread of the others above 1100 blocks), every other length nearby, at four element widths");
    m.bound("all block types, block-boundary lengths, all element widths (u8) or 7 widths: depth-2 histories, clone independence under every operation");
    // capacities and earlier longer contents, no cloning in between
    m.job("scratch capacities", |w| {
        use mc::vecs::BOp::*;
        let a = vec![
            PushBit(true), PopBit, PushBlock(0xB3), Resize(19, true), Resize(5, true), Resize(9, false), Truncate(3),
            BlockResize(3, 0xff), BlockTruncate(1), Clear, WithFill(17, true), WithCapacity(40), Shrink, SetBlock(0, 0xff),
            Align(true), ReserveExact(40),
        ];
        let mut idx = vec![0usize; 4];
        'outer: loop {
            let mut s = BvSys::<u8>::start(vec![], 1000, 2);
            s.strict = true;
            w.traces += 1;
            w.tick();
            for &i in &idx {
                if matches!(a[i], SetBlock(..)) && s.m.is_empty() {
                    continue;
                }
                w.step();
                if let Err(e) = s.apply(&a[i]).and_then(|_| s.agree()) {
                    let h: Vec<_> = idx.iter().map(|&i| &a[i]).collect();
                    return fail("history", format!("history {:?}: {}", h, e));
                }
            }
            let mut d = 4;
            loop {
                if d == 0 {
                    break 'outer;
                }
                d -= 1;
                idx[d] += 1;
                if idx[d] < a.len() {
                    break;
                }
                idx[d] = 0;
            }
        }
        Ok(())
    });
    cuts::<u8>(&mut m, &[1, 3, 8]);
    cuts::<u16>(&mut m, &[7, 16]);
    cuts::<u32>(&mut m, &[5, 17]);
    cuts::<u64>(&mut m, &[1, 13, 33, 64]);
    cuts::<usize>(&mut m, &[33, 64]);
    m.bound("vectors of 3300 bits or 1650 elements (thorough 9000, 4500) truncated, resized and popped down to every shorter length");
    leaps::<u8>(&mut m, &[3, 8]);
    leaps::<u16>(&mut m, &[7]);
    leaps::<u32>(&mut m, &[5]);
    leaps::<u64>(&mut m, &[1, 13, 64]);
    leaps::<usize>(&mut m, &[33]);
    m.bound("lengths changed by 4097 to 65537 (thorough 200003) bits or elements at once, in eleven ways, for seven widths: compared with the same contents pushed one by one");
    m.run()
}
