//! C07: bit slices are exact windows.
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use std::ops::Range;
use succinct::bit_vec::{BitSlice, BitSliceMut, IntoRange};
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVecMut, BitVector, IntVector};

fn err(key: &str, what: String, r: Result<(), String>) -> R {
    match r {
        Ok(()) => Ok(()),
        Err(e) => fail(key, format!("{}: {}", what, e)),
    }
}

/// All reads of a slice, including the zero padding of the last block.
fn reads<V: BitVec>(wk: &mut W, what: &dyn Fn() -> String, v: &V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    wk.state();
    wk.traces += 1;
    let r = np("read", || {
        agree_bits(v, m, V::Block::W <= 16)?;
        if V::Block::W > 16 {
            agree_spans(v, m)?;
        }
        // block padding beyond the slice reads as zero
        let w = V::Block::W;
        for (i, &e) in pack(m, w).iter().enumerate() {
            let g = v.get_block(i).u();
            if g != e {
                return Err(format!("get_block({}) = {:#x}, expected {:#x} (bits beyond the slice must be zero)", i, g, e));
            }
        }
        Ok(())
    })
    .and_then(|r| r);
    wk.transitions += (m.len() * 4) as u64;
    err("read", what(), r)
}

/// Performs every kind of write through the slice made by `cut`, comparing the whole base each time.
fn writes<S, F>(wk: &mut W, what: &dyn Fn() -> String, base: &mut S, all: &mut Vec<bool>, s: usize, e: usize, exhaustive: bool, cut: F) -> R
where
    S: Store,
    S::Block: Blk,
    F: for<'a> Fn(&'a mut S, &mut dyn FnMut(&mut dyn Writes<S::Block>)),
{
    let w = S::Block::W;
    let n = e - s;
    let mut ops: Vec<(u8, usize, usize, u64)> = vec![];
    for i in 0..n {
        ops.push((0, i, 1, 0));
    }
    for i in 0..=n {
        for c in 0..=w.min(n - i) {
            if exhaustive || c < 2 || c == w || i + c == n || i == 0 || (s + i + c) % w == 0 || (s + i) % w == 0 || (i + c) % w == 0 {
                ops.push((1, i, c, 0));
                if exhaustive {
                    ops.push((1, i, c, 1));
                }
            }
        }
    }
    for b in 0..(n + w - 1) / w {
        for x in 0..3 {
            ops.push((2, b, 0, x));
        }
    }
    for (j, (kind, i, c, x)) in ops.into_iter().enumerate() {
        wk.step();
        // values complementary to what is there, ones, or irregular (with bits set beyond the span)
        let mut val = match x {
            0 => !field(all, s + if kind == 2 { i * w } else { i }, if kind == 2 { w.min(n - i * w) } else { c }),
            1 => u64::MAX,
            _ => mix(j as u64),
        } & mask(w);
        if kind == 0 {
            val = !all[s + i] as u64;
        }
        let mut done = Err("slice not made".to_string());
        let r = guard_msg(|| {
            cut(base, &mut |v| {
                done = guard_msg(|| match kind {
                    0 => v.bit(i as u64, val & 1 == 1),
                    1 => v.bits(i as u64, c, S::Block::of(val)),
                    _ => v.block(i, S::Block::of(val)),
                })
            })
        });
        let op = || match kind {
            0 => format!("{}: set_bit({}, {})", what(), i, val & 1),
            1 => format!("{}: set_bits({}, {}, {:#x})", what(), i, c, val),
            _ => format!("{}: set_block({}, {:#x})", what(), i, val),
        };
        if let Err(p) = r.and(done) {
            return fail("write", format!("{}: unexpected panic: {}", op(), p));
        }
        match kind {
            0 => all[s + i] = val & 1 == 1,
            1 => set_field(all, s + i, c, val),
            _ => set_field(all, s + i * w, w.min(n - i * w), val),
        }
        let now = ok!(raw(base), "write", "{}: reading the base back", op());
        chk!(now == *all, "write", "{}: base is {}, expected {}", op(), bitstr(&now), bitstr(all));
    }
    wk.traces += 1;
    wk.state();
    Ok(())
}

/// Object-safe face of a mutable slice.
trait Writes<B> {
    fn bit(&mut self, i: u64, v: bool);
    fn bits(&mut self, i: u64, c: usize, v: B);
    fn block(&mut self, i: usize, v: B);
}
impl<'a, S: BitVecMut> Writes<S::Block> for BitSliceMut<'a, S> {
    fn bit(&mut self, i: u64, v: bool) {
        self.set_bit(i, v)
    }
    fn bits(&mut self, i: u64, c: usize, v: S::Block) {
        self.set_bits(i, c, v)
    }
    fn block(&mut self, i: usize, v: S::Block) {
        self.set_block(i, v)
    }
}

/// Start/end positions worth trying for wide blocks.
fn points(n: usize, w: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 3, n / 2, n.saturating_sub(1), n];
    for k in 1..=n / w + 1 {
        for d in 0..2 {
            v.push(k * w + d);
            v.push(k * w - d);
        }
    }
    v.retain(|&x| x <= n);
    v.sort();
    v.dedup();
    v
}

fn job<S>(m: &mut Main, label: &str, n: usize)
where
    S: Store + 'static,
    S::Block: Blk,
{
    let w = S::Block::W;
    let thorough = m.thorough;
    let pts = if w <= 8 || w == 16 || (thorough && w == 32) { (0..=n).collect::<Vec<_>>() } else { points(n, w) };
    let nvar = S::variants(&pattern(8, n)).len();
    for (vi, flip) in (0..nvar).flat_map(|v| [(v, false), (v, true)]) {
        let pts = pts.clone();
        let bits: Vec<bool> = pattern(8, n).into_iter().map(|b| b ^ flip).collect();
        m.job(format!("{} n={} variant {}{}", label, n, vi, if flip { " complement" } else { "" }), move |wk| {
            let (name, base) = S::variants(&bits).swap_remove(vi);
            // refused ranges
            let l = n as u64;
            for e in [l + 1, l + 2, l + w as u64, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX] {
                for s in [0, 1, l / 2, l, l + 1, e] {
                    if s > e {
                        continue;
                    }
                    wk.step();
                    let mut b = base.clone();
                    let bad = |how: &str| fail::<()>("range", format!("{} of length {}: {} {}..{} accepted", name, n, how, s, e));
                    if guard(|| BitSlice::new(&base, s..e).bit_len()).is_ok() {
                        bad("BitSlice::new")?
                    }
                    if guard(|| BitSlice::new(&base, ..e).bit_len()).is_ok() {
                        bad("BitSlice::new ..")?
                    }
                    if guard(|| BitSliceMut::new(&mut b, s..e).bit_len()).is_ok() {
                        bad("BitSliceMut::new")?
                    }
                    let whole = BitSlice::new(&base, ..);
                    if guard(|| whole.slice(s..e).bit_len()).is_ok() {
                        bad("BitSlice::slice")?
                    }
                    if guard(|| BitSlice::new(&whole, s..e).bit_len()).is_ok() {
                        bad("BitSlice::new over a slice")?
                    }
                    let mut wm = BitSliceMut::new(&mut b, ..);
                    if guard(|| wm.slice(s..e).bit_len()).is_ok() {
                        bad("BitSliceMut::slice")?
                    }
                    if guard(|| wm.slice_mut(s..e).bit_len()).is_ok() {
                        bad("BitSliceMut::slice_mut")?
                    }
                }
            }
            for &s in &pts {
                for &e in &pts {
                    if e < s {
                        continue;
                    }
                    wk.tick();
                    let (su, eu) = (s as u64, e as u64);
                    let win = &bits[s..e];
                    let nm = || format!("{} of length {}, slice {}..{}", name, n, s, e);
                    let sl = ok!(BitSlice::new(&base, su..eu), "range", "{}", nm());
                    reads(wk, &nm, &sl, win)?;
                    reads(wk, &|| format!("{} (a clone of it)", nm()), &Clone::clone(&sl), win)?;
                    let whole = BitSlice::new(&base, ..);
                    reads(wk, &|| format!("{} (sub-slice of ..)", nm()), &ok!(whole.slice(su..eu), "range", "{}", nm()), win)?;
                    if e == n {
                        reads(wk, &|| format!("{} (as {}..)", nm(), s), &BitSlice::new(&base, su..), win)?;
                        reads(wk, &|| format!("{} (sub-slice {}..)", nm(), s), &whole.slice(su..), win)?;
                    }
                    if s == 0 {
                        reads(wk, &|| format!("{} (as ..{})", nm(), e), &BitSlice::new(&base, ..eu), win)?;
                        reads(wk, &|| format!("{} (sub-slice ..{})", nm(), e), &whole.slice(..eu), win)?;
                    }
                    reads(wk, &|| format!("{} (sub-slice .. of it)", nm()), &sl.slice(..), win)?;
                    // a sub-slice may not reach past the slice, even inside the base
                    for over in [1, 2, w as u64] {
                        let (x, y) = (eu - su, eu - su + over);
                        wk.step();
                        let mut b = base.clone();
                        chk!(guard(|| sl.slice(x..y).bit_len()).is_err(), "range", "{}: sub-slice {}..{} accepted", nm(), x, y);
                        chk!(guard(|| sl.slice(..y).bit_len()).is_err(), "range", "{}: sub-slice ..{} accepted", nm(), y);
                        chk!(guard(|| BitSlice::new(&sl, x..y).bit_len()).is_err(), "range", "{}: slice {}..{} of it accepted", nm(), x, y);
                        let mut sm = BitSliceMut::new(&mut b, su..eu);
                        chk!(guard(|| sm.slice(x..y).bit_len()).is_err(), "range", "{}: mutable slice's sub-slice {}..{} accepted", nm(), x, y);
                        chk!(guard(|| sm.slice_mut(..y).bit_len()).is_err(), "range", "{}: mutable sub-slice ..{} accepted", nm(), y);
                    }
                    // mutable windows
                    let mut b = base.clone();
                    let mut all = bits.clone();
                    {
                        let mut sm = ok!(BitSliceMut::new(&mut b, su..eu), "range", "{}", nm());
                        reads(wk, &|| format!("{} (mutable)", nm()), &sm, win)?;
                        reads(wk, &|| format!("{} (shared sub-slice of mutable)", nm()), &sm.slice(..), win)?;
                        reads(wk, &|| format!("{} (mutable sub-slice of mutable)", nm()), &sm.slice_mut(..), win)?;
                    }
                    let ex = w <= 8 && (e - s) <= 18;
                    writes(wk, &|| format!("{} (mutable)", nm()), &mut b, &mut all, s, e, ex, |base, f| f(&mut BitSliceMut::new(base, su..eu)))?;
                    writes(wk, &|| format!("{} (mutable sub-slice)", nm()), &mut b, &mut all, s, e, false, |base, f| {
                        f(&mut BitSliceMut::new(base, ..).slice_mut(su..eu))
                    })?;
                    writes(wk, &|| format!("{} (mutable slice of mutable slice)", nm()), &mut b, &mut all, s, e, false, |base, f| {
                        let mut outer = BitSliceMut::new(base, su..);
                        f(&mut BitSliceMut::new(&mut outer, ..eu - su))
                    })?;
                }
            }
            wk.sample(|| format!("{}: all pairs of positions {:?}", name, pts));
            Ok(())
        });
        // two levels of nesting
        let bits: Vec<bool> = pattern(3, n).into_iter().map(|b| b ^ flip).collect();
        let pts: Vec<usize> = if w <= 8 && n <= 18 { (0..=n).collect() } else { points(n, w).into_iter().step_by(if thorough { 1 } else { 2 }).collect() };
        m.job(format!("{} n={} variant {}{} nested", label, n, vi, if flip { " complement" } else { "" }), move |wk| {
            let (name, base) = S::variants(&bits).swap_remove(vi);
            for &s in &pts {
                for &e in &pts {
                    for &a in &pts {
                        for &c in &pts {
                            if !(s <= e && a <= c && c <= e - s) {
                                continue;
                            }
                            wk.tick();
                            let win = &bits[s + a..s + c];
                            let (su, eu, au, cu) = (s as u64, e as u64, a as u64, c as u64);
                            let nm = || format!("{} of length {}, slice {}..{} sub-slice {}..{}", name, n, s, e, a, c);
                            let outer = BitSlice::new(&base, su..eu);
                            let inner = ok!(outer.slice(au..cu), "range", "{}", nm());
                            reads(wk, &nm, &inner, win)?;
                            let over = ok!(BitSlice::new(&outer, au..cu), "range", "{}", nm());
                            reads(wk, &|| format!("{} (slice of slice)", nm()), &over, win)?;
                            if c == e - s {
                                reads(wk, &|| format!("{} (open end)", nm()), &outer.slice(au..), win)?;
                            }
                            if (a + c + s + e) % 3 == 0 {
                                let mut b = base.clone();
                                let mut all = bits.clone();
                                {
                                    let mut om = BitSliceMut::new(&mut b, su..eu);
                                    reads(wk, &|| format!("{} (shared of mutable)", nm()), &om.slice(au..cu), win)?;
                                    reads(wk, &|| format!("{} (mutable of mutable)", nm()), &om.slice_mut(au..cu), win)?;
                                }
                                writes(wk, &|| format!("{} (mutable)", nm()), &mut b, &mut all, s + a, s + c, false, |base, f| {
                                    f(&mut BitSliceMut::new(base, su..eu).slice_mut(au..cu))
                                })?;
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// Unsized bases.
fn unsized_base<B: Blk>(m: &mut Main) {
    m.job(format!("[{}]", B::NAME), |wk| {
        let w = B::W;
        let n = 3 * w;
        let bits = pattern(3, n);
        let blocks: Vec<B> = pack(&bits, w).into_iter().map(B::of).collect();
        for &s in &points(n, w) {
            for &e in &points(n, w) {
                if e < s {
                    continue;
                }
                let nm = || format!("[{}] slice {}..{}", B::NAME, s, e);
                reads(wk, &nm, &BitSlice::new(&blocks[..], s as u64..e as u64), &bits[s..e])?;
                let mut b = blocks.clone();
                reads(wk, &nm, &BitSliceMut::new(&mut b[..], s as u64..e as u64), &bits[s..e])?;
                let mut all = bits.clone();
                let mut st = UnsizedStore(b);
                writes(wk, &nm, &mut st, &mut all, s, e, false, |base, f| {
                    let mut v = BitSliceMut::new(&mut base.0[..], s as u64..e as u64);
                    f(&mut Thin(&mut v))
                })?;
            }
        }
        Ok(())
    });
}
struct Thin<'a, 'b: 'a, B: Blk>(&'a mut BitSliceMut<'b, [B]>);
impl<'a, 'b, B: Blk> Writes<B> for Thin<'a, 'b, B> {
    fn bit(&mut self, i: u64, v: bool) {
        self.0.set_bit(i, v)
    }
    fn bits(&mut self, i: u64, c: usize, v: B) {
        self.0.set_bits(i, c, v)
    }
    fn block(&mut self, i: usize, v: B) {
        self.0.set_block(i, v)
    }
}
#[derive(Clone)]
struct UnsizedStore<B: Blk>(Vec<B>);
impl<B: Blk> BitVec for UnsizedStore<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.bit_len()
    }
    fn get_block(&self, i: usize) -> B {
        self.0[i]
    }
}
impl<B: Blk> BitVecMut for UnsizedStore<B> {
    fn set_block(&mut self, i: usize, v: B) {
        self.0[i] = v
    }
}
impl<B: Blk> Store for UnsizedStore<B> {
    fn variants(_: &[bool]) -> Vec<(String, Self)> {
        vec![]
    }
}

/// Windows at offsets far beyond 2^32 over computed contents.
fn far<B: Blk>(m: &mut Main) {
    m.job(format!("far windows {}", B::NAME), |wk| {
        let f: fn(usize) -> u64 = |i| mix(i as u64);
        let w = B::W as u64;
        for len in [(1u64 << 33) + 5, (1 << 40) + 77, 1 << 62, u64::MAX - 1, u64::MAX] {
            let base = Virtual::<B>::new(len, f);
            let bit = |p: u64| f((p / w) as usize) & mask(B::W) as u64 >> 0 & (1 << (p % w)) != 0;
            let mut starts = vec![0, 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + w - 1, len - 3 * w - 1, len - w, len - 1, len];
            starts.sort();
            for &s in &starts {
                for win in [0u64, 1, w - 1, w, w + 1, 2 * w + 3] {
                    let Some(e) = s.checked_add(win).filter(|&e| e <= len) else { continue };
                    let bits: Vec<bool> = (s..e).map(&bit).collect();
                    let nm = || format!("computed bits<{}> of length {}, slice {}..{}", B::NAME, len, s, e);
                    reads(wk, &nm, &ok!(BitSlice::new(&base, s..e), "range", "{}", nm()), &bits)?;
                    let outer = BitSlice::new(&base, s / 2..len);
                    let o = s - s / 2;
                    reads(wk, &|| format!("{} through {}..", nm(), s / 2), &ok!(outer.slice(o..o + win), "range", "{}", nm()), &bits)?;
                    // the long slice itself, at the same place
                    for d in 0..win {
                        wk.step();
                        chk!(outer.get_bit(o + d) == bits[d as usize], "far", "{}: get_bit({}) of {}..{}", nm(), o + d, s / 2, len);
                        let c = (win - d).min(w) as usize;
                        let g = outer.get_bits(o + d, c).u();
                        chk!(g == field(&bits, d as usize, c), "far", "{}: get_bits({}, {}) of {}..{}", nm(), o + d, c, s / 2, len);
                    }
                    let full = BitSlice::new(&base, 1..len);
                    if s > 1 && win >= 2 * w {
                        let b = (s - 1 + w - 1) / w; // first whole block of `full` inside the window
                        let p = 1 + b * w;
                        if p + w <= e {
                            let g = ok!(full.get_block(b as usize).u(), "far", "{}: get_block({}) of 1..{}", nm(), b, len);
                            chk!(g == field(&bits, (p - s) as usize, B::W), "far", "{}: get_block({}) of 1..{} = {:#x}", nm(), b, len, g);
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

fn rnd(i: u64) -> bool {
    mix(i) >> 5 & 1 == 1
}
/// Mutable windows of any length anywhere in writable stores of up to 2^64-1 bits.
fn far_mut<B: Blk>(m: &mut Main) {
    let thorough = m.thorough;
    m.job(format!("far mutable windows {}", B::NAME), move |wk| {
        let w = B::W as u64;
        for total in [(1u64 << 33) + 5, (1 << 40) + 77, 1 << 62, u64::MAX - 1, u64::MAX] {
            let mut starts = vec![0, 1, w - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + w + 3, total / 2, total - 3 * w - 1, total - w];
            starts.dedup();
            for &s in &starts {
                let mut wins = vec![1, w - 1, w + 1, 3 * w + 1, (1 << 31) + 5, (1 << 32) - 1, (1 << 32) + 9, total / 3, total - s];
                wins.retain(|&l| l <= total - s && l > 0);
                for &len in &wins {
                    let ps = faraway::places(w, len, thorough);
                    for nested in [false, true] {
                        let mut m = faraway::Want { off: s, len, f: rnd, over: Default::default(), strict: true };
                        let nm = |k: &str| format!("slice {}..{} of a user store by {}<{}> of {} bits{}", s, s + len, k, B::NAME, total, if nested { ", nested" } else { "" });
                        let mut base = FarBit::<B>::new(total, rnd);
                        {
                            let mut out = BitSliceMut::new(&mut base, s / 2..);
                            let mut x = if nested { out.slice_mut(s - s / 2..s - s / 2 + len) } else { BitSliceMut::new(&mut base, s..s + len) };
                            for &p in &ps {
                                faraway::writes(wk, &|| nm("bit"), &mut x, &mut m, p)?;
                                faraway::look(wk, &|| nm("bit") + ", shared", &x.slice(..), &m, p)?;
                            }
                        }
                        for (&i, &v) in &base.over {
                            chk!(v == m.over.get(&i).cloned().unwrap_or_else(|| rnd(i)), "far", "{}: bit {} of the base is {}", nm("bit"), i, v);
                        }
                        let mut m = faraway::Want { off: s, len, f: rnd, over: Default::default(), strict: true };
                        let mut base = FarBlock::<B>::new(total, rnd);
                        {
                            let mut out = BitSliceMut::new(&mut base, s / 2..);
                            let mut x = if nested { out.slice_mut(s - s / 2..s - s / 2 + len) } else { BitSliceMut::new(&mut base, s..s + len) };
                            for &p in &ps {
                                faraway::writes(wk, &|| nm("block"), &mut x, &mut m, p)?;
                            }
                        }
                        for (&b, &v) in &base.over {
                            for k in 0..w {
                                let i = (b as u64 * w).wrapping_add(k);
                                if i < total && i >= b as u64 * w {
                                    chk!((v.u() >> k & 1 == 1) == m.over.get(&i).cloned().unwrap_or_else(|| rnd(i)), "far", "{}: bit {} of the base changed", nm("block"), i);
                                }
                            }
                        }
                        wk.states += 2;
                        wk.traces += 2;
                    }
                }
            }
        }
        Ok(())
    });
}

fn ranges(m: &mut Main) {
    m.job("IntoRange", |wk| {
        let ns: Vec<u64> = (0..6).chain([1 << 32, u64::MAX]).collect();
        for &s in &ns {
            for &e in &ns {
                for &lo in &ns {
                    for &hi in &ns {
                        wk.step();
                        let ok = (s..e).into_range(lo, hi) == Range { start: s, end: e }
                            && (..e).into_range(lo, hi) == Range { start: lo, end: e }
                            && (s..).into_range(lo, hi) == Range { start: s, end: hi }
                            && (..).into_range(lo, hi) == Range { start: lo, end: hi };
                        chk!(ok, "IntoRange", "into_range of {}..{} with limits {}, {}", s, e, lo, hi);
                    }
                }
            }
        }
        wk.state();
        Ok(())
    });
}

/// Long bases and long windows.
fn long<S>(m: &mut Main, label: &str, blocks: &[usize])
where
    S: Store + 'static,
    S::Block: Blk,
{
    let w = S::Block::W;
    for &nb in blocks {
        let n = nb * w;
        m.job(format!("long {} {} blocks", label, nb), move |wk| {
            let bits = pattern(3, n);
            let mut vs = S::variants(&bits);
            vs.truncate(2);
            let mut pts = mc::long::marks(w, n);
            if pts.len() > 24 {
                pts = pts.iter().enumerate().filter(|(i, p)| i % (pts.len() / 16) == 1 || **p + 2 > n || **p < 2).map(|x| *x.1).collect();
            }
            for (name, base) in vs {
                for &s in &pts {
                    for &e in &pts {
                        if e < s {
                            continue;
                        }
                        wk.tick();
                        wk.state();
                        let (su, eu) = (s as u64, e as u64);
                        let win = &bits[s..e];
                        let nm = || format!("{} of {} bits, slice {}..{}", name, n, s, e);
                        let look = |v: &dyn BitVec<Block = S::Block>, what: &str| -> R {
                            let r = np("read", || -> Result<(), String> {
                                same!("bit_len", v.bit_len(), eu - su);
                                same!("block_len", v.block_len(), (e - s + w - 1) / w);
                                for (i, &x) in pack(win, w).iter().enumerate() {
                                    same!(format!("get_block({})", i), v.get_block(i).u(), x);
                                }
                                for &p in pts.iter().filter(|p| **p < e - s) {
                                    same!(format!("get_bit({})", p), v.get_bit(p as u64), win[p]);
                                    for c in [1, w / 2 + 1, w] {
                                        if p + c <= e - s {
                                            same!(format!("get_bits({}, {})", p, c), v.get_bits(p as u64, c).u(), field(win, p, c));
                                        }
                                    }
                                }
                                Ok(())
                            })
                            .and_then(|r| r);
                            err("read", format!("{} ({})", nm(), what), r)
                        };
                        wk.transitions += (e - s) as u64 / w as u64;
                        let sl = ok!(BitSlice::new(&base, su..eu), "range", "{}", nm());
                        look(&sl, "new")?;
                        look(&Clone::clone(&sl), "clone")?;
                        let whole = BitSlice::new(&base, ..);
                        look(&ok!(whole.slice(su..eu), "range", "{}", nm()), "sub-slice")?;
                        let mid = su / 2;
                        let part = BitSlice::new(&base, mid..);
                        let over = ok!(BitSlice::new(&part, su - mid..eu - mid), "range", "{}", nm());
                        look(&over, "nested")?;
                        let mut b = base.clone();
                        {
                            let mut sm = BitSliceMut::new(&mut b, su..eu);
                            look(&sm, "mutable")?;
                            look(&sm.slice(..), "shared of mutable")?;
                            look(&sm.slice_mut(..), "mutable of mutable")?;
                        }
                        // writes, one after another, then the whole base
                        for nested in [false, true] {
                            let mut all = bits.clone();
                            let mut b = base.clone();
                            {
                                let mut outer = BitSliceMut::new(&mut b, if nested { mid } else { su }..eu);
                                let mut sm = if nested { outer.slice_mut(su - mid..) } else { outer };
                                for (j, &p) in pts.iter().filter(|p| **p < e - s).enumerate() {
                                    wk.step();
                                    let r = guard_msg(|| match j % 3 {
                                        0 => {
                                            sm.set_bit(p as u64, !all[s + p]);
                                            all[s + p] = !all[s + p];
                                        }
                                        1 => {
                                            let c = w.min(e - s - p);
                                            let v = !field(&all, s + p, c) & mask(c);
                                            sm.set_bits(p as u64, c, S::Block::of(v));
                                            set_field(&mut all, s + p, c, v);
                                        }
                                        _ => {
                                            let k = p / w;
                                            let c = w.min(e - s - k * w);
                                            let v = mix(j as u64) & mask(w);
                                            sm.set_block(k, S::Block::of(v));
                                            set_field(&mut all, s + k * w, c, v);
                                        }
                                    });
                                    if let Err(p) = r {
                                        return fail("write", format!("{}: write {}: unexpected panic: {}", nm(), j, p));
                                    }
                                }
                            }
                            let now = raw(&b);
                            if now != all {
                                let at = (0..n).find(|&i| now[i] != all[i]);
                                return fail("write", format!("{}{}: after writes at {:?} the base is wrong at bit {:?}", nm(), if nested { " (nested)" } else { "" }, pts, at));
                            }
                            wk.traces += 1;
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

fn main() {
    let mut m = Main::new("C07");
    m.rule("state = one slice (base implementation, contents, range, nesting) whose every read was compared with the bits of its window; transition = one read or write through it, after a write the whole base is compared");
    let n8 = m.pick(vec![0, 1, 7, 8, 9, 14, 16, 18, 21, 24, 27], (0..=40).collect());
    for &n in &n8 {
        job::<BitVector<u8>>(&mut m, "BitVector<u8>", n);
        job::<Vec<u8>>(&mut m, "Vec<u8>", n);
        job::<Vec<bool>>(&mut m, "Vec<bool>", n);
        job::<IntVector<u8>>(&mut m, "IntVector<u8>", n);
        job::<ByBit<u8>>(&mut m, "ByBit<u8>", n);
        job::<ByBlock<u8>>(&mut m, "ByBlock<u8>", n);
        job::<BitBuffer<BitVector<u8>>>(&mut m, "BitBuffer<u8>", n);
    }
    job::<u8>(&mut m, "u8", 8);
    job::<u16>(&mut m, "u16", 16);
    job::<u32>(&mut m, "u32", 32);
    job::<u64>(&mut m, "u64", 64);
    job::<usize>(&mut m, "usize", 64);
    for n in m.pick(vec![16, 31, 32, 33, 48], (15..=66).collect()) {
        job::<BitVector<u16>>(&mut m, "BitVector<u16>", n);
        job::<Vec<u16>>(&mut m, "Vec<u16>", n);
        job::<IntVector<u16>>(&mut m, "IntVector<u16>", n);
        job::<ByBlock<u16>>(&mut m, "ByBlock<u16>", n);
    }
    for n in m.pick(vec![32, 64, 70, 96, 100], (31..=130).collect()) {
        job::<BitVector<u32>>(&mut m, "BitVector<u32>", n);
        job::<IntVector<u32>>(&mut m, "IntVector<u32>", n);
        job::<ByBlock<u32>>(&mut m, "ByBlock<u32>", n);
    }
    for n in m.pick(vec![64, 65, 128, 130, 192, 200], (63..=260).collect()) {
        job::<BitVector<u64>>(&mut m, "BitVector<u64>", n);
        job::<Vec<u64>>(&mut m, "Vec<u64>", n);
        job::<ByBlock<u64>>(&mut m, "ByBlock<u64>", n);
        job::<IntVector<u64>>(&mut m, "IntVector<u64>", n);
        job::<BitVector<usize>>(&mut m, "BitVector<usize>", n);
        job::<ByBit<u64>>(&mut m, "ByBit<u64>", n);
    }
    unsized_base::<u8>(&mut m);
    unsized_base::<u16>(&mut m);
    unsized_base::<u64>(&mut m);
    far::<u8>(&mut m);
    far_mut::<u8>(&mut m);
    far::<u16>(&mut m);
    far_mut::<u16>(&mut m);
    far::<u32>(&mut m);
    far_mut::<u32>(&mut m);
    far::<u64>(&mut m);
    far_mut::<u64>(&mut m);
    far::<usize>(&mut m);
    far_mut::<usize>(&mut m);
    ranges(&mut m);
    let lb = m.pick(vec![8, 17, 33, 65, 100, 129, 257, 1025], vec![5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 513, 1025, 2049, 4097]);
    long::<BitVector<u8>>(&mut m, "BitVector<u8>", &lb);
    long::<BitVector<u16>>(&mut m, "BitVector<u16>", &lb);
    long::<BitVector<u32>>(&mut m, "BitVector<u32>", &lb);
    long::<BitVector<u64>>(&mut m, "BitVector<u64>", &lb);
    long::<BitVector<usize>>(&mut m, "BitVector<usize>", &lb[..5]);
    long::<Vec<u64>>(&mut m, "Vec<u64>", &lb);
    long::<Vec<u8>>(&mut m, "Vec<u8>", &lb);
    long::<Vec<bool>>(&mut m, "Vec<bool>", &lb);
    long::<IntVector<u64>>(&mut m, "IntVector<u64>", &lb);
    long::<IntVector<u8>>(&mut m, "IntVector<u8>", &lb);
    long::<ByBit<u64>>(&mut m, "ByBit<u64>", &lb);
    long::<ByBlock<u8>>(&mut m, "ByBlock<u8>", &lb);
    long::<ByBlock<u64>>(&mut m, "ByBlock<u64>", &lb);
    m.bound("bases of 8 to 1025 (thorough 4097) blocks: windows between about 20 marked places, their blocks, marked bits and spans, writes through them, nested");
    m.bound("every range (and every nested pair up to length 18) for 8-bit blocks, block-boundary ranges for wider ones; windows up to offset 2^64-1 over computed contents; refused ranges up to 2^64-1");
    m.bound("mutable windows of 1 to 2^64-1 bits anywhere in user stores of 2^33 to 2^64-1 bits, direct and nested: every kind of write at marked places, every view, nothing outside changed");
    m.run()
}
