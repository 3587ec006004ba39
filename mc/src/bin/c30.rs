//! C30: block types of a user's own behave like the built-in ones.
use mc::bits::*;
use mc::own::*;
use mc::vecs::{same_value, BvSys, IvSys};
use mc::*;
use num_traits::PrimInt;
use std::collections::VecDeque;
use succinct::coding::{Comma, Fibonacci, Lift0, Omega, UniversalCode, Unary, DELTA, GAMMA};
use succinct::rank::{BitRankSupport, JacobsonRank, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support};
use succinct::storage::{Address, BlockType};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector, SpaceUsage};

// ------------------------------------------------------------------ plain bits

fn msk(n: usize) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1 << n) - 1
    }
}
fn fld(m: &[bool], s: usize, c: usize) -> u128 {
    (0..c).fold(0, |r, i| r | (m[s + i] as u128) << i)
}
fn setf(m: &mut [bool], s: usize, c: usize, x: u128) {
    for i in 0..c {
        m[s + i] = x >> i & 1 == 1
    }
}
fn mix2(i: u64) -> u128 {
    (mix(i) as u128) << 64 | mix(i.wrapping_add(0x9999)) as u128
}
/// argument values of w bits
fn vals(w: usize) -> Vec<u128> {
    vec![msk(w), 0, 1, 1 << (w - 1), mix2(7) & msk(w)]
}

fn rd<V: BitVec + ?Sized>(v: &V, m: &[bool]) -> Result<(), String>
where
    V::Block: Wide,
{
    let w = V::Block::W;
    same!("bit_len", v.bit_len(), m.len() as u64);
    same!("block_len", v.block_len(), (m.len() + w - 1) / w);
    for i in 0..m.len() {
        if v.get_bit(i as u64) != m[i] {
            return Err(format!("get_bit({}): got {}, expected {}", i, !m[i], m[i]));
        }
    }
    for b in 0..v.block_len() {
        let c = w.min(m.len() - b * w);
        let (g, e) = (v.get_block(b).u() & msk(c), fld(m, b * w, c));
        if g != e {
            return Err(format!("get_block({}): got {:#x}, expected {:#x}", b, g, e));
        }
    }
    for s in 0..=m.len() {
        let top = w.min(m.len() - s);
        if w > 16 && m.len() > 2 * w && !(s % w < 2 || s % w + 2 > w || s % 13 == 0 || s + 2 > m.len()) {
            continue;
        }
        for c in 0..=top {
            if w > 16 && !(c < 2 || c + 2 > w || c == w - s % w || c == w - s % w + 1 || c == top || c == w / 2 || c == w / 2 + 1) {
                continue;
            }
            let (g, e) = (v.get_bits(s as u64, c).u(), fld(m, s, c));
            if g != e {
                return Err(format!("get_bits({}, {}): got {:#x}, expected {:#x}", s, c, g, e));
            }
        }
    }
    Ok(())
}
/// agreement at the marked places only
fn rd_few<V: BitVec + ?Sized>(v: &V, m: &[bool]) -> Result<(), String>
where
    V::Block: Wide,
{
    let w = V::Block::W;
    same!("bit_len", v.bit_len(), m.len() as u64);
    same!("block_len", v.block_len(), (m.len() + w - 1) / w);
    for b in 0..v.block_len() {
        let c = w.min(m.len() - b * w);
        let (g, e) = (v.get_block(b).u() & msk(c), fld(m, b * w, c));
        if g != e {
            return Err(format!("get_block({}): got {:#x}, expected {:#x}", b, g, e));
        }
    }
    for i in 0..m.len() {
        if v.get_bit(i as u64) != m[i] {
            return Err(format!("get_bit({}): got {}, expected {}", i, !m[i], m[i]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ provided methods of the trait

fn words<B: Wide>(w: &mut W, shard: usize, shards: usize) -> R {
    let n = B::W;
    let lg = n.trailing_zeros() as usize;
    chk!(B::nbits() == n && B::lg_nbits() == lg, "sizes", "{}: nbits() = {}, lg_nbits() = {}", B::NAME, B::nbits(), B::lg_nbits());
    chk!(
        B::lg_nbits_mask::<N8>().0 == (n - 1) as u8 && B::lg_nbits_mask::<u64>() == (n - 1) as u64 && N64::lg_nbits_mask::<B>().u() == 63 && u8::lg_nbits_mask::<B>().u() == 7,
        "sizes",
        "{}: lg_nbits_mask is wrong",
        B::NAME
    );
    for k in 0..=n {
        ok!(B::low_mask(k), "low_mask", "{}::low_mask({})", B::NAME, k);
        chk!(B::low_mask(k).u() == msk(k), "low_mask", "{}::low_mask({}) = {:#x}", B::NAME, k, B::low_mask(k).u());
        if k < n {
            chk!(B::nth_mask(k).u() == 1 << k, "nth_mask", "{}::nth_mask({}) = {:#x}", B::NAME, k, B::nth_mask(k).u());
        }
    }
    for i in mc::words::indices(400).into_iter().skip(shard).step_by(shards) {
        w.tick();
        let (q, r) = ((i as u128 / n as u128) as usize, (i as u128 % n as u128) as usize);
        let c = q + (r != 0) as usize;
        let got = guard_msg(|| (B::div_nbits(i), B::checked_div_nbits(i), B::ceil_div_nbits(i), B::checked_ceil_div_nbits(i), B::mod_nbits(i), B::last_block_bits(i)));
        let want = (q, Some(q), c, Some(c), r, if r == 0 { n } else { r });
        chk!(got == Ok(want), "sizes", "{}: (div, checked_div, ceil_div, checked_ceil_div, mod, last_block) of {}: got {:?}, expected {:?}", B::NAME, i, got, want);
        let a = guard_msg(|| (Address::new::<B>(i), Address::new::<B>(i).bit_index::<B>(), B::mul_nbits(q)));
        let want = (Address { block_index: q, bit_offset: r }, i, i - r as u64);
        chk!(a == Ok(want), "sizes", "{}: address of {}: got {:?}, expected {:?}", B::NAME, i, a, want);
        w.evals += 9;
    }
    // words: sums and differences of powers of two, runs, irregular
    let mut xs: Vec<u128> = vec![];
    if n <= 16 {
        xs.extend(0..=msk(n));
    } else {
        for a in 0..n {
            for b in 0..n {
                xs.push((1u128 << a).wrapping_add(1 << b) & msk(n));
                xs.push((1u128 << a).wrapping_sub(1 << b) & msk(n));
            }
        }
        for i in 0..400 {
            xs.push(mix2(i) & msk(n));
        }
    }
    xs.sort();
    xs.dedup();
    for &x in xs.iter().skip(shard).step_by(shards) {
        w.at(|| format!("{}: provided methods on {:#x}", B::NAME, x));
        w.state();
        w.nontrivial += 1;
        let b = B::of(x);
        let spans: Vec<(usize, usize)> = (0..=n)
            .flat_map(|s| (0..=n - s).map(move |l| (s, l)))
            .filter(|&(s, l)| n <= 16 || (l < 2 || s < 2 || s + l + 1 >= n || l == n / 2) && (s % 9 == 0 || s < 3 || s + l + 1 >= n))
            .collect();
        let r = guard_msg(|| -> R {
            for i in 0..n {
                chk!(BlockType::get_bit(b, i) == (x >> i & 1 == 1), "get_bit", "{}: ({:#x}).get_bit({})", B::NAME, x, i);
                chk!(b.with_bit(i, true).u() == x | 1 << i && b.with_bit(i, false).u() == x & !(1 << i), "with_bit", "{}: ({:#x}).with_bit({})", B::NAME, x, i);
            }
            for &(s, l) in &spans {
                let g = BlockType::get_bits(b, s, l).u();
                let e = if s == n { 0 } else { x >> s & msk(l) };
                chk!(g == e, "get_bits", "{}: ({:#x}).get_bits({}, {}) = {:#x}, expected {:#x}", B::NAME, x, s, l, g, e);
                for v in [!x & msk(n), mix2(s as u64) & msk(n)] {
                    let g = BlockType::with_bits(b, s, l, B::of(v)).u();
                    let mut e = x;
                    if s < n {
                        let m = msk(l) << s & msk(n);
                        e = x & !m | v << s & m;
                    }
                    chk!(g == e, "with_bits", "{}: ({:#x}).with_bits({}, {}, {:#x}) = {:#x}, expected {:#x}", B::NAME, x, s, l, v, g, e);
                }
            }
            if x > 0 {
                chk!(b.floor_lg() == 127 - x.leading_zeros() as usize, "lg", "{}: ({:#x}).floor_lg() = {}", B::NAME, x, b.floor_lg());
                let c = if x == 1 { 0 } else { 128 - (x - 1).leading_zeros() as usize };
                chk!(b.ceil_lg() == c, "lg", "{}: ({:#x}).ceil_lg() = {}", B::NAME, x, b.ceil_lg());
            }
            for d in [1, 2, 3, 7, 8, 100, msk(n), msk(n - 1), 1 << (n - 1), x, x / 2 + 1] {
                let d = d & msk(n);
                if d != 0 {
                    let e = x / d + (x % d != 0) as u128;
                    chk!(b.ceil_div(B::of(d)).u() == e, "ceil_div", "{}: ({}).ceil_div({}) = {:?}, expected {}", B::NAME, x, d, b.ceil_div(B::of(d)), e);
                }
            }
            Ok(())
        });
        match r {
            Ok(r) => r?,
            Err(p) => return fail("words", format!("{}: provided methods on {:#x}: unexpected panic: {}", B::NAME, x, p)),
        }
        // the word as a bit vector: its own accessor plus the provided ones
        if n <= 16 && x % 7 != 0 {
            continue;
        }
        let m: Vec<bool> = (0..n).map(|i| x >> i & 1 == 1).collect();
        np("reading", || rd(&b, &m)).and_then(|r| r).map_err(|e| Fail { key: "word".into(), what: format!("the word {:#x} as a bit vector of {}: {}", x, B::NAME, e) })?;
        for &(s, l) in spans.iter().step_by(if n > 16 { 5 } else { 3 }) {
            let (mut c, mut t) = (b, m.clone());
            let v = mix2(x as u64 ^ s as u64) & msk(n);
            setf(&mut t, s, l, v);
            ok!(BitVecMut::set_bits(&mut c, s as u64, l, B::of(v)), "word", "{}: set_bits({}, {}) on the word {:#x}", B::NAME, s, l, x);
            chk!(c.u() == fld(&t, 0, n), "word", "{}: set_bits({}, {}, {:#x}) on the word {:#x} gave {:#x}", B::NAME, s, l, v, x, c.u());
            if s < n {
                let (mut c, mut t) = (b, m.clone());
                t[s] = !t[s];
                c.set_bit(s as u64, t[s]);
                chk!(c.u() == fld(&t, 0, n), "word", "{}: set_bit({}) on the word {:#x} gave {:#x}", B::NAME, s, x, c.u());
                c.set_block(0, B::of(v));
                chk!(c.u() == v, "word", "{}: set_block(0, {:#x}) gave {:#x}", B::NAME, v, c.u());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ bit vectors

#[derive(Clone, Debug)]
enum Op {
    Push(bool),
    Pop,
    PushBlock(u128),
    Align(bool),
    Set(usize, bool),
    SetBits(usize, usize, u128),
    SetBlock(usize, u128),
    Truncate(usize),
    BlockTruncate(usize),
    Resize(usize, bool),
    BlockResize(usize, u128),
    Clear,
    WithFill(usize, bool),
    BlockWithFill(usize, u128),
    Shrink,
    Reserve(usize),
    /// span of the window, then a write inside it
    Window(usize, usize, usize, usize, u128),
    WindowBlock(usize, usize, usize, u128),
    CloneFrom(usize),
}

fn bapply<B: Wide>(v: &mut BitVector<B>, m: &mut Vec<bool>, op: &Op) {
    use Op::*;
    let w = B::W;
    match *op {
        Push(b) => {
            v.push_bit(b);
            m.push(b)
        }
        Pop => {
            assert_eq!(v.pop_bit(), m.pop(), "pop_bit")
        }
        PushBlock(x) => {
            v.push_block(B::of(x));
            while m.len() % w != 0 {
                m.push(false)
            }
            m.extend((0..w).map(|i| x >> i & 1 == 1))
        }
        Align(b) => {
            v.align_block(b);
            while m.len() % w != 0 {
                m.push(b)
            }
        }
        Set(i, b) => {
            v.set_bit(i as u64, b);
            m[i] = b
        }
        SetBits(s, c, x) => {
            v.set_bits(s as u64, c, B::of(x));
            setf(m, s, c, x)
        }
        SetBlock(i, x) => {
            v.set_block(i, B::of(x));
            let c = w.min(m.len() - i * w);
            setf(m, i * w, c, x)
        }
        Truncate(n) => {
            v.truncate(n as u64);
            m.truncate(n)
        }
        BlockTruncate(n) => {
            v.block_truncate(n);
            m.truncate(n * w)
        }
        Resize(n, b) => {
            v.resize(n as u64, b);
            m.resize(n, b)
        }
        BlockResize(n, x) => {
            v.block_resize(n, B::of(x));
            mc::vecs::bm_resize_blocks_with(m, w, n, |i| x >> i & 1 == 1)
        }
        Clear => {
            v.clear();
            m.clear()
        }
        WithFill(n, b) => {
            *v = BitVector::with_fill(n as u64, b);
            *m = vec![b; n]
        }
        BlockWithFill(n, x) => {
            *v = BitVector::block_with_fill(n, B::of(x));
            *m = (0..n * w).map(|i| x >> (i % w) & 1 == 1).collect()
        }
        Shrink => v.shrink_to_fit(),
        Reserve(n) => {
            v.reserve(n as u64);
            assert!(v.capacity() >= (m.len() + n) as u64, "capacity after reserve");
        }
        Window(s, e, p, c, x) => {
            let mut t: BitSliceMut<BitVector<B>> = BitSliceMut::new(&mut *v, s as u64..e as u64);
            assert!(t.bit_len() == (e - s) as u64, "length of the window");
            t.set_bits(p as u64, c, B::of(x));
            assert!(t.get_bits(p as u64, c).u() == x & msk(c), "reading back through the window");
            setf(m, s + p, c, x)
        }
        WindowBlock(s, e, i, x) => {
            BitSliceMut::<BitVector<B>>::new(&mut *v, s as u64..e as u64).set_block(i, B::of(x));
            let c = w.min(e - s - i * w);
            setf(m, s + i * w, c, x)
        }
        CloneFrom(n) => {
            let t: Vec<bool> = (0..n).map(|i| mix(i as u64) & 1 == 1).collect();
            v.clone_from(&made::<B>(&t));
            *m = t
        }
    }
}

fn made<B: Wide>(m: &[bool]) -> BitVector<B> {
    let mut v = BitVector::new();
    for &b in m {
        v.push_bit(b)
    }
    v
}

/// lengths and positions around the block boundaries
fn marks(w: usize, top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, w / 2, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w - 1, 3 * w, 3 * w + 1, 4 * w + 3];
    if w == 128 {
        v.extend([63, 64, 65, 191, 192, 193]);
    }
    v.retain(|&x| x <= top);
    v.sort();
    v.dedup();
    v
}

fn bops<B: Wide>(n: usize, few: bool) -> Vec<Op> {
    use Op::*;
    let w = B::W;
    let mut o = vec![Push(true), Push(false), Pop, Align(true), Align(false), Clear, Shrink, Reserve(1), Reserve(2 * w + 1)];
    let vs = if few { vec![mix2(7) & msk(w)] } else { vals(w) };
    let mut at = marks(w, n);
    at.extend([n, n.saturating_sub(1)]);
    at.sort();
    at.dedup();
    for &x in &vs {
        o.push(PushBlock(x));
        for i in 0..(n + w - 1) / w {
            o.push(SetBlock(i, x));
        }
        for k in 0..=3 {
            o.push(BlockResize(k, x));
            o.push(BlockWithFill(k, x));
        }
        for (a, &s) in at.iter().enumerate() {
            for &e in &at[a..] {
                if e - s <= w {
                    o.push(SetBits(s, e - s, x));
                }
                if !few && e > s {
                    o.push(Window(s, e, 0, (e - s).min(w), x));
                    o.push(Window(s, e, (e - s) / 2, ((e - s) / 2).min(w), x));
                    o.push(WindowBlock(s, e, (e - s - 1) / w, x));
                    o.push(WindowBlock(s, e, 0, x));
                }
            }
        }
    }
    for &i in &at {
        if i < n {
            o.push(Set(i, true));
            o.push(Set(i, false));
        }
    }
    for t in marks(w, 3 * w + 1) {
        o.push(Resize(t, true));
        o.push(Resize(t, false));
        if !few {
            o.push(WithFill(t, true));
            o.push(WithFill(t, false));
            o.push(CloneFrom(t));
        }
        if t <= n + 1 {
            o.push(Truncate(t));
        }
    }
    for k in 0..=3 {
        o.push(BlockTruncate(k));
    }
    o
}

fn bit_vectors<B: Wide>(m: &mut Main) {
    for n in marks(B::W, 3 * B::W + 1) {
        m.job(format!("bit vector {} of {}", B::NAME, n), move |wk| {
            for kind in [1, 3, 0] {
                let m0 = pattern(kind, n);
                let v0 = made::<B>(&m0);
                wk.state();
                let first = bops::<B>(n, false);
                for (j, op) in first.iter().enumerate() {
                    let (mut v, mut m) = (v0.clone(), m0.clone());
                    wk.step();
                    wk.tick();
                    wk.at(|| format!("BitVector<{}> {}; {:?}", B::NAME, bitstr(&m0), op));
                    let r = np("operation", || bapply(&mut v, &mut m, op))
                        .and_then(|_| np("reading", || if j % 3 == 0 { rd(&v, &m) } else { rd_few(&v, &m) })?)
                        .and_then(|_| np("comparing", || same_value(&v, &made::<B>(&m)))?)
                        .and_then(|_| np("iterating", || -> Result<(), String> { Ok(same!("iter", v.iter().collect::<Vec<bool>>(), m.clone())) })?);
                    if let Err(e) = r {
                        return fail("bit-vector", format!("BitVector<{}> {}; {:?}\n  {}", B::NAME, bitstr(&m0), op, e));
                    }
                    wk.traces += 1;
                    // a second operation
                    if j % 2 == 0 || B::W <= 16 || wk.thorough {
                        for op2 in bops::<B>(m.len(), true) {
                            let (mut v, mut m) = (v.clone(), m.clone());
                            wk.step();
                            let r = np("operation", || bapply(&mut v, &mut m, &op2)).and_then(|_| np("reading", || rd_few(&v, &m))?);
                            if let Err(e) = r {
                                return fail("bit-vector", format!("BitVector<{}> {}; {:?}; {:?}\n  {}", B::NAME, bitstr(&m0), op, op2, e));
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// every length and every shorter length of up to a few blocks: truncating, growing, aligning,
/// windows and comparisons leave the same value as building it bit by bit
fn residues<B: Wide>(m: &mut Main) {
    let w = B::W;
    let top = m.pick(2 * w + 3, 4 * w + 3);
    let name = B::NAME;
    for part in 0..8usize {
        m.job(format!("every length {} part {}", name, part), move |wk| {
            for n in (part..=top).step_by(8) {
                let m0 = pattern(1, n);
                let v0 = made::<B>(&m0);
                let check = |wk: &mut W, what: &dyn Fn() -> String, f: &dyn Fn() -> BitVector<B>, m: Vec<bool>| -> R {
                    wk.step();
                    wk.tick();
                    wk.at(what);
                    let r = np("operation", || {
                        let v = f();
                        let e = made::<B>(&m);
                        same_value(&v, &e)?;
                        same_value(&e, &v)?;
                        rd_few(&v, &m)
                    })
                    .and_then(|r| r);
                    match r {
                        Ok(()) => Ok(()),
                        Err(e) => fail("residue", format!("BitVector<{}> of {} ones; {}\n  {}", B::NAME, n, what(), e)),
                    }
                };
                wk.state();
                check(wk, &|| "with_fill".into(), &|| BitVector::with_fill(n as u64, true), m0.clone())?;
                let mut z = m0.clone();
                z.resize((n + w - 1) / w * w, false);
                check(
                    wk,
                    &|| "align_block(false)".into(),
                    &|| {
                        let mut v = v0.clone();
                        v.align_block(false);
                        v
                    },
                    z,
                )?;
                for t in 0..=top {
                    if w > 16 && t < n && (n - t) % 5 > 1 && t % w > 1 && t % w + 2 < w {
                        continue;
                    }
                    for bit in [true, false] {
                        let mut e = m0.clone();
                        e.resize(t, bit);
                        check(
                            wk,
                            &|| format!("resize({}, {})", t, bit),
                            &|| {
                                let mut v = v0.clone();
                                v.resize(t as u64, bit);
                                v
                            },
                            e,
                        )?;
                    }
                    if t <= n {
                        let mut e = m0[..t].to_vec();
                        e.extend([false, true, false]);
                        check(
                            wk,
                            &|| format!("truncate({}); push 0, 1, 0", t),
                            &|| {
                                let mut v = v0.clone();
                                v.truncate(t as u64);
                                for b in [false, true, false] {
                                    v.push_bit(b)
                                }
                                v
                            },
                            e,
                        )?;
                        let e = m0[..t].to_vec();
                        check(
                            wk,
                            &|| format!("copy of the window {}..{}", n - t, n),
                            &|| {
                                let s: BitSlice<BitVector<B>> = BitSlice::new(&v0, (n - t) as u64..n as u64);
                                let mut v = BitVector::<B>::new();
                                for i in 0..s.block_len() {
                                    v.push_block(s.get_block(i))
                                }
                                v.truncate(t as u64);
                                v
                            },
                            e,
                        )?;
                    }
                }
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ integer vectors

#[derive(Clone, Debug)]
enum Iop {
    Push(u128),
    PushBad(u128),
    Pop,
    Set(usize, u128),
    SetBad(usize, u128),
    SetBits(usize, usize, u128),
    SetBlock(usize, u128),
    SetRandom(usize, usize, usize, u128),
    Truncate(usize),
    Resize(usize, u128),
    WithFill(usize, u128),
    Clear,
    Shrink,
    CloneFrom(usize),
}

fn imade<B: Wide>(k: usize, m: &[bool]) -> IntVector<B> {
    let mut v = IntVector::new(k);
    for i in 0..m.len() / k {
        v.push(B::of(fld(m, i * k, k)))
    }
    v
}
fn iapply<B: Wide>(k: usize, v: &mut IntVector<B>, m: &mut Vec<bool>, op: &Iop) {
    use Iop::*;
    let w = B::W;
    let put = |m: &mut Vec<bool>, x: u128| m.extend((0..k).map(|i| x >> i & 1 == 1));
    match *op {
        Push(x) => {
            v.push(B::of(x));
            put(m, x)
        }
        PushBad(x) => assert!(guard(|| v.push(B::of(x))).is_err(), "push of a value that does not fit was accepted"),
        SetBad(i, x) => assert!(guard(|| v.set(i as u64, B::of(x))).is_err(), "set to a value that does not fit was accepted"),
        Pop => {
            let e = if m.is_empty() { None } else { Some(fld(m, m.len() - k, k)) };
            assert_eq!(v.pop().map(|x| x.u()), e, "pop");
            let n = m.len().saturating_sub(k);
            m.truncate(n)
        }
        Set(i, x) => {
            v.set(i as u64, B::of(x));
            setf(m, i * k, k, x)
        }
        SetBits(s, c, x) => {
            v.set_bits(s as u64, c, B::of(x));
            setf(m, s, c, x)
        }
        SetBlock(i, x) => {
            v.set_block(i, B::of(x));
            let c = w.min(m.len() - i * w);
            setf(m, i * w, c, x)
        }
        SetRandom(off, c, i, x) => {
            v.set_random(off as u64, c, i as u64, B::of(x));
            setf(m, off + i * c, c, x)
        }
        Truncate(n) => {
            v.truncate(n as u64);
            m.truncate(n * k)
        }
        Resize(n, x) => {
            v.resize(n as u64, B::of(x));
            m.truncate(n * k);
            while m.len() < n * k {
                put(m, x)
            }
        }
        WithFill(n, x) => {
            *v = IntVector::with_fill(k, n as u64, B::of(x));
            m.clear();
            while m.len() < n * k {
                put(m, x)
            }
        }
        Clear => {
            v.clear();
            m.clear()
        }
        Shrink => v.shrink_to_fit(),
        CloneFrom(n) => {
            let t: Vec<bool> = (0..n * k).map(|i| mix(i as u64) & 1 == 1).collect();
            v.clone_from(&imade::<B>(k, &t));
            *m = t
        }
    }
}
fn kvals(k: usize) -> Vec<u128> {
    let mut v = vec![msk(k), 0, mix2(3) & msk(k), 1 << (k - 1)];
    v.dedup();
    v
}
fn iops(w: usize, k: usize, n: usize, few: bool) -> Vec<Iop> {
    use Iop::*;
    let bits = n * k;
    let mut o = vec![Pop, Clear, Shrink];
    let vs = if few { kvals(k)[..1].to_vec() } else { kvals(k) };
    let edge = |i: usize| i < 2 || i + 2 >= n || (i * k) % w < k || (i * k + k) % w < k;
    for &x in &vs {
        o.push(Push(x));
        for i in 0..n {
            if edge(i) {
                o.push(Set(i, x));
            }
        }
        for j in [0, 1, n / 2, n.saturating_sub(1), n + 1, n + 2 * w / k + 1] {
            o.push(Resize(j, x));
            if !few {
                o.push(WithFill(j, x));
            }
        }
    }
    for x in vals(w) {
        for i in 0..(bits + w - 1) / w {
            o.push(SetBlock(i, x));
        }
        if few {
            break;
        }
        for &s in &marks(w, bits) {
            for c in [1, k, w / 2, w - 1, w] {
                if s + c <= bits {
                    o.push(SetBits(s, c, x));
                }
            }
        }
        for c in [1, k, w / 2 + 1, w - 1, w] {
            for off in 0..3 {
                for i in [0, 1, (bits / c).saturating_sub(2)] {
                    if off + (i + 1) * c <= bits {
                        o.push(SetRandom(off, c, i, x & msk(c)));
                    }
                }
            }
        }
    }
    if k < w {
        o.push(PushBad(1 << k));
        o.push(PushBad(msk(w)));
        if n > 0 {
            o.push(SetBad(n - 1, 1 << k));
            o.push(SetBad(0, 1 << (w - 1)));
        }
    }
    for j in [0, 1, n / 2, n.saturating_sub(1), n + 1] {
        o.push(Truncate(j));
        if !few {
            o.push(CloneFrom(j));
        }
    }
    o
}
fn iread<B: Wide>(k: usize, v: &IntVector<B>, m: &[bool], full: bool) -> Result<(), String> {
    let n = m.len() / k;
    same!("len", v.len(), n as u64);
    same!("is_empty", v.is_empty(), n == 0);
    same!("element_bits", v.element_bits(), k);
    same!("is_block_sized", v.is_block_sized(), k == B::W);
    same!("is_aligned", v.is_aligned(), B::W % k == 0);
    let want: Vec<u128> = (0..n).map(|i| fld(m, i * k, k)).collect();
    for i in 0..n {
        same!(format!("get({})", i), v.get(i as u64).u(), want[i]);
    }
    same!("iterated elements", v.iter().map(|x| x.u()).collect::<Vec<_>>(), want);
    if full {
        rd(v, m)?;
        for c in [1, k, B::W / 2 + 1, B::W - 1, B::W] {
            for off in 0..3 {
                for i in 0..=m.len() / c {
                    if off + (i + 1) * c <= m.len() {
                        same!(format!("get_random({}, {}, {})", off, c, i), v.get_random(off as u64, c, i as u64).u(), fld(m, off + i * c, c));
                    }
                }
            }
        }
    } else {
        rd_few(v, m)?
    }
    Ok(())
}
fn int_vectors<B: Wide>(m: &mut Main) {
    let w = B::W;
    let mut ks: Vec<usize> = if w <= 8 { (1..=w).collect() } else { vec![1, 2, 3, 5, w / 2 - 1, w / 2, w / 2 + 1, w - 1, w] };
    if w == 128 {
        ks.extend([63, 65, 100]);
        ks.sort();
        ks.dedup();
    }
    for k in ks {
        m.job(format!("int vector {} width {}", B::NAME, k), move |wk| {
            let mut ns: Vec<usize> = [0, 1, w / k, w / k + 1, 2 * w / k, 2 * w / k + 1, 3 * w / k + 1].to_vec();
            ns.dedup();
            for n in ns {
                for kind in [3, 1] {
                    let m0 = pattern(kind, n * k);
                    let v0 = imade::<B>(k, &m0);
                    wk.state();
                    for (j, op) in iops(w, k, n, false).iter().enumerate() {
                        let (mut v, mut m) = (v0.clone(), m0.clone());
                        wk.step();
                        wk.tick();
                        wk.at(|| format!("IntVector<{}>({}) {:?}; {:?}", B::NAME, k, v0, op));
                        let r = np("operation", || iapply(k, &mut v, &mut m, op))
                            .and_then(|_| np("reading", || iread(k, &v, &m, j % 4 == 0))?)
                            .and_then(|_| np("comparing", || same_value(&v, &imade::<B>(k, &m)))?);
                        if let Err(e) = r {
                            return fail("int-vector", format!("IntVector<{}>({}) {:?}; {:?}\n  {}", B::NAME, k, v0, op, e));
                        }
                        wk.traces += 1;
                        if j % 5 == 0 || wk.thorough {
                            for op2 in iops(w, k, m.len() / k, true) {
                                let (mut v, mut m) = (v.clone(), m.clone());
                                wk.step();
                                let r = np("operation", || iapply(k, &mut v, &mut m, &op2)).and_then(|_| np("reading", || iread(k, &v, &m, false))?);
                                if let Err(e) = r {
                                    return fail("int-vector", format!("IntVector<{}>({}) {:?}; {:?}; {:?}\n  {}", B::NAME, k, v0, op, op2, e));
                                }
                            }
                        }
                    }
                }
            }
            for k in [0, w + 1, usize::MAX] {
                chk!(guard(|| IntVector::<B>::new(k)).is_err(), "int-vector", "IntVector::<{}>::new({}) was accepted", B::NAME, k);
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ minimal stores over such blocks

/// only `bit_len`, `get_bit`, `set_bit`, `push_bit`, `pop_bit`
struct ByBit<B>(Vec<bool>, std::marker::PhantomData<B>);
impl<B: Wide> BitVec for ByBit<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.0.len() as u64
    }
    fn get_bit(&self, i: u64) -> bool {
        self.0[i as usize]
    }
}
impl<B: Wide> BitVecMut for ByBit<B> {
    fn set_bit(&mut self, i: u64, v: bool) {
        self.0[i as usize] = v
    }
}
impl<B: Wide> BitVecPush for ByBit<B> {
    fn push_bit(&mut self, v: bool) {
        self.0.push(v)
    }
    fn pop_bit(&mut self) -> Option<bool> {
        self.0.pop()
    }
}
/// only `bit_len`, `get_block`, `set_block`; ones in the unused bits
struct ByBlock<B>(Vec<B>, usize);
impl<B: Wide> BitVec for ByBlock<B> {
    type Block = B;
    fn bit_len(&self) -> u64 {
        self.1 as u64
    }
    fn get_block(&self, i: usize) -> B {
        self.0[i]
    }
}
impl<B: Wide> BitVecMut for ByBlock<B> {
    fn set_block(&mut self, i: usize, v: B) {
        self.0[i] = v
    }
}
fn by_bit<B: Wide>(m: &[bool]) -> ByBit<B> {
    ByBit(m.to_vec(), std::marker::PhantomData)
}
fn by_block<B: Wide>(m: &[bool]) -> ByBlock<B> {
    let n = (m.len() + B::W - 1) / B::W;
    ByBlock(
        (0..n)
            .map(|i| {
                let c = B::W.min(m.len() - i * B::W);
                B::of(fld(m, i * B::W, c) | !msk(c))
            })
            .collect(),
        m.len(),
    )
}

/// One write, then everything is read.
fn write<V: BitVecMut>(v: &mut V, m: &mut Vec<bool>, op: &Op) -> Result<bool, String>
where
    V::Block: Wide,
{
    let w = V::Block::W;
    match *op {
        Op::Set(i, b) => {
            v.set_bit(i as u64, b);
            m[i] = b
        }
        Op::SetBits(s, c, x) => {
            v.set_bits(s as u64, c, V::Block::of(x));
            setf(m, s, c, x)
        }
        Op::SetBlock(i, x) => {
            v.set_block(i, V::Block::of(x));
            let c = w.min(m.len() - i * w);
            setf(m, i * w, c, x)
        }
        Op::Window(s, e, p, c, x) => {
            BitSliceMut::<V>::new(v, s as u64..e as u64).set_bits(p as u64, c, V::Block::of(x));
            setf(m, s + p, c, x)
        }
        Op::WindowBlock(s, e, i, x) => {
            BitSliceMut::<V>::new(v, s as u64..e as u64).set_block(i, V::Block::of(x));
            let c = w.min(e - s - i * w);
            setf(m, s + i * w, c, x)
        }
        _ => return Ok(false),
    }
    rd_few(v, m)?;
    Ok(true)
}
fn store<V: BitVecMut>(wk: &mut W, name: &str, m0: &[bool], mk: impl Fn(&[bool]) -> V) -> R
where
    V::Block: Wide,
{
    let what = || format!("{} over {} holding {}", name, V::Block::NAME, bitstr(m0));
    wk.at(&what);
    wk.state();
    let bad = |e: String| Fail { key: "store".into(), what: format!("{}: {}", what(), e) };
    np("reading", || rd(&mk(m0), m0)).and_then(|r| r).map_err(bad)?;
    if m0.len() > 2 {
        let n = m0.len();
        np("reading", || rd(&BitSlice::new(&mk(m0), 1..n as u64 - 1), &m0[1..n - 1])).and_then(|r| r).map_err(|e| bad(format!("window 1..{}: {}", n - 1, e)))?;
    }
    np("rank", || ranks(&JacobsonRank::new(mk(m0)), m0)).and_then(|r| r).map_err(bad)?;
    for op in bops::<V::Block>(m0.len(), false) {
        if matches!(op, Op::Push(_) | Op::Pop) {
            continue;
        }
        let (mut v, mut m) = (mk(m0), m0.to_vec());
        match np("operation", || write(&mut v, &mut m, &op)).and_then(|r| r) {
            Ok(done) => (0..done as u32).for_each(|_| wk.step()),
            Err(e) => return Err(bad(format!("{:?}: {}", op, e))),
        }
    }
    wk.traces += 1;
    Ok(())
}
fn stores<B: Wide>(wk: &mut W, m: &[bool]) -> R {
    store(wk, "minimal store by bit", m, |m| by_bit::<B>(m))?;
    store(wk, "minimal store by block", m, |m| by_block::<B>(m))?;
    // provided push methods
    for x in vals(B::W) {
        for align in [None, Some(true), Some(false)] {
            let (mut v, mut e) = (by_bit::<B>(m), m.to_vec());
            let r = np("push_block", || {
                if let Some(b) = align {
                    v.align_block(b);
                    while e.len() % B::W != 0 {
                        e.push(b)
                    }
                }
                v.push_block(B::of(x));
                while e.len() % B::W != 0 {
                    e.push(false)
                }
                e.extend((0..B::W).map(|i| x >> i & 1 == 1));
                rd_few(&v, &e)
            });
            wk.step();
            r.and_then(|r| r).map_err(|e| Fail { key: "store".into(), what: format!("minimal store by bit over {} holding {}: align_block({:?}), push_block({:#x}): {}", B::NAME, bitstr(m), align, x, e) })?
        }
    }
    // buffers and wrappers hand writes and reads through
    let n = m.len();
    let r = np("wrappers", || -> Result<(), String> {
        let mut b = BitBuffer::from(by_block::<B>(m));
        rd(&b, m)?;
        let mut e = m.to_vec();
        if n > 0 {
            b.set_bits(n as u64 / 2, (n - n / 2).min(B::W), B::of(mix2(5)));
            setf(&mut e, n / 2, (n - n / 2).min(B::W), mix2(5));
            b.set_block(0, B::of(mix2(6)));
            setf(&mut e, 0, n.min(B::W), mix2(6));
        }
        rd_few(&b, &e)?;
        rd(&JacobsonRank::new(by_bit::<B>(m)), m)
    });
    r.and_then(|r| r).map_err(|e| Fail { key: "store".into(), what: format!("bit buffer or rank structure on a minimal store over {} holding {}: {}", B::NAME, bitstr(m), e) })
}

// ------------------------------------------------------------------ everything on top

fn views<B: Wide>(wk: &mut W, m: &[bool]) -> R {
    let v = made::<B>(m);
    let n = m.len();
    let what = format!("BitVector<{}> {}", B::NAME, bitstr(m));
    wk.at(|| what.clone());
    let bad = |e: String| Fail { key: "views".into(), what: format!("{}: {}", what, e) };
    // slices
    let at = marks(B::W, n);
    for (a, &s) in at.iter().enumerate() {
        for &e in &at[a..] {
            wk.state();
            let r = np("slice", || -> Result<(), String> {
                let t = BitSlice::new(&v, s as u64..e as u64);
                rd_few(&t, &m[s..e])?;
                if (s + e) % 3 == 0 {
                    rd(&t, &m[s..e])?
                }
                if e - s >= 2 {
                    rd_few(&t.slice(1..(e - s) as u64), &m[s + 1..e])?
                }
                Ok(())
            });
            r.and_then(|r| r).map_err(|x| bad(format!("window {}..{}: {}", s, e, x)))?;
        }
    }
    // block arrays, rank and select over them
    let full = n / B::W * B::W;
    let blocks: Vec<B> = (0..full / B::W).map(|i| B::of(fld(m, i * B::W, B::W))).collect();
    let r = np("block array", || -> Result<(), String> {
        rd(&blocks, &m[..full])?;
        rd(&blocks[..], &m[..full])
    });
    r.and_then(|r| r).map_err(|x| bad(format!("its whole blocks as an array: {}", x)))?;
    let r = np("rank", || -> Result<(), String> {
        ranks(&JacobsonRank::new(v.clone()), m)?;
        ranks(&JacobsonRank::new(&blocks[..]), &m[..full])?;
        if n > 3 {
            let s = BitSlice::new(&v, 3..n as u64);
            ranks(&JacobsonRank::new(s), &m[3..])?
        }
        let s = BinSearchSelect::new(JacobsonRank::new(v.clone()));
        rd_few(&s, m)?;
        for b in [false, true] {
            let at: Vec<u64> = (0..n as u64).filter(|&i| m[i as usize] == b).collect();
            for j in 0..at.len() + 2 {
                let g = if b { s.select1(j as u64) } else { s.select0(j as u64) };
                if g != at.get(j).cloned() {
                    return Err(format!("select of {} at {}: got {:?}, expected {:?}", b, j, g, at.get(j)));
                }
            }
        }
        Ok(())
    });
    r.and_then(|r| r).map_err(bad)?;
    wk.traces += 1;
    // text, space
    let (text, want) = (format!("{:b}", v), bitstr(m));
    chk!(text == want, "views", "{}: shown as {:?}, expected {:?}", what, text, want);
    let before = live_bytes();
    let mut c = v.clone();
    c.reserve(100);
    let owned = live_bytes() - before;
    chk!(c.heap_bytes() as i64 == owned, "views", "{}: heap_bytes() = {}, owns {}", what, c.heap_bytes(), owned);
    Ok(())
}
fn ranks<S: BitRankSupport>(s: &S, m: &[bool]) -> Result<(), String> {
    same!("limit", s.limit(), m.len() as u64);
    let mut ones = 0;
    for p in 0..m.len() as u64 {
        ones += m[p as usize] as u64;
        let g = (s.rank1(p), s.rank0(p), s.rank(p, true), s.rank(p, false));
        let e = (ones, p + 1 - ones, ones, p + 1 - ones);
        if g != e {
            return Err(format!("(rank1, rank0, rank(true), rank(false)) at {} of {}: got {:?}, expected {:?}", p, m.len(), g, e));
        }
    }
    for p in [m.len() as u64, m.len() as u64 + 1, u64::MAX] {
        if guard(|| s.rank1(p)).is_ok() {
            return Err(format!("rank1({}) of {} bits was answered", p, m.len()));
        }
    }
    Ok(())
}

/// Integers of the user's own type on the streams, tapes and codes over its blocks.
fn tapes<B: Wide>(wk: &mut W) -> R {
    for place in marks(B::W, 2 * B::W + 1) {
        for n in 0..=B::W {
            if B::W > 16 && !(n < 3 || n + 2 > B::W || n % 11 == 0 || (62..67).contains(&n)) {
                continue;
            }
            for x in vals(B::W) {
                for be in [false, true] {
                    wk.state();
                    wk.step();
                    wk.tick();
                    let m0 = pattern(3, place);
                    let mut bits: Vec<bool> = (0..n).map(|i| x >> i & 1 == 1).collect();
                    if be {
                        bits.reverse()
                    }
                    let mut all = m0.clone();
                    all.extend(&bits);
                    let r = np("stream", || -> Result<(), String> {
                        let mut t = BitBuffer::append(made::<B>(&m0));
                        let mut q: VecDeque<bool> = VecDeque::new();
                        if be {
                            t.write_int_be(n, B::of(x)).unwrap();
                            q.write_int_be(n, B::of(x)).unwrap();
                        } else {
                            t.write_int(n, B::of(x)).unwrap();
                            q.write_int(n, B::of(x)).unwrap();
                        }
                        same!("written to a queue", q.iter().cloned().collect::<Vec<_>>(), bits);
                        same!("position", t.position(), all.len() as u64);
                        rd_few(t.inner(), &all)?;
                        t.seek(place as u64).unwrap();
                        let (g, h): (Option<B>, Option<B>) = if be { (t.read_int_be(n).unwrap(), q.read_int_be(n).unwrap()) } else { (t.read_int(n).unwrap(), q.read_int(n).unwrap()) };
                        same!("read back", g.map(|x| x.u()), Some(x & msk(n)));
                        same!("read from the queue", h.map(|x| x.u()), Some(x & msk(n)));
                        same!("then", t.read_bit().unwrap(), None);
                        if place > 0 {
                            t.seek(place as u64 - 1).unwrap();
                            t.write_bit(!all[place - 1]).unwrap();
                            let mut c = all.clone();
                            c[place - 1] = !c[place - 1];
                            rd_few(&t.into_inner(), &c)?
                        }
                        Ok(())
                    });
                    if let Err(e) = r.and_then(|r| r) {
                        return fail("stream", format!("BitBuffer over BitVector<{}> of {} bits: {} bits of {:#x}{}: {}", B::NAME, place, n, x, if be { ", most significant first" } else { "" }, e));
                    }
                }
            }
        }
        codes::<B, _>(wk, place, "Unary", &Unary, 0, 300)?;
        codes::<B, _>(wk, place, "Gamma", &GAMMA, 1, u64::MAX)?;
        codes::<B, _>(wk, place, "Delta", &DELTA, 1, u64::MAX)?;
        codes::<B, _>(wk, place, "Omega", &Omega, 1, u64::MAX)?;
        codes::<B, _>(wk, place, "Fibonacci", &Fibonacci, 1, 1 << 62)?;
        codes::<B, _>(wk, place, "Comma(3)", &Comma(3), 0, u64::MAX)?;
        codes::<B, _>(wk, place, "Lift0(Delta)", &Lift0(DELTA), 0, u64::MAX - 1)?;
    }
    Ok(())
}
fn codes<B: Wide, C: UniversalCode>(wk: &mut W, place: usize, name: &str, code: &C, lo: u64, hi: u64) -> R {
    let vs: Vec<u64> = (0..64).flat_map(|k| [1u64 << k, (1 << k) - 1, mix(k) >> (63 - k)]).chain([u64::MAX, hi]).filter(|&v| v >= lo && v <= hi).collect();
    let r = np(name, || -> Result<(), String> {
        let m0 = pattern(3, place);
        let mut t = BitBuffer::append(made::<B>(&m0));
        let mut q: VecDeque<bool> = VecDeque::new();
        for &v in &vs {
            code.encode(&mut t, v).unwrap();
            code.encode(&mut q, v).unwrap();
            wk.step();
        }
        let mut all = m0;
        all.extend(&q);
        rd_few(t.inner(), &all)?;
        t.seek(place as u64).unwrap();
        for &v in &vs {
            same!("decoded", code.decode(&mut t).unwrap(), Some(v));
        }
        same!("then", code.decode(&mut t).unwrap(), None);
        Ok(())
    });
    r.and_then(|r| r).map_err(|e| Fail { key: "codes".into(), what: format!("{} on a BitBuffer over BitVector<{}> from {}: {}", name, B::NAME, place, e) })
}

fn user<B: Wide>(m: &mut Main) {
    for s in 0..8 {
        m.job(format!("provided {} {}", B::NAME, s), move |w| words::<B>(w, s, 8));
    }
    bit_vectors::<B>(m);
    residues::<B>(m);
    int_vectors::<B>(m);
    let top = m.pick(6, 40);
    for s in 0..8 {
        m.job(format!("views {} {}", B::NAME, s), move |w| {
            let mut lens: Vec<usize> = (0..=2 * B::W + 2).collect();
            lens.extend(marks(B::W, 5 * B::W));
            for k in 3..top {
                lens.extend([k * B::W - 1, k * B::W, k * B::W + 1, 11 * k * B::W + k]);
            }
            for &n in lens.iter().skip(s).step_by(8) {
                for kind in if n > 600 { vec![3] } else { vec![1, 3, 4, 0] } {
                    views::<B>(w, &pattern(kind, n))?
                }
            }
            Ok(())
        });
    }
    for n in marks(B::W, 3 * B::W + 1) {
        m.job(format!("stores {} of {}", B::NAME, n), move |w| {
            for kind in [3, 1, 0] {
                stores::<B>(w, &pattern(kind, n))?
            }
            Ok(())
        });
    }
    m.job(format!("streams {}", B::NAME), |w| tapes::<B>(w));
    m.job(format!("text {}", B::NAME), |w| {
        w.state();
        for k in [1, 3, B::W / 2, B::W] {
            let mut v = IntVector::<B>::new(k);
            let xs: Vec<u128> = (0..20).map(|i| mix2(i) & msk(k)).collect();
            let mut plain = format!("{:?}", IntVector::<u8>::new(k.min(8)));
            for &x in &xs {
                v.push(B::of(x))
            }
            // as the built-in type of the same contents where there is one
            if k <= 64 {
                let mut t = IntVector::<u64>::new(k);
                for &x in &xs {
                    t.push(x as u64)
                }
                plain = format!("{:?}", t);
                chk!(format!("{:?}", v) == plain, "text", "IntVector<{}>({}) of {:?} is shown as {:?}", B::NAME, k, xs, v);
            }
            let _ = plain;
            let before = live_bytes();
            let c = v.clone();
            chk!(c.heap_bytes() as i64 == live_bytes() - before, "text", "IntVector<{}>({}): heap_bytes() = {}", B::NAME, k, c.heap_bytes());
        }
        chk!(B::zero().count_ones() == 0, "text", "HARNESS: zero");
        Ok(())
    });
}

fn main() {
    let mut m = Main::new("C30");
    m.rule("state = one object over a user-made block type in one state; transition = one operation run on it and on a Vec<bool> or a list; the types are newtypes over u8, u16, u64 and u128 that implement only the required methods");
    user::<N8>(&mut m);
    user::<N16>(&mut m);
    user::<N64>(&mut m);
    user::<N128>(&mut m);
    m.bound("every provided method of BlockType on every word of the 8- and 16-bit types and on about 2^15 words of the 64- and 128-bit ones; indices within 70 of every power of two to 2^64");
    m.bound("bit vectors of up to 13 lengths around the first three block boundaries x 3 contents: every operation of a full alphabet (including writes through windows), then a second from a smaller one; integer vectors of every width (8-bit blocks) or about 12 widths (others) likewise");
    m.bound("minimal user stores (by bit; by block with ones in the unused bits) over such blocks: every write, every view, windows, rank, buffers, provided push methods");
    m.bound("slices, block arrays, Jacobson rank, binary-search select, text and space for every length to two blocks and around later boundaries; integers of the user's type and seven codes on tapes over its blocks");
    // the complete searches of C01 and C02 with a user's type
    let deep = m.pick(9, 11);
    m.job("fixpoint N8", move |w| {
        let ex = bfs(w, "bit-vector", vec![BvSys::<N8>::start(vec![], deep, 2)], 1000)?;
        assert!(ex || w.stopped(), "HARNESS: search not exhausted");
        Ok(())
    });
    for k in [1, 3, 5, 8] {
        let maxn = m.pick(9, 11) / k;
        m.job(format!("fixpoint N8 width {}", k), move |w| {
            let ex = bfs(w, "int-vector", vec![IvSys::<N8>::start(k, vec![], maxn, 2)], 1000)?;
            assert!(ex || w.stopped(), "HARNESS: search not exhausted");
            Ok(())
        });
    }
    m.bound(format!("BitVector<N8> and IntVector<N8>: every operation from every reachable state of at most {} bits, to fixpoint", deep));
    m.run()
}
