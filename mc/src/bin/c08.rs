//! C08: bit, multi-bit and block views agree, for every implementation.
#[macro_use]
extern crate succinct;
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::stream::BitBuffer;
use succinct::{BinSearchSelect, BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVector, JacobsonRank, Rank9};

fn views<V: BitVec + ?Sized>(wk: &mut W, what: &dyn Fn() -> String, v: &V, m: &[bool]) -> R
where
    V::Block: Blk,
{
    wk.transitions += (m.len() * 4) as u64;
    let r = np("read", || {
        agree_bits(v, m, V::Block::W <= 16)?;
        if V::Block::W > 16 {
            agree_spans(v, m)?;
        }
        Ok(())
    })
    .and_then(|r| r);
    match r {
        Ok(()) => Ok(()),
        Err(e) => fail("views", format!("{} holding {}: {}", what(), bitstr(m), e)),
    }
}

#[derive(Clone, Copy, Debug)]
enum Wr {
    Bit(usize, bool),
    Bits(usize, usize, u64),
    Block(usize, u64),
}
use self::Wr::*;

fn write<V: BitVecMut + ?Sized>(v: &mut V, o: Wr)
where
    V::Block: Blk,
{
    match o {
        Bit(i, b) => v.set_bit(i as u64, b),
        Bits(s, c, x) => v.set_bits(s as u64, c, V::Block::of(x)),
        Block(i, x) => v.set_block(i, V::Block::of(x)),
    }
}
fn wmodel(m: &mut [bool], w: usize, o: Wr) {
    match o {
        Bit(i, b) => m[i] = b,
        Bits(s, c, x) => set_field(m, s, c, x),
        Block(i, x) => {
            let n = w.min(m.len() - i * w);
            set_field(m, i * w, n, x)
        }
    }
}

/// All writes that can be made: every bit, every (interesting) span, every block, with complementary and other values.
fn all_writes(m: &[bool], w: usize, full: bool) -> Vec<Wr> {
    let n = m.len();
    let mut v = vec![];
    for i in 0..n {
        v.push(Bit(i, !m[i]));
    }
    for s in 0..=n {
        for c in 0..=w.min(n - s) {
            if full || c < 2 || c == w || s + c == n || (s + c) % w < 2 {
                v.push(Bits(s, c, !field(m, s, c) & mask(w)));
                if full {
                    v.push(Bits(s, c, mix((s * 64 + c) as u64) & mask(w)));
                }
            }
        }
    }
    for b in 0..(n + w - 1) / w {
        let c = w.min(n - b * w);
        v.extend([Block(b, !field(m, b * w, c) & mask(w)), Block(b, mask(w)), Block(b, 0), Block(b, mix(b as u64) & mask(w))]);
    }
    v
}

fn go<V: BitVecMut + ?Sized>(v: &mut V, m: &mut Vec<bool>, o: Wr, wk: &mut W, what: &dyn Fn() -> String) -> R
where
    V::Block: Blk,
{
    wk.step();
    let before = m.clone();
    ok!(write(v, o), "write", "{} holding {}: {:?}", what(), bitstr(&before), o);
    wmodel(m, V::Block::W, o);
    views(wk, &|| format!("{} (was {}, then {:?})", what(), bitstr(&before), o), v, m)
}

fn store<S>(m: &mut Main, label: &str, lens: Vec<usize>)
where
    S: Store + 'static,
    S::Block: Blk,
{
    let w = S::Block::W;
    let thorough = m.thorough;
    for n in lens {
        let nvar = S::variants(&pattern(8, n)).len();
        if nvar == 0 {
            continue;
        }
        m.job(format!("{} n={}", label, n), move |wk| {
            let all: Vec<Vec<bool>> =
                if n <= if thorough { 10 } else { 8 } { (0..1u64 << n).map(|x| word_bits(x, n)).collect() } else { (0..=NPAT).map(|k| pattern(k, n)).collect() };
            for bits in all {
                for (name, base) in S::variants(&bits) {
                    wk.state();
                    wk.traces += 1;
                    let nm = || name.clone();
                    views(wk, &nm, &base, &bits)?;
                    let full = w <= 8 && n <= 20;
                    for o in all_writes(&bits, w, full) {
                        let mut s = base.clone();
                        let mut b = bits.clone();
                        go(&mut s, &mut b, o, wk, &nm)?;
                    }
                    // all writes one after another on one object
                    let mut s = base.clone();
                    let mut b = bits.clone();
                    for o in all_writes(&bits, w, full) {
                        go(&mut s, &mut b, o, wk, &nm)?;
                    }
                    // two writes
                    if n <= 3 || (thorough && n <= 6) || (n == w + 1 && w <= 8) {
                        for o in all_writes(&bits, w, false) {
                            let mut b1 = bits.clone();
                            wmodel(&mut b1, w, o);
                            for o2 in all_writes(&b1, w, false) {
                                let mut s = base.clone();
                                let mut b = bits.clone();
                                go(&mut s, &mut b, o, wk, &nm)?;
                                go(&mut s, &mut b, o2, wk, &nm)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// A user wrapper made with the exported macro.
struct Wrapped<V> {
    inner: V,
}
impl<V: BitVec> BitVec for Wrapped<V> {
    impl_bit_vec_adapter!(V::Block, inner);
}

/// Wrappers and slices over a store, read-only.
fn wrappers<S>(m: &mut Main, label: &str, lens: Vec<usize>)
where
    S: Store + 'static,
    S::Block: Blk,
{
    for n in lens {
        if S::variants(&pattern(8, n)).is_empty() {
            continue;
        }
        m.job(format!("wrappers over {} n={}", label, n), move |wk| {
            for k in 0..=NPAT {
                let bits = pattern(k, n);
                for (name, base) in S::variants(&bits) {
                    wk.state();
                    let w = S::Block::W;
                    views(wk, &|| format!("adapter over {}", name), &Wrapped { inner: base.clone() }, &bits)?;
                    views(wk, &|| format!("adapter over adapter over {}", name), &Wrapped { inner: Wrapped { inner: base.clone() } }, &bits)?;
                    views(wk, &|| format!("BitBuffer over {}", name), &BitBuffer::from(base.clone()), &bits)?;
                    // building rank structures is C11's and C12's business
                    if let Ok(j) = guard(|| JacobsonRank::new(base.clone())) {
                        views(wk, &|| format!("JacobsonRank over {}", name), &j, &bits)?;
                        let b = BinSearchSelect::new(j);
                        views(wk, &|| format!("BinSearchSelect over JacobsonRank over {}", name), &b, &bits)?;
                        views(wk, &|| format!("slice of BinSearchSelect over {}", name), &BitSlice::new(&b, ..), &bits)?;
                        if let Ok(j) = guard(|| JacobsonRank::new(b)) {
                            views(wk, &|| format!("JacobsonRank over BinSearchSelect over {}", name), &j, &bits)?;
                        }
                    }
                    for (s, e) in [(0, n), (1.min(n), n), (n / 3, n - n / 4), (w.min(n), n), (0, n.saturating_sub(1)), (n, n)] {
                        let (su, eu) = (s as u64, e as u64);
                        views(wk, &|| format!("slice {}..{} of {}", s, e, name), &BitSlice::new(&base, su..eu), &bits[s..e])?;
                        let mut b = base.clone();
                        let mut sm = BitSliceMut::new(&mut b, su..eu);
                        let mut cur = bits[s..e].to_vec();
                        views(wk, &|| format!("mutable slice {}..{} of {}", s, e, name), &sm, &cur)?;
                        for o in all_writes(&cur.clone(), w, false) {
                            go(&mut sm, &mut cur, o, wk, &|| format!("mutable slice {}..{} of {}", s, e, name))?;
                        }
                        // a wrapper around a slice
                        let sl = BitSlice::new(&base, su..eu);
                        if let Ok(j) = guard(|| JacobsonRank::new(sl)) {
                            views(wk, &|| format!("JacobsonRank over slice {}..{} of {}", s, e, name), &j, &bits[s..e])?;
                        }
                    }
                    wk.traces += 1;
                }
            }
            Ok(())
        });
    }
}
fn rank9s<S>(m: &mut Main, label: &str, lens: Vec<usize>)
where
    S: Store<Block = u64> + 'static,
{
    for n in lens {
        m.job(format!("Rank9 over {} n={}", label, n), move |wk| {
            for k in 0..=NPAT {
                let bits = pattern(k, n);
                for (name, base) in S::variants(&bits) {
                    wk.state();
                    if let Ok(r) = guard(|| Rank9::new(base.clone())) {
                        views(wk, &|| format!("Rank9 over {}", name), &r, &bits)?;
                        views(wk, &|| format!("BinSearchSelect over Rank9 over {}", name), &BinSearchSelect::new(r), &bits)?;
                    }
                    let sl = BitSlice::new(&base, n as u64 / 3..);
                    if let Ok(r) = guard(|| Rank9::new(sl)) {
                        views(wk, &|| format!("Rank9 over slice of {}", name), &r, &bits[n / 3..])?;
                    }
                    wk.traces += 1;
                }
            }
            Ok(())
        });
    }
}

/// Growth through the push interface, including its default block operations.
#[derive(Clone, Copy, Debug)]
enum P {
    Push(bool),
    Pop,
    PushBlock(u64),
    Align(bool),
    Set(Wr),
}
fn pushes<S>(m: &mut Main, label: &str)
where
    S: Store + BitVecPush + 'static,
    S::Block: Blk,
{
    let w = S::Block::W;
    let depth = m.pick(4, 5);
    for n in [0, 1, w - 1, w, w + 1] {
        m.job(format!("push {} n={}", label, n), move |wk| {
            let irr = mix(3) & mask(w);
            let ops = [
                P::Push(true),
                P::Push(false),
                P::Pop,
                P::PushBlock(irr),
                P::PushBlock(mask(w)),
                P::Align(true),
                P::Align(false),
                P::Set(Bit(0, true)),
                P::Set(Block(0, irr)),
            ];
            let bits = pattern(3, n);
            for (name, base) in S::variants(&bits) {
                let mut idx = vec![0; depth];
                'seq: loop {
                    let mut s = base.clone();
                    let mut b = bits.clone();
                    wk.tick();
                    wk.traces += 1;
                    for d in 0..depth {
                        let o = ops[idx[d]];
                        if let P::Set(_) = o {
                            if b.is_empty() {
                                continue;
                            }
                        }
                        wk.step();
                        let h = || format!("{} from {}: {:?}", name, bitstr(&bits), idx[..=d].iter().map(|&i| ops[i]).collect::<Vec<_>>());
                        match o {
                            P::Push(v) => {
                                ok!(s.push_bit(v), "push", "{}", h());
                                b.push(v)
                            }
                            P::Pop => {
                                let g = ok!(s.pop_bit(), "push", "{}", h());
                                let e = b.pop();
                                chk!(g == e, "push", "{}: popped {:?}, expected {:?}", h(), g, e);
                            }
                            P::PushBlock(x) => {
                                ok!(s.push_block(S::Block::of(x)), "push", "{}", h());
                                while b.len() % w != 0 {
                                    b.push(false)
                                }
                                b.extend(word_bits(x, w))
                            }
                            P::Align(v) => {
                                ok!(s.align_block(v), "push", "{}", h());
                                while b.len() % w != 0 {
                                    b.push(v)
                                }
                            }
                            P::Set(o) => {
                                ok!(write(&mut s, o), "push", "{}", h());
                                wmodel(&mut b, w, o)
                            }
                        }
                        if w <= 8 || d + 1 == depth {
                            wk.state();
                            let r = np("read", || agree_bits(&s, &b, w <= 8)).and_then(|r| r);
                            if let Err(e) = r {
                                return fail("push", format!("{}: {}", h(), e));
                            }
                        }
                    }
                    let mut d = depth;
                    loop {
                        if d == 0 {
                            break 'seq;
                        }
                        d -= 1;
                        idx[d] += 1;
                        if idx[d] < ops.len() {
                            break;
                        }
                        idx[d] = 0;
                    }
                }
            }
            Ok(())
        });
    }
}

/// Unsized and borrowed block arrays.
fn arrays<B: Blk>(m: &mut Main) {
    m.job(format!("arrays {}", B::NAME), |wk| {
        for nb in 0..4 {
            let n = nb * B::W;
            for k in 0..=NPAT {
                let mut bits = pattern(k, n);
                let mut v: Vec<B> = pack(&bits, B::W).into_iter().map(B::of).collect();
                wk.state();
                views(wk, &|| format!("[{}]", B::NAME), &v[..], &bits)?;
                views(wk, &|| format!("&[{}]", B::NAME), &&v[..], &bits)?;
                views(wk, &|| format!("&mut [{}]", B::NAME), &&mut v[..], &bits)?;
                for o in all_writes(&bits.clone(), B::W, B::W == 8) {
                    go(&mut v[..], &mut bits, o, wk, &|| format!("[{}]", B::NAME))?;
                    go(&mut v, &mut bits, o, wk, &|| format!("Vec<{}>", B::NAME))?;
                }
                for o in all_writes(&bits.clone(), B::W, B::W == 8) {
                    let mut s = &mut v[..];
                    go(&mut s, &mut bits, o, wk, &|| format!("&mut [{}]", B::NAME))?;
                }
                wk.traces += 1;
            }
        }
        Ok(())
    });
}

/// Integer vectors: the element view agrees with the bit view after any kind of write.
fn elements<B: Blk>(m: &mut Main) {
    let ks: Vec<usize> = if B::W == 8 { (1..=8).collect() } else { vec![1, 3, 5, B::W / 2, B::W / 2 + 1, B::W - 1, B::W] };
    for k in ks {
        m.job(format!("elements {} k={}", B::NAME, k), move |wk| {
            for n in [1, 2, B::W / k + 1, 2 * B::W / k + 1] {
                let mut bits = pattern(3, n * k);
                let mut v = iv_from::<B>(k, &bits);
                wk.state();
                for o in all_writes(&bits.clone(), B::W, B::W == 8) {
                    go(&mut v, &mut bits, o, wk, &|| format!("IntVector<{}>({})", B::NAME, k))?;
                    for i in 0..n {
                        let g = v.get(i as u64).u();
                        let e = field(&bits, i * k, k);
                        chk!(g == e, "elements", "IntVector<{}>({}) after {:?}: get({}) = {}, expected {}", B::NAME, k, o, i, g, e);
                    }
                }
            }
            Ok(())
        });
    }
}

/// Long contents: every view at the marked places, writes of every kind there, and everything else untouched.
fn long<S>(m: &mut Main, label: &str, blocks: &[usize])
where
    S: Store + 'static,
    S::Block: Blk,
{
    let w = S::Block::W;
    for &nb in blocks {
        m.job(format!("long {} {} blocks", label, nb), move |wk| {
            for n in [nb * w, nb * w - w / 2 + 1] {
                let bits = pattern(3, n);
                let mut vs = S::variants(&bits);
                vs.truncate(3);
                let marks = mc::long::marks(w, n);
                for (name, base) in vs {
                    wk.state();
                    let look = |s: &S, b: &[bool], what: &dyn Fn() -> String| -> R {
                        let r = np("read", || -> Result<(), String> {
                            agree_bits(s, b, false)?;
                            for &p in &marks {
                                for c in [0, 1, 2, w / 2, w - 1, w] {
                                    if p + c <= n {
                                        same!(format!("get_bits({}, {})", p, c), s.get_bits(p as u64, c).u(), field(b, p, c));
                                    }
                                }
                            }
                            Ok(())
                        })
                        .and_then(|r| r);
                        match r {
                            Ok(()) => Ok(()),
                            Err(e) => fail("views", format!("{} of {} bits{}: {}", name, n, what(), e)),
                        }
                    };
                    look(&base, &bits, &|| String::new())?;
                    if nb <= 130 {
                        if let Err(e) = np("read", || agree_spans(&base, &bits)).and_then(|r| r) {
                            return fail("views", format!("{} of {} bits: {}", name, n, e));
                        }
                    }
                    let mut s = base.clone();
                    let mut b = bits.clone();
                    let mut done: Vec<Wr> = vec![];
                    for (j, &p) in marks.iter().enumerate() {
                        let mut os = vec![];
                        if p < n {
                            os.push(Bit(p, !b[p]));
                            os.push(Block(p / w, mix(j as u64) & mask(w)));
                        }
                        for c in [w / 2, w - 1, w] {
                            if p + c <= n {
                                os.push(Bits(p, c, !field(&b, p, c) & mask(w)));
                            }
                        }
                        for o in os {
                            wk.step();
                            wk.tick();
                            ok!(write(&mut s, o), "write", "{} of {} bits: {:?}", name, n, o);
                            wmodel(&mut b, w, o);
                            done.push(o);
                            if nb <= 40 || done.len() % 8 == 0 {
                                look(&s, &b, &|| format!(" after {:?}", &done[done.len().saturating_sub(8)..]))?;
                            }
                        }
                    }
                    look(&s, &b, &|| " after all writes".to_string())?;
                    wk.traces += 1;
                }
            }
            Ok(())
        });
    }
}

fn rnd(i: u64) -> bool {
    mix(i) >> 5 & 1 == 1
}
/// User stores of any length up to 2^64-1: every view of every kind of write at marked places.
fn far<B: Blk>(m: &mut Main) {
    let thorough = m.thorough;
    m.job(format!("far stores {}", B::NAME), move |wk| {
        let w = B::W as u64;
        let ls = faraway::lengths(if thorough { 4 } else { 29 });
        for (j, &len) in ls.iter().enumerate() {
            let ps = faraway::places(w, len, thorough || j % 8 == 0);
            let want = || faraway::Want { off: 0, len, f: rnd, over: Default::default(), strict: false };
            let mut m = want();
            let mut v = FarBit::<B>::new(len, rnd);
            for &p in &ps {
                faraway::writes(wk, &|| format!("user store by bit<{}> of {} bits", B::NAME, len), &mut v, &mut m, p)?;
            }
            let mut m = want();
            let mut v = FarBlock::<B>::new(len, rnd);
            for &p in &ps {
                faraway::writes(wk, &|| format!("user store by block<{}> of {} bits", B::NAME, len), &mut v, &mut m, p)?;
            }
            let mut m = want();
            let mut v = BitBuffer::from(FarBlock::<B>::new(len, rnd));
            for &p in &ps {
                faraway::writes(wk, &|| format!("BitBuffer over a user store by block<{}> of {} bits", B::NAME, len), &mut v, &mut m, p)?;
            }
            wk.states += 3;
            wk.traces += 3;
        }
        Ok(())
    });
}

fn main() {
    let mut m = Main::new("C08");
    m.rule("state = one implementation holding one bit string; transition = one read or write; after every write all bit, span and block reads are compared with the plain bits");
    let t = m.thorough;
    let l8: Vec<usize> = if t { (0..=34).collect() } else { (0..=18).chain([23, 24, 25]).collect() };
    store::<BitVector<u8>>(&mut m, "BitVector<u8>", l8.clone());
    store::<Vec<u8>>(&mut m, "Vec<u8>", l8.clone());
    store::<Vec<bool>>(&mut m, "Vec<bool>", l8.clone());
    store::<IntVector<u8>>(&mut m, "IntVector<u8>", l8.clone());
    store::<BitBuffer<BitVector<u8>>>(&mut m, "BitBuffer<u8>", l8.clone());
    store::<ByBit<u8>>(&mut m, "ByBit<u8>", l8.clone());
    store::<ByBlock<u8>>(&mut m, "ByBlock<u8>", l8.clone());
    store::<u8>(&mut m, "u8", vec![8]);
    store::<u16>(&mut m, "u16", vec![16]);
    store::<u32>(&mut m, "u32", vec![32]);
    store::<u64>(&mut m, "u64", vec![64]);
    store::<usize>(&mut m, "usize", vec![64]);
    macro_rules! wide {
        ($b:ty, $lens:expr) => {
            store::<BitVector<$b>>(&mut m, concat!("BitVector<", stringify!($b), ">"), $lens);
            store::<Vec<$b>>(&mut m, concat!("Vec<", stringify!($b), ">"), $lens);
            store::<IntVector<$b>>(&mut m, concat!("IntVector<", stringify!($b), ">"), $lens);
            store::<BitBuffer<BitVector<$b>>>(&mut m, concat!("BitBuffer<", stringify!($b), ">"), $lens);
            store::<ByBit<$b>>(&mut m, concat!("ByBit<", stringify!($b), ">"), $lens);
            store::<ByBlock<$b>>(&mut m, concat!("ByBlock<", stringify!($b), ">"), $lens);
        };
    }
    wide!(u16, if t { (1..=50).collect() } else { vec![1, 5, 15, 16, 17, 31, 32, 33, 48] });
    wide!(u32, if t { vec![1, 31, 32, 33, 63, 64, 65, 70, 96, 97] } else { vec![5, 32, 33, 64, 70] });
    wide!(u64, if t { vec![1, 2, 63, 64, 65, 127, 128, 129, 140, 192, 193] } else { vec![3, 64, 65, 128, 140] });
    wide!(usize, if t { vec![1, 63, 64, 65, 128, 140] } else { vec![63, 65] });
    wrappers::<BitVector<u8>>(&mut m, "BitVector<u8>", vec![1, 2, 7, 8, 9, 16, 30, 64]);
    wrappers::<IntVector<u8>>(&mut m, "IntVector<u8>", vec![8, 9, 21, 30]);
    wrappers::<Vec<bool>>(&mut m, "Vec<bool>", vec![2, 8, 9, 30]);
    wrappers::<ByBit<u8>>(&mut m, "ByBit<u8>", vec![2, 9, 30]);
    wrappers::<ByBlock<u8>>(&mut m, "ByBlock<u8>", vec![2, 9, 30, 65]);
    wrappers::<BitVector<u16>>(&mut m, "BitVector<u16>", vec![3, 17, 40, 64]);
    wrappers::<ByBlock<u16>>(&mut m, "ByBlock<u16>", vec![17, 40]);
    wrappers::<BitVector<u32>>(&mut m, "BitVector<u32>", vec![33, 70]);
    wrappers::<ByBlock<u32>>(&mut m, "ByBlock<u32>", vec![33, 70]);
    wrappers::<BitVector<u64>>(&mut m, "BitVector<u64>", vec![65, 130, 200]);
    wrappers::<ByBlock<u64>>(&mut m, "ByBlock<u64>", vec![65, 130]);
    wrappers::<ByBit<u64>>(&mut m, "ByBit<u64>", vec![65, 130]);
    wrappers::<BitVector<usize>>(&mut m, "BitVector<usize>", vec![65, 130]);
    wrappers::<u8>(&mut m, "u8", vec![8]);
    wrappers::<u16>(&mut m, "u16", vec![16]);
    wrappers::<u32>(&mut m, "u32", vec![32]);
    wrappers::<u64>(&mut m, "u64", vec![64]);
    rank9s::<BitVector<u64>>(&mut m, "BitVector<u64>", vec![0, 1, 64, 65, 130, 200, 520]);
    rank9s::<ByBlock<u64>>(&mut m, "ByBlock<u64>", vec![1, 65, 130]);
    rank9s::<ByBit<u64>>(&mut m, "ByBit<u64>", vec![1, 65, 130]);
    rank9s::<Vec<u64>>(&mut m, "Vec<u64>", vec![64, 128]);
    rank9s::<u64>(&mut m, "u64", vec![64]);
    pushes::<BitVector<u8>>(&mut m, "BitVector<u8>");
    pushes::<Vec<bool>>(&mut m, "Vec<bool>");
    pushes::<ByBit<u8>>(&mut m, "ByBit<u8>");
    pushes::<ByBit<u16>>(&mut m, "ByBit<u16>");
    pushes::<BitVector<u16>>(&mut m, "BitVector<u16>");
    pushes::<ByBit<u32>>(&mut m, "ByBit<u32>");
    pushes::<BitVector<u32>>(&mut m, "BitVector<u32>");
    pushes::<ByBit<u64>>(&mut m, "ByBit<u64>");
    pushes::<BitVector<u64>>(&mut m, "BitVector<u64>");
    pushes::<ByBit<usize>>(&mut m, "ByBit<usize>");
    arrays::<u8>(&mut m);
    arrays::<u16>(&mut m);
    arrays::<u32>(&mut m);
    arrays::<u64>(&mut m);
    arrays::<usize>(&mut m);
    elements::<u8>(&mut m);
    elements::<u16>(&mut m);
    elements::<u32>(&mut m);
    elements::<u64>(&mut m);
    let lb = m.pick(vec![4, 8, 17, 33, 65, 100, 129, 257, 1025], vec![4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 513, 1025, 2049]);
    macro_rules! longs {
        ($($b:ty),*) => {$(
            long::<BitVector<$b>>(&mut m, concat!("BitVector<", stringify!($b), ">"), &lb);
            long::<Vec<$b>>(&mut m, concat!("Vec<", stringify!($b), ">"), &lb);
            long::<IntVector<$b>>(&mut m, concat!("IntVector<", stringify!($b), ">"), &lb);
            long::<BitBuffer<BitVector<$b>>>(&mut m, concat!("BitBuffer<", stringify!($b), ">"), &lb);
            long::<ByBit<$b>>(&mut m, concat!("ByBit<", stringify!($b), ">"), &lb);
            long::<ByBlock<$b>>(&mut m, concat!("ByBlock<", stringify!($b), ">"), &lb);
        )*};
    }
    longs!(u8, u16, u32, u64, usize);
    long::<Vec<bool>>(&mut m, "Vec<bool>", &lb);
    let farther: &[usize] = if m.thorough { &[8751, 17_501, 70_001] } else { &[8751, 17_501] };
    long::<Vec<bool>>(&mut m, "Vec<bool>", farther);
    long::<BitVector<u8>>(&mut m, "BitVector<u8>", farther);
    long::<Vec<u64>>(&mut m, "Vec<u64>", &[1501]);
    m.bound("Vec<bool> and BitVector<u8> of 70 000 and 140 000 (thorough 560 000) bits, Vec<u64> of 96 000");
    m.bound("every implementation holding 4 to 1025 (thorough 2049) blocks: all views at all bits and blocks and spans at the marked places, every kind of write there in one chain");
    m.bound("every bit string of length <= 8 (thorough 10) and 9 patterns of longer ones up to three blocks; every single write (every bit, span, block), chains of all writes, all pairs of writes for short strings; push sequences of length 4 (thorough 5)");
    far::<u8>(&mut m);
    far::<u16>(&mut m);
    far::<u32>(&mut m);
    far::<u64>(&mut m);
    far::<usize>(&mut m);
    m.bound("writable user stores of about 140 lengths from 2^29 to 2^64-1 (thorough: from 2^4), minimal by bit and by block, bare and in a buffer: every kind of write at 15 to 200 places, every view around it");
    m.run()
}
