//! C25: reported space usage equals the memory really owned (a counting allocator is the oracle).
use mc::bits::*;
use mc::vecs::*;
use mc::*;
use std::mem::size_of;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::stream::BitBuffer;
use succinct::{impl_stack_only_space_usage, BinSearchSelect, BitVec, BitVecPush, BitVector, IntVector, IntVec, JacobsonRank, Rank9, SpaceUsage};

/// What a value reports against what it owns.
fn check<T: SpaceUsage>(x: &T, owned: i64, name: &str, what: &dyn Fn() -> String) -> R {
    let x = std::hint::black_box(x);
    let heap = ok!(x.heap_bytes(), name, "{}: heap_bytes", what());
    chk!(heap as i64 == owned, name, "{} {}: heap_bytes() = {}, but the allocator says it owns {} bytes", name, what(), heap, owned);
    let (stack, total) = (T::stack_bytes(), x.total_bytes());
    chk!(stack == size_of::<T>(), name, "{}: stack_bytes() = {}, static size {}", name, stack, size_of::<T>());
    chk!(total == heap + stack, name, "{} {}: total_bytes() = {}, heap {} + stack {}", name, what(), total, heap, stack);
    chk!(!T::is_stack_only() || owned == 0, name, "{} {}: declared stack-only but owns {} bytes", name, what(), owned);
    Ok(())
}
/// A value made by `f`, and the bytes it owns.
fn made<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let a = live_bytes();
    let x = std::hint::black_box(f());
    (x, live_bytes() - a)
}
fn once<T: SpaceUsage>(w: &mut W, name: &str, what: &str, f: impl Fn() -> T) -> R {
    w.at(|| format!("{} {}", name, what));
    w.state();
    w.step();
    w.traces += 1;
    let (x, owned) = made(&f);
    check(&x, owned, name, &|| what.to_string())?;
    w.outcome(if owned == 0 { "owns nothing" } else { "owns memory" });
    let after = made(|| drop(x)).1;
    chk!(after == -owned, name, "{} {}: dropping it released {} of {} bytes", name, what, -after, owned);
    Ok(())
}

/// All histories up to a depth from an alphabet of always applicable operations, each replayed on a fresh value.
fn histories<T: SpaceUsage, O: std::fmt::Debug>(w: &mut W, name: &str, init: impl Fn() -> T, ops: &[O], first: usize, depth: usize, run: impl Fn(&mut T, &O)) -> R {
    let mut idx = vec![0; depth];
    idx[0] = first;
    let mut fresh = 0;
    loop {
        w.at(|| format!("{} history {:?}", name, idx.iter().map(|&i| &ops[i]).collect::<Vec<_>>()));
        let (mut x, mut owned) = made(&init);
        w.traces += 1;
        for d in 0..depth {
            let a = live_bytes();
            run(&mut x, &ops[idx[d]]);
            owned += live_bytes() - a;
            w.step();
            if d >= fresh {
                w.state();
                check(&x, owned, name, &|| format!("after {:?}", idx[..=d].iter().map(|&i| &ops[i]).collect::<Vec<_>>()))?;
            }
        }
        w.outcome(if owned == 0 { "owns nothing" } else { "owns memory" });
        let mut d = depth;
        loop {
            d -= 1;
            if d == 0 {
                return Ok(());
            }
            idx[d] += 1;
            if idx[d] < ops.len() {
                fresh = d;
                break;
            }
            idx[d] = 0;
        }
    }
}

fn bit_ops(w: usize) -> Vec<BOp> {
    use BOp::*;
    let b = w as u64;
    vec![
        PushBit(true), PopBit, PushBlock(5), Align(true), Resize(0, false), Resize(b - 1, true), Resize(b + 1, true), Resize(5 * b, false), BlockResize(3, 1), Truncate(1), BlockTruncate(1), Clear, CloneIt, Shrink,
        Reserve(1), Reserve(b + 1), Reserve(7 * b), ReserveExact(3 * b), BlockReserve(2), BlockReserveExact(5), New, WithCapacity(2 * b + 1), WithFill(b + 2, true), BlockWithFill(2, 9), BlockWithCapacity(4),
    ]
}
fn int_ops(w: usize, k: usize) -> Vec<IOp> {
    use IOp::*;
    let n = (w / k) as u64;
    vec![
        Push(1), Pop, Resize(0, 0), Resize(n + 1, 1), Resize(4 * n + 1, 0), Resize(1, 1), BlockResize(3, 1), Truncate(1), BlockTruncate(1), Clear, CloneIt, Shrink, Reserve(1), Reserve(n + 1), Reserve(6 * n), ReserveExact(3 * n),
        BlockReserve(2), BlockReserveExact(5), New, WithCapacity(2 * n + 1), WithFill(n + 2, 1), BlockWithFill(2, 9), BlockWithCapacity(4),
    ]
}

// ---------------------------------------------------------------- containers

/// Values of growing size.
trait Make: SpaceUsage {
    fn make(n: usize) -> Self;
}
macro_rules! flat {
    ($($t:ty = $e:expr;)*) => {$( impl Make for $t { fn make(n: usize) -> Self { let _ = n; #[allow(clippy::redundant_closure_call)] ($e)(n) } } )*};
}
static NUMBERS: [u64; 40] = [7; 40];
#[derive(Debug, Clone, Copy)]
struct Plain(#[allow(dead_code)] u16);
impl_stack_only_space_usage!(Plain);
/// A user's type with its own heap part.
#[derive(Debug)]
struct Owner {
    a: Vec<u32>,
    b: BitVector<u8>,
}
impl SpaceUsage for Owner {
    fn is_stack_only() -> bool {
        false
    }
    fn heap_bytes(&self) -> usize {
        self.a.heap_bytes() + self.b.heap_bytes()
    }
}
flat! {
    () = |_| (); u8 = |n| n as u8; u16 = |n| n as u16; u32 = |n| n as u32; u64 = |n| n as u64; usize = |n| n; i8 = |n| n as i8; i16 = |n| n as i16; i32 = |n| n as i32; i64 = |n| n as i64; isize = |n| n as isize;
    f32 = |n| n as f32; f64 = |n| n as f64; &'static [u64] = |n: usize| &NUMBERS[..n % 40]; &'static u64 = |n: usize| &NUMBERS[n % 40]; Plain = |n| Plain(n as u16);
    Owner = |n| Owner { a: Vec::with_capacity(n * 2), b: BitVector::with_fill(n as u64 * 3, true) };
}
impl<A: Make + std::fmt::Debug> Make for Vec<A> {
    fn make(n: usize) -> Self {
        let mut v = Vec::with_capacity(n + n % 3);
        v.extend((0..n).map(A::make));
        v
    }
}
impl<A: Make> Make for Box<A> {
    fn make(n: usize) -> Self {
        Box::new(A::make(n))
    }
}
impl<B: Blk> Make for BitVector<B> {
    fn make(n: usize) -> Self {
        BitVector::with_fill(n as u64 * 5, n % 2 == 0)
    }
}
impl<B: Blk> Make for IntVector<B> {
    fn make(n: usize) -> Self {
        IntVector::with_fill(1 + n % B::W, n as u64, B::of(1))
    }
}
macro_rules! tuples {
    ($( ($($t:ident),+) )*) => {$( impl<$($t: Make),+> Make for ($($t,)+) { fn make(n: usize) -> Self { let mut k = n; ($({ k += 1; $t::make(k - 1) },)+) } } )*};
}
tuples! { (A) (A, B) (A, B, C) (A, B, C, D) (A, B, C, D, E) (A, B, C, D, E, F) (A, B, C, D, E, F, G) (A, B, C, D, E, F, G, H) (A, B, C, D, E, F, G, H, I) (A, B, C, D, E, F, G, H, I, J) (A, B, C, D, E, F, G, H, I, J, K) (A, B, C, D, E, F, G, H, I, J, K, L) }
impl Make for JacobsonRank<Vec<u16>> {
    fn make(n: usize) -> Self {
        JacobsonRank::new(Vec::make(n))
    }
}
impl Make for Rank9<BitVector<u64>> {
    fn make(n: usize) -> Self {
        Rank9::new(BitVector::make(n * 9))
    }
}

fn sizes<T: Make>(w: &mut W, name: &str) -> R {
    for n in 0..24 {
        once(w, name, &format!("of size {}", n), || T::make(n))?;
    }
    Ok(())
}
macro_rules! list_sizes {
    ($w:expr; $($t:ty),* $(,)?) => {$( sizes::<$t>($w, stringify!($t))?; )*};
}
/// A tuple type of each arity with one owning member, at each place.
macro_rules! places {
    ($w:expr; [$($pre:ty),*] []) => {};
    ($w:expr; [$($pre:ty),*] [$x:ty $(, $post:ty)*]) => {
        sizes::<($($pre,)* Vec<u32>, $($post,)*)>($w, concat!("tuple", $(" ", stringify!($pre),)* " Vec<u32>", $(" ", stringify!($post)),*))?;
        sizes::<($($pre,)* Box<u16>, $($post,)*)>($w, concat!("tuple", $(" ", stringify!($pre),)* " Box<u16>", $(" ", stringify!($post)),*))?;
        places!($w; [$($pre,)* $x] [$($post),*]);
    };
}
fn arities(w: &mut W) -> R {
    places!(w; [] [u8]);
    places!(w; [] [u8, u8]);
    places!(w; [] [u8, u64, u8]);
    places!(w; [] [u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u16, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8]);
    places!(w; [] [u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8]);
    type V = Vec<u16>;
    list_sizes!(w; (V,), (V, V), (V, V, V), (V, V, V, V), (V, V, V, V, V), (V, V, V, V, V, V), (V, V, V, V, V, V, V), (V, V, V, V, V, V, V, V), (V, V, V, V, V, V, V, V, V), (V, V, V, V, V, V, V, V, V, V), (V, V, V, V, V, V, V, V, V, V, V), (V, V, V, V, V, V, V, V, V, V, V, V));
    list_sizes!(w; Vec<(V, u8)>, Vec<(u8, V)>, Vec<(u8, u64, V, u8)>, Box<(V, V)>, (u8, (u16, (V, Box<V>))), Vec<(u8, (Box<u8>, u8), u64)>, Vec<(u8, u16, u32)>);
    Ok(())
}
fn containers(w: &mut W) -> R {
    list_sizes!(w; (), u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, &'static [u64], &'static u64, Plain, Owner);
    list_sizes!(w; Vec<()>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<usize>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<isize>, Vec<f32>, Vec<f64>, Vec<&'static [u64]>, Vec<Plain>, Vec<Owner>);
    list_sizes!(w; Box<()>, Box<u8>, Box<u32>, Box<f64>, Box<Plain>, Box<Owner>, Box<Box<u16>>, Box<Vec<u64>>, Vec<Box<u8>>, Vec<Vec<u8>>, Vec<Vec<Vec<u16>>>, Vec<Box<Vec<u32>>>, Box<Vec<Box<u64>>>, Vec<Vec<()>>, Vec<Box<()>>);
    list_sizes!(w; BitVector<u8>, BitVector<u16>, BitVector<u32>, BitVector<u64>, BitVector<usize>, IntVector<u8>, IntVector<u16>, IntVector<u32>, IntVector<u64>, IntVector<usize>);
    list_sizes!(w; Vec<BitVector<u8>>, Vec<IntVector<u32>>, Box<BitVector<u64>>, Vec<Box<IntVector<u8>>>, (BitVector<u16>, IntVector<u16>), Vec<(u8, BitVector<u8>)>, JacobsonRank<Vec<u16>>, Rank9<BitVector<u64>>, Vec<JacobsonRank<Vec<u16>>>, (u8, Rank9<BitVector<u64>>));
    Ok(())
}

fn structures(w: &mut W, len: usize) -> R {
    for kind in 0..4 {
        let m = pattern(kind, len);
        let what = format!("of {} bits, contents {}", len, kind);
        macro_rules! over {
            ($($n:expr, $e:expr;)*) => {$( once(w, $n, &what, || $e)?; )*};
        }
        over! {
            "JacobsonRank<BitVector<u8>>", JacobsonRank::new(bv_from::<u8>(&m));
            "JacobsonRank<BitVector<u32>>", JacobsonRank::new(bv_from::<u32>(&m));
            "JacobsonRank<BitVector<u64>>", JacobsonRank::new(bv_from::<u64>(&m));
            "Rank9<BitVector<u64>>", Rank9::new(bv_from::<u64>(&m));
            "Rank9<Vec<u64>>", Rank9::new(pack(&m, 64));
            "JacobsonRank<Vec<usize>>", JacobsonRank::new(pack(&m, 64).into_iter().map(|x| x as usize).collect::<Vec<usize>>());
            "JacobsonRank<Rank9<BitVector<u64>>>", JacobsonRank::new(Rank9::new(bv_from::<u64>(&m)));
            "BinSearchSelect<JacobsonRank<BitVector<u16>>>", BinSearchSelect::new(JacobsonRank::new(bv_from::<u16>(&m)));
            "BinSearchSelect<Rank9<BitVector<u64>>>", BinSearchSelect::new(Rank9::new(bv_from::<u64>(&m)));
            "JacobsonRank<IntVector<u16>>", JacobsonRank::new(iv_from::<u16>(1, &m));
            "(Rank9, JacobsonRank)", (Rank9::new(bv_from::<u64>(&m)), JacobsonRank::new(bv_from::<u64>(&m)));
            "Rank9<BitVector<u64>> given back", Rank9::new(bv_from::<u64>(&m)).into_inner();
            "JacobsonRank<BitVector<u8>> given back", JacobsonRank::new(bv_from::<u8>(&m)).into_inner();
            "BinSearchSelect given back", BinSearchSelect::new(Rank9::new(bv_from::<u64>(&m))).into_inner();
            "BitVector<u16> through a buffer", BitBuffer::from(bv_from::<u16>(&m)).into_inner();
            "clone of JacobsonRank<BitVector<u64>>", JacobsonRank::new(bv_from::<u64>(&m)).clone();
            "clone of Rank9<BitVector<u64>>", Rank9::new(bv_from::<u64>(&m)).clone();
        }
        // rank over stores that own nothing, and views
        if len >= 1 {
            let x = field(&m, 0, len.min(64));
            once(w, "JacobsonRank<u64>", &what, || JacobsonRank::new(x))?;
            once(w, "Rank9<u64>", &what, || Rank9::new(x))?;
            once(w, "BinSearchSelect<u64>", &what, || BinSearchSelect::new(x))?;
            once(w, "BinSearchSelect<u8>", &what, || BinSearchSelect::new(x as u8))?;
        }
        let base = bv_from::<u8>(&m);
        once(w, "&BitVector<u8>", &what, || &base)?;
        let mut base2 = base.clone();
        let (a, b) = (len as u64 / 3, len as u64 / 2);
        let (s, owned) = made(|| BitSlice::new(&base, a..b));
        check(&s, owned, "BitSlice", &|| what.clone())?;
        let (s, owned) = made(|| BitSlice::new(&base, a..));
        check(&s, owned, "BitSlice", &|| what.clone())?;
        let (r, owned) = made(|| JacobsonRank::new(BitSlice::new(&base, a..)));
        check(&r, owned, "JacobsonRank<BitSlice>", &|| what.clone())?;
        let (s, owned) = made(|| BitSliceMut::new(&mut base2, a..b));
        check(&s, owned, "BitSliceMut", &|| what.clone())?;
        w.transitions += 4;
        w.states += 4;
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C25");
    m.rule("state = one value after one history (or of one size); transition = one operation or construction; trace = one whole history replayed on a fresh value; the oracle is the bytes the thread's allocator handed out and got back");
    let depth = m.pick(5usize, 6);
    m.bound(format!("BitVector over every block type and IntVector at several widths: every history of {} operations over an alphabet of {} (growth, shrinking, capacity requests, clones, reconstruction)", depth, bit_ops(8).len()));
    let top = m.pick(1400usize, 5000);
    m.bound(format!("rank and select structures, slices and references over every length to {} (every one to 200, then around block boundaries) with four contents", top));
    m.bound("every primitive, vectors, boxes, tuples of arity 1 to 12 with an owning member at every place, nested containers, user types: sizes 0..24; Vec<Vec<u16>> histories");
    macro_rules! vectors {
        ($($t:ident),*) => {$(
            for i in 0..bit_ops(8).len() {
                m.job(format!("BitVector<{}> first {}", stringify!($t), i), move |w| histories(w, concat!("BitVector<", stringify!($t), ">"), BitVector::<$t>::new, &bit_ops(<$t as Blk>::W), i, depth, |v, o| { breal(v, o); }));
            }
            for k in [1, 3, <$t as Blk>::W - 1, <$t as Blk>::W] {
                for i in 0..int_ops(8, 3).len() {
                    m.job(format!("IntVector<{}>({}) first {}", stringify!($t), k, i), move |w| histories(w, concat!("IntVector<", stringify!($t), ">"), || IntVector::<$t>::new(k), &int_ops(<$t as Blk>::W, k), i, depth, |v, o| { ireal(v, o); }));
                }
            }
        )*};
    }
    vectors!(u8, u16, u32, u64, usize);
    m.job("Vec<Vec<u16>>", move |w| {
        for first in 0..9 {
            let ops: Vec<usize> = (0..9).collect();
            histories(w, "Vec<Vec<u16>>", Vec::<Vec<u16>>::new, &ops, first, depth + 1, |v, &o| match o {
                0 => v.push(vec![1, 2, 3]),
                1 => v.push(Vec::with_capacity(7)),
                2 => v.push(Vec::new()),
                3 => drop(v.pop()),
                4 => v.shrink_to_fit(),
                5 => v.reserve(9),
                6 => { if let Some(x) = v.first_mut() { x.push(5) } }
                7 => { if let Some(x) = v.last_mut() { x.clear(); x.shrink_to_fit() } }
                _ => *v = v.clone(),
            })?;
        }
        w.sample(|| "Vec<Vec<u16>>: outer capacity and every inner capacity counted".into());
        Ok(())
    });
    m.job("containers", containers);
    m.job("tuples", arities);
    m.job("many owners", |w| {
        for n in (0..300usize).chain([500, 1000, 1001, 1025, 5000, 20_001]) {
            let what = format!("of {}", n);
            once(w, "Vec<Vec<u16>>", &what, || (0..n).map(|i| vec![7u16; i % 5]).collect::<Vec<_>>())?;
            once(w, "Vec<BitVector<u8>>", &what, || (0..n).map(|i| BitVector::<u8>::with_fill(i as u64 % 40, true)).collect::<Vec<_>>())?;
            once(w, "Vec<(u8, Box<u64>)>", &what, || (0..n).map(|i| (i as u8, Box::new(i as u64))).collect::<Vec<_>>())?;
            once(w, "Box<Vec<IntVector<u32>>>", &what, || Box::new((0..n).map(|i| IntVector::<u32>::with_fill(3, i as u64 % 23, 5)).collect::<Vec<_>>()))?;
        }
        Ok(())
    });
    m.bound("vectors of 0..300 and up to 20001 owners of heap memory of their own");
    let far: Vec<usize> = if m.thorough { vec![8192, 10_000, 16_385, 32_768, 65_535, 65_536, 65_537, 100_000, 131_073, 200_001, 262_144, 524_289, 1 << 20, (1 << 20) + 1, (1 << 21) + 65, (1 << 22) + 1] } else { vec![8192, 10_000, 32_768, 65_537, 100_000, 262_145, (1 << 20) + 1, (1 << 21) + 65] };
    m.bound(format!("structures over {} longer lengths up to {}; vectors and arrays with capacities up to 2^36 bits", far.len(), far[far.len() - 1]));
    for len in far {
        m.job(format!("structures {}", len), move |w| structures(w, len));
    }
    let every = m.pick(4000u64, 40_000);
    m.bound(format!("every length and every capacity to {} blocks", every));
    m.job("every capacity", move |w| {
        for n in 0..every {
            let what = format!("with capacity for {} blocks", n);
            once(w, "BitVector<u8>", &what, || BitVector::<u8>::block_with_capacity(n as usize))?;
            once(w, "BitVector<u64>", &what, || BitVector::<u64>::with_capacity(64 * n))?;
            once(w, "IntVector<u16>", &what, || IntVector::<u16>::block_with_capacity(5, n as usize))?;
            once(w, "Vec<u32>", &what, || Vec::<u32>::with_capacity(n as usize))?;
            let what = format!("of {} blocks", n);
            once(w, "BitVector<u32>", &what, || BitVector::<u32>::block_with_fill(n as usize, 5))?;
            once(w, "IntVector<u64>", &what, || IntVector::<u64>::block_with_fill(7, n as usize, 5))?;
            once(w, "Vec<u8>", &what, || vec![1u8; n as usize])?;
        }
        Ok(())
    });
    m.job("capacities", |w| {
        for k in 8..37u32 {
            for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 1] {
                let what = format!("with capacity for {}", n);
                once(w, "BitVector<u8>", &what, || BitVector::<u8>::with_capacity(n))?;
                once(w, "BitVector<u64>", &what, || BitVector::<u64>::with_capacity(n))?;
                once(w, "IntVector<u16>", &what, || IntVector::<u16>::with_capacity(3, n / 3))?;
                once(w, "IntVector<u64>", &what, || IntVector::<u64>::with_capacity(63, n / 63))?;
                once(w, "Vec<u32>", &what, || Vec::<u32>::with_capacity((n / 64) as usize))?;
                once(w, "JacobsonRank<BitVector<u32>> with spare capacity", &what, || JacobsonRank::new(BitVector::<u32>::with_capacity(n)))?;
                once(w, "BinSearchSelect<Rank9<BitVector<u64>>> with spare capacity", &what, || BinSearchSelect::new(Rank9::new(BitVector::<u64>::with_capacity(n))))?;
                once(w, "reserve", &what, || { let mut v = BitVector::<u16>::with_fill(77, true); v.reserve_exact(n); v })?;
            }
        }
        Ok(())
    });
    for part in 0..16usize {
        m.job(format!("structures part {}", part), move |w| {
            for len in (0..=top).filter(|&n| n < 200 || n % 64 < 2 || n % 64 == 63 || (n % 512).abs_diff(256) > 252) {
                if len % 16 == part {
                    structures(w, len)?;
                }
            }
            Ok(())
        });
    }
    let _ = (BitVector::<u8>::new().push_bit(true), IntVector::<u8>::new(3).element_bits());
    m.run()
}
