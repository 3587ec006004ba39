//! C26: rank directories stay small for every length (a counting allocator is the oracle).
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use succinct::{BitVec, BitVector, JacobsonRank, Rank9, SpaceUsage};

/// Bytes of directory allowed for `n` bits: a share of the bits, and a constant.
const RANK9_CONST: i64 = 64;
const JACOBSON_CONST: i64 = 128;

/// Directory bytes left allocated by building over a store made beforehand.
fn built<S, T>(s: S, f: impl FnOnce(S) -> T) -> (T, i64) {
    let a = live_bytes();
    let x = std::hint::black_box(f(s));
    (x, live_bytes() - a)
}

fn rank9<S: BitVec<Block = u64>>(w: &mut W, s: S, what: &dyn Fn() -> String) -> Result<i64, Fail> {
    let n = s.bit_len();
    w.step();
    let (r, dir) = ok!(built(s, Rank9::new), "rank9", "Rank9::new over {}", what());
    chk!(dir * 32 <= n as i64 + 32 * RANK9_CONST, "rank9", "Rank9 over {}: directory of {} bytes for {} bits; a quarter is {} bytes (plus {})", what(), dir, n, n / 32, RANK9_CONST);
    let a = live_bytes();
    let back = r.into_inner();
    let freed = a - live_bytes();
    chk!(freed == dir && back.bit_len() == n, "rank9", "Rank9 over {}: giving the store back frees {} of the {} bytes of the directory", what(), freed, dir);
    Ok(dir)
}
fn jacobson<S: BitVec>(w: &mut W, s: S, what: &dyn Fn() -> String) -> Result<i64, Fail> {
    let n = s.bit_len();
    w.step();
    let (r, dir) = ok!(built(s, JacobsonRank::new), "jacobson", "JacobsonRank::new over {}", what());
    chk!(dir * 16 <= n as i64 + 16 * JACOBSON_CONST, "jacobson", "JacobsonRank over {}: directory of {} bytes for {} bits; half is {} bytes (plus {})", what(), dir, n, n / 16, JACOBSON_CONST);
    let a = live_bytes();
    let back = r.into_inner();
    let freed = a - live_bytes();
    chk!(freed == dir && back.bit_len() == n, "jacobson", "JacobsonRank over {}: giving the store back frees {} of the {} bytes of the directory", what(), freed, dir);
    Ok(dir)
}

/// One length, several contents and stores: bounds, and independence of contents.
fn length(w: &mut W, n: usize) -> R {
    w.state();
    let mut sizes: Vec<(i64, i64, String)> = vec![];
    for kind in 0..4 {
        w.tick();
        let m = pattern(kind, n);
        let what = |s: &str| format!("{} of {} bits, contents {}", s, n, kind);
        let v = bv_from::<u64>(&m);
        let own = v.heap_bytes() as i64;
        let (a, b) = (rank9(w, v.clone(), &|| what("BitVector"))?, jacobson(w, v.clone(), &|| what("BitVector"))?);
        sizes.push((a, b, what("BitVector")));
        let g = ByBlock::<u64>::new(&m, mix(n as u64));
        sizes.push((rank9(w, g.clone(), &|| what("user store"))?, jacobson(w, g, &|| what("user store"))?, what("user store")));
        let u = bv_from::<usize>(&m);
        sizes.push((a, jacobson(w, u, &|| what("BitVector<usize>"))?, what("BitVector<usize>")));
        if n % 64 == 0 {
            let p = pack(&m, 64);
            sizes.push((rank9(w, p.clone(), &|| what("Vec<u64>"))?, jacobson(w, p, &|| what("Vec<u64>"))?, what("Vec<u64>")));
        }
        // what is reported
        let c = v.clone();
        let own_c = c.heap_bytes() as i64;
        let rep = (Rank9::new(v).heap_bytes() as i64 - own, JacobsonRank::new(c).heap_bytes() as i64 - own_c);
        chk!(rep == (a, b), "reported", "{}: directories reported {:?}, allocated {:?}", what("BitVector"), rep, (a, b));
        w.traces += 1;
    }
    let (a, b, first) = sizes[0].clone();
    for (x, y, s) in &sizes {
        chk!((*x, *y) == (a, b), "contents", "directory sizes depend on the contents: rank9 {} / Jacobson {} for {}, {} / {} for {}", a, b, first, x, y, s);
    }
    Ok(())
}

fn far(w: &mut W, n: u64) -> R {
    w.state();
    w.traces += 1;
    let fs: [fn(usize) -> u64; 3] = [|_| 0, |_| u64::MAX, |i| mix(i as u64)];
    let mut all = vec![];
    for (k, f) in fs.iter().enumerate() {
        let what = || format!("virtual store of {} bits, contents {}", n, k);
        let a = rank9(w, Virtual::<u64>::new(n, *f), &what)?;
        w.tick();
        let b = jacobson(w, Virtual::<u64>::new(n, *f), &what)?;
        w.tick();
        all.push((a, b));
    }
    chk!(all.iter().all(|x| *x == all[0]), "contents", "directory sizes over {} bits depend on the contents: {:?}", n, all);
    w.sample(|| format!("{} bits: rank9 directory {} bytes ({:.2}%), Jacobson {} bytes ({:.2}%)", n, all[0].0, all[0].0 as f64 * 800.0 / n as f64, all[0].1, all[0].1 as f64 * 800.0 / n as f64));
    Ok(())
}

fn main() {
    let mut m = Main::new("C26");
    m.rule("state = one length; transition = one directory built by the real code, its bytes counted by the allocator; trace = one (length, contents) with every store kind");
    let top = m.pick(20000usize, 70000);
    m.bound(format!("every length 0..={}, four contents, three store kinds, for constants {} (rank9) and {} (Jacobson) bytes", top, RANK9_CONST, JACOBSON_CONST));
    let reach = m.pick(30u32, 34);
    m.bound(format!("every length within 66 of a power of two and of 3*2^k to 2^22, selected ones to 2^{} over virtual stores", reach));
    for part in 0..64usize {
        m.job(format!("lengths part {}", part), move |w| {
            for n in (0..=top).filter(|n| n % 64 == part) {
                length(w, n)?;
            }
            w.sample(|| format!("lengths {} + 64k up to {}", part, top));
            Ok(())
        });
    }
    for k in 10..=22u32 {
        for d in 0..4u64 {
            m.job(format!("around 2^{} part {}", k, d), move |w| {
                for base in [1u64 << k, 3 << (k - 1)] {
                    for n in (base - 66..=base + 66).filter(|n| n % 4 == d && (k < 18 || n.abs_diff(base) < 3 || n.abs_diff(base) > 62)) {
                        far(w, n)?;
                    }
                }
                Ok(())
            });
        }
    }
    for k in 23..=reach {
        for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + (1 << (k - 1)) + 63] {
            m.job(format!("far {}", n), move |w| far(w, n));
        }
    }
    let _ = BitVector::<u64>::new();
    m.run()
}
