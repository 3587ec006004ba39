//! C15: broadword select and byte-parallel comparisons match their definitions.
use mc::bits::*;
use mc::words::*;
use mc::*;
use succinct::broadword::{le8, select1, select1_raw, u_le8, u_nz8, Broadword};
use succinct::select::Select1Support;

fn lanes(f: impl Fn(u8, u8) -> bool, x: u64, y: u64) -> u64 {
    (0..8).map(|i| if f((x >> (8 * i)) as u8, (y >> (8 * i)) as u8) { 0x80u64 << (8 * i) } else { 0 }).sum()
}
fn cmp(w: &mut W, x: u64, y: u64) -> R {
    w.evals += 1;
    w.nontrivial += (x != y) as u64;
    let u = lanes(|a, b| a <= b, x, y);
    let s = lanes(|a, b| a as i8 <= b as i8, x, y);
    chk!(u_le8(x, y) == u, "u_le8", "u_le8({:#018x}, {:#018x}) = {:#018x}, expected {:#018x}", x, y, u_le8(x, y), u);
    chk!(le8(x, y) == s, "le8", "le8({:#018x}, {:#018x}) = {:#018x}, expected {:#018x}", x, y, le8(x, y), s);
    Ok(())
}
fn nz(w: &mut W, x: u64) -> R {
    w.evals += 1;
    let want = lanes(|a, _| a != 0, x, 0);
    chk!(u_nz8(x) == want, "u_nz8", "u_nz8({:#018x}) = {:#018x}, expected {:#018x}", x, u_nz8(x), want);
    Ok(())
}
const BG: [u64; 6] = [0, !0, 0x8080_8080_8080_8080, 0x7f7f_7f7f_7f7f_7f7f, 0x0100_ff80_7f01_80fe, 0x0101_0101_0101_0101];

fn sel(w: &mut W, x: u64, rs: &[u64]) -> R {
    w.at(|| format!("select of {:#018x}", x));
    let pos: Vec<u64> = (0..64).filter(|i| x >> i & 1 == 1).collect();
    for &r in rs {
        w.evals += 1;
        w.nontrivial += (x != 0) as u64;
        let want = if r < pos.len() as u64 { Some(pos[r as usize]) } else { None };
        let (a, b, c) = (Broadword(x).select1(r), select1(r as usize, x), select1_raw(r as usize, x));
        chk!(a == want, "select1", "Broadword({:#018x}).select1({}) = {:?}, expected {:?}", x, r, a, want);
        chk!(b.map(|v| v as u64) == want, "select1", "select1({}, {:#018x}) = {:?}, expected {:?}", r, x, b, want);
        chk!(c as u64 == want.unwrap_or(72), "select1_raw", "select1_raw({}, {:#018x}) = {:?}, expected {:?}", r, x, c, want.unwrap_or(72));
    }
    Ok(())
}
fn sel_safe(w: &mut W, x: u64, rs: &[u64]) -> R {
    match guard_msg(|| sel(w, x, rs)) {
        Ok(r) => r,
        Err(_) => {
            for &r in rs {
                ok!(select1_raw(r as usize, x), "select1_raw", "select1_raw({}, {:#018x})", r, x);
                ok!(select1(r as usize, x), "select1", "select1({}, {:#018x})", r, x);
                ok!(Broadword(x).select1(r), "select1", "Broadword({:#018x}).select1({})", x, r);
            }
            panic!("HARNESS: panic did not recur")
        }
    }
}

fn main() {
    let mut m = Main::new("C15");
    m.rule("case = (operation, word(s), index); non-trivial = different operands / non-zero word; oracle = lane-by-lane and bit-by-bit definitions");
    m.bound("comparisons: every pair of bytes in every lane over 36 backgrounds; every 4-tuple of 26 critical bytes in each pair of adjacent lanes; every word with one run of ones or zeros, every byte in every lane against a list of words");
    m.bound("select: the same words (and all u16 patterns in each 16-bit lane), every index 0..=300, indices near every power of two and near 2^64");
    let irr = m.pick(200_000, 3_000_000);
    for s in 0..32u64 {
        m.job(format!("byte pairs {}", s), move |w| {
            for lane in 0..8 {
                for p in (0..65536u64).filter(|p| p % 32 == s) {
                    w.at(|| format!("comparison of bytes {:#x} and {:#x} in lane {}", p >> 8, p & 255, lane));
                    let k = !(255u64 << (8 * lane));
                    for bx in BG {
                        for by in BG {
                            cmp(w, (bx & k) | (p >> 8) << (8 * lane), (by & k) | (p & 255) << (8 * lane))?;
                        }
                        nz(w, (bx & k) | (p >> 8) << (8 * lane))?;
                    }
                }
            }
            w.sample(|| format!("byte pairs congruent {} mod 32, e.g. {:#x} <= {:#x}, in each of 8 lanes over 36 backgrounds", s, s, 255 - s));
            Ok(())
        });
        m.job(format!("adjacent lanes {}", s), move |w| {
            let c: Vec<u64> = vec![0, 1, 2, 3, 7, 15, 16, 63, 64, 65, 100, 126, 127, 128, 129, 130, 145, 191, 192, 193, 200, 240, 252, 253, 254, 255];
            for lane in 0..7 {
                for (i, &a) in c.iter().enumerate().filter(|(i, _)| *i as u64 % 32 == s) {
                    w.at(|| format!("adjacent lanes {} {}", lane, i));
                    for &b in &c {
                        for &d in &c {
                            for &e in &c {
                                cmp(w, (a | b << 8) << (8 * lane), (d | e << 8) << (8 * lane))?;
                                cmp(w, !((a | b << 8) << (8 * lane)), (d | e << 8) << (8 * lane))?;
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        m.job(format!("words {}", s), move |w| {
            let f = family(64, irr);
            let other: Vec<u64> = BG.iter().cloned().chain(f.iter().cloned().step_by(f.len() / 40)).collect();
            for &x in f.iter().skip(s as usize).step_by(32) {
                w.at(|| format!("comparisons of {:#x}", x));
                nz(w, x)?;
                for &y in &other {
                    cmp(w, x, y)?;
                    cmp(w, y, x)?;
                }
            }
            Ok(())
        });
        m.job(format!("select {}", s), move |w| {
            let f = family(64, irr);
            let mut near: Vec<u64> = (0..301).chain((3..64).flat_map(|k| (0..5u64).map(move |d| (1u64 << k) + d).chain((1..4u64).map(move |d| (1u64 << k) - d)))).chain((0..200).map(|d| u64::MAX - d)).collect();
            near.sort();
            near.dedup();
            let short: Vec<u64> = (0..300).chain([1000, 1 << 16, 1 << 32, 1 << 63, u64::MAX]).collect();
            for (i, &x) in f.iter().skip(s as usize).step_by(32).enumerate() {
                sel_safe(w, x, if i % 16 == 0 { &near } else { &short })?;
            }
            let low: Vec<u64> = (0..66).collect();
            for lane in 0..4 {
                for x in (0..65536u64).skip(s as usize).step_by(32) {
                    for bg in [0u64, !0] {
                        sel_safe(w, (bg & !(0xffff << (16 * lane))) | x << (16 * lane), &low)?;
                    }
                }
            }
            w.sample(|| format!("select1(r, {:#018x}) for each of {} indices r", f[f.len() / 2 + s as usize], near.len()));
            Ok(())
        });
    }
    let _ = mask(0);
    m.run()
}
