//! C24: stream errors surface unchanged and stop the operation at once.
use mc::bits::*;
use mc::codes::*;
use mc::*;
use num_traits::PrimInt;
use succinct::stream::{BitRead, BitWrite};

/// Encode with the sink failing at bit `p`.
fn enc(w: &mut W, c: &dyn Real, word: &[bool], v: u64, p: usize, kind: usize) -> R {
    w.at(|| format!("{}: encode({}) onto a sink failing at bit {} with kind {}", c.name(), v, p, kind));
    w.evals += 1;
    let mut s = Sink { fault: Some((p, kind)), ..Sink::default() };
    let r = ok!(c.encode_to(&mut s, v), "encode", "{}: encode({}) onto a sink failing at bit {}", c.name(), v, p);
    if p < word.len() {
        w.nontrivial += 1;
        w.outcome("encode error surfaced");
        chk!(matches!(&r, Err(e) if is_mark(e, kind, p)), "encode", "{}: encode({}) onto a sink failing at bit {} with {:?} returns {:?}", c.name(), v, p, mark(kind, p), r);
        chk!(s.bits[..] == word[..p], "encode", "{}: encode({}) onto a sink failing at bit {} wrote {}, codeword {}", c.name(), v, p, bitstr(&s.bits), bitstr(word));
        chk!(s.after == 0, "encode", "{}: encode({}) writes {} more times after the failure at bit {}", c.name(), v, s.after, p);
    } else {
        chk!(r.is_ok() && s.bits == word && !s.failed, "encode", "{}: encode({}) onto a sink that would fail only at bit {} returns {:?} after {}", c.name(), v, p, r, bitstr(&s.bits));
    }
    Ok(())
}
/// Decode from these bits, the source failing at bit `p`.
fn dec(w: &mut W, c: &dyn Real, d: &Def, b: &[bool], p: usize, kind: usize) -> R {
    w.at(|| format!("{}: decode {} failing at bit {} with kind {}", c.name(), bitstr(b), p, kind));
    w.evals += 1;
    let mut s = Src::new(b);
    s.fault = Some((p, kind));
    let r = ok!(c.decode_from(&mut s), "decode", "{}: decode {} failing at bit {}", c.name(), bitstr(b), p);
    chk!(s.after == 0, "decode", "{}: decode {} reads {} more times after the failure at bit {}", c.name(), bitstr(b), s.after, p);
    let want = d.decode(&b[..p.min(b.len())], 0);
    match want {
        // over before the failure
        Dec::Value(v, e) => {
            w.outcome("value before the failure");
            chk!(matches!(r, Ok(Some(x)) if x == v) && s.at == e && !s.failed, "decode", "{}: decode {} failing only at bit {} = {:?} after {} bits", c.name(), bitstr(b), p, r, s.at);
        }
        Dec::Wrong | Dec::Beyond(..) => {
            w.outcome("beyond before the failure");
            let fine = if s.failed { matches!(&r, Err(e) if is_mark(e, kind, p)) } else { r.is_err() || matches!(want, Dec::Beyond(..)) };
            chk!(fine, "decode", "{}: decode {} failing at bit {} = {:?}", c.name(), bitstr(b), p, r);
        }
        Dec::Clean | Dec::Prefix(_) => {
            w.nontrivial += 1;
            w.outcome("decode error surfaced");
            chk!(matches!(&r, Err(e) if is_mark(e, kind, p)) && s.at == p && s.failed, "decode", "{}: decode {} from a source failing at bit {} with {:?} returns {:?} after {} bits", c.name(), bitstr(b), p, mark(kind, p), r, s.at);
        }
    }
    Ok(())
}

fn ints<T: PrimInt + std::fmt::Debug>(w: &mut W, name: &str, width: usize) -> R {
    for n in 0..=width {
        for be in [false, true] {
            for x in 0..3u64 {
                let v = match x { 0 => T::zero(), 1 => !T::zero(), _ => (0..width).fold(T::zero(), |v, i| if mix((i / 64) as u64 + 5) >> (i % 64) & 1 == 1 { v | T::one() << i } else { v }) };
                let mut word: Vec<bool> = (0..n).map(|i| (v >> i) & T::one() != T::zero()).collect();
                if be {
                    word.reverse();
                }
                for p in 0..=n {
                    for kind in (0..NKINDS).filter(|k| n <= 9 || x == 0 || (k + p) % 7 == 0) {
                        w.at(|| format!("{} n={} be={} value {} failing at {}", name, n, be, x, p));
                        w.evals += 2;
                        w.nontrivial += 2 * (p < n) as u64;
                        let what = || format!("{} {} bits{} of {:?}, failing at bit {} with {:?}", name, n, if be { " big-endian" } else { "" }, v, p, mark(kind, p));
                        let mut s = Sink { fault: Some((p, kind)), ..Sink::default() };
                        let r = ok!(if be { s.write_int_be(n, v) } else { s.write_int(n, v) }, "write_int", "{}", what());
                        if p < n {
                            chk!(matches!(&r, Err(e) if is_mark(e, kind, p)) && s.bits[..] == word[..p] && s.after == 0, "write_int", "{}: write returns {:?} with {} written and {} further attempts", what(), r, bitstr(&s.bits), s.after);
                        } else {
                            chk!(r.is_ok() && s.bits == word && !s.failed, "write_int", "{}: write returns {:?}", what(), r);
                        }
                        let mut s = Src::new(&word);
                        s.fault = Some((p, kind));
                        let r = ok!(if be { s.read_int_be::<T>(n) } else { s.read_int::<T>(n) }, "read_int", "{}", what());
                        if p < n {
                            chk!(matches!(&r, Err(e) if is_mark(e, kind, p)) && s.at == p && s.after == 0, "read_int", "{}: read returns {:?} at {} with {} further attempts", what(), r, s.at, s.after);
                        } else {
                            chk!(matches!(r, Ok(Some(_))) && !s.failed, "read_int", "{}: read returns {:?}", what(), r);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C24");
    m.rule("one evaluation = one operation with a fault injected at one bit position with one error; non-trivial when the fault is reached before the operation is over");
    let dense = m.pick(400u64, 5000);
    let len = m.pick(12usize, 16);
    m.bound(format!("every code: every value below {} and every critical value, the sink and the source failing at every bit position of the codeword, with every one of {} errors for small values (one rotating for the others)", dense, NKINDS));
    m.bound(format!("every bit string of up to {} bits with the source failing at every position up to its end", len));
    m.bound("integers: every width 0..=n of every primitive integer type, both orders, three values, every position");
    let commas: &'static [u8] = &[2, 3, 4, 5, 8, 16, 33, 63];
    for i in 0..codes(commas).len() {
        let name = codes(commas)[i].name();
        for part in 0..4usize {
            m.job(format!("words {} part {}", name, part), move |w| {
                let c = &codes(commas)[i];
                let d = c.def();
                for (k, v) in (0..dense).chain(critical()).enumerate() {
                    if k % 4 != part || !d.in_domain(v) || !affordable(&d, v) {
                        continue;
                    }
                    let word = d.word(v);
                    if word.len() > 700 {
                        continue;
                    }
                    for p in 0..=word.len() {
                        for kind in 0..NKINDS {
                            if v < 40 || (v as usize).wrapping_add(p) % NKINDS == kind {
                                enc(w, &**c, &word, v, p, kind)?;
                                dec(w, &**c, &d, &word, p, kind)?;
                            }
                        }
                    }
                    // failing exactly where the source would have ended
                    let mut b = word.clone();
                    b.extend([true, false, true]);
                    for p in [word.len(), word.len() + 1] {
                        dec(w, &**c, &d, &b, p, v as usize % NKINDS)?;
                    }
                }
                Ok(())
            });
        }
        m.job(format!("strings {}", name), move |w| {
            let c = &codes(commas)[i];
            let d = c.def();
            for n in 0..=len {
                for x in 0..1u64 << n {
                    let b = word_bits(x, n);
                    for p in if n > 9 { vec![n, n - 1, (x % n as u64) as usize] } else { (0..=n).collect() } {
                        dec(w, &**c, &d, &b, p, (x as usize + p) % NKINDS)?;
                    }
                }
            }
            for n in (0..300).step_by(7) {
                for kind in 0..4 {
                    let b = pattern(kind, n);
                    for p in 0..=n {
                        dec(w, &**c, &d, &b, p, (n + p) % NKINDS)?;
                    }
                }
            }
            w.sample(|| format!("{}: sources of up to {} bits failing everywhere", c.name(), len));
            Ok(())
        });
    }
    m.bound(format!("codewords of 700 to {} bits, failing at marked positions (the ends, every 1024th bit, around every power of two)", m.pick(100_000, 1_000_000)));
    let top = m.pick(100_000u64, 1_000_000);
    for i in 0..codes(commas).len() {
        let name = codes(commas)[i].name();
        m.job(format!("long words {}", name), move |w| {
            let c = &codes(commas)[i];
            let d = c.def();
            for v in [700u64, 1023, 1024, 1025, 4095, 4097, 65535, 65536, 65537, 99_990, 999_990] {
                if v > top || !d.in_domain(v) || !affordable(&d, v) || d.word(v).len() < 700 {
                    continue;
                }
                let word = d.word(v);
                let n = word.len();
                let mut ps: Vec<usize> = vec![0, 1, n - 2, n - 1, n];
                ps.extend((0..n).step_by((n / 20).max(1024)));
                for k in 6..20 {
                    ps.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1].iter().filter(|p| **p < n));
                }
                for p in ps {
                    for kind in [p % NKINDS, (p / 7 + 3) % NKINDS] {
                        enc(w, &**c, &word, v, p, kind)?;
                        dec(w, &**c, &d, &word, p, kind)?;
                    }
                }
            }
            Ok(())
        });
    }
    m.job("ints u8", |w| ints::<u8>(w, "u8", 8));
    m.job("ints u16", |w| ints::<u16>(w, "u16", 16));
    m.job("ints u32", |w| ints::<u32>(w, "u32", 32));
    m.job("ints u64", |w| ints::<u64>(w, "u64", 64));
    m.job("ints u128", |w| ints::<u128>(w, "u128", 128));
    m.job("ints usize", |w| ints::<usize>(w, "usize", 64));
    m.job("ints i8", |w| ints::<i8>(w, "i8", 8));
    m.job("ints i16", |w| ints::<i16>(w, "i16", 16));
    m.job("ints i32", |w| ints::<i32>(w, "i32", 32));
    m.job("ints i64", |w| ints::<i64>(w, "i64", 64));
    m.job("ints i128", |w| ints::<i128>(w, "i128", 128));
    m.job("ints isize", |w| ints::<isize>(w, "isize", 64));
    m.run()
}
