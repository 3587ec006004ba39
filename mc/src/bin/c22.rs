//! C22: decoding any bit string is total and exact.
use mc::bits::*;
use mc::codes::*;
use mc::*;
use std::io::ErrorKind;
use succinct::coding::{Lift0, UniversalCode, Unary, GAMMA};
use succinct::stream::BitRead;

fn show(b: &[bool]) -> String {
    if b.len() <= 300 {
        bitstr(b)
    } else {
        format!("{}... ({} bits)", bitstr(&b[..300]), b.len())
    }
}
fn good(want: &Dec, got: &std::io::Result<Option<u64>>, used: usize) -> bool {
    match (want, got) {
        (Dec::Value(v, e), Ok(Some(x))) => v == x && used == *e,
        (Dec::Clean, Ok(None)) => used == 0,
        (Dec::Prefix(_), Err(e)) => e.kind() == ErrorKind::UnexpectedEof,
        (Dec::Wrong, Err(_)) => true,
        (Dec::Beyond(v, e), Ok(Some(x))) => v == x && used == *e,
        (Dec::Beyond(..), Err(_)) => true,
        _ => false,
    }
}
fn key(want: &Dec) -> &'static str {
    match want {
        Dec::Value(..) => "complete codeword",
        Dec::Clean => "empty source",
        Dec::Prefix(_) => "proper prefix",
        Dec::Wrong => "beyond 64 bits",
        Dec::Beyond(..) => "beyond the encoder",
    }
}
fn one(w: &mut W, c: &dyn Real, d: &Def, b: &[bool], more: bool) -> R {
    w.at(|| format!("{}: decode {}", c.name(), show(b)));
    w.state();
    let want = d.decode(b, 0);
    let mut s = Src::new(b);
    let r = ok!(c.decode_from(&mut s), key(&want), "{}: decode {}", c.name(), show(b));
    w.transitions += s.accesses as u64;
    w.traces += 1;
    chk!(good(&want, &r, s.at), key(&want), "{}: decode {} = {:?} consuming {}, expected {:?}", c.name(), show(b), r, s.at, want);
    if let Dec::Value(_, e) = want {
        chk!(s.accesses == e, "complete codeword", "{}: decode {} made {} accesses for a codeword of {} bits", c.name(), show(b), s.accesses, e);
    }
    if more {
        for kind in 0..LIBS.len() {
            if b.len() > 64 && kind > 1 && kind != 2 + b.len() % 5 {
                continue;
            }
            // from within a longer stream
            let off = b.len() % 3;
            let all: Vec<bool> = [true, false].iter().take(off).chain(b).cloned().collect();
            let mut l = Lib::over(kind, &all, off);
            let x = ok!(c.decode_lib(&mut l), key(&want), "{}: decode {} from a {}", c.name(), show(b), LIBS[kind]);
            let used = l.at(all.len()) - off;
            chk!(good(&want, &x, used), key(&want), "{}: decode {} = {:?} from a {}, consuming {}, expected {:?}", c.name(), show(b), x, LIBS[kind], used, want);
            // an end stays an end
            if want == Dec::Clean {
                chk!(matches!(c.decode_lib(&mut l), Ok(None)) && matches!(c.decode_from(&mut s), Ok(None)), "empty source", "{}: a second decode at the end differs", c.name());
            }
        }
    }
    Ok(())
}

/// All bit strings of a length, with a given prefix of bits.
fn all(w: &mut W, c: &dyn Real, d: &Def, len: usize) -> R {
    for x in 0..1u64 << len {
        let b = word_bits(x, len);
        one(w, c, d, &b, len <= 11)?;
    }
    Ok(())
}

/// Every truncation, and every single-bit change followed by zeros, ones or a mixture.
fn deviations(w: &mut W, c: &dyn Real, d: &Def, word: &[bool], flips: usize) -> R {
    for n in 0..=word.len() {
        one(w, c, d, &word[..n], n % 16 == 0)?;
    }
    for kind in 0..4 {
        let mut b = word.to_vec();
        b.extend(pattern(kind, 150));
        one(w, c, d, &b, kind == 3)?;
        if flips == 0 {
            continue;
        }
        for i in 0..word.len() {
            b[i] = !b[i];
            one(w, c, d, &b, false)?;
            one(w, c, d, &b[..word.len()], false)?;
            if flips > 1 {
                for j in 0..i {
                    b[j] = !b[j];
                    one(w, c, d, &b, false)?;
                    b[j] = !b[j];
                }
            }
            b[i] = !b[i];
        }
    }
    Ok(())
}

/// Strings at and beyond the 64-bit limits, by the shape of the code.
fn extremes(d: &Def) -> Vec<Vec<bool>> {
    let mut v = vec![];
    match d {
        Def::Unary => {
            for n in [62, 63, 64, 65, 127, 128, 255, 256, 257, 1500] {
                let mut b = vec![false; n];
                v.push(b.clone());
                b.push(true);
                v.push(b);
            }
        }
        Def::Elias(h) => {
            let mut heads = extremes(h);
            heads.sort();
            heads.dedup();
            let step = heads.len() / 500 + 1;
            heads = heads.into_iter().enumerate().filter(|(i, b)| i % step == 0 && b.len() < 400).map(|x| x.1).collect();
            for n in (0..200).chain((0..64).flat_map(|k| [(1u64 << k).wrapping_sub(1), 1 << k, (1 << k) + 1, (1 << k) + 63, (1 << k) + 64])).chain([u64::MAX, u64::MAX - 1, u64::MAX - 63, u64::MAX - 64]) {
                if h.in_domain(n) && affordable(h, n) {
                    heads.push(h.word(n));
                }
            }
            for b in heads {
                for n in [0, 1, 62, 63, 64, 65, 70, 128] {
                    for fill in [false, true] {
                        let mut x = b.clone();
                        x.extend(vec![fill; n]);
                        v.push(x);
                    }
                }
            }
        }
        Def::Omega => {
            // chains of groups: the last group's length chosen freely
            for n in (1u64..140).chain((0..64).flat_map(|k| [(1u64 << k), (1 << k) + 1, (1 << k) + 62, (1 << k) + 63, (1u64 << k).wrapping_sub(1).max(1)])).chain([u64::MAX, u64::MAX - 1]) {
                let mut b = Def::Omega.word(n);
                b.pop();
                for tail in [0, 1, 2, 62, 63, 64, 65, 66, 67, 128, 130, 140] {
                    for fill in [false, true] {
                        let mut x = b.clone();
                        x.push(true);
                        x.extend(vec![fill; tail]);
                        v.push(x.clone());
                        x.push(false);
                        v.push(x);
                    }
                }
            }
        }
        Def::Fibonacci => {
            // one or two ones among zeros, then the end mark after a while or not
            for n in 85..105usize {
                for i in 0..n {
                    let mut b = vec![false; n];
                    b[i] = true;
                    v.push(b.clone());
                    let mut c = b.clone();
                    c.truncate(i + 1);
                    c.push(true);
                    v.push(c);
                    for j in (0..i.saturating_sub(1)).step_by(3).chain([i.saturating_sub(2)]) {
                        let mut c = b.clone();
                        c.truncate(i + 1);
                        c[j] = true;
                        v.push(c.clone());
                        c.push(true);
                        v.push(c);
                    }
                }
            }
            // Zeckendorf sums around the end of the 64-bit range
            let mut f = vec![1u128, 2];
            while f.len() < 100 {
                f.push(f[f.len() - 1] + f[f.len() - 2])
            }
            let top = *fibs().last().unwrap() as u128;
            let ends = [1u128 << 64, top, 1 << 63, 1 << 65, f[94]];
            for e in ends {
                for k in 0..40u128 {
                    for x in [e - k, e + k, e + (k << 58), e.wrapping_sub(k << 58).min(1 << 70)] {
                        if x == 0 || x >= 1 << 66 {
                            continue;
                        }
                        let t = f.iter().rposition(|&y| y <= x).unwrap();
                        let mut b = vec![false; t + 1];
                        let mut rest = x;
                        for i in (0..=t).rev() {
                            if f[i] <= rest {
                                b[i] = true;
                                rest -= f[i]
                            }
                        }
                        v.push(b.clone());
                        b.push(true);
                        v.push(b);
                    }
                }
            }
        }
        Def::Comma(n) => {
            let base = (1u128 << n) - 1;
            let word = |ds: &[u128]| -> Vec<bool> { ds.iter().flat_map(|&x| (0..*n).map(move |i| x >> i & 1 == 1)).collect() };
            let digits = |mut x: u128| {
                let mut ds = vec![];
                while x > 0 {
                    ds.push(x % base);
                    x /= base
                }
                ds.reverse();
                ds
            };
            let mut list = vec![];
            for k in 0..200u128 {
                for s in 0..5 {
                    list.push((1u128 << 64).wrapping_add(k << (16 * s)));
                    list.push((1u128 << 64).wrapping_sub(k << (12 * s)));
                }
                list.push((1 << 63) + k);
                list.push(((1u128 << 64) - 1) * base + k);
                list.push((1u128 << 64) * base + k);
                list.push((1u128 << 65) - 1 - k);
                list.push(1u128 << (64 + k % 40));
            }
            for x in list.into_iter().filter(|&x| x < 1 << 110) {
                let mut ds = digits(x);
                v.push(word(&ds));
                ds.push(base);
                v.push(word(&ds));
                // leading zero digits mean nothing
                ds.insert(0, 0);
                v.push(word(&ds));
            }
            // constant digit strings of every length
            for len in 0..(200 / *n as usize + 4) {
                for x in [0, 1, base - 1, base / 2] {
                    let mut ds = vec![x; len];
                    v.push(word(&ds));
                    ds.push(base);
                    v.push(word(&ds));
                    ds.insert(0, 1.min(base - 1));
                    v.push(word(&ds));
                }
            }
        }
        Def::Lift0(c) => v = extremes(c),
    }
    v
}

/// Zeros, then perhaps a one and ones after it.
struct Zeros {
    at: u64,
    zeros: u64,
    ones: u64,
}
impl BitRead for Zeros {
    fn read_bit(&mut self) -> std::io::Result<Option<bool>> {
        if self.at >= self.zeros + self.ones {
            return Ok(None);
        }
        self.at += 1;
        Ok(Some(self.at > self.zeros))
    }
}
fn huge<C: UniversalCode>(w: &mut W, c: &C, zeros: u64, ones: u64, want: Dec) -> R {
    w.at(|| format!("decode {} zeros", zeros));
    w.state();
    w.traces += 1;
    w.transitions += zeros + 1;
    let mut s = Zeros { at: 0, zeros, ones };
    let r = ok!(c.decode(&mut s), key(&want), "decode {} zeros then {} ones", zeros, ones);
    chk!(good(&want, &r, s.at as usize), key(&want), "decode {} zeros then {} ones = {:?} consuming {}, expected {:?}", zeros, ones, r, s.at, want);
    Ok(())
}

fn main() {
    let mut m = Main::new("C22");
    m.rule("state = one (code, bit string) decoded by the real decoder; transition = one access to the source; trace = one decode compared with the reference decoder (value and bits consumed, clean end, prefix or overflow)");
    let len = m.pick(19usize, 23);
    m.bound(format!("every bit string of length 0..={} for every code (published, lifted, and Elias codes over other headers; Comma(2)..(8), (16), (31)..(33), (62), (63))", len));
    m.bound("the codeword of every critical value of at most 400 bits: every truncation, every single-bit change (thorough: also every two-bit change of words up to 140 bits) followed by nothing, zeros, ones and mixtures");
    m.bound("strings built at and beyond the 64-bit limits: header lengths, omega group chains, Fibonacci sums and comma digit strings around 2^64; constant streams of every length to 700 (thorough 2500)");
    m.bound("sources of more than 2^32 zeros, ended by a one or not, for the unary codes and the header of gamma");
    let z = 1u64 << 32;
    for d in 0..3u64 {
        let n = z - 1 + d;
        m.job(format!("huge unary {}", d), move |w| huge(w, &Unary, n, 2, Dec::Value(n, n as usize + 1)));
        m.job(format!("huge unary prefix {}", d), move |w| huge(w, &Unary, n, 0, Dec::Prefix(n as u128)));
        m.job(format!("huge lifted unary {}", d), move |w| huge(w, &Lift0(Unary), n, 2, Dec::Value(n - 1, n as usize + 1)));
    }
    // a header far beyond 63, also when its low 32 bits would do
    m.job("huge gamma", move |w| huge(w, &GAMMA, z + 3, 70, Dec::Wrong));
    let commas: &'static [u8] = &[2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 62, 63];
    for i in 0..codes(commas).len() {
        let name = codes(commas)[i].name();
        for l in 0..=len {
            m.job(format!("all {} length {}", name, l), move |w| {
                let c = &codes(commas)[i];
                all(w, &**c, &c.def(), l)
            });
        }
        let thorough = m.thorough;
        let parts = if thorough { 48 } else { 4 };
        for part in 0..parts {
            m.job(format!("words {} part {}", name, part), move |w| {
                let c = &codes(commas)[i];
                let d = c.def();
                let mut k = 0;
                for v in critical() {
                    if !d.in_domain(v) || !affordable(&d, v) {
                        continue;
                    }
                    let b = d.word(v);
                    if b.len() > 400 {
                        continue;
                    }
                    k += 1;
                    if k % parts != part {
                        continue;
                    }
                    let flips = if thorough && b.len() <= 140 { if k % 5 == 0 { 2 } else { 1 } } else if thorough || mix(v) % 3 == 0 || v > u64::MAX - 10 { 1 } else { 0 };
                    deviations(w, &**c, &d, &b, flips)?;
                }
                Ok(())
            });
        }
        m.job(format!("limits {}", name), move |w| {
            let c = &codes(commas)[i];
            let d = c.def();
            let n = if w.thorough { 2500 } else { 700 };
            for n in 0..n {
                for b in [vec![false; n], vec![true; n], pattern(2, n), pattern(3, n)] {
                    one(w, &**c, &d, &b, n % 64 < 2)?;
                }
            }
            let mut list = extremes(&d);
            list.sort();
            list.dedup();
            for b in list {
                one(w, &**c, &d, &b, b.len() < 150)?;
                for cut in 1..4.min(b.len()) {
                    one(w, &**c, &d, &b[..b.len() - cut], false)?;
                }
                let mut x = b.clone();
                x.extend([true, true, false, true, true]);
                one(w, &**c, &d, &x, false)?;
            }
            w.sample(|| format!("{}: 40 ones -> {:?}", c.name(), d.decode(&vec![true; 40], 0)));
            Ok(())
        });
    }
    for n in 2..=63u8 {
        m.job(format!("digits Comma({})", n), move |w| {
            let cs = codes(&[n]);
            let c = cs.iter().find(|c| c.name() == format!("Comma({})", n)).expect("HARNESS: code");
            let d = c.def();
            for v in (0..if w.thorough { 20000 } else { 1000 }).chain(critical()) {
                let mut b = d.word(v);
                one(w, &**c, &d, &b, false)?;
                // leading zero digits, a cut, and one digit more
                let mut z = vec![false; n as usize];
                z.extend(&b);
                one(w, &**c, &d, &z, false)?;
                b.pop();
                one(w, &**c, &d, &b, false)?;
            }
            Ok(())
        });
    }
    m.bound("comma codes of every digit width 2..63: the codewords of every value below 1000 (thorough 20000) and of every critical value, with a leading zero digit, and cut short");
    m.run()
}
