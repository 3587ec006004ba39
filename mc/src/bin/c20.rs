//! C20: universal codes round-trip any sequence of values and self-delimit.
use mc::bits::*;
use mc::codes::*;
use mc::*;
use succinct::stream::{BitRead, BitWrite};

/// The values a sequence is made of.
fn alphabet(d: &Def, n: usize) -> Vec<u64> {
    let fib = *fibs().last().unwrap();
    let wish = [
        1u64, 0, 2, 3, 4, u64::MAX, 5, 7, 8, 1 << 63, fib - 1, 6, u64::MAX - 1, 12, 15, 16, 17, 63, 64, 100, 255, 256, 65535, 1 << 32, (1 << 32) - 1, fib - 2, (1 << 63) - 1, 31, 32, 20, 21, 22, 33, 34, 54, 127, 128,
        0x5555_5555_5555_5555, 0xdead_beef, 1000, 999_999,
    ];
    let mut v: Vec<u64> = wish.iter().cloned().filter(|&x| d.in_domain(x) && affordable(d, x) && !long(d, x)).collect();
    v.truncate(n);
    v
}
fn long(d: &Def, x: u64) -> bool {
    match d {
        Def::Unary => x > 300,
        Def::Lift0(c) => long(c, x.saturating_add(1)),
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum All {
    No,
    Some,
    Yes,
}
fn some(b: bool) -> All {
    if b { All::Some } else { All::No }
}
/// Encodes a sequence onto every kind of sink, decodes it, then checks what follows.
fn sequence(w: &mut W, seq: &[(&dyn Real, u64)], follow: &[bool], all: All) -> R {
    let name = || format!("{:?} then {}", seq.iter().map(|(c, v)| (c.name(), *v)).collect::<Vec<_>>(), bitstr(follow));
    w.at(|| name());
    w.state();
    w.traces += 1;
    let mut s = Sink::default();
    let mut ends = vec![];
    for (c, v) in seq {
        w.step();
        let r = ok!(c.encode_to(&mut s, *v), "encode", "encoding {}", name());
        chk!(r.is_ok(), "encode", "{}: encode({}) in {} = {:?}", c.name(), v, name(), r);
        ends.push(s.bits.len());
    }
    let mut bits = s.bits.clone();
    bits.extend(follow);
    let mut src = Src::new(&bits);
    for (i, (c, v)) in seq.iter().enumerate() {
        w.step();
        let r = ok!(c.decode_from(&mut src), "decode", "decoding {}", name());
        chk!(matches!(r, Ok(Some(x)) if x == *v) && src.at == ends[i], "decode", "value {} of {}: {} gives {:?} at bit {}, encoded up to {}; stream {}", i, name(), c.name(), r, src.at, ends[i], bitstr(&bits));
    }
    if follow.is_empty() {
        for (c, _) in seq.iter().rev().take(2) {
            let r = ok!(c.decode_from(&mut src), "end", "end of {}", name());
            chk!(matches!(r, Ok(None)), "end", "end of {}: {} gives {:?}", name(), c.name(), r);
        }
    }
    if all == All::No {
        return Ok(());
    }
    // the library's own streams, written over old contents of various lengths and past their end
    let off = seq.len() % 3;
    for kind in 0..LIBS.len() {
        if !(all == All::Yes || kind < 2 || kind == 2 + bits.len() % 5) {
            continue;
        }
        let old: Vec<bool> = vec![true; if kind == 0 { off } else { off + [0, bits.len() / 2, bits.len(), bits.len() + 9][(bits.len() / 2 + kind) % 4] }];
        let mut l = Lib::over(kind, &old, if kind == 0 { 0 } else { off });
        for (c, v) in seq {
            let r = ok!(c.encode_lib(&mut l, *v), "encode", "encoding {} onto a {}", name(), LIBS[kind]);
            chk!(r.is_ok(), "encode", "{}: encode({}) in {} onto a {} = {:?}", c.name(), v, name(), LIBS[kind], r);
        }
        for &b in follow {
            let _ = mc::on_lib!(&mut l, t => t.write_bit(b));
        }
        let got = l.bits();
        let mut want: Vec<bool> = old[..off].to_vec();
        want.extend(&bits);
        want.extend(old.iter().skip(want.len()));
        chk!(got == want, "encode", "{}: a {} over {} old bits, from {}, holds {}, a plain sink got {}", name(), LIBS[kind], old.len(), off, bitstr(&got), bitstr(&bits));
        let bits = &want[..];
        let mut l = match l {
            Lib::Q(_) => Lib::over(0, bits, off),
            mut l => {
                chk!(l.rewind(off), "decode", "{}: seeking back to {} fails", name(), off);
                l
            }
        };
        for (i, (c, v)) in seq.iter().enumerate() {
            let r = ok!(c.decode_lib(&mut l), "decode", "decoding {} from a {}", name(), LIBS[kind]);
            let at = l.at(bits.len());
            chk!(matches!(r, Ok(Some(x)) if x == *v) && at == off + ends[i], "decode", "value {} of {}: {} from a {} gives {:?} at {}, encoded up to {}", i, name(), c.name(), LIBS[kind], r, at, off + ends[i]);
        }
        if bits.len() == off + ends[seq.len() - 1] {
            for _ in 0..2 {
                let r = ok!(seq[0].0.decode_lib(&mut l), "end", "end of {}", name());
                chk!(matches!(r, Ok(None)), "end", "end of {} on a {} gives {:?}", name(), LIBS[kind], r);
            }
        }
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C20");
    m.rule("state = one (sequence of (code, value), following bits); transition = one encode or decode by the real code; trace = one whole sequence encoded, decoded value by value with the position compared, and read on to the clean end");
    let depth = m.pick(4usize, 5);
    let alpha = m.pick(16usize, 17);
    m.bound(format!("for every code every sequence of up to {} values over {} small, large and boundary values, decoded to the end", depth, alpha));
    m.bound("every value below 2^15 (thorough 2^18) and every critical value followed by every bit pattern of up to 6 bits and by long constant and mixed bits");
    m.bound("every pair (thorough: triple) of codes with two values each on one stream; runs of 500 consecutive values on one stream; streams of 2^13 to 2^18 bits (thorough 2^21); every stream type of the library (queue, bit buffers over every block type and over bools), fresh and over old contents");
    let commas: &'static [u8] = &[2, 3, 4, 5, 8, 16, 33, 63];
    let thorough = m.thorough;
    for i in 0..codes(commas).len() {
        let name = codes(commas)[i].name();
        let n = alphabet(&codes(commas)[i].def(), alpha).len();
        for first in 0..n {
            m.job(format!("sequences {} first {}", name, first), move |w| {
                let c = &codes(commas)[i];
                let al = alphabet(&c.def(), alpha);
                // all sequences of length up to depth with this first value, shortest first
                for len in 1..=depth {
                    let mut idx = vec![0; len];
                    idx[0] = first;
                    'outer: loop {
                        let seq: Vec<(&dyn Real, u64)> = idx.iter().map(|&k| (&**c, al[k])).collect();
                        sequence(w, &seq, &[], if len < 3 { All::Yes } else { some(len == 3 && idx.iter().sum::<usize>() % 4 == 0) })?;
                        let mut p = len;
                        loop {
                            p -= 1;
                            if p == 0 {
                                break 'outer;
                            }
                            idx[p] += 1;
                            if idx[p] < al.len() {
                                break;
                            }
                            idx[p] = 0;
                        }
                    }
                }
                w.sample(|| format!("{}: sequences over {:?}", c.name(), al));
                Ok(())
            });
        }
        for part in 0..4usize {
            m.job(format!("following {} part {}", name, part), move |w| {
                let c = &codes(commas)[i];
                let d = c.def();
                let dense = if thorough { 1u64 << 18 } else { 1 << 15 };
                let top = if long(&d, 400) { 600 } else { dense };
                for (k, v) in (0..top).chain(critical()).filter(|&v| d.in_domain(v) && affordable(&d, v) && (v < 600 || !long(&d, v))).enumerate() {
                    if k % 4 != part {
                        continue;
                    }
                    let far = v >= top || v < 40;
                    for len in 0..=(if far { 6 } else { 3 }) {
                        for x in 0..1u64 << len {
                            sequence(w, &[(&**c, v)], &word_bits(x, len), if far && len == 0 { All::Yes } else { some(len == 0 || (far && len == 6 && x % 8 == 1)) })?;
                        }
                    }
                    for kind in 0..4 {
                        sequence(w, &[(&**c, v)], &pattern(kind, 130), All::No)?;
                    }
                }
                Ok(())
            });
        }
        m.job(format!("runs {}", name), move |w| {
            let c = &codes(commas)[i];
            let d = c.def();
            let mut starts: Vec<u64> = vec![0, 400];
            if !long(&d, 2000) {
                starts.extend([1000, 1 << 16, (1 << 32) - 250, (1 << 63) - 250, u64::MAX - 499, *fibs().last().unwrap() - 499]);
            }
            for s in starts {
                let seq: Vec<(&dyn Real, u64)> = (0..500).map(|k| s.saturating_add(k)).filter(|&v| d.in_domain(v) && affordable(&d, v)).map(|v| (&**c, v)).collect();
                if !seq.is_empty() {
                    sequence(w, &seq, &[], All::Yes)?;
                }
            }
            let crit: Vec<(&dyn Real, u64)> = critical().into_iter().filter(|&v| d.in_domain(v) && affordable(&d, v) && !long(&d, v)).map(|v| (&**c, v)).collect();
            sequence(w, &crit, &[], All::Yes)
        });
        m.job(format!("long {}", name), move |w| {
            let c = &codes(commas)[i];
            let d = c.def();
            let al: Vec<u64> = critical().into_iter().filter(|&v| d.in_domain(v) && affordable(&d, v) && !long(&d, v)).collect();
            for bits in [1usize << 13, 1 << 16, 1 << 17, if w.thorough { 1 << 21 } else { 1 << 18 }] {
                let mut seq: Vec<(&dyn Real, u64)> = vec![];
                let mut total = 0;
                for k in 0.. {
                    let v = al[(mix(k) % al.len() as u64) as usize];
                    total += d.word(v).len();
                    seq.push((&**c, v));
                    if total > bits {
                        break;
                    }
                }
                w.tick();
                sequence(w, &seq, &[], All::Yes)?;
            }
            Ok(())
        });
        m.job(format!("mixed {}", name), move |w| {
            let all = codes(commas);
            let c = &all[i];
            let pick = |d: &Def| { let a = alphabet(d, 9); vec![a[0], a[a.len() - 1]] };
            for x in pick(&c.def()) {
                for c2 in &all {
                    for y in pick(&c2.def()) {
                        sequence(w, &[(&**c, x), (&**c2, y)], &[], All::Yes)?;
                        sequence(w, &[(&**c, x), (&**c2, y)], &[false, true, true], All::No)?;
                        if thorough {
                            for c3 in &all {
                                for z in pick(&c3.def()) {
                                    sequence(w, &[(&**c, x), (&**c2, y), (&**c3, z)], &[], All::Yes)?;
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
    // digits of every width
    for n in 2..=63u8 {
        m.job(format!("digits Comma({})", n), move |w| {
            let cs = codes(&[n]);
            let c = cs.iter().find(|c| c.name() == format!("Comma({})", n)).expect("HARNESS: code");
            let top = (1u64 << n) - 1;
            let dense = if w.thorough { 20000 } else { 1200 };
            let mut vs: Vec<u64> = (0..dense).collect();
            for d in (0..64u64).chain([top / 3, top / 2, top - 2, top - 1, top, top + 1]) {
                for e in [1, 2, 3, top - 1] {
                    let x = (e as u128).saturating_mul(top as u128).saturating_add(d as u128);
                    vs.push(x.min(u64::MAX as u128) as u64);
                    let x = x.saturating_mul(top as u128).saturating_add(d as u128);
                    vs.push(x.min(u64::MAX as u128) as u64);
                }
            }
            for v in vs {
                sequence(w, &[(&**c, v)], &[], All::No)?;
            }
            Ok(())
        });
    }
    m.bound("comma codes of every digit width 2..63: every value below 1200 (thorough 20000), every low digit below 64 after several others");
    let _ = Src::read_bit;
    m.run()
}
