//! C27: textual forms show exactly the contents.
use mc::bits::*;
use mc::vecs::*;
use mc::*;
use std::fmt::{Debug, Write};
use succinct::{BitVec, BitVecPush, BitVector, IntVec, IntVector};

/// Accepts `room` bytes, then fails.
struct Failing {
    text: String,
    room: usize,
    failed: u32,
}
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed > 0 || self.text.len() + s.len() > self.room {
            self.failed += 1;
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
/// Every way of failing: the error comes back, what was accepted is a beginning of the text.
fn failing(w: &mut W, key: &str, name: &str, want: &str, rooms: &[usize], f: &dyn Fn(&mut Failing) -> std::fmt::Result) -> R {
    for &room in rooms {
        w.step();
        let mut s = Failing { text: String::new(), room, failed: 0 };
        let r = ok!(f(&mut s), key, "{} onto a sink taking {} bytes", name, room);
        if room < want.len() {
            chk!(r.is_err(), key, "{} onto a sink failing after {} bytes reports success having written {:?}", name, room, s.text);
            chk!(want.starts_with(&s.text), key, "{} onto a sink failing after {} bytes wrote {:?}, not a beginning of {:?}", name, room, s.text, want);
        } else {
            chk!(r.is_ok() && s.text == want, key, "{} onto a sink taking {} bytes: {:?}, {:?}", name, room, r, s.text);
        }
    }
    Ok(())
}

fn bits<B: Blk>(w: &mut W, v: &BitVector<B>, m: &[bool], full: bool) -> R {
    w.at(|| format!("{{:b}} of BitVector<{}> {}", B::NAME, bitstr(m)));
    w.state();
    w.step();
    w.traces += 1;
    let want: String = m.iter().map(|&b| if b { '1' } else { '0' }).collect();
    let got = ok!(format!("{:b}", v), "binary", "{{:b}} of BitVector<{}> {}", B::NAME, bitstr(m));
    chk!(got == want, "binary", "{{:b}} of BitVector<{}> is {:?}, contents {:?}", B::NAME, got, want);
    if full {
        let again = format!("{:b}", v);
        chk!(again == want && raw_eq(v, m), "binary", "formatting BitVector<{}> {} twice: {:?}", B::NAME, bitstr(m), again);
        // among other text, and asked for prefixes
        let mixed = format!("<{:b}|{:b}>{:#b}", v, v, v);
        chk!(mixed == format!("<{}|{}>{}", want, want, want), "binary", "BitVector<{}> {} among other text: {:?}", B::NAME, bitstr(m), mixed);
        // no flag may add, drop or round digits
        for (flag, t) in [("0w", format!("{:03b}", v)), (".2", format!("{:.2b}", v)), ("+", format!("{:+b}", v))] {
            chk!(t == want, "binary", "{{:{}b}} of BitVector<{}> is {:?}, contents {:?}", flag, B::NAME, t, want);
        }
        let rooms: Vec<usize> = (0..=m.len() + 1).filter(|r| m.len() < 40 || r % 13 == 0 || r + 3 > m.len()).collect();
        failing(w, "binary", &format!("{{:b}} of BitVector<{}> {}", B::NAME, bitstr(m)), &want, &rooms, &|s| write!(s, "{:b}", v))?;
    }
    Ok(())
}
fn raw_eq<B: Blk>(v: &BitVector<B>, m: &[bool]) -> bool {
    stores::raw(v) == m
}

fn ints<B: Blk + Debug>(w: &mut W, v: &IntVector<B>, k: usize, e: &[u64], full: bool) -> R {
    w.at(|| format!("{{:?}} of IntVector<{}>({}) {:?}", B::NAME, k, e));
    w.state();
    w.step();
    w.traces += 1;
    let mut want = format!("IntVector {{ element_bits: {}, elements: {{ ", k);
    for x in e {
        want.push_str(&format!("{}, ", x));
    }
    want.push_str("} }");
    let got = ok!(format!("{:?}", v), "debug", "{{:?}} of IntVector<{}>({}) {:?}", B::NAME, k, e);
    chk!(got == want, "debug", "{{:?}} of IntVector<{}>({}) is {:?}, expected {:?}", B::NAME, k, got, want);
    if full {
        let alt = format!("{:#?}", v);
        let numbers: Vec<u64> = alt.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let mut expect = vec![k as u64];
        expect.extend(e);
        chk!(numbers == expect, "debug", "{{:#?}} of IntVector<{}>({}) lists {:?}, expected {:?}", B::NAME, k, numbers, expect);
        let rooms: Vec<usize> = (0..=want.len() + 1).filter(|r| want.len() < 150 || r % 17 == 0 || r + 3 > want.len()).collect();
        failing(w, "debug", &format!("{{:?}} of IntVector<{}>({}) {:?}", B::NAME, k, e), &want, &rooms, &|s| write!(s, "{:?}", v))?;
        let mixed = format!("{:?}{:?}", v, v);
        chk!(mixed == want.clone() + &want, "debug", "IntVector<{}>({}) twice: {:?}", B::NAME, k, mixed);
    }
    Ok(())
}

/// The same contents reached through longer ones.
fn shrunk<B: Blk>(m: &[bool], extra: usize) -> BitVector<B> {
    let mut v = bv_from::<B>(m);
    for _ in 0..extra {
        v.push_bit(true);
    }
    if extra % 2 == 0 {
        v.truncate(m.len() as u64);
    } else {
        for _ in 0..extra {
            v.pop_bit();
        }
    }
    v
}

fn add<B: Blk + Debug>(m: &mut Main) {
    let len = m.pick(17usize, 20);
    for part in 0..4u64 {
        m.job(format!("bits {} part {}", B::NAME, part), move |w| {
            for n in 0..=len {
                for x in (0..1u64 << n).filter(|x| x % 4 == part) {
                    let b = word_bits(x, n);
                    bits(w, &bv_from::<B>(&b), &b, n <= 9)?;
                    if n <= 10 {
                        for extra in [1, 2, B::W - 1, B::W + 2] {
                            bits(w, &shrunk::<B>(&b, extra), &b, false)?;
                        }
                    }
                }
            }
            Ok(())
        });
    }
    let top = m.pick(600usize, 3000);
    m.job(format!("longer bits {}", B::NAME), move |w| {
        for n in 0..=top {
            for kind in 0..4 {
                let b = pattern(kind, n);
                let full = n < 150 || n % B::W < 2;
                bits(w, &bv_from::<B>(&b), &b, full)?;
                bits(w, &shrunk::<B>(&b, 1 + n % (B::W + 3)), &b, false)?;
            }
        }
        for n in [1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 10000, 16385, 32769, 65535, 65536, 65537, 100_000] {
            for kind in [1, 3] {
                let b = pattern(kind, n);
                bits(w, &bv_from::<B>(&b), &b, n == 4097)?;
                bits(w, &shrunk::<B>(&b, 1 + n % (B::W + 3)), &b, false)?;
            }
            w.tick();
        }
        w.sample(|| format!("BitVector<{}> of 11 bits prints {}", B::NAME, bitstr(&pattern(3, 11))));
        Ok(())
    });
    for k in 1..=B::W {
        let deep = m.thorough;
        m.job(format!("ints {} width {}", B::NAME, k), move |w| {
            // every short list over the critical values, then longer ones
            let vals = if k <= 3 { kvals(k) } else { let mut v = vec![0, 1, mask(k), 1 << (k - 1), 10, 100 % mask(k).max(101)]; v.retain(|&x| x <= mask(k)); v.dedup(); v };
            let depth = if deep { 6 } else { 4 };
            let mut lists: Vec<Vec<u64>> = vec![vec![]];
            let mut last = lists.clone();
            for _ in 0..depth {
                let mut next = vec![];
                for l in &last {
                    for &x in &vals {
                        let mut l = l.clone();
                        l.push(x);
                        next.push(l);
                    }
                }
                lists.extend(next.iter().cloned());
                last = next;
            }
            for n in (0..(4 * B::W / k + 6)).chain([150, 301, 1000, 1025, 4097]) {
                lists.push((0..n).map(|i| mix((i + k) as u64) & mask(k)).collect());
                lists.push(vec![mask(k); n]);
            }
            for l in lists {
                let mut v = IntVector::<B>::new(k);
                for &x in &l {
                    v.push(B::of(x));
                }
                ints(w, &v, k, &l, l.len() < 4 || l.len() > depth && l.len() % 5 == 0)?;
                // reached through longer contents
                for _ in 0..3 {
                    v.push(B::of(mask(k)));
                }
                v.truncate(l.len() as u64);
                ints(w, &v, k, &l, false)?;
            }
            Ok(())
        });
    }
}

fn main() {
    let mut m = Main::new("C27");
    m.rule("state = one vector formatted; transition = one formatting onto a string or onto a sink failing at one byte; trace = one text compared with the independently built one");
    let (a, b) = (m.pick(17, 20), m.pick(600, 3000));
    m.bound(format!("bit vectors over every block type: every content of 0..={} bits (each also reached by shrinking longer vectors), four contents of every length to {}, two of selected lengths to 100000", a, b));
    m.bound("integer vectors over every block type at every width: every list of up to 4 (thorough 6) values from the critical ones, lists crossing several blocks");
    m.bound("an output sink failing after every number of bytes (selected numbers for long texts)");
    add::<u8>(&mut m);
    add::<u16>(&mut m);
    add::<u32>(&mut m);
    add::<u64>(&mut m);
    add::<usize>(&mut m);
    let _ = (IntVector::<u8>::new(2).len(), BitVector::<u8>::new().bit_len());
    m.run()
}
