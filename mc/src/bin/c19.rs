//! C19: fixed-width integer stream I/O is exact in both bit orders.
use mc::bits::*;
use mc::codes::*;
use mc::*;
use num_traits::PrimInt;
use std::collections::VecDeque;
use std::io::ErrorKind;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::BitVector;

trait I: PrimInt + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const W: usize;
    fn from_bits_(x: u128) -> Self;
    fn pattern(self) -> u128;
}
macro_rules! ints {
    ($($t:ty, $u:ty);*) => {$(
        impl I for $t {
            const NAME: &'static str = stringify!($t);
            const W: usize = <$u>::BITS as usize;
            fn from_bits_(x: u128) -> Self { x as $u as $t }
            fn pattern(self) -> u128 { self as $u as u128 }
        }
    )*};
}
ints!(u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; usize, usize; i8, u8; i16, u16; i32, u32; i64, u64; i128, u128; isize, usize);

fn low(n: usize) -> u128 {
    if n >= 128 {
        !0
    } else {
        (1 << n) - 1
    }
}
/// What `n` bits of `x` look like on the stream.
fn emitted(x: u128, n: usize, be: bool) -> Vec<bool> {
    let v: Vec<bool> = (0..n).map(|i| x >> i & 1 == 1).collect();
    if be {
        v.into_iter().rev().collect()
    } else {
        v
    }
}
fn put<T: I, S: BitWrite>(s: &mut S, be: bool, n: usize, x: T) -> std::io::Result<()> {
    if be {
        s.write_int_be(n, x)
    } else {
        s.write_int(n, x)
    }
}
fn get<T: I, S: BitRead>(s: &mut S, be: bool, n: usize) -> std::io::Result<Option<T>> {
    if be {
        s.read_int_be(n)
    } else {
        s.read_int(n)
    }
}
fn ord(be: bool) -> &'static str {
    if be {
        "_be"
    } else {
        ""
    }
}

/// Patterns with few runs of ones, single bits, and irregular ones.
fn patterns(w: usize, irregular: usize) -> Vec<u128> {
    let mut v = vec![];
    for a in 0..=w {
        for b in a..=w {
            let r = low(b) & !low(a);
            v.push(r);
            v.push(!r & low(w));
        }
    }
    for i in 0..irregular as u64 {
        v.push(((mix(i) as u128) << 64 | mix(i + 7777) as u128) & low(w));
    }
    v.extend([0x5555_5555_5555_5555_5555_5555_5555_5555 & low(w), 0xaaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa_aaaa & low(w)]);
    v.sort();
    v.dedup();
    v
}

/// Write, compare the bits, read back with bits following.
fn one<T: I>(w: &mut W, be: bool, n: usize, x: u128, more: bool) -> R {
    w.at(|| format!("write_int{}::<{}>({}, {:#x})", ord(be), T::NAME, n, x));
    w.state();
    w.traces += 1;
    w.transitions += 2 * n as u64;
    let what = || format!("write_int{}::<{}>({}, {:#x})", ord(be), T::NAME, n, x);
    let want = emitted(x, n, be);
    let mut s = Sink::default();
    let r = ok!(put(&mut s, be, n, T::from_bits_(x)), "write", "{}", what());
    chk!(r.is_ok() && s.bits == want, "write", "{} = {:?} emitted {}, expected {}", what(), r, bitstr(&s.bits), bitstr(&want));
    let follow = s.bits.len() % 3;
    let mut b = want.clone();
    b.extend([true, false].iter().take(follow));
    let mut src = Src::new(&b);
    let got = ok!(get::<T, _>(&mut src, be, n), "read", "{} then read", what());
    let want_v = T::from_bits_(x & low(n));
    let good = matches!(&got, Ok(Some(v)) if *v == want_v) && src.at == n;
    chk!(good, "read", "{} then read_int{}({}) = {:?} consuming {} bits, expected {:?}", what(), ord(be), n, got, src.at, want_v);
    if more {
        // the library's own streams, from unaligned places
        let off = (x as usize ^ n) % 11;
        let mut q: VecDeque<bool> = (0..off).map(|i| i % 2 == 0).collect();
        let mut t8 = BitBuffer::<BitVector<u8>>::new();
        let mut t64 = BitBuffer::<BitVector<u64>>::new();
        for i in 0..off {
            let _ = (t8.write_bit(i % 2 == 0), t64.write_bit(i % 2 == 0));
        }
        let r = ok!(
            (put(&mut q, be, n, T::from_bits_(x)).is_ok(), put(&mut t8, be, n, T::from_bits_(x)).is_ok(), put(&mut t64, be, n, T::from_bits_(x)).is_ok()),
            "write", "{} onto the library's streams", what()
        );
        chk!(r == (true, true, true), "write", "{} onto the library's streams failed", what());
        let all: Vec<bool> = (0..off).map(|i| i % 2 == 0).chain(want.iter().cloned()).collect();
        let on_q: Vec<bool> = q.iter().cloned().collect();
        for (name, bits) in [("VecDeque", on_q), ("BitBuffer<u8>", stores::raw(&t8)), ("BitBuffer<u64>", stores::raw(&t64))] {
            chk!(bits == all, "write", "{} at offset {} of a {} gave {}, expected {}", what(), off, name, bitstr(&bits), bitstr(&all));
        }
        for _ in 0..off {
            q.pop_front();
        }
        let _ = (t8.seek(off as u64), t64.seek(off as u64));
        let a = ok!(get::<T, _>(&mut q, be, n), "read", "{} and back from a VecDeque", what());
        let b = ok!(get::<T, _>(&mut t8, be, n), "read", "{} and back from a BitBuffer<u8>", what());
        let c = ok!(get::<T, _>(&mut t64, be, n), "read", "{} and back from a BitBuffer<u64>", what());
        for (name, r) in [("VecDeque", a), ("BitBuffer<u8>", b), ("BitBuffer<u64>", c)] {
            let good = matches!(&r, Ok(Some(v)) if *v == want_v);
            chk!(good, "read", "{} and back from a {} at offset {} = {:?}, expected {:?}", what(), name, off, r, want_v);
        }
        let places = (q.len(), t8.position(), t64.position());
        chk!(places == (0, (off + n) as u64, (off + n) as u64), "read", "{} and back: streams left at {:?}", what(), places);
    }
    Ok(())
}

/// Every source length around n.
fn ends<T: I>(w: &mut W) -> R {
    for be in [false, true] {
        for n in 0..=T::W {
            for len in 0..=n + 3 {
                for kind in 0..4usize {
                    let bits: Vec<bool> = (0..len).map(|i| match kind { 0 => false, 1 => true, 2 => i % 2 == 0, _ => mix((i + 64 * n) as u64) & 1 == 1 }).collect();
                    w.at(|| format!("read_int{}::<{}>({}) from {}", ord(be), T::NAME, n, bitstr(&bits)));
                    w.state();
                    w.traces += 1;
                    let what = || format!("read_int{}::<{}>({}) from {} bits {}", ord(be), T::NAME, n, len, bitstr(&bits));
                    let x = bits.iter().take(n).enumerate().fold(0u128, |x, (i, &b)| if be { x << 1 | b as u128 } else { x | (b as u128) << i });
                    // own source, queue, buffer: result and bits left
                    let mut src = Src::new(&bits);
                    let mut q: VecDeque<bool> = bits.iter().cloned().collect();
                    let mut t = BitBuffer::from(vecs::bv_from::<u16>(&bits));
                    let a = ok!(get::<T, _>(&mut src, be, n), "end", "{}", what());
                    let b = ok!(get::<T, _>(&mut q, be, n), "end", "{} (VecDeque)", what());
                    let c = ok!(get::<T, _>(&mut t, be, n), "end", "{} (BitBuffer)", what());
                    w.transitions += 3 * n.min(len) as u64;
                    let used = [src.at, len - q.len(), t.position() as usize];
                    for (i, r) in [a, b, c].into_iter().enumerate() {
                        let (good, name) = if len >= n {
                            (matches!(&r, Ok(Some(v)) if v.pattern() == x) && used[i] == n, "value")
                        } else if len == 0 {
                            (matches!(&r, Ok(None)), "end-of-file")
                        } else {
                            (matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "unexpected end")
                        };
                        w.outcome(name);
                        chk!(good, "end", "{} stream {}: got {:?} consuming {}, expected {} {:#x}", what(), i, r, used[i], name, x);
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every kind of stream of the library, every starting place, around every old end.
fn tapes<T: I>(w: &mut W, kind: usize, base: usize) -> R {
    for start in (base..base + 66).step_by(if base > 60000 { 9 } else { 1 }) {
        for n in (0..=T::W).filter(|n| T::W <= 64 || n % 8 < 2 || *n > 120) {
            for be in [false, true] {
                let x = (mix((start * 200 + n) as u64) as u128) << 64 | mix(n as u64 + 5) as u128;
                let word = emitted(x, n, be);
                let ends = [start, start + 1, start + n / 2, start + n, start + n + 1, start + n + 70];
                for (e, &end) in ends.iter().enumerate() {
                    if e % 2 != n % 2 && n > 8 && T::W > 16 {
                        continue;
                    }
                    let what = || format!("{} over {} bits, at {}: {} bits of {} ({:#x}){}", LIBS[kind], end, start, n, T::NAME, x, ord(be));
                    w.at(|| what());
                    w.state();
                    w.traces += 1;
                    w.transitions += n as u64;
                    let old = pattern(2 + n % 2, end);
                    let mut l = Lib::over(kind, &old, if kind == 0 { 0 } else { start });
                    let r = ok!(mc::on_lib!(&mut l, t => put(t, be, n, T::from_bits_(x))), "tape", "{}", what());
                    let mut want = if kind == 0 { old.clone() } else { old[..start].to_vec() };
                    want.extend(&word);
                    let skip = want.len();
                    want.extend(old.iter().skip(skip));
                    let got = l.bits();
                    chk!(r.is_ok() && got == want && (kind == 0 || l.at(0) == start + n), "tape", "{}: write = {:?}, now at {}, holds {}, expected {}", what(), r, if kind == 0 { 0 } else { l.at(0) }, bitstr(&got), bitstr(&want));
                    // reading, with as many bits left as there are
                    let mut l = Lib::over(kind, &old, start);
                    let r = ok!(mc::on_lib!(&mut l, t => get::<T, _>(t, be, n)), "tape", "{}", what());
                    let have = n.min(end - start);
                    let v = old[start..start + have].iter().enumerate().fold(0u128, |v, (i, &b)| if be { v << 1 | b as u128 } else { v | (b as u128) << i });
                    let good = if have == n {
                        matches!(&r, Ok(Some(x)) if x.pattern() == v)
                    } else if have == 0 {
                        matches!(&r, Ok(None))
                    } else {
                        matches!(&r, Err(e) if e.kind() == ErrorKind::UnexpectedEof)
                    };
                    let at = l.at(old.len());
                    chk!(good && at == start + have, "tape", "{}: read = {:?}, now at {}, expected {:#x} of {} bits", what(), r, at, v, have);
                }
            }
        }
    }
    Ok(())
}

/// One operation of a mixed sequence.
#[derive(Clone, Copy, Debug)]
struct Op {
    ty: usize,
    be: bool,
    n: usize,
    x: u128,
}
fn do_put<S: BitWrite>(s: &mut S, o: Op) -> std::io::Result<()> {
    match o.ty {
        0 => put(s, o.be, o.n, u8::from_bits_(o.x)),
        1 => put(s, o.be, o.n, i8::from_bits_(o.x)),
        2 => put(s, o.be, o.n, u32::from_bits_(o.x)),
        3 => put(s, o.be, o.n, i64::from_bits_(o.x)),
        4 => put(s, o.be, o.n, u64::from_bits_(o.x)),
        _ => put(s, o.be, o.n, i128::from_bits_(o.x)),
    }
}
fn do_get<S: BitRead>(s: &mut S, o: Op) -> std::io::Result<Option<u128>> {
    match o.ty {
        0 => get::<u8, S>(s, o.be, o.n).map(|r| r.map(|v| v.pattern())),
        1 => get::<i8, S>(s, o.be, o.n).map(|r| r.map(|v| v.pattern())),
        2 => get::<u32, S>(s, o.be, o.n).map(|r| r.map(|v| v.pattern())),
        3 => get::<i64, S>(s, o.be, o.n).map(|r| r.map(|v| v.pattern())),
        4 => get::<u64, S>(s, o.be, o.n).map(|r| r.map(|v| v.pattern())),
        _ => get::<i128, S>(s, o.be, o.n).map(|r| r.map(|v| v.pattern())),
    }
}
fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for (i, &(ty, n)) in [(0, 0), (0, 3), (0, 8), (1, 8), (1, 5), (2, 17), (3, 64), (4, 64), (4, 1), (5, 128), (5, 0)].iter().enumerate() {
        for be in [false, true] {
            v.push(Op { ty, be, n, x: (mix(i as u64) as u128) << 64 | mix(i as u64 + 99) as u128 | 1 });
        }
    }
    v
}
fn sequences(w: &mut W, first: usize, depth: usize) -> R {
    let al = alphabet();
    let mut idx = vec![0usize; depth];
    idx[0] = first;
    loop {
        let ops: Vec<Op> = idx.iter().map(|&i| al[i]).collect();
        let start = (idx.iter().sum::<usize>() * 3) % 13;
        w.at(|| format!("sequence {:?} from {}", ops, start));
        w.state();
        w.traces += 1;
        let mut model: Vec<bool> = pattern(3, start);
        let mut q: VecDeque<bool> = model.iter().cloned().collect();
        // the tape already has contents to overwrite, then grows
        let tape = pattern(2, start + 20);
        let mut t = BitBuffer::from(vecs::bv_from::<u8>(&[&model[..], &tape[..]].concat()));
        let _ = t.seek(start as u64);
        for &o in &ops {
            w.step();
            model.extend(emitted(o.x, o.n, o.be));
            let r = ok!((do_put(&mut q, o).is_ok(), do_put(&mut t, o).is_ok()), "sequence", "{:?} in {:?}", o, ops);
            chk!(r == (true, true), "sequence", "{:?} in {:?} failed", o, ops);
        }
        let bits: Vec<bool> = q.iter().cloned().collect();
        let on_tape = stores::raw(&t);
        let full: Vec<bool> = model.iter().cloned().chain(tape.iter().cloned().skip(model.len() - start)).collect();
        chk!(bits == model && on_tape == full, "sequence", "after {:?}: queue {}, tape {}, expected {} / {}", ops, bitstr(&bits), bitstr(&on_tape), bitstr(&model), bitstr(&full));
        for _ in 0..start {
            q.pop_front();
        }
        let mut t = BitBuffer::from(vecs::bv_from::<u64>(&model));
        let _ = t.seek(start as u64);
        let mut src = Src::new(&model);
        src.at = start;
        for &o in &ops {
            w.step();
            let want = o.x & low(o.n);
            let r = ok!([do_get(&mut q, o), do_get(&mut t, o), do_get(&mut src, o)], "sequence", "reading {:?} in {:?}", o, ops);
            for (i, g) in r.iter().enumerate() {
                chk!(matches!(g, Ok(Some(v)) if *v == want), "sequence", "reading {:?} in {:?} from stream {}: {:x?}, expected {:#x}", o, ops, i, g, want);
            }
        }
        let end = Op { ty: 0, be: false, n: 4, x: 0 };
        for _ in 0..2 {
            let r = [do_get(&mut q, end), do_get(&mut t, end), do_get(&mut src, end)];
            chk!(r.iter().all(|g| matches!(g, Ok(None))), "sequence", "after {:?}: reading at the end gives {:?}", ops, r);
        }
        let mut i = depth;
        loop {
            i -= 1;
            if i == 0 {
                w.sample(|| format!("last sequence {:?}", ops));
                return Ok(());
            }
            idx[i] += 1;
            if idx[i] < al.len() {
                break;
            }
            idx[i] = 0;
        }
    }
}

fn add<T: I>(m: &mut Main) {
    for be in [false, true] {
        let irr = m.pick(60, 2000);
        let all = T::W <= 8 || T::W == 16;
        for part in 0..4usize {
            m.job(format!("values {}{} part {}", T::NAME, ord(be), part), move |w| {
                let vals: Vec<u128> = if all { (0..1u128 << T::W).collect() } else { patterns(T::W, irr) };
                for n in (0..=T::W).filter(|n| n % 4 == part) {
                    let mut seen: std::collections::HashSet<u128> = Default::default();
                    for &v in &vals {
                        one::<T>(w, be, n, v, (all && T::W == 16 && v % 16 == 3) || T::W == 8 || v % 16 == 1 || v & (v.wrapping_add(1) & low(T::W)) == 0)?;
                        if !all {
                            // the same low bits below each kind of garbage
                            for g in [0u128, !0, mix(n as u64) as u128 * 0x1_0000_0001_0000_0003] {
                                let x = (v & low(n) | g & !low(n)) & low(T::W);
                                if seen.insert(x) {
                                    one::<T>(w, be, n, x, false)?;
                                }
                            }
                        }
                    }
                }
                w.sample(|| format!("{}: 0x35 as 6 bits -> {}", T::NAME, bitstr(&emitted(0x35, 6, be))));
                Ok(())
            });
        }
    }
    m.job(format!("ends {}", T::NAME), ends::<T>);
}

fn main() {
    let mut m = Main::new("C19");
    m.rule("state = one (type, order, n, value) or (type, order, n, source) or operation sequence; transition = one bit written or read (or one operation of a sequence); trace = one complete write/read-back");
    m.bound("every primitive integer type; n = 0..=width; all 2^8 and 2^16 values of the 8- and 16-bit types, and for wider types every pattern with at most one run of ones or zeros plus irregular ones, each with clear, set and irregular bits above n");
    m.bound("every source length 0..=n+3 with four contents; plain source, VecDeque and BitBuffer at unaligned places");
    let depth = m.pick(3usize, 4);
    m.bound(format!("every sequence of {} operations over {} mixed (type, order, n), written over a tape's old contents and past its end", depth, alphabet().len()));
    add::<u8>(&mut m);
    add::<u16>(&mut m);
    add::<u32>(&mut m);
    add::<u64>(&mut m);
    add::<u128>(&mut m);
    add::<usize>(&mut m);
    add::<i8>(&mut m);
    add::<i16>(&mut m);
    add::<i32>(&mut m);
    add::<i64>(&mut m);
    add::<i128>(&mut m);
    add::<isize>(&mut m);
    m.bound("every stream type of the library x every starting place below 66, from 1000 to 1065, and 8 around 2^16 x every n x six places of the old end, written and read (u64; u8, i32 and i128 below 66)");
    for kind in 0..LIBS.len() {
        for base in [0, 1000, 65500] {
            m.job(format!("tapes u64 {} from {}", LIBS[kind], base), move |w| tapes::<u64>(w, kind, base));
        }
        m.job(format!("tapes u8 {}", LIBS[kind]), move |w| tapes::<u8>(w, kind, 0));
        m.job(format!("tapes i32 {}", LIBS[kind]), move |w| tapes::<i32>(w, kind, 0));
        m.job(format!("tapes i128 {}", LIBS[kind]), move |w| tapes::<i128>(w, kind, 0));
    }
    for i in 0..alphabet().len() {
        m.job(format!("sequences starting {}", i), move |w| sequences(w, i, depth));
    }
    m.run()
}
