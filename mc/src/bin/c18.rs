//! C18: a bit buffer behaves as a seekable tape over its bit vector.
use mc::bits::*;
use mc::stores::*;
use mc::vecs::*;
use mc::*;
use std::fmt::Debug;
use succinct::bit_vec::BitSlice;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVector};

trait Inner: BitVecMut + BitVecPush + Clone + 'static
where
    Self::Block: Blk,
{
    const NAME: &'static str;
    fn make(m: &[bool]) -> Self;
}
macro_rules! inner {
    ($($t:ty, $n:expr, $m:expr);* $(;)?) => {$(
        impl Inner for $t { const NAME: &'static str = $n; fn make(m: &[bool]) -> Self { $m(m) } }
    )*}
}
inner! {
    BitVector<u8>, "BitVector<u8>", bv_from;
    BitVector<u16>, "BitVector<u16>", bv_from;
    BitVector<u32>, "BitVector<u32>", bv_from;
    BitVector<u64>, "BitVector<u64>", bv_from;
    BitVector<usize>, "BitVector<usize>", bv_from;
    Vec<bool>, "Vec<bool>", |m: &[bool]| m.to_vec();
    ByBit<u8>, "user store by bit<u8>", ByBit::new;
    ByBit<u32>, "user store by bit<u32>", ByBit::new;
}

#[derive(Clone)]
struct Tape<V> {
    real: BitBuffer<V>,
    bits: Vec<bool>,
    pos: usize,
    max: usize,
    /// use every argument (short tapes) or the interesting ones
    full: bool,
}

#[derive(Clone, Debug)]
enum Op {
    Read,
    Write(bool),
    Seek(u64),
    SetBit(usize, bool),
    SetBits(usize, usize, u64),
    SetBlock(usize, u64),
    Rewrap,
    Reappend,
    Fork,
}
use self::Op::*;

impl<V: Inner> Tape<V>
where
    V::Block: Blk,
{
    fn start(m: &[bool], kind: u8, max: usize, full: bool) -> Self {
        let (real, pos) = match kind {
            0 => (BitBuffer::from(V::make(m)), 0),
            _ => (BitBuffer::append(V::make(m)), m.len()),
        };
        Tape { real, bits: m.to_vec(), pos, max, full }
    }
}

impl<V: Inner> Sys for Tape<V>
where
    V::Block: Blk,
{
    type Op = Op;
    fn key(&self) -> Vec<u8> {
        // observable state, read from the real object
        let mut k = self.real.position().to_le_bytes().to_vec();
        k.extend(self.real.bit_len().to_le_bytes());
        for i in 0..self.real.bit_len() {
            k.push(self.real.get_bit(i) as u8)
        }
        k
    }
    fn ops(&self) -> Vec<Op> {
        let w = V::Block::W;
        let n = self.bits.len();
        let mut v = vec![Read, Write(false), Write(true)];
        let seeks: Vec<u64> = if self.full {
            (0..n as u64 + 3).collect()
        } else {
            let mut s: Vec<u64> = vec![0, 1, n as u64 / 2, n as u64, n as u64 + 1];
            if n > 0 {
                s.push(n as u64 - 1)
            }
            for b in 1..=n / w {
                s.extend([(b * w) as u64 - 1, (b * w) as u64]);
            }
            s
        };
        v.extend(seeks.into_iter().map(Seek));
        v.extend([Seek(n as u64 + 64), Seek(1 << 32), Seek(1 << 63), Seek(u64::MAX)]);
        let step = if self.full { 1 } else { (n / 6).max(1) };
        for i in (0..n).step_by(step) {
            v.push(SetBit(i, !self.bits[i]));
            for c in [1, 3, w - 1, w] {
                if i + c <= n {
                    v.push(SetBits(i, c, !field(&self.bits, i, c) & mask(c)))
                }
            }
        }
        for b in 0..(n + w - 1) / w {
            v.push(SetBlock(b, mask(w)));
            v.push(SetBlock(b, 0xB3D1_F02E_9C47_6A85 & mask(w)));
        }
        v.extend([Rewrap, Reappend, Fork]);
        v
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        let w = V::Block::W;
        match *op {
            Read => {
                let got = np("read_bit", || self.real.read_bit())?;
                let want = self.bits.get(self.pos).cloned();
                match got {
                    Ok(g) => same!("read_bit", g, want),
                    Err(e) => return Err(format!("read_bit: error {}", e)),
                }
                if want.is_some() {
                    self.pos += 1
                }
            }
            Write(b) => {
                match np("write_bit", || self.real.write_bit(b))? {
                    Ok(()) => (),
                    Err(e) => return Err(format!("write_bit: error {}", e)),
                }
                if self.pos < self.bits.len() {
                    self.bits[self.pos] = b
                } else {
                    self.bits.push(b)
                }
                self.pos += 1;
            }
            Seek(p) => {
                let ok = np("seek", || self.real.seek(p))?.is_ok();
                same!(format!("seek({}) succeeds", p), ok, p <= self.bits.len() as u64);
                if ok {
                    self.pos = p as usize
                }
            }
            SetBit(i, b) => {
                np("set_bit", || self.real.set_bit(i as u64, b))?;
                self.bits[i] = b
            }
            SetBits(s, c, x) => {
                np("set_bits", || self.real.set_bits(s as u64, c, V::Block::of(x)))?;
                set_field(&mut self.bits, s, c, x)
            }
            SetBlock(i, x) => {
                np("set_block", || self.real.set_block(i, V::Block::of(x)))?;
                let n = w.min(self.bits.len() - i * w);
                set_field(&mut self.bits, i * w, n, x)
            }
            Rewrap => {
                let r = self.real.clone();
                let inner = np("into_inner", || r.into_inner())?;
                same!("extracted vector", raw(&inner), self.bits.clone());
                self.real = np("from", || BitBuffer::from(inner))?;
                self.pos = 0;
            }
            Reappend => {
                let r = self.real.clone();
                let inner = np("into_inner", || r.into_inner())?;
                self.real = np("append", || BitBuffer::append(inner))?;
                self.pos = self.bits.len();
            }
            Fork => {
                let mut other = np("clone", || self.real.clone())?;
                std::mem::swap(&mut other, &mut self.real);
                // disturbing the original must not reach the clone
                let _ = np("write", || other.write_bit(true))?;
                let _ = np("seek", || other.seek(0))?;
                // onto tapes of other lengths and positions, standing at either end or between
                let n = self.bits.len();
                for (len, at) in [(0, 0), (n, 0), (n, n), (n + 1, n / 2), (n + w + 3, n + w + 3)] {
                    let mut t = BitBuffer::from(V::make(&vec![true; len]));
                    let _ = np("seek", || t.seek(at as u64))?;
                    np("clone_from", || t.clone_from(&self.real))?;
                    same!("position of a clone_from", t.position(), self.pos as u64);
                    same!("contents of a clone_from", raw(t.inner()), self.bits.clone());
                    let got = np("read_bit", || t.read_bit())?.map_err(|e| e.to_string())?;
                    same!("read_bit from a clone_from", got, self.bits.get(self.pos).cloned());
                    same!("position after clone_from", self.real.position(), self.pos as u64);
                }
            }
        }
        Ok(())
    }
    fn agree(&self) -> Result<(), String> {
        same!("position()", self.real.position(), self.pos as u64);
        same!("bit_len()", self.real.bit_len(), self.bits.len() as u64);
        same!("contents through inner()", raw(self.real.inner()), self.bits.clone());
        Ok(())
    }
    fn observe(&self) -> Result<(), String> {
        np("observation", || {
            agree_bits(&self.real, &self.bits, V::Block::W <= 8)?;
            agree_bits(self.real.inner(), &self.bits, false)?;
            agree_bits(&self.real.clone().into_inner(), &self.bits, false)?;
            // reading from here to the end gives the rest and then end of file, again and again
            let mut r = self.real.clone();
            for i in self.pos..self.bits.len() {
                same!("read_bit to the end", r.read_bit().map_err(|e| e.to_string())?, Some(self.bits[i]));
            }
            for _ in 0..3 {
                same!("read_bit at the end", r.read_bit().map_err(|e| e.to_string())?, None);
                same!("position at the end", r.position(), self.bits.len() as u64);
            }
            Ok(())
        })?
    }
    fn in_bound(&self) -> bool {
        self.bits.len() < self.max
    }
    fn show(&self) -> String {
        format!("BitBuffer<{}> {:?} at {}", V::NAME, bitstr(&self.bits), self.pos)
    }
}

fn jobs<V: Inner>(m: &mut Main)
where
    V::Block: Blk,
{
    let w = V::Block::W;
    let max = m.pick(if w == 8 { 12 } else { 10 }, if w == 8 { 14 } else { 12 });
    m.job(format!("fixpoint {}", V::NAME), move |wk| {
        let inits = vec![Tape::<V>::start(&[], 0, max, true), Tape::<V>::start(&[], 1, max, true)];
        let done = bfs(wk, "tape", inits, 200)?;
        chk!(done || wk.stopped(), "tape", "HARNESS: not exhausted");
        Ok(())
    });
    // longer tapes: every start, depth-bounded
    let depth = m.pick(2, 3);
    for n in [w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w + 2] {
        m.job(format!("seed {} len {}", V::NAME, n), move |wk| {
            for k in [0, 1, 3] {
                let p = pattern(k, n);
                let mut inits = vec![Tape::<V>::start(&p, 0, n + 9, false), Tape::<V>::start(&p, 1, n + 9, false)];
                for at in [1, n / 2, n - 1, (n / w) * w] {
                    let mut t = Tape::<V>::start(&p, 0, n + 9, false);
                    t.apply(&Seek(at as u64)).map_err(|e| Fail { what: e, key: "tape".into() })?;
                    inits.push(t);
                }
                bfs(wk, "tape", inits, depth)?;
            }
            Ok(())
        });
    }
    // all histories of reads, writes and seeks, replayed from scratch on fresh objects
    let depth = m.pick(8, 9);
    m.job(format!("stateless {}", V::NAME), move |wk| {
        let ops = [Read, Write(true), Write(false), Seek(0), Seek(1), Seek(3), SetBlock(0, 0x55)];
        for p in [vec![], pattern(2, 3), pattern(3, w - 1)] {
            // SetBlock needs a block
            let ops: Vec<Op> = ops.iter().filter(|o| !p.is_empty() || !matches!(o, SetBlock(..))).cloned().collect();
            stateless(wk, "tape", || Tape::<V>::start(&p, 0, 99, true), &ops, depth - if p.is_empty() { 0 } else { 2 })?;
        }
        Ok(())
    });
}

/// New, empty buffers (with capacity) over bit vectors.
fn fresh<B: Blk>(w: &mut W) -> R {
    for cap in [None, Some(0), Some(1), Some(7), Some(64), Some(65), Some(1000)] {
        for n in [0, 1, B::W - 1, B::W, B::W + 1, 3 * B::W] {
            let mut b: BitBuffer<BitVector<B>> = match cap {
                None => BitBuffer::new(),
                Some(c) => BitBuffer::with_capacity(c),
            };
            w.state();
            w.traces += 1;
            chk!(b.bit_len() == 0 && b.position() == 0, "fresh", "BitBuffer::new/with_capacity({:?}): length {}, position {}", cap, b.bit_len(), b.position());
            let p = pattern(3, n);
            chk!(matches!(b.read_bit(), Ok(None)), "fresh", "BitBuffer::with_capacity({:?}): reads a bit", cap);
            chk!(b.seek(1).is_err(), "fresh", "BitBuffer::with_capacity({:?}): seek(1) succeeds", cap);
            for &x in &p {
                w.step();
                chk!(b.write_bit(x).is_ok(), "fresh", "write_bit failed");
            }
            chk!(raw(&b) == p && b.position() == n as u64, "fresh", "capacity {:?}: wrote {} but holds {}", cap, bitstr(&p), bitstr(&raw(&b)));
            chk!(raw(&b.into_inner()) == p, "fresh", "into_inner");
        }
    }
    Ok(())
}

/// Inners that cannot grow: reading, seeking and (where possible) direct edits.
fn fixed<V: BitVec + Clone + PartialEq + Debug>(w: &mut W, name: &str, v: V, m: &[bool]) -> R {
    let n = m.len() as u64;
    let mut b = BitBuffer::from(v.clone());
    for p in (0..n + 3).chain([1 << 32, 1 << 63, u64::MAX]) {
        w.at(|| format!("BitBuffer<{}> of {} bits: seek({})", name, n, p));
        w.state();
        w.traces += 1;
        let was = b.position();
        let ok = b.seek(p).is_ok();
        chk!(ok == (p <= n), "fixed", "BitBuffer<{}> of {} bits: seek({}) success = {}", name, n, p, ok);
        chk!(b.position() == if ok { p } else { was }, "fixed", "BitBuffer<{}>: position {} after seek({})", name, b.position(), p);
        if ok {
            for i in p..n + 2 {
                w.step();
                let got = b.read_bit().ok();
                let want = Some(m.get(i as usize).cloned());
                chk!(got == want, "fixed", "BitBuffer<{}> {}: reading {} after seek({}): {:?}, expected {:?}", name, bitstr(m), i, p, got, want);
                chk!(b.position() == (i + 1).min(n), "fixed", "BitBuffer<{}>: position {} after reading bit {}", name, b.position(), i);
            }
        }
    }
    let b2 = BitBuffer::append(v.clone());
    chk!(b2.position() == n, "fixed", "append: position {}", b2.position());
    chk!(*b.inner() == v && b.into_inner() == v && b2.into_inner() == v, "fixed", "BitBuffer<{}> changed its vector", name);
    Ok(())
}

/// Long tapes: written bit by bit from nothing, re-read whole, and at every marked place sought, read and overwritten.
fn long<V: Inner>(m: &mut Main, top_blocks: usize)
where
    V::Block: Blk,
{
    let w = V::Block::W;
    m.job(format!("long {}", V::NAME), move |wk| {
        let n = top_blocks * w + w / 2;
        let mut t = Tape::<V>::start(&[], 0, usize::MAX, false);
        let show = |what: &str, e: String| fail::<()>("tape", format!("BitBuffer<{}>: {}: {}", V::NAME, what, e.chars().take(600).collect::<String>()));
        for i in 0..n {
            wk.step();
            let r = t.apply(&Write(mix(i as u64) & 1 == 1)).and_then(|_| {
                same!("position()", t.real.position(), i as u64 + 1);
                same!("bit_len()", t.real.bit_len(), i as u64 + 1);
                if i.is_power_of_two() || (i + 1) % (64 * w) == 0 {
                    t.agree()?
                }
                Ok(())
            });
            if let Err(e) = r {
                return show(&format!("writing bit {} of {}", i, n), e);
            }
        }
        wk.tick();
        if let Err(e) = t.agree() {
            return show(&format!("{} bits written", n), e);
        }
        let marks = mc::long::marks(w, n);
        for (j, &p) in marks.iter().enumerate() {
            wk.tick();
            wk.state();
            let mut ops = vec![Seek(p as u64), Read, Read, Seek(p as u64), Write(j % 2 == 0), Write(j % 3 == 0), Read, Seek(n as u64 + 1 + p as u64), Read];
            if p < n {
                ops.extend([Seek(p as u64), SetBit(p, j % 2 == 1), Read, Read]);
            }
            for o in ops {
                wk.step();
                let grown = t.bits.len() > n;
                let o = if grown && matches!(o, Seek(q) if q > n as u64) { Seek(u64::MAX - p as u64) } else { o };
                if let Err(e) = t.apply(&o) {
                    return show(&format!("{} bits, at mark {}: {:?}", n, p, o), e);
                }
                if t.real.position() != t.pos as u64 {
                    return show(&format!("{} bits, at mark {}: {:?}", n, p, o), format!("position {} expected {}", t.real.position(), t.pos));
                }
            }
            if j % 8 == 0 || p + 2 > n {
                if let Err(e) = t.agree() {
                    return show(&format!("{} bits, after mark {}", n, p), e);
                }
            }
            wk.traces += 1;
        }
        let r = t.agree().and_then(|_| t.apply(&Reappend)).and_then(|_| t.apply(&Write(true))).and_then(|_| t.apply(&Seek(0)));
        if let Err(e) = r {
            return show("re-wrapped", e);
        }
        while t.pos < t.bits.len() {
            wk.step();
            if let Err(e) = t.apply(&Read) {
                return show(&format!("reading bit {} of {}", t.pos, t.bits.len()), e);
            }
        }
        wk.tick();
        match t.apply(&Read).and_then(|_| t.apply(&Rewrap)).and_then(|_| t.agree()) {
            Ok(()) => Ok(()),
            Err(e) => show("at the end", e),
        }
    });
}

/// A tape much longer than the others, written from nothing, read, overwritten and read again from end to end.
fn reel<V: Inner>(m: &mut Main, n: u64)
where
    V::Block: Blk,
{
    m.job(format!("reel {}", V::NAME), move |wk| {
        let mut b = BitBuffer::from(V::make(&[]));
        let bit = |i: u64, round: u64| mix(i ^ round << 40) & 1 == 1;
        for round in 0..2u64 {
            for i in 0..n {
                wk.step();
                chk!(b.position() == i, "tape", "BitBuffer<{}>, writing round {}: position {} at bit {}", V::NAME, round, b.position(), i);
                let r = b.write_bit(bit(i, round));
                chk!(r.is_ok(), "tape", "BitBuffer<{}>, writing round {}: bit {}: {:?}", V::NAME, round, i, r);
                if i % 4096 == 0 {
                    wk.tick();
                    let l = if round == 0 { i + 1 } else { n };
                    chk!(b.bit_len() == l, "tape", "BitBuffer<{}>, writing round {}: bit_len {} expected {}", V::NAME, round, b.bit_len(), l);
                }
            }
            wk.state();
            for pass in 0..2 {
                let r = b.seek(0);
                chk!(r.is_ok() && b.position() == 0, "tape", "BitBuffer<{}> of {} bits: seek(0)", V::NAME, n);
                for i in 0..n {
                    wk.step();
                    if pass == 1 {
                        let r = b.seek(i);
                        chk!(r.is_ok(), "tape", "BitBuffer<{}> of {} bits: seek({}): {:?}", V::NAME, n, i, r);
                    }
                    let r = b.read_bit();
                    chk!(matches!(r, Ok(Some(x)) if x == bit(i, round)) && b.position() == i + 1, "tape", "BitBuffer<{}> of {} bits, round {}: reading bit {} gives {:?}, position {}", V::NAME, n, round, i, r, b.position());
                }
                let r = b.read_bit();
                chk!(matches!(r, Ok(None)) && b.position() == n, "tape", "BitBuffer<{}> of {} bits: the end gives {:?}", V::NAME, n, r);
            }
            let r = b.seek(0);
            chk!(r.is_ok(), "tape", "BitBuffer<{}> of {} bits: seek(0)", V::NAME, n);
            wk.traces += 1;
        }
        Ok(())
    });
}

/// Positions beyond 2^32: computed contents (reading), and one real vector (writing).
fn far(m: &mut Main) {
    m.job("far reads", |wk| {
        fn one<B: Blk>(wk: &mut W) -> R {
            for len in [(1u64 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 64, (1 << 40) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 70] {
                let word = |i: usize| mix(i as u64) & mask(B::W);
                let bit = |i: u64| word((i / B::W as u64) as usize) >> (i % B::W as u64) & 1 == 1;
                let mut b = BitBuffer::from(Virtual::<B>::new(len, word));
                for k in 0..64u32 {
                    for d in 0..140u64 {
                        let p = (1u64 << k).wrapping_sub(70).wrapping_add(d);
                        for p in [p, len.wrapping_add(70).wrapping_sub(d)] {
                            wk.step();
                            let was = b.position();
                            let ok = ok!(b.seek(p).is_ok(), "far", "seek({}) of {} bits", p, len);
                            chk!(ok == (p <= len), "far", "BitBuffer of {} bits<{}>: seek({}) success = {}", len, B::NAME, p, ok);
                            chk!(b.position() == if ok { p } else { was }, "far", "BitBuffer of {} bits: position {} after seek({})", len, b.position(), p);
                            if ok {
                                for q in p..(p.saturating_add(3)) {
                                    let got = ok!(b.read_bit().ok(), "far", "read at {} of {} bits", q, len);
                                    let want = Some(if q < len { Some(bit(q)) } else { None });
                                    chk!(got == want, "far", "BitBuffer of {} bits<{}>: reading at {} gives {:?}, expected {:?}", len, B::NAME, q, got, want);
                                    chk!(b.position() == (q + 1).min(len), "far", "BitBuffer of {} bits<{}>: position {} after reading at {}", len, B::NAME, b.position(), q);
                                }
                            }
                        }
                    }
                    wk.tick();
                }
                wk.state();
            }
            Ok(())
        }
        one::<u64>(wk)?;
        one::<usize>(wk)?;
        one::<u32>(wk)
    });
    m.job("far appends", |wk| {
        fn one<B: Blk>(wk: &mut W) -> R {
            fn f(i: u64) -> bool {
                mix(i) & 1 == 1
            }
            let mut lens = vec![0, 1];
            for k in 3..64u32 {
                for d in 0..5u64 {
                    lens.push((1u64 << k) - 2 + d);
                }
            }
            lens.extend([u64::MAX - 80, (1 << 63) + (1 << 32), (3 << 32) + 7]);
            for len in lens {
                wk.state();
                wk.tick();
                // wrapping again, wherever the tape was, starts at one of the ends
                let mut b = BitBuffer::append(Virtual::<B>::new(len, |i| mix(i as u64)));
                wk.step();
                chk!(b.position() == len && b.bit_len() == len && b.inner().bit_len() == len, "far", "BitBuffer::append of {} bits<{}>: position {} length {}", len, B::NAME, b.position(), b.bit_len());
                chk!(ok!(b.read_bit().ok(), "far", "reading at the end of {} bits", len) == Some(None) && b.position() == len, "far", "reading at the end of {} bits<{}>", len, B::NAME);
                let b = BitBuffer::from(b.into_inner());
                chk!(b.position() == 0 && b.bit_len() == len, "far", "BitBuffer::from of {} bits<{}>: position {} length {}", len, B::NAME, b.position(), b.bit_len());
                // growing, overwriting and reading back at the far end
                let mut b = BitBuffer::append(FarBit::<B>::new(len, f));
                let mut want: std::collections::BTreeMap<u64, bool> = Default::default();
                for i in 0..70u64 {
                    wk.step();
                    let x = mix(len ^ i << 7) & 1 == 1;
                    ok!(b.write_bit(x).is_ok(), "far", "appending bit {} to {} bits", i, len);
                    want.insert(len + i, x);
                    chk!(b.position() == len + i + 1 && b.bit_len() == len + i + 1, "far", "BitBuffer of {} bits<{}> after appending {}: position {} length {}", len, B::NAME, i + 1, b.position(), b.bit_len());
                }
                let now = len + 70;
                for p in [len, len + 1, len + 33, len + 69, len + 70, len.saturating_sub(1), len.saturating_sub(65), len / 2, 0] {
                    wk.step();
                    chk!(b.seek(p).is_ok() && b.position() == p, "far", "BitBuffer of {} bits<{}>: seek({}) ends at {}", now, B::NAME, p, b.position());
                    if p < now {
                        let x = !want.get(&p).cloned().unwrap_or_else(|| f(p));
                        want.insert(p, x);
                        ok!(b.write_bit(x).is_ok(), "far", "overwriting bit {} of {} bits", p, now);
                        chk!(b.position() == p + 1 && b.bit_len() == now, "far", "BitBuffer of {} bits<{}> after overwriting {}: position {} length {}", now, B::NAME, p, b.position(), b.bit_len());
                    }
                    for q in [p.saturating_sub(2), p.saturating_sub(1), p, p + 1] {
                        ok!(b.seek(q.min(now)).is_ok(), "far", "seek");
                        let got = ok!(b.read_bit().ok(), "far", "reading at {} of {} bits", q, now);
                        let w = if q < now { Some(want.get(&q).cloned().unwrap_or_else(|| f(q))) } else { None };
                        chk!(got == Some(w), "far", "BitBuffer of {} bits<{}>: reading at {} gives {:?}, expected {:?}", now, B::NAME, q, got, w);
                    }
                }
                let at = b.position();
                chk!(b.seek(now + 1).is_err() && b.position() == at, "far", "BitBuffer of {} bits<{}>: seek beyond the end", now, B::NAME);
                let v = b.into_inner();
                chk!(v.len == now, "far", "into_inner of {} bits<{}> has {}", now, B::NAME, v.len);
                for (&i, &x) in &v.over {
                    chk!(x == want.get(&i).cloned().unwrap_or_else(|| f(i)), "far", "BitBuffer of {} bits<{}>: bit {} is {}", now, B::NAME, i, x);
                }
                for (&i, &x) in &want {
                    chk!(v.get_bit(i) == x, "far", "BitBuffer of {} bits<{}>: bit {} is not {}", now, B::NAME, i, x);
                }
                wk.traces += 1;
            }
            Ok(())
        }
        one::<u64>(wk)?;
        one::<u8>(wk)
    });
    m.job("far writes", |wk| {
        let base = 1u64 << 32;
        let v = BitVector::<u64>::with_fill(base - 3, false);
        let mut b = BitBuffer::append(v);
        chk!(b.position() == base - 3, "far", "append at {}", b.position());
        let mut want: Vec<bool> = vec![];
        for i in 0..70u64 {
            wk.step();
            wk.tick();
            let x = mix(i) & 1 == 1;
            chk!(b.write_bit(x).is_ok() && b.position() == base - 3 + i + 1 && b.bit_len() == b.position(), "far", "writing at {}: position {} length {}", base - 3 + i, b.position(), b.bit_len());
            want.push(x);
        }
        for p in 0..67u64 {
            chk!(b.seek(base - 3 + p).is_ok(), "far", "seek({})", base - 3 + p);
            let x = !want[p as usize];
            want[p as usize] = x;
            wk.step();
            chk!(b.write_bit(x).is_ok() && b.position() == base - 2 + p && b.bit_len() == base + 67, "far", "overwriting at {}: position {} length {}", base - 3 + p, b.position(), b.bit_len());
            let n = b.read_bit().ok();
            chk!(n == Some(Some(want[p as usize + 1])), "far", "reading after overwriting at {}: {:?}", base - 3 + p, n);
        }
        for i in 0..70u64 {
            chk!(b.get_bit(base - 3 + i) == want[i as usize], "far", "bit {}", base - 3 + i);
            chk!(!b.get_bit(i) && !b.get_bit(base - 4 - i), "far", "bit {} or {} changed", i, base - 4 - i);
        }
        wk.state();
        Ok(())
    });
}

fn main() {
    let mut m = Main::new("C18");
    m.rule("state = (contents, position) of a live BitBuffer; transition = read, write, seek (in and out of range), direct edit, extraction and re-wrapping, cloning, run on the real object and on a tape model; after each the position and the inner vector are compared");
    m.bound(format!("from empty, every operation with every argument from every state with fewer than {} bits (u8 blocks, {} otherwise), to fixpoint; 8 inner types", m.pick(12, 14), m.pick(10, 12)));
    m.bound(format!("lengths around 1, 2 and 3 blocks, 6 start positions: all histories of depth {} over interesting arguments; all histories of 5..{} reads, writes, seeks and edits replayed from scratch", m.pick(2, 3), m.pick(8, 9)));
    m.bound("inner vectors that cannot grow (slices, block arrays, words, integer vectors): every seek and read");
    jobs::<BitVector<u8>>(&mut m);
    jobs::<BitVector<u16>>(&mut m);
    jobs::<BitVector<u32>>(&mut m);
    jobs::<BitVector<u64>>(&mut m);
    jobs::<BitVector<usize>>(&mut m);
    jobs::<Vec<bool>>(&mut m);
    jobs::<ByBit<u8>>(&mut m);
    jobs::<ByBit<u32>>(&mut m);
    let top = m.pick(129, 1025);
    long::<BitVector<u8>>(&mut m, if top < 1000 { 1025 } else { 4097 });
    long::<BitVector<u16>>(&mut m, if top < 1000 { 513 } else { 2049 });
    long::<BitVector<u32>>(&mut m, if top < 1000 { 257 } else { 1025 });
    long::<BitVector<u64>>(&mut m, top);
    long::<BitVector<usize>>(&mut m, top);
    long::<Vec<bool>>(&mut m, if top < 1000 { 513 } else { 2049 });
    long::<ByBit<u8>>(&mut m, if top < 1000 { 513 } else { 2049 });
    far(&mut m);
    let reels = if m.thorough { 1 << 20 } else { 140_000 };
    reel::<BitVector<u8>>(&mut m, reels);
    reel::<BitVector<u16>>(&mut m, reels);
    reel::<BitVector<u32>>(&mut m, reels);
    reel::<BitVector<u64>>(&mut m, reels);
    reel::<BitVector<usize>>(&mut m, reels);
    reel::<Vec<bool>>(&mut m, reels);
    m.bound(format!("tapes of {} bits written, read through, read with a seek before every bit, overwritten and read again", reels));
    m.bound("tapes of 8000 bits and more written from nothing, sought, read and overwritten at the marked places of either end; positions around every power of two to 2^64 over computed contents, writes across 2^32");
    m.job("fresh", |w| {
        fresh::<u8>(w)?;
        fresh::<u16>(w)?;
        fresh::<u32>(w)?;
        fresh::<u64>(w)?;
        fresh::<usize>(w)
    });
    m.job("fixed", |w| {
        for n in 0..200 {
            let p = pattern(3, n);
            fixed(w, "ByBlock<u16>", ByBlock::<u16>::new(&p, !0), &p)?;
            fixed(w, "IntVector<u32>(1)", iv_from::<u32>(1, &p), &p)?;
            fixed(w, "BitVector<u64>", bv_from::<u64>(&p), &p)?;
            if n % 8 == 0 {
                let v: Vec<u8> = pack(&p, 8).into_iter().map(|x| x as u8).collect();
                fixed(w, "Vec<u8>", v, &p)?;
            }
            if n == 64 {
                fixed(w, "u64", pack(&p, 64)[0], &p)?;
            }
            let base = bv_from::<u64>(&[&[true; 3][..], &p, &[true; 9][..]].concat());
            let s = BitSlice::new(&base, 3..3 + n as u64);
            let mut b = BitBuffer::from(s);
            for i in 0..n + 2 {
                w.step();
                let got = b.read_bit().ok();
                chk!(got == Some(p.get(i).cloned()), "fixed", "BitBuffer over a slice: bit {} of {}: {:?}", i, bitstr(&p), got);
            }
        }
        Ok(())
    });
    let _ = |v: IntVector<u8>| v;
    m.run()
}
