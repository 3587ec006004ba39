//! C28: queries are pure; separate objects do not affect one another.
use mc::bits::*;
use mc::codes::*;
use mc::vecs::*;
use mc::*;
use std::collections::VecDeque;
use std::io::Result as IoResult;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::{Select0Support, Select1Support, SelectSupport};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BinSearchSelect, BitVec, BitVecPush, BitVector, IntVec, IntVector, JacobsonRank, Rank9};

// ---------------------------------------------------------------- questions

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    BitLen,
    BlockLen,
    Bit(u64),
    Bits(u64, usize),
    Block(usize),
    Limit,
    Rank(u64, bool),
    Rank1(u64),
    Rank0(u64),
    Select(u64, bool),
    Select1(u64),
    Select0(u64),
}
use Q::*;

/// Answers: a number, -1 for "there is none", None for a refusal.
type Ans = Option<i128>;

fn expect(m: &[bool], w: usize, q: Q) -> Ans {
    let n = m.len() as u64;
    let count = |p: u64, v: bool| m[..=p as usize].iter().filter(|&&b| b == v).count() as i128;
    let sel = |i: u64, v: bool| m.iter().enumerate().filter(|x| *x.1 == v).nth(i as usize).map(|x| x.0 as i128).unwrap_or(-1);
    match q {
        BitLen | Limit => Some(n as i128),
        BlockLen => Some((m.len() as i128 + w as i128 - 1) / w as i128),
        Bit(i) => (i < n).then(|| m[i as usize] as i128),
        Bits(i, c) => (i + c as u64 <= n).then(|| field(m, i as usize, c) as i128),
        Block(i) => ((i * w) < m.len()).then(|| field(m, i * w, w.min(m.len() - i * w)) as i128),
        Rank(p, v) => (p < n).then(|| count(p, v)),
        Rank1(p) => (p < n).then(|| count(p, true)),
        Rank0(p) => (p < n).then(|| count(p, false)),
        Select(i, v) => Some(sel(i, v)),
        Select1(i) => Some(sel(i, true)),
        Select0(i) => Some(sel(i, false)),
    }
}

/// Something that can be made from bits and asked.
trait Obj: Sized {
    const NAME: &'static str;
    const W: usize;
    fn make(m: &[bool]) -> Self;
    /// None: this kind of object has no such query
    fn ask(&self, q: Q) -> Option<i128>;
}
fn opt(x: Option<u64>) -> i128 {
    x.map(|x| x as i128).unwrap_or(-1)
}
fn bits_of<V: BitVec>(v: &V, q: Q) -> Option<i128>
where
    V::Block: Blk,
{
    Some(match q {
        BitLen => v.bit_len() as i128,
        BlockLen => v.block_len() as i128,
        Bit(i) => v.get_bit(i) as i128,
        Bits(i, c) => v.get_bits(i, c).u() as i128,
        Block(i) => v.get_block(i).u() as i128,
        _ => return None,
    })
}
fn rank_of<V: BitRankSupport>(v: &V, q: Q) -> Option<i128> {
    Some(match q {
        Limit => v.limit() as i128,
        Rank(p, b) => v.rank(p, b) as i128,
        Rank1(p) => v.rank1(p) as i128,
        Rank0(p) => v.rank0(p) as i128,
        _ => return None,
    })
}
fn select_of<V: SelectSupport<Over = bool> + Select1Support + Select0Support>(v: &V, q: Q) -> Option<i128> {
    Some(match q {
        Select(i, b) => opt(v.select(i, b)),
        Select1(i) => opt(v.select1(i)),
        Select0(i) => opt(v.select0(i)),
        _ => return None,
    })
}
macro_rules! objs {
    ($($t:ty, $w:expr, $name:expr, $m:ident => $make:expr, $v:ident, $q:ident => $ask:expr;)*) => {$(
        impl Obj for $t {
            const NAME: &'static str = $name;
            const W: usize = $w;
            fn make($m: &[bool]) -> Self { $make }
            fn ask(&self, $q: Q) -> Option<i128> { let $v = self; $ask }
        }
    )*};
}
/// A word with a length check of its own: contents are cut or padded to the width by the caller.
objs! {
    BitVector<u8>, 8, "BitVector<u8>", m => bv_from(m), v, q => bits_of(v, q);
    BitVector<u64>, 64, "BitVector<u64>", m => bv_from(m), v, q => bits_of(v, q);
    IntVector<u16>, 16, "IntVector<u16>(1)", m => iv_from(1, m), v, q => bits_of(v, q);
    BitBuffer<BitVector<u32>>, 32, "BitBuffer<BitVector<u32>>", m => BitBuffer::from(bv_from(m)), v, q => bits_of(v, q);
    JacobsonRank<BitVector<u8>>, 8, "JacobsonRank<BitVector<u8>>", m => JacobsonRank::new(bv_from(m)), v, q => bits_of(v, q).or_else(|| rank_of(v, q));
    JacobsonRank<BitVector<u64>>, 64, "JacobsonRank<BitVector<u64>>", m => JacobsonRank::new(bv_from(m)), v, q => bits_of(v, q).or_else(|| rank_of(v, q));
    Rank9<BitVector<u64>>, 64, "Rank9<BitVector<u64>>", m => Rank9::new(bv_from(m)), v, q => bits_of(v, q).or_else(|| rank_of(v, q));
    BinSearchSelect<JacobsonRank<BitVector<u16>>>, 16, "BinSearchSelect<JacobsonRank<BitVector<u16>>>", m => BinSearchSelect::new(JacobsonRank::new(bv_from(m))), v, q => bits_of(v, q).or_else(|| rank_of(v, q)).or_else(|| select_of(v, q));
    BinSearchSelect<Rank9<BitVector<u64>>>, 64, "BinSearchSelect<Rank9<BitVector<u64>>>", m => BinSearchSelect::new(Rank9::new(bv_from(m))), v, q => bits_of(v, q).or_else(|| rank_of(v, q)).or_else(|| select_of(v, q));
    BinSearchSelect<JacobsonRank<Rank9<BitVector<u64>>>>, 64, "BinSearchSelect<JacobsonRank<Rank9<..>>>", m => BinSearchSelect::new(JacobsonRank::new(Rank9::new(bv_from(m)))), v, q => bits_of(v, q).or_else(|| rank_of(v, q)).or_else(|| select_of(v, q));
    u64, 64, "u64", m => field(m, 0, 64), v, q => bits_of(v, q).or_else(|| rank_of(v, q));
    u8, 8, "u8", m => field(m, 0, 8) as u8, v, q => bits_of(v, q).or_else(|| rank_of(v, q));
    BinSearchSelect<u32>, 32, "BinSearchSelect<u32>", m => BinSearchSelect::new(field(m, 0, 32) as u32), v, q => bits_of(v, q).or_else(|| rank_of(v, q)).or_else(|| select_of(v, q));
    Broadword, 64, "Broadword", m => Broadword(field(m, 0, 64)), v, q => rank_of(v, q).or_else(|| match q { Select1(i) => Some(opt(v.select1(i))), _ => None });
}

fn questions<T: Obj>(m: &[bool], few: bool) -> Vec<Q> {
    let n = m.len() as u64;
    let ones = m.iter().filter(|&&b| b).count() as u64;
    let mut v = vec![
        Rank1(n / 2), Rank1(n - 1), Rank1(n / 2 + 1), Rank0(n / 3), Select1(ones / 2), Select1(0), Select0(n / 4), Select1(ones), Bit(n / 2), Bits(n / 3, (n / 4).min(T::W as u64) as usize), Rank(n / 2, false), Select(ones / 2, true),
        Block(n as usize / 2 / T::W), Rank1(n), Bit(n), BitLen, Limit, Rank1(0), Rank(n / 2, true), Select(n / 4, false), BlockLen, Block(0), Bits(0, 3), Bit(0), Select0(n - ones), Rank0(n - 1), Bits(n - 1, 1), Select1(ones.wrapping_sub(1)),
    ];
    let probe = T::make(m);
    v.retain(|&q| match guard(|| probe.ask(q)) {
        Ok(a) => a.is_some(),
        Err(()) => true,
    });
    if few {
        v.truncate(14);
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    /// object, question number
    Ask(usize, usize),
    /// make the object anew with these contents
    Make(usize, usize),
    Drop(usize),
    /// make and drop a third object
    Pass(usize),
}

/// All sequences of events over two live objects, each from scratch.
fn two<T: Obj>(w: &mut W, contents: &[Vec<bool>], first: usize, depth: usize) -> R {
    let qs: Vec<Vec<(Q, Ans)>> = contents.iter().map(|m| questions::<T>(m, true).into_iter().map(|q| (q, expect(m, T::W, q))).collect()).collect();
    let per = qs.iter().map(|q| q.len()).min().unwrap();
    let mut evs: Vec<Ev> = vec![];
    for o in 0..2 {
        for q in 0..per {
            evs.push(Ev::Ask(o, q));
        }
        evs.push(Ev::Make(o, 2));
        evs.push(Ev::Make(o, 1 - o));
        evs.push(Ev::Drop(o));
    }
    evs.push(Ev::Pass(2));
    if first >= evs.len() {
        return Ok(());
    }
    let mut idx = vec![0; depth];
    idx[0] = first;
    loop {
        let names = || idx.iter().map(|&i| match evs[i] { Ev::Ask(o, k) => format!("ask object {} question {}", o, k), e => format!("{:?}", e) }).collect::<Vec<_>>().join("; ");
        w.at(|| format!("{}: {}", T::NAME, names()));
        w.traces += 1;
        w.state();
        let mut live: [Option<(T, usize)>; 2] = [Some((T::make(&contents[0]), 0)), Some((T::make(&contents[1]), 1))];
        for &i in &idx {
            w.step();
            match evs[i] {
                Ev::Ask(o, k) => {
                    if let Some((x, c)) = &live[o] {
                        let (q, want) = qs[*c][k];
                        let got = guard(|| x.ask(q)).unwrap_or(None);
                        chk!(got == want, T::NAME, "{}: object {} with contents {} answers {:?} with {:?}, expected {:?}, in the history [{}]", T::NAME, o, bitstr(&contents[*c]), q, got, want, names());
                    }
                }
                Ev::Make(o, c) => live[o] = Some((T::make(&contents[c]), c)),
                Ev::Drop(o) => live[o] = None,
                Ev::Pass(c) => drop(T::make(&contents[c])),
            }
        }
        let mut d = depth;
        loop {
            d -= 1;
            if d == 0 {
                return Ok(());
            }
            idx[d] += 1;
            if idx[d] < evs.len() {
                break;
            }
            idx[d] = 0;
        }
    }
}

/// Every ordered pair of all questions on long-lived objects that are never rebuilt, and their contents at the end.
fn live<T: Obj>(w: &mut W, contents: &[Vec<bool>]) -> R {
    let objs: Vec<T> = contents.iter().map(|m| T::make(m)).collect();
    let n = contents[0].len() as u64;
    let mut qs: Vec<(usize, Q, Ans)> = vec![];
    for (c, m) in contents.iter().enumerate() {
        let mut v = questions::<T>(m, false);
        let ok = v.clone();
        for i in (0..n).filter(|i| i % 64 < 2 || i % 23 == 3 || i + 3 > n) {
            for q in [Rank1(i), Bit(i), Select1(i), Select0(i / 2)] {
                if ok.iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&q)) {
                    v.push(q);
                }
            }
        }
        qs.extend(v.into_iter().map(|q| (c, q, expect(m, T::W, q))));
    }
    let ask = |i: usize| -> Ans { guard(|| objs[qs[i].0].ask(qs[i].1)).unwrap_or(None) };
    for a in 0..qs.len() {
        for b in 0..qs.len() {
            w.at(|| format!("{}: {:?} then {:?}", T::NAME, qs[a], qs[b]));
            w.state();
            w.transitions += 2;
            let (x, y) = (ask(a), ask(b));
            chk!(x == qs[a].2 && y == qs[b].2, T::NAME, "{}: {:?} then {:?} answer {:?} and {:?}", T::NAME, qs[a], qs[b], x, y);
        }
    }
    w.traces += 1;
    w.sample(|| format!("{}: {} questions in every ordered pair", T::NAME, qs.len()));
    Ok(())
}

/// Questions at the marked places of a long object, in every ordered pair, on two objects of that length.
fn deep<T: Obj>(w: &mut W, len: usize) -> R {
    let contents = [pattern(3, len), { let mut x = pattern(3, len); x.rotate_left(len / 3); x }];
    let objs: Vec<T> = contents.iter().map(|m| T::make(m)).collect();
    let mut qs: Vec<(usize, Q, Ans)> = vec![];
    for (c, m) in contents.iter().enumerate() {
        let mut v = questions::<T>(m, false);
        let kinds: Vec<_> = v.iter().map(std::mem::discriminant).collect();
        for k in 5..24u32 {
            for i in [1u64 << k, (1 << k) - 1, (1 << k) * 3 / 2, len as u64 - (1u64 << k).min(len as u64)] {
                if i < len as u64 && i % 3 != c as u64 {
                    v.extend([Rank1(i), Bit(i), Select1(i / 2), Select0(i / 2)].iter().cloned().filter(|q| kinds.contains(&std::mem::discriminant(q))));
                }
            }
        }
        qs.extend(v.into_iter().map(|q| (c, q, expect(m, T::W, q))));
    }
    let ask = |i: usize| -> Ans { guard(|| objs[qs[i].0].ask(qs[i].1)).unwrap_or(None) };
    for a in 0..qs.len() {
        for b in 0..qs.len() {
            w.at(|| format!("{} of {} bits: {:?} then {:?}", T::NAME, len, qs[a], qs[b]));
            w.state();
            w.transitions += 2;
            let (x, y) = (ask(a), ask(b));
            chk!(x == qs[a].2 && y == qs[b].2, T::NAME, "{} of {} bits: {:?} then {:?} answer {:?} and {:?}", T::NAME, len, qs[a], qs[b], x, y);
        }
    }
    w.traces += 1;
    Ok(())
}

/// Many objects alive at once, asked in turn, some replaced; and one object asked one thing very often.
fn many<T: Obj>(w: &mut W, len: usize, count: usize) -> R {
    let content = |k: usize| -> Vec<bool> {
        let mut m = pattern(3, len);
        m.rotate_left(k * 7 % len);
        let i = k % len;
        m[i] = !m[i];
        m
    };
    let mut objs: Vec<(T, Vec<(Q, Ans)>)> = vec![];
    let build = |k: usize| -> (T, Vec<(Q, Ans)>) {
        let m = content(k);
        (T::make(&m), questions::<T>(&m, true).into_iter().map(|q| (q, expect(&m, T::W, q))).collect())
    };
    for k in 0..count {
        w.tick();
        objs.push(build(k));
    }
    for round in 0..4usize {
        // by object, by question, backwards, with a stride
        let nq = objs[0].1.len();
        for x in 0..count * nq {
            let (o, q) = match round {
                0 => (x / nq, x % nq),
                1 => (x % count, x / count),
                2 => (count - 1 - x / nq, x % nq),
                _ => (x * 31 % count, (x / 7) % nq),
            };
            let Some(&(q, want)) = objs[o].1.get(q) else { continue };
            w.step();
            let got = guard(|| objs[o].0.ask(q)).unwrap_or(None);
            chk!(got == want, T::NAME, "{}: object {} of {} live ones answers {:?} with {:?}, expected {:?} (round {})", T::NAME, o, count, q, got, want, round);
        }
        for o in (round..count).step_by(3) {
            objs[o] = build(o + (round + 1) * 1000);
        }
        w.state();
    }
    w.traces += 1;
    let (x, qs) = &objs[count / 2];
    for &(q, want) in qs {
        for k in 0..70_000 {
            w.transitions += 1;
            let got = if want.is_none() { if k > 300 { break } guard(|| x.ask(q)).unwrap_or(None) } else { x.ask(q) };
            chk!(got == want, T::NAME, "{}: {:?} asked for the {}th time answers {:?}, expected {:?}", T::NAME, q, k + 1, got, want);
        }
        w.tick();
    }
    Ok(())
}

/// Every interleaving of three questions in each of two threads, on objects made in either.
fn threads<T: Obj + 'static>(w: &mut W, len: usize) -> R {
    use std::sync::mpsc::channel;
    let contents = [pattern(3, len), { let mut x = pattern(3, len); x.reverse(); x[len / 2] = !x[len / 2]; x }];
    let qs: Vec<Vec<(Q, Ans)>> = contents.iter().map(|m| questions::<T>(m, true).into_iter().map(|q| (q, expect(m, T::W, q))).collect()).collect();
    // a worker makes its object anew when told so, and answers
    let mut ends = vec![];
    for t in 0..2 {
        let (to, from_main) = channel::<Option<Option<Q>>>();
        let (answer, back) = channel::<Ans>();
        let m = contents[t].clone();
        let h = std::thread::spawn(move || {
            let mut x = T::make(&m);
            while let Ok(Some(cmd)) = from_main.recv() {
                let a = match cmd {
                    None => {
                        x = T::make(&m);
                        None
                    }
                    Some(q) => guard(|| x.ask(q)).unwrap_or(None),
                };
                if answer.send(a).is_err() {
                    return;
                }
            }
        });
        ends.push((to, back, h));
    }
    let mut result = Ok(());
    'all: for base in 0..qs[0].len() {
        for order in (0..64u32).filter(|x| x.count_ones() == 3) {
            w.at(|| format!("{} in two threads: order {:06b} from question {}", T::NAME, order, base));
            w.traces += 1;
            w.state();
            for t in 0..2 {
                let _ = ends[t].0.send(Some(None));
                let _ = ends[t].1.recv();
            }
            let mut done = [0, 0];
            for step in 0..6 {
                let t = (order >> step & 1) as usize;
                let (q, want) = qs[t][(base + done[t] * (t + 1)) % qs[t].len()];
                done[t] += 1;
                w.step();
                let _ = ends[t].0.send(Some(Some(q)));
                let got = ends[t].1.recv().unwrap_or(None);
                if got != want {
                    result = fail(T::NAME, format!("{} in two threads (order {:06b}): {:?} asked in thread {} answers {:?}, expected {:?}", T::NAME, order, q, t, got, want));
                    break 'all;
                }
            }
        }
    }
    for (to, _, h) in ends {
        let _ = to.send(None);
        let _ = h.join();
    }
    result
}

// ---------------------------------------------------------------- two vectors driven at once

#[derive(Clone)]
struct Both<S: Sys>(S, S);
impl<S: Sys> Sys for Both<S> {
    type Op = (bool, S::Op);
    fn key(&self) -> Vec<u8> {
        vec![]
    }
    fn ops(&self) -> Vec<Self::Op> {
        vec![]
    }
    fn apply(&mut self, op: &Self::Op) -> Result<(), String> {
        if op.0 {
            self.1.apply(&op.1)
        } else {
            self.0.apply(&op.1)
        }
    }
    fn agree(&self) -> Result<(), String> {
        self.0.agree().and_then(|_| self.1.agree())
    }
    fn observe(&self) -> Result<(), String> {
        Ok(())
    }
    fn in_bound(&self) -> bool {
        true
    }
    fn show(&self) -> String {
        format!("({}, {})", self.0.show(), self.1.show())
    }
}
fn both<O: Clone>(ops: &[O]) -> Vec<(bool, O)> {
    ops.iter().flat_map(|o| [(false, o.clone()), (true, o.clone())]).collect()
}

// ---------------------------------------------------------------- two tapes driven at once

fn tapes(w: &mut W, first: usize, depth: usize) -> R {
    // per tape: read, write 0/1, seek to start / middle / end, gamma-encode 5, gamma-decode
    const N: usize = 8;
    let mut idx = vec![0; depth];
    idx[0] = first;
    loop {
        w.at(|| format!("tapes {:?}", idx));
        w.state();
        w.traces += 1;
        let starts = [pattern(3, 9), pattern(2, 12)];
        let mut t8 = BitBuffer::from(bv_from::<u8>(&starts[0]));
        let mut t64 = BitBuffer::from(bv_from::<u64>(&starts[1]));
        let mut m = [(starts[0].clone(), 0usize), (starts[1].clone(), 0usize)];
        let gamma = Def::Elias(Box::new(Def::Unary));
        for &i in &idx {
            w.step();
            let (o, k) = (i / N, i % N);
            let (bits, pos) = &mut m[o];
            let mut got = String::new();
            let mut want = String::new();
            macro_rules! on {
                ($t:expr) => {
                    match k {
                        0 => got = format!("{:?}", $t.read_bit().unwrap()),
                        1 | 2 => $t.write_bit(k == 2).unwrap(),
                        3 => $t.seek(0).unwrap(),
                        4 => $t.seek(bits.len() as u64 / 2).unwrap(),
                        5 => $t.seek(bits.len() as u64).unwrap(),
                        6 => succinct::coding::UniversalCode::encode(&succinct::coding::GAMMA, &mut $t, 5).unwrap(),
                        _ => got = match succinct::coding::UniversalCode::decode(&succinct::coding::GAMMA, &mut $t) { Ok(v) => format!("{:?}", v), Err(e) => format!("{:?}", e.kind()) },
                    }
                };
            }
            if o == 0 {
                on!(t8)
            } else {
                on!(t64)
            }
            let write = |bits: &mut Vec<bool>, pos: &mut usize, b: bool| {
                if *pos < bits.len() {
                    bits[*pos] = b
                } else {
                    bits.push(b)
                }
                *pos += 1;
            };
            match k {
                0 => {
                    want = format!("{:?}", bits.get(*pos));
                    *pos = (*pos + 1).min(bits.len());
                }
                1 | 2 => write(bits, pos, k == 2),
                3 => *pos = 0,
                4 => *pos = bits.len() / 2,
                5 => *pos = bits.len(),
                6 => {
                    for b in gamma.word(5) {
                        write(bits, pos, b)
                    }
                }
                _ => match gamma.decode(bits, *pos) {
                    Dec::Value(v, e) => {
                        want = format!("{:?}", Some(v));
                        *pos = e;
                    }
                    Dec::Clean => want = "None".into(),
                    Dec::Prefix(_) => {
                        want = "UnexpectedEof".into();
                        *pos = bits.len();
                    }
                    _ => panic!("HARNESS: short tapes"),
                },
            }
            chk!(got == want && (t8.position() as usize, t64.position() as usize) == (m[0].1, m[1].1), "tapes", "two tapes, history {:?}: operation {} gives {:?}, expected {:?}; positions {} {}", idx, i, got, want, t8.position(), t64.position());
        }
        chk!(stores::raw(&t8) == m[0].0 && stores::raw(&t64) == m[1].0, "tapes", "two tapes, history {:?}: contents {} and {}, expected {} and {}", idx, bitstr(&stores::raw(&t8)), bitstr(&stores::raw(&t64)), bitstr(&m[0].0), bitstr(&m[1].0));
        let mut d = depth;
        loop {
            d -= 1;
            if d == 0 {
                return Ok(());
            }
            idx[d] += 1;
            if idx[d] < 2 * N {
                break;
            }
            idx[d] = 0;
        }
    }
}

// ---------------------------------------------------------------- codes within codes

/// At its `when`-th access runs something else first.
struct Hooked<'a, T> {
    inner: T,
    when: usize,
    seen: usize,
    hook: &'a mut dyn FnMut(),
}
impl<'a, T: BitWrite> BitWrite for Hooked<'a, T> {
    fn write_bit(&mut self, b: bool) -> IoResult<()> {
        if self.seen == self.when {
            (self.hook)()
        }
        self.seen += 1;
        self.inner.write_bit(b)
    }
}
impl<'a, T: BitRead> BitRead for Hooked<'a, T> {
    fn read_bit(&mut self) -> IoResult<Option<bool>> {
        if self.seen == self.when {
            (self.hook)()
        }
        self.seen += 1;
        self.inner.read_bit()
    }
}
fn nested(w: &mut W, all: &Codes, i: usize) -> R {
    let vals = |d: &Def| -> Vec<u64> { [1u64, 6, 19, 1000, u64::MAX - 1].into_iter().filter(|&v| d.in_domain(v) && affordable(d, v) && d.word(v).len() < 140).collect() };
    let a = &all[i];
    let da = a.def();
    for x in vals(&da) {
        let wa = da.word(x);
        for b in all.iter() {
            let db = b.def();
            for y in vals(&db) {
                let wb = db.word(y);
                for when in (0..wa.len()).filter(|k| *k < 20 || k % 7 == 0) {
                    w.at(|| format!("{} {} with {} {} at access {}", a.name(), x, b.name(), y, when));
                    w.state();
                    w.traces += 1;
                    w.transitions += 4;
                    let what = || format!("{}({}) interrupted at access {} by {}({})", a.name(), x, when, b.name(), y);
                    // encoder within encoder, decoder within encoder
                    let mut s2 = Sink::default();
                    let mut r2 = None;
                    let mut got2 = None;
                    let mut hook = || {
                        r2 = Some(b.encode_to(&mut s2, y));
                        got2 = Some(b.decode_from(&mut Src::new(&wb)));
                    };
                    let mut s1 = Hooked { inner: Sink::default(), when, seen: 0, hook: &mut hook };
                    let r1 = a.encode_to(&mut s1, x);
                    let bits1 = s1.inner.bits.clone();
                    let fine = r1.is_ok() && bits1 == wa && matches!(r2, Some(Ok(()))) && s2.bits == wb && matches!(got2, Some(Ok(Some(v))) if v == y);
                    chk!(fine, "nested", "{} (encoding): outer wrote {}, inner wrote {} and decoded {:?}", what(), bitstr(&bits1), bitstr(&s2.bits), got2);
                    // within a decoder
                    let mut q = VecDeque::new();
                    let mut r2 = None;
                    let mut got2 = None;
                    let mut hook = || {
                        r2 = Some(b.encode_to(&mut q, y));
                        got2 = Some(b.decode_from(&mut q));
                    };
                    let mut s1 = Hooked { inner: Src::new(&wa), when, seen: 0, hook: &mut hook };
                    let r1 = a.decode_from(&mut s1);
                    let fine = matches!(r1, Ok(Some(v)) if v == x) && s1.inner.at == wa.len() && matches!(got2, Some(Ok(Some(v))) if v == y);
                    chk!(fine, "nested", "{} (decoding): outer gives {:?}, inner {:?}", what(), r1, got2);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- incidents

/// Things that happen in a program besides the ordinary: refusals, errors, truncated input, failing sinks, next to
/// ordinary use. Each checks its own outcome, which must not depend on what happened before.
type Incident = (String, Box<dyn Fn() -> R>);

fn code_incidents(commas: &'static [u8], i: usize) -> Vec<Incident> {
    let c: &'static dyn Real = &**Box::leak(Box::new(codes(commas).swap_remove(i)));
    let d = c.def();
    let name = c.name();
    let mut v: Vec<Incident> = vec![];
    let fit = |v: u64| d.in_domain(v) && affordable(&d, v) && d.word(v).len() < 200;
    let vals: Vec<u64> = [1u64, 7, 100, 5_000_000_000, (1 << 63) + 5].into_iter().filter(|&v| fit(v)).collect();
    for &x in &vals {
        let word = d.word(x);
        let n = name.clone();
        let wd = word.clone();
        v.push((format!("{} encodes {}", name, x), Box::new(move || {
            let mut s = Sink::default();
            let r = ok!(c.encode_to(&mut s, x), "incident", "{}({})", n, x);
            chk!(r.is_ok() && s.bits == wd, "incident", "{}({}) writes {} ({:?})", n, x, bitstr(&s.bits), r);
            Ok(())
        })));
        let fault = word.len() / 2;
        let (n, wd) = (name.clone(), word.clone());
        v.push((format!("{} encodes {} onto a sink failing at {}", name, x, fault), Box::new(move || {
            let mut s = Sink { fault: Some((fault, 3)), ..Sink::default() };
            let r = ok!(c.encode_to(&mut s, x), "incident", "{}({})", n, x);
            chk!(matches!(&r, Err(e) if is_mark(e, 3, fault)) && s.bits[..] == wd[..fault], "incident", "{}({}) onto a failing sink writes {} ({:?})", n, x, bitstr(&s.bits), r);
            Ok(())
        })));
    }
    for x in [0u64, u64::MAX, u64::MAX - 1] {
        if !d.in_domain(x) {
            let n = name.clone();
            v.push((format!("{} refuses {}", name, x), Box::new(move || {
                let mut s = Sink::default();
                let r = guard(|| c.encode_to(&mut s, x));
                chk!(!matches!(r, Ok(Ok(()))) && s.bits.is_empty(), "incident", "{}({}) writes {} ({:?})", n, x, bitstr(&s.bits), r);
                Ok(())
            })));
        }
    }
    let mut strings: Vec<Vec<bool>> = vec![vec![], vec![false], vec![false; 300], vec![true; 300], pattern(3, 40), pattern(2, 90)];
    for &x in &vals {
        let w = d.word(x);
        strings.push(w[..w.len() - 1].to_vec());
        let mut w2 = w.clone();
        w2.extend([true, false, true]);
        strings.push(w2);
    }
    for b in strings {
        for fault in [None, Some((b.len() / 2, 5))] {
            let (n, d, b) = (name.clone(), d.clone(), b.clone());
            let seen = if let Some((p, _)) = fault { b[..p].to_vec() } else { b.clone() };
            let want = d.decode(&seen, 0);
            v.push((format!("{} decodes {}{}", n, bitstr(&b), if fault.is_some() { " failing half way" } else { "" }), Box::new(move || {
                let mut s = Src::new(&b);
                s.fault = fault;
                let r = ok!(c.decode_from(&mut s), "incident", "{} decoding {}", n, bitstr(&b));
                let fine = match want {
                    Dec::Value(x, e) => matches!(r, Ok(Some(y)) if y == x) && s.at == e,
                    Dec::Clean | Dec::Prefix(_) if fault.is_some() => matches!(&r, Err(e) if is_mark(e, 5, fault.unwrap().0)),
                    Dec::Clean => matches!(r, Ok(None)),
                    Dec::Prefix(_) => r.is_err(),
                    Dec::Wrong => r.is_err(),
                    Dec::Beyond(x, _) => matches!(r, Err(_)) || matches!(r, Ok(Some(y)) if y == x),
                };
                chk!(fine, "incident", "{} decoding {}: {:?} after {} bits, expected {:?}", n, bitstr(&b), r, s.at, want);
                Ok(())
            })));
        }
    }
    v
}

/// A text sink with room for so many bytes.
struct Page(String, usize);
impl std::fmt::Write for Page {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn other_incidents() -> Vec<Incident> {
    use std::fmt::Write as _;
    use succinct::storage::BlockType;
    use byteorder::{BigEndian, LittleEndian};
    let mut v: Vec<Incident> = vec![];
    macro_rules! inc {
        ($name:expr, $body:expr) => { v.push(($name, Box::new(move || { let what = || "outcome of an incident"; let _ = &what; $body }))) };
    }
    // integers on streams
    for n in [0usize, 5, 32, 64] {
        for be in [false, true] {
            for have in [0usize, 3, 31, 64] {
                inc!(format!("reading {} bits{} of {}", n, if be { " big-endian" } else { "" }, have), {
                    let b = pattern(3, have);
                    let mut s = Src::new(&b);
                    let r = ok!(if be { s.read_int_be::<u64>(n) } else { s.read_int::<u64>(n) }, "incident", "read");
                    let mut word = b[..n.min(have)].to_vec();
                    if be { word.reverse() }
                    let fine = if n <= have { matches!(r, Ok(Some(x)) if x == field(&word, 0, n)) } else if have == 0 { matches!(r, Ok(None)) } else { r.is_err() };
                    chk!(fine, "incident", "reading {} bits of {} (be {}): {:?}", n, have, be, r);
                    Ok(())
                });
            }
            inc!(format!("writing {} bits{}, failing at 4", n, if be { " big-endian" } else { "" }), {
                let mut s = Sink { fault: Some((4, 2)), ..Sink::default() };
                let r = ok!(if be { s.write_int_be(n, 0xF0F1_F2F3_F4F5_F6F7u64) } else { s.write_int(n, 0xF0F1_F2F3_F4F5_F6F7u64) }, "incident", "write");
                chk!(if n > 4 { matches!(&r, Err(e) if is_mark(e, 2, 4)) && s.bits.len() == 4 } else { r.is_ok() && s.bits.len() == n }, "incident", "writing {} bits (be {}): {:?}", n, be, r);
                Ok(())
            });
        }
    }
    // blocks
    for have in [0usize, 1, 3, 7, 8, 12] {
        inc!(format!("reading blocks from {} bytes", have), {
            let bytes: Vec<u8> = (0..have as u8).map(|i| 0x91 ^ i.wrapping_mul(29)).collect();
            macro_rules! ty { ($($t:ident),*) => {$({
                let n = std::mem::size_of::<$t>();
                let mut le = [0u8; 8];
                if have >= n { le[..n].copy_from_slice(&bytes[..n]); }
                let l = u64::from_le_bytes(le);
                let a = ok!($t::read_block::<_, LittleEndian>(&mut &bytes[..]), "incident", "read_block");
                let b = ok!($t::read_block::<_, BigEndian>(&mut &bytes[..]), "incident", "read_block");
                let fine = if have >= n { matches!((&a, &b), (Ok(x), Ok(y)) if *x as u64 == l && y.swap_bytes() == *x) } else { a.is_err() && b.is_err() };
                chk!(fine, "incident", "read_block::<{}> from {:02x?}: {:?} {:?}", stringify!($t), bytes, a, b);
                let mut room = vec![0u8; have];
                let mut out = &mut room[..];
                let r = ok!((0x0102_0304_0506_0708u64 as $t).write_block::<_, BigEndian>(&mut out), "incident", "write_block");
                chk!(r.is_ok() == (have >= n), "incident", "write_block::<{}> into {} bytes: {:?}", stringify!($t), have, r);
            })*} }
            ty!(u8, u16, u32, u64, usize);
            Ok(())
        });
    }
    // text
    for room in [0usize, 12, 44, 47, 60, 5000] {
        for (k, n) in [(3usize, 20usize), (7, 4), (13, 9)] {
            inc!(format!("text of integers ({} wide, {}) into {} bytes", k, n, room), {
                let xs: Vec<u64> = (0..n as u64).map(|i| mix(i) & mask(k)).collect();
                let mut x: IntVector<u16> = IntVector::new(k);
                for &i in &xs { x.push(i as u16); }
                let mut p = Page(String::new(), room);
                let r = ok!(write!(p, "{:?}", x), "incident", "format");
                let full = format!("IntVector {{ element_bits: {}, elements: {{ {}}} }}", k, xs.iter().map(|x| format!("{}, ", x)).collect::<String>());
                chk!(r.is_ok() == (full.len() <= room) && full.starts_with(&p.0) && (r.is_err() || p.0 == full), "incident", "text into {} bytes: {:?} {:?}", room, r, p.0);
                Ok(())
            });
            inc!(format!("text of {} bits into {} bytes", n * k, room), {
                let b = pattern(3, n * k);
                let x: BitVector<u8> = bv_from(&b);
                let mut p = Page(String::new(), room);
                let r = ok!(write!(p, "{:b}", x), "incident", "format");
                let full = bitstr(&b);
                chk!(r.is_ok() == (full.len() <= room) && full.starts_with(&p.0) && (r.is_err() || p.0 == full), "incident", "bits into {} bytes: {:?} {:?}", room, r, p.0);
                Ok(())
            });
        }
    }
    // vectors, refusals among ordinary use
    for at in [0u64, 7, 8, 20, 21, 64, 1 << 40, u64::MAX] {
        inc!(format!("bit {} of 21", at), {
            let b = pattern(2, 21);
            let mut x: BitVector<u8> = bv_from(&b);
            let g = guard(|| x.get_bit(at)).ok();
            chk!(g == b.get(at as usize).cloned(), "incident", "bit {} of 21: {:?}", at, g);
            let s = guard(|| { use succinct::BitVecMut; x.set_bit(at, true) }).is_ok();
            let mut m = b.clone();
            if at < 21 { m[at as usize] = true }
            chk!(s == (at < 21) && x == bv_from(&m), "incident", "setting bit {} of 21", at);
            Ok(())
        });
        inc!(format!("element {} of 21", at), {
            let mut x: IntVector<u32> = IntVector::new(11);
            for i in 0..21u32 { x.push(i * 90); }
            let g = guard(|| x.get(at)).ok();
            chk!(g == (at < 21).then(|| at as u32 * 90), "incident", "element {} of 21: {:?}", at, g);
            let wide = guard(|| x.push(1 << 11)).is_ok();
            chk!(!wide && x.len() == 21, "incident", "pushing too wide an element");
            let s = guard(|| { use succinct::IntVecMut; x.set(at, 1 << 11) }).is_ok();
            chk!(!s && (0..21).all(|i| x.get(i) == i as u32 * 90), "incident", "setting too wide an element at {}", at);
            Ok(())
        });
        inc!(format!("rank at {} of 300", at), {
            let b = pattern(3, 300);
            let want = (at < 300).then(|| b[..=at as usize].iter().filter(|x| **x).count() as u64);
            let j = JacobsonRank::new(bv_from::<u16>(&b));
            let r = Rank9::new(bv_from::<u64>(&b));
            let (x, y) = (guard(|| j.rank1(at)).ok(), guard(|| r.rank1(at)).ok());
            chk!(x == want && y == want, "incident", "rank at {} of 300: {:?} {:?}", at, x, y);
            let s = BinSearchSelect::new(j);
            let got = ok!(s.select1(at), "incident", "select1");
            let want = b.iter().enumerate().filter(|x| *x.1).nth(at.min(1000) as usize).map(|x| x.0 as u64);
            chk!(got == want, "incident", "select of {} of 300: {:?}", at, got);
            Ok(())
        });
        inc!(format!("slice to {} of 40", at), {
            let b = pattern(3, 40);
            let x: BitVector<u16> = bv_from(&b);
            let r = guard(|| { let s = BitSlice::new(&x, 3..at.max(3)); (0..s.bit_len()).map(|i| s.get_bit(i)).collect::<Vec<_>>() });
            chk!(r == if at <= 40 { Ok(b[3..at.max(3) as usize].to_vec()) } else { Err(()) }, "incident", "slice to {}: {:?}", at, r);
            Ok(())
        });
        inc!(format!("seek to {} of 30", at), {
            let b = pattern(2, 30);
            let mut t = BitBuffer::from(bv_from::<u8>(&b));
            let r = ok!(t.seek(at), "incident", "seek");
            chk!(r.is_ok() == (at <= 30) && t.position() == if at <= 30 { at } else { 0 }, "incident", "seek to {}: {:?}", at, r);
            let p = t.position() as usize;
            let got = ok!(t.read_bit(), "incident", "read_bit");
            chk!(matches!(got, Ok(x) if x == b.get(p).cloned()), "incident", "reading at {}: {:?}", p, got);
            Ok(())
        });
        inc!(format!("capacity {}", at), {
            if at < 1 << 30 || at == u64::MAX {
                let r = guard(|| at >= 1 << 30 || BitVector::<u8>::with_capacity(at).capacity() >= at);
                let i = guard(|| IntVector::<u64>::with_capacity(17, at).capacity() >= at);
                chk!(r == Ok(true) && !matches!(i, Ok(false)), "incident", "capacity {}: {:?} {:?}", at, r, i);
                chk!(at != u64::MAX || i.is_err(), "incident", "capacity {}: {:?}", at, i);
            }
            Ok(())
        });
    }
    v
}

/// Every ordered pair of incidents of all kinds.
fn incident_pairs(w: &mut W, all: &[Incident], part: usize, parts: usize) -> R {
    let note = |e: Fail, h: &str| Fail { what: format!("{} [after: {}]", e.what, h), key: e.key };
    for a in (part..all.len()).step_by(parts) {
        for b in 0..all.len() {
            w.at(|| format!("{}; {}", all[a].0, all[b].0));
            w.state();
            w.transitions += 2;
            all[a].1().map_err(|e| note(e, "another incident"))?;
            all[b].1().map_err(|e| note(e, &all[a].0))?;
        }
    }
    w.traces += 1;
    Ok(())
}
/// Every sequence of three incidents of one kind.
fn incident_triples(w: &mut W, all: &[Incident], part: usize, parts: usize) -> R {
    let note = |e: Fail, h: String| Fail { what: format!("{} [after: {}]", e.what, h), key: e.key };
    for a in all.iter().skip(part).step_by(parts) {
        for b in all {
            for c in all {
                w.at(|| format!("{}; {}; {}", a.0, b.0, c.0));
                w.state();
                w.transitions += 3;
                a.1().map_err(|e| note(e, "other incidents".into()))?;
                b.1().map_err(|e| note(e, a.0.clone()))?;
                c.1().map_err(|e| note(e, format!("{}; {}", a.0, b.0)))?;
            }
        }
    }
    w.traces += 1;
    w.sample(|| format!("{} incidents in every sequence of three", all.len()));
    Ok(())
}

// ---------------------------------------------------------------- two iterators

fn iterators(w: &mut W, depth: u32) -> R {
    let m = [pattern(3, 11), pattern(2, 19)];
    let (a, b) = (bv_from::<u8>(&m[0]), bv_from::<u8>(&m[1]));
    let (ia, ib) = (iv_from::<u16>(3, &m[0][..9]), iv_from::<u16>(3, &m[1][..18]));
    let els = |m: &[bool]| -> VecDeque<u16> { (0..m.len() / 3).map(|i| field(m, i * 3, 3) as u16).collect() };
    for x in 0..4u64.pow(depth) {
        w.state();
        w.traces += 1;
        // same vector, two vectors, and elements
        let mut its = [a.iter(), a.iter()];
        let mut its2 = [a.iter(), b.iter()];
        let mut its3 = [ia.iter(), ib.iter()];
        let mut ms: [VecDeque<bool>; 2] = [m[0].iter().cloned().collect(), m[0].iter().cloned().collect()];
        let mut ms2: [VecDeque<bool>; 2] = [m[0].iter().cloned().collect(), m[1].iter().cloned().collect()];
        let mut ms3 = [els(&m[0][..9]), els(&m[1][..18])];
        for d in 0..depth {
            w.step();
            let k = (x / 4u64.pow(d) % 4) as usize;
            let (o, back) = (k % 2, k / 2 == 1);
            let got = if back { (its[o].next_back(), its2[o].next_back(), its3[o].next_back()) } else { (its[o].next(), its2[o].next(), its3[o].next()) };
            let want = if back { (ms[o].pop_back(), ms2[o].pop_back(), ms3[o].pop_back()) } else { (ms[o].pop_front(), ms2[o].pop_front(), ms3[o].pop_front()) };
            let (l, e) = (
                [its[0].len(), its[1].len(), its2[0].len(), its2[1].len(), its3[0].len(), its3[1].len()],
                [ms[0].len(), ms[1].len(), ms2[0].len(), ms2[1].len(), ms3[0].len(), ms3[1].len()],
            );
            chk!(got == want && l == e, "iterators", "two iterators, schedule {}: step {} gives {:?}, expected {:?}; lengths {:?}, expected {:?}", x, d, got, want, l, e);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- slices of a shared base

fn views(w: &mut W) -> R {
    let m = pattern(3, 40);
    let base = bv_from::<u8>(&m);
    let other = bv_from::<u8>(&pattern(2, 40));
    for s in 0..=40u64 {
        for e in s..=40 {
            w.state();
            w.step();
            w.traces += 1;
            let a = BitSlice::new(&base, s..e);
            let b = BitSlice::new(&base, 40 - e..40 - s);
            let c = BitSlice::new(&other, s..e);
            for _ in 0..2 {
                let (x, y, z) = (stores::raw(&a), stores::raw(&b), stores::raw(&c));
                let (s, e) = (s as usize, e as usize);
                chk!(x == m[s..e] && y == m[40 - e..40 - s] && z == pattern(2, 40)[s..e], "views", "slices {}..{} read {} {} {}", s, e, bitstr(&x), bitstr(&y), bitstr(&z));
            }
            // a mutable slice of another vector changes only that one
            let mut copy = base.clone();
            {
                let mut d = BitSliceMut::new(&mut copy, s..e);
                for i in 0..e - s {
                    succinct::BitVecMut::set_bit(&mut d, i, true);
                }
            }
            chk!(stores::raw(&a) == m[s as usize..e as usize] && stores::raw(&base) == m, "views", "writing to a clone's slice {}..{} changed the original", s, e);
        }
    }
    Ok(())
}

fn main() {
    let mut m = Main::new("C28");
    m.rule("state = one history over two live objects of a kind; transition = one question, creation, drop, mutation or nested operation; trace = one whole history replayed on fresh objects and compared with the two independent models");
    let depth = m.pick(3usize, 4);
    m.bound(format!("every sequence of {} events (14 questions on either object, replacement, drop, passing third object) over two live objects, for 14 kinds of structure, equal and different lengths", depth));
    m.bound("every ordered pair of about 100 questions per object on three long-lived objects");
    m.bound("300 live objects of each kind asked in four orders with replacements, one question asked 70000 times; objects of 4000 and 70000 bits, every ordered pair of questions at their marked places; every interleaving of three questions in each of two threads");
    let d2 = m.pick(5usize, 6);
    m.bound(format!("every interleaving of {} mutations over two vectors (11 operations each), of {} operations over two tapes (8 each), of 8 steps of two iterators", d2, d2));
    m.bound("every pair of codes with up to five values each, one running inside the other at every access");
    macro_rules! kinds {
        ($($t:ty, $len:expr, $len2:expr);* $(;)?) => {$(
            for first in 0..36 {
                m.job(format!("two {} first {}", <$t as Obj>::NAME, first), move |w| {
                    let c = [pattern(3, $len), pattern(2, $len2), { let mut x = pattern(3, $len); x.reverse(); x[$len / 2] = !x[$len / 2]; x }];
                    two::<$t>(w, &c, first, depth)
                });
            }
            m.job(format!("live {}", <$t as Obj>::NAME), |w| {
                let c = [pattern(3, $len), pattern(2, $len2), pattern(1, $len)];
                live::<$t>(w, &c)
            });
            m.job(format!("many {}", <$t as Obj>::NAME), |w| many::<$t>(w, $len, 300));
            m.job(format!("threads {}", <$t as Obj>::NAME), |w| threads::<$t>(w, $len));
            if $len > 8 && $len != 64 && $len != 32 {
                for len in [4000usize, 70_000] {
                    m.job(format!("deep {} {}", <$t as Obj>::NAME, len), move |w| deep::<$t>(w, len));
                }
            }
        )*};
    }
    kinds! {
        BitVector<u8>, 29, 40;
        BitVector<u64>, 150, 130;
        IntVector<u16>, 50, 64;
        BitBuffer<BitVector<u32>>, 70, 96;
        JacobsonRank<BitVector<u8>>, 150, 150;
        JacobsonRank<BitVector<u64>>, 700, 640;
        Rank9<BitVector<u64>>, 700, 1100;
        BinSearchSelect<JacobsonRank<BitVector<u16>>>, 200, 200;
        BinSearchSelect<Rank9<BitVector<u64>>>, 600, 600;
        BinSearchSelect<JacobsonRank<Rank9<BitVector<u64>>>>, 300, 700;
        u64, 64, 64;
        u8, 8, 8;
        BinSearchSelect<u32>, 32, 32;
        Broadword, 64, 64;
    }
    // two vectors
    macro_rules! pairs {
        ($($t:ident),*) => {$(
            for first in 0..22usize {
                m.job(format!("two mutating BitVector<{}> first {}", stringify!($t), first), move |w| {
                    use BOp::*;
                    let b = <$t as Blk>::W as u64;
                    let ops = both(&[PushBit(true), PushBit(false), PopBit, PushBlock(5), SetBit(0, false), Truncate(2), Resize(b + 3, true), Clear, CloneIt, Shrink, Reserve(b)]);
                    let mk = || { let mut s = Both(BvSys::<$t>::start(pattern(3, 5), 1000, 0), BvSys::<$t>::start(pattern(2, 9), 1000, 0)); let _ = s.apply(&ops[first]); s };
                    if matches!(ops[first].1, Clear | Truncate(_)) { return Ok(()); }
                    // SetBit needs contents: leave it out of histories that may empty the vector
                    let safe: Vec<_> = ops.iter().filter(|o| !matches!(o.1, SetBit(..))).cloned().collect();
                    stateless(w, "two vectors", mk, &safe, d2 - 1)?;
                    let keep: Vec<_> = ops.iter().filter(|o| !matches!(o.1, Clear | PopBit | Truncate(_) | CloneIt | Shrink)).cloned().collect();
                    stateless(w, "two vectors", mk, &keep, d2 - 1)
                });
            }
            for first in 0..16usize {
                m.job(format!("two mutating IntVector<{}> first {}", stringify!($t), first), move |w| {
                    use IOp::*;
                    let ops = both(&[Push(1), Push(5), Pop, Resize(7, 2), Truncate(1), CloneIt, Shrink, Reserve(9)]);
                    let mk = || { let mut s = Both(IvSys::<$t>::start(3, pattern(3, 6), 1000, 0), IvSys::<$t>::start(5, pattern(2, 15), 1000, 0)); let _ = s.apply(&ops[first]); s };
                    stateless(w, "two int vectors", mk, &ops, d2 - 1)
                });
            }
        )*};
    }
    pairs!(u8, u64);
    for first in 0..16 {
        m.job(format!("tapes first {}", first), move |w| tapes(w, first, d2));
    }
    let commas: &'static [u8] = &[2, 3, 5, 8, 33];
    for i in 0..codes(commas).len() {
        m.job(format!("nested {}", codes(commas)[i].name()), move |w| nested(w, &codes(commas), i));
    }
    let few: &'static [u8] = &[2, 5, 63];
    let kinds = codes(few).len();
    for i in 0..kinds {
        m.job(format!("incidents {}", codes(few)[i].name()), move |w| incident_triples(w, &code_incidents(few, i), 0, 1));
    }
    for part in 0..16 {
        m.job(format!("incidents others part {}", part), move |w| incident_triples(w, &other_incidents(), part, 16));
    }
    for part in 0..16 {
        m.job(format!("incident pairs part {}", part), move |w| {
            let mut all = other_incidents();
            for i in 0..kinds {
                all.extend(code_incidents(few, i));
            }
            incident_pairs(w, &all, part, 16)
        });
    }
    m.bound("incidents (refusals, failing sinks and sources, truncated and overlong input, failing text sinks, out-of-range accesses, impossible capacities) among ordinary use: every ordered pair of all of them, every sequence of three of the same kind (each code; everything else)");
    m.job("iterators", move |w| iterators(w, 8));
    m.job("views", views);
    let _ = (BitVector::<u8>::new().push_bit(true), IntVector::<u8>::new(2).len());
    m.run()
}
