//! C06: iterators, every interleaving of operations from both ends.
use mc::bits::*;
use mc::vecs::*;
use mc::*;
use std::collections::VecDeque;
use std::fmt::Debug;
use succinct::bit_vec::Iter as BIter;
use succinct::int_vec::Iter as IIter;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVector};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    ViaSkip(usize),
    ByRefTake(usize),
}
use self::Op::*;

trait It: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone {}
impl<T: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone> It for T {}

fn real<I: It>(i: &mut I, op: Op) -> Option<I::Item> {
    match op {
        Next => i.next(),
        Back => i.next_back(),
        Nth(n) => i.nth(n),
        NthBack(n) => i.nth_back(n),
        ViaSkip(n) => i.by_ref().skip(n).next(),
        ByRefTake(n) => i.by_ref().take(n).last(),
    }
}

fn model<T: Clone>(q: &mut VecDeque<T>, op: Op) -> Option<T> {
    match op {
        Next => q.pop_front(),
        Back => q.pop_back(),
        Nth(n) | ViaSkip(n) => {
            if n >= q.len() {
                q.clear();
                None
            } else {
                q.drain(..n);
                q.pop_front()
            }
        }
        NthBack(n) => {
            if n >= q.len() {
                q.clear();
                None
            } else {
                let l = q.len();
                q.truncate(l - n);
                q.pop_back()
            }
        }
        ByRefTake(n) => q.drain(..n.min(q.len())).last(),
    }
}

/// Everything the iterator says about itself right now.
fn look<I: It>(i: &I, q: &VecDeque<I::Item>, deep: bool) -> Result<(), String>
where
    I::Item: PartialEq + Debug + Clone,
{
    same!("len()", i.len(), q.len());
    same!("size_hint()", i.size_hint(), (q.len(), Some(q.len())));
    if deep {
        same!("count()", i.clone().count(), q.len());
        same!("last()", i.clone().last(), q.back().cloned());
        same!("remaining elements", i.clone().collect::<Vec<_>>(), q.iter().cloned().collect::<Vec<_>>());
        same!("remaining elements from the back", i.clone().rev().collect::<Vec<_>>(), q.iter().rev().cloned().collect::<Vec<_>>());
        let mut f = vec![];
        i.clone().for_each(|x| f.push(x));
        same!("for_each", f, q.iter().cloned().collect::<Vec<_>>());
        let want: Vec<_> = q.iter().cloned().collect();
        same!("fold", i.clone().fold(vec![], |mut v, x| { v.push(x); v }), want.clone());
        let back: Vec<_> = q.iter().rev().cloned().collect();
        same!("rfold", i.clone().rfold(vec![], |mut v, x| { v.push(x); v }), back.clone());
        same!("rev().fold", i.clone().rev().fold(vec![], |mut v, x| { v.push(x); v }), back);
        for st in [1, 2, 3] {
            same!("step_by", i.clone().step_by(st).collect::<Vec<_>>(), want.iter().step_by(st).cloned().collect::<Vec<_>>());
        }
        for n in [0, 1, 2, q.len()] {
            same!("skip then rest", i.clone().skip(n).collect::<Vec<_>>(), want.iter().skip(n).cloned().collect::<Vec<_>>());
            same!("skip then reversed", i.clone().skip(n).rev().collect::<Vec<_>>(), want.iter().skip(n).rev().cloned().collect::<Vec<_>>());
        }
        if let Some(x) = want.last() {
            same!("position", i.clone().position(|y| y == *x), want.iter().position(|y| y == x));
            same!("rposition", i.clone().rposition(|y| y == want[0]), want.iter().rposition(|y| *y == want[0]));
            same!("find", i.clone().find(|y| y == x), Some(x.clone()));
            same!("rfind", i.clone().rfind(|y| *y == want[0]), Some(want[0].clone()));
            same!("try_fold stopping early", {
                let mut c = i.clone();
                let mut k = 0;
                let r = c.try_fold((), |_, _| { k += 1; if k * 2 > want.len() { Err(()) } else { Ok(()) } });
                (r.is_err(), c.collect::<Vec<_>>())
            }, (true, want[want.len() / 2 + 1..].to_vec()));
        }
        let mut c = i.clone();
        for _ in 0..=q.len() {
            c.next();
        }
        same!("next() after exhaustion", c.next(), None);
        same!("next_back() after exhaustion", c.next_back(), None);
        same!("nth(0) after exhaustion", c.nth(0), None);
        same!("len() after exhaustion", c.len(), 0);
        same!("size_hint() after exhaustion", c.size_hint(), (0, Some(0)));
    }
    Ok(())
}

/// Every other way of using an iterator up: the default of each could be overridden.
fn consumers<I: It>(i: &I, want: &[I::Item]) -> Result<(), String>
where
    I::Item: Ord + Debug + Clone,
{
    let n = want.len();
    let back: Vec<I::Item> = want.iter().rev().cloned().collect();
    let w = || want.iter().cloned();
    let c = || i.clone();
    same!("len", c().len(), n);
    same!("count", c().count(), n);
    same!("last", c().last(), want.last().cloned());
    same!("collect", c().collect::<Vec<_>>(), want.to_vec());
    same!("rev().collect", c().rev().collect::<Vec<_>>(), back.clone());
    same!("rev().last", c().rev().last(), want.first().cloned());
    same!("rev().count", c().rev().count(), n);
    same!("collect to a deque", c().collect::<VecDeque<_>>(), w().collect::<VecDeque<_>>());
    let mut v = vec![];
    c().for_each(|x| v.push(x));
    same!("for_each", v, want.to_vec());
    let push = |mut v: Vec<I::Item>, x| {
        v.push(x);
        v
    };
    same!("fold", c().fold(vec![], push), want.to_vec());
    same!("rfold", c().rfold(vec![], push), back.clone());
    let mut v = vec![];
    for x in c() {
        v.push(x)
    }
    same!("for loop", v, want.to_vec());
    let mut v = vec![back[..n.min(1)].to_vec(), vec![]].concat();
    v.extend(c());
    same!("extend", v[n.min(1)..].to_vec(), want.to_vec());
    same!("map().filter() fold", c().map(|x| x).filter(|_| true).fold(0usize, |a, _| a + 1), n);
    same!("chain", c().chain(c().rev()).collect::<Vec<_>>(), w().chain(w().rev()).collect::<Vec<_>>());
    same!("zip", c().zip(c().rev()).collect::<Vec<_>>(), w().zip(w().rev()).collect::<Vec<_>>());
    same!("enumerate().rev()", c().enumerate().rev().map(|x| x.0).collect::<Vec<_>>(), (0..n).rev().collect::<Vec<_>>());
    same!("peekable", { let mut p = c().peekable(); (p.peek().cloned(), p.len(), p.collect::<Vec<_>>()) }, (want.first().cloned(), n, want.to_vec()));
    same!("cycle", c().cycle().take(n * 2 + n.min(3)).collect::<Vec<_>>(), w().cycle().take(n * 2 + n.min(3)).collect::<Vec<_>>());
    same!("max", c().max(), w().max());
    same!("min", c().min(), w().min());
    same!("max_by_key", c().enumerate().max_by_key(|x| x.1.clone()), w().enumerate().max_by_key(|x| x.1.clone()));
    same!("max_by", c().max_by(|a, b| a.cmp(b)), w().max_by(|a, b| a.cmp(b)));
    same!("min_by", c().min_by(|a, b| a.cmp(b)), w().min_by(|a, b| a.cmp(b)));
    same!("min_by_key", c().min_by_key(|x| x.clone()), w().min_by_key(|x| x.clone()));
    same!("reduce", c().reduce(|a, b| a.max(b)), w().max());
    same!("eq", (c().eq(w()), c().ne(w()), c().eq(w().skip(1)), c().eq(w().chain(w().take(1)))), (true, false, n == 0, n == 0));
    same!("cmp", (c().cmp(w()), c().partial_cmp(w()), c().lt(w()), c().le(w()), c().gt(w()), c().ge(w())), (std::cmp::Ordering::Equal, Some(std::cmp::Ordering::Equal), false, true, false, true));
    same!("is_sorted", c().is_sorted(), w().is_sorted());
    same!("partition", { let mut k = 0; c().partition::<Vec<_>, _>(|_| { k += 1; k % 2 == 0 }) }, { let mut k = 0; w().partition::<Vec<_>, _>(|_| { k += 1; k % 2 == 0 }) });
    for at in [0, 1, n / 2, n.saturating_sub(1), n] {
        // stopping at the item number `at`, and what is left then
        let stop = |mut it: I, how: &dyn Fn(&mut I, &mut dyn FnMut() -> bool)| {
            let mut k = 0;
            how(&mut it, &mut || { k += 1; k > at });
            it.collect::<Vec<_>>()
        };
        let rest = want[n.min(at + 1)..].to_vec();
        same!("all, and the rest", stop(c(), &|it, s| { it.all(|_| !s()); }), rest.clone());
        same!("any, and the rest", stop(c(), &|it, s| { it.any(|_| s()); }), rest.clone());
        same!("find, and the rest", stop(c(), &|it, s| { it.find(|_| s()); }), rest.clone());
        same!("find_map, and the rest", stop(c(), &|it, s| { it.find_map(|_| if s() { Some(()) } else { None }); }), rest.clone());
        same!("position, and the rest", stop(c(), &|it, s| { it.position(|_| s()); }), rest.clone());
        same!("try_for_each, and the rest", stop(c(), &|it, s| { let _ = it.try_for_each(|_| if s() { Err(()) } else { Ok(()) }); }), rest.clone());
        same!("take_while, and the rest", stop(c(), &|it, s| { it.by_ref().take_while(|_| !s()).count(); }), rest.clone());
        let rest = want[..n.saturating_sub(at + 1)].to_vec();
        same!("rfind, and the rest", stop(c(), &|it, s| { it.rfind(|_| s()); }), rest.clone());
        same!("rposition, and the rest", stop(c(), &|it, s| { it.rposition(|_| s()); }), rest.clone());
        same!("try_rfold, and the rest", stop(c(), &|it, s| { let _ = it.try_rfold((), |_, _| if s() { Err(()) } else { Ok(()) }); }), rest.clone());
        same!("skip().fold", c().skip(at).fold(vec![], push), want[at.min(n)..].to_vec());
        same!("take().fold", c().take(at).fold(vec![], push), want[..at.min(n)].to_vec());
        same!("rev().skip()", c().rev().skip(at).collect::<Vec<_>>(), w().rev().skip(at).collect::<Vec<_>>());
        same!("rev().take()", c().rev().take(at).collect::<Vec<_>>(), w().rev().take(at).collect::<Vec<_>>());
    }
    Ok(())
}

/// Jumps past the end, by every power of two and its neighbours.
fn far_jumps<I: It>(i: &I, n: usize) -> Result<(), String>
where
    I::Item: PartialEq + Debug + Clone,
{
    for k in 4..=64u32 {
        for d in 0..6usize {
            let j = if k == 64 { usize::MAX - d } else { (1usize << k) + d - 1 };
            if j < n {
                continue;
            }
            for back in [false, true] {
                let mut c = i.clone();
                let got = if back { c.nth_back(j) } else { c.nth(j) };
                same!(if back { "nth_back far past the end" } else { "nth far past the end" }, (j, got, c.len(), c.size_hint(), c.next(), c.next_back()), (j, None, 0, (0, Some(0)), None, None));
            }
        }
    }
    Ok(())
}

fn dfs<I: It>(wk: &mut W, name: &str, i: &I, q: &VecDeque<I::Item>, ops: &[Op], path: &mut Vec<Op>, depth: usize) -> R
where
    I::Item: Ord + Debug + Clone,
{
    wk.state();
    if let Err(e) = np("inspection", || look(i, q, true)).and_then(|r| r) {
        return fail("iter", format!("{}: after {:?}: {}", name, path, e));
    }
    if path.len() <= 2 {
        if let Err(e) = np("inspection", || consumers(i, &Vec::from(q.clone())).and_then(|_| far_jumps(i, q.len()))).and_then(|r| r) {
            return fail("iter", format!("{}: after {:?}: {}", name, path, e));
        }
    }
    if depth == 0 {
        wk.traces += 1;
        return Ok(());
    }
    for &op in ops {
        let mut c = i.clone();
        let mut p = q.clone();
        wk.step();
        let got = guard_msg(|| real(&mut c, op));
        let want = model(&mut p, op);
        path.push(op);
        match got {
            Err(e) => return fail("iter", format!("{}: {:?}: unexpected panic: {}", name, path, e)),
            Ok(g) => chk!(g == want, "iter", "{}: {:?} gives {:?}, expected {:?}", name, path, g, want),
        }
        dfs(wk, name, &c, &p, ops, path, depth - 1)?;
        path.pop();
    }
    // the clones' fates must not have touched the source
    if let Err(e) = np("inspection", || look(i, q, false)).and_then(|r| r) {
        return fail("iter", format!("{}: after using clones following {:?}: {}", name, path, e));
    }
    Ok(())
}

/// The same sequences on one iterator, never cloned.
fn straight<I: It>(wk: &mut W, name: &str, mk: &dyn Fn() -> I, q0: &VecDeque<I::Item>, ops: &[Op], depth: usize) -> R
where
    I::Item: PartialEq + Debug + Clone,
{
    let mut idx = vec![0; depth];
    loop {
        let mut i = mk();
        let mut q = q0.clone();
        wk.tick();
        wk.traces += 1;
        for d in 0..depth {
            let op = ops[idx[d]];
            wk.step();
            let got = guard_msg(|| real(&mut i, op));
            let want = model(&mut q, op);
            let hist = || idx[..=d].iter().map(|&j| ops[j]).collect::<Vec<_>>();
            match got {
                Err(e) => return fail("iter", format!("{}: {:?}: unexpected panic: {}", name, hist(), e)),
                Ok(g) => chk!(g == want, "iter", "{}: {:?} gives {:?}, expected {:?}", name, hist(), g, want),
            }
            if let Err(e) = np("inspection", || look(&i, &q, false)).and_then(|r| r) {
                return fail("iter", format!("{}: after {:?}: {}", name, hist(), e));
            }
        }
        let mut d = depth;
        loop {
            if d == 0 {
                return Ok(());
            }
            d -= 1;
            idx[d] += 1;
            if idx[d] < ops.len() {
                break;
            }
            idx[d] = 0;
        }
    }
}

fn alphabet(n: usize) -> Vec<Op> {
    let mut ns = vec![0, 1, 2, n.saturating_sub(1), n, n + 1, usize::MAX, usize::MAX - 1];
    ns.sort();
    ns.dedup();
    let mut v = vec![Next, Back];
    v.extend(ns.iter().map(|&n| Nth(n)));
    v.extend([NthBack(1), NthBack(n), ViaSkip(1), ByRefTake(2)]);
    v
}

fn bits<B: Blk>(m: &mut Main, lens: Vec<usize>, depth: usize) {
    let mut all: Vec<Vec<bool>> = vec![];
    for len in lens {
        if len <= 5 {
            all.extend((0..1u64 << len).map(|x| word_bits(x, len)));
        } else {
            all.extend([pattern(3, len), pattern(5, len), pattern(4, len)]);
        }
    }
    for b in all {
        let len = b.len();
        m.job(format!("bits {} {}", B::NAME, bitstr(&b)), move |wk| {
            {
                let v = bv_from::<B>(&b);
                let q: VecDeque<bool> = b.iter().cloned().collect();
                let name = format!("BitVector<{}> {}", B::NAME, bitstr(&b));
                let a = alphabet(len);
                let first: BIter<B> = v.iter();
                dfs(wk, &name, &first, &q, &a, &mut vec![], depth)?;
                straight(wk, &name, &|| (&v).into_iter(), &q, &a, depth.min(3))?;
                let whole: Vec<bool> = v.iter().collect();
                chk!(whole == b, "iter", "{}: collects to {}", name, bitstr(&whole));
                if wk.samples.is_empty() {
                    wk.sample(|| format!("{} with all sequences of {} operations from {:?}", name, depth, a));
                }
            }
            Ok(())
        });
    }
}

fn ints<B: Blk>(m: &mut Main, k: usize, lens: Vec<usize>, depth: usize) {
    for len in lens {
        m.job(format!("ints {} k={} len {}", B::NAME, k, len), move |wk| {
            let mut v = IntVector::<B>::new(k);
            let mut q = VecDeque::new();
            for i in 0..len {
                // distinct wherever the width allows it
                let e = if k < 8 { i as u64 & mask(k) } else { mix(i as u64) & mask(k) };
                v.push(B::of(e));
                q.push_back(B::of(e));
            }
            let name = format!("IntVector<{}>({}) {:?}", B::NAME, k, q);
            let a = alphabet(len);
            let first: IIter<B> = v.iter();
            dfs(wk, &name, &first, &q, &a, &mut vec![], depth)?;
            straight(wk, &name, &|| (&v).into_iter(), &q, &a, depth.min(3))
        });
    }
}

/// Long vectors: whole traversals from the front, the back and both, and jumps to every marked place.
fn long<I: It, F: Fn() -> I>(wk: &mut W, name: &str, mk: F, xs: &[I::Item], marks: &[usize]) -> R
where
    I::Item: PartialEq + Debug + Clone,
{
    let n = xs.len();
    wk.state();
    for mode in 0..4usize {
        let mut i = mk();
        let (mut s, mut e) = (0, n);
        let mut step = 0usize;
        loop {
            wk.step();
            step += 1;
            let back = match mode {
                0 => false,
                1 => true,
                2 => step % 2 == 0,
                _ => step % 5 == 0,
            };
            let want = if s == e { None } else if back { e -= 1; Some(xs[e].clone()) } else { s += 1; Some(xs[s - 1].clone()) };
            let got = ok!(if back { i.next_back() } else { i.next() }, "iter", "{}: traversal {} step {}", name, mode, step);
            chk!(got == want, "iter", "{}: traversal {} step {} gives {:?}, expected {:?}", name, mode, step, got, want);
            chk!(i.len() == e - s && i.size_hint() == (e - s, Some(e - s)), "iter", "{}: traversal {} step {}: len {} expected {}", name, mode, step, i.len(), e - s);
            if want.is_none() {
                break;
            }
        }
        wk.traces += 1;
        wk.tick();
    }
    let all: Vec<I::Item> = mk().collect();
    chk!(all == xs, "iter", "{}: collect differs", name);
    let all = mk().fold(vec![], |mut v, x| { v.push(x); v });
    chk!(all == xs, "iter", "{}: fold differs", name);
    let mut all = mk().rfold(vec![], |mut v, x| { v.push(x); v });
    all.reverse();
    chk!(all == xs, "iter", "{}: rfold differs", name);
    chk!(mk().count() == n && mk().last() == xs.last().cloned(), "iter", "{}: count {} last", name, mk().count());
    for st in [2usize, 7, 64, 65, 100] {
        let a: Vec<_> = mk().step_by(st).collect();
        let b: Vec<_> = xs.iter().step_by(st).cloned().collect();
        chk!(a == b, "iter", "{}: step_by({}) differs", name, st);
    }
    for &a in marks {
        wk.tick();
        for &b in marks {
            for kind in 0..3 {
                wk.step();
                let mut i = mk();
                let (mut s, mut e) = (0, n);
                let (mut got, mut want) = (vec![], vec![]);
                // kind 0: nth(a), next, nth_back(b), next_back; 1: nth_back(a), next_back, nth(b), next; 2: nth(a), nth(b), next, next_back
                let seq: [(bool, usize); 4] = match kind {
                    0 => [(false, a), (false, 0), (true, b), (true, 0)],
                    1 => [(true, a), (true, 0), (false, b), (false, 0)],
                    _ => [(false, a), (false, b), (false, 0), (true, 0)],
                };
                for (back, k) in seq {
                    if k >= e - s {
                        if back { e = s } else { s = e }
                        want.push(None);
                    } else if back {
                        e -= k + 1;
                        want.push(Some(xs[e].clone()));
                    } else {
                        s += k + 1;
                        want.push(Some(xs[s - 1].clone()));
                    }
                    got.push(ok!(if back { i.nth_back(k) } else { i.nth(k) }, "iter", "{}: {:?}", name, seq));
                    chk!(i.len() == e - s, "iter", "{}: {:?}: len {} expected {}", name, seq, i.len(), e - s);
                }
                chk!(got == want, "iter", "{}: (from back?, nth) {:?} gives {:?}, expected {:?}", name, seq, got, want);
                chk!(i.clone().count() == e - s && i.last() == if s < e { Some(xs[e - 1].clone()) } else { None }, "iter", "{}: after {:?}: count or last", name, seq);
            }
        }
    }
    Ok(())
}

fn longs<B: Blk>(m: &mut Main) {
    for n in mc::long::long_blocks(m.thorough) {
        if n > m.pick(140, 2000) && !(B::W <= 16 && n < 1100) {
            continue;
        }
        m.job(format!("long {} {} blocks", B::NAME, n), move |wk| {
            for len in [n * B::W, n * B::W - B::W / 2] {
                let b = pattern(3, len);
                let mut mk = mc::long::marks(B::W, len);
                if mk.len() > 40 {
                    mk = mk.into_iter().enumerate().filter(|(i, p)| i % 3 == 1 || *p + 2 > len || *p < 2).map(|x| x.1).collect();
                }
                mk.extend([len + 1, usize::MAX]);
                let v = bv_from::<B>(&b);
                long(wk, &format!("BitVector<{}> of {} bits", B::NAME, len), || v.iter(), &b, &mk)?;
                for k in if B::W == 8 { vec![1, 3, 8] } else { vec![1, 7, B::W / 2, B::W] } {
                    let c = len / k;
                    let xs: Vec<B> = (0..c).map(|i| B::of(field(&b, i * k, k))).collect();
                    let v = iv_from::<B>(k, &b);
                    let mk: Vec<usize> = mk.iter().map(|&p| if p > len { p } else { p / k }).collect();
                    long(wk, &format!("IntVector<{}>({}) of {} elements", B::NAME, k, c), || v.iter(), &xs, &mk)?;
                }
            }
            Ok(())
        });
    }
}

/// Short ways to either end, at every length.
fn ends<T: PartialEq + Clone + std::fmt::Debug, I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone>(wk: &mut W, name: &str, all: I, xs: &[T]) -> R {
    let n = xs.len();
    wk.step();
    for (s, e) in [(0, n), (1, n), (0, n.saturating_sub(1)), (2, n.saturating_sub(1))] {
        if s > e || s > n {
            continue;
        }
        let mut i = all.clone();
        for _ in 0..s {
            i.next();
        }
        for _ in e..n {
            i.next_back();
        }
        let c = e - s;
        chk!(i.len() == c && i.size_hint() == (c, Some(c)) && i.clone().count() == c, "length", "{} ({}..{} left): len {}, size_hint {:?}, count {}", name, s, e, i.len(), i.size_hint(), i.clone().count());
        let last = if c > 0 { Some(xs[e - 1].clone()) } else { None };
        let first = if c > 0 { Some(xs[s].clone()) } else { None };
        let second = if c > 1 { Some(xs[s + 1].clone()) } else { None };
        chk!(i.clone().last() == last, "iter", "{} ({}..{} left): last() = {:?}, expected {:?}", name, s, e, i.clone().last(), last);
        chk!(i.clone().next() == first && i.clone().next_back() == last && i.clone().rev().next() == last, "iter", "{} ({}..{} left): next, next_back or rev", name, s, e);
        chk!(i.clone().nth(0) == first && i.clone().nth(1) == second && i.clone().rev().last() == first, "iter", "{} ({}..{} left): nth(0), nth(1) or rev().last()", name, s, e);
        if c > 0 {
            let mut j = i.clone();
            chk!(j.nth(c - 1) == last && j.len() == 0 && j.next() == None && j.next_back() == None, "iter", "{} ({}..{} left): nth({})", name, s, e, c - 1);
            let mut j = i.clone();
            chk!(j.nth_back(c - 1) == first && j.len() == 0 && j.next() == None, "iter", "{} ({}..{} left): nth_back({})", name, s, e, c - 1);
        }
        let mut j = i.clone();
        chk!(j.nth(c) == None && j.len() == 0 && j.next() == None && j.next_back() == None, "iter", "{} ({}..{} left): nth({})", name, s, e, c);
    }
    Ok(())
}
fn every_end<B: Blk>(m: &mut Main) {
    let top = m.pick(4200, 20000);
    let k = B::W / 2 + 1;
    m.job(format!("ends {}", B::NAME), move |wk| {
        let mut v = BitVector::<B>::new();
        let mut iv = IntVector::<B>::new(k);
        let (mut bs, mut xs) = (vec![], vec![]);
        loop {
            wk.tick();
            if wk.stopped() {
                break;
            }
            ends(wk, &format!("BitVector<{}> of {} bits", B::NAME, bs.len()), v.iter(), &bs)?;
            ends(wk, &format!("IntVector<{}>({}) of {} elements", B::NAME, k, xs.len()), iv.iter(), &xs)?;
            let i = bs.len() as u64;
            if i == top {
                break;
            }
            let (b, x) = (mix(i) & 1 == 1, B::of(mix(i ^ 77) & mask(k)));
            v.push_bit(b);
            bs.push(b);
            iv.push(x);
            xs.push(x);
        }
        wk.traces += 1;
        Ok(())
    });
}

/// Every way of using up a vector whose length is around a power of two, whole and with some items gone from either end.
fn around<B: Blk>(m: &mut Main) {
    for p in 3..=m.pick(14, 17) as u32 {
        m.job(format!("around 2^{} {}", p, B::NAME), move |wk| {
            for n in [(1usize << p) - 1, 1 << p, (1 << p) + 1, (1 << p) + 2, (3 << (p - 1)) + 1] {
                let b = pattern(3, n);
                let v = bv_from::<B>(&b);
                let ks: Vec<usize> = if p > 12 { vec![1, 5] } else { vec![1, 3, B::W / 2 + 1, B::W] };
                for k in ks {
                    let xs: Vec<B> = (0..n).map(|i| B::of(mix(i as u64) & mask(k))).collect();
                    let mut w = IntVector::<B>::new(k);
                    for &x in &xs {
                        w.push(x)
                    }
                    for (f, z) in [(0, 0), (1, 0), (0, 1), (2, 3)] {
                        wk.step();
                        wk.tick();
                        wk.traces += 1;
                        let (mut i, mut j) = (w.iter(), v.iter());
                        for _ in 0..f {
                            i.next();
                            j.next();
                        }
                        for _ in 0..z {
                            i.next_back();
                            j.next_back();
                        }
                        if let Err(e) = np("inspection", || consumers(&i, &xs[f..n - z])).and_then(|r| r) {
                            return fail("iter", format!("IntVector<{}>({}) of {} elements, {} and {} taken: {:.300}", B::NAME, k, n, f, z, e));
                        }
                        if k == 1 {
                            if let Err(e) = np("inspection", || consumers(&j, &b[f..n - z])).and_then(|r| r) {
                                return fail("iter", format!("BitVector<{}> of {} bits, {} and {} taken: {:.300}", B::NAME, n, f, z, e));
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// Positions beyond 2^32.
fn huge(m: &mut Main) {
    m.job("huge bit vector", |wk| {
        let n: u64 = (1 << 33) + 5;
        let mut v = BitVector::<u64>::block_with_fill((n / 64 + 1) as usize, 0);
        v.truncate(n);
        let ones = [0u64, 63, 64, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 64, (1 << 33) - 1, 1 << 33, n - 1];
        for &o in &ones {
            v.set_bit(o, true)
        }
        let n = n as usize;
        let at = |i: usize| ones.contains(&(i as u64));
        let ps = [0usize, 1, 62, 63, 64, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 63, (1 << 32) + 64, (1 << 33) - 1, 1 << 33, n - 2, n - 1, n, n + 1, usize::MAX];
        for &a in &ps {
            for &b in &ps {
                let mut i = v.iter();
                wk.tick();
                wk.traces += 1;
                let what = format!("bit vector of {} bits: nth({}), next_back, nth({})", n, a, b);
                chk!(i.len() == n && i.size_hint() == (n, Some(n)), "huge", "{}: initial len", what);
                // model: remaining range
                let (mut s, mut e) = (0usize, n);
                for (step, x) in [Some(a), None, Some(b), None].into_iter().enumerate() {
                    wk.step();
                    let want = match x {
                        Some(k) => {
                            if k >= e - s {
                                s = e;
                                None
                            } else {
                                s += k + 1;
                                Some(at(s - 1))
                            }
                        }
                        None if s < e => {
                            e -= 1;
                            Some(at(e))
                        }
                        None => None,
                    };
                    let got = ok!(
                        match x {
                            Some(k) => i.nth(k),
                            None => i.next_back(),
                        },
                        "huge",
                        "{} step {}",
                        what,
                        step
                    );
                    chk!(got == want, "huge", "{} step {}: got {:?} expected {:?}", what, step, got, want);
                    let l = ok!(i.len(), "huge", "{} step {}: len", what, step);
                    chk!(l == e - s && i.size_hint() == (l, Some(l)), "huge", "{} step {}: len {} expected {}", what, step, l, e - s);
                    chk!(i.clone().count() == e - s, "huge", "{} step {}: count", what, step);
                    let want = if s < e { Some(at(e - 1)) } else { None };
                    chk!(i.clone().last() == want, "huge", "{} step {}: last", what, step);
                }
            }
        }
        Ok(())
    });
    for k in [1usize, 7] {
        m.job(format!("huge int vector k={}", k), move |wk| {
            let mut v = IntVector::<u64>::block_with_fill(k, ((7u64 << 32) / 64 + 100) as usize, 0);
            let n = v.len() as usize;
            chk!(n == ((7usize << 32) + 6400) / k, "huge", "length {}", n);
            let marks: Vec<usize> = vec![0, 9, (1 << 29) - 1, 1 << 29, (1usize << 32) / k, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, n - 2, n - 1];
            let val = |i: usize| if marks.contains(&i) { (i as u64 * 2 + 1) & mask(k) } else { 0 };
            for &i in marks.iter() {
                use succinct::IntVecMut;
                v.set(i as u64, val(i))
            }
            for &a in marks.iter().chain(&[n, n + 1, usize::MAX]) {
                for d in 0..3usize {
                    wk.tick();
                    wk.step();
                    wk.traces += 1;
                    let a = a.saturating_sub(d);
                    let mut i = v.iter();
                    let got = i.nth(a);
                    let want = if a < n { Some(val(a)) } else { None };
                    chk!(got == want, "huge", "int vector of {} elements of {} bits: nth({}) gives {:?}", n, k, a, got);
                    let l = ok!(i.len(), "huge", "len after nth({})", a);
                    chk!(l == n.saturating_sub(a.saturating_add(1)), "huge", "int vector of {} elements: nth({}) leaves {}", n, a, l);
                }
            }
            Ok(())
        });
    }
}

fn main() {
    let mut m = Main::new("C06");
    m.rule("state = iterator after one sequence of operations (not merged); transition = next, next_back, nth, nth_back, skip or take; at every state len, size_hint, count, last, both directions of collection on clones, compared with a deque");
    let d = m.pick(5, 6);
    bits::<u8>(&mut m, vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 17], d);
    bits::<u16>(&mut m, vec![3, 16, 18], d - 1);
    bits::<u32>(&mut m, vec![33], d - 1);
    bits::<u64>(&mut m, vec![1, 2, 65], d - 1);
    bits::<usize>(&mut m, vec![5, 64], d - 1);
    ints::<u8>(&mut m, 3, (0..=8).collect(), d);
    for k in [1, 2, 5, 7, 8] {
        ints::<u8>(&mut m, k, vec![0, 1, 4, 9], d - 1);
    }
    ints::<u16>(&mut m, 5, (0..=7).collect(), d - 1);
    ints::<u16>(&mut m, 16, vec![4], d - 1);
    ints::<u32>(&mut m, 11, vec![3, 6], d - 1);
    ints::<u64>(&mut m, 7, vec![10, 19], d - 1);
    ints::<u64>(&mut m, 33, vec![1, 2, 3, 4, 5], d - 1);
    ints::<u64>(&mut m, 64, vec![3], d - 1);
    ints::<usize>(&mut m, 63, vec![4], d - 1);
    huge(&mut m);
    every_end::<u8>(&mut m);
    every_end::<u16>(&mut m);
    every_end::<u32>(&mut m);
    every_end::<u64>(&mut m);
    every_end::<usize>(&mut m);
    m.bound("either end, whole or after one or two steps, by next, next_back, nth, nth_back, last, count, rev and the length, at every length to 4200 (thorough 20000) elements, bit and integer vectors");
    longs::<u8>(&mut m);
    longs::<u16>(&mut m);
    longs::<u32>(&mut m);
    longs::<u64>(&mut m);
    longs::<usize>(&mut m);
    m.bound("vectors of 3 to 1025 blocks (wide blocks: 129; thorough 1025): complete traversals from either end and both, every pair of jumps (nth, nth_back) over the marked places");
    m.bound(format!("all sequences of up to {} operations (14 operations) over every bit string of length <= 5 and selected longer ones, integer vectors of length 0..10; positions up to 2^33", d));
    around::<u8>(&mut m);
    around::<u16>(&mut m);
    around::<u32>(&mut m);
    around::<u64>(&mut m);
    around::<usize>(&mut m);
    m.bound("45 consuming methods and adapters (each of whose defaults could be overridden) after every pair of operations, and over lengths around every power of two up to 2^14 (thorough 2^17); jumps past the end by around every power of two");
    m.run()
}
