//! Block abstraction, plain-sequence models, explicit-state search.

use crate::{fail, guard_msg, R, W};
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use succinct::storage::BlockType;

pub trait Blk: BlockType + succinct::BitVec<Block = Self> + succinct::BitVecMut + Hash + Send + Sync + Debug + 'static {
    const W: usize;
    const NAME: &'static str;
    /// low bits of x
    fn of(x: u64) -> Self;
    fn u(self) -> u64;
}
macro_rules! blk {
    ($($t:ident $w:expr),*) => {$(
        impl Blk for $t {
            const W: usize = $w;
            const NAME: &'static str = stringify!($t);
            #[inline] fn of(x: u64) -> Self { x as $t }
            #[inline] fn u(self) -> u64 { self as u64 }
        })*
    }
}
blk!(u8 8, u16 16, u32 32, u64 64, usize 64);

#[inline]
pub fn mask(n: usize) -> u64 {
    if n >= 64 {
        !0
    } else {
        (1u64 << n) - 1
    }
}

/// Irregular 64-bit pattern; bit i of word j is pseudo-irregular but fixed.
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

/// Block values used as arguments, simplest first.
pub fn pats(w: usize) -> Vec<u64> {
    let m = mask(w);
    let mut v = vec![0, m, 1, 1 << (w - 1), 0x5555_5555_5555_5555 & m, 0xB3D1_F02E_9C47_6A85 & m];
    v.dedup();
    v
}

/// Packs bits little-endian into blocks of w bits, unused bits zero.
pub fn pack(bits: &[bool], w: usize) -> Vec<u64> {
    let mut out = vec![0u64; (bits.len() + w - 1) / w];
    for (i, &b) in bits.iter().enumerate() {
        if b {
            out[i / w] |= 1 << (i % w);
        }
    }
    out
}
/// bits[start..start+count] as a little-endian integer
pub fn field(bits: &[bool], start: usize, count: usize) -> u64 {
    let mut r = 0;
    for i in 0..count {
        if bits[start + i] {
            r |= 1 << i;
        }
    }
    r
}
pub fn set_field(bits: &mut [bool], start: usize, count: usize, v: u64) {
    for i in 0..count {
        bits[start + i] = (v >> i) & 1 == 1;
    }
}
pub fn bitstr(bits: &[bool]) -> String {
    bits.iter().map(|&b| if b { '1' } else { '0' }).collect()
}
/// The x-th bit string of the given length (bit i of x = bit i).
pub fn word_bits(x: u64, len: usize) -> Vec<bool> {
    (0..len).map(|i| (x >> i) & 1 == 1).collect()
}
/// Pattern families of arbitrary length.
pub fn pattern(kind: usize, len: usize) -> Vec<bool> {
    (0..len)
        .map(|i| match kind {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => mix(i as u64 / 64 + 17) >> (i % 64) & 1 == 1,
            4 => i + 1 == len,
            5 => i == 0,
            6 => (i / 64) % 2 == 1,
            7 => mix(i as u64) % 37 == 0,
            _ => mix(i as u64 ^ (kind as u64) << 32) & 1 == 1,
        })
        .collect()
}
pub const NPAT: usize = 8;

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- explicit-state search

/// A pair (real object, reference model) driven in lock step.
pub trait Sys: Clone {
    type Op: Debug + Clone;
    /// Everything observable about the real object (and hidden state that its hash reveals).
    fn key(&self) -> Vec<u8>;
    fn ops(&self) -> Vec<Self::Op>;
    /// Applies to both; Err = they disagree.
    fn apply(&mut self, op: &Self::Op) -> Result<(), String>;
    /// Cheap agreement check after every transition.
    fn agree(&self) -> Result<(), String>;
    /// Complete observation, once per new state.
    fn observe(&self) -> Result<(), String>;
    fn in_bound(&self) -> bool;
    fn show(&self) -> String;
}

/// Breadth-first search with exact state keys. Every transition runs the real code.
/// Returns whether the space within the bound was exhausted (no depth cut).
pub fn bfs<S: Sys>(w: &mut W, name: &str, inits: Vec<S>, max_depth: usize) -> Result<bool, crate::Fail> {
    let mut seen: HashSet<Box<[u8]>> = HashSet::new();
    let mut parents: Vec<(usize, Option<S::Op>, String)> = vec![];
    let mut frontier: Vec<(usize, S)> = vec![];
    let trace = |parents: &Vec<(usize, Option<S::Op>, String)>, mut i: usize, last: Option<&S::Op>| -> String {
        let mut ops = vec![];
        if let Some(o) = last {
            ops.push(format!("{:?}", o));
        }
        loop {
            let (p, op, init) = &parents[i];
            match op {
                Some(o) => ops.push(format!("{:?}", o)),
                None => {
                    ops.push(format!("start from {}", init));
                    break;
                }
            }
            i = *p;
        }
        ops.reverse();
        ops.join("; ")
    };
    for s in inits {
        if let Err(e) = s.agree().and_then(|_| s.observe()) {
            return fail(name, format!("initial state {}: {}", s.show(), e));
        }
        if seen.insert(s.key().into_boxed_slice()) {
            let i = parents.len();
            parents.push((i, None, s.show()));
            w.state();
            frontier.push((i, s));
        }
    }
    let mut exhausted = false;
    for depth in 0..max_depth {
        if frontier.is_empty() {
            exhausted = true;
            break;
        }
        let mut next = vec![];
        for (i, s) in frontier {
            if w.stopped() {
                return Ok(false);
            }
            for op in s.ops() {
                let mut t = s.clone();
                w.step();
                if let Err(e) = t.apply(&op).and_then(|_| t.agree()) {
                    return fail(name, format!("history: {}\n  {}\n  (depth {})", trace(&parents, i, Some(&op)), e, depth + 1));
                }
                let k = t.key().into_boxed_slice();
                if !seen.contains(&k) {
                    if let Err(e) = t.observe() {
                        return fail(name, format!("history: {}\n  {}", trace(&parents, i, Some(&op)), e));
                    }
                    seen.insert(k);
                    w.state();
                    w.traces += 1;
                    if t.in_bound() {
                        let j = parents.len();
                        parents.push((i, Some(op.clone()), String::new()));
                        if j % 4999 == 7 {
                            let tr = trace(&parents, j, None);
                            w.sample(|| tr);
                        }
                        next.push((j, t));
                    }
                }
            }
        }
        frontier = next;
    }
    if frontier.is_empty() {
        exhausted = true;
    }
    Ok(exhausted)
}

/// All operation sequences of exactly `depth` operations from a small alphabet, replayed from scratch on a fresh
/// object each (no state merging, real capacities), checking after every operation.
pub fn stateless<S, F>(w: &mut W, name: &str, mk: F, alphabet: &[S::Op], depth: usize) -> R
where
    S: Sys,
    F: Fn() -> S,
{
    let n = alphabet.len();
    let mut idx = vec![0usize; depth];
    loop {
        if w.stopped() {
            return Ok(());
        }
        let mut s = mk();
        w.tick();
        w.traces += 1;
        for d in 0..depth {
            w.step();
            let op = &alphabet[idx[d]];
            if let Err(e) = s.apply(op).and_then(|_| s.agree()) {
                let ops: Vec<String> = idx[..=d].iter().map(|&i| format!("{:?}", alphabet[i])).collect();
                return fail(name, format!("history: start from {}; {}\n  {}", mk().show(), ops.join("; "), e));
            }
        }
        if let Err(e) = s.observe() {
            let ops: Vec<String> = idx.iter().map(|&i| format!("{:?}", alphabet[i])).collect();
            return fail(name, format!("history: start from {}; {}\n  {}", mk().show(), ops.join("; "), e));
        }
        // next sequence
        let mut d = depth;
        loop {
            if d == 0 {
                return Ok(());
            }
            d -= 1;
            idx[d] += 1;
            if idx[d] < n {
                break;
            }
            idx[d] = 0;
        }
    }
}

/// Call that must not panic inside a Sys method.
pub fn np<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard_msg(f).map_err(|p| format!("{}: unexpected panic: {}", what, p))
}

#[macro_export]
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let g = $got;
        let e = $want;
        if g != e {
            return Err(format!("{}: got {:?}, expected {:?}", $what, g, e));
        }
    }};
}
