//! Reference definitions of the universal codes, and instrumented bit sources and sinks.

use crate::bits::*;
use crate::on_lib;
use crate::stores::raw;
use crate::vecs::bv_from;
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};
use succinct::coding::{Comma, Elias, Fibonacci, Gamma, Lift0, Omega, UniversalCode, Unary, DELTA, GAMMA};
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::BitVector;

/// A code by its definition.
#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Unary,
    Elias(Box<Def>),
    Omega,
    Fibonacci,
    Comma(u8),
    Lift0(Box<Def>),
}

/// What a bit string denotes.
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    /// a codeword of this value that ends before this index
    Value(u64, usize),
    /// nothing at all: a clean end
    Clean,
    /// a proper prefix of codewords, the least of which denotes this
    Prefix(u128),
    /// denotes a value beyond 64 bits, or (lifting) no value at all: some error
    Wrong,
    /// denotes this value, beyond what the encoder offers but within 64 bits: this value or an error
    Beyond(u64, usize),
}

const INF: u128 = 1 << 100;
fn cap(x: u128) -> u128 {
    x.min(INF)
}

/// Fibonacci numbers 1, 2, 3, 5, ... that fit in 64 bits; the last is the first value the encoder refuses.
pub fn fibs() -> Vec<u64> {
    let mut v = vec![1u64, 2];
    while let Some(n) = v[v.len() - 1].checked_add(v[v.len() - 2]) {
        v.push(n)
    }
    v
}

impl Def {
    pub fn in_domain(&self, v: u64) -> bool {
        match self {
            Def::Unary => true,
            Def::Elias(h) => v != 0 && h.in_domain(63 - v.leading_zeros() as u64),
            Def::Omega => v != 0,
            Def::Fibonacci => v != 0 && v < *fibs().last().unwrap(),
            Def::Comma(_) => true,
            Def::Lift0(c) => v != u64::MAX && c.in_domain(v + 1),
        }
    }

    /// The codeword of a value in the domain.
    pub fn word(&self, v: u64) -> Vec<bool> {
        match self {
            Def::Unary => {
                let mut b = vec![false; v as usize];
                b.push(true);
                b
            }
            Def::Elias(h) => {
                // the bit length minus one, then the bits below the top one, least significant first
                let text: Vec<bool> = binary(v);
                let mut b = h.word(text.len() as u64 - 1);
                b.extend(text[1..].iter().rev());
                b
            }
            Def::Omega => {
                let mut b = vec![false];
                let mut n = v;
                while n > 1 {
                    let text = binary(n);
                    n = text.len() as u64 - 1;
                    let mut c = text;
                    c.extend(b);
                    b = c;
                }
                b
            }
            Def::Fibonacci => {
                let f = fibs();
                let top = f.iter().rposition(|&x| x <= v).unwrap();
                let mut b = vec![false; top + 1];
                let mut rest = v;
                for i in (0..=top).rev() {
                    if f[i] <= rest {
                        b[i] = true;
                        rest -= f[i]
                    }
                }
                assert!(rest == 0, "HARNESS: Zeckendorf");
                b.push(true);
                b
            }
            Def::Comma(n) => {
                let base = (1u128 << n) - 1;
                let mut digits = vec![];
                let mut x = v as u128;
                while x > 0 {
                    digits.push(x % base);
                    x /= base
                }
                digits.reverse();
                digits.push(base);
                digits.iter().flat_map(|&d| (0..*n).map(move |i| d >> i & 1 == 1)).collect()
            }
            Def::Lift0(c) => c.word(v + 1),
        }
    }

    /// What the bits from index `i` on denote.
    pub fn decode(&self, b: &[bool], i: usize) -> Dec {
        match self {
            Def::Unary => {
                let z = b[i..].iter().take_while(|&&x| !x).count();
                if i + z < b.len() {
                    Dec::Value(z as u64, i + z + 1)
                } else if z == 0 {
                    Dec::Clean
                } else {
                    Dec::Prefix(z as u128)
                }
            }
            Def::Elias(h) => match h.decode(b, i) {
                Dec::Value(n, e) | Dec::Beyond(n, e) => {
                    if n > 63 {
                        return Dec::Wrong;
                    }
                    let n = n as usize;
                    let have = n.min(b.len() - e);
                    let v = 1u64 << n | field(b, e, have);
                    if have == n {
                        Dec::Value(v, e + n)
                    } else {
                        Dec::Prefix(v as u128)
                    }
                }
                Dec::Prefix(least) => {
                    if least > 63 {
                        Dec::Wrong
                    } else {
                        Dec::Prefix(1 << least)
                    }
                }
                other => other,
            },
            Def::Omega => {
                let mut n = 1u128;
                let mut p = i;
                loop {
                    if p == b.len() {
                        return if p == i { Dec::Clean } else { Dec::Prefix(n) };
                    }
                    if !b[p] {
                        return Dec::Value(n as u64, p + 1);
                    }
                    if n > 63 {
                        return Dec::Wrong;
                    }
                    let mut x = 0u128;
                    for k in 0..=n as usize {
                        if p + k == b.len() {
                            return Dec::Prefix(x << (n as usize + 1 - k));
                        }
                        x = x << 1 | b[p + k] as u128;
                    }
                    p += n as usize + 1;
                    n = x;
                }
            }
            Def::Fibonacci => {
                let (mut a, mut next) = (1u128, 2u128);
                let mut sum = 0u128;
                let last = *fibs().last().unwrap() as u128;
                let mut prev = false;
                for p in i..b.len() {
                    if b[p] && prev {
                        return if sum < last {
                            Dec::Value(sum as u64, p + 1)
                        } else if sum <= u64::MAX as u128 {
                            Dec::Beyond(sum as u64, p + 1)
                        } else {
                            Dec::Wrong
                        };
                    }
                    if b[p] {
                        sum = cap(sum + a)
                    }
                    prev = b[p];
                    let c = cap(a + next);
                    a = next;
                    next = c;
                }
                if b.len() == i {
                    return Dec::Clean;
                }
                let least = if prev { sum } else { cap(sum + a) };
                if least < last {
                    Dec::Prefix(least)
                } else {
                    Dec::Wrong
                }
            }
            Def::Comma(n) => {
                let n = *n as usize;
                let base = (1u128 << n) - 1;
                let mut x = 0u128;
                let mut p = i;
                loop {
                    let have = n.min(b.len() - p);
                    let d = (0..have).fold(0u128, |d, k| d | (b[p + k] as u128) << k);
                    if have < n {
                        if p == b.len() && p == i {
                            return Dec::Clean;
                        }
                        let all_ones = d == (1u128 << have) - 1;
                        let least = if all_ones { x } else { cap(cap(x).saturating_mul(base).saturating_add(d)) };
                        return if least > u64::MAX as u128 { Dec::Wrong } else { Dec::Prefix(least) };
                    }
                    p += n;
                    if d == base {
                        return if x > u64::MAX as u128 { Dec::Wrong } else { Dec::Value(x as u64, p) };
                    }
                    // once beyond 64 bits it stays beyond
                    x = if x > u64::MAX as u128 { x } else { x * base + d };
                }
            }
            Def::Lift0(c) => match c.decode(b, i) {
                Dec::Value(0, _) | Dec::Beyond(0, _) => Dec::Wrong,
                Dec::Value(v, e) => Dec::Value(v - 1, e),
                Dec::Beyond(v, e) => Dec::Beyond(v - 1, e),
                Dec::Prefix(v) => Dec::Prefix(v.max(1) - 1),
                other => other,
            },
        }
    }
}

/// most significant first, no leading zeros
fn binary(v: u64) -> Vec<bool> {
    let n = 64 - v.leading_zeros();
    (0..n).rev().map(|i| v >> i & 1 == 1).collect()
}

/// A code of the library together with its definition.
pub trait Real: Send + Sync {
    fn name(&self) -> String;
    fn def(&self) -> Def;
    fn encode_to(&self, s: &mut dyn BitWriteDyn, v: u64) -> Result<()>;
    fn decode_from(&self, s: &mut dyn BitReadDyn) -> Result<Option<u64>>;
    /// The library's own streams, without a layer in between that would hide what they override.
    fn encode_lib(&self, s: &mut Lib, v: u64) -> Result<()>;
    fn decode_lib(&self, s: &mut Lib) -> Result<Option<u64>>;
}
/// The streams the library offers.
pub enum Lib {
    Q(VecDeque<bool>),
    T8(BitBuffer<BitVector<u8>>),
    T16(BitBuffer<BitVector<u16>>),
    T32(BitBuffer<BitVector<u32>>),
    T64(BitBuffer<BitVector<u64>>),
    TZ(BitBuffer<BitVector<usize>>),
    TB(BitBuffer<Vec<bool>>),
}
pub const LIBS: [&str; 7] = ["VecDeque", "BitBuffer<BitVector<u8>>", "BitBuffer<BitVector<u16>>", "BitBuffer<BitVector<u32>>", "BitBuffer<BitVector<u64>>", "BitBuffer<BitVector<usize>>", "BitBuffer<Vec<bool>>"];
impl Lib {
    /// Over these bits, to be read (and overwritten) from bit `at`.
    pub fn over(kind: usize, b: &[bool], at: usize) -> Lib {
        fn t<V: succinct::BitVec>(v: V, at: usize) -> BitBuffer<V> {
            let mut t = BitBuffer::from(v);
            assert!(t.seek(at as u64).is_ok(), "seeking within the contents failed");
            t
        }
        match kind {
            0 => Lib::Q(b[at..].iter().cloned().collect()),
            1 => Lib::T8(t(bv_from(b), at)),
            2 => Lib::T16(t(bv_from(b), at)),
            3 => Lib::T32(t(bv_from(b), at)),
            4 => Lib::T64(t(bv_from(b), at)),
            5 => Lib::TZ(t(bv_from(b), at)),
            _ => Lib::TB(t(b.to_vec(), at)),
        }
    }
    /// The bits held: for a queue those not yet read.
    pub fn bits(&self) -> Vec<bool> {
        match self {
            Lib::Q(q) => q.iter().cloned().collect(),
            Lib::T8(t) => raw(t),
            Lib::T16(t) => raw(t),
            Lib::T32(t) => raw(t),
            Lib::T64(t) => raw(t),
            Lib::TZ(t) => raw(t),
            Lib::TB(t) => t.inner().clone(),
        }
    }
    /// The bit to be read next, of a stream made `over` as many bits as `len`.
    pub fn at(&self, len: usize) -> usize {
        match self {
            Lib::Q(q) => len - q.len(),
            Lib::T8(t) => t.position() as usize,
            Lib::T16(t) => t.position() as usize,
            Lib::T32(t) => t.position() as usize,
            Lib::T64(t) => t.position() as usize,
            Lib::TZ(t) => t.position() as usize,
            Lib::TB(t) => t.position() as usize,
        }
    }
    pub fn rewind(&mut self, at: usize) -> bool {
        let at = at as u64;
        match self {
            Lib::Q(_) => true,
            Lib::T8(t) => t.seek(at).is_ok(),
            Lib::T16(t) => t.seek(at).is_ok(),
            Lib::T32(t) => t.seek(at).is_ok(),
            Lib::T64(t) => t.seek(at).is_ok(),
            Lib::TZ(t) => t.seek(at).is_ok(),
            Lib::TB(t) => t.seek(at).is_ok(),
        }
    }
}
/// Runs an expression on whichever stream it is.
#[macro_export]
macro_rules! on_lib {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            $crate::codes::Lib::Q($t) => $e,
            $crate::codes::Lib::T8($t) => $e,
            $crate::codes::Lib::T16($t) => $e,
            $crate::codes::Lib::T32($t) => $e,
            $crate::codes::Lib::T64($t) => $e,
            $crate::codes::Lib::TZ($t) => $e,
            $crate::codes::Lib::TB($t) => $e,
        }
    };
}
/// Object-safe ends.
pub trait BitWriteDyn {
    fn put(&mut self, b: bool) -> Result<()>;
}
pub trait BitReadDyn {
    fn get(&mut self) -> Result<Option<bool>>;
}
impl<W: BitWrite> BitWriteDyn for W {
    fn put(&mut self, b: bool) -> Result<()> {
        self.write_bit(b)
    }
}
impl<R: BitRead> BitReadDyn for R {
    fn get(&mut self) -> Result<Option<bool>> {
        self.read_bit()
    }
}
pub struct ToDyn<'a>(pub &'a mut dyn BitWriteDyn);
impl<'a> BitWrite for ToDyn<'a> {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        self.0.put(b)
    }
}
pub struct FromDyn<'a>(pub &'a mut dyn BitReadDyn);
impl<'a> BitRead for FromDyn<'a> {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        self.0.get()
    }
}

pub struct Pair<C> {
    pub code: C,
    pub def: Def,
    pub name: String,
}
impl<C: UniversalCode + Send + Sync> Real for Pair<C> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn def(&self) -> Def {
        self.def.clone()
    }
    fn encode_to(&self, s: &mut dyn BitWriteDyn, v: u64) -> Result<()> {
        self.code.encode(&mut ToDyn(s), v)
    }
    fn decode_from(&self, s: &mut dyn BitReadDyn) -> Result<Option<u64>> {
        self.code.decode(&mut FromDyn(s))
    }
    fn encode_lib(&self, s: &mut Lib, v: u64) -> Result<()> {
        on_lib!(s, t => self.code.encode(t, v))
    }
    fn decode_lib(&self, s: &mut Lib) -> Result<Option<u64>> {
        on_lib!(s, t => self.code.decode(t))
    }
}

pub type Codes = Vec<Box<dyn Real>>;
fn e(d: Def) -> Def {
    Def::Elias(Box::new(d))
}
fn l(d: Def) -> Def {
    Def::Lift0(Box::new(d))
}
fn add<C: UniversalCode + Send + Sync + 'static>(v: &mut Codes, name: &str, code: C, def: Def) {
    v.push(Box::new(Pair { code, def, name: name.to_string() }))
}

/// The codes: the published ones, lifted ones and Elias codes over other headers.
/// `commas`: which digit widths.
pub fn codes(commas: &[u8]) -> Codes {
    let mut v: Codes = vec![];
    add(&mut v, "Unary", Unary, Def::Unary);
    add(&mut v, "Gamma", GAMMA, e(Def::Unary));
    add(&mut v, "Delta", DELTA, e(l(e(Def::Unary))));
    add(&mut v, "Omega", Omega, Def::Omega);
    add(&mut v, "Fibonacci", Fibonacci, Def::Fibonacci);
    for &n in commas {
        add(&mut v, &format!("Comma({})", n), Comma(n), Def::Comma(n));
    }
    add(&mut v, "COMMA", succinct::coding::COMMA, Def::Comma(2));
    add(&mut v, "Lift0(Unary)", Lift0(Unary), l(Def::Unary));
    add(&mut v, "Lift0(Gamma)", Lift0(GAMMA), l(e(Def::Unary)));
    add(&mut v, "Lift0(Delta)", Lift0(DELTA), l(e(l(e(Def::Unary)))));
    add(&mut v, "Lift0(Omega)", Lift0(Omega), l(Def::Omega));
    add(&mut v, "Lift0(Fibonacci)", Lift0(Fibonacci), l(Def::Fibonacci));
    add(&mut v, "Lift0(Comma(2))", Lift0(Comma(2)), l(Def::Comma(2)));
    add(&mut v, "Lift0(Comma(5))", Lift0(Comma(5)), l(Def::Comma(5)));
    add(&mut v, "Lift0(Lift0(Gamma))", Lift0(Lift0(Elias(Unary))), l(l(e(Def::Unary))));
    add(&mut v, "Elias(Comma(2))", Elias(Comma(2)), e(Def::Comma(2)));
    add(&mut v, "Elias(Comma(4))", Elias(Comma(4)), e(Def::Comma(4)));
    add(&mut v, "Elias(Lift0(Omega))", Elias(Lift0(Omega)), e(l(Def::Omega)));
    add(&mut v, "Elias(Lift0(Fibonacci))", Elias(Lift0(Fibonacci)), e(l(Def::Fibonacci)));
    add(&mut v, "Elias(Lift0(Delta))", Elias(Lift0(DELTA)), e(l(e(l(e(Def::Unary))))));
    add(&mut v, "Elias(Gamma)", Elias(Elias(Unary)), e(e(Def::Unary)));
    add(&mut v, "Elias(Lift0(Lift0(Omega)))", Elias(Lift0(Lift0(Omega))), e(l(l(Def::Omega))));
    let _: Option<Gamma> = None;
    v
}

/// Values around every power of two, every Fibonacci number, every power of the comma bases, and the ends.
pub fn critical() -> Vec<u64> {
    let mut v: Vec<u64> = (0..70).collect();
    for k in 1..64 {
        let p = 1u64 << k;
        for d in 0..4 {
            v.push(p.wrapping_add(d));
            v.push(p - d.min(p));
        }
        v.push(p | p >> 1);
        v.push(mix(k) >> (63 - k));
    }
    for f in fibs() {
        for d in 0..3 {
            v.push(f.wrapping_add(d));
            v.push(f - d.min(f));
        }
    }
    for n in 2..=16u32 {
        let base = (1u64 << n) - 1;
        let mut x = base;
        loop {
            v.extend([x - 1, x, x.wrapping_add(1)]);
            match x.checked_mul(base) {
                Some(y) => x = y,
                None => break,
            }
        }
    }
    for d in 0..6 {
        v.push(u64::MAX - d);
        v.push((1 << 63) - 1 - d);
    }
    v.sort();
    v.dedup();
    v
}

/// Whether a code's word for `v` is short enough to build.
pub fn affordable(d: &Def, v: u64) -> bool {
    match d {
        Def::Unary => v < 200_000,
        Def::Lift0(c) => v == u64::MAX || affordable(c, v + 1),
        Def::Elias(c) => v == 0 || affordable(c, 63 - v.leading_zeros() as u64),
        _ => true,
    }
}

/// A plain list of bits as a source, counting what is consumed and every access.
pub struct Src<'a> {
    pub bits: &'a [bool],
    pub at: usize,
    pub accesses: usize,
    /// fail at this position with this error
    pub fault: Option<(usize, usize)>,
    pub failed: bool,
    pub after: usize,
}
impl<'a> Src<'a> {
    pub fn new(bits: &'a [bool]) -> Self {
        Src { bits, at: 0, accesses: 0, fault: None, failed: false, after: 0 }
    }
}
pub const KINDS: [ErrorKind; 39] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
    ErrorKind::Interrupted,
];
/// How many kinds of error `mark` makes: those of `KINDS` with a message, an error number, and a bare kind.
pub const NKINDS: usize = KINDS.len() + 2;
const RAW: usize = KINDS.len();
const BARE: usize = KINDS.len() + 1;
pub fn mark(kind: usize, place: usize) -> Error {
    match kind {
        RAW => Error::from_raw_os_error(1 + place as i32 % 30),
        BARE => Error::from(ErrorKind::UnexpectedEof),
        _ => Error::new(KINDS[kind], format!("mark {} at {}", kind, place)),
    }
}
pub fn is_mark(e: &Error, kind: usize, place: usize) -> bool {
    match kind {
        RAW => e.raw_os_error() == Some(1 + place as i32 % 30),
        BARE => e.kind() == ErrorKind::UnexpectedEof && e.get_ref().is_none() && e.raw_os_error().is_none(),
        _ => e.kind() == KINDS[kind] && e.get_ref().map(|x| x.to_string()) == Some(format!("mark {} at {}", kind, place)),
    }
}
impl<'a> BitRead for Src<'a> {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        self.accesses += 1;
        if self.failed {
            self.after += 1;
        }
        if let Some((p, k)) = self.fault {
            // (an operation that goes on regardless must come to an end)
            if self.at == p && self.after < 8 {
                self.failed = true;
                return Err(mark(k, p));
            }
        }
        if self.at < self.bits.len() {
            self.at += 1;
            Ok(Some(self.bits[self.at - 1]))
        } else {
            Ok(None)
        }
    }
}
/// A plain list of bits as a sink.
#[derive(Default)]
pub struct Sink {
    pub bits: Vec<bool>,
    pub attempts: usize,
    pub fault: Option<(usize, usize)>,
    pub failed: bool,
    pub after: usize,
}
impl BitWrite for Sink {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        self.attempts += 1;
        if self.failed {
            self.after += 1;
        }
        if let Some((p, k)) = self.fault {
            if self.bits.len() == p && self.after < 8 {
                self.failed = true;
                return Err(mark(k, p));
            }
        }
        self.bits.push(b);
        Ok(())
    }
}
