//! C10: block I/O is byte-exact in either byte order, under every I/O behaviour.
use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian, NetworkEndian};
use mc::bits::*;
use mc::words::*;
use mc::*;
use std::io::{self, BufReader, Cursor, ErrorKind, Read, Write};

/// How the environment answers one call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    /// transfer this many bytes
    Give(usize),
    Interrupt,
    /// Ok(0): end of the source, or a sink that takes nothing
    End,
    /// an error of this kind
    Err(usize),
}
const KINDS: [ErrorKind; 38] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];
/// two more: an error number, and a kind without a message
const RAW: usize = KINDS.len();
const BARE: usize = KINDS.len() + 1;
const NKINDS: usize = KINDS.len() + 2;
fn mark(k: usize) -> io::Error {
    if k == RAW {
        return io::Error::from_raw_os_error(5);
    }
    if k == BARE {
        return io::Error::from(ErrorKind::UnexpectedEof);
    }
    io::Error::new(KINDS[k], format!("mark {}", k))
}

/// A source or sink that asks the explorer at each call.
struct Env<'a> {
    script: &'a mut Script,
    bytes: Vec<u8>,
    /// bytes transferred so far
    at: usize,
    calls: usize,
    ended: Option<A>,
    after_end: bool,
}
/// Choices made so far on this path, and how many alternatives each had.
#[derive(Default)]
struct Script {
    path: Vec<(usize, usize)>,
    next: usize,
    trace: Vec<A>,
    interrupts: usize,
    max_interrupts: usize,
    faults: bool,
}
impl Script {
    fn choose(&mut self, n: usize) -> usize {
        if self.next == self.path.len() {
            self.path.push((0, n));
        }
        let (c, m) = self.path[self.next];
        assert!(m == n, "HARNESS: execution not deterministic: {} alternatives, was {}", n, m);
        self.next += 1;
        c
    }
    fn advance(&mut self) -> bool {
        self.next = 0;
        self.trace.clear();
        self.interrupts = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
    fn answer(&mut self, max: usize) -> A {
        let int = self.interrupts < self.max_interrupts;
        let n = max + int as usize + if self.faults { 1 + NKINDS } else { 0 };
        // simplest first: everything at once
        let mut c = self.choose(n);
        let a = if c < max {
            A::Give(max - c)
        } else {
            c -= max;
            if int && c == 0 {
                self.interrupts += 1;
                A::Interrupt
            } else {
                c -= int as usize;
                if c == 0 {
                    A::End
                } else {
                    A::Err(c - 1)
                }
            }
        };
        self.trace.push(a);
        a
    }
}
impl<'a> Env<'a> {
    fn step(&mut self, room: usize) -> A {
        self.calls += 1;
        assert!(self.calls < 1000, "runaway: 1000 transfers for one block");
        if self.ended.is_some() {
            self.after_end = true;
        }
        if room == 0 {
            return A::Give(0);
        }
        let a = self.script.answer(room);
        if matches!(a, A::End | A::Err(_)) {
            self.ended = Some(a)
        }
        a
    }
}
impl<'a> Read for Env<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.step(buf.len().min(12)) {
            A::Give(k) => {
                for i in 0..k {
                    buf[i] = self.bytes[self.at + i]
                }
                self.at += k;
                Ok(k)
            }
            A::Interrupt => Err(io::Error::new(ErrorKind::Interrupted, "try again")),
            A::End => Ok(0),
            A::Err(k) => Err(mark(k)),
        }
    }
}
impl<'a> Write for Env<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.step(buf.len()) {
            A::Give(k) => {
                self.bytes.extend_from_slice(&buf[..k]);
                self.at += k;
                Ok(k)
            }
            A::Interrupt => Err(io::Error::new(ErrorKind::Interrupted, "try again")),
            A::End => Ok(0),
            A::Err(k) => Err(mark(k)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn bytes_of(x: u64, n: usize, big: bool) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (x >> (8 * i)) as u8).collect();
    if big {
        v.reverse()
    }
    v
}

fn same_error(e: &io::Error, want: Option<usize>, kind: ErrorKind) -> bool {
    match want {
        Some(RAW) => e.raw_os_error() == Some(5),
        Some(BARE) => e.kind() == ErrorKind::UnexpectedEof && e.get_ref().is_none() && e.raw_os_error().is_none(),
        Some(k) => e.kind() == KINDS[k] && e.to_string() == format!("mark {}", k),
        None => e.kind() == kind,
    }
}

/// every way of reading one block
fn read_all_ways<B: Blk, T: ByteOrder>(w: &mut W, x: u64, big: bool, ord: &str, max_interrupts: usize, faults: bool) -> R {
    let n = B::W / 8;
    let mut s = Script { max_interrupts, faults, ..Default::default() };
    let mut bytes = bytes_of(x, n, big);
    bytes.extend((0..40).map(|i| 0xA0 + i as u8));
    loop {
        w.at(|| format!("read_block::<{}, {}> {:?}", B::NAME, ord, s.path));
        w.evals += 1;
        let mut env = Env { script: &mut s, bytes: bytes.clone(), at: 0, calls: 0, ended: None, after_end: false };
        let r = B::read_block::<_, T>(&mut env);
        let (at, ended, after) = (env.at, env.ended, env.after_end);
        w.nontrivial += (s.trace.len() > 1) as u64;
        let what = || format!("{}::read_block::<{}> of {:02x?} when the source answers {:?}", B::NAME, ord, &bytes[..n], s.trace);
        match (r, ended) {
            (Ok(b), None) => {
                chk!(b.u() == x, "read", "{}: got {:#x}, expected {:#x}", what(), b.u(), x);
                chk!(at == n, "read", "{}: consumed {} bytes", what(), at);
                w.outcome("read: block");
            }
            (Ok(b), Some(_)) => return fail("read", format!("{}: got a block {:#x}", what(), b.u())),
            (Err(e), None) => return fail("read", format!("{}: unexpected error {:?}", what(), e)),
            (Err(e), Some(a)) => {
                let k = if let A::Err(k) = a { Some(k) } else { None };
                chk!(same_error(&e, k, ErrorKind::UnexpectedEof), "read", "{}: error {:?} (kind {:?})", what(), e, e.kind());
                chk!(!after || k.is_none(), "read", "{}: source used again after it failed", what());
                w.outcome(if k.is_some() { "read: the error" } else { "read: unexpected end" });
            }
        }
        if evals_sample(w) {
            let t = format!("{}::read_block::<{}>: source answers {:?}", B::NAME, ord, s.trace);
            w.sample(|| t);
        }
        if !s.advance() {
            return Ok(());
        }
    }
}
fn evals_sample(w: &W) -> bool {
    w.evals % 997 == 500
}
/// every way of writing one block
fn write_all_ways<B: Blk, T: ByteOrder>(w: &mut W, x: u64, big: bool, ord: &str, max_interrupts: usize, faults: bool) -> R {
    let n = B::W / 8;
    let mut s = Script { max_interrupts, faults, ..Default::default() };
    let want = bytes_of(x, n, big);
    loop {
        w.at(|| format!("write_block::<{}, {}> {:?}", B::NAME, ord, s.path));
        w.evals += 1;
        let mut env = Env { script: &mut s, bytes: vec![], at: 0, calls: 0, ended: None, after_end: false };
        let r = B::of(x).write_block::<_, T>(&mut env);
        let (out, ended, after) = (std::mem::take(&mut env.bytes), env.ended, env.after_end);
        w.nontrivial += (s.trace.len() > 1) as u64;
        let what = || format!("{}::write_block::<{}> of {:#x} when the sink answers {:?}", B::NAME, ord, x, s.trace);
        match (r, ended) {
            (Ok(()), None) => {
                chk!(out == want, "write", "{}: wrote {:02x?}, expected {:02x?}", what(), out, want);
                w.outcome("write: done");
            }
            (Ok(()), Some(_)) => return fail("write", format!("{}: reported success", what())),
            (Err(e), None) => return fail("write", format!("{}: unexpected error {:?}", what(), e)),
            (Err(e), Some(a)) => {
                let k = if let A::Err(k) = a { Some(k) } else { None };
                chk!(same_error(&e, k, ErrorKind::WriteZero), "write", "{}: error {:?} (kind {:?})", what(), e, e.kind());
                chk!(want.starts_with(&out), "write", "{}: wrote {:02x?} of {:02x?}", what(), out, want);
                chk!(!after || k.is_none(), "write", "{}: sink used again after it failed", what());
                w.outcome(if k.is_some() { "write: the error" } else { "write: sink took nothing" });
            }
        }
        if !s.advance() {
            return Ok(());
        }
    }
}

/// many values through ordinary sources and sinks
fn values<B: Blk, T: ByteOrder>(w: &mut W, xs: &[u64], big: bool, ord: &str) -> R {
    let n = B::W / 8;
    for &x in xs {
        w.at(|| format!("{} {:#x} {}", B::NAME, x, ord));
        w.evals += 1;
        w.nontrivial += (x != 0) as u64;
        let mut out = vec![];
        let r = B::of(x).write_block::<_, T>(&mut out);
        let want = bytes_of(x, n, big);
        chk!(r.is_ok() && out == want, "write", "{}::write_block::<{}> of {:#x}: {:02x?}, expected {:02x?}", B::NAME, ord, x, out, want);
        let mut src = &out[..];
        let b = B::read_block::<_, T>(&mut src);
        chk!(b.as_ref().ok().map(|b| b.u()) == Some(x) && src.is_empty(), "read", "{}::read_block::<{}> of {:02x?}: {:?} leaving {} bytes, expected {:#x}", B::NAME, ord, out, b, src.len(), x);
    }
    Ok(())
}
/// sequences of blocks through standard readers, each cut short at every byte
fn sequences<B: Blk, T: ByteOrder>(w: &mut W, big: bool, ord: &str) -> R {
    let n = B::W / 8;
    let xs: Vec<u64> = (0..6).map(|i| mix(i) & mask(B::W)).collect();
    let all: Vec<u8> = xs.iter().flat_map(|&x| bytes_of(x, n, big)).collect();
    let mut out = Cursor::new(vec![]);
    for &x in &xs {
        chk!(B::of(x).write_block::<_, T>(&mut out).is_ok(), "write", "write to a cursor failed");
    }
    chk!(out.into_inner() == all, "write", "{} {}: sequence of blocks wrote other bytes", B::NAME, ord);
    for cut in 0..=all.len() {
        for kind in 0..5 {
            w.at(|| format!("sequence of {} {} cut at {} reader {}", B::NAME, ord, cut, kind));
            w.evals += 1;
            w.nontrivial += 1;
            let data = all[..cut].to_vec();
            let mut r: Box<dyn Read> = match kind {
                0 => Box::new(Cursor::new(data)),
                1 => Box::new(BufReader::with_capacity(3, Cursor::new(data))),
                2 => Box::new(Cursor::new(data[..cut / 2].to_vec()).chain(Cursor::new(data[cut / 2..].to_vec()))),
                3 => Box::new(Cursor::new(all.clone()).take(cut as u64)),
                _ => Box::new(io::empty().chain(Cursor::new(data))),
            };
            for (i, &x) in xs.iter().enumerate() {
                let got = B::read_block::<_, T>(&mut r);
                if (i + 1) * n <= cut {
                    chk!(got.as_ref().ok().map(|b| b.u()) == Some(x), "read", "{} {}: block {} of a source of {} bytes: {:?}, expected {:#x}", B::NAME, ord, i, cut, got, x);
                } else {
                    chk!(matches!(&got, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "read", "{} {}: block {} of a source of {} bytes: {:?}, expected an unexpected-end error", B::NAME, ord, i, cut, got);
                    break;
                }
            }
        }
        // a sink with room for only so many bytes
        let mut buf = vec![0u8; cut];
        {
            let mut sink = &mut buf[..];
            for (i, &x) in xs.iter().enumerate() {
                let r = B::of(x).write_block::<_, T>(&mut sink);
                if (i + 1) * n <= cut {
                    chk!(r.is_ok(), "write", "{} {}: block {} into a sink of {} bytes: {:?}", B::NAME, ord, i, cut, r);
                } else {
                    chk!(matches!(&r, Err(e) if e.kind() == ErrorKind::WriteZero), "write", "{} {}: block {} into a sink of {} bytes: {:?}, expected write-zero", B::NAME, ord, i, cut, r);
                    break;
                }
            }
        }
        chk!(buf == all[..cut], "write", "{} {}: a sink of {} bytes got {:02x?}", B::NAME, ord, cut, buf);
    }
    Ok(())
}

fn order<B: Blk, T: ByteOrder + 'static>(m: &mut Main, big: bool, ord: &'static str) {
    let th = m.thorough;
    m.job(format!("transfers {} {}", B::NAME, ord), move |w| {
        let xs = [0x0123_4567_89ab_cdefu64, 0xfedc_ba98_7654_3210, 0x8000_0000_0000_0001, mix(1)];
        for (i, &x) in xs.iter().enumerate() {
            let x = x & mask(B::W);
            // all fragmentations with up to two interruptions; faults at the end of each, with up to one
            read_all_ways::<B, T>(w, x, big, ord, if th { 3 } else { 2 }, false)?;
            write_all_ways::<B, T>(w, x, big, ord, if th { 3 } else { 2 }, false)?;
            if i < 2 || th {
                read_all_ways::<B, T>(w, x, big, ord, 1 + th as usize, true)?;
                write_all_ways::<B, T>(w, x, big, ord, 1 + th as usize, true)?;
            }
        }
        sequences::<B, T>(w, big, ord)
    });
    for part in 0..8 {
        m.job(format!("values {} {} {}", B::NAME, ord, part), move |w| {
            let xs: Vec<u64> = family(B::W, if th { 200_000 } else { 20_000 }).into_iter().skip(part).step_by(8).collect();
            values::<B, T>(w, &xs, big, ord)
        });
    }
}
fn jobs<B: Blk>(m: &mut Main) {
    order::<B, LittleEndian>(m, false, "LittleEndian");
    order::<B, BigEndian>(m, true, "BigEndian");
    order::<B, NetworkEndian>(m, true, "NetworkEndian");
    order::<B, NativeEndian>(m, cfg!(target_endian = "big"), "NativeEndian");
}

fn main() {
    let mut m = Main::new("C10");
    m.rule("case = one complete execution of read_block/write_block under one sequence of environment answers (bytes taken per call, interruption, end, error of 40 kinds), explored depth-first to the end; non-trivial = more than one environment answer, or a non-zero value");
    m.bound(format!("every fragmentation of every block with up to {} interruptions anywhere; every fragmentation with up to {} interruption(s) ended by end-of-source/full-sink or one of 40 error kinds (every stable kind, an error number, a bare kind) at every point", m.pick(2, 3), m.pick(1, 2)));
    m.bound("every u8 and u16 value, word families of the wider types, in 4 byte orders; sequences of 6 blocks cut at every byte through 5 standard readers and a bounded slice sink");
    jobs::<u8>(&mut m);
    jobs::<u16>(&mut m);
    jobs::<u32>(&mut m);
    jobs::<u64>(&mut m);
    jobs::<usize>(&mut m);
    m.run()
}
