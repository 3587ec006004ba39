//! C05: reserved capacity is available, exact reservations are idempotent, impossible sizes are refused.
use mc::bits::*;
use mc::*;
use std::process::{Command, Stdio};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Push,
    PushBlock,
    Pop,
    Reserve(u64),
    ReserveExact(u64),
    BlockReserve(usize),
    BlockReserveExact(usize),
    Truncate(u64),
    BlockTruncate(usize),
    Resize(u64),
    BlockResize(usize),
    Set(u64),
    Clear,
    Shrink,
    CloneIt,
}
use self::Op::*;

#[derive(Clone, Debug, PartialEq)]
enum Mk {
    New,
    Cap(u64),
    BlockCap(usize),
    Fill(u64),
    BlockFill(usize),
}

/// What the explorer needs of either kind of vector. Element width 1 for bit vectors.
trait Vector: Sized + Clone {
    fn make(k: usize, m: &Mk) -> Self;
    fn len(&self) -> u64;
    fn blocks(&self) -> usize;
    fn cap(&self) -> u64;
    fn block_cap(&self) -> usize;
    fn elem(&self, i: u64) -> u64;
    fn act(&mut self, op: &Op, v: u64);
    const INT: bool;
}

impl<B: Blk> Vector for BitVector<B> {
    const INT: bool = false;
    fn make(_: usize, m: &Mk) -> Self {
        match *m {
            Mk::New => BitVector::new(),
            Mk::Cap(n) => BitVector::with_capacity(n),
            Mk::BlockCap(n) => BitVector::block_with_capacity(n),
            Mk::Fill(n) => BitVector::with_fill(n, true),
            Mk::BlockFill(n) => BitVector::block_with_fill(n, B::of(!0)),
        }
    }
    fn len(&self) -> u64 {
        self.bit_len()
    }
    fn blocks(&self) -> usize {
        self.block_len()
    }
    fn cap(&self) -> u64 {
        self.capacity()
    }
    fn block_cap(&self) -> usize {
        self.block_capacity()
    }
    fn elem(&self, i: u64) -> u64 {
        self.get_bit(i) as u64
    }
    fn act(&mut self, op: &Op, v: u64) {
        match *op {
            Push => self.push_bit(v & 1 == 1),
            PushBlock => self.push_block(B::of(v)),
            Pop => {
                self.pop_bit();
            }
            Reserve(n) => self.reserve(n),
            ReserveExact(n) => self.reserve_exact(n),
            BlockReserve(n) => self.block_reserve(n),
            BlockReserveExact(n) => self.block_reserve_exact(n),
            Truncate(n) => self.truncate(n),
            BlockTruncate(n) => self.block_truncate(n),
            Resize(n) => self.resize(n, v & 1 == 1),
            BlockResize(n) => self.block_resize(n, B::of(v)),
            Set(i) => self.set_bit(i, v & 1 == 1),
            Clear => self.clear(),
            Shrink => self.shrink_to_fit(),
            CloneIt => *self = self.clone(),
        }
    }
}

impl<B: Blk> Vector for IntVector<B> {
    const INT: bool = true;
    fn make(k: usize, m: &Mk) -> Self {
        match *m {
            Mk::New => IntVector::new(k),
            Mk::Cap(n) => IntVector::with_capacity(k, n),
            Mk::BlockCap(n) => IntVector::block_with_capacity(k, n),
            Mk::Fill(n) => IntVector::with_fill(k, n, B::of(mask(k))),
            Mk::BlockFill(n) => IntVector::block_with_fill(k, n, B::of(!0)),
        }
    }
    fn len(&self) -> u64 {
        IntVec::len(self)
    }
    fn blocks(&self) -> usize {
        self.block_len()
    }
    fn cap(&self) -> u64 {
        self.capacity()
    }
    fn block_cap(&self) -> usize {
        self.block_capacity()
    }
    fn elem(&self, i: u64) -> u64 {
        self.get(i).u()
    }
    fn act(&mut self, op: &Op, v: u64) {
        let k = self.element_bits();
        let e = B::of(v & mask(k));
        match *op {
            Push => self.push(e),
            PushBlock => {
                panic!("HARNESS: no block push")
            }
            Pop => {
                self.pop();
            }
            Reserve(n) => self.reserve(n),
            ReserveExact(n) => self.reserve_exact(n),
            BlockReserve(n) => self.block_reserve(n),
            BlockReserveExact(n) => self.block_reserve_exact(n),
            Truncate(n) => self.truncate(n),
            BlockTruncate(n) => self.block_truncate(n),
            Resize(n) => self.resize(n, e),
            BlockResize(n) => self.block_resize(n, B::of(v)),
            Set(i) => self.set(i, e),
            Clear => self.clear(),
            Shrink => self.shrink_to_fit(),
            CloneIt => *self = self.clone(),
        }
    }
}

/// A vector with its history; cloning replays the history, so the capacity is the one really reached.
struct CapSys<V> {
    k: usize,
    w: usize,
    max: u64,
    max_blocks: usize,
    mk: Mk,
    hist: Vec<Op>,
    v: V,
}

impl<V: Vector> CapSys<V> {
    fn new(k: usize, w: usize, max: u64, max_blocks: usize, mk: Mk) -> Self {
        CapSys { k, w, max, max_blocks, v: V::make(k, &mk), mk, hist: vec![] }
    }
    fn value(i: u64) -> u64 {
        mix(i)
    }
}

impl<V: Vector> Clone for CapSys<V> {
    fn clone(&self) -> Self {
        let mut v = V::make(self.k, &self.mk);
        for o in &self.hist {
            v.act(o, Self::value(v.len()));
        }
        CapSys { k: self.k, w: self.w, max: self.max, max_blocks: self.max_blocks, mk: self.mk.clone(), hist: self.hist.clone(), v }
    }
}

impl<V: Vector> Sys for CapSys<V> {
    type Op = Op;
    fn key(&self) -> Vec<u8> {
        // contents do not influence capacity; the length, the block count and the capacity do
        format!("{},{},{},{}", self.v.len(), self.v.blocks(), self.v.block_cap(), self.v.cap()).into_bytes()
    }
    fn ops(&self) -> Vec<Op> {
        let (w, k, n) = (self.w as u64, self.k as u64, self.v.len());
        let mut o = vec![Push, Clear, Shrink, CloneIt];
        if !V::INT {
            o.push(PushBlock)
        }
        if n > 0 {
            o.extend([Pop, Truncate(0), Truncate(n / 2), Truncate(n - 1), Set(n - 1)]);
        }
        let per = (w / k).max(1);
        let room = self.v.cap() - n;
        let mut rs = vec![0, 1, per - 1, per, per + 1, 2 * per + 1, 4 * per, room.saturating_sub(1), room, room + 1, room + per + 1];
        rs.sort();
        rs.dedup();
        for r in rs {
            o.push(Reserve(r));
            o.push(ReserveExact(r));
        }
        let broom = self.v.block_cap() - self.v.blocks();
        let mut bs = vec![0, 1, 2, 5, broom, broom + 1];
        bs.sort();
        bs.dedup();
        for r in bs {
            o.push(BlockReserve(r));
            o.push(BlockReserveExact(r));
        }
        for b in [0, 1, 2] {
            o.push(BlockTruncate(b));
            o.push(BlockResize(b));
        }
        o.extend([Resize(0), Resize(n + 1), Resize(n + per), Resize(per), Resize(2 * per + 1)]);
        o
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        let v = &mut self.v;
        let (len, blocks, cap, bcap) = (v.len(), v.blocks(), v.cap(), v.block_cap());
        let before: Vec<u64> = (0..len).map(|i| v.elem(i)).collect();
        let label = format!("{:?}", op);
        let calls = alloc_calls();
        let done = guard_msg(|| v.act(op, Self::value(len)));
        let calls = alloc_calls() - calls;
        if let Err(p) = done {
            return Err(format!("{}: unexpected panic: {}", label, p));
        }
        let now = format!(
            "before: length {}, {} blocks, capacity {} ({} blocks); after: length {}, {} blocks, capacity {} ({} blocks), {} allocations",
            len,
            blocks,
            cap,
            bcap,
            v.len(),
            v.blocks(),
            v.cap(),
            v.block_cap(),
            calls
        );
        let kept = match *op {
            Reserve(_) | ReserveExact(_) | BlockReserve(_) | BlockReserveExact(_) | Shrink | CloneIt => true,
            _ => false,
        };
        if kept {
            same!("contents", (0..v.len()).map(|i| v.elem(i)).collect::<Vec<_>>(), before);
            same!("block count", v.blocks(), blocks);
        }
        let quiet = |why: &str, v: &V| -> Result<(), String> {
            if calls != 0 || v.block_cap() != bcap || v.cap() != cap {
                return Err(format!("{}: {}", why, now));
            }
            Ok(())
        };
        match *op {
            Push if len < cap => quiet("a push within the reported capacity reallocated", v)?,
            PushBlock if blocks < bcap => quiet("a block push within the reported capacity reallocated", v)?,
            Resize(n) if n <= cap => quiet("a resize within the reported capacity reallocated", v)?,
            BlockResize(n) if n <= bcap => quiet("a block resize within the reported capacity reallocated", v)?,
            Pop | Truncate(_) | BlockTruncate(_) | Set(_) => {
                if calls != 0 {
                    return Err(format!("{:?} allocated: {}", op, now));
                }
            }
            Reserve(n) | ReserveExact(n) => {
                if v.cap() < len + n {
                    return Err(format!("{:?} did not provide the room: {}", op, now));
                }
                if *op == ReserveExact(n) && cap >= len + n {
                    quiet("an exact reservation that was already satisfied did something", v)?;
                }
            }
            BlockReserve(n) | BlockReserveExact(n) => {
                if v.block_cap() < blocks + n {
                    return Err(format!("{:?} did not provide the room: {}", op, now));
                }
                if *op == BlockReserveExact(n) && bcap >= blocks + n {
                    quiet("an exact reservation that was already satisfied did something", v)?;
                }
            }
            Clear => {
                same!("length after clear", v.len(), 0);
                quiet("clear did not keep the capacity", v)?
            }
            Shrink => same!("capacity in blocks after shrinking", v.block_cap(), v.blocks()),
            _ => {}
        }
        self.hist.push(op.clone());
        Ok(())
    }
    fn agree(&self) -> Result<(), String> {
        let v = &self.v;
        if v.cap() < v.len() || v.block_cap() < v.blocks() {
            return Err(format!("capacity {} below length {}", v.cap(), v.len()));
        }
        same!("capacity", v.cap(), v.block_cap() as u64 * self.w as u64 / self.k as u64);
        Ok(())
    }
    fn observe(&self) -> Result<(), String> {
        // fill it up: nothing may be allocated until the capacity is used up, and everything must be kept
        let mut t = self.clone();
        let (n, cap, bcap) = (t.v.len(), t.v.cap(), t.v.block_cap());
        if self.hist.is_empty() {
            match self.mk {
                Mk::Cap(c) if cap < c || n != 0 => return Err(format!("{:?}: capacity {} length {}", self.mk, cap, n)),
                Mk::BlockCap(c) if bcap < c || n != 0 => return Err(format!("{:?}: capacity {} length {}", self.mk, cap, n)),
                Mk::New if n != 0 => return Err(format!("new: length {}", n)),
                _ => {}
            }
        }
        let old: Vec<u64> = (0..n).map(|i| t.v.elem(i)).collect();
        let calls = alloc_calls();
        for i in n..cap {
            t.v.act(&Push, Self::value(i));
        }
        if alloc_calls() != calls || t.v.cap() != cap {
            return Err(format!("pushing from length {} up to the capacity {} reallocated", n, cap));
        }
        same!("length", t.v.len(), cap);
        for i in 0..cap {
            let want = if i < n { old[i as usize] } else { Self::value(i) & mask(self.k) };
            same!(format!("element {} after filling up", i), t.v.elem(i), want);
        }
        Ok(())
    }
    fn in_bound(&self) -> bool {
        self.v.len() <= self.max && self.v.block_cap() <= self.max_blocks
    }
    fn show(&self) -> String {
        format!("{:?}", self.mk)
    }
}

fn explore<V: Vector + 'static>(m: &mut Main, name: String, k: usize, w: usize, blocks: usize) {
    let thorough = m.thorough;
    m.job(name.clone(), move |wk| {
        let max = (w * blocks / k) as u64 + 1;
        let per = (w / k).max(1) as u64;
        let mut inits = vec![CapSys::<V>::new(k, w, max, 12, Mk::New)];
        for n in [0, 1, per - 1, per, per + 1, 2 * per, 3 * per + 1] {
            inits.push(CapSys::new(k, w, max, 12, Mk::Cap(n)));
            inits.push(CapSys::new(k, w, max, 12, Mk::Fill(n)));
        }
        for n in [0, 1, 2, 5] {
            inits.push(CapSys::new(k, w, max, 12, Mk::BlockCap(n)));
            inits.push(CapSys::new(k, w, max, 12, Mk::BlockFill(n)));
        }
        let full = bfs(wk, &name, inits, if thorough { 2000 } else { 400 })?;
        wk.outcome(if full { "bound exhausted" } else { "depth bound reached" });
        Ok(())
    });
}

// ---------------------------------------------------------------- impossible sizes

/// All sizes that no memory can hold: at least 2^50 bits.
fn sizes(k: u64, w: u64) -> Vec<u64> {
    let mut v: Vec<u128> = vec![];
    for e in 50..64u32 {
        v.extend([1u128 << e, (1u128 << e) + 1, (1u128 << e) + w as u128 - 1]);
    }
    for e in 51..=64u32 {
        v.extend([(1u128 << e) - 1, (1u128 << e) - w as u128]);
    }
    for j in (0..=w as u128 + 2).chain([2 * w as u128, 1000]) {
        v.push(u64::MAX as u128 - j);
    }
    // sizes whose number of bits wraps to something small
    for mul in 1..=k.min(3) as u128 {
        let q = (1u128 << 64) * mul / k as u128;
        for d in 0..3u128 {
            v.extend([q + d, q - d, q + w as u128 + d]);
        }
    }
    let mut v: Vec<u64> = v
        .into_iter()
        .filter(|&n| n <= u64::MAX as u128 && n * k as u128 >= 1 << 50)
        .map(|n| n as u64)
        .collect();
    v.sort();
    v.dedup();
    v
}

fn block_sizes(w: u64) -> Vec<u64> {
    let mut v = vec![];
    for e in 44..64u32 {
        v.extend([1u64 << e, (1u64 << e) + 1, (1u64 << e) - 1]);
    }
    v.extend((0..4).map(|j| u64::MAX - j));
    v.extend([u64::MAX / w, u64::MAX / w + 1, u64::MAX / (w / 8), (u64::MAX / (w / 8)).wrapping_add(1), 1 << 61, (1 << 61) + 1, 1 << 60, 1 << 63]);
    v.retain(|&n| n as u128 * w as u128 >= 1 << 50);
    v.sort();
    v.dedup();
    v
}

const WHAT: [&str; 10] = [
    "with_capacity",
    "with_fill",
    "resize",
    "reserve",
    "reserve_exact",
    "block_with_capacity",
    "block_with_fill",
    "block_resize",
    "block_reserve",
    "block_reserve_exact",
];

/// In a forked process: performs one operation; returning at all is the violation.
fn probe_one<V: Vector>(k: usize, what: &str, n: u64, start: u64) {
    let mut v: V = match what {
        "with_capacity" => V::make(k, &Mk::Cap(n)),
        "with_fill" => V::make(k, &Mk::Fill(n)),
        "block_with_capacity" => V::make(k, &Mk::BlockCap(n as usize)),
        "block_with_fill" => V::make(k, &Mk::BlockFill(n as usize)),
        _ => {
            let mut v = V::make(k, &Mk::New);
            for i in 0..start {
                v.act(&Push, mix(i));
            }
            v
        }
    };
    let op = match what {
        "resize" => Some(Resize(n)),
        "reserve" => Some(Reserve(n)),
        "reserve_exact" => Some(ReserveExact(n)),
        "block_resize" => Some(BlockResize(n as usize)),
        "block_reserve" => Some(BlockReserve(n as usize)),
        "block_reserve_exact" => Some(BlockReserveExact(n as usize)),
        _ => None,
    };
    if let Some(o) = op {
        v.act(&o, if start % 2 == 1 { !0 } else { 0 });
    }
    println!("RETURNED length {} capacity {} ({} blocks)", v.len(), v.cap(), v.block_cap());
}

fn probe_list<V: Vector>(k: usize, w: u64, what: &str) {
    let ns = if what.starts_with("block") { block_sizes(w) } else { sizes(k as u64, w) };
    let starts: Vec<u64> = match what {
        "reserve" | "reserve_exact" | "resize" | "block_resize" | "block_reserve" | "block_reserve_exact" => {
            vec![0, (2 * w / k as u64 + 3) | 1]
        }
        _ => vec![0],
    };
    let (mut p, mut r) = (0, 0);
    for &n in &ns {
        for &start in &starts {
            match forked(|| probe_one::<V>(k, what, n, start)) {
                Ended::Panicked => p += 1,
                Ended::Refused => r += 1,
                Ended::Returned => {
                    println!("BAD {}({}) with {} elements present was not refused", what, n, start);
                    return;
                }
                Ended::Other(s) => {
                    println!("BAD {}({}) with {} elements present: neither refused nor returned: wait status {}", what, n, start, s);
                    return;
                }
            }
        }
    }
    println!("DONE {} {}", p, r);
}

fn child(args: &[String]) -> ! {
    // args: type block k what
    std::panic::set_hook(Box::new(|_| {}));
    let k: usize = args[2].parse().unwrap();
    let what = &args[3][..];
    let int = args[0] == "int";
    macro_rules! go {
        ($b:ty) => {
            if int {
                probe_list::<IntVector<$b>>(k, <$b as Blk>::W as u64, what)
            } else {
                probe_list::<BitVector<$b>>(k, <$b as Blk>::W as u64, what)
            }
        };
    }
    match &args[1][..] {
        "u8" => go!(u8),
        "u16" => go!(u16),
        "u32" => go!(u32),
        "u64" => go!(u64),
        _ => go!(usize),
    };
    std::process::exit(0)
}

fn probes<B: Blk>(m: &mut Main, int: bool, k: usize) {
    let ty = if int { "int" } else { "bit" };
    for what in WHAT.iter() {
        let what = *what;
        m.job(format!("impossible {} {}<{}> k={}", what, ty, B::NAME, k), move |wk| {
            let exe = std::env::current_exe().unwrap();
            let mut ch = Command::new(&exe)
                .arg("--probe")
                .args([ty, B::NAME, &k.to_string(), what])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("HARNESS: cannot start probe");
            while ch.try_wait().expect("HARNESS: wait").is_none() {
                std::thread::sleep(std::time::Duration::from_millis(1));
                wk.tick(); // every probe is limited to 20 s by its own alarm
            }
            let out = ch.wait_with_output().expect("HARNESS: output");
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            if text.contains("BAD ") {
                return fail(
                    &format!("impossible:{}", what),
                    format!("{}vector<{}> element width {}: {}", ty, B::NAME, k, text.trim().replace('\n', " / ")),
                );
            }
            let n: Vec<u64> = match text.trim().strip_prefix("DONE ") {
                Some(t) => t.split(' ').map(|x| x.parse().unwrap()).collect(),
                None => panic!("HARNESS: probe said {:?} {:?}", text, out.status),
            };
            wk.evals += n[0] + n[1];
            wk.transitions += n[0] + n[1];
            for (i, o) in ["size refused by panic", "size refused by the allocator"].iter().enumerate() {
                *wk.outcomes.entry(o.to_string()).or_insert(0) += n[i];
            }
            Ok(())
        });
    }
}

/// Sizes beyond 2^32 bits that do fit: granted in full (the memory is never touched).
fn large<B: Blk, V: Vector>(m: &mut Main, name: String, k: usize) {
    m.job(name.clone(), move |wk| {
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = loop {
            if let Ok(g) = ONE.try_lock() {
                break g;
            }
            wk.tick();
            std::thread::sleep(std::time::Duration::from_millis(1));
        };
        let w = B::W as u64;
        for bits in [(1u64 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) + 9, (1 << 35) + 77] {
            let n = bits / k as u64 + 1;
            let blocks = (bits / w + 1) as usize;
            for (label, made) in [
                ("with_capacity", Mk::Cap(n)),
                ("reserve", Mk::New),
                ("reserve_exact", Mk::New),
                ("reserve with contents", Mk::New),
                ("block_with_capacity", Mk::BlockCap(blocks)),
                ("block_reserve", Mk::New),
                ("block_reserve_exact", Mk::New),
            ] {
                wk.tick();
                wk.state();
                wk.step();
                let mut v = ok!(V::make(k, &made), "large", "{} {} {}", name, label, n);
                let mut have = 0;
                if label == "reserve with contents" {
                    for i in 0..5 {
                        v.act(&Push, i);
                    }
                    have = 5;
                }
                let op = match label {
                    "reserve" | "reserve with contents" => Some(Reserve(n)),
                    "reserve_exact" => Some(ReserveExact(n)),
                    "block_reserve" => Some(BlockReserve(blocks)),
                    "block_reserve_exact" => Some(BlockReserveExact(blocks)),
                    _ => None,
                };
                if let Some(o) = op {
                    ok!(v.act(&o, 0), "large", "{} {} {}", name, label, n);
                }
                chk!(v.len() == have, "large", "{} {}({}): length {}", name, label, n, v.len());
                if label.starts_with("block") {
                    chk!(v.block_cap() >= blocks, "large", "{} {}({}): block capacity {}", name, label, blocks, v.block_cap());
                    chk!(v.cap() as u128 >= blocks as u128 * w as u128 / k as u128, "large", "{} {}({}): capacity {}", name, label, blocks, v.cap());
                } else {
                    chk!(v.cap() >= n + have, "large", "{} {}({}): capacity {}", name, label, n, v.cap());
                }
                let calls = alloc_calls();
                for i in 0..3 * w {
                    v.act(&Push, i);
                }
                chk!(alloc_calls() == calls, "large", "{} {}({}): pushing reallocated", name, label, n);
                v.act(&Clear, 0);
                chk!(v.block_cap() as u128 * w as u128 >= bits as u128, "large", "{} {}({}): clear dropped the capacity", name, label, n);
                v.act(&Shrink, 0);
                chk!(v.block_cap() == 0, "large", "{} {}({}): shrinking left {} blocks", name, label, n, v.block_cap());
            }
        }
        Ok(())
    });
}

/// Every request size over a dense range and around every power of two, from several lengths.
fn medium<B: Blk, V: Vector>(m: &mut Main, name: String, k: usize) {
    let (dense, top) = (m.pick(1100u64, 4000), m.pick(20u32, 26));
    m.job(name.clone(), move |wk| {
        let w = B::W as u64;
        let per = w / k as u64;
        let mut ns: Vec<u64> = (0..dense).collect();
        for e in 8..top {
            for x in [1u64 << e, 3 << e] {
                ns.extend([x - 1, x, x + 1, x - per, x + per]);
            }
        }
        ns.sort();
        ns.dedup();
        for start in [0, 1, per + 3, 33 * per + 1, 130 * per, 1030 * per + 1] {
            let base = V::make(k, &Mk::Fill(start));
            for &n in &ns {
                wk.tick();
                for op in [Reserve(n), ReserveExact(n), BlockReserve(n as usize), BlockReserveExact(n as usize), Push, PushBlock] {
                    if matches!(op, BlockReserve(b) | BlockReserveExact(b) if b > 5000) {
                        continue;
                    }
                    // Push, PushBlock stand for construction with a capacity
                    let mut v = match op {
                        Push if start == 0 => V::make(k, &Mk::Cap(n)),
                        PushBlock if start == 0 && n <= 5000 => V::make(k, &Mk::BlockCap(n as usize)),
                        Push | PushBlock => continue,
                        _ => base.clone(),
                    };
                    wk.step();
                    let what = || format!("{}: {} elements, {:?} {}", name, start, op, n);
                    let blocks = v.blocks();
                    match op {
                        Push | PushBlock => (),
                        _ => ok!(v.act(&op, 0), "medium", "{}", what()),
                    }
                    chk!(v.len() == start && v.blocks() == blocks, "medium", "{}: length {}", what(), v.len());
                    match op {
                        Reserve(_) | ReserveExact(_) | Push => chk!(v.cap() >= start + n, "medium", "{}: capacity {}", what(), v.cap()),
                        _ => chk!(v.block_cap() as u64 >= blocks as u64 + n, "medium", "{}: capacity {} blocks", what(), v.block_cap()),
                    }
                    chk!(v.cap() == (v.block_cap() as u128 * w as u128 / k as u128) as u64, "medium", "{}: capacity {} with {} blocks", what(), v.cap(), v.block_cap());
                    let (cap, bcap) = (v.cap(), v.block_cap());
                    let calls = alloc_calls();
                    if matches!(op, ReserveExact(_) | BlockReserveExact(_)) {
                        ok!(v.act(&op, 0), "medium", "{} again", what());
                        chk!(alloc_calls() == calls && v.cap() == cap && v.block_cap() == bcap, "medium", "{}: repeated, it did something", what());
                    }
                    for i in start..cap.min(start + 40) {
                        v.act(&Push, i);
                    }
                    if v.len() < cap {
                        v.act(&Resize(cap - 1), 1);
                    }
                    if v.len() < cap {
                        v.act(&Push, 1);
                    }
                    chk!(alloc_calls() == calls && v.len() == cap && v.cap() == cap && v.block_cap() == bcap, "medium", "{}: filling up to the capacity {} reallocated (length {}, capacity {})", what(), cap, v.len(), v.cap());
                    for i in (0..start.min(3)).chain(start.saturating_sub(3)..start) {
                        chk!(v.elem(i) == mask(k), "medium", "{}: element {} changed", what(), i);
                    }
                    v.act(&Truncate(cap / 2), 0);
                    chk!(v.cap() == cap && alloc_calls() == calls, "medium", "{}: truncating changed the capacity to {}", what(), v.cap());
                    v.act(&Clear, 0);
                    chk!(v.cap() == cap && v.block_cap() == bcap && v.len() == 0 && alloc_calls() == calls, "medium", "{}: clear changed the capacity to {}", what(), v.cap());
                }
            }
            wk.state();
        }
        Ok(())
    });
}

/// Every number of blocks to start from, with and without room to spare, and small requests.
fn starts<B: Blk, V: Vector>(m: &mut Main, name: String, k: usize) {
    let top = m.pick(600u64, 5000);
    m.job(name.clone(), move |wk| {
        let w = B::W as u64;
        let per = w / k as u64;
        for b in 0..top {
            let full = b * w / k as u64;
            for start in [full.saturating_sub(1), full, full + 1] {
                let exact = V::make(k, &Mk::Fill(start));
                let mut roomy = exact.clone();
                roomy.act(&BlockReserveExact(2), 0);
                wk.state();
                wk.tick();
                for base in [&exact, &roomy] {
                    for n in [1, per, per + 1, 3 * per + 1] {
                        for op in [Reserve(n), ReserveExact(n), BlockReserveExact(n as usize), BlockReserve(n as usize)] {
                            // a clone may have less room; make it afresh
                            let mut v = V::make(k, &Mk::Fill(start));
                            if base.block_cap() != v.block_cap() {
                                v.act(&BlockReserveExact(2), 0);
                            }
                            let blocks = v.blocks();
                            wk.step();
                            let what = || format!("{}: {} elements, room for {} blocks, {:?}", name, start, base.block_cap(), op);
                            ok!(v.act(&op, 0), "starts", "{}", what());
                            match op {
                                Reserve(_) | ReserveExact(_) => chk!(v.cap() >= start + n, "starts", "{}: capacity {}", what(), v.cap()),
                                _ => chk!(v.block_cap() as u64 >= blocks as u64 + n, "starts", "{}: capacity {} blocks", what(), v.block_cap()),
                            }
                            let calls = alloc_calls();
                            if matches!(op, Reserve(_) | ReserveExact(_)) && n < 3 {
                                for _ in 0..n {
                                    v.act(&Push, 1);
                                }
                            } else if matches!(op, Reserve(_) | ReserveExact(_)) {
                                v.act(&Resize(start + n), 1);
                            }
                            chk!(alloc_calls() == calls && v.blocks() >= blocks, "starts", "{}: filling it up reallocated", what());
                            let n = v.len();
                            chk!(n == start || v.elem(n - 1) != 0 && (start == 0 || v.elem(start - 1) == mask(k)), "starts", "{}: contents", what());
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

/// Shrinking drops every spare block, whatever there is of it.
fn shrinks<B: Blk, V: Vector>(m: &mut Main, name: String, k: usize) {
    let (dense, top) = (m.pick(1100u64, 2500), m.pick(16u32, 20));
    m.job(name.clone(), move |wk| {
        let w = B::W as u64;
        let mut ns: Vec<u64> = (0..dense).collect();
        for e in 8..top {
            ns.extend([(1u64 << e) - 1, 1 << e, (1 << e) + 1, 3 << e]);
        }
        ns.sort();
        ns.dedup();
        for &blocks in &ns {
            wk.tick();
            wk.state();
            // as many elements as fit, and one that reaches into a further block
            for len in [blocks * w / k as u64, blocks * w / k as u64 + 1] {
                let base = V::make(k, &Mk::Fill(len));
                let mut spares: Vec<u64> = vec![1, 2, 3, 5, 8, 15, 16, 17, 31, 64, 100, 257];
                spares.extend([2, 4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 256].iter().map(|d| blocks / d));
                spares.extend([blocks, 3 * blocks]);
                spares.sort();
                spares.dedup();
                if blocks > 2000 {
                    spares.retain(|x| *x == 1 || *x == 16 || x % 4 == 0);
                }
                for &spare in &spares {
                    wk.step();
                    let mut v = base.clone();
                    let what = || format!("{}: {} elements with room for {} more blocks", name, len, spare);
                    ok!(v.act(&BlockReserveExact(spare as usize), 0), "shrink", "{}", what());
                    chk!(v.block_cap() as u64 >= v.blocks() as u64 + spare, "shrink", "{}: capacity {} blocks", what(), v.block_cap());
                    ok!(v.act(&Shrink, 0), "shrink", "{}", what());
                    chk!(v.block_cap() == v.blocks() && v.len() == len, "shrink", "{}: {} blocks of capacity for {} after shrinking", what(), v.block_cap(), v.blocks());
                    for i in (0..len.min(3)).chain(len.saturating_sub(3)..len) {
                        chk!(v.elem(i) == mask(k), "shrink", "{}: element {} changed", what(), i);
                    }
                    // contents given up, room given back
                    if blocks <= 40 || spare % 16 == 1 {
                        ok!(v.act(&Truncate(len / 2 + spare.min(len / 3)), 0), "shrink", "{}", what());
                        ok!(v.act(&Shrink, 0), "shrink", "{}", what());
                        chk!(v.block_cap() == v.blocks(), "shrink", "{}: {} blocks of capacity for {} after truncating and shrinking", what(), v.block_cap(), v.blocks());
                    }
                }
            }
        }
        Ok(())
    });
}

fn all<B: Blk>(m: &mut Main, blocks: usize, ks: &[usize], pks: &[usize]) {
    explore::<BitVector<B>>(m, format!("bitvec {}", B::NAME), 1, B::W, blocks);
    for &k in ks {
        explore::<IntVector<B>>(m, format!("intvec {} k={}", B::NAME, k), k, B::W, blocks);
    }
    probes::<B>(m, false, 1);
    for &k in pks {
        probes::<B>(m, true, k);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| &s[..]) == Some("--probe") {
        child(&args[2..]);
    }
    let mut m = Main::new("C05");
    m.rule("state = (length, blocks, capacity) reached by a replayed history of constructions, reservations, pushes, resizes, truncations, clears, shrinks; transition = one operation, with the allocator's call counter as oracle; impossible sizes: one forked process per operation and size");
    let t = m.thorough;
    let x = m.pick(0, 3);
    let upto = |n: usize| -> Vec<usize> { (1..=n).collect() };
    all::<u8>(&mut m, 6 + x, &upto(8), &[1, 3, 7, 8]);
    all::<u16>(&mut m, 4 + x, &upto(16), &[5, 16]);
    all::<u32>(&mut m, 3 + x, &if t { upto(32) } else { vec![1, 5, 11, 16, 31, 32] }, &[7, 32]);
    all::<u64>(&mut m, 3 + x, &if t { upto(64) } else { vec![1, 3, 7, 31, 32, 33, 63, 64] }, &[1, 3, 33, 63, 64]);
    all::<usize>(&mut m, 3, &[1, 7, 64], &[5, 64]);
    large::<u8, BitVector<u8>>(&mut m, "large bitvec u8".into(), 1);
    large::<u32, BitVector<u32>>(&mut m, "large bitvec u32".into(), 1);
    large::<u64, BitVector<u64>>(&mut m, "large bitvec u64".into(), 1);
    large::<u8, IntVector<u8>>(&mut m, "large intvec u8 k=3".into(), 3);
    large::<u64, IntVector<u64>>(&mut m, "large intvec u64 k=33".into(), 33);
    medium::<u8, BitVector<u8>>(&mut m, "medium bitvec u8".into(), 1);
    shrinks::<u8, BitVector<u8>>(&mut m, "shrinks bitvec u8".into(), 1);
    medium::<u16, BitVector<u16>>(&mut m, "medium bitvec u16".into(), 1);
    shrinks::<u16, BitVector<u16>>(&mut m, "shrinks bitvec u16".into(), 1);
    medium::<u32, BitVector<u32>>(&mut m, "medium bitvec u32".into(), 1);
    shrinks::<u32, BitVector<u32>>(&mut m, "shrinks bitvec u32".into(), 1);
    medium::<u64, BitVector<u64>>(&mut m, "medium bitvec u64".into(), 1);
    shrinks::<u64, BitVector<u64>>(&mut m, "shrinks bitvec u64".into(), 1);
    medium::<usize, BitVector<usize>>(&mut m, "medium bitvec usize".into(), 1);
    shrinks::<usize, BitVector<usize>>(&mut m, "shrinks bitvec usize".into(), 1);
    for k in [1, 3, 8] {
        medium::<u8, IntVector<u8>>(&mut m, format!("medium intvec u8 k={}", k), k);
        shrinks::<u8, IntVector<u8>>(&mut m, format!("shrinks intvec u8 k={}", k), k);
    }
    medium::<u16, IntVector<u16>>(&mut m, "medium intvec u16 k=11".into(), 11);
    shrinks::<u16, IntVector<u16>>(&mut m, "shrinks intvec u16 k=11".into(), 11);
    medium::<u32, IntVector<u32>>(&mut m, "medium intvec u32 k=5".into(), 5);
    shrinks::<u32, IntVector<u32>>(&mut m, "shrinks intvec u32 k=5".into(), 5);
    for k in [1, 7, 33, 64] {
        medium::<u64, IntVector<u64>>(&mut m, format!("medium intvec u64 k={}", k), k);
        shrinks::<u64, IntVector<u64>>(&mut m, format!("shrinks intvec u64 k={}", k), k);
    }
    starts::<u8, BitVector<u8>>(&mut m, "starts bitvec u8".into(), 1);
    starts::<u16, BitVector<u16>>(&mut m, "starts bitvec u16".into(), 1);
    starts::<u32, BitVector<u32>>(&mut m, "starts bitvec u32".into(), 1);
    starts::<u64, BitVector<u64>>(&mut m, "starts bitvec u64".into(), 1);
    starts::<usize, BitVector<usize>>(&mut m, "starts bitvec usize".into(), 1);
    starts::<u8, IntVector<u8>>(&mut m, "starts intvec u8 k=3".into(), 3);
    starts::<u16, IntVector<u16>>(&mut m, "starts intvec u16 k=11".into(), 11);
    starts::<u32, IntVector<u32>>(&mut m, "starts intvec u32 k=32".into(), 32);
    starts::<u64, IntVector<u64>>(&mut m, "starts intvec u64 k=7".into(), 7);
    starts::<u64, IntVector<u64>>(&mut m, "starts intvec u64 k=33".into(), 33);
    m.bound("every number of blocks below 600 (thorough 5000) to start from, one element more or fewer, with and without room for two more blocks, small requests");
    m.bound("every request size below 1100 (thorough 4000) and around every power of two and 3*2^k to 2^20 (thorough 2^26), from lengths of 0 to 1030 blocks, filled up to the capacity");
    m.bound("shrinking from every length below 1100 blocks (thorough 2500) and around powers of two to 2^16 (2^20), with about 25 amounts of spare room");
    m.bound("capacities of 2^31..2^35 bits granted in full");
    m.bound("lengths up to 3..6 (thorough 6..9) blocks plus one element, block capacity up to 12, search to the fixpoint of (length, blocks, capacity); reservation sizes around the present room and block boundaries");
    m.bound("impossible sizes: 2^e, 2^e+-1, +-block for e = 50..64, 2^64-1-j, sizes whose bit count wraps, block counts from 2^44; with nothing and with two and a half blocks already present");
    m.run()
}
