//! Bounded exhaustive exploration of the real succinct-rs code: job pool, counters, panic capture,
//! watchdog, counting allocator, reporting.
#![allow(dead_code)]

pub mod bits;
pub mod codes;
pub mod copies;
pub mod own;
pub mod faraway;
pub mod long;
pub mod rankck;
pub mod stores;
pub mod vecs;
pub mod words;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- counting allocator

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
static GLOBAL_LIVE: AtomicI64 = AtomicI64::new(0);
const HARD_CAP: i64 = 12 << 30;
pub const EXIT_MEMORY: i32 = 97;
pub const EXIT_HANG: i32 = 98;

pub struct Counting;

extern "C" {
    fn _exit(code: i32) -> !;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
}

/// How a forked run of `f` ended (call only from a single-threaded process).
pub enum Ended {
    Returned,
    Panicked,
    Refused,
    Other(i32),
}
pub fn forked(f: impl FnOnce()) -> Ended {
    unsafe {
        let p = fork();
        assert!(p >= 0, "HARNESS: fork failed");
        if p == 0 {
            probe_mode();
            alarm(20);
            let r = guard(f);
            _exit(if r.is_ok() { 10 } else { 11 })
        }
        let mut st = 0;
        waitpid(p, &mut st, 0);
        if st & 0x7f == 0 {
            match st >> 8 & 0xff {
                10 => Ended::Returned,
                11 => Ended::Panicked,
                EXIT_REFUSED => Ended::Refused,
                _ => Ended::Other(st),
            }
        } else if st & 0x7f == 6 {
            Ended::Refused
        } else {
            Ended::Other(st)
        }
    }
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if n > 0 {
        let _ = CALLS.try_with(|l| l.set(l.get() + 1));
    }
    if n.abs() >= 4096 {
        // only large blocks take part in the global cap: cheap, and a runaway is made of large blocks
        let g = GLOBAL_LIVE.fetch_add(n, Relaxed) + n;
        if g > HARD_CAP {
            unsafe { _exit(EXIT_MEMORY) }
        }
    }
}

/// In a probe process: a refused allocation ends the process with this code.
pub const EXIT_REFUSED: i32 = 42;
static PROBE: AtomicBool = AtomicBool::new(false);
pub fn probe_mode() {
    PROBE.store(true, Relaxed)
}

unsafe fn refused() {
    if PROBE.load(Relaxed) {
        _exit(EXIT_REFUSED)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64)
        } else {
            refused()
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64)
        } else {
            refused()
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(-(l.size() as i64));
            add(n as i64);
        } else {
            refused()
        }
        q
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Bytes currently allocated by this thread (allocations minus frees made on this thread).
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}

/// Number of allocations and reallocations made by this thread so far.
pub fn alloc_calls() -> u64 {
    CALLS.with(|l| l.get())
}

// ---------------------------------------------------------------- panic capture

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static WANT_PANIC_TEXT: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        // inside `guard` only the fact of the panic matters unless text is wanted
        if QUIET.with(|q| q.get()) > 0 && !WANT_PANIC_TEXT.with(|q| q.get()) {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

/// Runs `f`, reporting whether it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| ())
}

/// As `guard`, with the panic message.
pub fn guard_msg<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = WANT_PANIC_TEXT.with(|q| q.replace(true));
    let r = guard(f);
    WANT_PANIC_TEXT.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- results

#[derive(Debug, Clone)]
pub struct Fail {
    pub what: String,
    /// identifies the finding (call site / input class) for the known-findings file
    pub key: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(key: &str, what: String) -> Result<T, Fail> {
    Err(Fail { what, key: key.to_string() })
}

/// chk!(cond, key, "format", args...)
#[macro_export]
macro_rules! chk {
    ($c:expr, $key:expr, $($arg:tt)*) => {
        if !$c { return $crate::fail($key, format!($($arg)*)); }
    };
}

/// Evaluates an expression that must not panic.
#[macro_export]
macro_rules! ok {
    ($e:expr, $key:expr, $($arg:tt)*) => {
        match $crate::guard_msg(|| $e) {
            Ok(v) => v,
            Err(p) => return $crate::fail($key, format!("{}: unexpected panic: {}", format!($($arg)*), p)),
        }
    };
}

// ---------------------------------------------------------------- workers

pub struct W {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub thorough: bool,
    pub checked: bool,
    pub verbose: bool,
    pub at: String,
    pub job: String,
    pub samples: Vec<String>,
    pub outcomes: BTreeMap<String, u64>,
    slot: usize,
}

static PROGRESS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static ACTIVE: [AtomicBool; 64] = [const { AtomicBool::new(false) }; 64];
static STOP: AtomicBool = AtomicBool::new(false);

impl W {
    #[inline]
    pub fn tick(&self) {
        PROGRESS[self.slot].fetch_add(1, Relaxed);
    }
    /// Remember where we are (only formatted when re-running a job that escaped with a panic).
    #[inline]
    pub fn at(&mut self, f: impl FnOnce() -> String) {
        self.tick();
        if self.verbose {
            self.at = f();
        }
    }
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
        self.tick();
    }
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(format!("[{}] {}", self.job, s));
        }
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.outcomes.get_mut(k) {
            *v += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn stopped(&self) -> bool {
        STOP.load(Relaxed)
    }
}

type JobFn = Box<dyn Fn(&mut W) -> R + Send + Sync>;

pub struct Main {
    pub id: String,
    pub thorough: bool,
    pub checked: bool,
    only: Option<String>,
    jobs: Vec<(String, JobFn)>,
    out: Option<String>,
    progress: Option<String>,
    hang: u64,
    threads: usize,
    rule: String,
    bounds: Vec<String>,
}

struct Found {
    job: usize,
    name: String,
    fail: Fail,
}

impl Main {
    /// Parses the command line: --tier quick|thorough --out FILE --only JOB --threads N
    pub fn new(id: &str) -> Main {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
        Main {
            id: id.to_string(),
            thorough: get("--tier").as_deref() == Some("thorough"),
            checked: cfg!(debug_assertions),
            only: get("--only"),
            jobs: vec![],
            out: get("--out"),
            progress: get("--progress"),
            hang: get("--hang").and_then(|s| s.parse().ok()).unwrap_or(100),
            threads: get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
            rule: String::new(),
            bounds: vec![],
        }
    }
    pub fn job(&mut self, name: impl Into<String>, f: impl Fn(&mut W) -> R + Send + Sync + 'static) {
        self.jobs.push((name.into(), Box::new(f)));
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    /// q in the quick tier, t in the thorough tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }

    fn worker(&self, slot: usize, name: &str, verbose: bool) -> W {
        W {
            states: 0,
            transitions: 0,
            traces: 0,
            evals: 0,
            nontrivial: 0,
            thorough: self.thorough,
            checked: self.checked,
            verbose,
            at: String::new(),
            job: name.to_string(),
            samples: vec![],
            outcomes: BTreeMap::new(),
            slot,
        }
    }

    pub fn run(mut self) -> ! {
        let t0 = Instant::now();
        if let Some(o) = &self.only {
            let o = o.clone();
            self.jobs.retain(|j| j.0 == o);
            if self.jobs.is_empty() {
                println!("no job named {:?}", o);
                std::process::exit(2);
            }
        }
        let next = AtomicUsize::new(0);
        let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let names: Mutex<BTreeMap<usize, (String, Instant)>> = Mutex::new(BTreeMap::new());
        let agg: Mutex<(u64, u64, u64, u64, u64, Vec<(usize, String)>, BTreeMap<String, u64>, BTreeMap<String, u64>)> =
            Mutex::new(Default::default());
        let times: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        let broken = AtomicBool::new(false);
        let broken_r = &broken;
        let hang = self.hang;
        let me = &self;
        std::thread::scope(|s| {
            // watchdog
            let (done_r, names_r) = (&done, &names);
            s.spawn(move || {
                let mut last = [0u64; 64];
                let mut since = [Instant::now(); 64];
                while !done_r.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for i in 0..64 {
                        let p = PROGRESS[i].load(Relaxed);
                        if !ACTIVE[i].load(Relaxed) || p != last[i] {
                            last[i] = p;
                            since[i] = Instant::now();
                        } else if since[i].elapsed() > Duration::from_secs(hang) {
                            let n = names_r.lock().unwrap().get(&i).map(|x| x.0.clone()).unwrap_or_default();
                            println!("HANG job={} step={}", n, p);
                            use std::io::Write;
                            let _ = std::io::stdout().flush();
                            unsafe { _exit(EXIT_HANG) }
                        }
                    }
                }
            });
            let mut hs = vec![];
            for slot in 0..me.threads {
                let (next, found, agg, times, names) = (&next, &found, &agg, &times, &names);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || loop {
                            let j = next.fetch_add(1, Relaxed);
                            if j >= me.jobs.len() || STOP.load(Relaxed) {
                                return;
                            }
                            let (name, f) = &me.jobs[j];
                            if let Some(p) = &me.progress {
                                let _ = std::fs::write(format!("{}.{}", p, slot), name);
                            }
                            names.lock().unwrap().insert(slot, (name.clone(), Instant::now()));
                            ACTIVE[slot].store(true, Relaxed);
                            let tj = Instant::now();
                            let mut w = me.worker(slot, name, false);
                            let r = guard_msg(|| f(&mut w));
                            let r = match r {
                                Ok(r) => r,
                                Err(p) => {
                                    // deterministic: run again recording where we are
                                    let mut v = me.worker(slot, name, true);
                                    let r2 = guard_msg(|| f(&mut v));
                                    match r2 {
                                        Ok(Err(e)) => Err(e),
                                        // the harness is deterministic, so only hidden state of the
                                        // code under test can make the second run differ
                                        Ok(Ok(())) => Err(Fail {
                                            what: format!("panicked ({}) on the first run of the job and not on the second", p),
                                            key: format!("panic:{}", name),
                                        }),
                                        Err(p2) => {
                                            if p2.contains("HARNESS") {
                                                println!("HARNESS-ERROR job {}: {}", name, p2);
                                                broken_r.store(true, Relaxed);
                                                STOP.store(true, Relaxed);
                                                return;
                                            }
                                            Err(Fail {
                                                what: format!("unexpected panic: {}\n  while: {}", p2, v.at),
                                                key: format!("panic:{}", name),
                                            })
                                        }
                                    }
                                }
                            };
                            ACTIVE[slot].store(false, Relaxed);
                            times.lock().unwrap().push((tj.elapsed().as_millis() as u64, name.clone()));
                            {
                                let mut a = agg.lock().unwrap();
                                a.0 += w.states;
                                a.1 += w.transitions;
                                a.2 += w.traces;
                                a.3 += w.evals;
                                a.4 += w.nontrivial;
                                for x in w.samples {
                                    a.5.push((j, x));
                                }
                                for (k, v) in w.outcomes {
                                    *a.6.entry(k).or_insert(0) += v;
                                }
                                *a.7.entry("jobs".into()).or_insert(0) += 1;
                            }
                            if let Err(fl) = r {
                                found.lock().unwrap().push(Found { job: j, name: name.clone(), fail: fl });
                                // known findings may be among them: keep going, but remember
                                if found.lock().unwrap().len() > 40 {
                                    STOP.store(true, Relaxed);
                                }
                            }
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Relaxed);
        });
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| f.job);
        let (st, tr, tc, ev, nt, mut samples, outcomes, misc) = agg.into_inner().unwrap();
        samples.sort();
        let mut times = times.into_inner().unwrap();
        times.sort();
        times.reverse();
        let total_jobs = self.jobs.len();
        let j = Json::obj(vec![
            ("states", Json::U(st)),
            ("transitions", Json::U(tr)),
            ("traces", Json::U(tc)),
            ("evaluations", Json::U(ev)),
            ("distinct_nontrivial", Json::U(nt)),
            ("rule", Json::S(self.rule.clone())),
            ("bounds", Json::A(self.bounds.iter().cloned().map(Json::S).collect())),
            ("samples", Json::A(samples.iter().take(8).map(|x| Json::S(x.1.clone())).collect())),
            ("outcomes", Json::O(outcomes.iter().map(|(k, v)| (k.clone(), Json::U(*v))).collect())),
            ("jobs", Json::U(total_jobs as u64)),
            ("jobs_done", Json::U(*misc.get("jobs").unwrap_or(&0))),
            ("slowest_jobs", Json::A(times.iter().take(5).map(|x| Json::S(format!("{} ms {}", x.0, x.1))).collect())),
            ("wall_s", Json::F(t0.elapsed().as_secs_f64())),
            (
                "failures",
                Json::A(
                    found
                        .iter()
                        .map(|f| {
                            Json::obj(vec![
                                ("job", Json::S(f.name.clone())),
                                ("key", Json::S(f.fail.key.clone())),
                                ("what", Json::S(f.fail.what.clone())),
                            ])
                        })
                        .collect(),
                ),
            ),
        ]);
        let text = j.text();
        if let Some(o) = &self.out {
            std::fs::write(o, &text).expect("write out");
        } else {
            println!("{}", text);
        }
        for f in &found {
            println!("FAIL job={} key={}\n  {}", f.name, f.fail.key, f.fail.what);
        }
        std::process::exit(if !found.is_empty() {
            1
        } else if broken.load(Relaxed) {
            2
        } else {
            0
        })
    }
}

// ---------------------------------------------------------------- minimal JSON

pub enum Json {
    U(u64),
    F(f64),
    S(String),
    A(Vec<Json>),
    O(Vec<(String, Json)>),
}
impl Json {
    pub fn obj(v: Vec<(&str, Json)>) -> Json {
        Json::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn text(&self) -> String {
        match self {
            Json::U(n) => n.to_string(),
            Json::F(x) => format!("{:.3}", x),
            Json::S(s) => esc(s),
            Json::A(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            Json::O(v) => {
                format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", esc(k), x.text())).collect::<Vec<_>>().join(","))
            }
        }
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
