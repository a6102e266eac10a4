//! The exploration engine.
//!
//! * `Check::tree` enumerates a choice tree completely: the body asks for choices, every leaf is one
//!   execution of the real code, and the list of choices is the replayable identity of the case.
//! * `Check::bfs` explores a graph of states by breadth-first search; every transition executes the
//!   real code on a clone of the real object.
//! * `Check::range` enumerates an integer interval (all f32 bit patterns).
//!
//! All of them are deterministic. A violation is written to a replay file and ends the process with
//! exit code 1. A panic of the harness itself ends it with exit code 2.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Where the check reports to: standard output, even when that of the code under test is discarded.
static CONSOLE: AtomicI32 = AtomicI32::new(1);

pub fn say_line(s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.push(b'\n');
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { libc::write(CONSOLE.load(Ordering::Relaxed), b[at..].as_ptr() as *const _, b.len() - at) };
        if n <= 0 {
            return;
        }
        at += n as usize;
    }
}

macro_rules! say {
    ($($f:tt)+) => { crate::engine::say_line(&format!($($f)+)) };
}

/// Discards what the code under test prints.
pub fn silence_stdout() {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        assert!(keep > 2 && null > 2, "cannot redirect standard output");
        libc::dup2(null, 1);
        libc::close(null);
        CONSOLE.store(keep, Ordering::Relaxed);
    }
}

static SCRATCH: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);

/// A scratch directory that is removed when the check ends.
pub fn scratch() -> std::path::PathBuf {
    let mut s = SCRATCH.lock().unwrap();
    s.get_or_insert_with(|| {
        let d = std::path::PathBuf::from(format!("/tmp/kuba-mc-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    })
    .clone()
}

fn clean() {
    if let Ok(mut s) = SCRATCH.lock() {
        if let Some(d) = s.take() {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

fn quit(code: i32) -> ! {
    clean();
    std::process::exit(code)
}

pub const MAX_TRAIL: usize = 256;
const MAX_ALLOC: usize = 1 << 30;
const HANG_SECONDS: u64 = 20;

// ---------------------------------------------------------------------------------------------
// Isolation of the code under test: panics, runaway allocations, hangs.

pub struct GuardedAlloc;

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

unsafe impl GlobalAlloc for GuardedAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: GuardedAlloc = GuardedAlloc;

#[inline]
fn guard(size: usize) {
    if size > MAX_ALLOC && IN_SUT.with(|s| s.get()) {
        IN_SUT.with(|s| s.set(false));
        stuck(
            MY_SLOT.with(|s| s.get()),
            &format!("runaway: the code under test asked for {} bytes at once", size),
        );
    }
}

/// Runs code under test. A panic becomes an Err with its message.
#[inline]
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|s| s.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| s.set(false));
    r.map_err(|_| {
        let msg = LAST_PANIC.with(|m| std::mem::take(&mut *m.borrow_mut()));
        format!("panic in the code under test: {}", msg)
    })
}

/// Runs a case. A panic in kuba's own sources is a failure of the case even outside of `sut`; any
/// other panic is a defect of the harness.
#[inline]
fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|m| std::mem::take(&mut *m.borrow_mut()));
            // The harness' own sources have relative paths.
            if !m.contains(" at src/") {
                return Err(format!("panic in the code under test: {}", m));
            }
            eprintln!("HARNESS ERROR: {}", m);
            quit(2);
        }
    }
}

struct Slot {
    active: AtomicBool,
    cases: AtomicU64,
    len: AtomicU32,
    trail: [AtomicU32; MAX_TRAIL],
}

static SLOTS: [Slot; 64] = {
    const Z: AtomicU32 = AtomicU32::new(0);
    const S: Slot = Slot {
        active: AtomicBool::new(false),
        cases: AtomicU64::new(0),
        len: AtomicU32::new(0),
        trail: [Z; MAX_TRAIL],
    };
    [S; 64]
};

static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
static REPORTING: Mutex<()> = Mutex::new(());

#[derive(Clone)]
struct Current {
    property: String,
    suite: String,
    tier: String,
}

/// Called from the allocator or the watchdog, for a case that will never return.
fn stuck(slot: usize, what: &str) -> ! {
    let _g = REPORTING.lock();
    let cur = CURRENT.lock().unwrap().clone().unwrap();
    let trail: Vec<u32> = if slot < 64 {
        let n = SLOTS[slot].len.load(Ordering::Relaxed) as usize;
        (0..n.min(MAX_TRAIL)).map(|i| SLOTS[slot].trail[i].load(Ordering::Relaxed)).collect()
    } else {
        vec![]
    };
    finish_violation(&cur, &trail, what, "(the case does not end: its description is not available)", None)
}

fn finish_violation(cur: &Current, trail: &[u32], msg: &str, desc: &str, ev: Option<String>) -> ! {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (&cur.suite, trail).hash(&mut h);
    let path = dir.join(format!("{}-{:016x}.json", cur.property, h.finish()));
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"suite\": {},\n \"choices\": {:?},\n \"message\": {},\n \"case\": {},\n \"replay_cmd\": {}\n}}\n",
        js(&cur.property), js(&cur.tier), js(&cur.suite), trail, js(msg), js(desc),
        js(&format!("bash /verif/run.sh {} {} --replay {}", cur.property, cur.tier, path.display()))
    );
    let _ = std::fs::write(&path, s);
    let ev = ev.unwrap_or_else(|| {
        format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"other\",\"coverage\":{{\"explanation\":{}}},\"wall_s\":0,\"violations\":1}}",
            js(&cur.property), js(&cur.tier), seed(), js(&format!("stopped at a violation in suite {}: {}", cur.suite, msg))
        )
    });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let _ = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", cur.property)), ev);
    say!("suite   : {}", cur.suite);
    say!("case    : {}", desc);
    say!("message : {}", msg);
    say!("VIOLATION property={} replay={}", cur.property, path.display());
    let _ = std::io::stdout().flush();
    clean();
    unsafe { libc::_exit(1) }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------------------------------------
// Choices of one execution.

pub struct Choices {
    forced: Vec<u32>,
    pub trail: Vec<(u32, u32)>,
    pub verbose: bool,
    pub notes: Vec<String>,
    slot: usize,
}

impl Choices {
    fn new(slot: usize) -> Self {
        Choices { forced: vec![], trail: vec![], verbose: false, notes: vec![], slot }
    }

    /// One of 0..n, all of which are explored.
    #[inline]
    pub fn int(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.trail.len();
        let c = if i < self.forced.len() { self.forced[i] } else { 0 };
        assert!((c as usize) < n, "replay diverged: choice {} of {} at {}", c, n, i);
        self.trail.push((c, n as u32));
        if i < MAX_TRAIL {
            let s = &SLOTS[self.slot];
            s.trail[i].store(c, Ordering::Relaxed);
            s.len.store(i as u32 + 1, Ordering::Relaxed);
        }
        c as usize
    }

    #[inline]
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.int(xs.len());
        &xs[i]
    }

    #[inline]
    pub fn flag(&mut self) -> bool {
        self.int(2) == 1
    }

    /// Describes the case; only evaluated for samples and violations.
    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
}

/// What one execution showed.
pub struct Obs {
    /// The case exercises the property (by the check's rule).
    pub nontrivial: bool,
    /// A digest of what was observed.
    pub sig: u64,
}

impl Obs {
    pub fn new(nontrivial: bool, sig: impl Hash) -> Self {
        let mut h = Fnv(0xcbf29ce484222325);
        sig.hash(&mut h);
        Obs { nontrivial, sig: h.finish() }
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // Mix, as the low bits select the sample of distinct outcomes.
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^ (x >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_i64(&mut self, x: i64) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
}

/// A 128-bit digest of a canonical state.
pub fn key128(x: impl Hash) -> u128 {
    let mut a = Fnv(0xcbf29ce484222325);
    x.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

pub type Res = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => { if !$c { return Err(format!($($f)+)); } };
}

// ---------------------------------------------------------------------------------------------
// The check.

#[derive(Default, Clone)]
struct SuiteStats {
    name: String,
    kind: &'static str,
    evaluations: u64,
    nontrivial: u64,
    outcomes: u64,
    states: u64,
    transitions: u64,
    depth: u64,
    complete: bool,
    note: String,
    wall: f64,
}

pub struct Check {
    pub property: String,
    pub tier: String,
    pub thorough: bool,
    level: &'static str,
    rule: String,
    assumptions: Vec<String>,
    stats: Vec<SuiteStats>,
    samples: Vec<String>,
    start: Instant,
    cap: Duration,
    replay: Option<(String, Vec<u32>)>,
    replayed: bool,
    known: Vec<(String, String)>,
    known_hit: HashMap<String, u64>,
    only: Option<String>,
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 32)
}

impl Check {
    pub fn new(property: &str, level: &'static str) -> Self {
        // Keep freed memory: page faults are by far the most expensive part of large maps here.
        unsafe {
            libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
            libc::mallopt(libc::M_TRIM_THRESHOLD, i32::MAX);
        }
        let args: Vec<String> = std::env::args().collect();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { tier } else { "quick".into() };
        let replay = args.iter().position(|a| a == "--replay").map(|i| read_replay(&args[i + 1]));
        let only = args.iter().position(|a| a == "--suite").map(|i| args[i + 1].clone());
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|m| *m.borrow_mut() = format!("{}{}", msg, loc));
        }));
        std::thread::spawn(watchdog);
        let thorough = tier == "thorough";
        Check {
            property: property.into(),
            thorough,
            tier,
            level,
            rule: String::new(),
            assumptions: vec![],
            stats: vec![],
            samples: vec![],
            start: Instant::now(),
            cap: Duration::from_secs(if thorough { 6 * 3600 } else { 600 }),
            replay,
            replayed: false,
            known: read_known(property),
            known_hit: HashMap::new(),
            only,
        }
    }

    /// Runs the suites of a check and ends the process. A failure of the code under test while a
    /// suite is being prepared is a violation too.
    pub fn run(mut self, f: impl FnOnce(&mut Check)) -> ! {
        if let Err(_) = catch_unwind(AssertUnwindSafe(|| f(&mut self))) {
            let m = LAST_PANIC.with(|m| std::mem::take(&mut *m.borrow_mut()));
            if !m.contains(" at src/") || m.contains("code under test") {
                let cur = Current { property: self.property.clone(), suite: "setup".into(), tier: self.tier.clone() };
                finish_violation(&cur, &[], &m, "preparation of the suites", Some(self.evidence(1)));
            }
            eprintln!("HARNESS ERROR: {}", m);
            quit(2);
        }
        self.finish()
    }

    pub fn rule(&mut self, s: &str) {
        self.rule = s.into();
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    fn begin(&mut self, name: &str) -> bool {
        if let Some(o) = &self.only {
            if o != name {
                return false;
            }
        }
        *CURRENT.lock().unwrap() =
            Some(Current { property: self.property.clone(), suite: name.into(), tier: self.tier.clone() });
        match &self.replay {
            Some((s, _)) => s == name,
            None => true,
        }
    }

    fn end(&mut self, st: SuiteStats) {
        say!(
            "[{}] {:<34} {} evaluations={} nontrivial={} outcomes={} states={} transitions={} depth={} complete={} {:.1}s {}",
            self.property, st.name, st.kind, st.evaluations, st.nontrivial, st.outcomes, st.states, st.transitions,
            st.depth, st.complete, st.wall, st.note
        );
        self.stats.push(st);
    }

    fn violation(&self, name: &str, trail: &[u32], msg: &str, desc: &str) -> ! {
        let cur = Current { property: self.property.clone(), suite: name.into(), tier: self.tier.clone() };
        finish_violation(&cur, trail, msg, desc, Some(self.evidence(1)))
    }

    /// Some(key) if a violation message is one of the listed known findings.
    fn known_key(&self, msg: &str) -> Option<String> {
        self.known.iter().find(|(k, _)| msg.contains(k.as_str())).map(|(k, _)| k.clone())
    }

    /// Explores every leaf of the choice tree spanned by `body`.
    pub fn tree(&mut self, name: &str, body: impl Fn(&mut Choices) -> Res + Sync) {
        if !self.begin(name) {
            return;
        }
        if let Some((_, trail)) = self.replay.clone() {
            self.replayed = true;
            let mut c = Choices::new(0);
            c.forced = trail.clone();
            c.verbose = true;
            let r = guarded(|| body(&mut c));
            say!("replaying {} {:?}\ncase: {}", name, trail, c.notes.join("; "));
            match r {
                Ok(_) => say!("the case passes"),
                Err(m) => self.violation(name, &trail, &m, &c.notes.join("; ")),
            }
            return;
        }
        let t0 = Instant::now();
        let nthreads = threads();
        // Split the tree into prefixes.
        let mut tasks: Vec<Vec<u32>> = vec![vec![]];
        let mut leaves: Vec<Vec<u32>> = vec![];
        let mut next = 0;
        {
            let mut c = Choices::new(63);
            SLOTS[63].active.store(true, Ordering::Relaxed);
            MY_SLOT.with(|s| s.set(63));
            while next < tasks.len() && tasks.len() - next < nthreads * 32 && next < 4096 {
                let p = tasks[next].clone();
                SLOTS[63].cases.fetch_add(1, Ordering::Relaxed);
                c.forced.clone_from(&p);
                c.trail.clear();
                let _ = guarded(|| body(&mut c)); // only to learn the arity; the case itself is judged below
                if c.trail.len() == p.len() {
                    leaves.push(p);
                } else {
                    for i in 0..c.trail[p.len()].1 {
                        let mut q = p.clone();
                        q.push(i);
                        tasks.push(q);
                    }
                }
                next += 1;
            }
            SLOTS[63].active.store(false, Ordering::Relaxed);
        }
        let mut tasks: Vec<Vec<u32>> = tasks[next..].to_vec();
        tasks.extend(leaves);
        let cursor = AtomicU64::new(0);
        let fail: Mutex<Option<(Vec<u32>, String, String)>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let knowns: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
        let (start, cap) = (self.start, self.cap);
        let me: &Check = self;
        let results: Vec<(u64, u64, OutcomeCount, Vec<(u64, Vec<u32>)>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..nthreads)
                .map(|t| {
                    let (tasks, cursor, fail, stop, capped, body, knowns) =
                        (&tasks, &cursor, &fail, &stop, &capped, &body, &knowns);
                    sc.spawn(move || {
                        MY_SLOT.with(|s| s.set(t));
                        let slot = &SLOTS[t];
                        let mut c = Choices::new(t);
                        let (mut n, mut nt) = (0u64, 0u64);
                        let mut out = OutcomeCount::default();
                        let mut samples = vec![];
                        'tasks: loop {
                            let k = cursor.fetch_add(1, Ordering::Relaxed) as usize;
                            if k >= tasks.len() {
                                break;
                            }
                            let base = tasks[k].len();
                            c.forced.clone_from(&tasks[k]);
                            let mut first = true;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break 'tasks;
                                }
                                if n % 4096 == 0 && start.elapsed() > cap {
                                    capped.store(true, Ordering::Relaxed);
                                    break 'tasks;
                                }
                                c.trail.clear();
                                slot.len.store(0, Ordering::Relaxed);
                                slot.cases.fetch_add(1, Ordering::Relaxed);
                                slot.active.store(true, Ordering::Relaxed);
                                let r = guarded(|| body(&mut c));
                                slot.active.store(false, Ordering::Relaxed);
                                assert!(
                                    c.trail.len() >= c.forced.len(),
                                    "replay diverged: {} choices made, {} recorded",
                                    c.trail.len(),
                                    c.forced.len()
                                );
                                n += 1;
                                match r {
                                    Ok(o) => {
                                        nt += o.nontrivial as u64;
                                        out.add(o.sig);
                                        if first && o.nontrivial {
                                            samples.push((k as u64, c.trail.iter().map(|x| x.0).collect()));
                                            first = false;
                                        }
                                    }
                                    Err(m) => {
                                        if let Some(key) = me.known_key(&m) {
                                            *knowns.lock().unwrap().entry(key).or_insert(0) += 1;
                                        } else {
                                            let trail: Vec<u32> = c.trail.iter().map(|x| x.0).collect();
                                            let mut f = fail.lock().unwrap();
                                            let better = match &*f {
                                                None => true,
                                                Some((t0, _, _)) => (trail.len(), &trail) < (t0.len(), t0),
                                            };
                                            if better {
                                                *f = Some((trail, m, String::new()));
                                            }
                                            stop.store(true, Ordering::Relaxed);
                                            break 'tasks;
                                        }
                                    }
                                }
                                // Next leaf.
                                let mut i = c.trail.len();
                                while i > base && c.trail[i - 1].0 + 1 >= c.trail[i - 1].1 {
                                    i -= 1;
                                }
                                if i == base {
                                    break;
                                }
                                c.forced.clear();
                                c.forced.extend(c.trail[..i].iter().map(|x| x.0));
                                *c.forced.last_mut().unwrap() += 1;
                            }
                        }
                        (n, nt, out, samples)
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| quit(2)))
                .collect()
        });
        let mut st = SuiteStats { name: name.into(), kind: "tree", complete: !capped.load(Ordering::Relaxed), ..Default::default() };
        let mut out = OutcomeCount::default();
        let mut samples = vec![];
        for (n, nt, o, s) in results {
            st.evaluations += n;
            st.nontrivial += nt;
            out.merge(o);
            samples.extend(s);
        }
        st.outcomes = out.estimate();
        st.transitions = st.evaluations;
        for (k, v) in knowns.into_inner().unwrap() {
            *self.known_hit.entry(k).or_insert(0) += v;
        }
        if let Some((trail, msg, _)) = fail.into_inner().unwrap() {
            let mut c = Choices::new(0);
            c.forced = trail.clone();
            c.verbose = true;
            let again = guarded(|| body(&mut c));
            let msg = match again {
                Err(m) if m == msg => msg,
                Err(m) => format!("{} (on replay: {})", msg, m),
                _ => format!("{} (not reproduced by an immediate replay in the same process: the code keeps state between calls)", msg),
            };
            st.wall = t0.elapsed().as_secs_f64();
            self.end(st);
            self.violation(name, &trail, &msg, &c.notes.join("; "));
        }
        samples.sort();
        let m = samples.len();
        for i in [m / 3, 2 * m / 3] {
            if i < m {
                let mut c = Choices::new(0);
                c.forced = samples[i].1.clone();
                c.verbose = true;
                let _ = guarded(|| body(&mut c));
                self.samples.push(format!("{} {:?}: {}", name, samples[i].1, c.notes.join("; ")));
            }
        }
        st.wall = t0.elapsed().as_secs_f64();
        self.end(st);
    }

    /// Breadth-first search. `step(state, action)` executes the real code and judges it; `None` means
    /// that the action is not enabled. Two states with equal keys must have the same futures.
    #[allow(clippy::too_many_arguments)]
    pub fn bfs<S: Send + Sync>(
        &mut self,
        name: &str,
        inits: Vec<S>,
        actions: usize,
        max_depth: usize,
        max_states: usize,
        describe: impl Fn(usize) -> String + Sync,
        step: impl Fn(&S, usize) -> Result<Option<S>, String> + Sync,
        key: impl Fn(&S) -> u128 + Sync,
    ) {
        if !self.begin(name) {
            return;
        }
        let trail_desc = |t: &[u32]| {
            let mut s = format!("start {}", t[0]);
            for a in &t[1..] {
                let _ = write!(s, "; {}", describe(*a as usize));
            }
            s
        };
        if let Some((_, trail)) = self.replay.clone() {
            self.replayed = true;
            say!("replaying {}: {}", name, trail_desc(&trail));
            let mut s: Option<S> = None;
            for (i, a) in trail.iter().enumerate().skip(1) {
                let cur = match &s {
                    None => &inits[trail[0] as usize],
                    Some(x) => x,
                };
                match guarded(|| step(cur, *a as usize)) {
                    Err(m) => self.violation(name, &trail[..=i], &m, &trail_desc(&trail[..=i])),
                    Ok(n) => s = Some(n.expect("replay diverged: action not enabled")),
                }
            }
            say!("the case passes");
            return;
        }
        let t0 = Instant::now();
        let nthreads = threads();
        let mut st = SuiteStats { name: name.into(), kind: "bfs", complete: true, ..Default::default() };
        let mut seen: std::collections::HashSet<u128> = std::collections::HashSet::new();
        // parents[i] = (parent state number, action); a start has parent u32::MAX.
        let mut parents: Vec<(u32, u32)> = vec![];
        let mut frontier: Vec<(u32, S)> = vec![];
        for (i, s) in inits.into_iter().enumerate() {
            if seen.insert(key(&s)) {
                parents.push((u32::MAX, i as u32));
                frontier.push((parents.len() as u32 - 1, s));
            }
        }
        let path = |parents: &Vec<(u32, u32)>, mut i: u32, last: Option<u32>| {
            let mut t: Vec<u32> = last.into_iter().collect();
            loop {
                let (p, a) = parents[i as usize];
                t.push(a);
                if p == u32::MAX {
                    break;
                }
                i = p;
            }
            t.reverse();
            t
        };
        let mut depth = 0;
        let mut open = false;
        let mut sample_at = vec![];
        while !frontier.is_empty() && depth < max_depth {
            depth += 1;
            let cursor = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let capped = AtomicBool::new(false);
            let seen_ref = &seen;
            let fail: Mutex<Option<(u32, u32, String)>> = Mutex::new(None);
            let knowns: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
            let (start, cap) = (self.start, self.cap);
            let me: &Check = self;
            let keep = depth < max_depth;
            let results: Vec<(u64, Vec<(u128, u32, u32, Option<S>)>)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..nthreads)
                    .map(|t| {
                        let (cursor, stop, capped, fail, frontier, step, key, knowns, parents, path) =
                            (&cursor, &stop, &capped, &fail, &frontier, &step, &key, &knowns, &parents, &path);
                        sc.spawn(move || {
                            MY_SLOT.with(|s| s.set(t));
                            let slot = &SLOTS[t];
                            let mut n = 0u64;
                            let mut new: Vec<(u128, u32, u32, Option<S>)> = vec![];
                            let mut local = std::collections::HashSet::new();
                            loop {
                                let k = cursor.fetch_add(1, Ordering::Relaxed) as usize;
                                if k >= frontier.len() || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if start.elapsed() > cap {
                                    capped.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let (id, s) = &frontier[k];
                                let hist = path(parents, *id, None);
                                let len = hist.len().min(MAX_TRAIL - 1);
                                for (i, h) in hist[..len].iter().enumerate() {
                                    slot.trail[i].store(*h, Ordering::Relaxed);
                                }
                                slot.len.store(len as u32 + 1, Ordering::Relaxed);
                                for a in 0..actions {
                                    slot.cases.fetch_add(1, Ordering::Relaxed);
                                    slot.trail[len].store(a as u32, Ordering::Relaxed);
                                    slot.active.store(true, Ordering::Relaxed);
                                    let r = guarded(|| step(s, a));
                                    slot.active.store(false, Ordering::Relaxed);
                                    match r {
                                        Ok(None) => {}
                                        Ok(Some(x)) => {
                                            n += 1;
                                            let kx = key(&x);
                                            if !seen_ref.contains(&kx) && local.insert(kx) {
                                                new.push((kx, *id, a as u32, if keep { Some(x) } else { None }));
                                            }
                                        }
                                        Err(m) => {
                                            n += 1;
                                            if let Some(key) = me.known_key(&m) {
                                                *knowns.lock().unwrap().entry(key).or_insert(0) += 1;
                                            } else {
                                                let mut f = fail.lock().unwrap();
                                                if f.as_ref().map_or(true, |(i, b, _)| (*id, a as u32) < (*i, *b)) {
                                                    *f = Some((*id, a as u32, m));
                                                }
                                                stop.store(true, Ordering::Relaxed);
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                            (n, new)
                        })
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| quit(2)))
                    .collect()
            });
            for (k, v) in knowns.into_inner().unwrap() {
                *self.known_hit.entry(k).or_insert(0) += v;
            }
            let mut new_all = vec![];
            for (n, new) in results {
                st.transitions += n;
                new_all.extend(new);
            }
            if let Some((id, a, msg)) = fail.into_inner().unwrap() {
                let t = path(&parents, id, Some(a));
                st.states = seen.len() as u64;
                st.depth = depth as u64;
                st.wall = t0.elapsed().as_secs_f64();
                self.end(st);
                self.violation(name, &t, &msg, &trail_desc(&t));
            }
            new_all.sort_by_key(|x| (x.1, x.2));
            let mut next = vec![];
            open = false;
            for (k, p, a, s) in new_all {
                if seen.insert(k) {
                    open = true;
                    parents.push((p, a));
                    if let Some(s) = s {
                        next.push((parents.len() as u32 - 1, s));
                    }
                }
            }
            sample_at.push(parents.len() as u32 - 1);
            if capped.load(Ordering::Relaxed) {
                st.complete = false;
                st.note = format!("time cap reached at depth {}", depth);
                break;
            }
            if seen.len() > max_states && !next.is_empty() {
                st.note = format!("state cap {} reached: depth {} explored completely", max_states, depth);
                st.complete = false;
                break;
            }
            frontier = next;
        }
        if st.complete {
            st.note = if !open {
                format!("fixpoint: all reachable states, diameter {}", depth.saturating_sub(1))
            } else {
                format!("all histories up to depth {}", depth)
            };
        }
        st.states = seen.len() as u64;
        st.depth = depth as u64;
        st.evaluations = st.transitions;
        st.nontrivial = st.transitions;
        st.outcomes = st.states;
        if let Some(i) = sample_at.last() {
            let t = path(&parents, *i, None);
            self.samples.push(format!("{} {:?}: {}", name, t, trail_desc(&t)));
        }
        st.wall = t0.elapsed().as_secs_f64();
        self.end(st);
    }

    /// Judges every number of a range; `body` returns whether the case was not trivial.
    pub fn range(&mut self, name: &str, lo: u64, hi: u64, body: impl Fn(u64) -> Result<bool, String> + Sync) {
        if !self.begin(name) {
            return;
        }
        if let Some((_, t)) = self.replay.clone() {
            self.replayed = true;
            let x = t[0] as u64 | (*t.get(1).unwrap_or(&0) as u64) << 32;
            say!("replaying {} {:#x}", name, x);
            match guarded(|| body(x)) {
                Ok(_) => say!("the case passes"),
                Err(m) => self.violation(name, &t, &m, &format!("input {:#x}", x)),
            }
            return;
        }
        let t0 = Instant::now();
        let cursor = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
        const BLOCK: u64 = 1 << 16;
        let (start, cap) = (self.start, self.cap);
        let results: Vec<(u64, u64)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads())
                .map(|t| {
                    let (cursor, stop, capped, fail, body) = (&cursor, &stop, &capped, &fail, &body);
                    sc.spawn(move || {
                        MY_SLOT.with(|s| s.set(t));
                        let slot = &SLOTS[t];
                        let (mut n, mut nt) = (0, 0);
                        loop {
                            let a = cursor.fetch_add(BLOCK, Ordering::Relaxed);
                            if a >= hi || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > cap {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let b = (a + BLOCK).min(hi);
                            slot.active.store(true, Ordering::Relaxed);
                            slot.len.store(2, Ordering::Relaxed);
                            for x in a..b {
                                slot.trail[0].store(x as u32, Ordering::Relaxed);
                                slot.trail[1].store((x >> 32) as u32, Ordering::Relaxed);
                                if x & 255 == 0 {
                                    slot.cases.fetch_add(1, Ordering::Relaxed);
                                }
                                match guarded(|| body(x)) {
                                    Ok(b) => nt += b as u64,
                                    Err(m) => {
                                        let mut f = fail.lock().unwrap();
                                        if f.as_ref().map_or(true, |(y, _)| x < *y) {
                                            *f = Some((x, m));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                                n += 1;
                            }
                            slot.active.store(false, Ordering::Relaxed);
                        }
                        (n, nt)
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| quit(2)))
                .collect()
        });
        let mut st = SuiteStats { name: name.into(), kind: "range", complete: !capped.load(Ordering::Relaxed), ..Default::default() };
        for (n, nt) in results {
            st.evaluations += n;
            st.nontrivial += nt;
        }
        st.transitions = st.evaluations;
        st.wall = t0.elapsed().as_secs_f64();
        let f = fail.into_inner().unwrap();
        if let Some((x, m)) = f {
            self.end(st);
            self.violation(name, &[x as u32, (x >> 32) as u32], &m, &format!("input {:#x}", x));
        }
        self.samples.push(format!("{}: every integer in {:#x}..{:#x}", name, lo, hi));
        self.end(st);
    }

    fn evidence(&self, violations: u64) -> String {
        let sum = |f: fn(&SuiteStats) -> u64| self.stats.iter().map(f).sum::<u64>();
        let evals = sum(|s| s.evaluations);
        let states = sum(|s| s.states);
        let bfs_trans: u64 = self.stats.iter().filter(|s| s.kind == "bfs").map(|s| s.transitions).sum();
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            js(&self.property), js(&self.tier), seed(), js(self.level)
        );
        if self.level == "model_checking" {
            // Every transition of the state graph and every leaf of a choice tree is an execution of
            // the implementation whose outcome was compared with the reference model.
            let _ = write!(
                o,
                "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
                states, bfs_trans, evals
            );
        }
        let _ = write!(
            o,
            "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"suites\": [\n",
            evals,
            sum(|s| s.nontrivial),
            js(&self.rule),
            self.stats.iter().all(|s| s.complete) && violations == 0
        );
        for (i, s) in self.stats.iter().enumerate() {
            let _ = write!(
                o,
                "   {{\"name\": {}, \"kind\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"distinct_outcomes\": {}, \"states\": {}, \"transitions\": {}, \"depth\": {}, \"complete\": {}, \"note\": {}, \"wall_s\": {:.2}}}{}\n",
                js(&s.name), js(s.kind), s.evaluations, s.nontrivial, s.outcomes, s.states, s.transitions, s.depth, s.complete, js(&s.note), s.wall,
                if i + 1 < self.stats.len() { "," } else { "" }
            );
        }
        let _ = write!(o, "  ],\n  \"samples\": [{}]\n }},\n", self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
        let _ = write!(
            o,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        o
    }

    /// Writes the evidence and ends the process.
    fn finish(mut self) -> ! {
        if let Some((s, _)) = &self.replay {
            if s == "setup" {
                say!("the preparation of all suites passes");
                quit(0);
            }
            if !self.replayed {
                eprintln!("HARNESS ERROR: no suite {} in this check", s);
                quit(2);
            }
            quit(0);
        }
        // Vacuity: every suite must have judged something that is not trivial.
        for s in &self.stats {
            if s.nontrivial == 0 {
                eprintln!("HARNESS ERROR: suite {} explored nothing of interest", s.name);
                quit(2);
            }
        }
        let hits = std::mem::take(&mut self.known_hit);
        for (k, what) in &self.known {
            if let Some(n) = hits.get(k) {
                say!("KNOWN-FINDING: property={} {} ({} cases)", self.property, what, n);
            }
        }
        let ev = self.evidence(0);
        let dir = verif_dir().join("evidence");
        std::fs::create_dir_all(&dir).expect("evidence directory");
        std::fs::write(dir.join(format!("{}.json", self.property)), ev).expect("evidence file");
        say!("PASS property={} wall={:.1}s", self.property, self.start.elapsed().as_secs_f64());
        quit(0);
    }
}

fn watchdog() {
    let mut last: Vec<(u64, u64)> = vec![(0, 0); 64];
    loop {
        std::thread::sleep(Duration::from_secs(1));
        for (i, l) in last.iter_mut().enumerate() {
            let n = SLOTS[i].cases.load(Ordering::Relaxed);
            if SLOTS[i].active.load(Ordering::Relaxed) && n == l.0 {
                l.1 += 1;
                if l.1 >= HANG_SECONDS {
                    stuck(i, &format!("hang: one case has been running for {} s", HANG_SECONDS));
                }
            } else {
                *l = (n, 0);
            }
        }
    }
}

/// Counts distinct digests exactly up to a limit, then estimates from a hash sample.
#[derive(Default)]
struct OutcomeCount {
    set: std::collections::HashSet<u64>,
    shift: u32,
}

impl OutcomeCount {
    #[inline]
    fn add(&mut self, x: u64) {
        if self.shift == 0 || x.trailing_zeros() >= self.shift {
            self.set.insert(x);
            if self.set.len() > 1 << 18 {
                self.shift += 1;
                let s = self.shift;
                self.set.retain(|x| x.trailing_zeros() >= s);
            }
        }
    }
    fn merge(&mut self, o: OutcomeCount) {
        if o.shift > self.shift {
            self.shift = o.shift;
            let s = self.shift;
            self.set.retain(|x| x.trailing_zeros() >= s);
        }
        for x in o.set {
            self.add(x);
        }
    }
    fn estimate(&self) -> u64 {
        (self.set.len() as u64) << self.shift
    }
}

fn read_replay(path: &str) -> (String, Vec<u32>) {
    let s = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| {
        let i = s.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
        s[i..].trim_start().to_string()
    };
    let suite = field("suite");
    let suite = suite[1..].split('"').next().unwrap().to_string();
    let ch = field("choices");
    let ch = &ch[1..ch.find(']').unwrap()];
    let ch = ch.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
    (suite, ch)
}

/// Lines "known: property=<ID> match=<substring of the message> what=<description>".
fn read_known(property: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("property={} match=", property))?;
            let (k, w) = l.split_once(" what=")?;
            Some((k.to_string(), w.to_string()))
        })
        .collect()
}
