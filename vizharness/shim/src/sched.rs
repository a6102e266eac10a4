//! The scheduler. Real threads take turns: exactly one runs at a time, and before every operation on a
//! lock, atomic, thread or channel the explorer decides which one goes on. A decision to leave a thread
//! that could go on (a preemption) and a relaxed load of an outdated value cost one unit of a budget;
//! within it, all decisions are enumerated. Happens-before is tracked with vector clocks, so a load can
//! return any value that the C11 memory model allows of the stores so far (store to load reordering in
//! one thread, and SeqCst, are taken as sequentially consistent).

use ::std::any::Any;
use ::std::cell::RefCell;
use ::std::collections::HashMap;
use ::std::panic::{resume_unwind, AssertUnwindSafe};
use ::std::sync::atomic::{AtomicU64, Ordering as O};
use ::std::sync::{Arc, Condvar, Mutex};

pub use ::std::sync::atomic::Ordering;

const MAX_STEPS: usize = 20_000;

/// An object of one execution. Its number is given at first use, anew in every execution.
#[derive(Default)]
pub struct Obj(AtomicU64);
impl Obj {
    pub const fn new() -> Self {
        Obj(AtomicU64::new(0))
    }
}

type Vc = Vec<u32>;

fn join_vc(a: &mut Vc, b: &Vc) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}
fn leq(a: &Vc, b: &Vc) -> bool {
    a.iter().enumerate().all(|(i, x)| *x <= b.get(i).copied().unwrap_or(0))
}

#[derive(Clone, PartialEq, Debug)]
enum State {
    Ready,
    Blocked(&'static str, u64),
    Done,
}

struct Th {
    state: State,
    vc: Vc,
}

#[derive(Default)]
struct Lock {
    writer: Option<usize>,
    readers: Vec<usize>,
    vc: Vc,
}

struct Store {
    val: u64,
    by: Vc,              // clock of the storing thread
    release: Option<Vc>, // what an acquiring load learns
}

struct Cell {
    stores: Vec<Store>,
    seen: HashMap<usize, usize>, // per thread: newest store it read or wrote
}

/// What one frame drew.
#[derive(Clone, Debug)]
pub struct Frame {
    pub points: Vec<[f32; 3]>,
    /// From, to, color.
    pub lines: Vec<[[f32; 3]; 3]>,
    /// No background thread could do anything when the frame began.
    pub at_rest: bool,
    pub spawned: usize,
}

struct Inner {
    choose: Box<dyn FnMut(usize) -> usize + Send>,
    budget: usize,
    stale: usize,
    used_stale: bool,
    used_preempt: usize,
    active: usize,
    threads: Vec<Th>,
    locks: HashMap<u64, Lock>,
    cells: HashMap<u64, Cell>,
    parking: HashMap<usize, Vc>,
    next_obj: u64,
    steps: usize,
    failure: Option<String>,
    abort: bool,
    ended: bool,
    at_rest: bool,
    frames: Vec<Frame>,
    trace: Option<Vec<String>>,
}

pub struct Session {
    id: u64,
    inner: Mutex<Inner>,
    cv: Condvar,
    handles: Mutex<Vec<::std::thread::JoinHandle<()>>>,
    args: Vec<String>,
    nframes: usize,
    sut: fn(&mut dyn FnMut()) -> Result<(), String>,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Session>, usize)>> = const { RefCell::new(None) };
}

struct Abort;

fn me() -> (Arc<Session>, usize) {
    ME.with(|m| m.borrow().clone()).expect("used outside of an exploration")
}

/// None while an execution is being torn down by a panicking thread.
fn me_alive() -> Option<(Arc<Session>, usize)> {
    let (s, t) = me();
    let abort = s.inner.lock().unwrap().abort;
    if abort {
        if ::std::thread::panicking() {
            return None;
        }
        resume_unwind(Box::new(Abort));
    }
    Some((s, t))
}

impl Inner {
    fn tick(&mut self, t: usize) {
        let vc = &mut self.threads[t].vc;
        if vc.len() <= t {
            vc.resize(t + 1, 0);
        }
        vc[t] += 1;
    }
    fn note(&mut self, t: usize, s: &str) {
        if let Some(tr) = &mut self.trace {
            tr.push(format!("{}:{}", if t == 0 { "frames".into() } else { format!("thread{}", t) }, s));
        }
    }
    fn ready(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|t| self.threads[*t].state == State::Ready).collect()
    }
    fn fail(&mut self, m: String) {
        if self.failure.is_none() {
            self.failure = Some(m);
        }
        self.abort = true;
    }
    fn wake(&mut self, kind: &'static str, id: u64) {
        for t in self.threads.iter_mut() {
            if t.state == State::Blocked(kind, id) {
                t.state = State::Ready;
            }
        }
    }
    /// The next thread after `t` cannot go on.
    fn dispatch(&mut self) {
        let r = self.ready();
        if r.is_empty() {
            if self.threads[0].state == State::Done {
                // The process ends with its main thread, even if others still wait for something.
                self.ended = true;
                self.abort = self.threads.iter().any(|t| t.state != State::Done);
            } else {
                let s: Vec<String> = self.threads.iter().enumerate().map(|(i, t)| format!("{}: {:?}", i, t.state)).collect();
                self.fail(format!("deadlock: no thread can go on ({})", s.join(", ")));
            }
            return;
        }
        let k = if r.len() == 1 { 0 } else { (self.choose)(r.len()) };
        self.active = r[k];
    }
}

impl Session {
    fn obj(&self, i: &mut Inner, o: &Obj) -> u64 {
        let v = o.0.load(O::Relaxed);
        if v >> 32 == self.id & 0xffff_ffff && v != 0 {
            return v & 0xffff_ffff;
        }
        i.next_obj += 1;
        o.0.store((self.id << 32) | i.next_obj, O::Relaxed);
        i.next_obj
    }

    fn wait_turn<'a>(&'a self, mut g: ::std::sync::MutexGuard<'a, Inner>, t: usize) -> ::std::sync::MutexGuard<'a, Inner> {
        self.cv.notify_all();
        while g.active != t && !g.abort {
            g = self.cv.wait(g).unwrap();
        }
        if g.abort {
            drop(g);
            if !::std::thread::panicking() {
                resume_unwind(Box::new(Abort));
            }
            g = self.inner.lock().unwrap();
        }
        g
    }

    /// A point at which another thread may be given the turn.
    fn point<'a>(&'a self, t: usize, what: &str) -> ::std::sync::MutexGuard<'a, Inner> {
        let mut g = self.inner.lock().unwrap();
        if g.abort {
            return g;
        }
        g.steps += 1;
        if g.steps > MAX_STEPS && g.threads[0].state == State::Done {
            // A background thread that runs until the process ends, which it does.
            g.ended = true;
            g.abort = true;
            return self.wait_turn(g, t);
        }
        if g.steps > MAX_STEPS {
            g.fail("the execution does not end".into());
            return self.wait_turn(g, t);
        }
        if g.budget > 0 {
            let others: Vec<usize> = g.ready().into_iter().filter(|x| *x != t).collect();
            if !others.is_empty() {
                let k = (g.choose)(others.len() + 1);
                if k > 0 {
                    g.budget -= 1;
                    g.used_preempt += 1;
                    g.active = others[k - 1];
                    g = self.wait_turn(g, t);
                }
            }
        }
        g.tick(t);
        g.note(t, what);
        g
    }
}

// ---------------------------------------------------------------------------------------------
// Operations of the program under test.

pub fn args() -> Vec<String> {
    me().0.args.clone()
}
pub fn frames() -> usize {
    me().0.nframes
}

pub fn frame_begins() {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.inner.lock().unwrap();
    // The wait for the next frame: other threads may go on without a preemption.
    let mut ready = g.ready();
    ready.retain(|x| *x != t);
    ready.insert(0, t);
    if ready.len() > 1 && !g.abort {
        let k = (g.choose)(ready.len());
        if k > 0 {
            g.active = ready[k];
            g = s.wait_turn(g, t);
        }
    }
    drop(g);
    let mut g = s.point(t, "frame");
    g.at_rest = (0..g.threads.len()).all(|x| x == t || g.threads[x].state != State::Ready);
}

pub fn frame_ends(points: Vec<[f32; 3]>, lines: Vec<[[f32; 3]; 3]>) {
    let Some((s, _)) = me_alive() else { return };
    let mut g = s.inner.lock().unwrap();
    let f = Frame { points, lines, at_rest: g.at_rest, spawned: g.threads.len() - 1 };
    g.frames.push(f);
}

pub fn spawn(f: Box<dyn FnOnce() + Send>) -> usize {
    let (s, t) = me_alive().expect("spawning while unwinding");
    let tid = {
        let mut g = s.point(t, "spawn");
        let tid = g.threads.len();
        let vc = g.threads[t].vc.clone();
        g.threads.push(Th { state: State::Ready, vc });
        g.tick(tid);
        tid
    };
    let s2 = s.clone();
    let h = ::std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((s2.clone(), tid)));
            run(&s2, tid, f);
            ME.with(|m| *m.borrow_mut() = None);
        })
        .expect("thread");
    s.handles.lock().unwrap().push(h);
    tid
}

/// Runs a thread's body, from getting its first turn to giving up its last one.
fn run(s: &Arc<Session>, t: usize, f: Box<dyn FnOnce() + Send>) {
    {
        let mut g = s.inner.lock().unwrap();
        while g.active != t && !g.abort {
            g = s.cv.wait(g).unwrap();
        }
        if g.abort {
            g.threads[t].state = State::Done;
            s.cv.notify_all();
            return;
        }
    }
    let mut f = Some(f);
    let aborted = RefCell::new(false);
    let r = (s.sut)(&mut || {
        let f = f.take().unwrap();
        if let Err(e) = ::std::panic::catch_unwind(AssertUnwindSafe(f)) {
            if e.is::<Abort>() {
                *aborted.borrow_mut() = true;
            } else {
                resume_unwind(e as Box<dyn Any + Send>);
            }
        }
    });
    let mut g = s.inner.lock().unwrap();
    if let Err(m) = r {
        g.fail(format!("{} ({})", m, if t == 0 { "in the frame loop" } else { "in a background thread" }));
    }
    g.note(t, "end");
    g.threads[t].state = State::Done;
    g.wake("join", t as u64);
    if !g.abort {
        g.dispatch();
    }
    s.cv.notify_all();
}

pub fn join(tid: usize) {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, "join");
    while g.threads[tid].state != State::Done {
        if g.abort {
            return;
        }
        g.threads[t].state = State::Blocked("join", tid as u64);
        g.dispatch();
        g = s.wait_turn(g, t);
    }
    let vc = g.threads[tid].vc.clone();
    join_vc(&mut g.threads[t].vc, &vc);
}

pub fn is_finished(tid: usize) -> bool {
    let Some((s, t)) = me_alive() else { return true };
    let mut g = s.point(t, "is_finished");
    let r = g.threads[tid].state == State::Done;
    if r {
        let vc = g.threads[tid].vc.clone();
        join_vc(&mut g.threads[t].vc, &vc);
    }
    r
}

/// The number of the running thread.
pub fn current() -> usize {
    me().1
}

pub fn unpark(tid: usize) {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, "unpark");
    let vc = g.threads[t].vc.clone();
    g.parking.insert(tid, vc);
    g.wake("park", tid as u64);
}

pub fn park() {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, "park");
    while !g.abort {
        if let Some(vc) = g.parking.remove(&t) {
            join_vc(&mut g.threads[t].vc, &vc);
            return;
        }
        g.threads[t].state = State::Blocked("park", t as u64);
        g.dispatch();
        g = s.wait_turn(g, t);
    }
}

pub fn yield_now() {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, "yield");
    let others: Vec<usize> = g.ready().into_iter().filter(|x| *x != t).collect();
    if !others.is_empty() {
        let k = if others.len() == 1 { 0 } else { (g.choose)(others.len()) };
        g.active = others[k];
        drop(s.wait_turn(g, t));
    }
}

fn available(l: &Lock, write: bool) -> bool {
    l.writer.is_none() && (!write || l.readers.is_empty())
}

pub fn lock(o: &Obj, write: bool) {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, if write { "lock" } else { "read-lock" });
    let id = s.obj(&mut g, o);
    acquire(&s, g, t, id, write);
}

fn acquire<'a>(s: &'a Arc<Session>, mut g: ::std::sync::MutexGuard<'a, Inner>, t: usize, id: u64, write: bool) {
    loop {
        if g.abort {
            return;
        }
        if available(g.locks.entry(id).or_default(), write) {
            break;
        }
        g.threads[t].state = State::Blocked("lock", id);
        g.dispatch();
        g = s.wait_turn(g, t);
    }
    take(&mut g, t, id, write);
}

fn take(g: &mut Inner, t: usize, id: u64, write: bool) {
    let l = g.locks.get_mut(&id).unwrap();
    if write {
        l.writer = Some(t);
    } else {
        l.readers.push(t);
    }
    let vc = l.vc.clone();
    join_vc(&mut g.threads[t].vc, &vc);
}

pub fn try_lock(o: &Obj, write: bool) -> bool {
    let Some((s, t)) = me_alive() else { return false };
    let mut g = s.point(t, "try-lock");
    let id = s.obj(&mut g, o);
    if !available(g.locks.entry(id).or_default(), write) {
        return false;
    }
    take(&mut g, t, id, write);
    true
}

pub fn unlock(o: &Obj, write: bool) {
    let (s, t) = me();
    let mut g = s.inner.lock().unwrap();
    if g.abort {
        return;
    }
    let id = s.obj(&mut g, o);
    release(&mut g, t, id, write);
}

fn release(g: &mut Inner, t: usize, id: u64, write: bool) {
    g.tick(t);
    g.note(t, "unlock");
    let vc = g.threads[t].vc.clone();
    let l = g.locks.entry(id).or_default();
    if write {
        l.writer = None;
    } else if let Some(k) = l.readers.iter().position(|x| *x == t) {
        l.readers.remove(k);
    }
    join_vc(&mut l.vc, &vc);
    g.wake("lock", id);
}

pub fn wait(cv: &Obj, m: &Obj) {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, "wait");
    let c = s.obj(&mut g, cv);
    let id = s.obj(&mut g, m);
    release(&mut g, t, id, true);
    g.threads[t].state = State::Blocked("condvar", c);
    g.dispatch();
    let g = s.wait_turn(g, t);
    acquire(&s, g, t, id, true);
}

pub fn notify(cv: &Obj, all: bool) {
    let Some((s, t)) = me_alive() else { return };
    let mut g = s.point(t, "notify");
    let c = s.obj(&mut g, cv);
    if all {
        g.wake("condvar", c);
        return;
    }
    let w: Vec<usize> = (0..g.threads.len()).filter(|x| g.threads[*x].state == State::Blocked("condvar", c)).collect();
    if !w.is_empty() {
        let k = if w.len() == 1 { 0 } else { (g.choose)(w.len()) };
        g.threads[w[k]].state = State::Ready;
    }
}

pub fn fence() {
    // Approximated as nothing but a scheduling point: loads may return more outdated values than real ones.
    let Some((s, t)) = me_alive() else { return };
    drop(s.point(t, "fence"));
}

fn cell<'a>(g: &'a mut Inner, id: u64, init: u64) -> &'a mut Cell {
    g.cells.entry(id).or_insert_with(|| Cell { stores: vec![Store { val: init, by: vec![], release: Some(vec![]) }], seen: HashMap::new() })
}

pub fn load(o: &Obj, init: u64, ord: Ordering) -> u64 {
    let Some((s, t)) = me_alive() else { return init };
    let mut g = s.point(t, "load");
    let id = s.obj(&mut g, o);
    let vc = g.threads[t].vc.clone();
    let (n, lo) = {
        let c = cell(&mut g, id, init);
        let n = c.stores.len();
        let known = (0..n).rev().find(|i| leq(&c.stores[*i].by, &vc)).unwrap_or(0);
        (n, known.max(c.seen.get(&t).copied().unwrap_or(0)))
    };
    let mut back = 0;
    if lo + 1 < n && ord != Ordering::SeqCst && g.budget > 0 && g.stale > 0 {
        back = (g.choose)(n - lo);
        if back > 0 {
            g.budget -= 1;
            g.stale -= 1;
            g.used_stale = true;
        }
    }
    let k = n - 1 - back;
    let c = cell(&mut g, id, init);
    c.seen.insert(t, k);
    let v = c.stores[k].val;
    let rel = c.stores[k].release.clone();
    if let (Ordering::Acquire | Ordering::SeqCst | Ordering::AcqRel, Some(r)) = (ord, rel) {
        join_vc(&mut g.threads[t].vc, &r);
    }
    g.note(t, &format!("loaded {}{}", v, if back > 0 { " (outdated)" } else { "" }));
    v
}

/// A store (`reads` false) or a read-modify-write; returns the value before.
pub fn rmw(o: &Obj, init: u64, ord: Ordering, reads: bool, f: &mut dyn FnMut(u64) -> Option<u64>) -> u64 {
    let Some((s, t)) = me_alive() else { return init };
    let mut g = s.point(t, "store");
    let id = s.obj(&mut g, o);
    let c = cell(&mut g, id, init);
    let n = c.stores.len();
    let old = c.stores[n - 1].val;
    let chain = c.stores[n - 1].release.clone();
    if reads && matches!(ord, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
        if let Some(r) = &chain {
            join_vc(&mut g.threads[t].vc, r);
        }
    }
    if let Some(v) = f(old) {
        let vc = g.threads[t].vc.clone();
        let mut release = match ord {
            Ordering::Release | Ordering::AcqRel | Ordering::SeqCst => Some(vc.clone()),
            _ => None,
        };
        if reads {
            // A read-modify-write continues the release sequence.
            if let Some(r) = chain {
                match &mut release {
                    Some(x) => join_vc(x, &r),
                    None => release = Some(r),
                }
            }
        }
        let c = cell(&mut g, id, init);
        c.stores.push(Store { val: v, by: vc, release });
        c.seen.insert(t, n);
        g.note(t, &format!("stored {}", v));
    } else {
        cell(&mut g, id, init).seen.insert(t, n - 1);
    }
    old
}

// ---------------------------------------------------------------------------------------------
// Exploration.

pub struct Outcome {
    pub frames: Vec<Frame>,
    pub failure: Option<String>,
    pub used_stale: bool,
    pub used_preempt: usize,
    pub steps: usize,
    pub trace: Vec<String>,
}

pub struct Plan {
    pub args: Vec<String>,
    pub frames: usize,
    /// Preemptions and outdated loads together.
    pub budget: usize,
    /// Outdated loads.
    pub stale: usize,
    pub trace: bool,
}

/// One execution of `program` under the schedule given by `choose`.
pub fn execute(
    plan: Plan,
    choose: &mut (dyn FnMut(usize) -> usize + Send),
    sut: fn(&mut dyn FnMut()) -> Result<(), String>,
    program: fn(),
) -> Outcome {
    static IDS: AtomicU64 = AtomicU64::new(1);
    // The execution ends before this function returns, and with it all uses of `choose`.
    let choose: &'static mut (dyn FnMut(usize) -> usize + Send) = unsafe { ::std::mem::transmute(choose) };
    let s = Arc::new(Session {
        id: IDS.fetch_add(1, O::Relaxed) & 0x7fff_ffff,
        inner: Mutex::new(Inner {
            choose: Box::new(move |n| choose(n)),
            budget: plan.budget,
            stale: plan.stale,
            used_stale: false,
            used_preempt: 0,
            active: 0,
            threads: vec![Th { state: State::Ready, vc: vec![1] }],
            locks: HashMap::new(),
            cells: HashMap::new(),
            parking: HashMap::new(),
            next_obj: 0,
            steps: 0,
            failure: None,
            abort: false,
            ended: false,
            at_rest: true,
            frames: vec![],
            trace: if plan.trace { Some(vec![]) } else { None },
        }),
        cv: Condvar::new(),
        handles: Mutex::new(vec![]),
        args: plan.args,
        nframes: plan.frames,
        sut,
    });
    ME.with(|m| *m.borrow_mut() = Some((s.clone(), 0)));
    run(&s, 0, Box::new(program));
    {
        let mut g = s.inner.lock().unwrap();
        while !g.ended && !g.abort {
            g = s.cv.wait(g).unwrap();
        }
        s.cv.notify_all();
    }
    ME.with(|m| *m.borrow_mut() = None);
    loop {
        let h = s.handles.lock().unwrap().pop();
        match h {
            Some(h) => {
                let _ = h.join();
            }
            None => break,
        }
    }
    let mut g = s.inner.lock().unwrap();
    Outcome {
        frames: ::std::mem::take(&mut g.frames),
        failure: g.failure.take(),
        used_stale: g.used_stale,
        used_preempt: g.used_preempt,
        steps: g.steps,
        trace: g.trace.take().unwrap_or_default(),
    }
}
