//! A controlled scheduler and stateless explorer for multi-threaded Rust code whose locks and
//! fork/join primitives have been routed here (see ../shims).
//!
//! * Every virtual thread is a pooled OS thread; exactly one of them runs at a time (baton passing),
//!   so thread locals, panics and stacks behave as in production.
//! * Scheduling points: before every lock acquisition (a writer that finds readers has a second one
//!   while it waits for them to leave, during which it keeps new readers out, as parking_lot does),
//!   try-lock, condition wait, explicit `mark`, join, and thread end. Releases are left movers and
//!   need none.
//! * Threads that block in the standard library's own locks, condition variables or channels (which end
//!   in a futex call, see futex.rs) give the baton away as well. Those are no scheduling points as long
//!   as nobody has to wait, except where the code was compiled for it (atomics.rs).
//! * `explore` enumerates, depth first, all schedules with at most `bound` preemptions. States that
//!   were already expanded with at least as much remaining budget are recognised by a fingerprint of
//!   the happens-before relation (Musuvathi & Qadeer): two prefixes with the same happens-before
//!   relation lead to the same state.
use std::any::Any;
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

mod atomics;
mod futex;
mod native;
use futex::inside;

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = mix(self.0, x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0, x);
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = mix(self.0, x as u64);
    }
}
type FastMap<K, V> = HashMap<K, V, BuildHasherDefault<IdHasher>>;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = (a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(0xD1B5_4A32_D192_ED03);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

// ---------------------------------------------------------------------------------------------
// parking

/// Like `std::thread::park`, but apart from the token that the code under test may use itself.
struct Parker(AtomicU32);
impl Parker {
    const fn new() -> Self {
        Parker(AtomicU32::new(0))
    }
    fn park(&self) {
        while self.0.swap(0, AcqRel) == 0 {
            futex::kernel_wait(&self.0, 0);
        }
    }
    fn unpark(&self) {
        self.0.store(1, Release);
        futex::kernel_wake(&self.0);
    }
}

type Job = Box<dyn FnOnce() + Send + 'static>;
struct Worker {
    parker: Parker,
    job: Mutex<Option<(Job, usize)>>,
}

// ---------------------------------------------------------------------------------------------
// execution state

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pending {
    Running,
    Start,
    /// wants a shared lock
    Read(*const Lock),
    ReadRecursive(*const Lock),
    /// wants an exclusive lock (or an upgradable one)
    Write(*const Lock),
    /// holds the writer bit, waits for readers to leave
    Drain(*const Lock),
    /// always enabled
    Free,
    /// always enabled, but after some failures in a row others go first
    Try,
    Join(usize),
    Cond(*const CondState, u64),
    /// waits until the word at the address has another value, or for a wake-up
    Futex(*const AtomicU32, u32),
    Done,
}
unsafe impl Send for Pending {}

struct Vt {
    path: u64,
    last: u64,
    children: u64,
    pending: Pending,
    woken: bool,
    /// attempts that failed in a row
    fails: u32,
    /// atomics it read since it last did something else
    reads: atomics::Reads,
    /// lets the others go first, since it only repeats failing attempts
    yielding: bool,
    worker: Arc<Worker>,
    panic: Option<Box<dyn Any + Send>>,
    name: String,
    /// the depth of the pool whose task this is; 0 if it is none
    depth: u32,
}

#[derive(Clone, Debug)]
pub struct Point {
    chosen: u16,
    alts: Vec<u16>,
    used: u32,
    cur_enabled: bool,
}

#[derive(Default, Clone, Copy)]
struct Hist {
    w: u64,
    r: u64,
}

struct Exec {
    threads: Vec<Vt>,
    hist: FastMap<usize, Hist>,
    prefix: Vec<u16>,
    pos: usize,
    trail: Vec<Point>,
    used: u32,
    bound: u32,
    steps: u64,
    max_steps: u64,
    choices: u64,
    free_run: bool,
    explore: bool,
    cache: bool,
    outcome: Option<Outcome>,
    seen: FastMap<u64, u32>,
    num_threads: usize,
    divergence: bool,
    log: Option<Vec<String>>,
    /// threads started by the code under test
    native: Vec<(libc::pthread_t, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(u64),
    Fail(String),
    Deadlock(String),
    StepLimit,
}

struct Global {
    exec: Mutex<Option<Exec>>,
    free: Mutex<Vec<Arc<Worker>>>,
    main: Parker,
}
static GLOBAL: Global = Global {
    exec: Mutex::new(None),
    free: Mutex::new(Vec::new()),
    main: Parker::new(),
};

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static POOL: Cell<usize> = const { Cell::new(0) };
    /// how many pools the calling code is nested in
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// locks the calling virtual thread holds
    static HELD_LOCKS: Cell<u32> = const { Cell::new(0) };
}

pub fn controlled() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}
fn me() -> usize {
    ME.with(|m| m.get())
}

/// Number of worker threads the current thread pool pretends to have.
pub fn num_threads() -> usize {
    let p = POOL.with(|p| p.get());
    if p > 0 {
        return p;
    }
    if controlled() {
        let _inside = inside();
        GLOBAL.exec.lock().unwrap().as_ref().map_or(1, |e| e.num_threads)
    } else {
        UNCONTROLLED_THREADS.load(Relaxed)
    }
}
static UNCONTROLLED_THREADS: AtomicUsize = AtomicUsize::new(1);
/// How many workers the (sequentially simulated) pool claims outside controlled executions.
pub fn set_uncontrolled_threads(n: usize) {
    UNCONTROLLED_THREADS.store(n, Relaxed);
}
static UNCONTROLLED_REVERSE: AtomicBool = AtomicBool::new(false);
/// Outside controlled executions: run the second half of a fork before the first.
pub fn set_uncontrolled_reverse(on: bool) {
    UNCONTROLLED_REVERSE.store(on, Relaxed);
}
fn enter_pool<R>(n: usize, depth: u32, f: impl FnOnce() -> R) -> R {
    struct Reset(usize, u32);
    impl Drop for Reset {
        fn drop(&mut self) {
            POOL.with(|p| p.set(self.0));
            DEPTH.with(|d| d.set(self.1));
        }
    }
    let _r = Reset(POOL.with(|p| p.replace(n)), DEPTH.with(|d| d.replace(depth)));
    f()
}
pub fn with_pool<R>(n: usize, f: impl FnOnce() -> R) -> R {
    enter_pool(n, DEPTH.with(|d| d.get()) + 1, f)
}
/// Runs `f` in a pool of `n` workers. A worker of another pool that calls this may run other tasks of its own pool until
/// `f` is done. That is as if another worker had run them, unless the caller holds locks.
pub fn install<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    let depth = DEPTH.with(|d| d.get());
    if !controlled() || depth == 0 || HELD_LOCKS.with(|h| h.get()) == 0 {
        return with_pool(n, f);
    }
    let mut r = None;
    let t = unsafe {
        let r = &mut r;
        fork(Box::new(move || *r = Some(enter_pool(n, depth + 1, f))), "", 0)
    };
    run_others_until_done(t);
    if let Some(p) = join_thread(t) {
        resume_unwind(p);
    }
    r.unwrap()
}
/// The calling worker waits for `t` while it holds locks: it may run tasks of its pool that nobody has begun.
fn run_others_until_done(t: usize) {
    let depth = DEPTH.with(|d| d.get());
    if depth == 0 || HELD_LOCKS.with(|h| h.get()) == 0 {
        return;
    }
    loop {
        let (task, n);
        {
            let _inside = inside();
            let id = me();
            let mut g = GLOBAL.exec.lock().unwrap();
            let ex = g.as_mut().unwrap();
            let tasks: Vec<usize> = (0..ex.threads.len()).filter(|&i| i != t && ex.threads[i].depth == depth && ex.threads[i].pending == Pending::Start).collect();
            if tasks.is_empty() || ex.threads[t].pending == Pending::Done {
                return;
            }
            let k = ex.decide(id, 1 + tasks.len());
            if k == 0 {
                return;
            }
            n = tasks[k - 1];
            ex.threads[n].pending = Pending::Running;
            task = ex.threads[n].worker.job.lock().unwrap().take().expect("a task nobody has begun").0;
            GLOBAL.free.lock().unwrap().push(ex.threads[n].worker.clone());
        }
        let r = enter_pool(POOL.with(|p| p.get()), depth, || catch_unwind(AssertUnwindSafe(task)));
        let _inside = inside();
        let id = me();
        let mut g = GLOBAL.exec.lock().unwrap();
        let ex = g.as_mut().unwrap();
        ex.threads[n].last = mix(ex.threads[n].last, ex.threads[id].last);
        ex.threads[n].pending = Pending::Done;
        ex.threads[n].panic = r.err();
    }
}
pub fn in_pool() -> bool {
    POOL.with(|p| p.get()) > 0
}

fn worker_loop(w: Arc<Worker>) {
    loop {
        w.parker.park();
        let (job, id) = w.job.lock().unwrap().take().expect("woken without a job");
        ME.with(|m| m.set(id));
        POOL.with(|p| p.set(0));
        DEPTH.with(|d| d.set(0));
        HELD_LOCKS.with(|h| h.set(0));
        let r = catch_unwind(AssertUnwindSafe(job));
        finish(id, Some(&w), r.err());
    }
}

fn get_worker() -> Arc<Worker> {
    let _inside = inside();
    if let Some(w) = GLOBAL.free.lock().unwrap().pop() {
        return w;
    }
    let w = Arc::new(Worker { parker: Parker::new(), job: Mutex::new(None) });
    let w2 = w.clone();
    std::thread::Builder::new().stack_size(4 << 20).spawn(move || worker_loop(w2)).expect("spawn worker");
    w
}

impl Exec {
    fn enabled(&self, i: usize) -> bool {
        match self.threads[i].pending {
            Pending::Running => false,
            Pending::Start | Pending::Free | Pending::Try => true,
            Pending::Read(l) => unsafe { (*l).get() & W == 0 },
            Pending::ReadRecursive(l) => unsafe { (*l).get() & W == 0 || (*l).readers() > 0 && (*l).get() & HELD == 0 },
            Pending::Write(l) => unsafe { (*l).get() & (W | U) == 0 },
            Pending::Drain(l) => unsafe { (*l).readers() == 0 },
            Pending::Join(t) => self.threads[t].pending == Pending::Done,
            Pending::Cond(c, ticket) => unsafe { (*c).released.load(Relaxed) as u64 > ticket },
            Pending::Futex(a, expected) => self.threads[i].woken || unsafe { (*a).load(SeqCst) != expected },
            Pending::Done => false,
        }
    }

    fn key(&self, cur: Option<usize>) -> u64 {
        let mut k = 0u64;
        for t in &self.threads {
            let d = match t.pending {
                Pending::Done => 1,
                Pending::Running => 2,
                _ => 3,
            };
            k = k.wrapping_add(mix(mix(t.path, t.last), d));
        }
        mix(k, cur.map_or(7, |c| self.threads[c].path))
    }

    /// Picks the next thread to run. `cur` is the thread that held the baton (if it still lives).
    fn choose(&mut self, cur: Option<usize>) -> Option<usize> {
        let mut en: Vec<u16> = Vec::with_capacity(self.threads.len());
        let mut cur_enabled = cur.map_or(false, |c| self.enabled(c));
        if cur_enabled {
            en.push(cur.unwrap() as u16);
        }
        for i in 0..self.threads.len() {
            if Some(i) != cur && self.enabled(i) {
                en.push(i as u16);
            }
        }
        if en.is_empty() {
            return None;
        }
        if en.iter().any(|&i| self.threads[i as usize].yielding) {
            let others: Vec<u16> = en.iter().copied().filter(|&i| !self.threads[i as usize].yielding).collect();
            let after = |i: &u16| (*i as usize + self.threads.len() - cur.unwrap_or(0) - 1) % self.threads.len();
            en = if others.is_empty() { vec![*en.iter().min_by_key(|i| after(i)).unwrap()] } else { others };
            cur_enabled = cur_enabled && en[0] as usize == cur.unwrap();
        }
        self.steps += 1;
        if self.steps > self.max_steps {
            self.outcome = Some(Outcome::StepLimit);
            return None;
        }
        let chosen = if en.len() == 1 {
            en[0]
        } else {
            self.choices += 1;
            if self.pos < self.prefix.len() {
                let c = self.prefix[self.pos];
                self.pos += 1;
                let c = if en.contains(&c) {
                    c
                } else {
                    self.divergence = true;
                    en[0]
                };
                self.trail.push(Point { chosen: c, alts: vec![], used: self.used, cur_enabled });
                c
            } else {
                let mut alts = vec![];
                if self.explore && !self.free_run {
                    let remaining = self.bound - self.used;
                    let key = self.key(if cur_enabled { cur } else { None });
                    match self.seen.get(&key) {
                        Some(&r) if self.cache && r >= remaining => self.free_run = true,
                        _ => {
                            self.seen.insert(key, remaining);
                            if !cur_enabled || self.used < self.bound {
                                alts = en[1..].to_vec();
                            }
                        }
                    }
                }
                self.pos += 1;
                self.trail.push(Point { chosen: en[0], alts, used: self.used, cur_enabled });
                en[0]
            }
        };
        if cur_enabled && Some(chosen as usize) != cur {
            self.used += 1;
        }
        Some(chosen as usize)
    }

    /// One of `n` ways to go on within thread `cur`. Any but the first counts as a preemption.
    fn decide(&mut self, cur: usize, n: usize) -> usize {
        self.choices += 1;
        let chosen = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            self.divergence |= c as usize >= n;
            self.trail.push(Point { chosen: c, alts: vec![], used: self.used, cur_enabled: true });
            (c as usize).min(n - 1)
        } else {
            let mut alts = vec![];
            if self.explore && !self.free_run {
                let remaining = self.bound - self.used;
                let key = mix(self.key(Some(cur)), 0xDEC1DE);
                match self.seen.get(&key) {
                    Some(&r) if self.cache && r >= remaining => self.free_run = true,
                    _ => {
                        self.seen.insert(key, remaining);
                        if self.used < self.bound {
                            alts = (1..n as u16).collect();
                        }
                    }
                }
            }
            self.trail.push(Point { chosen: 0, alts, used: self.used, cur_enabled: true });
            0
        };
        self.pos += 1;
        self.used += (chosen > 0) as u32;
        let t = &mut self.threads[cur];
        t.last = mix(mix(t.last, 0xDEC1DE), chosen as u64);
        chosen
    }

    fn deadlock_message(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.pending != Pending::Done {
                let what = match t.pending {
                    Pending::Read(_) | Pending::ReadRecursive(_) => "waits for a shared lock",
                    Pending::Write(_) => "waits for an exclusive lock",
                    Pending::Drain(_) => "waits for readers to release a lock",
                    Pending::Join(_) => "waits for a forked task",
                    Pending::Cond(..) => "waits on a condition variable",
                    Pending::Futex(..) => "waits for a lock of the standard library",
                    Pending::Running => "is run by a worker that waits",
                    _ => "is stuck",
                };
                s.push_str(&format!("{} {}; ", if t.name.is_empty() { format!("thread {}", i) } else { t.name.clone() }, what));
            }
        }
        s
    }

    fn event(&mut self, t: usize, kind: u64, obj: usize, write: bool) {
        if let Some(log) = self.log.as_mut() {
            let k = ["", "read", "release-read", "write", "drain", "release-write", "downgrade", "try", "mark", "cond", "upgrade", "futex-wait", "futex-wake", "atomic-write", "atomic-read"][kind as usize];
            log.push(format!("t{} {} {:x}", t, k, obj & 0xffffff));
        }
        let h = self.hist.entry(obj).or_default();
        let th = &mut self.threads[t];
        let mut e = mix(mix(th.path, th.last), kind);
        e = mix(e, h.w);
        if write {
            e = mix(e, h.r);
            h.w = e;
            h.r = 0;
        } else {
            h.r = h.r.wrapping_add(e | 1);
        }
        th.last = e;
    }
}

/// Hands the baton over. Called with the exec lock held by the running thread `cur`.
fn dispatch(ex: &mut Exec, cur: Option<usize>) -> Option<(usize, Arc<Worker>)> {
    match ex.choose(cur) {
        Some(n) => {
            ex.threads[n].pending = Pending::Running;
            Some((n, ex.threads[n].worker.clone()))
        }
        None => {
            if ex.outcome.is_none() && ex.threads.iter().any(|t| t.pending != Pending::Done) {
                ex.outcome = Some(Outcome::Deadlock(ex.deadlock_message()));
            }
            None
        }
    }
}

/// Blocks the calling virtual thread until its pending operation is enabled and it is scheduled.
fn point(p: Pending) {
    let _inside = inside();
    let id = me();
    let (mine, next);
    {
        let mut g = GLOBAL.exec.lock().unwrap();
        let ex = g.as_mut().expect("controlled thread without execution");
        ex.threads[id].pending = p;
        if p == Pending::Try {
            ex.threads[id].yielding = ex.threads[id].fails >= MANY;
        } else {
            ex.threads[id].fails = 0;
            ex.threads[id].reads = Default::default();
            ex.threads.iter_mut().for_each(|t| t.yielding = false);
        }
        mine = ex.threads[id].worker.clone();
        next = dispatch(ex, Some(id));
    }
    match next {
        Some((n, _)) if n == id => {}
        Some((_, w)) => {
            w.parker.unpark();
            mine.parker.park();
        }
        None => {
            GLOBAL.main.unpark();
            // the execution is abandoned (deadlock or step limit): this thread never continues
            loop {
                mine.parker.park();
            }
        }
    }
}

/// So many failing attempts in a row are taken for waiting.
const MANY: u32 = 4;
/// Whether executions tell locked from unlocked without waiting: then the end of a locked section is a scheduling
/// point, too, since others may look at the lock while it is held.
static PEEKING: AtomicBool = AtomicBool::new(false);
static PEEKED: AtomicBool = AtomicBool::new(false);

/// Records the outcome of an attempt.
fn tried(ok: bool) {
    PEEKED.store(true, Relaxed);
    let _inside = inside();
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    let t = &mut g.as_mut().unwrap().threads[id];
    t.fails = if ok { 0 } else { t.fails + 1 };
}

/// The running thread has nothing to do until another one has gone on.
pub(crate) fn give_way() {
    {
        let _inside = inside();
        let id = me();
        let mut g = GLOBAL.exec.lock().unwrap();
        g.as_mut().unwrap().threads[id].fails = MANY;
    }
    point(Pending::Try);
}

fn finish(id: usize, w: Option<&Arc<Worker>>, panic: Option<Box<dyn Any + Send>>) {
    ME.with(|m| m.set(usize::MAX));
    let next;
    {
        let mut g = GLOBAL.exec.lock().unwrap();
        let ex = g.as_mut().unwrap();
        ex.threads[id].pending = Pending::Done;
        ex.threads[id].panic = panic;
        if let Some(w) = w {
            GLOBAL.free.lock().unwrap().push(w.clone());
        }
        next = dispatch(ex, None);
    }
    match next {
        Some((_, w)) => w.parker.unpark(),
        None => GLOBAL.main.unpark(),
    }
}

fn event(kind: u64, obj: usize, write: bool) {
    let _inside = inside();
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    g.as_mut().unwrap().event(id, kind, obj, write);
}

/// Starts a virtual thread.
///
/// # Safety
/// The caller must `join` it before anything the closure borrows goes away.
unsafe fn fork<'a>(f: Box<dyn FnOnce() + Send + 'a>, name: &str, depth: u32) -> usize {
    let _inside = inside();
    let job: Job = std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(f);
    let id = me();
    let w = get_worker();
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    let n = ex.threads.len();
    let parent = &mut ex.threads[id];
    parent.children += 1;
    let path = mix(mix(parent.path, 0xF0F0), parent.children);
    parent.last = mix(parent.last, 0x5707);
    let last = mix(parent.last, path);
    *w.job.lock().unwrap() = Some((job, n));
    ex.threads.push(Vt { path, last, children: 0, pending: Pending::Start, woken: false, fails: 0, reads: Default::default(), yielding: false, worker: w, panic: None, name: name.to_string(), depth });
    n
}

fn join_thread(t: usize) -> Option<Box<dyn Any + Send>> {
    let _inside = inside();
    point(Pending::Join(t));
    let id = me();
    let mut g = GLOBAL.exec.lock().unwrap();
    let ex = g.as_mut().unwrap();
    let child = ex.threads[t].last;
    let th = &mut ex.threads[id];
    th.last = mix(mix(th.last, 0x1013), child);
    ex.threads[t].panic.take()
}

/// Fork/join of two closures (rayon's `join`).
pub fn join2<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !controlled() {
        if UNCONTROLLED_REVERSE.load(Relaxed) {
            let rb = b();
            return (a(), rb);
        }
        let ra = a();
        return (ra, b());
    }
    let mut rb = None;
    let (pool, depth) = (POOL.with(|p| p.get()), DEPTH.with(|d| d.get()));
    let t = unsafe {
        let rb = &mut rb;
        fork(
            Box::new(move || {
                POOL.with(|p| p.set(pool));
                DEPTH.with(|d| d.set(depth));
                *rb = Some(b())
            }),
            "",
            depth,
        )
    };
    let ra = catch_unwind(AssertUnwindSafe(a));
    run_others_until_done(t);
    let pb = join_thread(t);
    match ra {
        Err(p) => resume_unwind(p),
        Ok(ra) => {
            if let Some(p) = pb {
                resume_unwind(p);
            }
            (ra, rb.take().unwrap())
        }
    }
}

/// Runs all closures as concurrent virtual threads (sequentially when uncontrolled).
pub fn run_all<'a>(fs: Vec<(String, Box<dyn FnOnce() + Send + 'a>)>) {
    if !controlled() {
        for (_, f) in fs {
            f();
        }
        return;
    }
    let (pool, depth) = (POOL.with(|p| p.get()), DEPTH.with(|d| d.get()));
    let ts: Vec<usize> = fs
        .into_iter()
        .map(|(n, f)| unsafe {
            fork(
                Box::new(move || {
                    POOL.with(|p| p.set(pool));
                    DEPTH.with(|d| d.set(depth));
                    f()
                }),
                &n,
                depth,
            )
        })
        .collect();
    let mut panic = None;
    for t in ts {
        run_others_until_done(t);
        if let Some(p) = join_thread(t) {
            panic.get_or_insert(p);
        }
    }
    if let Some(p) = panic {
        resume_unwind(p);
    }
}

static MARKS: [u8; 16] = [0; 16];
/// A scheduling point and an event that is ordered against all other marks on the same channel.
pub fn mark(channel: usize) {
    if controlled() {
        point(Pending::Free);
        event(8, &MARKS[channel] as *const u8 as usize, true);
    }
}

static STEPS: AtomicBool = AtomicBool::new(false);
/// A step of the code under test that is not ordered against anything. With `Config::fine` it is a scheduling point, so that
/// what goes on between two of them may be interrupted whether or not a lock protects it.
pub fn step() {
    if STEPS.load(Relaxed) && controlled() && !futex::is_inside() {
        point(Pending::Free);
        let _inside = inside();
        let id = me();
        let mut g = GLOBAL.exec.lock().unwrap();
        let t = &mut g.as_mut().unwrap().threads[id];
        t.last = mix(t.last, 0x57E9);
    }
}

/// Total number of scheduling steps so far in this execution (a logical clock).
pub fn clock() -> u64 {
    if controlled() {
        let _inside = inside();
        GLOBAL.exec.lock().unwrap().as_ref().unwrap().steps
    } else {
        0
    }
}

// ---------------------------------------------------------------------------------------------
// locks

const W: usize = 1; // writer bit: a writer holds the lock or is draining readers
const U: usize = 2; // an upgradable reader holds the lock
const HELD: usize = 4; // a writer really holds the lock
const ONE: usize = 8;

#[repr(transparent)]
pub struct Lock(AtomicUsize);

fn stuck() -> ! {
    panic!("deadlock: lock is not available and no other thread can release it")
}

impl Lock {
    pub const fn new() -> Self {
        Lock(AtomicUsize::new(0))
    }
    fn get(&self) -> usize {
        self.0.load(Relaxed)
    }
    fn set(&self, v: usize) {
        self.0.store(v, Relaxed)
    }
    fn readers(&self) -> usize {
        self.get() / ONE
    }
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    #[inline(never)]
    pub fn is_locked(&self) -> bool {
        PEEKED.store(true, Relaxed);
        self.get() != 0
    }
    fn held(change: i32) {
        HELD_LOCKS.with(|h| h.set(h.get().wrapping_add(change as u32)));
    }
    fn ev(&self, kind: u64, write: bool) {
        if controlled() {
            event(kind, self.addr(), write);
        }
    }

    fn about_to_release(&self) {
        if PEEKING.load(Relaxed) && controlled() {
            point(Pending::Free);
        }
    }

    #[inline(never)]
    pub fn lock_shared(&self, recursive: bool) {
        if controlled() {
            point(if recursive { Pending::ReadRecursive(self) } else { Pending::Read(self) });
            self.ev(1, false);
        } else if self.get() & W != 0 {
            stuck();
        }
        Self::held(1);
        self.set(self.get() + ONE);
    }
    #[inline(never)]
    pub fn try_lock_shared(&self, recursive: bool) -> bool {
        if controlled() {
            point(Pending::Try);
            self.ev(7, true);
        }
        let ok = self.get() & W == 0 || recursive && self.get() & HELD == 0 && self.readers() > 0;
        if ok {
            Self::held(1);
            self.set(self.get() + ONE);
        }
        if controlled() {
            tried(ok);
        }
        ok
    }
    #[inline(never)]
    pub fn unlock_shared(&self) {
        self.about_to_release();
        self.ev(2, false);
        debug_assert!(self.readers() > 0);
        Self::held(-1);
        self.set(self.get() - ONE);
    }
    #[inline(never)]
    pub fn lock_exclusive(&self) {
        if controlled() {
            point(Pending::Write(self));
            self.ev(3, true);
        } else if self.get() != 0 {
            stuck();
        }
        self.set(self.get() | W);
        Self::held(1);
        self.drain();
    }
    fn drain(&self) {
        if self.readers() > 0 {
            if !controlled() {
                stuck();
            }
            point(Pending::Drain(self));
            self.ev(4, true);
        }
        self.set(self.get() | HELD);
    }
    #[inline(never)]
    pub fn try_lock_exclusive(&self) -> bool {
        if controlled() {
            point(Pending::Try);
            self.ev(7, true);
        }
        let ok = self.get() == 0;
        if ok {
            Self::held(1);
            self.set(W | HELD);
        }
        if controlled() {
            tried(ok);
        }
        ok
    }
    #[inline(never)]
    pub fn unlock_exclusive(&self) {
        self.about_to_release();
        self.ev(5, true);
        debug_assert!(self.get() & HELD != 0);
        Self::held(-1);
        self.set(self.get() & !(W | HELD));
    }
    #[inline(never)]
    pub fn downgrade(&self) {
        self.about_to_release();
        self.ev(6, true);
        self.set(ONE);
    }
    #[inline(never)]
    pub fn lock_upgradable(&self) {
        if controlled() {
            point(Pending::Write(self));
            self.ev(3, true);
        } else if self.get() & (W | U) != 0 {
            stuck();
        }
        Self::held(1);
        self.set((self.get() | U) + ONE);
    }
    #[inline(never)]
    pub fn try_lock_upgradable(&self) -> bool {
        if controlled() {
            point(Pending::Try);
            self.ev(7, true);
        }
        let ok = self.get() & (W | U) == 0;
        if ok {
            Self::held(1);
            self.set((self.get() | U) + ONE);
        }
        if controlled() {
            tried(ok);
        }
        ok
    }
    #[inline(never)]
    pub fn unlock_upgradable(&self) {
        self.about_to_release();
        self.ev(5, true);
        Self::held(-1);
        self.set((self.get() & !U) - ONE);
    }
    #[inline(never)]
    pub fn upgrade(&self) {
        if controlled() {
            point(Pending::Free);
            self.ev(10, true);
        }
        self.set(((self.get() & !U) - ONE) | W);
        self.drain();
    }
    #[inline(never)]
    pub fn try_upgrade(&self) -> bool {
        if controlled() {
            point(Pending::Try);
            self.ev(7, true);
        }
        let ok = self.get() == (U | ONE);
        if ok {
            self.set(W | HELD);
        }
        if controlled() {
            tried(ok);
        }
        ok
    }
    #[inline(never)]
    pub fn downgrade_upgradable(&self) {
        self.about_to_release();
        self.ev(6, true);
        self.set(self.get() & !U);
    }
    #[inline(never)]
    pub fn downgrade_to_upgradable(&self) {
        self.about_to_release();
        self.ev(6, true);
        self.set(U | ONE);
    }
}

pub struct CondState {
    tickets: AtomicUsize,
    released: AtomicUsize,
}
impl CondState {
    pub const fn new() -> Self {
        CondState { tickets: AtomicUsize::new(0), released: AtomicUsize::new(0) }
    }
    /// Waits for a notification; `mutex` is released meanwhile.
    #[inline(never)]
    pub fn wait(&self, mutex: &Lock) {
        if !controlled() {
            stuck();
        }
        event(9, self as *const _ as usize, true);
        let t = self.tickets.fetch_add(1, Relaxed) as u64;
        mutex.unlock_exclusive();
        point(Pending::Cond(self, t));
        event(9, self as *const _ as usize, true);
        mutex.lock_exclusive();
    }
    #[inline(never)]
    pub fn notify(&self, all: bool) -> usize {
        if controlled() {
            event(9, self as *const _ as usize, true);
        }
        let waiting = self.tickets.load(Relaxed) - self.released.load(Relaxed);
        let n = if all { waiting } else { waiting.min(1) };
        self.released.fetch_add(n, Relaxed);
        n
    }
}

/// A mutex of the harness: what is done with it is not part of the execution. It must not be held at a scheduling point.
#[derive(Default)]
pub struct Aside<T>(Mutex<T>);
pub struct AsideGuard<'a, T>(std::sync::MutexGuard<'a, T>, #[allow(dead_code)] futex::Inside);
impl<T> Aside<T> {
    pub const fn new(v: T) -> Self {
        Aside(Mutex::new(v))
    }
    pub fn lock(&self) -> AsideGuard<'_, T> {
        let i = inside();
        AsideGuard(self.0.lock().unwrap_or_else(|p| p.into_inner()), i)
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner().unwrap_or_else(|p| p.into_inner())
    }
}
impl<T> std::ops::Deref for AsideGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> std::ops::DerefMut for AsideGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

// ---------------------------------------------------------------------------------------------
// explorer

#[derive(Clone, Debug)]
pub struct Config {
    /// maximal number of preemptions
    pub bound: u32,
    /// what `rayon::current_num_threads` reports
    pub num_threads: usize,
    pub max_steps: u64,
    pub max_execs: u64,
    pub time_limit: std::time::Duration,
    /// recognise states by happens-before fingerprint
    pub cache: bool,
    /// `step` is a scheduling point
    pub fine: bool,
}
impl Default for Config {
    fn default() -> Self {
        Config {
            bound: 2,
            num_threads: 2,
            max_steps: 200_000,
            max_execs: u64::MAX,
            time_limit: std::time::Duration::from_secs(3600),
            cache: true,
            fine: false,
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Report {
    pub execs: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_points: usize,
    pub max_threads: usize,
    pub outcomes: std::collections::BTreeMap<u64, u64>,
    pub complete: bool,
    pub replays: u64,
    /// schedule and message of the first failing execution
    pub violation: Option<(Vec<u16>, String)>,
    /// the harness does not control all nondeterminism
    pub divergence: bool,
}

pub type Body<'a> = dyn Fn() -> Result<u64, String> + Sync + 'a;

struct Run {
    outcome: Outcome,
    trail: Vec<Point>,
    steps: u64,
    pruned: bool,
    divergence: bool,
    threads: usize,
    log: Vec<String>,
}

/// Text of the panic payload.
pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

fn run_one(cfg: &Config, prefix: Vec<u16>, explore: bool, log: bool, seen: &mut FastMap<u64, u32>, body: &Body) -> Run {
    assert!(!controlled());
    STEPS.store(cfg.fine, Relaxed);
    if let Some(f) = *HEARTBEAT.lock().unwrap() {
        f();
    }
    let mut result: Option<Result<u64, String>> = None;
    let w = get_worker();
    let start;
    {
        let mut g = GLOBAL.exec.lock().unwrap();
        let job: Box<dyn FnOnce() + Send + '_> = {
            struct P<T>(*mut T);
            unsafe impl<T> Send for P<T> {}
            let r = P(&mut result as *mut _);
            Box::new(move || {
                let r = r;
                let v = body();
                unsafe { *r.0 = Some(v) };
            })
        };
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
        *w.job.lock().unwrap() = Some((job, 0));
        let mut ex = Exec {
            threads: vec![Vt { path: 1, last: 1, children: 0, pending: Pending::Start, woken: false, fails: 0, reads: Default::default(), yielding: false, worker: w, panic: None, name: String::new(), depth: 0 }],
            hist: Default::default(),
            prefix,
            pos: 0,
            trail: Vec::new(),
            used: 0,
            bound: cfg.bound,
            steps: 0,
            max_steps: cfg.max_steps,
            choices: 0,
            free_run: false,
            explore,
            cache: cfg.cache,
            outcome: None,
            seen: std::mem::take(seen),
            num_threads: cfg.num_threads,
            divergence: false,
            log: if log { Some(vec![]) } else { None },
            native: vec![],
        };
        start = dispatch(&mut ex, None);
        *g = Some(ex);
    }
    start.unwrap().1.parker.unpark();
    GLOBAL.main.park();
    let mut ex = GLOBAL.exec.lock().unwrap().take().unwrap();
    *seen = std::mem::take(&mut ex.seen);
    let outcome = match ex.outcome.take() {
        Some(o) => {
            // abandoned threads still reference this execution's data: leak it
            let o2 = o.clone();
            std::mem::forget(std::mem::take(&mut ex.threads));
            std::mem::forget(o);
            o2
        }
        None => match ex.threads[0].panic.take() {
            Some(p) => Outcome::Fail(format!("panic: {}", panic_text(&*p))),
            None => match result.take().expect("no result") {
                Ok(v) => Outcome::Ok(v),
                Err(e) => Outcome::Fail(e),
            },
        },
    };
    Run {
        outcome,
        steps: ex.steps,
        pruned: ex.free_run,
        divergence: ex.divergence,
        threads: ex.threads.len(),
        trail: ex.trail,
        log: ex.log.unwrap_or_default(),
    }
}

pub fn replay(cfg: &Config, schedule: &[u16], body: &Body) -> (Outcome, Vec<String>) {
    let mut seen = Default::default();
    PEEKED.store(false, Relaxed);
    let mut r = run_one(cfg, schedule.to_vec(), false, true, &mut seen, body);
    if PEEKED.load(Relaxed) && !PEEKING.swap(true, Relaxed) {
        r = run_one(cfg, schedule.to_vec(), false, true, &mut seen, body);
    }
    if r.divergence && atomics::used() {
        return atomics::without(|| replay(cfg, schedule, body));
    }
    (r.outcome, r.log)
}

/// Explores all schedules with at most `cfg.bound` preemptions.
pub fn explore(cfg: &Config, body: &Body) -> Report {
    let t0 = std::time::Instant::now();
    // what the standard library sets up at the first start of a thread is there from the first execution on
    std::thread::scope(|s| s.spawn(|| {}).join().unwrap());
    let mut rep = Report { complete: true, ..Default::default() };
    let mut seen: FastMap<u64, u32> = Default::default();
    let mut prefix: Vec<u16> = vec![];
    let mut stack: Vec<Point> = vec![];
    loop {
        let run = run_one(cfg, prefix.clone(), true, false, &mut seen, body);
        if PEEKED.load(Relaxed) && !PEEKING.swap(true, Relaxed) {
            // there are more scheduling points than was known: start anew
            rep = Report { complete: true, ..Default::default() };
            seen.clear();
            stack.clear();
            prefix.clear();
            continue;
        }
        rep.execs += 1;
        rep.transitions += run.steps;
        rep.pruned += run.pruned as u64;
        rep.max_points = rep.max_points.max(run.trail.len());
        rep.max_threads = rep.max_threads.max(run.threads);
        rep.divergence |= run.divergence;
        let schedule: Vec<u16> = run.trail.iter().map(|p| p.chosen).collect();
        match &run.outcome {
            Outcome::Ok(v) => {
                *rep.outcomes.entry(*v).or_default() += 1;
                if rep.execs % 61 == 1 {
                    // determinism: the same schedule must give the same observation
                    let r2 = run_one(cfg, schedule.clone(), false, false, &mut Default::default(), body);
                    rep.replays += 1;
                    let s2: Vec<u16> = r2.trail.iter().map(|p| p.chosen).collect();
                    if r2.outcome != run.outcome || s2 != schedule {
                        rep.divergence = true;
                    }
                }
            }
            other => {
                let msg = match other {
                    Outcome::Fail(m) => m.clone(),
                    Outcome::Deadlock(m) => format!("deadlock: {}", m),
                    Outcome::StepLimit => format!("no termination within {} scheduling steps", cfg.max_steps),
                    Outcome::Ok(_) => unreachable!(),
                };
                rep.violation = Some((schedule, msg));
                rep.complete = false;
                break;
            }
        }
        if rep.divergence && atomics::used() {
            // something beneath the code under test does not behave the same each time: without its atomics
            return atomics::without(|| explore(cfg, body));
        }
        // backtrack: prefix points keep their untried alternatives in `stack`
        let known = stack.len();
        stack.extend(run.trail.into_iter().skip(known));
        let mut more = false;
        while let Some(mut p) = stack.pop() {
            if let Some(a) = p.alts.pop() {
                p.chosen = a;
                stack.push(p);
                more = true;
                break;
            }
        }
        if !more {
            break;
        }
        if rep.execs >= cfg.max_execs || t0.elapsed() > cfg.time_limit {
            rep.complete = false;
            break;
        }
        prefix = stack.iter().map(|p| p.chosen).collect();
    }
    rep.states = seen.len() as u64;
    rep
}

static HEARTBEAT: Mutex<Option<fn()>> = Mutex::new(None);
/// Called before every execution.
pub fn set_heartbeat(f: fn()) {
    *HEARTBEAT.lock().unwrap() = Some(f);
}
