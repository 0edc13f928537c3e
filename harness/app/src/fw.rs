//! Jobs, worker processes, crash isolation, evidence.
use crate::checks;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

pub type Res = Result<(), String>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: usize,
    pub case: u64,
    pub desc: String,
    pub msg: String,
    pub extra: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub capped: Vec<String>,
}

pub struct Ctx {
    pub tier: Tier,
    pub job: usize,
    only: Option<u64>,
    idx: u64,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    known: Vec<Finding>,
    pub known_hits: BTreeMap<String, u64>,
    pub extra: String,
    /// replayed schedule, if any
    pub schedule: Option<Vec<u16>>,
    stop: bool,
}

#[derive(Clone)]
pub struct Finding {
    pub id: String,
    pub desc: String,
    pub msg: String,
    pub what: String,
}

static mut PROGRESS: *mut AtomicU64 = std::ptr::null_mut();
/// Tells the parent that work is still going on.
pub fn beat() {
    unsafe {
        if !PROGRESS.is_null() {
            (*PROGRESS.add(2)).fetch_add(1, Relaxed);
        }
    }
}
fn progress(i: usize, v: u64) {
    unsafe {
        if !PROGRESS.is_null() {
            (*PROGRESS.add(i)).store(v, Relaxed);
        }
    }
}

static LAST_PANIC: mcsched::Aside<String> = mcsched::Aside::new(String::new());
pub fn last_panic() -> String {
    LAST_PANIC.lock().clone()
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = mcsched::panic_text(p);
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock() = format!("{} ({})", m, l);
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()))
}

impl Ctx {
    fn new(tier: Tier, job: usize, only: Option<u64>, known: Vec<Finding>) -> Self {
        Ctx {
            tier,
            job,
            only,
            idx: 0,
            stats: Stats::default(),
            violations: vec![],
            known,
            known_hits: BTreeMap::new(),
            extra: String::new(),
            schedule: None,
            stop: false,
        }
    }
    /// Whether the next case would run (to skip costly preparation while replaying).
    pub fn wanted(&self) -> bool {
        !self.stop && self.only.map_or(true, |o| o == self.idx + 1)
    }
    pub fn stopped(&self) -> bool {
        self.stop
    }
    /// One enumerated case: `body` checks it; an error or a panic is a violation.
    pub fn case(&mut self, desc: impl FnOnce() -> String, body: impl FnOnce(&mut Ctx) -> Res) {
        self.idx += 1;
        if self.stop || self.only.map_or(false, |o| o != self.idx) {
            return;
        }
        progress(1, self.idx);
        let idx = self.idx;
        let mut text = None;
        let mut desc = Some(desc);
        if self.only.is_some() {
            // announced beforehand, in case the process dies
            let d = desc.take().unwrap()();
            eprintln!("CASE {}", d);
            text = Some(d);
        }
        self.stats.evals += 1;
        self.extra.clear();
        let r = match catch_unwind(AssertUnwindSafe(|| body(self))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", last_panic())),
        };
        let sample = self.stats.samples.len() < 2 || self.stats.samples.len() < 6 && idx.is_power_of_two() && idx > 32;
        if r.is_err() || sample {
            let d = match text {
                Some(d) => d,
                None => desc.take().unwrap()(),
            };
            if let Err(msg) = r {
                if let Some(k) = self.known.iter().find(|k| d == k.desc && msg.contains(&k.msg)) {
                    *self.known_hits.entry(k.id.clone()).or_default() += 1;
                } else {
                    self.violations.push(Violation { job: self.job, case: idx, desc: d, msg, extra: std::mem::take(&mut self.extra) });
                    if self.violations.len() >= 3 {
                        self.stop = true;
                    }
                }
            } else {
                self.stats.samples.push(d);
            }
        }
    }
    /// Counts a distinct, non-trivial case.
    pub fn distinct(&mut self, h: u64) {
        self.stats.distinct.insert(h);
    }
    pub fn nontrivial(&mut self) {
        self.stats.nontrivial += 1;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.stats.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.stats.counters.entry(format!("max_{}", k)).or_default();
        *e = (*e).max(n);
    }

    /// Explores all schedules of `body` and records the outcome.
    pub fn explore(&mut self, cfg: &mcsched::Config, body: &mcsched::Body) -> Res {
        if let Some(s) = self.schedule.clone() {
            let (o, log) = mcsched::replay(cfg, &s, body);
            for l in log {
                eprintln!("  {}", l);
            }
            return match o {
                mcsched::Outcome::Ok(_) => Ok(()),
                o => Err(format!("{:?} {}", o, last_panic())),
            };
        }
        let rep = mcsched::explore(cfg, body);
        self.stats.traces += rep.execs;
        self.stats.states += rep.states;
        self.stats.transitions += rep.transitions;
        self.count("executions", rep.execs);
        self.count("executions_ending_in_a_known_state", rep.pruned);
        self.count("schedules_replayed_for_determinism", rep.replays);
        self.count("distinct_observed_outcomes", rep.outcomes.len() as u64);
        self.max("scheduling_choices_per_execution", rep.max_points as u64);
        self.max("virtual_threads", rep.max_threads as u64);
        if rep.divergence {
            return Err("HARNESS: uncontrolled nondeterminism".to_string());
        }
        if !rep.complete && rep.violation.is_none() {
            self.stats.capped.push(format!("bound {} stopped after {} executions", cfg.bound, rep.execs));
        }
        if let Some((s, m)) = rep.violation {
            self.extra = json!({ "schedule": s, "bound": cfg.bound }).to_string();
            let p = if m.starts_with("panic") { last_panic() } else { String::new() };
            return Err(format!("{} {}", m, p));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// known findings

fn verif_root() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()))
}
fn load_known(check: &str) -> Vec<Finding> {
    let p = verif_root().join("known_findings.json");
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["open"]
        .as_array()
        .unwrap_or(&vec![])
        .iter()
        .filter(|f| f["property"] == check)
        .map(|f| Finding {
            id: f["id"].as_str().unwrap().to_string(),
            desc: f["case"].as_str().unwrap().to_string(),
            msg: f["message_contains"].as_str().unwrap_or("").to_string(),
            what: f["what"].as_str().unwrap().to_string(),
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// worker side

fn limit_memory() {
    unsafe {
        set_address_space(3500 << 20);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}
fn set_address_space(n: u64) -> u64 {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        let old = l.rlim_cur;
        l.rlim_cur = n.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        old
    }
}
/// Runs `f`, which maps large sparse files.
pub fn with_large_maps<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(u64);
    impl Drop for Reset {
        fn drop(&mut self) {
            set_address_space(self.0);
        }
    }
    let _r = Reset(set_address_space(400 << 30));
    f()
}
fn pin(i: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.len() < 2 {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
fn map_progress(path: &str) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        PROGRESS = p as *mut AtomicU64;
    }
}

pub fn worker(args: &[String]) -> i32 {
    let (check, tier, slot, idx) = (&args[0], Tier::parse(&args[1]), &args[2], args[3].parse::<usize>().unwrap());
    limit_memory();
    pin(idx);
    map_progress(slot);
    mcsched::set_heartbeat(beat);
    // protocol on a private descriptor; whatever the code under test prints goes nowhere
    let out = unsafe {
        let out = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        out
    };
    let mut out = unsafe { std::fs::File::from_raw_fd(out) };
    install_panic_hook();
    let known = load_known(check);
    let c = checks::find(check);
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let job: usize = line.trim().parse().unwrap();
        progress(0, job as u64);
        progress(1, 0);
        let mut ctx = Ctx::new(tier, job, None, known.clone());
        (c.run)(&mut ctx);
        let v = json!({
            "job": job, "evals": ctx.stats.evals, "states": ctx.stats.states, "transitions": ctx.stats.transitions,
            "traces": ctx.stats.traces, "counters": ctx.stats.counters, "samples": ctx.stats.samples,
            "distinct": ctx.stats.distinct.len() as u64 + ctx.stats.nontrivial, "capped": ctx.stats.capped,
            "known": ctx.known_hits,
            "violations": ctx.violations.iter().map(|v| json!({"job": v.job, "case": v.case, "desc": v.desc, "msg": v.msg, "extra": v.extra})).collect::<Vec<_>>(),
        });
        let mut s = v.to_string();
        s.push('\n');
        if out.write_all(s.as_bytes()).is_err() {
            return 3;
        }
    }
    0
}

/// vh case CHECK TIER JOB CASE: runs one case in this process; exit 0 = holds, 1 = violated.
pub fn single_case(args: &[String]) -> i32 {
    let (check, tier, job, case) = (&args[0], Tier::parse(&args[1]), args[2].parse().unwrap(), args[3].parse::<u64>().unwrap());
    limit_memory();
    pin(0);
    install_panic_hook();
    let c = checks::find(check);
    let only = if case == 0 { None } else { Some(case) };
    if let Ok(slot) = std::env::var("VH_SLOT") {
        map_progress(&slot);
        mcsched::set_heartbeat(beat);
    }
    let mut ctx = Ctx::new(tier, job, only, load_known(check));
    if let Ok(s) = std::env::var("VH_SCHEDULE") {
        ctx.schedule = serde_json::from_str::<Vec<u16>>(&s).ok();
    }
    if catch_unwind(AssertUnwindSafe(|| (c.run)(&mut ctx))).is_err() {
        eprintln!("panic outside a case: {}", last_panic());
        return 101;
    }
    for v in &ctx.violations {
        println!("violated: {} -- {}", v.desc, v.msg);
        println!("EXTRA {}", v.extra);
    }
    if ctx.violations.is_empty() {
        println!("holds ({} cases)", ctx.stats.evals);
        0
    } else {
        1
    }
}

/// vh desc: description of one case without running it is not possible in general; the case is described
/// by its coordinates.
pub fn replay_file(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    println!("case: {}", v["description"].as_str().unwrap_or(""));
    println!("recorded: {}", v["message"].as_str().unwrap_or(""));
    if let Some(s) = v["schedule"].as_array() {
        std::env::set_var("VH_SCHEDULE", Value::Array(s.clone()).to_string());
    }
    single_case(&[
        v["check"].as_str().unwrap().to_string(),
        v["tier"].as_str().unwrap().to_string(),
        v["job"].to_string(),
        v["case"].to_string(),
    ])
}

// ---------------------------------------------------------------------------------------------
// parent side

struct W {
    child: Child,
    slot: std::path::PathBuf,
    map: *mut AtomicU64,
    job: Option<usize>,
    last: (u64, u64, u64),
    since: Instant,
    cpu: Duration,
    rx: std::sync::mpsc::Receiver<Option<String>>,
}
impl W {
    fn spawn(check: &str, tier: Tier, dir: &std::path::Path, idx: usize) -> W {
        let slot = dir.join(format!("slot-{}", idx));
        let map = open_slot(&slot);
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", check, tier.name()])
            .arg(&slot)
            .arg(idx.to_string())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("VH_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        let (tx, rx) = std::sync::mpsc::channel();
        let so = child.stdout.take().unwrap();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                let Ok(l) = l else { break };
                if tx.send(Some(l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(None);
        });
        W { child, slot, map, job: None, last: (0, 0, 0), since: Instant::now(), cpu: Duration::ZERO, rx }
    }
    fn pos(&self) -> (u64, u64, u64) {
        slot_pos(self.map)
    }
    fn cpu_time(&self) -> Duration {
        cpu_time(self.child.id())
    }
    fn give(&mut self, job: usize) {
        self.job = Some(job);
        self.since = Instant::now();
        self.cpu = self.cpu_time();
        let _ = writeln!(self.child.stdin.as_mut().unwrap(), "{}", job);
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = &self.slot;
    }
}

enum Iso {
    Holds,
    Fails(String, String),
    Dies(String),
    Hangs,
}
/// A shared page in which a process records how far it is.
fn open_slot(slot: &std::path::Path) -> *mut AtomicU64 {
    std::fs::write(slot, vec![0u8; 4096]).unwrap();
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(slot).unwrap();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut AtomicU64
    }
}
fn slot_pos(map: *mut AtomicU64) -> (u64, u64, u64) {
    unsafe { ((*map).load(Relaxed), (*map.add(1)).load(Relaxed), (*map.add(2)).load(Relaxed)) }
}

/// Runs one case (or with case 0 a whole job) in a fresh process, which hangs if it shows no progress
/// (no execution completed, no case begun) for `limit`.
/// Processor time used so far by a process of ours.
fn cpu_time(pid: u32) -> Duration {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    Duration::from_millis((t(11) + t(12)) * 10)
}
/// No progress for so long that the process is blocked or runs forever, and is not merely short of processor time.
fn hangs(since: Instant, cpu: Duration, limit: Duration) -> bool {
    let t = since.elapsed();
    t > limit && (cpu < Duration::from_secs(2) || cpu > limit / 2 || t > 3 * limit)
}

fn isolate(dir: &std::path::Path, check: &str, tier: Tier, job: u64, case: u64, limit: Duration) -> Iso {
    let slot = dir.join("slot-isolated");
    let map = open_slot(&slot);
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["case", check, tier.name(), &job.to_string(), &case.to_string()])
        .env("VH_SLOT", &slot)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn");
    let so = c.stdout.take().unwrap();
    let se = c.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut BufReader::new(so), &mut s);
        s
    });
    let h2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut BufReader::new(se), &mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut since = Instant::now();
    let mut last = slot_pos(map);
    let mut cpu = Duration::ZERO;
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        let p = slot_pos(map);
        if p != last {
            last = p;
            since = Instant::now();
            cpu = cpu_time(c.id());
        }
        if since.elapsed() > limit && hangs(since, cpu_time(c.id()).saturating_sub(cpu), limit) {
            let _ = c.kill();
            let _ = c.wait();
            return Iso::Hangs;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let out = h.join().unwrap();
    let err = h2.join().unwrap();
    match st.code() {
        Some(0) => Iso::Holds,
        Some(1) => {
            let m = out.lines().find(|l| l.starts_with("violated: ")).unwrap_or("violated").to_string();
            let e = out.lines().find_map(|l| l.strip_prefix("EXTRA ")).unwrap_or("").to_string();
            Iso::Fails(m, e)
        }
        _ => {
            let tail: Vec<&str> = err.lines().rev().filter(|l| !l.starts_with("CASE ")).take(3).collect();
            let case = err.lines().find_map(|l| l.strip_prefix("CASE ")).unwrap_or("");
            Iso::Dies(format!("{} {} -- {}", st, tail.into_iter().rev().collect::<Vec<_>>().join(" | "), case))
        }
    }
}

/// Where files are made: below the directory of the run, in memory when there is room.
pub fn scratch_base() -> std::path::PathBuf {
    if let Some(d) = std::env::var_os("VH_SCRATCH") {
        return d.into();
    }
    let shm = std::path::Path::new("/dev/shm");
    let mut st: libc::statvfs = unsafe { std::mem::zeroed() };
    let ok = unsafe { libc::statvfs(b"/dev/shm\0".as_ptr().cast(), &mut st) } == 0 && st.f_bavail as u64 * st.f_frsize as u64 >= 4 << 30;
    let probe = shm.join(format!("vh-probe-{}", std::process::id()));
    if ok && std::fs::write(&probe, b"x").is_ok() && std::fs::remove_file(&probe).is_ok() {
        return shm.into();
    }
    std::env::temp_dir()
}

pub fn parent(args: &[String]) -> i32 {
    let (check, tier) = (args[0].clone(), Tier::parse(&args[1]));
    let out = &args[2];
    let replay_dir = std::path::PathBuf::from(&args[3]);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let profile = std::env::var("VH_PROFILE").unwrap_or_else(|_| "release".into());
    let t0 = Instant::now();
    let c = checks::find(&check);
    let known = load_known(&check);
    let njobs = (c.jobs)(tier);
    let dir = scratch_base().join(format!("vh-{}-{}", check, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("VH_SCRATCH", &dir);
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let nw = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(ncpu).min(njobs).max(1);
    let mut workers: Vec<W> = (0..nw).map(|i| W::spawn(&check, tier, &dir, i)).collect();
    let mut next = 0;
    let mut done = 0;
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut capped: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<Violation> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut retried: HashSet<usize> = HashSet::new();
    let mut max_gap = Duration::ZERO;
    let hang_limit = Duration::from_secs(if tier.thorough() { 120 } else { 50 });
    for w in workers.iter_mut() {
        if next < njobs {
            w.give(next);
            next += 1;
        }
    }
    while done < njobs && violations.is_empty() && errors.is_empty() {
        let mut idle = true;
        for i in 0..workers.len() {
            let Some(job) = workers[i].job else { continue };
            if !violations.is_empty() {
                break;
            }
            let msg = workers[i].rx.try_recv();
            match msg {
                Ok(Some(line)) => {
                    idle = false;
                    let v: Value = match serde_json::from_str(&line) {
                        Ok(v) => v,
                        Err(e) => {
                            errors.push(format!("bad worker reply: {} {}", e, line));
                            continue;
                        }
                    };
                    for k in ["evals", "states", "transitions", "traces", "distinct"] {
                        *tot.entry(k.into()).or_default() += v[k].as_u64().unwrap_or(0);
                    }
                    for (k, n) in v["counters"].as_object().unwrap() {
                        let e = counters.entry(k.clone()).or_default();
                        let n = n.as_u64().unwrap();
                        *e = if k.starts_with("max_") { (*e).max(n) } else { *e + n };
                    }
                    for (k, n) in v["known"].as_object().unwrap() {
                        *known_hits.entry(k.clone()).or_default() += n.as_u64().unwrap();
                    }
                    if samples.len() < 12 {
                        samples.extend(v["samples"].as_array().unwrap().iter().rev().take(2).map(|s| s.as_str().unwrap().to_string()));
                    }
                    capped.extend(v["capped"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()));
                    for x in v["violations"].as_array().unwrap() {
                        violations.push(Violation {
                            job: x["job"].as_u64().unwrap() as usize,
                            case: x["case"].as_u64().unwrap(),
                            desc: x["desc"].as_str().unwrap().into(),
                            msg: x["msg"].as_str().unwrap().into(),
                            extra: x["extra"].as_str().unwrap().into(),
                        });
                    }
                    done += 1;
                    workers[i].job = None;
                    if next < njobs && violations.is_empty() {
                        workers[i].give(next);
                        next += 1;
                    }
                }
                Ok(None) | Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                    idle = false;
                    let (pj, pc, _) = workers[i].pos();
                    workers[i].kill();
                    match isolate(&dir, &check, tier, pj, pc.max(1), hang_limit) {
                        Iso::Dies(s) => violations.push(Violation {
                            job,
                            case: pc,
                            desc: format!("job {} case {}", pj, pc),
                            msg: format!("the process died: {}", s),
                            extra: String::new(),
                        }),
                        Iso::Fails(m, e) => violations.push(Violation { job, case: pc, desc: format!("job {} case {}", pj, pc), msg: m, extra: e }),
                        Iso::Hangs => violations.push(Violation { job, case: pc, desc: format!("job {} case {}", pj, pc), msg: "does not terminate".into(), extra: String::new() }),
                        Iso::Holds => {
                            if retried.insert(job) {
                                workers[i] = W::spawn(&check, tier, &dir, i);
                                workers[i].give(job);
                            } else if let Iso::Dies(s) = isolate(&dir, &check, tier, pj, 0, hang_limit) {
                                violations.push(Violation { job, case: 0, desc: format!("job {} (all its cases in one process; died at case {})", pj, pc), msg: format!("the process died: {}", s), extra: String::new() });
                            } else {
                                errors.push(format!("worker died twice in job {} case {} but the case holds in isolation", pj, pc));
                            }
                        }
                    }
                }
                Err(std::sync::mpsc::TryRecvError::Empty) => {
                    let p = workers[i].pos();
                    if p != workers[i].last {
                        max_gap = max_gap.max(workers[i].since.elapsed());
                        workers[i].last = p;
                        workers[i].since = Instant::now();
                        workers[i].cpu = workers[i].cpu_time();
                    } else if workers[i].since.elapsed() > hang_limit
                        && hangs(workers[i].since, workers[i].cpu_time().saturating_sub(workers[i].cpu), hang_limit)
                    {
                        workers[i].kill();
                        match isolate(&dir, &check, tier, p.0, p.1.max(1), hang_limit) {
                            Iso::Holds => {
                                if retried.insert(job) {
                                    workers[i] = W::spawn(&check, tier, &dir, i);
                                    workers[i].give(job);
                                } else {
                                    errors.push(format!("job {} case {} is too slow", p.0, p.1));
                                }
                            }
                            Iso::Hangs => violations.push(Violation { job, case: p.1, desc: format!("job {} case {}", p.0, p.1), msg: "does not terminate".into(), extra: String::new() }),
                            Iso::Dies(s) => violations.push(Violation { job, case: p.1, desc: format!("job {} case {}", p.0, p.1), msg: format!("the process died: {}", s), extra: String::new() }),
                            Iso::Fails(m, e) => violations.push(Violation { job, case: p.1, desc: format!("job {} case {}", p.0, p.1), msg: m, extra: e }),
                        }
                    }
                }
            }
        }
        if idle {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    for w in workers.iter_mut() {
        w.kill();
    }
    let _ = std::fs::remove_dir_all(&dir);

    // a violation of the harness itself is an error, never a verdict
    let (harness, violations): (Vec<_>, Vec<_>) = violations.into_iter().partition(|v| v.msg.contains("HARNESS:"));
    errors.extend(harness.into_iter().map(|v| format!("{}: {}", v.desc, v.msg)));

    let g = |k: &str| tot.get(k).copied().unwrap_or(0);
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(g("evals")));
    cov.insert("distinct_nontrivial".into(), json!(g("distinct")));
    cov.insert("rule".into(), json!(c.rule));
    cov.insert("bound".into(), json!((c.bound)(tier)));
    cov.insert("exhaustive".into(), json!(capped.is_empty() && violations.is_empty() && errors.is_empty()));
    if c.level == "model_checking" {
        cov.insert("states".into(), json!(g("states")));
        cov.insert("transitions".into(), json!(g("transitions")));
        cov.insert("traces_validated_against_impl".into(), json!(g("traces")));
    }
    cov.insert("samples".into(), json!(samples));
    cov.insert("jobs".into(), json!(njobs));
    cov.insert("longest_time_without_progress_s".into(), json!((max_gap.as_secs_f64() * 10.0).round() / 10.0));
    cov.insert("build_profile".into(), json!(profile));
    if !capped.is_empty() {
        cov.insert("capped".into(), json!(capped));
    }
    for (k, v) in &counters {
        cov.insert(k.clone(), json!(v));
    }
    let ev = json!({
        "property": check, "tier": tier.name(), "seed": seed, "level": c.level, "coverage": Value::Object(cov),
        "assumptions": c.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations.len(),
    });
    if let Err(e) = std::fs::write(out, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        errors.push(format!("cannot write evidence: {}", e));
    }
    println!(
        "{} {} [{}]: {} cases, {} states, {} transitions, {:.1} s",
        check, tier.name(), profile, g("evals"), g("states"), g("transitions"), t0.elapsed().as_secs_f64()
    );
    for (k, v) in &counters {
        println!("  {} = {}", k, v);
    }
    for k in &known {
        if known_hits.contains_key(&k.id) {
            println!("KNOWN-FINDING: property={} {}", check, k.what);
        }
    }
    if !violations.is_empty() {
        let _ = std::fs::create_dir_all(&replay_dir);
        for (n, v) in violations.iter().enumerate().take(3) {
            let p = replay_dir.join(format!("{}-{}-{}.json", check, profile, n));
            let extra: Value = serde_json::from_str(&v.extra).unwrap_or(Value::Null);
            let mut r = json!({
                "check": check, "tier": tier.name(), "profile": profile, "job": v.job, "case": v.case, "description": v.desc, "message": v.msg,
                "how": "tools/replay.py FILE (rebuilds the harness against /repo and runs exactly this case)",
            });
            if let Some(o) = extra.as_object() {
                for (k, x) in o {
                    r[k] = x.clone();
                }
            }
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap() + "\n");
            println!("  {} -- {}", v.desc, v.msg);
            println!("VIOLATION property={} replay={}", check, p.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {}", e);
        }
        return 2;
    }
    0
}
