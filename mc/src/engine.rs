//! Exploration engine: level-synchronous explicit-state BFS over real code in
//! lockstep with a reference model, and exhaustive case enumeration.
//!
//! * every call into the code under test runs under `catch_unwind`, with a
//!   per-call live-memory cap and a per-call time cap (a hang, a panic or
//!   runaway memory in the code under test is a violation);
//! * the search is deterministic: the reported counterexample is the first one
//!   in (depth, state, operation) order;
//! * every violation is written to a replay file holding the whole history.

use std::alloc::{GlobalAlloc, Layout, System as SysAlloc};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------
// Allocator guard
// ---------------------------------------------------------------------------

pub struct Guarded;
const MEM_CAP: isize = 600 << 20;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static MEM_TRIPPED: AtomicBool = AtomicBool::new(false);

fn trip() {
    MEM_TRIPPED.store(true, Ordering::SeqCst);
    // The monitor reports the violation and ends the process.
    loop {
        std::thread::sleep(Duration::from_secs(3600));
    }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let active = ACTIVE.try_with(|a| a.get()).unwrap_or(false);
        if active {
            let n = LIVE
                .try_with(|c| {
                    c.set(c.get() + l.size() as isize);
                    c.get()
                })
                .unwrap_or(0);
            if n > MEM_CAP {
                trip();
            }
        }
        SysAlloc.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        }
        SysAlloc.dealloc(p, l)
    }
}

// ---------------------------------------------------------------------------
// Results
// ---------------------------------------------------------------------------

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

/// Run `f` as code under test: panics become `Err`, memory is capped.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    let was_active = ACTIVE.with(|a| a.replace(true));
    let was_quiet = QUIET.with(|q| q.replace(true));
    if !was_active {
        LIVE.with(|l| l.set(0));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    ACTIVE.with(|a| a.set(was_active));
    QUIET.with(|q| q.set(was_quiet));
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", panic_msg(&p))),
    }
}

fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    let loc = LAST_LOC.with(|l| l.borrow().clone());
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    };
    format!("{m} (at {loc})")
}

/// Catch a panic without printing it.
pub fn catch_quiet<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    let was_quiet = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was_quiet));
    r
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default()
}

thread_local! {
    static LAST_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
        let _ = LAST_LOC.try_with(|l| *l.borrow_mut() = loc.unwrap_or_default());
        if !QUIET.try_with(|q| q.get()).unwrap_or(false) {
            default(info);
        }
    }));
}

/// Expects `f` to panic. Returns whether it did.
pub fn panics(f: impl FnOnce()) -> bool {
    let was_quiet = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    QUIET.with(|q| q.set(was_quiet));
    r
}

// ---------------------------------------------------------------------------
// Context
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug, serde::Deserialize)]
pub struct Known {
    pub property: String,
    /// Section of the check.
    pub section: String,
    /// The exact failing case (the `case` field of the replay file).
    pub case: String,
    pub what: String,
}

#[derive(Default, Debug, Clone, serde::Serialize)]
pub struct SectionStats {
    pub name: String,
    pub kind: String,
    pub states: u64,
    pub transitions: u64,
    pub depth: u64,
    pub traces_replayed: u64,
    pub distinct_outcomes: u64,
    pub complete: bool,
    pub bound: String,
    pub wall_s: f64,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub threads: usize,
    pub start: Instant,
    pub deadline: Duration,
    pub sections: Vec<SectionStats>,
    pub samples: Vec<serde_json::Value>,
    pub known: Vec<Known>,
    pub known_hit: Vec<String>,
    pub assumptions: Vec<String>,
    /// In replay mode: only this section, only this case.
    pub replay: Option<(String, Vec<u64>)>,
    pub level: &'static str,
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Choose by tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    fn skip_section(&self, name: &str) -> bool {
        matches!(&self.replay, Some((s, _)) if s != name)
    }

    pub fn violation(&mut self, section: &str, path: &[u64], case: &str, trace: serde_json::Value, msg: &str) -> ! {
        let dir = format!("{}/replays", crate::VERIF);
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{dir}/{}.json", self.property);
        let j = serde_json::json!({
            "property": self.property, "section": section, "tier": format!("{:?}", self.tier).to_lowercase(),
            "path": path, "case": case, "trace": trace, "message": msg,
            "replay_cmd": format!("/verif/run.sh replay {file}"),
        });
        if self.replay.is_none() {
            std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
            self.write_evidence(1);
        }
        println!("section {section}: {msg}");
        println!("case: {case}");
        println!("VIOLATION property={} replay={}", self.property, file);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }

    /// Returns true if the failure is a listed known finding (and notes it).
    fn check_known(&mut self, section: &str, case: &str) -> bool {
        if let Some(k) = self
            .known
            .iter()
            .find(|k| k.property == self.property && k.section == section && k.case == case)
            .cloned()
        {
            if !self.known_hit.contains(&k.what) {
                println!("KNOWN-FINDING: property={} {}", self.property, k.what);
                self.known_hit.push(k.what.clone());
            }
            true
        } else {
            false
        }
    }

    pub fn sample(&mut self, v: impl Into<serde_json::Value>) {
        if self.samples.len() < 12 {
            self.samples.push(v.into());
        }
    }

    pub fn write_evidence(&self, violations: u64) {
        let states: u64 = self.sections.iter().map(|s| s.states).sum();
        let transitions: u64 = self.sections.iter().map(|s| s.transitions).sum();
        let traces: u64 = self.sections.iter().map(|s| s.traces_replayed).sum();
        let complete = !self.sections.is_empty() && self.sections.iter().all(|s| s.complete) && violations == 0;
        let mut samples = self.samples.clone();
        if samples.is_empty() {
            samples.push("no case completed".into());
        }
        let j = serde_json::json!({
            "property": self.property,
            "tier": format!("{:?}", self.tier).to_lowercase(),
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": self.level,
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": traces,
                "exhaustive": complete,
                "sections": self.sections,
                "known_findings_seen": self.known_hit,
                "how": "states: distinct (implementation, reference model) states or distinct enumerated inputs; transitions: real operations or queries executed in lockstep with the model; traces_validated_against_impl: complete histories re-executed from the initial state on a fresh object (no cloning), ending in the recorded state, or enumerated inputs evaluated twice with equal outcome",
                "samples": samples,
            },
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
            "assumptions": self.assumptions,
        });
        let dir = format!("{}/evidence", crate::VERIF);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.property), serde_json::to_string_pretty(&j).unwrap()).expect("write evidence");
    }
}

// ---------------------------------------------------------------------------
// Hash
// ---------------------------------------------------------------------------

/// 128-bit hash of a state key: two independent multiply-rotate lanes.
pub fn hash128(b: &[u8]) -> u128 {
    let (mut h1, mut h2) = (0x9E3779B97F4A7C15u64, 0xC2B2AE3D27D4EB4Fu64);
    let mut it = b.chunks_exact(8);
    let mut step = |w: u64| {
        h1 = (h1 ^ w).wrapping_mul(0xff51afd7ed558ccd);
        h1 ^= h1 >> 32;
        h2 = (h2.rotate_left(23) ^ w.wrapping_mul(0x87c37b91114253d5)).wrapping_mul(0x4cf5ad432745937f);
        h2 ^= h2 >> 29;
    };
    for c in &mut it {
        step(u64::from_le_bytes(c.try_into().unwrap()));
    }
    let r = it.remainder();
    let mut last = [0u8; 8];
    last[..r.len()].copy_from_slice(r);
    step(u64::from_le_bytes(last));
    step(b.len() as u64 ^ 0xdeadbeef);
    ((h1 as u128) << 64) | h2 as u128
}

// ---------------------------------------------------------------------------
// BFS
// ---------------------------------------------------------------------------

pub trait Sys: Clone + Send + Sync {
    type Op: Clone + Debug + Send + Sync;
    /// The operations to try in this state (a function of the reference model).
    fn ops(&self) -> Vec<Self::Op>;
    /// Apply to implementation and model; check everything about the transition.
    fn apply(&mut self, op: &Self::Op) -> Res;
    /// Full check of the state (implementation against model).
    fn check(&self) -> Res;
    /// Canonical key: complete implementation state plus model state.
    fn key(&self, out: &mut Vec<u8>);
    /// Small summary of the observable outcome, to show the space is not vacuous.
    fn outcome(&self) -> u64 {
        0
    }
}

struct Shard(Mutex<HashSet<u128>>);

#[derive(Default)]
struct WorkerSlot {
    /// 0 = idle, else start time in ms + 1.
    since: AtomicU64,
    a: AtomicU64,
    b: AtomicU64,
    tid: AtomicU64,
}

/// A call hangs if it used this much processor time and did not return (on a
/// loaded machine the clock on the wall says little), or ten times as long.
const HANG_MS: u64 = 40_000;

/// Processor time of a thread of this process in ms, and whether it sleeps.
fn thread_cpu_ms(tid: u64) -> Option<(u64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
    Some(((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) * 10, *f.first()? == "S"))
}
fn this_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}

struct Monitor<'a> {
    slots: &'a [WorkerSlot],
    t0: Instant,
    /// Per slot: the call last seen to take long, and the processor time then.
    noticed: Mutex<Vec<(u64, u64, u64)>>,
}
impl Monitor<'_> {
    fn hung(&self) -> Option<(u64, u64, &'static str)> {
        let now = self.t0.elapsed().as_millis() as u64;
        let mem = MEM_TRIPPED.load(Ordering::SeqCst);
        let mut best = None;
        let mut noticed = self.noticed.lock().unwrap();
        noticed.resize(self.slots.len(), (0, 0, 0));
        for (i, s) in self.slots.iter().enumerate() {
            let t = s.since.load(Ordering::SeqCst);
            if t == 0 {
                continue;
            }
            let el = now.saturating_sub(t - 1);
            let mut hang = el > 10 * HANG_MS;
            if el > HANG_MS / 2 && !hang {
                if let Some((cpu, sleeps)) = thread_cpu_ms(s.tid.load(Ordering::SeqCst)) {
                    if noticed[i].0 != t {
                        noticed[i] = (t, cpu, now);
                    }
                    // Busy for long, or asleep all the time: waiting for itself.
                    hang = cpu > noticed[i].1 + HANG_MS / 2 || (sleeps && cpu == noticed[i].1 && now > noticed[i].2 + HANG_MS / 2);
                }
            }
            if hang || (mem && el > 1500) {
                let v = (s.a.load(Ordering::SeqCst), s.b.load(Ordering::SeqCst), if mem { "exceeded the memory cap for one call (600 MiB)" } else { "did not return within 40 s of processor time" });
                if best.map_or(true, |(a, b, _)| (v.0, v.1) < (a, b)) {
                    best = Some(v);
                }
            }
        }
        best
    }
}

thread_local! {
    static BEAT: Cell<Option<(*const WorkerSlot, Instant)>> = const { Cell::new(None) };
}
/// Restart the time allowed for the current case: for cases made of many
/// independent executions.
pub fn heartbeat() {
    if let Some((s, t0)) = BEAT.get() {
        // SAFETY: the slots outlive the worker threads, and only `enter` sets it.
        unsafe { (*s).since.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst) };
    }
}

fn enter(slot: &WorkerSlot, t0: Instant, a: u64, b: u64) {
    BEAT.set(Some((slot, t0)));
    slot.a.store(a, Ordering::SeqCst);
    slot.b.store(b, Ordering::SeqCst);
    slot.since.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
}
fn leave(slot: &WorkerSlot) {
    slot.since.store(0, Ordering::SeqCst);
    BEAT.set(None);
}

/// Exploration stops (and is reported incomplete) beyond this resident size.
const RSS_CAP_MIB: usize = 20_000;
fn rss_mib() -> usize {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<usize>().ok()).map_or(0, |p| p / 256)
}

pub struct Bfs {
    pub name: String,
    pub depth: usize,
    pub max_states: usize,
    pub bound: String,
}

/// Explore every operation sequence up to `depth` from each initial state.
pub fn bfs<S: Sys>(ctx: &mut Ctx, cfg: Bfs, inits: Vec<(String, S)>) {
    let name = cfg.name.clone();
    if ctx.skip_section(&name) {
        return;
    }
    if let Some((_, path)) = ctx.replay.clone() {
        let init = &inits[path[0] as usize];
        let mut s = init.1.clone();
        println!("init {}", init.0);
        let mut hist = vec![format!("init:{}", init.0)];
        if let Err(m) = guarded(|| s.check()) {
            ctx.violation(&name, &path, &hist.join(" ; "), serde_json::Value::Null, &m);
        }
        for &i in &path[1..] {
            let ops = s.ops();
            let op = ops[i as usize].clone();
            println!("  {op:?}");
            hist.push(format!("{op:?}"));
            let r = guarded(|| s.apply(&op)).and_then(|_| guarded(|| s.check()));
            if let Err(m) = r {
                ctx.violation(&name, &path, &hist.join(" ; "), serde_json::Value::Null, &m);
            }
        }
        return;
    }

    let t_start = Instant::now();
    let nshards = 64;
    let seen: Vec<Shard> = (0..nshards).map(|_| Shard(Mutex::new(HashSet::new()))).collect();
    let insert = |k: u128| seen[(k >> 3) as usize % nshards].0.lock().unwrap().insert(k);

    // parents[id] = (parent id or u32::MAX - init index, op index)
    let mut parents: Vec<(u32, u16)> = Vec::new();
    let mut keys: Vec<u128> = Vec::new();
    let init_states: Vec<S> = inits.iter().map(|x| x.1.clone()).collect();
    let init_names: Vec<String> = inits.iter().map(|x| x.0.clone()).collect();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut frontier: Vec<(u32, S)> = Vec::new();
    let mut transitions = 0u64;
    let mut buf = Vec::new();
    for (i, (n, s)) in inits.into_iter().enumerate() {
        let r = guarded(|| s.check());
        if let Err(m) = r {
            let case = format!("init:{n}");
            if !ctx.check_known(&name, &case) {
                ctx.violation(&name, &[i as u64], &case, serde_json::Value::Null, &m);
            }
            continue;
        }
        buf.clear();
        s.key(&mut buf);
        let k = hash128(&buf);
        if insert(k) {
            outcomes.insert(s.outcome());
            parents.push((u32::MAX - i as u32, 0));
            keys.push(k);
            frontier.push((parents.len() as u32 - 1, s));
        }
    }

    let build_path = |parents: &Vec<(u32, u16)>, mut id: u32, last: Option<u64>| -> Vec<u64> {
        let mut p: Vec<u64> = last.into_iter().collect();
        loop {
            let (par, op) = parents[id as usize];
            if par > u32::MAX - 10_000 {
                p.push((u32::MAX - par) as u64);
                break;
            }
            p.push(op as u64);
            id = par;
        }
        p.reverse();
        p
    };
    // Re-executes a path on fresh objects; returns history strings and the final state.
    let replay_path = |path: &[u64]| -> (Vec<String>, Option<S>) {
        let mut s = init_states[path[0] as usize].clone();
        let mut h = vec![format!("init:{}", init_names[path[0] as usize])];
        for (j, &i) in path[1..].iter().enumerate() {
            let ops = s.ops();
            let op = ops[i as usize].clone();
            h.push(format!("{op:?}"));
            if j + 2 == path.len() {
                // the last step may be the failing (or hanging) one
                break;
            }
            let _ = guarded(|| s.apply(&op));
        }
        (h, None)
    };

    let mut depth_done = 0;
    let mut complete = true;
    let nthreads = ctx.threads;
    for d in 0..cfg.depth {
        if frontier.is_empty() {
            break;
        }
        let last_level = d + 1 == cfg.depth;
        let slots: Vec<WorkerSlot> = (0..nthreads).map(|_| WorkerSlot::default()).collect();
        let next_idx = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let fails: Mutex<Vec<(u32, u16, String)>> = Mutex::new(Vec::new());
        let nfails = AtomicUsize::new(0);
        let tcount = AtomicU64::new(0);
        #[allow(clippy::type_complexity)]
        let outs: Mutex<Vec<(u32, u16, u128, Option<S>, u64)>> = Mutex::new(Vec::new());
        let t0 = Instant::now();
        let fr = &frontier;
        let stop = AtomicBool::new(false);
        let hang = std::thread::scope(|sc| {
            for w in 0..nthreads {
                let (slots, next_idx, done, fails, nfails, tcount, outs, insert, stop) =
                    (&slots, &next_idx, &done, &fails, &nfails, &tcount, &outs, &insert, &stop);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = &slots[w];
                    slot.tid.store(this_tid(), Ordering::SeqCst);
                        let mut local = Vec::new();
                        let mut buf = Vec::new();
                        const CH: usize = 16;
                        'outer: loop {
                            let i0 = next_idx.fetch_add(CH, Ordering::SeqCst);
                            if i0 >= fr.len() || stop.load(Ordering::SeqCst) || nfails.load(Ordering::SeqCst) > 200 {
                                break;
                            }
                            for (id, s) in &fr[i0..(i0 + CH).min(fr.len())] {
                                let ops = s.ops();
                                for (oi, op) in ops.iter().enumerate() {
                                    let mut s2 = s.clone();
                                    enter(slot, t0, *id as u64, oi as u64);
                                    let mut r = guarded(|| s2.apply(op));
                                    tcount.fetch_add(1, Ordering::Relaxed);
                                    if r.is_ok() {
                                        buf.clear();
                                        r = guarded(|| {
                                            s2.key(&mut buf);
                                            Ok(())
                                        });
                                    }
                                    if r.is_ok() {
                                        let k = hash128(&buf);
                                        if insert(k) {
                                            r = guarded(|| s2.check());
                                            if r.is_ok() {
                                                let o = s2.outcome();
                                                leave(slot);
                                                local.push((*id, oi as u16, k, if last_level { None } else { Some(s2) }, o));
                                            }
                                        }
                                    } else {
                                        // do not drop a possibly corrupt object under unwinding rules
                                        std::mem::forget(s2);
                                    }
                                    leave(slot);
                                    if let Err(m) = r {
                                        nfails.fetch_add(1, Ordering::SeqCst);
                                        fails.lock().unwrap().push((*id, oi as u16, m));
                                        continue;
                                    }
                                    if stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                }
                            }
                            if local.len() > 256 {
                                outs.lock().unwrap().append(&mut local);
                            }
                        }
                        outs.lock().unwrap().append(&mut local);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .expect("spawn");
            }
            let mon = Monitor { slots: &slots, t0, noticed: Mutex::default() };
            loop {
                if done.load(Ordering::SeqCst) == nthreads {
                    return None;
                }
                if let Some((a, b, m)) = mon.hung() {
                    // Does not return: the workers cannot be joined.
                    let path = build_path(&parents, a as u32, Some(b));
                    let (h, _) = replay_path(&path);
                    let ctxp: *mut Ctx = ctx;
                    // SAFETY: the process exits inside.
                    unsafe { (*ctxp).violation(&name, &path, &h.join(" ; "), serde_json::json!(h), &format!("the last operation (or a query after it) {m}")) };
                }
                if ctx.start.elapsed() > ctx.deadline || rss_mib() > RSS_CAP_MIB {
                    stop.store(true, Ordering::SeqCst);
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 20 }));
            }
        });
        let _: Option<()> = hang;
        transitions += tcount.load(Ordering::Relaxed);
        let mut fails = fails.into_inner().unwrap();
        fails.sort();
        for (id, oi, m) in fails {
            let path = build_path(&parents, id, Some(oi as u64));
            let (h, _) = replay_path(&path);
            let case = h.join(" ; ");
            if !ctx.check_known(&name, &case) {
                ctx.sections.push(SectionStats { name: name.clone(), kind: "bfs".into(), states: parents.len() as u64, transitions, depth: d as u64 + 1, complete: false, bound: cfg.bound.clone(), ..Default::default() });
                ctx.violation(&name, &path, &case, serde_json::json!(h), &m);
            }
        }
        let stopped = stop.load(Ordering::SeqCst);
        let mut outs = outs.into_inner().unwrap();
        // Deterministic numbering. (Which of several equal states is kept can
        // depend on thread timing; all of them have the same key.)
        outs.sort_by_key(|x| (x.0, x.1));
        let mut next = Vec::with_capacity(outs.len());
        for (id, oi, k, s, o) in outs {
            outcomes.insert(o);
            parents.push((id, oi));
            keys.push(k);
            if let Some(s) = s {
                next.push((parents.len() as u32 - 1, s));
            }
        }
        if stopped {
            complete = false;
            break;
        }
        depth_done = d + 1;
        frontier = next;
        if parents.len() > cfg.max_states && !last_level {
            complete = false;
            break;
        }
    }
    let closed = complete && frontier.is_empty() && depth_done < cfg.depth;
    drop(frontier);

    // Determinism / clone-independence: re-execute complete histories on fresh
    // objects, and demand the recorded final state.
    let want = ctx.pick(4000usize, 40_000);
    let stride = (keys.len() / want).max(1);
    let ids: Vec<u32> = (0..keys.len()).rev().step_by(stride).map(|x| x as u32).collect();
    let bad: Mutex<Vec<(u32, String)>> = Mutex::new(Vec::new());
    let idx = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut buf = Vec::new();
                    loop {
                        let i = idx.fetch_add(1, Ordering::SeqCst);
                        if i >= ids.len() {
                            break;
                        }
                        let path = build_path(&parents, ids[i], None);
                        let r = guarded(|| {
                            let mut s = init_states[path[0] as usize].clone();
                            for &o in &path[1..] {
                                let op = s.ops()[o as usize].clone();
                                s.apply(&op)?;
                            }
                            buf.clear();
                            s.key(&mut buf);
                            ensure!(hash128(&buf) == keys[ids[i] as usize], "re-executing the history without cloning in between gives a different state");
                            Ok(())
                        });
                        if let Err(m) = r {
                            bad.lock().unwrap().push((ids[i], m));
                        }
                    }
                })
                .expect("spawn");
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    let traces = ids.len() as u64 - bad.len() as u64;
    if let Some((id, m)) = bad.into_iter().next() {
        let path = build_path(&parents, id, None);
        let (h, _) = replay_path(&path);
        ctx.violation(&name, &path, &h.join(" ; "), serde_json::json!(h), &m);
    }
    if let Some(id) = ids.first() {
        let (h, _) = replay_path(&build_path(&parents, *id, None));
        ctx.sample(serde_json::json!({"section": name, "history": h}));
    }
    if let Some(id) = ids.get(ids.len() / 2) {
        let (h, _) = replay_path(&build_path(&parents, *id, None));
        ctx.sample(serde_json::json!({"section": name, "history": h}));
    }
    let st = SectionStats {
        name: name.clone(),
        kind: "explicit-state BFS over operation sequences".into(),
        states: parents.len() as u64,
        transitions,
        depth: depth_done as u64,
        traces_replayed: traces,
        distinct_outcomes: outcomes.len() as u64,
        complete: complete && depth_done > 0,
        bound: format!("{}; {} from {} initial state(s)", cfg.bound, if closed { format!("closed: sequences of every length (no new state after {depth_done} steps)") } else { format!("every sequence up to length {depth_done}") }, init_names.len()),
        wall_s: t_start.elapsed().as_secs_f64(),
    };
    println!("[{}] {} states={} transitions={} depth={} traces={} outcomes={} complete={} closed={closed} {:.1}s", ctx.property, name, st.states, st.transitions, st.depth, st.traces_replayed, st.distinct_outcomes, st.complete, st.wall_s);
    ctx.sections.push(st);
}

// ---------------------------------------------------------------------------
// Exhaustive case enumeration
// ---------------------------------------------------------------------------

/// Tally reported by one case.
#[derive(Default, Clone, Copy)]
pub struct Tally {
    /// Queries / operations executed on the real code.
    pub steps: u64,
    /// Outcome summary.
    pub outcome: u64,
}

/// Evaluate `f` on every index in `0..total`. `describe` prints a case.
pub fn cases(
    ctx: &mut Ctx,
    name: &str,
    bound: &str,
    total: u64,
    describe: impl Fn(u64) -> String + Sync,
    f: impl Fn(u64) -> Result<Tally, String> + Sync,
) {
    if ctx.skip_section(name) {
        return;
    }
    if let Some((_, path)) = ctx.replay.clone() {
        println!("case {}", describe(path[0]));
        if let Err(m) = guarded(|| f(path[0])) {
            ctx.violation(name, &path, &describe(path[0]), serde_json::Value::Null, &m);
        }
        return;
    }
    let t_start = Instant::now();
    let nthreads = ctx.threads;
    let slots: Vec<WorkerSlot> = (0..nthreads).map(|_| WorkerSlot::default()).collect();
    let next = AtomicU64::new(0);
    let done = AtomicUsize::new(0);
    let executed = AtomicU64::new(0);
    let steps = AtomicU64::new(0);
    let traces = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
    let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let t0 = Instant::now();
    let chunk = (total / (nthreads as u64 * 64)).clamp(1, 64);
    let retrace = (total / 5000).max(1);
    std::thread::scope(|sc| {
        for w in 0..nthreads {
            let (slots, next, done, executed, steps, traces, stop, fails, outcomes, f) =
                (&slots, &next, &done, &executed, &steps, &traces, &stop, &fails, &outcomes, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let slot = &slots[w];
                    slot.tid.store(this_tid(), Ordering::SeqCst);
                    let mut local: HashSet<u64> = HashSet::new();
                    'o: loop {
                        let i0 = next.fetch_add(chunk, Ordering::SeqCst);
                        if i0 >= total || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        for i in i0..(i0 + chunk).min(total) {
                            enter(slot, t0, i, 0);
                            let mut r = guarded(|| f(i));
                            if i % retrace == 0 {
                                // Evaluate twice: same case, same outcome.
                                let r2 = guarded(|| f(i));
                                match (&r, &r2) {
                                    (Ok(a), Ok(b)) if a.outcome == b.outcome => {
                                        traces.fetch_add(1, Ordering::Relaxed);
                                    }
                                    (Ok(_), Ok(_)) => r = Err("evaluating the same input twice gives different outcomes".into()),
                                    (Ok(_), Err(m)) => r = Err(format!("second evaluation of the same input: {m}")),
                                    _ => {}
                                }
                            }
                            leave(slot);
                            executed.fetch_add(1, Ordering::Relaxed);
                            match r {
                                Ok(t) => {
                                    steps.fetch_add(t.steps, Ordering::Relaxed);
                                    if local.len() < 100_000 {
                                        local.insert(t.outcome);
                                    }
                                }
                                Err(m) => {
                                    let mut g = fails.lock().unwrap();
                                    g.push((i, m));
                                    if g.len() > 500 {
                                        stop.store(true, Ordering::SeqCst);
                                        break 'o;
                                    }
                                }
                            }
                        }
                    }
                    outcomes.lock().unwrap().extend(local);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        let mon = Monitor { slots: &slots, t0, noticed: Mutex::default() };
        loop {
            if done.load(Ordering::SeqCst) == nthreads {
                break;
            }
            if let Some((a, _, m)) = mon.hung() {
                let ctxp: *mut Ctx = ctx;
                // SAFETY: the process exits inside.
                unsafe { (*ctxp).violation(name, &[a], &describe(a), serde_json::Value::Null, &format!("evaluating this case {m}")) };
            }
            if ctx.start.elapsed() > ctx.deadline {
                stop.store(true, Ordering::SeqCst);
            }
            std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 20 }));
        }
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    let executed = executed.load(Ordering::Relaxed);
    let outcomes = outcomes.into_inner().unwrap().len() as u64;
    let st = SectionStats {
        name: name.into(),
        kind: "exhaustive enumeration of inputs".into(),
        states: executed,
        transitions: steps.load(Ordering::Relaxed),
        depth: 0,
        traces_replayed: traces.load(Ordering::Relaxed),
        distinct_outcomes: outcomes,
        complete: executed == total,
        bound: bound.into(),
        wall_s: t_start.elapsed().as_secs_f64(),
    };
    println!("[{}] {} cases={}/{} steps={} outcomes={} complete={} {:.1}s", ctx.property, name, executed, total, st.transitions, outcomes, st.complete, st.wall_s);
    ctx.sections.push(st);
    for (i, m) in fails {
        let case = describe(i);
        if !ctx.check_known(name, &case) {
            ctx.violation(name, &[i], &case, serde_json::Value::Null, &m);
        }
    }
    if total > 0 {
        for i in [0, total / 2, total - 1] {
            ctx.sample(serde_json::json!({"section": name, "case": describe(i)}));
        }
    }
}

/// Summarise any debug-printable value as an outcome.
pub fn outcome_of(v: &impl Debug) -> u64 {
    hash128(format!("{v:?}").as_bytes()) as u64
}

struct Mix(u64, u64);
impl std::hash::Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w));
        }
    }
    fn write_u64(&mut self, w: u64) {
        self.0 = (self.0 ^ w).wrapping_mul(0xff51afd7ed558ccd);
        self.0 ^= self.0 >> 32;
        self.1 = (self.1.rotate_left(23) ^ w.wrapping_mul(0x87c37b91114253d5)).wrapping_mul(0x4cf5ad432745937f);
        self.1 ^= self.1 >> 29;
    }
    fn write_usize(&mut self, w: usize) {
        self.write_u64(w as u64)
    }
    fn write_isize(&mut self, w: isize) {
        self.write_u64(w as u64)
    }
    fn write_u8(&mut self, w: u8) {
        self.write_u64(w as u64)
    }
    fn write_u16(&mut self, w: u16) {
        self.write_u64(w as u64)
    }
    fn write_u32(&mut self, w: u32) {
        self.write_u64(w as u64)
    }
}

/// Add the model to a state's key: states whose code side is the same but whose
/// model differs must not be merged, or a forgotten effect goes unnoticed.
pub fn key_model(out: &mut Vec<u8>, m: &impl std::hash::Hash) {
    let mut h = Mix(0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F);
    m.hash(&mut h);
    out.extend(h.0.to_le_bytes());
    out.extend(h.1.to_le_bytes());
}

/// Compare as multisets.
pub fn same_multiset<T: Eq + std::hash::Hash>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut m: HashMap<&T, i64> = HashMap::new();
    for x in a {
        *m.entry(x).or_default() += 1;
    }
    for x in b {
        *m.entry(x).or_default() -= 1;
    }
    m.values().all(|v| *v == 0)
}
