//! Bounded exhaustive exploration of operation histories on real objects.

use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::{alloc, tv};

pub type R<T = ()> = Result<T, String>;

/// An error unless `c`
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// Compares and reports both sides
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

pub trait World: Sized {
    type Op: Copy + Debug + Send + Sync + 'static;
    type Cfg: Sync;
    fn new(cfg: &Self::Cfg) -> Self;
    /// All enabled operations, simplest first
    fn ops(&self, cfg: &Self::Cfg, out: &mut Vec<Self::Op>);
    /// Executes the operation on the real object and the model, comparing results
    fn apply(&mut self, cfg: &Self::Cfg, op: Self::Op) -> R;
    /// Compares everything observable without changing behaviour
    fn observe(&mut self, cfg: &Self::Cfg) -> R;
    /// Destructive probing; writes the canonical state
    fn finish(self, cfg: &Self::Cfg, key: &mut KeyHash) -> R;
}

/// 128-bit key accumulator (two independent multiplicative hashes)
#[derive(Clone)]
pub struct KeyHash {
    a: u64,
    b: u64,
}
impl Default for KeyHash {
    fn default() -> Self {
        KeyHash { a: 0x243f_6a88_85a3_08d3, b: 0x1319_8a2e_0370_7344 }
    }
}
impl KeyHash {
    #[inline]
    pub fn put(&mut self, x: u64) {
        let m = (self.a ^ x) as u128 * 0x9e37_79b9_7f4a_7c15_u128;
        self.a = (m as u64) ^ ((m >> 64) as u64).rotate_left(23) ^ 0x51;
        let m = (self.b.rotate_left(29) ^ x.wrapping_mul(0xd6e8_feb8_6659_fd93)).wrapping_add(0x632b_e59b_d9b4_e019) as u128
            * 0xc2b2_ae3d_27d4_eb4f_u128;
        self.b = (m as u64) ^ ((m >> 64) as u64);
    }
    pub fn done(&self) -> u128 {
        ((self.a as u128) << 64) | self.b as u128
    }
}

#[derive(Default)]
pub struct Pass(u64);
impl Hasher for Pass {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 ^= u64::from_le_bytes(x);
        }
    }
    fn write_u128(&mut self, i: u128) {
        self.0 = (i as u64) ^ ((i >> 64) as u64);
    }
}
type Set = HashSet<u128, BuildHasherDefault<Pass>>;
type Firsts<O> = HashMap<u128, (usize, usize, O), BuildHasherDefault<Pass>>;

#[derive(Clone, Copy)]
pub struct Lim {
    pub depth: usize,
    /// deduplicate by canonical state
    pub dedup: bool,
    /// stop expanding when this many states were seen (0: no limit)
    pub max_states: u64,
}

pub fn deep() -> Lim {
    Lim { depth: 10_000, dedup: true, max_states: 0 }
}
pub fn dedup_to(depth: usize) -> Lim {
    Lim { depth, dedup: true, max_states: 0 }
}
pub fn all_to(depth: usize) -> Lim {
    Lim { depth, dedup: false, max_states: 0 }
}

#[derive(Default, Clone, Debug)]
pub struct Part {
    pub name: String,
    pub kind: &'static str,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub depth: u64,
    pub fixpoint: bool,
    pub capped: bool,
    pub samples: Vec<String>,
    pub wall: f64,
}

pub struct Violation {
    pub job: String,
    pub msg: String,
    pub steps: Vec<String>,
    pub raw: Vec<u8>,
}

// ---------------------------------------------------------------- slots

const NSLOT: usize = 16;
const SLOT: usize = 8192;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
static STARTS: [AtomicU64; NSLOT] = [const { AtomicU64::new(0) }; NSLOT];
thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(code: i32) -> !;
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn open_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len((NSLOT * SLOT) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), NSLOT * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize > 0);
    SLOTS.store(p as usize, SeqCst);
    std::mem::forget(f);
}

/// layout: [0..2] flags, [2..4] job length, [4..8] data length, job, data
fn slot_begin(job: &str, raw: &[u8]) {
    let s = MY_SLOT.with(|s| s.get());
    let base = SLOTS.load(Relaxed);
    if s >= NSLOT {
        return;
    }
    STARTS[s].store(now_ms_fast(), Relaxed);
    if base == 0 {
        return;
    }
    unsafe {
        let p = (base as *mut u8).add(s * SLOT);
        let jl = job.len().min(200);
        let dl = raw.len().min(SLOT - 8 - jl);
        *(p as *mut u16) = 1;
        *(p.add(2) as *mut u16) = jl as u16;
        *(p.add(4) as *mut u32) = dl as u32;
        std::ptr::copy_nonoverlapping(job.as_ptr(), p.add(8), jl);
        std::ptr::copy_nonoverlapping(raw.as_ptr(), p.add(8 + jl), dl);
    }
}
fn slot_end() {
    let s = MY_SLOT.with(|s| s.get());
    if s >= NSLOT {
        return;
    }
    STARTS[s].store(0, Relaxed);
    let base = SLOTS.load(Relaxed);
    if base != 0 {
        unsafe { *((base as *mut u8).add(s * SLOT) as *mut u16) = 0 }
    }
}
pub fn slot_flag_runaway() {
    let s = MY_SLOT.with(|s| s.get());
    let base = SLOTS.load(Relaxed);
    if s < NSLOT && base != 0 {
        unsafe { *((base as *mut u8).add(s * SLOT) as *mut u16) = 3 }
    }
}

static COARSE: AtomicU64 = AtomicU64::new(1);
fn now_ms_fast() -> u64 {
    COARSE.load(Relaxed)
}

const HANG_MS: u64 = 25_000;

// ---------------------------------------------------------------- context

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub threads: usize,
    out: Option<String>,
    only: Option<(String, Vec<u8>)>,
    list: bool,
    pub parts: Vec<Part>,
    pub violation: Option<Violation>,
    pub known: Vec<String>,
    start: Instant,
    budget: Duration,
    /// scratch notes for the evidence
    pub notes: Vec<String>,
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of every binary
pub fn run(f: impl FnOnce(&mut Ctx)) {
    now_ms();
    let prop = arg("--prop").expect("--prop");
    let thorough = arg("--tier").map(|t| t == "thorough").unwrap_or(false);
    let threads = arg("--threads").and_then(|t| t.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(NSLOT)
    });
    let budget = arg("--budget").and_then(|t| t.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
    let only = arg("--only").map(|j| (j, unhex(&arg("--raw").unwrap_or_default())));
    if let Some(s) = arg("--slots") {
        open_slots(&s);
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<tv::FusePanic>().is_some() {
            "injected panic".to_string()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let in_worker = MY_SLOT.with(|s| s.get()) != usize::MAX;
        let _ = PANIC_MSG.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                m.clear();
                m.push_str(&msg);
                m.push_str(" at ");
                m.push_str(&loc);
            }
        });
        if !in_worker {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
    // clock and hang watchdog
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(50));
        let n = now_ms();
        COARSE.store(n, Relaxed);
        for (i, s) in STARTS.iter().enumerate() {
            let t = s.load(Relaxed);
            if t != 0 && n > t + HANG_MS {
                let base = SLOTS.load(Relaxed);
                if base != 0 {
                    unsafe { *((base as *mut u8).add(i * SLOT) as *mut u16) = 5 }
                }
                eprintln!("an explored step did not finish within {} s", HANG_MS / 1000);
                unsafe { _exit(78) }
            }
        }
    });
    let mut ctx = Ctx {
        prop,
        thorough,
        threads,
        out: arg("--out"),
        only,
        list: std::env::args().any(|a| a == "--list"),
        parts: vec![],
        violation: None,
        known: vec![],
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        notes: vec![],
    };
    f(&mut ctx);
    ctx.write();
    if let Some(v) = &ctx.violation {
        println!("violation in {}: {}", v.job, v.msg);
        for (i, s) in v.steps.iter().enumerate() {
            println!("  {:3} {}", i + 1, s);
        }
        std::process::exit(1);
    }
    if ctx.parts.is_empty() && ctx.only.is_none() {
        eprintln!("no job ran for property {}", ctx.prop);
        std::process::exit(3);
    }
    if ctx.only.is_some() {
        println!("the given history shows no violation");
    }
    for p in &ctx.parts {
        println!(
            "{:44} {:>9} states {:>10} transitions depth {:>3}{}{} {:.1}s",
            p.name,
            p.states,
            p.transitions,
            p.depth,
            if p.fixpoint { " complete" } else { "" },
            if p.capped { " CAPPED" } else { "" },
            p.wall
        );
    }
}

impl Ctx {
    fn write(&self) {
        let Some(out) = &self.out else { return };
        let mut s = String::from("{\"parts\":[");
        for (i, p) in self.parts.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!(
                "{{\"name\":{},\"kind\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"depth\":{},\"fixpoint\":{},\"capped\":{},\"wall_s\":{:.3},\"samples\":[{}]}}",
                jstr(&p.name),
                jstr(p.kind),
                p.states,
                p.transitions,
                p.traces,
                p.depth,
                p.fixpoint,
                p.capped,
                p.wall,
                p.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
            ));
        }
        s.push_str("],\"notes\":[");
        s.push_str(&self.notes.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"violation\":");
        match &self.violation {
            None => s.push_str("null"),
            Some(v) => s.push_str(&format!(
                "{{\"job\":{},\"message\":{},\"steps\":[{}],\"raw\":{}}}",
                jstr(&v.job),
                jstr(&v.msg),
                v.steps.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
                jstr(&hex(&v.raw))
            )),
        }
        s.push_str("}\n");
        let mut f = std::fs::File::create(out).unwrap();
        f.write_all(s.as_bytes()).unwrap();
    }

    fn skip(&self, name: &str) -> bool {
        if self.violation.is_some() {
            return true;
        }
        if let Some((j, _)) = &self.only {
            return j != name;
        }
        if self.list {
            println!("{name}");
            return true;
        }
        if let Some(f) = arg("--filter") {
            return !name.contains(&f);
        }
        false
    }

    /// How long a job that starts now may take. Every job may only use a part of the time that is left, so
    /// that a job with unexpectedly many states does not starve the ones after it.
    fn share(&self) -> Duration {
        self.budget.saturating_sub(self.start.elapsed()) / self.q(4, 2)
    }

    /// Quick or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Explores a world breadth first
    pub fn explore<W: World>(&mut self, name: &str, cfg: W::Cfg, lim: Lim) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let share = self.share();
        if let Some((_, raw)) = &self.only {
            let ops = from_raw::<W::Op>(raw);
            with_slot(0, || {
                slot_begin(name, raw);
                let r = attempt::<W>(&cfg, &ops);
                slot_end();
                if let Err(m) = r {
                    self.violation = Some(Violation {
                        job: name.into(),
                        msg: m,
                        steps: ops.iter().map(|o| format!("{o:?}")).collect(),
                        raw: raw.clone(),
                    });
                }
            });
            return;
        }
        let mut part = Part { name: name.into(), kind: "histories", ..Default::default() };
        // states of earlier levels, and new ones with the first way (parent, operation) to reach them, so
        // that which history represents a state does not depend on timing
        let shards: Vec<Mutex<(Set, Firsts<W::Op>)>> = (0..256).map(|_| Mutex::new((Set::default(), Firsts::default()))).collect();
        // initial state
        let mut frontier: Vec<Box<[W::Op]>> = vec![Box::new([])];
        let init = with_slot(0, || {
            slot_begin(name, &[]);
            let r = attempt::<W>(&cfg, &[]);
            slot_end();
            r
        });
        match init {
            Ok(k) => {
                shards[(k >> 120) as usize].lock().unwrap().0.insert(k);
                part.states = 1;
                part.traces = 1;
            }
            Err(m) => {
                self.violation = Some(Violation { job: name.into(), msg: m, steps: vec![], raw: vec![] });
                return;
            }
        }
        let mut depth = 0;
        let mut last_sample = String::new();
        while depth < lim.depth && !frontier.is_empty() {
            let next_ix = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let trans = AtomicU64::new(0);
            let news = AtomicU64::new(0);
            let found: Mutex<Option<(usize, usize, String, Vec<W::Op>)>> = Mutex::new(None);
            let next: Mutex<Vec<(usize, usize, W::Op)>> = Mutex::new(vec![]);
            let out_of_time = AtomicBool::new(false);
            let this = &*self;
            std::thread::scope(|s| {
                for t in 0..this.threads {
                    let (cfg, frontier, shards) = (&cfg, &frontier, &shards);
                    let (next_ix, stop, trans, news, found, next, out_of_time) =
                        (&next_ix, &stop, &trans, &news, &found, &next, &out_of_time);
                    s.spawn(move || {
                        with_slot(t, || {
                            let mut local: Vec<(usize, usize, W::Op)> = vec![];
                            let mut ops: Vec<W::Op> = vec![];
                            let mut hist: Vec<W::Op> = vec![];
                            let mut ntrans = 0u64;
                            let mut nnew = 0u64;
                            loop {
                                if stop.load(Relaxed) {
                                    break;
                                }
                                let i = next_ix.fetch_add(1, Relaxed);
                                if i >= frontier.len() {
                                    break;
                                }
                                if i % 64 == 0 && t0.elapsed() > share {
                                    out_of_time.store(true, Relaxed);
                                    stop.store(true, Relaxed);
                                    break;
                                }
                                hist.clear();
                                hist.extend_from_slice(&frontier[i]);
                                ops.clear();
                                slot_begin(name, as_raw(&hist));
                                let r = list_ops::<W>(cfg, &hist, &mut ops);
                                slot_end();
                                let fail = |k: usize, m: String, h: &Vec<W::Op>| {
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().map(|f| (f.0, f.1) > (i, k)).unwrap_or(true) {
                                        *f = Some((i, k, m, h.clone()));
                                    }
                                    stop.store(true, Relaxed);
                                };
                                if let Err(m) = r {
                                    fail(0, m, &hist);
                                    break;
                                }
                                for (k, op) in ops.iter().enumerate() {
                                    hist.push(*op);
                                    slot_begin(name, as_raw(&hist));
                                    let r = attempt::<W>(cfg, &hist);
                                    slot_end();
                                    ntrans += 1;
                                    match r {
                                        Err(m) => {
                                            fail(k, m, &hist);
                                            break;
                                        }
                                        Ok(key) => {
                                            if !lim.dedup {
                                                nnew += 1;
                                                if depth + 1 < lim.depth {
                                                    local.push((i, k, *op));
                                                }
                                                hist.pop();
                                                continue;
                                            }
                                            let mut g = shards[(key >> 120) as usize].lock().unwrap();
                                            let (seen, firsts) = &mut *g;
                                            if !seen.contains(&key) {
                                                let e = firsts.entry(key).or_insert_with(|| {
                                                    nnew += 1;
                                                    (i, k, *op)
                                                });
                                                if (i, k) < (e.0, e.1) {
                                                    *e = (i, k, *op);
                                                }
                                            }
                                        }
                                    }
                                    hist.pop();
                                }
                            }
                            trans.fetch_add(ntrans, Relaxed);
                            news.fetch_add(nnew, Relaxed);
                            next.lock().unwrap().append(&mut local);
                        })
                    });
                }
            });
            part.transitions += trans.load(Relaxed);
            part.traces += trans.load(Relaxed);
            part.states += news.load(Relaxed);
            if let Some((_, _, m, h)) = found.into_inner().unwrap() {
                self.violation = Some(Violation {
                    job: name.into(),
                    msg: m,
                    steps: h.iter().map(|o| format!("{o:?}")).collect(),
                    raw: as_raw(&h).to_vec(),
                });
                part.depth = depth as u64 + 1;
                part.wall = t0.elapsed().as_secs_f64();
                self.parts.push(part);
                return;
            }
            let mut picks = next.into_inner().unwrap();
            for s in &shards {
                let mut g = s.lock().unwrap();
                let (seen, firsts) = &mut *g;
                for (key, first) in firsts.drain() {
                    seen.insert(key);
                    if depth + 1 < lim.depth {
                        picks.push(first);
                    }
                }
            }
            picks.sort_unstable_by_key(|x| (x.0, x.1));
            let nf: Vec<Box<[W::Op]>> = picks
                .into_iter()
                .map(|(i, _, op)| {
                    let mut h = Vec::with_capacity(frontier[i].len() + 1);
                    h.extend_from_slice(&frontier[i]);
                    h.push(op);
                    h.into_boxed_slice()
                })
                .collect();
            if let Some(h) = nf.get(nf.len() / 2).or_else(|| frontier.get(frontier.len() / 2)) {
                last_sample = format!("{:?}", h);
            }
            if out_of_time.load(Relaxed) {
                part.capped = true;
                break;
            }
            depth += 1;
            frontier = nf;
            part.depth = depth as u64;
            if frontier.is_empty() && (depth < lim.depth || news.load(Relaxed) == 0) {
                part.fixpoint = lim.dedup;
            }
            if lim.max_states != 0 && part.states >= lim.max_states && !frontier.is_empty() {
                part.capped = true;
                break;
            }
        }
        part.samples.push(last_sample);
        part.wall = t0.elapsed().as_secs_f64();
        self.parts.push(part);
    }

    /// Runs `f` on every index below `count`. `f` returns whether the case was non-trivial; `show`
    /// describes a case.
    pub fn enumerate(
        &mut self,
        name: &str,
        count: u64,
        show: impl Fn(u64) -> String + Sync,
        f: impl Fn(u64) -> R<bool> + Sync,
    ) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let share = self.share();
        if let Some((_, raw)) = &self.only {
            let mut b = [0u8; 8];
            b.copy_from_slice(&raw[..8]);
            let i = u64::from_le_bytes(b);
            let raw = raw.clone();
            with_slot(0, || {
                slot_begin(name, &raw);
                let r = attempt_case(i, &f);
                slot_end();
                if let Err(m) = r {
                    self.violation = Some(Violation { job: name.into(), msg: m, steps: vec![show(i)], raw });
                }
            });
            return;
        }
        let next_ix = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let nontriv = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let capped = AtomicBool::new(false);
        let chunk = (count / (self.threads as u64 * 64)).clamp(1, 1024);
        let this = &*self;
        std::thread::scope(|s| {
            for t in 0..this.threads {
                let (f, next_ix, stop, nontriv, done, found, capped) =
                    (&f, &next_ix, &stop, &nontriv, &done, &found, &capped);
                s.spawn(move || {
                    with_slot(t, || {
                        let (mut nt, mut nd) = (0, 0);
                        'o: loop {
                            let lo = next_ix.fetch_add(chunk, Relaxed);
                            if lo >= count || stop.load(Relaxed) {
                                break;
                            }
                            if t0.elapsed() > share {
                                capped.store(true, Relaxed);
                                break;
                            }
                            for i in lo..(lo + chunk).min(count) {
                                slot_begin(name, &i.to_le_bytes());
                                let r = attempt_case(i, f);
                                slot_end();
                                nd += 1;
                                match r {
                                    Ok(b) => nt += b as u64,
                                    Err(m) => {
                                        let mut g = found.lock().unwrap();
                                        if g.as_ref().map(|g| g.0 > i).unwrap_or(true) {
                                            *g = Some((i, m));
                                        }
                                        stop.store(true, Relaxed);
                                        break 'o;
                                    }
                                }
                            }
                        }
                        nontriv.fetch_add(nt, Relaxed);
                        done.fetch_add(nd, Relaxed);
                    })
                });
            }
        });
        let mut part = Part {
            name: name.into(),
            kind: "cases",
            states: nontriv.load(Relaxed),
            transitions: done.load(Relaxed),
            traces: done.load(Relaxed),
            fixpoint: !capped.load(Relaxed),
            capped: capped.load(Relaxed),
            ..Default::default()
        };
        if count > 0 {
            part.samples.push(show(count / 2));
        }
        part.wall = t0.elapsed().as_secs_f64();
        self.parts.push(part);
        if let Some((i, m)) = found.into_inner().unwrap() {
            self.violation = Some(Violation {
                job: name.into(),
                msg: m,
                steps: vec![show(i)],
                raw: i.to_le_bytes().to_vec(),
            });
        }
    }
}

fn with_slot<T>(i: usize, f: impl FnOnce() -> T) -> T {
    let old = MY_SLOT.with(|s| s.replace(i));
    let r = f();
    MY_SLOT.with(|s| s.set(old));
    r
}

fn as_raw<T: Copy>(x: &[T]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(x.as_ptr() as *const u8, std::mem::size_of_val(x)) }
}
fn from_raw<T: Copy>(b: &[u8]) -> Vec<T> {
    let n = b.len() / std::mem::size_of::<T>().max(1);
    (0..n)
        .map(|i| unsafe { (b.as_ptr().add(i * std::mem::size_of::<T>()) as *const T).read_unaligned() })
        .collect()
}

pub fn panic_message() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

/// Runs `f`; a panic becomes an error
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", panic_message())),
    }
}

/// Runs `f` and tells whether it panicked
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn list_ops<W: World>(cfg: &W::Cfg, hist: &[W::Op], out: &mut Vec<W::Op>) -> R {
    tv::reset();
    guarded(|| {
        let mut w = W::new(cfg);
        for op in hist {
            w.apply(cfg, *op)?;
        }
        w.ops(cfg, out);
        Ok(())
    })
}

/// Runs one fixed history inside an enumerated case
pub fn play<W: World>(cfg: &W::Cfg, f: impl FnOnce(&mut W) -> R) -> R {
    let mut w = W::new(cfg);
    f(&mut w)?;
    w.observe(cfg)?;
    w.finish(cfg, &mut KeyHash::default())
}

fn attempt_once<W: World>(cfg: &W::Cfg, hist: &[W::Op]) -> (R<u128>, (isize, isize)) {
    tv::reset();
    let mut key = KeyHash::default();
    alloc::guard_on();
    let r = guarded(|| {
        let mut w = W::new(cfg);
        for (i, op) in hist.iter().enumerate() {
            w.apply(cfg, *op).map_err(|e| {
                if i + 1 == hist.len() {
                    e
                } else {
                    format!("(step {}) {e}", i + 1)
                }
            })?;
        }
        w.observe(cfg)?;
        w.finish(cfg, &mut key)?;
        tv::check_live(0).map_err(|e| format!("after dropping everything: {e}"))?;
        Ok(())
    });
    let net = alloc::net();
    alloc::guard_off();
    let r = r.and_then(|()| match alloc::take_error() {
        None => Ok(()),
        Some(e) => Err(e),
    });
    (r.map(|()| key.done()), net)
}

fn attempt<W: World>(cfg: &W::Cfg, hist: &[W::Op]) -> R<u128> {
    let (r, net) = attempt_once::<W>(cfg, hist);
    let k = r?;
    if net != (0, 0) {
        // lazily initialised thread state can allocate once; a leak is there every time
        for _ in 0..2 {
            let (r, net2) = attempt_once::<W>(cfg, hist);
            r?;
            if net2 == (0, 0) {
                return Ok(k);
            }
        }
        return Err(format!(
            "memory leak: {} allocation(s), {} byte(s) remain after everything was dropped",
            net.1, net.0
        ));
    }
    Ok(k)
}

fn attempt_case(i: u64, f: &impl Fn(u64) -> R<bool>) -> R<bool> {
    let once = || {
        tv::reset();
        alloc::guard_on();
        let r = guarded(|| f(i));
        let net = alloc::net();
        alloc::guard_off();
        let r = r.and_then(|b| {
            tv::check_live(0).map_err(|e| format!("after dropping everything: {e}"))?;
            match alloc::take_error() {
                None => Ok(b),
                Some(e) => Err(e),
            }
        });
        (r, net)
    };
    let (r, net) = once();
    let b = r?;
    if net != (0, 0) && !tv::leaks_allowed() {
        for _ in 0..2 {
            let (r, net2) = once();
            r?;
            if net2 == (0, 0) {
                return Ok(b);
            }
        }
        return Err(format!(
            "memory leak: {} allocation(s), {} byte(s) remain after everything was dropped",
            net.1, net.0
        ));
    }
    Ok(b)
}
