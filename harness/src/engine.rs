//! Case execution: seeded proptest streams and bounded enumerations, statistics, replay,
//! deterministic work bounds (allocations, never time), crash attribution.
use crate::enc::{Enc, Toks};
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- work accounting
pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIM_ALLOCS: Cell<u64> = const { Cell::new(u64::MAX) };
    static LIM_LIVE: Cell<i64> = const { Cell::new(i64::MAX) };
    static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
    static CUR_SUB: Cell<&'static str> = const { Cell::new("") };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub static TRIP_FILE: Mutex<String> = Mutex::new(String::new());

fn trip(kind: &str) -> ! {
    LIM_ALLOCS.with(|l| l.set(u64::MAX));
    LIM_LIVE.with(|l| l.set(i64::MAX));
    let case = CURRENT.with(|c| c.try_borrow().map(|s| s.clone()).unwrap_or_default());
    let sub = CUR_SUB.with(|c| c.get());
    let path = TRIP_FILE.lock().unwrap().clone();
    let _ = std::fs::write(path, format!("{}\n{}\n{}\n", sub, kind, case));
    unsafe { libc::_exit(77) }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| {
            let n = a.get() + 1;
            a.set(n);
            if n > LIM_ALLOCS.with(|x| x.get()) { trip("work bound (number of allocations)"); }
        });
        let _ = LIVE.try_with(|a| {
            let n = a.get() + l.size() as i64;
            a.set(n);
            if n > LIM_LIVE.with(|x| x.get()) { trip("work bound (live memory)"); }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|a| a.set(a.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}

// ---------------------------------------------------------------- crash slots
struct Slot(*mut u8);
const SLOT: usize = 1 << 16;
thread_local! { static SLOTP: RefCell<Option<Slot>> = const { RefCell::new(None) }; }
fn open_slot(path: &str) {
    use std::os::unix::io::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path) {
        if f.set_len(SLOT as u64).is_ok() {
            let p = unsafe { libc::mmap(std::ptr::null_mut(), SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
            if p != libc::MAP_FAILED { SLOTP.with(|s| *s.borrow_mut() = Some(Slot(p as *mut u8))); }
        }
    }
}
fn write_slot(sub: &str, case: &str) {
    SLOTP.with(|s| if let Some(Slot(p)) = &*s.borrow() {
        let mut off = 0;
        let mut put = |b: &[u8]| {
            let n = b.len().min(SLOT - 1 - off);
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), n); }
            off += n;
        };
        put(sub.as_bytes());
        put(b"\n");
        put(case.as_bytes());
        put(b"\n");
        unsafe { *p.add(off) = 0; }
    });
}
fn clear_slot() { SLOTP.with(|s| if let Some(Slot(p)) = &*s.borrow() { unsafe { **p = 0; } }); }

// ---------------------------------------------------------------- processor-time watchdog
// A call that loops without allocating never reaches the allocation bound. Each case also has a
// bound on the processor time of its own thread (not wall-clock: load does not count), far above
// what any case needs; see max_cpu_ms in the evidence.
struct Watch { clock: AtomicI32, start: AtomicU64, limit: AtomicU64, text: Mutex<String> }
const NW: usize = 64;
static WATCH: [Watch; NW] = [const { Watch { clock: AtomicI32::new(0), start: AtomicU64::new(0), limit: AtomicU64::new(0), text: Mutex::new(String::new()) } }; NW];
static NEXTW: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MYW: Cell<usize> = const { Cell::new(usize::MAX) }; }
fn clock_ns(id: i32) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(id, &mut t) } != 0 { return 0; }
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
fn watch_begin(sub: &str, case: &str, secs: u64) -> u64 {
    let k = MYW.with(|w| {
        if w.get() == usize::MAX {
            let k = NEXTW.fetch_add(1, Ordering::SeqCst) % NW;
            let mut c: libc::clockid_t = 0;
            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c); }
            WATCH[k].clock.store(c, Ordering::SeqCst);
            w.set(k);
        }
        w.get()
    });
    let w = &WATCH[k];
    let now = clock_ns(w.clock.load(Ordering::Relaxed));
    {
        let mut t = w.text.lock().unwrap();
        t.clear();
        t.push_str(sub);
        t.push('\n');
        t.push_str("work bound (processor time)");
        t.push('\n');
        t.push_str(case);
        t.push('\n');
    }
    w.start.store(now, Ordering::SeqCst);
    w.limit.store(secs * 1_000_000_000, Ordering::SeqCst);
    now
}
/// nanoseconds of processor time used by the case
fn watch_end(start: u64) -> u64 {
    let w = &WATCH[MYW.with(|w| w.get())];
    w.limit.store(0, Ordering::SeqCst);
    clock_ns(w.clock.load(Ordering::Relaxed)).saturating_sub(start)
}
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        for w in WATCH.iter() {
            let l = w.limit.load(Ordering::SeqCst);
            let s = w.start.load(Ordering::SeqCst);
            if l == 0 { continue; }
            let now = clock_ns(w.clock.load(Ordering::SeqCst));
            if now > s && now - s > l && w.limit.load(Ordering::SeqCst) == l && w.start.load(Ordering::SeqCst) == s {
                let path = TRIP_FILE.lock().unwrap().clone();
                let t = w.text.lock().unwrap().clone();
                let _ = std::fs::write(path, t);
                unsafe { libc::_exit(77) }
            }
        }
    });
}

// ---------------------------------------------------------------- observations
#[derive(Default)]
pub struct Obs { pub labels: Vec<&'static str>, pub nontrivial: bool }
impl Obs {
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn when(&mut self, c: bool, l: &'static str) { if c { self.labels.push(l); } }
    pub fn nt(&mut self, c: bool) { self.nontrivial |= c; }
}
pub type Res = Result<(), String>;

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub max_allocs: u64,
    pub max_ns: u64,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels { *self.labels.entry(k).or_default() += v; }
        for s in o.samples { if self.samples.len() < 3 { self.samples.push(s); } }
        self.max_allocs = self.max_allocs.max(o.max_allocs);
        self.max_ns = self.max_ns.max(o.max_ns);
    }
}
#[derive(Clone, Debug)]
pub struct Failure { pub sub: &'static str, pub msg: String, pub case: String, pub shown: String }

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- sub-checks
#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough }

/// case-count multiplier of the property being built, so that its quick check takes about 15 s
pub static SCALE: AtomicU64 = AtomicU64::new(1);
/// PBT_PERCENT: fewer (or more) random cases, for trying the machinery out; 100 when unset
fn percent() -> u64 { std::env::var("PBT_PERCENT").ok().and_then(|s| s.parse().ok()).unwrap_or(100) }

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub chunks: Box<dyn Fn(Tier) -> usize + Send + Sync>,
    pub run: Box<dyn Fn(Tier, u64, usize, &AtomicBool) -> (Stats, Option<Failure>) + Send + Sync>,
    pub replay: Box<dyn Fn(&str) -> Res + Send + Sync>,
}

/// bounds on one case: allocations, live bytes, seconds of processor time
pub struct Opts { pub allocs: u64, pub live: i64, pub cpu: u64 }
pub const STD: Opts = Opts { allocs: 600_000_000, live: 2 << 30, cpu: 100 };
pub const HEAVY: Opts = Opts { allocs: 20_000_000_000, live: 4 << 30, cpu: 300 };
/// hours-long tier only
pub const HUGE: Opts = Opts { allocs: 400_000_000_000, live: 8 << 30, cpu: 20_000 };

fn exec<V: Enc>(sub: &'static str, o: &Opts, v: &V, obs: &mut Obs, test: &dyn Fn(&V, &mut Obs) -> Res) -> (Res, Cost) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        v.enc(&mut c);
        write_slot(sub, &c);
    });
    CUR_SUB.with(|c| c.set(sub));
    ALLOCS.with(|a| a.set(0));
    let base = LIVE.with(|a| a.get());
    LIM_ALLOCS.with(|a| a.set(o.allocs));
    LIM_LIVE.with(|a| a.set(base + o.live));
    let t0 = CURRENT.with(|c| watch_begin(sub, &c.borrow(), o.cpu));
    let r = catch_unwind(AssertUnwindSafe(|| test(v, obs)));
    let used = ALLOCS.with(|a| a.get());
    LIM_ALLOCS.with(|a| a.set(u64::MAX));
    LIM_LIVE.with(|a| a.set(i64::MAX));
    let ns = watch_end(t0);
    clear_slot();
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    (r, Cost { used, ns })
}
pub struct Cost { used: u64, ns: u64 }
fn note<V: Debug>(st: &mut Stats, v: &V, obs: Obs, cost: Cost) {
    st.evals += 1;
    st.max_allocs = st.max_allocs.max(cost.used);
    st.max_ns = st.max_ns.max(cost.ns);
    for l in obs.labels { *st.labels.entry(l).or_default() += 1; }
    if obs.nontrivial {
        let h = CURRENT.with(|c| hash(&c.borrow()));
        if st.distinct.insert(h) && (st.samples.len() < 2) {
            st.samples.push(clip(&format!("{:?}", Show(v)), 600));
        }
    }
}
struct Show<'a, V>(&'a V);
impl<'a, V: Debug> Debug for Show<'a, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt(f) }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else {
        let mut k = n;
        while !s.is_char_boundary(k) { k -= 1; }
        format!("{}...", &s[..k])
    }
}
/// BigInt's derived Debug is unreadable; cases are shown in their replay encoding (hex) instead.
pub trait CaseShow { fn show(&self) -> String; }
impl<V: Enc> CaseShow for V { fn show(&self) -> String { let mut s = String::new(); self.enc(&mut s); s } }

fn seed32(seed: u64, sub: &str, chunk: usize) -> [u8; 32] {
    let mut x = hash(sub) ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (chunk as u64).wrapping_mul(0xD1B54A32D192ED03);
    let mut out = [0u8; 32];
    for i in 0..4 {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

pub fn random<V, S, T>(name: &'static str, rule: &'static str, quick: u64, thorough: u64, o: &'static Opts, strat: S, test: T) -> Sub
where V: Enc + Debug + Clone + 'static, S: Fn(Tier) -> BoxedStrategy<V> + Send + Sync + 'static, T: Fn(&V, &mut Obs) -> Res + Send + Sync + 'static
{
    let test = Arc::new(test);
    let t2 = test.clone();
    let scale = SCALE.load(Ordering::SeqCst);
    let count = move |t: Tier| (if t == Tier::Quick { quick } else { thorough }) * scale * percent() / 100;
    let nchunks = move |t: Tier| (count(t).max(1) as usize).clamp(1, 32);
    Sub {
        name, rule,
        chunks: Box::new(nchunks),
        run: Box::new(move |tier, seed, chunk, stop| {
            let n = nchunks(tier) as u64;
            let total = count(tier);
            let cases = total / n + if (chunk as u64) < total % n { 1 } else { 0 };
            let st = RefCell::new(Stats::default());
            let failing = Cell::new(false);
            let msg = RefCell::new(String::new());
            let cfg = Config { cases: cases as u32, failure_persistence: None, max_shrink_iters: 3000, max_shrink_time: 30_000, max_global_rejects: 1_000_000, max_local_rejects: 1_000_000, verbose: 0, ..Config::default() };
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(seed, name, chunk));
            let mut runner = TestRunner::new_with_rng(cfg, rng);
            let r = runner.run(&strat(tier), |v| {
                if !failing.get() && stop.load(Ordering::Relaxed) { return Ok(()); }
                let mut obs = Obs::default();
                let (r, used) = exec(name, o, &v, &mut obs, &*test);
                if !failing.get() { note(&mut st.borrow_mut(), &Hex(&v), obs, used); }
                match r {
                    Ok(()) => Ok(()),
                    Err(m) => {
                        failing.set(true);
                        *msg.borrow_mut() = m.clone();
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            let fail = match r {
                Ok(()) => None,
                Err(TestError::Fail(_, v)) => {
                    let mut obs = Obs::default();
                    let m = match exec(name, o, &v, &mut obs, &*test).0 { Err(m) => m, Ok(()) => format!("(not reproduced on the shrunk case) {}", msg.borrow()) };
                    Some(Failure { sub: name, msg: m, case: v.show(), shown: clip(&v.show(), 2000) })
                }
                Err(TestError::Abort(m)) => panic!("generator of {} gave up: {}", name, m),
            };
            (st.into_inner(), fail)
        }),
        replay: Box::new(move |s| {
            let v = V::dec(&mut Toks::new(s));
            exec(name, o, &v, &mut Obs::default(), &*t2).0
        }),
    }
}
struct Hex<'a, V>(&'a V);
impl<'a, V: Enc> Debug for Hex<'a, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0.show()) }
}

/// Bounded exhaustive generation: every case of a finite list, striped over chunks.
pub fn enumerate<V, S, T>(name: &'static str, rule: &'static str, o: &'static Opts, list: S, test: T) -> Sub
where V: Enc + Debug + Clone + 'static, S: Fn(Tier) -> Vec<V> + Send + Sync + 'static, T: Fn(&V, &mut Obs) -> Res + Send + Sync + 'static
{
    let test = Arc::new(test);
    let t2 = test.clone();
    let list = Arc::new(list);
    let l2 = list.clone();
    const K: usize = 256;
    Sub {
        name, rule,
        chunks: Box::new(move |t| l2(t).len().clamp(1, K)),
        run: Box::new(move |tier, _seed, chunk, stop| {
            let all = list(tier);
            let k = all.len().clamp(1, K);
            let mut st = Stats::default();
            let mut i = chunk;
            while i < all.len() {
                if stop.load(Ordering::Relaxed) { break; }
                let v = &all[i];
                let mut obs = Obs::default();
                let (r, used) = exec(name, o, v, &mut obs, &*test);
                note(&mut st, &Hex(v), obs, used);
                if let Err(m) = r {
                    return (st, Some(Failure { sub: name, msg: m, case: v.show(), shown: clip(&v.show(), 2000) }));
                }
                i += k;
            }
            (st, None)
        }),
        replay: Box::new(move |s| {
            let v = V::dec(&mut Toks::new(s));
            exec(name, o, &v, &mut Obs::default(), &*t2).0
        }),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{}{}", m, loc); });
        if CUR_SUB.with(|c| c.get()).is_empty() || std::env::var_os("PBT_VERBOSE").is_some() { eprintln!("panic: {}{}", m, loc); }
    }));
}

/// true if `f` panics (used for "is refused" clauses)
/// (refused, also when it is asked for again)
pub fn refuses<R>(f: impl Fn() -> R) -> bool { (0..2).all(|_| catch_unwind(AssertUnwindSafe(&f)).is_err()) }
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }

pub struct Outcome { pub per_sub: Vec<(&'static str, &'static str, Stats)>, pub failures: Vec<Failure>, pub harness_error: Option<String> }

pub fn run_all(subs: &[Sub], tier: Tier, seed: u64, threads: usize, work: &str) -> Outcome {
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    for (i, s) in subs.iter().enumerate() { for c in 0..(s.chunks)(tier) { jobs.push((i, c)); } }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats: Mutex<Vec<Stats>> = Mutex::new(vec![Stats::default(); subs.len()]);
    let fails: Mutex<Vec<(usize, Failure)>> = Mutex::new(Vec::new());
    let herr: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, stats, fails, herr, jobs) = (&next, &stop, &stats, &fails, &herr, &jobs);
            let slot = format!("{}/slot{}", work, t);
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                open_slot(&slot);
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= jobs.len() || stop.load(Ordering::Relaxed) { break; }
                    let (i, c) = jobs[k];
                    CUR_SUB.with(|c| c.set(""));
                    match catch_unwind(AssertUnwindSafe(|| (subs[i].run)(tier, seed, c, stop))) {
                        Ok((st, f)) => {
                            stats.lock().unwrap()[i].merge(st);
                            if let Some(f) = f { fails.lock().unwrap().push((k, f)); stop.store(true, Ordering::Relaxed); }
                        }
                        Err(_) => {
                            *herr.lock().unwrap() = Some(format!("{} chunk {}: {}", subs[i].name, c, LAST_PANIC.with(|p| p.borrow().clone())));
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            }).unwrap();
        }
    });
    let mut f = fails.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    let st = stats.into_inner().unwrap();
    Outcome {
        per_sub: subs.iter().zip(st).map(|(s, st)| (s.name, s.rule, st)).collect(),
        failures: f.into_iter().map(|x| x.1).collect(),
        harness_error: herr.into_inner().unwrap(),
    }
}

// ---------------------------------------------------------------- probes
pub enum Probe { Text(String), Panic(String), NoAnswer }
/// Runs one call at a scale where its cost depends on how it is written, in a child process with
/// its own memory and processor-time limits: running out of either is no answer, not a failure.
pub fn probe(args: &[&str]) -> Probe {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("probe").args(args).stdin(std::process::Stdio::null());
    unsafe {
        c.pre_exec(|| {
            let lim = |r, v| { let l = libc::rlimit { rlim_cur: v, rlim_max: v }; libc::setrlimit(r, &l); };
            lim(libc::RLIMIT_AS, 4 << 30);
            lim(libc::RLIMIT_CPU, 40);
            lim(libc::RLIMIT_CORE, 0);
            Ok(())
        });
    }
    match c.output() {
        Ok(o) if o.status.code() == Some(0) => Probe::Text(String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.strip_prefix("probe: ")).collect()),
        Ok(o) if o.status.code() == Some(101) => Probe::Panic(clip(&String::from_utf8_lossy(&o.stderr), 400)),
        _ => Probe::NoAnswer,
    }
}
