//! Case generation, sharding, shrinking, replay files, evidence and crash supervision.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 16;
pub const THREADS: usize = 8;
pub const SLOT: usize = 1 << 18;
/// A case normally takes well under a millisecond; one that takes this long is rerun alone with a
/// CPU limit before anything is concluded from it.
const STUCK: Duration = Duration::from_secs(25);

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}
impl Obs {
    pub fn label(&mut self, l: &str) {
        self.labels_add(l, 1)
    }
    pub fn labels_add(&mut self, l: &str, n: u64) {
        if let Some(v) = self.labels.get_mut(l) {
            *v += n
        } else {
            self.labels.insert(l.to_owned(), n);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT_IX: RefCell<usize> = const { RefCell::new(usize::MAX) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, turning a panic of the code under test into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", last_panic()))
}

/// A case that draws more than the terminal's budget says nothing.
/// (A huge count makes long texts, redrawn for every character; C01 bounds that.)
fn tolerate(e: String) -> Res {
    if e.contains(crate::sess::TOO_MUCH) {
        return Ok(());
    }
    Err(e)
}

pub struct ShardOut {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<(String, String)>,
}

pub trait DynSuite: Send + Sync {
    fn name(&self) -> &str;
    fn cases(&self, thorough: bool) -> u64;
    fn rule(&self) -> &str;
    fn run_shard(&self, seed: u64, shard: u64, cases: u64) -> ShardOut;
    fn replay(&self, case: &str) -> Res;
    #[cfg(feature = "guided")]
    fn guided(&self, g: &mut crate::guided::Guide) -> ShardOut;
}

pub struct Suite<T> {
    pub name: &'static str,
    /// What a case is and what makes it non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: Box<dyn Fn() -> BoxedStrategy<T> + Send + Sync>,
    pub check: fn(&T, &mut Obs) -> Res,
}

pub fn suite<T, S, G>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    gen: G,
    check: fn(&T, &mut Obs) -> Res,
) -> Box<dyn DynSuite>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
    S: Strategy<Value = T> + 'static,
    G: Fn() -> S + Send + Sync + 'static,
{
    Box::new(Suite {
        name,
        rule,
        quick,
        thorough,
        strat: Box::new(move || gen().boxed()),
        check,
    })
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn seed_bytes(seed: u64, name: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(fnv(name))
        .wrapping_add(shard.wrapping_mul(0xD1B54A32D192ED03));
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

impl<T> DynSuite for Suite<T>
where
    T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
{
    fn name(&self) -> &str {
        self.name
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn run_shard(&self, seed: u64, shard: u64, cases: u64) -> ShardOut {
        let out = RefCell::new(ShardOut {
            evaluations: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            failure: None,
        });
        if cases == 0 {
            return out.into_inner();
        }
        let cfg = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 20_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, self.name, shard));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.strat)();
        let failed = std::cell::Cell::new(false);
        let res = runner.run(&strat, |case| {
            let json = serde_json::to_string(&case).unwrap();
            slot_begin(self.name, &json);
            let mut obs = Obs::default();
            let r = guarded(|| (self.check)(&case, &mut obs)).and_then(|r| r).or_else(tolerate);
            slot_end();
            if !failed.get() {
                let mut o = out.borrow_mut();
                o.evaluations += 1;
                for (k, v) in &obs.labels {
                    *o.labels.entry(k.clone()).or_insert(0) += v;
                }
                if obs.nontrivial && o.distinct.insert(fnv(&json)) && o.samples.len() < 1 {
                    let mut s = json.clone();
                    if s.len() > 600 {
                        let mut e = 600;
                        while !s.is_char_boundary(e) {
                            e -= 1
                        }
                        s.truncate(e);
                        s.push_str("...");
                    }
                    o.samples.push(s);
                }
            }
            r.map_err(|m| {
                failed.set(true);
                TestCaseError::fail(m)
            })
        });
        let mut out = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                out.failure = Some((
                    reason.message().to_string(),
                    serde_json::to_string(&case).unwrap(),
                ))
            }
            Err(TestError::Abort(r)) => panic!("generator aborted in {}: {}", self.name, r),
        }
        out
    }
    fn replay(&self, case: &str) -> Res {
        let case: T = serde_json::from_str(case).map_err(|e| format!("bad replay: {e}"))?;
        let mut obs = Obs::default();
        guarded(|| (self.check)(&case, &mut obs)).and_then(|r| r).or_else(tolerate)
    }
    #[cfg(feature = "guided")]
    fn guided(&self, g: &mut crate::guided::Guide) -> ShardOut {
        let mut out = ShardOut {
            evaluations: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            failure: None,
        };
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let strat = (self.strat)();
        while let Some(bytes) = g.next() {
            let rng = TestRng::from_seed(RngAlgorithm::PassThrough, &bytes);
            let mut runner = TestRunner::new_with_rng(cfg.clone(), rng);
            let Ok(mut tree) = strat.new_tree(&mut runner) else { continue };
            let used = runner.rng().consumed();
            let run = |case: &T, obs: &mut Obs| {
                let json = serde_json::to_string(case).unwrap();
                slot_begin(self.name, &json);
                let r = guarded(|| (self.check)(case, obs)).and_then(|r| r).or_else(tolerate);
                slot_end();
                (r, json)
            };
            let mut obs = Obs::default();
            crate::guided::clear();
            let (r, json) = run(&tree.current(), &mut obs);
            g.learn(&bytes[..used.min(bytes.len())]);
            out.evaluations += 1;
            if obs.nontrivial {
                out.distinct.insert(fnv(&json));
            }
            if let Err(reason) = r {
                let mut found = (reason, json);
                let end = Instant::now() + Duration::from_secs(60);
                let mut failed = true;
                while Instant::now() < end {
                    if !(if failed { tree.simplify() } else { tree.complicate() }) {
                        break;
                    }
                    let (r, json) = run(&tree.current(), &mut Obs::default());
                    failed = r.is_err();
                    if let Err(m) = r {
                        found = (m, json);
                    }
                }
                out.failure = Some(found);
                break;
            }
        }
        out
    }
}

// ---------------------------------------------------------------- in-flight slots (shared memory)

static SLOTS: AtomicUsize = AtomicUsize::new(0); // base address
static STARTED: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];

pub fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(path)
        .expect("slot file");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOT * THREADS,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    SLOTS.store(p as usize, Ordering::SeqCst);
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn slot_begin(suite: &str, json: &str) {
    let ix = SLOT_IX.with(|s| *s.borrow());
    let base = SLOTS.load(Ordering::Relaxed);
    if ix == usize::MAX || base == 0 {
        return;
    }
    let text = format!("{suite}\n{json}");
    let n = if text.len() + 8 > SLOT { 0 } else { text.len() };
    unsafe {
        let p = (base + ix * SLOT) as *mut u8;
        (p as *mut u64).write_volatile(0);
        std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(8), n);
        (p as *mut u64).write_volatile(n as u64);
    }
    STARTED[ix].store(now_ms(), Ordering::SeqCst);
}

fn slot_end() {
    let ix = SLOT_IX.with(|s| *s.borrow());
    let base = SLOTS.load(Ordering::Relaxed);
    if ix == usize::MAX || base == 0 {
        return;
    }
    STARTED[ix].store(0, Ordering::SeqCst);
    unsafe { ((base + ix * SLOT) as *mut u64).write_volatile(0) };
}

/// Cases that were being evaluated when a child process died, as (suite, case).
pub fn in_flight(path: &str) -> Vec<(String, String)> {
    let data = std::fs::read(path).unwrap_or_default();
    let mut v = vec![];
    for ix in 0..THREADS {
        let Some(s) = data.get(ix * SLOT..(ix + 1) * SLOT) else {
            continue;
        };
        let n = u64::from_le_bytes(s[..8].try_into().unwrap()) as usize;
        if n > 0 && n + 8 <= SLOT {
            if let Ok(t) = std::str::from_utf8(&s[8..8 + n]) {
                if let Some((a, b)) = t.split_once('\n') {
                    v.push((a.to_owned(), b.to_owned()));
                }
            }
        }
    }
    v
}

pub const EXIT_STUCK: i32 = 77;

pub struct Total {
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub per_suite: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub failure: Option<(String, String, String)>, // suite, reason, case
}

/// Ends the process, for the supervisor to look at the slots, when a case takes too long.
#[cfg(feature = "guided")]
pub fn watch() {
    SLOT_IX.with(|s| *s.borrow_mut() = 0);
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(100));
        let st = STARTED[0].load(Ordering::SeqCst);
        if st != 0 && now_ms().saturating_sub(st) > STUCK.as_millis() as u64 {
            unsafe { libc::_exit(EXIT_STUCK) };
        }
    });
}

pub fn run_suites(suites: &[Box<dyn DynSuite>], seed: u64, thorough: bool) -> Total {
    let mut tasks = vec![];
    for (i, s) in suites.iter().enumerate() {
        let n = s.cases(thorough);
        for sh in 0..SHARDS {
            let c = n / SHARDS + u64::from(sh < n % SHARDS);
            if c > 0 {
                tasks.push((i, sh, c));
            }
        }
    }
    // interleave so that long suites do not end up last
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let results: Mutex<Vec<(usize, u64, ShardOut)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        let mut handles = vec![];
        for t in 0..THREADS {
            let (tasks, next, stop, results) = (&tasks, &next, &stop, &results);
            handles.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT_IX.with(|s| *s.borrow_mut() = t);
                        loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= tasks.len() || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let (i, sh, c) = tasks[k];
                            let o = suites[i].run_shard(seed, sh, c);
                            if o.failure.is_some() {
                                stop.store(true, Ordering::SeqCst);
                            }
                            results.lock().unwrap().push((i, sh, o));
                        }
                    })
                    .unwrap(),
            );
        }
        let done = &done;
        sc.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let now = now_ms();
                for s in STARTED.iter() {
                    let st = s.load(Ordering::SeqCst);
                    if st != 0 && now.saturating_sub(st) > STUCK.as_millis() as u64 {
                        // the supervisor looks at the slot and reruns the case alone
                        unsafe { libc::_exit(EXIT_STUCK) };
                    }
                }
            }
        });
        let mut bad = None;
        for h in handles {
            if let Err(e) = h.join() {
                bad = Some(e);
            }
        }
        done.store(true, Ordering::SeqCst);
        if bad.is_some() {
            eprintln!("harness thread failed: {}", last_panic());
            unsafe { libc::_exit(2) };
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));
    let mut tot = Total {
        evaluations: 0,
        distinct: 0,
        labels: BTreeMap::new(),
        per_suite: BTreeMap::new(),
        samples: vec![],
        failure: None,
    };
    let mut dist: HashSet<(usize, u64)> = HashSet::new();
    let mut sampled = BTreeMap::new();
    for (i, _, o) in results {
        tot.evaluations += o.evaluations;
        let e = tot
            .per_suite
            .entry(suites[i].name().to_owned())
            .or_insert((0, 0));
        e.0 += o.evaluations;
        for h in o.distinct {
            if dist.insert((i, h)) {
                e.1 += 1;
            }
        }
        for (k, v) in o.labels {
            *tot.labels
                .entry(format!("{}/{}", suites[i].name(), k))
                .or_insert(0) += v;
        }
        for s in o.samples {
            let n = sampled.entry(i).or_insert(0);
            if *n < 3 {
                *n += 1;
                tot.samples.push(format!("{}: {}", suites[i].name(), s));
            }
        }
        if tot.failure.is_none() {
            if let Some((r, c)) = o.failure {
                tot.failure = Some((suites[i].name().to_owned(), r, c));
            }
        }
    }
    tot.distinct = dist.len() as u64;
    tot
}

// ---------------------------------------------------------------- scratch directories

static SCRATCH: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

/// Makes `dir` the place for the files of cases and the working directory of this process.
pub fn set_scratch(dir: &std::path::Path) {
    let d = dir.join("cases");
    std::fs::create_dir_all(&d).expect("scratch directory");
    std::env::set_current_dir(&d).expect("scratch directory");
    let _ = SCRATCH.set(d);
}

/// A directory of its own for a case, removed when dropped.
pub struct Scratch(pub std::path::PathBuf, pub String);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let name = format!("t{}", N.fetch_add(1, Ordering::SeqCst));
        let p = SCRATCH.get().expect("scratch directory").join(&name);
        std::fs::create_dir(&p).expect("scratch directory");
        Scratch(p, name)
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
