//! Coverage-guided generation: byte strings that the generators take their choices from are mutated,
//! and kept when a case reaches code, or reaches it a number of times, that none before has.
use crate::infra::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
/// The most bytes of a choice string.
const LONG: usize = 1 << 14;

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    START.store(start as usize, Ordering::SeqCst);
    STOP.store(stop as usize, Ordering::SeqCst);
}

fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    assert!(b > a, "the code is not instrumented");
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

pub fn clear() {
    counters().fill(0);
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n.max(1) as u64) as usize
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| (self.next() >> 24) as u8).collect()
    }
}

pub struct Guide {
    rng: Rng,
    seen: Vec<u8>,
    corpus: Vec<Vec<u8>>,
    dir: PathBuf,
    worker: usize,
    imported: HashSet<std::ffi::OsString>,
    to_import: Vec<Vec<u8>>,
    next_import: Instant,
    importing: bool,
    until: Instant,
    written: usize,
}

impl Guide {
    fn new(seed: u64, worker: usize, dir: &Path, until: Instant) -> Guide {
        Guide {
            rng: Rng(seed),
            seen: vec![0; counters().len()],
            corpus: vec![],
            dir: dir.to_owned(),
            worker,
            imported: HashSet::new(),
            to_import: vec![],
            next_import: Instant::now() + Duration::from_secs(3),
            importing: false,
            until,
            written: 0,
        }
    }

    /// What the other workers have found since.
    fn import(&mut self) {
        for e in std::fs::read_dir(&self.dir).into_iter().flatten().flatten() {
            let name = e.file_name();
            let n = name.to_string_lossy();
            if !n.starts_with(&format!("{}-", self.worker)) && !n.starts_with('.') && self.imported.insert(name) {
                self.to_import.extend(std::fs::read(e.path()));
            }
        }
    }

    pub fn next(&mut self) -> Option<Vec<u8>> {
        let now = Instant::now();
        if now >= self.until {
            return None;
        }
        if now >= self.next_import {
            self.next_import = now + Duration::from_secs(3);
            self.import();
        }
        if let Some(b) = self.to_import.pop() {
            self.importing = true;
            return Some(b);
        }
        self.importing = false;
        let r = &mut self.rng;
        if self.corpus.len() < 16 || r.below(16) == 0 {
            let n = [256, 1024, 4096, LONG][r.below(4)];
            return Some(r.bytes(n));
        }
        let n = self.corpus.len();
        let pick = if r.below(2) == 0 { n - 1 - r.below(n / 4 + 1) } else { r.below(n) };
        let mut b = self.corpus[pick].clone();
        for _ in 0..1 << r.below(5) {
            let at = r.below(b.len() / 4 + 1) * 4;
            let len = 4 << r.below(5);
            match r.below(8) {
                // choices are made from the highest bits
                0 | 1 => {
                    if let Some(x) = b.get_mut(at + 3 + 4 * r.below(2)) {
                        *x = r.next() as u8
                    }
                }
                2 | 3 => {
                    let len = 4 + 4 * r.below(2);
                    let new = r.bytes(len);
                    for (x, y) in b.iter_mut().skip(at).zip(new) {
                        *x = y
                    }
                }
                4 => {
                    let end = (at + len).min(b.len());
                    b.drain(at.min(end)..end);
                }
                5 => {
                    let new = r.bytes(len);
                    let at = at.min(b.len());
                    b.splice(at..at, new);
                }
                6 => {
                    let from = r.below(b.len() / 4 + 1) * 4;
                    let part = b[from.min(b.len())..(from + len).min(b.len())].to_vec();
                    let at = at.min(b.len());
                    b.splice(at..at, part);
                }
                _ => {
                    let other = &self.corpus[r.below(n)];
                    let from = r.below(other.len() / 4 + 1) * 4;
                    let part = &other[from.min(other.len())..(from + 4 * len).min(other.len())];
                    let at = at.min(b.len());
                    let end = if r.below(2) == 0 { at } else { (at + part.len()).min(b.len()) };
                    b.splice(at..end, part.iter().cloned());
                }
            }
        }
        b.truncate(LONG);
        // a longer case does not go on with zeros only
        let tail = r.bytes(256);
        b.extend(tail);
        Some(b)
    }

    pub fn learn(&mut self, used: &[u8]) {
        let mut new = false;
        for (c, s) in counters().iter().zip(self.seen.iter_mut()) {
            if *c != 0 {
                let b = bucket(*c);
                if *s & b == 0 {
                    *s |= b;
                    new = true;
                }
            }
        }
        if new {
            self.corpus.push(used.to_vec());
            if !self.importing {
                let tmp = self.dir.join(format!(".{}", self.worker));
                let name = self.dir.join(format!("{}-{}", self.worker, self.written));
                self.written += 1;
                if std::fs::write(&tmp, used).is_ok() {
                    let _ = std::fs::rename(tmp, name);
                }
            }
        }
    }

    fn covered(&self) -> usize {
        self.seen.iter().filter(|s| **s != 0).count()
    }
}

/// Whether this worker found a violation; what it did is in `dir`/stats.
pub fn worker(suites: &[Box<dyn DynSuite>], seed: u64, w: usize, secs: f64, dir: &Path) -> bool {
    let mut stats = serde_json::Map::new();
    let mut failure = None;
    for (i, s) in suites.iter().enumerate() {
        let shared = dir.parent().unwrap().join("corpus").join(s.name());
        let _ = std::fs::create_dir_all(&shared);
        let until = Instant::now() + Duration::from_secs_f64(secs);
        let mut g = Guide::new(
            seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((i as u64) << 40) ^ ((w as u64 + 1) << 8),
            w,
            &shared,
            until,
        );
        let out = s.guided(&mut g);
        stats.insert(
            s.name().to_owned(),
            serde_json::json!({"evaluations": out.evaluations, "distinct_nontrivial": out.distinct.len(),
                "corpus": g.corpus.len(), "covered": g.covered(), "counters": g.seen.len()}),
        );
        if let Some((reason, case)) = out.failure {
            failure = Some(serde_json::json!({"suite": s.name(), "reason": reason, "case": case}));
            break;
        }
    }
    let bad = failure.is_some();
    let v = serde_json::json!({"suites": stats, "failure": failure});
    std::fs::write(dir.join("stats"), v.to_string()).expect("statistics");
    bad
}

pub fn supervise(id: &str, root: &str, seed: u64, suites: &[Box<dyn DynSuite>]) -> i32 {
    let t0 = Instant::now();
    let total: f64 = std::env::var("VERIF_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(240.0);
    let secs = total / suites.len() as f64;
    let exe = std::env::current_exe().expect("own path");
    let top = std::env::temp_dir().join(format!("liner-guided-{}-{}", id, std::process::id()));
    let mut procs = vec![];
    for w in 0..WORKERS {
        let dir = top.join(format!("w{w}"));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let f = std::fs::File::create(dir.join("slots")).expect("slot file");
        f.set_len((SLOT * THREADS) as u64).expect("slot file");
        let c = Command::new(&exe)
            .args([id, "--guided-child", dir.to_str().unwrap(), &w.to_string(), &secs.to_string()])
            .stdin(Stdio::null())
            .spawn()
            .expect("worker");
        procs.push((dir, c));
    }
    // the first one to find something ends the others
    let mut ended: Vec<Option<std::process::ExitStatus>> = vec![None; WORKERS];
    while ended.iter().any(|e| e.is_none()) {
        std::thread::sleep(Duration::from_millis(100));
        for (i, (_, c)) in procs.iter_mut().enumerate() {
            if ended[i].is_none() {
                ended[i] = c.try_wait().ok().flatten();
            }
        }
        if ended.iter().flatten().any(|s| s.code() != Some(0)) {
            for (i, (_, c)) in procs.iter_mut().enumerate() {
                if ended[i].is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
    }
    let mut code = 0;
    let mut found = None;
    let mut per = serde_json::Map::new();
    let mut evaluations = 0;
    for (i, (dir, _)) in procs.iter().enumerate() {
        match ended[i].map(|s| s.code()) {
            None => {}
            Some(Some(c)) if c == 0 || c == 1 => {
                let t = std::fs::read_to_string(dir.join("stats")).unwrap_or_default();
                let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
                if let Some(m) = v["suites"].as_object() {
                    for (k, s) in m {
                        let e = per.entry(k.clone()).or_insert_with(|| {
                            serde_json::json!({"evaluations": 0, "distinct_nontrivial": 0, "corpus": 0, "covered": 0, "counters": 0})
                        });
                        for f in ["evaluations", "distinct_nontrivial"] {
                            e[f] = (e[f].as_u64().unwrap_or(0) + s[f].as_u64().unwrap_or(0)).into();
                        }
                        for f in ["corpus", "covered", "counters"] {
                            e[f] = e[f].as_u64().unwrap_or(0).max(s[f].as_u64().unwrap_or(0)).into();
                        }
                        evaluations += s["evaluations"].as_u64().unwrap_or(0);
                    }
                }
                if v["failure"].is_object() && found.is_none() {
                    found = Some(v["failure"].clone());
                }
            }
            Some(Some(c)) if c != EXIT_STUCK && c != 134 && c != 101 => {
                eprintln!("guided process failed with exit code {c}");
                code = 2;
            }
            Some(_) => {
                let c = super::dead(&exe, id, root, true, seed, dir.join("slots").to_str().unwrap(), dir);
                let _ = std::fs::remove_dir_all(&top);
                return c;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&top);
    for (k, v) in &per {
        super::say(&format!("{id} {k} guided: {v}"));
    }
    let path = format!("{root}/evidence/{id}.json");
    let mut ev: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(&path).unwrap_or_default()).unwrap_or_default();
    if ev.is_object() {
        let secs = t0.elapsed().as_secs_f64();
        let c = &mut ev["coverage"];
        c["evaluations"] = (c["evaluations"].as_u64().unwrap_or(0) + evaluations).into();
        c["guided"] = serde_json::json!({"suites": per, "workers": WORKERS, "seconds": secs,
            "rule": "coverage-guided: cases mutated from those that reached new code; corpus and covered counters are those of the largest worker"});
        ev["wall_s"] = (ev["wall_s"].as_f64().unwrap_or(0.0) + secs).into();
        if found.is_some() {
            ev["violations"] = 1.into();
        }
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap());
    }
    if let Some(f) = found {
        let (suite, reason, case) =
            (f["suite"].as_str().unwrap_or(""), f["reason"].as_str().unwrap_or(""), f["case"].as_str().unwrap_or(""));
        super::say(&format!("{id} {suite}: {reason}\n  minimal case: {case}"));
        let p = super::write_replay(root, id, suite, reason, case);
        super::say(&format!("VIOLATION property={id} replay={p}"));
        return 1;
    }
    if code == 0 {
        super::say(&format!("{id}: held on {evaluations} guided cases in {:.1} s", t0.elapsed().as_secs_f64()));
    }
    code
}
