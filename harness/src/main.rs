mod checks;
mod dict;
#[cfg(feature = "guided")]
mod guided;
mod histmodel;
mod infra;
mod keys;
mod nav;
mod sess;
mod vimodel;
mod vt;

use infra::*;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::time::Instant;

/// The real standard output; file descriptor 1 itself becomes a pseudo-terminal of an odd size, so
/// that a redraw that looks at the process's own terminal instead of the one it was given shows.
static mut OUT_FD: i32 = 1;

pub const REAL_COLS: u16 = 61;

fn say(s: &str) {
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(OUT_FD) });
    let _ = writeln!(f, "{s}");
}

fn take_stdout() {
    unsafe {
        let saved = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        let (mut m, mut s) = (0, 0);
        let mut ws: libc::winsize = std::mem::zeroed();
        ws.ws_col = REAL_COLS;
        ws.ws_row = 24;
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) != 0 {
            eprintln!("cannot open a pseudo-terminal");
            libc::_exit(2);
        }
        libc::dup2(s, 1);
        libc::close(s);
        OUT_FD = saved;
    }
}

fn usage() -> ! {
    eprintln!("usage: check <property> [--replay FILE]");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_else(|| usage());
    if id == "--pty-session" {
        checks::c19::session_process(&args[1..]);
        return;
    }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let suites = checks::suites(&id).unwrap_or_else(|| usage());

    match args.get(1).map(|s| s.as_str()) {
        Some("--replay") => {
            let path = args.get(2).unwrap_or_else(|| usage());
            let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
                eprintln!("{path}: {e}");
                std::process::exit(2)
            });
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let path = &std::fs::canonicalize(path).unwrap().display().to_string();
            take_stdout();
            install_hook();
            let dir = own_scratch(&id);
            let case = v["case"].to_string();
            let s = suites
                .iter()
                .find(|s| s.name() == v["suite"].as_str().unwrap_or(""))
                .unwrap_or_else(|| usage());
            let res = s.replay(&case);
            let _ = std::fs::remove_dir_all(&dir);
            match res {
                Ok(()) => say("replay: holds"),
                Err(m) => {
                    say(&format!("replay: {m}"));
                    say(&format!("VIOLATION property={id} replay={path}"));
                    std::process::exit(1)
                }
            }
        }
        Some("--child") => {
            take_stdout();
            install_hook();
            let slots = args.get(2).unwrap_or_else(|| usage());
            map_slots(slots);
            set_scratch(std::path::Path::new(slots).parent().unwrap());
            std::process::exit(child(&id, &root, thorough, seed, &suites) as i32);
        }
        Some("--suite") => {
            // one suite only, for development
            take_stdout();
            install_hook();
            let suites: Vec<_> = suites
                .into_iter()
                .filter(|s| s.name() == args[2].as_str())
                .collect();
            let dir = own_scratch(&id);
            let bad = child(&id, "/tmp", thorough, seed, &suites);
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(bad as i32);
        }
        #[cfg(feature = "guided")]
        Some("--guided-child") => {
            take_stdout();
            install_hook();
            let dir = std::path::PathBuf::from(&args[2]);
            map_slots(dir.join("slots").to_str().unwrap());
            set_scratch(&dir);
            watch();
            let bad = guided::worker(&suites, seed, args[3].parse().unwrap(), args[4].parse().unwrap(), &dir);
            std::process::exit(bad as i32);
        }
        #[cfg(feature = "guided")]
        None => std::process::exit(guided::supervise(&id, &root, seed, &suites)),
        #[cfg(not(feature = "guided"))]
        None => std::process::exit(supervise(&id, &root, thorough, seed)),
        _ => usage(),
    }
}

fn replay_path(root: &str, id: &str, suite: &str) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    format!("{dir}/{id}-{suite}.json")
}

fn write_replay(root: &str, id: &str, suite: &str, reason: &str, case: &str) -> String {
    let path = replay_path(root, id, suite);
    let case: serde_json::Value = serde_json::from_str(case).unwrap_or_default();
    let v = serde_json::json!({"property": id, "suite": suite, "reason": reason, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn write_evidence(
    root: &str,
    id: &str,
    thorough: bool,
    seed: u64,
    tot: &Total,
    rule: &str,
    wall: f64,
    violations: u64,
) {
    let per: serde_json::Map<String, serde_json::Value> = tot
        .per_suite
        .iter()
        .map(|(k, (e, d))| {
            (
                k.clone(),
                serde_json::json!({"evaluations": e, "distinct_nontrivial": d}),
            )
        })
        .collect();
    let v = serde_json::json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evaluations,
            "distinct_nontrivial": tot.distinct,
            "rule": rule,
            "samples": tot.samples,
            "suites": per,
            "labels": tot.labels,
            "exhaustive": false
        },
        "assumptions": checks::ASSUMPTIONS,
        "wall_s": wall,
        "violations": violations
    });
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(
        format!("{dir}/{id}.json"),
        serde_json::to_string_pretty(&v).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

fn own_scratch(id: &str) -> std::path::PathBuf {
    let dir = std::env::temp_dir().join(format!("liner-one-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    set_scratch(&dir);
    dir
}

/// Whether a violation was found.
fn child(id: &str, root: &str, thorough: bool, seed: u64, suites: &[Box<dyn DynSuite>]) -> bool {
    let t0 = Instant::now();
    let tot = run_suites(suites, seed, thorough);
    let rule = suites
        .iter()
        .map(|s| format!("[{}] {}", s.name(), s.rule()))
        .collect::<Vec<_>>()
        .join(" ");
    let bad = tot.failure.is_some();
    write_evidence(
        root,
        id,
        thorough,
        seed,
        &tot,
        &rule,
        t0.elapsed().as_secs_f64(),
        bad as u64,
    );
    for (s, (e, d)) in &tot.per_suite {
        say(&format!("{id} {s}: {e} cases, {d} distinct non-trivial"));
    }
    if std::env::var("LABELS").is_ok() {
        for (k, v) in &tot.labels {
            say(&format!("    {k}: {v}"));
        }
    }
    if let Some((suite, reason, case)) = &tot.failure {
        say(&format!("{id} {suite}: {reason}\n  minimal case: {case}"));
        let p = write_replay(root, id, suite, reason, case);
        say(&format!("VIOLATION property={id} replay={p}"));
        return true;
    }
    say(&format!("{id}: held on {} cases in {:.1} s", tot.evaluations, t0.elapsed().as_secs_f64()));
    false
}

#[cfg_attr(feature = "guided", allow(dead_code))]
/// Runs the exploration in a child process so that an abort, a stack overflow or an endless loop
/// of the code under test ends as a replayable violation and not as a lost check.
fn supervise(id: &str, root: &str, thorough: bool, seed: u64) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let dir = std::env::temp_dir().join(format!("liner-check-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let slots = dir.join("slots");
    let f = std::fs::File::create(&slots).expect("slot file");
    f.set_len((SLOT * THREADS) as u64).expect("slot file");
    drop(f);
    let st = Command::new(&exe)
        .args([id, "--child", slots.to_str().unwrap()])
        .stdin(Stdio::null())
        .status();
    let code = match st.as_ref().map(|s| s.code()) {
        Ok(Some(c)) if c == 0 || c == 1 => c,
        Ok(Some(c)) if c != EXIT_STUCK && c != 134 && c != 101 => {
            eprintln!("check process failed with exit code {c}");
            c.max(2)
        }
        Ok(_) => dead(&exe, id, root, thorough, seed, slots.to_str().unwrap(), &dir),
        Err(e) => {
            eprintln!("cannot start: {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn dead(
    exe: &std::path::Path,
    id: &str,
    root: &str,
    thorough: bool,
    seed: u64,
    slots: &str,
    dir: &std::path::Path,
) -> i32 {
    use std::os::unix::process::CommandExt;
    use std::os::unix::process::ExitStatusExt;
    // all cases that were in flight, side by side, each alone in its process
    let mut runs = vec![];
    for (i, (suite, case)) in in_flight(slots).into_iter().enumerate() {
        let v: serde_json::Value = serde_json::from_str(&case).unwrap_or_default();
        let p = dir.join(format!("{i}.json"));
        let _ = std::fs::write(
            &p,
            serde_json::json!({"suite": suite, "case": v}).to_string(),
        );
        let mut c = Command::new(exe);
        c.args([id, "--replay", p.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let m = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &m);
                Ok(())
            });
        }
        if let Ok(ch) = c.spawn() {
            runs.push((suite, case, ch));
        }
    }
    let mut found = None;
    for (suite, case, mut ch) in runs {
        let st = ch.wait();
        if found.is_some() {
            continue;
        }
        let why = match st {
            Ok(s) if s.code() == Some(1) => "fails",
            Ok(s) if s.signal() == Some(libc::SIGXCPU) || s.signal() == Some(libc::SIGKILL) => {
                "uses 60 s of processor time without finishing"
            }
            Ok(s) if s.signal().is_some() || s.code() == Some(134) => "kills the process",
            _ => continue,
        };
        found = Some((suite, case, why));
    }
    if let Some((suite, case, why)) = found {
        let reason = format!("handling this case {why}");
        let path = write_replay(root, id, &suite, &reason, &case);
        let tot = Total {
            evaluations: 1,
            distinct: 1,
            labels: Default::default(),
            per_suite: Default::default(),
            samples: vec![format!("{suite}: {case}")],
            failure: None,
        };
        write_evidence(root, id, thorough, seed, &tot, "the run ended early at the case shown", 0.0, 1);
        say(&format!("{id} {suite}: {reason}\n  case: {case}"));
        say(&format!("VIOLATION property={id} replay={path}"));
        return 1;
    }
    eprintln!("the check process ended abnormally and no single case reproduces it");
    3
}
