//! C14: saved history loads back exactly, within the file limit.
use crate::histmodel::*;
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, History};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::fs;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Push(String),
    Max(usize),
    FileMax(usize),
    LoadDup(bool),
    AllowDup(bool),
    Inc(bool),
    /// commit to the named file
    Commit,
    /// commit to file 0 or 1 by path
    CommitTo(usize),
    /// commit to a device without space, or into a directory that is not there
    CommitFails(bool),
    Load(bool),
    LoadFile(usize, bool),
    Name(usize),
    Clear,
    /// another program rewrites or extends or removes a file
    Rewrite(usize, Vec<String>),
    Extend(usize, Vec<String>),
    /// a different file of the same size
    SameSize(usize),
    Remove(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

pub fn hline() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        6 => select(&["a", "b", "ab", "ls -l", "é中", "", " ", "x"][..]).prop_map(|s| s.to_string()),
        2 => line(12),
        1 => select(&["#", "#c", "# comment", " #no", "a#b", "#é"][..]).prop_map(|s| s.to_string()),
        1 => vec(any::<char>().prop_filter("printable", |c| !c.is_control() && *c != BAD), 0..6).prop_map(|v| v.into_iter().collect()),
    ]
}

/// A line another program writes: now and then not UTF-8.
pub fn foreign(l: impl Strategy<Value = String> + Clone) -> impl Strategy<Value = String> + Clone {
    (l, prop_oneof![12 => Just(None), 1 => any::<prop::sample::Index>().prop_map(Some)]).prop_map(|(l, bad)| match bad {
        None => l,
        Some(at) => {
            let mut v: Vec<char> = l.chars().collect();
            v.insert(at.index(v.len() + 1), BAD);
            v.into_iter().collect()
        }
    })
}

pub fn limit() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![3 => 0usize..6, 1 => prop_oneof![5 => 6usize..20, 1 => big_n(300)], 2 => Just(1000)]
}

fn gen() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        10 => hline().prop_map(Op::Push),
        1 => limit().prop_map(Op::Max),
        3 => limit().prop_map(Op::FileMax),
        2 => any::<bool>().prop_map(Op::LoadDup),
        1 => any::<bool>().prop_map(Op::AllowDup),
        1 => prop::bool::weighted(0.3).prop_map(Op::Inc),
        3 => Just(Op::Commit),
        2 => (0usize..2).prop_map(Op::CommitTo),
        1 => any::<bool>().prop_map(Op::CommitFails),
        5 => any::<bool>().prop_map(Op::Load),
        3 => (0usize..2, any::<bool>()).prop_map(|(a, b)| Op::LoadFile(a, b)),
        3 => (0usize..3).prop_map(Op::Name),
        1 => Just(Op::Clear),
        3 => (0usize..2, vec(foreign(hline()), 0..8)).prop_map(|(a, b)| Op::Rewrite(a, b)),
        2 => (0usize..2, vec(foreign(hline()), 0..3)).prop_map(|(a, b)| Op::Extend(a, b)),
        1 => (0usize..2).prop_map(Op::SameSize),
        1 => (0usize..2).prop_map(Op::Remove),
    ];
    // most cases start with a file that has something in it
    let first = (0usize..2, vec(foreign(hline()), 0..6), 0u8..4).prop_map(|(n, ls, how)| match how {
        0 => vec![],
        1 => vec![Op::Name(n)],
        _ => vec![Op::Rewrite(n, ls), Op::Name(n)],
    });
    (first, seq(op, 1..16)).prop_map(|(mut ops, more)| {
        ops.extend(more);
        Case { ops }
    })
}

fn check(c: &Case, obs: &mut Obs) -> Res {
    let sc = Scratch::new();
    let paths: Vec<String> = (0..3).map(|i| sc.path(&format!("h{i}"))).collect();
    let mut files: Vec<File> = vec![None, None, None];
    let mut h = History::new();
    let mut m = Hist::new();
    let mut name: Option<usize> = None;
    let (mut loads, mut commits) = (0, 0);
    for (k, op) in c.ops.iter().enumerate() {
        let fail = |e: String| format!("after {:?}: {e}", &c.ops[..=k]);
        match op {
            Op::Push(s) => {
                h.push(Buffer::from(s.as_str())).map_err(|e| fail(e.to_string()))?;
                match name {
                    Some(n) => m.push(s, &mut files[n], true),
                    None => m.push(s, &mut None, false),
                };
            }
            Op::Max(n) => {
                h.set_max_buffers_size(*n);
                m.max_mem = *n;
            }
            Op::FileMax(n) => {
                h.set_max_file_size(*n);
                m.max_file = *n;
            }
            Op::LoadDup(b) => {
                h.load_duplicates = *b;
                m.load_dup = *b;
            }
            Op::AllowDup(b) => {
                h.append_duplicate_entries = *b;
                m.allow_dup = *b;
            }
            Op::Inc(b) => {
                h.inc_append = *b;
                m.inc = *b;
            }
            Op::Commit => {
                h.commit_to_file();
                if let (Some(n), false) = (name, m.inc) {
                    files[n] = Some(m.commit());
                    commits += 1;
                }
            }
            Op::CommitTo(n) => {
                let r = h.commit_to_file_path(&paths[*n]);
                if !m.inc {
                    files[*n] = Some(m.commit());
                    commits += 1;
                }
                if let Err(e) = r {
                    return Err(fail(format!("commit failed: {e}")));
                }
            }
            Op::CommitFails(full) => {
                let p = if *full { "/dev/full".to_string() } else { sc.path("nowhere/h") };
                let r = h.commit_to_file_path(&p);
                if !m.inc {
                    let lines = m.commit();
                    if r.is_ok() && (!*full || !lines.is_empty()) {
                        return Err(fail(format!("commit of {} lines to {p} reported success", lines.len())));
                    }
                    // the entries dropped beyond the file limit need not be dropped by a failed commit
                    let got = hist_vec(&h);
                    if got.ends_with(&m.mem) {
                        m.mem = got;
                    }
                    obs.label("failing commit");
                }
            }
            Op::Load(append) => {
                let r = h.load_history(*append);
                let want = match name {
                    Some(n) => m.reload(&files[n], *append),
                    None => false,
                };
                if r.is_ok() != want {
                    return Err(fail(format!("load_history: {r:?}, expected success: {want}")));
                }
                loads += u32::from(want);
            }
            Op::LoadFile(n, append) => {
                let r = h.load_history_file(&paths[*n], *append);
                if r.is_ok() != files[*n].is_some() {
                    return Err(fail(format!("load_history_file: {r:?}, file {:?}", files[*n])));
                }
                if let Some(f) = &files[*n] {
                    m.load(f, 0, *append);
                    loads += 1;
                }
            }
            Op::Name(n) => {
                let r = h.set_file_name_and_load_history(&paths[*n]);
                if let Err(e) = r {
                    return Err(fail(format!("set_file_name_and_load_history: {e}")));
                }
                name = Some(*n);
                m.size = 0;
                match &files[*n] {
                    Some(f) => m.size = m.load(f, 0, false),
                    None => files[*n] = Some(vec![]),
                }
                if h.file_name() != Some(paths[*n].as_str()) {
                    return Err(fail(format!("file_name() is {:?}", h.file_name())));
                }
            }
            Op::Clear => {
                h.clear_history();
                m.mem.clear();
            }
            Op::Rewrite(n, ls) => {
                fs::write(&paths[*n], text_of(ls)).map_err(|e| format!("harness: {e}"))?;
                files[*n] = Some(ls.clone());
            }
            Op::Extend(n, ls) => {
                if let Some(f) = &mut files[*n] {
                    f.extend(ls.iter().cloned());
                    fs::write(&paths[*n], text_of(f)).map_err(|e| format!("harness: {e}"))?;
                }
            }
            Op::SameSize(n) => {
                if let Some(f) = &mut files[*n] {
                    f.reverse();
                    if let Some(l) = f.first_mut() {
                        *l = "q".repeat(text_of(&[l.clone()]).len() - 1);
                    }
                    fs::write(&paths[*n], text_of(f)).map_err(|e| format!("harness: {e}"))?;
                }
            }
            Op::Remove(n) => {
                let _ = fs::remove_file(&paths[*n]);
                files[*n] = None;
            }
        }
        let got = hist_vec(&h);
        if got != m.mem {
            return Err(fail(format!("history {got:?}, expected {:?}", m.mem)));
        }
        for (p, f) in paths.iter().zip(&files) {
            let got = fs::read(p).ok();
            let want = f.as_ref().map(|f| text_of(f));
            if got != want {
                let show = |v: &Option<Vec<u8>>| format!("{:?}", v.as_ref().map(|v| String::from_utf8_lossy(v).into_owned()));
                return Err(fail(format!("file {}, expected {}", show(&got), show(&want))));
            }
        }
    }
    obs.nontrivial = loads > 0 && !m.mem.is_empty();
    obs.labels_add("loads", loads as u64);
    obs.labels_add("commits", commits);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trip {
    lines: Vec<String>,
    repeat: usize,
    limit: usize,
    reader_limit: usize,
}

/// Commit and load into another history, also with more text than any buffer holds at once.
fn check_trip(c: &Trip, obs: &mut Obs) -> Res {
    let sc = Scratch::new();
    let p = sc.path("h");
    let mut h = History::new();
    h.append_duplicate_entries = true;
    h.set_max_buffers_size(100_000);
    h.set_max_file_size(c.limit);
    let mut all = vec![];
    for i in 0..c.repeat {
        for l in &c.lines {
            let l = if i == 0 { l.clone() } else { format!("{l} {i}") };
            h.push(Buffer::from(l.as_str())).map_err(|e| e.to_string())?;
            all.push(l);
        }
    }
    h.commit_to_file_path(&p).map_err(|e| format!("commit: {e}"))?;
    let skip = all.len().saturating_sub(c.limit);
    let kept: Vec<String> = all[skip..].iter().filter(|l| !l.starts_with('#')).cloned().collect();
    let want = kept[kept.len().saturating_sub(c.reader_limit)..].to_vec();
    let mut g = History::new();
    g.set_max_file_size(c.reader_limit);
    let n = g.load_history_file(&p, false).map_err(|e| format!("load: {e}"))?;
    if hist_vec(&g) != want {
        return Err(format!("loaded {} entries, expected {}: {:?} / {want:?}", g.len(), want.len(), hist_vec(&g)));
    }
    if n != fs::metadata(&p).map_err(|e| e.to_string())?.len() {
        return Err(format!("load returned size {n}"));
    }
    // the same history to a device that takes nothing
    if !all[skip..].is_empty() && h.commit_to_file_path("/dev/full").is_ok() {
        return Err(format!("commit of {} lines to a full device reported success", h.len()));
    }
    obs.nontrivial = want.len() > 1;
    obs.label_if(n > 8192, "over 8 kB");
    obs.label_if(skip > 0, "limit reached");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "model",
            "a sequence of pushes, commits, loads, limits, flags, file changes by others and failing commits; list and files compared after each; non-trivial: a load happened and the history is not empty",
            90_000,
            1_500_000,
            gen,
            check,
        ),
        suite(
            "round-trip",
            "entries committed and loaded into another history, up to some 100 kB; non-trivial: two or more entries come back",
            9_000,
            150_000,
            || {
                (
                    vec(hline(), 0..10),
                    prop_oneof![4 => Just(1usize), 1 => 1usize..300],
                    prop_oneof![3 => Just(100_000usize), 1 => 0usize..12, 1 => Just(1000)],
                    prop_oneof![3 => Just(100_000usize), 1 => 0usize..12, 1 => Just(1000)],
                )
                    .prop_map(|(lines, repeat, limit, reader_limit)| Trip { lines, repeat, limit, reader_limit })
            },
            check_trip,
        ),
    ]
}
