//! C15: incremental and shared history files lose no entry.
use super::c14::{foreign, limit};
use crate::histmodel::*;
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, Editor, Emacs, EditorContext, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::fs;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inst {
    share: bool,
    load_dup: bool,
    allow_dup: bool,
    max_mem: usize,
    max_file: usize,
    vi: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ext {
    Truncate(usize),
    Remove,
    Rewrite(Vec<String>),
    Extend(Vec<String>),
    Push(usize, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Nav {
    Up,
    Down,
    Oldest,
    Draft,
    /// continues the entry or line on the next one
    Continue,
    /// goes to the draft line and types this
    Type(String),
    Ext(Ext),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Push(usize, String),
    Many(usize, usize, Vec<String>),
    Load(usize, bool),
    Navigate(usize, Vec<Nav>),
    /// search for the text and take what is found
    Search(usize, String),
    Ext(Ext),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    start: Vec<String>,
    insts: Vec<Inst>,
    ops: Vec<Op>,
}

fn l() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        8 => select(&["a", "b", "ab", "c", "é", "ls -l", "d", "e\\", "中 x"][..]).prop_map(|s| s.to_string()),
        2 => (0u32..40).prop_map(|n| format!("n{n}")),
        1 => line(8),
    ]
    .prop_filter("not a comment", |s| !s.starts_with('#'))
}

fn ext() -> impl Strategy<Value = Ext> {
    prop_oneof![
        2 => (0usize..4).prop_map(Ext::Truncate),
        1 => Just(Ext::Remove),
        1 => vec(foreign(l()), 0..5).prop_map(Ext::Rewrite),
        2 => vec(foreign(l()), 1..4).prop_map(Ext::Extend),
        3 => (0usize..3, l()).prop_map(|(a, b)| Ext::Push(a, b)),
    ]
}

fn gen() -> impl Strategy<Value = Case> {
    let inst = (prop::bool::weighted(0.6), any::<bool>(), any::<bool>(), limit(), limit(), any::<bool>()).prop_map(
        |(share, load_dup, allow_dup, max_mem, max_file, vi)| Inst { share, load_dup, allow_dup, max_mem, max_file, vi },
    );
    let nav = prop_oneof![
        8 => Just(Nav::Up),
        4 => Just(Nav::Down),
        1 => Just(Nav::Oldest),
        1 => Just(Nav::Draft),
        2 => Just(Nav::Continue),
        1 => select(&["a", "b", "l", "n", "n1", "zz"][..]).prop_map(|s| Nav::Type(s.to_string())),
        4 => ext().prop_map(Nav::Ext),
    ];
    // the file shrinks below the entry that is being edited
    let shrink = (1usize..5, 0usize..4, 1usize..3).prop_map(|(a, n, b)| {
        let mut v = vec![Nav::Up; a];
        v.extend([Nav::Continue, Nav::Ext(Ext::Truncate(n))]);
        v.extend(vec![Nav::Up; b]);
        v
    });
    // stepping through matches, back to the draft, and again after a change
    let again = (select(&["a", "b", "l", "n"][..]), 1usize..3, vec(ext(), 1..3), vec(nav.clone(), 0..3)).prop_map(|(t, a, es, more)| {
        let mut v = vec![Nav::Type(t.to_string())];
        v.extend(vec![Nav::Up; a]);
        v.extend(vec![Nav::Down; a]);
        v.extend(es.into_iter().map(Nav::Ext));
        v.push(Nav::Up);
        v.extend(more);
        v
    });
    let navs = prop_oneof![5 => vec(nav, 1..8), 1 => shrink, 2 => again];
    let op = prop_oneof![
        6 => (0usize..3, l()).prop_map(|(a, b)| Op::Push(a, b)),
        3 => (0usize..3, 1usize..45, vec(l(), 1..12)).prop_map(|(a, n, b)| Op::Many(a, n, b)),
        1 => (0usize..3, any::<bool>()).prop_map(|(a, b)| Op::Load(a, b)),
        3 => (0usize..3, navs).prop_map(|(a, b)| Op::Navigate(a, b)),
        2 => (0usize..3, select(&["a", "b", "é", "n1", "zz"][..])).prop_map(|(a, b)| Op::Search(a, b.to_string())),
        1 => ext().prop_map(Op::Ext),
    ];
    let start = prop_oneof![2 => Just(vec![]), 2 => vec(foreign(l()), 0..6), 1 => vec(prop_oneof![3 => l(), 1 => Just("# kept".to_string())], 0..8)];
    (start, vec(inst, 1..4), seq_up_to(op, 1..14, 30)).prop_map(|(start, insts, ops)| Case { start, insts, ops })
}

struct World {
    path: String,
    file: File,
    /// the same for every instance: its history and the model of it
    insts: Vec<(Option<Ctx>, Hist)>,
}

impl World {
    fn ext(&mut self, e: &Ext, busy: usize, obs: &mut Obs) -> Res {
        let mut write = None;
        match e {
            Ext::Truncate(n) => {
                if let Some(f) = &mut self.file {
                    f.truncate(*n);
                    write = Some(f.clone());
                }
            }
            Ext::Remove => {
                let _ = fs::remove_file(&self.path);
                self.file = None;
            }
            Ext::Rewrite(ls) => {
                self.file = Some(ls.clone());
                write = Some(ls.clone());
            }
            Ext::Extend(ls) => {
                if let Some(f) = &mut self.file {
                    f.extend(ls.iter().cloned());
                    write = Some(f.clone());
                }
            }
            Ext::Push(i, s) => {
                let i = i % self.insts.len();
                if i != busy {
                    self.push(i, s, obs)?;
                }
            }
        }
        if let Some(ls) = write {
            fs::write(&self.path, text_of(&ls)).map_err(|e| format!("harness: {e}"))?;
        }
        Ok(())
    }

    fn push(&mut self, i: usize, s: &str, obs: &mut Obs) -> Res {
        let (cx, m) = &mut self.insts[i];
        let h = &mut cx.as_mut().unwrap().history;
        h.push(Buffer::from(s)).map_err(|e| format!("push failed: {e}"))?;
        let before = self.file.as_ref().map(|f| f.len());
        let accepted = m.push(s, &mut self.file, true);
        if self.file.as_ref().map(|f| f.len()) < before {
            obs.label("compaction removed lines");
        }
        // independent of the model of compaction: the line is in the file
        let f = fs::read(&self.path).ok();
        if let Some(f) = f.map(|f| String::from_utf8_lossy(&f).into_owned()) {
            if accepted && m.max_file > 0 && before.is_some() && !f.lines().any(|x| x == s) {
                return Err(format!("pushed {s:?}, which is not in the file"));
            }
        }
        Ok(())
    }

    fn compare(&self, busy: usize) -> Res {
        let got = fs::read(&self.path).ok();
        let want = self.file.as_ref().map(|f| text_of(f));
        if got != want {
            let show = |v: &Option<Vec<u8>>| format!("{:?}", v.as_ref().map(|v| String::from_utf8_lossy(v).into_owned()));
            return Err(format!("file {}, expected {}", show(&got), show(&want)));
        }
        for (i, (cx, m)) in self.insts.iter().enumerate() {
            if i == busy {
                continue;
            }
            let got = hist_vec(&cx.as_ref().unwrap().history);
            if got != m.mem {
                return Err(format!("history of instance {i} {got:?}, expected {:?}", m.mem));
            }
        }
        Ok(())
    }
}

fn navigate<M: KeyMap>(w: &mut World, i: usize, vi: bool, navs: &[Nav], obs: &mut Obs) -> Res {
    let mut cx = w.insts[i].0.take().unwrap();
    let r = navigate_in::<M>(w, i, vi, navs, &mut cx, obs);
    w.insts[i].0 = Some(cx);
    r
}

fn navigate_in<M: KeyMap>(w: &mut World, i: usize, vi: bool, navs: &[Nav], cx: &mut Ctx, obs: &mut Obs) -> Res {
    let mut ed = Editor::new(Prompt::from("$ "), None, cx).map_err(|e| e.to_string())?;
    let mut km = M::default();
    km.init(&mut ed).map_err(|e| e.to_string())?;
    let mut loc: Option<usize> = None;
    let mut fresh = false;
    let mut draft = String::new();
    // the entries matching the draft, and the one shown
    let mut step: Option<(Vec<usize>, usize)> = None;
    let mut visits = 0;
    let mut loaded = false;
    for (k, n) in navs.iter().enumerate() {
        let at = || format!("navigating {:?}", &navs[..=k]);
        // the text of an entry is only known again once the user has moved
        let mut known = true;
        // Alt-< and Alt-> exist in Emacs bindings only
        let n = match n {
            Nav::Oldest if vi => &Nav::Up,
            Nav::Draft if vi => &Nav::Down,
            n => n,
        };
        match n {
            Nav::Ext(e) => {
                w.ext(e, i, obs)?;
                continue;
            }
            Nav::Type(t) => {
                if loc.is_some() {
                    // edits of an entry are another property
                    continue;
                }
                for c in t.chars() {
                    km.handle_key(Key::Char(c), &mut ed, &mut NoComp).map_err(|e| format!("{}: {e}", at()))?;
                }
                draft.push_str(t);
            }
            Nav::Up | Nav::Oldest => {
                let m = &mut w.insts[i].1;
                if m.share && !fresh {
                    let before = m.mem.clone();
                    let n = w.file.as_ref().map(|f| size(f));
                    if n.is_some() && n != Some(m.size) {
                        loaded = true;
                    }
                    m.reload(&w.file, false);
                    fresh = true;
                    obs.label_if(m.mem != before, "navigation shows a change");
                    if loc.map_or(false, |l| l >= m.mem.len()) {
                        loc = None;
                        obs.label("entry shown has gone");
                    }
                }
                let len = m.mem.len();
                if matches!(n, Nav::Up) && !draft.is_empty() && (step.is_some() || loc.is_none()) {
                    // through the entries that match the draft
                    step = match step {
                        Some((subset, j)) => Some((subset, j.max(1) - 1)),
                        None => {
                            let (strict, others): (Vec<usize>, Vec<usize>) =
                                (0..len).filter(|j| m.mem[*j].contains(&draft) && m.mem[*j] != draft).partition(|j| m.mem[*j].starts_with(&draft));
                            let subset: Vec<usize> = others.into_iter().chain(strict).collect();
                            let last = subset.len().checked_sub(1);
                            obs.label_if(last.is_some() && visits > 0, "matching entries again after a visit");
                            last.map(|j| (subset, j))
                        }
                    };
                    loc = step.as_ref().map(|(subset, j)| subset[*j]);
                    visits += 1;
                } else if matches!(n, Nav::Oldest) {
                    step = None;
                    loc = if len > 0 { Some(0) } else { None };
                } else {
                    loc = match loc {
                        Some(0) => Some(0),
                        Some(l) => Some(l - 1),
                        None if len > 0 => Some(len - 1),
                        None => None,
                    };
                }
                let key = if matches!(n, Nav::Oldest) { Key::Alt('<') } else { Key::Up };
                km.handle_key(key, &mut ed, &mut NoComp).map_err(|e| format!("{}: {e}", at()))?;
            }
            Nav::Down => {
                km.handle_key(Key::Down, &mut ed, &mut NoComp).map_err(|e| format!("{}: {e}", at()))?;
                let len = w.insts[i].1.mem.len();
                if let Some((subset, j)) = &mut step {
                    *j += 1;
                    loc = subset.get(*j).copied();
                    if loc.is_none() {
                        step = None;
                        fresh = false;
                    }
                } else if draft.is_empty() || loc.is_some() {
                    loc = match loc {
                        Some(l) if l + 1 < len => Some(l + 1),
                        _ => {
                            fresh = false;
                            None
                        }
                    };
                }
            }
            Nav::Draft => {
                km.handle_key(Key::Alt('>'), &mut ed, &mut NoComp).map_err(|e| format!("{}: {e}", at()))?;
                loc = None;
                step = None;
            }
            Nav::Continue => {
                if !draft.is_empty() {
                    continue;
                }
                for key in [Key::Char('\\'), Key::Char('\n')] {
                    km.handle_key(key, &mut ed, &mut NoComp).map_err(|e| format!("{}: {e}", at()))?;
                }
                fresh = false;
                if loc.is_none() {
                    draft.push_str("\\\n");
                    // with a draft, up and down look for matches: another property
                    return Ok(());
                }
                known = false;
            }
        }
        let m = &w.insts[i].1;
        let got = hist_vec(ed.context().history());
        if got != m.mem {
            return Err(format!("{}: history {got:?}, expected {:?}", at(), m.mem));
        }
        if known {
            let want = loc.map_or(draft.as_str(), |l| m.mem[l].as_str());
            if cur(&ed) != want || ed.current_history_location() != loc {
                return Err(format!(
                    "{}: shows {:?} at {:?}, expected {want:?} at {loc:?} of {:?}",
                    at(),
                    cur(&ed),
                    ed.current_history_location(),
                    m.mem
                ));
            }
        }
    }
    obs.label_if(loaded, "reloaded by navigation");
    Ok(())
}

fn search<M: KeyMap>(w: &mut World, i: usize, t: &str) -> Res {
    let (cx, m) = &mut w.insts[i];
    let cx = cx.as_mut().unwrap();
    if m.share {
        m.reload(&w.file, false);
    }
    let mut ed = Editor::new(Prompt::from("$ "), None, cx).map_err(|e| e.to_string())?;
    let mut km = M::default();
    km.init(&mut ed).map_err(|e| e.to_string())?;
    let keys = [Key::Ctrl('r')].into_iter().chain(t.chars().map(Key::Char)).chain([Key::Right, Key::Char('\n')]);
    let want = m.mem.iter().rev().find(|e| e.contains(t)).cloned().unwrap_or(t.to_owned());
    for k in keys {
        km.handle_key(k, &mut ed, &mut NoComp).map_err(|e| e.to_string())?;
    }
    let mut got = String::from(ed);
    if let Some(s) = got.strip_suffix('\n') {
        // an entry that ends in a backslash is continued by Enter
        got = s.to_owned();
    }
    if got != want {
        return Err(format!("searching for {t:?} found {got:?}, expected {want:?} in {:?}", m.mem));
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Res {
    let sc = Scratch::new();
    let path = sc.path("h");
    let mut w = World { path: path.clone(), file: None, insts: vec![] };
    if !c.start.is_empty() {
        fs::write(&path, text_of(&c.start)).map_err(|e| format!("harness: {e}"))?;
        w.file = Some(c.start.clone());
    }
    for i in &c.insts {
        let mut cx = ctx(80, &[], i.vi);
        let mut m = Hist::new();
        let h = &mut cx.history;
        h.inc_append = true;
        h.share = i.share;
        h.load_duplicates = i.load_dup;
        h.append_duplicate_entries = i.allow_dup;
        h.set_max_buffers_size(i.max_mem);
        h.set_max_file_size(i.max_file);
        m.inc = true;
        m.share = i.share;
        m.load_dup = i.load_dup;
        m.allow_dup = i.allow_dup;
        m.max_mem = i.max_mem;
        m.max_file = i.max_file;
        h.set_file_name_and_load_history(&path).map_err(|e| format!("set_file_name_and_load_history: {e}"))?;
        match &w.file {
            Some(f) => m.size = m.load(f, 0, false),
            None => w.file = Some(vec![]),
        }
        w.insts.push((Some(cx), m));
    }
    let n = w.insts.len();
    let mut pushes = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let r = match op {
            Op::Push(i, s) => {
                pushes += 1;
                w.push(i % n, s, obs)
            }
            Op::Many(i, times, ls) => {
                let mut r = Ok(());
                for j in 0..*times {
                    pushes += 1;
                    r = w.push(i % n, &ls[j % ls.len()], obs).and_then(|_| w.compare(usize::MAX));
                    if r.is_err() {
                        break;
                    }
                }
                r
            }
            Op::Load(i, append) => {
                let (cx, m) = &mut w.insts[i % n];
                let r = cx.as_mut().unwrap().history.load_history(*append);
                if r.is_ok() != m.reload(&w.file, *append) {
                    Err(format!("load_history: {r:?} with file {:?}", w.file))
                } else {
                    Ok(())
                }
            }
            Op::Navigate(i, navs) => {
                let i = i % n;
                if c.insts[i].vi {
                    navigate::<Vi>(&mut w, i, true, navs, obs)
                } else {
                    navigate::<Emacs>(&mut w, i, false, navs, obs)
                }
            }
            Op::Search(i, t) => {
                let i = i % n;
                if c.insts[i].vi {
                    search::<Vi>(&mut w, i, t)
                } else {
                    search::<Emacs>(&mut w, i, t)
                }
            }
            Op::Ext(e) => w.ext(e, usize::MAX, obs),
        };
        r.and_then(|_| w.compare(usize::MAX)).map_err(|e| format!("after {:?}: {e}", &c.ops[..=k]))?;
    }
    obs.nontrivial = pushes >= 2 && c.ops.len() >= 2;
    obs.label_if(n > 1, "several instances");
    obs.label_if(pushes >= 30, "30+ pushes");
    obs.label_if(c.insts.iter().any(|i| i.share), "sharing");
    Ok(())
}

// ---------------------------------------------------------------- at the same time

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Writer {
    share: bool,
    load_dup: bool,
    pushes: usize,
    /// every n-th line is the same one for everybody
    dup: Option<usize>,
    /// every n-th line has this many bytes
    long: Option<(usize, usize)>,
    /// loads the history after every n-th push
    load: Option<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Together {
    start: Vec<String>,
    writers: Vec<Writer>,
}

fn gen_together() -> impl Strategy<Value = Together> {
    let writer = (
        any::<bool>(),
        any::<bool>(),
        5usize..100,
        prop_oneof![1 => Just(None), 2 => (2usize..9).prop_map(Some)],
        prop_oneof![4 => Just(None), 1 => (2usize..20, prop_oneof![100usize..9000, Just(8192), Just(8191), Just(40_000)]).prop_map(Some)],
        prop_oneof![2 => Just(None), 1 => (1usize..9).prop_map(Some)],
    )
        .prop_map(|(share, load_dup, pushes, dup, long, load)| Writer { share, load_dup, pushes, dup, long, load });
    (vec("[a-z]{1,6}", 0..30), vec(writer, 2..5)).prop_map(|(mut start, writers)| {
        start.sort();
        start.dedup();
        Together { start, writers }
    })
}

const DUP: &str = "= the same";

fn line_of(w: usize, n: usize, wr: &Writer) -> String {
    if wr.dup.map_or(false, |d| n % d == 0) {
        return DUP.to_owned();
    }
    let mut l = format!("{w}:{n}:");
    if let Some((every, bytes)) = wr.long {
        if n % every == 0 {
            l.extend(std::iter::repeat('x').take(bytes.saturating_sub(l.len())));
        }
    }
    l
}

fn together(c: &Together, obs: &mut Obs) -> Res {
    let sc = Scratch::new();
    let path = sc.path("h");
    fs::write(&path, text_of(&c.start)).map_err(|e| format!("harness: {e}"))?;
    let go = std::sync::Barrier::new(c.writers.len());
    let results: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .writers
            .iter()
            .enumerate()
            .map(|(w, wr)| {
                let (path, go) = (&path, &go);
                s.spawn(move || {
                    guarded(|| {
                        let mut h = liner::History::new();
                        h.inc_append = true;
                        h.share = wr.share;
                        h.load_duplicates = wr.load_dup;
                        h.append_duplicate_entries = true;
                        h.set_max_buffers_size(100_000);
                        h.set_max_file_size(100_000);
                        let r = h.set_file_name_and_load_history(path).map_err(|e| e.to_string());
                        go.wait();
                        r?;
                        for n in 0..wr.pushes {
                            h.push(Buffer::from(line_of(w, n, wr))).map_err(|e| e.to_string())?;
                            if wr.load.map_or(false, |l| n % l == 0) {
                                h.load_history(false).map_err(|e| e.to_string())?;
                            }
                        }
                        Ok(())
                    })
                    .and_then(|r| r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for (w, r) in results.into_iter().enumerate() {
        r.map_err(|e| format!("instance {w}: {e}"))?;
    }
    let text = fs::read_to_string(&path).map_err(|e| format!("the file cannot be read: {e}"))?;
    let lines: Vec<&str> = text.lines().collect();
    let brief = |l: &str| if l.len() > 60 { format!("{}... ({} bytes)", &l[..40], l.len()) } else { l.to_owned() };
    // every line is one that was written
    let mut next = vec![0; c.writers.len()];
    let mut at_start = 0;
    for l in &lines {
        if *l == DUP {
            continue;
        }
        if at_start < c.start.len() && *l == c.start[at_start] {
            at_start += 1;
            continue;
        }
        let w = l.split(':').next().and_then(|x| x.parse::<usize>().ok()).filter(|w| *w < next.len());
        let Some(w) = w else {
            return Err(format!("{:?} is in the file, which nobody wrote", brief(l)));
        };
        let wr = &c.writers[w];
        // the next one of this writer, lines that are the same for all aside
        while next[w] < wr.pushes && line_of(w, next[w], wr) == DUP {
            next[w] += 1;
        }
        if next[w] >= wr.pushes || **l != line_of(w, next[w], wr) {
            return Err(format!("{:?} is in the file where line {} of instance {w} belongs", brief(l), next[w]));
        }
        next[w] += 1;
    }
    for (w, wr) in c.writers.iter().enumerate() {
        if let Some(n) = (next[w]..wr.pushes).find(|&n| line_of(w, n, wr) != DUP) {
            return Err(format!("line {n} of instance {w} is not in the file ({} lines)", lines.len()));
        }
    }
    if at_start < c.start.len() {
        return Err(format!("{:?}, which was in the file before, is not any more", c.start[at_start]));
    }
    let compacts = c.writers.iter().any(|w| !w.load_dup && w.pushes >= 30);
    if !compacts {
        let dups = c.writers.iter().map(|w| w.dup.map_or(0, |d| w.pushes.div_ceil(d))).sum::<usize>();
        let got = lines.iter().filter(|l| **l == DUP).count();
        if got != dups {
            return Err(format!("a line written {dups} times is in the file {got} times"));
        }
    }
    obs.nontrivial = true;
    obs.label_if(compacts, "compaction at the same time");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![suite(
        "together",
        "two to four instances in threads of their own append to one file at the same time, with and without compaction, sharing, loads and long lines; afterwards every line is in the file, whole, once, and in the order of its writer; always non-trivial",
        3_000,
        60_000,
        gen_together,
        together,
    ),
    suite(
        "instances",
        "one to three instances with their own flags and limits over one file: pushes (bursts that reach compaction), loads, navigation and search interleaved with pushes of others and outside changes of the file; files and lists compared after every step; non-trivial: two or more pushes",
        48_000,
        600_000,
        gen,
        check,
    )]
}
