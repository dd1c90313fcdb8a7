//! C13: in-memory history is the bounded list of pushed lines.
use super::c18::contains;
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, History};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Push(String),
    /// push the n-th entry of the current list again
    Again(usize),
    Max(usize),
    FileMax(usize),
    AllowDup(bool),
    Clear,
    RemoveDup(String),
    RemoveDupOf(usize),
    Incremental(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    terms: Vec<String>,
    pos: usize,
}

fn small() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        4 => vec(select(&['a', 'b', 'é', ' '][..]), 0..4).prop_map(|v| v.into_iter().collect::<String>()),
        2 => entry(true),
        1 => select(&["ab", "a\nb", "a", "ab ", "b"][..]).prop_map(|s| s.to_string()),
    ]
}

fn gen() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        12 => small().prop_map(Op::Push),
        4 => (0usize..8).prop_map(Op::Again),
        2 => prop_oneof![6 => 0usize..6, 6 => Just(1000), 1 => big_n(300)].prop_map(Op::Max),
        1 => (0usize..6).prop_map(Op::FileMax),
        2 => any::<bool>().prop_map(Op::AllowDup),
        1 => Just(Op::Clear),
        2 => small().prop_map(Op::RemoveDup),
        2 => (0usize..8).prop_map(Op::RemoveDupOf),
        1 => any::<bool>().prop_map(Op::Incremental),
    ];
    (seq_up_to(op, 0..16, 300), vec(small(), 1..4), 0usize..12)
        .prop_map(|(ops, terms, pos)| Case { ops, terms, pos })
}

fn strict_prefix(t: &str, p: &str) -> bool {
    !p.is_empty() && t.len() > p.len() && t.starts_with(p)
}

fn compare(h: &History, m: &[String], terms: &[String], pos: usize) -> Res {
    let got = hist_vec(h);
    if got != m {
        return Err(format!("history {got:?}, expected {m:?}"));
    }
    if h.len() != m.len() || h.is_empty() != m.is_empty() {
        return Err(format!("len {} is_empty {} for {m:?}", h.len(), h.is_empty()));
    }
    let it: Vec<String> = h.into_iter().map(|b| b.to_string()).collect();
    let ix: Vec<String> = (0..m.len()).map(|i| h[i].to_string()).collect();
    if it != m || ix != m {
        return Err(format!("iteration {it:?}, indexing {ix:?} for {m:?}"));
    }
    // the given terms, and every entry and its first and last parts
    let mut all: Vec<String> = terms.to_vec();
    for e in m.iter().take(3) {
        let cs: Vec<char> = e.chars().collect();
        all.push(e.clone());
        all.push(cs.iter().take(cs.len().saturating_sub(1)).collect());
        all.push(cs.iter().skip(1).collect());
    }
    for t in &all {
        let b = Buffer::from(t.as_str());
        let tc: Vec<char> = t.chars().collect();
        let has = |e: &String| contains(&e.chars().collect::<Vec<_>>(), &tc);
        let want: Vec<usize> = (0..m.len()).filter(|&i| has(&m[i])).collect();
        if h.search_index(&b) != want {
            return Err(format!("search_index({t:?}) = {:?}, expected {want:?} in {m:?}", h.search_index(&b)));
        }
        let mut sub: Vec<usize> = (0..m.len())
            .filter(|&i| has(&m[i]) && !strict_prefix(&m[i], t) && m[i] != *t)
            .collect();
        sub.extend((0..m.len()).filter(|&i| strict_prefix(&m[i], t)));
        if h.get_history_subset(&b) != sub {
            return Err(format!("get_history_subset({t:?}) = {:?}, expected {sub:?} in {m:?}", h.get_history_subset(&b)));
        }
        for p in [None, Some(pos), Some(0), Some(m.len()), Some(m.len() + 3)] {
            let want = (0..p.unwrap_or(m.len()).min(m.len())).rev().find(|&i| strict_prefix(&m[i], t));
            let got = h.get_newest_match(p, &b);
            if got != want {
                return Err(format!("get_newest_match({p:?}, {t:?}) = {got:?}, expected {want:?} in {m:?}"));
            }
        }
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Res {
    let mut h = History::new();
    let mut m: Vec<String> = vec![];
    let (mut max, mut dup) = (1000usize, false);
    let mut dropped = false;
    if h.file_name().is_some() || h.append_duplicate_entries || h.inc_append || h.share || !h.load_duplicates || h != History::default() {
        return Err(format!("a new history is {h:?}"));
    }
    compare(&h, &m, &c.terms, c.pos)?;
    for op in &c.ops {
        let push = match op {
            Op::Push(s) => Some(s.clone()),
            Op::Again(i) => m.get(m.len().wrapping_sub(1 + i)).cloned(),
            _ => None,
        };
        if let Some(s) = push {
            h.push(Buffer::from(s.as_str())).map_err(|e| format!("push failed: {e}"))?;
            if dup || m.last() != Some(&s) {
                m.push(s);
                let n = m.len().saturating_sub(max);
                m.drain(..n);
                dropped |= n > 0;
            } else {
                obs.label("duplicate dropped");
            }
        }
        match op {
            Op::Push(_) | Op::Again(_) => {}
            Op::Max(n) => {
                h.set_max_buffers_size(*n);
                max = *n;
            }
            Op::FileMax(n) => h.set_max_file_size(*n),
            Op::AllowDup(b) => {
                h.append_duplicate_entries = *b;
                dup = *b;
            }
            Op::Clear => {
                h.clear_history();
                m.clear();
            }
            Op::RemoveDup(s) => {
                h.remove_duplicates(s);
                m.retain(|e| e != s);
            }
            Op::RemoveDupOf(i) => {
                if let Some(s) = m.get(*i).cloned() {
                    h.remove_duplicates(&s);
                    m.retain(|e| *e != s);
                    obs.label("removed duplicates");
                }
            }
            Op::Incremental(b) => h.inc_append = *b,
        }
        compare(&h, &m, &c.terms, c.pos).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    obs.nontrivial = c.ops.iter().filter(|o| matches!(o, Op::Push(_) | Op::Again(_))).count() >= 3;
    obs.label_if(dropped, "limit reached");
    obs.label_if(m.len() > 4, "5+ entries at the end");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    n: usize,
    max: Option<usize>,
    period: usize,
}

/// Many pushes, beyond the default limit of 1000.
fn check_long(c: &Long, obs: &mut Obs) -> Res {
    let mut h = History::new();
    if let Some(m) = c.max {
        h.set_max_buffers_size(m);
    }
    let mut m = std::collections::VecDeque::new();
    let max = c.max.unwrap_or(1000);
    for i in 0..c.n {
        let s = format!("cmd {}", i % c.period);
        h.push(Buffer::from(s.as_str())).map_err(|e| e.to_string())?;
        if m.back() != Some(&s) {
            m.push_back(s);
        }
        while m.len() > max {
            m.pop_front();
        }
    }
    let m: Vec<String> = m.into();
    obs.nontrivial = c.n > max;
    compare(&h, &m, &["cmd 1".to_string(), "9".to_string()], c.n)
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "model",
            "a sequence of pushes, limits, flags, clears and duplicate removals, the list and all queries compared after each; non-trivial: three or more pushes",
            450_000,
            4_000_000,
            gen,
            check,
        ),
        suite(
            "long",
            "up to 2500 pushes with the default or a given limit; non-trivial: more pushes than the limit",
            1_800,
            10_000,
            || {
                (0usize..2500, prop_oneof![2 => Just(None), 1 => (900usize..1100).prop_map(Some), 1 => (0usize..50).prop_map(Some)], 1usize..2000)
                    .prop_map(|(n, max, period)| Long { n, max, period })
            },
            check_long,
        ),
    ]
}
