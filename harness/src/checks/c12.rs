//! C12: filename completion returns exactly the matching directory entries.
use crate::infra::*;
use liner::{Completer, FilenameCompleter};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Node {
    File,
    Dir(Vec<(String, bool)>),
    /// to the n-th entry of the top directory, or nowhere
    Link(Option<usize>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Comp {
    Dot,
    Up,
    Nth(usize),
    Name(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Last {
    Empty,
    Dot,
    Up,
    /// the first characters of the n-th entry of the directory reached
    Part(usize, usize),
    FlippedPart(usize, usize),
    Text(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    top: Vec<(String, Node)>,
    siblings: Vec<String>,
    dirs: Vec<Comp>,
    last: Last,
    /// 0 relative with working directory, 1 absolute, 2 absolute with another working directory,
    /// 3 relative without working directory, 4 relative with a relative working directory,
    /// 5 relative with working directory `.`
    base: u8,
    /// 0 escaped, 1 `"` open, 2 `"` closed, 3 `'` open, 4 `'` closed, 5 spaces as they are
    quote: u8,
    sensitive: bool,
    slashes: usize,
}

fn name() -> impl Strategy<Value = String> + Clone {
    let c = prop_oneof![
        30 => select(&['a', 'a', 'b', 'A', 'B', ' ', '.', 'é', 'É', '中', '-', '\'', '"', '1', 'Σ', 'σ'][..]),
        1 => select(&['#', '~', '$', '*', '@', '=', ':', '|', '&', '?', '[', '{', '\u{301}', 'ß', 'Ж', 'ж', '\u{a0}', '😀', '\t', '_', '+', ','][..]),
    ];
    // some names are long
    prop_oneof![30 => vec(c.clone(), 1..4), 1 => vec(c, 4..60)].prop_map(|v| v.into_iter().collect::<String>()).prop_filter("a name", |s| {
        s != "." && s != ".." && !s.starts_with('"') && !s.starts_with('\'')
    })
}

fn gen() -> impl Strategy<Value = Case> {
    let node = prop_oneof![
        4 => Just(Node::File),
        4 => vec((name(), any::<bool>()), 0..4).prop_map(Node::Dir),
        1 => proptest::option::of(0usize..6).prop_map(Node::Link),
    ];
    let comp = prop_oneof![1 => Just(Comp::Dot), 2 => Just(Comp::Up), 9 => (0usize..8).prop_map(Comp::Nth), 1 => name().prop_map(Comp::Name)];
    let last = prop_oneof![
        2 => Just(Last::Empty),
        1 => Just(Last::Dot),
        1 => Just(Last::Up),
        6 => (0usize..8, 1usize..4).prop_map(|(a, b)| Last::Part(a, b)),
        2 => (0usize..8, 1usize..4).prop_map(|(a, b)| Last::FlippedPart(a, b)),
        2 => name().prop_map(Last::Text),
    ];
    (
        prop_oneof![250 => vec((name(), node.clone()), 1..8), 1 => vec((name(), node), 50..140)],
        vec(name(), 0..3),
        vec(comp, 0..4),
        last,
        0u8..6,
        prop_oneof![4 => Just(0u8), 3 => 1u8..6],
        any::<bool>(),
        prop_oneof![9 => Just(1usize), 1 => Just(2)],
    )
        .prop_map(|(top, siblings, dirs, last, base, quote, sensitive, slashes)| Case {
            top,
            siblings,
            dirs,
            last,
            base,
            quote,
            sensitive,
            slashes,
        })
}

/// Letter by letter, as a prefix must stay one.
fn lower(s: &str) -> String {
    s.chars().flat_map(char::to_lowercase).collect()
}

/// What is at each path below the case's directory: directories only, with their entries; the flag
/// says whether an entry is a directory (following links).
#[derive(Default)]
struct Tree {
    dirs: BTreeMap<PathBuf, BTreeMap<String, (bool, PathBuf)>>,
}

fn build(c: &Case, root: &Path) -> std::io::Result<Tree> {
    use std::fs;
    let mut t = Tree::default();
    let w = root.join("w");
    fs::create_dir(&w)?;
    let mut above = BTreeMap::new();
    above.insert("w".to_string(), (true, w.clone()));
    for s in &c.siblings {
        if !above.contains_key(s) {
            fs::write(root.join(s), "")?;
            above.insert(s.clone(), (false, root.join(s)));
        }
    }
    t.dirs.insert(root.to_owned(), above);
    let mut top: BTreeMap<String, (bool, PathBuf)> = BTreeMap::new();
    let mut plain: Vec<(String, bool)> = vec![];
    for (n, node) in &c.top {
        if top.contains_key(n) {
            continue;
        }
        let p = w.join(n);
        match node {
            Node::File => {
                fs::write(&p, "")?;
                top.insert(n.clone(), (false, p));
                plain.push((n.clone(), false));
            }
            Node::Dir(es) => {
                fs::create_dir(&p)?;
                let mut sub = BTreeMap::new();
                for (e, d) in es {
                    if sub.contains_key(e) {
                        continue;
                    }
                    let q = p.join(e);
                    if *d {
                        fs::create_dir(&q)?;
                        t.dirs.insert(q.clone(), BTreeMap::new());
                    } else {
                        fs::write(&q, "")?;
                    }
                    sub.insert(e.clone(), (*d, q));
                }
                t.dirs.insert(p.clone(), sub);
                top.insert(n.clone(), (true, p));
                plain.push((n.clone(), true));
            }
            Node::Link(to) => {
                let target = to.and_then(|i| plain.get(i).cloned());
                let (to, d) = target.unwrap_or(("nowhere at all".into(), false));
                std::os::unix::fs::symlink(&to, &p)?;
                top.insert(n.clone(), (d, w.join(to)));
            }
        }
    }
    t.dirs.insert(w, top);
    Ok(t)
}

fn flip(s: &str) -> String {
    s.chars()
        .map(|c| match c.is_lowercase() {
            true => c.to_uppercase().next().unwrap(),
            false => c.to_lowercase().next().unwrap(),
        })
        .collect()
}

fn check(c: &Case, obs: &mut Obs) -> Res {
    let sc = Scratch::new();
    let root = sc.0.clone();
    let t = build(c, &root).map_err(|e| format!("harness: {e}"))?;
    let w = root.join("w");

    // walk the typed directory part through the generated tree
    let slash = "/".repeat(c.slashes);
    let mut typed = match c.base {
        1 | 2 => format!("{}/", w.display()),
        3 | 5 => format!("{}/w/", sc.1),
        _ => String::new(),
    };
    let mut at: Option<PathBuf> = Some(w.clone());
    for comp in &c.dirs {
        let up = |p: &PathBuf| if *p == root { None } else { p.parent().map(|p| p.to_owned()) };
        let n = match comp {
            Comp::Dot => ".".to_string(),
            Comp::Up => {
                // stay inside of the case's directory
                if at.as_ref().map_or(true, |p| up(p).is_none()) {
                    continue;
                }
                "..".to_string()
            }
            Comp::Nth(i) => {
                let Some(es) = at.as_ref().and_then(|p| t.dirs.get(p)) else { continue };
                if es.is_empty() {
                    continue;
                }
                let ds: Vec<_> = es.iter().filter(|(_, (d, _))| *d).map(|(n, _)| n).collect();
                match ds.len() {
                    0 if i % 8 > 0 => continue,
                    0 => es.keys().next().unwrap().clone(),
                    n => ds[i % n].clone(),
                }
            }
            Comp::Name(n) => n.clone(),
        };
        at = match n.as_str() {
            "." => at,
            ".." => at.as_ref().and_then(up),
            n => at
                .as_ref()
                .and_then(|p| t.dirs.get(p))
                .and_then(|es| es.get(n))
                .filter(|(d, _)| *d)
                .map(|(_, p)| p.clone()),
        };
        typed.push_str(&n);
        typed.push_str(&slash);
    }
    let part = |i: usize, k: usize| -> String {
        at.as_ref()
            .and_then(|p| t.dirs.get(p))
            .filter(|es| !es.is_empty())
            .map(|es| es.keys().nth(i % es.len()).unwrap().chars().take(k).collect())
            .unwrap_or_default()
    };
    let mut last = match &c.last {
        Last::Empty => String::new(),
        Last::Dot => ".".into(),
        Last::Up => "..".into(),
        Last::Part(i, k) => part(*i, *k),
        Last::FlippedPart(i, k) => flip(&part(*i, *k)),
        Last::Text(s) => s.clone(),
    };
    if last == ".." {
        // the parent directory, as if a slash followed
        match at.as_ref() {
            Some(p) if *p == root => last = ".".into(),
            Some(p) => {
                at = p.parent().map(|p| p.to_owned());
                typed.push_str("../");
                last = String::new();
            }
            None => {
                typed.push_str("../");
                last = String::new();
            }
        }
    }
    let typed_last = if typed.ends_with("../") && matches!(c.last, Last::Up) && last.is_empty() {
        typed[..typed.len() - 1].to_string()
    } else {
        format!("{typed}{last}")
    };
    let arg = match c.quote {
        1 => format!("\"{typed_last}"),
        2 => format!("\"{typed_last}\""),
        3 => format!("'{typed_last}"),
        4 => format!("'{typed_last}'"),
        5 => typed_last.clone(),
        _ => typed_last.replace(' ', "\\ "),
    };
    // an open quote that the text itself seems to close is ambiguous
    if (c.quote == 1 && typed_last.ends_with('"')) || (c.quote == 3 && typed_last.ends_with('\'')) {
        return Ok(());
    }
    if typed_last.starts_with(['"', '\'']) && (c.quote == 0 || c.quote == 5) {
        return Ok(());
    }

    let mut want: Vec<String> = at
        .as_ref()
        .and_then(|p| t.dirs.get(p))
        .map(|es| {
            es.iter()
                .filter(|(n, _)| {
                    if c.sensitive {
                        n.starts_with(&last)
                    } else {
                        lower(n).starts_with(&lower(&last))
                    }
                })
                .map(|(n, (d, _))| format!("{typed}{n}{}", if *d { "/" } else { "" }).replace(' ', "\\ "))
                .collect()
        })
        .unwrap_or_default();
    want.sort();
    let wd: Option<PathBuf> = match c.base {
        0 => Some(w.clone()),
        2 => Some(root.clone()),
        4 => Some(Path::new(&sc.1).join("w")),
        5 => Some(PathBuf::from(".")),
        _ => None,
    };
    let mut fc = if c.sensitive {
        FilenameCompleter::new(wd.clone())
    } else {
        FilenameCompleter::with_case_sensitivity(wd.clone(), false)
    };
    let mut got = fc.completions(&arg);
    got.sort();
    if got != want {
        return Err(format!(
            "working directory {wd:?}, case sensitive {}: {arg:?} completes to {got:?}, expected {want:?}",
            c.sensitive
        ));
    }
    obs.nontrivial = !want.is_empty();
    obs.label_if(c.base == 4 && !want.is_empty(), "relative working directory");
    obs.label_if(want.len() > 1, "several completions");
    obs.label_if(c.quote != 0 && !want.is_empty(), "quoted");
    obs.label_if(arg.contains("\\ "), "escaped space");
    obs.label_if(want.iter().any(|s| s.ends_with('/')), "a directory offered");
    obs.label_if(at.is_none(), "no such directory");
    obs.label_if(!c.sensitive && !last.is_empty() && !want.is_empty(), "case-insensitive");
    obs.label_if(typed.contains("./") && !want.is_empty(), ". and ..");
    obs.label_if(last.starts_with('.') && !want.is_empty(), "hidden");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Any {
    arg: String,
    wd: u8,
    sensitive: bool,
}

/// Arbitrary input must not panic; the directories it may name are only listed.
fn check_any(c: &Any, obs: &mut Obs) -> Res {
    let wd = match c.wd {
        0 => None,
        1 => Some(PathBuf::from("")),
        2 => Some(PathBuf::from("/")),
        _ => Some(PathBuf::from("/nonexistent")),
    };
    let got = FilenameCompleter::with_case_sensitivity(wd, c.sensitive).completions(&c.arg);
    obs.nontrivial = !got.is_empty();
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "tree",
            "a generated directory tree (files, directories, links; names with spaces, dots, multi-byte letters) and a partial path into it, in any quoting, with any working directory; non-trivial: at least one completion",
            60_000,
            800_000,
            gen,
            check,
        ),
        suite(
            "any",
            "arbitrary text over path, quote and multi-byte characters; non-trivial: something was listed",
            60_000,
            500_000,
            || {
                (
                    vec(prop_oneof![9 => select(&['/', '/', '.', '.', '\\', ' ', '"', '\'', 'é', '中', 'a', '~', 't', 'm', 'p'][..]), 1 => any::<char>()], 0..9)
                        .prop_map(|v| v.into_iter().collect::<String>()),
                    0u8..4,
                    any::<bool>(),
                )
                    .prop_map(|(arg, wd, sensitive)| Any { arg, wd, sensitive })
            },
            check_any,
        ),
    ]
}
