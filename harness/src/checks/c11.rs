//! C11: completion replaces only the word at the cursor by offered candidates.
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::*;
use liner::{BasicCompleter, Completer, Emacs, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Vec<String>,
    words: Vec<String>,
    /// candidates are only the words that start with what was asked
    filter: bool,
    divider: u8,
    init: String,
    keys: Vec<K>,
}

pub fn word() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        6 => select(&["ab", "abc", "abd", "a", "b", "foo", "foobar", "foo bar", "foo baz", "é", "éa", "中文", "中日", "ab\\ c", "a b", "-", ".", "x ", "ab ab", "a\u{301}b"][..]).prop_map(|s: &str| s.to_owned()),
        1 => line(5),
        1 => Just(String::new()),
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum Keys {
    Emacs,
    ViInsert,
    ViNormal,
}

fn key(keys: Keys) -> BoxedStrategy<K> {
    let common = prop_oneof![
        14 => Just(K(Key::Char('\t'))),
        5 => select(&['a', 'b', 'f', ' ', ' ', 'é', '\\'][..]).prop_map(ch),
        1 => tchar().prop_map(ch),
        3 => Just(K(Key::Backspace)),
        3 => Just(K(Key::Left)),
        3 => Just(K(Key::Right)),
        1 => Just(K(Key::Home)),
        1 => Just(K(Key::End)),
        1 => Just(K(Key::Delete)),
        2 => Just(K(Key::Char('\n'))),
        1 => Just(K(Key::Up)),
        1 => Just(K(Key::Down)),
        1 => Just(ctrl('f')),
        1 => Just(ctrl('l')),
        1 => Just(ctrl('h')),
        1 => Just(K(Key::F(5))),
    ];
    if keys == Keys::ViInsert {
        common.boxed()
    } else if keys == Keys::ViNormal {
        prop_oneof![
            10 => Just(K(Key::Char('\t'))),
            8 => select(&['h', 'l', '0', '$', 'w', 'b', 'e', 'x', 'D'][..]).prop_map(ch),
            3 => select(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Delete, Key::Backspace, Key::Up, Key::Down, Key::F(5), Key::Char('\n')][..]).prop_map(K),
            1 => select(&['f', 'l'][..]).prop_map(ctrl),
        ]
        .boxed()
    } else {
        prop_oneof![8 => common, 1 => select(&['u', 'k', 'w', 'd', 'a', 'e', 'b', 'g'][..]).prop_map(ctrl), 1 => select(&['b', 'f', 'q'][..]).prop_map(alt)].boxed()
    }
}

fn gen(keys: Keys) -> impl Strategy<Value = Case> {
    let init = prop_oneof![
        2 => Just(String::new()),
        3 => select(&["a", "ab", "foo", "x a", "x foo", "é", "中", "fo o", "a\\ ", "ab\\ ", "a  "][..]).prop_map(|s: &str| s.to_owned()),
        2 => text(14),
    ];
    // now and then more candidates and enough Tabs to go through all of them
    let words = prop_oneof![12 => vec(word(), 0..6), 1 => vec(prop_oneof![word(), line(3)], 8..40)];
    let tabs = prop_oneof![12 => Just((0, 0)), 1 => (0usize..14, 5usize..60)];
    (history(2, true), words, any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 1u8..3], init, seq(key(keys), 1..14), tabs)
        .prop_map(|(hist, words, filter, divider, init, mut keys, (at, n))| {
            let at = at.min(keys.len());
            keys.splice(at..at, vec![K(Key::Char('\t')); n]);
            Case { hist, words, filter, divider, init, keys }
        })
}

struct List {
    cands: Vec<String>,
    at: Option<usize>,
    /// the word being replaced
    start: usize,
    end: usize,
}

pub fn common_prefix(v: &[String]) -> String {
    let first: Vec<char> = v[0].chars().collect();
    let mut n = first.len();
    for w in v {
        n = n.min(w.chars().zip(&first).take_while(|(a, b)| a == *b).count());
    }
    first[..n].iter().collect()
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn run<M: KeyMap>(case: &Case, keys: Keys, obs: &mut Obs) -> Res {
    let vi = keys != Keys::Emacs;
    let normal = keys == Keys::ViNormal;
    let mut c = ctx(1000, &case.hist, vi);
    c.word_divider_fn = super::c01::divider(case.divider);
    let mut d: Drv<M> = Drv::new(&mut c, Prompt::from("$ "), &case.init)?;
    d.comp.words = case.words.clone();
    d.comp.filter = case.filter;
    if normal {
        d.key(K(Key::Esc))?;
    }
    let divide = super::c01::divider(case.divider);
    let mut list: Option<List> = None;
    let (mut done_single, mut done_prefix, mut cycled, mut closed) = (0, 0, 0, 0);
    let mut log: Vec<K> = vec![];
    for &k in &case.keys {
        let t = d.chars();
        let cursor = d.cursor();
        let asked = d.comp.asked.len();
        let loc = d.ed.current_history_location();
        let suggested = d.ed.is_currently_showing_autosuggestion();
        let text: String = t.iter().collect();
        let put = |start: usize, end: usize, s: &str| {
            let b: String = t[..start].iter().collect();
            let a: String = t[end..].iter().collect();
            let to = start + s.chars().count();
            // in normal mode the cursor is on a character
            let to = if normal && a.is_empty() { to.saturating_sub(1) } else { to };
            (format!("{b}{s}{a}"), to)
        };
        let words = if case.divider == 0 { super::c17::split(&t) } else { divide(d.ed.current_buffer()) };
        if k == K(Key::Char('\t')) && list.is_none() && words.iter().any(|&(s, e)| s < cursor && cursor < e) {
            continue; // in the middle of a word
        }
        if k == ctrl('d') && t.is_empty() {
            continue; // ends the session
        }
        log.push(k);
        let at = |e: String| format!("{:?} with {:?} (filter {}) {}: {e}", case.init, case.words, case.filter, show(&log));
        let out = d.ed.context().terminal.out.len();
        let entered = d.key(k)?;
        let screen = last_redraw(&d.ed.context().terminal.out);
        let same = |d: &Drv<M>, want: (String, usize)| {
            if (d.text(), d.cursor()) != want {
                return Err(at(format!("from {text:?} {cursor} to {:?} {}, expected {want:?}", d.text(), d.cursor())));
            }
            Ok(())
        };
        match (k.0, list.take()) {
            (Key::Char('\t'), None) => {
                let start = words.iter().find(|&&(s, e)| s < e && e == cursor).map_or(cursor, |w| w.0);
                let word: String = t[start..cursor].iter().collect();
                if d.comp.asked.len() != asked + 1 || d.comp.asked[asked] != word {
                    return Err(at(format!("on {text:?} {cursor} asks for {:?} instead of {word:?}", &d.comp.asked[asked..])));
                }
                let mut cands: Vec<String> =
                    case.words.iter().filter(|w| !case.filter || w.starts_with(&word)).cloned().collect();
                cands.sort();
                cands.dedup();
                if cands.is_empty() {
                    same(&d, (text.clone(), cursor))?;
                } else if cands.len() == 1 {
                    same(&d, put(start, cursor, &cands[0]))?;
                    done_single += 1;
                } else {
                    let p = common_prefix(&cands);
                    if p.len() > word.len() && p.starts_with(&word) {
                        same(&d, put(start, cursor, &p))?;
                        done_prefix += 1;
                    } else {
                        same(&d, (text.clone(), cursor))?;
                        list = Some(List { cands, at: None, start, end: cursor });
                    }
                }
            }
            (Key::Char('\t'), Some(mut l)) => {
                if d.comp.asked.len() != asked {
                    return Err(at("asks again while the list is shown".into()));
                }
                let i = l.at.map_or(0, |i| (i + 1) % l.cands.len());
                same(&d, put(l.start, l.end, &l.cands[i]))?;
                l.at = Some(i);
                l.end = l.start + l.cands[i].chars().count();
                list = Some(l);
                cycled += 1;
            }
            (Key::Char('\n'), Some(_)) => {
                if entered {
                    return Err(at("enters the line while the list is shown".into()));
                }
                same(&d, (text.clone(), cursor))?;
                closed += 1;
            }
            (_, l) => {
                if d.comp.asked.len() != asked {
                    return Err(at("asks for completions".into()));
                }
                // as usual: as in a session without a list
                let undisturbed = loc.is_none() && !matches!(k.0, Key::Up | Key::Down) && !(suggested && matches!(k.0, Key::Right | Key::Ctrl('f')));
                if l.is_some() && undisturbed {
                    let mut c2 = ctx(1000, &[], vi);
                    c2.word_divider_fn = super::c01::divider(case.divider);
                    let mut d2: Drv<M> = Drv::new(&mut c2, Prompt::from("$ "), &text)?;
                    if normal {
                        d2.key(K(Key::Esc))?;
                    }
                    d2.ed.move_cursor_to(cursor).map_err(|e| e.to_string())?;
                    d2.key(k)?;
                    same(&d, (d2.text(), d2.cursor()))?;
                }
                closed += u32::from(l.is_some());
            }
        }
        if entered {
            break;
        }
        // the list is on the screen exactly while it is open
        let shown = {
            let line = d.text();
            let sug = if d.ed.current_history_location().is_none() { suggestion(&case.hist, &line).cloned() } else { None };
            screen.strip_suffix(&format!("$ {}", drawn(sug.as_ref().unwrap_or(&line), 2))).map(|s| s.to_owned())
        };
        let want = list.as_ref().map_or(String::new(), |l| squeeze(&l.cands.concat()));
        let redrawn = d.ed.context().terminal.out.len() > out;
        match shown {
            _ if !redrawn => {}
            Some(s) if squeeze(&s) == want => {
                obs.label_if(list.is_some(), "list shown");
            }
            _ => return Err(at(format!("shows {screen:?}; the list should be {:?}", list.as_ref().map(|l| &l.cands)))),
        }
    }
    obs.nontrivial = done_single + done_prefix + cycled > 0;
    obs.label_if(done_single > 0, "single candidate");
    obs.label_if(done_prefix > 0, "common prefix");
    obs.label_if(cycled > 2, "cycled 3+ times");
    obs.label_if(closed > 0, "list closed");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Basic {
    words: Vec<String>,
    asked: Vec<String>,
}

fn check_basic(case: &Basic, obs: &mut Obs) -> Res {
    let mut b = BasicCompleter::new(case.words.clone());
    for a in &case.asked {
        let got = b.completions(a);
        let want: Vec<String> = case.words.iter().filter(|w| w.as_bytes().starts_with(a.as_bytes())).cloned().collect();
        if got != want {
            return Err(format!("{:?} of {:?} completes to {got:?}", a, case.words));
        }
        obs.nontrivial |= !want.is_empty() && want.len() < case.words.len();
    }
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "an initial text, candidate words, a divider and Emacs keys full of Tabs; every Tab, Enter and other key against a model of completion, and the list on the screen; non-trivial: a completion changed the line",
            600_000,
            5_000_000,
            || gen(Keys::Emacs),
            |c, o| run::<Emacs>(c, Keys::Emacs, o),
        ),
        suite(
            "vi",
            "the same in Vi insert mode; non-trivial: a completion changed the line",
            360_000,
            3_000_000,
            || gen(Keys::ViInsert),
            |c, o| run::<Vi>(c, Keys::ViInsert, o),
        ),
        suite(
            "normal",
            "the same in Vi normal mode; non-trivial: a completion changed the line",
            200_000,
            3_000_000,
            || gen(Keys::ViNormal),
            |c, o| run::<Vi>(c, Keys::ViNormal, o),
        ),
        suite(
            "basic",
            "a BasicCompleter and words asked of it against a byte-wise prefix filter; non-trivial: some but not all words complete",
            90_000,
            1_000_000,
            || (vec(word(), 0..8), vec(prop_oneof![word(), line(3)], 1..4)).prop_map(|(words, asked)| Basic { words, asked }),
            check_basic,
        ),
    ]
}
