//! C08: incremental search offers exactly the entries containing the pattern.
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::*;
use crate::vimodel::vi_prompt;
use liner::{Emacs, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Vec<String>,
    init: String,
    /// before the first search
    before: Vec<K>,
    keys: Vec<K>,
}

fn key(vi: bool) -> BoxedStrategy<K> {
    let common = prop_oneof![
        9 => Just(ctrl('r')),
        8 => Just(ctrl('s')),
        3 => Just(K(Key::Up)),
        3 => Just(K(Key::Down)),
        3 => tchar().prop_map(ch),
        9 => select(&['a', 'a', 'b', 'b', 'é', ' '][..]).prop_map(ch),
        5 => Just(K(Key::Backspace)),
        2 => Just(K(Key::Left)),
        2 => Just(K(Key::Right)),
        1 => Just(K(Key::Home)),
        1 => Just(K(Key::End)),
        1 => Just(K(Key::Delete)),
        1 => Just(ctrl('f')),
        1 => Just(ctrl('l')),
        1 => Just(K(Key::Char('\n'))),
    ];
    if vi {
        prop_oneof![12 => common, 2 => Just(K(Key::Esc)), 2 => select(&['x', 'D', 'i', 'A', 'h', 'j', 'k', '0'][..]).prop_map(ch)].boxed()
    } else {
        prop_oneof![12 => common, 1 => select(&['p', 'n', 'u', 'k', 'w', 'x', 'a'][..]).prop_map(ctrl), 1 => select(&['<', '>'][..]).prop_map(alt)].boxed()
    }
}

fn gen(vi: bool) -> impl Strategy<Value = Case> {
    let hist = prop_oneof![
        4 => history(7, true),
        5 => vec(select(&["a", "ab", "abc", "ba", "b", "aab", "bab", "c", "", "a\nb", "éa", "Ж中a"][..]).prop_map(|s: &str| s.to_owned()), 0..20),
    ];
    let before = vec(prop_oneof![4 => tchar().prop_map(ch), 3 => Just(K(Key::Up)), 1 => Just(K(Key::Down)), 1 => Just(K(Key::Left))], 0..3);
    (hist, prop_oneof![2 => Just(String::new()), 1 => entry(true)], before, seq(key(vi), 1..16), common_prefix(), filler()).prop_map(|(hist, mut init, before, keys, prefix, fill)| {
        let hist = filled(prefixed(&prefix, hist, &mut init), fill);
        Case { hist, init, before, keys }
    })
}

struct Search {
    /// index in the history of the entry shown, or nothing
    shown: Option<usize>,
    pattern: String,
    fwd: bool,
    /// began with the other direction than some later press
    mixed: bool,
}

fn run<M: KeyMap>(case: &Case, vi: bool, obs: &mut Obs) -> Res {
    const WIDTH: usize = 1000;
    let hist = &case.hist;
    let mut c = ctx(WIDTH, hist, vi);
    let prompt = if vi { vi_prompt() } else { Prompt::from("$ ") };
    let mut d: Drv<M> = Drv::new(&mut c, prompt, &case.init)?;
    let mut log: Vec<K> = vec![];
    let mut typed: Option<String> = Some(case.init.clone()); // the draft, while it is known
    for &k in &case.before {
        log.push(k);
        d.key(k)?;
        if d.ed.current_history_location().is_none() {
            typed = Some(d.text());
        }
    }
    let mut s: Option<Search> = None;
    let (mut multi, mut steps, mut accepted, mut refreshed) = (false, 0, 0, 0);
    for (n, &k) in std::iter::once(&case.keys[0]).chain(&case.keys).enumerate() {
        // begin with a search
        let k = match (n, k) {
            (0, k) if k != ctrl('s') => ctrl('r'),
            _ => k,
        };
        // the next key would belong to the change; a repetition is several edits
        if (k == ch('c') || k == ch('.')) && vi && last_redraw(&d.ed.context().terminal.out).starts_with("[N]") {
            continue;
        }
        let before = d.text();
        let on = d.ed.current_history_location();
        log.push(k);
        let at = |e: String| format!("{hist:?} {:?} {}: {e}", case.init, show(&log));
        let end_of_line = d.ed.cursor_is_at_end_of_line();
        let done = d.key(k)?;
        let (now, loc) = (d.text(), d.ed.current_history_location());
        // what the screen says: candidate number, count and line; nothing outside a search
        let drawn_now = last_redraw(&d.ed.context().terminal.out);
        if drawn_now.chars().count() > 450 && liner_width(&drawn_now) + 50 > WIDTH {
            // about to wrap
            nontrivial(obs, multi, steps, accepted, refreshed);
            return Ok(());
        }
        let mode = if !vi {
            ""
        } else if drawn_now.starts_with("[N] ") {
            "[N] "
        } else {
            "[I] "
        };
        let state = |pat: &str, i: usize, n: usize, t: &str| {
            let p = format!("{mode}(search)'{}` ({i}/{n}): ", pat.replace('\n', "␤"));
            let w = liner_width(&p);
            format!("{p}{}", drawn(t, w))
        };
        let plain = |t: &str| {
            let shown = if loc.is_none() { suggestion(hist, t).map_or(t, |s| s) } else { t };
            format!("{mode}$ {}", drawn(shown, mode.len() + 2))
        };
        if done {
            let got = String::from(d.ed);
            let want = match &s {
                Some(s) => s.shown.map_or(before.clone(), |i| hist[i].clone()),
                None => before,
            };
            return if got == want {
                obs.label_if(s.is_some(), "entered during a search");
                nontrivial(obs, multi, steps, accepted, refreshed);
                Ok(())
            } else {
                Err(at(format!("returns {got:?} instead of {want:?}")))
            };
        }
        let ends = match k.0 {
            Key::Ctrl('l') | Key::Char('\n') => true,
            Key::Alt('<') | Key::Alt('>') => true,
            Key::Ctrl('f') => s.as_ref().map_or(false, |s| s.shown.is_some()),
            Key::Right => s.as_ref().map_or(false, |s| s.shown.is_some()) && end_of_line,
            _ => false,
        };
        match s.take() {
            Some(_) | None if ends && k.0 == Key::Char('\n') => {
                // a backslash before the end: a newline was added to the candidate
                return Ok(());
            }
            Some(old) if ends => {
                let accept = matches!(k.0, Key::Ctrl('f') | Key::Right);
                let want = match k.0 {
                    Key::Alt('<') if !hist.is_empty() => hist[0].clone(),
                    _ if accept => hist[old.shown.unwrap()].clone(),
                    _ => before.clone(),
                };
                if now != want {
                    return Err(at(format!("ends the search with {now:?} instead of {want:?}")));
                }
                if accept && (d.cursor() + usize::from(d.ed.no_eol && !now.is_empty()) != now.chars().count() || loc.is_some()) {
                    return Err(at(format!("leaves the cursor at {} on entry {loc:?}", d.cursor())));
                }
                if drawn_now != plain(&now) {
                    return Err(at(format!("shows {drawn_now:?} instead of {:?} after the search", plain(&now))));
                }
                accepted += u32::from(accept);
                typed = Some(if loc.is_none() { now } else { before });
            }
            Some(mut old) => {
                let cand = candidates(hist, &now);
                let total = cand.len();
                multi |= total > 1;
                // which candidate is on the screen
                let place = |i: usize| {
                    let t = if total == 0 { now.as_str() } else { &hist[cand[i]] };
                    drawn_now == state(&now, if total == 0 { 0 } else { i + 1 }, total, t)
                };
                let shown = match (0..total.max(1)).find(|&i| place(i)) {
                    Some(_) if total == 0 => None,
                    Some(i) => Some(cand[i]),
                    None => {
                        let all: Vec<&String> = cand.iter().map(|&i| &hist[i]).collect();
                        return Err(at(format!("shows {drawn_now:?}; the pattern is {now:?} and the candidates {all:?}")));
                    }
                };
                let stepped = match k.0 {
                    Key::Ctrl('r') | Key::Up | Key::Ctrl('p') => Some(false),
                    Key::Ctrl('s') | Key::Down | Key::Ctrl('n') => Some(true),
                    // in Vi normal mode, unless it belongs to another command
                    Key::Char('k') if vi && now == before && shown != old.shown => Some(false),
                    Key::Char('j') if vi && now == before && shown != old.shown => Some(true),
                    _ => None,
                };
                let want = match stepped {
                    Some(fwd) => {
                        old.mixed |= fwd != old.fwd;
                        if now != before {
                            return Err(at(format!("a step changes the pattern from {before:?} to {now:?}")));
                        }
                        old.shown.map(|i| {
                            let p = cand.iter().position(|&x| x == i).unwrap();
                            cand[(if fwd { p + 1 } else { p + total - 1 }) % total]
                        })
                    }
                    // stays where it still matches, begins where nothing was shown
                    None => match old.shown {
                        Some(i) if cand.contains(&i) => Some(i),
                        // otherwise goes on to the next one in the direction of the search
                        Some(_) if old.mixed => shown,
                        Some(i) => if old.fwd { cand.iter().find(|&&x| x > i) } else { cand.iter().rev().find(|&&x| x < i) }.copied().or(shown),
                        None if old.mixed => shown,
                        None => if old.fwd { cand.first().copied() } else { cand.last().copied() },
                    },
                };
                if shown != want {
                    return Err(at(format!("moves from entry {:?} to {shown:?} instead of {want:?}", old.shown)));
                }
                steps += u32::from(stepped.is_some() && total > 1);
                refreshed += u32::from(now != old.pattern);
                old.shown = shown;
                old.pattern = now;
                s = Some(old);
            }
            None if matches!(k.0, Key::Ctrl('r') | Key::Ctrl('s')) => {
                let fwd = k.0 == Key::Ctrl('s');
                if let Some(t) = &typed {
                    if now != *t {
                        return Err(at(format!("starts with the pattern {now:?} instead of the typed {t:?}")));
                    }
                }
                let cand = candidates(hist, &now);
                let shown = if fwd { cand.first() } else { cand.last() }.copied();
                let begin = |shown: Option<usize>| {
                    let i = shown.map_or(0, |e| cand.iter().position(|&x| x == e).unwrap() + 1);
                    state(&now, i, cand.len(), shown.map_or(&now, |i| &hist[i]))
                };
                let want = begin(shown);
                // on an entry, it may as well begin there
                let here = on.filter(|i| cand.contains(i));
                let shown = if drawn_now == want {
                    shown
                } else if here.is_some() && drawn_now == begin(here) {
                    here
                } else {
                    return Err(at(format!("shows {drawn_now:?} instead of {want:?}")));
                };
                multi |= cand.len() > 1;
                obs.label_if(on.is_some(), "started on an entry");
                s = Some(Search { shown, pattern: now, fwd, mixed: false });
            }
            None => {
                if drawn_now.contains("(search)") {
                    return Err(at("shows a search".into()));
                }
                if loc.is_none() {
                    typed = Some(now);
                } else if on.is_none() && typed.as_ref() != Some(&before) {
                    typed = Some(before);
                }
            }
        }
    }
    // what is left of the search is entered
    if let Some(s) = s {
        let want = s.shown.map_or(s.pattern, |i| hist[i].clone());
        if d.key(K(Key::Char('\n')))? {
            let got = String::from(d.ed);
            if got != want {
                return Err(format!("{hist:?} {:?} {}<CR>: returns {got:?} instead of {want:?}", case.init, show(&log)));
            }
        }
    }
    nontrivial(obs, multi, steps, accepted, refreshed);
    Ok(())
}

fn nontrivial(obs: &mut Obs, multi: bool, steps: u32, accepted: u32, refreshed: u32) {
    obs.nontrivial = multi && (steps > 0 || refreshed > 0);
    obs.label_if(steps > 2, "3+ steps among several candidates");
    obs.label_if(accepted > 0, "accepted");
    obs.label_if(refreshed > 1, "pattern edited twice");
}

/// Cells of a text without control characters.
pub fn liner_width(s: &str) -> usize {
    s.chars().map(|c| unicode_width::UnicodeWidthChar::width(c).unwrap_or(0)).sum()
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "a history, a draft and keys that search, step, edit the pattern and accept in Emacs bindings; what the screen shows and what is accepted against the entries containing the pattern; non-trivial: several candidates and a step or an edit of the pattern",
            450_000,
            5_000_000,
            || gen(false),
            |c, o| run::<Emacs>(c, false, o),
        ),
        suite(
            "vi",
            "the same in Vi bindings, in both modes; non-trivial: several candidates and a step or an edit of the pattern",
            360_000,
            4_000_000,
            || gen(true),
            |c, o| run::<Vi>(c, true, o),
        ),
    ]
}
