//! C09: the suggestion is the newest strict extension, and accepting it is exact.
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::*;
use crate::vimodel::vi_prompt;
use liner::{Emacs, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Vec<String>,
    init: String,
    words: Vec<String>,
    hl: bool,
    keys: Vec<K>,
}

fn key(vi: bool) -> BoxedStrategy<K> {
    let common = prop_oneof![
        14 => select(&['a', 'a', 'b', 'b', 'é', ' ', '中'][..]).prop_map(ch),
        3 => tchar().prop_map(ch),
        6 => Just(K(Key::Right)),
        4 => Just(ctrl('f')),
        4 => Just(K(Key::Left)),
        4 => Just(K(Key::Backspace)),
        1 => Just(K(Key::Home)),
        1 => Just(K(Key::End)),
        1 => Just(K(Key::Delete)),
        3 => Just(K(Key::Up)),
        3 => Just(K(Key::Down)),
        1 => Just(ctrl('r')),
        1 => Just(ctrl('l')),
        1 => Just(K(Key::Char('\t'))),
        1 => Just(K(Key::Char('\n'))),
    ];
    if vi {
        prop_oneof![12 => common, 2 => Just(K(Key::Esc)), 3 => select(&['x', 'D', 'i', 'a', 'A', 'h', 'l', 'j', 'k', '0', '$', 'u', '.'][..]).prop_map(ch)].boxed()
    } else {
        prop_oneof![12 => common, 2 => select(&['p', 'n', 'u', 'k', 'w', 'x', 'a', 'e', 'b'][..]).prop_map(ctrl), 1 => select(&['<', '>', '.', 'r', 'b', 'f'][..]).prop_map(alt)].boxed()
    }
}

fn gen(vi: bool) -> impl Strategy<Value = Case> {
    let hist = prop_oneof![
        3 => history(7, true),
        5 => vec(select(&["a", "ab", "abc", "ba", "b", "aab", "bab", "c", "", "a\nb", "a\nbb\n", "éa", "é", "é中", "Ж中a", "a b", "ab  ", "a\u{301}", "b\n", "中a中"][..]).prop_map(|s: &str| s.to_owned()), 0..14),
    ];
    let words = vec(select(&["ab", "abc", "b", "中"][..]).prop_map(|s: &str| s.to_owned()), 0..2);
    let first = prop_oneof![1 => Just(vec![]), 4 => select(&['a', 'b', 'é', '中'][..]).prop_map(|c| vec![ch(c)])];
    let init = prop_oneof![4 => Just(String::new()), 1 => select(&["a", "b", "é", "ab", "a\n"][..]).prop_map(|s: &str| s.to_owned()), 1 => entry(true)];
    (hist, init, words, any::<bool>(), first, seq(key(vi), 1..14), common_prefix(), filler()).prop_map(|(hist, mut init, words, hl, first, keys, prefix, fill)| {
        let hist = filled(prefixed(&prefix, hist, &mut init), fill);
        Case { hist, init, words, hl, keys: [first, keys].concat() }
    })
}

fn run<M: KeyMap>(case: &Case, vi: bool, obs: &mut Obs) -> Res {
    let hist = &case.hist;
    let mut c = ctx(1000, hist, vi);
    let prompt = if vi { vi_prompt() } else { Prompt::from("$ ") };
    let hl: Option<liner::ColorClosure> =
        if case.hl { Some(Box::new(|s: &str| format!("\x1b[1m{s}\x1b[0m"))) } else { None };
    let mut ed = liner::Editor::new_with_init_buffer(prompt, hl, &mut c, case.init.as_str()).map_err(|e| e.to_string())?;
    let mut m = M::default();
    m.init(&mut ed).map_err(|e| e.to_string())?;
    let mut d = Drv { ed, m, comp: RecComp { words: case.words.clone(), filter: true, ..Default::default() }, log: vec![] };
    let mut offered: Option<String> = None; // at the moment
    let (mut times, mut accepted) = (0, 0);
    let mut log: Vec<K> = vec![];
    for i in 0..=case.keys.len() {
        // the picture first
        let at = |e: String| format!("{hist:?} {:?} {}: {e}", case.init, show(&case.keys[..i]));
        let (text, cursor) = (d.text(), d.cursor());
        let len = text.chars().count();
        let screen = last_redraw(&d.ed.context().terminal.out);
        if screen.chars().count() > 450 && super::c08::liner_width(&screen) > 950 {
            break; // about to wrap
        }
        let normal = screen.starts_with("[N] ");
        let searching = screen.contains("(search)'");
        let want = match d.ed.current_history_location() {
            None if !searching => suggestion(hist, &text).cloned(),
            _ => None,
        };
        if !searching {
            if d.ed.is_currently_showing_autosuggestion() != want.is_some() {
                return Err(at(format!("{text:?}: offers a suggestion: {}, expected {want:?}", want.is_none())));
            }
            let mode = if vi { &screen[..4] } else { "" };
            let drawn_want = format!("{mode}$ {}", drawn(want.as_ref().unwrap_or(&text), mode.len() + 2));
            // a list of completions precedes the prompt
            if !screen.ends_with(&drawn_want) {
                return Err(at(format!("shows {screen:?} instead of {drawn_want:?}")));
            }
        }
        times += u32::from(want.is_some() && want != offered);
        offered = want;
        let Some(&k) = case.keys.get(i) else { break };
        // the next key would belong to the change, or be repeated
        if normal && matches!(k.0, Key::Char('c' | '1'..='9')) {
            continue;
        }
        log.push(k);
        let done = d.key(k)?;
        let at = |e: String| format!("{hist:?} {:?} {}: {e}", case.init, show(&log));
        if done {
            let got = String::from(d.ed);
            if !searching && got != text {
                return Err(at(format!("returns {got:?} instead of {text:?}")));
            }
            obs.nontrivial = times > 0;
            return Ok(());
        }
        if searching {
            continue;
        }
        let end = if normal { len.saturating_sub(1) } else { len };
        let accepts = match k.0 {
            Key::Ctrl('f') => true,
            Key::Right => cursor == end,
            _ => false,
        };
        if let Some(s) = offered.as_ref().filter(|_| accepts) {
            let n = s.chars().count();
            let want = if normal { n - 1 } else { n };
            if d.text() != *s || d.cursor() != want || d.ed.current_history_location().is_some() {
                return Err(at(format!("accepting {s:?} gives {:?} with the cursor at {}", d.text(), d.cursor())));
            }
            accepted += 1;
            obs.label_if(s.contains('\n'), "accepted one of several lines");
            obs.label_if(cursor != end, "accepted elsewhere than at the end");
        } else if k.0 == Key::Right && (d.text() != text || d.cursor() != (cursor + 1).min(end)) {
            return Err(at(format!("Right moves from {text:?} {cursor} to {:?} {}", d.text(), d.cursor())));
        }
    }
    // the end of the input: what is on the line
    let text = d.text();
    let screen = last_redraw(&d.ed.context().terminal.out);
    if !screen.contains("(search)'") {
        let got = String::from(d.ed);
        if got != text {
            return Err(format!("{hist:?} {:?} {}: returns {got:?} instead of {text:?}", case.init, show(&log)));
        }
    }
    obs.nontrivial = times > 0;
    obs.label_if(times > 2, "3+ suggestions");
    obs.label_if(accepted > 0, "accepted");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "a history, an initial text and Emacs keys; the suggestion on the screen after every key and what accepting does against the newest strict extension; non-trivial: a suggestion was offered",
            450_000,
            5_000_000,
            || gen(false),
            |c, o| run::<Emacs>(c, false, o),
        ),
        suite(
            "vi",
            "the same in Vi bindings, in both modes; non-trivial: a suggestion was offered",
            450_000,
            5_000_000,
            || gen(true),
            |c, o| run::<Vi>(c, true, o),
        ),
    ]
}
