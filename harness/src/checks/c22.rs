//! C22: colours tell typed text, suggestion and completion apart, and the highlighter sees what was
//! typed.
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::*;
use crate::vt::{Sgr, Vt};
use liner::{ColorClosure, Editor, Emacs, KeyMap, Prompt, Vi, ViPromptMode, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    width: usize,
    prompt: String,
    /// index into STATUS
    status: usize,
    hl: u8,
    hist: Vec<String>,
    words: Vec<String>,
    init: String,
    keys: Vec<K>,
}

/// Mode indicators: insert, normal.
const STATUS: &[(&str, &str)] = &[
    ("[I] ", "[N] "),
    ("\x1b[32mI\x1b[39m ", "\x1b[1;31mNORMAL\x1b[0m "),
    ("", ":"),
    ("\x1b[48;5;7m中\x1b[49m", "\x1b]0;n\x07>"),
];

fn color(hl: u8, s: &str) -> String {
    match hl {
        1 => format!("\x1b[32m{s}\x1b[39m"),
        2 => s.chars().map(|c| if c == 'a' { format!("\x1b[1;38;5;9m{c}\x1b[m") } else { c.to_string() }).collect(),
        // hides the text
        3 => s.chars().map(|c| if c.width() == Some(2) { '＊' } else if c.width() == Some(0) { c } else { '*' }).collect(),
        4 => format!("\x1b[44;97m\x1b[4m{s}\x1b[0m"),
        _ => s.to_owned(),
    }
}

fn rest_mark() -> Sgr {
    Sgr { flags: 1 << 15, ..Sgr::default() }
}

/// The picture of a prompt, a highlighted text and the rest of a suggestion.
fn picture(w: usize, prompt: &str, text: &str, rest: &str, hl: u8) -> Result<Vt, String> {
    let mut vt = Vt::new(w);
    vt.attrs = Some(vec![]);
    vt.feed(prompt.as_bytes())?;
    let bare: usize = {
        let mut p = Vt::new(1000);
        p.feed(prompt.as_bytes())?;
        p.c
    };
    let newline = |vt: &mut Vt| {
        vt.newline();
        for _ in 0..bare {
            vt.put(' ');
        }
    };
    for (i, l) in text.split('\n').enumerate() {
        if i > 0 {
            newline(&mut vt);
        }
        vt.feed(color(hl, l).as_bytes())?;
    }
    vt.sgr = rest_mark();
    for c in rest.chars() {
        if c == '\n' {
            newline(&mut vt);
        } else {
            vt.put(c);
        }
    }
    Ok(vt)
}

/// Whether the screen from a row on is the expected picture; otherwise what differs.
fn same(vt: &Vt, from: usize, want: &Vt) -> Result<Option<u32>, (bool, String)> {
    let (a, b) = (vt.lines_from(from), want.lines_from(0));
    if a != b {
        return Err((false, format!("the screen shows {a:?}, expected {b:?}")));
    }
    let mut rest = None;
    for r in 0..b.len() {
        for (x, y) in vt.cells(from + r).into_iter().zip(want.cells(r)) {
            if x.1.starts_with(' ') {
                continue;
            }
            if y.2 == rest_mark() {
                if x.2.fg == 0 {
                    return Err((true, format!("{:?} in row {r}, column {}, is a suggestion but has the colour of typed text", x.1, x.0)));
                }
                if *rest.get_or_insert(x.2.fg) != x.2.fg {
                    return Err((true, format!("{:?} in row {r}, column {}, has not the colour of the rest of the suggestion", x.1, x.0)));
                }
            } else if x.2 != y.2 {
                return Err((true, format!("{:?} in row {r}, column {}, has {:?} instead of {:?}", x.1, x.0, x.2, y.2)));
            }
        }
    }
    Ok(rest)
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| *c != ' ').collect()
}

fn run<M: KeyMap>(case: &Case, vi: bool, obs: &mut Obs) -> Res {
    let hist = &case.hist;
    let w = case.width;
    let mut c = ctx(w, hist, vi);
    let mut vt = Vt::new(w);
    vt.attrs = Some(vec![]);
    let (ins, nor) = STATUS[case.status];
    let last = &case.prompt[case.prompt.rfind('\n').map_or(0, |i| i + 1)..];
    let mut base = case.prompt.matches('\n').count();
    let prompt = Prompt {
        prompt: case.prompt.clone(),
        vi_status: vi.then(|| ViStatus::new(ViPromptMode::Insert, ins, nor)),
    };
    let modes: &[&str] = if vi { &[ins, nor] } else { &[""] };
    let log = Arc::new(Mutex::new(vec![]));
    let (l2, hl) = (log.clone(), case.hl);
    let f: Option<ColorClosure> = (hl > 0).then(|| -> ColorClosure {
        Box::new(move |s: &str| {
            l2.lock().unwrap().push(s.to_owned());
            color(hl, s)
        })
    });
    let mut ed = Editor::new_with_init_buffer(prompt, f, &mut c, case.init.as_str()).map_err(|e| e.to_string())?;
    let mut m = M::default();
    m.init(&mut ed).map_err(|e| e.to_string())?;
    let mut d = Drv { ed, m, comp: RecComp { words: case.words.clone(), filter: true, ..Default::default() }, log: vec![] };
    let (mut fed, mut listed) = (0, false);
    let (mut checked, mut suggested, mut lists, mut searched, mut typed, mut below) = (0u64, 0, 0, 0, 0, 0);
    for i in 0..=case.keys.len() {
        let at = |e: String| format!("width {w}, prompt {:?}, highlighter {hl}, history {hist:?}, {:?} {}: {e}", case.prompt, case.init, show(&case.keys[..i]));
        let new = d.ed.context().terminal.out[fed..].to_vec();
        fed += new.len();
        vt.feed(&new).map_err(at)?;
        let fresh = new.windows(2).any(|x| x == b"\x1b[");
        let text = d.text();
        let seen: Vec<String> = std::mem::take(&mut *log.lock().unwrap());
        let was_list = listed;
        if !fresh {
            listed = listed && i > 0 && case.keys[i - 1] == K(Key::Char('\t'));
        } else {
            base = base.max(vt.top);
            let tab = i > 0 && case.keys[i - 1] == K(Key::Char('\t'));
            let shown = match d.ed.current_history_location() {
                None => suggestion(hist, &text).unwrap_or(&text),
                Some(_) => &text,
            };
            let rest: String = shown.chars().skip(text.chars().count()).collect();
            if vt.sgr != Sgr::default() {
                return Err(at(format!("the terminal is left with {:?}", vt.sgr)));
            }
            let all: String = (base..vt.rows.len()).map(|r| vt.line(r)).collect();
            let searching = squeeze(&all).contains("(search)'");
            if searching {
                searched += 1;
                // its pattern is not in the colour of plain text
                let pat: Vec<String> = text.replace('\n', "␤").chars().map(|c| c.to_string()).collect();
                let mut cells = (base..vt.rows.len()).flat_map(|r| vt.cells(r)).skip_while(|x| !x.1.starts_with('\'')).skip(1).filter(|x| !x.1.starts_with(' '));
                for p in pat.iter().filter(|p| *p != " " && p.chars().all(|c| c.width() != Some(0))) {
                    match cells.next() {
                        Some(x) if x.1.starts_with(p.as_str()) && x.2.fg != 0 => {}
                        x => return Err(at(format!("in the search for {text:?}, {p:?} is shown as {x:?}"))),
                    }
                }
                if let Some(s) = seen.iter().find(|s| s.contains("(search)'")) {
                    return Err(at(format!("the highlighter was given {s:?}")));
                }
                listed = false;
            } else {
                let mut worst: Option<(bool, String)> = None;
                let mut found = None;
                let wants = modes.iter().map(|m| picture(w, &format!("{m}{last}"), &text, &rest, hl)).collect::<Result<Vec<_>, _>>()?;
                'find: for l in 0..=if tab { case.words.len() * 20 } else { 0 } {
                    for want in &wants {
                        match same(&vt, base + l, want) {
                            Ok(r) => {
                                found = Some((l, r));
                                break 'find;
                            }
                            Err(e) => {
                                if worst.as_ref().map_or(true, |x| !x.0 && e.0) {
                                    worst = Some(e);
                                }
                            }
                        }
                    }
                }
                let Some((l, r)) = found else {
                    return Err(at(worst.unwrap().1));
                };
                suggested += u64::from(r.is_some());
                below += u64::from(r.is_some() && rest.contains('\n'));
                if hl > 0 {
                    let want: Vec<&str> = text.split('\n').filter(|l| !l.is_empty()).collect();
                    let got: Vec<&str> = seen.iter().map(|s| s.as_str()).filter(|l| !l.is_empty()).collect();
                    if !got.ends_with(&want) {
                        return Err(at(format!("the highlighter was given {got:?} for {text:?}")));
                    }
                    typed += u64::from(!want.is_empty());
                }
                listed = l > 0;
                if listed {
                    let lit: String = (base..base + l).flat_map(|r| vt.cells(r)).filter(|x| x.2 != Sgr::default()).map(|x| x.1).collect();
                    if lit.is_empty() && was_list {
                        return Err(at("no candidate is highlighted in the list".into()));
                    }
                    if !lit.is_empty() {
                        if !was_list {
                            return Err(at(format!("{lit:?} is highlighted before a candidate was chosen")));
                        }
                        // in normal mode the cursor does not go past the last character
                        let more = usize::from(d.ed.no_eol && d.cursor() + 1 == text.chars().count());
                        let before: String = text.chars().take(d.cursor()).collect();
                        let upto: String = text.chars().take(d.cursor() + more).collect();
                        let ends = |x: &str| before.ends_with(x) || upto.ends_with(x);
                        let ok = case.words.iter().any(|x| squeeze(x) == lit && ends(x));
                        if !ok {
                            return Err(at(format!("{lit:?} is highlighted in the list with {before:?} before the cursor")));
                        }
                        lists += 1;
                    }
                }
            }
            checked += 1;
        }
        let Some(&k) = case.keys.get(i) else { break };
        let r = d.key(k);
        if matches!(r, Ok(false)) {
            continue;
        }
        let at = |e: String| format!("width {w}, prompt {:?}, highlighter {hl}, history {hist:?}, {:?} {}: {e}", case.prompt, case.init, show(&case.keys[..=i]));
        let new = d.ed.context().terminal.out[fed..].to_vec();
        vt.feed(&new).map_err(at)?;
        if vt.sgr != Sgr::default() {
            return Err(at(format!("after the end the terminal is left with {:?}", vt.sgr)));
        }
        let text = d.text();
        let mut worst = None;
        for m in modes {
            match same(&vt, base, &picture(w, &format!("{m}{last}"), &text, "", hl)?) {
                Ok(_) => {
                    worst = None;
                    break;
                }
                Err(e) => {
                    worst.get_or_insert(e);
                }
            }
        }
        if let Some(e) = worst {
            return Err(at(format!("after the end {}", e.1)));
        }
        obs.label("sessions ended");
        break;
    }
    obs.nontrivial = suggested > 0 || typed > 1 || lists > 0;
    obs.labels_add("redraws checked", checked);
    obs.labels_add("suggestions", suggested);
    obs.labels_add("suggestions of several lines", below);
    obs.labels_add("highlighted candidates", lists);
    obs.labels_add("searching", searched);
    Ok(())
}

fn gen(vi: bool) -> impl Strategy<Value = Case> {
    let prompt = select(&["", "$ ", "é> ", "中文> ", "one\n> ", "\x1b[31mred\x1b[0m$ ", "\x1b[1;38;5;200m\x1b[4mab\x1b[m ", "\x1b[42mq\x1b[49m\n\x1b[38;2;1;2;3mr\x1b[39m "][..])
        .prop_map(|s| s.to_string());
    let width = prop_oneof![1 => 8usize..14, 2 => 14usize..30, 2 => Just(80), 1 => big_n(300).prop_map(|n| n.max(8))];
    let words = vec(
        prop_oneof![3 => select(&["ab", "abc", "a", "b", "foo", "é", "foobar", "a.b", "ab c", "中日"][..]).prop_map(|s: &str| s.to_owned()), 1 => "[a-c]{1,9}"],
        0..5,
    );
    (width, prompt, 0..STATUS.len(), 0u8..5, history(6, true), words, keys_for(vi, 12)).prop_flat_map(
        |(width, prompt, status, hl, hist, words, keys)| {
            let n = hist.len();
            let init = prop_oneof![
                2 => Just(None),
                2 => text(24).prop_map(|t| Some((usize::MAX, 0, t))),
                3 => (0..n.max(1), 0usize..12).prop_map(|(i, k)| Some((i, k, String::new()))),
            ];
            init.prop_map(move |x| {
                let init = match x {
                    None => String::new(),
                    Some((i, k, t)) => hist.get(i).map_or(t, |h| h.chars().take(k).collect()),
                };
                Case { width, prompt: prompt.clone(), status, hl, hist: hist.clone(), words: words.clone(), init, keys: keys.clone() }
            })
        },
    )
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "a coloured prompt, a highlighter, history, completions, text and Emacs keys; the colours of every redraw and what the highlighter was given; non-trivial: a suggestion, a highlighted candidate or two highlighted texts",
            90_000,
            2_500_000,
            || gen(false),
            |c, o| run::<Emacs>(c, false, o),
        ),
        suite(
            "vi",
            "the same with Vi keys and coloured mode indicators; non-trivial: a suggestion, a highlighted candidate or two highlighted texts",
            90_000,
            2_500_000,
            || gen(true),
            |c, o| run::<Vi>(c, true, o),
        ),
    ]
}
