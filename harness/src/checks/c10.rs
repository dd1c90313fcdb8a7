//! C10: the screen always shows prompt, text and cursor where they belong.
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::*;
use crate::vt::Vt;
use liner::{ColorClosure, Editor, Emacs, KeyMap, Prompt, Vi, ViPromptMode, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    width: usize,
    above: Vec<String>,
    partial: String,
    prompt: String,
    hl: u8,
    hist: Vec<String>,
    words: Vec<String>,
    init: String,
    sessions: Vec<Vec<K>>,
    /// which mode indicator
    #[serde(default)]
    status: usize,
    /// (before this key of the first session, prompt, mode indicator) given to set_prompt
    #[serde(default)]
    prompts: Vec<(usize, String, usize)>,
}

/// Mode indicators: (insert, normal).
const STATUS: &[(&str, &str)] = &[
    ("[I] ", "[N] "),
    ("", "\x1b[7mN\x1b[27m "),
    ("insert>", ":"),
    ("\x1b[1;38;5;3mé\x1b[0m中 ", "\x1b[34m日\x1b[0m"),
];

fn status(n: usize) -> Option<ViStatus> {
    Some(match n {
        0 => ViStatus::default(),
        // which mode it is created in does not matter
        n => ViStatus::new(if n % 2 == 0 { ViPromptMode::Insert } else { ViPromptMode::Normal }, STATUS[n].1, STATUS[n].0),
    })
}

fn strip(s: &str) -> String {
    let mut r = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        if c != '\x1b' {
            r.push(c);
            continue;
        }
        match cs.next() {
            Some('[') => {
                for c in cs.by_ref() {
                    if ('@'..='~').contains(&c) {
                        break;
                    }
                }
            }
            Some('(') => {
                cs.next();
            }
            _ => {
                let mut esc = false;
                for c in cs.by_ref() {
                    if c == '\x07' || esc && c == '\\' {
                        break;
                    }
                    esc = c == '\x1b';
                }
            }
        }
    }
    r
}

/// What should be on the screen from the first row of the prompt on.
struct Picture {
    lines: Vec<String>,
    /// cells of the cursor, relative to the first row
    cursor: (usize, usize),
    /// the row after the last one that belongs to it
    rows: usize,
    last_full: bool,
}

/// `mark`: the index of the cursor in prompt + text.
fn picture(w: usize, prompt: &str, text: &str, mark: usize) -> Picture {
    let mut vt = Vt::new(w);
    let indent: usize = prompt.chars().map(|c| c.width().unwrap_or(0)).sum();
    let mut cursor = None;
    let mut i = 0;
    let next = |vt: &Vt, c: Option<char>| vt.place(c.and_then(|c| c.width()).unwrap_or(0).max(1));
    for c in prompt.chars() {
        if i == mark {
            cursor = Some(next(&vt, Some(c)));
        }
        vt.put(c);
        i += 1;
    }
    for c in text.chars() {
        if i == mark {
            cursor = Some(next(&vt, Some(c)));
        }
        if c == '\n' {
            vt.newline();
            for _ in 0..indent {
                vt.put(' ');
            }
        } else {
            vt.put(c);
        }
        i += 1;
    }
    let cursor = cursor.unwrap_or_else(|| next(&vt, None));
    Picture { lines: vt.lines_from(0), cursor, rows: vt.r + 1, last_full: vt.full }
}

fn highlighter(n: u8) -> Option<ColorClosure> {
    match n {
        1 => Some(Box::new(|s: &str| format!("\x1b[32m{s}\x1b[0m"))),
        2 => Some(Box::new(|s: &str| {
            s.chars().map(|c| if c == 'a' { format!("\x1b[1;38;5;9m{c}\x1b[m") } else { c.to_string() }).collect()
        })),
        3 => Some(Box::new(|s: &str| format!("\x1b[38;2;1;20;255m{s}\x1b(B\x1b[m"))),
        _ => None,
    }
}

fn run<M: KeyMap>(case: &Case, vi: bool, obs: &mut Obs) -> Res {
    let hist = &case.hist;
    let mut c = ctx(case.width, hist, vi);
    let w = if case.width == 0 { 80 } else { case.width };
    let mut vt = Vt::new(w);
    for l in &case.above {
        for ch in l.chars() {
            vt.put(ch);
        }
        vt.newline();
    }
    for ch in case.partial.chars() {
        vt.put(ch);
    }
    let (head, start) = match case.prompt.rfind('\n') {
        Some(i) => (&case.prompt[..i + 1], &case.prompt[i + 1..]),
        None => ("", case.prompt.as_str()),
    };
    let mut replaced = 0;
    let mut fed = 0;
    let (mut rows_max, mut checked, mut suggested, mut listed, mut searched, mut cleared) = (0, 0, 0, 0, 0, 0);
    let mut words = case.words.clone();
    words.sort();
    words.dedup();
    let mut open = false;
    for (n, keys) in case.sessions.iter().enumerate() {
        if std::mem::replace(&mut open, true) {
            break; // the last session did not end
        }
        // the rows above; an unfinished line is marked
        let mut above = vt.clone();
        above.full = false;
        if vt.c > 0 || vt.full {
            let (r, cc) = vt.place(1);
            above.r = r + usize::from(!vt.full);
            if !vt.full {
                above.set_mark(r, cc);
            }
        }
        above.c = 0;
        let mut base = above.r;
        for ch in strip(head).chars() {
            if ch == '\n' {
                above.newline();
            } else {
                above.put(ch);
            }
        }
        let mut top_expected: Vec<String> = (0..above.r).map(|r| above.line(r)).collect();
        base = base.max(above.r);
        let prompt = Prompt {
            prompt: case.prompt.clone(),
            vi_status: if vi { status(case.status) } else { None },
        };
        let mut last = start;
        let mut modes = [strip(STATUS[case.status].0), strip(STATUS[case.status].1)];
        // known to be in insert (0) or normal (1) mode
        let mut in_mode = Some(0);
        let mut searching = false;
        let init = if n == 0 { case.init.as_str() } else { "" };
        let mut ed = Editor::new_with_init_buffer(prompt, highlighter(case.hl), &mut c, init).map_err(|e| e.to_string())?;
        let mut m = M::default();
        m.init(&mut ed).map_err(|e| e.to_string())?;
        let mut d = Drv { ed, m, comp: RecComp { words: case.words.clone(), filter: true, ..Default::default() }, log: vec![] };
        let mut prev: Option<(String, usize)> = None;
        for i in 0..=keys.len() {
            let at = |e: String| {
                format!("session {n} (width {w}, prompt {:?}, text {init:?}, history {hist:?}) {}: {e}", case.prompt, show(&keys[..i]))
            };
            let out = &d.ed.context().terminal.out;
            let fresh = out[fed..].windows(2).any(|x| x == b"\x1b[");
            let new = out[fed..].to_vec();
            fed = out.len();
            vt.feed(&new).map_err(at)?;
            let (text, cursor) = (d.text(), d.cursor());
            if !fresh {
                if prev.as_ref().map_or(true, |p| p.0 != text || p.1 != cursor) {
                    return Err(at(format!("nothing is redrawn although the line becomes {text:?} {cursor}")));
                }
            } else {
                if vt.top > base {
                    base = vt.top;
                    top_expected = vec![];
                    cleared += 1;
                }
                let tab = i > 0 && keys[i - 1] == K(Key::Char('\t'));
                let modes: Vec<&str> = match in_mode {
                    _ if !vi => vec![""],
                    Some(m) => vec![&modes[m]],
                    None => modes.iter().map(|m| m.as_str()).collect(),
                };
                let shown = match d.ed.current_history_location() {
                    None => suggestion(hist, &text).unwrap_or(&text),
                    Some(_) => &text,
                };
                let mut possible = vec![];
                for mode in &modes {
                    let p = format!("{mode}{}", strip(last));
                    possible.push(picture(w, &p, shown, p.chars().count() + cursor));
                    // or a search
                    let cand = candidates(hist, &text);
                    let pat = text.replace('\n', "␤");
                    let fore = format!("{mode}(search)'");
                    for j in 0..cand.len().max(1) {
                        let (no, t) = if cand.is_empty() { (0, &text) } else { (j + 1, &hist[cand[j]]) };
                        let p = format!("{fore}{pat}` ({no}/{}): ", cand.len());
                        possible.push(picture(w, &p, t, fore.chars().count() + cursor));
                    }
                }
                // rows of the list of completions, if there is one, lie above the prompt
                let lists = if tab { 0..=words.len() * 20 } else { 0..=0 };
                let mut found = None;
                'find: for (l, pi) in lists.flat_map(|l| (0..possible.len()).map(move |p| (l, p))) {
                    let p = &possible[pi];
                    if (vt.r, vt.c) != (base + l + p.cursor.0, p.cursor.1) || vt.full {
                        continue;
                    }
                    if vt.lines_from(base + l) != p.lines {
                        continue;
                    }
                    if l > 0 {
                        // the candidates are the words that start with what was asked last
                        let asked = d.comp.asked.last().map_or("", |s| s.as_str());
                        let all: Vec<&str> = words.iter().filter(|x| x.starts_with(asked)).map(|x| x.as_str()).collect();
                        let ok = lists_all(&(base..base + l).map(|r| vt.line(r)).collect::<Vec<_>>(), &all, w);
                        if !ok {
                            continue;
                        }
                    }
                    found = Some((l, pi));
                    break 'find;
                }
                let Some((l, pi)) = found else {
                    let p = &possible[0];
                    return Err(at(format!(
                        "the screen from row {base} is {:?} with the cursor at {:?}{}; expected {:?} with the cursor at {:?}",
                        vt.lines_from(base),
                        (vt.r as isize - base as isize, vt.c),
                        if vt.full { " beyond the last column" } else { "" },
                        p.lines,
                        p.cursor
                    )));
                };
                let top: Vec<String> = (base - top_expected.len()..base).map(|r| vt.line(r)).collect();
                if top != top_expected {
                    return Err(at(format!("the rows above are {top:?} instead of {top_expected:?}")));
                }
                rows_max = rows_max.max(possible[pi].rows);
                checked += 1;
                suggested += u32::from(*shown != text);
                listed += u32::from(l > 0);
                searching = vt.line(base).contains("(search)");
                searched += u32::from(searching);
            }
            let normal = d.ed.no_eol;
            prev = Some((text.clone(), cursor));
            let Some(&k) = keys.get(i) else {
                break;
            };
            if let Some((_, p, st)) = case.prompts.iter().filter(|_| n == 0).find(|x| x.0 == i && i > 0 && keys[i - 1] != K(Key::Char('\t'))) {
                last = p.rsplit_once('\n').map_or(p.as_str(), |x| x.1);
                modes = [strip(STATUS[*st].0), strip(STATUS[*st].1)];
                d.ed.set_prompt(Prompt { prompt: p.clone(), vi_status: if vi { status(*st) } else { None } });
                d.ed.display().map_err(|e| e.to_string())?;
                replaced += 1;
            }
            let r = d.key(k);
            let ended = !matches!(r, Ok(false));
            if !ended {
                in_mode = if d.ed.no_eol {
                    Some(1)
                } else if normal && !searching && matches!(k.0, Key::Char('i' | 'a' | 'A' | 'I' | 's' | 'C')) {
                    Some(0)
                } else if in_mode == Some(0) && !searching && matches!(k.0, Key::Char(_)) {
                    Some(0)
                } else {
                    None
                };
                continue;
            }
            // the picture left behind, unless Ctrl-C put a newline after a backslash
            if r.is_err() && k == ctrl('c') && prev.as_ref().map_or(false, |p| p.0 != d.text()) && d.text().contains("\\\n") {
                break;
            }
            let at = |e: String| {
                format!("session {n} (width {w}, prompt {:?}, text {init:?}, history {hist:?}) {}: {e}", case.prompt, show(&keys[..=i]))
            };
            let out = &d.ed.context().terminal.out;
            let new = out[fed..].to_vec();
            fed = out.len();
            vt.feed(&new).map_err(at)?;
            let text = d.text();
            let mut ok = false;
            let mut want = None;
            let none = [String::new()];
            for mode in if vi { &modes } else { &none[..] } {
                let prompt = format!("{mode}{}", strip(last));
                let p = picture(w, &prompt, &text, usize::MAX);
                let rows: &[usize] = if p.last_full { &[p.rows, p.rows + 1] } else { &[p.rows] };
                ok |= vt.lines_from(base) == p.lines && vt.c == 0 && !vt.full && rows.contains(&(vt.r - base));
                want.get_or_insert((p.lines, p.rows));
            }
            if !ok {
                return Err(at(format!(
                    "after the end the screen is {:?} with the cursor at {:?}; expected {want:?} (normal mode: {normal})",
                    vt.lines_from(base),
                    (vt.r as isize - base as isize, vt.c)
                )));
            }
            let top: Vec<String> = (base - top_expected.len()..base).map(|r| vt.line(r)).collect();
            if top != top_expected {
                return Err(at(format!("the rows above are {top:?} instead of {top_expected:?} after the end")));
            }
            obs.label("sessions ended");
            open = false;
            break;
        }
    }
    obs.nontrivial = checked >= 3 && rows_max >= 2;
    obs.label_if(rows_max >= 4, "4+ rows");
    obs.label_if(suggested > 0, "suggestion");
    obs.label_if(listed > 0, "completion list");
    obs.label_if(searched > 0, "search");
    obs.label_if(cleared > 0, "cleared");
    obs.label_if(replaced > 0, "prompt replaced");
    obs.labels_add("redraws checked", checked);
    Ok(())
}

/// Do the rows show exactly these candidates in this order, with blanks or the end of the row between
/// them?
fn lists_all(rows: &[String], all: &[&str], w: usize) -> bool {
    let rows: Vec<Vec<char>> = rows.iter().map(|r| r.chars().collect()).collect();
    let (mut r, mut c) = (0, 0);
    let skip = |r: &mut usize, c: &mut usize| {
        while *r < rows.len() && rows[*r].get(*c).map_or(true, |x| *x == ' ') {
            *c += 1;
            if *c >= rows[*r].len() {
                (*r, *c) = (*r + 1, 0);
            }
        }
    };
    for x in all {
        let fits = x.chars().filter_map(|c| c.width()).sum::<usize>() < w;
        let x = x.trim();
        let mut first = true;
        for ch in x.chars() {
            if first || !fits {
                skip(&mut r, &mut c);
            }
            if !first && !fits && ch == ' ' {
                continue;
            }
            first = false;
            if r >= rows.len() || rows[r].get(c) != Some(&ch) {
                return false;
            }
            c += 1;
        }
        if r < rows.len() && !matches!(rows[r].get(c), None | Some(' ')) {
            return false;
        }
    }
    skip(&mut r, &mut c);
    r >= rows.len()
}

fn wide(s: &str) -> bool {
    s.chars().any(|c| c.width() == Some(2))
}

/// Now and then hundreds of cells in one row, or hundreds of rows.
fn long_line() -> impl Strategy<Value = Option<(usize, String)>> {
    let w = prop_oneof![1 => 2usize..5, 2 => 260usize..900];
    let unit = select(&["ab ", "x", "é中", "word"][..]);
    let some = (w, unit, 200usize..900).prop_map(|(w, unit, n)| Some((w, unit.chars().cycle().take(n).collect())));
    prop_oneof![60 => Just(None), 1 => some]
}

fn gen(vi: bool) -> impl Strategy<Value = Case> {
    let fixed = select(
        &[
            "", "$ ", "> ", "prompt$ ", "é> ", "中文> ", "l1\nl2> ", "\n", "x\n", "a\n\nb ",
            "\x1b[31mred\x1b[0m$ ", "\x1b]0;t\x07$ ", "a prompt that is wider than narrow terminals> ", "\x1b[1;38;5;200m\x1b[4mab\x1b[m\n\x1b[32m中\x1b[39m ",
            "\x1b[Ka$ ", "\x1b[?25hxy\x1b[?7h> ", "\x1b]2;a m;b\x07\x1b[1mq\x1b[0;39;49m> ", "\x1b]0;é[m\x07p\n\x1b]0;x\x07\x1b[7mw\x1b[27m ",
        ][..],
    )
    .prop_map(|s| s.to_string());
    let prompt = prop_oneof![2 => fixed, 1 => any_prompt(true)];
    let next = select(&["", "# ", "中", "\x1b[32mok\x1b[0m 1> ", "quite a long prompt> ", "up\ndown> ", "a\nb\n"][..]).prop_map(|s: &str| s.to_string());
    let next = prop_oneof![4 => next, 1 => any_prompt(true)];
    let prompts = prop_oneof![2 => Just(vec![]), 1 => vec((1usize..30, next, 0..STATUS.len()), 1..4)];
    let width = prop_oneof![1 => Just(0usize), 1 => Just(1), 1 => 2usize..4, 6 => 4usize..14, 5 => 14usize..30, 2 => Just(80), 1 => big_n(300)];
    let plain = || vec(select(&['x', 'y', ' ', '中', 'é'][..]), 0..20).prop_map(|v| v.into_iter().collect::<String>());
    let words = vec(
        prop_oneof![3 => select(&["ab", "abc", "a", "b", "foo", "é", "foobar", "a.b", "ab c", "中日", "é中", "a日b日c日"][..]).prop_map(|s: &str| s.to_owned()), 1 => "[a-c]{1,18}"],
        0..5,
    );
    let init = prop_oneof![2 => Just(String::new()), 2 => text(24), 1 => text(70)];
    (
        (width, vec(plain(), 0..3), plain(), prompt, 0u8..4, prop_oneof![2 => Just(0), 1 => 1..STATUS.len()], prompts),
        history(5, true),
        words,
        init,
        vec((keys_for(vi, 10), prop::bool::weighted(0.15)).prop_map(|(mut k, stop)| {
            k.extend(stop.then_some(ctrl('c')));
            k
        }), 1..3),
        long_line(),
    )
        .prop_map(move |((width, above, partial, prompt, hl, status, prompts), hist, words, init, sessions, long)| {
            let (width, init) = long.unwrap_or((width, init));
            let mut c = Case { width, above, partial, prompt, hl, hist, words, init, sessions, status, prompts };
            if c.prompt.contains("\x1b[K") {
                // erases the last cell of an indicator that ends at the last column
                c.status = 0;
            }
            if c.width == 1 {
                c.status %= 3;
                c.prompts.iter_mut().for_each(|p| p.2 %= 3);
                // nothing wide fits there
                let narrow = |s: &mut String| *s = s.chars().filter(|c| c.width() != Some(2)).collect();
                c.above.iter_mut().chain(c.hist.iter_mut()).chain(c.words.iter_mut()).for_each(narrow);
                narrow(&mut c.partial);
                narrow(&mut c.prompt);
                c.prompts.iter_mut().for_each(|p| narrow(&mut p.1));
                narrow(&mut c.init);
                for s in &mut c.sessions {
                    s.retain(|k| !matches!(k.0, Key::Char(x) if wide(&x.to_string())));
                }
            }
            c
        })
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "a screen, width, prompt, highlighter, history, text and Emacs keys; every redraw run through a terminal emulator against an independent layout; non-trivial: at least 3 redraws and a picture of 2+ rows",
            360_000,
            4_000_000,
            || gen(false),
            |c, o| run::<Emacs>(c, false, o),
        ),
        suite(
            "vi",
            "the same with Vi keys and a mode indicator; non-trivial: at least 3 redraws and a picture of 2+ rows",
            360_000,
            4_000_000,
            || gen(true),
            |c, o| run::<Vi>(c, true, o),
        ),
    ]
}
