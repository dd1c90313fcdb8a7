//! C17: word splitting and cursor classification are exact.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, CursorPosition, Editor, Prompt};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// The text is cut at every space that no backslash precedes; what remains of a piece after the
/// blanks and backslashes it starts with is a word.
pub fn split(cs: &[char]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for i in 0..=cs.len() {
        let cut = i == cs.len() || (cs[i] == ' ' && (i == 0 || cs[i - 1] != '\\'));
        if cut {
            if let Some(b) = (s..i).find(|&k| cs[k] != ' ' && cs[k] != '\\') {
                v.push((b, i));
            }
            s = i + 1;
        }
    }
    v
}

/// Where a cursor is among ordered words; of two words that touch, the left one counts.
pub fn classify(cursor: usize, words: &[(usize, usize)]) -> CursorPosition {
    use CursorPosition::*;
    if let Some(i) = words.iter().position(|&(s, e)| s < cursor && cursor < e) {
        return InWord(i);
    }
    if let Some(i) = words.iter().position(|&(_, e)| e == cursor) {
        return OnWordRightEdge(i);
    }
    if let Some(i) = words.iter().position(|&(s, _)| s == cursor) {
        return OnWordLeftEdge(i);
    }
    let left = words.iter().rposition(|&(_, e)| e < cursor);
    let right = words.iter().position(|&(s, _)| s > cursor);
    InSpace(left, right)
}

fn text_case() -> impl Strategy<Value = String> {
    let c = prop_oneof![
        4 => select(&['a', 'b', ' ', ' ', ' ', '\\', '\\'][..]),
        2 => tchar(),
        1 => select(&['\n', '\t', '\u{a0}', '"', '\''][..]),
    ];
    prop_oneof![
        4 => vec(c.clone(), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
        3 => vec(c, 0..30).prop_map(|v| v.into_iter().collect::<String>()),
        1 => text(30),
    ]
}

fn check_split(t: &String, obs: &mut Obs) -> Res {
    let cs: Vec<char> = t.chars().collect();
    let got = liner::get_buffer_words(&Buffer::from(t.as_str()));
    // the statement, clause by clause
    let mut prev = 0;
    for &(s, e) in &got {
        if !(s < e && e <= cs.len() && prev <= s) {
            return Err(format!("{t:?}: {got:?} not ordered non-empty ranges of the text"));
        }
        prev = e;
        for k in s..e {
            if cs[k] == ' ' && (k == 0 || cs[k - 1] != '\\') {
                return Err(format!("{t:?}: {got:?} has an unescaped space at {k} inside a word"));
            }
        }
    }
    for (k, &c) in cs.iter().enumerate() {
        if c != ' ' && c != '\\' && !got.iter().any(|&(s, e)| s <= k && k < e) {
            return Err(format!("{t:?}: {got:?} does not cover {k}"));
        }
    }
    let want = split(&cs);
    if got != want {
        return Err(format!("{t:?}: words {got:?}, expected {want:?}"));
    }
    obs.nontrivial = !got.is_empty() && t.contains(' ');
    obs.label_if(t.contains("\\ "), "escaped space");
    obs.label_if(got.len() > 2, "3+ words");
    obs.label_if(t.contains("\\\\"), "double backslash");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pos {
    gaps: Vec<(usize, usize)>,
    cursor: usize,
}

fn check_pos(c: &Pos, obs: &mut Obs) -> Res {
    let mut words = vec![];
    let mut at = 0;
    for &(gap, len) in &c.gaps {
        words.push((at + gap, at + gap + len));
        at += gap + len;
    }
    // every cursor up to past the end, so that a case covers the whole list
    for cursor in (0..=at + 2).chain([c.cursor]) {
        let got = CursorPosition::get(cursor, words.clone());
        let want = classify(cursor, &words);
        if got != want {
            return Err(format!("cursor {cursor} in {words:?}: {got:?}, expected {want:?}"));
        }
        obs.label(match got {
            CursorPosition::InWord(_) => "in word",
            CursorPosition::OnWordLeftEdge(_) => "left edge",
            CursorPosition::OnWordRightEdge(_) => "right edge",
            CursorPosition::InSpace(..) => "in space",
        });
    }
    obs.nontrivial = words.len() > 1;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EdCase {
    text: String,
    hist: Vec<String>,
    ups: usize,
    cursor: usize,
}

fn check_editor(c: &EdCase, obs: &mut Obs) -> Res {
    let mut cx = ctx(80, &c.hist, false);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut cx, c.text.as_str())
        .map_err(|e| e.to_string())?;
    for _ in 0..c.ups {
        ed.move_up().map_err(|e| e.to_string())?;
    }
    ed.move_cursor_to(c.cursor).map_err(|e| e.to_string())?;
    let cs: Vec<char> = cur(&ed).chars().collect();
    let want = split(&cs);
    let (w, p) = ed.get_words_and_cursor_position();
    let w: Vec<_> = w.collect();
    let wantp = classify(c.cursor.min(cs.len()), &want);
    if w != want || p != wantp {
        return Err(format!(
            "text {:?} cursor {}: words {w:?} {p:?}, expected {want:?} {wantp:?}",
            cur(&ed),
            ed.cursor()
        ));
    }
    obs.nontrivial = w.len() > 1;
    obs.label_if(ed.current_history_location().is_some(), "on a history entry");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "divider",
            "a text over spaces, backslashes and other characters; non-trivial: it has a space and a word",
            1_800_000,
            20_000_000,
            text_case,
            check_split,
        ),
        suite(
            "classify",
            "an ordered list of non-empty words, classified at every cursor; non-trivial: two or more words",
            600_000,
            5_000_000,
            || (vec((0usize..4, 1usize..5), 0..7), 0usize..60).prop_map(|(gaps, cursor)| Pos { gaps, cursor }),
            check_pos,
        ),
        suite(
            "editor",
            "an editor with a line or history entry and a cursor; non-trivial: two or more words",
            180_000,
            1_500_000,
            || {
                (text_case(), history(4, true), 0usize..3, 0usize..32)
                    .prop_map(|(text, hist, ups, cursor)| EdCase { text, hist, ups, cursor })
            },
            check_editor,
        ),
    ]
}
