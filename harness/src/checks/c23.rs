//! C23: the editor's public operations do what they are documented to do, wherever they are called.
use super::c11::{common_prefix, word};
use super::c17::split;
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::{ctx, cur, hist_vec};
use liner::{Completer, Editor, EditorContext, Emacs, Event, EventKind, KeyMap, Vi, ViPromptMode, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Str(String),
    Ch(char),
    Chars(Vec<char>),
    DelBefore,
    DelAfter,
    DelAllBefore,
    DelAllAfter,
    DelUntil(usize),
    DelUntilIncl(usize),
    DelWord(bool),
    Left(usize),
    Right(usize),
    To(usize),
    Start,
    End,
    Undo,
    Redo,
    Revert,
    Up,
    Down,
    First,
    Last,
    Accept,
    /// edits the buffer itself, then displays
    BufInsert(usize, String),
    BufRemove(usize, usize),
    BufTruncate(usize),
    NoEol(bool),
    Display,
    Clear,
    Prompt(String),
    Mode(bool),
    SkipHint,
    Newline,
    Take,
    /// completions asked for once and that many times again
    Complete(Vec<String>, usize),
    /// a search begun forwards or not, the steps that follow, accepted
    Search(bool, Vec<bool>),
}
use Call::*;

struct Fixed {
    words: Vec<String>,
    asked: Vec<String>,
}
impl Completer for Fixed {
    fn completions(&mut self, word: &str) -> Vec<String> {
        self.asked.push(word.to_owned());
        self.words.clone()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    width: usize,
    hist: Vec<String>,
    init: String,
    ops: Vec<Call>,
}

/// A text with the states undo and redo may bring back.
#[derive(Clone, Default)]
struct Log {
    text: Vec<char>,
    past: Vec<Vec<char>>,
    future: Vec<Vec<char>>,
    /// an edit that changed nothing may have dropped what could be redone
    unsure: bool,
}
impl Log {
    fn set(&mut self, t: Vec<char>) {
        self.unsure = t == self.text && (self.unsure || !self.future.is_empty());
        if t != self.text {
            self.past.push(std::mem::replace(&mut self.text, t));
            self.future.clear();
        }
    }
}

struct Model<'a> {
    hist: &'a [String],
    draft: Log,
    visited: Log,
    loc: Option<usize>,
    cur: usize,
    no_eol: bool,
    /// whether the visited entry was edited
    touched: bool,
    over: bool,
}

impl Model<'_> {
    fn log(&mut self) -> &mut Log {
        match self.loc {
            None => &mut self.draft,
            Some(_) => {
                self.touched = true;
                &mut self.visited
            }
        }
    }
    fn text(&self) -> &Vec<char> {
        match self.loc {
            None => &self.draft.text,
            Some(_) => &self.visited.text,
        }
    }
    fn clamp(&mut self) {
        let len = self.text().len();
        self.cur = self.cur.min(len);
        if self.no_eol && self.cur > 0 && self.cur == len {
            self.cur -= 1;
        }
    }
    fn cut(&mut self, a: usize, b: usize) {
        let mut t = self.text().clone();
        t.drain(a..b);
        self.log().set(t);
        self.cur = a;
    }
    fn insert(&mut self, cs: &[char]) {
        let mut t = self.text().clone();
        t.splice(self.cur..self.cur, cs.iter().copied());
        self.log().set(t);
        self.cur += cs.len();
    }
    fn suggestion(&self) -> Option<Vec<char>> {
        if self.loc.is_some() {
            return None;
        }
        let t: String = self.text().iter().collect();
        suggestion(self.hist, &t).map(|s| s.chars().collect())
    }
}

/// What led to the text so far is forgotten by editor and model.
fn forget<C: EditorContext>(ed: &mut Editor<C>, m: &mut Model) {
    ed.current_buffer_mut().clear_actions();
    let l = m.log();
    *l = Log { text: std::mem::take(&mut l.text), ..Log::default() };
}

/// Runs one operation on editor and model; whether the line was entered.
fn apply<C: EditorContext>(op: &Call, ed: &mut Editor<C>, m: &mut Model, obs: &mut Obs) -> Result<bool, String> {
    let io = |e: std::io::Error| format!("failed: {e}");
    let len = m.text().len();
    let c = m.cur;
    match op {
        Str(s) => {
            ed.insert_str_after_cursor(s).map_err(io)?;
            m.insert(&s.chars().collect::<Vec<_>>());
        }
        Ch(x) => {
            ed.insert_after_cursor(*x).map_err(io)?;
            m.insert(&[*x]);
        }
        Chars(v) => {
            ed.insert_chars_after_cursor(v).map_err(io)?;
            m.insert(v);
        }
        DelBefore => {
            ed.delete_before_cursor().map_err(io)?;
            if c > 0 {
                m.cut(c - 1, c);
            }
        }
        DelAfter => {
            ed.delete_after_cursor().map_err(io)?;
            if c < len {
                m.cut(c, c + 1);
            }
            m.log();
        }
        DelAllBefore => {
            ed.delete_all_before_cursor().map_err(io)?;
            m.cut(0, c);
        }
        DelAllAfter => {
            ed.delete_all_after_cursor().map_err(io)?;
            m.cut(c, len);
        }
        DelUntil(p) => {
            ed.delete_until(*p).map_err(io)?;
            let p = *p.min(&len);
            m.cut(c.min(p), c.max(p));
        }
        DelUntilIncl(p) => {
            ed.delete_until_inclusive(*p).map_err(io)?;
            let p = *p.min(&len);
            m.cut(c.min(p), (c.max(p) + 1).min(len));
        }
        DelWord(ignore) => {
            ed.delete_word_before_cursor(*ignore).map_err(io)?;
            let ws = split(m.text());
            let touching = ws.iter().find(|w| w.0 < c && c <= w.1);
            let before = ws.iter().rev().find(|w| w.1 <= c);
            if let Some(w) = touching.or(if *ignore { before } else { None }) {
                m.cut(w.0, c);
                obs.label("word deleted");
            }
        }
        Left(n) => {
            ed.move_cursor_left(*n).map_err(io)?;
            m.cur = c.saturating_sub(*n);
        }
        Right(n) => {
            ed.move_cursor_right(*n).map_err(io)?;
            m.cur = c.saturating_add(*n).min(len);
        }
        To(p) => {
            ed.move_cursor_to(*p).map_err(io)?;
            m.cur = *p.min(&len);
        }
        Start => {
            ed.move_cursor_to_start_of_line().map_err(io)?;
            m.cur = 0;
        }
        End => {
            ed.move_cursor_to_end_of_line().map_err(io)?;
            m.cur = len;
        }
        Undo | Redo | Revert => {
            let did = match op {
                Undo => ed.undo(),
                Redo => ed.redo(),
                _ => ed.revert(),
            }
            .map_err(io)?;
            let got: Vec<char> = ed.current_buffer().chars().copied().collect();
            let l = m.log();
            if matches!(op, Redo) && !did && l.unsure {
                l.future.clear();
            }
            let (from, to) = match op {
                Redo => (&mut l.future, &mut l.past),
                _ => (&mut l.past, &mut l.future),
            };
            if !did {
                if !from.is_empty() {
                    return Err("did nothing although there is something to take back".into());
                }
            } else if matches!(op, Revert) {
                if let Some(first) = from.first().cloned() {
                    to.push(l.text.clone());
                    to.extend(from.drain(1..).rev());
                    from.clear();
                    l.text = first;
                }
                obs.label("reverted");
            } else if got != l.text {
                // an edit that changed nothing may count as a step
                match from.pop() {
                    Some(t) if t == got => to.push(std::mem::replace(&mut l.text, t)),
                    t => return Err(format!("brings {got:?} back, expected {t:?}")),
                }
                obs.label("undone or redone");
            }
            if did {
                m.cur = m.text().len();
            }
        }
        Up | Down | First | Last => {
            let was = m.loc;
            match op {
                Up => ed.move_up(),
                Down => ed.move_down(),
                First => ed.move_to_start_of_history(),
                _ => ed.move_to_end_of_history(),
            }
            .map_err(io)?;
            // which entry is C07's matter
            m.loc = ed.current_history_location();
            let ok = match op {
                First => m.loc == if m.hist.is_empty() { None } else { Some(0) },
                Last => m.loc.is_none(),
                Down => m.loc.is_none() || was.is_some(),
                _ => was.is_none() || m.loc.is_some(),
            };
            if !ok {
                return Err(format!("leads from {was:?} to {:?}", m.loc));
            }
            m.touched = false;
            if let Some(i) = m.loc {
                m.visited = Log { text: m.hist[i].chars().collect(), ..Log::default() };
                obs.label("entry visited");
            }
            if !(matches!(op, Last | First) && m.loc.is_none() && was.is_none()) {
                m.cur = m.text().len();
            }
        }
        Accept => {
            let s = m.suggestion();
            ed.accept_autosuggestion().map_err(io)?;
            obs.label_if(s.is_some(), "suggestion accepted");
            let t = s.unwrap_or_else(|| m.text().clone());
            m.log().set(t);
            m.cur = m.text().len();
        }
        BufInsert(p, s) => {
            let cs: Vec<char> = s.chars().collect();
            let p = p % (len + 1);
            ed.current_buffer_mut().insert(p, &cs);
            ed.display().map_err(io)?;
            let mut t = m.text().clone();
            t.splice(p..p, cs);
            m.log().set(t);
        }
        BufRemove(a, b) => {
            let (a, b) = (a % (len + 1), b % (len + 1));
            let (a, b) = (a.min(b), a.max(b));
            ed.current_buffer_mut().remove(a, b);
            ed.display().map_err(io)?;
            let mut t = m.text().clone();
            t.drain(a..b);
            m.log().set(t);
        }
        BufTruncate(n) => {
            ed.current_buffer_mut().truncate(n % (len + 1));
            ed.display().map_err(io)?;
            let mut t = m.text().clone();
            t.truncate(n % (len + 1));
            m.log().set(t);
        }
        NoEol(b) => {
            ed.no_eol = *b;
            ed.display().map_err(io)?;
            m.no_eol = *b;
        }
        Display => ed.display().map_err(io)?,
        Clear => ed.clear().map_err(io)?,
        Prompt(s) => {
            ed.set_prompt(liner::Prompt { prompt: s.clone(), vi_status: Some(ViStatus::default()) });
            ed.display().map_err(io)?;
        }
        Mode(n) => {
            ed.set_vi_mode(if *n { ViPromptMode::Normal } else { ViPromptMode::Insert });
            ed.display().map_err(io)?;
        }
        SkipHint => {
            ed.skip_completions_hint();
            ed.flush().map_err(io)?;
        }
        Newline => {
            let done = ed.handle_newline().map_err(io)?;
            let slash = c > 0 && m.text()[c - 1] == '\\';
            if done == slash {
                return Err(format!("returns {done} in {:?} at {c}", m.text()));
            }
            if !slash {
                m.cur = len;
                return Ok(true);
            }
            m.insert(&['\n']);
        }
        Take => {
            let t: String = m.text().iter().collect();
            let got = ed.take_exec_buffer();
            if got != t {
                return Err(format!("returns {got:?} instead of {t:?}"));
            }
            if m.loc.is_some() {
                // what is left of an entry is not specified
                obs.label("taken from an entry");
                m.over = true;
                return Ok(true);
            }
            ed.display().map_err(io)?;
            m.draft = Log::default();
            obs.label("taken");
        }
        Complete(words, again) => {
            let t = m.text().clone();
            let ranges = split(&t);
            if ranges.iter().any(|w| w.0 < c && c < w.1) {
                return Ok(false);
            }
            let start = ranges.iter().find(|w| w.1 == c).map_or(c, |w| w.0);
            let word: String = t[start..c].iter().collect();
            let mut cands: Vec<String> = words.clone();
            cands.sort();
            cands.dedup();
            let prefix = if cands.is_empty() { String::new() } else { common_prefix(&cands) };
            ed.skip_completions_hint();
            let mut h = Fixed { words: words.clone(), asked: vec![] };
            ed.complete(&mut h).map_err(io)?;
            if h.asked != [word.clone()] {
                return Err(format!("asks for {:?}, expected {word:?}", h.asked));
            }
            let put = match cands.len() {
                0 => None,
                1 => Some(&cands[0]),
                _ if prefix.len() > word.len() && prefix.starts_with(&word) => Some(&prefix),
                n => {
                    for _ in 0..*again {
                        ed.complete(&mut h).map_err(io)?;
                    }
                    obs.label_if(*again > 0, "cycled through completions");
                    again.checked_sub(1).map(|i| &cands[i % n])
                }
            };
            if let Some(s) = put {
                let mut t = t;
                t.splice(start..c, s.chars());
                m.log().set(t);
                m.cur = start + s.chars().count();
                obs.label("completed");
            }
            if put.is_none() || cands.len() > 1 {
                m.log();
            }
            ed.skip_completions_hint();
            forget(ed, m);
        }
        Search(forward, steps) => {
            if m.loc.is_some() {
                return Ok(false);
            }
            let typed: String = m.text().iter().collect();
            let found = candidates(m.hist, &typed);
            let n = found.len();
            ed.search(*forward).map_err(io)?;
            let mut at = if *forward { 0 } else { n.wrapping_sub(1) };
            for &f in steps {
                ed.search(f).map_err(io)?;
                if n > 0 {
                    at = if f { at + 1 } else { at + n - 1 } % n;
                }
            }
            ed.accept_autosuggestion().map_err(io)?;
            if n > 0 {
                m.draft.set(m.hist[found[at]].chars().collect());
                obs.label("searched");
            }
            m.cur = m.text().len();
            forget(ed, m);
        }
    }
    m.clamp();
    Ok(false)
}

fn compare<C: EditorContext>(ed: &Editor<C>, m: &Model, done: bool) -> Res {
    let got: Vec<char> = ed.current_buffer().chars().copied().collect();
    if got != *m.text() || ed.cursor() != m.cur {
        return Err(format!("text {:?} with the cursor at {}, expected {:?} at {}", cur(ed), ed.cursor(), m.text().iter().collect::<String>(), m.cur));
    }
    if done {
        return Ok(());
    }
    let end = m.cur == if m.no_eol { got.len().saturating_sub(1) } else { got.len() };
    if ed.cursor_is_at_end_of_line() != end {
        return Err(format!("cursor_is_at_end_of_line() is {} at {} of {:?}", !end, m.cur, cur(ed)));
    }
    let s = m.suggestion().is_some();
    if m.loc.is_none() && ed.is_currently_showing_autosuggestion() != s {
        return Err(format!("is_currently_showing_autosuggestion() is {} for {:?}", !s, cur(ed)));
    }
    Ok(())
}

fn model<'a>(hist: &'a [String], init: &str) -> Model<'a> {
    let text: Vec<char> = init.chars().collect();
    Model { hist, cur: text.len(), draft: Log { text, ..Log::default() }, visited: Log::default(), loc: None, no_eol: false, touched: false, over: false }
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(case.width, &case.hist, false);
    let before = hist_vec(&c.history);
    {
        let p = liner::Prompt { prompt: "> ".into(), vi_status: Some(ViStatus::default()) };
        let mut ed = Editor::new_with_init_buffer(p, None, &mut c, case.init.as_str()).map_err(|e| e.to_string())?;
        let mut m = model(&case.hist, &case.init);
        let mut changed = 0;
        for (i, op) in case.ops.iter().enumerate() {
            let at = |e: String| format!("history {:?}, {:?} {:?}: {e}", case.hist, case.init, &case.ops[..=i]);
            let old = m.text().clone();
            let done = apply(op, &mut ed, &mut m, obs).map_err(at)?;
            if m.over {
                obs.nontrivial = changed >= 2;
                return Ok(());
            }
            compare(&ed, &m, done).map_err(at)?;
            changed += usize::from(old != *m.text());
            if done {
                break;
            }
        }
        obs.nontrivial = changed >= 2;
        let want: String = m.text().iter().collect();
        let got = String::from(ed);
        if got != want {
            return Err(format!("history {:?}, {:?} {:?}: the editor turns into {got:?} instead of {want:?}", case.hist, case.init, case.ops));
        }
    }
    if hist_vec(&c.history) != before {
        return Err(format!("{:?} {:?}: the history becomes {:?}", case.init, case.ops, hist_vec(&c.history)));
    }
    Ok(())
}

fn pos() -> impl Strategy<Value = usize> {
    prop_oneof![8 => 0usize..16, 1 => select(&[usize::MAX, usize::MAX - 1, 1 << 32, 1000][..])]
}

fn edit() -> BoxedStrategy<Call> {
    prop_oneof![
        4 => text(8).prop_map(Str),
        3 => any_char().prop_map(Ch),
        2 => vec(any_char(), 0..5).prop_map(Chars),
        2 => Just(DelBefore),
        2 => Just(DelAfter),
        1 => Just(DelAllBefore),
        1 => Just(DelAllAfter),
        3 => pos().prop_map(DelUntil),
        3 => pos().prop_map(DelUntilIncl),
        3 => any::<bool>().prop_map(DelWord),
        2 => pos().prop_map(Left),
        2 => pos().prop_map(Right),
        4 => pos().prop_map(To),
        1 => Just(Start),
        1 => Just(End),
        1 => (0usize..20, text(5)).prop_map(|(p, s)| BufInsert(p, s)),
        1 => (0usize..20, 0usize..20).prop_map(|(a, b)| BufRemove(a, b)),
        1 => (0usize..20).prop_map(BufTruncate),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Call> {
    prop_oneof![
        30 => edit(),
        4 => Just(Undo),
        3 => Just(Redo),
        1 => Just(Revert),
        3 => Just(Up),
        2 => Just(Down),
        1 => Just(First),
        1 => Just(Last),
        2 => Just(Accept),
        1 => any::<bool>().prop_map(NoEol),
        1 => Just(Display),
        1 => Just(Clear),
        1 => select(&["", "$ ", "longer prompt> ", "中"][..]).prop_map(|s| Prompt(s.to_owned())),
        1 => any::<bool>().prop_map(Mode),
        1 => Just(SkipHint),
        1 => Just(Newline),
        1 => Just(Take),
        2 => (vec(word(), 0..5), 0usize..6).prop_map(|(w, n)| Complete(w, n)),
        2 => (any::<bool>(), vec(any::<bool>(), 0..5)).prop_map(|(f, s)| Search(f, s)),
    ]
    .boxed()
}

fn gen() -> impl Strategy<Value = Case> {
    (select(&[1usize, 2, 9, 20, 80][..]), history(4, true), text(14), seq(op(), 1..24), any::<prop::sample::Index>(), 0usize..16).prop_map(|(width, hist, init, ops, ix, n)| {
        // often the start of an entry, so that there is a suggestion
        let init = if n < 6 && !hist.is_empty() { ix.get(&hist).chars().take(n).collect() } else { init };
        let narrow = |s: &str| s.chars().all(|c| unicode_width::UnicodeWidthChar::width(c) != Some(2));
        // a wide character does not fit a screen of one column
        let fits = hist.iter().all(|h| narrow(h)) && narrow(&init) && narrow(&format!("{ops:?}"));
        Case { width: if width > 1 || fits { width } else { 3 }, hist, init, ops }
    })
}

// ---------------------------------------------------------------- from event handlers

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvCase {
    vi: bool,
    init: String,
    /// per key: what handlers do before and after it
    steps: Vec<(Vec<Call>, K, Vec<Call>)>,
}

struct Handler<'a> {
    step: &'a RefCell<(Vec<Call>, Vec<Call>)>,
    m: &'a RefCell<Model<'static>>,
    key: K,
    vi: bool,
    err: Option<String>,
    obs: &'a mut Obs,
}

fn plain_key(m: &mut Model, k: K, vi: bool) {
    let (c, len) = (m.cur, m.text().len());
    match k.0 {
        Key::Char(x) => m.insert(&[x]),
        Key::Left => m.cur = c.saturating_sub(1),
        Key::Right => m.cur = (c + 1).min(len),
        Key::Home => m.cur = 0,
        Key::End => m.cur = len,
        Key::Backspace if c > 0 => m.cut(c - 1, c),
        Key::Delete if c < len => m.cut(c, c + 1),
        Key::Ctrl('h') if c > 0 => m.cut(c - 1, c),
        Key::Ctrl('d') if !vi && c < len => m.cut(c, c + 1),
        _ => {}
    }
    m.clamp();
}

impl Completer for Handler<'_> {
    fn completions(&mut self, _: &str) -> Vec<String> {
        vec![]
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        let mut m = self.m.borrow_mut();
        let ops = match e.kind {
            EventKind::BeforeKey(_) => self.step.borrow().0.clone(),
            EventKind::AfterKey(_) => {
                if self.key == ctrl('d') && m.text().is_empty() {
                    self.err.get_or_insert("Ctrl-D on a line that is empty by now does not end it".into());
                    return;
                }
                plain_key(&mut m, self.key, self.vi);
                if let Err(x) = compare(e.editor, &m, true) {
                    self.err.get_or_insert(format!("after the key: {x}"));
                    return;
                }
                self.step.borrow().1.clone()
            }
            EventKind::BeforeComplete => return,
        };
        for op in &ops {
            let r = apply(op, e.editor, &mut m, self.obs).and_then(|_| compare(e.editor, &m, true));
            if let Err(x) = r {
                self.err.get_or_insert(format!("{op:?} in the handler: {x}"));
                return;
            }
        }
    }
}

fn run_events<M: KeyMap>(case: &EvCase, obs: &mut Obs) -> Res {
    let mut c = ctx(40, &[], case.vi);
    let mut ed = Editor::new_with_init_buffer(liner::Prompt::from("> "), None, &mut c, case.init.as_str()).map_err(|e| e.to_string())?;
    let mut km = M::default();
    km.init(&mut ed).map_err(|e| e.to_string())?;
    let m = RefCell::new(model(&[], &case.init));
    let mut edits = 0;
    for (i, (b, k, a)) in case.steps.iter().enumerate() {
        let at = |e: String| format!("{:?}, {:?}: {e}", case.init, &case.steps[..=i]);
        let step = RefCell::new((b.clone(), a.clone()));
        let mut h = Handler { step: &step, m: &m, key: *k, vi: case.vi, err: None, obs };
        let r = km.handle_key(k.0, &mut ed, &mut h);
        if let Some(e) = h.err {
            return Err(at(e));
        }
        let r = match r {
            // as the handler left the line
            Err(e) if *k == ctrl('d') && e.kind() == std::io::ErrorKind::UnexpectedEof && m.borrow().text().is_empty() => {
                obs.label("Ctrl-D on an empty line");
                break;
            }
            r => r.map_err(|e| at(e.to_string()))?,
        };
        if r {
            return Err(at("the line is entered".into()));
        }
        compare(&ed, &m.borrow(), true).map_err(at)?;
        edits += b.len() + a.len();
    }
    obs.nontrivial = edits >= 1 && case.steps.len() >= 2;
    Ok(())
}

fn gen_events() -> impl Strategy<Value = EvCase> {
    let key = prop_oneof![
        6 => any_char().prop_map(ch),
        6 => select(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Backspace, Key::Delete, Key::Ctrl('d'), Key::Ctrl('h')][..]).prop_map(K),
    ];
    let ops = || prop_oneof![2 => Just(vec![]), 2 => vec(edit(), 1..3)];
    (any::<bool>(), prop_oneof![4 => text(10), 1 => text(1)], vec((ops(), key, ops()), 1..9)).prop_map(|(vi, init, steps)| EvCase { vi, init, steps })
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "calls",
            "a history, a text and a sequence of calls on the editor (insertions, deletions, movements with any argument, undo, navigation, settings), every one compared with a model; non-trivial: at least two calls change the text",
            450_000,
            6_000_000,
            gen,
            check,
        ),
        suite(
            "events",
            "keys, with an event handler that edits the line before and after them; non-trivial: at least two keys and one edit by the handler",
            300_000,
            4_000_000,
            gen_events,
            |c, o| if c.vi { run_events::<Vi>(c, o) } else { run_events::<Emacs>(c, o) },
        ),
    ]
}
