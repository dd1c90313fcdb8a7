//! C07: history navigation visits the matching entries in order and keeps the draft.
use crate::infra::*;
use crate::keys::*;
use crate::nav::*;
use crate::sess::*;
use liner::{Emacs, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// number of steps, other key for the same (Ctrl-P, k)
    Up(u8, bool),
    Down(u8, bool),
    /// Emacs only
    Oldest,
    Draft,
    /// keys of insert mode / of Emacs
    Type(Vec<K>),
    /// Vi: keys of normal mode that leave it in normal mode; Emacs: the same as Type
    Change(Vec<K>),
    Mode,
    /// cursor movements and Ctrl-L
    Other(K),
    Search(bool, Vec<K>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Vec<String>,
    init: String,
    ops: Vec<Op>,
}

fn typed_keys() -> impl Strategy<Value = Vec<K>> + Clone {
    prop_oneof![
        5 => select(&["a", "b", "ab", "é", "a b", "foo", "c"][..]).prop_map(|s| s.chars().map(ch).collect::<Vec<K>>()),
        2 => vec(tchar().prop_map(ch), 1..3),
        2 => vec(Just(K(Key::Backspace)), 1..4),
        1 => Just(vec![ch('\\'), K(Key::Char('\n'))]),
    ]
}

fn op(vi: bool) -> BoxedStrategy<Op> {
    let change = if vi {
        select(&["x", "D", "dd", "X", "~", "ra", "dw", "2x"][..]).prop_map(|s| s.chars().map(ch).collect::<Vec<K>>()).boxed()
    } else {
        select(&['u', 'w', 'k', 'h', 'd'][..]).prop_map(|c| vec![ctrl(c)]).boxed()
    };
    let common = prop_oneof![
        10 => (prop_oneof![5 => Just(1u8), 2 => 2u8..5], any::<bool>()).prop_map(|(n, b)| Op::Up(n, b)),
        8 => (prop_oneof![5 => Just(1u8), 2 => 2u8..5], any::<bool>()).prop_map(|(n, b)| Op::Down(n, b)),
        6 => typed_keys().prop_map(Op::Type),
        2 => change.prop_map(Op::Change),
        2 => select(&[Key::Left, Key::Home, Key::End, Key::Right, Key::Ctrl('l'), Key::Ctrl('l')][..]).prop_map(|k| Op::Other(K(k))),
        1 => (any::<bool>(), vec(tchar().prop_map(ch), 0..2)).prop_map(|(f, k)| Op::Search(f, k)),
    ];
    if vi {
        prop_oneof![8 => common, 1 => Just(Op::Mode)].boxed()
    } else {
        prop_oneof![14 => common, 2 => Just(Op::Oldest), 3 => Just(Op::Draft)].boxed()
    }
}

fn gen(vi: bool) -> impl Strategy<Value = Case> {
    let hist = prop_oneof![
        6 => history(8, true),
        2 => vec(select(&["a", "ab", "abc", "ba", "b", "aab", "bab", "c", "", "a\nb"][..]).prop_map(|s: &str| s.to_owned()), 0..24),
    ];
    (hist, prop_oneof![3 => Just(String::new()), 1 => entry(true)], seq(op(vi), 1..14), common_prefix(), filler()).prop_map(|(hist, mut init, ops, prefix, fill)| {
        let hist = filled(prefixed(&prefix, hist, &mut init), fill);
        Case { hist, init, ops }
    })
}

struct St<'a> {
    hist: &'a [String],
    draft: String,
    loc: Option<usize>,
    edited: Option<String>,
    /// the entries being stepped through and the place in there
    steps: Option<(Vec<usize>, usize)>,
}
impl St<'_> {
    fn text(&self) -> &str {
        match (self.loc, &self.edited) {
            (None, _) => &self.draft,
            (_, Some(t)) => t,
            (Some(i), _) => &self.hist[i],
        }
    }
    /// Whether an entry or the draft was arrived at.
    fn up(&mut self) -> bool {
        let (v, at) = match (self.steps.take(), self.loc) {
            (Some((v, at)), _) => (v, at),
            // shown by Alt-<
            (None, Some(i)) => ((0..self.hist.len()).collect(), i),
            (None, None) => {
                let v = matching(self.hist, &self.draft);
                let n = v.len();
                (v, n)
            }
        };
        if v.is_empty() {
            return false;
        }
        let moved = at > 0;
        let at = at.saturating_sub(1);
        self.loc = Some(v[at]);
        self.edited = if moved { None } else { self.edited.take() };
        self.steps = Some((v, at));
        moved
    }
    fn down(&mut self) -> bool {
        let (v, at) = match (self.steps.take(), self.loc) {
            (Some((v, at)), _) => (v, at),
            (None, Some(i)) => ((0..self.hist.len()).collect(), i),
            (None, None) => return false,
        };
        self.edited = None;
        if at + 1 < v.len() {
            self.loc = Some(v[at + 1]);
            self.steps = Some((v, at + 1));
        } else {
            self.loc = None;
        }
        true
    }
    fn set(&mut self, t: String) {
        if self.loc.is_some() {
            self.edited = Some(t);
        } else {
            self.draft = t;
        }
    }
}

fn run<M: KeyMap>(case: &Case, vi: bool, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &case.hist, vi);
    let mut d: Drv<M> = Drv::new(&mut c, Prompt::from("$ "), &case.init)?;
    let mut s = St { hist: &case.hist, draft: case.init.clone(), loc: None, edited: None, steps: None };
    let mut normal = false;
    let mut log: Vec<K> = vec![];
    let (mut visited, mut matched, mut back, mut returned) = (0, false, false, false);
    macro_rules! press {
        ($k:expr) => {{
            log.push($k);
            d.key($k)?
        }};
    }
    macro_rules! same {
        ($arrived:expr) => {{
            let at = |e: String| format!("history {:?}, initially {:?}, {}: {e}", case.hist, case.init, show(&log));
            let t = d.text();
            if t != s.text() || d.ed.current_history_location() != s.loc {
                return Err(at(format!(
                    "shows {t:?} (entry {:?}) instead of {:?} (entry {:?})",
                    d.ed.current_history_location(), s.text(), s.loc
                )));
            }
            let n = t.chars().count();
            let want = if normal && n > 0 { n - 1 } else { n };
            if $arrived && d.cursor() != want {
                return Err(at(format!("arriving puts the cursor at {} instead of {want}", d.cursor())));
            }
        }};
    }
    for op in &case.ops {
        match op {
            Op::Up(n, alt) | Op::Down(n, alt) => {
                let up = matches!(op, Op::Up(..));
                let k = match (up, *alt, vi) {
                    (true, true, false) => ctrl('p'),
                    (false, true, false) => ctrl('n'),
                    (true, true, true) if normal => ch('k'),
                    (false, true, true) if normal => ch('j'),
                    (true, ..) => K(Key::Up),
                    (false, ..) => K(Key::Down),
                };
                for _ in 0..*n {
                    // what staying on an edited entry means is left open
                    let stays = s.edited.is_some() && up && s.steps.as_ref().map_or(s.loc == Some(0), |x| x.1 == 0);
                    if stays {
                        continue;
                    }
                    press!(k);
                    let from = s.loc;
                    let moved = if up { s.up() } else { s.down() };
                    same!(moved);
                    visited += u32::from(moved && s.loc.is_some());
                    matched |= moved && s.loc.is_some() && !s.draft.is_empty();
                    back |= moved && !up && s.loc.is_some();
                    returned |= moved && from.is_some() && s.loc.is_none() && !s.draft.is_empty();
                }
            }
            Op::Oldest => {
                if s.loc == Some(0) && s.edited.is_some() {
                    continue;
                }
                press!(alt('<'));
                s.steps = None;
                s.loc = if case.hist.is_empty() { None } else { Some(0) };
                s.edited = None;
                obs.label("Alt-<");
                same!(s.loc.is_some());
            }
            Op::Draft => {
                let from = s.loc.is_some();
                press!(alt('>'));
                s.steps = None;
                s.loc = None;
                s.edited = None;
                same!(from);
            }
            Op::Type(ks) | Op::Change(ks) => {
                // in Vi each kind goes with a mode
                let change = matches!(op, Op::Change(_));
                if vi && change != normal {
                    continue;
                }
                for &k in ks {
                    let empty = d.text().is_empty();
                    if (k == K(Key::Char('\n')) && !d.ed.current_buffer().char_before(d.cursor()).map_or(false, |c| c == '\\'))
                        || (k == ctrl('d') && empty)
                    {
                        break;
                    }
                    press!(k);
                    let t = d.text();
                    if s.text() != t {
                        s.set(t);
                        obs.label_if(s.loc.is_some(), "edits of an entry");
                    }
                    same!(false);
                }
            }
            Op::Mode => {
                press!(if normal { ch('i') } else { K(Key::Esc) });
                normal = !normal;
                same!(false);
            }
            Op::Other(k) => {
                press!(*k);
                // a suggestion may have been accepted
                if *k == K(Key::Right) && s.loc.is_none() {
                    s.set(d.text());
                }
                same!(false);
            }
            Op::Search(fwd, ks) => {
                if normal {
                    continue;
                }
                press!(ctrl(if *fwd { 's' } else { 'r' }));
                for &k in ks {
                    press!(k);
                }
                if d.ed.is_currently_showing_autosuggestion() {
                    press!(ctrl('f'));
                } else {
                    press!(ctrl('l'));
                }
                s.loc = None;
                s.edited = None;
                s.steps = None;
                s.draft = d.text();
                obs.label("searches in between");
            }
        }
    }
    let t = d.text();
    if press!(K(Key::Char('\n'))) {
        let got = String::from(d.ed);
        if got != t {
            return Err(format!("{:?} {}: returns {got:?} instead of {t:?}", case.hist, show(&log)));
        }
    }
    obs.nontrivial = visited >= 2;
    obs.label_if(matched, "with something typed");
    obs.label_if(back, "back down to an entry");
    obs.label_if(returned, "back to the typed text");
    obs.label_if(visited > 6, "7+ arrivals");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "a history, an initial text and a sequence of Up/Down/Ctrl-P/Ctrl-N/Alt-</Alt->, edits, cursor keys and searches in Emacs bindings against a model of the steps; non-trivial: at least 2 arrivals at entries",
            600_000,
            6_000_000,
            || gen(false),
            |c, o| run::<Emacs>(c, false, o),
        ),
        suite(
            "vi",
            "the same with arrows, j, k and edits in Vi bindings in both modes; non-trivial: at least 2 arrivals at entries",
            600_000,
            6_000_000,
            || gen(true),
            |c, o| run::<Vi>(c, true, o),
        ),
    ]
}
