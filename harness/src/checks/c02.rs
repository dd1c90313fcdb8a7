//! C02: Emacs keys against their definition on (text, cursor).
use super::c01::divider;
use super::c17::split;
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, Emacs, Prompt};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hist: Vec<String>,
    init: String,
    /// Up this many times first (only if there is no initial text).
    ups: usize,
    divider: u8,
    keys: Vec<K>,
}

fn key() -> impl Strategy<Value = K> {
    prop_oneof![
        10 => any_char().prop_map(ch),
        22 => select(&['a', 'b', 'd', 'e', 'f', 'k', 'u', 'w', 'w', 'h'][..]).prop_map(ctrl),
        14 => select(&['b', 'b', 'f', 'f', '\x7f', '.', '.', '.', '.'][..]).prop_map(alt),
        16 => select(&[Key::Left, Key::Right, Key::Left, Key::Home, Key::End, Key::Backspace, Key::Delete][..]).prop_map(K),
        3 => select(&['g', 'j', 'o', 'q', 't', 'v', 'y', 'z', 'l', 'i', 'm', ']', '_', ' '][..]).prop_map(ctrl),
        3 => select(&['a', 'c', 'd', 'e', 'u', 'w', 'k', 't', 'y', ' ', '1', 'B', 'F', 'R', 'h', 'é', '\r', '\n'][..]).prop_map(alt),
        3 => prop_oneof![
            select(&[Key::Null, Key::Insert, Key::PageUp, Key::PageDown, Key::Esc, Key::BackTab][..]).prop_map(K),
            (1u8..13).prop_map(|n| K(Key::F(n))),
        ],
    ]
}

fn seg() -> impl Strategy<Value = Vec<K>> {
    prop_oneof![
        12 => key().prop_map(|k| vec![k]),
        1 => (2usize..5).prop_map(|n| vec![alt('.'); n]),
        1 => Just(vec![K(Key::End), K(Key::Right)]),
    ]
}

fn gen() -> impl Strategy<Value = Case> {
    (
        history(5, true),
        prop_oneof![2 => Just(String::new()), 3 => line(14), 2 => text(16)],
        prop_oneof![3 => Just(0usize), 2 => 1usize..4],
        select(&[0u8, 0, 0, 1, 2][..]),
        seq(seg(), 1..16),
        prop_oneof![2 => Just(None), 1 => (any::<prop::sample::Index>(), 1usize..8).prop_map(Some)],
    )
        .prop_map(|(hist, init, ups, divider, keys, pre)| {
            // the start of an entry, so that there is a suggestion
            let init = match pre {
                Some((ix, n)) if !hist.is_empty() => ix.get(&hist).chars().take(n).collect(),
                _ => init,
            };
            (hist, init, ups, divider, flat(keys))
        })
        .prop_map(|(hist, init, ups, divider, keys)| Case {
            ups: if hist.is_empty() { 0 } else { ups },
            init: if ups > 0 && !hist.is_empty() { String::new() } else { init },
            hist,
            divider,
            keys,
        })
}

fn last_arg(h: &[char]) -> Vec<char> {
    let s: String = h.iter().collect();
    s.split(' ').filter(|w| !w.is_empty()).next_back().unwrap_or("").chars().collect()
}

struct Model<'a> {
    text: Vec<char>,
    cur: usize,
    hist: &'a [Vec<char>],
    /// the history entry being edited
    loc: Option<usize>,
    div: u8,
    /// entry and length of what the last Alt-. inserted
    arg: Option<(usize, usize)>,
    /// a suggestion was accepted since Alt-.
    unclear: bool,
}

enum Step {
    Done(&'static str),
    Stop,
}

impl Model<'_> {
    fn words(&self) -> Vec<(usize, usize)> {
        match self.div {
            0 => split(&self.text),
            n => divider(n)(&Buffer::from(self.text.iter().collect::<String>())),
        }
    }
    fn suggestion(&self) -> Option<&Vec<char>> {
        if self.loc.is_some() || self.text.is_empty() {
            return None;
        }
        self.hist
            .iter()
            .rev()
            .find(|h| h.len() > self.text.len() && h.starts_with(&self.text))
    }
    fn cut(&mut self, a: usize, b: usize) {
        self.text.drain(a..b);
        self.cur = a;
    }
    fn step(&mut self, k: Key) -> Step {
        use Step::*;
        let len = self.text.len();
        let k = if k == Key::Ctrl('h') { Key::Backspace } else { k };
        let accept = k == Key::Ctrl('f') || (k == Key::Right && self.cur == len);
        if accept {
            if let Some(s) = self.suggestion() {
                self.text = s.clone();
                self.cur = self.text.len();
                self.unclear = self.arg.is_some();
                return Done("accept");
            }
        }
        if k == Key::Alt('.') {
            if self.unclear {
                return Stop;
            }
        } else {
            self.unclear = false;
        }
        if k != Key::Alt('.') {
            self.arg = None;
        }
        match k {
            Key::Char(c) => {
                self.text.insert(self.cur, c);
                self.cur += 1;
                Done("type")
            }
            Key::Left | Key::Ctrl('b') => {
                self.cur = self.cur.saturating_sub(1);
                Done("move")
            }
            Key::Right | Key::Ctrl('f') => {
                self.cur = (self.cur + 1).min(len);
                Done("move")
            }
            Key::Home | Key::Ctrl('a') => {
                self.cur = 0;
                Done("move")
            }
            Key::End | Key::Ctrl('e') => {
                self.cur = len;
                Done("move")
            }
            Key::Backspace => {
                if self.cur > 0 {
                    self.cut(self.cur - 1, self.cur)
                }
                Done("delete")
            }
            Key::Ctrl('d') if len == 0 => Stop,
            Key::Delete | Key::Ctrl('d') => {
                if self.cur < len {
                    self.cut(self.cur, self.cur + 1)
                }
                Done("delete")
            }
            Key::Ctrl('k') => {
                self.cut(self.cur, len);
                Done("C-k")
            }
            Key::Ctrl('u') => {
                self.cut(0, self.cur);
                Done("C-u")
            }
            Key::Ctrl('w') | Key::Alt('\x7f') => {
                if let Some(s) = self.words().iter().map(|w| w.0).filter(|&s| s < self.cur).max() {
                    self.cut(s, self.cur)
                }
                Done("delete word")
            }
            Key::Alt('b') => {
                if let Some(s) = self.words().iter().map(|w| w.0).filter(|&s| s < self.cur).max() {
                    self.cur = s
                }
                Done("word back")
            }
            Key::Alt('f') => {
                if let Some(e) = self.words().iter().map(|w| w.1).filter(|&e| e > self.cur).min() {
                    self.cur = e
                }
                Done("word forward")
            }
            Key::Alt('.') => {
                let ix = match self.arg {
                    None => match self.loc.or(self.hist.len().checked_sub(1)) {
                        Some(i) => i,
                        None => return Done("no last argument"),
                    },
                    Some((0, _)) => return Done("oldest argument"),
                    Some((i, n)) => {
                        self.cut(self.cur - n, self.cur);
                        i - 1
                    }
                };
                let label = if self.arg.is_some() { "argument again" } else { "argument" };
                let a = last_arg(&self.hist[ix]);
                self.text.splice(self.cur..self.cur, a.iter().cloned());
                self.cur += a.len();
                self.arg = Some((ix, a.len()));
                Done(label)
            }
            _ => Done("unbound"),
        }
    }
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &case.hist, false);
    c.word_divider_fn = divider(case.divider);
    let hist: Vec<Vec<char>> = case.hist.iter().map(|h| h.chars().collect()).collect();
    let mut d: Drv<Emacs> = Drv::new(&mut c, Prompt::from("$ "), &case.init)?;
    for _ in 0..case.ups {
        d.key(K(Key::Up))?;
    }
    let loc = (case.ups > 0).then(|| hist.len().saturating_sub(case.ups));
    let text: Vec<char> = match loc {
        Some(i) => hist[i].clone(),
        None => case.init.chars().collect(),
    };
    let mut m = Model {
        cur: text.len(),
        text,
        hist: &hist,
        loc,
        div: case.divider,
        arg: None,
        unclear: false,
    };
    let mut effects = 0;
    for (i, &k) in case.keys.iter().enumerate() {
        let before = (m.text.clone(), m.cur);
        match m.step(k.0) {
            Step::Stop => break,
            Step::Done(l) => obs.label(l),
        }
        effects += u32::from(before != (m.text.clone(), m.cur));
        if d.key(k)? {
            return Err(format!("{} ended the session", show(&case.keys[..=i])));
        }
        if d.chars() != m.text || d.cursor() != m.cur {
            return Err(format!(
                "{} on {:?} at {}: {:?} at {}, expected {:?} at {}",
                show(&[k]),
                before.0.iter().collect::<String>(),
                before.1,
                d.text(),
                d.cursor(),
                m.text.iter().collect::<String>(),
                m.cur
            ));
        }
    }
    let (log, end) = (d.log.clone(), d.text());
    let mut again = ctx(80, &case.hist, false);
    again.word_divider_fn = divider(case.divider);
    read_gives(again, &case.init, &log, &end)?;
    obs.nontrivial = effects >= 2;
    obs.label_if(loc.is_some(), "on a history entry");
    obs.label_if(case.divider > 0, "custom divider");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![suite(
        "keys",
        "an initial text or history entry, a divider and a sequence of Emacs keys, compared with the model after every key; non-trivial: at least two keys changed text or cursor",
        1_800_000,
        20_000_000,
        gen,
        check,
    )]
}
