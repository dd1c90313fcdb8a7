//! Vi commands as data, their keys, and their definition on (text, cursor).
use crate::keys::*;
use crate::sess::*;
use liner::{Prompt, Vi, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mot {
    /// h l 0 ^ $ w W b B e E, blank, arrows, Home, End, Backspace
    Key(K),
    /// ge, gE
    GEnd(bool),
    /// f F t T
    Find(char, char),
    /// ; and ,
    Again(bool),
}

/// A count, 0 if none is typed.
pub type Cnt = u64;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    Move(Cnt, Mot),
    /// count, d or c, count, motion, text typed if it is a change
    Op(Cnt, char, Cnt, Mot, Vec<K>),
    /// dd, cc
    Line(Cnt, char, Cnt, Vec<K>),
    /// x, and Delete if set
    X(Cnt, bool),
    Replace(Cnt, char),
    Tilde(Cnt),
    Subst(Cnt, Vec<K>),
    /// D
    DelEnd(Cnt),
    /// C
    ChangeEnd(Cnt, Vec<K>),
    /// i a I A
    Ins(Cnt, char, Vec<K>),
    Dot(Cnt),
    Undo(Cnt),
    Redo(Cnt),
    /// an invalid command: nothing happens
    Bad(Cnt, Vec<K>),
}

fn digits(n: Cnt) -> Vec<K> {
    if n == 0 {
        vec![]
    } else {
        n.to_string().chars().map(ch).collect()
    }
}

pub fn mot_keys(m: &Mot) -> Vec<K> {
    match m {
        Mot::Key(k) => vec![*k],
        Mot::GEnd(big) => vec![ch('g'), ch(if *big { 'E' } else { 'e' })],
        Mot::Find(k, c) => vec![ch(*k), ch(*c)],
        Mot::Again(rev) => vec![ch(if *rev { ',' } else { ';' })],
    }
}

impl Cmd {
    /// The keys up to the text to type, and the text to type.
    pub fn keys(&self) -> (Vec<K>, Option<&[K]>) {
        let cat = |v: &[&[K]]| v.concat();
        match self {
            Cmd::Move(n, m) => (cat(&[&digits(*n), &mot_keys(m)]), None),
            Cmd::Op(n, o, n2, m, t) => (
                cat(&[&digits(*n), &[ch(*o)], &digits(*n2), &mot_keys(m)]),
                (*o == 'c').then_some(&t[..]),
            ),
            Cmd::Line(n, o, n2, t) => (
                cat(&[&digits(*n), &[ch(*o)], &digits(*n2), &[ch(*o)]]),
                (*o == 'c').then_some(&t[..]),
            ),
            Cmd::X(n, del) => (
                cat(&[&digits(*n), &[if *del { K(Key::Delete) } else { ch('x') }]]),
                None,
            ),
            Cmd::Replace(n, c) => (cat(&[&digits(*n), &[ch('r'), ch(*c)]]), None),
            Cmd::Tilde(n) => (cat(&[&digits(*n), &[ch('~')]]), None),
            Cmd::Subst(n, t) => (cat(&[&digits(*n), &[ch('s')]]), Some(t)),
            Cmd::DelEnd(n) => (cat(&[&digits(*n), &[ch('D')]]), None),
            Cmd::ChangeEnd(n, t) => (cat(&[&digits(*n), &[ch('C')]]), Some(t)),
            Cmd::Ins(n, c, t) => (cat(&[&digits(*n), &[ch(*c)]]), Some(t)),
            Cmd::Dot(n) => (cat(&[&digits(*n), &[ch('.')]]), None),
            Cmd::Undo(n) => (cat(&[&digits(*n), &[ch('u')]]), None),
            Cmd::Redo(_) => (vec![], None),
            Cmd::Bad(n, k) => (cat(&[&digits(*n), k]), None),
        }
    }
    fn with_count(&self, n: Cnt) -> Cmd {
        match self.clone() {
            Cmd::Op(_, o, _, m, t) => Cmd::Op(n, o, 0, m, t),
            Cmd::X(_, d) => Cmd::X(n, d),
            Cmd::Replace(_, c) => Cmd::Replace(n, c),
            Cmd::Tilde(_) => Cmd::Tilde(n),
            Cmd::Subst(_, t) => Cmd::Subst(n, t),
            Cmd::Ins(_, c, t) => Cmd::Ins(n, c, t),
            c => c,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Cmd::Move(_, m) => format!("move {}", mot_name(m)),
            Cmd::Op(_, o, _, m, _) => format!("{o} {}", mot_name(m)),
            Cmd::Line(_, o, _, _) => format!("{o}{o}"),
            Cmd::Ins(_, c, _) => format!("{c}"),
            Cmd::X(..) => "x".into(),
            Cmd::Replace(..) => "r".into(),
            Cmd::Tilde(..) => "~".into(),
            Cmd::Subst(..) => "s".into(),
            Cmd::DelEnd(..) => "D".into(),
            Cmd::ChangeEnd(..) => "C".into(),
            Cmd::Dot(..) => ".".into(),
            Cmd::Undo(..) => "u".into(),
            Cmd::Redo(..) => "redo".into(),
            Cmd::Bad(..) => "invalid".into(),
        }
    }
}

pub fn mot_name(m: &Mot) -> String {
    match m {
        Mot::Find(k, _) => k.to_string(),
        m => show(&mot_keys(m)),
    }
}

// ------------------------------------------------------------------ definitions

/// 0 blank, 1 keyword, 2 other; with `big` every non-blank is alike.
fn class(c: char, big: bool) -> u8 {
    if c.is_whitespace() {
        0
    } else if big || c == '_' || c.is_alphanumeric() {
        1
    } else {
        2
    }
}
fn starts(t: &[char], big: bool) -> Vec<usize> {
    (0..t.len())
        .filter(|&i| class(t[i], big) != 0 && (i == 0 || class(t[i - 1], big) != class(t[i], big)))
        .collect()
}
fn ends(t: &[char], big: bool) -> Vec<usize> {
    (0..t.len())
        .filter(|&i| {
            class(t[i], big) != 0 && (i + 1 == t.len() || class(t[i + 1], big) != class(t[i], big))
        })
        .collect()
}

/// The target of a motion, and whether an operator includes it; none if it cannot be carried out.
pub fn target(
    t: &[char],
    cur: usize,
    count: Cnt,
    m: &Mot,
    find: &mut Option<(char, char)>,
) -> Option<(usize, bool)> {
    let len = t.len();
    // no motion does more after as many steps as there are characters
    let n = count.clamp(1, len as u64 + 2) as usize;
    let rep = |f: &dyn Fn(usize) -> usize| (0..n).fold(cur, |p, _| f(p));
    let next = |v: &[usize], p: usize| v.iter().cloned().find(|&x| x > p).unwrap_or(len);
    let prev = |v: &[usize], p: usize| v.iter().cloned().rev().find(|&x| x < p).unwrap_or(0);
    Some(match m {
        Mot::Key(K(k)) => match k {
            Key::Char('h') | Key::Left | Key::Backspace => (cur.saturating_sub(n), false),
            Key::Char('l') | Key::Right | Key::Char(' ') => ((cur + n).min(len), false),
            Key::Char('0') | Key::Char('^') | Key::Home => (0, false),
            Key::Char('$') | Key::End => (len, false),
            Key::Char(c @ ('w' | 'W')) => {
                let s = starts(t, *c == 'W');
                (rep(&|p| next(&s, p)), false)
            }
            Key::Char(c @ ('e' | 'E')) => {
                let e = ends(t, *c == 'E');
                (rep(&|p| next(&e, p)), true)
            }
            Key::Char(c @ ('b' | 'B')) => {
                let s = starts(t, *c == 'B');
                (rep(&|p| prev(&s, p)), false)
            }
            k => unreachable!("{k:?}"),
        },
        Mot::GEnd(big) => {
            let e = ends(t, *big);
            (rep(&|p| prev(&e, p)), true)
        }
        Mot::Find(k, c) => {
            *find = Some((*k, *c));
            return find_target(t, cur, count, *k, *c);
        }
        Mot::Again(rev) => {
            let (k, c) = (*find)?;
            let k = match (rev, k) {
                (false, k) => k,
                (true, 'f') => 'F',
                (true, 'F') => 'f',
                (true, 't') => 'T',
                (true, _) => 't',
            };
            return find_target(t, cur, count, k, c);
        }
    })
}

fn find_target(t: &[char], cur: usize, count: Cnt, k: char, c: char) -> Option<(usize, bool)> {
    let n = count.max(1) as usize - 1;
    match k {
        'f' => (cur + 1..t.len()).filter(|&i| t[i] == c).nth(n).map(|i| (i, true)),
        't' => (cur + 1..t.len()).filter(|&i| t[i] == c).nth(n).map(|i| (i - 1, true)),
        'F' => (0..cur).rev().filter(|&i| t[i] == c).nth(n).map(|i| (i, false)),
        _ => (0..cur).rev().filter(|&i| t[i] == c).nth(n).map(|i| (i + 1, false)),
    }
}

/// An undoable step: the text before it, or nothing if it did not change the text (which may or may
/// not count as a step).
type Steps = Vec<Option<Vec<char>>>;

pub struct Model {
    pub t: Vec<char>,
    pub cur: usize,
    pub find: Option<(char, char)>,
    /// what . repeats
    pub last: Cmd,
    pub undo: Steps,
    pub redo: Steps,
    /// whether the steps to redo are known
    pub redo_known: bool,
    mark: Vec<char>,
}

impl Model {
    /// In the insert mode every session starts in.
    pub fn new(text: &str) -> Model {
        let t: Vec<char> = text.chars().collect();
        Model {
            cur: t.len(),
            mark: t.clone(),
            t,
            find: None,
            last: Cmd::Ins(0, 'i', vec![]),
            undo: vec![],
            redo: vec![],
            redo_known: true,
        }
    }
    fn clamp(&mut self) {
        self.cur = self.cur.min(self.t.len().saturating_sub(1));
    }
    fn cut(&mut self, a: usize, b: usize) {
        self.t.drain(a..b);
        self.cur = a;
    }
    /// The edits since the last call are one step.
    fn step(&mut self) {
        if self.mark == self.t {
            self.undo.push(None);
            self.redo_known = self.redo_known && self.redo.is_empty();
        } else {
            self.undo.push(Some(std::mem::replace(&mut self.mark, self.t.clone())));
            self.redo.clear();
            self.redo_known = true;
        }
    }
    fn insert_key(&mut self, k: K) {
        match k.0 {
            Key::Char(c) => {
                self.t.insert(self.cur, c);
                self.cur += 1;
            }
            Key::Backspace => {
                if self.cur > 0 {
                    self.cut(self.cur - 1, self.cur)
                }
            }
            Key::Delete => {
                if self.cur < self.t.len() {
                    self.cut(self.cur, self.cur + 1)
                }
            }
            k => unreachable!("{k:?}"),
        }
    }
    /// An insert session up to Esc; `cmd` is what is repeated if the cursor is not moved.
    pub fn insert(&mut self, mut count: Cnt, cmd: Option<Cmd>, typed: &[K]) {
        let mut run: Vec<K> = vec![];
        let (mut moved, mut any_moved) = (false, false);
        for &k in typed {
            match k.0 {
                Key::Left => self.cur = self.cur.saturating_sub(1),
                Key::Right => self.cur = (self.cur + 1).min(self.t.len()),
                Key::Home => self.cur = 0,
                // without a history they only leave the cursor at the end
                Key::End | Key::Up | Key::Down => self.cur = self.t.len(),
                _ => {
                    if moved {
                        self.step();
                        moved = false;
                        any_moved = true;
                        run.clear();
                    }
                    self.insert_key(k);
                    run.push(k);
                    continue;
                }
            }
            moved = true;
            count = 0;
        }
        for _ in 1..count {
            for &k in &run {
                self.insert_key(k)
            }
        }
        self.step();
        self.cur = self.cur.saturating_sub(1);
        self.clamp();
        if any_moved {
            self.last = Cmd::Ins(0, 'i', run);
        } else if let Some(c) = cmd {
            self.last = c;
        }
    }
    /// Carries out the command up to the text to type. False if it was not carried out, so that
    /// nothing is to be typed. `dot`: it is a repetition.
    fn start(&mut self, cmd: &Cmd) -> bool {
        let len = self.t.len();
        match cmd {
            Cmd::Move(n, m) => {
                let f = target(&self.t, self.cur, *n, m, &mut self.find);
                if let Some((p, _)) = f {
                    self.cur = p;
                    self.clamp();
                }
                return f.is_some();
            }
            Cmd::Op(n, _, n2, m, _) => {
                let count = match (n, n2) {
                    (0, b) => *b,
                    (a, 0) => *a,
                    (a, b) => a.saturating_mul(*b),
                };
                let Some((p, incl)) = target(&self.t, self.cur, count, m, &mut self.find) else {
                    return false;
                };
                let (a, b) = (p.min(self.cur), p.max(self.cur));
                self.cut(a, (b + usize::from(incl)).min(len));
            }
            Cmd::Line(..) => self.cut(0, len),
            Cmd::X(n, _) | Cmd::Subst(n, _) => {
                let k = (*n).max(1).min((len - self.cur) as u64) as usize;
                let c = self.cur;
                self.cut(c, c + k);
            }
            Cmd::Replace(n, c) => {
                let k = (*n).max(1);
                if k > (len - self.cur) as u64 {
                    return false;
                }
                for i in 0..k as usize {
                    self.t[self.cur + i] = *c;
                }
                self.cur += k as usize - 1;
            }
            Cmd::Tilde(n) => {
                let k = (*n).max(1).min((len - self.cur) as u64) as usize;
                for _ in 0..k {
                    let c = self.t[self.cur];
                    let r: Vec<char> = if c.is_lowercase() {
                        c.to_uppercase().collect()
                    } else if c.is_uppercase() {
                        c.to_lowercase().collect()
                    } else {
                        vec![c]
                    };
                    let at = self.cur;
                    self.cur += r.len();
                    self.t.splice(at..at + 1, r);
                }
            }
            Cmd::DelEnd(_) | Cmd::ChangeEnd(..) => {
                let c = self.cur;
                self.cut(c, len)
            }
            Cmd::Ins(_, k, _) => match k {
                'a' => self.cur = (self.cur + 1).min(len),
                'A' => self.cur = len,
                'I' => self.cur = 0,
                _ => {}
            },
            _ => unreachable!(),
        }
        true
    }
    /// The count that . repeats.
    fn recorded(cmd: &Cmd) -> Cmd {
        match cmd {
            Cmd::Op(n, _, n2, ..) => cmd.with_count(match (n, n2) {
                (0, b) => *b,
                (a, 0) => *a,
                (a, b) => a.saturating_mul(*b),
            }),
            c => c.clone(),
        }
    }
    /// Everything after the text to type, for a command that was carried out.
    fn finish(&mut self, cmd: &Cmd) {
        let rec = Self::recorded(cmd);
        match cmd {
            Cmd::Move(..) => {}
            Cmd::Op(_, 'c', _, _, t) | Cmd::Line(_, 'c', _, t) | Cmd::Subst(_, t) | Cmd::ChangeEnd(_, t) => {
                self.insert(0, Some(rec), t)
            }
            Cmd::Ins(n, _, t) => self.insert(*n, Some(rec), t),
            _ => {
                self.clamp();
                self.step();
                self.last = rec;
            }
        }
    }
    fn dot(&mut self, n: Cnt) -> bool {
        let c = self.last.clone();
        let c = if n > 0 { c.with_count(n) } else { c };
        let ok = self.start(&c);
        if ok {
            self.finish(&c)
        }
        ok
    }
    /// How many steps there are before the n-th real one, if none of them is doubtful.
    fn exact(steps: &Steps, n: Cnt) -> bool {
        steps.iter().rev().take(n as usize).all(|s| s.is_some())
    }
}

// ------------------------------------------------------------------ running

pub struct Run<'a> {
    pub d: Drv<'a, Vi>,
    pub m: Model,
    ins_shown: bool,
    pub labels: std::collections::BTreeMap<String, u64>,
    log: Vec<K>,
    init: String,
}

pub fn vi_prompt() -> Prompt {
    Prompt {
        prompt: "$ ".into(),
        vi_status: Some(ViStatus::default()),
    }
}

impl<'a> Run<'a> {
    /// A session with an initial text, in which `typed` is typed first.
    pub fn new(c: &'a mut Ctx, init: &str, typed: &[K]) -> Result<Run<'a>, String> {
        let d = Drv::new(c, vi_prompt(), init)?;
        let mut r = Run {
            d,
            m: Model::new(init),
            ins_shown: true,
            labels: Default::default(),
            log: vec![],
            init: init.to_owned(),
        };
        r.send(typed)?;
        r.mode(true, "at the start")?;
        r.send(&[K(Key::Esc)])?;
        r.m.insert(0, Some(Cmd::Ins(0, 'i', typed.to_vec())), typed);
        r.compare("after the first text")?;
        Ok(r)
    }
    fn send(&mut self, ks: &[K]) -> Result<(), String> {
        for &k in ks {
            self.log.push(k);
            if self.d.key(k)? {
                return Err(format!("{} ended the session", show(&self.log)));
            }
        }
        Ok(())
    }
    fn at(&self) -> String {
        format!("{:?} {}", self.init, show(&self.log))
    }
    /// Which mode the prompt shows.
    fn mode(&mut self, insert: bool, what: &str) -> Result<(), String> {
        let out = &mut self.d.ed.context_mut().terminal.out;
        let find = |p: &[u8]| out.windows(p.len()).rposition(|w| w == p);
        match (find(b"[I] $ "), find(b"[N] $ ")) {
            (Some(a), b) if b < Some(a) => self.ins_shown = true,
            (_, Some(_)) => self.ins_shown = false,
            _ => {}
        }
        out.clear();
        if self.ins_shown != insert {
            return Err(format!(
                "{}: {what}, the prompt shows {} mode",
                self.at(),
                if self.ins_shown { "insert" } else { "normal" }
            ));
        }
        Ok(())
    }
    fn compare(&mut self, what: &str) -> Result<(), String> {
        self.same(what)?;
        self.mode(false, what)
    }
    fn same(&mut self, what: &str) -> Result<(), String> {
        if self.d.chars() != self.m.t || self.d.cursor() != self.m.cur {
            return Err(format!(
                "{}: {what}: {:?} at {}, expected {:?} at {}",
                self.at(),
                self.d.text(),
                self.d.cursor(),
                self.m.t.iter().collect::<String>(),
                self.m.cur
            ));
        }
        Ok(())
    }
    /// Runs a command on both. Whether it was carried out.
    pub fn cmd(&mut self, c: &Cmd) -> Result<bool, String> {
        let name = c.name();
        let before = (self.m.t.clone(), self.m.cur);
        let done = match c {
            Cmd::Undo(n) => {
                self.undo_redo(*n, true)?;
                true
            }
            Cmd::Redo(n) => {
                if !self.m.redo_known {
                    return Ok(false);
                }
                self.undo_redo(*n, false)?;
                true
            }
            Cmd::Bad(..) => {
                self.send(&c.keys().0)?;
                self.compare("after an invalid command")?;
                false
            }
            Cmd::Dot(n) => {
                self.send(&c.keys().0)?;
                let r = self.m.dot(*n);
                self.compare(&format!("after repeating {}", self.m.last.name()))?;
                self.labels_add(&format!(". of {}", self.m.last.name().split(' ').next().unwrap()));
                r
            }
            _ => {
                let (k, typed) = c.keys();
                self.send(&k)?;
                let ok = self.m.start(c);
                if ok {
                    if let Some(t) = typed {
                        self.same(&format!("after {name}"))?;
                        self.mode(true, &format!("after {name}"))?;
                        self.send(t)?;
                        self.send(&[K(Key::Esc)])?;
                    }
                    self.m.finish(c);
                }
                self.compare(&format!("after {name}"))?;
                ok
            }
        };
        let changed = before != (self.m.t.clone(), self.m.cur);
        self.labels_add(&format!("{name}{}", if done && changed { "" } else { " (no effect)" }));
        Ok(done && changed)
    }
    fn labels_add(&mut self, l: &str) {
        *self.labels.entry(l.to_owned()).or_insert(0) += 1;
    }
    fn press(&mut self, n: Cnt, undo: bool) -> Result<(), String> {
        if undo {
            let mut k = digits(n);
            k.push(ch('u'));
            self.send(&k)
        } else {
            for _ in 0..n.max(1) {
                self.d.ed.redo().map_err(|e| e.to_string())?;
                self.log.push(K(Key::F(12)));
            }
            Ok(())
        }
    }
    fn undo_redo(&mut self, n: Cnt, undo: bool) -> Result<(), String> {
        let what = if undo { "undo" } else { "redo" };
        let k = n.max(1);
        let exact = Model::exact(if undo { &self.m.undo } else { &self.m.redo }, k);
        if exact {
            self.press(n, undo)?;
        }
        for _ in 0..k {
            // drop the steps that may or may not exist
            let mut doubtful = 0;
            loop {
                let (from, to) = if undo {
                    (&mut self.m.undo, &mut self.m.redo)
                } else {
                    (&mut self.m.redo, &mut self.m.undo)
                };
                match from.pop() {
                    Some(Some(text)) => {
                        to.push(Some(std::mem::replace(&mut self.m.t, text)));
                        break;
                    }
                    Some(None) => {
                        doubtful += 1;
                        to.push(None);
                    }
                    None => break,
                }
            }
            if !exact {
                let was = self.d.chars();
                for _ in 0..=doubtful {
                    self.press(0, undo)?;
                    if self.d.chars() != was {
                        break;
                    }
                }
            }
        }
        self.m.mark = self.m.t.clone();
        if self.d.chars() != self.m.t {
            return Err(format!(
                "{}: after {what}: {:?}, expected {:?}",
                self.at(),
                self.d.text(),
                self.m.t.iter().collect::<String>()
            ));
        }
        self.m.cur = self.d.cursor();
        if self.m.cur > self.m.t.len().saturating_sub(1) {
            return Err(format!("{}: after {what}: cursor {} past the last character", self.at(), self.m.cur));
        }
        self.mode(false, what)
    }
}

// ------------------------------------------------------------------ generators

pub fn gen_mot() -> BoxedStrategy<Mot> {
    const SIMPLE: &[&str] = &[
        "h", "l", "0", "^", "$", "w", "W", "b", "B", "e", "E", " ", "w", "b", "e",
    ];
    prop_oneof![
        14 => select(SIMPLE).prop_map(|s| Mot::Key(ch(s.chars().next().unwrap()))),
        3 => select(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Backspace][..]).prop_map(|k| Mot::Key(K(k))),
        4 => any::<bool>().prop_map(Mot::GEnd),
        8 => (select(&['f', 'F', 't', 'T'][..]), prop_oneof![5 => select(FEW), 1 => tchar()]).prop_map(|(k, c)| Mot::Find(k, c)),
        4 => any::<bool>().prop_map(Mot::Again),
    ]
    .boxed()
}

pub fn gen_cnt() -> BoxedStrategy<Cnt> {
    prop_oneof![
        12 => Just(0u64),
        7 => 1u64..4,
        2 => 4u64..25,
        1 => big_n(400).prop_map(|n| n as u64),
        1 => select(&[100u64, 999, 65536, 4294967295, 4294967296, 99999999999, 18446744073709551615][..]),
    ]
    .boxed()
}

fn small_cnt() -> BoxedStrategy<Cnt> {
    prop_oneof![80 => Just(0u64), 60 => 1u64..4, 1 => 4u64..40, 1 => big_n(150).prop_map(|n| n as u64)].boxed()
}

/// Text typed in insert mode; a cursor movement is always followed by more text.
pub fn gen_typed(moves: bool) -> BoxedStrategy<Vec<K>> {
    let c = prop_oneof![
        12 => any_char().prop_map(ch),
        1 => Just(K(Key::Backspace)),
        1 => Just(K(Key::Delete)),
    ];
    let plain = vec(c.clone(), 0..5);
    if !moves {
        return plain.boxed();
    }
    let mv = select(&[Key::Left, Key::Left, Key::Right, Key::Home, Key::Home, Key::End, Key::Up, Key::Down][..]).prop_map(K);
    prop_oneof![
        8 => plain.clone(),
        1 => (plain, vec((vec(mv, 1..3), vec(c, 1..3)), 1..3)).prop_map(|(mut a, v)| {
            for (m, t) in v {
                a.extend(m);
                a.extend(t);
            }
            a
        }),
    ]
    .boxed()
}

pub fn gen_move() -> BoxedStrategy<Cmd> {
    (gen_cnt(), gen_mot())
        .prop_map(|(n, m)| Cmd::Move(if m == Mot::Key(ch('0')) { 0 } else { n }, m))
        .boxed()
}

pub fn gen_bad() -> BoxedStrategy<Cmd> {
    let k = select(
        &[
            "dx", "di", "dc", "cd", "cx", "d<Esc>", "c<Esc>", "dr", "d.", "du", "dj", "ck", "dD", "d~", "gg", "g<Esc>", "gx",
            "dgx", "cgg", "dg<Esc>", "f<Esc>", "t<Left>", "df<Esc>", "cT<C-a>", "r<Esc>", "r<Left>", "d<Up>", "d<Del>", "<Esc>",
        ][..],
    );
    (small_cnt(), k, small_cnt())
        .prop_map(|(n, s, n2)| {
            let mut v: Vec<K> = vec![];
            let mut rest = s;
            while !rest.is_empty() {
                let l = if rest.starts_with('<') { rest.find('>').unwrap() + 1 } else { rest.chars().next().unwrap().len_utf8() };
                v.push(serde_json::from_value(serde_json::Value::String(rest[..l].into())).unwrap());
                rest = &rest[l..];
            }
            // a count between an operator and what follows
            if n2 > 0 && v.len() > 1 && matches!(v[0].0, Key::Char('d' | 'c')) {
                let d = digits(n2);
                v.splice(1..1, d);
            }
            Cmd::Bad(n, v)
        })
        .boxed()
}

pub fn gen_change(moves: bool) -> BoxedStrategy<Cmd> {
    let t = || gen_typed(moves);
    prop_oneof![
        16 => (gen_cnt(), select(&['d', 'd', 'c'][..]), prop_oneof![3 => Just(0u64), 2 => 1u64..4, 1 => gen_cnt()], gen_mot(), t())
            .prop_map(|(n, o, n2, m, t)| {
                let n2 = if m == Mot::Key(ch('0')) { 0 } else { n2 };
                Cmd::Op(n, o, n2, m, if o == 'c' { t } else { vec![] })
            }),
        2 => (small_cnt(), select(&['d', 'c'][..]), prop_oneof![4 => Just(0u64), 1 => small_cnt()], t()).prop_map(|(n, o, n2, t)| Cmd::Line(n, o, n2, if o == 'c' { t } else { vec![] })),
        3 => (gen_cnt(), any::<bool>()).prop_map(|(n, d)| Cmd::X(n, d)),
        4 => (prop_oneof![3 => small_cnt(), 1 => gen_cnt()], any_char()).prop_map(|(n, c)| Cmd::Replace(n, c)),
        3 => gen_cnt().prop_map(Cmd::Tilde),
        3 => (gen_cnt(), t()).prop_map(|(n, t)| Cmd::Subst(n, t)),
        1 => small_cnt().prop_map(Cmd::DelEnd),
        2 => (small_cnt(), t()).prop_map(|(n, t)| Cmd::ChangeEnd(n, t)),
        8 => (small_cnt(), select(&['i', 'a', 'I', 'A'][..]), t()).prop_map(|(n, c, t)| Cmd::Ins(n, c, t)),
    ]
    .boxed()
}

pub fn gen_dot() -> BoxedStrategy<Cmd> {
    prop_oneof![120 => Just(0u64), 40 => 1u64..5, 1 => 5u64..40, 1 => big_n(150).prop_map(|n| n as u64)].prop_map(Cmd::Dot).boxed()
}

/// A text with something for the motions to find.
pub fn gen_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => line(20),
        2 => text(24),
        1 => line(6),
        4 => vec(select(FEW), 1..24).prop_map(|v| v.into_iter().collect()),
        // some hundred characters
        1 => (line(8), prop_oneof![8usize..40, big_n(60)], line(8)).prop_map(|(a, n, b)| format!("{}{b}", a.repeat(n))),
    ]
    .boxed()
}

/// To somewhere in the text.
pub fn gen_place() -> BoxedStrategy<Vec<Cmd>> {
    prop_oneof![
        1 => Just(vec![]),
        3 => prop_oneof![20 => 0u64..16, 1 => 16u64..300].prop_map(|n| vec![Cmd::Move(0, Mot::Key(ch('^'))), Cmd::Move(n, Mot::Key(ch('l')))]),
        2 => (0u64..16, select(&['f', 'F', 't', 'T'][..]), select(FEW))
            .prop_map(|(n, k, c)| vec![Cmd::Move(0, Mot::Key(ch('^'))), Cmd::Move(n, Mot::Key(ch('l'))), Cmd::Move(0, Mot::Find(k, c))]),
    ]
    .boxed()
}

/// Finds that have a target more often than not.
pub const FEW: &[char] = &['a', 'a', 'a', 'b', 'b', 'c', ' ', '.', '中'];

/// A text of some thousand characters and commands with counts to match.
pub fn gen_far(change: bool) -> BoxedStrategy<(String, Vec<Cmd>)> {
    let n = || prop_oneof![1 => Just(0u64), 1 => 1u64..10, 6 => 200u64..2200];
    let text = (line(12), prop_oneof![3 => Just(String::new()), 1 => line(8)], 1000usize..2200)
        .prop_map(|(a, b, n)| {
            let a = if a.is_empty() { "ab ".to_string() } else { a };
            let mut t: String = a.chars().cycle().take(n).collect();
            t.push_str(&b);
            t
        });
    let mv = (n(), gen_mot()).prop_map(|(n, m)| Cmd::Move(if m == Mot::Key(ch('0')) { 0 } else { n }, m));
    let cmd = if change {
        prop_oneof![
            3 => mv.clone(),
            3 => (n(), select(&['d', 'c'][..]), gen_mot(), gen_typed(false)).prop_map(|(n, o, m, t)| {
                let t = if o == 'c' { t } else { vec![] };
                Cmd::Op(if m == Mot::Key(ch('0')) { 0 } else { n }, o, 0, m, t)
            }),
            2 => (n(), any::<bool>()).prop_map(|(n, d)| Cmd::X(n, d)),
            2 => n().prop_map(Cmd::Tilde),
            1 => (n(), gen_typed(false)).prop_map(|(n, t)| Cmd::Subst(n, t)),
            2 => (n(), any_char()).prop_map(|(n, c)| Cmd::Replace(n, c)),
            1 => (0u64..3).prop_map(Cmd::Undo),
        ]
        .boxed()
    } else {
        mv.boxed()
    };
    (text, gen_place(), vec(cmd, 2..7)).prop_map(|(t, place, cmds)| (t, [place, cmds].concat())).boxed()
}
