//! C06: undo and redo restore exactly the recorded texts.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use crate::vimodel::*;
use liner::{Buffer, EditorContext, Emacs, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ buffers

/// Positions are taken modulo what is possible.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(usize, String),
    Remove(usize, usize),
    Truncate(usize),
    Copy(String),
    Open,
    Close,
    Undo(u8),
    Redo(u8),
    Revert,
    Forget,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BufCase {
    init: String,
    ops: Vec<Op>,
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        10 => (0usize..20, text(4)).prop_map(|(p, t)| Op::Insert(p, t)),
        6 => (0usize..20, 1usize..6).prop_map(|(a, n)| Op::Remove(a, n)),
        1 => (0usize..20).prop_map(Op::Truncate),
        1 => text(5).prop_map(Op::Copy),
        6 => Just(Op::Open),
        6 => Just(Op::Close),
        8 => (1u8..5).prop_map(Op::Undo),
        7 => (1u8..5).prop_map(Op::Redo),
        1 => Just(Op::Revert),
        1 => Just(Op::Forget),
    ]
}

fn check_buffer(case: &BufCase, obs: &mut Obs) -> Res {
    let mut b = Buffer::from(case.init.as_str());
    let mut t: Vec<char> = case.init.chars().collect();
    // texts before and after each step
    let mut undo: Vec<(Vec<char>, Vec<char>)> = vec![];
    let mut redo: Vec<(Vec<char>, Vec<char>)> = vec![];
    let mut open: Vec<()> = vec![];
    let mut group_start: Option<Vec<char>> = None; // text before the first edit of the open groups
    let (mut ever_grouped, mut undone, mut grouped_steps) = (false, 0, 0);
    let edit = |b: &mut Buffer, op: &Op, t: &mut Vec<char>| -> Vec<(Vec<char>, Vec<char>)> {
        let mut steps = vec![];
        match op {
            Op::Insert(p, s) => {
                let cs: Vec<char> = s.chars().collect();
                if !cs.is_empty() {
                    let p = p % (t.len() + 1);
                    let was = t.clone();
                    b.insert(p, &cs);
                    t.splice(p..p, cs);
                    steps.push((was, t.clone()));
                }
            }
            Op::Remove(a, n) => {
                if !t.is_empty() {
                    let a = a % t.len();
                    let e = (a + n).min(t.len());
                    let was = t.clone();
                    b.remove(a, e);
                    t.drain(a..e);
                    steps.push((was, t.clone()));
                }
            }
            Op::Truncate(n) => {
                if !t.is_empty() {
                    let n = n % t.len();
                    let was = t.clone();
                    b.truncate(n);
                    t.truncate(n);
                    steps.push((was, t.clone()));
                }
            }
            Op::Copy(s) => {
                let cs: Vec<char> = s.chars().collect();
                if !t.is_empty() && !cs.is_empty() {
                    b.copy_buffer(&Buffer::from(s.as_str()));
                    steps.push((std::mem::take(t), vec![]));
                    steps.push((vec![], cs.clone()));
                    *t = cs;
                }
            }
            _ => {}
        }
        steps
    };
    let same = |b: &Buffer, t: &Vec<char>, i: usize| -> Res {
        if b.chars().ne(t.iter()) {
            return Err(format!(
                "after operation {i} ({:?}): {:?}, expected {:?}",
                case.ops[i],
                b.to_string(),
                t.iter().collect::<String>()
            ));
        }
        Ok(())
    };
    for (i, op) in case.ops.iter().enumerate() {
        match op {
            Op::Open => {
                b.start_undo_group();
                open.push(());
                ever_grouped = true;
            }
            Op::Close => {
                b.end_undo_group();
                if open.pop().is_some() && open.is_empty() {
                    if let Some(was) = group_start.take() {
                        undo.push((was, t.clone()));
                        grouped_steps += 1;
                    }
                }
            }
            Op::Undo(n) | Op::Redo(n) => {
                if !open.is_empty() {
                    continue; // undefined while a group is open
                }
                let is_undo = matches!(op, Op::Undo(_));
                for _ in 0..*n {
                    let (from, to) = if is_undo { (&mut undo, &mut redo) } else { (&mut redo, &mut undo) };
                    let did = if is_undo { b.undo() } else { b.redo() };
                    let had = from.pop();
                    if had.is_some() != did && (had.is_some() || !ever_grouped) {
                        return Err(format!("operation {i} ({op:?}) says {did}, with {} steps", from.len()));
                    }
                    if let Some((before, after)) = had {
                        t = if is_undo { before.clone() } else { after.clone() };
                        to.push((before, after));
                        undone += 1;
                    }
                    same(&b, &t, i)?;
                }
            }
            Op::Revert => {
                if !open.is_empty() {
                    continue;
                }
                let (was, had) = (t.clone(), !undo.is_empty());
                let did = b.revert();
                while let Some(s) = undo.pop() {
                    t = s.0.clone();
                    redo.push(s);
                }
                // groups without an edit may or may not count
                if did != had && (had || !ever_grouped) {
                    return Err(format!("operation {i} (revert) of {was:?} returns {did}"));
                }
            }
            Op::Forget => {
                if !open.is_empty() {
                    continue;
                }
                b.clear_actions();
                undo.clear();
                redo.clear();
            }
            _ => {
                let steps = edit(&mut b, op, &mut t);
                if !steps.is_empty() {
                    redo.clear();
                    if open.is_empty() {
                        undo.extend(steps);
                    } else if group_start.is_none() {
                        group_start = Some(steps[0].0.clone());
                    }
                }
            }
        }
        same(&b, &t, i)?;
    }
    // all the way back and forth
    while !open.is_empty() {
        b.end_undo_group();
        open.pop();
    }
    if let Some(was) = group_start.take() {
        undo.push((was, t.clone()));
        grouped_steps += 1;
    }
    let last = case.ops.len().saturating_sub(1);
    if !case.ops.is_empty() {
        for s in undo.iter().rev() {
            b.undo();
            same(&b, &s.0, last)?;
        }
        b.undo();
        if let Some(s) = undo.first() {
            same(&b, &s.0, last)?;
        }
        for s in &undo {
            b.redo();
            same(&b, &s.1, last)?;
        }
    }
    obs.nontrivial = undone >= 1;
    obs.label_if(grouped_steps > 0, "a group");
    obs.label_if(undone > 3, "4+ undos or redos");
    Ok(())
}

// ------------------------------------------------------------------ steps of an editor

/// The text before each step; nothing where a key changed no text, which may or may not be a step.
#[derive(Clone, Default)]
struct Stack {
    undo: Vec<Option<String>>,
    redo: Vec<Option<String>>,
    redo_unknown: bool,
}

impl Stack {
    fn push(&mut self, before: &str, after: &str) {
        if before == after {
            self.undo.push(None);
            self.redo_unknown |= !self.redo.is_empty();
        } else {
            self.undo.push(Some(before.to_owned()));
            self.redo.clear();
            self.redo_unknown = false;
        }
    }
    /// One step back (or forth) from `cur`, pressing as often as it takes. The text reached.
    fn back(
        &mut self,
        undo: bool,
        cur: &str,
        mut press: impl FnMut() -> Result<String, String>,
    ) -> Result<(), String> {
        let (from, to) = if undo {
            (&mut self.undo, &mut self.redo)
        } else {
            (&mut self.redo, &mut self.undo)
        };
        let mut doubtful = 0;
        let mut want = cur.to_owned();
        while let Some(s) = from.pop() {
            match s {
                Some(t) => {
                    to.push(Some(cur.to_owned()));
                    want = t;
                    break;
                }
                None => {
                    to.push(None);
                    doubtful += 1;
                }
            }
        }
        let mut got = cur.to_owned();
        for _ in 0..=doubtful {
            got = press()?;
            if got != cur {
                break;
            }
        }
        if got != want {
            return Err(format!("{} from {cur:?} gives {got:?}, expected {want:?}", if undo { "undo" } else { "redo" }));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ vi

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ViCase {
    text: String,
    typed: Vec<K>,
    cmds: Vec<Cmd>,
}

fn check_vi(case: &ViCase, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &[], true);
    let mut r = Run::new(&mut c, &case.text, &case.typed)?;
    let mut undone = 0;
    for cmd in &case.cmds {
        let t = r.m.t.clone();
        r.cmd(cmd)?;
        undone += u32::from(matches!(cmd, Cmd::Undo(_) | Cmd::Redo(_)) && t != r.m.t);
        if r.m.t.len() > 2000 {
            break;
        }
    }
    let (log, mid) = (r.d.log.clone(), r.d.text());
    // and all the way back
    r.cmd(&Cmd::Undo(0))?;
    while !r.m.undo.is_empty() {
        r.cmd(&Cmd::Undo(0))?;
    }
    r.cmd(&Cmd::Undo(99))?;
    if r.d.text() != case.text {
        return Err(format!("undoing everything gives {:?} instead of {:?}", r.d.text(), case.text));
    }
    // redo is an operation without a key here
    if !case.cmds.iter().any(|c| matches!(c, Cmd::Redo(_))) {
        read_gives(ctx(80, &[], true), &case.text, &log, &mid)?;
    }
    obs.nontrivial = undone >= 1;
    obs.label_if(undone > 2, "3+ effective undos or redos");
    Ok(())
}

// ------------------------------------------------------------------ emacs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EmacsCase {
    hist: Vec<String>,
    init: String,
    /// F11 stands for redo, which has no key
    keys: Vec<K>,
}

fn emacs_key() -> impl Strategy<Value = K> {
    prop_oneof![
        10 => any_char().prop_map(ch),
        8 => select(&['k', 'u', 'w', 'd', 'h', 'f'][..]).prop_map(ctrl),
        5 => select(&[Key::Left, Key::Right, Key::Home, Key::End, Key::Backspace, Key::Delete][..]).prop_map(K),
        3 => select(&['b', 'f', '.', '\x7f'][..]).prop_map(alt),
        10 => Just(ctrl('x')),
        8 => Just(K(Key::F(11))),
        1 => Just(alt('r')),
    ]
}

fn check_emacs(case: &EmacsCase, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &case.hist, false);
    let mut d: Drv<Emacs> = Drv::new(&mut c, Prompt::from("$ "), &case.init)?;
    let mut st = Stack::default();
    let mut undone = 0;
    let mut last = None;
    for (i, &k) in case.keys.iter().enumerate() {
        let at = |e: String| format!("{:?} {}: {e}", case.init, show(&case.keys[..=i]));
        let before = d.text();
        match k.0 {
            Key::Ctrl('x') => {
                st.back(true, &before, || d.key(k).map(|_| d.text())).map_err(at)?;
                undone += u32::from(d.text() != before);
            }
            Key::F(11) => {
                if !st.redo_unknown {
                    st.back(false, &before, || {
                        d.ed.redo().map_err(|e| e.to_string())?;
                        Ok(d.text())
                    })
                    .map_err(at)?;
                    undone += u32::from(d.text() != before);
                }
            }
            Key::Alt('r') => {
                d.key(k)?;
                let mut want = before.clone();
                while let Some(s) = st.undo.pop() {
                    st.redo.push(match s {
                        Some(t) => Some(std::mem::replace(&mut want, t)),
                        None => None,
                    });
                }
                if d.text() != want {
                    return Err(at(format!("revert from {before:?} gives {:?}, expected {want:?}", d.text())));
                }
            }
            // one that replaces its predecessor is two edits
            Key::Alt('.') if last == Some(k) => continue,
            Key::Ctrl('d') if before.is_empty() => continue,
            _ => {
                d.key(k)?;
                st.push(&before, &d.text());
            }
        }
        // redo is no key, and accepting a suggestion leaves Alt-. where it was
        let accepted = matches!(k.0, Key::Right | Key::Ctrl('f')) && d.text() != before;
        if k.0 != Key::F(11) && !accepted {
            last = Some(k);
        }
    }
    if !case.keys.contains(&K(Key::F(11))) {
        read_gives(ctx(80, &case.hist, false), &case.init, &d.log, &d.text())?;
    }
    let mut guard = 0;
    while !st.undo.is_empty() && guard < 5000 {
        let before = d.text();
        st.back(true, &before, || d.key(ctrl('x')).map(|_| d.text()))?;
        guard += 1;
    }
    if d.text() != case.init {
        return Err(format!("undoing everything gives {:?} instead of {:?}", d.text(), case.init));
    }
    obs.nontrivial = undone >= 1;
    obs.label_if(undone > 2, "3+ effective undos or redos");
    Ok(())
}

// ------------------------------------------------------------------ history entries

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    /// keys that are one edit
    Edit(Vec<K>),
    /// the same started, continued on the neighbouring entry
    Across(u8, Vec<K>, bool, Vec<K>),
    Up,
    Down,
    Undo,
    Redo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HCase {
    vi: bool,
    hist: Vec<String>,
    ops: Vec<HOp>,
}

fn hop(vi: bool) -> BoxedStrategy<HOp> {
    let ins = || vec(any_char().prop_map(ch), 1..4);
    let edit = if vi {
        let s = |v: Vec<K>, c: char| [vec![ch(c)], v, vec![K(Key::Esc)]].concat();
        prop_oneof![
            4 => (ins(), select(&['i', 'a', 'A', 'I', 's', 'C'][..])).prop_map(move |(v, c)| HOp::Edit(s(v, c))),
            2 => select(&["x", "dd", "D", "dw", "db", "~", "2x", "rq", "."][..]).prop_map(|s| HOp::Edit(s.chars().map(ch).collect())),
            3 => (prop_oneof![3 => Just(0u8), 1 => 2u8..4], ins(), any::<bool>(), ins()).prop_map(|(n, a, u, b)| HOp::Across(n, a, u, b)),
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => any_char().prop_map(|c| HOp::Edit(vec![ch(c)])),
            3 => select(&['k', 'u', 'w', 'h'][..]).prop_map(|c| HOp::Edit(vec![ctrl(c)])),
            1 => Just(HOp::Edit(vec![alt('.')])),
            1 => Just(HOp::Edit(vec![K(Key::Left)])),
        ]
        .boxed()
    };
    prop_oneof![8 => edit, 4 => Just(HOp::Up), 2 => Just(HOp::Down), 8 => Just(HOp::Undo), 2 => Just(HOp::Redo)].boxed()
}

fn check_hist<M: liner::KeyMap>(case: &HCase, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &case.hist, case.vi);
    let mut d: Drv<M> = Drv::new(&mut c, Prompt::from("$ "), "")?;
    if case.vi {
        d.key(K(Key::Esc))?;
    }
    let mut draft = Stack::default();
    let mut entry = Stack::default();
    let (mut undone, mut edited) = (0, false);
    let mut log: Vec<K> = vec![];
    let mut last_edit = vec![];
    // after a move: the stack of an entry whose stored text is shown is empty
    fn arrive<M: liner::KeyMap>(d: &Drv<M>, hist: &[String], entry: &mut Stack, edited: &mut bool) {
        if let Some(i) = d.ed.current_history_location() {
            if d.text() == hist[i] {
                *entry = Stack::default();
                *edited = false;
            }
        }
    }
    for op in &case.ops {
        let before = d.text();
        let on = d.ed.current_history_location();
        if let HOp::Edit(k) = op {
            // a repeated Alt-. is two edits, and . in vi repeats what was done somewhere else
            if *k == vec![alt('.')] && last_edit == *k {
                continue;
            }
            last_edit = k.clone();
        } else if !matches!(op, HOp::Redo) {
            last_edit.clear();
        }
        match op {
            HOp::Edit(k) => {
                log.extend(k);
                d.keys(k)?;
                let st = if on.is_some() { &mut entry } else { &mut draft };
                st.push(&before, &d.text());
                edited |= on.is_some();
            }
            HOp::Across(n, a, up, b) => {
                let mv = K(if *up { Key::Up } else { Key::Down });
                let count: Vec<K> = if *n > 0 { n.to_string().chars().map(ch).collect() } else { vec![] };
                let k1 = [count, vec![ch('i')], a.clone()].concat();
                d.keys(&k1)?;
                let st = if on.is_some() { &mut entry } else { &mut draft };
                st.push(&before, &d.text());
                d.key(mv)?;
                arrive(&d, &case.hist, &mut entry, &mut edited);
                let (now, on) = (d.text(), d.ed.current_history_location());
                let k2 = [b.clone(), vec![K(Key::Esc)]].concat();
                d.keys(&k2)?;
                log.extend(k1);
                log.push(mv);
                log.extend(k2);
                // the count does not go for what is typed after the movement
                let typed: String = b.iter().filter_map(|k| if let Key::Char(c) = k.0 { Some(c) } else { None }).collect();
                if d.text() != format!("{now}{typed}") {
                    return Err(format!("{:?} {}: {typed:?} typed at the end of {now:?} gives {:?}", case.hist, show(&log), d.text()));
                }
                let st = if on.is_some() { &mut entry } else { &mut draft };
                st.push(&now, &d.text());
                edited |= on.is_some();
            }
            HOp::Up | HOp::Down => {
                let k = K(if matches!(op, HOp::Up) { Key::Up } else { Key::Down });
                log.push(k);
                d.key(k)?;
                arrive(&d, &case.hist, &mut entry, &mut edited);
            }
            HOp::Undo => {
                let k = if case.vi { ch('u') } else { ctrl('x') };
                log.push(k);
                let st = if on.is_some() { &mut entry } else { &mut draft };
                st.back(true, &before, || d.key(k).map(|_| d.text()))
                    .map_err(|e| format!("{:?} {}: {e}", case.hist, show(&log)))?;
                undone += u32::from(edited && on.is_some() && d.text() != before);
            }
            HOp::Redo => {
                let st = if on.is_some() { &mut entry } else { &mut draft };
                if st.redo_unknown {
                    continue;
                }
                log.push(K(Key::F(11)));
                st.back(false, &before, || {
                    d.ed.redo().map_err(|e| e.to_string())?;
                    Ok(d.text())
                })
                .map_err(|e| format!("{:?} {}: {e}", case.hist, show(&log)))?;
            }
        }
    }
    // never beyond the stored text, or the empty draft
    if let Some(i) = d.ed.current_history_location() {
        for _ in 0..60 + 2 * log.len() {
            d.key(if case.vi { ch('u') } else { ctrl('x') })?;
        }
        if d.text() != case.hist[i] {
            return Err(format!(
                "{:?} {}: undoing everything on entry {i} gives {:?}",
                case.hist,
                show(&log),
                d.text()
            ));
        }
    }
    obs.nontrivial = undone >= 1;
    obs.label_if(undone > 1, "2+ undos on an entry");
    Ok(())
}

fn check_entries(case: &HCase, obs: &mut Obs) -> Res {
    if case.vi {
        check_hist::<Vi>(case, obs)
    } else {
        check_hist::<Emacs>(case, obs)
    }
}

// ------------------------------------------------------------------ all entries

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AllCase {
    hist: Vec<String>,
    /// (entry, position, characters to remove, text to insert)
    edits: Vec<(usize, usize, usize, String)>,
}

/// Entries changed through the history are back after revert_all_history.
fn check_all(case: &AllCase, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &[], false);
    for h in &case.hist {
        c.history.buffers.push_back(Buffer::from(h.as_str()));
    }
    let mut now = case.hist.clone();
    for (e, at, n, t) in &case.edits {
        let e = e % case.hist.len();
        let cs: Vec<char> = t.chars().collect();
        let b = &mut c.history[e];
        let at = at % (b.num_chars() + 1);
        let n = (*n).min(b.num_chars() - at);
        if n > 0 {
            b.remove(at, at + n);
        }
        if !cs.is_empty() {
            b.insert(at, &cs);
        }
        now[e] = b.to_string();
    }
    c.revert_all_history();
    if hist_vec(&c.history) != case.hist {
        return Err(format!("entries {:?} changed to {now:?} are reverted to {:?}", case.hist, hist_vec(&c.history)));
    }
    obs.nontrivial = now != case.hist;
    Ok(())
}

// ------------------------------------------------------------------ many steps

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    /// a buffer, Emacs or Vi keys
    via: u8,
    n: usize,
    /// repeated until there are that many steps: an insertion or not, where
    unit: Vec<(bool, usize)>,
    /// how many steps are taken back at first
    back: usize,
}

fn check_long(case: &LongCase, obs: &mut Obs) -> Res {
    let letters = ['a', 'b', 'c', 'é', ' ', 'd', '中'];
    let mut t: Vec<char> = if case.via == 2 { (0..case.n + 2).map(|i| letters[i % 7]).collect() } else { vec!['x'; 3] };
    let init: String = t.iter().collect();
    let mut c = ctx(80, &[], case.via == 2);
    let mut b = Buffer::from(init.as_str());
    let mut em: Option<Drv<Emacs>> = None;
    let mut vi: Option<Drv<Vi>> = None;
    match case.via {
        0 => (),
        1 => em = Some(Drv::new(&mut c, Prompt::from("> "), &init)?),
        _ => {
            let mut d: Drv<Vi> = Drv::new(&mut c, Prompt::from("> "), &init)?;
            d.key(K(Key::Esc))?;
            vi = Some(d);
        }
    }
    let mut texts = vec![t.clone()];
    for i in 0..case.n {
        let (insert, at) = case.unit[i % case.unit.len()];
        let c = letters[i % 7];
        if let Some(d) = &mut vi {
            // one character is deleted
            let p = at % t.len();
            d.ed.move_cursor_to(p).map_err(|e| e.to_string())?;
            d.key(ch('x'))?;
            t.remove(p);
        } else if insert || t.is_empty() {
            let p = at % (t.len() + 1);
            t.insert(p, c);
            match &mut em {
                Some(d) => {
                    d.ed.move_cursor_to(p).map_err(|e| e.to_string())?;
                    d.key(ch(c))?;
                }
                None => b.insert(p, &[c]),
            }
        } else {
            let p = at % t.len();
            t.remove(p);
            match &mut em {
                Some(d) => {
                    d.ed.move_cursor_to(p).map_err(|e| e.to_string())?;
                    d.key(K(Key::Delete))?;
                }
                None => {
                    b.remove(p, p + 1);
                }
            }
        }
        texts.push(t.clone());
    }
    let mut now = case.n;
    let mut step = |to: usize, now: &mut usize, slow: bool| -> Res {
        while *now != to {
            let by = if slow { 1 } else { to.abs_diff(*now) };
            let fwd = to > *now;
            if let Some(d) = &mut vi {
                if fwd {
                    for _ in 0..by {
                        d.ed.redo().map_err(|e| e.to_string())?;
                    }
                } else {
                    let keys = if by > 1 { format!("{by}u") } else { "u".to_owned() };
                    d.keys(&keys.chars().map(ch).collect::<Vec<_>>())?;
                }
            } else {
                for _ in 0..by {
                    match &mut em {
                        Some(d) if fwd => d.ed.redo().map(|_| ()).map_err(|e| e.to_string())?,
                        Some(d) => d.key(ctrl('x')).map(|_| ())?,
                        None if fwd => b.redo().then_some(()).ok_or("nothing redone")?,
                        None => b.undo().then_some(()).ok_or("nothing undone")?,
                    }
                }
            }
            *now = if fwd { *now + by } else { *now - by };
            let got: String = match (&em, &vi) {
                (Some(d), _) => d.text(),
                (_, Some(d)) => d.text(),
                _ => b.to_string(),
            };
            let want: String = texts[*now].iter().collect();
            if got != want {
                return Err(format!("{case:?}: at step {now} of {} (going to {to}): {got:?}, expected {want:?}", case.n));
            }
        }
        Ok(())
    };
    let low = case.n - case.back.min(case.n);
    step(case.n, &mut now, false)?;
    step(low, &mut now, false)?;
    step(case.n, &mut now, true)?;
    step(0, &mut now, case.back % 2 == 0)?;
    step(case.n, &mut now, false)?;
    obs.nontrivial = case.n > 20;
    obs.label_if(case.n > 256, "over 256 steps");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "long",
            "up to some hundred edits of a buffer, through Emacs or through Vi keys, taken back and brought back one by one and many at once; non-trivial: over 20 edits",
            1_000,
            20_000,
            || {
                let n = prop_oneof![4 => 1usize..60, 3 => big_n(1000), 1 => 256usize..600];
                (0u8..3, n, vec((any::<bool>(), 0usize..2000), 1..6), big_n(1000)).prop_map(|(via, n, unit, back)| LongCase { via, n, unit, back })
            },
            check_long,
        ),
        suite(
            "buffer",
            "a buffer and a sequence of edits, nested groups, undo, redo, revert and clear_actions against recorded texts; non-trivial: a step was undone or redone",
            1_200_000,
            12_000_000,
            || (text(10), seq(op(), 1..24)).prop_map(|(init, ops)| BufCase { init, ops }),
            check_buffer,
        ),
        suite(
            "vi",
            "Vi commands, dots, counted undos and redos against the model's texts, then everything undone; non-trivial: an undo or redo changed the text",
            450_000,
            4_000_000,
            || {
                let c = prop_oneof![
                    2 => gen_move(),
                    6 => gen_change(true),
                    2 => gen_dot(),
                    1 => gen_bad(),
                    5 => prop_oneof![3 => Just(0u64), 2 => 1u64..5].prop_map(Cmd::Undo),
                    3 => (0u64..3).prop_map(Cmd::Redo),
                ];
                (gen_text(), gen_typed(true), seq_up_to(c, 2..14, 20)).prop_map(|(text, typed, cmds)| ViCase { text, typed, cmds })
            },
            check_vi,
        ),
        suite(
            "emacs",
            "Emacs editing keys, undo, redo and revert against the texts seen before each key, then everything undone; non-trivial: an undo or redo changed the text",
            450_000,
            4_000_000,
            || {
                (history(3, true), prop_oneof![2 => Just(String::new()), 3 => text(12)], seq(emacs_key(), 2..22))
                    .prop_map(|(hist, init, keys)| EmacsCase { hist, init, keys })
            },
            check_emacs,
        ),
        suite(
            "entries",
            "edits, moves, undo and redo on history entries and the draft in both bindings, then undo beyond the first edit; non-trivial: an edit of an entry was undone",
            450_000,
            4_000_000,
            || {
                any::<bool>().prop_flat_map(|vi| {
                    (vec(entry(true), 1..4), seq(hop(vi), 2..14)).prop_map(move |(hist, ops)| HCase { vi, hist, ops })
                })
            },
            check_entries,
        ),
        suite(
            "all",
            "history entries edited in place, then revert_all_history; non-trivial: an entry was changed",
            120_000,
            1_000_000,
            || {
                (vec(entry(true), 1..5), vec((0usize..5, 0usize..12, 0usize..4, text(3)), 0..8))
                    .prop_map(|(hist, edits)| AllCase { hist, edits })
            },
            check_all,
        ),
    ]
}
