//! C16: a reading session ends as its keys say and reports every event.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Completer, Context, Editor, EditorContext, Emacs, Event, EventKind, KeyBindings, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind};

/// What happened, with the line and cursor at that moment.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    kind: char,
    key: Option<Key>,
    text: String,
    cursor: usize,
}

#[derive(Default)]
pub struct EvComp {
    pub word: Option<String>,
    pub evs: Vec<Ev>,
}
impl Completer for EvComp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.word.iter().filter(|w| w.starts_with(start)).cloned().collect()
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        let (kind, key) = match e.kind {
            EventKind::BeforeKey(k) => ('b', Some(k)),
            EventKind::AfterKey(k) => ('a', Some(k)),
            EventKind::BeforeComplete => ('c', None),
        };
        self.evs.push(Ev { kind, key, text: cur(e.editor), cursor: e.editor.cursor() });
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Read {
    init: String,
    keys: Vec<K>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vi: bool,
    hist: Vec<String>,
    word: Option<String>,
    reads: Vec<Read>,
}

type Outcome = Result<String, (ErrorKind, String)>;

/// One read; what it returned, saw, consumed and printed.
fn read(c: &mut Ctx, case: &Case, init: &str, keys: &[K]) -> (Outcome, Vec<Ev>, usize, Vec<u8>) {
    c.terminal.keys = keys.iter().map(|k| k.0).collect();
    let out = c.terminal.out.len();
    let mut comp = EvComp { word: case.word.clone(), evs: vec![] };
    let p = Prompt::from("$ ");
    let r = if init.is_empty() {
        let cc = &mut *c;
        cc.read_line(p, None, &mut comp)
    } else {
        (&mut *c).read_line_with_init_buffer(p, &mut comp, None, init)
    };
    let left = c.terminal.keys.len();
    let out = c.terminal.out[out..].to_vec();
    (r.map_err(|e| (e.kind(), e.to_string())), comp.evs, keys.len() - left, out)
}

/// Keys without searches, whose Enter is another matter.
fn seg(vi: bool) -> BoxedStrategy<Vec<K>> {
    let s = if vi { vi_seg() } else { emacs_seg() };
    let s = s.prop_map(|v| {
        v.into_iter().filter(|k| !matches!(k.0, Key::Ctrl('r') | Key::Ctrl('s') | Key::Char('\n') | Key::Ctrl('c'))).collect::<Vec<K>>()
    });
    prop_oneof![
        16 => s,
        1 => Just(vec![K(Key::Char('\n'))]),
        2 => Just(vec![ch('\\'), K(Key::Char('\n'))]),
        1 => Just(vec![ch('\\'), K(Key::Left), K(Key::Right), K(Key::Char('\n'))]),
        1 => Just(vec![ch('\\'), ch('\\'), K(Key::Left), K(Key::Char('\n'))]),
        1 => Just(vec![ctrl('c')]),
        3 => Just(vec![ctrl('d')]),
        1 => Just(vec![ctrl('u'), ctrl('d')]),
        1 => Just(vec![ctrl('h')]),
        1 => Just(vec![K(Key::Char('\t'))]),
    ]
    .boxed()
}

fn gen() -> impl Strategy<Value = Case> {
    any::<bool>().prop_flat_map(|vi| {
        let init = prop_oneof![2 => Just(String::new()), 2 => text(10), 1 => line(6).prop_map(|s| s + "\\")];
        let r = (init, seq(seg(vi), 0..9)).prop_map(|(init, k)| Read { init, keys: flat(k) });
        let word = prop_oneof![2 => Just(None), 1 => select(&["ab", "foo bar", "é\\"][..]).prop_map(|s| Some(s.to_string()))];
        (history(3, true), word, vec(r, 1..4)).prop_map(move |(hist, word, reads)| Case { vi, hist, word, reads })
    })
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &case.hist, case.vi);
    let mut ended_early = 0;
    for (n, rd) in case.reads.iter().enumerate() {
        let got = read(&mut c, case, &rd.init, &rd.keys);
        let (r, evs, consumed, _) = &got;
        let at = |e: String| format!("read {n}, {:?} {}: {e}", rd.init, show(&rd.keys));
        let mut text = rd.init.clone();
        let mut cursor = text.chars().count();
        let mut evs = evs.iter();
        let mut want: Option<Outcome> = None;
        for (i, &k) in rd.keys.iter().enumerate() {
            let at = |e: String| format!("read {n}, {:?} {}: {e}", rd.init, show(&rd.keys[..=i]));
            match evs.next() {
                Some(e) if e.kind == 'b' && e.key == Some(k.0) && e.text == text && e.cursor == cursor => {}
                e => return Err(at(format!("before-key event: {e:?} on {text:?} {cursor}"))),
            }
            if k == ctrl('c') {
                want = Some(Err((ErrorKind::Interrupted, String::new())));
            } else if k == ctrl('d') && text.is_empty() {
                want = Some(Err((ErrorKind::UnexpectedEof, String::new())));
            } else {
                if k == K(Key::Char('\t')) {
                    match evs.next() {
                        Some(e) if e.kind == 'c' && e.text == text => {}
                        e => return Err(at(format!("before-complete event: {e:?}"))),
                    }
                }
                let e = match evs.next() {
                    Some(e) if e.kind == 'a' && (e.key == Some(k.0) || k == ctrl('h') && e.key == Some(Key::Backspace)) => e,
                    e => return Err(at(format!("after-key event: {e:?}"))),
                };
                if k == K(Key::Char('\n')) {
                    let cs: Vec<char> = text.chars().collect();
                    if cursor > 0 && cs[cursor - 1] == '\\' {
                        let t: String = cs[..cursor].iter().chain(&['\n']).chain(&cs[cursor..]).collect();
                        if e.text != t || e.cursor != cursor + 1 {
                            return Err(at(format!("Enter after a backslash makes {text:?} {:?} {}", e.text, e.cursor)));
                        }
                        obs.label("newline inserted");
                    } else {
                        want = Some(Ok(text.clone()));
                    }
                }
                text = e.text.clone();
                cursor = e.cursor;
            }
            if want.is_some() {
                ended_early += 1;
                if *consumed != i + 1 {
                    return Err(at(format!("consumes {consumed} keys")));
                }
                break;
            }
        }
        if let Some(e) = evs.next() {
            return Err(at(format!("one more event: {e:?}")));
        }
        let want = want.unwrap_or_else(|| {
            obs.label("ended by the end of the input");
            Ok(text.clone())
        });
        let same = match (r, &want) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a.0 == b.0,
            _ => false,
        };
        if !same {
            return Err(at(format!("ends with {r:?} instead of {want:?}")));
        }
        obs.label(match want {
            Ok(_) => "lines",
            Err((ErrorKind::Interrupted, _)) => "interrupted",
            Err(_) => "end of file",
        });
        // as the first read of another context
        let mut fresh = ctx(80, &case.hist, case.vi);
        let alone = read(&mut fresh, case, &rd.init, &rd.keys);
        if alone != got {
            return Err(at(format!(
                "differs from the same read on a new context: {:?} {:?}",
                alone.0, got.0
            )));
        }
    }
    obs.nontrivial = case.reads.iter().any(|r| r.keys.len() > 2);
    obs.label_if(ended_early > 1, "2+ reads ended by a key");
    Ok(())
}

// ------------------------------------------------------------------ initial text

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    vi: bool,
    hist: Vec<String>,
    init: String,
    keys: Vec<K>,
}

fn check_init(case: &Init, obs: &mut Obs) -> Res {
    let cc = Case { vi: case.vi, hist: case.hist.clone(), word: None, reads: vec![] };
    let mut a = ctx(80, &case.hist, case.vi);
    let ra = read(&mut a, &cc, &case.init, &case.keys);
    let mut b = ctx(80, &case.hist, case.vi);
    let typed: Vec<K> = case.init.chars().map(ch).chain(case.keys.iter().cloned()).collect();
    let rb = read(&mut b, &cc, "", &typed);
    let n = case.init.chars().count();
    let skip = (2 * n).min(rb.1.len());
    if ra.0 != rb.0 || ra.1[..] != rb.1[skip..] {
        return Err(format!(
            "{:?} given, then {}: {:?}; typed: {:?}",
            case.init,
            show(&case.keys),
            ra.0,
            rb.0
        ));
    }
    obs.nontrivial = n > 0 && case.keys.len() > 2;
    Ok(())
}

// ------------------------------------------------------------------ key by key

/// The same keys given to an editor and its key bindings one by one.
fn by_hand<M: KeyMap>(c: &mut Ctx, case: &Case, rd: &Read) -> (Outcome, Vec<Ev>, usize) {
    let mut comp = EvComp { word: case.word.clone(), evs: vec![] };
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, c, rd.init.as_str()).expect("a working terminal");
    let mut m = M::default();
    m.init(&mut ed).expect("a working terminal");
    for (i, k) in rd.keys.iter().enumerate() {
        match m.handle_key(k.0, &mut ed, &mut comp) {
            Ok(false) => {}
            Ok(true) => return (Ok(ed.into()), comp.evs, i + 1),
            Err(e) => return (Err((e.kind(), e.to_string())), comp.evs, i + 1),
        }
    }
    (Ok(ed.into()), comp.evs, rd.keys.len())
}

/// Key bindings of one's own, which note when they are initialised.
#[derive(Default)]
struct Own<M>(M, Vec<&'static str>);
impl<M: KeyMap> KeyMap for Own<M> {
    fn init<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
        self.1.push("init");
        self.0.init(ed)
    }
    fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> io::Result<()> {
        if self.1 != ["init"] {
            return Err(io::Error::other(format!("a key after {:?}", self.1)));
        }
        self.0.handle_key_core(key, ed)
    }
}

fn read_own<M: KeyMap>(c: &mut Ctx, case: &Case, rd: &Read) -> (Outcome, Vec<Ev>, usize) {
    c.terminal.keys = rd.keys.iter().map(|k| k.0).collect();
    let mut comp = EvComp { word: case.word.clone(), evs: vec![] };
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut *c, rd.init.as_str()).expect("a working terminal");
    let r = <&mut Ctx>::handle_keys(Own(M::default(), vec![]), ed, &mut comp);
    let left = c.terminal.keys.len();
    (r.map_err(|e| (e.kind(), e.to_string())), comp.evs, rd.keys.len() - left)
}

/// A new context, whose bindings are Emacs unless it is told otherwise.
fn new_context(case: &Case) -> Result<Ctx, String> {
    let mut c: Ctx = match case.reads.len() % 3 {
        0 => Context::default(),
        1 => Context::from(STty::default()),
        _ => Context::with_terminal(STty::default()),
    };
    if !c.history.is_empty() || c.history.file_name().is_some() {
        return Err(format!("a new context has the history {:?}", hist_vec(&c.history)));
    }
    c.history.buffers.extend(case.hist.iter().map(|h| stored(h)));
    if case.vi {
        c.key_bindings = KeyBindings::Vi;
    }
    Ok(c)
}

fn check_by_hand(case: &Case, obs: &mut Obs) -> Res {
    let mut a = new_context(case)?;
    let mut o = ctx(80, &case.hist, case.vi);
    let mut b = ctx(80, &case.hist, case.vi);
    for (n, rd) in case.reads.iter().enumerate() {
        let got = read(&mut a, case, &rd.init, &rd.keys);
        let want = if case.vi { by_hand::<Vi>(&mut b, case, rd) } else { by_hand::<Emacs>(&mut b, case, rd) };
        let own = if case.vi { read_own::<Vi>(&mut o, case, rd) } else { read_own::<Emacs>(&mut o, case, rd) };
        if own != want {
            return Err(format!("read {n}, {:?} {}: key bindings that wrap the others give {own:?} instead of {want:?}", rd.init, show(&rd.keys)));
        }
        if (&got.0, &got.1, got.2) != (&want.0, &want.1, want.2) {
            let i = got.1.iter().zip(&want.1).position(|(x, y)| x != y);
            return Err(format!(
                "read {n}, {:?} {}: read_line gives {:?} after {} keys, the keys one by one {:?} after {}; first different event: {:?}",
                rd.init,
                show(&rd.keys),
                got.0,
                got.2,
                want.0,
                want.2,
                i.map(|i| (&got.1[i], &want.1[i]))
            ));
        }
    }
    obs.nontrivial = case.reads.iter().any(|r| r.keys.len() > 2);
    obs.label_if(case.vi, "vi");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "reads",
            "consecutive reads with initial texts and key sequences of both bindings (searches aside): result, keys consumed, all events with line and cursor, and the same read on a new context; non-trivial: a read of 3+ keys",
            360_000,
            4_000_000,
            gen,
            check,
        ),
        suite(
            "initial",
            "an initial text and keys (undo and repeat aside) against typing that text first; non-trivial: a text and 3+ keys",
            180_000,
            2_000_000,
            || {
                any::<bool>().prop_flat_map(|vi| {
                    let init = line(10).prop_map(|s| s.replace(['\t', '\n'], ""));
                    let no = |k: &K| {
                        !matches!(k.0, Key::Ctrl('x') | Key::Alt('r') | Key::Char('\t'))
                    };
                    let seg = if vi {
                        // insert mode is kept, so that neither u nor . is pressed
                        prop_oneof![typed(4), common_seg()].boxed()
                    } else {
                        emacs_seg()
                    };
                    (history(4, true), init, vec(seg, 0..8)).prop_map(move |(hist, init, k)| Init {
                        vi,
                        hist,
                        init,
                        keys: flat(k).into_iter().filter(no).collect(),
                    })
                })
            },
            check_init,
        ),
        suite(
            "loop",
            "reads of any keys of both bindings against the same keys handed to an editor and its key bindings one by one: result, keys consumed and all events with line and cursor; non-trivial: a read of 3+ keys",
            180_000,
            2_000_000,
            || {
                any::<bool>().prop_flat_map(|vi| {
                    let s = if vi { vi_seg() } else { emacs_seg() };
                    let s = prop_oneof![12 => s, 1 => Just(vec![K(Key::Char('\n'))]), 1 => Just(vec![ctrl('c')]), 2 => Just(vec![ctrl('d')])];
                    let r = (prop_oneof![Just(String::new()), text(10)], vec(s, 0..10)).prop_map(|(init, k)| Read { init, keys: flat(k) });
                    (history(4, true), proptest::option::of(Just("foo bar".to_string())), vec(r, 1..4))
                        .prop_map(move |(hist, word, reads)| Case { vi, hist, word, reads })
                })
            },
            check_by_hand,
        ),
    ]
}
