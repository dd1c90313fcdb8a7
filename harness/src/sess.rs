//! A scripted terminal and helpers to drive the editor.
use crate::keys::*;
use liner::{Buffer, Completer, Context, Editor, EditorContext, Event, EventKind, History, KeyBindings, KeyMap, Prompt, Tty};
use std::collections::VecDeque;
use std::io;

/// Fault plan: fail one operation of the terminal.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Write,
    Flush,
    Width,
    Key,
}

pub const TOO_MUCH: &str = "terminal output exceeds";

pub struct STty {
    pub keys: VecDeque<Key>,
    pub out: Vec<u8>,
    pub width: usize,
    pub flushes: u64,
    pub written: u64,
    pub keys_read: u64,
    pub budget: u64,
    pub ops: std::cell::Cell<u64>,
    pub op_log: std::cell::RefCell<Vec<Op>>,
    /// (index of the failing operation, error kind, keeps failing afterwards)
    pub fault: Option<(u64, io::ErrorKind, bool)>,
    pub faulted: std::cell::Cell<bool>,
    /// accept at most this many bytes per write call
    pub short: Option<usize>,
    pub log_ops: bool,
    /// (number of keys read before, width from then on)
    pub resize: VecDeque<(u64, usize)>,
    /// what was written whenever a key was asked for
    pub marks: Vec<usize>,
}

impl Default for STty {
    fn default() -> Self {
        STty::new(80)
    }
}

impl STty {
    pub fn new(width: usize) -> Self {
        STty {
            keys: VecDeque::new(),
            out: Vec::new(),
            width,
            flushes: 0,
            written: 0,
            keys_read: 0,
            budget: 8 << 20,
            ops: std::cell::Cell::new(0),
            op_log: Default::default(),
            fault: None,
            faulted: std::cell::Cell::new(false),
            short: None,
            log_ops: false,
            resize: VecDeque::new(),
            marks: Vec::new(),
        }
    }
    fn op(&self, o: Op) -> io::Result<()> {
        let n = self.ops.get();
        self.ops.set(n + 1);
        if self.log_ops {
            self.op_log.borrow_mut().push(o);
        }
        if let Some((at, kind, sticky)) = self.fault {
            if n == at || (sticky && n > at) {
                self.faulted.set(true);
                return Err(io::Error::new(kind, "injected"));
            }
        }
        Ok(())
    }
}

impl io::Write for STty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.op(Op::Write)?;
        let n = self.short.map_or(b.len(), |s| b.len().min(s.max(1)));
        self.written += n as u64;
        if self.written > self.budget {
            panic!("{TOO_MUCH} {} bytes", self.budget);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op(Op::Flush)?;
        self.flushes += 1;
        Ok(())
    }
}

impl Tty for STty {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        if let Err(e) = self.op(Op::Key) {
            return Some(Err(e));
        }
        self.marks.push(self.out.len());
        if let Some((_, w)) = self.resize.front().filter(|r| r.0 <= self.keys_read).copied() {
            self.resize.pop_front();
            self.width = w;
        }
        let k = self.keys.pop_front();
        if k.is_some() {
            self.keys_read += 1;
        }
        k.map(Ok)
    }
    fn width(&self) -> io::Result<usize> {
        self.op(Op::Width)?;
        Ok(self.width)
    }
}

pub type Ctx = Context<STty>;

/// A history entry. Like a line pushed as it was edited, every other one has edits to undo and redo.
pub fn stored(s: &str) -> Buffer {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() % 2 == 0 {
        return Buffer::from(s);
    }
    let mut b = Buffer::from("old text");
    b.remove(0, 8);
    b.insert(0, &cs[..1]);
    b.insert(1, &cs[1..]);
    b.insert(0, &['+']);
    b.undo();
    b
}

/// The texts undo and redo bring back.
pub fn undo_texts(b: &Buffer) -> Vec<String> {
    let (mut u, mut r) = (b.clone(), b.clone());
    let mut v = vec![b.to_string()];
    for _ in 0..6 {
        u.undo();
        v.push(u.to_string());
        r.redo();
        v.push(r.to_string());
    }
    v
}

pub fn ctx(width: usize, hist: &[String], vi: bool) -> Ctx {
    let mut c = Context::with_terminal(STty::new(width));
    for h in hist {
        c.history.buffers.push_back(stored(h));
    }
    c.key_bindings = if vi { KeyBindings::Vi } else { KeyBindings::Emacs };
    c
}

pub fn hist_vec(h: &History) -> Vec<String> {
    h.buffers.iter().map(|b| b.to_string()).collect()
}

pub fn cur<C: EditorContext>(ed: &Editor<C>) -> String {
    ed.current_buffer().to_string()
}

/// A completer that knows nothing.
pub struct NoComp;
impl Completer for NoComp {
    fn completions(&mut self, _: &str) -> Vec<String> {
        vec![]
    }
}

/// Answers with a fixed set of words (all of them, or those that start with what was asked) and
/// records what it was asked and which events it saw.
#[derive(Default)]
pub struct RecComp {
    pub words: Vec<String>,
    pub filter: bool,
    pub asked: Vec<String>,
    pub events: Vec<(char, Option<Key>)>,
}
impl Completer for RecComp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.asked.push(start.to_owned());
        self.words
            .iter()
            .filter(|w| !self.filter || w.starts_with(start))
            .cloned()
            .collect()
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        self.events.push(match e.kind {
            EventKind::BeforeKey(k) => ('b', Some(k)),
            EventKind::AfterKey(k) => ('a', Some(k)),
            EventKind::BeforeComplete => ('c', None),
        });
    }
}

/// An editor with its key bindings, fed key by key.
pub struct Drv<'a, M: KeyMap> {
    pub ed: Editor<&'a mut Ctx>,
    pub m: M,
    pub comp: RecComp,
    /// All keys so far.
    pub log: Vec<K>,
}
impl<'a, M: KeyMap> Drv<'a, M> {
    pub fn new(c: &'a mut Ctx, prompt: Prompt, init: &str) -> Result<Self, String> {
        let mut ed = Editor::new_with_init_buffer(prompt, None, c, init)
            .map_err(|e| format!("starting a session failed: {e}"))?;
        let mut m = M::default();
        m.init(&mut ed).map_err(|e| format!("init failed: {e}"))?;
        Ok(Drv { ed, m, comp: RecComp::default(), log: vec![] })
    }
    /// Whether the key entered the line.
    pub fn key(&mut self, k: K) -> Result<bool, String> {
        self.log.push(k);
        self.m
            .handle_key(k.0, &mut self.ed, &mut self.comp)
            .map_err(|e| format!("key {} failed: {e}", show(&[k])))
    }
    pub fn keys(&mut self, ks: &[K]) -> Result<bool, String> {
        for &k in ks {
            if self.key(k)? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    pub fn chars(&self) -> Vec<char> {
        self.ed.current_buffer().chars().cloned().collect()
    }
    pub fn text(&self) -> String {
        self.ed.current_buffer().to_string()
    }
    pub fn cursor(&self) -> usize {
        self.ed.cursor()
    }
}

/// Reading a line with these keys, and the end of the input after them, must return this text.
pub fn read_gives(mut c: Ctx, init: &str, keys: &[K], want: &str) -> Result<(), String> {
    c.terminal.keys = keys.iter().map(|k| k.0).collect();
    let got = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut NoComp, None, init);
    match got {
        Ok(t) if t == want => Ok(()),
        got => Err(format!("read_line on {init:?} with {} returns {got:?}, expected {want:?}", show(keys))),
    }
}
