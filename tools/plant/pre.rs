#![allow(dead_code, unused_imports)]
use liner::{Buffer, Completer, Context, Editor, EditorContext, Event, EventKind, History, Key, KeyBindings, KeyMap, Prompt, Tty, ViStatus};
use std::collections::VecDeque;
use std::io;

pub struct T {
    pub keys: VecDeque<Key>,
    pub out: Vec<u8>,
    pub width: usize,
    pub fail_flush_at: Option<usize>,
    pub flushes: usize,
}
impl io::Write for T {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.fail_flush_at == Some(self.flushes) {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "flush"));
        }
        Ok(())
    }
}
impl Tty for T {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        self.keys.pop_front().map(Ok)
    }
    fn width(&self) -> io::Result<usize> {
        Ok(self.width)
    }
}

pub struct Words(pub Vec<&'static str>);
impl Completer for Words {
    fn completions(&mut self, _: &str) -> Vec<String> {
        self.0.iter().map(|s| s.to_string()).collect()
    }
}

/// "ab<Esc><C-a><M-f><Up>": plain characters and named keys
pub fn keys(s: &str) -> Vec<Key> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '<' && rest[1..].chars().next().map_or(false, |c| c.is_ascii_alphabetic()) && rest.contains('>') {
            let end = if rest.starts_with("<M->>") { 4 } else { rest.find('>').unwrap() };
            let name = &rest[1..end];
            v.push(match name {
                "Esc" => Key::Esc,
                "Up" => Key::Up,
                "Down" => Key::Down,
                "Left" => Key::Left,
                "Right" => Key::Right,
                "Home" => Key::Home,
                "End" => Key::End,
                "BS" => Key::Backspace,
                "Del" => Key::Delete,
                "CR" => Key::Char('\n'),
                "Tab" => Key::Char('\t'),
                n if n.starts_with("C-") => Key::Ctrl(n.chars().last().unwrap()),
                n if n.starts_with("M-") => Key::Alt(n.chars().last().unwrap()),
                n => panic!("key {n}"),
            });
            rest = &rest[end + 1..];
        } else {
            v.push(Key::Char(c));
            rest = &rest[c.len_utf8()..];
        }
    }
    v
}

pub fn ctx(hist: &[&str]) -> Context<T> {
    let mut c = Context::with_terminal(T { keys: VecDeque::new(), out: vec![], width: 80, fail_flush_at: None, flushes: 0 });
    for h in hist {
        c.history.push(Buffer::from(*h)).unwrap();
    }
    c
}

/// The text and the cursor after the keys.
pub fn drive<M: KeyMap>(c: &mut Context<T>, init: &str, ks: &str) -> (String, usize) {
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, c, init).unwrap();
    let mut m = M::default();
    m.init(&mut ed).unwrap();
    for k in keys(ks) {
        m.handle_key(k, &mut ed, &mut Words(vec![])).unwrap();
    }
    (ed.current_buffer().to_string(), ed.cursor())
}
pub fn vi(hist: &[&str], init: &str, ks: &str) -> (String, usize) {
    drive::<liner::Vi>(&mut ctx(hist), init, ks)
}
pub fn emacs(hist: &[&str], init: &str, ks: &str) -> (String, usize) {
    drive::<liner::Emacs>(&mut ctx(hist), init, ks)
}
pub fn expect<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) {
    if got != want {
        println!("{what}: got {got:?}, expected {want:?}");
        std::process::exit(1);
    }
}
pub fn t(s: &str, c: usize) -> (String, usize) {
    (s.to_string(), c)
}
