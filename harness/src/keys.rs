//! Serializable keys and generators for texts, keys, histories.
use crate::dict;
use proptest::collection::{vec, SizeRange};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
pub use termion::event::Key;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct K(pub Key);

fn name(k: Key) -> String {
    match k {
        Key::Char('\n') => "<CR>".into(),
        Key::Char('\t') => "<Tab>".into(),
        Key::Char(c) => c.to_string(),
        Key::Ctrl(c) => format!("<C-{c}>"),
        Key::Alt(c) => format!("<M-{c}>"),
        Key::F(n) => format!("<F{n}>"),
        Key::Left => "<Left>".into(),
        Key::Right => "<Right>".into(),
        Key::Up => "<Up>".into(),
        Key::Down => "<Down>".into(),
        Key::Home => "<Home>".into(),
        Key::End => "<End>".into(),
        Key::Backspace => "<BS>".into(),
        Key::Delete => "<Del>".into(),
        Key::Insert => "<Ins>".into(),
        Key::PageUp => "<PgUp>".into(),
        Key::PageDown => "<PgDn>".into(),
        Key::Esc => "<Esc>".into(),
        Key::Null => "<Nul>".into(),
        Key::BackTab => "<STab>".into(),
        _ => "<Other>".into(),
    }
}

fn parse(s: &str) -> Option<Key> {
    let mut cs = s.chars();
    let (a, b) = (cs.next()?, cs.next());
    if b.is_none() {
        return Some(Key::Char(a));
    }
    let one = |t: &str| {
        let mut c = t.chars();
        match (c.next(), c.next()) {
            (Some(x), None) => Some(x),
            _ => None,
        }
    };
    let inner = s.strip_prefix('<')?.strip_suffix('>')?;
    if let Some(t) = inner.strip_prefix("C-") {
        return one(t).map(Key::Ctrl);
    }
    if let Some(t) = inner.strip_prefix("M-") {
        return one(t).map(Key::Alt);
    }
    Some(match inner {
        "CR" => Key::Char('\n'),
        "Tab" => Key::Char('\t'),
        "Left" => Key::Left,
        "Right" => Key::Right,
        "Up" => Key::Up,
        "Down" => Key::Down,
        "Home" => Key::Home,
        "End" => Key::End,
        "BS" => Key::Backspace,
        "Del" => Key::Delete,
        "Ins" => Key::Insert,
        "PgUp" => Key::PageUp,
        "PgDn" => Key::PageDown,
        "Esc" => Key::Esc,
        "Nul" => Key::Null,
        "STab" => Key::BackTab,
        f => Key::F(f.strip_prefix('F')?.parse().ok()?),
    })
}

impl Serialize for K {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&name(self.0))
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        parse(&s)
            .map(K)
            .ok_or_else(|| serde::de::Error::custom(format!("key {s}")))
    }
}

pub fn show(ks: &[K]) -> String {
    ks.iter().map(|k| name(k.0)).collect::<Vec<_>>().join("")
}

pub fn ch(c: char) -> K {
    K(Key::Char(c))
}
pub fn ctrl(c: char) -> K {
    K(Key::Ctrl(c))
}
pub fn alt(c: char) -> K {
    K(Key::Alt(c))
}

// ------------------------------------------------------------------ characters and texts

/// A small alphabet, so that words, prefixes and targets of finds coincide often; it includes
/// blanks, punctuation, an escape, two- to four-byte letters, a wide and a zero-width character.
pub const TEXT_CHARS: &[char] = &[
    'a', 'a', 'b', 'b', 'c', 'A', 'B', '_', '1', ' ', ' ', ' ', '.', '-', '(', '\\', 'é', 'ß', 'Ж',
    '中', '日', '\u{301}', '𝒜', '#',
];
pub const ASCII_CHARS: &[char] = &['a', 'b', 'c', 'A', '_', '1', ' ', ' ', '.', '-', '\\'];
/// No blanks at all.
pub const WORD_CHARS: &[char] = &['a', 'b', 'c', 'A', '1', 'é', '中', '.', 'Ж'];

pub fn tchar() -> impl Strategy<Value = char> + Clone {
    prop_oneof![6 => select(ASCII_CHARS), 5 => select(TEXT_CHARS)]
}

pub fn any_char() -> impl Strategy<Value = char> + Clone {
    prop_oneof![16 => tchar(), 2 => any::<char>().prop_filter("printable", |c| !c.is_control()), 1 => select(dict::chars())]
}

/// A length or number that is rarely small; at most `max`.
pub fn big_n(max: usize) -> impl Strategy<Value = usize> + Clone {
    prop_oneof![2 => (max / 8).max(2)..=max, 2 => 2usize..=(max / 8).max(2), 3 => select(dict::ints(max))]
}

/// A sequence, of which now and then a part is repeated over and over.
pub fn seq<S: Strategy>(s: S, len: impl Into<SizeRange>) -> impl Strategy<Value = Vec<S::Value>>
where
    S::Value: Clone,
{
    seq_up_to(s, len, 70)
}
pub fn seq_up_to<S: Strategy>(s: S, len: impl Into<SizeRange>, reps: usize) -> impl Strategy<Value = Vec<S::Value>>
where
    S::Value: Clone,
{
    let rep = (any::<prop::sample::Index>(), 1usize..4, prop_oneof![3 => 2..12usize.min(reps), 2 => big_n(reps)]);
    (vec(s, len), prop_oneof![60 => Just(None), 1 => rep.prop_map(Some)]).prop_map(|(mut v, rep)| {
        match rep {
            Some((at, n, times)) if !v.is_empty() => {
                let i = at.index(v.len());
                let j = (i + n).min(v.len());
                let tail = v.split_off(j);
                let unit = v[i..].to_vec();
                for _ in 1..times {
                    v.extend_from_slice(&unit);
                }
                v.extend(tail);
            }
            _ => (),
        }
        v
    })
}

/// One line of text, without newline.
pub fn line(max: usize) -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        1 => Just(String::new()),
        6 => vec(tchar(), 0..=max.min(8)).prop_map(|v| v.into_iter().collect()),
        4 => vec(tchar(), 0..=max).prop_map(|v| v.into_iter().collect()),
        4 => words(max),
        1 => (vec(any_char(), 0..3), select(dict::strs()), vec(any_char(), 0..3)).prop_map(move |(a, s, b)| {
            a.into_iter().chain(s.chars()).chain(b).take(max).collect()
        }),
    ]
}

/// Now and then a text of some hundred characters.
fn long(max: usize) -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        1 => (text_up_to(max.clamp(4, 12)), 4usize..40, line(6)).prop_map(|(unit, n, end)| unit.repeat(n) + &end),
        1 => (text_up_to(max.clamp(4, 12)), big_n(400)).prop_map(|(unit, n)| unit.chars().cycle().take(n).collect::<String>()),
    ]
}

fn words(max: usize) -> impl Strategy<Value = String> + Clone {
    let w = select(&["ab", "a", "abc", "foo", "b_1", "é中", "...", "-", "a.b", "A", "ab\\ c", "中日", "aab"][..]);
    let sp = select(&[" ", " ", " ", "  ", "   ", ""][..]);
    vec((w, sp), 0..6).prop_map(move |v| {
        let mut s = String::new();
        for (a, b) in v {
            s.push_str(a);
            s.push_str(b);
        }
        s.chars().take(max).collect()
    })
}

/// Text that may contain newlines.
pub fn text(max: usize) -> impl Strategy<Value = String> + Clone {
    prop_oneof![60 => text_up_to(max), 1 => long(max)]
}

fn text_up_to(max: usize) -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        5 => line(max),
        1 => (line(max / 2), line(max / 2)).prop_map(|(a, b)| format!("{a}\n{b}")),
        1 => vec(line(max / 3), 1..4).prop_map(|v| v.join("\n")),
    ]
}

/// History entries that share prefixes and substrings.
pub fn entry(multiline: bool) -> BoxedStrategy<String> {
    let base = prop_oneof![
        4 => line(10),
        2 => (select(&["a", "ab", "ab ", "foo", "é", "中", "b"][..]), line(5)).prop_map(|(a, b)| format!("{a}{b}")),
        2 => (line(3), select(&["a", "ab", "é", "b"][..]), line(4)).prop_map(|(a, b, c)| format!("{a}{b}{c}")),
    ];
    if multiline {
        prop_oneof![8 => base.clone(), 1 => (base.clone(), base).prop_map(|(a, b)| format!("{a}\n{b}"))].boxed()
    } else {
        base.boxed()
    }
}

pub fn history(max: usize, multiline: bool) -> impl Strategy<Value = Vec<String>> {
    prop_oneof![
        10 => Just(vec![]),
        50 => vec(entry(multiline), 0..=max),
        // a lot of entries that resemble each other
        1 => (vec(entry(multiline), 1..=5), prop_oneof![8usize..160, big_n(160)]).prop_map(|(es, n)| {
            (0..n).map(|i| if i % 3 == 2 { format!("{}{}", es[i % es.len()], i % 40) } else { es[i % es.len()].clone() }).collect()
        }),
    ]
}

/// Now and then a long text for entries and line to begin with.
pub fn common_prefix() -> impl Strategy<Value = String> {
    let n = prop_oneof![40 => Just(0usize), 1 => 20usize..200, 1 => big_n(300)];
    (n, select(&["ab", "long ", "é中"][..])).prop_map(|(n, unit)| unit.chars().cycle().take(n).collect())
}

/// A prompt put together from text, escape sequences that show nothing and line ends.
pub fn any_prompt(lines: bool) -> impl Strategy<Value = String> + Clone {
    let piece = prop_oneof![
        6 => "[a-zA-Z0-9$>:~@ ]{1,6}",
        2 => select(&["é", "中", "日本", "a\u{301}", "❯ ", "λ"][..]).prop_map(str::to_owned),
        3 => "\x1b\\[[0-9]{0,2}(;[0-9]{1,3}){0,3}m".prop_filter("attributes", |s| !s.contains(";m")),
        1 => select(&["\x1b(B\x1b[m", "\x1b[0;1m", "\x1b[?2004h", "\x1b[?25h"][..]).prop_map(str::to_owned),
        1 => ("[0-2]", "[ -~é中]{0,8}", any::<bool>()).prop_map(|(n, t, bel)| format!("\x1b]{n};{t}{}", if bel { "\x07" } else { "\x1b\\" })),
        1 => "[a-z]{1,5}".prop_map(|t| format!("\x1b]8;;file:///{t}\x1b\\{t}\x1b]8;;\x1b\\")),
        1 => Just(if lines { "\n" } else { "" }.to_owned()),
    ];
    let long = (piece.clone(), prop_oneof![2usize..40, big_n(150)]).prop_map(|(p, n)| vec![p.repeat(n)]);
    (prop_oneof![9 => vec(piece.clone(), 0..5), 1 => long], piece).prop_map(|(v, p)| v.concat() + &p)
}

/// Now and then a lot of entries of no interest in the midst of the others: how many, and where.
pub fn filler() -> impl Strategy<Value = (usize, usize)> {
    (prop_oneof![60 => Just(0usize), 1 => 20usize..900], 0usize..30)
}
pub fn filled(mut hist: Vec<String>, (n, at): (usize, usize)) -> Vec<String> {
    let at = at.min(hist.len());
    hist.splice(at..at, (0..n).map(|i| format!("zq{i}")));
    hist
}

pub fn prefixed(prefix: &str, mut hist: Vec<String>, init: &mut String) -> Vec<String> {
    if !prefix.is_empty() {
        for s in &mut hist {
            s.insert_str(0, prefix);
        }
        init.insert_str(0, prefix);
    }
    hist
}

// ------------------------------------------------------------------ key sequences

fn keys_of(s: &str) -> Vec<K> {
    s.chars().map(ch).collect()
}

/// Keys any binding handles in the common layer.
pub fn common_seg() -> BoxedStrategy<Vec<K>> {
    prop_oneof![
        4 => Just(vec![K(Key::Up)]),
        3 => Just(vec![K(Key::Down)]),
        4 => Just(vec![K(Key::Left)]),
        4 => Just(vec![K(Key::Right)]),
        2 => Just(vec![K(Key::Home)]),
        2 => Just(vec![K(Key::End)]),
        3 => Just(vec![K(Key::Backspace)]),
        2 => Just(vec![K(Key::Delete)]),
        1 => Just(vec![ctrl('h')]),
        4 => Just(vec![K(Key::Char('\t'))]),
        2 => Just(vec![K(Key::Char('\t')), K(Key::Char('\t'))]),
        1 => Just(vec![K(Key::Char('\t')), K(Key::Char('\t')), K(Key::Char('\t')), K(Key::Char('\n'))]),
        3 => Just(vec![ctrl('r')]),
        2 => Just(vec![ctrl('s')]),
        2 => Just(vec![ctrl('f')]),
        2 => Just(vec![ctrl('l')]),
        1 => Just(vec![ctrl('d')]),
        1 => Just(vec![ch('\\'), K(Key::Char('\n'))]),
        1 => Just(vec![K(Key::Null)]),
        1 => Just(vec![K(Key::Insert)]),
        1 => (1u8..5).prop_map(|n| vec![K(Key::F(n))]),
        1 => Just(vec![K(Key::BackTab)]),
        1 => Just(vec![K(Key::PageUp)]),
    ]
    .boxed()
}

pub fn typed(max: usize) -> BoxedStrategy<Vec<K>> {
    prop_oneof![
        4 => vec(any_char().prop_map(ch), 1..=max),
        3 => select(&["ab", "a", "foo ", "b", "é", "中", "a.b", " "][..]).prop_map(keys_of),
    ]
    .boxed()
}

pub fn emacs_seg() -> BoxedStrategy<Vec<K>> {
    prop_oneof![
        8 => typed(5),
        10 => select(&['a', 'b', 'd', 'e', 'f', 'k', 'n', 'p', 'u', 'w', 'x', 'g', 'h'][..]).prop_map(|c| vec![ctrl(c)]),
        7 => select(&['b', 'f', '<', '>', 'r', '.', '.', '\x7f', 'q'][..]).prop_map(|c| vec![alt(c)]),
        8 => common_seg(),
    ]
    .boxed()
}

/// Motions of Vi normal mode (also used after an operator).
pub fn vi_motion() -> BoxedStrategy<Vec<K>> {
    prop_oneof![
        10 => select(&["h", "l", "0", "^", "$", "w", "W", "b", "B", "e", "E", "ge", "gE", " ", ";", ","][..]).prop_map(keys_of),
        5 => (select(&['f', 'F', 't', 'T'][..]), tchar()).prop_map(|(a, b)| vec![ch(a), ch(b)]),
        1 => Just(vec![K(Key::Left)]),
        1 => Just(vec![K(Key::Home)]),
        1 => Just(vec![K(Key::End)]),
        1 => Just(vec![K(Key::Backspace)]),
    ]
    .boxed()
}

/// A count that may be absent; small, so that repeating an insertion stays cheap.
pub fn vi_count() -> BoxedStrategy<Vec<K>> {
    prop_oneof![
        6 => Just(vec![]),
        3 => (1u32..4).prop_map(|n| keys_of(&n.to_string())),
        1 => prop_oneof![20 => 4usize..14, 1 => 14usize..120, 1 => big_n(300)].prop_map(|n| keys_of(&n.to_string())),
    ]
    .boxed()
}

pub fn vi_big_count() -> BoxedStrategy<Vec<K>> {
    prop_oneof![
        1 => (20usize..1000).prop_map(|n| keys_of(&n.to_string())),
        1 => big_n(2000).prop_map(|n| keys_of(&n.to_string())),
        1 => select(&["4294967295", "4294967296", "99999999999999999999", "65536"][..]).prop_map(keys_of),
    ]
    .boxed()
}

pub fn vi_seg() -> BoxedStrategy<Vec<K>> {
    let cat = |v: Vec<Vec<K>>| v.into_iter().flatten().collect::<Vec<K>>();
    prop_oneof![
        6 => typed(4),
        5 => Just(vec![K(Key::Esc)]),
        3 => (select(&['i', 'a', 'I', 'A'][..]), typed(3), vi_count()).prop_map(move |(c, t, n)| cat(vec![vec![K(Key::Esc)], n, vec![ch(c)], t, vec![K(Key::Esc)]])),
        8 => (vi_count(), vi_motion()).prop_map(move |(a, b)| cat(vec![a, b])),
        8 => (vi_count(), select(&['d', 'c'][..]), vi_count(), vi_motion()).prop_map(move |(a, o, b, m)| cat(vec![a, vec![ch(o)], b, m])),
        5 => (vi_count(), select(&["x", "~", "s", "C", "D", "dd", "cc", "u", ".", "ra", "r.", "g", "d", "c", "r", "f", "t", "j", "k", "z"][..])).prop_map(move |(a, b)| cat(vec![a, keys_of(b)])),
        1 => (vi_big_count(), select(&["h", "l", "w", "b", "e", "x", "~", "fa", "ge", "rb", "u", "dw", "dh", "D"][..])).prop_map(move |(a, b)| cat(vec![vec![K(Key::Esc), K(Key::Esc)], a, keys_of(b), vec![K(Key::Esc), K(Key::Esc)]])),
        7 => common_seg(),
    ]
    .boxed()
}

pub fn flat(v: Vec<Vec<K>>) -> Vec<K> {
    v.into_iter().flatten().collect()
}

pub fn keys_for(vi: bool, max: usize) -> BoxedStrategy<Vec<K>> {
    if vi {
        seq_up_to(vi_seg(), 0..=max, 40).prop_map(flat).boxed()
    } else {
        seq(emacs_seg(), 0..=max).prop_map(flat).boxed()
    }
}
