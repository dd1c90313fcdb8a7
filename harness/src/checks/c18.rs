//! C18: a buffer behaves as the character sequence it denotes.
use crate::infra::*;
use crate::keys::*;
use liner::{Action, Buffer};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use unicode_width::UnicodeWidthStr;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// positions are taken modulo the length
    Insert(usize, String),
    Remove(usize, usize),
    Truncate(usize),
    Copy(String),
    /// extends the text by the rest of a longer buffer
    InsertFrom(String, String),
    Forget,
    Group(bool),
    /// a modification done or undone without being recorded: an insertion or not, where, its text
    Act(bool, bool, usize, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    init: String,
    how: u8,
    ops: Vec<Op>,
    other: String,
    cut: (usize, usize),
}

fn utext(max: usize) -> impl Strategy<Value = String> + Clone {
    let c = prop_oneof![
        5 => select(&['a', 'b', 'c', ' ', ' ', '\n', 'é', '中', '\u{301}'][..]),
        3 => tchar(),
        1 => any::<char>(),
    ];
    prop_oneof![
        3 => vec(c.clone(), 0..=6.min(max)).prop_map(|v| v.into_iter().collect()),
        3 => vec(c, 0..=max).prop_map(|v| v.into_iter().collect()),
        1 => text(max),
    ]
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => (0usize..64, utext(20)).prop_map(|(a, b)| Op::Insert(a, b)),
        4 => (0usize..64, 0usize..64).prop_map(|(a, b)| Op::Remove(a, b)),
        1 => (0usize..64).prop_map(Op::Truncate),
        1 => utext(20).prop_map(Op::Copy),
        2 => (utext(20), utext(10)).prop_map(|(a, b)| Op::InsertFrom(a, b)),
        1 => Just(Op::Forget),
        1 => any::<bool>().prop_map(Op::Group),
        1 => (any::<bool>(), any::<bool>(), 0usize..64, utext(8)).prop_map(|(u, i, p, t)| Op::Act(u, i, p, t)),
    ]
}

fn gen() -> impl Strategy<Value = Case> {
    (
        utext(40),
        0u8..4,
        seq(op(), 0..7),
        utext(8),
        (0usize..64, 0usize..64),
    )
        .prop_map(|(init, how, ops, other, cut)| Case {
            init,
            how,
            ops,
            other,
            cut,
        })
}

/// Some hundred to thousand characters, repetitive, so that parts of it occur in many places.
fn long_gen() -> impl Strategy<Value = Case> {
    let lop = prop_oneof![
        4 => (any::<u16>(), utext(20)).prop_map(|(a, b)| Op::Insert(a as usize, b)),
        4 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Op::Remove(a as usize, b as usize)),
        1 => any::<u16>().prop_map(|a| Op::Truncate(a as usize)),
        2 => (utext(9), 1usize..200).prop_map(|(a, n)| Op::InsertFrom(a.clone(), a.repeat(n))),
        1 => (utext(9), 1usize..200).prop_map(|(a, n)| Op::Copy(a.repeat(n))),
        1 => Just(Op::Forget),
    ];
    (
        utext(12),
        1usize..150,
        utext(6),
        0u8..4,
        vec(lop, 0..4),
        0usize..30,
        (any::<u16>(), any::<u16>()),
    )
        .prop_map(|(unit, n, twist, how, ops, o, cut)| {
            let init = unit.repeat(n) + &twist + &unit.repeat(n / 3);
            let other = unit
                .repeat(2 + o / 8)
                .chars()
                .skip(o % 7)
                .chain(twist.chars())
                .collect();
            Case {
                init,
                how,
                ops,
                other,
                cut: (cut.0 as usize, cut.1 as usize),
            }
        })
}

fn s(cs: &[char]) -> String {
    cs.iter().collect()
}

fn widths(t: &str) -> Vec<usize> {
    t.split('\n').map(UnicodeWidthStr::width).collect()
}

fn strict_prefix(text: &[char], p: &[char]) -> bool {
    !p.is_empty() && text.len() > p.len() && &text[..p.len()] == p
}

pub fn contains(text: &[char], p: &[char]) -> bool {
    !p.is_empty() && (0..text.len()).any(|i| text[i..].starts_with(p))
}

/// Takes a few bytes at a time, and `left` in all.
struct Chunks {
    out: Vec<u8>,
    size: usize,
    left: usize,
}

impl std::io::Write for Chunks {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.size).min(self.left);
        if n == 0 && !b.is_empty() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn hash(b: &Buffer) -> u64 {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let mut h = DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

fn compare(b: &Buffer, m: &[char], other: &[char], cut: (usize, usize)) -> Res {
    let t = s(m);
    macro_rules! eq {
        ($a:expr, $b:expr) => {{
            let (a, e) = (&$a, &$b);
            if a != e {
                return Err(format!(
                    "text {t:?}: {} is {a:?}, expected {e:?}",
                    stringify!($a)
                ));
            }
        }};
    }
    eq!(b.to_string(), t);
    eq!(String::from(b.clone()), t);
    eq!(format!("{b}"), t);
    eq!(b.num_chars(), m.len());
    eq!(b.num_bytes(), t.len());
    eq!(b.is_empty(), m.is_empty());
    eq!(b.as_bytes(), t.as_bytes().to_vec());
    eq!(b.chars().cloned().collect::<Vec<_>>(), m.to_vec());
    eq!(
        b.lines(),
        t.split('\n').map(|x| x.to_string()).collect::<Vec<_>>()
    );
    eq!(b.width(), widths(&t));
    eq!(
        b.last_arg().map(s),
        t.split(' ')
            .filter(|w| !w.is_empty())
            .last()
            .map(|x| x.to_string())
    );
    for i in 0..m.len() + 3 {
        eq!((i, b.char_after(i)), (i, m.get(i).copied()));
        eq!(
            (i, b.char_before(i)),
            (i, if i == 0 { None } else { m.get(i - 1).copied() })
        );
    }
    let (x, y) = (cut.0 % (m.len() + 1), cut.1 % (m.len() + 1));
    let (x, y) = (x.min(y), x.max(y));
    for (x, y) in [(x, y), (0, m.len()), (x, m.len()), (0, y)] {
        eq!((x, y, b.range(x, y)), (x, y, s(&m[x..y])));
        eq!((x, y, b.range_chars(x, y)), (x, y, m[x..y].to_vec()));
        eq!((x, y, b.range_width(x, y)), (x, y, widths(&s(&m[x..y]))));
    }
    for size in [usize::MAX, 1 + cut.0 % 5] {
        let mut out = Chunks {
            out: vec![],
            size,
            left: usize::MAX,
        };
        b.print(&mut out).map_err(|e| e.to_string())?;
        eq!((size, out.out), (size, t.as_bytes().to_vec()));
    }
    if !t.is_empty() {
        // the destination takes some of it and then fails
        let mut out = Chunks {
            out: vec![],
            size: 7,
            left: cut.1 % t.len(),
        };
        eq!(b.print(&mut out).is_err(), true);
        out = Chunks {
            out: vec![],
            size: 7,
            left: cut.1 % t.len(),
        };
        eq!(b.print_rest(&mut out, 0).is_err(), true);
    }
    for k in [0, x, m.len(), m.len() + 2] {
        let mut out = Chunks {
            out: vec![],
            size: 1 + cut.1 % 9,
            left: usize::MAX,
        };
        let n = b.print_rest(&mut out, k).map_err(|e| e.to_string())?;
        let rest: String = m.iter().skip(k).collect();
        eq!((k, &out.out), (k, &rest.clone().into_bytes()));
        eq!((k, n), (k, rest.len()));
    }
    // tests against other texts: an unrelated one, and parts and extensions of this one
    let mut longer = m.to_vec();
    longer.push('x');
    let mut changed = m[..y].to_vec();
    if let Some(c) = changed.last_mut() {
        *c = if *c == 'q' { 'r' } else { 'q' };
    }
    for o in [
        other,
        m,
        &m[x..y],
        &m[..y],
        &m[x..],
        &longer[..],
        &changed[..],
        &[][..],
    ] {
        let ob: Buffer = o.iter().copied().collect();
        let os = s(o);
        eq!((&os, b.starts_with(&ob)), (&os, strict_prefix(m, o)));
        eq!((&os, b.contains(&ob)), (&os, contains(m, o)));
        eq!((&os, *b == ob), (&os, m == o));
        if m == o {
            eq!((&os, hash(b)), (&os, hash(&ob)));
        }
    }
    Ok(())
}

fn check(c: &Case, obs: &mut Obs) -> Res {
    let mut b = match c.how {
        0 => Buffer::from(c.init.as_str()),
        1 => Buffer::from(c.init.clone()),
        2 => c.init.chars().collect(),
        _ => {
            let mut b = Buffer::new();
            b.insert(0, &c.init.chars().collect::<Vec<_>>());
            b
        }
    };
    let mut m: Vec<char> = c.init.chars().collect();
    let other: Vec<char> = c.other.chars().collect();
    compare(&b, &m, &other, c.cut)?;
    if Buffer::new() != Buffer::default() || Buffer::new().num_chars() != 0 {
        return Err("a new buffer is not empty".into());
    }
    for op in &c.ops {
        match op {
            Op::Insert(p, t) => {
                let p = p % (m.len() + 1);
                let cs: Vec<char> = t.chars().collect();
                b.insert(p, &cs);
                m.splice(p..p, cs);
            }
            Op::Remove(x, y) => {
                let (x, y) = (x % (m.len() + 1), y % (m.len() + 1));
                let (x, y) = (x.min(y), x.max(y));
                let n = b.remove(x, y);
                m.drain(x..y);
                if n != y - x {
                    return Err(format!("remove({x}, {y}) returned {n}"));
                }
            }
            Op::Truncate(n) => {
                let n = n % (m.len() + 1);
                b.truncate(n);
                m.truncate(n);
            }
            Op::Copy(t) => {
                b.copy_buffer(&Buffer::from(t.as_str()));
                m = t.chars().collect();
            }
            Op::InsertFrom(a, r) => {
                // the other buffer is at least as long; what it starts with does not matter
                let mut o: Vec<char> = a
                    .chars()
                    .cycle()
                    .take(if a.is_empty() { 0 } else { m.len() })
                    .collect();
                while o.len() < m.len() {
                    o.push('z');
                }
                o.extend(r.chars());
                b.insert_from_buffer(&o.iter().copied().collect());
                m.extend(r.chars());
            }
            Op::Forget => b.clear_actions(),
            Op::Group(true) => b.start_undo_group(),
            Op::Group(false) => b.end_undo_group(),
            Op::Act(undo, insert, p, t) => {
                let cs: Vec<char> = t.chars().collect();
                let p = p % (m.len() + 1);
                let adds = insert != undo;
                // what is removed has the length of the text
                let cs = if adds { cs } else { m[p..].iter().copied().take(cs.len()).collect() };
                let act = if *insert { Action::Insert { start: p, text: cs.clone() } } else { Action::Remove { start: p, text: cs.clone() } };
                if *undo {
                    act.undo(&mut b);
                } else {
                    act.do_on(&mut b);
                }
                if adds {
                    m.splice(p..p, cs);
                } else {
                    m.drain(p..p + cs.len());
                }
            }
        }
        compare(&b, &m, &other, c.cut).map_err(|e| format!("after {op:?}: {e}"))?;
        let copy = b.clone();
        if copy != b || copy.to_string() != s(&m) {
            return Err("a clone differs".into());
        }
    }
    obs.nontrivial = !c.ops.is_empty() && !c.init.is_empty();
    obs.label_if(!c.init.is_ascii(), "non-ASCII");
    obs.label_if(c.init.contains('\n'), "multi-line");
    obs.label_if(c.init.chars().count() > 256, "over 256 characters");
    obs.label_if(c.ops.len() > 3, "4+ operations");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
        "model",
        "an initial Unicode text and up to six in-range operations, all queries compared after each; non-trivial: a non-empty text and at least one operation",
        600_000,
        5_000_000,
        gen,
        check,
        ),
        suite(
            "long",
            "repetitive texts of up to some thousand characters and up to three operations; non-trivial: a non-empty text and at least one operation",
            40_000,
            1_000_000,
            long_gen,
            check,
        ),
    ]
}
