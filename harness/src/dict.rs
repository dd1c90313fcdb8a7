//! Values the generators mix in now and then: the literals of the code under test as it is now
//! (like the dictionaries of coverage-guided fuzzers) and some numbers and characters that are
//! often treated specially. Only what is generated depends on them, never what is expected.
use std::path::Path;
use std::sync::OnceLock;

struct Dict {
    ints: Vec<usize>,
    chars: Vec<char>,
    strs: Vec<String>,
}

/// The literals of Rust source, up to its tests.
fn scan(src: &str, ints: &mut Vec<usize>, strs: &mut Vec<String>) {
    let src = src.split("#[cfg(test)]\nmod").next().unwrap();
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let escape = |i: &mut usize| -> char {
        // at the character after the backslash; leaves `i` after the escape
        let e = at(*i);
        *i += 1;
        let hex = |s: String| u32::from_str_radix(&s, 16).ok().and_then(char::from_u32).unwrap_or('\0');
        match e {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'x' => {
                *i += 2;
                hex([at(*i - 2), at(*i - 1)].iter().collect())
            }
            'u' => {
                let mut s = String::new();
                while *i < c.len() && at(*i) != '}' {
                    if at(*i).is_ascii_hexdigit() {
                        s.push(at(*i));
                    }
                    *i += 1;
                }
                *i += 1;
                hex(s)
            }
            _ => e,
        }
    };
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '\'' if at(i + 1) == '\\' => {
                i += 2;
                let e = escape(&mut i);
                strs.push(e.to_string());
                i += 1;
            }
            '\'' if at(i + 2) == '\'' => {
                strs.push(at(i + 1).to_string());
                i += 3;
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        s.push(escape(&mut i));
                    } else {
                        s.push(c[i]);
                        i += 1;
                    }
                }
                strs.push(s);
                i += 1;
            }
            d if d.is_ascii_digit() => {
                let hex = d == '0' && at(i + 1) == 'x';
                let mut s = String::new();
                i += if hex { 2 } else { 0 };
                while at(i).is_ascii_hexdigit() && (hex || at(i).is_ascii_digit()) || at(i) == '_' {
                    if at(i) != '_' {
                        s.push(at(i));
                    }
                    i += 1;
                }
                let n = usize::from_str_radix(&s, if hex { 16 } else { 10 });
                // an element of a tuple is not a literal, but does no harm
                if let Ok(n) = n {
                    ints.push(n);
                }
                while at(i).is_alphanumeric() {
                    i += 1;
                }
            }
            a if a.is_alphabetic() || a == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") && !p.ends_with("test.rs") {
            out.push(p);
        }
    }
}

fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let (mut lits, mut strs, mut paths) = (vec![], vec![], vec![]);
        files(Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut paths);
        for p in paths {
            scan(&std::fs::read_to_string(p).unwrap_or_default(), &mut lits, &mut strs);
        }
        let mut ints: Vec<usize> = vec![5, 7, 8, 10, 12, 15, 16, 20, 24, 31, 32, 50, 63, 64, 99, 100, 127, 128, 255, 256];
        for n in lits {
            if (3..=2000).contains(&n) {
                ints.extend([n - 1, n, n + 1, n, n]);
            }
        }
        let mut chars: Vec<char> = "\u{200d}👩\u{a0}İẞŉǅﬁΣς\u{ff21}\u{300}\u{e000}\u{10ffff}\u{fffd}\u{ad}ｱａ１٣ªⅧ…«»\u{3000}\u{2028}\u{2003}\"'`$&|;<>*?~!{}[]%@^=+,:/"
            .chars()
            .collect();
        chars.extend(strs.iter().flat_map(|s| s.chars()).filter(|c| !c.is_control() && !c.is_ascii()));
        chars.extend(strs.iter().filter(|s| s.chars().count() == 1).flat_map(|s| s.chars()).filter(|c| !c.is_control()));
        // what tells the mode indicators and the search prompt from the text cannot be in the text
        strs.retain(|s| !s.contains("[I]") && !s.contains("[N]") && !s.contains("(search)"));
        strs.retain(|s| (2..30).contains(&s.chars().count()) && !s.chars().any(char::is_control));
        strs.push("ab ".to_string());
        strs.sort();
        strs.dedup();
        chars.sort();
        chars.dedup();
        ints.sort();
        Dict { ints, chars, strs }
    })
}

pub fn ints(max: usize) -> Vec<usize> {
    dict().ints.iter().copied().filter(|n| *n <= max).collect()
}
pub fn chars() -> Vec<char> {
    dict().chars.clone()
}
pub fn strs() -> Vec<String> {
    dict().strs.clone()
}
