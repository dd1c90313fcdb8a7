//! Model of a `History` and of a history file, both lists of lines.
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Hist {
    pub mem: Vec<String>,
    pub max_mem: usize,
    pub max_file: usize,
    pub allow_dup: bool,
    pub load_dup: bool,
    pub inc: bool,
    pub share: bool,
    /// size of the file as last read or written by this instance
    pub size: u64,
    pub writes: usize,
}

pub type File = Option<Vec<String>>;

/// Stands for a byte that is not UTF-8, as another program may leave in a file. It is loaded as U+FFFD.
pub const BAD: char = '\u{f8ff}';

pub fn text_of(lines: &[String]) -> Vec<u8> {
    let mut v = vec![];
    for l in lines {
        for (i, part) in l.split(BAD).enumerate() {
            if i > 0 {
                v.push(0xff);
            }
            v.extend(part.as_bytes());
        }
        v.push(b'\n');
    }
    v
}

pub fn size(lines: &[String]) -> u64 {
    text_of(lines).len() as u64
}

fn newest(v: &mut Vec<String>, n: usize) {
    let d = v.len().saturating_sub(n);
    v.drain(..d);
}

/// Only the last of equal lines stays.
fn dedup(v: &mut Vec<String>) {
    let mut seen = HashSet::new();
    let mut w: Vec<String> = v.iter().rev().filter(|l| seen.insert((*l).clone())).cloned().collect();
    w.reverse();
    *v = w;
}

fn entries(lines: &[String]) -> impl Iterator<Item = String> + '_ {
    lines.iter().filter(|l| !l.starts_with('#')).map(|l| l.replace(BAD, "\u{fffd}"))
}

impl Hist {
    pub fn new() -> Hist {
        Hist {
            mem: vec![],
            max_mem: 1000,
            max_file: 1000,
            allow_dup: false,
            load_dup: true,
            inc: false,
            share: false,
            size: 0,
            writes: 0,
        }
    }

    /// Whether the line was accepted.
    pub fn push(&mut self, line: &str, file: &mut File, named: bool) -> bool {
        if !self.allow_dup && self.mem.last().map(|s| s.as_str()) == Some(line) {
            return false;
        }
        self.mem.push(line.to_owned());
        newest(&mut self.mem, self.max_mem);
        if self.inc && named {
            if let Some(f) = file {
                f.push(line.to_owned());
                self.size += line.len() as u64 + 1;
            }
            if !self.load_dup {
                self.writes += 1;
                if self.writes >= 30 {
                    self.writes = 0;
                    self.compact(file);
                }
            }
        }
        true
    }

    fn compact(&mut self, file: &mut File) {
        if self.share {
            if let Some(f) = file {
                self.mem = self.view(f);
            }
            newest(&mut self.mem, self.max_file);
            *file = Some(self.mem.clone());
            self.size = size(&self.mem);
        } else if let Some(f) = file {
            let before = f.iter().filter(|l| !l.starts_with('#')).count();
            let mut v: Vec<String> = entries(f).collect();
            newest(&mut v, self.max_file);
            dedup(&mut v);
            // a file that is compact already stays as it is, with its comments
            if v.len() != before {
                *f = v;
            }
        }
    }

    /// What loading the lines into an empty history gives.
    fn view(&self, lines: &[String]) -> Vec<String> {
        let mut v: Vec<String> = entries(lines).collect();
        newest(&mut v, self.max_file);
        if !self.load_dup {
            dedup(&mut v);
        }
        v
    }

    /// Loads a file; with `known`, only if its size is not the known one. The result is whether it is
    /// there at all.
    pub fn load(&mut self, lines: &[String], known: u64, append: bool) -> u64 {
        let n = size(lines);
        if n == 0 && known == 0 && !append {
            self.mem.clear();
        }
        if n != known {
            if !append {
                self.mem.clear();
            }
            self.mem.extend(entries(lines));
            newest(&mut self.mem, self.max_file);
            if !self.load_dup {
                dedup(&mut self.mem);
            }
        }
        n
    }

    /// `load_history`: the named file, unless its size is the one last seen.
    pub fn reload(&mut self, file: &File, append: bool) -> bool {
        match file {
            Some(f) => {
                self.size = self.load(f, self.size, append);
                true
            }
            None => false,
        }
    }

    pub fn commit(&mut self) -> Vec<String> {
        newest(&mut self.mem, self.max_file);
        self.mem.clone()
    }
}
