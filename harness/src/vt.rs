//! A terminal: rows of cells without a bottom, deferred wrapping, the control sequences the editor
//! and coloured prompts use. Anything else is reported.
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug)]
pub struct Vt {
    pub w: usize,
    pub rows: Vec<Vec<String>>,
    pub r: usize,
    pub c: usize,
    /// the last column was written, the next character goes to the next row
    pub full: bool,
    /// first row of the screen, as far as erasing and going home are concerned
    pub top: usize,
    /// colours and attributes of the characters written, if they are followed
    pub attrs: Option<Vec<Vec<Sgr>>>,
    pub sgr: Sgr,
    state: State,
    utf: Vec<u8>,
}

/// Colours are 0 for the default, 1 + n for colour n; `flags` has a bit per attribute number.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Sgr {
    pub fg: u32,
    pub bg: u32,
    pub flags: u16,
}

impl Sgr {
    fn apply(&mut self, s: &str) -> Result<(), String> {
        let mut it = s.split(';').map(|n| if n.is_empty() { Ok(0) } else { n.parse::<u32>() });
        let bad = || format!("unexpected attributes {s:?}");
        while let Some(n) = it.next() {
            let n = n.map_err(|_| bad())?;
            match n {
                0 => *self = Sgr::default(),
                1..=9 => self.flags |= 1 << n,
                22 => self.flags &= !0b110,
                23..=29 => self.flags &= !(1 << (n - 20)),
                30..=37 => self.fg = n - 29,
                39 => self.fg = 0,
                40..=47 => self.bg = n - 39,
                49 => self.bg = 0,
                90..=97 => self.fg = n - 81,
                100..=107 => self.bg = n - 91,
                38 | 48 => {
                    let mut next = || it.next().and_then(|n| n.ok()).ok_or_else(bad);
                    let c = match next()? {
                        5 => 1 + next()?,
                        2 => (1 << 24) | next()? << 16 | next()? << 8 | next()?,
                        _ => return Err(bad()),
                    };
                    *(if n == 38 { &mut self.fg } else { &mut self.bg }) = c;
                }
                _ => return Err(bad()),
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum State {
    Text,
    Esc,
    Csi(String),
    Osc,
    OscEsc,
    Set,
}

const CONT: &str = "";

impl Vt {
    pub fn new(w: usize) -> Vt {
        Vt { w, rows: vec![vec![]], r: 0, c: 0, full: false, top: 0, attrs: None, sgr: Sgr::default(), state: State::Text, utf: vec![] }
    }

    fn row(&mut self, r: usize) -> &mut Vec<String> {
        while self.rows.len() <= r {
            self.rows.push(vec![]);
        }
        &mut self.rows[r]
    }

    fn set(&mut self, r: usize, c: usize, s: String) {
        let w = self.w;
        let row = self.row(r);
        if row.is_empty() {
            row.resize(w, " ".to_owned());
        }
        // half of a wide character becomes a blank
        if row[c] == CONT && s != CONT && c > 0 {
            row[c - 1] = " ".to_owned();
        }
        if s != CONT && c + 1 < w && row[c + 1] == CONT {
            row[c + 1] = " ".to_owned();
        }
        row[c] = s;
        let sgr = self.sgr;
        if let Some(a) = &mut self.attrs {
            if a.len() <= r {
                a.resize(r + 1, vec![]);
            }
            if a[r].is_empty() {
                a[r].resize(w, Sgr::default());
            }
            a[r][c] = sgr;
        }
    }

    /// Text and attributes of the cells of a row that are not blank: (column, text, attributes).
    pub fn cells(&self, r: usize) -> Vec<(usize, String, Sgr)> {
        let Some(row) = self.rows.get(r) else { return vec![] };
        let at = |c: usize| self.attrs.as_ref().and_then(|a| a.get(r)).and_then(|a| a.get(c)).copied().unwrap_or_default();
        row.iter().enumerate().filter(|(_, s)| *s != " " && *s != CONT).map(|(c, s)| (c, s.clone(), at(c))).collect()
    }

    /// Where a character of this width would be put.
    pub fn place(&self, width: usize) -> (usize, usize) {
        if self.full || self.c + width > self.w {
            (self.r + 1, 0)
        } else {
            (self.r, self.c)
        }
    }

    pub fn put(&mut self, ch: char) {
        let width = ch.width().unwrap_or(0);
        if width == 0 {
            let c = if self.full {
                self.c
            } else if self.c > 0 {
                self.c - 1
            } else {
                return;
            };
            let (w, r) = (self.w, self.r);
            let row = self.row(r);
            if row.is_empty() {
                row.resize(w, " ".to_owned());
            }
            let c = if row[c] == CONT { c - 1 } else { c };
            row[c].push(ch);
            return;
        }
        let (r, c) = self.place(width);
        self.full = false;
        self.set(r, c, ch.to_string());
        if width == 2 {
            self.set(r, c + 1, CONT.to_owned());
        }
        self.r = r;
        self.c = c + width;
        if self.c >= self.w {
            self.c = self.w - 1;
            self.full = true;
        }
    }

    /// Carriage return and line feed.
    pub fn newline(&mut self) {
        self.full = false;
        self.c = 0;
        self.r += 1;
    }

    fn csi(&mut self, s: &str, fin: char) -> Result<(), String> {
        let n = |d: usize| s.parse::<usize>().ok().filter(|n| *n > 0).unwrap_or(d);
        match fin {
            'm' => {
                return match self.attrs {
                    Some(_) => self.sgr.apply(s),
                    None => Ok(()),
                }
            }
            'h' | 'l' if s.starts_with('?') => return Ok(()),
            'A' => self.r = self.r.saturating_sub(n(1)).max(self.top),
            'B' => self.r += n(1),
            'E' => {
                self.r += n(1);
                self.c = 0;
            }
            'F' => {
                self.r = self.r.saturating_sub(n(1)).max(self.top);
                self.c = 0;
            }
            'G' => self.c = (n(1) - 1).min(self.w - 1),
            'K' if s.is_empty() || s == "0" || s == "1" || s == "2" => {
                let (r, c) = (self.r, self.c);
                if let Some(row) = self.rows.get_mut(r) {
                    let range = match s {
                        "1" => 0..row.len().min(c + 1),
                        "2" => 0..row.len(),
                        _ => row.len().min(c)..row.len(),
                    };
                    if row.get(range.start).map_or(false, |x| x == CONT) {
                        row[range.start - 1] = " ".to_owned();
                    }
                    if row.get(range.end).map_or(false, |x| x == CONT) {
                        row[range.end] = " ".to_owned();
                    }
                    for x in &mut row[range] {
                        *x = " ".to_owned();
                    }
                }
                return Ok(());
            }
            'C' => self.c = (self.c + n(1)).min(self.w - 1),
            'D' => self.c = self.c.saturating_sub(n(1)),
            'H' if s == "1;1" || s.is_empty() => {
                self.r = self.top;
                self.c = 0;
            }
            'J' if s.is_empty() || s == "0" => {
                let (r, c) = (self.r, self.c);
                self.rows.truncate(r + 1);
                if let Some(row) = self.rows.get_mut(r) {
                    if row.get(c).map_or(false, |x| x == CONT) {
                        row[c - 1] = " ".to_owned();
                    }
                    for x in row.iter_mut().skip(c) {
                        *x = " ".to_owned();
                    }
                }
                return Ok(());
            }
            'J' if s == "2" => {
                // what was on the screen is gone: a new screen below
                let d = self.r - self.top;
                self.top = self.rows.len().max(self.r + 1);
                self.r = self.top + d;
                return Ok(());
            }
            _ => return Err(format!("unexpected control sequence ESC [ {s} {fin}")),
        }
        self.full = false;
        Ok(())
    }

    pub fn feed(&mut self, bytes: &[u8]) -> Result<(), String> {
        self.utf.extend_from_slice(bytes);
        let buf = std::mem::take(&mut self.utf);
        let text = match std::str::from_utf8(&buf) {
            Ok(t) => t,
            Err(e) if e.error_len().is_none() => {
                self.utf = buf[e.valid_up_to()..].to_vec();
                std::str::from_utf8(&buf[..e.valid_up_to()]).unwrap()
            }
            Err(_) => return Err("invalid UTF-8 on the terminal".into()),
        };
        for ch in text.chars() {
            match &mut self.state {
                State::Text => match ch {
                    '\x1b' => self.state = State::Esc,
                    '\r' => {
                        self.c = 0;
                        self.full = false;
                    }
                    '\n' => {
                        self.r += 1;
                        self.full = false;
                    }
                    c if c.is_control() => return Err(format!("unexpected control character {c:?}")),
                    c => self.put(c),
                },
                State::Esc => match ch {
                    '[' => self.state = State::Csi(String::new()),
                    ']' => self.state = State::Osc,
                    '(' | ')' => self.state = State::Set,
                    c => return Err(format!("unexpected escape {c:?}")),
                },
                State::Csi(s) => {
                    if ('@'..='~').contains(&ch) {
                        let s = std::mem::take(s);
                        self.state = State::Text;
                        self.csi(&s, ch)?;
                    } else {
                        s.push(ch);
                    }
                }
                State::Osc => match ch {
                    '\x07' => self.state = State::Text,
                    '\x1b' => self.state = State::OscEsc,
                    _ => {}
                },
                State::OscEsc if ch == '\\' => self.state = State::Text,
                State::OscEsc => return Err(format!("unexpected escape {ch:?} in a title")),
                // a character set: nothing to see
                State::Set => self.state = State::Text,
            }
        }
        Ok(())
    }

    /// A row without the blanks at its end.
    pub fn line(&self, r: usize) -> String {
        self.rows.get(r).map_or(String::new(), |v| v.concat().trim_end_matches(' ').to_owned())
    }

    /// Rows from `r` on, without the blank ones at the end.
    pub fn lines_from(&self, r: usize) -> Vec<String> {
        let mut v: Vec<String> = (r..self.rows.len()).map(|i| self.line(i)).collect();
        while v.last().map_or(false, |l| l.is_empty()) {
            v.pop();
        }
        v
    }
}

impl Vt {
    /// The mark of an unfinished line.
    pub fn set_mark(&mut self, r: usize, c: usize) {
        self.set(r, c, "⏎".to_owned());
    }
}
