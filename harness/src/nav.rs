//! Reference definitions for navigating, searching and suggesting, and reading the last redraw.

pub fn contains(entry: &str, part: &str) -> bool {
    !part.is_empty() && entry.contains(part)
}

/// The entries stepped through with `typed` on the line, the first one visited last.
pub fn matching(hist: &[String], typed: &str) -> Vec<usize> {
    if typed.is_empty() {
        return (0..hist.len()).collect();
    }
    let starts = |h: &String| h.starts_with(typed);
    let mut v: Vec<usize> = (0..hist.len()).filter(|&i| contains(&hist[i], typed) && !starts(&hist[i])).collect();
    v.extend((0..hist.len()).filter(|&i| starts(&hist[i]) && hist[i] != typed));
    v
}

/// The entries a search for `pattern` offers, oldest first.
pub fn candidates(hist: &[String], pattern: &str) -> Vec<usize> {
    (0..hist.len()).filter(|&i| contains(&hist[i], pattern)).collect()
}

pub fn suggestion<'a>(hist: &'a [String], typed: &str) -> Option<&'a String> {
    hist.iter().rev().find(|h| !typed.is_empty() && h.starts_with(typed) && *h != typed)
}

/// What the last redraw in `out` prints, without control sequences.
pub fn last_redraw(out: &[u8]) -> String {
    const MARK: &str = "\x1b[?1000l";
    let s = String::from_utf8_lossy(out);
    let from = s.rfind(MARK).map_or(0, |i| i + MARK.len());
    let mut r = String::new();
    let mut cs = s[from..].chars();
    while let Some(c) = cs.next() {
        if c == '\x1b' {
            // CSI parameters up to the final letter
            if cs.next() == Some('[') {
                for c in cs.by_ref() {
                    if ('@'..='~').contains(&c) {
                        break;
                    }
                }
            }
        } else {
            r.push(c);
        }
    }
    r.trim_start_matches('\r').to_owned()
}

/// A text as a redraw prints it after a prompt `indent` cells wide, on a screen it fits.
pub fn drawn(text: &str, indent: usize) -> String {
    text.replace('\n', &format!("\r\n{}", " ".repeat(indent)))
}
