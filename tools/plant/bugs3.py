BUGS = [
dict(id='c05-tilde-count', property='C05',
 needs='~ after a command with a different count, then .',
 breaks='~ does not record its count, so that . repeats it with the count of an earlier command',
 edits=[('src/keymap/vi.rs', '''                self.last_command.push(key);
                self.last_count = self.count;

                self.set_mode(Tilde, ed)?;''', '''                self.last_command.push(key);

                self.set_mode(Tilde, ed)?;''')],
 demo='''fn main() {
    expect("3x ~ .", vi(&[], "abcdefghij", "<Esc>03x~.").0, "DEfghij".to_string());
}'''),
dict(id='c05-abort-forgets', property='C05',
 needs='a change, then d or c given up by a key that is no motion, then .',
 breaks='an operator that is given up forgets the last change',
 edits=[('src/keymap/vi.rs', '''            // not a delete or change command, back to normal mode
            _ => {
                self.normal_mode_abort(ed)?;''', '''            // not a delete or change command, back to normal mode
            _ => {
                self.last_command.clear();
                self.normal_mode_abort(ed)?;''')],
 demo='''fn main() {
    expect("x d<Esc> .", vi(&[], "abcdef", "<Esc>0xd<Esc>.").0, "cdef".to_string());
}'''),
dict(id='c06-backspace-group', property='C06',
 needs='text in Vi insert mode, a movement, Backspace, more text, Esc, u',
 breaks='Backspace after a movement in insert mode does not begin a new step of undo',
 edits=[('src/keymap/vi.rs', '''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    self.last_command.clear();''', '''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    self.last_command.clear();''')],
 demo='''fn main() {
    expect("undo", vi(&[], "", "abc<Left><BS>x<Esc>u").0, "abc".to_string());
}'''),
dict(id='c07-down-prefix', property='C07',
 needs='a typed prefix that several entries match, up to the oldest, down past the newest match, then up again',
 breaks='after coming back to the draft the next Up starts from the old list of matches',
 edits=[('src/editor.rs', '''                        self.cur_history_loc = None;
                        self.history_subset_loc = None;
                        self.history_subset_index.clear();''', '''                        self.cur_history_loc = None;
                        self.history_subset_index.clear();''')],
 demo='''fn main() {
    expect("up down up", emacs(&["abc", "abd"], "", "ab<Up><Down><Up>").0, "abd".to_string());
}'''),
dict(id='c08-forward-wrap', property='C08',
 needs='Ctrl-S pressed at the newest match of a search',
 breaks='searching forward stops at the newest match instead of wrapping around',
 edits=[('src/editor.rs', '''                    if p < self.history_subset_index.len() - 1 {
                        Some(p + 1)
                    } else {
                        Some(0)
                    }''', '''                    Some(cmp::min(p + 1, self.history_subset_index.len() - 1))''')],
 demo='''fn main() {
    expect("wrap", emacs(&["xa", "xb", "xc"], "", "<C-s>x<C-s><C-s><C-s><Right>").0, "xa".to_string());
}'''),
dict(id='c08-refresh-forward', property='C08',
 needs='a forward search shown on an entry that stops matching when more of the pattern is typed',
 breaks='a forward search goes back to the match before instead of on to the next one',
 edits=[('src/editor.rs', '''                        if forward || target_loc == *history_loc || i == 0 {''', '''                        if target_loc == *history_loc || i == 0 {''')],
 demo='''fn main() {
    expect("forward", emacs(&["xay", "xb", "xaz"], "", "<C-s>x<C-s>a<Right>").0, "xaz".to_string());
}'''),
dict(id='c09-cached', property='C09',
 needs='a draft shortened by Backspace so that a newer entry becomes an extension',
 breaks='a suggestion is kept as long as it extends the draft, even when a newer entry does as well',
 edits=[('src/editor.rs', '''        self.autosuggestion = self.current_autosuggestion();

        self.display_impl(true)''', '''        let kept = match self.autosuggestion {
            Some(ref x) if !self.is_search() && self.cur_history_loc.is_none() => x.starts_with(&self.new_buf),
            _ => false,
        };
        if !kept {
            self.autosuggestion = self.current_autosuggestion();
        }

        self.display_impl(true)''')],
 demo='''fn main() {
    expect("accept", emacs(&["abcd", "abxy"], "", "abc<BS><Right>").0, "abxy".to_string());
}'''),
dict(id='c15-trim-end', property='C15',
 needs='a line that ends in blanks, appended to the file and loaded again',
 breaks='trailing blanks of a line are not written to the history file',
 edits=[('src/history.rs', '''        let item_str = String::from(new_item.clone());''', '''        let item_str = String::from(new_item.clone()).trim_end_matches(' ').to_string();''')],
 demo='''fn main() {
    let dir = std::env::temp_dir().join(format!("c15trim{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("h");
    let mut h = History::new();
    h.set_file_name_and_load_history(&f).unwrap();
    h.inc_append = true;
    h.push(Buffer::from("ls  ")).unwrap();
    let got = std::fs::read_to_string(&f).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    expect("file", got, "ls  \\n".to_string());
}'''),
dict(id='c20-complete-error', property='C20',
 needs='a write error while the word is deleted in a completion with one candidate',
 breaks='an error while deleting the word to be completed is ignored',
 edits=[('src/editor.rs', '''            self.show_completions_hint = None;
            self.delete_word_before_cursor(false)?;
            self.insert_str_after_cursor(completions[0].as_ref())''', '''            self.show_completions_hint = None;
            let _ = self.delete_word_before_cursor(false);
            self.insert_str_after_cursor(completions[0].as_ref())''')],
 demo='''struct One;
impl Completer for One {
    fn completions(&mut self, _: &str) -> Vec<String> {
        vec!["ab".to_string()]
    }
}
fn main() {
    let mut c = Context::with_terminal(T { keys: keys("a<Tab>b<CR>").into(), out: vec![], width: 80, fail_flush_at: None, flushes: 0 });
    let mut p = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    p.insert_str_after_cursor("a").unwrap();
    let n = p.context().terminal.flushes;
    p.context_mut().terminal.fail_flush_at = Some(n + 1);
    expect("the error is reported", p.complete(&mut One).is_err(), true);
}'''),
dict(id='c22-reset-last', property='C22',
 needs='the list of completions with the last candidate highlighted',
 breaks='the colours of the highlighted candidate are not reset when it is the last one',
 edits=[('src/editor.rs', '''            if Some(index) == highlighted {
                write!(
                    output_buf,
                    "{}{}",
                    color::Reset.bg_str(),''', '''            if Some(index) == highlighted && index + 1 < completions.len() {
                write!(
                    output_buf,
                    "{}{}",
                    color::Reset.bg_str(),''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut w = Words(vec!["aa", "ab"]);
    for _ in 0..4 {
        ed.complete(&mut w).unwrap();
    }
    let out = String::from_utf8(ed.context().terminal.out.clone()).unwrap();
    let last = out.rsplit("\\x1b[J").next().unwrap().to_string();
    expect("colours reset", last.matches("\\x1b[49m").count(), 1);
}'''),
dict(id='c22-closure-first', property='C22',
 needs='a highlighter and a text of several lines',
 breaks='only the first line of the text goes through the highlighter',
 edits=[('src/editor.rs', '''                let written_line = match self.closure {
                    Some(ref f) => f(&line),
                    None => line,
                };''', '''                let written_line = match self.closure {
                    Some(ref f) if i == 0 => f(&line),
                    _ => line,
                };''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let f: liner::ColorClosure = Box::new(|s: &str| format!("\\x1b[31m{s}\\x1b[39m"));
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), Some(f), &mut c, "ab\\ncd").unwrap();
    let out = String::from_utf8(ed.context().terminal.out.clone()).unwrap();
    expect("second line coloured", out.contains("\\x1b[31mcd\\x1b[39m"), true);
}'''),
dict(id='c23-revert-cursor', property='C23',
 needs='an edit that leaves the cursor inside of the line, then redo',
 breaks='redo leaves the cursor where it was',
 edits=[('src/editor.rs', '''        let did = cur_buf_mut!(self).redo();
        if did {
            self.move_cursor_to_end_of_line()?;
        } else {
            self.display()?;
        }
        Ok(did)''', '''        let did = cur_buf_mut!(self).redo();
        self.display()?;
        Ok(did)''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    ed.insert_str_after_cursor("abc").unwrap();
    ed.undo().unwrap();
    ed.redo().unwrap();
    expect("cursor", ed.cursor(), 3);
}'''),
dict(id='c23-complete-middle', property='C23',
 needs='delete_until_inclusive called with a position before the cursor',
 breaks='deleting backwards inclusively leaves the character at the cursor',
 edits=[('src/editor.rs', '''            self.cursor = cmp::min(self.cursor, position);
        }
        self.display()
    }

    /// Moves the cursor to the left''', '''            self.cursor = position;
        }
        self.display()
    }

    /// Moves the cursor to the left''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    ed.insert_str_after_cursor("abcdef").unwrap();
    ed.move_cursor_to(2).unwrap();
    ed.delete_until_inclusive(4).unwrap();
    expect("cursor", (ed.current_buffer().to_string(), ed.cursor()), t("abf", 2));
}'''),
dict(id='c24-suggest-width', property='C24',
 needs='a suggestion longer than the terminal is wide, accepted',
 breaks='suggestions that do not fit in one row are not offered',
 edits=[('src/editor.rs', '''        autosuggestion.cloned()
    }''', '''        let width = self.context.terminal().width().unwrap_or(80);
        let is_search = self.is_search();
        autosuggestion.filter(|x| is_search || x.num_chars() < width).cloned()
    }''')],
 demo='''fn main() {
    let long = "a".repeat(100);
    expect("accept", emacs(&[&long], "", "a<Right>").0, long);
}'''),
dict(id='c24-prompt-word', property='C24',
 needs='a prompt of 40 bytes or more and a forward search whose shown entry stops matching',
 breaks='with a long prompt a forward search goes on backwards when the pattern is edited',
 edits=[('src/editor.rs', '''        self.reverse_search = !forward;
        self.forward_search = forward;
        self.cur_history_loc = None;''', '''        self.forward_search = forward && self.prompt.to_string().len() < 40;
        self.reverse_search = !self.forward_search;
        self.cur_history_loc = None;''')],
 demo='''fn main() {
    let go = |p: String| {
        let mut c = ctx(&["xay", "xb", "xaz"]);
        let mut ed = Editor::new(Prompt::from(p), None, &mut c).unwrap();
        let mut m = liner::Emacs::new();
        for k in keys("<C-s>x<C-s>a<Right>") {
            m.handle_key(k, &mut ed, &mut Words(vec![])).unwrap();
        }
        ed.current_buffer().to_string()
    };
    expect("prompt", go("p".repeat(50)), go("$ ".to_string()));
}'''),
]
