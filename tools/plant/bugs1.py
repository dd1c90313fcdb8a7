BUGS = [
dict(id='c01-find-empty', property='C01',
 needs='f or t followed by a character in Vi normal mode on an empty line',
 breaks='the character search takes the tail of the text as a slice starting one past the cursor, which is out of range on an empty line: the key panics',
 edits=[('src/keymap/vi.rs', '''    buf.chars()
        .enumerate()
        .skip(start)
        .filter(|&(_, &c)| c == ch)
        .nth(count - 1)
        .map(|(i, _)| i)
}

fn find_char_rev''', '''    buf.range_chars(start, buf.num_chars())
        .into_iter()
        .enumerate()
        .filter(|&(_, c)| c == ch)
        .nth(count - 1)
        .map(|(i, _)| start + i)
}

fn find_char_rev''')],
 demo='''fn main() {
    expect("f on a line", vi(&[], "abcabc", "<Esc>0fc"), t("abcabc", 2));
    expect("f on an empty line", vi(&[], "", "<Esc>fx"), t("", 0));
}'''),
dict(id='c01-replace-count', property='C01',
 needs='Alt-b or Alt-f with the cursor on the right edge of a word when the word divider returns no word there but an earlier call saw one: here simply Alt-f at the right edge of the last word',
 breaks='emacs word movement to the right from the right edge of the last word indexes a word that does not exist and panics',
 edits=[('src/keymap/emacs.rs', 'if i < words.len() - 1 && direction == EmacsMoveDir::Right {', 'if direction == EmacsMoveDir::Right && i < words.len() {')],
 demo='''fn main() {
    expect("alt-f", emacs(&[], "ab cd ", "<Home><M-f>"), t("ab cd ", 2));
    expect("alt-f at the end of the last word", emacs(&[], "ab cd ", "<Left><M-f>"), t("ab cd ", 5));
}'''),
dict(id='c02-ctrl-w-inside', property='C02',
 needs='Ctrl-W (or Alt-Backspace) with the cursor inside a word',
 breaks='deletes the whole word around the cursor rather than the part before the cursor',
 edits=[('src/editor.rs', '''        if let Some((start, _)) = self.get_word_before_cursor(ignore_space_before_cursor) {
            let moved = cur_buf_mut!(self).remove(start, self.cursor);
            self.cursor -= moved;''', '''        if let Some((start, end)) = self.get_word_before_cursor(ignore_space_before_cursor) {
            let end = cmp::max(end, self.cursor);
            cur_buf_mut!(self).remove(start, end);
            self.cursor = start;''')],
 demo='''fn main() {
    expect("ctrl-w at the end", emacs(&[], "one two", "<C-w>"), t("one ", 4));
    expect("ctrl-w inside", emacs(&[], "one two", "<Left><C-w>"), t("one o", 4));
}'''),
dict(id='c02-last-arg', property='C02',
 needs='Alt-. with a newest history entry that ends in a space',
 breaks='the last argument of an entry with trailing blanks is taken to be empty',
 edits=[('src/buffer.rs', '''            .split(|&c| c == ' ')
            .filter(|s| !s.is_empty())
            .last()''', '''            .rsplit(|&c| c == ' ')
            .next()
            .filter(|s| !s.is_empty())''')],
 demo='''fn main() {
    expect("alt-.", emacs(&["cp a b"], "", "<M-.>"), t("b", 1));
    expect("alt-. after a trailing space", emacs(&["cp a b "], "", "<M-.>"), t("b", 1));
}'''),
dict(id='c03-word-end-other', property='C03',
 needs='e (or b) over a run of punctuation that is directly followed (preceded) by a word',
 breaks='a run of punctuation is not ended by a keyword character, so the motion runs on to the next blank',
 edits=[('src/keymap/vi.rs', "State::EndOnOther if c.is_whitespace() || is_vi_keyword(c) => {", "State::EndOnOther if c.is_whitespace() => {")],
 demo='''fn main() {
    expect("e", vi(&[], "ab --cd ef", "<Esc>0ee"), t("ab --cd ef", 4));
}'''),
dict(id='c03-comma-until', property='C03',
 needs='a T motion repeated with , (or a t motion)',
 breaks=', after T moves onto the target instead of before it',
 edits=[('src/keymap/vi.rs', "(_, ReverseRepeat, Some((c, LeftUntil))) => (Key::Char(c), RightUntil),", "(_, ReverseRepeat, Some((c, LeftUntil))) => (Key::Char(c), RightAt),")],
 demo='''fn main() {
    expect("T then ,", vi(&[], "a.b.c.d", "<Esc>03lTa,"), t("a.b.c.d", 1));
    expect("T. then ,", vi(&[], "a.bb.cc.d", "<Esc>06lT.,"), t("a.bb.cc.d", 6));
}'''),
dict(id='c04-count-product', property='C04',
 needs='an operator with a count before it and before its motion, other than 2 and 2',
 breaks='the two counts are added instead of multiplied',
 edits=[('src/keymap/vi.rs', "self.secondary_count.saturating_mul(self.count)", "self.secondary_count.saturating_add(self.count)")],
 demo='''fn main() {
    expect("3d2l", vi(&[], "abcdefghij", "<Esc>03d2l"), t("ghij", 0));
}'''),
dict(id='c04-tilde-multi', property='C04',
 needs='~ on a character whose upper case has several characters',
 breaks='only the first character of the upper case is inserted',
 edits=[('src/keymap/vi.rs', "for c in c.to_uppercase() {", "if let Some(c) = c.to_uppercase().next() {")],
 demo='''fn main() {
    expect("~", vi(&[], "abc", "<Esc>0~"), t("Abc", 1));
    expect("~ on a sharp s", vi(&[], "a\\u{df}c", "<Esc>0l~").0, "aSSc".to_string());
}'''),
dict(id='c05-moved-insert-count', property='C05',
 needs='an insertion with a count in which the cursor is moved before more text is typed, then .',
 breaks='the text typed after the movement is repeated with the count of the earlier change',
 edits=[('src/keymap/vi.rs', '''                    self.last_insert = Some(Key::Char('i'));
                    self.last_count = 0;
                }
                self.last_command.push(key);
                ed.insert_after_cursor(c)''', '''                    self.last_insert = Some(Key::Char('i'));
                }
                self.last_command.push(key);
                ed.insert_after_cursor(c)''')],
 demo='''fn main() {
    expect("3s, then .", vi(&[], "abcdef", "<Esc>03sx<Left>y<Esc>").0, "yxdef".to_string());
    expect("3s, move, type, then .", vi(&[], "abcdef", "<Esc>03sx<Left>y<Esc>$.").0, "yxdeyf".to_string());
}'''),
dict(id='c06-redo-kept', property='C06',
 needs='an undo, then a deletion, then redo',
 breaks='only insertions discard what could be redone, so that redo after a deletion replays stale edits',
 edits=[('src/buffer.rs', '''        self.actions.push(act);
        self.undone_actions.clear();''', '''        if let Action::Insert { .. } = act {
            self.undone_actions.clear();
        }
        self.actions.push(act);''')],
 demo='''fn main() {
    let mut b = Buffer::from("");
    b.insert(0, &['a', 'b', 'c']);
    b.insert(3, &['d']);
    b.undo();
    expect("undo", b.to_string(), "abc".to_string());
    b.remove(1, 2);
    b.redo();
    expect("redo after a new edit", b.to_string(), "ac".to_string());
}'''),
dict(id='c06-group-up', property='C06',
 needs='text typed in Vi insert mode on the draft, Down or Up in insert mode, more text, Esc, u',
 breaks='Down in insert mode does not end the undo group, so that one u takes back the text typed before it as well',
 edits=[('src/keymap/vi.rs', '''                self.movement_reset = true;
                ed.current_buffer_mut().end_undo_group();
                ed.move_down()?;
                ed.current_buffer_mut().start_undo_group();''', '''                self.movement_reset = true;
                ed.move_down()?;''')],
 demo='''fn main() {
    expect("up, edit, down, edit, undo", vi(&["old"], "", "ab<Up>x<Down>c<Esc>u").0, "ab".to_string());
}'''),
dict(id='c07-subset-order', property='C07',
 needs='Up with text typed and a history with entries that contain it in the middle as well as entries that start with it',
 breaks='entries that merely contain the text come before those that start with it',
 edits=[('src/history.rs', '''        ret.append(&mut v);
        ret
    }''', '''        v.append(&mut ret);
        v
    }''')],
 demo='''fn main() {
    expect("up", emacs(&["ls a", "xls"], "", "ls<Up>").0, "ls a".to_string());
}'''),
dict(id='c08-refresh-stay', property='C08',
 needs='a reverse search moved to an older candidate, then one more pattern character that this candidate contains as well as a newer one',
 breaks='editing the pattern does not stay on the shown entry but moves on to an older one',
 edits=[('src/editor.rs', '''                    if target_loc <= *history_loc {
                        if forward || target_loc == *history_loc || i == 0 {''', '''                    if target_loc <= *history_loc {
                        if forward || i == 0 {''')],
 demo='''fn main() {
    expect("search", emacs(&["ab 1", "ab 2", "ab 3"], "", "<C-r>a<C-r>b<Right>").0, "ab 2".to_string());
}'''),
dict(id='c09-right-inside', property='C09',
 needs='a suggestion on display, the cursor moved into the line, then Right',
 breaks='Right inside of the line accepts the suggestion instead of moving the cursor',
 edits=[('src/keymap/mod.rs', '''                if editor.is_currently_showing_autosuggestion()
                    && editor.cursor_is_at_end_of_line() =>''', '''                if editor.is_currently_showing_autosuggestion() =>''')],
 demo='''fn main() {
    expect("accept", emacs(&["hello world"], "", "hel<Right>").0, "hello world".to_string());
    expect("right inside", emacs(&["hello world"], "", "hel<Left><Left><Right>"), t("hel", 2));
}'''),
dict(id='c10-prompt-csi', property='C10',
 needs='a prompt with a control sequence other than a colour, such as an erase, that does not end in m',
 breaks='the width of the prompt is miscounted, so that the cursor is put in the wrong column',
 edits=[('src/util.rs', "AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,", "AnsiState::Csi if c == 'm' => s = AnsiState::Norm,")],
 demo='''fn main() {
    // Left must move the terminal cursor left by exactly one cell
    let mut c = ctx(&[]);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("\\u{1b}[0K$ "), None, &mut c, "ab").unwrap();
    ed.context_mut().terminal_mut().out.clear();
    let mut m = liner::Emacs::default();
    // with the text two cells short of the end of the row of a terminal of width 6, nothing wraps
    ed.context_mut().terminal_mut().width = 6;
    m.handle_key(Key::Left, &mut ed, &mut Words(vec![])).unwrap();
    let out = String::from_utf8(ed.context().terminal().out.clone()).unwrap();
    expect("the picture has no rows above", out.contains("A"), false);
    expect("one to the left", out.ends_with("\\u{1b}[1D"), true);
}'''),
dict(id='c10-enter-cursor', property='C10',
 needs='Enter with the cursor on an upper row of a text that takes several rows',
 breaks='the cursor is left in the middle of the text instead of below it',
 edits=[('src/editor.rs', '''            self.cursor = cur_buf!(self).num_chars();
            // also''', '''            // also''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    c.terminal.width = 10;
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, "abcdefghijklmn").unwrap();
    let mut m = liner::Emacs::default();
    m.handle_key(Key::Home, &mut ed, &mut Words(vec![])).unwrap();
    ed.context_mut().terminal_mut().out.clear();
    m.handle_key(Key::Char('\\n'), &mut ed, &mut Words(vec![])).unwrap();
    let out = String::from_utf8(ed.context().terminal().out.clone()).unwrap();
    expect("enter goes to the row below the text", out.ends_with("klmn\\r\\n"), true);
}'''),
dict(id='c11-dedup', property='C11',
 needs='a completer that offers the same single candidate twice (or a shared prefix with repetitions)',
 breaks='repeated candidates count as several, so that a single distinct candidate is listed instead of inserted',
 edits=[('src/editor.rs', '''            completions.sort();
            completions.dedup();''', '''            completions.dedup();
            completions.sort();''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut m = liner::Emacs::default();
    let mut w = Words(vec!["ba", "ab", "ba"]);
    for _ in 0..3 {
        m.handle_key(Key::Char('\\t'), &mut ed, &mut w).unwrap();
    }
    expect("second candidate", ed.current_buffer().to_string(), "ba".to_string());
    m.handle_key(Key::Char('\\t'), &mut ed, &mut w).unwrap();
    expect("cyclic", ed.current_buffer().to_string(), "ab".to_string());
}'''),
dict(id='c11-prefix-bytes', property='C11',
 needs='several candidates whose common prefix is longer than the word but does not begin with it',
 breaks='the common prefix replaces a word that it does not extend',
 edits=[('src/editor.rs', "if s.len() > word.len() && s.starts_with(&word[..]) {", "if s.len() > word.len() {")],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut m = liner::Emacs::default();
    let mut w = Words(vec!["foobar", "foobaz"]);
    for k in keys("ba<Tab>") {
        m.handle_key(k, &mut ed, &mut w).unwrap();
    }
    expect("listed only", ed.current_buffer().to_string(), "ba".to_string());
}'''),
dict(id='c13-max-if', property='C13',
 needs='the in-memory maximum is lowered by two or more after lines were pushed',
 breaks='only one of the lines in excess is dropped per push',
 edits=[('src/history.rs', "while self.buffers.len() > self.max_buffers_size {", "if self.buffers.len() > self.max_buffers_size {")],
 demo='''fn main() {
    let mut h = History::new();
    for s in ["a", "b", "c", "d"] {
        h.push(Buffer::from(s)).unwrap();
    }
    h.set_max_buffers_size(2);
    h.push(Buffer::from("e")).unwrap();
    expect("bounded", h.len(), 2);
}'''),
dict(id='c14-comment-blank', property='C14',
 needs='a saved line that starts with blanks followed by #',
 breaks='such lines are taken to be comments and lost on load',
 edits=[('src/history.rs', '''                        if !line.starts_with('#') {
                            self.buffers''', '''                        if !line.trim_start().starts_with('#') {
                            self.buffers''')],
 demo='''fn main() {
    let mut h = History::new();
    for s in ["a", "  # b", "c"] {
        h.push(Buffer::from(s)).unwrap();
    }
    h.commit_to_file_path("f").unwrap();
    let mut g = History::new();
    g.load_history_file("f", false).unwrap();
    expect("loaded", g.len(), 3);
}'''),
dict(id='c14-reload-shorter', property='C14',
 needs='the history file becomes shorter between two loads of one instance',
 breaks='a file that became shorter is not reloaded',
 edits=[('src/history.rs', "if new_length != length {", "if new_length > length {")],
 demo='''fn main() {
    std::fs::write("f", "aa\\nbb\\n").unwrap();
    let mut h = History::new();
    h.set_file_name_and_load_history("f").unwrap();
    std::fs::write("f", "cc\\n").unwrap();
    h.load_history(false).unwrap();
    expect("reloaded", h.buffers.iter().map(|b| b.to_string()).collect::<Vec<_>>(), vec!["cc".to_string()]);
}'''),
dict(id='c15-dedup-first', property='C15',
 needs='inc_append without duplicates, 30 pushes with a line pushed twice with others in between',
 breaks='compaction keeps the first occurrence of a repeated line instead of the last',
 edits=[('src/history.rs', '''        while let Some(line) = buf.pop_back() {
            buf.retain(|buffer| *buffer != line);
            tmp_buffers.push(line);
        }
        while let Some(line) = tmp_buffers.pop() {
            buf.push_back(line);
        }''', '''        while let Some(line) = buf.pop_front() {
            buf.retain(|buffer| *buffer != line);
            tmp_buffers.push(line);
        }
        buf.extend(tmp_buffers);''')],
 demo='''fn main() {
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_file_name_and_load_history("f").unwrap();
    h.push(Buffer::from("again")).unwrap();
    for i in 0..28 {
        h.push(Buffer::from(format!("l{i}"))).unwrap();
    }
    h.push(Buffer::from("again")).unwrap();
    let f = std::fs::read_to_string("f").unwrap();
    expect("last line", f.lines().last(), Some("again"));
}'''),
dict(id='c15-no-refresh', property='C15',
 needs='a shared history, Up then Down back to the draft in one session, another instance appending a line, Up again',
 breaks='coming back to the draft does not make the next navigation look at the file again',
 edits=[('src/editor.rs', '''                    _ => self.history_fresh = false,''', '''                    _ => (),''')],
 demo='''fn main() {
    std::fs::write("f", "one\\n").unwrap();
    let mut c = ctx(&[]);
    c.history.share = true;
    c.history.inc_append = true;
    c.history.set_file_name_and_load_history("f").unwrap();
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut m = liner::Emacs::default();
    for k in keys("<Up><Down>") {
        m.handle_key(k, &mut ed, &mut Words(vec![])).unwrap();
    }
    let mut other = History::new();
    other.inc_append = true;
    other.set_file_name_and_load_history("f").unwrap();
    other.push(Buffer::from("two")).unwrap();
    m.handle_key(Key::Up, &mut ed, &mut Words(vec![])).unwrap();
    expect("sees the other line", ed.current_buffer().to_string(), "two".to_string());
}'''),
dict(id='c16-event-key', property='C16',
 needs='Ctrl-H and a completer that looks at the before-key event',
 breaks='the before-key event reports Backspace instead of the key received',
 edits=[('src/keymap/mod.rs', '''        handler.on_event(Event::new(editor, EventKind::BeforeKey(key)));

        let is_empty = editor.current_buffer().is_empty();

        if key == Key::Ctrl('h') {
            // XXX: Might need to change this when remappable keybindings are added.
            key = Key::Backspace;
        }
''', '''        if key == Key::Ctrl('h') {
            // XXX: Might need to change this when remappable keybindings are added.
            key = Key::Backspace;
        }

        handler.on_event(Event::new(editor, EventKind::BeforeKey(key)));

        let is_empty = editor.current_buffer().is_empty();
''')],
 demo='''struct Log(Vec<Key>);
impl Completer for Log {
    fn completions(&mut self, _: &str) -> Vec<String> {
        vec![]
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        if let EventKind::BeforeKey(k) = e.kind {
            self.0.push(k);
        }
    }
}
fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, "ab").unwrap();
    let mut m = liner::Emacs::default();
    let mut l = Log(vec![]);
    for k in keys("<C-h><C-a>") {
        m.handle_key(k, &mut ed, &mut l).unwrap();
    }
    expect("keys", l.0, keys("<C-h><C-a>"));
}'''),
dict(id='c16-eof-done', property='C16',
 needs='Enter right after a completion list was closed, with a completer counting events',
 breaks='the after-key event is not reported for the key that ends the line',
 edits=[('src/keymap/mod.rs', '''        handler.on_event(Event::new(editor, EventKind::AfterKey(key)));
''', '''        if !done {
            handler.on_event(Event::new(editor, EventKind::AfterKey(key)));
        }
''')],
 demo='''struct Log(usize);
impl Completer for Log {
    fn completions(&mut self, _: &str) -> Vec<String> {
        vec![]
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        if let EventKind::AfterKey(_) = e.kind {
            self.0 += 1;
        }
    }
}
fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, "ab").unwrap();
    let mut m = liner::Emacs::default();
    let mut l = Log(0);
    for k in keys("a<CR>") {
        m.handle_key(k, &mut ed, &mut l).unwrap();
    }
    expect("events", l.0, 2);
}'''),
dict(id='c17-backslash-sticky', property='C17',
 needs='a text with a backslash before a character other than a space, and a later space in the same word',
 breaks='a backslash keeps escaping until the next space, so that words are joined',
 edits=[('src/context.rs', '''        if let Some(start) = word_start {
            if c == ' ' && !just_had_backslash {
                res.push((start, i));
                word_start = None;
            }
        } else if c != ' ' {
            word_start = Some(i);
        }

        just_had_backslash = false;''', '''        if let Some(start) = word_start {
            if c == ' ' {
                if !just_had_backslash {
                    res.push((start, i));
                    word_start = None;
                }
                just_had_backslash = false;
            }
        } else if c != ' ' {
            word_start = Some(i);
            just_had_backslash = false;
        }''')],
 demo='''fn main() {
    expect("words", liner::get_buffer_words(&Buffer::from("a\\\\b c")), vec![(0, 3), (4, 5)]);
}'''),
dict(id='c17-space-left', property='C17',
 needs='a cursor in the blanks between two words that are not the first two',
 breaks='the word to the left of the cursor is always reported to be the first one',
 edits=[('src/editor.rs', "return InSpace(Some(i - 1), Some(i));", "return InSpace(Some(0), Some(i));")],
 demo='''fn main() {
    let w = vec![(0, 1), (4, 5), (8, 9)];
    expect("position", liner::CursorPosition::get(6, w), liner::CursorPosition::InSpace(Some(1), Some(2)));
}'''),
dict(id='c18-width-lines', property='C18',
 needs='the widths of a text that ends in a newline or contains a carriage return before a newline',
 breaks='the empty last line is not counted',
 edits=[('src/buffer.rs', '''            .split('\\n')
            .map(|s| s.width())''', '''            .lines()
            .map(|s| s.width())''')],
 demo='''fn main() {
    expect("widths", Buffer::from("ab\\nc").width(), vec![2, 1]);
    expect("widths of a text that ends in a newline", Buffer::from("ab\\n").width(), vec![2, 0]);
}'''),
dict(id='c18-print-rest', property='C18',
 needs='print_rest of a text with characters of several bytes',
 breaks='counts bytes instead of characters to skip',
 edits=[('src/buffer.rs', '''        let string: String = self.data.iter().skip(after).cloned().collect();
        out.write_all(string.as_bytes())?;

        Ok(string.len())''', '''        let bytes = self.as_bytes();
        let rest = &bytes[after.min(bytes.len())..];
        out.write_all(rest)?;

        Ok(rest.len())''')],
 demo='''fn main() {
    let mut o = vec![];
    Buffer::from("\\u{e9}\\u{e9}ab").print_rest(&mut o, 2).unwrap();
    expect("rest", o, b"ab".to_vec());
}'''),
dict(id='c20-flush-ignored', property='C20',
 needs='a terminal whose flush at the end of a key fails',
 breaks='the error of the flush after a key is dropped, and more keys are read',
 edits=[('src/keymap/mod.rs', "        editor.flush()?;\n", "        let _ = editor.flush();\n")],
 demo='''fn main() {
    for n in 1..20 {
        let mut c = ctx(&[]);
        c.terminal.keys = keys("abc<CR>").into();
        c.terminal.fail_flush_at = Some(n);
        let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut Words(vec![]), None, Buffer::new());
        if c.terminal.flushes >= n && r.is_ok() {
            println!("flush {n} failed and the read went on");
            std::process::exit(1);
        }
    }
}'''),
dict(id='c20-width-fallback', property='C20',
 needs='a width query that fails in the middle of a session',
 breaks='the failure is replaced by 80 columns',
 edits=[('src/editor.rs', '''                        1
''', '''''')],
 demo=''''''),
dict(id='c21-undo-stored', property='C21',
 needs='a history entry whose buffer still has its undo log (it was pushed as edited), undo on it as the first edit after visiting it',
 breaks='the undo is carried out on the stored entry',
 edits=[('src/editor.rs', '''        let did = cur_buf_mut!(self).undo();
''', '''        // an entry that was not edited need not be copied
        let did = match self.cur_history_loc {
            Some(i) if !self.hist_buf_valid => self.context.history_mut()[i].undo(),
            _ => cur_buf_mut!(self).undo(),
        };
''')],
 demo='''fn main() {
    let mut c = ctx(&["one"]);
    let mut b = Buffer::new();
    b.insert(0, &['t', 'w', 'o']);
    b.insert(3, &['!']);
    c.history.push(b).unwrap();
    drive::<liner::Emacs>(&mut c, "", "<Up><C-x>");
    expect("stored", c.history[1].to_string(), "two!".to_string());
}'''),
]
BUGS = [b for b in BUGS if b['demo']]
