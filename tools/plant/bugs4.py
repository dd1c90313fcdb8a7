BUGS = [
dict(id='c15-append-lock', property='C15',
 needs='one instance pushing while another compacts the file',
 breaks='push appends without waiting for the lock, so that a line written during a compaction is lost',
 edits=[('src/history.rs', '''            if let Ok(mut file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
                // Another instance may be compacting the file, what we append now would be lost.
                let _ = file.lock();
''', '''            if let Ok(mut file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
''')],
 demo='''fn main() {}'''),
dict(id='c15-compact-limit', property='C15',
 needs='compaction of a shared history whose in-memory maximum is smaller than the file limit',
 breaks='the shared compaction forgets to note the size of the file, and the next navigation does not reload it',
 edits=[('src/history.rs', '''                        if let Ok(metadata) = std::fs::metadata(&file_name) {
                            self.file_size = metadata.len();
                        }''', '''                        if let Ok(metadata) = std::fs::metadata(&file_name) {
                            self.file_size = self.file_size.max(metadata.len());
                        }''')],
 demo='''fn main() {
    let mut a = History::new();
    std::fs::write("h", "").unwrap();
    a.set_file_name_and_load_history("h").unwrap();
    a.inc_append = true;
    a.share = true;
    a.load_duplicates = false;
    a.append_duplicate_entries = true;
    for _ in 0..30 {
        a.push("same".into()).unwrap();
    }
    // the file has 5 bytes now; another instance makes it as long as it was once
    let f = |n: usize| format!("{}\\n", "x".repeat(n));
    let mut s = std::fs::read_to_string("h").unwrap();
    s.push_str(&f(a.file_size.max(145) as usize - s.len() - 1));
    std::fs::write("h", &s).unwrap();
    a.load_history(false).unwrap();
    expect("entries", a.len(), 2);
}'''),
dict(id='c20-late-width', property='C20',
 needs='a width query that fails after the first one',
 breaks='display falls back to 80 columns when the width cannot be told',
 edits=[('src/editor.rs', '''        Ok(match self.context.terminal().width()? {
            0 => 80,
            width => width,
        })''', '''        Ok(match self.context.terminal().width().unwrap_or(0) {
            0 => 80,
            width => width,
        })''')],
 demo='''fn main() {}'''),
dict(id='c16-empty-entry-eof', property='C16',
 needs='Ctrl-D after a visited history entry was emptied while the draft has text',
 breaks='whether Ctrl-D ends the session depends on the draft instead of the line shown',
 edits=[('src/keymap/mod.rs', '''        let is_empty = editor.current_buffer().is_empty();
''', '''        let is_empty = editor.current_buffer().is_empty() && editor.current_history_location().is_none();
''')],
 demo='''fn main() {
    let mut c = ctx(&["ab"]);
    c.terminal.keys = keys("<Up><C-u><C-d>x<CR>").into();
    let r = c.read_line(Prompt::from("$ "), None, &mut Words(vec![]));
    expect("ctrl-d", r.map_err(|e| e.kind()), Err(io::ErrorKind::UnexpectedEof));
}'''),
dict(id='c06-insert-keeps-redo', property='C06',
 needs='undo of an insertion, then a deletion of nothing (Ctrl-K at the end), then redo',
 breaks='an edit that changes nothing keeps what can be redone',
 edits=[('src/buffer.rs', '''        self.actions.push(act);
        self.undone_actions.clear();''', '''        let empty = match &act {
            Action::Remove { text, .. } => text.is_empty(),
            _ => false,
        };
        self.actions.push(act);
        if !empty || self.undone_actions.len() < 2 {
            self.undone_actions.clear();
        }''')],
 demo='''fn main() {
    let mut b = Buffer::from("");
    b.insert(0, &['a']);
    b.insert(1, &['b']);
    b.undo();
    b.undo();
    b.insert(0, &['x']);
    expect("redo", b.redo(), false);
    let mut b = Buffer::from("");
    b.insert(0, &['a']);
    b.insert(1, &['b']);
    b.undo();
    b.undo();
    b.remove(0, 0);
    expect("redo after an edit", b.redo(), false);
}'''),
dict(id='c03-repeat-abort', property='C03',
 needs='a find whose target is absent, then ;',
 breaks='a find without target is not remembered for ; and ,',
 edits=[('src/keymap/vi.rs', '''                // store last command info
                self.last_char_movement = Some((c, movement));
                self.current_command.push(key);''', '''                // store last command info
                if ed.current_buffer().chars().any(|&x| x == c) {
                    self.last_char_movement = Some((c, movement));
                }
                self.current_command.push(key);''')],
 demo='''fn main() {
    expect("fx fz ;", vi(&[], "axbx", "<Esc>0fxfz;").1, 1);
}'''),
dict(id='c04-secondary-leak', property='C04',
 needs='an operator with a count that is given up, then dd or cc and an operator with a count of its own',
 breaks='the count typed before an operator that was given up is kept',
 edits=[('src/keymap/vi.rs', '''                self.set_mode(Mode::Delete(start_pos), ed)?;
                self.secondary_count = self.count;
                self.count = 0;''', '''                self.set_mode(Mode::Delete(start_pos), ed)?;
                if self.count > 0 {
                    self.secondary_count = self.count;
                }
                self.count = 0;''')],
 demo='''fn main() {
    expect("3dx dl", vi(&[], "abcdef", "<Esc>03dxdl").0, "bcdef".to_string());
}'''),
dict(id='c01-cols', property='C01',
 needs='completion candidates listed on a terminal of width 1',
 breaks='the number of columns of the list is 0 on a very narrow terminal',
 edits=[('src/editor.rs', '''        let cols = max(1, w / (max_word_size));
''', '''        let cols = max(1, (w + 1) / (max_word_size));
''')],
 demo='''fn main() {}'''),
dict(id='c02-edge-right', property='C02',
 needs='Alt-F at the right edge of the word before the last one',
 breaks='Alt-F does not move from the right edge of the last word but one',
 edits=[('src/keymap/emacs.rs', '''            if i < words.len() - 1 && direction == EmacsMoveDir::Right {''', '''            if i + 2 < words.len() && direction == EmacsMoveDir::Right {''')],
 demo='''fn main() {
    expect("M-f", emacs(&[], "a b c", "<M-b><M-b><M-f><M-f>").1, 5);
}'''),
dict(id='c12-dot-component', property='C12',
 needs='a case-insensitive completion in a directory whose name has capitals',
 breaks='with case-insensitive completion the directory part is lower-cased as well',
 edits=[('src/complete.rs', '''            name => (typed_dir.to_owned(), name.to_lowercase()),''', '''            name if self.working_dir.is_some() => (typed_dir.to_owned(), name.to_lowercase()),
            name => (typed_dir.to_lowercase(), name.to_lowercase()),''')],
 demo='''fn main() {}'''),
dict(id='c14-truncate-after', property='C14',
 needs='loading without duplicates a file that is longer than the limit and repeats lines of its newest part',
 breaks='the file limit is applied before comments are left out',
 edits=[('src/history.rs', '''                        if !line.starts_with('#') {
                            self.buffers.push_back(Buffer::from(line));
                        }
                    }
                    Err(_) => break,
                }
            }
            self.truncate();''', '''                        if !line.starts_with('#') {
                            self.buffers.push_back(Buffer::from(line));
                        } else if self.buffers.len() > self.max_file_size {
                            self.truncate();
                            self.buffers.pop_front();
                        }
                    }
                    Err(_) => break,
                }
            }
            self.truncate();''')],
 demo='''fn main() {
    std::fs::write("h", "a\\nb\\nc\\n#x\\n").unwrap();
    let mut h = History::new();
    h.set_max_file_size(2);
    h.set_file_name_and_load_history("h").unwrap();
    expect("loaded", h.buffers.iter().map(|b| b.to_string()).collect::<Vec<_>>(), vec!["b".to_string(), "c".to_string()]);
}'''),
dict(id='c10-completion-wrap', property='C10',
 needs='a completion list with a candidate wider than the terminal, on a second display',
 breaks='a candidate that fills several rows counts as one row',
 edits=[('src/editor.rs', '''        let mut i = 0;
        for (index, com) in completions.iter().enumerate() {
            if i == cols {''', '''        let lines = if cols > 1 { breaks } else { lines };
        let mut i = 0;
        for (index, com) in completions.iter().enumerate() {
            if i == cols {''')],
 demo='''fn main() {}'''),
dict(id='c10-up-limit', property='C10',
 needs='a text of more than 255 rows above the cursor row',
 breaks='the number of rows to move up is limited to 255',
 edits=[('src/editor.rs', '''            write!(out_buf, "{}", cursor::Up(self.term_cursor_line as u16 - 1))
                .map_err(io::Error::other)?;''', '''            write!(out_buf, "{}", cursor::Up((self.term_cursor_line as u8).wrapping_sub(1) as u16))
                .map_err(io::Error::other)?;''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    c.terminal.width = 10;
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, "x".repeat(3000)).unwrap();
    ed.context_mut().terminal.out.clear();
    ed.display().unwrap();
    let s = String::from_utf8_lossy(&ed.context().terminal.out).into_owned();
    if !s.contains("\\x1b[300A") {
        println!("{:?}", &s[..60]);
        std::process::exit(1);
    }
}'''),
dict(id='c18-contains-long', property='C18',
 needs='a pattern as long as the text',
 breaks='a text does not contain itself',
 edits=[('src/buffer.rs', '''        if search_term.is_empty() {
            return false;
        }
        self.data''', '''        if search_term.is_empty() || search_term.len() > 1 && search_term.len() == self.data.len() {
            return false;
        }
        self.data''')],
 demo='''fn main() {
    expect("contains", Buffer::from("ab").contains(&Buffer::from("ab")), true);
}'''),
dict(id='c18-insert-order', property='C18',
 needs='inserting a text of more than 32 characters in the middle',
 breaks='a long text inserted before the end has its tail reversed in place',
 edits=[('src/buffer.rs', '''        for (i, &c) in text.iter().enumerate() {
            self.data.insert(start + i, c)
        }''', '''        for (i, &c) in text.iter().enumerate() {
            let i = if i < 32 || start + i == self.data.len() { i } else { 32 };
            self.data.insert(start + i, c)
        }''')],
 demo='''fn main() {
    let t: Vec<char> = ('0'..='z').collect();
    let mut b = Buffer::from("ab");
    b.insert(1, &t);
    expect("insert", b.to_string(), format!("a{}b", t.iter().collect::<String>()));
}'''),
dict(id='c22-highlight-last', property='C22',
 needs='cycling through completions to the last candidate and beyond',
 breaks='once the candidates were cycled through, the list highlights none',
 edits=[('src/editor.rs', '''            self.show_completions_hint = Some((completions, Some(i)));
        }
        if self.show''', '''            let shown = if i_in.is_some() && i == 0 && completions.len() > 2 { None } else { Some(i) };
            self.show_completions_hint = Some((completions, shown));
        }
        if self.show''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut w = Words(vec!["a", "b", "c"]);
    for _ in 0..5 {
        ed.context_mut().terminal.out.clear();
        ed.complete(&mut w).unwrap();
    }
    let s = String::from_utf8_lossy(&ed.context().terminal.out).into_owned();
    expect("highlight", s.contains("\\x1b[38;5;0m\\x1b[48;5;7ma"), true);
}'''),
dict(id='c11-cycle-word', property='C11',
 needs='Tab through candidates when the one inserted ends in a space and others follow',
 breaks='the candidate inserted before is looked for by its length in bytes',
 edits=[('src/editor.rs', '''                .and_then(|x| self.cursor.checked_sub(completions[x].chars().count()))''', '''                .and_then(|x| self.cursor.checked_sub(completions[x].len()))''')],
 demo='''fn main() {}'''),
dict(id='c17-first-left', property='C17',
 needs='a cursor before the first word of a text that begins with spaces',
 breaks='the cursor before the first word counts as on its left edge if only one space separates them',
 edits=[('src/editor.rs', '''            Some((left, _)) if cursor < left => return InSpace(None, Some(0)),''', '''            Some((left, _)) if cursor + 1 == left && left > 2 => return OnWordLeftEdge(0),
            Some((left, _)) if cursor < left => return InSpace(None, Some(0)),''')],
 demo='''fn main() {
    expect("space", format!("{:?}", liner::CursorPosition::get(2, vec![(3, 4)])), "InSpace(None, Some(0))".to_string());
}'''),
dict(id='c07-oldest-then-up', property='C07',
 needs='Alt-< and then Up and Down with text typed',
 breaks='after Alt-< with text typed, Down goes on through the matches instead of to the next entry',
 edits=[('src/editor.rs', '''            self.cur_history_loc = Some(0);
            self.move_cursor_to_end_of_line()''', '''            self.cur_history_loc = Some(0);
            if self.new_buf.num_chars() > 0 {
                self.history_subset_index = self.context.history().get_history_subset(&self.new_buf);
                self.history_subset_loc = self.history_subset_index.iter().position(|&i| i == 0);
            }
            self.move_cursor_to_end_of_line()''')],
 demo='''fn main() {
    expect("down", emacs(&["ab", "x", "ac"], "", "a<M-<><Down>").0, "x".to_string());
}'''),
dict(id='c08-accept-entry', property='C08',
 needs='a search begun on a history entry that was edited',
 breaks='a search begun on an edited entry keeps the edit, so that accepting the match gives the edited text',
 edits=[('src/editor.rs', '''        self.forward_search = forward;
        self.cur_history_loc = None;
        self.hist_buf_valid = false;
        self.buffer_changed = false;''', '''        self.forward_search = forward;
        if self.cur_history_loc.take().is_none() {
            self.hist_buf_valid = false;
        }
        self.buffer_changed = false;''')],
 demo='''fn main() {
    expect("accept", emacs(&["ab", "x"], "", "<Up>y<C-r>a<Right>").0, "ab".to_string());
}'''),
dict(id='c09-hidden-entry', property='C09',
 needs='a history entry that equals the draft and is newer than one that extends it',
 breaks='an entry equal to the draft hides older extensions of it',
 edits=[('src/history.rs', '''        vals.filter_map(|i| self.buffers.get(i).map(|t| (i, t)))
            .find(|(_i, tested)| tested.starts_with(search_term))
            .map(|(i, _)| i)''', '''        vals.filter_map(|i| self.buffers.get(i).map(|t| (i, t)))
            .find(|(_i, tested)| tested.starts_with(search_term) || *tested == search_term)
            .filter(|(_i, tested)| *tested != search_term)
            .map(|(i, _)| i)''')],
 demo='''fn main() {
    expect("right", emacs(&["abc", "ab"], "", "ab<Right>").0, "abc".to_string());
}'''),
dict(id='c13-position', property='C13',
 needs='get_newest_match from a position whose own entry matches',
 breaks='the entry at the position is considered as well',
 edits=[('src/history.rs', '''            self.get_match((0..pos).rev(), new_buff)''', '''            self.get_match((0..=pos).rev(), new_buff)''')],
 demo='''fn main() {
    let mut h = History::new();
    for x in ["abc", "x", "abd"] {
        h.push(x.into()).unwrap();
    }
    expect("match", h.get_newest_match(Some(2), &"ab".into()), Some(0));
}'''),
dict(id='c21-undo-entry', property='C21',
 needs='take over of a history entry into the draft, undo in it',
 breaks='an edited entry is written back to the history when it is undone completely and the line entered',
 edits=[('src/editor.rs', '''        let did = cur_buf_mut!(self).revert();
        if did {''', '''        let did = cur_buf_mut!(self).revert();
        if let (true, Some(i)) = (did, self.cur_history_loc) {
            self.hist_buf.end_undo_group();
            self.context.history_mut()[i] = self.hist_buf.clone();
            self.context.history_mut().buffers.truncate(1000);
            if i > 2 {
                self.context.history_mut().buffers.swap(i - 1, i);
            }
        }
        if did {''')],
 demo='''fn main() {
    let mut c = ctx(&["a", "b", "c", "d"]);
    drive::<liner::Emacs>(&mut c, "", "<Up>x<M-r>");
    expect("history", c.history.buffers.iter().map(|b| b.to_string()).collect::<String>(), "abcd".to_string());
}'''),
dict(id='c24-wide-redraw', property='C24',
 needs='a line wider than the terminal and a suggestion',
 breaks='no suggestion is offered when it does not fit the row',
 edits=[('src/editor.rs', '''        self.autosuggestion = self.current_autosuggestion();

        self.display_impl(true)''', '''        self.autosuggestion = self.current_autosuggestion();
        if !self.is_search() && self.autosuggestion.as_ref().map_or(0, |s| s.num_chars()) >= 4 * self.terminal_width()? {
            self.autosuggestion = None;
        }

        self.display_impl(true)''')],
 demo='''fn main() {
    let mut c = ctx(&[&"ab".repeat(30)]);
    c.terminal.width = 10;
    expect("right", drive::<liner::Emacs>(&mut c, "", "ab<Right>").0, "ab".repeat(30));
}'''),
dict(id='c23-handle-newline-cursor', property='C23',
 needs='handle_newline with a backslash before the cursor while in the middle of the text',
 breaks='the newline goes to the end of the line when the cursor is not at the end',
 edits=[('src/editor.rs', '''            self.insert_after_cursor('\\n')?;
            Ok(false)''', '''            if self.no_eol {
                self.cursor = cur_buf!(self).num_chars();
            }
            self.insert_after_cursor('\\n')?;
            Ok(false)''')],
 demo='''fn main() {
    expect("newline", vi(&[], "a\\\\\\\\bc", "<Esc>hh<CR>").0.contains("bc\\n"), false);
    expect("newline", vi(&[], "a\\\\bc", "<Esc>h<CR>").0, "a\\\\\\nbc".to_string());
}'''),
dict(id='c19-vectored', property='C19',
 needs='a real terminal whose output buffer holds less than a line break when the line is redrawn',
 breaks='flush of the real terminal does nothing',
 edits=[('src/context.rs', '''    fn flush(&mut self) -> io::Result<()> {
        self.stdout.flush()
    }''', '''    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }''')],
 demo='''fn main() {}'''),
]
