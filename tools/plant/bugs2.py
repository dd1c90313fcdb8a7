BUGS = [
dict(id='c03-keyword-ascii', property='C03',
 needs='a word motion over a word with a non-ASCII letter',
 breaks='letters outside of ASCII no longer belong to words, so that w, b and e stop inside of words',
 edits=[('src/keymap/vi.rs', "c == '_' || c.is_alphanumeric()", "c == '_' || c.is_ascii_alphanumeric()")],
 demo='''fn main() {
    expect("w", vi(&[], "na\\u{ef}ve word", "<Esc>0w"), t("na\\u{ef}ve word", 6));
}'''),
dict(id='c05-replace-after-insert', property='C05',
 needs='a replacement with a count after another command with a different count, then .',
 breaks='r does not record its count, so that . repeats it with the count of an earlier command',
 edits=[('src/keymap/vi.rs', '''                    self.last_command.push(Key::Char('r'));
                    self.last_command.push(key);
                    self.last_count = self.count;''', '''                    self.last_command.push(Key::Char('r'));
                    self.last_command.push(key);''')],
 demo='''fn main() {
    expect("2x, rz, then .", vi(&[], "abcdefgh", "<Esc>02xrzl.").0, "zzefgh".to_string());
}'''),
dict(id='c05-dot-drops-insert', property='C05',
 needs='~ right after an insertion, then .',
 breaks='~ keeps the recorded insertion, so that . types ~ instead of toggling the case',
 edits=[('src/keymap/vi.rs', '''            Key::Char('~') => {
                // update the last command state
                self.last_insert = None;
''', '''            Key::Char('~') => {
                // update the last command state
''')],
 demo='''fn main() {
    expect("insert, ~ and .", vi(&[], "abcdef", "<Esc>0ix<Esc>l~.").0, "xABcdef".to_string());
}'''),
dict(id='c06-group-down', property='C06',
 needs='an entry edited in Vi insert mode, Down in insert mode back to the draft, more text, Esc, u',
 breaks='Down in insert mode does not end and restart the undo group, so that u takes back text typed before it as well',
 edits=[('src/keymap/vi.rs', '''                ed.current_buffer_mut().end_undo_group();
                ed.move_down()?;
                ed.current_buffer_mut().start_undo_group();
                Ok(())''', '''                ed.move_down()''')],
 demo='''fn main() {
    expect("up, down, type, undo", vi(&["abold"], "", "ab<Up><Down>c<Esc>u").0, "ab".to_string());
}'''),
dict(id='c06-empty-group', property='C06',
 needs='an empty group of edits (i then Esc) after a change, then u once',
 breaks='an empty group counts as a step of undo',
 edits=[('src/buffer.rs', '''        while let Some(act) = self.actions.pop() {
            act.undo(self);
            self.undone_actions.push(act.clone());
            match act {
                EndGroup => group_nest += 1,
                StartGroup => group_nest -= 1,
                // count the actions in this group so we can ignore empty groups below
                _ => group_count += 1,
            }

            // if we aren't in a group, and the last group wasn't empty
            if group_nest == 0 && group_count > 0 {''', '''        while let Some(act) = self.actions.pop() {
            act.undo(self);
            self.undone_actions.push(act.clone());
            match act {
                EndGroup => group_nest += 1,
                StartGroup => group_nest -= 1,
                // count the actions in this group so we can ignore empty groups below
                _ => group_count += 1,
            }

            // if we aren't in a group, and the last group wasn't empty
            if group_nest <= 0 && (group_count > 0 || did) {''')],
 demo='''fn main() {
    expect("x, then an empty insertion, undo", vi(&[], "abc", "<Esc>0xi<Esc>u").0, "abc".to_string());
}'''),
dict(id='c08-contains-overlap', property='C08',
 needs='a search pattern whose beginning repeats, in an entry where a partial match overlaps the real one (aab in aaab)',
 breaks='such entries are not found',
 edits=[('src/buffer.rs', '''        self.data
            .windows(search_term.len())
            .any(|window| window == search_term)
''', '''        let mut matched = 0;
        for &c in &self.data {
            if c == search_term[matched] {
                matched += 1;
                if matched == search_term.len() {
                    return true;
                }
            } else {
                matched = usize::from(c == search_term[0]);
            }
        }
        false
''')],
 demo='''fn main() {
    expect("search", emacs(&["x aaab"], "", "<C-r>aab<Right>").0, "x aaab".to_string());
}'''),
dict(id='c07-stale-subset', property='C07',
 needs='text typed, Up to a matching entry, Down back to the draft, and Up again',
 breaks='the position among the matching entries is kept when coming back to the draft, so that the next Up skips the newest match or shows entries that matched an earlier draft',
 edits=[('src/editor.rs', '''                        self.cur_history_loc = None;
                        self.history_subset_loc = None;
                        self.history_subset_index.clear();
                        self.history_fresh = false;''', '''                        self.cur_history_loc = None;
                        self.history_fresh = false;''')],
 demo='''fn main() {
    expect("up, down, up", emacs(&["l1", "l2", "l3"], "", "l<Up><Down><Up>").0, "l3".to_string());
}'''),
dict(id='c10-prompt-csi', property='C10',
 needs='a prompt with a control sequence that does not end in m, such as an erase, and a text that fills the row',
 breaks='the width of the prompt is miscounted, so that the cursor is put in the wrong place',
 edits=[('src/util.rs', "AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,", "AnsiState::Csi if c == 'm' => s = AnsiState::Norm,")],
 demo='''fn main() {
    let mut c = ctx(&[]);
    c.terminal.width = 10;
    let mut ed = Editor::new_with_init_buffer(Prompt::from("\\u{1b}[0K$ "), None, &mut c, "abcdefghi").unwrap();
    ed.context_mut().terminal_mut().out.clear();
    let mut m = liner::Emacs::default();
    m.handle_key(Key::Home, &mut ed, &mut Words(vec![])).unwrap();
    let out = String::from_utf8(ed.context().terminal().out.clone()).unwrap();
    let after = out.rsplit("abcdefghi").next().unwrap().to_string();
    expect("from the second row to the first", after.contains("\\u{1b}[1A"), true);
}'''),
dict(id='c10-osc-prompt', property='C10',
 needs='a prompt that sets the window title with an OSC sequence containing a letter before its end',
 breaks='the rest of the title is counted as part of the prompt',
 edits=[('src/util.rs', "AnsiState::Osc if c == '\\x07' => s = AnsiState::Norm,", "AnsiState::Osc if c == '\\x07' || c == ';' => s = AnsiState::Norm,")],
 demo='''fn main() {
    let mut c = ctx(&[]);
    c.terminal.width = 20;
    let mut ed = Editor::new_with_init_buffer(Prompt::from("\\u{1b}]0;title\\u{7}$ "), None, &mut c, "abcdefghijklmno").unwrap();
    ed.context_mut().terminal_mut().out.clear();
    let mut m = liner::Emacs::default();
    m.handle_key(Key::Home, &mut ed, &mut Words(vec![])).unwrap();
    let out = String::from_utf8(ed.context().terminal().out.clone()).unwrap();
    expect("all on one row", out.contains("A"), false);
}'''),
dict(id='c11-left-edge', property='C11',
 needs='Tab with the cursor on the left edge of a word that is not the first',
 breaks='the word before the blank is taken to be the word at the cursor and is replaced together with the blank',
 edits=[('src/editor.rs', '''                if ignore_space_before_cursor && i > 0 {
                    words.nth(i - 1)''', '''                if i > 0 {
                    words.nth(i - 1)''')],
 demo='''fn main() {
    let mut c = ctx(&[]);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, "ab cd").unwrap();
    let mut m = liner::Emacs::default();
    let mut w = Words(vec!["zz"]);
    for k in keys("<Left><Left><Tab>") {
        m.handle_key(k, &mut ed, &mut w).unwrap();
    }
    expect("completed", ed.current_buffer().to_string(), "ab zzcd".to_string());
}'''),
dict(id='c12-relative-wd', property='C12',
 needs='a filename completer with a relative working directory',
 breaks='a relative working directory is ignored in favour of that of the process',
 edits=[('src/complete.rs', '''        FilenameCompleter {
            working_dir: working_dir.map(|p| p.into()),
            case_sensitive: true,''', '''        FilenameCompleter {
            working_dir: working_dir.map(|p| p.into()).filter(|p: &PathBuf| p.is_absolute()),
            case_sensitive: true,'''),
  ('src/complete.rs', '''        FilenameCompleter {
            working_dir: working_dir.map(|p| p.into()),
            case_sensitive,''', '''        FilenameCompleter {
            working_dir: working_dir.map(|p| p.into()).filter(|p: &PathBuf| p.is_absolute()),
            case_sensitive,''')],
 demo='''fn main() {
    std::fs::create_dir("sub").unwrap();
    std::fs::write("sub/file", "").unwrap();
    expect("completions", liner::FilenameCompleter::new(Some("sub")).completions("f"), vec!["file".to_string()]);
}'''),
dict(id='c12-case-flag', property='C12',
 needs='a case-insensitive filename completer (with_case_sensitivity false)',
 breaks='the case sensitivity asked for is ignored',
 edits=[('src/complete.rs', '''            working_dir: working_dir.map(|p| p.into()),
            case_sensitive,''', '''            case_sensitive: case_sensitive || working_dir.is_none(),
            working_dir: working_dir.map(|p| p.into()),''')],
 demo='''fn main() {
    std::fs::create_dir("sub").unwrap();
    std::fs::write("sub/File", "").unwrap();
    expect("completions", liner::FilenameCompleter::with_case_sensitivity(Some("sub"), false).completions("f"), vec!["File".to_string()]);
    expect("completions in the current directory", liner::FilenameCompleter::with_case_sensitivity(None::<String>, false).completions("S"), vec!["sub/".to_string()]);
}'''),
dict(id='c13-dup-any', property='C13',
 needs='a line pushed again with other lines in between, duplicates not allowed',
 breaks='a line equal to any entry is dropped rather than one equal to the newest',
 edits=[('src/history.rs', "&& self.buffers.back().map(|b| b.to_string()) == Some(new_item.to_string())", "&& self.buffers.iter().any(|b| *b == new_item)")],
 demo='''fn main() {
    let mut h = History::new();
    for s in ["a", "b", "a", "a"] {
        h.push(Buffer::from(s)).unwrap();
    }
    expect("entries", h.len(), 3);
}'''),
dict(id='c14-stale-size', property='C14',
 needs='a history moved from one file to a new file name, the new file then written by someone else with exactly the size of the old one, and loaded',
 breaks='the size of the earlier file is kept, so that the load is taken to have nothing new',
 edits=[('src/history.rs', '''        self.file_size = 0;
        if path.exists() {''', '''        if path.exists() {''')],
 demo='''fn main() {
    std::fs::write("f1", "aa\\n").unwrap();
    let mut h = History::new();
    h.set_file_name_and_load_history("f1").unwrap();
    h.set_file_name_and_load_history("f2").unwrap();
    std::fs::write("f2", "bb\\n").unwrap();
    h.load_history(false).unwrap();
    expect("loaded", h.buffers.iter().map(|b| b.to_string()).collect::<Vec<_>>(), vec!["bb".to_string()]);
}'''),
dict(id='c16-backslash-end', property='C16',
 needs='Enter with the cursor inside of a line that ends in a backslash (or right after a backslash inside of a line)',
 breaks='the character at the end of the line decides about continuation, not the one before the cursor',
 edits=[('src/editor.rs', "let char_before_cursor = cur_buf!(self).char_before(self.cursor);", "let char_before_cursor = cur_buf!(self).chars().last().cloned();")],
 demo='''fn main() {
    let mut c = ctx(&[]);
    c.terminal.keys = keys("ab\\\\<Left><CR>x<CR>").into();
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut Words(vec![]), None, Buffer::new());
    expect("line", r.unwrap(), "ab\\\\".to_string());
}'''),
dict(id='c19-width-cached', property='C19',
 needs='the terminal is resized between two reads (or between two keys) of one context',
 breaks='the width is asked for only once, when the terminal is opened',
 edits=[('src/context.rs', '''    stdout: RawTerminal<Stdout>,
}''', '''    stdout: RawTerminal<Stdout>,
    width: Option<usize>,
}'''), ('src/context.rs', '''        Ok(Self { stdin, stdout })''', '''        let width = util::terminal_width().ok();

        Ok(Self { stdin, stdout, width })'''), ('src/context.rs', '''        util::terminal_width()
''', '''        self.width.map_or_else(util::terminal_width, Ok)
''')],
 demo='''fn main() {
    unsafe {
        let (mut a, mut b) = (0, 0);
        let mut ws: libc::winsize = std::mem::zeroed();
        ws.ws_col = 40;
        ws.ws_row = 20;
        assert_eq!(libc::openpty(&mut a, &mut b, std::ptr::null_mut(), std::ptr::null(), &ws), 0);
        let keep = libc::dup(1);
        libc::dup2(b, 0);
        libc::dup2(b, 1);
        let c = Context::new().unwrap();
        let w1 = c.terminal.width().unwrap();
        ws.ws_col = 30;
        libc::ioctl(b, libc::TIOCSWINSZ, &ws);
        let w2 = c.terminal.width().unwrap();
        drop(c);
        libc::dup2(keep, 1);
        expect("widths", (w1, w2), (40, 30));
    }
}'''),
dict(id='c19-flush', property='C19',
 needs='a session on a real terminal, looked at before the line is finished',
 breaks='flush does nothing, so that the picture stays in the buffer of standard output',
 edits=[('src/context.rs', '''    fn flush(&mut self) -> io::Result<()> {
        self.stdout.flush()
    }''', '''    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }''')],
 demo='''fn main() {
    unsafe {
        let (mut a, mut b) = (0, 0);
        let mut ws: libc::winsize = std::mem::zeroed();
        ws.ws_col = 40;
        ws.ws_row = 20;
        assert_eq!(libc::openpty(&mut a, &mut b, std::ptr::null_mut(), std::ptr::null(), &ws), 0);
        let keep = libc::dup(1);
        libc::dup2(b, 0);
        libc::dup2(b, 1);
        let mut c = Context::new().unwrap();
        let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, "hello").unwrap();
        libc::usleep(200_000);
        libc::fcntl(a, libc::F_SETFL, libc::O_NONBLOCK);
        let mut buf = [0u8; 4096];
        let n = libc::read(a, buf.as_mut_ptr() as *mut libc::c_void, 4096).max(0) as usize;
        drop(ed);
        drop(c);
        libc::dup2(keep, 1);
        expect("on the screen", String::from_utf8_lossy(&buf[..n]).contains("hello"), true);
    }
}'''),
dict(id='c19-raw-leak', property='C19',
 needs='a look at the settings of the terminal after the context was dropped',
 breaks='the guard that restores the settings is never dropped',
 edits=[('src/context.rs', '''    stdout: RawTerminal<Stdout>,
}''', '''    stdout: std::mem::ManuallyDrop<RawTerminal<Stdout>>,
}'''), ('src/context.rs', '''        let stdout = io::stdout().into_raw_mode()?;
''', '''        let stdout = std::mem::ManuallyDrop::new(io::stdout().into_raw_mode()?);
''')],
 demo='''fn main() {
    unsafe {
        let (mut a, mut b) = (0, 0);
        assert_eq!(libc::openpty(&mut a, &mut b, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()), 0);
        let keep = libc::dup(1);
        libc::dup2(b, 0);
        libc::dup2(b, 1);
        let mut t: libc::termios = std::mem::zeroed();
        libc::tcgetattr(b, &mut t);
        let before = t.c_lflag;
        drop(Context::new().unwrap());
        libc::tcgetattr(b, &mut t);
        libc::dup2(keep, 1);
        expect("settings", t.c_lflag, before);
    }
}'''),
dict(id='c20-key-error', property='C20',
 needs='a terminal whose key read fails',
 breaks='a failed key read is taken for the end of input, so that the read returns the text typed so far',
 edits=[('src/context.rs', '''            if let Some(key) = key {
                if keymap.handle_key(key?, &mut ed, handler)? {''', '''            if let Some(Ok(key)) = key {
                if keymap.handle_key(key, &mut ed, handler)? {''')],
 demo='''struct F(usize);
impl io::Write for F {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Tty for F {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        self.0 += 1;
        Some(if self.0 < 3 { Ok(Key::Char('a')) } else { Err(io::Error::new(io::ErrorKind::TimedOut, "read")) })
    }
    fn width(&self) -> io::Result<usize> {
        Ok(80)
    }
}
fn main() {
    let mut c: Context<F> = Context::with_terminal(F(0));
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut Words(vec![]), None, Buffer::new());
    expect("error", r.map_err(|e| e.kind()), Err(io::ErrorKind::TimedOut));
}'''),
dict(id='c21-start-keeps-edit', property='C21',
 needs='an edited history entry, then Alt-<',
 breaks='the edited text is shown as if it were the oldest entry',
 edits=[('src/editor.rs', '''    pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
        self.clear_search();
        self.hist_buf_valid = false;
''', '''    pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
        self.clear_search();
''')],
 demo='''fn main() {
    expect("alt-< after an edit", emacs(&["one", "two"], "", "<Up>x<M-<>").0, "one".to_string());
}'''),
]
