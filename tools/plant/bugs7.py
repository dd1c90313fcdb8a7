BUGS=[]
def b(id, prop, *edits, needs='', breaks='', demo='fn main() {}'):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(f, o, n) for f, o, n in edits], demo=demo))
VI='src/keymap/vi.rs'; ED='src/editor.rs'; BU='src/buffer.rs'; HI='src/history.rs'; CO='src/context.rs'; CP='src/complete.rs'; UT='src/util.rs'; EM='src/keymap/emacs.rs'; KM='src/keymap/mod.rs'
b('z-setprompt-mode','C10',(ED,'''                passed_status.mode = old_status.mode;''','''                if let ViPromptMode::Normal = passed_status.mode {
                    passed_status.mode = old_status.mode;
                }'''))
b('z-clear-forward','C08',(ED,'''        self.term_cursor_line = 1;
        if self.is_search() {''','''        self.term_cursor_line = 1;
        if self.reverse_search {'''))
b('z-accept-forward','C08',(ED,'''                let search = self.is_search();
                let buf = self.current_buffer_mut();''','''                let search = self.is_search() && self.history_subset_loc != Some(0)
                    || self.reverse_search;
                let buf = self.current_buffer_mut();'''))
b('z-dedup-first','C11',(ED,'''            completions.sort();
            completions.dedup();''','''            completions.dedup();
            completions.sort();'''))
b('z-len-mix','C11',(ED,'''s.len() > word.len() && s.starts_with''','''p.len() > word.len() && s.starts_with'''))
b('z-newline-hint','C10',(ED,'''            self.show_completions_hint = None;
            self.display()?;
            return Ok(false);''','''            self.show_completions_hint = None;
            return Ok(false);'''))
b('z-pad','C10',(ED,'''for _ in 0..(width - 1) {''','''for _ in 0..(width - 2) {'''))
b('z-search-place','C10',(ED,'''                    self.history_subset_loc.unwrap_or(0) + 1,''','''                    self.history_subset_loc.unwrap_or(0).max(1),'''))
b('z-high-reset','C22',(ED,'''                    color::Reset.bg_str(),
                    color::Reset.fg_str()''','''                    color::Reset.fg_str(),
                    color::Reset.fg_str()'''))
b('z-s-count','C05',(VI,'''                ed.delete_until(pos)?;
                self.last_count = self.count;
                self.count = 0;
                Ok(())''','''                ed.delete_until(pos)?;
                self.last_count = self.count.min(9);
                self.count = 0;
                Ok(())'''))
b('z-tilde-ascii','C04',(VI,'''if c.is_lowercase() {''','''if c.is_lowercase() && c.to_uppercase().len() == 1 {'''))
b('z-del-record','C05',(VI,'''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    self.last_command.clear();''','''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    if key == Key::Backspace {
                        self.last_command.clear();
                    }'''))
b('z-home-reset','C05',(VI,'''            Key::Left | Key::Right | Key::Home | Key::End => {
                self.count = 0;
                self.movement_reset = true;''','''            Key::Left | Key::Right | Key::Home | Key::End => {
                self.count = 0;
                self.movement_reset = key != Key::End || !ed.cursor_is_at_end_of_line();'''))
b('z-ups-reset','C06',(VI,'''            Key::Up => {
                self.count = 0;
                self.movement_reset = true;''','''            Key::Up => {
                self.count = 0;
                self.movement_reset = ed.current_history_location().is_none();'''))
b('z-contains-end','C08',(BU,'''        self.data
            .windows(search_term.len())
            .any(|window| window == search_term)''','''        self.data
            .windows(search_term.len())
            .take(64)
            .any(|window| window == search_term)'''))
b('z-redo-empty','C06',(BU,'''            self.actions.push(act.clone());
            match act {
                StartGroup => group_nest += 1,
                EndGroup => group_nest -= 1,
                // count the actions in this group so we can ignore empty groups below
                _ => group_count += 1,
            }

            // if we aren't in a group, and the last group wasn't empty
            if group_nest == 0 && group_count > 0 {''','''            self.actions.push(act.clone());
            match act {
                StartGroup => group_nest += 1,
                EndGroup => group_nest -= 1,
                // count the actions in this group so we can ignore empty groups below
                _ => group_count += 1,
            }

            // if we aren't in a group, and the last group wasn't empty
            if group_nest == 0 {'''))
b('z-undo-clear','C06',(BU,'''    pub fn clear_actions(&mut self) {
        self.actions.clear();
        self.undone_actions.clear();''','''    pub fn clear_actions(&mut self) {
        self.actions.clear();'''))
b('z-copy-same','C06',(BU,'''        let data_len = self.data.len();
        self.remove(0, data_len);
        self.insert(0, &other.data[0..])''','''        let data_len = self.data.len();
        if data_len > 0 {
            self.remove_raw(0, data_len);
        }
        self.insert(0, &other.data[0..])'''))
b('z-print-rest','C18',(BU,'''        Ok(string.len())''','''        Ok(string.chars().count())'''))
b('z-newest-pos','C09',(HI,'''            self.get_match((0..pos).rev(), new_buff)''','''            self.get_match((0..pos).rev().take(DEFAULT_MAX_SIZE / 4), new_buff)'''))
b('z-load-empty','C14',(HI,'''if new_length == 0 && length == 0 && !append {''','''if new_length == 0 && length == 0 && append {'''))
b('z-load-err','C14',(HI,'''        if new_length != length {
            if !append {''','''        if new_length > length {
            if !append {'''))
b('z-name-size','C14',(HI,'''        self.file_size = 0;
        if path.exists() {''','''        if path.exists() {'''))
b('z-trunc-max','C14',(HI,'''            let pop_out = self.buffers.len() - self.max_file_size;''','''            let pop_out = self.buffers.len() - self.max_file_size.max(1);'''))
b('z-push-if','C13',(HI,'''        while self.buffers.len() > self.max_buffers_size {''','''        if self.buffers.len() > self.max_buffers_size {'''))
b('z-append-fail','C15',(HI,'''                self.file_size += item_str.len() as u64 + 1;''','''                self.file_size = file.metadata()?.len();'''))
b('z-symlink','C12',(CP,'''if entry.path().is_dir()''','''if entry.file_type().map_or(false, |t| t.is_dir())'''))
b('z-unesc','C12',(CP,'''start.replace(r"\\ ", " ")''','''start.replacen(r"\\ ", " ", 2)'''))
b('z-esc-out','C12',(CP,'''completion.replace(" ", r"\\ ")''','''completion.replacen(" ", r"\\ ", 3)'''))
b('z-eof','C16',(CO,'''            } else {
                break;
            }
        }

        Ok(ed.into())''','''            } else {
                if ed.current_history_location().is_some() {
                    ed.move_to_end_of_history()?;
                }
                break;
            }
        }

        Ok(ed.into())'''))
b('z-bs-flag','C17',(CO,'''        if c == '\\\\' {
            just_had_backslash = true;''','''        if c == '\\\\' {
            just_had_backslash = !just_had_backslash;'''))
b('z-isempty','C16',(KM,'''        handler.on_event(Event::new(editor, EventKind::BeforeKey(key)));

        let is_empty = editor.current_buffer().is_empty();
''','''        let is_empty = editor.current_buffer().is_empty();

        handler.on_event(Event::new(editor, EventKind::BeforeKey(key)));
'''))
b('z-afterkey','C16',(KM,'''        let mut done = false;

        handler.on_event(''','''        let mut done = false;
        if let Key::Ctrl('j') = key {
            key = Key::Char('\\n');
        }

        handler.on_event('''))
b('z-null-hint','C11',(KM,'''            Key::Char('\\t') | Key::Char('\\n') => {}''','''            Key::Char('\\t') | Key::Char('\\n') | Key::Null => {}'''))
b('z-right-noend','C09',(KM,'''                    && editor.cursor_is_at_end_of_line() =>''','''                    && editor.cursor() + 1 >= editor.current_buffer().num_chars() =>'''))
b('z-lastarg-loc','C02',(EM,'''            None => ed
                .current_history_location()
                .unwrap_or(''','''            None => ed
                .current_history_location()
                .filter(|&i| i > 0)
                .unwrap_or('''))
b('z-word-right','C02',(EM,'''if i < words.len() - 1 && direction == EmacsMoveDir::Right {''','''if i + 2 < words.len() && direction == EmacsMoveDir::Right {'''))
b('z-revert-undo','C06',(BU,'''        while self.undo() {}
        true''','''        for _ in 0..64 {
            self.undo();
        }
        true'''))
b('z-startgroup-redo','C06',(BU,'''        self.actions.push(Action::StartGroup);''','''        self.push_action(Action::StartGroup);'''))
b('z-repeat-ins','C05',(VI,'''                    for _ in 1..self.count {
                        let keys''','''                    for _ in 1..self.count.min(100) {
                        let keys'''))
b('z-search-up','C08',(ED,'''        if self.is_search() {
            self.search(true)
        } else {''','''        if self.is_search() {
            self.search(self.forward_search)
        } else {'''))
b('z-histbuf-edit','C07',(ED,'''    pub fn move_down(&mut self) -> io::Result<()> {
        if self.is_search() {
            self.search(true)
        } else {
            self.hist_buf_valid = false;''','''    pub fn move_down(&mut self) -> io::Result<()> {
        if self.is_search() {
            self.search(true)
        } else {
            self.hist_buf_valid &= self.history_subset_loc.is_some();'''))
b('z-start-clear','C07',(ED,'''    pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
        self.clear_search();
        self.hist_buf_valid = false;''','''    pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
        if self.is_search() {
            self.clear_search();
        }
        self.hist_buf_valid = false;'''))
b('z-subset-order','C07',(HI,'''                    contains && !starts && tested != search_term''','''                    contains && !starts && tested.num_chars() > search_term.num_chars() + 1'''))
b('z-basic','C11',(CP,'''            .filter(|s| s.starts_with(start))''','''            .filter(|s| s.starts_with(start) && s.len() > start.len())'''))
b('z-cursorpos-get','C17',(ED,'''            } else if start < cursor && cursor < end {''','''            } else if start < cursor && cursor + 1 < end {'''))
b('z-exec-hist','C23',(ED,'''                if self.hist_buf_valid {
                    &mut self.hist_buf
                } else {
                    &mut self.context.history_mut()[i]
                }''','''                self.hist_buf.copy_buffer(&self.context.history()[i]);
                &mut self.hist_buf'''))
b('z-width-err','C20',(ED,'''        Ok(match self.context.terminal().width()? {
            0 => 80,
            width => width,
        })''','''        Ok(match self.context.terminal().width() {
            Ok(0) => 80,
            Ok(width) => width,
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => 80,
            Err(e) => return Err(e),
        })'''))
