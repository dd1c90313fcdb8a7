BUGS=[]
def b(id, prop, *edits, needs='', breaks='', demo='fn main() {}'):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(f, o, n) for f, o, n in edits], demo=demo))
VI='src/keymap/vi.rs'; ED='src/editor.rs'; BU='src/buffer.rs'; HI='src/history.rs'; CO='src/context.rs'; CP='src/complete.rs'; UT='src/util.rs'; EM='src/keymap/emacs.rs'; KM='src/keymap/mod.rs'

b('x-esc-lastcount','C05',(VI,'''                    self.last_count = self.count;
                    for _ in 1..self.count {''','''                    if self.count > 1 {
                        self.last_count = self.count;
                    }
                    for _ in 1..self.count {'''))
b('x-bs-lastinsert','C05',(VI,'''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    self.last_command.clear();
                    self.movement_reset = false;
                    // vim behaves as if this was 'i'
                    self.last_insert = Some(Key::Char('i'));
''','''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    self.last_command.clear();
                    self.movement_reset = false;
'''))
b('x-up-count','C04',(VI,'''            Key::Up => {
                self.count = 0;
                self.movement_reset = true;''','''            Key::Up => {
                self.movement_reset = true;'''))
b('x-left-count','C04',(VI,'''            Key::Left | Key::Right | Key::Home | Key::End => {
                self.count = 0;
                self.movement_reset = true;''','''            Key::Left | Key::Right | Key::Home | Key::End => {
                if key != Key::End {
                    self.count = 0;
                }
                self.movement_reset = true;'''))
b('x-D-count','C04',(VI,'''                self.last_command.push(key);
                self.count = 0;
                self.last_count = 0;

                ed.delete_all_after_cursor()''','''                self.last_command.push(key);
                self.last_count = 0;

                ed.delete_all_after_cursor()'''))
b('x-notfound-forget','C03',(VI,'''                // store last command info
                self.last_char_movement = Some((c, movement));
                self.current_command.push(key);''','''                // store last command info
                if ed.current_buffer().chars().any(|&x| x == c) {
                    self.last_char_movement = Some((c, movement));
                }
                self.current_command.push(key);'''))
b('x-other-ws','C03',(VI,'''                State::EndOnOther if c.is_whitespace() || is_vi_keyword(c) => {''','''                State::EndOnOther if c == ' ' || is_vi_keyword(c) => {'''))
b('x-nonkw-ws','C03',(VI,'''                State::NonKeyword => match c {
                    c if c.is_whitespace() => state = State::Whitespace,''','''                State::NonKeyword => match c {
                    c if c.is_ascii_whitespace() => state = State::Whitespace,'''))
b('x-tilde-last','C04',(VI,'''                    } else if c.is_uppercase() {
                        ed.delete_after_cursor()?;
                        for c in c.to_lowercase() {''','''                    } else if c.is_uppercase() {
                        ed.delete_after_cursor()?;
                        for c in c.to_lowercase().take(1) {'''))
b('x-replace-move','C04',(VI,'''                    ed.move_cursor_left(1)?;
                }
                self.pop_mode(ed)?;''','''                    let newline = ed.current_buffer().char_before(ed.cursor()) == Some('\\\\');
                    if !newline {
                        ed.move_cursor_left(1)?;
                    }
                }
                self.pop_mode(ed)?;'''))
b('x-count-u16','C03',(VI,'''            _ => self.count as usize,''','''            _ => self.count as u16 as usize,'''))
b('x-count-cap','C04',(VI,'''                self.count = self.count.saturating_mul(10).saturating_add(i);''','''                self.count = self.count.saturating_mul(10).saturating_add(i).min(999);'''))
b('x-u-count','C06',(VI,'''                for _ in 0..count {
                    if !ed.undo()? {
                        break;
                    }
                }''','''                for _ in 0..count.min(9) {
                    if !ed.undo()? {
                        break;
                    }
                }'''))
b('x-undo-nest','C06',(BU,'''            match act {
                EndGroup => group_nest += 1,
                StartGroup => group_nest -= 1,
                // count the actions in this group so we can ignore empty groups below
                _ => group_count += 1,
            }

            // if we aren't in a group, and the last group wasn't empty
            if group_nest == 0 && group_count > 0 {
                break;
            }
        }
        did
    }

    pub fn redo''','''            match act {
                EndGroup => group_nest += 1,
                StartGroup => group_nest -= 1,
                // count the actions in this group so we can ignore empty groups below
                Insert { ref text, .. } | Remove { ref text, .. } if text.is_empty() => {}
                _ => group_count += 1,
            }

            // if we aren't in a group, and the last group wasn't empty
            if group_nest == 0 && group_count > 0 {
                break;
            }
        }
        did
    }

    pub fn redo'''))
b('x-undo-cap','C06',(BU,'''    fn push_action(&mut self, act: Action) {
        self.actions.push(act);''','''    fn push_action(&mut self, act: Action) {
        if self.actions.len() >= 256 {
            self.actions.remove(0);
        }
        self.actions.push(act);'''))
b('x-completion-case','C11',(ED,'''            completions.sort();
            completions.dedup();''','''            completions.sort_by_key(|c| c.to_lowercase());
            completions.dedup();'''))
b('x-prefix-chars','C11',(ED,'''s.len() > word.len() && s.starts_with(&word[..])''','''s.chars().count() > word.len() && s.starts_with(&word[..])'''))
b('x-prefix-noext','C11',(ED,'''s.len() > word.len() && s.starts_with(&word[..])''','''s.len() > word.len()'''))
b('x-cycle-cap','C11',(ED,'''i_in.map_or(0, |i| (i + 1) % completions.len())''','''i_in.map_or(0, |i| (i + 1) % completions.len().min(10))'''))
b('x-symlink','C12',(CP,'''if entry.path().is_dir() { "/" }''','''if entry.file_type().map_or(false, |t| t.is_dir()) { "/" }'''))
b('x-ascii-lower','C12',(CP,'''name.to_lowercase().starts_with(&start_name)''','''name.to_ascii_lowercase().starts_with(&start_name)'''))
b('x-hidden','C12',(CP,'''                name.starts_with(&start_name)
            } else {''','''                name.starts_with(&start_name) && (!name.starts_with("..") || !start_name.is_empty())
            } else {'''))
b('x-load-comment','C14',(HI,'''                    Ok(line) => {
                        if !line.starts_with('#') {
                            self.buffers''','''                    Ok(line) => {
                        if !line.trim_start().starts_with('#') {
                            self.buffers'''))
b('x-compact-reset','C14',(HI,'''                        let _ = History::deduplicate_history_file(&file_name, self.max_file_size);
                    }
                    self.compaction_writes = 0;''','''                        if History::deduplicate_history_file(&file_name, self.max_file_size).is_err() {
                            return Ok(());
                        }
                    }
                    self.compaction_writes = 0;'''))
b('x-dedup-rewrite','C14',(HI,'''        if org_length != buf.len() {
            // Over''','''        if org_length != buf.len() && !buf.is_empty() {
            // Over'''))
b('x-filesize-chars','C15',(HI,'''self.file_size += item_str.len() as u64 + 1;''','''self.file_size += item_str.chars().count() as u64 + 1;'''))
b('x-push-trim','C13',(HI,'''== Some(new_item.to_string())''','''== Some(new_item.to_string().trim_end().to_string())'''))
b('x-words-tab','C17',(CO,'''        } else if c != ' ' {
            word_start = Some(i);''','''        } else if c != ' ' && c != '\\u{3000}' {
            word_start = Some(i);'''))
b('x-altdot-wrap','C02',(EM,'''            Some(0) => return Ok(()),''','''            Some(0) if ed.context().history().len() < 5 => return Ok(()),
            Some(0) => ed.context().history().len() - 1,'''))
b('x-search-empty','C08',(BU,'''        if search_term.is_empty() {
            return false;
        }''','''        if search_term.is_empty() || search_term.iter().all(|c| *c == ' ') {
            return false;
        }'''))
b('x-starts-long','C09',(BU,'''            match_let == other_len
''','''            match_let == other_len.min(80)
'''))
b('x-down-fresh','C07',(ED,'''                        self.history_subset_index.clear();
                        self.history_fresh = false;''','''                        self.history_fresh = false;'''))
b('x-ctrld-search','C16',(KM,'''        let is_empty = editor.current_buffer().is_empty();''','''        let is_empty = editor.current_buffer().chars().all(|c| *c == ' ');'''))
b('x-newline-bs','C16',(ED,'''        if char_before_cursor == Some('\\\\') {''','''        if char_before_cursor == Some('\\\\') && cur_buf!(self).num_chars() > 1 {'''))
b('x-osc-bel','C10',(UT,'''                    ']' => s = AnsiState::Osc,''','''                    ']' | 'P' => s = AnsiState::Osc,'''))
b('x-head-join','C10',(ED,'''head.split('\\n').join("\\r\\n")''','''head.split_terminator('\\n').join("\\r\\n")'''))
b('x-indent-prompt','C10',(ED,'''out_buf.extend(iter::repeat(' ').take(prompt_width));''','''out_buf.extend(iter::repeat(' ').take(prompt_width.min(terminal_width / 2 + 8)));'''))
b('x-suggest-color','C22',(ED,'''                if !line.is_empty() && !self.is_search() {''','''                if i == 0 && !self.is_search() {'''))
b('x-tohist-start','C21',(ED,'''            self.cur_history_loc = Some(0);
            self.move_cursor_to_end_of_line()''','''            self.cur_history_loc = Some(0);
            self.hist_buf_valid = !self.hist_buf.is_empty() && self.hist_buf == self.new_buf;
            self.move_cursor_to_end_of_line()'''))
b('x-clear-search','C08',(ED,'''        if self.is_search() {
            self.clear_search();
        }
        self.display()''','''        self.display()'''))
b('x-revert-empty','C23',(ED,'''    pub fn revert(&mut self) -> io::Result<bool> {
        let did = cur_buf_mut!(self).revert();
        if did {
            self.move_cursor_to_end_of_line()?;''','''    pub fn revert(&mut self) -> io::Result<bool> {
        let did = cur_buf_mut!(self).revert();
        if did && self.cursor > 0 {
            self.move_cursor_to_end_of_line()?;'''))
b('x-left-24','C24',(ED,'''        if count > self.cursor {
            count = self.cursor;
        }

        self.cursor -= count;
''','''        if count > self.cursor {
            count = self.cursor;
        }

        self.cursor -= count;
        if self.cursor > 0 && util::last_prompt_line_width(&self.prompt.prompt) > 60 {
            self.cursor -= 1;
        }
'''))
