BUGS=[]
def b(id, prop, *edits, needs='', breaks='', demo='fn main() {}'):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(f, o, n) for f, o, n in edits], demo=demo))
VI='src/keymap/vi.rs'; ED='src/editor.rs'; BU='src/buffer.rs'; HI='src/history.rs'; CO='src/context.rs'; CP='src/complete.rs'; UT='src/util.rs'; EM='src/keymap/emacs.rs'; KM='src/keymap/mod.rs'
# two cooperating sites, stale state, boundary
b('y-hint-undo','C11',(ED,'''    pub fn skip_completions_hint(&mut self) {
        self.show_completions_hint = None;''','''    pub fn skip_completions_hint(&mut self) {
        if let Some((_, Some(_))) = self.show_completions_hint {
            self.show_completions_hint = None;
        }'''))
b('y-newline-search','C16',(ED,'''        if self.is_search() {
            self.accept_autosuggestion()?;
        }
        if self.show_completions_hint.is_some() {''','''        if self.is_search() && self.autosuggestion.is_some() {
            self.accept_autosuggestion()?;
        }
        if self.show_completions_hint.is_some() {'''))
b('y-refresh-eq','C08',(ED,'''                        if forward || target_loc == *history_loc || i == 0 {''','''                        if forward || i == 0 {'''))
b('y-refresh-loc','C08',(ED,'''        self.reverse_search = !forward;
        self.forward_search = forward;
        self.cur_history_loc = None;''','''        self.reverse_search = !forward;
        self.forward_search = forward;
        if search_history_loc.is_none() {
            self.cur_history_loc = None;
        }'''))
b('y-search-noreset','C08',(ED,'''        } else {
            self.history_subset_loc = None;
        }

        self.reverse_search = !forward;''','''        }

        self.reverse_search = !forward;'''))
b('y-undo-histbuf','C21',(ED,'''            self.hist_buf_valid = false;
            self.freshen_history();
            if self.is_stepping_through_matches() {''','''            self.freshen_history();
            if self.is_stepping_through_matches() {
                self.hist_buf_valid = false;'''))
b('y-end-histbuf','C21',(ED,'''        self.clear_search();
        self.hist_buf_valid = false;
        if self.cur_history_loc.is_some() {''','''        self.clear_search();
        if self.cur_history_loc.is_some() {'''))
b('y-accept-cleared','C09',(ED,'''                    Some(ref x) => buf.insert_from_buffer(x),''','''                    Some(ref x) if buf.num_chars() + 1 < x.num_chars() || x.num_chars() < 3 => {
                        buf.insert_from_buffer(x)
                    }
                    Some(ref x) => buf.insert(buf.num_chars(), &[x.char_before(x.num_chars()).unwrap()]),'''))
b('y-noeol-end','C09',(ED,'''            self.cursor == num_chars.saturating_sub(1)
        } else {''','''            self.cursor + 1 == num_chars
        } else {'''))
b('y-del-inclusive','C23',(ED,'''                cmp::min(cmp::max(self.cursor, position) + 1, buf.num_chars()),''','''                cmp::min(cmp::max(self.cursor, position + 1), buf.num_chars()),'''))
b('y-right-count','C23',(ED,'''            if count > buf.num_chars() - self.cursor {''','''            if self.cursor + count > buf.num_chars() {'''))
b('y-dup-push','C13',(HI,'''        let item_str = String::from(new_item.clone());
        self.buffers.push_back(new_item);
        //self.to_max_size();
        while self.buffers.len() > self.max_buffers_size {
            self.buffers.pop_front();
        }
''','''        let item_str = String::from(new_item.clone());
        self.buffers.push_back(new_item);
        //self.to_max_size();
        if self.buffers.len() > self.max_buffers_size {
            self.buffers.pop_front();
        }
'''))
b('y-trunc-load','C14',(HI,'''        if self.buffers.len() >= self.max_file_size {
            let pop_out = self.buffers.len() - self.max_file_size;
            for _ in 0..pop_out {
                self.buffers.pop_front();
            }
        }
    }''','''        if self.buffers.len() > self.max_file_size.max(1) {
            let pop_out = self.buffers.len() - self.max_file_size;
            for _ in 0..pop_out {
                self.buffers.pop_front();
            }
        }
    }'''))
b('y-reload-append','C14',(HI,'''        if new_length != length {
            if !append {''','''        if new_length != length || append && length == 0 {
            if !append || self.buffers.is_empty() {'''))
b('y-share-size','C15',(HI,'''                        if let Ok(metadata) = std::fs::metadata(&file_name) {
                            self.file_size = metadata.len();
                        }
''','''                        if let Ok(metadata) = std::fs::metadata(&file_name) {
                            self.file_size = self.file_size.min(metadata.len());
                        }
'''))
b('y-wdiv','C17',(CO,'''        if c == '\\\\' {
            just_had_backslash = true;
            continue;
        }''','''        if c == '\\\\' {
            just_had_backslash = !just_had_backslash;
            continue;
        }'''))
b('y-lcp','C11',(UT,'''    let shortest_word = among.iter().min_by_key(|x| x.len()).unwrap();

    let mut end = shortest_word.len();''','''    let shortest_word = &among[0];

    let mut end = shortest_word.len().min(among[1].len()).min(among[among.len() - 1].len());'''))
b('y-list-wrap','C10',(ED,'''        let breaks = completions.len().saturating_sub(1) / cols;''','''        let breaks = completions.len() / cols;'''))
b('y-list-col','C10',(ED,'''            output_buf.extend(iter::repeat(' ').take(col_width.saturating_sub(com.width())));''','''            output_buf.extend(iter::repeat(' ').take(col_width.saturating_sub(com.chars().count())));'''))
b('y-clear-line','C10',(ED,'''        self.term_cursor_line = 1;
        if self.is_search() {''','''        if self.term_cursor_line < 4 {
            self.term_cursor_line = 1;
        }
        if self.is_search() {'''))
b('y-status-mode','C16',(ED,'''        if let Some(status) = &mut self.prompt.vi_status {
            status.mode = mode;
        }
    }

    /// Remove''','''        if let Some(status) = self.prompt.vi_status.as_mut().filter(|s| !s.insert.is_empty()) {
            status.mode = mode;
        }
    }

    /// Remove'''))
b('y-exec','C23',(ED,'''                if self.hist_buf_valid {
                    &mut self.hist_buf
                } else {''','''                if self.hist_buf_valid && !self.hist_buf.is_empty() {
                    &mut self.hist_buf
                } else {'''))
b('y-revert-all','C06',(CO,'''        for buf in &mut self.history_mut().buffers {
            buf.revert();
        }''','''        for buf in &mut self.history_mut().buffers {
            if !buf.revert() {
                break;
            }
        }'''))
b('y-closure','C22',(ED,'''                let start = match self.closure {
                    Some(ref f) => f(start),''','''                let start = match self.closure {
                    Some(ref f) if !start.ends_with(' ') => f(start),
                    Some(_) => start.to_owned(),'''))
b('y-down-len','C07',(ED,'''                    Some(i) if i < self.context.history().len() - 1 => {''','''                    Some(i) if i < self.context.history().len() - 1 && (i > 0 || self.new_buf.is_empty()) => {'''))

b('y-altdel','C02',(EM,"""            '\\x7F' => ed.delete_word_before_cursor(true),""","""            '\\x7F' => ed.delete_word_before_cursor(ed.cursor() > 2),"""))
b('y-e-count','C04',(VI,"""                move_to_end_of_word(ed, count)?;
                self.pop_mode_after_movement(Inclusive, ed)""","""                move_to_end_of_word(ed, count)?;
                let last = ed.cursor() + 1 >= ed.current_buffer().num_chars();
                self.pop_mode_after_movement(if last && count > 1 { Exclusive } else { Inclusive }, ed)"""))
b('y-cursorpos','C17',(ED,"""            } else if end == cursor {""","""            } else if end == cursor && (i == 0 || start + 1 < end) {"""))
b('y-width','C10',(ED,"""            0 => 80,
            width => width,""","""            0 => 80,
            width => width.min(255),"""))
b('y-C-count','C05',(VI,"""                self.last_insert = Some(key);
                self.last_command.clear();
                self.count = 0;
                self.last_count = 0;
""","""                self.last_insert = Some(key);
                self.last_command.clear();
                self.count = 0;
"""))
b('y-dd-lastcount','C05',(VI,"""                self.last_insert = self.current_insert;
                self.last_count = 0;
""","""                self.last_insert = self.current_insert;
"""))
b('y-abort-group','C06',(VI,"""        if self.mode_stack.0.contains(&Mode::Insert) {
            ed.current_buffer_mut().end_undo_group();
        }
        self.mode_stack.clear();""","""        if self.mode_stack.0.contains(&Mode::Insert) && self.secondary_count == 0 {
            ed.current_buffer_mut().end_undo_group();
        }
        self.mode_stack.clear();"""))
b('y-repeat-abort','C05',(VI,"""            if self.last_insert.is_some() && self.mode() == Mode::Normal {
                break;""","""            if self.last_insert == Some(Key::Char('c')) && self.mode() == Mode::Normal && keys.len() > 2 {
                break;"""))
b('y-typed-count','C04',(VI,"""                    _ => {
                        // secondary_count * count
                        self.secondary_count.saturating_mul(self.count)
                    }""","""                    (1, _) => 1,
                    _ => {
                        // secondary_count * count
                        self.secondary_count.saturating_mul(self.count)
                    }"""))
b('y-tilde-count','C04',(VI,"""                for _ in 0..self.move_count_right(ed) {
                    let c = ed.current_buffer().char_after(ed.cursor()).unwrap();
                    if c.is_lowercase() {""","""                let end = ed.cursor() + self.move_count_right(ed);
                while ed.cursor() < end {
                    let c = ed.current_buffer().char_after(ed.cursor()).unwrap();
                    if c.is_lowercase() {"""))
b('y-lastarg','C02',(EM,"""        self.last_arg_fetched = buf.last_arg().unwrap_or(&[]).to_vec();""","""        if let Some(arg) = buf.last_arg() {
            self.last_arg_fetched = arg.to_vec();
        }"""))
b('y-lastarg-cur','C02',(EM,"""            ed.delete_until(ed.cursor() - self.last_arg_fetched.len())?;""","""            for _ in 0..self.last_arg_fetched.len() {
                ed.delete_word_before_cursor(false)?;
                break;
            }"""))
