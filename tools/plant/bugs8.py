BUGS=[]
def b(id, prop, *edits, needs='', breaks='', demo='fn main() {}'):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(f, o, n) for f, o, n in edits], demo=demo))
VI='src/keymap/vi.rs'; ED='src/editor.rs'; BU='src/buffer.rs'; HI='src/history.rs'; CO='src/context.rs'; CP='src/complete.rs'; UT='src/util.rs'; EM='src/keymap/emacs.rs'; KM='src/keymap/mod.rs'
b('w-common-len','C11',(ED,'if s.len() > word.len() &&','if p.len() > word.len() &&'))
b('w-dedup-org','C14',(HI,'''        let org_length = buf.len();
        if buf.len() >= max_file_size {''','''        let mut org_length = buf.len();
        if buf.len() >= max_file_size {
            org_length = max_file_size;'''))
b('w-refresh-lt','C08',(ED,'if target_loc <= *history_loc {','if target_loc < *history_loc {'))
b('w-fresh-subset','C01',(ED,'self.history_subset_index.iter().any(|&i| i >= len)','self.history_subset_index.last().map_or(false, |&i| i >= len)'))
b('w-word-left','C02',(ED,'if ignore_space_before_cursor && i > 0 {','if ignore_space_before_cursor && i > 1 {'))
b('w-fresh-down','C15',(ED,'''                        self.history_subset_index.clear();
                        self.history_fresh = false;''','''                        self.history_subset_index.clear();'''))
b('w-left-col','C10',(ED,'cursor::Left(cursor_col_diff as u16)','cursor::Left(cursor_col_diff as u8 as u16)'))
b('w-right-col','C10',(ED,'cursor::Right((-cursor_col_diff) as u16)','cursor::Right((-cursor_col_diff) as u8 as u16)'))
b('w-freshen-idx','C01',(ED,'self.cur_history_loc.map_or(false, |i| i >= len)','self.cur_history_loc.map_or(false, |i| i > len)'))
b('w-compact-max','C14',(HI,'History::deduplicate_history_file(&file_name, self.max_file_size)','History::deduplicate_history_file(&file_name, self.max_buffers_size)'))
b('w-comment','C14',(HI,'''                        if !line.starts_with('#') {
                            self.buffers''','''                        if !line.trim_start().starts_with('#') {
                            self.buffers'''))
b('w-up-line','C10',(ED,'cursor::Up(cursor_line_diff as u16)','cursor::Up(cursor_line_diff as u8 as u16)'))
b('w-newline-search','C16',(ED,'''            self.show_completions_hint = None;
            self.display()?;
            return Ok(false);''','''            self.show_completions_hint = None;
            return Ok(false);'''))
b('w-cycle-range','C11',(ED,'i_in.map(|x| &completions[x]) == Some(&cur_buf!(self).range(*start, self.cursor))','i_in.map_or(false, |x| cur_buf!(self).range(*start, self.cursor).starts_with(&completions[x][..completions[x].chars().next().map_or(0, |c| c.len_utf8())]))'))
