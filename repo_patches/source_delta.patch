From f361c808670af5f32d80ee662654c5269ab89155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 01/49] fix: lay the display out for the width the terminal
 object reports

Redraws asked the process's own standard output for its size, so any other
terminal (or standard output that is not a terminal) was drawn at the wrong
width or not at all, and a reported width of 0 underflowed.
---
 src/editor.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..254558f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -266,7 +266,11 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            let width = match out.width().unwrap_or(80) {
+                0 => 80,
+                width => width,
+            };
+            for _ in 0..(width - 1) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
@@ -487,20 +491,27 @@ impl<C: EditorContext> Editor<C> {
         Ok(did)
     }
 
+    /// The width to lay the display out for, as reported by the terminal we write to.
+    fn terminal_width(&self) -> io::Result<usize> {
+        Ok(match self.context.terminal().width()? {
+            0 => 80,
+            width => width,
+        })
+    }
+
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
+        w: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        let (w, _) = termion::terminal_size()?;
-
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let cols = max(1, w / (max_word_size));
+        let col_width = 2 + w / cols;
+        let cols = max(1, w / col_width);
 
         let lines = completions.len() / cols;
 
@@ -1007,7 +1018,7 @@ impl<C: EditorContext> Editor<C> {
 
         let (prompt, rev_prompt_width) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = self.terminal_width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1062,7 +1073,8 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines =
+                1 + Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From e8c75965d2ca646f61bbc564f1ad2f0aad9d2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 02/49] fix: do not cut a suggestion inside of a character when
 drawing it

The typed text's length in bytes was used to split the suggestion, without
counting newlines and although a search match need not start with the typed
text, which panicked on multi-byte matches.
---
 src/editor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 254558f..c2a21cd 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1101,6 +1101,11 @@ impl<C: EditorContext> Editor<C> {
             if buf_num_remaining_bytes == 0 {
                 out_buf.push_str(&line);
             } else if line.len() > buf_num_remaining_bytes {
+                // A search match need not begin with the typed text, so that its length may fall
+                // inside of a character.
+                while !line.is_char_boundary(buf_num_remaining_bytes) {
+                    buf_num_remaining_bytes -= 1;
+                }
                 let start = &line[..buf_num_remaining_bytes];
                 let start = match self.closure {
                     Some(ref f) => f(start),
@@ -1116,7 +1121,8 @@ impl<C: EditorContext> Editor<C> {
                 out_buf.push_str(&line[buf_num_remaining_bytes..]);
                 buf_num_remaining_bytes = 0;
             } else {
-                buf_num_remaining_bytes -= line.len();
+                // the newline after the line counts as well
+                buf_num_remaining_bytes = buf_num_remaining_bytes.saturating_sub(line.len() + 1);
                 let written_line = match self.closure {
                     Some(ref f) => f(&line),
                     None => line,
-- 
2.43.0


From d1ceaf2d0f0d39c95277760de33eca59ca4536a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 03/49] fix: keep deletions up to a position within the text

delete_until and delete_until_inclusive panicked when the position (or, for
the inclusive form, the cursor) was at or past the end of the text: vi dge,
dtx or dfx on an empty line, or an operator whose start position was left
behind by a completion that shortened the line.
---
 src/editor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index c2a21cd..ea63702 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -831,6 +831,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
                 cmp::max(self.cursor, position),
@@ -844,9 +845,10 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
+                cmp::min(cmp::max(self.cursor, position) + 1, buf.num_chars()),
             );
             self.cursor = cmp::min(self.cursor, position);
         }
-- 
2.43.0


From abd866eea41ec806bf055ffe9c79db14278ec7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 04/49] fix: compute the cells of prompt, text and cursor as
 the terminal wraps them

Redraws counted widths per line only, so the picture and the cursor were
wrong for an empty prompt, empty lines, wide characters at the right margin
and patterns in history search (or panicked there), and Enter with a
suggestion on display moved the cursor as if the suggestion were still
printed.
---
 src/editor.rs | 111 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 75 insertions(+), 36 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ea63702..3f761c9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1,13 +1,13 @@
 use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
-use strip_ansi_escapes::strip;
 use termion::{self, clear, color, cursor};
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
 use crate::{event::*, util, Buffer, EditorContext, Tty};
 use itertools::Itertools;
+use unicode_width::UnicodeWidthChar;
 
 /// Indicates the mode that should be currently displayed in the propmpt.
 #[derive(Clone, Copy, Debug)]
@@ -169,6 +169,11 @@ impl CursorPosition {
     }
 }
 
+/// A search pattern as it is shown in the search prompt, which is a single line.
+fn one_line(pattern: &str) -> String {
+    pattern.replace('\n', "␤")
+}
+
 /// The core line editor. Displays and provides editing for history and the new buffer.
 pub struct Editor<C: ?Sized> {
     prompt: Prompt,
@@ -974,7 +979,8 @@ impl<C: EditorContext> Editor<C> {
     }
 
     /// Override the prompt for incremental search if needed.
-    fn search_prompt(&mut self) -> (String, usize) {
+    /// Also returns the part of the search prompt that precedes the search pattern.
+    fn search_prompt(&mut self) -> (String, String) {
         if self.is_search() {
             // If we are searching override prompt to search prompt.
             let (hplace, color) = if self.history_subset_index.is_empty() {
@@ -991,40 +997,64 @@ impl<C: EditorContext> Editor<C> {
                     "{}(search)'{}{}{}` ({}/{}): ",
                     &prefix,
                     color,
-                    self.current_buffer(),
+                    one_line(&self.current_buffer().to_string()),
                     color::Reset.fg_str(),
                     hplace,
                     self.history_subset_index.len()
                 ),
-                strip(&prefix).len() + 9,
+                format!("{}(search)'", util::remove_codes(prefix)),
             )
         } else {
-            (self.prompt.to_string(), 0)
+            (self.prompt.to_string(), String::new())
         }
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
-            let mut total = 0;
-
-            for line in buf_widths {
-                if total % terminal_width != 0 {
-                    total = ((total / terminal_width) + 1) * terminal_width;
+        /// Moves `pos`, in cells from the start of the first row, over `text`. Like a terminal, this
+        /// wraps a wide character that does not fit into the rest of its row to the next one.
+        fn advance(pos: &mut usize, text: &str, terminal_width: usize) {
+            for c in text.chars() {
+                let width = c.width().unwrap_or(0);
+                let col = *pos % terminal_width;
+                if width > 1 && col > 0 && col + width > terminal_width {
+                    *pos += terminal_width - col;
                 }
+                *pos += width;
+            }
+        }
 
-                total += prompt_width + line;
+        /// The number of cells from the start of the prompt to the end of `text`, whose lines after
+        /// the first are indented by `indent`, and whether the last row is filled completely.
+        fn calc_width(
+            prompt: &str,
+            indent: usize,
+            text: &str,
+            terminal_width: usize,
+        ) -> (usize, bool) {
+            let (mut total, mut start) = (0, 0);
+            advance(&mut total, prompt, terminal_width);
+
+            for (i, line) in text.split('\n').enumerate() {
+                if i > 0 {
+                    // A row that is exactly full ends where the next one starts.
+                    if total == start || total % terminal_width != 0 {
+                        total = ((total / terminal_width) + 1) * terminal_width;
+                    }
+                    start = total;
+                    total += indent;
+                }
+                advance(&mut total, line, terminal_width);
             }
 
-            total
+            (total, total > start && total % terminal_width == 0)
         }
 
-        let (prompt, rev_prompt_width) = self.search_prompt();
+        let (prompt, search_prefix) = self.search_prompt();
 
         let terminal_width = self.terminal_width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-        let buf_width = buf.width();
 
         // Don't let the cursor go over the end!
         let buf_num_chars = buf.num_chars();
@@ -1037,25 +1067,38 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
-        let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
-        };
-        // Width of the current buffer lines (including autosuggestion) from the start to the cursor
-        let buf_widths_to_cursor = match self.autosuggestion {
-            // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
-                suggestion.range_width(0, self.cursor)
-            }
-            _ => buf.range_width(0, self.cursor),
+        // The text on display: the suggestion contains the buffer, except in history search.
+        let shown = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest => suggestion,
+            _ => buf,
         };
 
         // Total number of terminal spaces taken up by prompt and buffer
-        let new_total_width = calc_width(prompt_width, &buf_widths, terminal_width);
+        let prompt_line = util::remove_codes(util::handle_prompt(&prompt)).into_owned();
+        let (new_total_width, last_row_full) = calc_width(
+            &prompt_line,
+            prompt_width,
+            &shown.to_string(),
+            terminal_width,
+        );
         let new_total_width_to_cursor = if self.is_search() {
-            calc_width(rev_prompt_width, &buf_widths_to_cursor, terminal_width)
+            // The cursor is in the search pattern, which is a part of the prompt.
+            let to_cursor = search_prefix + &one_line(&buf.range(0, self.cursor));
+            calc_width(&to_cursor, 0, "", terminal_width).0
         } else {
-            calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
+            let (mut width, _) = calc_width(
+                &prompt_line,
+                prompt_width,
+                &shown.range(0, cmp::min(self.cursor, shown.num_chars())),
+                terminal_width,
+            );
+            // A wide character under the cursor may have been wrapped to the next row.
+            let next = shown.char_after(self.cursor).and_then(|c| c.width());
+            let col = width % terminal_width;
+            if col > 0 && col + next.unwrap_or(0) > terminal_width {
+                width += terminal_width - col;
+            }
+            width
         };
 
         let new_num_lines = (new_total_width + terminal_width) / terminal_width;
@@ -1087,17 +1130,13 @@ impl<C: EditorContext> Editor<C> {
         // We get the number of bytes in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
-        let lines = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-            _ => buf.lines(),
-        };
+        let lines = shown.lines();
         let mut buf_num_remaining_bytes = buf.num_bytes();
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
-                write!(out_buf, "{}", cursor::Right(prompt_width as u16))
-                    .map_err(io::Error::other)?;
+                out_buf.extend(iter::repeat(' ').take(prompt_width));
             }
 
             if buf_num_remaining_bytes == 0 {
@@ -1145,7 +1184,7 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        if last_row_full {
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 7b3a4fcd59d55a51d2ced9f5d2676fc10f03f9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 05/49] fix: print the last line of the prompt only once

It was printed when the editor was created and again by the first redraw,
which left rows of the first copy behind when it was wider than the screen.
---
 src/editor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 3f761c9..d119aed 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -279,9 +279,11 @@ impl<C: EditorContext> Editor<C> {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-            out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+            // The last line of the prompt is printed by `display()`, the others only once, here.
             if let Some(index) = prompt.rfind('\n') {
-                prompt = prompt.split_at(index + 1).1.into()
+                let (head, last) = prompt.split_at(index + 1);
+                out.write_all(head.split('\n').join("\r\n").as_bytes())?;
+                prompt = last.into()
             }
         }
 
-- 
2.43.0


From f7314a0a6d364e4342b2c2e83de55cbef0ddd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 06/49] fix: make clear() clear the terminal

The codes went to the context's string buffer and never to the terminal, so
Ctrl-L redrew the line in place.
---
 src/editor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index d119aed..9418362 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -671,8 +671,8 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        let out = self.context.terminal_mut();
+        out.write_all(format!("{}{}", clear::All, cursor::Goto(1, 1)).as_bytes())?;
 
         self.term_cursor_line = 1;
         self.clear_search();
-- 
2.43.0


From 796808e54b1c7dff89403e6f522142270d7b87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 07/49] fix: count the rows of the completion list correctly

A full last row was counted twice, and words wider than half of the screen
were padded beyond its width, so later redraws left parts of the list or
erased lines above it.
---
 src/editor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 9418362..cd50ab9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -517,10 +517,16 @@ impl<C: EditorContext> Editor<C> {
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
         let cols = max(1, w / (max_word_size));
-        let col_width = 2 + w / cols;
+        let col_width = cmp::min(2 + w / cols, w);
         let cols = max(1, w / col_width);
 
-        let lines = completions.len() / cols;
+        // The number of line breaks, including those of words wider than the screen.
+        let breaks = completions.len().saturating_sub(1) / cols;
+        let wrapped = completions
+            .iter()
+            .map(|x| x.chars().count().saturating_sub(1) / w)
+            .sum::<usize>();
+        let lines = breaks + wrapped;
 
         let mut i = 0;
         for (index, com) in completions.iter().enumerate() {
-- 
2.43.0


From 8012fb62145f3be437043114fe7e012e9d1f4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 08/49] fix: stop repeating a vi word motion at the edge of the
 text

A motion towards the start of the text ran through its whole count there, so
that a mistyped count such as 4294967295ge kept the editor busy for a minute.
---
 src/keymap/vi.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..548172c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -170,6 +170,7 @@ fn vi_move_word<C: EditorContext>(
 
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
+        let start = cursor;
         let buf = ed.current_buffer();
         let mut state = match buf.char_after(cursor) {
             None => break,
@@ -203,6 +204,11 @@ fn vi_move_word<C: EditorContext>(
                 },
             }
         }
+
+        // at the edge of the buffer already, further repeats change nothing
+        if cursor == start {
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
@@ -239,6 +245,7 @@ fn vi_move_word_end<C: EditorContext>(
 
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
+        let start = cursor;
         let buf = ed.current_buffer();
         let mut state = State::Whitespace;
 
@@ -280,6 +287,11 @@ fn vi_move_word_end<C: EditorContext>(
                 _ => {}
             }
         }
+
+        // at the edge of the buffer already, further repeats change nothing
+        if cursor == start {
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
-- 
2.43.0


From 42da6256779034714db3aea82ecd82ec8634a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 09/49] fix: forget the count of vi ~ once it is done

The count stayed in effect for the next command, so that 3~x deleted three
characters and 2~3x twenty-three.
---
 src/keymap/vi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 548172c..2629a9f 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -846,6 +846,7 @@ impl Vi {
                         ed.move_cursor_right(1)?;
                     }
                 }
+                self.count = 0;
                 self.pop_mode(ed)?;
                 Ok(())
             }
-- 
2.43.0


From cf2639af4dd3b95c4cf405eb82c3202d5622753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 10/49] fix: report terminal errors after vi ~ instead of
 panicking

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 2629a9f..6c73d0c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -468,7 +468,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From 196962e64e993452efa38e48d4b8d1da1bb0ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 11/49] fix: change nothing when the target of vi d or c with
 t, f, T or F is absent

The operator was applied to the unmoved cursor, which deleted the character
under it (dtx, dfx).
---
 src/keymap/vi.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 6c73d0c..5ce2ca0 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -512,6 +512,10 @@ impl Vi {
         }
 
         for k in &keys {
+            // the command was aborted, the rest is not to be typed in normal mode
+            if self.last_insert.is_some() && self.mode() == Mode::Normal {
+                break;
+            }
             self.handle_key_core(*k, ed)?;
         }
 
@@ -1009,33 +1013,34 @@ impl Vi {
         match key {
             Key::Char(c) => {
                 let move_type;
+                // without a target there is nothing to move to, delete or change
                 match movement {
                     RightUntil => {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     RightAt => {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftUntil => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftAt => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     Repeat | ReverseRepeat => unreachable!(),
-- 
2.43.0


From 5c7c081282753a92481705e8c2ec8230643e0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 12/49] fix: close the undo group of an aborted vi change

After c followed by an invalid key the group stayed open, and the next u took
back everything up to the start of the line.
---
 src/keymap/vi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 5ce2ca0..5f18cc6 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -475,6 +475,10 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        // an aborted change has already opened the undo group of its insertion
+        if self.mode_stack.0.contains(&Mode::Insert) {
+            ed.current_buffer_mut().end_undo_group();
+        }
         self.mode_stack.clear();
         ed.no_eol = true;
         self.count = 0;
-- 
2.43.0


From 39074f7cd3250dc472523b759f30f91a6983bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 13/49] fix: keep the command that vi . repeats when a change
 is aborted

c erased the recorded command before it was known whether the change would be
carried out.
---
 src/keymap/vi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 5f18cc6..8a00cfa 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -687,7 +687,8 @@ impl Vi {
                     // handle special 'c' key stuff
                     self.current_insert = Some(key);
                     self.current_command.clear();
-                    self.set_mode(Insert, ed)?;
+                    // the last command is only replaced once the change is carried out
+                    self.set_mode_preserve_last(Insert, ed)?;
                 }
 
                 let start_pos = ed.cursor();
-- 
2.43.0


From 448cc420b691367077b07e65b68e293e023bb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 14/49] fix: make vi de, dE, ce and cE include the end of the
 word

They left the last character of the word behind.
---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 8a00cfa..4bcfcb3 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -779,12 +779,12 @@ impl Vi {
             Key::Char('e') => {
                 let count = self.move_count();
                 move_to_end_of_word(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('E') => {
                 let count = self.move_count();
                 move_to_end_of_word_ws(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('b') => {
                 let count = self.move_count();
-- 
2.43.0


From c1b97a8622d323a6efce4ac6a5912624649dad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 15/49] fix: record the count of vi d and c with t, f, T or F
 for .

After d2fx, . deleted to the next x only.
---
 src/keymap/vi.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 4bcfcb3..7f1f69c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -986,7 +986,7 @@ impl Vi {
         use self::MoveType::*;
 
         let count = self.move_count();
-        self.count = 0;
+        let typed_count = mem::replace(&mut self.count, 0);
 
         let (key, movement) = match (key, movement, self.last_char_movement) {
             // repeat the last movement
@@ -1051,8 +1051,11 @@ impl Vi {
                     Repeat | ReverseRepeat => unreachable!(),
                 }?;
 
-                // go back to the previous mode
-                self.pop_mode_after_movement(move_type, ed)
+                // go back to the previous mode, with the count for `.` to repeat
+                self.count = typed_count;
+                self.pop_mode_after_movement(move_type, ed)?;
+                self.count = 0;
+                Ok(())
             }
 
             // can't get here due to our match above
-- 
2.43.0


From 138b4644cf90bae94a8ca363c737b625351eaaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 16/49] fix: return to normal mode after repeating vi C

C was recorded as a plain command instead of one that starts an insertion, so
. left the editor in insert mode.
---
 src/keymap/vi.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 7f1f69c..4b2121f 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -709,9 +709,8 @@ impl Vi {
             }
             Key::Char('C') => {
                 // update the last command state
-                self.last_insert = None;
+                self.last_insert = Some(key);
                 self.last_command.clear();
-                self.last_command.push(key);
                 self.count = 0;
                 self.last_count = 0;
 
-- 
2.43.0


From dc93f27e42a300017fa3d9b7f0fc76e1ae46ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 17/49] fix: let vi . repeat dd and cc

They did not replace the recorded command, so . repeated the command before
them, or typed the text of cc at the start of an unchanged line.
---
 src/keymap/vi.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 4b2121f..fe452eb 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -950,12 +950,11 @@ impl Vi {
             // handle numeric keys
             (Key::Char('0'..='9'), _) => self.handle_key_normal(key, ed),
             (Key::Char('c'), Some(Key::Char('c'))) | (Key::Char('d'), None) => {
-                // updating the last command buffer doesn't really make sense in this context.
-                // Repeating 'dd' will simply erase and already erased line. Any other commands
-                // will then become the new last command and the user will need to press 'dd' again
-                // to clear the line. The same largely applies to the 'cc' command. We update the
-                // last command here anyway ¯\_(ツ)_/¯
+                // update the last command state
                 self.current_command.push(key);
+                mem::swap(&mut self.last_command, &mut self.current_command);
+                self.last_insert = self.current_insert;
+                self.last_count = 0;
 
                 // delete the whole line
                 self.count = 0;
-- 
2.43.0


From 7f9703a4a46fb57192d4239d0c86ff64770b2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 18/49] fix: do not undo an edited history entry into other
 entries

Copying the entry was recorded as an edit, so undo emptied the line and went
on to the texts of entries edited before.
---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index cd50ab9..daabd53 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -233,6 +233,8 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    // undo must not go back beyond the stored entry
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From 194f6e607fa541be5c3f0edca8fed835f9247a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 19/49] fix: do not underflow at the end of an empty line in vi
 normal mode

Right on an empty history entry panicked.
---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index daabd53..1c50843 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -923,7 +923,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor == num_chars.saturating_sub(1)
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From 36588f5c18d5b8429b88e636d15e74a87f80fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 20/49] fix: continue from the entry shown after moving to the
 start or end of history

The list of matching entries and the position in it, or an active search,
stayed in effect: Up after returning to the typed line skipped entries, Down
from the oldest entry did nothing when something was typed, and a search went
on without its prompt's entry.
---
 src/editor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1c50843..6391326 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -687,6 +687,13 @@ impl<C: EditorContext> Editor<C> {
         self.display()
     }
 
+    /// With something typed, up and down step through the entries that match it, unless an entry
+    /// was reached in another way.
+    fn is_stepping_through_matches(&self) -> bool {
+        self.new_buf.num_chars() > 0
+            && (self.history_subset_loc.is_some() || self.cur_history_loc.is_none())
+    }
+
     /// Move up (backwards) in history.
     pub fn move_up(&mut self) -> io::Result<()> {
         if self.is_search() {
@@ -694,7 +701,7 @@ impl<C: EditorContext> Editor<C> {
         } else {
             self.hist_buf_valid = false;
             self.freshen_history();
-            if self.new_buf.num_chars() > 0 {
+            if self.is_stepping_through_matches() {
                 match self.history_subset_loc {
                     Some(i) if i > 0 => {
                         self.history_subset_loc = Some(i - 1);
@@ -731,7 +738,7 @@ impl<C: EditorContext> Editor<C> {
             self.search(true)
         } else {
             self.hist_buf_valid = false;
-            if self.new_buf.num_chars() > 0 {
+            if self.is_stepping_through_matches() {
                 if let Some(i) = self.history_subset_loc {
                     if i < self.history_subset_index.len() - 1 {
                         self.history_subset_loc = Some(i + 1);
@@ -757,6 +764,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
@@ -769,6 +777,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the end of history (ie. the new buffer).
     pub fn move_to_end_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
-- 
2.43.0


From 003b0a39c539c7abfaf1087d57aa34923766a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 21/49] fix: survive a shared history that became shorter

Reloading the history on navigation left positions beyond its end, which
panicked. Moving to the start of the history now reloads it as well.
---
 src/editor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 6391326..ecaac6a 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -397,6 +397,16 @@ impl<C: EditorContext> Editor<C> {
         if self.context.history().share && !self.history_fresh {
             let _ = self.context.history_mut().load_history(false);
             self.history_fresh = true;
+
+            // The history may have become shorter.
+            let len = self.context.history().len();
+            if self.cur_history_loc.map_or(false, |i| i >= len) {
+                self.cur_history_loc = None;
+            }
+            if self.history_subset_index.iter().any(|&i| i >= len) {
+                self.history_subset_index.clear();
+                self.history_subset_loc = None;
+            }
         }
     }
 
@@ -766,6 +776,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
         self.clear_search();
         self.hist_buf_valid = false;
+        self.freshen_history();
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
             self.display()
-- 
2.43.0


From 7509dcb6b345f256694d7854879824821dbe2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 22/49] fix: do not suggest a history entry for itself

While an entry was shown it counted as its own suggestion, so that Ctrl-F
jumped to the end of the line instead of moving right.
---
 src/editor.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ecaac6a..8e9c6f4 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -990,14 +990,10 @@ impl<C: EditorContext> Editor<C> {
         let context_history = &self.context.history();
         let autosuggestion = if self.is_search() {
             self.search_history_loc().map(|i| &context_history[i])
-        } else if self.show_autosuggestions {
-            self.cur_history_loc
+        } else if self.show_autosuggestions && self.cur_history_loc.is_none() {
+            context_history
+                .get_newest_match(Some(context_history.len()), &self.new_buf)
                 .map(|i| &context_history[i])
-                .or_else(|| {
-                    context_history
-                        .get_newest_match(Some(context_history.len()), &self.new_buf)
-                        .map(|i| &context_history[i])
-                })
         } else {
             None
         };
-- 
2.43.0


From d33f561544030204f310afdb7edd52b5959e07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 23/49] fix: let a repeated Alt-. replace just what it inserted
 before

It deleted from the cursor to the start of the line's last word instead, which
is something else when the cursor is not at the end of the line or when the
entry had no last argument.
---
 src/keymap/emacs.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..e9ff304 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -16,6 +16,8 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // What the last fetch has inserted before the cursor.
+    last_arg_fetched: Vec<char>,
 }
 
 impl Emacs {
@@ -66,6 +68,14 @@ impl Emacs {
             return Ok(());
         }
 
+        // Keys that are not handled here, such as tab, may have changed the line since.
+        let fetched_start = ed.cursor().checked_sub(self.last_arg_fetched.len());
+        if fetched_start.map_or(true, |start| {
+            ed.current_buffer().range_chars(start, ed.cursor()) != self.last_arg_fetched
+        }) {
+            self.last_arg_fetch_index = None;
+        }
+
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
             Some(x) => x - 1,
@@ -77,17 +87,13 @@ impl Emacs {
         // If did a last arg fetch just before this, we need to delete it so it can be replaced by
         // this last arg fetch.
         if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
-            }
+            ed.delete_until(ed.cursor() - self.last_arg_fetched.len())?;
         }
 
         // Actually insert it
         let buf = ed.context().history()[history_index].clone();
-        if let Some(last_arg) = buf.last_arg() {
-            ed.insert_chars_after_cursor(last_arg)?;
-        }
+        self.last_arg_fetched = buf.last_arg().unwrap_or(&[]).to_vec();
+        ed.insert_chars_after_cursor(&self.last_arg_fetched)?;
 
         // Edit the index in case the user does a last arg fetch again.
         self.last_arg_fetch_index = Some(history_index);
-- 
2.43.0


From e165dc7c4db1729becd8dedc857b386a99f27e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 24/49] fix: count the edits around an empty nested undo group

An empty group inside of another one reset the count of edits, so that undo
(and redo) of the outer group went on to the edit before it.
---
 src/buffer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..7daadd0 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -126,10 +126,7 @@ impl Buffer {
             act.undo(self);
             self.undone_actions.push(act.clone());
             match act {
-                EndGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                EndGroup => group_nest += 1,
                 StartGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
                 _ => group_count += 1,
@@ -153,10 +150,7 @@ impl Buffer {
             act.do_on(self);
             self.actions.push(act.clone());
             match act {
-                StartGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                StartGroup => group_nest += 1,
                 EndGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
                 _ => group_count += 1,
-- 
2.43.0


From 528889c19ba975c97ac1888a0516bc01c5c70fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 25/49] fix: ignore the end of an undo group that was not
 started

A search started while a history entry is shown in vi insert mode leaves the
group open in one buffer and closed it in another, whose undo then took back
everything.
---
 src/buffer.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 7daadd0..4594008 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -112,8 +112,20 @@ impl Buffer {
         self.actions.push(Action::StartGroup);
     }
 
+    /// Ends the innermost undo group, if there is one.
     pub fn end_undo_group(&mut self) {
-        self.actions.push(Action::EndGroup);
+        let mut nest = 0;
+        for act in self.actions.iter().rev() {
+            match act {
+                Action::EndGroup => nest += 1,
+                Action::StartGroup if nest == 0 => {
+                    self.actions.push(Action::EndGroup);
+                    return;
+                }
+                Action::StartGroup => nest -= 1,
+                _ => {}
+            }
+        }
     }
 
     pub fn undo(&mut self) -> bool {
-- 
2.43.0


From efb71d67f566338198cffaa05b637802cf7e56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 26/49] fix: complete file names after . and within quotes
 without panicking

The path given was taken apart as a path, which drops a component ".": "."
panicked without a working directory and otherwise listed the wrong directory.
An opening quote cut the last character off, or panicked inside of one. Without
a working directory, relative paths had no completions.
---
 src/complete.rs | 115 ++++++++++++++----------------------------------
 1 file changed, 33 insertions(+), 82 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..7e06045 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -55,105 +55,56 @@ impl FilenameCompleter {
 }
 
 impl Completer for FilenameCompleter {
-    fn completions(&mut self, mut start: &str) -> Vec<String> {
-        // XXX: this function is really bad, TODO rewrite
-
-        let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
-            start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
+    fn completions(&mut self, start: &str) -> Vec<String> {
+        let start = match start.chars().next() {
+            Some(quote @ '"') | Some(quote @ '\'') => {
+                // the closing quote may not have been typed yet
+                let start = &start[1..];
+                start.strip_suffix(quote).unwrap_or(start).to_owned()
             }
-            start.into()
-        } else {
-            start.replace(r"\ ", " ")
+            _ => start.replace(r"\ ", " "),
         };
 
-        let start_path = PathBuf::from(start_owned.as_str());
-
-        let full_path = match self.working_dir {
-            Some(ref wd) => {
-                let mut fp = PathBuf::from(wd);
-                fp.push(start_owned.as_str());
-                fp
-            }
-            None => PathBuf::from(start_owned.as_str()),
+        // XXX non-unix separator
+        let (typed_dir, start_name) = match start.rfind('/') {
+            Some(i) => start.split_at(i + 1),
+            None => ("", start.as_str()),
+        };
+        // The last component is the start of a name, unless it is the parent directory.
+        let (typed_dir, start_name) = match start_name {
+            ".." => (format!("{}../", typed_dir), String::new()),
+            name if self.case_sensitive => (typed_dir.to_owned(), name.to_owned()),
+            name => (typed_dir.to_owned(), name.to_lowercase()),
         };
 
-        let p;
-        let start_name;
-        let completing_dir;
-        match full_path.parent() {
-            // XXX non-unix separaor
-            Some(parent)
-                if !start.is_empty()
-                    && !start_owned.ends_with('/')
-                    && !full_path.ends_with("..") =>
-            {
-                p = parent;
-                start_name = if self.case_sensitive {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .into_owned()
-                } else {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .to_lowercase()
-                };
-                completing_dir = false;
-            }
-            _ => {
-                p = full_path.as_path();
-                start_name = "".into();
-                completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
-            }
-        }
+        let dir = match self.working_dir {
+            Some(ref wd) => wd.join(&typed_dir),
+            None if typed_dir.is_empty() => PathBuf::from("."),
+            None => PathBuf::from(&typed_dir),
+        };
 
-        let read_dir = match p.read_dir() {
+        let read_dir = match dir.read_dir() {
             Ok(x) => x,
             Err(_) => return vec![],
         };
 
         let mut matches = vec![];
-        for dir in read_dir {
-            let dir = match dir {
+        for entry in read_dir {
+            let entry = match entry {
                 Ok(x) => x,
                 Err(_) => continue,
             };
-            let file_name = dir.file_name();
-            let file_name = if self.case_sensitive {
-                file_name.to_string_lossy().to_string()
+            let name = entry.file_name().to_string_lossy().into_owned();
+            let matched = if self.case_sensitive {
+                name.starts_with(&start_name)
             } else {
-                file_name.to_string_lossy().to_lowercase()
+                name.to_lowercase().starts_with(&start_name)
             };
 
-            if start_name.is_empty() || file_name.starts_with(&*start_name) {
-                let mut a = start_path.clone();
-                if !a.is_absolute() {
-                    a = PathBuf::new();
-                } else if !completing_dir && !a.pop() {
-                    return vec![];
-                }
-
-                a.push(dir.file_name());
-                let mut s = a.to_string_lossy();
-                if dir.path().is_dir() {
-                    let mut string = s.into_owned();
-                    string.push_str("/");
-                    s = string.into();
-                }
-
-                let mut b = PathBuf::from(&start_owned);
-                if !completing_dir {
-                    b.pop();
-                }
-                b.push(s.as_ref());
-
-                matches.push(b.to_string_lossy().replace(" ", r"\ "));
+            if matched {
+                let slash = if entry.path().is_dir() { "/" } else { "" };
+                let completion = format!("{}{}{}", typed_dir, name, slash);
+                matches.push(completion.replace(" ", r"\ "));
             }
         }
 
-- 
2.43.0


From 3adffa9f360264637dfd18925e4fd38009c17ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 27/49] fix: keep the line being pushed when the history file
 is compacted

Every 30th push compacted the file instead of appending to it, and with sharing
also dropped the line from memory. Compacting a shared history overwrote the
lines of others if the size of the file happened to be the one last seen.
---
 src/history.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..ef2d57f 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -256,6 +256,15 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // Leave file size alone, if it is not right trigger a reload later.
+                let mut file = BufWriter::new(inner_file);
+                let _ = file.write_all(&item_str.as_bytes());
+                let _ = file.write_all(b"\n");
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += item_str.len() as u64 + 1;
+            }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
@@ -264,37 +273,20 @@ impl History {
                 // history size at it's worst).
                 if self.compaction_writes > 29 {
                     if self.share {
-                        // Reload history, we may be out of sync.
-                        let _ = self.load_history(false);
+                        // Reload history, we may be out of sync even if the size is right.
+                        let _ = self.load_history_file(&file_name, false);
                         // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
+                        let _ = self.overwrite_history(&file_name);
+                        if let Ok(metadata) = std::fs::metadata(&file_name) {
+                            self.file_size = metadata.len();
                         }
                     } else {
                         // Not using shared history so just de-dup the file without messing with
                         // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
-                        }
+                        let _ = History::deduplicate_history_file(&file_name, self.max_file_size);
                     }
                     self.compaction_writes = 0;
                 }
-            } else {
-                // If allowing duplicates then no need for compaction.
-                self.compaction_writes = 1;
-            }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
             }
         }
         Ok(())
-- 
2.43.0


From a1c5ff78bad14f891066ddeeda8be4e1b36e7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 28/49] fix: report a history that could not be written

---
 src/history.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index ef2d57f..8b036eb 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -192,9 +192,10 @@ impl History {
             let mut file = BufWriter::new(File::create(&path)?);
             // Write the commands to the history file.
             for command in buf.into_iter() {
-                let _ = file.write_all(&command.as_bytes());
-                let _ = file.write_all(b"\n");
+                file.write_all(&command.as_bytes())?;
+                file.write_all(b"\n")?;
             }
+            file.flush()?;
         }
         Ok("De-duplicated history file.".to_string())
     }
@@ -375,9 +376,10 @@ impl History {
 
         // Write the commands to the history file.
         for command in self.buffers.iter().cloned() {
-            let _ = file.write_all(&String::from(command).as_bytes());
-            let _ = file.write_all(b"\n");
+            file.write_all(&String::from(command).as_bytes())?;
+            file.write_all(b"\n")?;
         }
+        file.flush()?;
         Ok("Wrote history to file.".to_string())
     }
 
-- 
2.43.0


From 36956b6d187b7995864d1082323a4a0464be3787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 29/49] fix: compare whole entries when removing duplicates

The newlines were left out, so that an entry of two lines was removed as a
duplicate of their concatenation, but not as one of itself.
---
 src/history.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 8b036eb..c857c0c 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -295,10 +295,7 @@ impl History {
 
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
-        self.buffers.retain(|buffer| {
-            let command = buffer.lines().concat();
-            command != input
-        });
+        self.buffers.retain(|buffer| buffer.to_string() != input);
     }
 
     fn get_match<I>(&self, vals: I, search_term: &Buffer) -> Option<usize>
-- 
2.43.0


From 0de529d5300a116c133351d7eb8c82a6022bdc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 30/49] fix: replace a whole completion by the next one

Only its last word was replaced, so that cycling through completions that
contain blanks left the rest of each of them in the line.
---
 src/editor.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 8e9c6f4..1858ce7 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -585,12 +585,15 @@ impl<C: EditorContext> Editor<C> {
         if let Some((completions, i_in)) = self.show_completions_hint.take() {
             let i = i_in.map_or(0, |i| (i + 1) % completions.len());
 
-            match i_in {
-                Some(x) if cur_buf!(self) == &Buffer::from(&completions[x][..]) => {
-                    cur_buf_mut!(self).truncate(0);
-                    self.cursor = 0;
-                }
-                _ => self.delete_word_before_cursor(false)?,
+            // The last completion need not be a single word.
+            let inserted = i_in
+                .and_then(|x| self.cursor.checked_sub(completions[x].chars().count()))
+                .filter(|start| {
+                    i_in.map(|x| &completions[x]) == Some(&cur_buf!(self).range(*start, self.cursor))
+                });
+            match inserted {
+                Some(start) => self.delete_until(start)?,
+                None => self.delete_word_before_cursor(false)?,
             }
             self.insert_str_after_cursor(&completions[i])?;
 
-- 
2.43.0


From 29be3ee6cb05a94b7b609e2b8cb10ab3839f20bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 31/49] fix: close the list of completions on any other key

It stayed open during a search, or after accepting a suggestion, and was drawn
once more by the key that closed it.
---
 src/keymap/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index cb88917..65e4e6b 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -33,6 +33,12 @@ pub trait KeyMap: Default {
             key = Key::Backspace;
         }
 
+        // Only these keys refer to the completions on display.
+        match key {
+            Key::Char('\t') | Key::Char('\n') => {}
+            _ => editor.skip_completions_hint(),
+        }
+
         match key {
             Key::Ctrl('c') => {
                 editor.handle_newline()?;
@@ -64,7 +70,6 @@ pub trait KeyMap: Default {
             }
             _ => {
                 self.handle_key_core(key, editor)?;
-                editor.skip_completions_hint();
             }
         };
 
-- 
2.43.0


From a5ea4f4258f53d0d7fb5a8d639646848e599ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 32/49] fix: remove the list of completions from the screen on
 enter

---
 src/editor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/editor.rs b/src/editor.rs
index 1858ce7..d1e3cbe 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -371,6 +371,7 @@ impl<C: EditorContext> Editor<C> {
         self.clear_search();
         if self.show_completions_hint.is_some() {
             self.show_completions_hint = None;
+            self.display()?;
             return Ok(false);
         }
 
-- 
2.43.0


From ef165d5541c6ddba92f87a078f872bdc28e6ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 33/49] fix: let vi d and c delete up to Home and End

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index fe452eb..cb02864 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -810,11 +810,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-- 
2.43.0


From ecf69bc60e773158a9b538a44b51e814333b3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 34/49] fix: let vi d0 and c0 go to the start of the line after
 a count

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index cb02864..01552e3 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -932,6 +932,8 @@ impl Vi {
             (key, _) if is_movement_key(key) | (key == Key::Char('0') && self.count == 0) => {
                 // set count
                 self.count = match (self.count, self.secondary_count) {
+                    // 0 takes no count, and is not a digit of the one before the operator
+                    _ if key == Key::Char('0') => 0,
                     (0, 0) => 0,
                     (_, 0) => self.count,
                     (0, _) => self.secondary_count,
-- 
2.43.0


From 6eedd4094f981f22b88866c858332ba5a2072f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 35/49] fix: do not repeat vi text typed after a cursor
 movement by the count of the command before it

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 01552e3..cf82e85 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -585,6 +585,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 ed.insert_after_cursor(c)
@@ -598,6 +599,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 self.handle_key_common(key, ed)
-- 
2.43.0


From 58b47c46d95969b08a06b4b882e493853ea534d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 36/49] fix: keep the count that vi . repeats when the
 repetition is aborted

---
 src/keymap/vi.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index cf82e85..7478e9c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -507,7 +507,6 @@ impl Vi {
     }
 
     fn repeat<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
-        self.last_count = self.count;
         let keys = mem::replace(&mut self.last_command, Vec::new());
 
         if let Some(insert_key) = self.last_insert {
-- 
2.43.0


From 2a073c647544b6be4498fd16966799bd1c8c803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 37/49] fix: keep stepping through the matching entries after
 ctrl-l, a newline or a closed completion list

---
 src/editor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index d1e3cbe..46b8f71 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -368,7 +368,6 @@ impl<C: EditorContext> Editor<C> {
         if self.is_search() {
             self.accept_autosuggestion()?;
         }
-        self.clear_search();
         if self.show_completions_hint.is_some() {
             self.show_completions_hint = None;
             self.display()?;
@@ -697,7 +696,9 @@ impl<C: EditorContext> Editor<C> {
         out.write_all(format!("{}{}", clear::All, cursor::Goto(1, 1)).as_bytes())?;
 
         self.term_cursor_line = 1;
-        self.clear_search();
+        if self.is_search() {
+            self.clear_search();
+        }
         self.display()
     }
 
-- 
2.43.0


From 8a428cfe7731dc47d4fdbd2c3d88c058acb11e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 38/49] fix: put the cursor on a wide character of the search
 pattern that was wrapped

---
 src/editor.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 46b8f71..dd4d620 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1112,25 +1112,25 @@ impl<C: EditorContext> Editor<C> {
             &shown.to_string(),
             terminal_width,
         );
-        let new_total_width_to_cursor = if self.is_search() {
+        let (mut new_total_width_to_cursor, at_cursor) = if self.is_search() {
             // The cursor is in the search pattern, which is a part of the prompt.
             let to_cursor = search_prefix + &one_line(&buf.range(0, self.cursor));
-            calc_width(&to_cursor, 0, "", terminal_width).0
+            let (width, _) = calc_width(&to_cursor, 0, "", terminal_width);
+            (width, buf.char_after(self.cursor))
         } else {
-            let (mut width, _) = calc_width(
+            let (width, _) = calc_width(
                 &prompt_line,
                 prompt_width,
                 &shown.range(0, cmp::min(self.cursor, shown.num_chars())),
                 terminal_width,
             );
-            // A wide character under the cursor may have been wrapped to the next row.
-            let next = shown.char_after(self.cursor).and_then(|c| c.width());
-            let col = width % terminal_width;
-            if col > 0 && col + next.unwrap_or(0) > terminal_width {
-                width += terminal_width - col;
-            }
-            width
+            (width, shown.char_after(self.cursor))
         };
+        // A wide character under the cursor may have been wrapped to the next row.
+        let col = new_total_width_to_cursor % terminal_width;
+        if col > 0 && col + at_cursor.and_then(|c| c.width()).unwrap_or(0) > terminal_width {
+            new_total_width_to_cursor += terminal_width - col;
+        }
 
         let new_num_lines = (new_total_width + terminal_width) / terminal_width;
 
-- 
2.43.0


From b29626c844a21b29620c0f65cdc4b91bf4e962ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 39/49] fix: leave the cursor below the whole text on enter in
 vi normal mode

---
 src/editor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index dd4d620..a4d1fd8 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -381,7 +381,11 @@ impl<C: EditorContext> Editor<C> {
             Ok(false)
         } else {
             self.cursor = cur_buf!(self).num_chars();
-            self.display_impl(false)?;
+            // also in vi normal mode the cursor goes past the last character here
+            let no_eol = mem::replace(&mut self.no_eol, false);
+            let displayed = self.display_impl(false);
+            self.no_eol = no_eol;
+            displayed?;
             self.context.terminal_mut().write_all(b"\r\n")?;
             self.show_completions_hint = None;
             Ok(true)
-- 
2.43.0


From efca945ef06492deb4c7555187e909fee2b40b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 40/49] fix: show the lines of a suggestion below the typed
 text in its colour

---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index a4d1fd8..9178a6e 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1175,6 +1175,10 @@ impl<C: EditorContext> Editor<C> {
             }
 
             if buf_num_remaining_bytes == 0 {
+                // only a suggestion goes on here
+                if !line.is_empty() && !self.is_search() {
+                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+                }
                 out_buf.push_str(&line);
             } else if line.len() > buf_num_remaining_bytes {
                 // A search match need not begin with the typed text, so that its length may fall
-- 
2.43.0


From 0952106ee9365cb56583dbcbfd8dba0ced4a0bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 41/49] fix: lay out completion candidates with wide characters

---
 src/editor.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 9178a6e..ab4d662 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -7,7 +7,7 @@ use super::complete::Completer;
 use crate::context::ColorClosure;
 use crate::{event::*, util, Buffer, EditorContext, Tty};
 use itertools::Itertools;
-use unicode_width::UnicodeWidthChar;
+use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
 
 /// Indicates the mode that should be currently displayed in the propmpt.
 #[derive(Clone, Copy, Debug)]
@@ -174,6 +174,19 @@ fn one_line(pattern: &str) -> String {
     pattern.replace('\n', "␤")
 }
 
+/// Moves `pos`, in cells from the start of the first row, over `text`. Like a terminal, this
+/// wraps a wide character that does not fit into the rest of its row to the next one.
+fn advance(pos: &mut usize, text: &str, terminal_width: usize) {
+    for c in text.chars() {
+        let width = c.width().unwrap_or(0);
+        let col = *pos % terminal_width;
+        if width > 1 && col > 0 && col + width > terminal_width {
+            *pos += terminal_width - col;
+        }
+        *pos += width;
+    }
+}
+
 /// The core line editor. Displays and provides editing for history and the new buffer.
 pub struct Editor<C: ?Sized> {
     prompt: Prompt,
@@ -530,8 +543,7 @@ impl<C: EditorContext> Editor<C> {
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        // XXX wide character support
-        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
+        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.width()));
         let cols = max(1, w / (max_word_size));
         let col_width = cmp::min(2 + w / cols, w);
         let cols = max(1, w / col_width);
@@ -540,7 +552,11 @@ impl<C: EditorContext> Editor<C> {
         let breaks = completions.len().saturating_sub(1) / cols;
         let wrapped = completions
             .iter()
-            .map(|x| x.chars().count().saturating_sub(1) / w)
+            .map(|x| {
+                let mut cells = 0;
+                advance(&mut cells, x, w);
+                cells.saturating_sub(1) / w
+            })
             .sum::<usize>();
         let lines = breaks + wrapped;
 
@@ -562,7 +578,8 @@ impl<C: EditorContext> Editor<C> {
                 )
                 .map_err(io::Error::other)?;
             }
-            write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            output_buf.push_str(com);
+            output_buf.extend(iter::repeat(' ').take(col_width.saturating_sub(com.width())));
             if Some(index) == highlighted {
                 write!(
                     output_buf,
@@ -1045,19 +1062,6 @@ impl<C: EditorContext> Editor<C> {
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        /// Moves `pos`, in cells from the start of the first row, over `text`. Like a terminal, this
-        /// wraps a wide character that does not fit into the rest of its row to the next one.
-        fn advance(pos: &mut usize, text: &str, terminal_width: usize) {
-            for c in text.chars() {
-                let width = c.width().unwrap_or(0);
-                let col = *pos % terminal_width;
-                if width > 1 && col > 0 && col + width > terminal_width {
-                    *pos += terminal_width - col;
-                }
-                *pos += width;
-            }
-        }
-
         /// The number of cells from the start of the prompt to the end of `text`, whose lines after
         /// the first are indented by `indent`, and whether the last row is filled completely.
         fn calc_width(
-- 
2.43.0


From 0149172c3d7954fdf9fd82abb7a959d1a9198bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 42/49] fix: do not lose lines appended to a history file while
 it is compacted

---
 src/history.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index c857c0c..fac7995 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -258,11 +258,11 @@ impl History {
 
         if self.inc_append && self.file_name.is_some() {
             let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+            if let Ok(mut file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // Another instance may be compacting the file, what we append now would be lost.
+                let _ = file.lock();
                 // Leave file size alone, if it is not right trigger a reload later.
-                let mut file = BufWriter::new(inner_file);
-                let _ = file.write_all(&item_str.as_bytes());
-                let _ = file.write_all(b"\n");
+                let _ = file.write_all(format!("{}\n", item_str).as_bytes());
                 // Save the filesize after each append so we do not reload when we do not need to.
                 self.file_size += item_str.len() as u64 + 1;
             }
@@ -273,6 +273,9 @@ impl History {
                 // is to keep the history file clean and at a reasonable size (not much over max
                 // history size at it's worst).
                 if self.compaction_writes > 29 {
+                    // Nobody may append between reading and rewriting the file.
+                    let file = File::open(&file_name);
+                    let _lock = file.as_ref().map(|file| file.lock());
                     if self.share {
                         // Reload history, we may be out of sync even if the size is right.
                         let _ = self.load_history_file(&file_name, false);
-- 
2.43.0


From e0f0fb3ab7c17d412356293fcf230e31efa00958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 43/49] fix: survive a shared history that became shorter
 between two last-argument fetches

---
 src/keymap/emacs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index e9ff304..38f0a8d 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -78,7 +78,8 @@ impl Emacs {
 
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
-            Some(x) => x - 1,
+            // a shared history may have become shorter since
+            Some(x) => (x - 1).min(ed.context().history().len() - 1),
             None => ed
                 .current_history_location()
                 .unwrap_or(ed.context().history().len() - 1),
-- 
2.43.0


From 2fe24692f915c9a9555f3d5c76da2d9be340cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:47 +0000
Subject: [PATCH 44/49] fix: a prompt set during a session is displayed as its
 last line, without breaking the screen

---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index ab4d662..5d3cdef 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -360,6 +360,10 @@ impl<C: EditorContext> Editor<C> {
                 passed_status.mode = old_status.mode;
             }
         }
+        // `display()` prints a prompt of a single line, the lines above it stay as they are
+        if let Some(index) = prompt.prompt.rfind('\n') {
+            prompt.prompt.drain(..=index);
+        }
         self.prompt = prompt;
     }
 
-- 
2.43.0


From dadd97ad8b00dea50f09cf891a623fae622bf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:29 +0000
Subject: [PATCH 45/49] fix: equal buffers have equal hashes, whatever their
 undo histories

---
 src/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 4594008..1c9bd85 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Write as FmtWrite};
+use std::hash::{Hash, Hasher};
 use std::io::{self, Write};
 use std::iter::FromIterator;
 use unicode_width::UnicodeWidthStr;
@@ -37,7 +38,7 @@ impl Action {
 /// A buffer for text in the line editor.
 ///
 /// It keeps track of each action performed on it for use with undo/redo.
-#[derive(Clone, Hash, Debug)]
+#[derive(Clone, Debug)]
 pub struct Buffer {
     data: Vec<char>,
     actions: Vec<Action>,
@@ -51,6 +52,13 @@ impl PartialEq for Buffer {
 }
 impl Eq for Buffer {}
 
+// Equal buffers have equal hashes, however they were edited.
+impl Hash for Buffer {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.data.hash(state);
+    }
+}
+
 impl From<Buffer> for String {
     fn from(buf: Buffer) -> Self {
         String::from_iter(buf.data)
-- 
2.43.0


From ead071855e1e61541f9915f1874a5c1eceb6957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:31 +0000
Subject: [PATCH 46/49] fix: case-insensitive filename completion of a prefix
 that ends in a capital sigma

---
 src/complete.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 7e06045..9949e36 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -54,6 +54,12 @@ impl FilenameCompleter {
     }
 }
 
+/// Lowercases letter by letter, so that a prefix of a name remains one ("Σ" would become "ς" at the
+/// end of a word).
+fn lowercase(s: &str) -> String {
+    s.chars().flat_map(char::to_lowercase).collect()
+}
+
 impl Completer for FilenameCompleter {
     fn completions(&mut self, start: &str) -> Vec<String> {
         let start = match start.chars().next() {
@@ -74,7 +80,7 @@ impl Completer for FilenameCompleter {
         let (typed_dir, start_name) = match start_name {
             ".." => (format!("{}../", typed_dir), String::new()),
             name if self.case_sensitive => (typed_dir.to_owned(), name.to_owned()),
-            name => (typed_dir.to_owned(), name.to_lowercase()),
+            name => (typed_dir.to_owned(), lowercase(name)),
         };
 
         let dir = match self.working_dir {
@@ -98,7 +104,7 @@ impl Completer for FilenameCompleter {
             let matched = if self.case_sensitive {
                 name.starts_with(&start_name)
             } else {
-                name.to_lowercase().starts_with(&start_name)
+                lowercase(&name).starts_with(&start_name)
             };
 
             if matched {
-- 
2.43.0


From 630059e0c729b890128a48656099fb0f00f79188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:32 +0000
Subject: [PATCH 47/49] fix: cycling through completions of an empty line in vi
 normal mode replaces the last one

---
 src/editor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 5d3cdef..52734e4 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -610,6 +610,11 @@ impl<C: EditorContext> Editor<C> {
         if let Some((completions, i_in)) = self.show_completions_hint.take() {
             let i = i_in.map_or(0, |i| (i + 1) % completions.len());
 
+            // On an empty line, vi normal mode has moved the cursor back onto the last completion.
+            if self.no_eol && i_in.map(|x| &completions[x]) == Some(&cur_buf!(self).to_string()) {
+                self.cursor = cur_buf!(self).num_chars();
+            }
+
             // The last completion need not be a single word.
             let inserted = i_in
                 .and_then(|x| self.cursor.checked_sub(completions[x].chars().count()))
-- 
2.43.0


From fc5b01cb3285aedc38b9a06b21eb323f7080f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:30 +0000
Subject: [PATCH 48/49] fix: character set and ST-terminated sequences do not
 count for the prompt's width

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29fd13d..91a84ce 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,10 +64,14 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 AnsiState::Esc => match c {
                     '[' => s = AnsiState::Csi,
                     ']' => s = AnsiState::Osc,
+                    // more bytes follow, as in the `ESC ( B` of `tput sgr0`
+                    ' '..='/' => (),
                     _ => s = AnsiState::Norm,
                 },
                 AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
+                // `ESC \` ends it too
+                AnsiState::Osc if c == '\x1B' => s = AnsiState::Esc,
                 _ => (),
             }
         }
-- 
2.43.0


From 68e52910bd99fa4614d8b14b9bf22d6d82e907b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:37 +0000
Subject: [PATCH 49/49] fix: a line of a history file that is not UTF-8 hid,
 and compaction dropped, all lines after it

---
 src/history.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index fac7995..21c64e5 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -14,6 +14,15 @@ use std::{
 
 const DEFAULT_MAX_SIZE: usize = 1000;
 
+/// The lines of a history file. One that is not UTF-8 does not hide those after it.
+fn lossy_lines<R: BufRead>(reader: R) -> impl Iterator<Item = io::Result<String>> {
+    reader.split(b'\n').map(|line| {
+        let line = line?;
+        let line = line.strip_suffix(b"\r").unwrap_or(&line);
+        Ok(String::from_utf8_lossy(line).into_owned())
+    })
+}
+
 /// Structure encapsulating command history
 #[derive(Clone, PartialEq, Eq, Hash, Debug)]
 pub struct History {
@@ -118,7 +127,7 @@ impl History {
                 self.clear_history();
             }
             let reader = BufReader::new(file);
-            for line in reader.lines() {
+            for line in lossy_lines(reader) {
                 match line {
                     Ok(line) => {
                         if !line.starts_with('#') {
@@ -160,7 +169,7 @@ impl History {
         };
         let mut buf: VecDeque<String> = VecDeque::new();
         let reader = BufReader::new(file);
-        for line in reader.lines() {
+        for line in lossy_lines(reader) {
             match line {
                 Ok(line) => {
                     if !line.starts_with('#') {
-- 
2.43.0

