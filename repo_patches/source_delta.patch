From 8e17131983e7a12b1e2a87fcca87c239101943e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 01/50] fix: lay out the line for the editor's own terminal
 width

The display asked the process' stdout for its width instead of the Tty the
editor writes to: with any other terminal (or stdout redirected) every redraw
failed or was wrapped at the wrong column.
---
 src/editor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..d3f7c24 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -490,17 +490,16 @@ impl<C: EditorContext> Editor<C> {
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
+        w: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        let (w, _) = termion::terminal_size()?;
-
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let cols = max(1, w / (max_word_size));
+        let col_width = 2 + w / cols;
+        let cols = max(1, w / col_width);
 
         let lines = completions.len() / cols;
 
@@ -1007,7 +1006,7 @@ impl<C: EditorContext> Editor<C> {
 
         let (prompt, rev_prompt_width) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = self.context.terminal().width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1062,7 +1061,8 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines =
+                1 + Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 5b8f912b4dec18c5b8473461144e72c22fb8deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 02/50] fix: compute cursor row and column from what the
 terminal shows

The display derived the cursor's position from sums of line widths. That was
wrong for an empty prompt with an empty or multi-line text (the line drifted
down with every redraw), for wide characters that do not fit in the last
column, for a final redraw without the suggestion that was laid out with it,
for a search with wide characters or a non-ASCII mode indicator, for prompts
as wide as the terminal, and could reach unreachable!().
---
 src/editor.rs | 175 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 104 insertions(+), 71 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index d3f7c24..07c4b42 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1,13 +1,13 @@
 use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
-use strip_ansi_escapes::strip;
 use termion::{self, clear, color, cursor};
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
 use crate::{event::*, util, Buffer, EditorContext, Tty};
 use itertools::Itertools;
+use unicode_width::UnicodeWidthChar;
 
 /// Indicates the mode that should be currently displayed in the propmpt.
 #[derive(Clone, Copy, Debug)]
@@ -169,6 +169,60 @@ impl CursorPosition {
     }
 }
 
+/// A position on the terminal, relative to where the output started.
+#[derive(Clone, Copy, Default)]
+struct TermPos {
+    row: usize,
+    /// Equal to the terminal's width directly after a character in the last column: the terminal
+    /// wraps only when the next one is printed.
+    col: usize,
+}
+
+impl TermPos {
+    /// Moves to where printing `text` leaves the cursor.
+    fn print(&mut self, text: &str, terminal_width: usize) {
+        for c in text.chars() {
+            if c == '\n' {
+                self.row += 1;
+                self.col = 0;
+            } else {
+                let width = c.width().unwrap_or(0);
+                if self.col + width > terminal_width {
+                    self.row += 1;
+                    self.col = 0;
+                }
+                self.col += width;
+            }
+        }
+    }
+
+    /// Moves to where printing `lines`, all but the first one indented, leaves the cursor.
+    fn print_lines(&mut self, lines: &[String], indent: usize, terminal_width: usize) {
+        for (i, line) in lines.iter().enumerate() {
+            if i > 0 {
+                self.row += 1;
+                // moving the cursor stops in the last column
+                self.col = cmp::min(indent, terminal_width.saturating_sub(1));
+            }
+            self.print(line, terminal_width);
+        }
+    }
+
+    /// Moves to where `next` is printed, which is the next line if it does not fit on this one.
+    fn wrap_before(&mut self, next: Option<char>, terminal_width: usize) {
+        let width = next.and_then(|c| c.width()).unwrap_or(0);
+        if self.col >= terminal_width || self.col + width > terminal_width {
+            self.row += 1;
+            self.col = 0;
+        }
+    }
+}
+
+/// The search term is shown within the prompt: newlines in it are shown as a symbol.
+fn single_line(text: &str) -> String {
+    text.replace('\n', "⏎")
+}
+
 /// The core line editor. Displays and provides editing for history and the new buffer.
 pub struct Editor<C: ?Sized> {
     prompt: Prompt,
@@ -959,8 +1013,9 @@ impl<C: EditorContext> Editor<C> {
         self.autosuggestion.is_some()
     }
 
-    /// Override the prompt for incremental search if needed.
-    fn search_prompt(&mut self) -> (String, usize) {
+    /// Override the prompt for incremental search if needed. While searching, also returns the
+    /// part of the prompt before the search term.
+    fn search_prompt(&mut self) -> (String, Option<String>) {
         if self.is_search() {
             // If we are searching override prompt to search prompt.
             let (hplace, color) = if self.history_subset_index.is_empty() {
@@ -971,46 +1026,31 @@ impl<C: EditorContext> Editor<C> {
                     color::Green.fg_str(),
                 )
             };
-            let prefix = self.prompt.prefix();
+            let lead = format!("{}(search)'", self.prompt.prefix());
             (
                 format!(
-                    "{}(search)'{}{}{}` ({}/{}): ",
-                    &prefix,
+                    "{}{}{}{}` ({}/{}): ",
+                    lead,
                     color,
-                    self.current_buffer(),
+                    single_line(&self.current_buffer().to_string()),
                     color::Reset.fg_str(),
                     hplace,
                     self.history_subset_index.len()
                 ),
-                strip(&prefix).len() + 9,
+                Some(lead),
             )
         } else {
-            (self.prompt.to_string(), 0)
+            (self.prompt.to_string(), None)
         }
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
-            let mut total = 0;
-
-            for line in buf_widths {
-                if total % terminal_width != 0 {
-                    total = ((total / terminal_width) + 1) * terminal_width;
-                }
-
-                total += prompt_width + line;
-            }
-
-            total
-        }
-
-        let (prompt, rev_prompt_width) = self.search_prompt();
+        let (prompt, search_lead) = self.search_prompt();
 
         let terminal_width = self.context.terminal().width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-        let buf_width = buf.width();
 
         // Don't let the cursor go over the end!
         let buf_num_chars = buf.num_chars();
@@ -1023,28 +1063,35 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
-        let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
-        };
-        // Width of the current buffer lines (including autosuggestion) from the start to the cursor
-        let buf_widths_to_cursor = match self.autosuggestion {
-            // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
-                suggestion.range_width(0, self.cursor)
-            }
-            _ => buf.range_width(0, self.cursor),
+        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
+        let shown = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest => suggestion,
+            _ => buf,
         };
 
-        // Total number of terminal spaces taken up by prompt and buffer
-        let new_total_width = calc_width(prompt_width, &buf_widths, terminal_width);
-        let new_total_width_to_cursor = if self.is_search() {
-            calc_width(rev_prompt_width, &buf_widths_to_cursor, terminal_width)
-        } else {
-            calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
+        // Where the output ends, counted from the start of the prompt.
+        let mut end = TermPos::default();
+        end.print(&util::remove_codes(&prompt), terminal_width);
+        end.print_lines(&shown.lines(), prompt_width, terminal_width);
+
+        // Where the cursor belongs.
+        let mut target = TermPos::default();
+        let next_char = match search_lead {
+            // the cursor is in the search term, which is part of the prompt
+            Some(lead) => {
+                let term = single_line(&buf.range(0, self.cursor));
+                target.print(&util::remove_codes(&lead), terminal_width);
+                target.print(&term, terminal_width);
+                buf.char_after(self.cursor)
+            }
+            None => {
+                let before: Buffer = shown.chars().take(self.cursor).cloned().collect();
+                target.print(&util::remove_codes(&prompt), terminal_width);
+                target.print_lines(&before.lines(), prompt_width, terminal_width);
+                shown.char_after(self.cursor)
+            }
         };
-
-        let new_num_lines = (new_total_width + terminal_width) / terminal_width;
+        target.wrap_before(next_char, terminal_width);
 
         let mut out_buf = String::new();
 
@@ -1067,21 +1114,17 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // Write the prompt
-        write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
+        out_buf.push_str(&prompt.replace('\n', "\r\n"));
 
-        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
         // We get the number of bytes in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
-        let lines = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-            _ => buf.lines(),
-        };
+        let lines = shown.lines();
         let mut buf_num_remaining_bytes = buf.num_bytes();
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
-            if i > 0 {
+            if i > 0 && prompt_width > 0 {
                 write!(out_buf, "{}", cursor::Right(prompt_width as u16))
                     .map_err(io::Error::other)?;
             }
@@ -1125,32 +1168,22 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        if end.col >= terminal_width {
             out_buf.push_str("\r\n");
+            end.wrap_before(None, terminal_width);
         }
 
-        self.term_cursor_line = (new_total_width_to_cursor + terminal_width) / terminal_width;
+        self.term_cursor_line = target.row + 1;
 
-        // The term cursor is now on the bottom line. We may need to move the term cursor up
-        // to the line where the true cursor is.
-        let cursor_line_diff = new_num_lines as isize - self.term_cursor_line as isize;
-        if cursor_line_diff > 0 {
-            write!(&mut out_buf, "{}", cursor::Up(cursor_line_diff as u16))
+        // The term cursor is now at the end of the output. We may need to move the term cursor up
+        // to the line where the true cursor is, and to its column.
+        if end.row > target.row {
+            write!(&mut out_buf, "{}", cursor::Up((end.row - target.row) as u16))
                 .map_err(io::Error::other)?;
-        } else if cursor_line_diff < 0 {
-            unreachable!();
         }
-
-        // Now that we are on the right line, we must move the term cursor left or right
-        // to match the true cursor.
-        let cursor_col_diff = new_total_width as isize
-            - new_total_width_to_cursor as isize
-            - cursor_line_diff * terminal_width as isize;
-        if cursor_col_diff > 0 {
-            write!(&mut out_buf, "{}", cursor::Left(cursor_col_diff as u16))
-                .map_err(io::Error::other)?;
-        } else if cursor_col_diff < 0 {
-            write!(&mut out_buf, "{}", cursor::Right((-cursor_col_diff) as u16))
+        out_buf.push('\r');
+        if target.col > 0 {
+            write!(&mut out_buf, "{}", cursor::Right(target.col as u16))
                 .map_err(io::Error::other)?;
         }
 
-- 
2.43.0


From ddb9daf47936b933ce8b4814e83c3bc0f22d8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 03/50] fix: split a suggestion between characters when
 displaying it

The number of bytes of the typed text was used as an index into the suggested
line: with non-ASCII matches of a search, or multi-line entries, that is not a
character boundary and the display panicked.
---
 src/editor.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 07c4b42..6d040cb 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1116,11 +1116,11 @@ impl<C: EditorContext> Editor<C> {
         // Write the prompt
         out_buf.push_str(&prompt.replace('\n', "\r\n"));
 
-        // We get the number of bytes in the buffer (but NOT the autosuggestion).
+        // We get the number of chars in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
         let lines = shown.lines();
-        let mut buf_num_remaining_bytes = buf.num_bytes();
+        let mut buf_num_remaining_chars = buf_num_chars;
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
@@ -1129,10 +1129,14 @@ impl<C: EditorContext> Editor<C> {
                     .map_err(io::Error::other)?;
             }
 
-            if buf_num_remaining_bytes == 0 {
+            let line_num_chars = line.chars().count();
+            if buf_num_remaining_chars == 0 {
                 out_buf.push_str(&line);
-            } else if line.len() > buf_num_remaining_bytes {
-                let start = &line[..buf_num_remaining_bytes];
+            } else if line_num_chars > buf_num_remaining_chars {
+                let (start, rest) = match line.char_indices().nth(buf_num_remaining_chars) {
+                    Some((i, _)) => line.split_at(i),
+                    None => (&line[..], ""),
+                };
                 let start = match self.closure {
                     Some(ref f) => f(start),
                     None => start.to_owned(),
@@ -1144,10 +1148,12 @@ impl<C: EditorContext> Editor<C> {
                 if !self.is_search() {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
                 }
-                out_buf.push_str(&line[buf_num_remaining_bytes..]);
-                buf_num_remaining_bytes = 0;
+                out_buf.push_str(rest);
+                buf_num_remaining_chars = 0;
             } else {
-                buf_num_remaining_bytes -= line.len();
+                // the newline counts, too
+                buf_num_remaining_chars =
+                    buf_num_remaining_chars.saturating_sub(line_num_chars + 1);
                 let written_line = match self.closure {
                     Some(ref f) => f(&line),
                     None => line,
-- 
2.43.0


From 10a82559e38a864130c94ca8a292081abb6c6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 04/50] fix: send the clear-screen codes to the terminal

Ctrl-L wrote them only to the context's text buffer, so the screen was never
cleared and the prompt was printed again over the old output.
---
 src/editor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 6d040cb..c0a907b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -706,8 +706,9 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        let codes = format!("{}{}", clear::All, cursor::Goto(1, 1));
+        self.context.write_str(&codes).map_err(io::Error::other)?;
+        self.context.terminal_mut().write_all(codes.as_bytes())?;
 
         self.term_cursor_line = 1;
         self.clear_search();
-- 
2.43.0


From 00e9ad6f55afdf19c1c1ad9ad53532e603c52589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/50] fix: count the terminal lines of the candidate list as
 printed

The list was taken to be one line longer than it is whenever its last row was
full (the next redraw then erased a line above the prompt), and shorter when
candidates, or the padding behind them, wrapped at the terminal's width.
---
 src/editor.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index c0a907b..1e6d3f6 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -541,26 +541,29 @@ impl<C: EditorContext> Editor<C> {
         Ok(did)
     }
 
+    /// Returns the number of terminal lines the list takes.
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
         w: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
-        use std::cmp::max;
+        use std::cmp::{max, min};
 
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
         let cols = max(1, w / (max_word_size));
-        let col_width = 2 + w / cols;
+        let col_width = min(2 + w / cols, max(1, w));
         let cols = max(1, w / col_width);
 
-        let lines = completions.len() / cols;
+        // Long candidates take more than one line of the terminal.
+        let mut end = TermPos::default();
 
         let mut i = 0;
         for (index, com) in completions.iter().enumerate() {
             if i == cols {
                 output_buf.push_str("\r\n");
+                end.print("\n", w);
                 i = 0;
             } else if i > cols {
                 unreachable!()
@@ -575,7 +578,9 @@ impl<C: EditorContext> Editor<C> {
                 )
                 .map_err(io::Error::other)?;
             }
-            write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            let padded = format!("{:<1$}", com, col_width);
+            end.print(&padded, w);
+            output_buf.push_str(&padded);
             if Some(index) == highlighted {
                 write!(
                     output_buf,
@@ -589,7 +594,7 @@ impl<C: EditorContext> Editor<C> {
             i += 1;
         }
 
-        Ok(lines)
+        Ok(end.row + 1)
     }
 
     pub fn skip_completions_hint(&mut self) {
@@ -1110,7 +1115,7 @@ impl<C: EditorContext> Editor<C> {
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
             completion_lines =
-                1 + Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
+                Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 49caec789f213a94a62e57a76f585abe99e3edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/50] fix: do not underflow at the end of an empty line in vi
 normal mode

Right on an empty line recalled from history panicked.
---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1e6d3f6..7392fdf 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -954,7 +954,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor + 1 >= num_chars
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From d0038232c440f68578f67a6cd358e3034fdee1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 07/50] fix: close the candidate list as soon as a key closes
 it

Ctrl-R, Ctrl-S, Ctrl-F and an accepting Right left the list open, so that a
later Tab went on cycling through it, replacing a word of another line; other
keys and Enter left it on the screen until the key after them.
---
 src/editor.rs     | 1 +
 src/keymap/mod.rs | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 7392fdf..7c6ff58 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -412,6 +412,7 @@ impl<C: EditorContext> Editor<C> {
         self.clear_search();
         if self.show_completions_hint.is_some() {
             self.show_completions_hint = None;
+            self.display()?;
             return Ok(false);
         }
 
diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index cb88917..bd4208d 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -33,6 +33,11 @@ pub trait KeyMap: Default {
             key = Key::Backspace;
         }
 
+        // Every key but those for the candidate list closes it.
+        if key != Key::Char('\t') && key != Key::Char('\n') {
+            editor.skip_completions_hint();
+        }
+
         match key {
             Key::Ctrl('c') => {
                 editor.handle_newline()?;
@@ -64,7 +69,6 @@ pub trait KeyMap: Default {
             }
             _ => {
                 self.handle_key_core(key, editor)?;
-                editor.skip_completions_hint();
             }
         };
 
-- 
2.43.0


From fc67d7d17ebb2f722b942b02fd7192d1b3c29013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 08/50] fix: let Enter only close the candidate list during a
 search, too

It replaced the line by the match before closing the list.
---
 src/editor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 7c6ff58..1c9b4fb 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -406,15 +406,15 @@ impl<C: EditorContext> Editor<C> {
     // XXX: Returning a bool to indicate doneness is a bit awkward, maybe change it
     pub fn handle_newline(&mut self) -> io::Result<bool> {
         self.history_fresh = false;
-        if self.is_search() {
-            self.accept_autosuggestion()?;
-        }
-        self.clear_search();
         if self.show_completions_hint.is_some() {
             self.show_completions_hint = None;
             self.display()?;
             return Ok(false);
         }
+        if self.is_search() {
+            self.accept_autosuggestion()?;
+        }
+        self.clear_search();
 
         let char_before_cursor = cur_buf!(self).char_before(self.cursor);
         if char_before_cursor == Some('\\') {
-- 
2.43.0


From bb8c70e5d2f3bcd983424964f471252d94bfe79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 09/50] fix: keep the position in history across a continued
 line and a reload

Enter after a backslash on a recalled entry forgot which entries match the
typed text (Down did nothing any more), and with shared history the next Up
reloaded the history under the recalled entry: if it had become shorter, the
position was out of range and the editor panicked.
---
 src/editor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1c9b4fb..d7caaea 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -405,7 +405,6 @@ impl<C: EditorContext> Editor<C> {
 
     // XXX: Returning a bool to indicate doneness is a bit awkward, maybe change it
     pub fn handle_newline(&mut self) -> io::Result<bool> {
-        self.history_fresh = false;
         if self.show_completions_hint.is_some() {
             self.show_completions_hint = None;
             self.display()?;
@@ -414,7 +413,6 @@ impl<C: EditorContext> Editor<C> {
         if self.is_search() {
             self.accept_autosuggestion()?;
         }
-        self.clear_search();
 
         let char_before_cursor = cur_buf!(self).char_before(self.cursor);
         if char_before_cursor == Some('\\') {
@@ -422,6 +420,8 @@ impl<C: EditorContext> Editor<C> {
             self.insert_after_cursor('\n')?;
             Ok(false)
         } else {
+            self.history_fresh = false;
+            self.clear_search();
             self.cursor = cur_buf!(self).num_chars();
             self.display_impl(false)?;
             self.context.terminal_mut().write_all(b"\r\n")?;
@@ -436,7 +436,8 @@ impl<C: EditorContext> Editor<C> {
     }
 
     fn freshen_history(&mut self) {
-        if self.context.history().share && !self.history_fresh {
+        // Not while on a history entry: its position may change.
+        if self.context.history().share && !self.history_fresh && self.cur_history_loc.is_none() {
             let _ = self.context.history_mut().load_history(false);
             self.history_fresh = true;
         }
-- 
2.43.0


From 85b90a214499a544ba6546bcd4c30ee72d95223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 10/50] fix: forget matching entries when jumping to either end
 of history

After Alt-> the next Up went on from the old position in the list of matching
entries instead of the newest one, and in a search Alt-< showed the oldest
entry as if it were the search term.
---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index d7caaea..afcef37 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -792,6 +792,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
@@ -804,6 +805,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the end of history (ie. the new buffer).
     pub fn move_to_end_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
-- 
2.43.0


From da3bc1de61a039e0b8c334b31e56c46476518755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/50] fix: do not treat a recalled entry as a suggestion for
 itself

Ctrl-F on a recalled entry jumped to the end of the line instead of moving
one character forward.
---
 src/editor.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index afcef37..e38eb8f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1005,14 +1005,10 @@ impl<C: EditorContext> Editor<C> {
         let context_history = &self.context.history();
         let autosuggestion = if self.is_search() {
             self.search_history_loc().map(|i| &context_history[i])
-        } else if self.show_autosuggestions {
-            self.cur_history_loc
+        } else if self.show_autosuggestions && self.cur_history_loc.is_none() {
+            context_history
+                .get_newest_match(Some(context_history.len()), &self.new_buf)
                 .map(|i| &context_history[i])
-                .or_else(|| {
-                    context_history
-                        .get_newest_match(Some(context_history.len()), &self.new_buf)
-                        .map(|i| &context_history[i])
-                })
         } else {
             None
         };
-- 
2.43.0


From 1014de710b7f90886709bdf39013bb0c4b47a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 12/50] fix: do not undo past a recalled history entry

The copy made for editing recorded its own creation, and everything done to
the entries recalled before: undo and revert replaced the line by those.
---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index e38eb8f..0943ed5 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -282,6 +282,8 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    // Undo must not go back past the recalled entry.
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From df13a6346001ca1e8c38b755828ae493981b8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 13/50] fix: do not remove a recalled entry from history in
 take_exec_buffer

---
 src/editor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 0943ed5..ae247a9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1235,16 +1235,16 @@ impl<C: EditorContext> Editor<C> {
 
     /// Remove and return the current buffer of commands to execute
     pub fn take_exec_buffer(&mut self) -> String {
-        mem::take(match self.cur_history_loc {
+        match self.cur_history_loc {
             Some(i) => {
                 if self.hist_buf_valid {
-                    &mut self.hist_buf
+                    mem::take(&mut self.hist_buf)
                 } else {
-                    &mut self.context.history_mut()[i]
+                    self.context.history()[i].clone()
                 }
             }
-            _ => &mut self.new_buf,
-        })
+            _ => mem::take(&mut self.new_buf),
+        }
         .into()
     }
 }
-- 
2.43.0


From dda1846781e26d4abc097648f774cdb65659dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 14/50] fix: undo and redo one group even if its last part is
 an empty group

Entering the empty nested group reset the count of actions, so the complete
group was taken for an empty one and the change before it was undone, too.
---
 src/buffer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..a4ae68a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -127,8 +127,10 @@ impl Buffer {
             self.undone_actions.push(act.clone());
             match act {
                 EndGroup => {
+                    if group_nest == 0 {
+                        group_count = 0;
+                    }
                     group_nest += 1;
-                    group_count = 0;
                 }
                 StartGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
@@ -154,8 +156,10 @@ impl Buffer {
             self.actions.push(act.clone());
             match act {
                 StartGroup => {
+                    if group_nest == 0 {
+                        group_count = 0;
+                    }
                     group_nest += 1;
-                    group_count = 0;
                 }
                 EndGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
-- 
2.43.0


From 744e2787fb8c741e9a4cb1832bb781732b5106bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 15/50] fix: hash equal buffers equally

The derived Hash included the undo log, which Eq ignores.
---
 src/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index a4ae68a..84accbc 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Write as FmtWrite};
+use std::hash::{Hash, Hasher};
 use std::io::{self, Write};
 use std::iter::FromIterator;
 use unicode_width::UnicodeWidthStr;
@@ -37,7 +38,7 @@ impl Action {
 /// A buffer for text in the line editor.
 ///
 /// It keeps track of each action performed on it for use with undo/redo.
-#[derive(Clone, Hash, Debug)]
+#[derive(Clone, Debug)]
 pub struct Buffer {
     data: Vec<char>,
     actions: Vec<Action>,
@@ -51,6 +52,13 @@ impl PartialEq for Buffer {
 }
 impl Eq for Buffer {}
 
+// Equal buffers must have equal hashes, so the recorded actions do not count here either.
+impl Hash for Buffer {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.data.hash(state);
+    }
+}
+
 impl From<Buffer> for String {
     fn from(buf: Buffer) -> Self {
         String::from_iter(buf.data)
-- 
2.43.0


From 353515f20a07940df63c588863e72cb6e077127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 16/50] fix: let a word begin with a backslash

The word divider left a leading backslash out of the word, and with it a blank
escaped by it: Tab completed, and Ctrl-W removed, only the rest.
---
 src/context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context.rs b/src/context.rs
index 1e87ba8..7a77195 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -24,6 +24,7 @@ pub fn get_buffer_words(buf: &Buffer) -> Vec<(usize, usize)> {
     for (i, &c) in buf.chars().enumerate() {
         if c == '\\' {
             just_had_backslash = true;
+            word_start = word_start.or(Some(i));
             continue;
         }
 
-- 
2.43.0


From 83079899ca19af1f1de7d2bb8f16e1301852ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 17/50] fix: do not record, or panic on, deletions that remove
 nothing

Editing keys that change nothing (Ctrl-K at the end of the line, x on an empty
one) left an undo step that undoes nothing, and deleting inclusively beyond
the end of the line (dtx with no x on an empty line) panicked.
---
 src/editor.rs | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ae247a9..01d749f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -831,7 +831,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Inserts characters directly after the cursor, moving the cursor to the right.
     pub fn insert_chars_after_cursor(&mut self, cs: &[char]) -> io::Result<()> {
-        {
+        if !cs.is_empty() {
             let buf = cur_buf_mut!(self);
             buf.insert(self.cursor, cs);
         }
@@ -867,43 +867,45 @@ impl<C: EditorContext> Editor<C> {
 
     /// Deletes every character preceding the cursor until the beginning of the line.
     pub fn delete_all_before_cursor(&mut self) -> io::Result<()> {
-        cur_buf_mut!(self).remove(0, self.cursor);
-        self.cursor = 0;
+        if self.cursor > 0 {
+            cur_buf_mut!(self).remove(0, self.cursor);
+            self.cursor = 0;
+        }
         self.display()
     }
 
     /// Deletes every character after the cursor until the end of the line.
     pub fn delete_all_after_cursor(&mut self) -> io::Result<()> {
-        {
-            let buf = cur_buf_mut!(self);
-            buf.truncate(self.cursor);
+        if self.cursor < cur_buf!(self).num_chars() {
+            cur_buf_mut!(self).truncate(self.cursor);
         }
         self.display()
     }
 
     /// Deletes every character from the cursor until the given position.
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
-        {
-            let buf = cur_buf_mut!(self);
-            buf.remove(
-                cmp::min(self.cursor, position),
-                cmp::max(self.cursor, position),
-            );
-            self.cursor = cmp::min(self.cursor, position);
-        }
-        self.display()
+        self.delete_range(
+            cmp::min(self.cursor, position),
+            cmp::max(self.cursor, position),
+        )
     }
 
     /// Deletes every character from the cursor until the given position, inclusive.
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
-        {
-            let buf = cur_buf_mut!(self);
-            buf.remove(
-                cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
-            );
-            self.cursor = cmp::min(self.cursor, position);
+        self.delete_range(
+            cmp::min(self.cursor, position),
+            cmp::max(self.cursor + 1, position + 1),
+        )
+    }
+
+    /// Deletes the characters from `start` to `end`, as far as there are any, and moves the cursor
+    /// to `start`.
+    fn delete_range(&mut self, start: usize, end: usize) -> io::Result<()> {
+        let end = cmp::min(end, cur_buf!(self).num_chars());
+        if start < end {
+            cur_buf_mut!(self).remove(start, end);
         }
+        self.cursor = start;
         self.display()
     }
 
-- 
2.43.0


From ab37c118ab7cb9c071aaa01f940f72862b742fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 18/50] fix: complete the word before the cursor, and only that

With the cursor inside a word the completer was asked about the whole word but
only the part before the cursor was replaced, so that its end appeared twice.
Cycling through candidates with blanks in them replaced only their last word
(and left the last letter in vi normal mode). Undo took back only the second
half of a completion.
---
 src/editor.rs | 62 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 01d749f..9ee320f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -251,8 +251,9 @@ pub struct Editor<C: ?Sized> {
     // If the cursor is on the line below the prompt, `term_cursor_line == 2`.
     term_cursor_line: usize,
 
-    // The next completion to suggest, or none
-    show_completions_hint: Option<(Vec<String>, Option<usize>)>,
+    // The completions to suggest, with the index of the one in the line and where it starts there,
+    // or none
+    show_completions_hint: Option<(Vec<String>, Option<(usize, usize)>)>,
 
     // Show autosuggestions based on history
     show_autosuggestions: bool,
@@ -609,32 +610,27 @@ impl<C: EditorContext> Editor<C> {
         handler.on_event(Event::new(self, EventKind::BeforeComplete));
 
         if let Some((completions, i_in)) = self.show_completions_hint.take() {
-            let i = i_in.map_or(0, |i| (i + 1) % completions.len());
+            let i = i_in.map_or(0, |(i, _)| (i + 1) % completions.len());
 
-            match i_in {
-                Some(x) if cur_buf!(self) == &Buffer::from(&completions[x][..]) => {
-                    cur_buf_mut!(self).truncate(0);
-                    self.cursor = 0;
+            let start = match i_in {
+                Some((x, start)) => {
+                    self.cursor = start + completions[x].chars().count();
+                    start
                 }
-                _ => self.delete_word_before_cursor(false)?,
-            }
-            self.insert_str_after_cursor(&completions[i])?;
+                None => self.completion_start(),
+            };
+            self.replace_before_cursor(start, &completions[i])?;
 
-            self.show_completions_hint = Some((completions, Some(i)));
+            self.show_completions_hint = Some((completions, Some((i, start))));
         }
         if self.show_completions_hint.is_some() {
             self.display()?;
             return Ok(());
         }
 
+        let start = self.completion_start();
         let (word, completions) = {
-            let word_range = self.get_word_before_cursor(false);
-            let buf = cur_buf_mut!(self);
-
-            let word = match word_range {
-                Some((start, end)) => buf.range(start, end),
-                None => "".into(),
-            };
+            let word = cur_buf!(self).range(start, self.cursor);
 
             let mut completions = handler.completions(word.as_ref());
             completions.sort();
@@ -648,8 +644,7 @@ impl<C: EditorContext> Editor<C> {
             Ok(())
         } else if completions.len() == 1 {
             self.show_completions_hint = None;
-            self.delete_word_before_cursor(false)?;
-            self.insert_str_after_cursor(completions[0].as_ref())
+            self.replace_before_cursor(start, &completions[0])
         } else {
             let common_prefix = util::find_longest_common_prefix(
                 &completions
@@ -662,8 +657,7 @@ impl<C: EditorContext> Editor<C> {
                 let s = p.iter().cloned().collect::<String>();
 
                 if s.len() > word.len() && s.starts_with(&word[..]) {
-                    self.delete_word_before_cursor(false)?;
-                    return self.insert_str_after_cursor(s.as_ref());
+                    return self.replace_before_cursor(start, &s);
                 }
             }
 
@@ -674,6 +668,28 @@ impl<C: EditorContext> Editor<C> {
         }
     }
 
+    /// Where the word to complete, which ends at the cursor, starts.
+    fn completion_start(&self) -> usize {
+        match self.get_word_before_cursor(false) {
+            Some((start, _)) => start,
+            None => self.cursor,
+        }
+    }
+
+    /// Replaces the text from `start` to the cursor, as one action.
+    fn replace_before_cursor(&mut self, start: usize, s: &str) -> io::Result<()> {
+        if cur_buf!(self).range(start, self.cursor) != s {
+            let text: Vec<char> = s.chars().collect();
+            let buf = cur_buf_mut!(self);
+            buf.start_undo_group();
+            buf.remove(start, self.cursor);
+            buf.insert(start, &text);
+            buf.end_undo_group();
+            self.cursor = start + text.len();
+        }
+        self.display()
+    }
+
     fn get_word_before_cursor(&self, ignore_space_before_cursor: bool) -> Option<(usize, usize)> {
         let (mut words, pos) = self.get_words_and_cursor_position();
         match pos {
@@ -1119,7 +1135,7 @@ impl<C: EditorContext> Editor<C> {
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
             completion_lines =
-                Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
+                Self::print_completion_list(completions, i.map(|(i, _)| i), terminal_width, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 329d8156d28d5136f0c9569cd7e7cafb5b7021ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 19/50] fix: replace with Alt-. only what Alt-. inserted

A repeated Alt-. removed the last word of the line: text typed right before
the inserted word, a word after the cursor, or a word of the user's when the
last entry had none. Keys handled outside the key map (Tab, Enter, Ctrl-R) did
not end the sequence.
---
 src/editor.rs       |  2 +-
 src/keymap/emacs.rs | 25 ++++++++++++++-----------
 src/keymap/mod.rs   |  5 +++++
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 9ee320f..e8d9575 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -677,7 +677,7 @@ impl<C: EditorContext> Editor<C> {
     }
 
     /// Replaces the text from `start` to the cursor, as one action.
-    fn replace_before_cursor(&mut self, start: usize, s: &str) -> io::Result<()> {
+    pub(crate) fn replace_before_cursor(&mut self, start: usize, s: &str) -> io::Result<()> {
         if cur_buf!(self).range(start, self.cursor) != s {
             let text: Vec<char> = s.chars().collect();
             let buf = cur_buf_mut!(self);
diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..b35d067 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -16,6 +16,8 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // The number of characters the last fetch inserted before the cursor.
+    last_arg_len: usize,
 }
 
 impl Emacs {
@@ -76,18 +78,16 @@ impl Emacs {
 
         // If did a last arg fetch just before this, we need to delete it so it can be replaced by
         // this last arg fetch.
+        let mut start = ed.cursor();
         if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
-            }
+            start -= self.last_arg_len;
         }
 
         // Actually insert it
         let buf = ed.context().history()[history_index].clone();
-        if let Some(last_arg) = buf.last_arg() {
-            ed.insert_chars_after_cursor(last_arg)?;
-        }
+        let last_arg = buf.last_arg().unwrap_or(&[]);
+        ed.replace_before_cursor(start, &last_arg.iter().collect::<String>())?;
+        self.last_arg_len = last_arg.len();
 
         // Edit the index in case the user does a last arg fetch again.
         self.last_arg_fetch_index = Some(history_index);
@@ -97,15 +97,18 @@ impl Emacs {
 }
 
 impl KeyMap for Emacs {
+    fn before_key(&mut self, key: Key) {
+        if key != Key::Alt('.') {
+            self.last_arg_fetch_index = None;
+        }
+    }
+
     fn handle_key_core<C: EditorContext>(
         &mut self,
         key: Key,
         ed: &mut Editor<C>,
     ) -> io::Result<()> {
-        match key {
-            Key::Alt('.') => {}
-            _ => self.last_arg_fetch_index = None,
-        }
+        self.before_key(key);
 
         match key {
             Key::Char(c) => ed.insert_after_cursor(c),
diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index bd4208d..7ef79e8 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -16,6 +16,9 @@ pub trait KeyMap: Default {
         Ok(())
     }
 
+    /// Called before each key is handled, whether by this key map or by the editor.
+    fn before_key(&mut self, _key: Key) {}
+
     fn handle_key<Ctx: EditorContext, C: Completer>(
         &mut self,
         mut key: Key,
@@ -33,6 +36,8 @@ pub trait KeyMap: Default {
             key = Key::Backspace;
         }
 
+        self.before_key(key);
+
         // Every key but those for the candidate list closes it.
         if key != Key::Char('\t') && key != Key::Char('\n') {
             editor.skip_completions_hint();
-- 
2.43.0


From 9bf8c54f0aaa42af81e879ce168012544cf270e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 20/50] fix: return a terminal error after ~ instead of
 panicking

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..dac0b1b 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -456,7 +456,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From 46850f66c8ed09473ab3ac61361ffc226a80e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 21/50] fix: delete the last character of the word with de, dE,
 ce and cE

These motions are inclusive in vi.
---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dac0b1b..0e6c266 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -758,12 +758,12 @@ impl Vi {
             Key::Char('e') => {
                 let count = self.move_count();
                 move_to_end_of_word(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('E') => {
                 let count = self.move_count();
                 move_to_end_of_word_ws(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('b') => {
                 let count = self.move_count();
-- 
2.43.0


From 0ab26d3657fc8d725c888e886e11c877ef20cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 22/50] fix: end the undo group of an aborted change

After c<Esc> in vi mode everything up to the next undo was one group with no
end: undo took back too much.
---
 src/keymap/vi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 0e6c266..c326b22 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -463,8 +463,13 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        // an aborted change has already entered insert mode
+        if self.mode_stack.0.contains(&Mode::Insert) {
+            ed.current_buffer_mut().end_undo_group();
+        }
         self.mode_stack.clear();
         ed.no_eol = true;
+        self.movement_reset = true;
         self.count = 0;
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From f7836e8e9e19346d6ae7ae66c6ff5cdedc3e2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 23/50] fix: complete vi movements with 0 after a count, Home
 and End

2d0 took the 0 for a digit; d<Home> and d<End> moved but left the delete
pending, and a count before Home or End applied to the command after it.
---
 src/keymap/vi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index c326b22..108a571 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -795,11 +795,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
@@ -916,6 +916,8 @@ impl Vi {
             (key, _) if is_movement_key(key) | (key == Key::Char('0') && self.count == 0) => {
                 // set count
                 self.count = match (self.count, self.secondary_count) {
+                    // here 0 is the movement, which takes no count, and not a digit
+                    _ if key == Key::Char('0') => 0,
                     (0, 0) => 0,
                     (_, 0) => self.count,
                     (0, _) => self.secondary_count,
-- 
2.43.0


From 51471f370b5c899fd19b48e8d2bf3f65096ad421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 24/50] fix: forget the count of vi's ~ once it is done

3~x deleted three characters. Also let Ctrl-[ discard a count, as Esc does.
---
 src/keymap/vi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 108a571..ea2c5ec 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -624,7 +624,7 @@ impl Vi {
         use self::MoveType::*;
 
         match key {
-            Key::Esc => {
+            Key::Esc | Key::Ctrl('[') => {
                 self.count = 0;
                 Ok(())
             }
@@ -840,6 +840,7 @@ impl Vi {
                     }
                 }
                 self.pop_mode(ed)?;
+                self.count = 0;
                 Ok(())
             }
             Key::Char('u') => {
-- 
2.43.0


From 6d91a8dfdda494a14dd499f60d66b59037f2d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 25/50] fix: do nothing if the character for df, dt, cf, ct is
 not there

The character under the cursor was deleted (or everything up to it with c).
The count given to d and f is kept for a repeat, too (d2fx was repeated as dfx).
---
 src/keymap/vi.rs | 59 +++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index ea2c5ec..5ce1e82 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -972,7 +972,6 @@ impl Vi {
         use self::MoveType::*;
 
         let count = self.move_count();
-        self.count = 0;
 
         let (key, movement) = match (key, movement, self.last_char_movement) {
             // repeat the last movement
@@ -1003,41 +1002,35 @@ impl Vi {
 
         match key {
             Key::Char(c) => {
-                let move_type;
-                match movement {
-                    RightUntil => {
-                        move_type = Inclusive;
-                        match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
-                            Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
-                        }
-                    }
-                    RightAt => {
-                        move_type = Inclusive;
-                        match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
-                            Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
-                        }
-                    }
-                    LeftUntil => {
-                        move_type = Exclusive;
-                        match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
-                            Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
-                        }
-                    }
-                    LeftAt => {
-                        move_type = Exclusive;
-                        match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
-                            Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
-                        }
-                    }
+                let (move_type, target) = match movement {
+                    RightUntil => (
+                        Inclusive,
+                        find_char(ed.current_buffer(), ed.cursor() + 1, c, count).map(|i| i - 1),
+                    ),
+                    RightAt => (
+                        Inclusive,
+                        find_char(ed.current_buffer(), ed.cursor() + 1, c, count),
+                    ),
+                    LeftUntil => (
+                        Exclusive,
+                        find_char_rev(ed.current_buffer(), ed.cursor(), c, count).map(|i| i + 1),
+                    ),
+                    LeftAt => (
+                        Exclusive,
+                        find_char_rev(ed.current_buffer(), ed.cursor(), c, count),
+                    ),
                     Repeat | ReverseRepeat => unreachable!(),
-                }?;
+                };
+                match target {
+                    Some(i) => ed.move_cursor_to(i)?,
+                    // nothing to move to, nothing to delete or change
+                    None => return self.normal_mode_abort(ed),
+                }
 
                 // go back to the previous mode
-                self.pop_mode_after_movement(move_type, ed)
+                self.pop_mode_after_movement(move_type, ed)?;
+                self.count = 0;
+                Ok(())
             }
 
             // can't get here due to our match above
-- 
2.43.0


From a206189d08888f74d24cb391cc57a0afba53e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 26/50] fix: leave insert mode after repeating vi's C

---
 src/keymap/vi.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 5ce1e82..d61d5c8 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -693,9 +693,8 @@ impl Vi {
             }
             Key::Char('C') => {
                 // update the last command state
-                self.last_insert = None;
+                self.last_insert = Some(key);
                 self.last_command.clear();
-                self.last_command.push(key);
                 self.count = 0;
                 self.last_count = 0;
 
-- 
2.43.0


From 9afdaf6dcb043f0bd127ec748a687524509bfdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 27/50] fix: repeat the last complete delete or change

dd and cc were meant to be recorded but were not, so that . repeated the
command before them (with the text typed after cc); an aborted change made .
forget the last one.
---
 src/keymap/vi.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index d61d5c8..e11ae89 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -426,10 +426,7 @@ impl Vi {
                 Inclusive => ed.delete_until_inclusive(start_pos)?,
             }
 
-            // update the last state
-            mem::swap(&mut self.last_command, &mut self.current_command);
-            self.last_insert = self.current_insert;
-            self.last_count = self.count;
+            self.save_last_command();
 
             // reset our counts
             self.count = 0;
@@ -444,6 +441,13 @@ impl Vi {
         self.set_editor_mode(&mut ed)
     }
 
+    /// Make the delete or change that has just been completed the one to repeat.
+    fn save_last_command(&mut self) {
+        mem::swap(&mut self.last_command, &mut self.current_command);
+        self.last_insert = self.current_insert;
+        self.last_count = self.count;
+    }
+
     fn pop_mode<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
         use self::Mode::*;
 
@@ -672,7 +676,8 @@ impl Vi {
                     // handle special 'c' key stuff
                     self.current_insert = Some(key);
                     self.current_command.clear();
-                    self.set_mode(Insert, ed)?;
+                    // keep the last command in case this one is aborted
+                    self.set_mode_preserve_last(Insert, ed)?;
                 }
 
                 let start_pos = ed.cursor();
@@ -948,6 +953,7 @@ impl Vi {
                 self.secondary_count = 0;
                 ed.move_cursor_to_start_of_line()?;
                 ed.delete_all_after_cursor()?;
+                self.save_last_command();
 
                 // return to the previous mode
                 self.pop_mode(ed)?;
-- 
2.43.0


From 009aa6138aec13832f119705e2000eca52d49a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 28/50] fix: stop repeating a vi command when it is aborted

Repeating cfx with '.' where there is no x aborts the change, but the
text typed after it was then executed as normal mode commands.
---
 src/keymap/vi.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index e11ae89..81ddb27 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -325,6 +325,8 @@ pub struct Vi {
     last_count: u32,
     movement_reset: bool,
     last_char_movement: Option<(char, CharMovement)>,
+    // whether a command has been aborted since this was last reset
+    aborted: bool,
 }
 
 impl Default for Vi {
@@ -341,6 +343,7 @@ impl Default for Vi {
             last_count: 0,
             movement_reset: false,
             last_char_movement: None,
+            aborted: false,
         }
     }
 }
@@ -475,6 +478,7 @@ impl Vi {
         ed.no_eol = true;
         self.movement_reset = true;
         self.count = 0;
+        self.aborted = true;
         self.set_editor_mode(&mut ed)
     }
 
@@ -502,6 +506,7 @@ impl Vi {
     fn repeat<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
         self.last_count = self.count;
         let keys = mem::replace(&mut self.last_command, Vec::new());
+        self.aborted = false;
 
         if let Some(insert_key) = self.last_insert {
             // enter insert mode if necessary
@@ -510,9 +515,13 @@ impl Vi {
 
         for k in &keys {
             self.handle_key_core(*k, ed)?;
+            if self.aborted {
+                // what is left of the keys was typed in insert mode
+                break;
+            }
         }
 
-        if self.last_insert.is_some() {
+        if self.last_insert.is_some() && !self.aborted {
             // leave insert mode
             self.handle_key_core(Key::Esc, ed)?;
         }
-- 
2.43.0


From 7fb06feccd5e3c0ae2bf3cd123d0681523ef5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 29/50] fix: open the undo group in the new line when a search
 leaves a recalled one

In vi insert mode on a recalled entry, a search goes back to the new
line, whose undo group was never started but ended by Esc: u then took
back everything.
---
 src/buffer.rs | 9 +++++++++
 src/editor.rs | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 84accbc..34b7137 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -124,6 +124,15 @@ impl Buffer {
         self.actions.push(Action::EndGroup);
     }
 
+    /// The number of undo groups that have been started but not ended.
+    pub(crate) fn open_undo_groups(&self) -> usize {
+        self.actions.iter().fold(0, |open: usize, act| match act {
+            Action::StartGroup => open + 1,
+            Action::EndGroup => open.saturating_sub(1),
+            _ => open,
+        })
+    }
+
     pub fn undo(&mut self) -> bool {
         use Action::*;
 
diff --git a/src/editor.rs b/src/editor.rs
index e8d9575..64f0ec9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -474,6 +474,12 @@ impl<C: EditorContext> Editor<C> {
 
         self.reverse_search = !forward;
         self.forward_search = forward;
+        if self.cur_history_loc.is_some() && self.hist_buf_valid {
+            // What is typed next goes into the new buffer, and so does the end of its undo group.
+            for _ in 0..self.hist_buf.open_undo_groups() {
+                self.new_buf.start_undo_group();
+            }
+        }
         self.cur_history_loc = None;
         self.hist_buf_valid = false;
         self.buffer_changed = false;
-- 
2.43.0


From 06115c37a446fa1775199dc695e932c9d5647b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 30/50] fix: complete file names after any prefix

The completer panicked on "." without a working directory and on an
open quote before a non-ASCII character, took a name's last character
for the closing quote, completed the directory's own name after ".",
and found nothing in the current directory without a working directory.
---
 src/complete.rs | 92 +++++++++++++++----------------------------------
 1 file changed, 27 insertions(+), 65 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..a6779f2 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -55,62 +55,38 @@ impl FilenameCompleter {
 }
 
 impl Completer for FilenameCompleter {
-    fn completions(&mut self, mut start: &str) -> Vec<String> {
+    fn completions(&mut self, start: &str) -> Vec<String> {
         // XXX: this function is really bad, TODO rewrite
 
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
-            start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
-            }
-            start.into()
+            let (quote, rest) = start.split_at(1);
+            // the closing quote may not be there yet
+            rest.strip_suffix(quote).unwrap_or(rest).into()
         } else {
             start.replace(r"\ ", " ")
         };
 
-        let start_path = PathBuf::from(start_owned.as_str());
-
-        let full_path = match self.working_dir {
-            Some(ref wd) => {
-                let mut fp = PathBuf::from(wd);
-                fp.push(start_owned.as_str());
-                fp
-            }
-            None => PathBuf::from(start_owned.as_str()),
+        // What has been typed of the name to complete, after the directory.
+        // XXX non-unix separaor
+        let name_start = start_owned.rfind('/').map_or(0, |i| i + 1);
+        let completing_dir = matches!(&start_owned[name_start..], "" | "..");
+        let (typed_dir, start_name) = if completing_dir {
+            (start_owned.as_str(), "")
+        } else {
+            start_owned.split_at(name_start)
+        };
+        let start_name = if self.case_sensitive {
+            start_name.to_owned()
+        } else {
+            start_name.to_lowercase()
         };
 
-        let p;
-        let start_name;
-        let completing_dir;
-        match full_path.parent() {
-            // XXX non-unix separaor
-            Some(parent)
-                if !start.is_empty()
-                    && !start_owned.ends_with('/')
-                    && !full_path.ends_with("..") =>
-            {
-                p = parent;
-                start_name = if self.case_sensitive {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .into_owned()
-                } else {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .to_lowercase()
-                };
-                completing_dir = false;
-            }
-            _ => {
-                p = full_path.as_path();
-                start_name = "".into();
-                completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
-            }
+        let mut p = match self.working_dir {
+            Some(ref wd) => wd.join(typed_dir),
+            None => PathBuf::from(typed_dir),
+        };
+        if p.as_os_str().is_empty() {
+            p.push(".");
         }
 
         let read_dir = match p.read_dir() {
@@ -132,28 +108,14 @@ impl Completer for FilenameCompleter {
             };
 
             if start_name.is_empty() || file_name.starts_with(&*start_name) {
-                let mut a = start_path.clone();
-                if !a.is_absolute() {
-                    a = PathBuf::new();
-                } else if !completing_dir && !a.pop() {
-                    return vec![];
-                }
-
+                let mut a = PathBuf::from(typed_dir);
                 a.push(dir.file_name());
-                let mut s = a.to_string_lossy();
+                let mut s = a.to_string_lossy().into_owned();
                 if dir.path().is_dir() {
-                    let mut string = s.into_owned();
-                    string.push_str("/");
-                    s = string.into();
-                }
-
-                let mut b = PathBuf::from(&start_owned);
-                if !completing_dir {
-                    b.pop();
+                    s.push('/');
                 }
-                b.push(s.as_ref());
 
-                matches.push(b.to_string_lossy().replace(" ", r"\ "));
+                matches.push(s.replace(" ", r"\ "));
             }
         }
 
-- 
2.43.0


From d03be2b0c4082e0a364f3dbfa394805c7f228755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 31/50] fix: do not truncate a history file another session has
 just created

---
 src/history.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..8168709 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -2,7 +2,7 @@ use super::*;
 
 use std::{
     collections::{vec_deque, VecDeque},
-    fs::File,
+    fs::{File, OpenOptions},
     io::{self, Write},
     io::{BufRead, BufReader, BufWriter},
     iter::IntoIterator,
@@ -210,7 +210,8 @@ impl History {
                 l
             })
         } else {
-            File::create(path)?;
+            // Another session may just have created it, and written to it.
+            OpenOptions::new().append(true).create(true).open(path)?;
             Ok(0)
         }
     }
-- 
2.43.0


From f36d1eb0075839af8b7ffdced07c9edc7b79a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 32/50] fix: load the history after a line that is not valid
 UTF-8

Such a line, left by a crash within a character, made every later entry
invisible, and the next rewrite of the file removed them.
---
 src/history.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index 8168709..9b74e98 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -125,6 +125,8 @@ impl History {
                             self.buffers.push_back(Buffer::from(line));
                         }
                     }
+                    // A line that is no text, such as one cut short within a character.
+                    Err(ref e) if e.kind() == io::ErrorKind::InvalidData => continue,
                     Err(_) => break,
                 }
             }
@@ -167,6 +169,8 @@ impl History {
                         buf.push_back(line);
                     }
                 }
+                // A line that is no text, such as one cut short within a character.
+                Err(ref e) if e.kind() == io::ErrorKind::InvalidData => continue,
                 Err(_) => break,
             }
         }
-- 
2.43.0


From 69006c5dab1e4899b62ef8d205114b74f4774133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 33/50] fix: keep every entry when the history file is
 compacted

The entry that triggered the compaction was not written, and with shared
history it was lost from memory, too; a shared session with a smaller
limit in memory removed entries of the others. An entry and its newline
went out in two writes when it was long, so that another session could
write between them, and an entry after one that had been cut short
became part of it.
---
 src/history.rs | 65 ++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 9b74e98..88e686c 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -3,7 +3,7 @@ use super::*;
 use std::{
     collections::{vec_deque, VecDeque},
     fs::{File, OpenOptions},
-    io::{self, Write},
+    io::{self, Read, Seek, SeekFrom, Write},
     io::{BufRead, BufReader, BufWriter},
     iter::IntoIterator,
     ops::Index,
@@ -261,50 +261,47 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(mut file) = OpenOptions::new().read(true).append(true).open(&file_name) {
+                let mut line = String::new();
+                if !Self::ends_with_newline(&mut file).unwrap_or(true) {
+                    // The last entry was cut short.
+                    line.push('\n');
+                }
+                line.push_str(&item_str);
+                line.push('\n');
+                // Written at once, so that nothing another session writes can come in between.
+                let _ = file.write_all(line.as_bytes());
+                // Leave file size alone, if it is not right trigger a reload later.
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += line.len() as u64;
+            }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
-                // Every 30 writes "compact" the history file by writing just in memory history.  This
-                // is to keep the history file clean and at a reasonable size (not much over max
-                // history size at it's worst).
+                // Every 30 writes "compact" the history file.  This is to keep the history file
+                // clean and at a reasonable size (not much over max history size at it's worst).
+                // It holds the new entry already, and may hold more than our history does.
                 if self.compaction_writes > 29 {
-                    if self.share {
-                        // Reload history, we may be out of sync.
-                        let _ = self.load_history(false);
-                        // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
-                        }
-                    } else {
-                        // Not using shared history so just de-dup the file without messing with
-                        // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
-                        }
-                    }
+                    let _ = History::deduplicate_history_file(file_name, self.max_file_size);
                     self.compaction_writes = 0;
                 }
-            } else {
-                // If allowing duplicates then no need for compaction.
-                self.compaction_writes = 1;
-            }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
             }
         }
         Ok(())
     }
 
+    /// Whether the last line of the file, if there is one, is complete.
+    fn ends_with_newline(file: &mut File) -> io::Result<bool> {
+        if file.seek(SeekFrom::End(0))? == 0 {
+            return Ok(true);
+        }
+        file.seek(SeekFrom::End(-1))?;
+        let mut last = [0];
+        file.read_exact(&mut last)?;
+        Ok(last == *b"\n")
+    }
+
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
         self.buffers.retain(|buffer| {
-- 
2.43.0


From 60ab3c527618e600cf8d7a10620147c433eb020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 34/50] fix: replace the history file at once when rewriting it

It was truncated first and then written: a crash in between lost entries,
and a session reading it meanwhile saw only some of them.
---
 src/history.rs | 62 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 88e686c..461598c 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -2,13 +2,15 @@ use super::*;
 
 use std::{
     collections::{vec_deque, VecDeque},
-    fs::{File, OpenOptions},
+    fs::{self, File, OpenOptions},
     io::{self, Read, Seek, SeekFrom, Write},
-    io::{BufRead, BufReader, BufWriter},
+    io::{BufRead, BufReader},
     iter::IntoIterator,
     ops::Index,
     ops::IndexMut,
     path::Path,
+    process,
+    sync::atomic::{AtomicUsize, Ordering},
     //time::Duration,
 };
 
@@ -193,12 +195,7 @@ impl History {
 
         if org_length != buf.len() {
             // Overwrite the history file with the deduplicated version if it changed.
-            let mut file = BufWriter::new(File::create(&path)?);
-            // Write the commands to the history file.
-            for command in buf.into_iter() {
-                let _ = file.write_all(&command.as_bytes());
-                let _ = file.write_all(b"\n");
-            }
+            History::rewrite_file(path, buf)?;
         }
         Ok("De-duplicated history file.".to_string())
     }
@@ -379,15 +376,50 @@ impl History {
         }
     }
 
-    fn overwrite_history<P: AsRef<Path>>(&mut self, path: P) -> io::Result<String> {
-        self.truncate();
-        let mut file = BufWriter::new(File::create(&path)?);
+    /// Replaces the file by one with the given lines, at once: the old lines must survive a crash.
+    fn rewrite_file<I: IntoIterator<Item = String>>(path: &Path, lines: I) -> io::Result<()> {
+        static COUNT: AtomicUsize = AtomicUsize::new(0);
 
-        // Write the commands to the history file.
-        for command in self.buffers.iter().cloned() {
-            let _ = file.write_all(&String::from(command).as_bytes());
-            let _ = file.write_all(b"\n");
+        let mut contents = String::new();
+        for line in lines {
+            contents.push_str(&line);
+            contents.push('\n');
         }
+
+        // It may be a link, and must not be replaced if it is a device.
+        let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_owned());
+        let metadata = fs::metadata(&path);
+        if metadata.as_ref().map_or(false, |m| !m.is_file()) {
+            return fs::write(&path, contents);
+        }
+        let mut tmp_path = path.clone().into_os_string();
+        tmp_path.push(format!(
+            ".{}.{}.tmp",
+            process::id(),
+            COUNT.fetch_add(1, Ordering::Relaxed)
+        ));
+        let tmp_path = Path::new(&tmp_path);
+        let mut file = match OpenOptions::new().write(true).create_new(true).open(tmp_path) {
+            Ok(file) => file,
+            // No files can be created there.
+            Err(_) => return fs::write(&path, contents),
+        };
+
+        let result = match metadata {
+            Ok(metadata) => fs::set_permissions(tmp_path, metadata.permissions()),
+            Err(_) => Ok(()),
+        }
+        .and_then(|_| file.write_all(contents.as_bytes()))
+        .and_then(|_| fs::rename(tmp_path, &path));
+        if result.is_err() {
+            let _ = fs::remove_file(tmp_path);
+        }
+        result
+    }
+
+    fn overwrite_history<P: AsRef<Path>>(&mut self, path: P) -> io::Result<String> {
+        self.truncate();
+        History::rewrite_file(path.as_ref(), self.buffers.iter().cloned().map(String::from))?;
         Ok("Wrote history to file.".to_string())
     }
 
-- 
2.43.0


From bf469202caf45e15418dbf4a992d5b1086f099e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 35/50] fix: keep the position in history when the screen is
 cleared

Ctrl-L on a recalled entry made Up start over and Down do nothing.
---
 src/editor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 64f0ec9..ff17d02 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -742,7 +742,9 @@ impl<C: EditorContext> Editor<C> {
         self.context.terminal_mut().write_all(codes.as_bytes())?;
 
         self.term_cursor_line = 1;
-        self.clear_search();
+        if self.is_search() {
+            self.clear_search();
+        }
         self.display()
     }
 
-- 
2.43.0


From 07713dac1b95220a72348038afad56ebd91e282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 36/50] fix: forget the count of a change when the cursor moves
 in insert mode

After 3sab<Left>c<Esc>, '.' inserted c three times.
---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 81ddb27..dc8d4b0 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -583,6 +583,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 ed.insert_after_cursor(c)
@@ -596,6 +597,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 self.handle_key_common(key, ed)
-- 
2.43.0


From c265e672e76912a1dc88c8db43a70e5edcdac271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 37/50] fix: do not leave a copy of a prompt wider than the
 terminal

The last line of the prompt was printed when the editor was created, and
again with the text; the first copy stayed if it took more than one row.
---
 src/editor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ff17d02..fbf5d13 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -6,7 +6,6 @@ use termion::{self, clear, color, cursor};
 use super::complete::Completer;
 use crate::context::ColorClosure;
 use crate::{event::*, util, Buffer, EditorContext, Tty};
-use itertools::Itertools;
 use unicode_width::UnicodeWidthChar;
 
 /// Indicates the mode that should be currently displayed in the propmpt.
@@ -327,9 +326,11 @@ impl<C: EditorContext> Editor<C> {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-            out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+            // The last line is printed together with the text.
             if let Some(index) = prompt.rfind('\n') {
-                prompt = prompt.split_at(index + 1).1.into()
+                let (above, last) = prompt.split_at(index + 1);
+                out.write_all(above.replace('\n', "\r\n").as_bytes())?;
+                prompt = last.into()
             }
         }
 
-- 
2.43.0


From bfbf6040d397d1949bbb531cb1cef00839a69653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 38/50] fix: take the candidate list off the screen with any
 key that closes it

A key without effect on the line closed the list but left it on the screen.
---
 src/editor.rs     | 8 ++++++++
 src/keymap/mod.rs | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index fbf5d13..ca7bba8 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -613,6 +613,14 @@ impl<C: EditorContext> Editor<C> {
         self.show_completions_hint = None;
     }
 
+    /// Closes the list of candidates if it is open, on the screen as well.
+    pub(crate) fn close_completions_list(&mut self) -> io::Result<()> {
+        if self.show_completions_hint.take().is_some() {
+            self.display()?;
+        }
+        Ok(())
+    }
+
     pub fn complete<T: Completer>(&mut self, handler: &mut T) -> io::Result<()> {
         handler.on_event(Event::new(self, EventKind::BeforeComplete));
 
diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index 7ef79e8..b2734a2 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -40,7 +40,7 @@ pub trait KeyMap: Default {
 
         // Every key but those for the candidate list closes it.
         if key != Key::Char('\t') && key != Key::Char('\n') {
-            editor.skip_completions_hint();
+            editor.close_completions_list()?;
         }
 
         match key {
-- 
2.43.0


From 9a5ecc12f366da77ba3c84a181c88d192c917075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 39/50] fix: removing an entry from the history keeps those
 that only equal it without their newlines

The lines of an entry were joined without a separator before they were
compared, so that asking for "ab" also removed the entry "a\nb".
---
 src/history.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 461598c..3c74ab9 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -301,10 +301,7 @@ impl History {
 
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
-        self.buffers.retain(|buffer| {
-            let command = buffer.lines().concat();
-            command != input
-        });
+        self.buffers.retain(|buffer| buffer.to_string() != input);
     }
 
     fn get_match<I>(&self, vals: I, search_term: &Buffer) -> Option<usize>
-- 
2.43.0


From 1074b83afbdcc1d107a936c2915f53d81b053996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 40/50] fix: no panic on a terminal that reports a width of 0

A terminal whose size is not set (a serial line, a pseudo terminal nobody
resized) reports 0 columns. Creating an editor then underflowed, and
displaying divided by it. Assume 80 columns, as when the width is unknown.
---
 src/editor.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ca7bba8..18041a5 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -293,6 +293,15 @@ macro_rules! cur_buf_mut {
     }};
 }
 
+/// The width to assume for a terminal: one that does not know its own says that it is 0.
+fn usable_width(width: usize) -> usize {
+    if width == 0 {
+        80
+    } else {
+        width
+    }
+}
+
 macro_rules! cur_buf {
     ($s:expr) => {
         match $s.cur_history_loc {
@@ -322,7 +331,7 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            for _ in 0..(usable_width(out.width().unwrap_or(0)) - 1) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
@@ -1090,7 +1099,7 @@ impl<C: EditorContext> Editor<C> {
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
         let (prompt, search_lead) = self.search_prompt();
 
-        let terminal_width = self.context.terminal().width()?;
+        let terminal_width = usable_width(self.context.terminal().width()?);
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-- 
2.43.0


From f4340f33166dc4b6fdf18384aa19ee049dc56e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 41/50] fix: escape sequences with intermediate characters or
 ended by ST took space in the prompt

---
 src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 29fd13d..2544e1f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,10 +64,14 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 AnsiState::Esc => match c {
                     '[' => s = AnsiState::Csi,
                     ']' => s = AnsiState::Osc,
+                    // intermediate characters, as in the "\x1B(B" of `tput sgr0`
+                    ' '..='/' => (),
                     _ => s = AnsiState::Norm,
                 },
-                AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
+                AnsiState::Csi if ('@'..='~').contains(&c) => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
+                // ended by "\x1B\\"
+                AnsiState::Osc if c == '\x1B' => s = AnsiState::Esc,
                 _ => (),
             }
         }
-- 
2.43.0


From 634e8daa914cffd75705e887c7b4807e8812e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 42/50] fix: a vi mode indicator put in place of a prompt
 without one showed the wrong mode

---
 src/editor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 18041a5..2a84438 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -226,6 +226,9 @@ fn single_line(text: &str) -> String {
 pub struct Editor<C: ?Sized> {
     prompt: Prompt,
 
+    // The vi mode last set, also if the prompt does not show it.
+    vi_mode: Option<ViPromptMode>,
+
     // A closure that is evaluated just before we write to out.
     // This allows us to do custom syntax highlighting and other fun stuff.
     closure: Option<ColorClosure>,
@@ -346,6 +349,7 @@ impl<C: EditorContext> Editor<C> {
         let prompt = Prompt { prompt, vi_status };
         let mut ed = Editor {
             prompt,
+            vi_mode: None,
             cursor: 0,
             closure: f,
             new_buf: buffer.into(),
@@ -399,6 +403,8 @@ impl<C: EditorContext> Editor<C> {
         if let Some(passed_status) = &mut prompt.vi_status {
             if let Some(old_status) = &self.prompt.vi_status {
                 passed_status.mode = old_status.mode;
+            } else if let Some(mode) = self.vi_mode {
+                passed_status.mode = mode;
             }
         }
         self.prompt = prompt;
@@ -1272,6 +1278,7 @@ impl<C: EditorContext> Editor<C> {
     /// This operation will be ignored if a static prompt is used, as mode changes will have no
     /// side effect.
     pub fn set_vi_mode(&mut self, mode: ViPromptMode) {
+        self.vi_mode = Some(mode);
         if let Some(status) = &mut self.prompt.vi_status {
             status.mode = mode;
         }
-- 
2.43.0


From a25394f253e73fa6c1dd577d8a4d5f6a1ca5eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 43/50] fix: deleting up to and including the last possible
 position panicked

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 2a84438..d033877 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -942,7 +942,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         self.delete_range(
             cmp::min(self.cursor, position),
-            cmp::max(self.cursor + 1, position + 1),
+            cmp::max(self.cursor, position).saturating_add(1),
         )
     }
 
-- 
2.43.0


From 929da32ca13b6bfcc7fc41e4511495f0973174a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 44/50] fix: the rest of a suggestion that starts on a new line
 was shown like typed text

---
 src/editor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index d033877..82d2255 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1220,6 +1220,14 @@ impl<C: EditorContext> Editor<C> {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
                 }
                 out_buf.push_str(&written_line);
+                // the suggestion goes on in the next line
+                if buf_num_remaining_chars == 0
+                    && i + 1 < lines_len
+                    && self.is_currently_showing_autosuggestion()
+                    && !self.is_search()
+                {
+                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+                }
             }
 
             if i + 1 < lines_len {
-- 
2.43.0


From 27101b01d083a6f313be889f91485f547f49fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 45/50] fix: a shared history missed entries when the file,
 compacted meanwhile, had grown to its former size

---
 src/history.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index 3c74ab9..ede28f4 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -8,14 +8,34 @@ use std::{
     iter::IntoIterator,
     ops::Index,
     ops::IndexMut,
+    os::unix::fs::MetadataExt,
     path::Path,
     process,
     sync::atomic::{AtomicUsize, Ordering},
+    time::SystemTime,
     //time::Duration,
 };
 
 const DEFAULT_MAX_SIZE: usize = 1000;
 
+/// Tells a file from others that have been in its place.
+#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
+struct FileId {
+    inode: u64,
+    /// Inodes may be used again.
+    created: Option<SystemTime>,
+}
+
+impl FileId {
+    fn of<P: AsRef<Path>>(path: P) -> Option<FileId> {
+        let metadata = fs::metadata(path).ok()?;
+        Some(FileId {
+            inode: metadata.ino(),
+            created: metadata.created().ok(),
+        })
+    }
+}
+
 /// Structure encapsulating command history
 #[derive(Clone, PartialEq, Eq, Hash, Debug)]
 pub struct History {
@@ -38,6 +58,8 @@ pub struct History {
     pub share: bool,
     /// Last filesize of history file, used to optimize history sharing.
     pub file_size: u64,
+    /// The file that size is of; compaction puts another one in its place.
+    file_id: Option<FileId>,
     /// Allow loading duplicate entries, need to know this for loading history files.
     pub load_duplicates: bool,
     /// Writes between history compaction.
@@ -62,6 +84,7 @@ impl History {
             inc_append: false,
             share: false,
             file_size: 0,
+            file_id: None,
             load_duplicates: true,
             compaction_writes: 0,
         }
@@ -76,10 +99,16 @@ impl History {
     /// is true otherwise replace history.
     pub fn load_history(&mut self, append: bool) -> io::Result<u64> {
         if let Some(path) = self.file_name.clone() {
-            let file_size = self.file_size;
+            let id = FileId::of(&path);
+            let file_size = if id == self.file_id {
+                self.file_size
+            } else {
+                0
+            };
             self.load_history_file_test(&path, file_size, append)
                 .map(|l| {
                     self.file_size = l;
+                    self.file_id = id;
                     l
                 })
         } else {
@@ -206,13 +235,16 @@ impl History {
         self.file_name = path.to_str().map(|s| s.to_owned());
         self.file_size = 0;
         if path.exists() {
+            let id = FileId::of(path);
             self.load_history_file(path, false).map(|l| {
                 self.file_size = l;
+                self.file_id = id;
                 l
             })
         } else {
             // Another session may just have created it, and written to it.
             OpenOptions::new().append(true).create(true).open(path)?;
+            self.file_id = FileId::of(path);
             Ok(0)
         }
     }
-- 
2.43.0


From a57c4d33989c7ac3c6d055038bb0a4ab9564fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 46/50] fix: a word motion with a huge count went on counting
 for minutes at the start of the line

---
 src/keymap/vi.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dc8d4b0..a451224 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -170,6 +170,7 @@ fn vi_move_word<C: EditorContext>(
 
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
+        let start = cursor;
         let buf = ed.current_buffer();
         let mut state = match buf.char_after(cursor) {
             None => break,
@@ -203,6 +204,11 @@ fn vi_move_word<C: EditorContext>(
                 },
             }
         }
+
+        // however large the count, the end of the line is as far as it goes
+        if cursor == start {
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
@@ -239,6 +245,7 @@ fn vi_move_word_end<C: EditorContext>(
 
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
+        let start = cursor;
         let buf = ed.current_buffer();
         let mut state = State::Whitespace;
 
@@ -280,6 +287,11 @@ fn vi_move_word_end<C: EditorContext>(
                 _ => {}
             }
         }
+
+        // however large the count, the end of the line is as far as it goes
+        if cursor == start {
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
-- 
2.43.0


From 7487e90c37fdcdffaa423a2c36380cee3d26c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:38 +0000
Subject: [PATCH 47/50] fix: a read error while the history file is compacted
 lost the rest of the file

---
 src/history.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index ede28f4..85c6a08 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -202,7 +202,8 @@ impl History {
                 }
                 // A line that is no text, such as one cut short within a character.
                 Err(ref e) if e.kind() == io::ErrorKind::InvalidData => continue,
-                Err(_) => break,
+                // What could not be read must not be lost.
+                Err(e) => return Err(e),
             }
         }
         let org_length = buf.len();
-- 
2.43.0


From 8fad7998fd2868e925059afd2676db3044121b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:38 +0000
Subject: [PATCH 48/50] fix: loading a history that cannot be read threw away
 what was loaded and reported success

---
 src/history.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 85c6a08..3a5c563 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -145,22 +145,24 @@ impl History {
             self.clear_history();
         }
         if new_length != length {
-            if !append {
-                self.clear_history();
-            }
+            let mut loaded: Vec<Buffer> = Vec::new();
             let reader = BufReader::new(file);
             for line in reader.lines() {
                 match line {
                     Ok(line) => {
                         if !line.starts_with('#') {
-                            self.buffers.push_back(Buffer::from(line));
+                            loaded.push(Buffer::from(line));
                         }
                     }
                     // A line that is no text, such as one cut short within a character.
                     Err(ref e) if e.kind() == io::ErrorKind::InvalidData => continue,
-                    Err(_) => break,
+                    Err(e) => return Err(e),
                 }
             }
+            if !append {
+                self.clear_history();
+            }
+            self.buffers.extend(loaded);
             self.truncate();
             if !self.load_duplicates {
                 let mut tmp_buffers: Vec<Buffer> = Vec::with_capacity(self.buffers.len());
-- 
2.43.0


From 2e1bab6d6628c301ff62f47346984afafb331c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:38 +0000
Subject: [PATCH 49/50] fix: an entry could be joined to one cut short when the
 end of the history file could not be read

---
 src/history.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 3a5c563..09b313a 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -294,9 +294,13 @@ impl History {
 
         if self.inc_append && self.file_name.is_some() {
             let file_name = self.file_name.clone().unwrap();
-            if let Ok(mut file) = OpenOptions::new().read(true).append(true).open(&file_name) {
+            let file = OpenOptions::new().read(true).append(true).open(&file_name);
+            // Appends nothing if that could become part of the last entry.
+            if let Ok((mut file, complete)) =
+                file.and_then(|mut file| Self::ends_with_newline(&mut file).map(|c| (file, c)))
+            {
                 let mut line = String::new();
-                if !Self::ends_with_newline(&mut file).unwrap_or(true) {
+                if !complete {
                     // The last entry was cut short.
                     line.push('\n');
                 }
-- 
2.43.0


From ac494eddac6155d565c1dc2a028b3e5c1f216c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:38 +0000
Subject: [PATCH 50/50] fix: after a failed append, entries of another session
 could be taken for already loaded

---
 src/history.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 09b313a..13c4f16 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -307,10 +307,11 @@ impl History {
                 line.push_str(&item_str);
                 line.push('\n');
                 // Written at once, so that nothing another session writes can come in between.
-                let _ = file.write_all(line.as_bytes());
                 // Leave file size alone, if it is not right trigger a reload later.
-                // Save the filesize after each append so we do not reload when we do not need to.
-                self.file_size += line.len() as u64;
+                if file.write_all(line.as_bytes()).is_ok() {
+                    // Save the filesize after each append so we do not reload when we do not need to.
+                    self.file_size += line.len() as u64;
+                }
             }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
-- 
2.43.0

