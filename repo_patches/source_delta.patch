From 3efb56ad29c13184acc56e50c1c9dd1d6e15a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 01/42] fix: add_ansi_text overlooks a sequence right after
 another escape

---
 src/line/add_ansi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 277630f..628713a 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -22,7 +22,8 @@ impl Line {
                 if ch != '\x1B' {
                     continue;
                 }
-                let Some((_, ch)) = char_indices.next() else {
+                // (only peek, this might be the start of another sequence)
+                let Some((_, ch)) = char_indices.clone().next() else {
                     break;
                 };
                 if ch != '[' {
-- 
2.43.0


From 0e02370a45cd0c1ffaaabff259e67841ecb616f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 02/42] fix: add_ansi_text takes private, malformed and
 overlong parameters for zero

---
 src/line/add_ansi.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 628713a..2b75ab5 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -50,7 +50,7 @@ impl Line {
                 // followed by zero or more "intermediate bytes"
                 let intermediate_start = i;
                 while i < csi_bytes.len()
-                    && (0x30..=0x3F).contains(&csi_bytes[i])
+                    && (0x20..=0x2F).contains(&csi_bytes[i])
                 {
                     i += 1;
                 }
@@ -58,6 +58,9 @@ impl Line {
                 // followed by one "final byte"
                 if csi_bytes.get(i).copied() != Some(b'm')
                     || intermediate_start != intermediate_end
+                    || csi_bytes[param_start..param_end]
+                        .iter()
+                        .any(|x| !x.is_ascii_digit() && *x != b';')
                 {
                     // not an SGR code, or not a valid CSI code
                     self.add_text("\x1B[");
@@ -67,7 +70,12 @@ impl Line {
                 let mut codes = input_line[unescaped_start + param_start
                     ..unescaped_start + param_end]
                     .split(';')
-                    .map(|code| code.parse::<u32>().unwrap_or(0));
+                    .map(|code| match code {
+                        // a missing parameter means zero...
+                        "" => 0,
+                        // ...but one that's too large does not
+                        x => x.parse::<u32>().unwrap_or(u32::MAX),
+                    });
                 while let Some(code) = codes.next() {
                     match code {
                         0 => drop(self.reset_all()),
-- 
2.43.0


From 3d49fa7ea875fd72a77f819e9ed2ce1d3bfe950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 03/42] fix: wrap_to_width takes character counts for byte
 offsets of line breaks

---
 src/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..8da8508 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -389,8 +389,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
-- 
2.43.0


From 519f4018d65b7cb41c00882f148c88d7000a9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:34 +0000
Subject: [PATCH 04/42] fix: wrap_to_width leaves elements before the last one
 unadjusted

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 8da8508..3f4986e 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -473,7 +473,7 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
+            if element.start < range.start {
                 break; // all subsequent elements will be before the edit
             }
         }
-- 
2.43.0


From 8657db7fecba73b6220cf21c0084ab5ddcd4df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:05 +0000
Subject: [PATCH 05/42] fix: wrap_to_width keeps leading and trailing spaces
 that do not fit

---
 src/line.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 3f4986e..93290ae 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -406,6 +406,7 @@ impl Line {
             }
             let wrap_vec = textwrap::wrap(&self.text[start..end], width);
             let mut edit_vec = Vec::with_capacity(wrap_vec.len());
+            let mut row_start = start;
             let mut cur_end = start;
             for el in wrap_vec.into_iter() {
                 // We're pretty sure we didn't use any features that would require
@@ -424,26 +425,34 @@ impl Line {
                     continue;
                 }
                 assert!(start >= cur_end);
-                if start != 0 {
+                if start != row_start {
                     edit_vec.push(cur_end..start);
                 }
+                row_start = start;
                 cur_end = end;
             }
+            // textwrap leaves trailing spaces out of its calculations. They
+            // can only stay if they fit.
+            if textwrap::core::display_width(&self.text[row_start..end])
+                > width
+            {
+                self.replace_text_range(cur_end..end, "");
+            }
             for range in edit_vec.into_iter().rev() {
-                if range.start > 0
-                    && self.text.as_bytes()[range.start - 1] == b'\n'
-                {
-                    continue;
-                }
-                self.erase_and_insert_newline(range);
+                self.replace_text_range(range, "\n");
             }
         }
     }
     // Internal use only.
     #[cfg(feature = "wrap")]
-    fn erase_and_insert_newline(&mut self, range: std::ops::Range<usize>) {
-        let delta_bytes = 1 - (range.end as isize - range.start as isize);
-        self.text.replace_range(range.clone(), "\n");
+    fn replace_text_range(
+        &mut self,
+        range: std::ops::Range<usize>,
+        nu: &str,
+    ) {
+        let delta_bytes = nu.len() as isize
+            - (range.end as isize - range.start as isize);
+        self.text.replace_range(range.clone(), nu);
         let mut elements_len = self.elements.len();
         let mut i = self.elements.len();
         loop {
-- 
2.43.0


From e179cbc3917da584d5f8373f681fadabdcf299ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:05 +0000
Subject: [PATCH 06/42] fix: wrap_to_width panics when a terminal reports a
 width of zero

---
 src/line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 93290ae..05b539c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -386,7 +386,8 @@ impl Line {
     /// user's terminal.
     #[cfg(feature = "wrap")]
     pub fn wrap_to_width(&mut self, width: usize) {
-        assert!(width > 0);
+        // a terminal might not know its width
+        let width = width.max(1);
         let newline_positions: Vec<usize> = self
             .text
             .char_indices()
-- 
2.43.0


From 8b8810fc9b67c55266af6c66eb683f4551e2ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 07/42] fix: write_history_to ignores errors when its buffer is
 flushed

---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..f212d82 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,8 +152,8 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
-        Ok(())
+        // dropping it would ignore errors
+        f.flush()
     }
     /// Sets the maximum number of lines that will be saved in the history. If
     /// more lines than this are added, the oldest lines will be removed. This
-- 
2.43.0


From 4a067af358ed2bba3a5882d0a13e33f7015e3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 08/42] fix: saving a history fails without an existing file,
 and can lose it when interrupted

---
 src/history.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index f212d82..0929470 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::{remove_file, rename, File},
+    fs::{remove_file, rename, File, OpenOptions},
     io,
     io::{BufRead, BufReader, BufWriter, Write},
     num::NonZeroUsize,
@@ -110,9 +110,14 @@ impl History {
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
             history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
+            // The new file must be complete before it replaces the old one,
+            // and there must not be a moment at which there is neither.
+            OpenOptions::new()
+                .write(true)
+                .open(&build_path)?
+                .sync_all()?;
             rename(&build_path, &history_path)?;
+            // Might be left over from when we used to make one.
             let _ = remove_file(&backup_path);
             Ok(())
         });
-- 
2.43.0


From 4c25b3e456c79834003ff367f5739fcabbe851b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 09/42] fix: a history is not autosaved when it is dropped

---
 src/history.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index 0929470..f61c365 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -19,6 +19,8 @@ pub struct History {
     autosave_handler: Option<Box<AutosaveHandlerFn>>,
     autosave_interval: Option<NonZeroUsize>,
     lines_since_last_autosave: usize,
+    /// Whether there are changes the autosave handler hasn't seen yet.
+    unsaved: bool,
 }
 
 pub type AutosaveHandlerFn = dyn Fn(&History) -> io::Result<()> + Send + Sync;
@@ -40,6 +42,7 @@ impl History {
             autosave_handler: None,
             autosave_interval: None,
             lines_since_last_autosave: 0,
+            unsaved: false,
         }
     }
     /// Create a new History by reading the given file, with default options.
@@ -122,6 +125,7 @@ impl History {
             Ok(())
         });
         ret.autosave_handler = Some(handler);
+        ret.unsaved = false;
         Ok(ret)
     }
     /// Attempts to read history from the given file. Does not change any
@@ -145,6 +149,7 @@ impl History {
         }
         let ret = new_history.len();
         self.lines = new_history;
+        self.unsaved = true;
         Ok(ret)
     }
     /// Attempts to write history to the given file. Doesn't have any special
@@ -232,6 +237,7 @@ impl History {
             }
         }
         self.lines.push(line);
+        self.unsaved = true;
         if let Some(interval) = self.autosave_interval {
             self.lines_since_last_autosave += 1;
             if self.lines_since_last_autosave >= interval.get() {
@@ -239,6 +245,7 @@ impl History {
                 if let Some(autosave_handler) = self.autosave_handler.as_ref()
                 {
                     (autosave_handler)(self)?;
+                    self.unsaved = false;
                 }
             }
         }
@@ -250,6 +257,17 @@ impl History {
     }
 }
 
+impl Drop for History {
+    fn drop(&mut self) {
+        if self.unsaved {
+            if let Some(autosave_handler) = self.autosave_handler.as_ref() {
+                // (there is nobody left to report an error to)
+                let _ = (autosave_handler)(self);
+            }
+        }
+    }
+}
+
 impl Default for History {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 3f95ad1fe1b8813017ba089ffedc1138cc80c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 10/42] fix: the cursor stays hidden after output until a
 prompt is set or a key is pressed

---
 src/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..15c1dd5 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1399,7 +1399,8 @@ fn tty_worker(
         input: String::new(),
         input_cursor: 0,
         term: RefCell::new(term),
-        rollout_needed: false,
+        // (the cursor is still hidden)
+        rollout_needed: true,
         clipboard: String::new(),
         #[cfg(feature = "history")]
         history,
-- 
2.43.0


From 87a39cb57141b591b3525523cd03a7f3026f7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 11/42] fix: the first notice to expire ends the thread that
 later ones need

---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 15c1dd5..265a146 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1371,7 +1371,7 @@ fn tty_worker(
                     if !deadlines.is_empty() && now >= deadlines[0] {
                         deadlines.remove(0);
                         match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
+                            Ok(_) => continue,
                             Err(_) => return,
                         }
                     }
-- 
2.43.0


From d480bc982fd92956eb809f7c70e4955bc46d5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 12/42] fix: a wide character is cut off when only one column
 is left

---
 src/worker.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 265a146..801394a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -125,7 +125,12 @@ impl TtyState {
             for (idx, ch) in text.char_indices() {
                 let char_width =
                     UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
-                if (char_width > 0 && cur_column >= term_width) || ch == '\n' {
+                // (a wide character might not fit in the last column)
+                if (cur_column > 0
+                    && char_width > 0
+                    && cur_column + char_width > term_width)
+                    || ch == '\n'
+                {
                     if cur != idx {
                         term.print(&text[cur..idx])?;
                     }
@@ -166,7 +171,7 @@ impl TtyState {
             term.print_spaces((term_width - cur_column) as usize)?;
         }
         term.set_attrs(Style::empty(), None, None)?;
-        if cur_column != term_width {
+        if cur_column < term_width {
             term.clear_to_end_of_line()?;
         }
         term.newline()?;
@@ -246,6 +251,20 @@ impl TtyState {
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
         if ch != '\n' {
+            if *cur_column > 0 && *cur_column + char_width > term_width {
+                // a wide character doesn't fit in the last column
+                if cur_attr.0.contains(Style::INVERSE)
+                    || cur_attr.0.contains(Style::UNDERLINE)
+                    || cur_attr.2.is_some()
+                {
+                    term.print_spaces((term_width - *cur_column) as usize)?;
+                } else {
+                    term.clear_to_end_of_line()?;
+                }
+                term.newline()?;
+                *cur_breaks += 1;
+                *cur_column = 0;
+            }
             term.print_char(ch)?;
             *cur_column += char_width;
             *implied_newline = false;
@@ -282,6 +301,10 @@ impl TtyState {
         let ch = lc.ch;
         let char_width = UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
         if ch != '\n' {
+            if *cur_column > 0 && *cur_column + char_width > term_width {
+                *cur_breaks += 1;
+                *cur_column = 0;
+            }
             *cur_column += char_width;
             *implied_newline = false;
         } else if ch == '\n' && *implied_newline {
-- 
2.43.0


From d01fcf5b75d6d8589cc14c4b32c9cae803188a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 13/42] fix: characters of other widths and combining
 characters are left behind when the input or status changes

---
 src/worker.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 801394a..1696492 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -112,6 +112,20 @@ struct TtyState {
     consecutive_completion_presses: u32,
 }
 
+/// Returns true if what is on the terminal can be turned from one line into
+/// the other by overwriting the characters that differ. (It can't be if that
+/// would move the characters that don't, or if there are combining characters
+/// involved.)
+fn can_overwrite(old: &Line, new: &Line) -> bool {
+    let width = |ch| UnicodeWidthChar::width(ch).unwrap_or(0);
+    let combining = |ch| ch != '\n' && width(ch) == 0;
+    !old.text.contains(combining)
+        && !new.text.contains(combining)
+        && old.text.chars().zip(new.text.chars()).all(|(a, b)| {
+            width(a) == width(b) || a == '\n' || b == '\n'
+        })
+}
+
 impl TtyState {
     /// Output a Line, followed by a single linebreak.
     fn output_line(&self, line: &Line) -> LifeOrDeath {
@@ -361,6 +375,20 @@ impl TtyState {
             .remembered_output
             .as_ref()
             .map(|x| x.output_line.chars());
+        if let Some(rem) = self.remembered_output.as_ref() {
+            if !can_overwrite(&rem.output_line, new_line) {
+                if real_column != 0 {
+                    term.carriage_return()?;
+                }
+                if real_breaks != 0 {
+                    term.move_cursor_up(real_breaks)?;
+                }
+                term.clear_forward_and_reset()?;
+                real_column = 0;
+                real_breaks = 0;
+                old_chars = None;
+            }
+        }
         let mut cur_attr = (Style::empty(), None, None);
         let mut cur_column = 0;
         let mut cur_breaks = 0;
-- 
2.43.0


From 29635e0f96a49acd9e97bbd71f47020d65914c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 14/42] fix: a combining character is shown on the next row
 when its base is in the last column

---
 src/worker.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1696492..1fec335 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -112,6 +112,14 @@ struct TtyState {
     consecutive_completion_presses: u32,
 }
 
+/// Returns true if there is another character and it will combine with the
+/// one before it.
+fn is_combining(lc: Option<&LineChar>) -> bool {
+    lc.is_some_and(|x| {
+        x.ch != '\n' && UnicodeWidthChar::width(x.ch).unwrap_or(0) == 0
+    })
+}
+
 /// Returns true if what is on the terminal can be turned from one line into
 /// the other by overwriting the characters that differ. (It can't be if that
 /// would move the characters that don't, or if there are combining characters
@@ -254,6 +262,7 @@ impl TtyState {
         term_width: u32,
         cur_attr: &mut (Style, Option<Color>, Option<Color>),
         lc: LineChar,
+        next: Option<&LineChar>,
         cur_column: &mut u32,
         cur_breaks: &mut u32,
         implied_newline: &mut bool,
@@ -286,7 +295,7 @@ impl TtyState {
             *implied_newline = false;
             return Ok(());
         }
-        if (char_width > 0 && *cur_column >= term_width) || ch == '\n' {
+        if (*cur_column >= term_width && !is_combining(next)) || ch == '\n' {
             if *cur_column < term_width {
                 if cur_attr.0.contains(Style::INVERSE)
                     || cur_attr.0.contains(Style::UNDERLINE)
@@ -308,6 +317,7 @@ impl TtyState {
         &self,
         term_width: u32,
         lc: LineChar,
+        next: Option<&LineChar>,
         cur_column: &mut u32,
         cur_breaks: &mut u32,
         implied_newline: &mut bool,
@@ -325,7 +335,7 @@ impl TtyState {
             *implied_newline = false;
             return Ok(());
         }
-        if (char_width > 0 && *cur_column >= term_width) || ch == '\n' {
+        if (*cur_column >= term_width && !is_combining(next)) || ch == '\n' {
             *cur_breaks += 1;
             *cur_column = 0;
             *implied_newline = ch != '\n';
@@ -370,7 +380,7 @@ impl TtyState {
         }
         let mut term = self.term.borrow_mut();
         let term_width = term.get_width();
-        let mut new_chars = new_line.chars();
+        let mut new_chars = new_line.chars().peekable();
         let mut old_chars = self
             .remembered_output
             .as_ref()
@@ -413,6 +423,7 @@ impl TtyState {
                         self.sim_output_char(
                             term_width,
                             b,
+                            new_chars.peek(),
                             &mut cur_column,
                             &mut cur_breaks,
                             &mut implied_newline,
@@ -439,6 +450,7 @@ impl TtyState {
                         term_width,
                         &mut cur_attr,
                         b,
+                        new_chars.peek(),
                         &mut cur_column,
                         &mut cur_breaks,
                         &mut implied_newline,
@@ -470,6 +482,7 @@ impl TtyState {
                         term_width,
                         &mut cur_attr,
                         b,
+                        new_chars.peek(),
                         &mut cur_column,
                         &mut cur_breaks,
                         &mut implied_newline,
@@ -515,7 +528,7 @@ impl TtyState {
                 }
             }
         };
-        for b in new_chars {
+        while let Some(b) = new_chars.next() {
             debug_assert!(!ended_simultaneously);
             self.maybe_report(
                 b.index,
@@ -539,6 +552,7 @@ impl TtyState {
                 term_width,
                 &mut cur_attr,
                 b,
+                new_chars.peek(),
                 &mut cur_column,
                 &mut cur_breaks,
                 &mut implied_newline,
-- 
2.43.0


From c32bfdb950d788d2f91297da28efd2f8f78960d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:12 +0000
Subject: [PATCH 15/42] fix: the rest of a row keeps the old background when
 only the trailing attributes change

---
 src/worker.rs | 70 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 1fec335..2cf5d59 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -112,6 +112,21 @@ struct TtyState {
     consecutive_completion_presses: u32,
 }
 
+/// Returns the attributes that the rest of the row after a line has to be
+/// filled with, if any.
+fn trailing_fill(line: &Line) -> Option<(Style, Option<Color>, Option<Color>)> {
+    line.elements.last().and_then(|el| {
+        if el.style.contains(Style::INVERSE)
+            || el.style.contains(Style::UNDERLINE)
+            || el.bg.is_some()
+        {
+            Some((el.style, el.fg, el.bg))
+        } else {
+            None
+        }
+    })
+}
+
 /// Returns true if there is another character and it will combine with the
 /// one before it.
 fn is_combining(lc: Option<&LineChar>) -> bool {
@@ -378,6 +393,8 @@ impl TtyState {
             real_column = 0;
             real_breaks = 0;
         }
+        // whether there is nothing left of the old output after the new one
+        let mut cleared = self.remembered_output.is_none();
         let mut term = self.term.borrow_mut();
         let term_width = term.get_width();
         let mut new_chars = new_line.chars().peekable();
@@ -397,12 +414,12 @@ impl TtyState {
                 real_column = 0;
                 real_breaks = 0;
                 old_chars = None;
+                cleared = true;
             }
         }
         let mut cur_attr = (Style::empty(), None, None);
         let mut cur_column = 0;
         let mut cur_breaks = 0;
-        let mut endfill_redundant = false;
         let mut output_cursor_top = None;
         let mut output_cursor_left = None;
         let mut implied_newline = false;
@@ -444,6 +461,7 @@ impl TtyState {
                         term.clear_forward_and_reset()?;
                         cur_attr = (Style::empty(), None, None);
                         old_chars = None;
+                        cleared = true;
                     }
                     self.output_char(
                         &mut term,
@@ -457,7 +475,6 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = a.endfills_same_as(&b);
                 }
                 (None, Some(b)) => {
                     self.maybe_report(
@@ -489,7 +506,6 @@ impl TtyState {
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = false;
                     break false;
                 }
                 (a, None) => {
@@ -522,7 +538,7 @@ impl TtyState {
                         } else {
                             term.clear_forward_and_reset()?;
                         }
-                        endfill_redundant = false;
+                        cleared = true;
                     }
                     break a.is_none();
                 }
@@ -569,30 +585,34 @@ impl TtyState {
             &mut output_cursor_top,
             term_width,
         );
-        if !ended_simultaneously || !endfill_redundant {
-            let trailit = endfill
-                && match new_line.elements.last() {
-                    None => false,
-                    Some(el) => {
-                        el.style.contains(Style::INVERSE)
-                            || el.style.contains(Style::UNDERLINE)
-                            || el.bg.is_some()
-                    }
-                };
-            if trailit && cur_column < term_width {
-                self.reconcile_cursors(
-                    &mut term,
-                    term_width,
-                    &mut real_column,
-                    &mut real_breaks,
-                    cur_column,
-                    cur_breaks,
-                )?;
-                let last = new_line.elements.last().unwrap();
-                term.set_attrs(last.style, last.fg, last.bg)?;
+        let new_fill = if endfill { trailing_fill(new_line) } else { None };
+        let old_fill = if cleared {
+            None
+        } else {
+            self.remembered_output
+                .as_ref()
+                .and_then(|x| trailing_fill(&x.output_line))
+        };
+        if cur_column < term_width
+            && (new_fill != old_fill
+                || (new_fill.is_some() && !ended_simultaneously))
+        {
+            self.reconcile_cursors(
+                &mut term,
+                term_width,
+                &mut real_column,
+                &mut real_breaks,
+                cur_column,
+                cur_breaks,
+            )?;
+            if let Some((style, fg, bg)) = new_fill {
+                term.set_attrs(style, fg, bg)?;
                 term.print_spaces((term_width - cur_column) as usize)?;
                 cur_column = term_width;
                 real_column = cur_column;
+            } else {
+                term.set_attrs(Style::empty(), None, None)?;
+                term.clear_to_end_of_line()?;
             }
         }
         term.set_attrs(Style::empty(), None, None)?;
-- 
2.43.0


From 82012ff97e78f5e0d835e768fa42462948ea48a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 16/42] fix: the last column after a line with a background is
 cleared again

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 2cf5d59..4d0d835 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -206,6 +206,8 @@ impl TtyState {
         };
         if trailit && cur_column < term_width {
             term.print_spaces((term_width - cur_column) as usize)?;
+            // (the cursor stays in the last column, don't clear that)
+            cur_column = term_width;
         }
         term.set_attrs(Style::empty(), None, None)?;
         if cur_column < term_width {
-- 
2.43.0


From 5d189254495c1b6742c5119f9d57168a8789af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 17/42] fix: rows are left behind when a filled line becomes
 shorter

---
 src/worker.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4d0d835..4869ffe 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -520,11 +520,7 @@ impl TtyState {
                             cur_column,
                             cur_breaks,
                         )?;
-                        if real_column == term_width
-                            && cur_column + 1 == term_width
-                        {
-                            term.print_spaces(1)?;
-                        } else if cur_column == term_width {
+                        if cur_column == term_width {
                             term.newline()?;
                             term.clear_forward_and_reset()?;
                             real_column = 0;
-- 
2.43.0


From 8a816728911a483f9d89e625fb7c7d67d34153ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 18/42] fix: a background stays in force when a colored element
 without one follows

---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..e4bae87 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -290,7 +290,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From c0e3147f77e2eb93b487afbc45d57b3c5f88765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 19/42] fix: a notice that expires sooner than an earlier one
 stays until that one's time

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 4869ffe..447af64 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1450,6 +1450,8 @@ fn tty_worker(
                         Err(_) => break,
                     };
                 } else {
+                    // (a later notice might expire sooner)
+                    deadlines.sort();
                     let now = Instant::now();
                     if !deadlines.is_empty() && now >= deadlines[0] {
                         deadlines.remove(0);
-- 
2.43.0


From 6382aa4dec388ce242f0997b42df4d17b736b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 20/42] fix: a notice with an enormous duration panics

---
 src/worker.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 447af64..879197c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -82,7 +82,8 @@ struct RememberedOutput {
 struct TtyState {
     status: Option<Line>,
     prompt: Option<Line>,
-    notice: Option<(Line, Instant)>,
+    /// The notice being shown, and when it expires (if ever).
+    notice: Option<(Line, Option<Instant>)>,
     input: String,
     clipboard: String,
     input_cursor: usize,
@@ -726,7 +727,7 @@ impl TtyState {
             }
             Request::Die => return Ok(()),
             Request::Heartbeat => {
-                if let Some((_, deadline)) = self.notice {
+                if let Some((_, Some(deadline))) = self.notice {
                     if Instant::now() >= deadline {
                         self.rollout_needed = true;
                         self.notice = None;
@@ -1246,9 +1247,12 @@ impl TtyState {
         ded_tx: &mut std_mpsc::SyncSender<Instant>,
     ) -> LifeOrDeath {
         self.rollout_needed = true;
-        let deadline = Instant::now() + duration;
+        // (`None` if that's later than an `Instant` can be)
+        let deadline = Instant::now().checked_add(duration);
         self.notice = Some((line, deadline));
-        ded_tx.send(deadline)?;
+        if let Some(deadline) = deadline {
+            ded_tx.send(deadline)?;
+        }
         Ok(())
     }
     #[cfg(feature = "history")]
-- 
2.43.0


From 1e039426c186cf16857fe6cd2279de2a9f63825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 21/42] fix: keys that do not edit the input leave a notice in
 place

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 879197c..7e13284 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1049,6 +1049,7 @@ impl TtyState {
             return Ok(());
         }
         for ch in input.chars() {
+            self.dismiss_notice()?;
             #[cfg(feature = "completion")]
             if ch == '\t' {
                 self.consecutive_completion_presses =
@@ -1132,6 +1133,7 @@ impl TtyState {
             Event::Mouse(..) => (),
             Event::Key(k) => {
                 use crossterm::event::{KeyCode, KeyModifiers};
+                self.dismiss_notice()?;
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
                     if k.code == KeyCode::Char('i') {
-- 
2.43.0


From d37491a27b597377da74147d900c68815f679a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 22/42] fix: the bell is not rung until something else is
 displayed

---
 src/term/cross.rs | 2 ++
 src/term/vt52.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e4bae87..a8aa0de 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -373,6 +373,8 @@ impl Term for Crossterminal {
     }
     fn bell(&mut self) -> LifeOrDeath {
         queue!(self.stdout, style::Print("\u{0007}"))?;
+        // (nothing else might be output for a while)
+        self.stdout.flush()?;
         Ok(())
     }
     fn clear_all_and_reset(&mut self) -> LifeOrDeath {
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..320d601 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -324,6 +324,8 @@ impl Term for Vt52 {
     }
     fn bell(&mut self) -> LifeOrDeath {
         write!(self.stdout, "\x07")?;
+        // (nothing else might be output for a while)
+        self.stdout.flush()?;
         Ok(())
     }
     fn clear_all_and_reset(&mut self) -> LifeOrDeath {
-- 
2.43.0


From 14d9dd8c52ecdfb348990df9033e77b25ab813e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 23/42] fix: at the end of the input, pipe mode delivers empty
 lines forever and cannot be shut down

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 7e13284..b1a4a1a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -30,6 +30,7 @@ fn pipe_worker(
                 loop {
                     let mut buf = String::new();
                     match stdin.read_line(&mut buf) {
+                        Ok(0) => break,
                         Ok(_) => {
                             while buf.ends_with('\n') || buf.ends_with('\r') {
                                 buf.pop();
-- 
2.43.0


From 0a78a3c6a67d907beeab10d24745cab7400d2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 24/42] fix: pipe mode removes carriage returns that are not
 part of the line terminator

---
 src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index b1a4a1a..3b90d42 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -32,8 +32,12 @@ fn pipe_worker(
                     match stdin.read_line(&mut buf) {
                         Ok(0) => break,
                         Ok(_) => {
-                            while buf.ends_with('\n') || buf.ends_with('\r') {
+                            // (remove the line terminator, and only that)
+                            if buf.ends_with('\n') {
                                 buf.pop();
+                                if buf.ends_with('\r') {
+                                    buf.pop();
+                                }
                             }
                             if req_tx.send(Request::RawInput(buf)).is_err() {
                                 break;
-- 
2.43.0


From 2940f13c6237dadd3e18c693cc23dd7dffdd470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 25/42] fix: invalid UTF-8 ends the input in pipe mode

---
 src/worker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 3b90d42..a9d1512 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -28,10 +28,13 @@ fn pipe_worker(
                 let stdin = std::io::stdin();
                 let mut stdin = stdin.lock();
                 loop {
-                    let mut buf = String::new();
-                    match stdin.read_line(&mut buf) {
+                    let mut buf = Vec::new();
+                    match stdin.read_until(b'\n', &mut buf) {
                         Ok(0) => break,
                         Ok(_) => {
+                            // (invalid UTF-8 is no reason to stop reading)
+                            let mut buf =
+                                String::from_utf8_lossy(&buf).into_owned();
                             // (remove the line terminator, and only that)
                             if buf.ends_with('\n') {
                                 buf.pop();
-- 
2.43.0


From b03df8c6645c65e0e9493d262bd6ea6cb35c2ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 26/42] fix: suspend_and_run does not run the function in pipe
 mode

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index a9d1512..8d66d31 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -72,6 +72,8 @@ fn pipe_worker(
             }
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
+            // (there is nothing to suspend)
+            Request::SuspendAndRun(mut wat) => wat(),
             _ => (),
         }
     }
-- 
2.43.0


From 24b3fb93f5075e2b44b45dfeaf78f3aa71a712b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 27/42] fix: a prompt clears the input without moving the
 cursor, and a change of input_allowed alone is ignored

---
 src/worker.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 8d66d31..6160c45 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -712,19 +712,21 @@ impl TtyState {
                 clear_input,
             } => {
                 if self.prompt != line
+                    || self.input_allowed != input_allowed
                     || (clear_input && !self.input.is_empty())
                 {
                     self.rollout_needed = true;
                     self.prompt = line;
                     self.input_allowed = input_allowed;
-                    if clear_input {
-                        self.input.clear();
-                        #[cfg(feature = "history")]
-                        {
-                            self.cur_history_index = None;
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
+                }
+                if clear_input {
+                    self.input.clear();
+                    self.input_cursor = 0;
+                    #[cfg(feature = "history")]
+                    {
+                        self.cur_history_index = None;
+                        self.orphaned_new_input = None;
+                        self.history_original_line = None;
                     }
                 }
             }
-- 
2.43.0


From 6ce54fcb8813eb7e1d1fb3b9ee717e29f34b5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 28/42] fix: in pipe mode, sends can go unnoticed after an
 instance reported its end

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 6160c45..4a9059d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -78,6 +78,8 @@ fn pipe_worker(
         }
     }
     input_thread.interrupt();
+    // (nothing can be sent anymore once the end is reported)
+    drop(rx);
     Ok(())
 }
 
-- 
2.43.0


From 8a2af621665267b354e64b62a65417f657405ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 29/42] fix: a new instance can be created while the previous
 one is still shutting down

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..0219b26 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -804,15 +804,16 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
-        #[cfg(feature = "global")]
-        {
-            *LISO_OUTPUT_TX.lock() = None;
-        }
         self.actually_blocking_die();
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
         #[cfg(feature = "capture-stderr")]
         stderr_capture::wait_until_not_captured();
+        // (from here on there can be a new instance)
+        #[cfg(feature = "global")]
+        {
+            *LISO_OUTPUT_TX.lock() = None;
+        }
     }
 }
 
-- 
2.43.0


From 138f345302feffa5c21a4e174b9000c6ff2f0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 30/42] fix: a reader is never told that the terminal was
 closed or hung up

---
 src/term/cross.rs | 5 ++++-
 src/term/vt52.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a8aa0de..26cb553 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -242,7 +242,10 @@ impl Crossterminal {
             std::thread::Builder::new()
                 .name("Liso input processing thread".to_owned())
                 .spawn(move || {
-                    let _ = input_thread(input_rx, req_tx);
+                    let _ = input_thread(input_rx, req_tx.clone());
+                    // (the terminal has been closed or hung up, unless we
+                    // are shutting down anyway)
+                    let _ = req_tx.send(Request::Die);
                 })
                 .unwrap();
             std::thread::Builder::new()
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 320d601..46c9243 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -157,7 +157,10 @@ impl Vt52 {
         let input_thread = std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
-                let _ = input_thread(input_rx, req_tx);
+                let _ = input_thread(input_rx, req_tx.clone());
+                // (the terminal has been closed or hung up, unless we are
+                // shutting down anyway)
+                let _ = req_tx.send(Request::Die);
             })
             .unwrap();
         let stdout = std::io::stdout();
-- 
2.43.0


From 54d79e2504f0efdb7dbdb0e0cbefdf33c519eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:48 +0000
Subject: [PATCH 31/42] fix: invalid UTF-8 from the terminal panics, holds back
 keys, or inserts control characters

---
 src/term/cross.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 26cb553..b5cda03 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -143,12 +143,9 @@ fn input_thread(
                     start += 1;
                     continue;
                 };
-                if (buf.len() - start) < num_bytes_needed {
-                    // Read more data before sending this along
-                    break;
-                }
+                let num_bytes_here = num_bytes_needed.min(buf.len() - start);
                 let mut code = (b & (0b1111111 >> num_bytes_needed)) as u32;
-                for i in 1..num_bytes_needed {
+                for i in 1..num_bytes_here {
                     if buf[start + i] < 0x80 || buf[start + i] >= 0xC0 {
                         start += i;
                         // send the replacement character
@@ -164,10 +161,18 @@ fn input_thread(
                     }
                     code = (code << 6) | (buf[start + i] & 0x3F) as u32;
                 }
+                if num_bytes_here < num_bytes_needed {
+                    // Read more data before sending this along
+                    break;
+                }
                 start += num_bytes_needed;
-                // send the decoded character
-                let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
+                // send the decoded character (or the replacement character,
+                // for overlong sequences, surrogates, and anything past the
+                // end of Unicode)
+                let overlong =
+                    code < [0x80, 0x800, 0x10000][num_bytes_needed - 2];
+                let ch = if overlong { None } else { char::from_u32(code) }
+                    .unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From 866786c93b767b7bf81b665b9c671f021753507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 32/42] fix: the cursor is misplaced when the input contains
 control characters

---
 src/worker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4a9059d..b31ef7d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1431,8 +1431,11 @@ impl TtyState {
             if let Some(line) = self.prompt.as_ref() {
                 new_output.append_line(line);
             }
-            cursor_pos = Some(self.input_cursor + new_output.len());
-            new_output.add_text(&self.input);
+            // (control characters take up more room than they do in the input)
+            let (before, after) = self.input.split_at(self.input_cursor);
+            new_output.add_text(before);
+            cursor_pos = Some(new_output.len());
+            new_output.add_text(after);
         }
         self.term.borrow_mut().hide_cursor()?;
         self.output_line_changes(&new_output, cursor_pos, false, true)?;
-- 
2.43.0


From a48906c596c5011e4d532c5b4fc79cccd80a870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 33/42] fix: replacing the history while moving through it
 panics or loses the line being typed

---
 src/worker.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index b31ef7d..a8bf5c3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -766,10 +766,9 @@ impl TtyState {
                         }
                     }
                     match self.cur_history_index {
-                        None => {
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
+                        // (the line that was being typed is still there,
+                        // after the newest line)
+                        None => self.history_original_line = None,
                         Some(x) => {
                             self.history_original_line =
                                 Some(lines[x].clone());
@@ -1276,8 +1275,8 @@ impl TtyState {
         let history = self.history.read().unwrap();
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
-            Some(x) if x > 0 => Some(x - 1),
-            _ => None,
+            // (the history might just have been replaced with a shorter one)
+            Some(x) => x.min(history.get_lines().len()).checked_sub(1),
         };
         match prev_history_index {
             None => {
@@ -1298,26 +1297,30 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(feature = "history")]
     fn history_next(&mut self) -> LifeOrDeath {
         let history = self.history.read().unwrap();
-        match self.cur_history_index {
-            None => {
-                let mut term = self.term.borrow_mut();
-                term.bell()?;
-            }
-            Some(x) if x + 1 == history.get_lines().len() => {
-                assert!(self.orphaned_new_input.is_some());
-                self.rollout_needed = true;
-                self.input = self.orphaned_new_input.take().unwrap();
-                self.input_cursor = self.input.len();
-                self.cur_history_index = None;
-            }
-            Some(x) => {
-                let next_history_index = x + 1;
+        let next_history_index = self
+            .cur_history_index
+            .map(|x| x + 1)
+            .filter(|x| *x < history.get_lines().len());
+        match next_history_index {
+            None => match self.orphaned_new_input.take() {
+                None => {
+                    let mut term = self.term.borrow_mut();
+                    term.bell()?;
+                }
+                Some(new_input) => {
+                    self.rollout_needed = true;
+                    self.input = new_input;
+                    self.input_cursor = self.input.len();
+                    self.cur_history_index = None;
+                }
+            },
+            Some(next_history_index) => {
                 self.rollout_needed = true;
                 let mut historical_line =
                     history.get_lines()[next_history_index].clone();
-- 
2.43.0


From 182bc1f240cbcd8fcf0fd875e3a9f6a8c13da4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 34/42] fix: an instance on a VT52 cannot be shut down until
 another key is pressed

---
 src/term/vt52.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 46c9243..02a6214 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -135,6 +135,15 @@ impl Vt52 {
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
         std::thread::Builder::new()
+            .name("Liso input processing thread".to_owned())
+            .spawn(move || {
+                let _ = input_thread(input_rx, req_tx.clone());
+                // (the terminal has been closed or hung up, unless we are
+                // shutting down anyway)
+                let _ = req_tx.send(Request::Die);
+            })
+            .unwrap();
+        let input_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -154,15 +163,6 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
-            .name("Liso input processing thread".to_owned())
-            .spawn(move || {
-                let _ = input_thread(input_rx, req_tx.clone());
-                // (the terminal has been closed or hung up, unless we are
-                // shutting down anyway)
-                let _ = req_tx.send(Request::Die);
-            })
-            .unwrap();
         let stdout = std::io::stdout();
         let mut ret = Vt52 {
             stdout,
-- 
2.43.0


From 7d17f35fc44f1cb0b809cac35364420b58cbeb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 35/42] fix: on a VT52, a byte above 127 in the input hangs the
 input thread

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 02a6214..49957c6 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From 2d997a476fd36fd05f2acee42285d1260e07236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 36/42] fix: on a VT52, wide and combining characters disturb
 the layout

---
 src/term/vt52.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 49957c6..14fd122 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -279,7 +279,10 @@ impl Term for Vt52 {
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
         if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
+            // (as wide as it is elsewhere)
+            for _ in 0..UnicodeWidthChar::width(ch).unwrap_or(0) {
+                self.stdout.write_all(b"\x7F")?;
+            }
         } else {
             self.stdout.write_all(&[ch as u8])?;
         }
-- 
2.43.0


From 0801fec40748660070a50057a5934c17e6033fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 37/42] fix: on a VT52, the first color after starting or
 resuming can be wrong

---
 src/term/vt52.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 14fd122..b84b8a1 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -383,13 +383,8 @@ impl Term for Vt52 {
     fn unsuspend(&mut self) -> LifeOrDeath {
         assert!(self.suspended);
         // queue, but don't actually output anything until the first command...
-        if self.white_on_black {
-            self.stdout
-                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
-        } else {
-            self.stdout
-                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
-        }
+        self.stdout.write_all(b"\x1Bf\x1Bw\x1Bq")?;
+        self.reset_attrs()?;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
-- 
2.43.0


From bb59908bb69ba32cce3db5bdbf06a76ec00633ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:07 +0000
Subject: [PATCH 38/42] fix: captured stderr is split at newlines left over in
 the buffer

---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From d3ec579d8a37e96f63c672a5c19a9275d884ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 39/42] fix: captured stderr can be lost, and the real one not
 restored, at the end

---
 src/stderr_capture.rs | 46 +++++++++++++++++--------------------------
 src/worker.rs         | 10 ++++++++++
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..e238f5d 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,9 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+/// The thread, and the real stderr.
+static STDERR_CAPTURE_THREAD: Mutex<Option<(JoinHandle<()>, c_int)>> =
+    Mutex::new(None);
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -191,10 +193,10 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
-        'outer: loop {
+        loop {
             if buf_pos == buf.len() {
                 buf.resize(buf.len() + 128, 0u8);
             }
@@ -231,12 +233,8 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                             ))
                         {
                             // can't do anything sensible with an error here
-                            let _ = write_all(
-                                real_stderr,
-                                &buf[start_pos..end_pos],
-                            );
-                            buf_pos = 0;
-                            break 'outer;
+                            let _ =
+                                write_all(real_stderr, &buf[start_pos..=p]);
                         }
                         last_newline_pos = Some(p);
                         buf_pos = p + 1;
@@ -264,6 +262,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                         x
                     )));
                     buf_pos = 0;
+                    let _ = dup2(real_stderr, STDERR_FD);
                     break;
                 }
             }
@@ -272,31 +271,22 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             buf_pos, 0,
             "INTERNAL LISO ERROR: buf contents not fully handled when liso closed down!"
         );
+        close(r);
+    });
+    *lock = Some((thread, real_stderr));
+}
+
+pub(crate) fn wait_until_not_captured() {
+    let mut lock = STDERR_CAPTURE_THREAD.lock();
+    if let Some((thread, real_stderr)) = lock.take() {
         // Small possibility that some bytes will be mixed up if a lot of
         // stderr output is happening at once. Oh well. That's an unavoidable
         // cost of your program bypassing the "so" part of "liso".
-        //
-        // There's also a small possibility that one or more StderrLines we
-        // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
+        // (that was the write end of the pipe, so the thread will finish)
+        let _ = thread.join();
         close(real_stderr);
-        // Any remaining output waiting in the pipe, process.
-        while let Ok(amount) = read(r, &mut buf[..]) {
-            if amount == 0 {
-                break;
-            }
-            let _ = write_all(STDERR_FD, &buf[..amount]);
-        }
-        close(r);
-    }));
-}
-
-pub(crate) fn wait_until_not_captured() {
-    let mut lock = STDERR_CAPTURE_THREAD.lock();
-    if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
-        let _ = x.join();
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
diff --git a/src/worker.rs b/src/worker.rs
index a8bf5c3..431d637 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1557,6 +1557,16 @@ fn tty_worker(
         state.rollout()?;
     }
     state.rollin()?;
+    #[cfg(feature = "capture-stderr")]
+    {
+        // everything that has been written to stderr so far gets displayed
+        stderr_capture::wait_until_not_captured();
+        for request in rx.try_iter() {
+            if let Request::StderrLine(_) = request {
+                state.handle(&mut tx, &mut ded_tx, request)?;
+            }
+        }
+    }
     state.cleanup()?;
     crossterm::terminal::disable_raw_mode()?;
     drop(rx);
-- 
2.43.0


From cd83725d4fad1382ff853d041f81ec7525e44d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 40/42] fix: liso panics on a terminal that does not report its
 size

---
 src/term/cross.rs | 6 +++++-
 src/term/vt52.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index b5cda03..9481687 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -424,7 +424,11 @@ impl Term for Crossterminal {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        match terminal::size() {
+            // (a terminal that doesn't know its size reports zero)
+            Ok((0, _)) | Err(_) => 80,
+            Ok((width, _)) => width as u32,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b84b8a1..b4fe81f 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -374,7 +374,11 @@ impl Term for Vt52 {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        match terminal::size() {
+            // (a terminal that doesn't know its size reports zero)
+            Ok((0, _)) | Err(_) => 80,
+            Ok((width, _)) => width as u32,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
-- 
2.43.0


From 1574be6a14de696003229dca0f2e602c39bc5d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:28 +0000
Subject: [PATCH 41/42] fix: save the history before the end is reported in
 pipe mode too

---
 src/worker.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 431d637..6af819e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1588,6 +1588,10 @@ pub(crate) fn worker(
             std::env::var("TERM").as_ref().ok().map(String::as_str),
         )
     {
+        // (we have no use for the history, and it might have to be saved
+        // before the end is reported)
+        #[cfg(feature = "history")]
+        drop(history);
         pipe_worker(req_tx, rx, tx)
     } else {
         #[cfg(feature = "capture-stderr")]
-- 
2.43.0


From 4b8fd693dd79d57cbffdefd1200fe345b080bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:12 +0000
Subject: [PATCH 42/42] fix: a panic on a VT52 sends ANSI sequences to the
 terminal

---
 src/term/vt52.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b4fe81f..418fc16 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -391,16 +391,14 @@ impl Term for Vt52 {
         self.reset_attrs()?;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let restore: &[u8] = if self.white_on_black {
+            b"\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be"
+        } else {
+            b"\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be"
+        };
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            let _ = stdout.write_all(restore);
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
-- 
2.43.0

