From 5d4ca9881bd80072ab0a2d60f4f6acfc7fd87e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 01/53] fix: deleting a selection removes exactly the selected
 characters

The range of a selection includes both ends and may span several lines.
The multi-line deletion left the last selected char, joined nothing and
could remove too many lines, so that what was cut was not what was
returned.
---
 src/views/input_field_content.rs | 53 ++++++++++----------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..9528181 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -402,43 +402,22 @@ impl InputFieldContent {
 
     pub fn del_selection(&mut self) -> bool {
         let Range { min, max } = self.selection();
-        if min.y == max.y {
-            if min.x == max.x {
-                return self.del_char_below();
-            }
-            if max.x == self.lines[min.y].chars.len() {
-                if min.x == 0 {
-                    // we remove the whole line
-                    self.lines.drain(min.y..min.y + 1);
-                    if self.lines.is_empty() {
-                        self.lines.push(Line::default());
-                    }
-                } else {
-                    self.lines[min.y].chars.drain(min.x..);
-                }
-            } else {
-                self.lines[min.y].chars.drain(min.x..max.x + 1);
-            }
-        } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
-                if self.lines.is_empty() {
-                    self.lines.push(Line::default());
-                }
-            }
-        }
+        if min == max {
+            return self.del_char_below();
+        }
+        // both ends are included in the selection, a newline being
+        // the last char of every line but the last one
+        let mut end = max;
+        if end.x < self.lines[end.y].chars.len() {
+            end.x += 1;
+        } else if end.y + 1 < self.lines.len() {
+            end.x = 0;
+            end.y += 1;
+        }
+        let kept = self.lines[end.y].chars.split_off(end.x);
+        self.lines[min.y].chars.truncate(min.x);
+        self.lines[min.y].chars.extend(kept);
+        self.lines.drain(min.y + 1..=end.y);
         self.set_cursor_pos(min);
         self.selection_tail = None;
         true
-- 
2.43.0


From 57781a65683daa2a30dc966e92f5d597f1843223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 02/53] fix: del_char_below on an empty last line has nothing
 to delete

It used to remove the newline before the cursor and to move the cursor.
---
 src/views/input_field_content.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 9528181..7e95e5e 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -378,15 +378,7 @@ impl InputFieldContent {
     /// Cursor position is unchanged
     pub fn del_char_below(&mut self) -> bool {
         let line_len = self.current_line().chars.len();
-        if line_len == 0 {
-            if self.lines.len() > 1 {
-                self.lines.remove(self.pos.y);
-                self.fix_selection();
-                true
-            } else {
-                false
-            }
-        } else if self.pos.x < line_len {
+        if self.pos.x < line_len {
             self.lines[self.pos.y].chars.remove(self.pos.x);
             self.fix_selection();
             true
-- 
2.43.0


From c0eb2e8e0dc01c683876934c1753ef132a8c8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 03/53] fix: keep the cursor column when moving the current
 line

The cursor was clamped to the length of the other line.
---
 src/views/input_field_content.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 7e95e5e..7b2434d 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -428,7 +428,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
+        if self.pos.y > 0 {
+            self.lines.swap(self.pos.y - 1, self.pos.y);
             self.pos.y -= 1;
             self.fix_selection();
             true
@@ -439,7 +440,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
+        if self.pos.y + 1 < self.lines.len() {
+            self.lines.swap(self.pos.y + 1, self.pos.y);
             self.pos.y += 1;
             self.fix_selection();
             true
-- 
2.43.0


From 38106b77be3d94a65cf6c85de949a4ef94511790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 04/53] fix: typing ends the selection

A selection origin without extent (shift-left at start, drag on one cell)
survived the typing of a char or newline and became a selection of what was
typed, removed on next key. A new line didn't replace the selected text.
---
 src/views/input_field.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..b386611 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -292,6 +292,10 @@ impl InputField {
         }
         let key = key.into();
         if self.new_line_keys.contains(&key) {
+            if self.content.has_wide_selection() {
+                self.content.del_selection();
+            }
+            self.content.unselect();
             self.insert_new_line();
             return true;
         }
@@ -314,6 +318,7 @@ impl InputField {
                 self.content.del_selection();
                 true
             } else {
+                self.content.unselect();
                 self.content.del_char_left()
             }
         } else if code == KeyCode::Delete {
@@ -321,6 +326,7 @@ impl InputField {
                 self.content.del_selection();
                 true
             } else {
+                self.content.unselect();
                 self.content.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
@@ -330,6 +336,7 @@ impl InputField {
                 self.fix_scroll();
                 true
             } else {
+                self.content.unselect();
                 self.put_char(c)
             }
         } else {
-- 
2.43.0


From 94a0e6987b62e86c1a86b58523b045c2324c6543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 05/53] fix: apply_event and apply_timed_event handle the new
 line keys

Keys declared with new_line_on were only known of apply_key_combination
and apply_key_event.
---
 src/views/input_field.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index b386611..efa03f0 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -439,17 +439,7 @@ impl InputField {
     pub fn apply_event(&mut self, event: &Event, is_double_click: bool) -> bool {
         match event {
             Event::Mouse(mouse_event) => self.apply_mouse_event(*mouse_event, is_double_click),
-            Event::Key(KeyEvent {
-                code, modifiers, ..
-            }) if self.focused => {
-                if modifiers.is_empty() {
-                    self.apply_keycode_event(*code, false)
-                } else if *modifiers == KeyModifiers::SHIFT {
-                    self.apply_keycode_event(*code, true)
-                } else {
-                    false
-                }
-            }
+            Event::Key(key) => self.apply_key_combination(*key),
             _ => false,
         }
     }
-- 
2.43.0


From 981b0011fe5bddd86f450a5132f387af3f3b073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 06/53] fix: deleting with the keyboard keeps the cursor
 visible

The scroll wasn't fixed after the backspace and delete keys.
---
 src/views/input_field.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index efa03f0..cc6b64c 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -315,19 +315,19 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
+                self.del_selection();
                 true
             } else {
                 self.content.unselect();
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
+                self.del_selection();
                 true
             } else {
                 self.content.unselect();
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
-- 
2.43.0


From af49f3bb06d9b901446ddb07f22fe30ec231c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 07/53] fix: the cursor is visible after a click in an input
 field

A click could put the cursor under the left ellipsis or left of the
horizontally scrolled part, or focus a field whose cursor was scrolled out.
---
 src/views/input_field.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index cc6b64c..09d9678 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -370,8 +370,9 @@ impl InputField {
                     .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
+                self.fix_scroll();
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -407,14 +408,17 @@ impl InputField {
                             self.content.unselect();
                         }
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.fix_scroll();
                     }
                     MouseEventKind::Up(MouseButton::Left) if is_double_click => {
                         self.content.set_cursor_pos(Pos { x, y });
                         self.content.select_word_around();
+                        self.fix_scroll();
                     }
                     MouseEventKind::Drag(MouseButton::Left) => {
                         self.content.make_selection();
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.fix_scroll();
                     }
                     MouseEventKind::ScrollDown => {
                         self.scroll_down();
@@ -425,7 +429,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
-- 
2.43.0


From b27fcb374646a4537bf489936180864eec17f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 08/53] fix: the cursor stays visible when it goes below the
 input field

When the cursor left the area by the bottom, the scroll stopped one line
short so that the line of the cursor wasn't displayed.
---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 09d9678..7d59d4a 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -500,8 +500,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From ff0ae6896c5ae8a3a97d0b9e0f19ed2394156326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 09/53] fix: the cursor is visible in very narrow input fields

Under 4 columns the scroll was computed in chars instead of columns and
let the cursor one column out of the area.
---
 src/views/input_field.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 7d59d4a..8248616 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -515,25 +515,22 @@ impl InputField {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
+                let wpx = line.char_idx_to_col(pos.x);
                 if width < 4 {
-                    if pos.x < 2 {
-                        self.scroll.x = 0;
-                    } else if pos.x < self.scroll.x + 1 {
-                        self.scroll.x = pos.x - 1;
-                    } else if pos.x > self.scroll.x + width {
-                        self.scroll.x = pos.x + 1 - width;
+                    let margin = usize::from(width > 1);
+                    if wpx < self.scroll.x + margin {
+                        self.scroll.x = wpx.saturating_sub(margin);
+                    } else if wpx + 1 > self.scroll.x + width {
+                        self.scroll.x = wpx + 1 - width;
                     }
-                } else {
-                    let wpx = line.char_idx_to_col(pos.x);
-                    if wpx < self.scroll.x + 2 {
-                        if wpx < 2 {
-                            self.scroll.x = 0;
-                        } else {
-                            self.scroll.x = wpx - 2;
-                        }
-                    } else if wpx > self.scroll.x + width - 2 {
-                        self.scroll.x = wpx + 2 - width;
+                } else if wpx < self.scroll.x + 2 {
+                    if wpx < 2 {
+                        self.scroll.x = 0;
+                    } else {
+                        self.scroll.x = wpx - 2;
                     }
+                } else if wpx > self.scroll.x + width - 2 {
+                    self.scroll.x = wpx + 2 - width;
                 }
             }
             if self.scroll.x + width > line_width + 1 {
-- 
2.43.0


From 0e0d72b4c2491c26e3a371372f48d04604915c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 10/53] fix: password fields scroll and map clicks according to
 the stars

The widths of the hidden chars were used while each of them is displayed
as one star, so that the cursor might be out of the visible part.
---
 src/views/input_field.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 8248616..1b4e917 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -366,8 +366,8 @@ impl InputField {
                 let y = ((y - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
+                let col = (x - self.area.left) as usize + self.scroll.x;
+                let x = if self.password_mode { Some(col) } else { line.col_to_char_idx(col) }
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
                 self.fix_scroll();
@@ -393,8 +393,8 @@ impl InputField {
                 let y = ((row - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
                 let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
+                let col = (column - self.area.left) as usize + self.scroll.x;
+                let x = if self.password_mode { Some(col) } else { line.col_to_char_idx(col) }
                     .unwrap_or(line.chars.len());
                 // We handle the selection click on down, so that it's set at the
                 // start of drag.
@@ -508,14 +508,18 @@ impl InputField {
         }
 
         let line = self.content.current_line();
-        let line_width = line.width();
+        // in password mode every char is displayed as a star
+        let (line_width, wpx) = if self.password_mode {
+            (line.chars.len(), pos.x)
+        } else {
+            (line.width(), line.char_idx_to_col(pos.x))
+        };
         if line_width < width {
             self.scroll.x = 0;
         } else {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
-                let wpx = line.char_idx_to_col(pos.x);
                 if width < 4 {
                     let margin = usize::from(width > 1);
                     if wpx < self.scroll.x + margin {
-- 
2.43.0


From 7dcdf33495f1ac74d80d111b8585468d799bf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 11/53] fix: display_on returns the position of the cursor

The returned position was off by one when the line was scrolled (left
ellipsis), and was the end of the selection instead of the cursor's one
when several chars were selected backwards.
---
 src/views/input_field.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1b4e917..c4fd27f 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -600,11 +600,13 @@ impl InputField {
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
                 let mut width = width; // available width for rendering chars
+                let mut left = self.area.left;
                                        // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
                     width -= 1;
+                    left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     let c = if self.password_mode { '*' } else { *c };
@@ -620,10 +622,10 @@ impl InputField {
                             if self.focused && selection.contains(i, y) {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
                                 // set terminal cursor position
-                                terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
-                                    self.area.top + j,
-                                ));
+                                if (Pos { x: i, y }) == pos {
+                                    terminal_cursor_pos =
+                                        Some((left + displayed_width as u16, self.area.top + j));
+                                }
                             } else {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
@@ -634,8 +636,10 @@ impl InputField {
                     if self.focused && selection.contains(i, y) {
                         self.cursor_style.queue(w, c)?;
                         // set terminal cursor position
-                        terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        if (Pos { x: i, y }) == pos {
+                            terminal_cursor_pos =
+                                Some((left + displayed_width as u16, self.area.top + j));
+                        }
                     } else {
                         normal_style.queue(w, c)?;
                     }
@@ -648,7 +652,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From f97fb722ac08300152ef8c5587108f5d4ada90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 12/53] fix: display tabs in input fields with their
 replacement

Tabs were counted as two columns but written raw, so that the terminal
wrote elsewhere, including out of the area.
---
 src/views/input_field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index c4fd27f..daaa925 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -634,12 +634,18 @@ impl InputField {
                         }
                     }
                     if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                        if c == '\t' {
+                            self.cursor_style.queue(w, TAB_REPLACEMENT)?;
+                        } else {
+                            self.cursor_style.queue(w, c)?;
+                        }
                         // set terminal cursor position
                         if (Pos { x: i, y }) == pos {
                             terminal_cursor_pos =
                                 Some((left + displayed_width as u16, self.area.top + j));
                         }
+                    } else if c == '\t' {
+                        normal_style.queue(w, TAB_REPLACEMENT)?;
                     } else {
                         normal_style.queue(w, c)?;
                     }
-- 
2.43.0


From dae9ef41415a9bc0352eab459d630a705ef9d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 13/53] fix: pasting ends the selection

As for typed chars, a selection origin without extent was kept by
replace_selection and made the pasted text selected.
---
 src/views/input_field.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index daaa925..8b835a9 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -191,6 +191,7 @@ impl InputField {
         if self.content.has_wide_selection() {
             self.content.del_selection();
         }
+        self.content.unselect();
         self.content.insert_str(s);
         self.fix_scroll();
     }
-- 
2.43.0


From bcece75d86fb7a32b7cea90b3a68256b2c770e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 14/53] fix: scrolling a list which fits its area

---
 src/views/list_view.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..30b2214 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -360,22 +360,20 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
-            self.scroll = if lines_count >= self.scroll {
-                0
-            } else {
-                self.scroll - lines_count
-            };
-        } else {
+            let lines_count = lines_count.unsigned_abs() as usize;
+            self.scroll = self.scroll.saturating_sub(lines_count);
+        } else if self.displayed_rows_count > self.tbody_height() as usize {
             self.scroll = (self.scroll + lines_count as usize)
                 .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+        } else {
+            self.scroll = 0;
         }
         self.make_selection_visible();
     }
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(self.tbody_height() as i32))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From 29b334ea34e039dc0f1ce95b3cda5f83f2df34fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 15/53] fix: the scroll of a filtered list counts displayed
 rows

---
 src/views/list_view.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 30b2214..6aaa551 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -241,6 +241,16 @@ impl<'t, T> ListView<'t, T> {
         self.displayed_rows_count = self.rows.len();
         self.filter = None;
     }
+    /// return the index in `rows` of the row displayed at the top when
+    /// scrolled, `scroll` being the number of displayed rows hidden above
+    fn first_shown_row(&self) -> usize {
+        self.rows
+            .iter()
+            .enumerate()
+            .filter(|(_, row)| row.displayed)
+            .nth(self.scroll)
+            .map_or(self.rows.len(), |(idx, _)| idx)
+    }
     /// write the list view on the given writer
     pub fn write_on<W>(&self, w: &mut W) -> Result<()>
     where
@@ -290,7 +300,7 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut row_idx = self.first_shown_row();
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
@@ -381,8 +391,9 @@ impl<'t, T> ListView<'t, T> {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
+            let first_shown_row = self.first_shown_row();
             for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
+                let i = (i + first_shown_row) % self.rows.len();
                 if self.rows[i].displayed {
                     self.selection = Some(i);
                     self.make_selection_visible();
@@ -432,6 +443,8 @@ impl<'t, T> ListView<'t, T> {
             return; // there's no scroll
         }
         if let Some(sel) = self.selection {
+            // number of displayed rows above the selection
+            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-- 
2.43.0


From d73e30a1331ac47bee7eabbbb1a33e2d062e9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 16/53] fix: selection visible in a list of small height

---
 src/views/list_view.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 6aaa551..621dc3c 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -445,10 +445,17 @@ impl<'t, T> ListView<'t, T> {
         if let Some(sel) = self.selection {
             // number of displayed rows above the selection
             let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
-            if sel <= self.scroll {
+            if tbody_height < 3 {
+                // not enough place for a margin around the selection
+                if sel < self.scroll {
+                    self.scroll = sel;
+                } else if sel >= self.scroll + tbody_height {
+                    self.scroll = sel + 1 - tbody_height;
+                }
+            } else if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = sel + 2 - tbody_height;
             }
         }
     }
-- 
2.43.0


From d6b9f5c17c1408935219e41e1140b2f8a75e9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 17/53] fix: adding a row to a sorted list keeps the selected
 row

---
 src/views/list_view.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 621dc3c..845f8f0 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -183,6 +183,12 @@ impl<'t, T> ListView<'t, T> {
         }
         self.rows.push(Row { data, displayed });
         if let Some(row_order) = &self.row_order {
+            if let Some(sel) = self.selection {
+                // the selection must follow the selected row
+                let mut order: Vec<usize> = (0..self.rows.len()).collect();
+                order.sort_by(|&a, &b| row_order(&self.rows[a].data, &self.rows[b].data));
+                self.selection = order.iter().position(|&idx| idx == sel);
+            }
             self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
         }
     }
-- 
2.43.0


From 25da175d3e8e66a2771c84011ed8668408de5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 18/53] fix: position of the scrollbar of a list

---
 src/views/list_view.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 845f8f0..e4c5bdd 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -166,7 +166,7 @@ impl<'t, T> ListView<'t, T> {
             self.scroll as u16,
             self.displayed_rows_count as u16,
             self.tbody_height(),
-            self.area.top,
+            self.area.top + 2, // the rows are below the titles
         )
     }
     pub fn add_row(&mut self, data: T) {
@@ -262,7 +262,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = self.area.right() - 1;
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
@@ -341,8 +341,8 @@ impl<'t, T> ListView<'t, T> {
                 row_idx += 1;
             }
             if let Some((sctop, scbottom)) = scrollbar {
-                queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y;
+                queue!(w, MoveTo(sx, y))?;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From 1eb9223cfe8a965723a4f30c996ce053dd4926a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 19/53] fix: a list whose area grew doesn't stay scrolled past
 the end

---
 src/views/list_view.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index e4c5bdd..3c8232b 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -227,6 +227,10 @@ impl<'t, T> ListView<'t, T> {
             // there might be some excess, but it's better to have some space at right rather
             //  than a too wide table
         }
+        if self.do_scroll_show_bottom() {
+            // no empty space is needed below the rows if the area grew
+            self.scroll_to_bottom();
+        }
     }
     pub fn set_filter(&mut self, filter: Box<dyn Fn(&T) -> bool>) {
         let mut count = 0;
-- 
2.43.0


From 3768806a39196304ae737021b504c1c01d3b64d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 20/53] fix: the thumb of a scrollbar stays in its track

---
 src/area.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..d5bbb7f 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -138,6 +138,9 @@ where
     if track_before == 0 && scroll > 0 {
         track_before = 1;
     }
+    // the thumb must stay in the track
+    let max_offset = available_height.saturating_sub(1);
+    track_before = track_before.min(max_offset);
     let thumb_height = available_height * available_height / content_height;
     let scrollbar_top = top + track_before;
     let mut scrollbar_bottom = scrollbar_top + thumb_height;
@@ -146,6 +149,7 @@ where
             .min(top + available_height - 2)
             .max(scrollbar_top);
     }
+    scrollbar_bottom = scrollbar_bottom.min(top + max_offset);
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
     let scrollbar_top = scrollbar_top.try_into().unwrap();
-- 
2.43.0


From 7161b489139556bc49649646860cabf2ba21e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 21/53] fix: scrolling up a text view brings the scroll back in
 its bounds

---
 src/views/text_view.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..20d6c98 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -143,12 +143,8 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
-            self.scroll = if lines_count >= self.scroll {
-                0
-            } else {
-                self.scroll - lines_count
-            };
+            let lines_count = lines_count.unsigned_abs() as usize;
+            self.set_scroll(self.scroll.saturating_sub(lines_count));
         } else {
             self.set_scroll(self.scroll + lines_count as usize);
         }
-- 
2.43.0


From 267fd11d31776e9c54549fa59f04d166929dd9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 22/53] fix: resizing a mad view keeps its scroll in bounds

---
 src/views/mad_view.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..b6a6efd 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -56,6 +56,8 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        // some of the scroll may not be possible anymore
+        self.try_scroll_lines(0);
     }
     /// set the scroll amount.
     /// lines_count can be negative
@@ -69,7 +71,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
-- 
2.43.0


From 405eb5635e81546c02322cac24287d00194dd1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 23/53] fix: fitting never replaces a part with an ellipsis
 when there is no gain

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..42e871d 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // there would be no gain as the ellipsis takes one column
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From 4b9a48019d2baa1af9b68ebc44783941035a676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 24/53] fix: right aligned fitting of a composite with an empty
 compound

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 42e871d..1e31da4 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -280,6 +280,10 @@ impl Fitter {
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
                 let char_infos = str_char_infos(compound.src);
+                if char_infos.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
                 loop {
-- 
2.43.0


From 58279a0039e2b2785a5d5bc5b6a381a2ff5b8dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 25/53] fix: wrapping never glues words separated by a long
 blank

---
 src/fit/wrap.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..74ebfeb 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -105,11 +105,15 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, width - first_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut blank_skipped = false; // true when the next word must start a new line
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
-            if !token.blank {
+        if blank_skipped || dst_composite.visible_length + token.width > width {
+            if token.blank {
                 // we skip blank composite at line change
+                blank_skipped = !dst_composite.compounds.is_empty();
+            } else {
+                blank_skipped = false;
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From ff9865a80cb5ad5d3da2bee13536c443b1a40db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 26/53] fix: wrapping a deep list item in a small width

---
 src/fit/wrap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 74ebfeb..03c5d61 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,7 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     let mut blank_skipped = false; // true when the next word must start a new line
-- 
2.43.0


From b83360b31dc5fb0bd1de4a2b480c47003d561ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 27/53] fix: code blocks do not exceed the available width

---
 src/fit/wrap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 03c5d61..75363ae 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -140,8 +140,12 @@ pub fn hard_wrap_lines<'s>(
     let mut src_lines = src_lines;
     let mut lines = Vec::new();
     for src_line in src_lines.drain(..) {
-        if let FmtLine::Normal(fc) = src_line {
+        if let FmtLine::Normal(mut fc) = src_line {
             let (left_margin, right_margin) = skin.line_style(fc.kind).margins_in(Some(width));
+            if let Some(spacing) = fc.spacing.as_mut() {
+                // the block is as wide as its widest line before wrapping
+                spacing.width = spacing.width.min(width - left_margin - right_margin);
+            }
             if fc.visible_length + left_margin + right_margin <= width {
                 lines.push(FmtLine::Normal(fc));
             } else {
-- 
2.43.0


From b5c6a14cd5ec01111ecbdc13db5fcfef7b6aa4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 28/53] fix: rows with missing cells in a table whose columns
 do not fit

---
 src/tbl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..44c846d 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -129,12 +129,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
-                        //FIXME isn't this already done ?
+                        // not done before when columns are removed
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From 353f64125f02f881fbd592f66dfe26753a532996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 29/53] fix: content width of a text with a table without rule

---
 src/line.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 20e3f72..64f05d9 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -43,7 +43,11 @@ impl<'s> FmtLine<'s> {
     pub fn visible_length(&self) -> usize {
         match self {
             FmtLine::Normal(composite) => composite.visible_length,
-            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
+            FmtLine::TableRow(row) => {
+                1 + row.cells.iter().fold(0, |s, c| {
+                    s + c.spacing.map_or(c.visible_length, |sp| sp.width) + 1
+                })
+            }
             FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
-- 
2.43.0


From 44a5703dd0dceb506f902647fcf86a9b8c80c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 30/53] fix: crop writer queues the chars which exactly fit,
 and replaces tabs

---
 src/fit/crop_writer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..2c37819 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,8 +62,11 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if width <= self.allowed {
             self.allowed -= width;
             cs.queue(self.w, c)?;
         }
@@ -74,7 +77,7 @@ where
             return self.queue_unstyled_str(self.tab_replacement);
         }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if width <= self.allowed {
             self.allowed -= width;
             self.w.queue(Print(c))?;
         }
-- 
2.43.0


From 70bec909a6d2bad7095ab589e5f2e3e19e2ec9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 31/53] fix: color names must match the whole token

---
 src/parse/parse_color.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..c8d9b91 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,21 +80,22 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgr[ae]y$"i => Color::DarkGrey,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^gr[ae]y$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From d58b58c359eac31a1ae29d33f237983102a6df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 32/53] fix: attribute and alignment names must match the whole
 token

---
 src/parse/mod.rs             |  2 +-
 src/parse/parse_align.rs     |  6 +++---
 src/parse/parse_attribute.rs | 20 ++++++++++----------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..cdb319f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -111,7 +111,7 @@ pub fn style_tokens_to_string(tokens: &[StyleToken]) -> String {
 }
 
 pub fn parse_style_token(s: &str) -> Result<StyleToken, ParseStyleTokenError> {
-    if regex_is_match!("none"i, s) {
+    if regex_is_match!("^none$"i, s) {
         return Ok(StyleToken::None);
     }
     if let Ok(number) = s.parse() {
diff --git a/src/parse/parse_align.rs b/src/parse/parse_align.rs
index 6ea3db9..07cda7d 100644
--- a/src/parse/parse_align.rs
+++ b/src/parse/parse_align.rs
@@ -21,11 +21,11 @@ pub fn write_align(f: &mut fmt::Formatter<'_>, a: Alignment) -> fmt::Result {
 
 /// Read a Minimad Alignment from a string.
 pub fn parse_align(s: &str) -> Result<Alignment, ParseAlignError> {
-    if regex_is_match!("left"i, s) {
+    if regex_is_match!("^left$"i, s) {
         Ok(Alignment::Left)
-    } else if regex_is_match!("center"i, s) {
+    } else if regex_is_match!("^center$"i, s) {
         Ok(Alignment::Center)
-    } else if regex_is_match!("right"i, s) {
+    } else if regex_is_match!("^right$"i, s) {
         Ok(Alignment::Right)
     } else {
         Err(ParseAlignError::Unrecognized)
diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..c736830 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -42,25 +42,25 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 
 /// Read a Minimad Attributement from a string.
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
-    if regex_is_match!("bold"i, s) {
+    if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("^(crossed[_-]?out|strikeout)$"i, s) {
         Ok(Attribute::CrossedOut)
-    } else if regex_is_match!("dim"i, s) {
+    } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-    } else if regex_is_match!("italic"i, s) {
+    } else if regex_is_match!("^italic$"i, s) {
         Ok(Attribute::Italic)
-    } else if regex_is_match!("under[_-]?lined"i, s) {
+    } else if regex_is_match!("^under[_-]?lined$"i, s) {
         Ok(Attribute::Underlined)
-    } else if regex_is_match!("over[_-]?lined"i, s) {
+    } else if regex_is_match!("^over[_-]?lined$"i, s) {
         Ok(Attribute::OverLined)
-    } else if regex_is_match!("reverse"i, s) {
+    } else if regex_is_match!("^reverse$"i, s) {
         Ok(Attribute::Reverse)
-    } else if regex_is_match!("encircled"i, s) {
+    } else if regex_is_match!("^encircled$"i, s) {
         Ok(Attribute::Encircled)
-    } else if regex_is_match!("slow[_-]?blink"i, s) {
+    } else if regex_is_match!("^slow[_-]?blink$"i, s) {
         Ok(Attribute::SlowBlink)
-    } else if regex_is_match!("rapid[_-]?blink"i, s) {
+    } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
     } else {
         Err(ParseAttributeError::Unrecognized)
-- 
2.43.0


From f4b6c93a245938be7d4e770f9dcf53d3c0ce524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 33/53] fix: write_style_tokens separates the tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index cdb319f..57b0caf 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From ca0dafffb08c50fdcd122d5e4894750f6a616efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 34/53] fix: scrollbar styles with attributes or without color
 survive serialization

---
 src/serde/serde_scrollbar_style.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..4498776 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -26,11 +26,16 @@ pub enum ScrollBarStyleDef {
     },
 }
 
+/// tell whether the style has a foreground and nothing else
+fn is_only_fg(sc: &StyledChar) -> bool {
+    sc.get_fg().is_some() && sc.get_bg().is_none() && sc.compound_style().attrs().is_empty()
+}
+
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
         let simple = sc.track.nude_char() == sc.thumb.nude_char()
-            && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
+            && is_only_fg(&sc.track)
+            && is_only_fg(&sc.thumb);
         if simple {
             Self::Simple(StyledChar::new(
                 CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-- 
2.43.0


From abef120f1f7f12f5a2c2796b121bafa8a00d556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 35/53] fix: blink attributes survive serialization

---
 src/compound_style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..24854ca 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -32,6 +32,8 @@ pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::Dim,
     Attribute::Italic,
     Attribute::Underlined,
+    Attribute::SlowBlink,
+    Attribute::RapidBlink,
     Attribute::Reverse,
     Attribute::CrossedOut,
     Attribute::Encircled,
-- 
2.43.0


From 44ae089c408a1e4108442ad51e9e543744c9dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 36/53] fix: the indentation mode of list items survives
 serialization

---
 src/serde/serde_skin.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/serde/serde_skin.rs b/src/serde/serde_skin.rs
index d45faae..95b38cc 100644
--- a/src/serde/serde_skin.rs
+++ b/src/serde/serde_skin.rs
@@ -6,6 +6,7 @@ use {
         parse_line_style,
         parse_styled_char,
         LineStyle,
+        ListItemsIndentationMode,
         MadSkin,
         TableBorderChars,
         ATTRIBUTES,
@@ -149,6 +150,15 @@ impl<'de> de::Deserialize<'de> for MadSkin {
                             }
                         }
 
+                        // list items indentation
+                        "list_items_indentation_mode" | "list-items-indentation-mode" => {
+                            skin.list_items_indentation_mode =
+                                match map.next_value::<String>()?.as_str() {
+                                    "first-line-only" => ListItemsIndentationMode::FirstLineOnly,
+                                    _ => ListItemsIndentationMode::Block,
+                                };
+                        }
+
                         _ => {
                             let _ = map.next_value::<String>()?;
                             println!("unknown key: {key}");
@@ -200,6 +210,13 @@ impl Serialize for MadSkin {
             skin.serialize_entry("table_border_chars", key)?;
         }
 
+        // list items indentation
+        let mode = match self.list_items_indentation_mode {
+            ListItemsIndentationMode::FirstLineOnly => "first-line-only",
+            ListItemsIndentationMode::Block => "block",
+        };
+        skin.serialize_entry("list_items_indentation_mode", mode)?;
+
         skin.end()
     }
 }
-- 
2.43.0


From 45ef9033aa303963b07660c10c7534ba536b800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 37/53] fix: blending a style applies to its background too

---
 src/compound_style.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 24854ca..c5e8523 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -83,12 +83,15 @@ impl CompoundStyle {
     /// The `dest` color can be for example a [crossterm] color or a [coolor] one.
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, dest: C, weight: f32) {
         debug_assert!(weight >= 0.0 && weight <= 1.0);
+        if weight == 0.0 {
+            return;
+        }
         let dest: coolor::Color = dest.into();
         if let Some(fg) = self.object_style.foreground_color.as_mut() {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From 014d91f5727986e5214ebacc126bc32f523f035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 38/53] fix: a blended styled char displays with its new style

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From bd5d19b289abb664efefe617b8d74218d69c181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 39/53] fix: asking a question ends when there is no more input

---
 src/ask.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..6154ad9 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -82,7 +82,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let read = io::stdin().read_line(&mut input)?;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +94,9 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if read == 0 {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From ea572acecadb551a513a90f26482515281005499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 40/53] fix: scrollbars of contents of more than 65535 lines

---
 src/views/input_field.rs | 2 +-
 src/views/list_view.rs   | 4 ++--
 src/views/text_view.rs   | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 8b835a9..853d8aa 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -567,7 +567,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width -= 1;
         }
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 3c8232b..36f9801 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -163,8 +163,8 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
             self.area.top + 2, // the rows are below the titles
         )
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 20d6c98..56d990a 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -83,8 +83,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
-            self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+            self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From 007cbc61dcd1bd821234c92d6f8eb1d6fd877e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 41/53] fix: fitting an extended composite reduces its spacing

---
 src/composite.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/composite.rs b/src/composite.rs
index 04dbc6a..387bc2a 100644
--- a/src/composite.rs
+++ b/src/composite.rs
@@ -77,6 +77,10 @@ impl<'s> FmtComposite<'s> {
     /// good enough. In this specific case an ellipsis will replace the removed part.
     pub fn fit_width(&mut self, width: usize, align: Alignment, skin: &MadSkin) {
         Fitter::for_align(align).fit(self, width, skin);
+        if let Some(ref mut spacing) = self.spacing {
+            // a previous extension must not make it wider
+            spacing.width = spacing.width.min(width);
+        }
     }
     /// if the composite is smaller than the given width, pad it
     /// according to the alignment.
-- 
2.43.0


From 2ce751bcc8d102a6e01cdc8f3bd9b0393ca2cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 42/53] fix: filling a crop writer with a wide char stays in
 the allowed columns

---
 src/fit/crop_writer.rs | 16 ++++++++--------
 src/fit/filling.rs     |  7 +++++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index 2c37819..cd747ec 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -140,19 +140,19 @@ where
         &mut self,
         cs: &CompoundStyle,
         filling: &'static Filling,
-        mut len: usize,
+        len: usize,
     ) -> Result<(), Error> {
-        len = len.min(self.allowed);
-        self.allowed -= len;
-        filling.queue_styled(self.w, cs, len)
+        let count = len.min(self.allowed) / filling.char_width();
+        self.allowed -= count * filling.char_width();
+        filling.queue_styled(self.w, cs, count)
     }
     pub fn repeat_unstyled(
         &mut self,
         filling: &'static Filling,
-        mut len: usize,
+        len: usize,
     ) -> Result<(), Error> {
-        len = len.min(self.allowed);
-        self.allowed -= len;
-        filling.queue_unstyled(self.w, len)
+        let count = len.min(self.allowed) / filling.char_width();
+        self.allowed -= count * filling.char_width();
+        filling.queue_unstyled(self.w, count)
     }
 }
diff --git a/src/fit/filling.rs b/src/fit/filling.rs
index a119815..3a66083 100644
--- a/src/fit/filling.rs
+++ b/src/fit/filling.rs
@@ -7,6 +7,7 @@ use {
         *,
     },
     std::io::Write,
+    unicode_width::UnicodeWidthChar,
 };
 
 const FILLING_STRING_CHAR_LEN: usize = 1000;
@@ -15,6 +16,7 @@ const FILLING_STRING_CHAR_LEN: usize = 1000;
 pub struct Filling {
     filling_string: String,
     char_size: usize,
+    char_width: usize,
 }
 
 impl Filling {
@@ -27,8 +29,13 @@ impl Filling {
         Self {
             filling_string,
             char_size,
+            char_width: filling_char.width().unwrap_or(0).max(1),
         }
     }
+    /// number of columns taken by the filling char
+    pub(crate) const fn char_width(&self) -> usize {
+        self.char_width
+    }
     pub fn queue_unstyled<W: Write>(&self, w: &mut W, mut len: usize) -> Result<(), Error> {
         while len > 0 {
             let sl = len.min(FILLING_STRING_CHAR_LEN);
-- 
2.43.0


From 95cf8a5fa96e997b7cd95c730026bbb78d2ea4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 43/53] fix: the selection tail set in an input content is
 checked against its own line

---
 src/views/input_field_content.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 7b2434d..e91fdad 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -174,14 +174,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn set_selection_tail(&mut self, sel_tail: Pos) {
-        if sel_tail.y >= self.lines.len() {
-            self.selection_tail = Some(self.end());
-        } else {
-            self.selection_tail = Some(Pos {
-                y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
-            });
-        }
+        self.selection_tail = Some(self.make_valid_pos(sel_tail));
     }
     fn fix_pos(&mut self) {
         self.pos = self.make_valid_pos(self.pos);
-- 
2.43.0


From 41c6f149a6037c7f1f6db3c78ac9df1aabded0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 44/53] fix: the terminal black and white survive serialization

---
 src/parse/parse_color.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index c8d9b91..3f4dbc0 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -20,7 +20,8 @@ pub enum ParseColorError {
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
         Color::Reset => Ok(()),
-        Color::Black => write!(f, "Black"),
+        // the names "black" and "white" are parsed as the colors of the 6x6x6 cube
+        Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
         Color::Red => write!(f, "Red"),
         Color::DarkRed => write!(f, "DarkRed"),
@@ -34,7 +35,7 @@ pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
         Color::DarkMagenta => write!(f, "DarkMagenta"),
         Color::Cyan => write!(f, "Cyan"),
         Color::DarkCyan => write!(f, "DarkCyan"),
-        Color::White => write!(f, "White"),
+        Color::White => write!(f, "ansi(15)"),
         Color::Grey => write!(f, "Grey"),
         Color::Rgb { r, g, b } => write!(f, "rgb({r}, {g}, {b})"),
         Color::AnsiValue(code) => write!(f, "ansi({code})"),
-- 
2.43.0


From 8d5e496196d76aa49faff74eaeb5d69f02aedb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 45/53] fix: the reset color survives serialization

---
 src/parse/parse_color.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 3f4dbc0..1b0a563 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -19,7 +19,7 @@ pub enum ParseColorError {
 
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
-        Color::Reset => Ok(()),
+        Color::Reset => write!(f, "Reset"),
         // the names "black" and "white" are parsed as the colors of the 6x6x6 cube
         Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
@@ -94,6 +94,7 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
         "^gr[ae]y$"i => Color::Grey,
         "^magenta$"i => Color::Magenta,
         "^red$"i => Color::Red,
+        "^reset$"i => Color::Reset,
         "^yellow$"i => Color::Yellow,
         "^darkyellow$"i => Color::DarkYellow,
         "^white$"i => Color::AnsiValue(231),
-- 
2.43.0


From 4fabc85e5e661f2fb6db1d82b23f4aacd32fc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 46/53] fix: MadView::write flushes stdout, as the other views
 do

---
 src/views/mad_view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index b6a6efd..1ddf21c 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -34,7 +34,10 @@ impl MadView {
     /// render the markdown in the area, taking the scroll into
     /// account
     pub fn write(&self) -> Result<()> {
-        self.write_on(&mut std::io::stdout())
+        let mut stdout = std::io::stdout();
+        self.write_on(&mut stdout)?;
+        stdout.flush()?;
+        Ok(())
     }
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
         let text = self.skin.area_text(&self.markdown, &self.area);
-- 
2.43.0


From e73e7b024ff2a51a79ce9a7b03b809a17b88bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 47/53] fix: an input field without room for a char draws
 nothing out of its area

---
 src/views/input_field.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 853d8aa..d68d8fb 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -482,7 +482,7 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            width = width.saturating_sub(1);
         } else {
             self.scroll.y = 0;
         }
@@ -567,7 +567,8 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y, self.content.line_count());
+            .scrollbar(self.scroll.y, self.content.line_count())
+            .filter(|_| width > 0);
         if scrollbar.is_some() {
             width -= 1;
         }
@@ -595,7 +596,8 @@ impl InputField {
 
         for j in 0..self.area.height {
             queue!(w, cursor::MoveTo(self.area.left, j + self.area.top))?;
-            if let Some((y, chars)) = numbered_lines.next() {
+            // there may be no room for chars (e.g. when there's only the scrollbar)
+            if let Some((y, chars)) = numbered_lines.next().filter(|_| width > 0) {
                 let cursor_at_end = self.focused && y == pos.y && pos.x == chars.len();
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
-- 
2.43.0


From 8293a24ea75d7a803c84a3e31bf536b76c8f9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 48/53] fix: a text view can be shown in an area without width

---
 src/skin.rs            | 2 +-
 src/views/text_view.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..1dea5c4 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -363,7 +363,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 56d990a..00c69c2 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -82,7 +82,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  scrollbar. Return none when the content fits
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
-        if self.show_scrollbar {
+        if self.show_scrollbar && self.area.width > 0 {
             self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
-- 
2.43.0


From e8fd47add2ac3e27ec3dc3cf51c9cf380356d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 49/53] fix: a list view can be shown in an area without width

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 36f9801..5a45ac0 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -266,7 +266,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.right() - 1;
+        let sx = self.area.right().saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
-- 
2.43.0


From 43ab0874e12327ce72b05d52acabf1f589030725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 50/53] fix: moving by no line, or by page without height,
 isn't a move

---
 src/views/input_field_content.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index e91fdad..e37404a 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -464,7 +464,7 @@ impl InputFieldContent {
     }
     /// Move the cursor up
     pub fn move_lines_up(&mut self, lines: usize) -> bool {
-        if self.pos.y > 0 {
+        if lines > 0 && self.pos.y > 0 {
             let cols = self.lines[self.pos.y].char_idx_to_col(self.pos.x);
             self.pos.y -= lines.min(self.pos.y);
             let line = &self.lines[self.pos.y];
@@ -480,7 +480,7 @@ impl InputFieldContent {
     }
     /// Move the cursor down
     pub fn move_lines_down(&mut self, lines: usize) -> bool {
-        if self.pos.y + 1 < self.lines.len() {
+        if lines > 0 && self.pos.y + 1 < self.lines.len() {
             let cols = self.lines[self.pos.y].char_idx_to_col(self.pos.x);
             self.pos.y += lines.min(self.lines.len() - self.pos.y - 1);
             let line = &self.lines[self.pos.y];
-- 
2.43.0


From d74aa74f563968fcf2972f17b2b9d37dcb5fab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 51/53] fix: all attributes survive serialization

---
 src/compound_style.rs        | 20 ++++++++++++++++++-
 src/parse/parse_attribute.rs | 38 ++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index c5e8523..22841f2 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -26,18 +26,36 @@ use {
     },
 };
 
-/// The attributes which are often supported
+/// All the attributes a style can have (most of them aren't supported
+/// by all terminals)
 pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::Bold,
     Attribute::Dim,
     Attribute::Italic,
     Attribute::Underlined,
+    Attribute::DoubleUnderlined,
+    Attribute::Undercurled,
+    Attribute::Underdotted,
+    Attribute::Underdashed,
     Attribute::SlowBlink,
     Attribute::RapidBlink,
     Attribute::Reverse,
+    Attribute::Hidden,
     Attribute::CrossedOut,
+    Attribute::Fraktur,
+    Attribute::NoBold,
+    Attribute::NormalIntensity,
+    Attribute::NoItalic,
+    Attribute::NoUnderline,
+    Attribute::NoBlink,
+    Attribute::NoReverse,
+    Attribute::NoHidden,
+    Attribute::NotCrossedOut,
+    Attribute::Framed,
     Attribute::Encircled,
     Attribute::OverLined,
+    Attribute::NotFramedOrEncircled,
+    Attribute::NotOverLined,
 ];
 
 /// A style which may be applied to a compound
diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index c736830..04e3646 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -17,6 +17,10 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
         Attribute::Dim => write!(f, "Dim"),
         Attribute::Italic => write!(f, "Italic"),
         Attribute::Underlined => write!(f, "Underlined"),
+        Attribute::DoubleUnderlined => write!(f, "DoubleUnderlined"),
+        Attribute::Undercurled => write!(f, "Undercurled"),
+        Attribute::Underdotted => write!(f, "Underdotted"),
+        Attribute::Underdashed => write!(f, "Underdashed"),
         Attribute::SlowBlink => write!(f, "SlowBlink"),
         Attribute::RapidBlink => write!(f, "RapidBlink"),
         Attribute::Reverse => write!(f, "Reverse"),
@@ -62,6 +66,40 @@ pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
         Ok(Attribute::SlowBlink)
     } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
+    } else if regex_is_match!("^double[_-]?underlined$"i, s) {
+        Ok(Attribute::DoubleUnderlined)
+    } else if regex_is_match!("^undercurled$"i, s) {
+        Ok(Attribute::Undercurled)
+    } else if regex_is_match!("^underdotted$"i, s) {
+        Ok(Attribute::Underdotted)
+    } else if regex_is_match!("^underdashed$"i, s) {
+        Ok(Attribute::Underdashed)
+    } else if regex_is_match!("^hidden$"i, s) {
+        Ok(Attribute::Hidden)
+    } else if regex_is_match!("^fraktur$"i, s) {
+        Ok(Attribute::Fraktur)
+    } else if regex_is_match!("^no[_-]?bold$"i, s) {
+        Ok(Attribute::NoBold)
+    } else if regex_is_match!("^normal[_-]?intensity$"i, s) {
+        Ok(Attribute::NormalIntensity)
+    } else if regex_is_match!("^no[_-]?italic$"i, s) {
+        Ok(Attribute::NoItalic)
+    } else if regex_is_match!("^no[_-]?underline$"i, s) {
+        Ok(Attribute::NoUnderline)
+    } else if regex_is_match!("^no[_-]?blink$"i, s) {
+        Ok(Attribute::NoBlink)
+    } else if regex_is_match!("^no[_-]?reverse$"i, s) {
+        Ok(Attribute::NoReverse)
+    } else if regex_is_match!("^no[_-]?hidden$"i, s) {
+        Ok(Attribute::NoHidden)
+    } else if regex_is_match!("^not[_-]?crossed[_-]?out$"i, s) {
+        Ok(Attribute::NotCrossedOut)
+    } else if regex_is_match!("^framed$"i, s) {
+        Ok(Attribute::Framed)
+    } else if regex_is_match!("^not[_-]?framed[_-]?or[_-]?encircled$"i, s) {
+        Ok(Attribute::NotFramedOrEncircled)
+    } else if regex_is_match!("^not[_-]?over[_-]?lined$"i, s) {
+        Ok(Attribute::NotOverLined)
     } else {
         Err(ParseAttributeError::Unrecognized)
     }
-- 
2.43.0


From 5f4bc8951a350055cdba059b21e62120ff8ae66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 52/53] fix: a table of one column may be reduced too

---
 src/fit/tbl_fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 8bb386f..51b2690 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -91,7 +91,7 @@ impl TblFit {
         }
         if self.cols.len() == 1 {
             return TblFitResult {
-                reduced: false,
+                reduced: true,
                 col_widths: vec![self.available_sum_width],
             };
         }
-- 
2.43.0


From eca809787c9c1e578318ad7fa993e57bac13fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:34 +0000
Subject: [PATCH 53/53] fix: a click puts the cursor on the char drawn there,
 be it wide, after a zero-width one, or in a line scrolled into a wide char

---
 src/views/input_field.rs         | 45 ++++++++++++++++++++------------
 src/views/input_field_content.rs |  8 ++++++
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index d68d8fb..f2ddb6c 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -360,17 +360,35 @@ impl InputField {
         }
     }
 
+    /// Return the position of the char drawn at the given position,
+    /// which must be in the area
+    fn pos_at(&self, x: u16, y: u16) -> Pos {
+        let y = ((y - self.area.top) as usize + self.scroll.y).min(self.content.line_count() - 1);
+        let line = &self.content.lines()[y];
+        let mut col = (x - self.area.left) as usize + self.scroll.x;
+        if self.password_mode {
+            return Pos { x: col, y };
+        }
+        let mut width = self.area.width as usize;
+        if self.content.line_count() > self.area.height as usize {
+            width -= 1; // scrollbar
+        }
+        let mut hidden = self.scroll.x;
+        if hidden > 0 && width > 4 {
+            hidden += 1; // ellipsis
+        }
+        // chars are drawn sooner when a wide one is only partly in the hidden columns
+        let first = line.col_to_char_idx(hidden).unwrap_or(line.chars.len());
+        col += line.char_idx_to_col(first).saturating_sub(hidden);
+        let x = line.char_idx_at_col(col).unwrap_or(line.chars.len());
+        Pos { x, y }
+    }
+
     /// Apply a simple left click event
     pub fn apply_click_event(&mut self, x: u16, y: u16) -> bool {
         if self.area.contains(x, y) {
             if self.focused {
-                let y = ((y - self.area.top) as usize + self.scroll.y)
-                    .min(self.content.line_count() - 1);
-                let line = &self.content.lines()[y];
-                let col = (x - self.area.left) as usize + self.scroll.x;
-                let x = if self.password_mode { Some(col) } else { line.col_to_char_idx(col) }
-                    .unwrap_or(line.chars.len());
-                self.content.set_cursor_pos(Pos { x, y });
+                self.content.set_cursor_pos(self.pos_at(x, y));
                 self.fix_scroll();
             } else {
                 self.set_focus(true);
@@ -391,12 +409,7 @@ impl InputField {
         } = mouse_event;
         if self.area.contains(column, row) {
             if self.focused {
-                let y = ((row - self.area.top) as usize + self.scroll.y)
-                    .min(self.content.line_count() - 1);
-                let line = &self.content.lines()[y];
-                let col = (column - self.area.left) as usize + self.scroll.x;
-                let x = if self.password_mode { Some(col) } else { line.col_to_char_idx(col) }
-                    .unwrap_or(line.chars.len());
+                let pos = self.pos_at(column, row);
                 // We handle the selection click on down, so that it's set at the
                 // start of drag.
                 match kind {
@@ -408,17 +421,17 @@ impl InputField {
                         } else {
                             self.content.unselect();
                         }
-                        self.content.set_cursor_pos(Pos { x, y });
+                        self.content.set_cursor_pos(pos);
                         self.fix_scroll();
                     }
                     MouseEventKind::Up(MouseButton::Left) if is_double_click => {
-                        self.content.set_cursor_pos(Pos { x, y });
+                        self.content.set_cursor_pos(pos);
                         self.content.select_word_around();
                         self.fix_scroll();
                     }
                     MouseEventKind::Drag(MouseButton::Left) => {
                         self.content.make_selection();
-                        self.content.set_cursor_pos(Pos { x, y });
+                        self.content.set_cursor_pos(pos);
                         self.fix_scroll();
                     }
                     MouseEventKind::ScrollDown => {
diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index e37404a..924b8db 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -111,6 +111,14 @@ impl Line {
         }
         None
     }
+    /// Return the index of the char covering the column, if any
+    pub fn char_idx_at_col(&self, col: usize) -> Option<usize> {
+        let mut sum_widths = 0;
+        self.chars.iter().position(|&c| {
+            sum_widths += InputFieldContent::char_width(c);
+            col < sum_widths
+        })
+    }
     pub fn char_idx_to_col(&self, idx: usize) -> usize {
         self.chars[0..idx]
             .iter()
-- 
2.43.0

