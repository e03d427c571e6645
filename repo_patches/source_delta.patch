From b84a7fda9d23987d62ed9854eede882290cce3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 01/69] fix: creating a session under an existing id no longer
 destroys the existing session

---
 crates/ass-editor/sessions/lifecycle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..72c2a30 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -10,6 +10,7 @@ use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
+    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -32,6 +33,13 @@ impl EditorSessionManager {
         document: EditorDocument,
     ) -> Result<()> {
         self.with_inner_mut(|inner| {
+            // Never replace an existing session: its document would be lost
+            if inner.sessions.contains_key(&session_id) {
+                return Err(EditorError::ValidationError {
+                    message: format!("Session '{session_id}' already exists"),
+                });
+            }
+
             // Check session limits
             if inner.sessions.len() >= inner.config.max_sessions {
                 return Err(EditorError::SessionLimitExceeded {
-- 
2.43.0


From fb8927725388848b65daec1f65cb52b806ec7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 02/69] fix: stale-session cleanup no longer removes a session
 used after the staleness check

---
 crates/ass-editor/sessions/access.rs | 32 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/ass-editor/sessions/access.rs b/crates/ass-editor/sessions/access.rs
index 1725a9b..734fd9c 100644
--- a/crates/ass-editor/sessions/access.rs
+++ b/crates/ass-editor/sessions/access.rs
@@ -58,29 +58,35 @@ impl EditorSessionManager {
     /// Perform cleanup of stale sessions
     #[cfg(feature = "std")]
     pub fn cleanup_stale_sessions(&mut self, max_age: std::time::Duration) -> Result<usize> {
-        // Get list of stale sessions
-        let sessions_to_remove = self.with_inner(|inner| {
+        // Decide and remove under one lock: a session used in between must survive
+        self.with_inner_mut(|inner| {
             if !inner.config.auto_cleanup {
-                return vec![];
+                return Ok(0);
             }
 
-            inner
+            // Get list of stale sessions
+            let sessions_to_remove = inner
                 .sessions
                 .iter()
                 .filter(|(_, session)| session.is_stale(max_age))
                 .map(|(id, _)| id.clone())
-                .collect::<Vec<_>>()
-        });
+                .collect::<Vec<_>>();
 
-        // Remove stale sessions
-        let mut removed_count = 0;
-        for session_id in sessions_to_remove {
-            if self.remove_session(&session_id).is_ok() {
-                removed_count += 1;
+            // Remove stale sessions
+            let mut removed_count = 0;
+            for session_id in sessions_to_remove {
+                if let Some(session) = inner.sessions.remove(&session_id) {
+                    inner.stats.active_sessions -= 1;
+                    inner.stats.total_memory_usage -= session.memory_usage;
+                    if inner.active_session_id.as_ref() == Some(&session_id) {
+                        inner.active_session_id = None;
+                    }
+                    removed_count += 1;
+                }
             }
-        }
 
-        Ok(removed_count)
+            Ok(removed_count)
+        })
     }
 
     /// Reset shared arena to reclaim memory
-- 
2.43.0


From c649c1be5dd67936486c8b21b1cdcba527aa20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 03/69] fix: editing a session document refreshes its last
 access time

---
 crates/ass-editor/sessions/access.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-editor/sessions/access.rs b/crates/ass-editor/sessions/access.rs
index 734fd9c..30400fc 100644
--- a/crates/ass-editor/sessions/access.rs
+++ b/crates/ass-editor/sessions/access.rs
@@ -43,6 +43,10 @@ impl EditorSessionManager {
                 }
             })?;
 
+            // Editing a session is an access: it must not be cleaned up as unused
+            #[cfg(feature = "std")]
+            session.touch();
+
             let result = f(&mut session.document)?;
             session.increment_operations();
 
-- 
2.43.0


From b0ce89b5624208405814aac64fec7f77c7569be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 04/69] fix: undoing a replacement restores the replaced text
 when the lengths differ

---
 crates/ass-editor/core/document/undo_redo.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..f8b0786 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,13 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text over the text that replaced it
+                    let replaced_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, replaced_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
-- 
2.43.0


From 14963b65db1b147dcd45f46d0e8f7d416fa3c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:29 +0000
Subject: [PATCH 05/69] fix: redoing one operation keeps the operations that
 can still be redone

---
 crates/ass-editor/core/document/undo_redo.rs | 4 ++--
 crates/ass-editor/core/history/stack_impl.rs | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index f8b0786..e21643d 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -156,8 +156,8 @@ impl EditorDocument {
                 entry.cursor_before,
             );
 
-            // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            // Push back to undo stack, keeping the remaining redo entries
+            self.history.stack_mut().push_redone(new_entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..971b81b 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -42,6 +42,11 @@ impl UndoStack {
         // Clear redo stack - new operations invalidate undone changes
         self.clear_redo_stack();
 
+        self.push_redone(entry);
+    }
+
+    /// Push an entry that was just redone, keeping the remaining redo entries
+    pub(crate) fn push_redone(&mut self, entry: HistoryEntry) {
         // Add memory usage
         self.current_memory += entry.memory_usage;
 
-- 
2.43.0


From 7e9c39aa5022b0adcdf5eba976737ad740527ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 06/69] fix: executing a command records one undo step for what
 it changed and rolls back on failure

---
 .../ass-editor/core/document/editing_raw.rs   | 45 ++++++++++
 crates/ass-editor/core/document/validation.rs | 84 ++++++-------------
 2 files changed, 69 insertions(+), 60 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..44b5bb0 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -5,8 +5,12 @@
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
+use crate::core::history::Operation;
 use crate::core::position::{Position, Range};
 
+#[cfg(not(feature = "std"))]
+use alloc::string::ToString;
+
 impl EditorDocument {
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
@@ -65,4 +69,45 @@ impl EditorDocument {
         self.insert_raw(range.start, text)?;
         Ok(())
     }
+    /// Replace the whole text (low-level operation without undo)
+    pub(super) fn restore_text(&mut self, text: &str) {
+        #[cfg(feature = "rope")]
+        {
+            self.text_rope = ropey::Rope::from_str(text);
+        }
+        #[cfg(not(feature = "rope"))]
+        {
+            self.text_content = text.to_string();
+        }
+        self.validator.clear_cache();
+    }
+
+    /// The smallest replacement that turns `before` into the current text
+    pub(super) fn replacement_since(&self, before: &str) -> Option<Operation> {
+        let after = self.text();
+        if after == before {
+            return None;
+        }
+
+        let prefix: usize = before
+            .chars()
+            .zip(after.chars())
+            .take_while(|(a, b)| a == b)
+            .map(|(a, _)| a.len_utf8())
+            .sum();
+        let (old_rest, new_rest) = (&before[prefix..], &after[prefix..]);
+        let suffix: usize = old_rest
+            .chars()
+            .rev()
+            .zip(new_rest.chars().rev())
+            .take_while(|(a, b)| a == b)
+            .map(|(a, _)| a.len_utf8())
+            .sum();
+
+        Some(Operation::Replace {
+            range: Range::new(Position::new(prefix), Position::new(before.len() - suffix)),
+            old_text: old_rest[..old_rest.len() - suffix].to_string(),
+            new_text: new_rest[..new_rest.len() - suffix].to_string(),
+        })
+    }
 }
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..9cde994 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -5,7 +5,6 @@
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
-use crate::core::position::{Position, Range};
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
@@ -46,68 +45,33 @@ impl EditorDocument {
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
-        use crate::core::history::Operation;
-
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
-
-        // Execute the command
-        let result = command.execute(self)?;
-
-        // Only record if the command changed content
-        if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
+        use crate::core::history::UndoManager;
+
+        let before = self.text();
+        let was_modified = self.modified;
+
+        // Edits the command makes through the document belong to this one undo step,
+        // so keep them out of the real history while the command runs
+        let history = core::mem::replace(&mut self.history, UndoManager::new());
+        self.history.set_cursor(history.cursor_position());
+        let outcome = command.execute(self);
+        self.history = history;
+
+        let mut result = match outcome {
+            Ok(result) if result.success => result,
+            failed => {
+                // A command that fails part-way leaves no trace
+                if self.text() != before {
+                    self.restore_text(&before);
                 }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
-            };
-
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
+                self.modified = was_modified;
+                return failed;
             }
+        };
 
-            // Record in history
+        // Record what actually changed in the text
+        if let Some(operation) = self.replacement_since(&before) {
+            result.content_changed = true;
             self.history
                 .record_operation(operation, command.description().to_string(), &result);
 
-- 
2.43.0


From 7adaeb9730d9e6293901a5f22ba8ddb205020f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 07/69] fix: fluent operations are recorded in the undo history

---
 crates/ass-editor/commands/fluent_builder.rs  | 16 +++++++--------
 .../ass-editor/core/fluent/event_deleter.rs   | 16 +++++++--------
 .../core/fluent/event_merge_timing.rs         | 14 ++++++-------
 crates/ass-editor/core/fluent/event_ops.rs    | 10 ++++------
 .../core/fluent/event_toggle_effect.rs        | 12 +++++------
 crates/ass-editor/core/fluent/karaoke.rs      |  4 ++--
 .../core/fluent/karaoke_builders.rs           | 20 +++++++++----------
 crates/ass-editor/core/fluent/media.rs        | 20 +++++++++----------
 crates/ass-editor/core/fluent/script_info.rs  |  4 ++--
 crates/ass-editor/core/fluent/style.rs        | 11 +++++-----
 crates/ass-editor/core/fluent/tag.rs          | 20 +++++++++----------
 11 files changed, 71 insertions(+), 76 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index 740295e..ee2f190 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -2,9 +2,7 @@
 
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
-use super::{
-    CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand,
-};
+use super::{CommandResult, DeleteTextCommand, InsertTextCommand, ReplaceTextCommand};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -62,7 +60,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Position not set for insert operation"))?;
 
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Delete text in the current range
@@ -72,7 +70,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for delete operation"))?;
 
         let command = DeleteTextCommand::new(range);
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Replace text in the current range
@@ -82,7 +80,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for replace operation"))?;
 
         let command = ReplaceTextCommand::new(range, new_text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 }
 
@@ -108,16 +106,16 @@ impl DocumentCommandExt for EditorDocument {
 
     fn insert_at(&mut self, position: Position, text: &str) -> Result<CommandResult> {
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn delete_range(&mut self, range: Range) -> Result<CommandResult> {
         let command = DeleteTextCommand::new(range);
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn replace_range(&mut self, range: Range, text: &str) -> Result<CommandResult> {
         let command = ReplaceTextCommand::new(range, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_deleter.rs b/crates/ass-editor/core/fluent/event_deleter.rs
index 349dd65..0546d9e 100644
--- a/crates/ass-editor/core/fluent/event_deleter.rs
+++ b/crates/ass-editor/core/fluent/event_deleter.rs
@@ -1,7 +1,7 @@
 //! Fluent API for deleting events based on queries.
 
 use super::EventQuery;
-use crate::commands::{BatchDeleteEventsCommand, EditorCommand};
+use crate::commands::BatchDeleteEventsCommand;
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
 
@@ -35,7 +35,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Dialogue)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -45,7 +45,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Comment)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -55,7 +55,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_time_range(start_cs, end_cs)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -65,7 +65,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_style(style)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -75,7 +75,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_text(text)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -83,7 +83,7 @@ impl<'a> EventDeleter<'a> {
     pub fn all(self) -> Result<&'a mut EditorDocument> {
         let indices = EventQuery::new(self.document).indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> EventDeleter<'a> {
             return Ok(self.document);
         }
         let command = BatchDeleteEventsCommand::new(self.indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_merge_timing.rs b/crates/ass-editor/core/fluent/event_merge_timing.rs
index 597ca06..300b9b9 100644
--- a/crates/ass-editor/core/fluent/event_merge_timing.rs
+++ b/crates/ass-editor/core/fluent/event_merge_timing.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for merging events and adjusting their timing.
 
-use crate::commands::{EditorCommand, MergeEventsCommand, TimingAdjustCommand};
+use crate::commands::{MergeEventsCommand, TimingAdjustCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -43,7 +43,7 @@ impl<'a> EventMerger<'a> {
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = MergeEventsCommand::new(self.first_index, self.second_index)
             .with_separator(self.separator);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -78,28 +78,28 @@ impl<'a> EventTimer<'a> {
     /// Shift start and end times by the same offset (preserves duration)
     pub fn shift(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only start times (changes duration)
     pub fn shift_start(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, 0);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only end times (changes duration)
     pub fn shift_end(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, 0, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Scale duration by a factor
     pub fn scale_duration(self, factor: f64) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::scale_duration(self.event_indices, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,7 +110,7 @@ impl<'a> EventTimer<'a> {
         end_offset_cs: i32,
     ) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, start_offset_cs, end_offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 34e3f2a..dd12b68 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -4,9 +4,7 @@ use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
-use crate::commands::{
-    BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, SplitEventCommand,
-};
+use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 use ass_core::parser::ast::{Event, EventType, Section};
 
@@ -27,7 +25,7 @@ impl<'a> EventOps<'a> {
     /// Split an event at a specific time
     pub fn split(self, event_index: usize, split_time: &str) -> Result<&'a mut EditorDocument> {
         let command = SplitEventCommand::new(event_index, split_time.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -151,14 +149,14 @@ impl<'a> EventOps<'a> {
     /// Delete a single event by index
     pub fn delete(self, index: usize) -> Result<&'a mut EditorDocument> {
         let command = DeleteEventCommand::new(index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Delete multiple events by indices
     pub fn delete_multiple(self, indices: Vec<usize>) -> Result<&'a mut EditorDocument> {
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/event_toggle_effect.rs b/crates/ass-editor/core/fluent/event_toggle_effect.rs
index 4853697..7149450 100644
--- a/crates/ass-editor/core/fluent/event_toggle_effect.rs
+++ b/crates/ass-editor/core/fluent/event_toggle_effect.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for toggling event types and modifying effects.
 
-use crate::commands::{EditorCommand, EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
+use crate::commands::{EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -36,7 +36,7 @@ impl<'a> EventToggler<'a> {
     /// Execute the toggle
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = ToggleEventTypeCommand::new(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -71,21 +71,21 @@ impl<'a> EventEffector<'a> {
     /// Set the effect (replace existing)
     pub fn set(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::set_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clear all effects
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::clear_effect(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Append to existing effect
     pub fn append(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::append_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -96,7 +96,7 @@ impl<'a> EventEffector<'a> {
             effect.to_string(),
             EffectOperation::Prepend,
         );
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke.rs b/crates/ass-editor/core/fluent/karaoke.rs
index 108e29a..ba6ad49 100644
--- a/crates/ass-editor/core/fluent/karaoke.rs
+++ b/crates/ass-editor/core/fluent/karaoke.rs
@@ -1,7 +1,7 @@
 //! Fluent API for ASS karaoke operations and the karaoke generator builder.
 
 use super::karaoke_builders::{KaraokeAdjuster, KaraokeApplicator, KaraokeSplitter};
-use crate::commands::{EditorCommand, GenerateKaraokeCommand, KaraokeType};
+use crate::commands::{GenerateKaraokeCommand, KaraokeType};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -128,7 +128,7 @@ impl<'a> KaraokeGenerator<'a> {
             command = command.manual_syllables();
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke_builders.rs b/crates/ass-editor/core/fluent/karaoke_builders.rs
index dce4b1e..a041c29 100644
--- a/crates/ass-editor/core/fluent/karaoke_builders.rs
+++ b/crates/ass-editor/core/fluent/karaoke_builders.rs
@@ -5,7 +5,7 @@
 //! sibling [`super::karaoke`] module.
 
 use crate::commands::{
-    AdjustKaraokeCommand, ApplyKaraokeCommand, EditorCommand, KaraokeType, SplitKaraokeCommand,
+    AdjustKaraokeCommand, ApplyKaraokeCommand, KaraokeType, SplitKaraokeCommand,
 };
 use crate::core::{EditorDocument, Range, Result};
 
@@ -36,7 +36,7 @@ impl<'a> KaraokeSplitter<'a> {
             command = command.duration(duration);
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -51,28 +51,28 @@ impl<'a> KaraokeAdjuster<'a> {
     /// Scale timing by factor
     pub fn scale(self, factor: f32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::scale(self.range, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Offset timing by centiseconds
     pub fn offset(self, offset: i32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::offset(self.range, offset);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Set all timing to specific duration
     pub fn set_all(self, duration: u32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::set_all(self.range, duration);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Apply custom timing to each syllable
     pub fn custom(self, timings: Vec<u32>) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::custom(self.range, timings);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -87,7 +87,7 @@ impl<'a> KaraokeApplicator<'a> {
     /// Apply equal timing
     pub fn equal(self, duration: u32, karaoke_type: KaraokeType) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::equal(self.range, duration, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -99,7 +99,7 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::beat(self.range, bpm, beats_per_syllable, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,14 +110,14 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::pattern(self.range, durations, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Import timing from another event
     pub fn import_from(self, source_event_index: usize) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::import_from(self.range, source_event_index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/media.rs b/crates/ass-editor/core/fluent/media.rs
index 5146d46..5d958f9 100644
--- a/crates/ass-editor/core/fluent/media.rs
+++ b/crates/ass-editor/core/fluent/media.rs
@@ -1,8 +1,8 @@
 //! Fluent API for managing embedded fonts and graphics.
 
 use crate::commands::{
-    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, EditorCommand,
-    ListFontsCommand, ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
+    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, ListFontsCommand,
+    ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
 };
 use crate::core::{EditorDocument, Result};
 
@@ -26,21 +26,21 @@ impl<'a> FontsOps<'a> {
     /// Add a font from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a font from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a font by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveFontCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -58,7 +58,7 @@ impl<'a> FontsOps<'a> {
     /// Clear all fonts
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearFontsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -82,21 +82,21 @@ impl<'a> GraphicsOps<'a> {
     /// Add a graphic from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a graphic from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a graphic by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveGraphicCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -114,7 +114,7 @@ impl<'a> GraphicsOps<'a> {
     /// Clear all graphics
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearGraphicsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/script_info.rs b/crates/ass-editor/core/fluent/script_info.rs
index f2688e8..35c5e34 100644
--- a/crates/ass-editor/core/fluent/script_info.rs
+++ b/crates/ass-editor/core/fluent/script_info.rs
@@ -27,7 +27,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Set a script info property
     pub fn set(self, property: &str, value: &str) -> Result<&'a mut EditorDocument> {
         let command = SetScriptInfoCommand::new(property.to_string(), value.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -40,7 +40,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Delete a script info property
     pub fn delete(self, property: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteScriptInfoCommand::new(property.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/style.rs b/crates/ass-editor/core/fluent/style.rs
index d75582b..626c78c 100644
--- a/crates/ass-editor/core/fluent/style.rs
+++ b/crates/ass-editor/core/fluent/style.rs
@@ -2,7 +2,6 @@
 
 use crate::commands::{
     ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteStyleCommand, EditStyleCommand,
-    EditorCommand,
 };
 use crate::core::{EditorDocument, Result, StyleBuilder};
 
@@ -23,7 +22,7 @@ impl<'a> StyleOps<'a> {
     /// Create a new style
     pub fn create(self, name: &str, builder: StyleBuilder) -> Result<&'a mut EditorDocument> {
         let command = CreateStyleCommand::new(name.to_string(), builder);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -35,14 +34,14 @@ impl<'a> StyleOps<'a> {
     /// Delete a style
     pub fn delete(self, name: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteStyleCommand::new(name.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clone a style
     pub fn clone(self, source: &str, target: &str) -> Result<&'a mut EditorDocument> {
         let command = CloneStyleCommand::new(source.to_string(), target.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +108,7 @@ impl<'a> StyleEditor<'a> {
 
     /// Apply the changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
@@ -139,7 +138,7 @@ impl<'a> StyleApplicator<'a> {
 
     /// Apply the style changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/tag.rs b/crates/ass-editor/core/fluent/tag.rs
index c256a58..40f9a95 100644
--- a/crates/ass-editor/core/fluent/tag.rs
+++ b/crates/ass-editor/core/fluent/tag.rs
@@ -1,8 +1,8 @@
 //! Fluent API for ASS tag operations.
 
 use crate::commands::{
-    EditorCommand, InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand,
-    ReplaceTagCommand, WrapTagCommand,
+    InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand, ReplaceTagCommand,
+    WrapTagCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Position, Range, Result};
@@ -48,7 +48,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -59,7 +59,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string()).no_auto_wrap();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -70,7 +70,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -81,7 +81,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range).pattern(pattern.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +109,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string()).all();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -120,7 +120,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag wrapping"))?;
 
         let command = WrapTagCommand::new(range, opening_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -132,7 +132,7 @@ impl<'a> TagOps<'a> {
 
         let command = WrapTagCommand::new(range, opening_tag.to_string())
             .closing_tag(closing_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
-- 
2.43.0


From b5e1b0c4be0073047ec85454bfdb1bd963f02567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 08/69] fix: undo of an edit given inside a multi-byte
 character targets the bytes the edit changed

---
 crates/ass-editor/core/document/editing.rs    | 11 ++++++++++
 .../ass-editor/core/document/editing_raw.rs   | 21 +++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/crates/ass-editor/core/document/editing.rs b/crates/ass-editor/core/document/editing.rs
index 118e123..f5beacf 100644
--- a/crates/ass-editor/core/document/editing.rs
+++ b/crates/ass-editor/core/document/editing.rs
@@ -43,6 +43,7 @@ impl EditorDocument {
         use crate::commands::{EditorCommand, InsertTextCommand};
         use crate::core::history::Operation;
 
+        let pos = self.char_boundary_at(pos);
         let command = InsertTextCommand::new(pos, text.to_string());
         let result = command.execute(self)?;
 
@@ -73,6 +74,11 @@ impl EditorDocument {
         use crate::commands::{DeleteTextCommand, EditorCommand};
         use crate::core::history::Operation;
 
+        let range = Range::new(
+            self.char_boundary_at(range.start),
+            self.char_boundary_at(range.end),
+        );
+
         // Capture the text that will be deleted BEFORE deletion
         let deleted_text = self.text_range(range)?;
 
@@ -105,6 +111,11 @@ impl EditorDocument {
         use crate::commands::{EditorCommand, ReplaceTextCommand};
         use crate::core::history::Operation;
 
+        let range = Range::new(
+            self.char_boundary_at(range.start),
+            self.char_boundary_at(range.end),
+        );
+
         // Capture the old text BEFORE replacement
         let old_text = self.text_range(range)?;
 
diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 44b5bb0..08d881a 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -69,6 +69,27 @@ impl EditorDocument {
         self.insert_raw(range.start, text)?;
         Ok(())
     }
+    /// The start of the character containing `pos`, where edits at `pos` take effect
+    pub(super) fn char_boundary_at(&self, pos: Position) -> Position {
+        if pos.offset > self.len_bytes() {
+            return pos;
+        }
+
+        #[cfg(feature = "rope")]
+        {
+            let char_idx = self.text_rope.byte_to_char(pos.offset);
+            Position::new(self.text_rope.char_to_byte(char_idx))
+        }
+        #[cfg(not(feature = "rope"))]
+        {
+            let mut offset = pos.offset;
+            while !self.text_content.is_char_boundary(offset) {
+                offset -= 1;
+            }
+            Position::new(offset)
+        }
+    }
+
     /// Replace the whole text (low-level operation without undo)
     pub(super) fn restore_text(&mut self, text: &str) {
         #[cfg(feature = "rope")]
-- 
2.43.0


From c9948d50fcea7c27ffd78a33984884d858706b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 09/69] fix: undo of incremental edits and applied deltas
 restores the previous text

---
 .../ass-editor/core/document/delta_apply.rs   |  31 +++--
 crates/ass-editor/core/document/delta_undo.rs | 119 ------------------
 .../core/document/incremental_edit.rs         |  26 ++--
 crates/ass-editor/core/document/mod.rs        |   2 -
 4 files changed, 29 insertions(+), 149 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..4c3f780 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -18,23 +18,22 @@ use alloc::string::ToString;
 impl EditorDocument {
     /// Apply a script delta and record it with undo data
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        use crate::core::history::Operation;
-
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
-
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
-        };
+        // Apply delta, leaving the text as it was if it cannot be applied completely
+        let before = self.text();
+        let was_modified = self.modified;
+        if let Err(e) = self.apply_script_delta_internal(delta) {
+            self.restore_text(&before);
+            self.modified = was_modified;
+            return Err(e);
+        }
 
-        let result = CommandResult::success();
-        self.history
-            .record_operation(operation, "Apply delta".to_string(), &result);
+        // Record what it changed
+        if let Some(operation) = self.replacement_since(&before) {
+            let mut result = CommandResult::success();
+            result.content_changed = true;
+            self.history
+                .record_operation(operation, "Apply delta".to_string(), &result);
+        }
 
         Ok(())
     }
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d0a7f8d..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..2b41500 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,10 +39,11 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
+        let range = Range::new(
+            self.char_boundary_at(range.start),
+            self.char_boundary_at(range.end),
+        );
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
         let current_text = self.text();
@@ -80,13 +81,17 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
+        // Apply the text change
+        self.replace_raw(range, new_text)?;
 
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // The delta does not hold enough to restore the text, so record the replacement
+        let operation = Operation::Replace {
+            range,
+            #[cfg(feature = "std")]
+            old_text: old_text.clone(),
+            #[cfg(not(feature = "std"))]
+            old_text,
+            new_text: new_text.to_string(),
         };
 
         // Create command result
@@ -103,9 +108,6 @@ impl EditorDocument {
             &result_with_delta,
         );
 
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
-
         // Mark as modified
         self.modified = true;
 
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..7fe26bd 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -24,8 +24,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
-- 
2.43.0


From aed1a35f71ca13ed3465f4fbdb88bcb972c05c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 10/69] fix: every text change drops the cached validation
 result

---
 crates/ass-editor/core/document/editing_raw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 08d881a..026e1af 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -33,6 +33,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
@@ -60,6 +61,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
-- 
2.43.0


From b2b7a862dee83d67885d8260f9030c0da6ed4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 11/69] fix: commands, deltas, undo, redo and small incremental
 edits announce the change they make

---
 .../ass-editor/core/document/constructors.rs  | 19 +++++++++++++++++++
 .../ass-editor/core/document/delta_apply.rs   |  2 ++
 .../core/document/incremental_fast.rs         | 13 ++++++++++++-
 crates/ass-editor/core/document/undo_redo.rs  | 17 +++++++++++++++++
 crates/ass-editor/core/document/validation.rs | 10 +++++++++-
 5 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/core/document/constructors.rs b/crates/ass-editor/core/document/constructors.rs
index e47a580..04e68ed 100644
--- a/crates/ass-editor/core/document/constructors.rs
+++ b/crates/ass-editor/core/document/constructors.rs
@@ -8,6 +8,8 @@ use super::EditorDocument;
 #[cfg(feature = "std")]
 use super::EventSender;
 use crate::core::errors::{EditorError, Result};
+#[cfg(feature = "std")]
+use crate::core::history::Operation;
 use crate::core::history::UndoManager;
 use ass_core::parser::Script;
 
@@ -95,6 +97,23 @@ impl EditorDocument {
         }
     }
 
+    /// Announce a replacement that was computed from the text before and after
+    #[cfg(feature = "std")]
+    pub(super) fn emit_replacement(&mut self, operation: &Operation) {
+        if let Operation::Replace {
+            range,
+            old_text,
+            new_text,
+        } = operation
+        {
+            self.emit(DocumentEvent::TextReplaced {
+                range: *range,
+                old_text: old_text.clone(),
+                new_text: new_text.clone(),
+            });
+        }
+    }
+
     /// Set the event channel for this document
     #[cfg(feature = "std")]
     pub fn set_event_channel(&mut self, event_tx: EventSender) {
diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index 4c3f780..5fc0e41 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -31,6 +31,8 @@ impl EditorDocument {
         if let Some(operation) = self.replacement_since(&before) {
             let mut result = CommandResult::success();
             result.content_changed = true;
+            #[cfg(feature = "std")]
+            self.emit_replacement(&operation);
             self.history
                 .record_operation(operation, "Apply delta".to_string(), &result);
         }
diff --git a/crates/ass-editor/core/document/incremental_fast.rs b/crates/ass-editor/core/document/incremental_fast.rs
index bcb1df5..ca78348 100644
--- a/crates/ass-editor/core/document/incremental_fast.rs
+++ b/crates/ass-editor/core/document/incremental_fast.rs
@@ -10,6 +10,9 @@ use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::script::ScriptDeltaOwned;
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     string::{String, ToString},
@@ -46,7 +49,7 @@ impl EditorDocument {
         let operation = Operation::Replace {
             range,
             new_text: new_text.to_string(),
-            old_text,
+            old_text: old_text.clone(),
         };
 
         // Create result
@@ -62,6 +65,14 @@ impl EditorDocument {
         // Mark as modified
         self.modified = true;
 
+        // Emit event
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text: new_text.to_string(),
+        });
+
         // Return minimal delta
         Ok(ScriptDeltaOwned {
             added: Vec::new(),
diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index e21643d..23f166e 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -10,6 +10,9 @@ use crate::core::errors::{EditorError, Result};
 use crate::core::history::UndoManager;
 use crate::core::position::{Position, Range};
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
 
@@ -79,6 +82,13 @@ impl EditorDocument {
                 }
             }
 
+            // Emit event
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::UndoPerformed {
+                action_description: entry.description.clone(),
+                changes_count: 1,
+            });
+
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
@@ -142,6 +152,13 @@ impl EditorDocument {
                 }
             }
 
+            // Emit event
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::RedoPerformed {
+                action_description: entry.description.clone(),
+                changes_count: 1,
+            });
+
             // Record in history without using the public methods (to avoid recursion)
             // We need to manually update the history manager's cursor
             if let Some(cursor) = result.new_cursor {
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index 9cde994..47a7a97 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -51,10 +51,16 @@ impl EditorDocument {
         let was_modified = self.modified;
 
         // Edits the command makes through the document belong to this one undo step,
-        // so keep them out of the real history while the command runs
+        // so keep them out of the real history and events while the command runs
         let history = core::mem::replace(&mut self.history, UndoManager::new());
         self.history.set_cursor(history.cursor_position());
+        #[cfg(feature = "std")]
+        let event_tx = self.event_tx.take();
         let outcome = command.execute(self);
+        #[cfg(feature = "std")]
+        {
+            self.event_tx = event_tx;
+        }
         self.history = history;
 
         let mut result = match outcome {
@@ -72,6 +78,8 @@ impl EditorDocument {
         // Record what actually changed in the text
         if let Some(operation) = self.replacement_since(&before) {
             result.content_changed = true;
+            #[cfg(feature = "std")]
+            self.emit_replacement(&operation);
             self.history
                 .record_operation(operation, command.description().to_string(), &result);
 
-- 
2.43.0


From 741516bfcc7b55b2ef476302a72be2ef9d8af8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 12/69] fix: commands run through a shared document are
 undoable and atomic

---
 crates/ass-editor/core/thread_safety/sync_document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index 48da221..cc0b037 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -79,7 +79,7 @@ impl SyncDocument {
 
         // Now execute the command with write access
         let mut doc = self.write()?;
-        command.execute(&mut doc)
+        doc.execute_command(&command)
     }
 
     /// Try to get a read-only reference without blocking
-- 
2.43.0


From d4e0b69683bf1c6f8cf4d3ee5ba5fe8ca1e482af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 13/69] fix: document IDs stay unique when the clock repeats

---
 crates/ass-editor/core/document/constructors.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/document/constructors.rs b/crates/ass-editor/core/document/constructors.rs
index 04e68ed..c511902 100644
--- a/crates/ass-editor/core/document/constructors.rs
+++ b/crates/ass-editor/core/document/constructors.rs
@@ -189,12 +189,17 @@ impl EditorDocument {
         // Simple ID generation - in production might use UUID
         #[cfg(feature = "std")]
         {
+            use std::sync::atomic::{AtomicU64, Ordering};
             use std::time::{SystemTime, UNIX_EPOCH};
+
+            // The clock can repeat or step back, so it cannot make the ID unique by itself
+            static NEXT_SEQUENCE: AtomicU64 = AtomicU64::new(0);
+            let sequence = NEXT_SEQUENCE.fetch_add(1, Ordering::Relaxed);
             let timestamp = SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap_or_default()
                 .as_nanos();
-            format!("doc_{timestamp}")
+            format!("doc_{timestamp}_{sequence}")
         }
         #[cfg(not(feature = "std"))]
         {
-- 
2.43.0


From c9d754ad68521d50ba36952a9981459f543694ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 14/69] fix: the incremental parser resynchronises with a
 document edited behind its back

---
 crates/ass-editor/core/incremental/apply.rs | 29 +++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..8a64dc2 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -7,7 +7,7 @@
 use super::{DocumentChange, IncrementalParser};
 use crate::core::errors::EditorError;
 use crate::core::{Range, Result};
-use ass_core::parser::{script::ScriptDeltaOwned, Script};
+use ass_core::parser::{build_modified_source, script::ScriptDeltaOwned, Script};
 
 #[cfg(feature = "std")]
 use std::borrow::Cow;
@@ -23,11 +23,6 @@ impl IncrementalParser {
         range: Range,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        // If we don't have a cached script or too many changes accumulated, do full parse
-        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
-            return self.full_reparse(document_text);
-        }
-
         // Validate range
         if range.end.offset > document_text.len() || range.start.offset > range.end.offset {
             return Err(EditorError::InvalidRange {
@@ -53,6 +48,24 @@ impl IncrementalParser {
             ));
         }
 
+        // The document may have been edited without going through this parser
+        if self
+            .cached_script
+            .as_ref()
+            .is_some_and(|cached| cached != document_text)
+        {
+            self.cached_script = Some(document_text.to_string());
+        }
+
+        // If we don't have a cached script or too many changes accumulated, do full parse
+        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
+            return self.full_reparse(&build_modified_source(
+                document_text,
+                range.start.offset..range.end.offset,
+                new_text,
+            ));
+        }
+
         // Get the old text being replaced
         let old_text = &document_text[range.start.offset..range.end.offset];
         let (start_byte, end_byte) = (range.start.offset, range.end.offset);
@@ -86,7 +99,7 @@ impl IncrementalParser {
         let script = Script::parse(cached).map_err(EditorError::from)?;
 
         // Apply incremental parsing
-        match script.parse_partial(byte_range, new_text) {
+        match script.parse_partial(byte_range.clone(), new_text) {
             Ok(delta) => {
                 // Update cached script with the change
                 self.update_cached_script(range, new_text)?;
@@ -101,7 +114,7 @@ impl IncrementalParser {
                 #[cfg(feature = "std")]
                 eprintln!("Incremental parse failed, falling back to full parse: {_e}");
 
-                self.full_reparse(document_text)
+                self.full_reparse(&build_modified_source(document_text, byte_range, new_text))
             }
         }
     }
-- 
2.43.0


From d9e7a9b77b80e09009e1bd64c9df62aecba58425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 15/69] fix: analysing text with an unclosed block or a
 multi-byte character after a backslash no longer panics

---
 crates/ass-core/analysis/events/tags/parser.rs      |  2 +-
 .../analysis/events/tags/registry_parser.rs         |  2 +-
 .../analysis/events/text_analysis/parser.rs         | 13 ++++++++++---
 .../analysis/linting/rules/invalid_color/rule.rs    |  2 +-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..4e6ee16 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,7 +138,7 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |ch| ch.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..c7a90e4 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,7 +132,7 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |ch| ch.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..09dd34c 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -56,8 +56,15 @@ impl<'a> TextAnalysis<'a> {
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // An unclosed block runs to the end of the text
+                let tag_end = if brace_count == 0 {
+                    position
+                } else {
+                    text.len()
+                };
+
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +96,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..text.len().min(tag_start + 1)],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..f27f427 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -157,7 +157,7 @@ impl InvalidColorRule {
         }
 
         if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
+            let first_char = tag_part.get(..1)?;
             if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
                 let color_part = tag_part[1..].strip_prefix("c&H")?;
                 let color_end = color_part.find('&')?;
-- 
2.43.0


From f9c12ace831d63d815b1eb03564c0ded3e7f3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 16/69] fix: event commands skip blank lines, stay aligned
 after an edit and keep commas in the text

---
 .../ass-editor/commands/event_commands/batch_delete.rs   | 5 ++++-
 crates/ass-editor/commands/event_commands/delete.rs      | 5 ++++-
 crates/ass-editor/commands/event_commands/effect_exec.rs | 7 +++++--
 crates/ass-editor/commands/event_commands/helpers.rs     | 9 ++++-----
 crates/ass-editor/commands/event_commands/merge.rs       | 4 +++-
 crates/ass-editor/commands/event_commands/split.rs       | 4 +++-
 crates/ass-editor/commands/event_commands/timing.rs      | 7 +++++--
 crates/ass-editor/commands/event_commands/toggle.rs      | 7 +++++--
 8 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..6884e8a 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -68,11 +68,14 @@ impl EditorCommand for BatchDeleteEventsCommand {
                 break;
             }
 
-            let line = &content[event_start..line_end.saturating_sub(1)];
+            let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 event_positions.push((current_index, event_start, line_end));
                 current_index += 1;
+            } else if line.starts_with('[') {
+                // Stop at next section
+                break;
             }
 
             event_start = line_end;
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..5d1f357 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -56,7 +56,7 @@ impl EditorCommand for DeleteEventCommand {
                 break;
             }
 
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
+            let line = &content[event_start..line_end];
 
             if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
                 if current_index == self.event_index {
@@ -67,6 +67,9 @@ impl EditorCommand for DeleteEventCommand {
                     break;
                 }
                 current_index += 1;
+            } else if line.starts_with('[') {
+                // Stop at next section
+                break;
             }
 
             event_start = line_end;
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..01f416e 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -35,13 +35,15 @@ impl EditorCommand for EventEffectCommand {
         let mut total_range: Option<Range> = None;
 
         while event_start < content.len() {
-            let line_end = content[event_start..]
+            let mut line_end = content[event_start..]
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
 
             if event_start >= line_end {
-                break;
+                // Blank line between events
+                event_start = line_end + 1;
+                continue;
             }
 
             let line = &content[event_start..line_end];
@@ -98,6 +100,7 @@ impl EditorCommand for EventEffectCommand {
 
                         // Update content for next iteration
                         content = document.text();
+                        line_end = event_start + new_line.len();
 
                         // Track overall range
                         let change_range = Range::new(
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index fc15202..78219fa 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -54,15 +54,14 @@ pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, Ed
     let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
     let remaining = &fields_part[prefix_len..];
 
-    // Find the last comma that's not inside parentheses
+    // Find the first comma that's not inside parentheses: the text may contain commas
     let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
     let mut paren_depth = 0;
 
-    for (i, &ch) in chars.iter().enumerate().rev() {
+    for (i, ch) in remaining.char_indices() {
         match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
+            '(' => paren_depth += 1,
+            ')' => paren_depth -= 1,
             ',' if paren_depth == 0 => {
                 split_point = Some(i);
                 break;
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..adc3b27 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -82,7 +82,9 @@ impl EditorCommand for MergeEventsCommand {
                 .unwrap_or(content.len());
 
             if event_start >= line_end {
-                break;
+                // Blank line between events
+                event_start = line_end + 1;
+                continue;
             }
 
             let line = &content[event_start..line_end];
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..00b6d35 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -70,7 +70,9 @@ impl EditorCommand for SplitEventCommand {
                 .unwrap_or(content.len());
 
             if event_start >= line_end {
-                break;
+                // Blank line between events
+                event_start = line_end + 1;
+                continue;
             }
 
             let line = &content[event_start..line_end];
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..9ad26b3 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -91,13 +91,15 @@ impl EditorCommand for TimingAdjustCommand {
         let mut total_range: Option<Range> = None;
 
         while event_start < content.len() {
-            let line_end = content[event_start..]
+            let mut line_end = content[event_start..]
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
 
             if event_start >= line_end {
-                break;
+                // Blank line between events
+                event_start = line_end + 1;
+                continue;
             }
 
             let line = &content[event_start..line_end];
@@ -152,6 +154,7 @@ impl EditorCommand for TimingAdjustCommand {
 
                             // Update content for next iteration
                             content = document.text();
+                            line_end = event_start + new_line.len();
 
                             // Track overall range
                             let change_range = Range::new(
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 138b726..084f4b4 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -68,13 +68,15 @@ impl EditorCommand for ToggleEventTypeCommand {
         let mut total_range: Option<Range> = None;
 
         while event_start < content.len() {
-            let line_end = content[event_start..]
+            let mut line_end = content[event_start..]
                 .find('\n')
                 .map(|pos| event_start + pos)
                 .unwrap_or(content.len());
 
             if event_start >= line_end {
-                break;
+                // Blank line between events
+                event_start = line_end + 1;
+                continue;
             }
 
             let line = &content[event_start..line_end];
@@ -95,6 +97,7 @@ impl EditorCommand for ToggleEventTypeCommand {
 
                     // Update content for next iteration
                     content = document.text();
+                    line_end = event_start + new_line.len();
 
                     // Track overall range
                     let change_range = Range::new(
-- 
2.43.0


From 815c36e63fc1a3f2aa22828fab91b9b80d480fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 17/69] fix: applying a style changes only the style field

---
 crates/ass-editor/commands/style_commands/apply.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index 730481f..a11d221 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -75,13 +75,15 @@ impl EditorCommand for ApplyStyleCommand {
         while search_pos < content.len() {
             // Find next event line
             let line_start = search_pos;
-            let line_end = content[line_start..]
+            let mut line_end = content[line_start..]
                 .find('\n')
                 .map(|pos| line_start + pos)
                 .unwrap_or(content.len());
 
             if line_start >= line_end {
-                break;
+                // Blank line between events
+                search_pos = line_end + 1;
+                continue;
             }
 
             let line = &content[line_start..line_end];
@@ -101,10 +103,9 @@ impl EditorCommand for ApplyStyleCommand {
 
                     if should_update {
                         // Replace the old style with new style
-                        let updated_line = line.replace(
-                            &format!(",{},", self.old_style),
-                            &format!(",{},", self.new_style),
-                        );
+                        let mut fields: Vec<&str> = line.splitn(5, ',').collect();
+                        fields[3] = &self.new_style;
+                        let updated_line = fields.join(",");
 
                         // Update the document
                         let range = Range::new(Position::new(line_start), Position::new(line_end));
@@ -112,6 +113,7 @@ impl EditorCommand for ApplyStyleCommand {
 
                         // Update content for next iteration (this is inefficient but correct)
                         content = document.text();
+                        line_end = line_start + updated_line.len();
 
                         // Track overall range
                         let change_range = Range::new(
-- 
2.43.0


From 175c1e5ad42dcbe6067428ea5ef640dc4d969ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 18/69] fix: tag, karaoke and selection operations accept any
 range and pattern

---
 crates/ass-editor/commands/karaoke_commands/split.rs |  2 +-
 crates/ass-editor/commands/tag_commands/remove.rs    |  2 +-
 crates/ass-editor/core/fluent/selection.rs           | 12 +++++-------
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 61b6c94..58ddfe4 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -66,7 +66,7 @@ impl SplitKaraokeCommand {
         let mut last_pos = 0;
 
         for &pos in &self.split_positions {
-            if pos <= last_pos || pos >= text.len() {
+            if pos <= last_pos || !text.is_char_boundary(pos) || pos >= text.len() {
                 continue;
             }
 
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..c97d86e 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -128,7 +128,7 @@ impl RemoveTagCommand {
 
             // Process tags from ass-core parser
             for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
+                let pattern_without_backslash = pattern.strip_prefix('\\').unwrap_or(pattern);
                 if !tag.name().starts_with(pattern_without_backslash) {
                     // This tag should be kept - track its position
                     processed_positions.push((tag.position(), tag.name(), tag.args()));
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index 45b82bd..bcbe013 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -38,14 +38,10 @@ impl<'a> SelectRange<'a> {
     /// Wrap the selection with ASS tags
     pub fn wrap_with_tag(self, open_tag: &str, close_tag: &str) -> Result<&'a mut EditorDocument> {
         // Get the selected text
-        let selected = self
-            .document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset);
-        let mut wrapped =
-            String::with_capacity(open_tag.len() + selected.len_bytes() + close_tag.len());
+        let selected = self.document.text_range(self.range)?;
+        let mut wrapped = String::with_capacity(open_tag.len() + selected.len() + close_tag.len());
         wrapped.push_str(open_tag);
-        wrapped.push_str(&selected.to_string());
+        wrapped.push_str(&selected);
         wrapped.push_str(close_tag);
 
         self.document.replace(self.range, &wrapped)?;
@@ -56,6 +52,7 @@ impl<'a> SelectRange<'a> {
     #[cfg(feature = "rope")]
     pub fn indent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
         // Get line information before mutating
+        self.document.text_range(self.range)?;
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
         let indent = " ".repeat(spaces);
@@ -81,6 +78,7 @@ impl<'a> SelectRange<'a> {
     #[cfg(feature = "rope")]
     pub fn unindent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
         // Get line information before mutating
+        self.document.text_range(self.range)?;
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
 
-- 
2.43.0


From 3cc93713a6fb991aad873ceebcfbdc4ecee1eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 19/69] fix: extension code may use its context while the
 manager runs it

The manager stayed locked while it ran an extension's initialize, shutdown and
command code, so any use of the context deadlocked, as in both built-in
extensions. Each extension now has its own lock. Loading checks dependencies
and inserts in one step, and initialising or unloading an extension that is not
loaded no longer leaves a state behind that satisfies dependencies.
---
 crates/ass-editor/extensions/manager.rs       |  38 +++++-
 .../ass-editor/extensions/manager_access.rs   |  15 ++-
 .../ass-editor/extensions/manager_loading.rs  | 117 ++++++++----------
 3 files changed, 98 insertions(+), 72 deletions(-)

diff --git a/crates/ass-editor/extensions/manager.rs b/crates/ass-editor/extensions/manager.rs
index ebc50b5..a4db603 100644
--- a/crates/ass-editor/extensions/manager.rs
+++ b/crates/ass-editor/extensions/manager.rs
@@ -40,11 +40,19 @@ pub type EventSender = Sender<DocumentEvent>;
 #[cfg(not(feature = "std"))]
 pub type EventSender = (); // No-op for no_std environments
 
+/// A loaded extension, locked on its own so that its code can call back into the manager
+#[cfg(feature = "multi-thread")]
+pub(super) type SharedExtension = Arc<Mutex<Box<dyn EditorExtension>>>;
+
+/// A loaded extension, borrowed on its own so that its code can call back into the manager
+#[cfg(not(feature = "multi-thread"))]
+pub(super) type SharedExtension = alloc::rc::Rc<RefCell<Box<dyn EditorExtension>>>;
+
 /// Extension manager for loading and managing extensions
 /// Internal storage for ExtensionManager data
 pub(super) struct ExtensionManagerInner {
     /// Loaded extensions
-    pub(super) extensions: HashMap<String, Box<dyn EditorExtension>>,
+    pub(super) extensions: HashMap<String, SharedExtension>,
 
     /// Extension states
     pub(super) extension_states: HashMap<String, ExtensionState>,
@@ -156,6 +164,34 @@ impl ExtensionManager {
         let inner = self.inner.borrow();
         f(&inner)
     }
+
+    /// Run `f` on a loaded extension without keeping the manager locked
+    ///
+    /// Returns `None` when no such extension is loaded.
+    pub(super) fn with_extension<F, R>(&self, extension_name: &str, f: F) -> Option<R>
+    where
+        F: FnOnce(&mut dyn EditorExtension) -> R,
+    {
+        let extension = self.with_inner(|inner| {
+            inner
+                .extensions
+                .get(extension_name)
+                .map(SharedExtension::clone)
+        })?;
+        #[cfg(feature = "multi-thread")]
+        let mut guard = extension.lock();
+        #[cfg(not(feature = "multi-thread"))]
+        let mut guard = extension.borrow_mut();
+
+        // It may have been unloaded while we waited for our turn.
+        let loaded = self.with_inner(|inner| {
+            inner
+                .extensions
+                .get(extension_name)
+                .is_some_and(|current| SharedExtension::ptr_eq(current, &extension))
+        });
+        loaded.then(|| f(&mut **guard))
+    }
 }
 
 impl Default for ExtensionManager {
diff --git a/crates/ass-editor/extensions/manager_access.rs b/crates/ass-editor/extensions/manager_access.rs
index 5c69fe3..41cef2e 100644
--- a/crates/ass-editor/extensions/manager_access.rs
+++ b/crates/ass-editor/extensions/manager_access.rs
@@ -32,14 +32,13 @@ impl ExtensionManager {
                 message: format!("Command '{command_id}' not found"),
             })?;
 
-        self.with_inner_mut(|inner| {
-            if let Some(extension) = inner.extensions.get_mut(&extension_name) {
-                extension.execute_command(command_id, args, context)
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
-            }
+        self.with_extension(&extension_name, |extension| {
+            extension.execute_command(command_id, args, context)
+        })
+        .unwrap_or_else(|| {
+            Err(crate::core::EditorError::CommandFailed {
+                message: format!("Extension '{extension_name}' not found"),
+            })
         })
     }
 
diff --git a/crates/ass-editor/extensions/manager_loading.rs b/crates/ass-editor/extensions/manager_loading.rs
index 2dd6d56..237102a 100644
--- a/crates/ass-editor/extensions/manager_loading.rs
+++ b/crates/ass-editor/extensions/manager_loading.rs
@@ -8,7 +8,7 @@ use crate::core::Result;
 use super::command::ExtensionState;
 use super::context::ExtensionContext;
 use super::extension::EditorExtension;
-use super::manager::ExtensionManager;
+use super::manager::{ExtensionManager, SharedExtension};
 
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, format, string::ToString};
@@ -19,20 +19,22 @@ impl ExtensionManager {
         let extension_name = extension.info().name.clone();
         let dependencies = extension.info().dependencies.clone();
 
-        // Check for dependency conflicts
-        let has_deps = self.with_inner(|inner| {
-            dependencies
+        #[cfg(feature = "multi-thread")]
+        let extension = SharedExtension::new(parking_lot::Mutex::new(extension));
+        #[cfg(not(feature = "multi-thread"))]
+        let extension = SharedExtension::new(core::cell::RefCell::new(extension));
+
+        self.with_inner_mut(|inner| {
+            // Check for dependency conflicts
+            if !dependencies
                 .iter()
                 .all(|dep| inner.extension_states.contains_key(dep))
-        });
-
-        if !has_deps {
-            return Err(crate::core::EditorError::CommandFailed {
-                message: format!("Extension '{extension_name}' has unmet dependencies"),
-            });
-        }
+            {
+                return Err(crate::core::EditorError::CommandFailed {
+                    message: format!("Extension '{extension_name}' has unmet dependencies"),
+                });
+            }
 
-        self.with_inner_mut(|inner| {
             if inner.extensions.contains_key(&extension_name) {
                 return Err(crate::core::EditorError::CommandFailed {
                     message: format!("Extension '{extension_name}' is already loaded"),
@@ -53,40 +55,38 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::Initializing);
+        self.with_extension(extension_name, |extension| {
+            self.set_state(extension_name, ExtensionState::Initializing);
 
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                match extension.initialize(context) {
-                    Ok(()) => {
+            match extension.initialize(context) {
+                Ok(()) => {
+                    let commands = extension.commands();
+                    self.with_inner_mut(|inner| {
                         inner
                             .extension_states
                             .insert(extension_name.to_string(), ExtensionState::Active);
 
                         // Register commands
-                        for command in extension.commands() {
+                        for command in commands {
                             inner
                                 .commands
                                 .insert(command.id.clone(), (extension_name.to_string(), command));
                         }
+                    });
 
-                        Ok(())
-                    }
-                    Err(e) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Error);
-                        Err(e)
-                    }
+                    Ok(())
+                }
+                Err(e) => {
+                    self.set_state(extension_name, ExtensionState::Error);
+                    Err(e)
                 }
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
             }
         })
+        .unwrap_or_else(|| {
+            Err(crate::core::EditorError::CommandFailed {
+                message: format!("Extension '{extension_name}' not found"),
+            })
+        })
     }
 
     /// Unload an extension
@@ -95,44 +95,35 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        // Shutdown the extension first
-        self.shutdown_extension(extension_name, context)?;
-
-        self.with_inner_mut(|inner| {
-            // Remove the extension
-            inner.extensions.remove(extension_name);
-            inner.extension_states.remove(extension_name);
+        self.with_extension(extension_name, |extension| {
+            // Shutdown the extension first
+            self.set_state(extension_name, ExtensionState::ShuttingDown);
+            extension.shutdown(context)?;
 
-            // Remove commands
-            inner
-                .commands
-                .retain(|_, (ext_name, _)| ext_name != extension_name);
+            self.with_inner_mut(|inner| {
+                // Remove the extension
+                inner.extensions.remove(extension_name);
+                inner.extension_states.remove(extension_name);
 
-            // Remove extension data
-            inner.extension_data.remove(extension_name);
-        });
+                // Remove commands
+                inner
+                    .commands
+                    .retain(|_, (ext_name, _)| ext_name != extension_name);
 
-        Ok(())
+                // Remove extension data
+                inner.extension_data.remove(extension_name);
+            });
+            Ok(())
+        })
+        .unwrap_or(Ok(()))
     }
 
-    /// Shutdown an extension
-    fn shutdown_extension(
-        &mut self,
-        extension_name: &str,
-        context: &mut dyn ExtensionContext,
-    ) -> Result<()> {
+    /// Record the lifecycle state of a loaded extension
+    fn set_state(&self, extension_name: &str, state: ExtensionState) {
         self.with_inner_mut(|inner| {
             inner
                 .extension_states
-                .insert(extension_name.to_string(), ExtensionState::ShuttingDown);
-
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                extension.shutdown(context)?;
-                inner
-                    .extension_states
-                    .insert(extension_name.to_string(), ExtensionState::Shutdown);
-            }
-            Ok(())
-        })
+                .insert(extension_name.to_string(), state);
+        });
     }
 }
-- 
2.43.0


From d63e31e4908bf5295b04b5fce1436fff916d16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 20/69] fix: find the style line by its exact name in the
 styles section

---
 .../commands/style_commands/clone.rs          | 23 ++++--------------
 .../commands/style_commands/delete.rs         | 15 ++++--------
 .../commands/style_commands/edit.rs           | 14 ++---------
 .../commands/style_commands/helpers.rs        | 24 +++++++++++++++++++
 .../ass-editor/commands/style_commands/mod.rs |  1 +
 .../ass-editor/core/document/section_lines.rs |  6 ++---
 6 files changed, 38 insertions(+), 45 deletions(-)
 create mode 100644 crates/ass-editor/commands/style_commands/helpers.rs

diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index c62524f..0b301e0 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -3,6 +3,7 @@
 //! Provides [`CloneStyleCommand`] to duplicate an existing style under a new
 //! name, inserting the clone after the source style line.
 
+use super::helpers::find_style_line;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -38,35 +39,21 @@ impl CloneStyleCommand {
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let source_pattern = format!("Style: {}", self.source_style);
 
         // Check if target style already exists
-        let target_pattern = format!("Style: {}", self.target_style);
-        if content.contains(&target_pattern) {
+        if find_style_line(&content, &self.target_style).is_some() {
             return Err(EditorError::command_failed(format!(
                 "Style '{}' already exists",
                 self.target_style
             )));
         }
 
-        if let Some(source_start) = content.find(&source_pattern) {
-            // Find the complete source style line
-            let line_start = content[..source_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[source_start..]
-                .find('\n')
-                .map(|pos| source_start + pos)
-                .unwrap_or(content.len());
-
+        if let Some((line_start, line_end)) = find_style_line(&content, &self.source_style) {
             let source_line = &content[line_start..line_end];
 
             // Replace the style name in the cloned line
-            let cloned_line = source_line.replace(
-                &format!("Style: {}", self.source_style),
-                &format!("Style: {}", self.target_style),
-            );
+            let fields = source_line.find(',').unwrap_or(source_line.len());
+            let cloned_line = format!("Style: {}{}", self.target_style, &source_line[fields..]);
 
             // Find where to insert the new style (after the source style)
             let insert_pos = line_end;
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index 2d92380..ff7fadf 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -3,6 +3,7 @@
 //! Provides [`DeleteStyleCommand`] to remove a named style line from the
 //! styles section.
 
+use super::helpers::find_style_line;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -36,18 +37,10 @@ impl DeleteStyleCommand {
 impl EditorCommand for DeleteStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
 
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the complete line including the newline
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos + 1) // Include the newline
-                .unwrap_or(content.len());
+        if let Some((line_start, line_end)) = find_style_line(&content, &self.style_name) {
+            // Delete the complete line including the newline
+            let line_end = (line_end + 1).min(content.len());
 
             let range = Range::new(Position::new(line_start), Position::new(line_end));
             document.delete(range)?;
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..f063de6 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -3,6 +3,7 @@
 //! Provides [`EditStyleCommand`] to update individual fields of an existing
 //! style, mapping field names to columns via the section format line.
 
+use super::helpers::find_style_line;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -84,19 +85,8 @@ impl EditStyleCommand {
 impl EditorCommand for EditStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the end of the style line
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos)
-                .unwrap_or(content.len());
 
+        if let Some((line_start, line_end)) = find_style_line(&content, &self.style_name) {
             let style_line = &content[line_start..line_end];
             let fields: Vec<&str> = style_line.split(',').collect();
 
diff --git a/crates/ass-editor/commands/style_commands/helpers.rs b/crates/ass-editor/commands/style_commands/helpers.rs
new file mode 100644
index 0000000..3190dfc
--- /dev/null
+++ b/crates/ass-editor/commands/style_commands/helpers.rs
@@ -0,0 +1,24 @@
+//! Locating style lines in the text of a document.
+
+/// Byte range of the line that defines the style with exactly this name
+///
+/// Only lines of a styles section are considered; the range excludes the line break.
+pub(crate) fn find_style_line(content: &str, name: &str) -> Option<(usize, usize)> {
+    let mut in_styles = false;
+    let mut line_start = 0;
+
+    for line in content.split('\n') {
+        if line.trim_start().starts_with('[') {
+            in_styles = line.trim().ends_with("Styles]");
+        } else if in_styles {
+            if let Some(data) = line.trim_start().strip_prefix("Style:") {
+                if data.split(',').next().unwrap_or("").trim() == name {
+                    return Some((line_start, line_start + line.len()));
+                }
+            }
+        }
+        line_start += line.len() + 1;
+    }
+
+    None
+}
diff --git a/crates/ass-editor/commands/style_commands/mod.rs b/crates/ass-editor/commands/style_commands/mod.rs
index 73b3ebc..f164429 100644
--- a/crates/ass-editor/commands/style_commands/mod.rs
+++ b/crates/ass-editor/commands/style_commands/mod.rs
@@ -8,6 +8,7 @@ mod clone;
 mod create;
 mod delete;
 mod edit;
+pub(crate) mod helpers;
 
 #[cfg(test)]
 mod tests;
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..185ac2e 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -4,6 +4,7 @@
 //! relevant section (with a default format line) when it does not yet exist.
 
 use super::EditorDocument;
+use crate::commands::style_commands::helpers::find_style_line;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 
@@ -32,11 +33,8 @@ impl EditorDocument {
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
         let content = self.text();
-        let pattern = format!("Style: {style_name},");
 
-        if let Some(pos) = content.find(&pattern) {
-            // Find end of line
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
+        if let Some((pos, line_end)) = find_style_line(&content, style_name) {
             let range = Range::new(Position::new(pos), Position::new(line_end));
             self.replace(range, new_style_line)
         } else {
-- 
2.43.0


From 9bd9d3ce57f6e106f352aeb56141b39971f8d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 21/69] fix: find script info properties by their exact name

---
 .../commands/script_info_commands/delete.rs   | 11 ++++------
 .../commands/script_info_commands/get.rs      | 19 +++++++-----------
 .../commands/script_info_commands/helpers.rs  | 20 +++++++++++++++++++
 .../commands/script_info_commands/mod.rs      |  1 +
 .../commands/script_info_commands/set.rs      | 12 ++++-------
 crates/ass-editor/core/document/ass_api.rs    | 16 +++++++++------
 6 files changed, 46 insertions(+), 33 deletions(-)
 create mode 100644 crates/ass-editor/commands/script_info_commands/helpers.rs

diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index a186915..8a7d567 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -1,5 +1,6 @@
 //! Command to remove a property from the `[Script Info]` section.
 
+use super::helpers::find_property_line;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -42,15 +43,11 @@ impl EditorCommand for DeleteScriptInfoCommand {
             .unwrap_or(content.len());
 
         // Look for the property
-        let property_pattern = format!("{}: ", self.property);
         let search_range = &content[script_info_start..script_info_end];
 
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let absolute_pos = script_info_start + prop_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos + 1) // Include newline
-                .unwrap_or(content.len());
+        if let Some((start, end)) = find_property_line(search_range, &self.property) {
+            let absolute_pos = script_info_start + start;
+            let line_end = (script_info_start + end + 1).min(content.len()); // Include newline
 
             let range = Range::new(Position::new(absolute_pos), Position::new(line_end));
             document.delete(range)?;
diff --git a/crates/ass-editor/commands/script_info_commands/get.rs b/crates/ass-editor/commands/script_info_commands/get.rs
index 2cfb007..37e900b 100644
--- a/crates/ass-editor/commands/script_info_commands/get.rs
+++ b/crates/ass-editor/commands/script_info_commands/get.rs
@@ -1,5 +1,6 @@
 //! Read commands for retrieving `[Script Info]` properties.
 
+use super::helpers::find_property_line;
 use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
@@ -41,18 +42,12 @@ impl GetScriptInfoCommand {
             .unwrap_or(content.len());
 
         // Look for the property
-        let property_pattern = format!("{}: ", self.property);
         let search_range = &content[script_info_start..script_info_end];
 
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let value_start = prop_pos + property_pattern.len();
-            let value_end = search_range[value_start..]
-                .find('\n')
-                .map(|pos| value_start + pos)
-                .unwrap_or(search_range.len());
-
-            let value = search_range[value_start..value_end].trim().to_string();
-            Ok(Some(value))
+        if let Some((start, end)) = find_property_line(search_range, &self.property) {
+            let line = &search_range[start..end];
+            let value = line.split_once(':').map_or("", |(_, value)| value.trim());
+            Ok(Some(value.to_string()))
         } else {
             Ok(None)
         }
@@ -91,8 +86,8 @@ impl GetAllScriptInfoCommand {
         let mut properties = Vec::new();
 
         for line in search_range.lines() {
-            // Skip the section header and empty lines
-            if line.starts_with('[') || line.trim().is_empty() {
+            // Skip the section header, comments and empty lines
+            if line.starts_with(['[', ';', '#']) || line.trim().is_empty() {
                 continue;
             }
 
diff --git a/crates/ass-editor/commands/script_info_commands/helpers.rs b/crates/ass-editor/commands/script_info_commands/helpers.rs
new file mode 100644
index 0000000..089dd65
--- /dev/null
+++ b/crates/ass-editor/commands/script_info_commands/helpers.rs
@@ -0,0 +1,20 @@
+//! Locating properties in the text of a `[Script Info]` section.
+
+/// Byte range of the line that sets exactly this property within the section text
+///
+/// The range excludes the line break.
+pub(crate) fn find_property_line(section: &str, property: &str) -> Option<(usize, usize)> {
+    let mut line_start = 0;
+
+    for line in section.split('\n') {
+        let is_comment = line.trim_start().starts_with([';', '#']);
+        if let Some((key, _)) = line.split_once(':') {
+            if !is_comment && key.trim() == property {
+                return Some((line_start, line_start + line.len()));
+            }
+        }
+        line_start += line.len() + 1;
+    }
+
+    None
+}
diff --git a/crates/ass-editor/commands/script_info_commands/mod.rs b/crates/ass-editor/commands/script_info_commands/mod.rs
index e62f5a9..684033f 100644
--- a/crates/ass-editor/commands/script_info_commands/mod.rs
+++ b/crates/ass-editor/commands/script_info_commands/mod.rs
@@ -5,6 +5,7 @@
 
 mod delete;
 mod get;
+pub(crate) mod helpers;
 mod set;
 
 #[cfg(test)]
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 04c1de9..5d2fb0d 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -1,5 +1,6 @@
 //! Command to set or update a property in the `[Script Info]` section.
 
+use super::helpers::find_property_line;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -44,17 +45,12 @@ impl EditorCommand for SetScriptInfoCommand {
             .unwrap_or(content.len());
 
         // Check if property already exists
-        let property_pattern = format!("{}: ", self.property);
         let search_range = &content[script_info_start..script_info_end];
 
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
+        if let Some((start, end)) = find_property_line(search_range, &self.property) {
             // Property exists, update it
-            let absolute_pos = script_info_start + prop_pos;
-            let line_start = absolute_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(content.len());
+            let line_start = script_info_start + start;
+            let line_end = script_info_start + end;
 
             let new_line = format!("{}: {}", self.property, self.value);
             let range = Range::new(Position::new(line_start), Position::new(line_end));
diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 96901d8..89dae1d 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -5,6 +5,7 @@
 //! the caller managing the parser directly.
 
 use super::EditorDocument;
+use crate::commands::script_info_commands::helpers::find_property_line;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
@@ -134,12 +135,15 @@ impl EditorDocument {
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
         // Simplified implementation - find and replace the field
         let content = self.text();
-        let field_pattern = format!("{key}:");
-
-        if let Some(pos) = content.find(&field_pattern) {
-            // Find end of line
-            let line_start = pos;
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
+        let section_start = content.find("[Script Info]").unwrap_or(0);
+        let section_end = content[section_start..]
+            .find("\n[")
+            .map_or(content.len(), |n| section_start + n);
+        let section = &content[section_start..section_end];
+
+        if let Some((start, end)) = find_property_line(section, key) {
+            let line_start = section_start + start;
+            let line_end = section_start + end;
 
             let range = Range::new(Position::new(line_start), Position::new(line_end));
 
-- 
2.43.0


From 2219e0a0c71650055e99961e8f1557f92d60e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 22/69] fix: set the resolution as one undoable step

---
 crates/ass-editor/core/fluent/script_info.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/fluent/script_info.rs b/crates/ass-editor/core/fluent/script_info.rs
index 35c5e34..61e2f6a 100644
--- a/crates/ass-editor/core/fluent/script_info.rs
+++ b/crates/ass-editor/core/fluent/script_info.rs
@@ -1,7 +1,7 @@
 //! Fluent API for managing Script Info properties.
 
 use crate::commands::{
-    DeleteScriptInfoCommand, EditorCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
+    BatchCommand, DeleteScriptInfoCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
     SetScriptInfoCommand,
 };
 use crate::core::errors::EditorError;
@@ -9,6 +9,7 @@ use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
+    boxed::Box,
     string::{String, ToString},
     vec::Vec,
 };
@@ -74,8 +75,10 @@ impl<'a> ScriptInfoOps<'a> {
     pub fn resolution(self, width: u32, height: u32) -> Result<&'a mut EditorDocument> {
         let command1 = SetScriptInfoCommand::new("PlayResX".to_string(), width.to_string());
         let command2 = SetScriptInfoCommand::new("PlayResY".to_string(), height.to_string());
-        command1.execute(self.document)?;
-        command2.execute(self.document)?;
+        let command = BatchCommand::new("Set resolution".to_string())
+            .add_command(Box::new(command1))
+            .add_command(Box::new(command2));
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
-- 
2.43.0


From ba8ab249d6f55b5f8043b48b1dcbe7aa1789d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 23/69] fix: keep font and graphic entries apart from
 neighbouring lines

---
 .../commands/fonts_graphics_commands/add.rs   | 28 ++++++++++-------
 .../fonts_graphics_commands/remove.rs         | 30 +++++++++++++++----
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 61053e1..491ab86 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -50,11 +50,15 @@ impl EditorCommand for AddFontCommand {
         let fonts_section = content.find("[Fonts]");
 
         let insert_pos = if let Some(section_start) = fonts_section {
-            // Find the end of the Fonts section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
+            // Find the end of the Fonts section (start of the next header)
+            match content[section_start..].find("\n[") {
+                Some(pos) => section_start + pos + 1,
+                None if content.ends_with('\n') => content.len(),
+                None => {
+                    document.insert_raw(Position::new(content.len()), "\n")?;
+                    content.len() + 1
+                }
+            }
         } else {
             // Create new Fonts section at the end
             let mut insert_pos = content.len();
@@ -140,11 +144,15 @@ impl EditorCommand for AddGraphicCommand {
         let graphics_section = content.find("[Graphics]");
 
         let insert_pos = if let Some(section_start) = graphics_section {
-            // Find the end of the Graphics section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
+            // Find the end of the Graphics section (start of the next header)
+            match content[section_start..].find("\n[") {
+                Some(pos) => section_start + pos + 1,
+                None if content.ends_with('\n') => content.len(),
+                None => {
+                    document.insert_raw(Position::new(content.len()), "\n")?;
+                    content.len() + 1
+                }
+            }
         } else {
             // Create new Graphics section at the end
             let mut insert_pos = content.len();
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
index 6957e6b..be73fb9 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
@@ -42,16 +42,25 @@ impl EditorCommand for RemoveFontCommand {
 
         // Look for the font entry
         let filename = &self.filename;
-        let search_pattern = format!("fontname: {filename}");
+        let search_pattern = format!("\nfontname: {filename}");
         let section_content = &content[fonts_section..section_end];
 
-        if let Some(font_pos) = section_content.find(&search_pattern) {
+        // The whole line has to match: one file name may be the prefix of another
+        let font_pos = section_content
+            .match_indices(&search_pattern)
+            .find(|(pos, matched)| {
+                let rest = &section_content[pos + matched.len()..];
+                rest.lines().next().unwrap_or("").trim().is_empty()
+            })
+            .map(|(pos, _)| pos + 1);
+
+        if let Some(font_pos) = font_pos {
             let absolute_pos = fonts_section + font_pos;
 
             // Find the end of this font's data (next fontname: or section end)
             let font_end = content[absolute_pos..]
                 .find("\nfontname:")
-                .map(|pos| absolute_pos + pos)
+                .map(|pos| (absolute_pos + pos + 1).min(section_end))
                 .unwrap_or(section_end);
 
             let range = Range::new(Position::new(absolute_pos), Position::new(font_end));
@@ -108,16 +117,25 @@ impl EditorCommand for RemoveGraphicCommand {
 
         // Look for the graphic entry
         let filename = &self.filename;
-        let search_pattern = format!("filename: {filename}");
+        let search_pattern = format!("\nfilename: {filename}");
         let section_content = &content[graphics_section..section_end];
 
-        if let Some(graphic_pos) = section_content.find(&search_pattern) {
+        // The whole line has to match: one file name may be the prefix of another
+        let graphic_pos = section_content
+            .match_indices(&search_pattern)
+            .find(|(pos, matched)| {
+                let rest = &section_content[pos + matched.len()..];
+                rest.lines().next().unwrap_or("").trim().is_empty()
+            })
+            .map(|(pos, _)| pos + 1);
+
+        if let Some(graphic_pos) = graphic_pos {
             let absolute_pos = graphics_section + graphic_pos;
 
             // Find the end of this graphic's data (next filename: or section end)
             let graphic_end = content[absolute_pos..]
                 .find("\nfilename:")
-                .map(|pos| absolute_pos + pos)
+                .map(|pos| (absolute_pos + pos + 1).min(section_end))
                 .unwrap_or(section_end);
 
             let range = Range::new(Position::new(absolute_pos), Position::new(graphic_end));
-- 
2.43.0


From ad9ff8d12dc7214606caf09c881b799a50c7389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 24/69] fix: merging events keeps what lies between them and
 copes with a missing last newline

---
 crates/ass-editor/commands/event_commands/merge.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index adc3b27..1a8d8a4 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -145,9 +145,11 @@ impl EditorCommand for MergeEventsCommand {
 
         // Replace both events with the merged one
         let first_start = events[0].1;
-        let second_end = events[1].2 + 1; // Include newline
+        let second_end = (events[1].2 + 1).min(content.len()); // Include newline
         let range = Range::new(Position::new(first_start), Position::new(second_end));
-        let replacement = format!("{merged_event}\n");
+        // Keep whatever lies between the two events (comments, other events)
+        let between = content[events[0].2 + 1..events[1].1].to_string();
+        let replacement = format!("{merged_event}\n{between}");
 
         document.replace(range, &replacement)?;
 
-- 
2.43.0


From 621e34fcc5da6122c1a8147681f07e5a0b4d05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 25/69] fix: shifting event times saturates instead of
 overflowing

---
 crates/ass-editor/commands/event_commands/timing.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index 9ad26b3..1ec8df8 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -68,6 +68,13 @@ impl TimingAdjustCommand {
     }
 }
 
+/// Apply a signed offset without leaving the range of representable times
+fn shift_cs(time_cs: u32, offset_cs: i32) -> u32 {
+    time_cs
+        .saturating_add_signed(offset_cs)
+        .min(i32::MAX as u32)
+}
+
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut content = document.text();
@@ -116,9 +123,8 @@ impl EditorCommand for TimingAdjustCommand {
                             (event.start_time_cs(), event.end_time_cs())
                         {
                             // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
+                            let new_start_cs = shift_cs(start_cs, self.start_offset_cs);
+                            let new_end_cs = shift_cs(end_cs, self.end_offset_cs);
 
                             // Ensure end time is after start time
                             let final_end_cs = new_end_cs.max(new_start_cs + 1);
-- 
2.43.0


From e5d01a66e901cbb15c68c31d8af00d3ce9513ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 26/69] fix: editing an event by index changes the event with
 that index

---
 .../ass-editor/core/document/builder_edit.rs  | 17 ++++-------------
 crates/ass-editor/core/document/event_edit.rs | 19 +++++--------------
 2 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 379006b..9069376 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -127,19 +127,10 @@ impl EditorDocument {
                                 modified_builder.build()?
                             };
 
-                            // Find the event line in the raw text
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                (pos, line_end)
+                            // Locate the event line in the raw text
+                            let (start, end) = (event.span.start, event.span.end);
+                            let event_line = if let Some(line) = content.get(start..end) {
+                                (start, start + line.trim_end().len())
                             } else {
                                 return Err(EditorError::ValidationError {
                                     message: "Could not find event line in document".to_string(),
diff --git a/crates/ass-editor/core/document/event_edit.rs b/crates/ass-editor/core/document/event_edit.rs
index ea72773..acc5413 100644
--- a/crates/ass-editor/core/document/event_edit.rs
+++ b/crates/ass-editor/core/document/event_edit.rs
@@ -63,20 +63,11 @@ impl EditorDocument {
                             // Get the modifications from the update function
                             let modifications = update_fn(event);
 
-                            // Build a pattern to search for this specific event
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                let line = content[pos..line_end].to_string();
-                                (pos, line_end, line)
+                            // Locate the line of this specific event
+                            let (start, end) = (event.span.start, event.span.end);
+                            let event_line = if let Some(line) = content.get(start..end) {
+                                let line = line.trim_end().to_string();
+                                (start, start + line.len(), line)
                             } else {
                                 return Err(EditorError::ValidationError {
                                     message: "Could not find event line in document".to_string(),
-- 
2.43.0


From 1c3f8f9cc0516b58f712bb5ef3f0d2a8ba9585bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 27/69] fix: a WebVTT timing line without an end time is
 refused instead of panicking

---
 crates/ass-editor/formats/webvtt/cue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..ae215fe 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -100,7 +100,8 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time =
+                Self::parse_vtt_time(end_time_and_settings.first().copied().unwrap_or(""))?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
-- 
2.43.0


From df6664cc7ad08761b6daaa2a14093da20423984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 28/69] fix: exporting a huge centisecond field no longer
 overflows

---
 crates/ass-editor/formats/srt/time.rs            | 4 +++-
 crates/ass-editor/formats/webvtt/time.rs         | 4 +++-
 crates/ass-editor/utils/formats/export_srt.rs    | 2 +-
 crates/ass-editor/utils/formats/export_webvtt.rs | 2 +-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/formats/srt/time.rs b/crates/ass-editor/formats/srt/time.rs
index 089fdb3..50010e1 100644
--- a/crates/ass-editor/formats/srt/time.rs
+++ b/crates/ass-editor/formats/srt/time.rs
@@ -47,7 +47,9 @@ impl SrtFormat {
             let cs: u32 = cs_part.parse().map_err(|_| {
                 EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
             })?;
-            let ms = cs * 10; // Convert to milliseconds
+            let ms = cs.checked_mul(10).ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
+            })?; // Convert to milliseconds
 
             // Ensure hours are zero-padded for SRT format
             let parts: Vec<&str> = time_part.split(':').collect();
diff --git a/crates/ass-editor/formats/webvtt/time.rs b/crates/ass-editor/formats/webvtt/time.rs
index dae8582..06f15b9 100644
--- a/crates/ass-editor/formats/webvtt/time.rs
+++ b/crates/ass-editor/formats/webvtt/time.rs
@@ -72,7 +72,9 @@ impl WebVttFormat {
             let cs: u32 = cs_part.parse().map_err(|_| {
                 EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
             })?;
-            let ms = cs * 10; // Convert to milliseconds
+            let ms = cs.checked_mul(10).ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
+            })?; // Convert to milliseconds
 
             // Ensure hours are zero-padded for WebVTT format
             let parts: Vec<&str> = time_part.split(':').collect();
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 145911d..9aaf29f 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -85,7 +85,7 @@ impl FormatConverter {
         let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
 
         // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
+        let millis = centiseconds.parse::<u32>().unwrap_or(0).saturating_mul(10);
 
         format!("{hours}:{minutes}:{seconds},{millis:03}")
     }
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index a8d1eee..d0af7da 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -100,7 +100,7 @@ impl FormatConverter {
         let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
 
         // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
+        let millis = centiseconds.parse::<u32>().unwrap_or(0).saturating_mul(10);
 
         format!("{hours}:{minutes}:{seconds}.{millis:03}")
     }
-- 
2.43.0


From fc1c94f383ef142617f6e59531a60c2304714175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 29/69] fix: WebVTT import accepts cue settings and text lines
 that begin like a header

---
 crates/ass-editor/utils/formats/import_webvtt.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 8e91dea..40ff028 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -61,7 +61,8 @@ impl FormatConverter {
             let line = line.trim();
 
             // Skip WEBVTT header and empty lines
-            if line.starts_with("WEBVTT") || line.starts_with("NOTE") || line.is_empty() {
+            let is_header = line.starts_with("WEBVTT") || line.starts_with("NOTE");
+            if line.is_empty() || (is_header && !in_cue) {
                 if let Some(cue) = current_cue.take() {
                     cues.push(cue);
                 }
@@ -76,7 +77,9 @@ impl FormatConverter {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() >= 2 {
                         cue.start = Self::parse_webvtt_time(parts[0].trim())?;
-                        cue.end = Self::parse_webvtt_time(parts[1].trim())?;
+                        // Cue settings may follow the end time
+                        let end = parts[1].split_whitespace().next().unwrap_or("");
+                        cue.end = Self::parse_webvtt_time(end)?;
                         in_cue = true;
                     }
                 }
-- 
2.43.0


From c954086cab8297a471a5a963d9ba3defaee30962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 30/69] fix: importing ignores a byte order mark

---
 crates/ass-editor/utils/formats/converter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/utils/formats/converter.rs b/crates/ass-editor/utils/formats/converter.rs
index 7630071..deedf27 100644
--- a/crates/ass-editor/utils/formats/converter.rs
+++ b/crates/ass-editor/utils/formats/converter.rs
@@ -15,16 +15,18 @@ pub struct FormatConverter;
 impl FormatConverter {
     /// Import subtitle content from various formats into ASS
     pub fn import(content: &str, format: Option<SubtitleFormat>) -> Result<String> {
-        let detected_format = format.unwrap_or_else(|| SubtitleFormat::from_content(content));
+        // A byte order mark is not part of the subtitles
+        let subtitles = content.strip_prefix('\u{feff}').unwrap_or(content);
+        let detected_format = format.unwrap_or_else(|| SubtitleFormat::from_content(subtitles));
 
         match detected_format {
             SubtitleFormat::ASS | SubtitleFormat::SSA => {
                 // Already in ASS/SSA format, just return
                 Ok(content.to_string())
             }
-            SubtitleFormat::SRT => Self::import_srt(content),
-            SubtitleFormat::WebVTT => Self::import_webvtt(content),
-            SubtitleFormat::PlainText => Self::import_plain_text(content),
+            SubtitleFormat::SRT => Self::import_srt(subtitles),
+            SubtitleFormat::WebVTT => Self::import_webvtt(subtitles),
+            SubtitleFormat::PlainText => Self::import_plain_text(subtitles),
         }
     }
 
-- 
2.43.0


From 6b7162fbacb8fb6d73c5e1379afa48979e216732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 31/69] fix: key the static-frame and time-index caches by
 content, not by address

A renderer kept the last static frame and the parsed event times under the
address and length of the script's buffers. After a script was dropped and
another parsed, the new one often occupies the same addresses, and the old
frame or the old times were served for it; the frame also survived a change
of the output size or of the styles.
---
 .../ass-core/parser/ast/event/event_struct.rs |  2 +-
 crates/ass-core/parser/ast/media/font.rs      |  2 +-
 .../ass-core/parser/ast/script_info/info.rs   |  2 +-
 crates/ass-core/parser/ast/span.rs            |  2 +-
 .../ass-core/parser/ast/style/definition.rs   |  2 +-
 .../src/renderer/event_selector.rs            |  4 +--
 crates/ass-renderer/src/renderer/mod.rs       | 33 +++++++++++++------
 .../ass-renderer/src/renderer/time_index.rs   | 20 ++++++++---
 8 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/event_struct.rs b/crates/ass-core/parser/ast/event/event_struct.rs
index c86ab15..64b072f 100644
--- a/crates/ass-core/parser/ast/event/event_struct.rs
+++ b/crates/ass-core/parser/ast/event/event_struct.rs
@@ -27,7 +27,7 @@ use super::{EventType, Span};
 ///
 /// assert!(event.is_dialogue());
 /// ```
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
 pub struct Event<'a> {
     /// Event type (Dialogue, Comment, etc.)
diff --git a/crates/ass-core/parser/ast/media/font.rs b/crates/ass-core/parser/ast/media/font.rs
index 8631250..44b5584 100644
--- a/crates/ass-core/parser/ast/media/font.rs
+++ b/crates/ass-core/parser/ast/media/font.rs
@@ -32,7 +32,7 @@ use core::ops::Range;
 /// let decoded = font.decode_data()?;
 /// # Ok::<(), Box<dyn std::error::Error>>(())
 /// ```
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
 pub struct Font<'a> {
     /// Font filename as it appears in the `[Fonts\]` section
diff --git a/crates/ass-core/parser/ast/script_info/info.rs b/crates/ass-core/parser/ast/script_info/info.rs
index c262ff7..4ae708b 100644
--- a/crates/ass-core/parser/ast/script_info/info.rs
+++ b/crates/ass-core/parser/ast/script_info/info.rs
@@ -29,7 +29,7 @@ use core::ops::Range;
 /// assert_eq!(info.title(), "Test Script");
 /// assert_eq!(info.script_type(), Some("v4.00+"));
 /// ```
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
 pub struct ScriptInfo<'a> {
     /// Key-value pairs as zero-copy spans
diff --git a/crates/ass-core/parser/ast/span.rs b/crates/ass-core/parser/ast/span.rs
index eb199b3..62e1dd6 100644
--- a/crates/ass-core/parser/ast/span.rs
+++ b/crates/ass-core/parser/ast/span.rs
@@ -4,7 +4,7 @@
 //! position information for nodes referencing the original source text.
 
 /// Represents a span in the source text with position information
-#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
 pub struct Span {
     /// Byte offset in source where span starts
diff --git a/crates/ass-core/parser/ast/style/definition.rs b/crates/ass-core/parser/ast/style/definition.rs
index 9af310c..ee1252e 100644
--- a/crates/ass-core/parser/ast/style/definition.rs
+++ b/crates/ass-core/parser/ast/style/definition.rs
@@ -27,7 +27,7 @@ use super::super::Span;
 /// assert_eq!(style.name, "Default");
 /// assert_eq!(style.fontname, "Arial");
 /// ```
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
 pub struct Style<'a> {
     /// Style name (must be unique within script)
diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..8f4701b 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -170,12 +170,12 @@ impl EventSelector {
 
     /// Build (or reuse) the parsed time index for `events`.
     ///
-    /// The index is keyed by the events slice's address, length, and the current
+    /// The index is keyed by a fingerprint of the events' times, and the current
     /// comment-rendering flag; when that key is unchanged the existing index is
     /// kept, so each event's start/end time string is parsed only once per script
     /// rather than on every frame.
     fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
+        let key = TimeIndex::key_of(events, self.render_comments);
         if self
             .time_index
             .as_ref()
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index bcbe7ff..cf6eea5 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -3,7 +3,8 @@
 use crate::backends::RenderBackend;
 use crate::pipeline::Pipeline;
 use crate::utils::RenderError;
-use ass_core::parser::Script;
+use ass_core::parser::{Event, Script, Section};
+use core::hash::{Hash, Hasher};
 
 #[cfg(feature = "nostd")]
 use alloc::{boxed::Box, vec::Vec};
@@ -29,11 +30,11 @@ pub struct Renderer {
     backend: Box<dyn RenderBackend>,
     pipeline: Box<dyn Pipeline>,
     event_selector: event_selector::EventSelector,
-    /// Cache of the last fully-static rendered frame, keyed by the active events'
-    /// text spans. Reused (data copied, timestamp updated) when no active event is
+    /// Cache of the last fully-static rendered frame, keyed by a fingerprint of
+    /// what it was drawn from (see [`Self::static_frame_key`]). Reused (data copied, timestamp updated) when no active event is
     /// animated and the active set is unchanged — the common case of a subtitle
     /// shown across many frames. Animated frames (`\t`/`\move`/`\k`/`\fad`) skip it.
-    frame_cache: Option<(Vec<(usize, usize)>, Frame)>,
+    frame_cache: Option<(u64, Frame)>,
 }
 
 impl Renderer {
@@ -110,12 +111,7 @@ impl Renderer {
         // render (copying its pixels with the current timestamp) instead of
         // re-shaping and re-rasterizing. Animated frames bypass and clear it.
         let animated = events.iter().any(|e| Self::event_is_animated(e.text));
-        let cache_key: Option<Vec<(usize, usize)>> = (!animated).then(|| {
-            events
-                .iter()
-                .map(|e| (e.text.as_ptr() as usize, e.text.len()))
-                .collect()
-        });
+        let cache_key = (!animated).then(|| Self::static_frame_key(script, &events, &self.context));
         if let (Some(key), Some((cached_key, cached))) =
             (cache_key.as_ref(), self.frame_cache.as_ref())
         {
@@ -182,6 +178,23 @@ impl Renderer {
             .render_layers_to_bitmaps(&layers, &self.context)
     }
 
+    /// Fingerprint of everything a static frame is drawn from: the output size,
+    /// the script's header, styles and fonts, and the active events.
+    fn static_frame_key(script: &Script, events: &[&Event], context: &RenderContext) -> u64 {
+        let mut hasher = ahash::AHasher::default();
+        (context.width(), context.height()).hash(&mut hasher);
+        for section in script.sections() {
+            match section {
+                Section::ScriptInfo(info) => info.hash(&mut hasher),
+                Section::Styles(styles) => styles.hash(&mut hasher),
+                Section::Fonts(fonts) => fonts.hash(&mut hasher),
+                _ => {}
+            }
+        }
+        events.hash(&mut hasher);
+        hasher.finish()
+    }
+
     /// Whether an event's text carries a time-dependent override (`\t`, `\move`,
     /// karaoke `\k`/`\K`, or `\fad`), meaning its output changes between frames
     /// and must not be served from the static frame cache.
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..dbfe012 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -1,23 +1,33 @@
 //! Parsed timing index used by the event selector for incremental rendering.
 
 use ass_core::parser::{ast::EventType, Event};
+use core::hash::{Hash, Hasher};
 
 #[cfg(feature = "nostd")]
 use alloc::vec::Vec;
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
-/// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
+/// Keyed by a fingerprint of the events' types and times and the comment-rendering
+/// flag, so it is reused across frames and rebuilt only when the script (or that flag)
+/// changes. (An address would not do: a new script can occupy a dropped one's.) Each entry is `(start_cs, end_cs, original_index)`; the original
 /// index preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    pub(super) key: (u64, usize, bool),
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
 impl TimeIndex {
+    /// Key under which an index of `events` may be reused.
+    pub(super) fn key_of(events: &[Event], render_comments: bool) -> (u64, usize, bool) {
+        let mut hasher = ahash::AHasher::default();
+        for event in events {
+            (event.event_type, event.start, event.end).hash(&mut hasher);
+        }
+        (hasher.finish(), events.len(), render_comments)
+    }
+
     /// Build the parsed time index for `events`.
     ///
     /// Each included event's start/end time string is parsed once here, and the
@@ -25,7 +35,7 @@ impl TimeIndex {
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
     pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+        let key = Self::key_of(events, render_comments);
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
-- 
2.43.0


From 86f929f65013c37129f25bc2ff09eef7c73968f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 32/69] fix: preparing a script for rendering starts from the
 defaults

The pipeline kept PlayRes, LayoutRes, WrapStyle and ScaledBorderAndShadow of
the script prepared before when the new one does not set them, and fell back to
an arbitrary style (hash-map order) when there is no Default style, although
the first one is meant.
---
 crates/ass-renderer/src/pipeline/build/mod.rs |  4 ++++
 crates/ass-renderer/src/pipeline/build/run.rs | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index ce2cd1d..dd17ee1 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -34,6 +34,8 @@ pub struct SoftwarePipeline {
     styles_map: AHashMap<String, OwnedStyle>,
     /// Default style for fallback
     default_style: Option<OwnedStyle>,
+    /// Playback resolution of scripts that declare none
+    default_play_res: (f32, f32),
     /// Script playback resolution from PlayResX/PlayResY
     play_res_x: f32,
     play_res_y: f32,
@@ -70,6 +72,7 @@ impl SoftwarePipeline {
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
             styles_map: AHashMap::new(),
             default_style: None,
+            default_play_res: (1920.0, 1080.0),
             play_res_x: 1920.0, // Default resolution
             play_res_y: 1080.0, // Default resolution
             layout_res_x: None,
@@ -92,6 +95,7 @@ impl SoftwarePipeline {
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
             styles_map: AHashMap::new(),
             default_style: None,
+            default_play_res: (width, height),
             play_res_x: width,  // Use provided dimensions as default
             play_res_y: height, // Use provided dimensions as default
             layout_res_x: None,
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b4d17df..ee7aeae 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -87,6 +87,14 @@ impl Pipeline for super::SoftwarePipeline {
         self.styles_map.clear();
         self.default_style = None;
 
+        // Nothing carries over from the script prepared before this one
+        (self.play_res_x, self.play_res_y) = self.default_play_res;
+        self.layout_res_x = None;
+        self.layout_res_y = None;
+        self.scaled_border_and_shadow = true;
+        self.wrap_style = 0;
+        let mut first_style = None;
+
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
         #[cfg(feature = "analysis-integration")]
@@ -196,6 +204,9 @@ impl Pipeline for super::SoftwarePipeline {
                             self.default_style = Some(owned_style.clone());
                         }
 
+                        if first_style.is_none() {
+                            first_style = Some(style_name.clone());
+                        }
                         self.styles_map.insert(style_name, owned_style);
                     }
                 }
@@ -204,8 +215,8 @@ impl Pipeline for super::SoftwarePipeline {
         }
 
         // If no default style found, use the first one
-        if self.default_style.is_none() && !self.styles_map.is_empty() {
-            self.default_style = self.styles_map.values().next().cloned();
+        if self.default_style.is_none() {
+            self.default_style = first_style.and_then(|name| self.styles_map.get(&name).cloned());
         }
 
         Ok(())
-- 
2.43.0


From 1ea5afdd5aabdfc95e48186b2ba5a9a4bff76ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 33/69] fix: blurred text drawn with a 3D rotation is not taken
 from the tile cache

---
 crates/ass-renderer/src/backends/software/text/blur.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 8efffa3..ccbfc21 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -34,8 +34,13 @@ impl super::super::SoftwareBackend {
         // The blurred bitmap is a pure function of the glyph outlines, blur
         // radius and baked colours (screen position is applied at composite),
         // so identical blurred glyphs reuse one bitmap. A positional `\clip`
-        // makes the result position-dependent, so it is not cached.
-        let cache_key = clip_mask.is_none().then(|| BlurTileKey {
+        // makes the result position-dependent, and `\frx`/`\fry` project the
+        // outlines in a way the key does not describe, so neither is cached.
+        let projected = data.effects.iter().any(|e| {
+            matches!(e, crate::pipeline::TextEffect::Rotation { x, y, .. } if *x != 0.0 || *y != 0.0)
+        });
+        let cacheable = clip_mask.is_none() && !projected;
+        let cache_key = cacheable.then(|| BlurTileKey {
             text: data.text.clone(),
             font: data.font_family.clone(),
             size: data.font_size.to_bits(),
-- 
2.43.0


From cc5e2e57f851e77f4507a324e420516b00272ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 34/69] fix: a failed bitmap layer no longer redirects later
 frames

---
 crates/ass-renderer/src/backends/software/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..50efe69 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -102,6 +102,10 @@ impl SoftwareBackend {
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
             let result = self.composite_layer(layer, context);
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
+            if result.is_err() {
+                // Do not leave the sink on: later frames would draw into it.
+                EMIT_SINK.with(|sink| *sink.borrow_mut() = None);
+            }
             result?;
 
             let coverage = EMIT_SINK.with(|sink| sink.borrow_mut().take().unwrap_or_default());
-- 
2.43.0


From 378f7cc2183ce879a24269da59fc43dc07a0c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 35/69] fix: incremental rendering draws what a full render
 draws

---
 .../ass-renderer/src/backends/software/mod.rs | 31 +++++--------------
 crates/ass-renderer/src/renderer/mod.rs       | 25 +++++++++++----
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index 50efe69..9b81a1a 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -207,32 +207,15 @@ impl RenderBackend for SoftwareBackend {
         previous_frame: &[u8],
         context: &RenderContext,
     ) -> Result<Vec<u8>, RenderError> {
-        if self.pixmap.width() != context.width() || self.pixmap.height() != context.height() {
-            self.resize(context.width(), context.height())?;
-        }
-
-        // Seed from the previous frame, then redraw only the dirty regions.
-        if previous_frame.len() == self.pixmap.data().len() {
-            self.pixmap.data_mut().copy_from_slice(previous_frame);
-        } else {
-            self.pixmap.fill(tiny_skia::Color::TRANSPARENT);
-        }
-
-        // Only redraw dirty regions
-        for region in dirty_regions {
-            // TODO: Create clip mask for dirty region
-            // tiny_skia doesn't expose ClipMask publicly
-            let _ = region; // TODO: Apply clipping
-
-            // Composite layers within this region
-            for layer in layers {
-                if layer.intersects_region(region) {
-                    self.composite_layer(layer, context)?;
-                }
-            }
+        let frame_bytes = context.width() as usize * context.height() as usize * 4;
+        if dirty_regions.is_empty() && previous_frame.len() == frame_bytes {
+            return Ok(previous_frame.to_vec());
         }
 
-        Ok(self.pixmap.data().to_vec())
+        // TODO: Clip to the dirty regions (tiny_skia doesn't expose ClipMask
+        // publicly). Layers drawn over the previous frame unclipped would blend
+        // with themselves and leave what has ended in place, so redraw the frame.
+        self.composite_layers(layers, context)
     }
 
     fn supports_feature(&self, feature: BackendFeature) -> bool {
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index cf6eea5..5812ba6 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -7,7 +7,7 @@ use ass_core::parser::{Event, Script, Section};
 use core::hash::{Hash, Hasher};
 
 #[cfg(feature = "nostd")]
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::boxed::Box;
 
@@ -213,14 +213,27 @@ impl Renderer {
         time_cs: u32,
         previous_frame: &Frame,
     ) -> Result<Frame, RenderError> {
-        let active = self.event_selector.select_active(script, time_cs)?;
-        let events = active.events;
-        let dirty_regions =
+        let previous_time = previous_frame.timestamp();
+        let mut visible = self
+            .event_selector
+            .select_active(script, previous_time)?
+            .events;
+        let events = self.event_selector.select_active(script, time_cs)?.events;
+        visible.extend(&events);
+
+        let same_size = previous_frame.width() == self.context.width()
+            && previous_frame.height() == self.context.height();
+        let animated = events.iter().any(|e| Self::event_is_animated(e.text));
+        let dirty_regions = if same_size && !animated {
+            // Considers what was visible before too, so that it is cleared
             self.pipeline
-                .compute_dirty_regions(&events, time_cs, previous_frame.timestamp())?;
+                .compute_dirty_regions(&visible, time_cs, previous_time)?
+        } else {
+            vec![crate::utils::DirtyRegion::full_screen()]
+        };
 
         if dirty_regions.is_empty() {
-            return Ok(previous_frame.clone());
+            return Ok(previous_frame.with_timestamp(time_cs));
         }
 
         self.pipeline.prepare_script(script, None)?;
-- 
2.43.0


From c998f4c9921ba14d3184fe5a70611726792c4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 36/69] fix: text whose font cannot be read for measuring is an
 error, not misplaced

---
 .../src/pipeline/build/text/mod.rs            |  6 ++---
 .../ass-renderer/src/pipeline/build/wrap.rs   | 22 +++++++++++--------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index da01eb8..2893b2d 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -84,7 +84,7 @@ impl super::SoftwarePipeline {
                     scale_y,
                     available,
                     balance,
-                ));
+                )?);
             }
             logical_lines = wrapped;
         }
@@ -141,9 +141,9 @@ impl super::SoftwarePipeline {
                         let bold = seg.tags.formatting.bold.unwrap_or(defaults.bold);
                         let italic = seg.tags.formatting.italic.unwrap_or(defaults.italic);
                         shape_text_cached(&seg.text, font, size, bold, italic, &self.font_database)
-                            .map_or(0.0, |sh| sh.width * fsx)
+                            .map(|sh| sh.width * fsx)
                     })
-                    .sum()
+                    .sum::<Result<f32, _>>()?
             } else {
                 0.0
             };
diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 35f076d..9a327c7 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -6,6 +6,7 @@ use alloc::{string::String, vec, vec::Vec};
 use std::{string::String, vec::Vec};
 
 use crate::pipeline::{shaping::shape_text_cached, text_segmenter::TextSegment};
+use crate::utils::RenderError;
 
 impl super::SoftwarePipeline {
     /// Word-wrap a logical line (one or more tagged segments) to fit `max_width`
@@ -28,9 +29,9 @@ impl super::SoftwarePipeline {
         scale_y: f32,
         max_width: f32,
         balance: bool,
-    ) -> Vec<Vec<TextSegment>> {
+    ) -> Result<Vec<Vec<TextSegment>>, RenderError> {
         let Some(lead) = line.first() else {
-            return vec![line.to_vec()];
+            return Ok(vec![line.to_vec()]);
         };
 
         // Flatten to characters with a per-character owning-segment index.
@@ -52,7 +53,7 @@ impl super::SoftwarePipeline {
             words.pop();
         }
         if words.len() <= 1 {
-            return vec![line.to_vec()];
+            return Ok(vec![line.to_vec()]);
         }
 
         // Measure with the leading segment's resolved render font, reproducing the
@@ -83,12 +84,15 @@ impl super::SoftwarePipeline {
         } else {
             lead.tags.font.scale_x.unwrap_or(default_scale_x) / 100.0
         };
-        let measure = |s: &str| -> (f32, f32, f32) {
+        let measure = |s: &str| -> Result<(f32, f32, f32), RenderError> {
             // (advance, ink_min, ink_max)
             shape_text_cached(s, font, size, bold, italic, &self.font_database)
-                .map_or((0.0, 0.0, 0.0), |sh| (sh.width, sh.ink_min, sh.ink_max))
+                .map(|sh| (sh.width, sh.ink_min, sh.ink_max))
         };
-        let word_m: Vec<(f32, f32, f32)> = words.iter().map(|w| measure(w)).collect();
+        let word_m = words
+            .iter()
+            .map(|w| measure(w))
+            .collect::<Result<Vec<(f32, f32, f32)>, _>>()?;
         let word_adv: Vec<f32> = word_m.iter().map(|m| m.0).collect();
         // Per-word side bearings: lead = ink left edge, trail = advance - ink right.
         // libass measures a line on ink width (x_max - x_min), which is the advance
@@ -97,7 +101,7 @@ impl super::SoftwarePipeline {
         let word_trail: Vec<f32> = word_m.iter().map(|m| (m.0 - m.2).max(0.0)).collect();
         let word_glyphs: Vec<usize> = words.iter().map(|w| w.chars().count()).collect();
         // Advance of one space glyph, isolated from neighbouring side bearings.
-        let space_adv = (measure("x x").0 - measure("xx").0).max(0.0);
+        let space_adv = (measure("x x")?.0 - measure("xx")?.0).max(0.0);
 
         // Ink width of a contiguous run of words [start..=end]: advances plus the
         // inter-glyph spacing, scaled by `\fscx`, minus the run's leading/trailing
@@ -137,7 +141,7 @@ impl super::SoftwarePipeline {
         };
         let base = fill(max_width);
         if base.is_empty() {
-            return vec![line.to_vec()];
+            return Ok(vec![line.to_vec()]);
         }
 
         // WrapStyle 0/3 (`balance`): find the smallest width limit that still yields
@@ -202,6 +206,6 @@ impl super::SoftwarePipeline {
                 out.push(segs);
             }
         }
-        out
+        Ok(out)
     }
 }
-- 
2.43.0


From e20bfc560e43e12c4716d72f9ad7ba830d2ba66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 37/69] fix: compositing a bitmap saturates instead of wrapping

---
 .../src/backends/coverage/composite.rs             | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index 72ae4da..a102b2d 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -120,13 +120,13 @@ fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), p
             let sa = u16::from(pixels[si + 3]);
             if sa != 0 {
                 let inv = 255 - sa;
-                dst[di] = (u16::from(pixels[si]) + mul255(u16::from(dst[di]), inv)) as u8;
-                dst[di + 1] =
-                    (u16::from(pixels[si + 1]) + mul255(u16::from(dst[di + 1]), inv)) as u8;
-                dst[di + 2] =
-                    (u16::from(pixels[si + 2]) + mul255(u16::from(dst[di + 2]), inv)) as u8;
-                dst[di + 3] =
-                    (u16::from(pixels[si + 3]) + mul255(u16::from(dst[di + 3]), inv)) as u8;
+                dst[di] = (u16::from(pixels[si]) + mul255(u16::from(dst[di]), inv)).min(255) as u8;
+                dst[di + 1] = (u16::from(pixels[si + 1]) + mul255(u16::from(dst[di + 1]), inv))
+                    .min(255) as u8;
+                dst[di + 2] = (u16::from(pixels[si + 2]) + mul255(u16::from(dst[di + 2]), inv))
+                    .min(255) as u8;
+                dst[di + 3] = (u16::from(pixels[si + 3]) + mul255(u16::from(dst[di + 3]), inv))
+                    .min(255) as u8;
             }
             si += 4;
             di += 4;
-- 
2.43.0


From 9b3e10a426fa3557143a2e16fb6b1c8d4410b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 38/69] fix: blurred text lands on the same pixels in frames
 and bitmap lists

---
 .../src/backends/software/cache/blur_tile.rs       | 14 ++++++++++----
 .../src/backends/software/text/blur.rs             |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 92ad0f0..5987aff 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -232,8 +232,8 @@ impl super::super::SoftwareBackend {
             return true;
         }
 
-        // Composite mode: draw the tile into the frame at the same fractional
-        // origin and SourceOver blend the blur branch uses on a hit.
+        // Composite mode: draw the tile into the frame at the same rounded
+        // origin and SourceOver blend the blur branch uses on a miss.
         if let Some(pixref) =
             tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
         {
@@ -241,8 +241,14 @@ impl super::super::SoftwareBackend {
                 blend_mode: tiny_skia::BlendMode::SourceOver,
                 ..Default::default()
             };
-            self.pixmap
-                .draw_pixmap(0, 0, pixref, &paint, Transform::from_translate(x, y), None);
+            self.pixmap.draw_pixmap(
+                0,
+                0,
+                pixref,
+                &paint,
+                Transform::from_translate(x.round(), y.round()),
+                None,
+            );
         }
         true
     }
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index ccbfc21..752f946 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -183,10 +183,11 @@ impl super::super::SoftwareBackend {
             {
                 // The baseline sits at `blur_size + ascent` inside the tile
                 // (see temp_transform), so offset the composite to land that
-                // baseline back on `baseline_y`.
+                // baseline back on `baseline_y`. Rounded here, as a cached tile
+                // emitted as a bitmap is, so that both land on the same pixels.
                 let blend_transform = Transform::from_translate(
-                    data.x - blur_size as f32,
-                    baseline_y - blur_size as f32 - shaped.ascent,
+                    (data.x - blur_size as f32).round(),
+                    (baseline_y - blur_size as f32 - shaped.ascent).round(),
                 );
                 let paint = tiny_skia::PixmapPaint {
                     blend_mode: tiny_skia::BlendMode::SourceOver,
-- 
2.43.0


From 8925629defb73ff7a44c86a69f91cabac63da75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 39/69] fix: bitmap lists include everything a text layer draws

---
 .../src/backends/software/dirty.rs            | 52 +++++++++++++++++--
 .../src/backends/software/text/prepare.rs     |  4 +-
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 8988e56..162bdc0 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -18,16 +18,23 @@ use super::cache::DIRTY_BBOX;
 use crate::backends::geometry::merge_transformed;
 
 /// A generous screen-space bbox covering a text layer's vector-path output
-/// (glyphs plus an outline/shadow/blur margin), or `None` if it has no geometry.
+/// (glyphs plus an outline/shadow/blur/box margin), or `None` if it has no
+/// geometry. Includes where the text would be without its transform (blurred
+/// bitmaps and underline/strikethrough are drawn there) and, for `\be`, the
+/// softened outline, which starts at the transform's origin.
 #[cfg(not(feature = "nostd"))]
 pub(super) fn text_vector_dirty_bbox(
     data: &crate::pipeline::TextData,
     paths: &[tiny_skia::Path],
     base_transform: Transform,
+    shaped: &crate::pipeline::shaping::ShapedText,
+    baseline_y: f32,
 ) -> Option<(i32, i32, i32, i32)> {
     use crate::pipeline::TextEffect;
-    let bounds = merge_transformed(paths, base_transform)?.bounds();
+    let mut bounds = merge_transformed(paths, base_transform)?.bounds();
     let (mut outline, mut shadow, mut blur) = (0.0_f32, 0.0_f32, 0.0_f32);
+    let mut padding = data.font_size * 0.1; // round caps of underline/strikethrough
+    let mut edge_blur = None;
     for effect in &data.effects {
         match effect {
             TextEffect::Outline {
@@ -36,14 +43,49 @@ pub(super) fn text_vector_dirty_bbox(
             TextEffect::Shadow {
                 x_offset, y_offset, ..
             } => shadow = shadow.max(x_offset.abs()).max(y_offset.abs()),
-            TextEffect::Blur { radius } | TextEffect::EdgeBlur { radius } => {
-                blur = blur.max(*radius)
+            TextEffect::Blur { radius } => blur = blur.max(*radius),
+            TextEffect::EdgeBlur { radius } => {
+                blur = blur.max(*radius);
+                edge_blur = Some(blur);
             }
+            TextEffect::OpaqueBox {
+                padding_x,
+                padding_y,
+                ..
+            } => padding = padding.max(*padding_x).max(*padding_y),
             _ => {}
         }
     }
+    let mut include = |area: Option<tiny_skia::Rect>| {
+        if let Some(area) = area {
+            bounds = tiny_skia::Rect::from_ltrb(
+                bounds.left().min(area.left()),
+                bounds.top().min(area.top()),
+                bounds.right().max(area.right()),
+                bounds.bottom().max(area.bottom()),
+            )
+            .unwrap_or(bounds);
+        }
+    };
+    let top = baseline_y - shaped.ascent;
+    include(tiny_skia::Rect::from_xywh(
+        data.x,
+        top,
+        shaped.width,
+        shaped.height,
+    ));
+    if let Some(radius) = edge_blur {
+        let around = radius * 3.0 + 1.0 + outline;
+        let area = tiny_skia::Rect::from_ltrb(
+            -around,
+            -around,
+            shaped.width + around,
+            shaped.height + around,
+        );
+        include(area.and_then(|a| a.transform(base_transform)));
+    }
     // Generous: box blur of radius r spreads ~r each side; ×4 leaves head-room.
-    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0;
+    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0 + padding;
     Some((
         (bounds.left() - margin).floor() as i32,
         (bounds.top() - margin).floor() as i32,
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 6a719d8..f14106e 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -210,7 +210,9 @@ impl super::super::SoftwareBackend {
         // Vector path (blur / swept karaoke / clip / opaque box / under-strike).
         // Record a generous dirty bbox so a bitmap-list crop scans only this region.
         #[cfg(not(feature = "nostd"))]
-        if let Some(bbox) = text_vector_dirty_bbox(data, &paths, base_transform) {
+        if let Some(bbox) =
+            text_vector_dirty_bbox(data, &paths, base_transform, &shaped, baseline_y)
+        {
             note_dirty_bbox(bbox);
         }
 
-- 
2.43.0


From e3cd8d9327626bd33dbd61df98c564ef3afa280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 40/69] fix: cached glyph outlines are for exactly the
 requested size

---
 crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
index ade0599..de7783f 100644
--- a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
@@ -24,7 +24,7 @@ pub struct GlyphRenderer {
 struct GlyphKey {
     font_id: FontId,
     glyph_id: u32,
-    size: u32, // Font size in fixed point (16.16)
+    size: u32, // Bits of the font size
 }
 
 impl Default for GlyphRenderer {
@@ -93,11 +93,11 @@ impl GlyphRenderer {
 
         // Render each glyph
         for (i, glyph) in shaped.glyphs.iter().enumerate() {
-            let size_fixed = (shaped.font_size * 65536.0) as u32; // Convert to 16.16 fixed point
+            let size_bits = shaped.font_size.to_bits();
             let key = GlyphKey {
                 font_id,
                 glyph_id: glyph.glyph_id,
-                size: size_fixed,
+                size: size_bits,
             };
 
             // Apply spacing to x position (accumulated for all previous glyphs)
-- 
2.43.0


From ba6e1806e49f2f86beccab5ed059624e9e9ad44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 41/69] fix: playback keeps its position over pauses and speed
 changes and copes with long scripts

---
 crates/ass-renderer/src/debug/player/mod.rs   |  3 ++-
 .../ass-renderer/src/debug/player/playback.rs | 19 ++++++++++++++++---
 .../ass-renderer/src/debug/player/render.rs   |  3 +--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/debug/player/mod.rs b/crates/ass-renderer/src/debug/player/mod.rs
index f838582..eeba1af 100644
--- a/crates/ass-renderer/src/debug/player/mod.rs
+++ b/crates/ass-renderer/src/debug/player/mod.rs
@@ -109,7 +109,8 @@ impl DebugPlayer {
                 for event in events.iter() {
                     event_count += 1;
                     if let Ok(end) = event.end_time_cs() {
-                        max_time = max_time.max(end * 10); // Convert centiseconds to milliseconds
+                        // Convert centiseconds to milliseconds
+                        max_time = max_time.max(end.saturating_mul(10));
                     }
                 }
             }
diff --git a/crates/ass-renderer/src/debug/player/playback.rs b/crates/ass-renderer/src/debug/player/playback.rs
index 682b611..1b108f0 100644
--- a/crates/ass-renderer/src/debug/player/playback.rs
+++ b/crates/ass-renderer/src/debug/player/playback.rs
@@ -21,6 +21,10 @@ impl super::DebugPlayer {
     }
 
     pub fn play(&mut self) {
+        if self.is_playing {
+            // Keep what has been played since the last update
+            return;
+        }
         self.is_playing = true;
         self.playback_start_instant = Some(Instant::now());
         self.playback_start_time_ms = self.current_time_ms;
@@ -31,12 +35,20 @@ impl super::DebugPlayer {
         );
     }
 
+    /// Timeline position `elapsed_ms` (already scaled by the speed) after the
+    /// time accumulated since playback started
+    pub(super) fn playback_position_ms(&self, elapsed_ms: f32) -> u32 {
+        self.playback_start_time_ms
+            .saturating_add((elapsed_ms + self.accumulated_time_ms) as u32)
+    }
+
     pub fn pause(&mut self) {
         if self.is_playing {
             // Save accumulated time
             if let Some(start) = self.playback_start_instant {
                 let elapsed = start.elapsed().as_secs_f32() * 1000.0 * self.playback_speed;
                 self.accumulated_time_ms += elapsed;
+                self.current_time_ms = self.playback_position_ms(0.0).min(self.end_time_ms);
             }
         }
         self.is_playing = false;
@@ -75,7 +87,6 @@ impl super::DebugPlayer {
                 let elapsed = start.elapsed().as_secs_f32() * 1000.0 * self.playback_speed;
                 self.accumulated_time_ms += elapsed;
                 self.playback_start_instant = Some(Instant::now());
-                self.playback_start_time_ms = self.current_time_ms;
             }
         }
         self.playback_speed = speed.clamp(0.1, 10.0);
@@ -83,8 +94,10 @@ impl super::DebugPlayer {
     }
 
     pub fn step_forward(&mut self) {
-        self.current_time_ms =
-            (self.current_time_ms + self.frame_interval_ms).min(self.end_time_ms);
+        self.current_time_ms = self
+            .current_time_ms
+            .saturating_add(self.frame_interval_ms)
+            .min(self.end_time_ms);
         if self.is_playing {
             self.playback_start_instant = Some(Instant::now());
             self.playback_start_time_ms = self.current_time_ms;
diff --git a/crates/ass-renderer/src/debug/player/render.rs b/crates/ass-renderer/src/debug/player/render.rs
index dd1804b..6033bac 100644
--- a/crates/ass-renderer/src/debug/player/render.rs
+++ b/crates/ass-renderer/src/debug/player/render.rs
@@ -88,8 +88,7 @@ impl super::DebugPlayer {
         // Calculate the actual timeline position based on real elapsed time
         if let Some(start_instant) = self.playback_start_instant {
             let elapsed_ms = start_instant.elapsed().as_secs_f32() * 1000.0 * self.playback_speed;
-            self.current_time_ms =
-                self.playback_start_time_ms + (elapsed_ms + self.accumulated_time_ms) as u32;
+            self.current_time_ms = self.playback_position_ms(elapsed_ms);
 
             if self.current_time_ms >= self.end_time_ms {
                 if self.loop_playback {
-- 
2.43.0


From 7f61cb94b84cd88c2923ebf270d6bc5eb8969aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 42/69] fix: timestamps and event totals too large for their
 type are errors or saturate, not overflows

---
 crates/ass-core/analysis/events/scoring/calculators.rs | 2 +-
 crates/ass-core/analysis/events/utils/duration.rs      | 4 ++--
 crates/ass-core/utils/time.rs                          | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/analysis/events/scoring/calculators.rs b/crates/ass-core/analysis/events/scoring/calculators.rs
index 2f36afa..289f3f2 100644
--- a/crates/ass-core/analysis/events/scoring/calculators.rs
+++ b/crates/ass-core/analysis/events/scoring/calculators.rs
@@ -51,7 +51,7 @@ pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
             "p" => 8,
             _ => 2,
         })
-        .sum::<u8>()
+        .fold(0_u8, u8::saturating_add)
         .min(10)
 }
 
diff --git a/crates/ass-core/analysis/events/utils/duration.rs b/crates/ass-core/analysis/events/utils/duration.rs
index 2c40258..cbeb9ad 100644
--- a/crates/ass-core/analysis/events/utils/duration.rs
+++ b/crates/ass-core/analysis/events/utils/duration.rs
@@ -76,6 +76,6 @@ pub fn calculate_average_duration(events: &[DialogueInfo<'_>]) -> Option<u32> {
         return None;
     }
 
-    let total_duration: u32 = events.iter().map(DialogueInfo::duration_cs).sum();
-    Some(total_duration / u32::try_from(events.len()).unwrap_or(u32::MAX))
+    let total_duration: u64 = events.iter().map(|e| u64::from(e.duration_cs())).sum();
+    u32::try_from(total_duration / events.len() as u64).ok()
 }
diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..1a3c583 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,11 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    hours
+        .checked_mul(360_000)
+        .and_then(|cs| cs.checked_add(minutes * 6_000 + seconds * 100))
+        .and_then(|cs| cs.checked_add(centiseconds))
+        .ok_or_else(|| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From d09efce4a7056c643d8745e73a34c8931f25b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 43/69] fix: editor event queries and completion survive any
 line and cursor position

---
 crates/ass-editor/core/fluent/event_query_filter.rs        | 7 ++++++-
 .../extensions/builtin/auto_complete/completions.rs        | 3 ++-
 .../ass-editor/extensions/builtin/auto_complete/context.rs | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/fluent/event_query_filter.rs b/crates/ass-editor/core/fluent/event_query_filter.rs
index f0bf6f1..11bc1f6 100644
--- a/crates/ass-editor/core/fluent/event_query_filter.rs
+++ b/crates/ass-editor/core/fluent/event_query_filter.rs
@@ -118,7 +118,12 @@ impl EventQuery<'_> {
             .parse()
             .map_err(|_| EditorError::command_failed("Invalid centiseconds"))?;
 
-        Ok(hours * 360000 + minutes * 6000 + seconds * 100 + centiseconds)
+        hours
+            .checked_mul(360_000)
+            .zip(minutes.checked_mul(6_000))
+            .zip(seconds.checked_mul(100))
+            .and_then(|((h, m), s)| h.checked_add(m)?.checked_add(s)?.checked_add(centiseconds))
+            .ok_or_else(|| EditorError::command_failed("Time out of range"))
     }
 
     pub(super) fn compare_by_criteria(
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
index 018e0f8..33d1f57 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
@@ -25,7 +25,8 @@ impl AutoCompleteExtension {
         ];
 
         let prefix = if context.line.starts_with('[') {
-            &context.line[1..context.column.min(context.line.len())]
+            let end = context.column.clamp(1, context.line.len());
+            context.line.get(1..end).unwrap_or("")
         } else {
             ""
         };
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/context.rs b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
index f5e67bb..32c90ed 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/context.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
@@ -18,7 +18,10 @@ impl AutoCompleteExtension {
         position: Position,
     ) -> Result<CompletionContext> {
         let content = document.text();
-        let offset = position.offset;
+        let mut offset = position.offset.min(content.len());
+        while !content.is_char_boundary(offset) {
+            offset -= 1;
+        }
 
         // Find current line
         let line_start = content[..offset].rfind('\n').map(|p| p + 1).unwrap_or(0);
-- 
2.43.0


From 9605d353b40c1bf69e969a69a7582bc3ee08b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 44/69] fix: search results lie where the match is, follow
 edits, and respect scope and options

---
 crates/ass-editor/utils/indexing/common.rs    |  25 +++
 crates/ass-editor/utils/indexing/fst_build.rs |   9 +-
 .../ass-editor/utils/indexing/fst_search.rs   |   9 +-
 crates/ass-editor/utils/indexing/linear.rs    |  39 +++-
 crates/ass-editor/utils/search/basic.rs       | 204 +++++++++++-------
 crates/ass-editor/utils/search/incremental.rs | 172 +--------------
 crates/ass-editor/utils/search/index.rs       |  57 +++--
 crates/ass-editor/utils/search/query.rs       |  96 +++++----
 .../ass-editor/utils/search/regex_search.rs   |  67 +-----
 9 files changed, 277 insertions(+), 401 deletions(-)

diff --git a/crates/ass-editor/utils/indexing/common.rs b/crates/ass-editor/utils/indexing/common.rs
index 1e5c6fd..36d7281 100644
--- a/crates/ass-editor/utils/indexing/common.rs
+++ b/crates/ass-editor/utils/indexing/common.rs
@@ -27,6 +27,31 @@ pub struct IndexEntry {
     pub section_type: Option<String>,
 }
 
+/// Whether a character is part of a word of the FST index
+#[cfg(feature = "search-index")]
+pub(super) fn is_word_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_'
+}
+
+impl IndexEntry {
+    /// The word this entry is for, as it stands in the document
+    pub(super) fn word(&self, is_word_char: impl Fn(char) -> bool) -> &str {
+        let word = &self.context[self.column..];
+        &word[..word.find(|ch| !is_word_char(ch)).unwrap_or(word.len())]
+    }
+}
+
+/// Split a text into lines, each with the byte offset it starts at
+pub(super) fn lines_with_offsets(text: &str) -> impl Iterator<Item = (usize, &str)> {
+    let mut next = 0;
+    text.split_inclusive('\n').map(move |full| {
+        let start = next;
+        next += full.len();
+        let line = full.strip_suffix('\n').unwrap_or(full);
+        (start, line.strip_suffix('\r').unwrap_or(line))
+    })
+}
+
 /// Simple hash function for content change detection
 pub(super) fn calculate_hash(content: &str) -> u64 {
     // Simple FNV hash - in production might use a proper hasher
diff --git a/crates/ass-editor/utils/indexing/fst_build.rs b/crates/ass-editor/utils/indexing/fst_build.rs
index de58176..a95e69f 100644
--- a/crates/ass-editor/utils/indexing/fst_build.rs
+++ b/crates/ass-editor/utils/indexing/fst_build.rs
@@ -1,6 +1,6 @@
 //! Word extraction and FST construction for [`FstSearchIndex`].
 
-use super::common::IndexEntry;
+use super::common::{is_word_char, lines_with_offsets, IndexEntry};
 use super::fst::FstSearchIndex;
 use crate::core::{Position, Result};
 
@@ -13,10 +13,9 @@ impl FstSearchIndex {
     /// Extract words and positions from document content
     pub(super) fn extract_words(&self, content: &str) -> Vec<(String, IndexEntry)> {
         let mut words = Vec::new();
-        let mut line_start = 0;
         let mut current_section = None;
 
-        for (current_line, line) in content.lines().enumerate() {
+        for (current_line, (line_start, line)) in lines_with_offsets(content).enumerate() {
             // Track current section
             if line.starts_with('[') && line.ends_with(']') {
                 current_section = Some(line[1..line.len() - 1].to_string());
@@ -27,7 +26,7 @@ impl FstSearchIndex {
             let mut in_word = false;
 
             for (char_offset, ch) in line.char_indices() {
-                if ch.is_alphanumeric() || ch == '_' {
+                if is_word_char(ch) {
                     if !in_word {
                         word_start = char_offset;
                         in_word = true;
@@ -64,8 +63,6 @@ impl FstSearchIndex {
                     words.push((word.to_lowercase(), entry));
                 }
             }
-
-            line_start += line.len() + 1; // +1 for newline
         }
 
         words
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 86cebfa..02e77f5 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -1,6 +1,6 @@
 //! [`DocumentSearch`] implementation for [`FstSearchIndex`].
 
-use super::common::calculate_hash;
+use super::common::{calculate_hash, is_word_char};
 use super::fst::FstSearchIndex;
 use crate::core::{EditorDocument, Position, Range, Result};
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
@@ -69,10 +69,13 @@ impl DocumentSearch for FstSearchIndex {
                     for entry in entries {
                         // Apply scope filtering
                         if self.matches_scope(entry, &options.scope) {
+                            // The whole word matched, not necessarily a run of
+                            // characters in it
+                            let word = entry.word(is_word_char);
                             results.push(SearchResult {
                                 start: entry.position,
-                                end: Position::new(entry.position.offset + pattern.len()),
-                                text: std::borrow::Cow::Owned(pattern.to_string()),
+                                end: Position::new(entry.position.offset + word.len()),
+                                text: std::borrow::Cow::Owned(word.to_string()),
                                 context: std::borrow::Cow::Owned(entry.context.clone()),
                                 line: entry.line,
                                 column: entry.column,
diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index d6fca10..f8b7b85 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -1,6 +1,6 @@
 //! Linear search index fallback used when the FST backend is unavailable.
 
-use super::common::{calculate_hash, IndexEntry};
+use super::common::{calculate_hash, lines_with_offsets, IndexEntry};
 use crate::core::{EditorDocument, Position, Range, Result};
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
@@ -56,6 +56,19 @@ impl LinearSearchIndex {
     }
 }
 
+/// Byte range of the first part of `word` that reads `query` in lowercase
+fn find_lowercase(word: &str, query: &str) -> Option<(usize, usize)> {
+    let ends = |from: usize| {
+        let ends = word[from..].char_indices().map(move |(i, _)| from + i);
+        ends.chain(core::iter::once(word.len()))
+    };
+    word.char_indices().map(|(from, _)| from).find_map(|from| {
+        ends(from)
+            .find(|&to| word[from..to].to_lowercase() == query)
+            .map(|to| (from, to))
+    })
+}
+
 impl DocumentSearch for LinearSearchIndex {
     fn build_index(&mut self, document: &EditorDocument) -> Result<()> {
         let content = document.text();
@@ -74,10 +87,9 @@ impl DocumentSearch for LinearSearchIndex {
         // Simple word extraction for linear search
         self.word_positions.clear();
 
-        let mut line_start = 0;
-
-        for (current_line, line) in content.lines().enumerate() {
-            for (word_start, word) in line.split_whitespace().enumerate() {
+        for (current_line, (line_start, line)) in lines_with_offsets(&content).enumerate() {
+            for word in line.split_whitespace() {
+                let word_start = word.as_ptr() as usize - line.as_ptr() as usize;
                 let entry = IndexEntry {
                     position: Position::new(line_start + word_start),
                     context: line.to_string(),
@@ -90,7 +102,6 @@ impl DocumentSearch for LinearSearchIndex {
                     .or_default()
                     .push(entry);
             }
-            line_start += line.len() + 1;
         }
 
         Ok(())
@@ -108,17 +119,22 @@ impl DocumentSearch for LinearSearchIndex {
         for (word, entries) in &self.word_positions {
             if word.contains(&query) {
                 for entry in entries {
+                    let word = entry.word(|ch| !ch.is_whitespace());
+                    let Some((from, to)) = find_lowercase(word, &query) else {
+                        continue;
+                    };
                     results.push(SearchResult {
-                        start: entry.position,
-                        end: Position::new(entry.position.offset + pattern.len()),
-                        text: Cow::Owned(pattern.to_string()),
+                        start: Position::new(entry.position.offset + from),
+                        end: Position::new(entry.position.offset + to),
+                        text: Cow::Owned(word[from..to].to_string()),
                         context: Cow::Owned(entry.context.clone()),
                         line: entry.line,
-                        column: entry.column,
+                        column: entry.column + from,
                     });
                 }
             }
         }
+        results.sort_by_key(|r| r.start.offset);
 
         Ok(results)
     }
@@ -132,7 +148,8 @@ impl DocumentSearch for LinearSearchIndex {
     ) -> Result<Vec<SearchResult<'a>>> {
         let results = self.search(pattern, options)?;
 
-        for result in &results {
+        // Apply replacements in reverse order to maintain position validity
+        for result in results.iter().rev() {
             let range = Range::new(result.start, result.end);
             document.replace(range, replacement)?;
         }
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 99b3f39..8fa5aa0 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -1,8 +1,8 @@
-//! Basic (non-indexed) substring search
+//! Substring search over the document text
 //!
-//! Implements the fallback text search used by
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) when no FST index is
-//! available or the `search-index` feature is disabled.
+//! Implements the text search used by
+//! [`DocumentSearchImpl`](super::DocumentSearchImpl), over the whole search scope
+//! when no FST index can answer, and over the words picked by the index otherwise.
 
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult, SearchScope};
@@ -15,7 +15,27 @@ use std::borrow::Cow;
 use alloc::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{
+    string::{String, ToString},
+    vec,
+    vec::Vec,
+};
+
+/// Whether a character is part of a word, as the index sees it
+pub(super) fn is_word_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_'
+}
+
+/// The form a character is compared in when case does not matter
+fn fold_char(ch: char) -> impl Iterator<Item = char> {
+    // Both lowercase sigmas stand for the same capital
+    ch.to_lowercase().map(|c| if c == 'ς' { 'σ' } else { c })
+}
+
+/// The form a text is compared in when case does not matter
+pub(super) fn fold(text: &str) -> String {
+    text.chars().flat_map(fold_char).collect()
+}
 
 impl DocumentSearchImpl {
     /// Perform basic text search without FST indexing
@@ -25,36 +45,115 @@ impl DocumentSearchImpl {
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'static>>> {
         let mut results = Vec::new();
-        let search_pattern = if options.case_sensitive {
-            pattern.to_string()
-        } else {
-            pattern.to_lowercase()
-        };
+        let (start, end) = self.scope_bounds(&options.scope);
+        self.scan(start, end, pattern, options, &mut results);
+        Ok(results)
+    }
+
+    /// Find the non-overlapping matches of `pattern` between two byte offsets of
+    /// the cached text
+    pub(super) fn scan(
+        &self,
+        from: usize,
+        to: usize,
+        pattern: &str,
+        options: &SearchOptions,
+        results: &mut Vec<SearchResult<'static>>,
+    ) {
+        if pattern.is_empty() {
+            return;
+        }
+        let region = &self.cached_text[from..to];
 
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
+        // Folding can change how many bytes a character takes: remember where
+        // each character of the folded text begins in the original
+        let (needle, haystack, origins) = if options.case_sensitive {
+            (pattern.to_string(), Cow::Borrowed(region), None)
         } else {
-            Cow::Owned(self.cached_text.to_lowercase())
+            let mut folded = String::with_capacity(region.len());
+            let mut origins = vec![None; region.len() + 1];
+            for (i, ch) in region.char_indices() {
+                origins.resize(origins.len().max(folded.len() + 1), None);
+                origins[folded.len()] = Some(i);
+                folded.extend(fold_char(ch));
+            }
+            origins.resize(folded.len() + 1, None);
+            origins[folded.len()] = Some(region.len());
+            (fold(pattern), Cow::Owned(folded), Some(origins))
+        };
+        let origin = |at: usize| match &origins {
+            Some(origins) => origins[at],
+            None => Some(at),
         };
 
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, search_text.len()),
-            SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
+        let mut next = 0;
+        while let Some(found) = haystack[next..].find(needle.as_str()) {
+            let start = next + found;
+            let end = start + needle.len();
+            next = start + haystack[start..].chars().next().map_or(1, char::len_utf8);
+
+            // Part of what one character was folded to is not a match
+            let Some((match_start, match_end)) = origin(start).zip(origin(end)) else {
+                continue;
+            };
+            let (match_start, match_end) = (from + match_start, from + match_end);
+            if options.whole_words && !self.is_whole_word(match_start, match_end) {
+                continue;
             }
+            next = end;
+            results.push(self.result_at(match_start, match_end));
+
+            if options.max_results > 0 && results.len() >= options.max_results {
+                break;
+            }
+        }
+    }
+
+    /// Describe the match between two byte offsets of the cached text
+    pub(super) fn result_at(&self, start: usize, end: usize) -> SearchResult<'static> {
+        let before = &self.cached_text[..start];
+        // The line containing the match is its context
+        let line_start = before.rfind('\n').map_or(0, |i| i + 1);
+        let line_end = self.cached_text[start..]
+            .find('\n')
+            .map_or(self.cached_text.len(), |i| start + i);
+
+        SearchResult {
+            start: Position::new(start),
+            end: Position::new(end),
+            text: Cow::Owned(self.cached_text[start..end].to_string()),
+            context: Cow::Owned(self.cached_text[line_start..line_end].to_string()),
+            line: before.matches('\n').count(),
+            column: start - line_start,
+        }
+    }
+
+    /// Whether no word continues across either end of a match
+    fn is_whole_word(&self, start: usize, end: usize) -> bool {
+        let before = self.cached_text[..start].chars().next_back();
+        let after = self.cached_text[end..].chars().next();
+        !before.is_some_and(is_word_char) && !after.is_some_and(is_word_char)
+    }
+
+    /// Byte bounds of a search scope within the cached text, on character
+    /// boundaries and in order
+    pub(super) fn scope_bounds(&self, scope: &SearchScope) -> (usize, usize) {
+        let text = &self.cached_text;
+        let (start, end) = match scope {
+            SearchScope::All => (0, text.len()),
+            SearchScope::Range(range) => (range.start.offset, range.end.offset),
             SearchScope::Lines { start, end } => {
                 // Calculate byte offsets for line range
                 let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = search_text.len();
+                let mut start_offset = if *start > 0 { text.len() } else { 0 };
+                let mut end_offset = text.len();
 
-                for (i, ch) in search_text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
+                for (i, ch) in text.char_indices() {
                     if ch == '\n' {
                         line_num += 1;
+                        if line_num == *start {
+                            start_offset = i + 1;
+                        }
                         if line_num > *end {
                             end_offset = i;
                             break;
@@ -66,57 +165,18 @@ impl DocumentSearchImpl {
             SearchScope::Sections(_) => {
                 // For sections, would need to parse and identify section boundaries
                 // For now, search entire document
-                (0, search_text.len())
+                (0, text.len())
             }
         };
 
-        let search_region = &search_text[search_start..search_end];
-        let mut region_offset = 0;
-
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-
-            for (i, ch) in self.cached_text[..absolute_idx].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-
-            let column = absolute_idx - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = self.cached_text[..absolute_idx]
-                .rfind('\n')
-                .map(|i| i + 1)
-                .unwrap_or(0);
-            let context_end = self.cached_text[absolute_idx..]
-                .find('\n')
-                .map(|i| absolute_idx + i)
-                .unwrap_or(self.cached_text.len());
-            let context = self.cached_text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(absolute_idx),
-                end: Position::new(match_end),
-                text: Cow::Owned(self.cached_text[absolute_idx..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
+        let snap = |offset: usize| {
+            let mut offset = offset.min(text.len());
+            while !text.is_char_boundary(offset) {
+                offset -= 1;
             }
-
-            region_offset += match_idx + 1;
-        }
-
-        Ok(results)
+            offset
+        };
+        let start = snap(start);
+        (start, snap(end).max(start))
     }
 }
diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..4df3fd1 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -1,32 +1,12 @@
-//! Incremental search-index updates
+//! Search-index updates
 //!
-//! Implements the incremental re-indexing path for
+//! Implements the re-indexing path for
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl) used when a document
 //! changes after an initial index build.
 
 use super::engine::DocumentSearchImpl;
-use crate::core::{EditorDocument, Range, Result};
-
-#[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
+use crate::core::{EditorDocument, Range, Result};
 
 impl DocumentSearchImpl {
     pub(super) fn update_index_impl(
@@ -38,148 +18,8 @@ impl DocumentSearchImpl {
             return Ok(());
         }
 
-        // Update cached text first
-        self.cached_text = document.text();
-
-        // For non-FST search, we're done after updating the text
-        #[cfg(not(feature = "search-index"))]
-        {
-            self.document_version += 1;
-            self.result_cache.clear();
-            Ok(())
-        }
-
-        // For FST search, perform incremental updates
-        #[cfg(feature = "search-index")]
-        {
-            // Calculate total change size
-            let total_change_size: usize = changes
-                .iter()
-                .map(|r| r.end.offset.saturating_sub(r.start.offset))
-                .sum();
-
-            // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
-                return self.build_index(document);
-            }
-
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
-
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
-                    }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
-            }
-
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
-            }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
-
-            // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
-
-            // Update statistics
-            self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
-        }
+        // The ranges say what was replaced but not how long the new text is, so
+        // the words after a change cannot be moved without reading the document
+        self.build_index(document)
     }
 }
diff --git a/crates/ass-editor/utils/search/index.rs b/crates/ass-editor/utils/search/index.rs
index b28ba4d..c30c6a1 100644
--- a/crates/ass-editor/utils/search/index.rs
+++ b/crates/ass-editor/utils/search/index.rs
@@ -6,6 +6,9 @@
 
 use super::engine::DocumentSearchImpl;
 
+#[cfg(feature = "search-index")]
+use super::basic::{fold, is_word_char};
+
 #[cfg(feature = "search-index")]
 use crate::core::{Position, Result};
 
@@ -33,58 +36,46 @@ impl DocumentSearchImpl {
     pub(super) fn extract_words<'a>(&self, text: &'a str) -> Vec<(Cow<'a, str>, Vec<Position>)> {
         let mut words: HashMap<Cow<'a, str>, Vec<Position>> = HashMap::new();
         let mut word_start_byte = None;
-        let mut current_word = String::new();
-        let mut word_start_idx = 0;
 
         for (byte_idx, ch) in text.char_indices() {
-            if ch.is_alphanumeric() || ch == '_' {
+            if is_word_char(ch) {
                 if word_start_byte.is_none() {
                     word_start_byte = Some(byte_idx);
-                    word_start_idx = byte_idx;
                 }
-                current_word.push(ch);
             } else {
                 if let Some(start_byte) = word_start_byte {
-                    if !current_word.is_empty() {
-                        // Use Cow to avoid allocation when possible
-                        let word_slice = &text[word_start_idx..byte_idx];
-                        let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                            Cow::Borrowed(word_slice)
-                        } else {
-                            Cow::Owned(current_word.to_lowercase())
-                        };
-
-                        words
-                            .entry(word_key)
-                            .or_default()
-                            .push(Position::new(start_byte));
-                    }
+                    // Use Cow to avoid allocation when possible
+                    words
+                        .entry(Self::word_key(&text[start_byte..byte_idx]))
+                        .or_default()
+                        .push(Position::new(start_byte));
                 }
-                current_word.clear();
                 word_start_byte = None;
             }
         }
 
         // Handle final word
         if let Some(start_byte) = word_start_byte {
-            if !current_word.is_empty() {
-                let word_slice = &text[word_start_idx..];
-                let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                    Cow::Borrowed(word_slice)
-                } else {
-                    Cow::Owned(current_word.to_lowercase())
-                };
-
-                words
-                    .entry(word_key)
-                    .or_default()
-                    .push(Position::new(start_byte));
-            }
+            words
+                .entry(Self::word_key(&text[start_byte..]))
+                .or_default()
+                .push(Position::new(start_byte));
         }
 
         words.into_iter().collect()
     }
 
+    /// The key a word is indexed under
+    #[cfg(feature = "search-index")]
+    fn word_key(word: &str) -> Cow<'_, str> {
+        let folded = fold(word);
+        if folded == word {
+            Cow::Borrowed(word)
+        } else {
+            Cow::Owned(folded)
+        }
+    }
+
     /// Build FST from word list
     #[cfg(feature = "search-index")]
     pub(super) fn build_fst(&self, words: &[(Cow<str>, Vec<Position>)]) -> Result<Set<Vec<u8>>> {
diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 2f00fbe..7544f70 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -16,7 +16,7 @@ use std::time::Instant;
 type Instant = u64;
 
 #[cfg(feature = "search-index")]
-use crate::core::Position;
+use super::basic::{fold, is_word_char};
 
 #[cfg(feature = "search-index")]
 use fst::{automaton, IntoStreamer, Streamer};
@@ -25,7 +25,7 @@ use fst::{automaton, IntoStreamer, Streamer};
 use alloc::{string::ToString, vec::Vec};
 
 #[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String};
+use alloc::string::String;
 
 impl DocumentSearchImpl {
     pub(super) fn search_impl<'a>(
@@ -59,52 +59,12 @@ impl DocumentSearchImpl {
             // Check if we should use FST or basic search
             #[cfg(feature = "search-index")]
             {
-                if let Some(ref fst) = self.word_index {
-                    // Use FST for search
-                    let search_pattern = if options.case_sensitive {
-                        pattern.to_string()
-                    } else {
-                        pattern.to_lowercase()
-                    };
-
-                    let mut results = Vec::new();
-
-                    // Create automaton for prefix search
-                    let mut stream = fst
-                        .search(automaton::Str::new(&search_pattern))
-                        .into_stream();
-
-                    while let Some(key) = stream.next() {
-                        let word = String::from_utf8_lossy(key);
-                        if let Some(positions) = self.word_positions.get(word.as_ref()) {
-                            for &pos in positions {
-                                results.push(SearchResult {
-                                    start: pos,
-                                    end: Position::new(pos.offset + pattern.len()),
-                                    text: std::borrow::Cow::Owned(pattern.to_string()),
-                                    context: std::borrow::Cow::Owned(format!(
-                                        "Offset {}",
-                                        pos.offset
-                                    )),
-                                    line: 0, // Would need document context to calculate actual line
-                                    column: pos.offset,
-                                });
-
-                                if options.max_results > 0 && results.len() >= options.max_results {
-                                    break;
-                                }
-                            }
-                        }
-
-                        if options.max_results > 0 && results.len() >= options.max_results {
-                            break;
-                        }
+                match &self.word_index {
+                    Some(fst) if fold(pattern).chars().all(is_word_char) => {
+                        self.indexed_search(fst, pattern, options)
                     }
-
-                    results
-                } else {
-                    // FST index not built yet, use basic search
-                    self.basic_search(pattern, options)?
+                    // A pattern across words is not in the index
+                    _ => self.basic_search(pattern, options)?,
                 }
             }
             #[cfg(not(feature = "search-index"))]
@@ -121,4 +81,46 @@ impl DocumentSearchImpl {
 
         Ok(results)
     }
+
+    /// Search the words the index holds for `pattern`
+    #[cfg(feature = "search-index")]
+    fn indexed_search(
+        &self,
+        fst: &fst::Set<Vec<u8>>,
+        pattern: &str,
+        options: &SearchOptions,
+    ) -> Vec<SearchResult<'static>> {
+        let query = fold(pattern);
+
+        // Find where the words that contain the pattern are, in document order
+        let mut words = Vec::new();
+        let mut stream = fst
+            .search(automaton::Subsequence::new(&query))
+            .into_stream();
+        while let Some(key) = stream.next() {
+            let word = String::from_utf8_lossy(key);
+            if word.contains(&query) {
+                if let Some(positions) = self.word_positions.get(word.as_ref()) {
+                    words.extend(positions.iter().map(|position| position.offset));
+                }
+            }
+        }
+        words.sort_unstable();
+
+        let (scope_start, scope_end) = self.scope_bounds(&options.scope);
+        let mut results = Vec::new();
+        for word_start in words {
+            let word_end = self.cached_text[word_start..]
+                .find(|ch| !is_word_char(ch))
+                .map_or(self.cached_text.len(), |len| word_start + len);
+            let (from, to) = (word_start.max(scope_start), word_end.min(scope_end));
+            if from < to {
+                self.scan(from, to, pattern, options, &mut results);
+            }
+            if options.max_results > 0 && results.len() >= options.max_results {
+                break;
+            }
+        }
+        results
+    }
 }
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 92dbd0d..8ee66ee 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -8,13 +8,10 @@
 use super::engine::DocumentSearchImpl;
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use super::options::{SearchOptions, SearchResult, SearchScope};
+use super::options::{SearchOptions, SearchResult};
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use crate::core::{Position, Result};
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use std::borrow::Cow;
+use crate::core::Result;
 
 #[cfg(all(feature = "formats", feature = "std"))]
 use regex::Regex;
@@ -43,37 +40,7 @@ impl DocumentSearchImpl {
         let mut results = Vec::new();
         let text = &self.cached_text;
 
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = text.len();
-
-                for (i, ch) in text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_sections) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
-        };
-
+        let (search_start, search_end) = self.scope_bounds(&options.scope);
         let search_text = &text[search_start..search_end];
 
         // Find all matches
@@ -81,33 +48,7 @@ impl DocumentSearchImpl {
             let match_start = search_start + mat.start();
             let match_end = search_start + mat.end();
 
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-            for (i, ch) in text[..match_start].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-            let column = match_start - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = text[..match_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let context_end = text[match_start..]
-                .find('\n')
-                .map(|i| match_start + i)
-                .unwrap_or(text.len());
-            let context = text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(match_start),
-                end: Position::new(match_end),
-                text: Cow::Owned(text[match_start..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
+            results.push(self.result_at(match_start, match_end));
 
             if options.max_results > 0 && results.len() >= options.max_results {
                 break;
-- 
2.43.0


From 1ab065d2d2a1c73cab44fae4db688b6208031ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 45/69] fix: a digit tag followed by a multi-byte character no
 longer panics the renderer

---
 crates/ass-renderer/src/pipeline/text_segmenter/split.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index f231f1f..08c702a 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -62,11 +62,7 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
         // letter before the `&H`, very common in real scripts — 6500+ times in
         // the benchmark) still resolves to `1c` rather than an unknown `1cH`;
         // parse_color / parse_alpha tolerate the leftover prefix.
-        if part.len() >= 2 {
-            (&part[..2], &part[2..])
-        } else {
-            (part, "")
-        }
+        part.split_at(part.chars().take(2).map(char::len_utf8).sum())
     } else if let Some(idx) = part.find(|c: char| !c.is_ascii_alphabetic()) {
         (&part[..idx], &part[idx..])
     } else {
-- 
2.43.0


From 5883c75345a0f0ca0a143391509238fe10ffcde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 46/69] fix: renderer times no longer overflow at the end of
 the clock

---
 crates/ass-renderer/src/pipeline/build/animation.rs   |  2 +-
 crates/ass-renderer/src/pipeline/build/text/colors.rs |  8 ++++----
 crates/ass-renderer/src/pipeline/build/text/mod.rs    | 11 +++++++----
 .../ass-renderer/src/pipeline/tag_processor/parse.rs  |  4 ++--
 crates/ass-renderer/src/renderer/event_selector.rs    |  2 +-
 5 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..9a788ca 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -27,7 +27,7 @@ impl super::SoftwarePipeline {
 
             // Calculate time relative to event start (convert to milliseconds for animation)
             let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs) * 10 // Convert centiseconds to milliseconds
+                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
             } else {
                 0
             };
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index d21ca1e..7ee0d8e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -110,9 +110,9 @@ pub(super) fn resolve_run_colors(
                 alpha_mid as f32,
                 fade.alpha_end as f32,
             );
-            let t1 = event_start + fade.time_start;
-            let t2 = t1 + fade.time_fade_in.unwrap_or(0);
-            let t4 = event_start + fade.time_end;
+            let t1 = event_start.saturating_add(fade.time_start);
+            let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
+            let t4 = event_start.saturating_add(fade.time_end);
             let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
             let ass_alpha = if time_cs <= t1 {
                 a1
@@ -129,7 +129,7 @@ pub(super) fn resolve_run_colors(
             255.0 - ass_alpha
         } else {
             // Simple fade - times are durations
-            let fade_in_end = event_start + fade.time_start;
+            let fade_in_end = event_start.saturating_add(fade.time_start);
             let fade_out_start = event_end.saturating_sub(fade.time_end);
 
             if time_cs < fade_in_end {
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 2893b2d..0fffcf7 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -275,9 +275,11 @@ impl super::SoftwarePipeline {
                 // Handle karaoke - track per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
                     // Calculate progress for THIS syllable based on cumulative timing
-                    let syllable_start =
-                        event.start_time_cs().unwrap_or(0) + karaoke_accumulated_time;
-                    let syllable_end = syllable_start + karaoke.duration;
+                    let syllable_start = event
+                        .start_time_cs()
+                        .unwrap_or(0)
+                        .saturating_add(karaoke_accumulated_time);
+                    let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
                         0.0 // Not yet started
@@ -307,7 +309,8 @@ impl super::SoftwarePipeline {
                     });
 
                     // Accumulate time for next syllable
-                    karaoke_accumulated_time += karaoke.duration;
+                    karaoke_accumulated_time =
+                        karaoke_accumulated_time.saturating_add(karaoke.duration);
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..76d19eb 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -174,8 +174,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index 8f4701b..59eb83d 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -154,7 +154,7 @@ impl EventSelector {
             || self.has_animated_events(&active_events, time_cs)
             || self
                 .last_timestamp
-                .is_none_or(|last| (time_cs as i32 - last as i32).abs() > 100);
+                .is_none_or(|last| time_cs.abs_diff(last) > 100);
 
         // Update state
         self.previous_active = current_active;
-- 
2.43.0


From e74d503b800c547fa6744800507b76d9c1ca50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 47/69] fix: extreme borders, blurs and scales are bounded
 instead of overflowing or exhausting memory

---
 crates/ass-renderer/src/backends/blur.rs      | 89 +++++++++++++++++--
 .../src/backends/coverage/composite.rs        | 12 +--
 .../ass-renderer/src/backends/coverage/mod.rs | 21 +++--
 crates/ass-renderer/src/backends/geometry.rs  | 49 +++++++++-
 .../src/backends/software/cache/blur_tile.rs  | 16 +++-
 .../src/backends/software/cache/coverage.rs   | 38 +++++---
 .../src/backends/software/dirty.rs            | 11 ++-
 .../src/backends/software/text/blur.rs        |  6 +-
 .../src/backends/software/text/decorations.rs |  6 +-
 .../src/backends/software/text/prepare.rs     | 11 ++-
 .../src/backends/software/vector.rs           | 11 +--
 .../src/pipeline/build/drawing.rs             |  2 +-
 .../src/pipeline/build/text/effects.rs        |  5 +-
 13 files changed, 221 insertions(+), 56 deletions(-)

diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index 58d3cbb..858b095 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -6,6 +6,23 @@
 
 use tiny_skia::Pixmap;
 
+/// Largest pixmap blurred, in pixels. It covers a whole shape and the spread of
+/// its blur, on screen or off, so its size depends on the script alone.
+const MAX_BLUR_PIXELS: u64 = 1 << 24;
+
+/// From this standard deviation on, three box blurs stand in for the kernel: they
+/// differ by less than is visible, and their cost does not grow with the radius.
+const BOX_SIGMA: f32 = 32.0;
+
+/// A transparent pixmap for a shape about to be blurred, or `None` if it would be
+/// empty or too large.
+pub(crate) fn blur_pixmap(width: u32, height: u32) -> Option<Pixmap> {
+    if u64::from(width) * u64::from(height) > MAX_BLUR_PIXELS {
+        return None;
+    }
+    Pixmap::new(width, height)
+}
+
 /// Apply a separable Gaussian blur of standard deviation `sigma` (screen pixels)
 /// to a pixmap.
 ///
@@ -28,6 +45,20 @@ pub(crate) fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
         return;
     }
 
+    if sigma >= BOX_SIGMA {
+        premultiply(pixmap.data_mut());
+        let (w, h) = (width as usize, height as usize);
+        let data = pixmap.data_mut();
+        for y in 0..h {
+            box_blur_line(data, y * w * 4, 4, w, sigma);
+        }
+        for x in 0..w {
+            box_blur_line(data, x * 4, w * 4, h, sigma);
+        }
+        unpremultiply(data);
+        return;
+    }
+
     // Normalised 1D Gaussian kernel.
     let inv_two_sigma_sq = 1.0 / (2.0 * sigma * sigma);
     let mut kernel = vec![0f32; (2 * radius + 1) as usize];
@@ -50,12 +81,7 @@ pub(crate) fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
     // toward black as alpha falls — narrowing and dimming the glow (a `\blur20`
     // box kept only ~65% of libass's mass). libass blurs coverage, so premultiply
     // (colour *= alpha) before the passes and un-premultiply after.
-    for px in data.chunks_exact_mut(4) {
-        let a = u32::from(px[3]);
-        px[0] = ((u32::from(px[0]) * a + 127) / 255) as u8;
-        px[1] = ((u32::from(px[1]) * a + 127) / 255) as u8;
-        px[2] = ((u32::from(px[2]) * a + 127) / 255) as u8;
-    }
+    premultiply(data);
 
     let mut temp = vec![0u8; data.len()];
 
@@ -99,6 +125,19 @@ pub(crate) fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
 
     // Un-premultiply (colour /= alpha) back to straight-alpha RGBA; a fully
     // transparent pixel (alpha 0) has no colour to restore.
+    unpremultiply(data);
+}
+
+fn premultiply(data: &mut [u8]) {
+    for px in data.chunks_exact_mut(4) {
+        let a = u32::from(px[3]);
+        px[0] = ((u32::from(px[0]) * a + 127) / 255) as u8;
+        px[1] = ((u32::from(px[1]) * a + 127) / 255) as u8;
+        px[2] = ((u32::from(px[2]) * a + 127) / 255) as u8;
+    }
+}
+
+fn unpremultiply(data: &mut [u8]) {
     for px in data.chunks_exact_mut(4) {
         let a = u32::from(px[3]);
         for c in &mut px[0..3] {
@@ -106,3 +145,41 @@ pub(crate) fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
         }
     }
 }
+
+/// Blur one row or column (`len` pixels, `step` bytes apart, from byte `start`)
+/// with three box blurs whose variances add up to that of the Gaussian.
+fn box_blur_line(data: &mut [u8], start: usize, step: usize, len: usize, sigma: f32) {
+    let ideal = (4.0 * sigma * sigma + 1.0).sqrt();
+    let mut narrow = ideal as usize;
+    if narrow % 2 == 0 {
+        narrow -= 1;
+    }
+    let n = narrow as f32;
+    let narrow_passes = (12.0 * sigma * sigma - 3.0 * n * n - 12.0 * n - 9.0) / (-4.0 * n - 4.0);
+    for channel in 0..4 {
+        let at = |i: usize| start + i * step + channel;
+        if (0..len).all(|i| data[at(i)] == 0) {
+            continue;
+        }
+        let mut line: Vec<f64> = (0..len).map(|i| f64::from(data[at(i)])).collect();
+        for pass in 0..3 {
+            let width = if (pass as f32) < narrow_passes.round() {
+                narrow
+            } else {
+                narrow + 2
+            };
+            let half = (width / 2) as isize;
+            let edge = |i: isize| line[i.clamp(0, len as isize - 1) as usize];
+            let mut sum: f64 = (-half..=half).map(edge).sum();
+            let mut out = Vec::with_capacity(len);
+            for i in 0..len as isize {
+                out.push(sum / width as f64);
+                sum += edge(i + half + 1) - edge(i - half);
+            }
+            line = out;
+        }
+        for (i, v) in line.iter().enumerate() {
+            data[at(i)] = v.round().clamp(0.0, 255.0) as u8;
+        }
+    }
+}
diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index a102b2d..c4bcfe9 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -30,11 +30,11 @@ fn composite_coverage(
 
     let (dst_w, dst_h) = dst_dim;
     let (cov, cov_w, cov_h) = src;
-    let (x, y) = pos;
+    let (x, y) = (i64::from(pos.0), i64::from(pos.1));
 
     // Clip the tile against the destination once so the row blend is bounds-free.
-    let (tw, th) = (cov_w as i32, cov_h as i32);
-    let (dw, dh) = (dst_w as i32, dst_h as i32);
+    let (tw, th) = (i64::from(cov_w), i64::from(cov_h));
+    let (dw, dh) = (i64::from(dst_w), i64::from(dst_h));
     let ty0 = (-y).max(0);
     let ty1 = th.min(dh - y);
     let tx0 = (-x).max(0);
@@ -103,9 +103,9 @@ pub fn composite_bitmap(dst: &mut [u8], dst_w: u32, dst_h: u32, bmp: &RenderBitm
 fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), pos: (i32, i32)) {
     let (dst_w, dst_h) = dst_dim;
     let (pixels, sw, sh) = src;
-    let (x, y) = pos;
-    let (tw, th) = (sw as i32, sh as i32);
-    let (dw, dh) = (dst_w as i32, dst_h as i32);
+    let (x, y) = (i64::from(pos.0), i64::from(pos.1));
+    let (tw, th) = (i64::from(sw), i64::from(sh));
+    let (dw, dh) = (i64::from(dst_w), i64::from(dst_h));
     let ty0 = (-y).max(0);
     let ty1 = th.min(dh - y);
     let tx0 = (-x).max(0);
diff --git a/crates/ass-renderer/src/backends/coverage/mod.rs b/crates/ass-renderer/src/backends/coverage/mod.rs
index 9df2ea9..3f5ac7a 100644
--- a/crates/ass-renderer/src/backends/coverage/mod.rs
+++ b/crates/ass-renderer/src/backends/coverage/mod.rs
@@ -23,6 +23,10 @@ mod composite;
 
 pub use composite::{composite, composite_bitmap};
 
+/// Largest tile kept, in pixels. A tile covers the whole path, on screen or off,
+/// so its size is bounded by the script alone and not by the frame.
+const MAX_TILE_PIXELS: u64 = 1 << 24;
+
 /// An 8-bit coverage tile: `width * height` alpha samples, row-major.
 ///
 /// The coverage is `Arc`-shared so a cached tile can be emitted as a
@@ -82,18 +86,23 @@ impl CoverageTile {
     /// Returns the tile plus the integer `(x, y)` at which it must be
     /// composited. The path's sub-pixel position is baked into the coverage, so
     /// compositing at the returned integer offset reproduces the anti-aliasing
-    /// of a direct fill at the original position. Returns `None` for an empty or
-    /// unrasterizable path.
+    /// of a direct fill at the original position. Returns `None` for a path too
+    /// large to hold as a tile, which must be filled clipped to the frame instead.
     #[must_use]
     pub fn rasterize(path: &Path) -> Option<(Self, i32, i32)> {
         let bounds = path.bounds();
         // Pad by one pixel so anti-aliased edges are not clipped at the border.
-        let min_x = bounds.left().floor() as i32 - 1;
-        let min_y = bounds.top().floor() as i32 - 1;
-        let max_x = bounds.right().ceil() as i32 + 1;
-        let max_y = bounds.bottom().ceil() as i32 + 1;
+        let min_x = i64::from(bounds.left().floor() as i32) - 1;
+        let min_y = i64::from(bounds.top().floor() as i32) - 1;
+        let max_x = i64::from(bounds.right().ceil() as i32) + 1;
+        let max_y = i64::from(bounds.bottom().ceil() as i32) + 1;
         let width = u32::try_from((max_x - min_x).max(1)).ok()?;
         let height = u32::try_from((max_y - min_y).max(1)).ok()?;
+        if u64::from(width) * u64::from(height) > MAX_TILE_PIXELS {
+            return None;
+        }
+        let min_x = i32::try_from(min_x).ok()?;
+        let min_y = i32::try_from(min_y).ok()?;
 
         // Feed the path's contours to the in-house scanline rasterizer, in tile
         // coordinates (origin at the padded bbox corner). Each contour is closed
diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 1b70e99..ee4eb90 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -17,12 +17,47 @@ pub(crate) fn merge_transformed(
     let mut builder = tiny_skia::PathBuilder::new();
     for path in paths {
         if let Some(transformed) = path.clone().transform(transform) {
-            builder.push_path(&transformed);
+            if drawable(&transformed) {
+                builder.push_path(&transformed);
+            }
         }
     }
     builder.finish()
 }
 
+/// How far from the origin an outline may reach, in pixels. Like libass, which has
+/// the same limit, outlines beyond it are not drawn: the rasterizer's arithmetic
+/// does not stand coordinates that large.
+const OUTLINE_MAX: f32 = 4_194_303.0;
+
+/// Whether a path is within the limits of the rasterizer.
+pub(crate) fn drawable(path: &tiny_skia::Path) -> bool {
+    let b = path.bounds();
+    [b.left(), b.top(), b.right(), b.bottom()]
+        .iter()
+        .all(|v| v.abs() <= OUTLINE_MAX)
+}
+
+/// Whether a path is within the limits of the rasterizer under a transform.
+pub(crate) fn drawable_under(path: &tiny_skia::Path, transform: Transform) -> bool {
+    let b = path.bounds();
+    let mut corners = [
+        tiny_skia::Point::from_xy(b.left(), b.top()),
+        tiny_skia::Point::from_xy(b.right(), b.top()),
+        tiny_skia::Point::from_xy(b.right(), b.bottom()),
+        tiny_skia::Point::from_xy(b.left(), b.bottom()),
+    ];
+    transform.map_points(&mut corners);
+    corners
+        .iter()
+        .all(|p| p.x.abs() <= OUTLINE_MAX && p.y.abs() <= OUTLINE_MAX)
+}
+
+/// Whether a path stroked to `width` is within the limits of the rasterizer.
+pub(crate) fn strokable(path: &tiny_skia::Path, width: f32) -> bool {
+    drawable(path) && width <= OUTLINE_MAX
+}
+
 /// Stroke a glyph path to its outline, growing it outward by `wx` horizontally
 /// and `wy` vertically (`\xbord`/`\ybord`). tiny-skia strokes uniformly, so an
 /// asymmetric border is produced by stroking in a vertically-scaled space and
@@ -37,15 +72,23 @@ pub(crate) fn stroke_outline(path: &tiny_skia::Path, wx: f32, wy: f32) -> Option
         ..Default::default()
     };
     let mut stroker = tiny_skia::PathStroker::new();
+    if !strokable(path, wx.max(wy) * 2.0) {
+        return None;
+    }
     if (wx - wy).abs() < 0.05 || wx <= 0.0 || wy <= 0.0 {
-        return stroker.stroke(path, &mk(wx.max(wy)), 1.0);
+        return stroker.stroke(path, &mk(wx.max(wy)), 1.0).filter(drawable);
     }
     // Stroke uniformly with radius wx in a space scaled by (1, wx/wy), then undo
     // the scale: the vertical extent becomes wy while the horizontal stays wx.
     let sy = wx / wy;
     let scaled = path.clone().transform(Transform::from_scale(1.0, sy))?;
+    if !drawable(&scaled) {
+        return None;
+    }
     let stroked = stroker.stroke(&scaled, &mk(wx), 1.0)?;
-    stroked.transform(Transform::from_scale(1.0, 1.0 / sy))
+    stroked
+        .transform(Transform::from_scale(1.0, 1.0 / sy))
+        .filter(drawable)
 }
 
 /// Project a screen-space path through a 3D rotation (`\frx`/`\fry`) and a pinhole
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 5987aff..a1d8ab9 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -37,13 +37,23 @@ fn emit_cached(
     // Shadow: the fill shape in the shadow colour, displaced. Reuses the fill
     // tile rather than a separately rasterized one.
     if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, &cached.fill) {
-        out.push(bitmap(tile, anchor_x + ox + dx, anchor_y + oy + dy, color));
+        out.push(bitmap(
+            tile,
+            anchor_x.saturating_add(*ox).saturating_add(dx),
+            anchor_y.saturating_add(*oy).saturating_add(dy),
+            color,
+        ));
     }
     if let (Some(color), Some((tile, ox, oy))) = (outline_color, &cached.outline) {
-        out.push(bitmap(tile, anchor_x + ox, anchor_y + oy, color));
+        out.push(bitmap(
+            tile,
+            anchor_x.saturating_add(*ox),
+            anchor_y.saturating_add(*oy),
+            color,
+        ));
     }
     if let Some((tile, ox, oy)) = &cached.fill {
-        let (x, y) = (anchor_x + ox, anchor_y + oy);
+        let (x, y) = (anchor_x.saturating_add(*ox), anchor_y.saturating_add(*oy));
         match karaoke_sweep {
             // Swept `\K`/`\kf`: not-yet-sung syllables are wholly secondary,
             // fully-sung wholly primary (both reuse the shared tile, no copy);
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 7bab1dd..0b2e8fd 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -5,28 +5,31 @@ use tiny_skia::Transform;
 
 use crate::backends::geometry::{merge_transformed, shadow_delta, stroke_outline};
 
-/// Rasterize a layer's fill and outline coverage in local space.
+/// Rasterize a layer's fill and outline coverage in local space, or `None` if
+/// either is too large to keep as a tile.
 #[cfg(not(feature = "nostd"))]
 fn rasterize_run_coverage(
     paths: &[tiny_skia::Path],
     local: Transform,
     outline_width: Option<(f32, f32)>,
-) -> super::CachedCoverage {
+) -> Option<super::CachedCoverage> {
     use crate::backends::coverage::CoverageTile;
 
     // Merge the per-glyph paths once; both the fill and the outline derive from
     // the same merged outline (previously merged twice, redundantly).
     let merged = merge_transformed(paths, local);
-    let fill = merged.as_ref().and_then(CoverageTile::rasterize);
-    let outline = outline_width
+    let tile = |path: Option<&tiny_skia::Path>| match path {
+        Some(path) => CoverageTile::rasterize(path).map(Some),
+        None => Some(None),
+    };
+    let fill = tile(merged.as_ref())?;
+    // libass grows the glyph outward by the per-axis border (\xbord/\ybord);
+    // stroke_outline produces that (uniform for the symmetric case).
+    let outlined = outline_width
         .zip(merged.as_ref())
-        .and_then(|((wx, wy), merged)| {
-            // libass grows the glyph outward by the per-axis border (\xbord/\ybord);
-            // stroke_outline produces that (uniform for the symmetric case).
-            let outlined = stroke_outline(merged, wx, wy)?;
-            CoverageTile::rasterize(&outlined)
-        });
-    super::CachedCoverage { fill, outline }
+        .and_then(|((wx, wy), merged)| stroke_outline(merged, wx, wy));
+    let outline = tile(outlined.as_ref())?;
+    Some(super::CachedCoverage { fill, outline })
 }
 
 impl super::super::SoftwareBackend {
@@ -98,10 +101,13 @@ impl super::super::SoftwareBackend {
             return false;
         };
 
-        super::RUN_COVERAGE.with(|cache| {
+        let kept = super::RUN_COVERAGE.with(|cache| {
             if !cache.borrow().contains_key(&key) {
-                let cached =
-                    rasterize_run_coverage(paths, local, outline.map(|(_, wx, wy)| (wx, wy)));
+                let Some(cached) =
+                    rasterize_run_coverage(paths, local, outline.map(|(_, wx, wy)| (wx, wy)))
+                else {
+                    return false;
+                };
                 let mut map = cache.borrow_mut();
                 // Bound memory: continuously geometry-animated layers produce a
                 // fresh key every frame, so drop the cache when it grows large
@@ -111,7 +117,11 @@ impl super::super::SoftwareBackend {
                 }
                 map.insert(key.clone(), cached);
             }
+            true
         });
+        if !kept {
+            return false;
+        }
 
         let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(local, sx, sy)));
         let anchor_x = data.x.round() as i32;
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 162bdc0..3f41a37 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -125,8 +125,8 @@ pub(super) fn clear_region(pixmap: &mut Pixmap, region: (i32, i32, u32, u32)) {
     let h = pixmap.height() as i32;
     let x0 = rx.max(0);
     let y0 = ry.max(0);
-    let x1 = (rx + rw as i32).min(w);
-    let y1 = (ry + rh as i32).min(h);
+    let x1 = rx.saturating_add(rw as i32).min(w);
+    let y1 = ry.saturating_add(rh as i32).min(h);
     if x1 <= x0 || y1 <= y0 {
         return;
     }
@@ -150,7 +150,12 @@ pub(super) fn crop_pixmap(
     // Only scan the layer's (generous) dirty region — scanning the whole 4K frame
     // per vector layer is memory-bound and dominates otherwise.
     let (scan_x0, scan_y0, scan_x1, scan_y1) = match hint {
-        Some((x0, y0, x1, y1)) => (x0.max(0), y0.max(0), (x1 + 1).min(w), (y1 + 1).min(h)),
+        Some((x0, y0, x1, y1)) => (
+            x0.max(0),
+            y0.max(0),
+            x1.saturating_add(1).min(w),
+            y1.saturating_add(1).min(h),
+        ),
         None => (0, 0, w, h),
     };
     if scan_x1 <= scan_x0 || scan_y1 <= scan_y0 {
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 752f946..b78a026 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -2,9 +2,9 @@
 //! outline and fill into a padded temp pixmap (or reuse a cached one), Gaussian
 //! blur it, and composite at the baseline.
 
-use tiny_skia::{Pixmap, Transform};
+use tiny_skia::Transform;
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{apply_gaussian_blur, blur_pixmap};
 use crate::backends::geometry::stroke_outline;
 use crate::pipeline::TextData;
 
@@ -59,7 +59,7 @@ impl super::super::SoftwareBackend {
 
         let tile = if cached.is_some() {
             cached
-        } else if let Some(mut temp_pixmap) = Pixmap::new(text_width, text_height) {
+        } else if let Some(mut temp_pixmap) = blur_pixmap(text_width, text_height) {
             temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
 
             // Draw shadow (if any) then outline then text into the temp
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 76d6304..dd9a37c 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -1,9 +1,9 @@
 //! Decoration passes for the software text layer: sharp shadow, opaque box,
 //! outline (with optional `\be` edge blur) and underline/strikethrough.
 
-use tiny_skia::{Pixmap, Transform};
+use tiny_skia::Transform;
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{apply_gaussian_blur, blur_pixmap};
 use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
@@ -132,7 +132,7 @@ impl super::super::SoftwareBackend {
                             (run.shaped.height + blur_size as f32 * 2.0 + width * 2.0).ceil()
                                 as u32;
 
-                        if let Some(mut temp_pixmap) = Pixmap::new(outline_width, outline_height) {
+                        if let Some(mut temp_pixmap) = blur_pixmap(outline_width, outline_height) {
                             temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
 
                             // Draw outline to temporary pixmap
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index f14106e..abb6ceb 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -5,7 +5,7 @@
 
 use tiny_skia::Transform;
 
-use crate::backends::geometry::{merge_transformed, project_path_3d};
+use crate::backends::geometry::{drawable_under, merge_transformed, project_path_3d};
 use crate::pipeline::TextData;
 use crate::utils::RenderError;
 
@@ -274,6 +274,15 @@ impl super::super::SoftwareBackend {
                 None
             }
         });
+        // Blurred text is drawn around the origin and placed as a bitmap.
+        let fill_transform = if blur_radius.is_some() {
+            Transform::identity()
+        } else {
+            base_transform
+        };
+        let mut paths = paths;
+        paths.retain(|path| drawable_under(path, fill_transform));
+
         let outline_info = data.effects.iter().find_map(|e| {
             if let crate::pipeline::TextEffect::Outline {
                 color,
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 8496b88..b7a6901 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -6,7 +6,8 @@
 
 use tiny_skia::{Pixmap, Transform};
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{apply_gaussian_blur, blur_pixmap};
+use crate::backends::geometry::{drawable, strokable};
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -49,7 +50,7 @@ impl super::SoftwareBackend {
         &mut self,
         data: &crate::pipeline::VectorData,
     ) -> Result<(), RenderError> {
-        let Some(path) = &data.path else {
+        let Some(path) = data.path.as_ref().filter(|path| drawable(path)) else {
             return Ok(());
         };
 
@@ -84,7 +85,7 @@ impl super::SoftwareBackend {
                 Transform::identity(),
                 clip_mask.as_ref(),
             );
-            if let Some(stroke) = &data.stroke {
+            if let Some(stroke) = data.stroke.as_ref().filter(|s| strokable(path, s.width)) {
                 paint.set_color_rgba8(
                     stroke.color[0],
                     stroke.color[1],
@@ -114,12 +115,12 @@ impl super::SoftwareBackend {
         let pad = (data.blur * 3.0).ceil().max(1.0);
         let tw = ((b.width() + pad * 2.0).ceil() as u32).max(1);
         let th = ((b.height() + pad * 2.0).ceil() as u32).max(1);
-        let Some(mut temp) = Pixmap::new(tw, th) else {
+        let Some(mut temp) = blur_pixmap(tw, th) else {
             return Ok(());
         };
         let off = Transform::from_translate(pad - b.left(), pad - b.top());
         temp.fill_path(path, &paint, tiny_skia::FillRule::Winding, off, None);
-        if let Some(stroke) = &data.stroke {
+        if let Some(stroke) = data.stroke.as_ref().filter(|s| strokable(path, s.width)) {
             let mut sp = tiny_skia::Paint::default();
             sp.set_color_rgba8(
                 stroke.color[0],
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index f1e2184..67c2ca2 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -163,7 +163,7 @@ impl super::SoftwarePipeline {
             // (apply_gaussian_blur maps it to a std-dev). Sparkle/dust particles and
             // gradient glows rely on this; without it they render as hard, bright
             // shapes instead of soft, dim ones.
-            let blur = tags.formatting.blur.unwrap_or(0.0) * scale_y;
+            let blur = tags.formatting.blur.unwrap_or(0.0).min(100.0) * scale_y;
 
             // `\bord` on a drawing strokes its outline in the `\3c` colour. Scale the
             // width only when ScaledBorderAndShadow is set, mirroring text borders.
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index fbd48d9..266ad17 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -127,8 +127,9 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add blur effect - handle both blur and edge blur
-        let blur_radius = tags.formatting.blur.unwrap_or(0.0);
-        let edge_blur = tags.formatting.blur_edges.unwrap_or(0.0);
+        // libass limits both (BLUR_MAX_RADIUS and MAX_BE)
+        let blur_radius = tags.formatting.blur.unwrap_or(0.0).min(100.0);
+        let edge_blur = tags.formatting.blur_edges.unwrap_or(0.0).min(127.0);
         if blur_radius > 0.0 {
             // libass converts \blur to screen pixels via blur_scale =
             // frame/PlayRes (a resolution conversion applied
-- 
2.43.0


From d3c257e84b37ff422d7fc3baf02b13aa5286e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 48/69] fix: bitmap lists no longer cut off shadows moved by a
 scaled or rotated layer

---
 crates/ass-renderer/src/backends/software/dirty.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 3f41a37..21dd537 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -42,7 +42,15 @@ pub(super) fn text_vector_dirty_bbox(
             } => outline = outline.max(width_x.max(*width_y)),
             TextEffect::Shadow {
                 x_offset, y_offset, ..
-            } => shadow = shadow.max(x_offset.abs()).max(y_offset.abs()),
+            } => {
+                // The offset goes through the layer transform with the glyphs
+                let t = base_transform;
+                shadow = shadow
+                    .max(x_offset.abs())
+                    .max(y_offset.abs())
+                    .max((t.sx * x_offset + t.kx * y_offset).abs())
+                    .max((t.ky * x_offset + t.sy * y_offset).abs());
+            }
             TextEffect::Blur { radius } => blur = blur.max(*radius),
             TextEffect::EdgeBlur { radius } => {
                 blur = blur.max(*radius);
@@ -85,7 +93,8 @@ pub(super) fn text_vector_dirty_bbox(
         include(area.and_then(|a| a.transform(base_transform)));
     }
     // Generous: box blur of radius r spreads ~r each side; ×4 leaves head-room.
-    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0 + padding;
+    // A mitred corner reaches up to the miter limit, 4, times the outline.
+    let margin = 4.0 + outline * 4.0 + shadow + blur * 4.0 + padding;
     Some((
         (bounds.left() - margin).floor() as i32,
         (bounds.top() - margin).floor() as i32,
-- 
2.43.0


From cde3d5534304fd4d74e6106f87884c6f7d1ce848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 49/69] fix: extreme clip rectangles, boxes and underlines no
 longer break the rasterizer

---
 crates/ass-renderer/src/backends/geometry.rs  |  7 +++++++
 .../src/backends/software/text/decorations.rs | 21 ++++++++++++-------
 .../src/backends/software/text/prepare.rs     | 12 ++++++-----
 .../src/backends/software/vector.rs           |  4 +++-
 4 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index ee4eb90..8880280 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -58,6 +58,13 @@ pub(crate) fn strokable(path: &tiny_skia::Path, width: f32) -> bool {
     drawable(path) && width <= OUTLINE_MAX
 }
 
+/// A coordinate of an upright rectangle, brought to just outside a canvas of `size`
+/// pixels if it lies further away. What such a rectangle covers of the canvas stays
+/// the same, and the rasterizer does not stand coordinates that are too large.
+pub(crate) fn near_canvas(v: f32, size: u32) -> f32 {
+    v.clamp(-1.0, size as f32 + 1.0)
+}
+
 /// Stroke a glyph path to its outline, growing it outward by `wx` horizontally
 /// and `wy` vertically (`\xbord`/`\ybord`). tiny-skia strokes uniformly, so an
 /// asymmetric border is produced by stroking in a vertically-scaled space and
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index dd9a37c..7071d07 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -4,7 +4,7 @@
 use tiny_skia::Transform;
 
 use crate::backends::blur::{apply_gaussian_blur, blur_pixmap};
-use crate::backends::geometry::{merge_transformed, stroke_outline};
+use crate::backends::geometry::{merge_transformed, near_canvas, strokable, stroke_outline};
 use crate::pipeline::TextData;
 
 use super::TextRun;
@@ -79,11 +79,12 @@ impl super::super::SoftwareBackend {
                     }
                 }
                 if let Some(b) = bounds {
+                    let (width, height) = (self.pixmap.width(), self.pixmap.height());
                     if let Some(rect) = tiny_skia::Rect::from_ltrb(
-                        b.left() - *padding_x,
-                        b.top() - *padding_y,
-                        b.right() + *padding_x,
-                        b.bottom() + *padding_y,
+                        near_canvas(b.left() - *padding_x, width),
+                        near_canvas(b.top() - *padding_y, height),
+                        near_canvas(b.right() + *padding_x, width),
+                        near_canvas(b.bottom() + *padding_y, height),
                     ) {
                         let mut box_paint = tiny_skia::Paint::default();
                         box_paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
@@ -225,7 +226,10 @@ impl super::super::SoftwareBackend {
             builder.move_to(data.x, underline_y);
             builder.line_to(data.x + shaped.width, underline_y);
 
-            if let Some(underline_path) = builder.finish() {
+            if let Some(underline_path) = builder
+                .finish()
+                .filter(|path| strokable(path, data.font_size * 0.08))
+            {
                 let stroke = tiny_skia::Stroke {
                     width: data.font_size * 0.08,
                     line_cap: tiny_skia::LineCap::Round,
@@ -250,7 +254,10 @@ impl super::super::SoftwareBackend {
             builder.move_to(data.x, strike_y);
             builder.line_to(data.x + shaped.width, strike_y);
 
-            if let Some(strike_path) = builder.finish() {
+            if let Some(strike_path) = builder
+                .finish()
+                .filter(|path| strokable(path, data.font_size * 0.06))
+            {
                 let stroke = tiny_skia::Stroke {
                     width: data.font_size * 0.06,
                     line_cap: tiny_skia::LineCap::Round,
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index abb6ceb..6fa5502 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -5,7 +5,7 @@
 
 use tiny_skia::Transform;
 
-use crate::backends::geometry::{drawable_under, merge_transformed, project_path_3d};
+use crate::backends::geometry::{drawable_under, merge_transformed, near_canvas, project_path_3d};
 use crate::pipeline::TextData;
 use crate::utils::RenderError;
 
@@ -233,10 +233,12 @@ impl super::super::SoftwareBackend {
                 if let Some(mut mask) = tiny_skia::Mask::new(width, height) {
                     let mut builder = tiny_skia::PathBuilder::new();
                     // The clip rectangle itself.
-                    builder.move_to(*x1, *y1);
-                    builder.line_to(*x2, *y1);
-                    builder.line_to(*x2, *y2);
-                    builder.line_to(*x1, *y2);
+                    let (x1, x2) = (near_canvas(*x1, width), near_canvas(*x2, width));
+                    let (y1, y2) = (near_canvas(*y1, height), near_canvas(*y2, height));
+                    builder.move_to(x1, y1);
+                    builder.line_to(x2, y1);
+                    builder.line_to(x2, y2);
+                    builder.line_to(x1, y2);
                     builder.close();
 
                     // For \iclip, also add a full-canvas rectangle and use the
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index b7a6901..e7149d2 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -7,7 +7,7 @@
 use tiny_skia::{Pixmap, Transform};
 
 use crate::backends::blur::{apply_gaussian_blur, blur_pixmap};
-use crate::backends::geometry::{drawable, strokable};
+use crate::backends::geometry::{drawable, near_canvas, strokable};
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -163,6 +163,8 @@ impl super::SoftwareBackend {
         let width = self.pixmap.width();
         let height = self.pixmap.height();
         let mut mask = tiny_skia::Mask::new(width, height)?;
+        let (x1, x2) = (near_canvas(x1, width), near_canvas(x2, width));
+        let (y1, y2) = (near_canvas(y1, height), near_canvas(y2, height));
         let mut builder = tiny_skia::PathBuilder::new();
         builder.move_to(x1, y1);
         builder.line_to(x2, y1);
-- 
2.43.0


From 3ac7e72dc5bd162882c2614ce5aa2f64bc8d4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 50/69] fix: search honours scopes, limits and case in every
 kind of index

---
 crates/ass-editor/utils/indexing/common.rs    | 30 ++++++-
 crates/ass-editor/utils/indexing/fst.rs       | 24 +-----
 .../ass-editor/utils/indexing/fst_search.rs   | 41 +++++++---
 crates/ass-editor/utils/indexing/linear.rs    | 78 ++++++++++++++-----
 crates/ass-editor/utils/search/basic.rs       | 47 ++++++++---
 crates/ass-editor/utils/search/query.rs       | 10 ++-
 .../ass-editor/utils/search/regex_search.rs   | 24 +++---
 7 files changed, 172 insertions(+), 82 deletions(-)

diff --git a/crates/ass-editor/utils/indexing/common.rs b/crates/ass-editor/utils/indexing/common.rs
index 36d7281..35adabd 100644
--- a/crates/ass-editor/utils/indexing/common.rs
+++ b/crates/ass-editor/utils/indexing/common.rs
@@ -4,6 +4,7 @@
 //! the FNV content-hash helper used for cache invalidation.
 
 use crate::core::Position;
+use crate::utils::search::SearchScope;
 
 #[cfg(not(feature = "std"))]
 use alloc::string::String;
@@ -27,8 +28,7 @@ pub struct IndexEntry {
     pub section_type: Option<String>,
 }
 
-/// Whether a character is part of a word of the FST index
-#[cfg(feature = "search-index")]
+/// Whether a character is part of a word, as whole-word searches and the FST index see it
 pub(super) fn is_word_char(ch: char) -> bool {
     ch.is_alphanumeric() || ch == '_'
 }
@@ -39,6 +39,32 @@ impl IndexEntry {
         let word = &self.context[self.column..];
         &word[..word.find(|ch| !is_word_char(ch)).unwrap_or(word.len())]
     }
+
+    /// Whether the part of this entry's line between two byte offsets of the
+    /// document is in a search scope
+    pub(super) fn in_scope(&self, start: usize, end: usize, scope: &SearchScope) -> bool {
+        match scope {
+            SearchScope::All => true,
+            SearchScope::Lines { start, end } => self.line >= *start && self.line <= *end,
+            SearchScope::Sections(sections) => self
+                .section_type
+                .as_ref()
+                .is_some_and(|section| sections.contains(section)),
+            SearchScope::Range(range) => start >= range.start.offset && end <= range.end.offset,
+        }
+    }
+}
+
+/// Whether no word continues across either end of a part of a line
+pub(super) fn is_whole_word(line: &str, start: usize, end: usize) -> bool {
+    let before = line[..start].chars().next_back();
+    let after = line[end..].chars().next();
+    !before.is_some_and(is_word_char) && !after.is_some_and(is_word_char)
+}
+
+/// The name of the section a line is the header of
+pub(super) fn section_header(line: &str) -> Option<&str> {
+    line.strip_prefix('[')?.strip_suffix(']')
 }
 
 /// Split a text into lines, each with the byte offset it starts at
diff --git a/crates/ass-editor/utils/indexing/fst.rs b/crates/ass-editor/utils/indexing/fst.rs
index 15e47db..7832168 100644
--- a/crates/ass-editor/utils/indexing/fst.rs
+++ b/crates/ass-editor/utils/indexing/fst.rs
@@ -1,11 +1,10 @@
 //! FST search index state and lightweight helpers.
 //!
 //! Holds the [`FstSearchIndex`] struct definition along with its constructor
-//! and search-scope filtering used by the
+//! used by the
 //! [`DocumentSearch`](crate::utils::search::DocumentSearch) implementation.
 
 use super::common::IndexEntry;
-use crate::utils::search::SearchScope;
 
 use fst::Set;
 
@@ -59,24 +58,3 @@ impl FstSearchIndex {
         }
     }
 }
-
-#[cfg(feature = "search-index")]
-impl FstSearchIndex {
-    pub(super) fn matches_scope(&self, entry: &IndexEntry, scope: &SearchScope) -> bool {
-        match scope {
-            SearchScope::All => true,
-            SearchScope::Lines { start, end } => entry.line >= *start && entry.line <= *end,
-            SearchScope::Sections(sections) => {
-                if let Some(ref section) = entry.section_type {
-                    sections.contains(section)
-                } else {
-                    false
-                }
-            }
-            SearchScope::Range(range) => {
-                entry.position.offset >= range.start.offset
-                    && entry.position.offset <= range.end.offset
-            }
-        }
-    }
-}
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 02e77f5..f9808e5 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -9,6 +9,25 @@ use fst::{automaton, IntoStreamer, Streamer};
 
 use std::time::Instant;
 
+/// Whether a word has the characters of the pattern in order, or is the pattern when
+/// whole words are asked for
+#[cfg(feature = "search-index")]
+fn matches_options(word: &str, pattern: &str, options: &SearchOptions) -> bool {
+    let matches = |word: &str, pattern: &str| {
+        let mut chars = word.chars();
+        if options.whole_words {
+            word == pattern
+        } else {
+            pattern.chars().all(|p| chars.any(|c| c == p))
+        }
+    };
+    if options.case_sensitive {
+        matches(word, pattern)
+    } else {
+        matches(&word.to_lowercase(), &pattern.to_lowercase())
+    }
+}
+
 #[cfg(feature = "search-index")]
 impl DocumentSearch for FstSearchIndex {
     fn build_index(&mut self, document: &EditorDocument) -> Result<()> {
@@ -47,11 +66,8 @@ impl DocumentSearch for FstSearchIndex {
         let mut results = Vec::new();
 
         if let Some(ref fst_set) = self.fst_set {
-            let query = if options.case_sensitive {
-                pattern.to_string()
-            } else {
-                pattern.to_lowercase()
-            };
+            // The index holds lowercase words whether or not case matters
+            let query = pattern.to_lowercase();
 
             // For simplicity, use subsequence automaton for all searches
             // In production, this could be optimized with different automaton types
@@ -67,14 +83,17 @@ impl DocumentSearch for FstSearchIndex {
                 let key_str = String::from_utf8_lossy(key);
                 if let Some(entries) = self.position_map.get(key_str.as_ref()) {
                     for entry in entries {
-                        // Apply scope filtering
-                        if self.matches_scope(entry, &options.scope) {
-                            // The whole word matched, not necessarily a run of
-                            // characters in it
-                            let word = entry.word(is_word_char);
+                        // The whole word matched, not necessarily a run of
+                        // characters in it
+                        let word = entry.word(is_word_char);
+                        let start = entry.position.offset;
+                        let end = start + word.len();
+                        if entry.in_scope(start, end, &options.scope)
+                            && matches_options(word, pattern, options)
+                        {
                             results.push(SearchResult {
                                 start: entry.position,
-                                end: Position::new(entry.position.offset + word.len()),
+                                end: Position::new(end),
                                 text: std::borrow::Cow::Owned(word.to_string()),
                                 context: std::borrow::Cow::Owned(entry.context.clone()),
                                 line: entry.line,
diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index f8b7b85..9910fab 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -1,6 +1,8 @@
 //! Linear search index fallback used when the FST backend is unavailable.
 
-use super::common::{calculate_hash, lines_with_offsets, IndexEntry};
+use super::common::{
+    calculate_hash, is_whole_word, lines_with_offsets, section_header, IndexEntry,
+};
 use crate::core::{EditorDocument, Position, Range, Result};
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
@@ -56,16 +58,33 @@ impl LinearSearchIndex {
     }
 }
 
-/// Byte range of the first part of `word` that reads `query` in lowercase
-fn find_lowercase(word: &str, query: &str) -> Option<(usize, usize)> {
-    let ends = |from: usize| {
-        let ends = word[from..].char_indices().map(move |(i, _)| from + i);
-        ends.chain(core::iter::once(word.len()))
-    };
-    word.char_indices().map(|(from, _)| from).find_map(|from| {
-        ends(from)
-            .find(|&to| word[from..to].to_lowercase() == query)
-            .map(|to| (from, to))
+/// Byte ranges of the parts of `word` that read `query`, in lowercase if case does
+/// not matter, by where they start
+fn find_all<'a>(
+    word: &'a str,
+    query: &'a str,
+    case_sensitive: bool,
+) -> impl Iterator<Item = (usize, usize)> + 'a {
+    // Which lowercase sigma it is depends on where it is in a word
+    let plain = |ch: char| if ch == 'ς' { 'σ' } else { ch };
+    word.char_indices().filter_map(move |(from, _)| {
+        let mut rest = query.chars();
+        for (i, ch) in word[from..].char_indices() {
+            if rest.as_str().is_empty() {
+                return Some((from, from + i));
+            }
+            if case_sensitive {
+                if rest.next() != Some(ch) {
+                    return None;
+                }
+            } else if ch
+                .to_lowercase()
+                .any(|ch| rest.next().map(plain) != Some(plain(ch)))
+            {
+                return None;
+            }
+        }
+        rest.as_str().is_empty().then_some((from, word.len()))
     })
 }
 
@@ -87,7 +106,12 @@ impl DocumentSearch for LinearSearchIndex {
         // Simple word extraction for linear search
         self.word_positions.clear();
 
+        let mut section = None;
+
         for (current_line, (line_start, line)) in lines_with_offsets(&content).enumerate() {
+            if let Some(name) = section_header(line) {
+                section = Some(name.to_string());
+            }
             for word in line.split_whitespace() {
                 let word_start = word.as_ptr() as usize - line.as_ptr() as usize;
                 let entry = IndexEntry {
@@ -95,7 +119,7 @@ impl DocumentSearch for LinearSearchIndex {
                     context: line.to_string(),
                     line: current_line,
                     column: word_start,
-                    section_type: None,
+                    section_type: section.clone(),
                 };
                 self.word_positions
                     .entry(word.to_lowercase())
@@ -111,30 +135,46 @@ impl DocumentSearch for LinearSearchIndex {
         self.build_index(document)
     }
 
-    fn search(&self, pattern: &str, _options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
-        let query = pattern.to_lowercase();
+    fn search(&self, pattern: &str, options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
+        let lowercase = pattern.to_lowercase();
+        let query = if options.case_sensitive {
+            pattern
+        } else {
+            &lowercase
+        };
         let mut results = Vec::new();
 
         // Simple linear search through indexed words
         for (word, entries) in &self.word_positions {
-            if word.contains(&query) {
+            if word.contains(&lowercase) {
                 for entry in entries {
                     let word = entry.word(|ch| !ch.is_whitespace());
-                    let Some((from, to)) = find_lowercase(word, &query) else {
+                    let offset = entry.position.offset;
+                    let column = entry.column;
+                    let matches = |&(from, to): &(usize, usize)| {
+                        entry.in_scope(offset + from, offset + to, &options.scope)
+                            && (!options.whole_words
+                                || is_whole_word(&entry.context, column + from, column + to))
+                    };
+                    let found = find_all(word, query, options.case_sensitive).find(matches);
+                    let Some((from, to)) = found else {
                         continue;
                     };
                     results.push(SearchResult {
-                        start: Position::new(entry.position.offset + from),
-                        end: Position::new(entry.position.offset + to),
+                        start: Position::new(offset + from),
+                        end: Position::new(offset + to),
                         text: Cow::Owned(word[from..to].to_string()),
                         context: Cow::Owned(entry.context.clone()),
                         line: entry.line,
-                        column: entry.column + from,
+                        column: column + from,
                     });
                 }
             }
         }
         results.sort_by_key(|r| r.start.offset);
+        if options.max_results > 0 {
+            results.truncate(options.max_results);
+        }
 
         Ok(results)
     }
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 8fa5aa0..f56576a 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -45,8 +45,9 @@ impl DocumentSearchImpl {
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'static>>> {
         let mut results = Vec::new();
-        let (start, end) = self.scope_bounds(&options.scope);
-        self.scan(start, end, pattern, options, &mut results);
+        for (start, end) in self.scope_bounds(&options.scope) {
+            self.scan(start, end, pattern, options, &mut results);
+        }
         Ok(results)
     }
 
@@ -60,7 +61,8 @@ impl DocumentSearchImpl {
         options: &SearchOptions,
         results: &mut Vec<SearchResult<'static>>,
     ) {
-        if pattern.is_empty() {
+        let full = options.max_results > 0 && results.len() >= options.max_results;
+        if pattern.is_empty() || full {
             return;
         }
         let region = &self.cached_text[from..to];
@@ -135,9 +137,9 @@ impl DocumentSearchImpl {
         !before.is_some_and(is_word_char) && !after.is_some_and(is_word_char)
     }
 
-    /// Byte bounds of a search scope within the cached text, on character
+    /// Byte bounds of the parts of the cached text in a search scope, on character
     /// boundaries and in order
-    pub(super) fn scope_bounds(&self, scope: &SearchScope) -> (usize, usize) {
+    pub(super) fn scope_bounds(&self, scope: &SearchScope) -> Vec<(usize, usize)> {
         let text = &self.cached_text;
         let (start, end) = match scope {
             SearchScope::All => (0, text.len()),
@@ -162,11 +164,7 @@ impl DocumentSearchImpl {
                 }
                 (start_offset, end_offset)
             }
-            SearchScope::Sections(_) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
+            SearchScope::Sections(names) => return self.section_bounds(names),
         };
 
         let snap = |offset: usize| {
@@ -177,6 +175,33 @@ impl DocumentSearchImpl {
             offset
         };
         let start = snap(start);
-        (start, snap(end).max(start))
+        vec![(start, snap(end).max(start))]
+    }
+
+    /// Byte bounds of the sections with one of the given names, from the header of
+    /// each to the next
+    fn section_bounds(&self, names: &[String]) -> Vec<(usize, usize)> {
+        let mut bounds: Vec<(usize, usize)> = Vec::new();
+        let mut in_scope = false;
+        let mut next = 0;
+
+        for full in self.cached_text.split_inclusive('\n') {
+            let line_start = next;
+            next += full.len();
+            let line = full.strip_suffix('\n').unwrap_or(full);
+            let line = line.strip_suffix('\r').unwrap_or(line);
+            if line.starts_with('[') && line.ends_with(']') {
+                in_scope = names.iter().any(|name| *name == line[1..line.len() - 1]);
+                if in_scope {
+                    bounds.push((line_start, next));
+                }
+            }
+            if in_scope {
+                if let Some((_, end)) = bounds.last_mut() {
+                    *end = next;
+                }
+            }
+        }
+        bounds
     }
 }
diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 7544f70..e79ae40 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -107,15 +107,17 @@ impl DocumentSearchImpl {
         }
         words.sort_unstable();
 
-        let (scope_start, scope_end) = self.scope_bounds(&options.scope);
+        let scope = self.scope_bounds(&options.scope);
         let mut results = Vec::new();
         for word_start in words {
             let word_end = self.cached_text[word_start..]
                 .find(|ch| !is_word_char(ch))
                 .map_or(self.cached_text.len(), |len| word_start + len);
-            let (from, to) = (word_start.max(scope_start), word_end.min(scope_end));
-            if from < to {
-                self.scan(from, to, pattern, options, &mut results);
+            for &(scope_start, scope_end) in &scope {
+                let (from, to) = (word_start.max(scope_start), word_end.min(scope_end));
+                if from < to {
+                    self.scan(from, to, pattern, options, &mut results);
+                }
             }
             if options.max_results > 0 && results.len() >= options.max_results {
                 break;
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 8ee66ee..c18eb3a 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -40,18 +40,18 @@ impl DocumentSearchImpl {
         let mut results = Vec::new();
         let text = &self.cached_text;
 
-        let (search_start, search_end) = self.scope_bounds(&options.scope);
-        let search_text = &text[search_start..search_end];
-
-        // Find all matches
-        for mat in regex.find_iter(search_text) {
-            let match_start = search_start + mat.start();
-            let match_end = search_start + mat.end();
-
-            results.push(self.result_at(match_start, match_end));
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
+        for (search_start, search_end) in self.scope_bounds(&options.scope) {
+            let search_text = &text[search_start..search_end];
+
+            // Find all matches
+            for mat in regex.find_iter(search_text) {
+                if options.max_results > 0 && results.len() >= options.max_results {
+                    break;
+                }
+                let match_start = search_start + mat.start();
+                let match_end = search_start + mat.end();
+
+                results.push(self.result_at(match_start, match_end));
             }
         }
 
-- 
2.43.0


From 38dc7b2782ffc00ec07c7a01ac719247d28b9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 51/69] fix: highlighting follows edits and CRLF line ends, and
 names style fields where they stand

---
 .../builtin/syntax_highlight/document.rs       | 18 +++++++++++-------
 .../builtin/syntax_highlight/editor_ext.rs     |  2 ++
 .../builtin/syntax_highlight/extension.rs      |  4 ++--
 .../builtin/syntax_highlight/sections.rs       |  5 +++--
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
index e210733..b170edc 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
@@ -13,15 +13,20 @@ impl SyntaxHighlightExtension {
         let doc_id = document.id();
 
         // Check cache
-        if let Some(cached_tokens) = self.token_cache.get(doc_id) {
-            return Ok(cached_tokens.clone());
+        if let Some((text, cached_tokens)) = self.token_cache.get(doc_id) {
+            if *text == content {
+                return Ok(cached_tokens.clone());
+            }
         }
 
         let mut tokens = Vec::new();
         let mut current_section = None;
-        let mut line_start = 0;
+        let mut next_line = 0;
 
-        for line in content.lines() {
+        for full_line in content.split_inclusive('\n') {
+            let line_start = next_line;
+            next_line += full_line.len();
+            let line = full_line.lines().next().unwrap_or("");
             let line_range = Range::new(
                 Position::new(line_start),
                 Position::new(line_start + line.len()),
@@ -75,8 +80,6 @@ impl SyntaxHighlightExtension {
                 }
             }
 
-            line_start += line.len() + 1; // +1 for newline
-
             // Check token limit
             if self.config.max_tokens > 0 && tokens.len() >= self.config.max_tokens {
                 break;
@@ -84,7 +87,8 @@ impl SyntaxHighlightExtension {
         }
 
         // Cache the tokens
-        self.token_cache.insert(doc_id.to_string(), tokens.clone());
+        self.token_cache
+            .insert(doc_id.to_string(), (content, tokens.clone()));
 
         Ok(tokens)
     }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
index a96d08a..c4447f8 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
@@ -41,6 +41,8 @@ impl EditorExtension for SyntaxHighlightExtension {
                 self.config.max_tokens = max;
             }
         }
+        // What is cached was highlighted under the previous configuration
+        self.clear_cache();
 
         context.show_message("Syntax highlighting initialized", MessageLevel::Info)?;
         Ok(())
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
index b5d76f3..10094d6 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
@@ -16,8 +16,8 @@ use std::collections::HashMap;
 pub struct SyntaxHighlightExtension {
     pub(super) info: ExtensionInfo,
     pub(super) state: ExtensionState,
-    /// Cached tokens for performance
-    pub(super) token_cache: HashMap<String, Vec<HighlightToken>>,
+    /// Cached tokens for performance, with the text they are of
+    pub(super) token_cache: HashMap<String, (String, Vec<HighlightToken>)>,
     /// Configuration
     pub(super) config: SyntaxHighlightConfig,
 }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
index ba1242a..47a9bd5 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
@@ -84,8 +84,9 @@ impl SyntaxHighlightExtension {
         });
 
         // Parse style fields
-        let fields = line[6..].trim_start().split(',');
-        let mut field_start = line_start + 6;
+        let fields_text = line[6..].trim_start();
+        let fields = fields_text.split(',');
+        let mut field_start = line_start + line.len() - fields_text.len();
 
         for (i, field) in fields.enumerate() {
             let field_len = field.len();
-- 
2.43.0


From 90bd623db7505588df1ce3255cb30984dd3d2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 52/69] fix: streams split inside a character are read as in
 one piece

---
 crates/ass-core/parser/streaming/parser.rs | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 21f6ded..6b30a12 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -21,6 +21,8 @@ pub struct StreamingParser {
     processor: LineProcessor,
     /// Buffer for incomplete lines
     pub(super) buffer: String,
+    /// Start of a character the rest of which has not arrived yet
+    partial_char: Vec<u8>,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -36,6 +38,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            partial_char: Vec::new(),
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -49,6 +52,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            partial_char: Vec::new(),
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -66,9 +70,18 @@ impl StreamingParser {
             return Ok(Vec::new());
         }
 
-        let chunk_str = core::str::from_utf8(chunk)
-            .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        bytes.extend_from_slice(chunk);
+        let whole_chars = match core::str::from_utf8(&bytes) {
+            Ok(text) => text.len(),
+            // A chunk may end inside a character
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(e) => return Err(CoreError::parse(format!("Invalid UTF-8: {e}"))),
+        };
+        self.partial_char = bytes.split_off(whole_chars);
 
+        let chunk_str = core::str::from_utf8(&bytes)
+            .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
         self.buffer.push_str(chunk_str);
 
         let mut all_deltas = Vec::new();
@@ -111,6 +124,12 @@ impl StreamingParser {
     ///
     /// Returns an error if the final line processing fails.
     pub fn finish(mut self) -> Result<StreamingResult> {
+        if !self.partial_char.is_empty() {
+            return Err(CoreError::parse(
+                "Invalid UTF-8: the input ends inside a character".to_string(),
+            ));
+        }
+
         if !self.buffer.trim().is_empty() {
             let _deltas = self.processor.process_line(&self.buffer.clone())?;
         }
@@ -126,6 +145,7 @@ impl StreamingParser {
     pub fn reset(&mut self) {
         self.processor.reset();
         self.buffer.clear();
+        self.partial_char.clear();
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From b0c28d5b7b86836637f829d18cb00583440f5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 53/69] fix: line numbers count skipped blank lines and headers
 spanning lines

---
 crates/ass-core/parser/main/helpers.rs | 4 +++-
 crates/ass-core/parser/main/parse.rs   | 3 ++-
 crates/ass-core/parser/main/section.rs | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 64a503a..a03fd56 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -41,7 +41,9 @@ impl Parser<'_> {
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
                 self.skip_line();
             } else if trimmed != remaining {
-                self.position += remaining.len() - trimmed.len();
+                let skipped = &remaining[..remaining.len() - trimmed.len()];
+                self.position += skipped.len();
+                self.line += skipped.matches('\n').count();
             } else {
                 break;
             }
diff --git a/crates/ass-core/parser/main/parse.rs b/crates/ass-core/parser/main/parse.rs
index 99df315..a5be4c0 100644
--- a/crates/ass-core/parser/main/parse.rs
+++ b/crates/ass-core/parser/main/parse.rs
@@ -58,6 +58,7 @@ impl<'a> Parser<'a> {
                 break;
             }
 
+            let line = self.line;
             match self.parse_section() {
                 Ok(section) => self.sections.push(section),
                 Err(e) => {
@@ -74,7 +75,7 @@ impl<'a> Parser<'a> {
                         severity,
                         IssueCategory::Structure,
                         message,
-                        self.line,
+                        line,
                     ));
 
                     self.skip_to_next_section();
diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 82e0018..f53786b 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -31,6 +31,8 @@ impl<'a> Parser<'a> {
         })? + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
+        let header_line = self.line;
+        self.line += section_name.matches('\n').count();
         self.position = header_end + 1;
         self.skip_line();
 
@@ -110,7 +112,7 @@ impl<'a> Parser<'a> {
                 let suggestion = self.skip_to_next_section();
                 let error = ParseError::UnknownSection {
                     section: section_name.to_string(),
-                    line: self.line,
+                    line: header_line,
                 };
 
                 // Add suggestion to issues if we found one
@@ -119,7 +121,7 @@ impl<'a> Parser<'a> {
                         severity: IssueSeverity::Info,
                         category: IssueCategory::Structure,
                         message: suggestion_text,
-                        line: self.line,
+                        line: header_line,
                         column: Some(0),
                         span: None,
                         suggestion: None,
-- 
2.43.0


From 5cabba9f543e5d88c9d5e1838e97e78da831e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 54/69] fix: deltas match repeated sections of one type in
 order

---
 crates/ass-core/parser/script/delta.rs | 29 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/ass-core/parser/script/delta.rs b/crates/ass-core/parser/script/delta.rs
index ee90476..e059fe1 100644
--- a/crates/ass-core/parser/script/delta.rs
+++ b/crates/ass-core/parser/script/delta.rs
@@ -12,6 +12,9 @@ use crate::parser::errors::ParseIssue;
 use super::delta_eq::sections_equal_ignoring_spans;
 use super::Script;
 
+/// Number of section types
+const SECTION_TYPES: usize = 5;
+
 /// Incremental parsing delta for efficient editor updates
 #[derive(Debug, Clone)]
 pub struct ScriptDelta<'a> {
@@ -52,16 +55,22 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     let old_sections: Vec<_> = old_script.sections().iter().collect();
     let new_sections: Vec<_> = new_script.sections().iter().collect();
 
+    // A section is matched with the one of its type that comes at the same place
+    // among those of its type
+    let mut old_of_type = [0; SECTION_TYPES];
+    let mut new_of_type: [Vec<&Section<'a>>; SECTION_TYPES] = Default::default();
+    for new_section in &new_sections {
+        new_of_type[new_section.section_type() as usize].push(new_section);
+    }
+
     // Find modifications and removals
     for (idx, old_section) in old_sections.iter().enumerate() {
-        let old_type = old_section.section_type();
+        let old_type = old_section.section_type() as usize;
+        let nth = old_of_type[old_type];
+        old_of_type[old_type] += 1;
 
         // Look for matching section in new script
-        if let Some((_new_idx, new_section)) = new_sections
-            .iter()
-            .enumerate()
-            .find(|(_, s)| s.section_type() == old_type)
-        {
+        if let Some(new_section) = new_of_type[old_type].get(nth) {
             // Check if content changed (ignoring spans)
             if !sections_equal_ignoring_spans(old_section, new_section) {
                 modified.push((idx, (*new_section).clone()));
@@ -73,11 +82,13 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     }
 
     // Find additions
+    let mut seen = [0; SECTION_TYPES];
     for new_section in &new_sections {
-        let new_type = new_section.section_type();
+        let new_type = new_section.section_type() as usize;
+        seen[new_type] += 1;
 
-        // Check if this type exists in old script
-        if !old_sections.iter().any(|s| s.section_type() == new_type) {
+        // Check if the old script has no section to match
+        if seen[new_type] > old_of_type[new_type] {
             added.push((*new_section).clone());
         }
     }
-- 
2.43.0


From 54b29b145383d98bcb705f03bfa3f62aecc19138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 55/69] fix: incremental parsing takes the shortcut only where
 it gives what parsing the text gives

---
 crates/ass-core/parser/script/incremental.rs | 248 +++++++++++--------
 crates/ass-core/parser/script/partial.rs     |  39 ++-
 2 files changed, 155 insertions(+), 132 deletions(-)

diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..499e0f8 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -2,11 +2,12 @@
 //!
 //! Implements [`Script::affected_sections`], which maps a text change to the
 //! sections it touches, and [`Script::parse_incremental`], which reparses only
-//! those sections while shifting the spans of unchanged sections.
+//! the section a change lies in while shifting the spans of unchanged sections.
 
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parser::ast::{Section, SectionType};
+use crate::parser::incremental::TextChange;
 use crate::parser::main::Parser;
 use crate::Result;
 
@@ -53,8 +54,10 @@ impl<'a> Script<'a> {
 
     /// Parse only changed portions and create new Script
     ///
-    /// This method performs incremental parsing by identifying affected sections
-    /// and reparsing only those sections while preserving others.
+    /// Reparses the section that holds the change and keeps the others, with
+    /// their spans moved. A change that may affect more than one section, such
+    /// as one that adds or removes a header, reparses everything, so the result
+    /// is always that of parsing `new_source` from scratch.
     ///
     /// # Arguments
     ///
@@ -68,118 +71,145 @@ impl<'a> Script<'a> {
     /// # Errors
     ///
     /// Returns parse errors if affected sections cannot be reparsed
-    pub fn parse_incremental(
-        &self,
-        new_source: &'a str,
-        change: &crate::parser::incremental::TextChange,
-    ) -> Result<Self> {
-        use crate::parser::sections::SectionFormats;
-
-        // Step 1: Identify affected sections
-        let affected_sections = self.affected_sections(change);
-
-        if affected_sections.is_empty() {
-            // Change was in whitespace/comments only
-            return Ok(Script::from_parts(
-                new_source,
-                self.version(),
-                self.sections.clone(),
-                vec![], // Clear issues, will be recalculated
-                self.styles_format.clone(),
-                self.events_format.clone(),
-            ));
+    pub fn parse_incremental(&self, new_source: &'a str, change: &TextChange) -> Result<Self> {
+        Ok(self
+            .reparse_changed_section(new_source, change)
+            .unwrap_or_else(|| Parser::new(new_source).parse()))
+    }
+
+    /// Reparse the one section whose body holds the whole change
+    ///
+    /// Returns `None` when there is no such section or when the sections cannot
+    /// be told apart by their header lines alone.
+    fn reparse_changed_section(&self, new_source: &'a str, change: &TextChange) -> Option<Self> {
+        let removed = self.source.get(change.range.clone())?;
+        let (start, end) = (change.range.start, change.range.end);
+        let inserted = new_source.get(start..start + change.new_text.len())?;
+        let is_described = new_source.len() + removed.len() == self.source.len() + inserted.len()
+            && new_source.starts_with(&self.source[..start])
+            && new_source.ends_with(&self.source[end..]);
+
+        let headers = section_headers(self.source)?;
+        let is_plain = self.issues.is_empty()
+            && headers.len() == self.sections.len()
+            && headers.iter().enumerate().all(|(index, (_, header))| {
+                self.sections[index].section_type() == *header
+                    && headers[..index].iter().all(|(_, other)| other != header)
+            });
+        if !is_described || !is_plain {
+            return None;
         }
 
-        // Step 2: Build section formats from existing script
-        let formats = SectionFormats {
-            styles_format: self.styles_format().map(<[&str]>::to_vec),
-            events_format: self.events_format().map(<[&str]>::to_vec),
+        // The change must leave the section's own header and the next one alone
+        let line_end = |from: usize| {
+            self.source[from..]
+                .find('\n')
+                .map_or(self.source.len(), |i| from + i + 1)
         };
+        let index = headers.iter().rposition(|(header, _)| *header <= start)?;
+        let section_start = headers[index].0;
+        let next_header = headers.get(index + 1).map(|(header, _)| *header);
+        let is_inside = self.source[section_start..start].contains('\n')
+            && next_header.is_none_or(|header| end < header);
+        if !is_inside {
+            return None;
+        }
 
-        // Step 3: Prepare new sections
-        let mut new_sections = Vec::with_capacity(self.sections.len());
-
-        // We need to find where each section actually starts in the document
-        // including its header. The current spans only track content.
-        let section_headers = [
-            ("[Script Info]", SectionType::ScriptInfo),
-            ("[V4+ Styles]", SectionType::Styles),
-            ("[Events]", SectionType::Events),
-            ("[Fonts]", SectionType::Fonts),
-            ("[Graphics]", SectionType::Graphics),
-        ];
-
-        // Step 4: Process each section
-        for (idx, section) in self.sections.iter().enumerate() {
-            let section_type = section.section_type();
-
-            if affected_sections.contains(&section_type) {
-                // Find the section header in the new source
-                let header_str = section_headers
-                    .iter()
-                    .find(|(_, t)| *t == section_type)
-                    .map_or("[Unknown]", |(h, _)| *h);
-
-                // Find where this section starts in the new source
-                if let Some(header_pos) = new_source.find(header_str) {
-                    // Find the end of this section (start of next section or end of file)
-                    let section_end = if idx + 1 < self.sections.len() {
-                        // Find the next section's header
-                        let next_section_type = self.sections[idx + 1].section_type();
-                        let next_header = section_headers
-                            .iter()
-                            .find(|(_, t)| *t == next_section_type)
-                            .map_or("[Unknown]", |(h, _)| *h);
-
-                        new_source[header_pos + header_str.len()..]
-                            .find(next_header)
-                            .map_or(new_source.len(), |pos| header_pos + header_str.len() + pos)
-                    } else {
-                        new_source.len()
-                    };
-
-                    // Extract the full section text including header
-                    let section_text = &new_source[header_pos..section_end];
-
-                    // Parse this section using a fresh parser
-                    let parser = Parser::new(section_text);
-                    let parsed_script = parser.parse();
-
-                    // The parser returns a Script, extract sections from it
-                    // We only want the one matching our type
-                    if let Some(parsed_section) = parsed_script
-                        .sections
-                        .into_iter()
-                        .find(|s| s.section_type() == section_type)
-                    {
-                        new_sections.push(parsed_section);
-                    }
-                }
-            } else {
-                // Section unchanged, but might need span adjustment if change was before it
-                let section_span = section.span();
-                if let Some(span) = section_span {
-                    if change.range.end <= span.start {
-                        // Change was before this section, adjust its spans
-                        new_sections.push(Self::adjust_section_spans(section, change));
-                    } else {
-                        // Change was after this section, keep as-is
-                        new_sections.push(section.clone());
-                    }
-                } else {
-                    new_sections.push(section.clone());
-                }
-            }
+        // Nor may it bring a header of its own
+        let new_end = start + inserted.len();
+        let first = self.source[..start].rfind('\n').map_or(0, |i| i + 1);
+        let last = new_source[new_end..]
+            .find('\n')
+            .map_or(new_source.len(), |i| new_end + i);
+        let has_header = !section_headers(&new_source[first..last])?.is_empty();
+
+        // Where a section ends depends on the header behind it, so that goes along
+        let text_end = next_header.map_or(self.source.len(), line_end);
+        let text = &new_source[section_start..text_end - removed.len() + inserted.len()];
+        let parts = headers[index..].len().min(2);
+        let reparsed = Parser::new(text).parse();
+        if has_header || reparsed.sections.len() != parts || !reparsed.issues.is_empty() {
+            return None;
         }
 
-        // Step 5: Create new Script with updated sections
-        Ok(Script::from_parts(
+        let own_shift = (
+            (0, section_start),
+            (0, count_lines(&new_source[..section_start])),
+        );
+        let shift = (
+            (removed.len(), inserted.len()),
+            (count_lines(removed), count_lines(inserted)),
+        );
+
+        let mut sections = self.sections[..index].to_vec();
+        sections.push(Self::shift_section_spans(
+            reparsed.sections.first()?,
+            own_shift.0,
+            own_shift.1,
+        ));
+        sections.extend(
+            self.sections[index + 1..]
+                .iter()
+                .map(|section| Self::shift_section_spans(section, shift.0, shift.1)),
+        );
+
+        let section_type = headers[index].1;
+        Some(Script::from_parts(
             new_source,
-            self.version(),
-            new_sections,
-            vec![], // Issues will be recalculated
-            formats.styles_format.clone(),
-            formats.events_format.clone(),
+            if section_type == SectionType::ScriptInfo {
+                reparsed.version
+            } else {
+                self.version
+            },
+            sections,
+            Vec::new(),
+            if section_type == SectionType::Styles {
+                reparsed.styles_format
+            } else {
+                self.styles_format.clone()
+            },
+            if section_type == SectionType::Events {
+                reparsed.events_format
+            } else {
+                self.events_format.clone()
+            },
         ))
     }
 }
+
+/// Offsets and types of the section headers in a text
+///
+/// Returns `None` when a line begins like a header but is not exactly that of
+/// a known section.
+fn section_headers(text: &str) -> Option<Vec<(usize, SectionType)>> {
+    let mut headers = Vec::new();
+    let mut offset = 0;
+    while let Some(found) = text[offset..].find('[') {
+        let bracket = offset + found;
+        let line_start = text[..bracket].rfind('\n').map_or(0, |i| i + 1);
+        let line_end = text[bracket..]
+            .find('\n')
+            .map_or(text.len(), |i| bracket + i);
+        offset = line_end;
+
+        let line = &text[line_start..line_end];
+        if !line.trim_start().starts_with('[') {
+            continue;
+        }
+        let section_type = match line.trim() {
+            "[Script Info]" => SectionType::ScriptInfo,
+            "[V4+ Styles]" | "[V4 Styles]" | "[V4++ Styles]" => SectionType::Styles,
+            "[Events]" => SectionType::Events,
+            "[Fonts]" => SectionType::Fonts,
+            "[Graphics]" => SectionType::Graphics,
+            _ => return None,
+        };
+        headers.push((line_start, section_type));
+    }
+    Some(headers)
+}
+
+/// Number of line breaks in a text
+fn count_lines(text: &str) -> u32 {
+    u32::try_from(text.matches('\n').count()).unwrap_or(u32::MAX)
+}
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 893dc20..57f380d 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -1,8 +1,8 @@
 //! Range-based partial reparse and span adjustment helpers.
 //!
 //! Hosts the streaming [`Script::parse_partial`] entry point used by editors for
-//! sub-2ms edits, together with the `adjust_section_spans` helper that shifts
-//! unchanged section spans after a text change.
+//! sub-2ms edits, together with the `shift_section_spans` helper that moves
+//! section spans after a text change.
 
 use alloc::vec::Vec;
 #[cfg(feature = "stream")]
@@ -85,32 +85,25 @@ impl<'a> Script<'a> {
         Ok(owned_delta)
     }
 
-    /// Adjust section spans for unchanged sections after a text change
-    pub(super) fn adjust_section_spans(
+    /// Move the spans of a section
+    ///
+    /// `bytes` and `lines` each hold the length of what was replaced before the
+    /// section and the length of what replaces it.
+    pub(super) fn shift_section_spans(
         section: &Section<'a>,
-        change: &crate::parser::incremental::TextChange,
+        bytes: (usize, usize),
+        lines: (u32, u32),
     ) -> Section<'a> {
         use crate::parser::ast::Span;
 
-        // Calculate the offset caused by the change
-        let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
-
-        // Helper to adjust a span using safe arithmetic
+        // Helper to move a span using safe arithmetic
         let adjust_span = |span: &Span| -> Span {
-            let new_start = if new_len >= old_len {
-                span.start + (new_len - old_len)
-            } else {
-                span.start.saturating_sub(old_len - new_len)
-            };
-
-            let new_end = if new_len >= old_len {
-                span.end + (new_len - old_len)
-            } else {
-                span.end.saturating_sub(old_len - new_len)
-            };
-
-            Span::new(new_start, new_end, span.line, span.column)
+            Span::new(
+                (span.start + bytes.1).saturating_sub(bytes.0),
+                (span.end + bytes.1).saturating_sub(bytes.0),
+                span.line.saturating_add(lines.1).saturating_sub(lines.0),
+                span.column,
+            )
         };
 
         // Adjust all spans in the section
-- 
2.43.0


From 6e0c3202ac84db8bf8555b89ed2b3fa09e897a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 56/69] fix: in-place updates keep the place of a line and
 record replaced empty fields

---
 .../parser/ast/section/section_enum.rs        | 56 ++++++-------------
 crates/ass-core/parser/script/update.rs       |  7 ++-
 2 files changed, 21 insertions(+), 42 deletions(-)

diff --git a/crates/ass-core/parser/ast/section/section_enum.rs b/crates/ass-core/parser/ast/section/section_enum.rs
index 3567294..c26ea1c 100644
--- a/crates/ass-core/parser/ast/section/section_enum.rs
+++ b/crates/ass-core/parser/ast/section/section_enum.rs
@@ -64,6 +64,18 @@ pub enum Section<'a> {
     Graphics(Vec<Graphic<'a>>),
 }
 
+/// Merge the spans of the first and last entry
+///
+/// Entries added after parsing have an empty span, which is no place in the
+/// source and counts only when there is no other.
+fn merged_span(spans: impl DoubleEndedIterator<Item = Span> + Clone) -> Option<Span> {
+    let any = spans.clone().next()?;
+    let mut placed = spans.filter(|span| span.start < span.end);
+    let first = placed.next().unwrap_or(any);
+    let last = placed.next_back().unwrap_or(first);
+    Some(Span::new(first.start, last.end, first.line, first.column))
+}
+
 impl Section<'_> {
     /// Get the span covering this entire section
     ///
@@ -73,46 +85,10 @@ impl Section<'_> {
     pub fn span(&self) -> Option<Span> {
         match self {
             Section::ScriptInfo(info) => Some(info.span),
-            Section::Styles(styles) => {
-                if styles.is_empty() {
-                    None
-                } else {
-                    // Merge first and last style spans
-                    let first = &styles[0].span;
-                    let last = &styles[styles.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Events(events) => {
-                if events.is_empty() {
-                    None
-                } else {
-                    // Merge first and last event spans
-                    let first = &events[0].span;
-                    let last = &events[events.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Fonts(fonts) => {
-                if fonts.is_empty() {
-                    None
-                } else {
-                    // Merge first and last font spans
-                    let first = &fonts[0].span;
-                    let last = &fonts[fonts.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Graphics(graphics) => {
-                if graphics.is_empty() {
-                    None
-                } else {
-                    // Merge first and last graphic spans
-                    let first = &graphics[0].span;
-                    let last = &graphics[graphics.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
+            Section::Styles(styles) => merged_span(styles.iter().map(|style| style.span)),
+            Section::Events(events) => merged_span(events.iter().map(|event| event.span)),
+            Section::Fonts(fonts) => merged_span(fonts.iter().map(|font| font.span)),
+            Section::Graphics(graphics) => merged_span(graphics.iter().map(|graphic| graphic.span)),
         }
     }
 
diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..986cd94 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -51,6 +51,7 @@ impl<'a> Script<'a> {
         let (_, new_content) = self.parse_line_auto(new_line, line_number)?;
 
         // Update the appropriate section
+        let mut is_addition = false;
         let result = match (&mut self.sections[section_index], new_content.clone()) {
             (Section::Styles(styles), LineContent::Style(new_style)) => {
                 // Find the style at this offset
@@ -60,6 +61,7 @@ impl<'a> Script<'a> {
                     .map_or(Err(ParseError::IndexOutOfBounds), |style_index| {
                         let old_style = styles[style_index].clone();
                         styles[style_index] = *new_style;
+                        styles[style_index].span = old_style.span;
                         Ok(LineContent::Style(Box::new(old_style)))
                     })
             }
@@ -71,6 +73,7 @@ impl<'a> Script<'a> {
                     .map_or(Err(ParseError::IndexOutOfBounds), |event_index| {
                         let old_event = events[event_index].clone();
                         events[event_index] = *new_event;
+                        events[event_index].span = old_event.span;
                         Ok(LineContent::Event(Box::new(old_event)))
                     })
             }
@@ -83,6 +86,7 @@ impl<'a> Script<'a> {
                 } else {
                     // Add new field if not found
                     info.fields.push((key, value));
+                    is_addition = true;
                     // Record as addition
                     self.change_tracker.record(Change::Added {
                         offset,
@@ -99,8 +103,7 @@ impl<'a> Script<'a> {
 
         // Record change if successful
         if let Ok(old_content) = &result {
-            if !matches!(old_content, LineContent::Field(_, "")) {
-                // This was a modification, not an addition
+            if !is_addition {
                 self.change_tracker.record(Change::Modified {
                     offset,
                     old_content: old_content.clone(),
-- 
2.43.0


From 55b4581b4c16c71601d7b19081660e55315205f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 57/69] fix: writing matches format fields whatever their case
 and keeps a style's parent

---
 .../parser/ast/event/serialization.rs         | 26 ++++----
 .../ass-core/parser/ast/style/conversion.rs   | 66 +++++++++++--------
 2 files changed, 50 insertions(+), 42 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..50da6e1 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -89,19 +89,19 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer,
-                "Start" => self.start,
-                "End" => self.end,
-                "Style" => self.style,
-                "Name" | "Actor" => self.name,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Effect" => self.effect,
-                "Text" => self.text,
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer,
+                "start" => self.start,
+                "end" => self.end,
+                "style" => self.style,
+                "name" | "actor" => self.name,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "effect" => self.effect,
+                "text" => self.text,
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..126fb6e 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -36,8 +36,9 @@ impl Style<'_> {
     pub fn to_ass_string(&self) -> alloc::string::String {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
+        let parent = self.parent_prefix();
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {parent}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
             self.name,
             self.fontname,
             self.fontsize,
@@ -94,40 +95,47 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name,
-                "Fontname" => self.fontname,
-                "Fontsize" => self.fontsize,
-                "PrimaryColour" => self.primary_colour,
-                "SecondaryColour" => self.secondary_colour,
-                "OutlineColour" | "TertiaryColour" => self.outline_colour,
-                "BackColour" => self.back_colour,
-                "Bold" => self.bold,
-                "Italic" => self.italic,
-                "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
-                "ScaleX" => self.scale_x,
-                "ScaleY" => self.scale_y,
-                "Spacing" => self.spacing,
-                "Angle" => self.angle,
-                "BorderStyle" => self.border_style,
-                "Outline" => self.outline,
-                "Shadow" => self.shadow,
-                "Alignment" => self.alignment,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Encoding" => self.encoding,
-                "RelativeTo" => self.relative_to.unwrap_or("0"),
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name,
+                "fontname" => self.fontname,
+                "fontsize" => self.fontsize,
+                "primarycolour" => self.primary_colour,
+                "secondarycolour" => self.secondary_colour,
+                "outlinecolour" | "tertiarycolour" => self.outline_colour,
+                "backcolour" => self.back_colour,
+                "bold" => self.bold,
+                "italic" => self.italic,
+                "underline" => self.underline,
+                "strikeout" => self.strikeout,
+                "scalex" => self.scale_x,
+                "scaley" => self.scale_y,
+                "spacing" => self.spacing,
+                "angle" => self.angle,
+                "borderstyle" => self.border_style,
+                "outline" => self.outline,
+                "shadow" => self.shadow,
+                "alignment" => self.alignment,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "encoding" => self.encoding,
+                "relativeto" => self.relative_to.unwrap_or("0"),
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        let parent = self.parent_prefix();
+        format!("Style: {parent}{joined}")
+    }
+
+    /// What a style line says of the style it inherits from
+    fn parent_prefix(&self) -> alloc::string::String {
+        self.parent
+            .map_or_else(alloc::string::String::new, |parent| format!("*{parent},"))
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From 68ae73022b66242fd596a610bcd3f97100a6e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 58/69] fix: removing and replacing tags keeps unfinished
 blocks and what stands between tags

---
 .../commands/tag_commands/remove.rs           | 28 +++++++++----------
 .../commands/tag_commands/replace.rs          | 11 ++++++++
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index c97d86e..7985d16 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -95,6 +95,13 @@ impl RemoveTagCommand {
                     override_content.push(inner_ch);
                 }
 
+                if brace_count > 0 {
+                    // Never closed: not an override block, keep the text
+                    result.push('{');
+                    result.push_str(&override_content);
+                    continue;
+                }
+
                 // Process override content
                 let cleaned_override = self.process_override_content(&override_content);
 
@@ -122,26 +129,19 @@ impl RemoveTagCommand {
             let mut diagnostics = Vec::new();
             parse_override_block(content, 0, &mut tags, &mut diagnostics);
 
-            // Rebuild content without matching tags
+            // Copy everything but the matching tags
+            let pattern_without_backslash = pattern.strip_prefix('\\').unwrap_or(pattern);
             let mut result = String::new();
-            let mut processed_positions = Vec::new();
+            let mut copied_to = 0;
 
-            // Process tags from ass-core parser
             for tag in &tags {
-                let pattern_without_backslash = pattern.strip_prefix('\\').unwrap_or(pattern);
-                if !tag.name().starts_with(pattern_without_backslash) {
-                    // This tag should be kept - track its position
-                    processed_positions.push((tag.position(), tag.name(), tag.args()));
+                if tag.name().starts_with(pattern_without_backslash) {
+                    result.push_str(&content[copied_to..tag.position()]);
+                    copied_to = tag.position() + 1 + tag.name().len() + tag.args().len();
                 }
             }
 
-            // Rebuild the override content, keeping only non-matching tags
-            for (_, name, args) in processed_positions {
-                result.push('\\');
-                result.push_str(name);
-                result.push_str(args);
-            }
-
+            result.push_str(&content[copied_to..]);
             result
         } else {
             // Remove all tags - return empty string
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index ab54b36..359ff04 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -99,6 +99,11 @@ impl ReplaceTagCommand {
                     }
                     override_content.push(inner_ch);
                 }
+
+                if brace_count > 0 {
+                    // Never closed: not an override block, keep the text
+                    result.push_str(&override_content);
+                }
             } else {
                 result.push(ch);
             }
@@ -124,9 +129,14 @@ impl ReplaceTagCommand {
         parse_override_block(content, 0, &mut tags, &mut diagnostics);
 
         let mut result = String::new();
+        let mut copied_to = 0;
 
         // Process tags from ass-core parser
         for tag in &tags {
+            // Keep whatever stands between the tags
+            result.push_str(&content[copied_to..tag.position()]);
+            copied_to = tag.position() + 1 + tag.name().len() + tag.args().len();
+
             // Reconstruct the full tag to match against the find pattern
             let tag_full = format!("\\{}{}", tag.name(), tag.args());
 
@@ -145,6 +155,7 @@ impl ReplaceTagCommand {
             }
         }
 
+        result.push_str(&content[copied_to..]);
         result
     }
 }
-- 
2.43.0


From 6fc86dae41c7f6fe0c65139f38f176b58329322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 59/69] fix: retiming karaoke changes only karaoke durations,
 in order, and keeps unfinished blocks

---
 .../commands/karaoke_commands/adjust_impl.rs  | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 40086b8..40d9746 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -80,6 +80,13 @@ impl AdjustKaraokeCommand {
                     override_content.push(inner_ch);
                 }
 
+                if brace_count > 0 {
+                    // Never closed: not an override block, keep the text
+                    result.push('{');
+                    result.push_str(&override_content);
+                    continue;
+                }
+
                 // Use ass-core's registry-based parser
                 let mut tags = Vec::new();
                 let mut diagnostics = Vec::new();
@@ -116,10 +123,10 @@ impl AdjustKaraokeCommand {
         tags: &[ass_core::analysis::events::tags::OverrideTag],
         custom_index: &mut usize,
     ) -> Result<String> {
-        let mut result = original_content.to_string();
+        let mut result = String::new();
+        let mut copied_to = 0;
 
-        // Process tags in reverse order to maintain position accuracy
-        for tag in tags.iter().rev() {
+        for tag in tags {
             if tag.name().starts_with('k') {
                 // This tag was validated by ass-core's karaoke handlers
                 let tag_name = tag.name();
@@ -148,13 +155,16 @@ impl AdjustKaraokeCommand {
                     }
                 };
 
-                // Replace the validated tag with adjusted version
-                let old_tag = format!("\\{tag_name}{current_duration}");
-                let new_tag = format!("\\{tag_name}{new_duration}");
-                result = result.replace(&old_tag, &new_tag);
+                // Replace this tag's duration, and nothing else
+                if let Some(rest) = args.strip_prefix(&current_duration.to_string()) {
+                    result.push_str(&original_content[copied_to..tag.position()]);
+                    result.push_str(&format!("\\{tag_name}{new_duration}{rest}"));
+                    copied_to = tag.position() + 1 + tag_name.len() + args.len();
+                }
             }
         }
 
+        result.push_str(&original_content[copied_to..]);
         Ok(result)
     }
 }
-- 
2.43.0


From 08d93941030105fe8c0640d74e96ed5c073d18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 60/69] fix: applying karaoke keeps unfinished blocks and
 refuses an empty pattern

---
 .../commands/karaoke_commands/apply_impl.rs        | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..62dac54 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -2,7 +2,7 @@
 
 use super::{ApplyKaraokeCommand, KaraokeTemplate, KaraokeType};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -88,6 +88,7 @@ impl ApplyKaraokeCommand {
         while let Some(ch) = chars.next() {
             if ch == '{' {
                 // Skip override block
+                let rest = chars.clone();
                 let mut brace_count = 1;
                 for inner_ch in chars.by_ref() {
                     if inner_ch == '{' {
@@ -99,6 +100,11 @@ impl ApplyKaraokeCommand {
                         }
                     }
                 }
+                if brace_count > 0 {
+                    // Never closed: not an override block, keep the text
+                    result.push('{');
+                    result.push_str(rest.as_str());
+                }
             } else {
                 result.push(ch);
             }
@@ -159,6 +165,12 @@ impl ApplyKaraokeCommand {
         durations: &[u32],
         karaoke_type: KaraokeType,
     ) -> Result<String> {
+        if durations.is_empty() {
+            return Err(EditorError::command_failed(
+                "Karaoke pattern needs at least one duration",
+            ));
+        }
+
         let tag = karaoke_type.tag_string();
         let mut result = String::new();
 
-- 
2.43.0


From 107381be5821d5fd7b10762f2596e15a667e7151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 61/69] fix: closing tags match the opening tag, and wrapped
 tags can be inserted

---
 crates/ass-editor/commands/tag_commands/insert.rs | 10 +++++-----
 crates/ass-editor/commands/tag_commands/wrap.rs   | 11 +++--------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/crates/ass-editor/commands/tag_commands/insert.rs b/crates/ass-editor/commands/tag_commands/insert.rs
index 83a0682..ad7fbc8 100644
--- a/crates/ass-editor/commands/tag_commands/insert.rs
+++ b/crates/ass-editor/commands/tag_commands/insert.rs
@@ -44,6 +44,11 @@ impl InsertTagCommand {
     fn format_tag(&self) -> Result<String> {
         let tag = self.tag.trim();
 
+        // Check if already wrapped in override brackets
+        if tag.starts_with("{\\") && tag.ends_with('}') {
+            return Ok(tag.to_string());
+        }
+
         // Validate tag format - should start with backslash
         if !tag.starts_with('\\') {
             return Err(EditorError::command_failed(format!(
@@ -51,11 +56,6 @@ impl InsertTagCommand {
             )));
         }
 
-        // Check if already wrapped in override brackets
-        if tag.starts_with('{') && tag.ends_with('}') {
-            return Ok(tag.to_string());
-        }
-
         // Auto-wrap if enabled
         if self.auto_wrap {
             Ok(format!("{{{tag}}}"))
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..107eda0 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -59,14 +59,9 @@ impl WrapTagCommand {
         // Auto-generate closing tag based on opening tag
         let tag = self.opening_tag.trim_start_matches('\\');
 
-        if tag.starts_with('b') {
-            "\\b0".to_string()
-        } else if tag.starts_with('i') {
-            "\\i0".to_string()
-        } else if tag.starts_with('u') {
-            "\\u0".to_string()
-        } else if tag.starts_with('s') {
-            "\\s0".to_string()
+        let name = tag.trim_end_matches(|c: char| !c.is_ascii_alphabetic());
+        if matches!(name, "b" | "i" | "u" | "s") {
+            format!("\\{name}0")
         } else if tag.starts_with("c&") || tag.starts_with("1c&") {
             "\\c".to_string() // Reset to default color
         } else {
-- 
2.43.0


From ca903a15e7c5b8e7426a2f62b3fb46448df30729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 62/69] fix: parsed tags report byte positions of their
 backslash

---
 crates/ass-editor/commands/tag_commands/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/commands/tag_commands/parse.rs b/crates/ass-editor/commands/tag_commands/parse.rs
index 3494f0b..3564776 100644
--- a/crates/ass-editor/commands/tag_commands/parse.rs
+++ b/crates/ass-editor/commands/tag_commands/parse.rs
@@ -71,14 +71,14 @@ impl ParseTagCommand {
     /// Parse tags from text content
     pub fn parse_tags_from_text(&self, text: &str) -> Result<Vec<ParsedTag>> {
         let mut tags = Vec::new();
-        let mut chars = text.chars().enumerate().peekable();
+        let mut chars = text.char_indices();
 
         while let Some((pos, ch)) = chars.next() {
             if ch == '{' {
                 // Found override block
                 let mut override_content = String::new();
                 let mut brace_count = 1;
-                let start_pos = pos;
+                let start_pos = pos + 1; // content begins after the brace
 
                 while let Some((_, inner_ch)) = chars.next() {
                     if inner_ch == '{' {
-- 
2.43.0


From 8941938707b9a66e2fbe2b3082d35d784f8ab817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 63/69] fix: splitting karaoke loses no text and stays out of
 override blocks

---
 .../commands/karaoke_commands/generate.rs     | 50 +++++--------------
 .../commands/karaoke_commands/split.rs        | 13 ++++-
 2 files changed, 25 insertions(+), 38 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 0d2c583..df07a2d 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -57,7 +57,7 @@ impl GenerateKaraokeCommand {
         }
 
         // Simple syllable detection based on vowels and common patterns
-        let mut syllables = Vec::new();
+        let mut syllables: Vec<String> = Vec::new();
         let mut current_start = 0;
         let chars: Vec<char> = text.chars().collect();
 
@@ -65,48 +65,24 @@ impl GenerateKaraokeCommand {
             return vec![text.to_string()];
         }
 
-        for (i, &ch) in chars.iter().enumerate() {
-            // Split on spaces and common syllable boundaries
-            if ch.is_whitespace() || (i > 0 && self.is_syllable_boundary(&chars, i)) {
-                if current_start < i {
-                    let syllable: String = chars[current_start..i].iter().collect();
-                    if !syllable.trim().is_empty() {
-                        syllables.push(syllable);
-                    }
-                }
-
-                // Handle whitespace
-                if ch.is_whitespace() {
-                    let mut end = i + 1;
-                    while end < chars.len() && chars[end].is_whitespace() {
-                        end += 1;
-                    }
-                    if end > i + 1 {
-                        let whitespace: String = chars[i..end].iter().collect();
-                        syllables.push(whitespace);
-                        current_start = end;
-                        continue;
-                    }
-                }
-
+        for i in 1..chars.len() {
+            // A syllable begins at a syllable boundary, or at the whitespace before a word
+            let at_space = chars[i].is_whitespace() && !chars[i - 1].is_whitespace();
+            let blank_so_far = chars[current_start..i].iter().all(|c| c.is_whitespace());
+            if !blank_so_far && (at_space || self.is_syllable_boundary(&chars, i)) {
+                syllables.push(chars[current_start..i].iter().collect());
                 current_start = i;
             }
         }
 
-        // Add remaining text
-        if current_start < chars.len() {
-            let remaining: String = chars[current_start..].iter().collect();
-            if !remaining.trim().is_empty() {
-                syllables.push(remaining);
-            }
+        // Add remaining text; trailing whitespace stays with the last syllable
+        let remaining: String = chars[current_start..].iter().collect();
+        match syllables.last_mut() {
+            Some(last) if remaining.trim().is_empty() => last.push_str(&remaining),
+            _ => syllables.push(remaining),
         }
 
-        // Return syllables or whole text if none found
-        if syllables.is_empty() {
-            vec![text.to_string()]
-        } else {
-            syllables
-        }
+        syllables
     }
 
     /// Check if position is a syllable boundary
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 58ddfe4..31a6e1a 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -58,6 +58,13 @@ impl EditorCommand for SplitKaraokeCommand {
 }
 
 impl SplitKaraokeCommand {
+    /// Whether a position lies within the brackets of an override block
+    fn inside_override_block(text: &str, pos: usize) -> bool {
+        text[..pos]
+            .rfind(['{', '}'])
+            .is_some_and(|bracket| text[bracket..].starts_with('{'))
+    }
+
     /// Split karaoke text at specified positions
     fn split_karaoke_text(&self, text: &str) -> Result<String> {
         // For now, return simplified version
@@ -66,7 +73,11 @@ impl SplitKaraokeCommand {
         let mut last_pos = 0;
 
         for &pos in &self.split_positions {
-            if pos <= last_pos || !text.is_char_boundary(pos) || pos >= text.len() {
+            if pos <= last_pos
+                || !text.is_char_boundary(pos)
+                || pos >= text.len()
+                || Self::inside_override_block(text, pos)
+            {
                 continue;
             }
 
-- 
2.43.0


From 9949c561fc40d6ee1ccf9725b7675e54c4b6a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 64/69] fix: fluent deletions count characters, and line ends
 stop before CRLF

---
 crates/ass-editor/core/fluent/position.rs  | 42 +++++++++++++++++-----
 crates/ass-editor/core/position/builder.rs | 16 ++++++---
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 99749fd..b3fe3c4 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -2,6 +2,9 @@
 
 use crate::core::{EditorDocument, Position, Range, Result};
 
+#[cfg(feature = "rope")]
+use crate::core::PositionBuilder;
+
 #[cfg(not(feature = "rope"))]
 use crate::core::errors::EditorError;
 
@@ -34,7 +37,7 @@ impl<'a> AtPosition<'a> {
 
     /// Delete a number of characters forward from position
     pub fn delete(self, count: usize) -> Result<&'a mut EditorDocument> {
-        let end = self.position.advance(count);
+        let end = self.characters_after(count);
         let range = Range::new(self.position, end);
         self.document.delete(range)?;
         Ok(self.document)
@@ -42,24 +45,47 @@ impl<'a> AtPosition<'a> {
 
     /// Delete characters backward from position (backspace)
     pub fn backspace(self, count: usize) -> Result<&'a mut EditorDocument> {
-        let start = self.position.retreat(count);
+        let start = self.characters_before(count);
         let range = Range::new(start, self.position);
         self.document.delete(range)?;
         Ok(self.document)
     }
 
+    /// Position `count` characters further on (past the end if there are fewer)
+    fn characters_after(&self, count: usize) -> Position {
+        let text = self.document.text();
+        match text.get(self.position.offset..) {
+            Some(rest) if rest.chars().count() >= count => self
+                .position
+                .advance(rest.chars().take(count).map(char::len_utf8).sum()),
+            _ => Position::new(self.position.offset.max(text.len()).saturating_add(1)),
+        }
+    }
+
+    /// Position `count` characters back, or the start if there are fewer
+    fn characters_before(&self, count: usize) -> Position {
+        let text = self.document.text();
+        match text.get(..self.position.offset) {
+            Some(head) => self
+                .position
+                .retreat(head.chars().rev().take(count).map(char::len_utf8).sum()),
+            None => self.position.retreat(count),
+        }
+    }
+
     /// Replace text from position to end of line
     pub fn replace_to_line_end(self, text: &str) -> Result<&'a mut EditorDocument> {
         #[cfg(feature = "rope")]
         {
             let rope = self.document.rope();
             let line_idx = rope.byte_to_line(self.position.offset);
-            let line_end_byte = if line_idx + 1 < rope.len_lines() {
-                rope.line_to_byte(line_idx + 1).saturating_sub(1)
-            } else {
-                rope.len_bytes()
-            };
-            let range = Range::new(self.position, Position::new(line_end_byte));
+            let line_end = PositionBuilder::new()
+                .at_line_end(line_idx + 1)
+                .build(rope)?;
+
+            // A position inside the line break has nothing before the line's end
+            let line_end = line_end.max(self.position);
+            let range = Range::new(self.position, line_end);
             self.document.replace(range, text)?;
             Ok(self.document)
         }
diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 562a30a..3a3bb0e 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -9,6 +9,9 @@ use super::LineColumn;
 use super::Position;
 use crate::core::errors::{EditorError, Result};
 
+#[cfg(all(feature = "rope", not(feature = "std")))]
+use alloc::string::ToString;
+
 /// Builder for creating document positions with fluent API
 ///
 /// Provides ergonomic ways to create positions:
@@ -138,13 +141,16 @@ impl PositionBuilder {
 
                 Ok(Position::new(line_start + byte_pos))
             } else {
-                // No column specified - go to end of line
-                let line_end = if line_idx + 1 < rope.len_lines() {
-                    rope.line_to_byte(line_idx + 1).saturating_sub(1)
+                // No column specified - go to end of line, before its line break
+                let line = rope.line(line_idx).to_string();
+                let break_len = if line.ends_with("\r\n") {
+                    2
+                } else if line_idx + 1 < rope.len_lines() {
+                    line.chars().last().map_or(0, char::len_utf8)
                 } else {
-                    rope.len_bytes()
+                    0
                 };
-                Ok(Position::new(line_end))
+                Ok(Position::new(line_start + line.len() - break_len))
             }
         } else {
             // Default to start if nothing specified
-- 
2.43.0


From 5fe3542aebf26220a73554a3df0cbbb8dddd6be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 65/69] fix: a failing event handler no longer keeps the event
 from the others

---
 crates/ass-editor/events/dispatch.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/events/dispatch.rs b/crates/ass-editor/events/dispatch.rs
index 1ffef90..72de58d 100644
--- a/crates/ass-editor/events/dispatch.rs
+++ b/crates/ass-editor/events/dispatch.rs
@@ -16,6 +16,8 @@ use futures::channel::mpsc;
 
 impl EventChannel {
     /// Dispatch an event to all registered handlers
+    ///
+    /// Every matching handler gets the event; the first failure is returned.
     pub fn dispatch(&mut self, event: DocumentEvent) -> Result<()> {
         #[cfg(feature = "std")]
         let start_time = std::time::Instant::now();
@@ -23,6 +25,7 @@ impl EventChannel {
         self.stats.events_dispatched += 1;
 
         let mut filtered_count = 0;
+        let mut first_error = None;
         #[cfg(feature = "std")]
         let mut processed_count = 0;
 
@@ -37,7 +40,11 @@ impl EventChannel {
 
             for handler_info in handlers.iter_mut() {
                 if handler_info.filter.matches(&event) {
-                    handler_info.handler.handle_event(&event)?;
+                    // One failing handler must not keep the event from the others
+                    if let Err(error) = handler_info.handler.handle_event(&event) {
+                        first_error.get_or_insert(error);
+                        continue;
+                    }
                     handler_info.events_processed += 1;
                     #[cfg(feature = "std")]
                     {
@@ -55,7 +62,11 @@ impl EventChannel {
 
             for handler_info in handlers.iter_mut() {
                 if handler_info.filter.matches(&event) {
-                    handler_info.handler.handle_event(&event)?;
+                    // One failing handler must not keep the event from the others
+                    if let Err(error) = handler_info.handler.handle_event(&event) {
+                        first_error.get_or_insert(error);
+                        continue;
+                    }
                     handler_info.events_processed += 1;
                     #[cfg(feature = "std")]
                     {
@@ -91,7 +102,7 @@ impl EventChannel {
             );
         }
 
-        Ok(())
+        first_error.map_or(Ok(()), Err)
     }
 
     /// Dispatch multiple events in a batch
-- 
2.43.0


From 3c5c18cca492af85ea5d3fe0fed1de7f9551d8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 66/69] fix: the asynchronous event queue keeps to its
 configured size

---
 crates/ass-editor/events/dispatch.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/ass-editor/events/dispatch.rs b/crates/ass-editor/events/dispatch.rs
index 72de58d..668319b 100644
--- a/crates/ass-editor/events/dispatch.rs
+++ b/crates/ass-editor/events/dispatch.rs
@@ -11,6 +11,9 @@ use crate::core::Result;
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
 
+#[cfg(all(not(feature = "std"), feature = "async"))]
+use alloc::format;
+
 #[cfg(feature = "async")]
 use futures::channel::mpsc;
 
@@ -130,9 +133,19 @@ impl EventChannel {
     }
 
     /// Dispatch event asynchronously (requires async feature)
+    ///
+    /// Fails when the queue already holds `max_async_queue_size` events.
     #[cfg(feature = "async")]
     pub fn dispatch_async(&mut self, event: DocumentEvent) -> Result<()> {
         if let Some(ref sender) = self.async_sender {
+            if sender.len() >= self.config.max_async_queue_size {
+                return Err(crate::core::EditorError::CommandFailed {
+                    message: format!(
+                        "Async event queue is full: {}",
+                        self.config.max_async_queue_size
+                    ),
+                });
+            }
             sender
                 .unbounded_send(event)
                 .map_err(|_| crate::core::EditorError::CommandFailed {
-- 
2.43.0


From 9455f60519931e25e4bf899d526b1f8390add874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 67/69] fix: event commands count the same events as queries
 and keep their type

---
 .../commands/event_commands/batch_delete.rs      |  3 ++-
 .../ass-editor/commands/event_commands/delete.rs |  3 ++-
 .../commands/event_commands/effect_exec.rs       | 11 +++--------
 .../commands/event_commands/helpers.rs           | 16 ++++++++++------
 .../ass-editor/commands/event_commands/merge.rs  | 11 +++--------
 crates/ass-editor/commands/event_commands/mod.rs |  2 +-
 .../ass-editor/commands/event_commands/split.rs  | 11 +++--------
 .../ass-editor/commands/event_commands/timing.rs | 11 +++--------
 .../ass-editor/commands/event_commands/toggle.rs | 12 ++++++++----
 .../ass-editor/commands/style_commands/apply.rs  |  3 ++-
 crates/ass-editor/core/builders/event.rs         |  8 ++++++++
 crates/ass-editor/core/document/builder_edit.rs  | 10 +---------
 12 files changed, 46 insertions(+), 55 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 6884e8a..24002de 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -1,5 +1,6 @@
 //! Command to delete multiple events from an ASS document.
 
+use super::helpers::event_line_type;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -70,7 +71,7 @@ impl EditorCommand for BatchDeleteEventsCommand {
 
             let line = &content[event_start..line_end];
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 event_positions.push((current_index, event_start, line_end));
                 current_index += 1;
             } else if line.starts_with('[') {
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 5d1f357..50fce1e 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -1,5 +1,6 @@
 //! Command to delete a single event from an ASS document.
 
+use super::helpers::event_line_type;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -58,7 +59,7 @@ impl EditorCommand for DeleteEventCommand {
 
             let line = &content[event_start..line_end];
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 if current_index == self.event_index {
                     delete_range = Some(Range::new(
                         Position::new(event_start),
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 01f416e..f2ac1c9 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -1,10 +1,9 @@
 //! `EditorCommand` implementation for `EventEffectCommand`.
 
 use super::effect::{EffectOperation, EventEffectCommand};
-use super::helpers::parse_event_line;
+use super::helpers::{event_line_type, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -48,7 +47,7 @@ impl EditorCommand for EventEffectCommand {
 
             let line = &content[event_start..line_end];
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 let should_modify =
                     self.event_indices.is_empty() || self.event_indices.contains(&current_index);
 
@@ -75,11 +74,7 @@ impl EditorCommand for EventEffectCommand {
                         };
 
                         // Build new event line
-                        let event_type_str = match event.event_type {
-                            EventType::Dialogue => "Dialogue",
-                            EventType::Comment => "Comment",
-                            _ => "Dialogue", // Default fallback
-                        };
+                        let event_type_str = event.event_type.as_str();
                         let new_line = format!(
                             "{}: {},{},{},{},{},{},{},{},{},{}",
                             event_type_str,
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index 78219fa..97f001e 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -9,6 +9,14 @@ use ass_core::parser::ast::{Event, EventType, Span};
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
 
+/// Type of the event a line holds, if it is an event line
+///
+/// Counts the same lines as the parser, so that indices agree with queries.
+pub(crate) fn event_line_type(line: &str) -> Option<EventType> {
+    let (kind, _) = line.split_once(':')?;
+    EventType::parse_type(kind).filter(|event_type| event_type.as_str() == kind)
+}
+
 /// Helper function to parse an ASS event line with proper comma handling
 /// Returns parsed Event struct or error if parsing fails
 pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, EditorError> {
@@ -16,14 +24,10 @@ pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, Ed
     let colon_pos = line
         .find(':')
         .ok_or_else(|| EditorError::command_failed("Invalid event format: missing colon"))?;
-    let event_type_str = &line[..colon_pos];
     let fields_part = line[colon_pos + 1..].trim();
 
-    let event_type = match event_type_str {
-        "Dialogue" => EventType::Dialogue,
-        "Comment" => EventType::Comment,
-        _ => return Err(EditorError::command_failed("Unknown event type")),
-    };
+    let event_type =
+        event_line_type(line).ok_or_else(|| EditorError::command_failed("Unknown event type"))?;
 
     // Parse fields carefully - Effect field can contain commas, so we need special handling
     // Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 1a8d8a4..920126b 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -1,9 +1,8 @@
 //! Command to merge two consecutive events into one.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_line_type, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -89,7 +88,7 @@ impl EditorCommand for MergeEventsCommand {
 
             let line = &content[event_start..line_end];
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 if current_index == self.first_event_index
                     || current_index == self.second_event_index
                 {
@@ -123,11 +122,7 @@ impl EditorCommand for MergeEventsCommand {
         );
 
         // Create merged event
-        let event_type_str = match first_event.event_type {
-            EventType::Dialogue => "Dialogue",
-            EventType::Comment => "Comment",
-            _ => "Dialogue", // Default fallback
-        };
+        let event_type_str = first_event.event_type.as_str();
         let merged_event = format!(
             "{}: {},{},{},{},{},{},{},{},{},{}",
             event_type_str,
diff --git a/crates/ass-editor/commands/event_commands/mod.rs b/crates/ass-editor/commands/event_commands/mod.rs
index aa56268..1a523d8 100644
--- a/crates/ass-editor/commands/event_commands/mod.rs
+++ b/crates/ass-editor/commands/event_commands/mod.rs
@@ -7,7 +7,7 @@ mod batch_delete;
 mod delete;
 mod effect;
 mod effect_exec;
-mod helpers;
+pub(crate) mod helpers;
 mod merge;
 mod split;
 mod timing;
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 00b6d35..b4f8c10 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -1,9 +1,8 @@
 //! Command to split a single event into two at a specific time.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_line_type, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -78,7 +77,7 @@ impl EditorCommand for SplitEventCommand {
             let line = &content[event_start..line_end];
 
             // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 if current_index == self.event_index {
                     // Found the event to split - parse using ass-core's parser
                     let event = parse_event_line(line)?;
@@ -98,11 +97,7 @@ impl EditorCommand for SplitEventCommand {
                     }
 
                     // Create two new events
-                    let event_type_str = match event.event_type {
-                        EventType::Dialogue => "Dialogue",
-                        EventType::Comment => "Comment",
-                        _ => "Dialogue", // Default fallback
-                    };
+                    let event_type_str = event.event_type.as_str();
                     let first_event = format!(
                         "{}: {},{},{},{},{},{},{},{},{},{}",
                         event_type_str,
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index 1ec8df8..592b257 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -1,9 +1,8 @@
 //! Command to adjust event timing by shifting start/end times.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_line_type, parse_event_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 use ass_core::utils::format_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -111,7 +110,7 @@ impl EditorCommand for TimingAdjustCommand {
 
             let line = &content[event_start..line_end];
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 let should_adjust =
                     self.event_indices.is_empty() || self.event_indices.contains(&current_index);
 
@@ -133,11 +132,7 @@ impl EditorCommand for TimingAdjustCommand {
                             let new_end_time = format_ass_time(final_end_cs);
 
                             // Build new event line
-                            let event_type_str = match event.event_type {
-                                EventType::Dialogue => "Dialogue",
-                                EventType::Comment => "Comment",
-                                _ => "Dialogue", // Default fallback
-                            };
+                            let event_type_str = event.event_type.as_str();
                             let new_line = format!(
                                 "{}: {},{},{},{},{},{},{},{},{},{}",
                                 event_type_str,
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 084f4b4..3fc18c0 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -1,7 +1,9 @@
 //! Command to toggle event type between Dialogue and Comment.
 
+use super::helpers::event_line_type;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -81,12 +83,14 @@ impl EditorCommand for ToggleEventTypeCommand {
 
             let line = &content[event_start..line_end];
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_toggle =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
+            if let Some(event_type) = event_line_type(line) {
+                // Other event types have no counterpart to toggle to
+                let should_toggle = (self.event_indices.is_empty()
+                    || self.event_indices.contains(&current_index))
+                    && matches!(event_type, EventType::Dialogue | EventType::Comment);
 
                 if should_toggle {
-                    let new_line = if line.starts_with("Dialogue:") {
+                    let new_line = if event_type == EventType::Dialogue {
                         line.replacen("Dialogue:", "Comment:", 1)
                     } else {
                         line.replacen("Comment:", "Dialogue:", 1)
diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index a11d221..c5dec69 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -3,6 +3,7 @@
 //! Provides [`ApplyStyleCommand`] to retarget events from one style to
 //! another, with an optional text filter on event lines.
 
+use crate::commands::event_commands::helpers::event_line_type;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
@@ -89,7 +90,7 @@ impl EditorCommand for ApplyStyleCommand {
             let line = &content[line_start..line_end];
 
             // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
+            if event_line_type(line).is_some() {
                 let parts: Vec<&str> = line.split(',').collect();
 
                 // Check if this event uses the old style (typically 4th field after event type)
diff --git a/crates/ass-editor/core/builders/event.rs b/crates/ass-editor/core/builders/event.rs
index a1dad4f..4c7bf37 100644
--- a/crates/ass-editor/core/builders/event.rs
+++ b/crates/ass-editor/core/builders/event.rs
@@ -57,6 +57,14 @@ impl<'a> EventBuilder<'a> {
         Self::default()
     }
 
+    /// Create a builder for an event of the given type
+    pub(crate) fn of_type(event_type: EventType) -> Self {
+        Self {
+            event_type: Some(event_type),
+            ..Self::default()
+        }
+    }
+
     /// Create a dialogue event builder
     pub fn dialogue() -> Self {
         Self {
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 9069376..88f99d2 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -86,15 +86,7 @@ impl EditorDocument {
                     for event in events {
                         if event_count == index {
                             // Create a builder pre-populated with current values
-                            let mut builder = match event.event_type {
-                                ass_core::parser::ast::EventType::Dialogue => {
-                                    EventBuilder::dialogue()
-                                }
-                                ass_core::parser::ast::EventType::Comment => {
-                                    EventBuilder::comment()
-                                }
-                                _ => EventBuilder::new(),
-                            };
+                            let mut builder = EventBuilder::of_type(event.event_type);
 
                             // Pre-populate builder with current event values
                             builder = builder
-- 
2.43.0


From 5ef4e5ed0d26e23b8894ea0d5f0f068e3b3ea0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 68/69] fix: deleting several events and adding embedded files
 report the whole change

---
 .../ass-editor/commands/event_commands/batch_delete.rs |  9 ++++++++-
 .../ass-editor/commands/fonts_graphics_commands/add.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 24002de..6d827f5 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -85,11 +85,18 @@ impl EditorCommand for BatchDeleteEventsCommand {
         // Delete events in reverse order to avoid index shifting
         let mut total_deleted = 0;
         let mut first_delete_pos = Position::new(content.len());
+        let mut last_delete_pos = first_delete_pos;
 
         for index in &sorted_indices {
             if let Some((_, start, end)) = event_positions.iter().find(|(idx, _, _)| idx == index) {
                 let range = Range::new(Position::new(*start), Position::new(*end));
                 document.delete(range)?;
+                // Later deletions end this much earlier once this line is gone
+                last_delete_pos = if total_deleted == 0 {
+                    range.start
+                } else {
+                    last_delete_pos.retreat(range.len())
+                };
                 total_deleted += 1;
 
                 // Track the earliest deletion position
@@ -101,7 +108,7 @@ impl EditorCommand for BatchDeleteEventsCommand {
 
         if total_deleted > 0 {
             Ok(CommandResult::success_with_change(
-                Range::new(first_delete_pos, first_delete_pos),
+                Range::new(first_delete_pos, last_delete_pos),
                 first_delete_pos,
             ))
         } else {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 491ab86..d3e1518 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -74,6 +74,9 @@ impl EditorCommand for AddFontCommand {
             insert_pos + "[Fonts]\n".len()
         };
 
+        // A new line break or header before the entry is part of the change
+        let change_start = insert_pos.min(content.len());
+
         // Build font entry
         let filename = &self.filename;
         let mut font_entry = format!("fontname: {filename}\n");
@@ -87,7 +90,7 @@ impl EditorCommand for AddFontCommand {
 
         Ok(CommandResult::success_with_change(
             Range::new(
-                Position::new(insert_pos),
+                Position::new(change_start),
                 Position::new(insert_pos + font_entry.len()),
             ),
             Position::new(insert_pos + font_entry.len()),
@@ -168,6 +171,9 @@ impl EditorCommand for AddGraphicCommand {
             insert_pos + "[Graphics]\n".len()
         };
 
+        // A new line break or header before the entry is part of the change
+        let change_start = insert_pos.min(content.len());
+
         // Build graphic entry
         let filename = &self.filename;
         let mut graphic_entry = format!("filename: {filename}\n");
@@ -181,7 +187,7 @@ impl EditorCommand for AddGraphicCommand {
 
         Ok(CommandResult::success_with_change(
             Range::new(
-                Position::new(insert_pos),
+                Position::new(change_start),
                 Position::new(insert_pos + graphic_entry.len()),
             ),
             Position::new(insert_pos + graphic_entry.len()),
-- 
2.43.0


From aa1eb9d3f40bfca49d5ee3889ccbc0354d82ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:52 +0000
Subject: [PATCH 69/69] fix: embedded files are read to their last line and end
 where the next begins

---
 .../parser/binary_data/binary_parser.rs       | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 03516a9..663bc5f 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -86,7 +86,7 @@ impl<'a, T> BinaryDataParser<'a, T> {
         None
     }
 
-    /// Collect UU-encoded data lines until next section or empty line
+    /// Collect UU-encoded data lines until next entry, next section or empty line
     fn collect_data_lines(&mut self) -> Vec<&'a str> {
         let mut data_lines = Vec::new();
 
@@ -94,20 +94,23 @@ impl<'a, T> BinaryDataParser<'a, T> {
             let data_line = self.current_line();
             let trimmed = data_line.trim();
 
-            if trimmed.is_empty() || trimmed.starts_with('[') {
+            if trimmed.is_empty() || trimmed.starts_with('[') || self.is_entry_line(trimmed) {
                 break;
             }
 
-            // Skip comment lines
-            if trimmed.starts_with(';') || trimmed.starts_with('!') {
-                self.tracker.skip_line();
-                continue;
-            }
-
-            // Stop at hash comments (# followed by space or at end of line)
-            // But not UU-encoded data (# followed immediately by encoded chars)
-            if trimmed.starts_with("# ") || trimmed == "#" {
-                break;
+            // Comment markers may also be the length character of encoded data
+            if !Self::is_encoded_line(data_line) {
+                // Skip comment lines
+                if trimmed.starts_with(';') || trimmed.starts_with('!') {
+                    self.tracker.skip_line();
+                    continue;
+                }
+
+                // Stop at hash comments (# followed by space or at end of line)
+                // But not UU-encoded data (# followed immediately by encoded chars)
+                if trimmed.starts_with("# ") || trimmed == "#" {
+                    break;
+                }
             }
 
             data_lines.push(data_line);
@@ -117,6 +120,25 @@ impl<'a, T> BinaryDataParser<'a, T> {
         data_lines
     }
 
+    /// Check if a line is encoded data of exactly the length its first character gives
+    fn is_encoded_line(line: &str) -> bool {
+        let line = line.trim_end_matches('\r').as_bytes();
+        let Some((first, data)) = line.split_first() else {
+            return false;
+        };
+        let length = usize::from(first.wrapping_sub(b' '));
+        (1..=45).contains(&length)
+            && line.iter().all(|byte| (b' '..=b'`').contains(byte))
+            && (length * 4).div_ceil(3) <= data.len()
+            && data.len() <= length.div_ceil(3) * 4
+    }
+
+    /// Check if a line begins an entry; encoded data has no lowercase letters
+    fn is_entry_line(&self, line: &str) -> bool {
+        line.split_once(':')
+            .is_some_and(|(key, _)| key.trim() == self.entry_key)
+    }
+
     /// Check if at start of next section
     fn at_next_section(&self) -> bool {
         self.tracker.remaining().trim_start().starts_with('[')
-- 
2.43.0

