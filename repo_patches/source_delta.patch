From ff865635c7da5a2d19a2e3c34eed4569ac462427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 01/29] fix: infer the first line ending in files with mixed
 line endings

`line-ending = "auto"` is documented to convert files with mixed line endings to the
first detected line ending, but `infer()` reported CRLF as soon as there was one
anywhere in the file. Normalization no longer relies on the inferred line ending.
---
 .../air_r_formatter/src/r/auxiliary/root.rs   |  6 +----
 crates/line_ending/src/lib.rs                 | 22 +++++++++++++------
 crates/lsp/src/documents.rs                   |  5 +----
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index 6100fc6..a1e3da8 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -9,7 +9,6 @@ use biome_formatter::write;
 use biome_rowan::Direction;
 use biome_rowan::SyntaxElement;
 use comments::{Directive, FormatDirective, parse_comment_directive, parse_special_skip_file};
-use settings::LineEnding;
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct FormatRRoot;
@@ -105,10 +104,7 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         // This is also identical to how `fmt_suppressed()`'s default works via
         // `format_suppressed_node()` and `FormatVerbatimNode`. It normalizes line endings
         // right before calling `dynamic_text()` (#507).
-        let text = match line_ending::infer(&text) {
-            LineEnding::Lf => text,
-            LineEnding::Crlf => line_ending::normalize(text),
-        };
+        let text = line_ending::normalize(text);
 
         // Formatting with `format_suppressed_node()` does not work well
         // here because it only formats the node verbatim, not the leading
diff --git a/crates/line_ending/src/lib.rs b/crates/line_ending/src/lib.rs
index e3d18a6..b61852b 100644
--- a/crates/line_ending/src/lib.rs
+++ b/crates/line_ending/src/lib.rs
@@ -10,11 +10,17 @@ use settings::LineEnding;
 
 static FINDER: LazyLock<memmem::Finder> = LazyLock::new(|| memmem::Finder::new(b"\r\n"));
 
+/// Infer the line ending of a string
+///
+/// The first line ending decides, so a `LineEnding::Lf` result does not imply that there
+/// is no `\r\n` later on.
 pub fn infer(x: &str) -> LineEnding {
-    match FINDER.find(x.as_bytes()) {
-        // Saw `\r\n`
-        Some(_) => LineEnding::Crlf,
-        // No `\r\n`, or empty file
+    match memchr::memchr(b'\n', x.as_bytes()) {
+        // First line ending is `\r\n`
+        Some(i) if x[..i].ends_with('\r') => LineEnding::Crlf,
+        // First line ending is `\n`
+        Some(_) => LineEnding::Lf,
+        // No line endings, or empty file
         None => LineEnding::Lf,
     }
 }
@@ -71,9 +77,11 @@ pub fn normalize(x: String) -> String {
 /// Prefer [normalize()] when you have an owned [String] as that modifies in place,
 /// reusing the owned [String]'s existing allocation.
 pub fn normalize_ref(x: &str) -> Cow<'_, str> {
-    match infer(x) {
-        LineEnding::Lf => Cow::Borrowed(x),
-        LineEnding::Crlf => Cow::Owned(normalize(x.to_string())),
+    match FINDER.find(x.as_bytes()) {
+        // Nothing to normalize
+        None => Cow::Borrowed(x),
+        // Saw `\r\n`
+        Some(_) => Cow::Owned(normalize(x.to_string())),
     }
 }
 
diff --git a/crates/lsp/src/documents.rs b/crates/lsp/src/documents.rs
index cd3ed40..829049e 100644
--- a/crates/lsp/src/documents.rs
+++ b/crates/lsp/src/documents.rs
@@ -52,10 +52,7 @@ impl Document {
         let endings = line_ending::infer(&contents);
 
         // Normalize to Unix line endings
-        let contents = match endings {
-            LineEnding::Lf => contents,
-            LineEnding::Crlf => line_ending::normalize(contents),
-        };
+        let contents = line_ending::normalize(contents);
 
         // TODO: Handle user requested line ending preference here
         // by potentially overwriting `endings` if the user didn't
-- 
2.43.0


From 4e020bbc980f729b86ca3b26d43c04f217e33889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 02/29] fix: do not include files ending in `.,` by default

A comma is not a separator in a character class, so the default include pattern
also matched files like `foo.,`.
---
 crates/workspace/src/settings/default_include_patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/workspace/src/settings/default_include_patterns.rs b/crates/workspace/src/settings/default_include_patterns.rs
index 69508e1..58a5fc9 100644
--- a/crates/workspace/src/settings/default_include_patterns.rs
+++ b/crates/workspace/src/settings/default_include_patterns.rs
@@ -9,7 +9,7 @@ use crate::file_patterns::DefaultFilePatterns;
 /// be supplied here.
 static DEFAULT_INCLUDE_PATTERN_NAMES: &[&str] = &[
     // R files with any filename at any depth
-    "**/*.[R,r]",
+    "**/*.[Rr]",
 ];
 
 static DEFAULT_INCLUDE_PATTERNS: LazyLock<DefaultFilePatterns> = LazyLock::new(|| {
-- 
2.43.0


From 8b15e8531d5b7620094d3f4006ae6d9946a778b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 03/29] fix: do not match the root of file patterns as a parent

With an `exclude` pattern like `*/` or `**/`, which matches directories, files directly
inside of the root were excluded when handed over one by one (in the language server, or
with `--stdin-file-path`), but not when they were discovered.
---
 crates/workspace/src/file_patterns.rs | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/workspace/src/file_patterns.rs b/crates/workspace/src/file_patterns.rs
index 5b9e2d0..528bb9c 100644
--- a/crates/workspace/src/file_patterns.rs
+++ b/crates/workspace/src/file_patterns.rs
@@ -80,16 +80,36 @@ impl FilePatterns {
     /// More expensive than [FilePatterns::matched], but is required in the LSP where you
     /// don't recursively search a directory, but are instead handed a single file at a
     /// time.
+    ///
+    /// Walks up ourselves rather than using
+    /// [Gitignore::matched_path_or_any_parents], because that also tries to match the
+    /// `root`, as an empty path. Patterns like `*/` match that, so they would exclude the
+    /// files directly inside of the `root`.
     pub fn matched_path_or_any_parents<P>(&self, path: P, is_directory: bool) -> Option<&Glob>
     where
         P: AsRef<Path>,
     {
-        match self.matcher.matched_path_or_any_parents(path, is_directory) {
-            Match::None => None,
-            Match::Whitelist(_) => None,
-            Match::Ignore(glob) => Some(glob),
+        let mut path = path.as_ref();
+        let mut is_directory = is_directory;
+
+        loop {
+            match self.matcher.matched(path, is_directory) {
+                Match::None => (), // walk up
+                Match::Whitelist(_) => return None,
+                Match::Ignore(glob) => return Some(glob),
+            }
+            match path.parent() {
+                Some(parent) if !self.is_root(parent) => path = parent,
+                _ => return None,
+            }
+            is_directory = true;
         }
     }
+
+    /// The `root` is not a candidate for a match, only what is inside of it is
+    fn is_root(&self, path: &Path) -> bool {
+        path.as_os_str().is_empty() || path == self.matcher.path()
+    }
 }
 
 impl DefaultFilePatterns {
-- 
2.43.0


From 7d941bae1131748d959967aaa26f4bed008bb179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 04/29] fix: an empty line before the first argument is no
 request to expand when persistent line breaks are off

---
 .../air_r_formatter/src/r/auxiliary/call_arguments.rs  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index 7f14362..580d4ae 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -550,12 +550,12 @@ impl Format<RFormatContext> for RCallLikeArguments {
             .map(|(index, element)| FormatCallArgument::new(element, index == last_index))
             .collect();
 
-        let has_empty_line = leading_holes
+        // An empty line before the first non-hole argument is not between two arguments.
+        // It isn't kept in the output, so it can't be a request to expand either.
+        let has_empty_line = arguments
             .iter()
-            .any(|leading_hole| leading_hole.leading_lines() > 1)
-            || arguments
-                .iter()
-                .any(|argument| argument.leading_lines() > 1);
+            .skip(1)
+            .any(|argument| argument.leading_lines() > 1);
 
         // Special case where the user has requested a fully empty line between
         // some of their arguments. Let's respect that and use it as an
-- 
2.43.0


From 86dd47985b3969cd85c0c0138d14200cd3d44683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 05/29] fix: a line break among nothing but holes does not
 expand what is around the call

---
 crates/air_r_formatter/src/r/auxiliary/call_arguments.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index 580d4ae..b1be2b6 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -684,6 +684,12 @@ fn has_persistent_line_break(
         return false;
     }
 
+    // With nothing but leading holes there is no argument that could be on a line of its
+    // own. Holes always hug the opening token, so there is nothing to expand.
+    if arguments.is_empty() {
+        return false;
+    }
+
     // Do any leading holes have leading lines?
     // We treat leading holes as "invisible" so a leading line in the hole
     // implies a leading line in the first argument.
-- 
2.43.0


From 02fdb07d46f197acf5538628b34bdd033d3bfdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 06/29] fix: a comment inside an argument of a table call no
 longer swallows the rest of its row

---
 crates/air_r_formatter/src/call_arguments_table.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index 3d6affa..be5940c 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -449,6 +449,18 @@ impl ArgKind {
     }
 
     fn parse_other(arg: &RArgument, f: &mut RFormatter) -> FormatResult<Option<ArgKind>> {
+        // Comments of the argument itself are formatted along with the row, but comments
+        // inside the argument would swallow the rest of the row, so bail on those
+        let has_inner_comments = arg
+            .syntax()
+            .descendants()
+            .skip(1)
+            .any(|node| f.comments().has_comments(&node));
+
+        if has_inner_comments {
+            return Ok(None);
+        }
+
         // Format with flat layout by disabling soft line breaks
         let mut buffer = RemoveSoftLinesBuffer::new(f);
         let mut recording = buffer.start_recording();
-- 
2.43.0


From 49a2374e804a67a9987178cd36c4fa19a518d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 07/29] fix: a skip directive in front of an empty argument is
 no longer dropped

---
 crates/air_r_formatter/src/comments_ext.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/air_r_formatter/src/comments_ext.rs b/crates/air_r_formatter/src/comments_ext.rs
index 2b275f1..821f186 100644
--- a/crates/air_r_formatter/src/comments_ext.rs
+++ b/crates/air_r_formatter/src/comments_ext.rs
@@ -1,7 +1,9 @@
+use air_r_syntax::RArgument;
 use air_r_syntax::RLanguage;
 use air_r_syntax::RSyntaxKind;
 use air_r_syntax::RSyntaxNode;
 use air_r_syntax::{AnyRExpression, AnyRSelector, RCall, RIdentifier};
+use biome_rowan::AstNode;
 use biome_rowan::Language;
 use biome_rowan::SyntaxNode;
 use biome_rowan::SyntaxResult;
@@ -56,6 +58,12 @@ fn directives(comments: &RComments, node: &RSyntaxNode) -> impl Iterator<Item =
 }
 
 fn can_have_directive(node: &RSyntaxNode) -> bool {
+    // Holes have no code that a directive could apply to. In particular a suppressed
+    // hole would lose its comments.
+    if RArgument::cast_ref(node).is_some_and(|argument| argument.is_hole()) {
+        return false;
+    }
+
     let Some(parent) = node.parent() else {
         return false;
     };
-- 
2.43.0


From b2330c5177f9ddf9190236dba4f790aa6065bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 08/29] fix: a file of comments alone no longer keeps an empty
 line at its end

---
 .../air_r_formatter/src/r/auxiliary/root.rs   | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/air_r_formatter/src/r/auxiliary/root.rs b/crates/air_r_formatter/src/r/auxiliary/root.rs
index a1e3da8..011b3ec 100644
--- a/crates/air_r_formatter/src/r/auxiliary/root.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/root.rs
@@ -1,3 +1,4 @@
+use crate::comments::FormatRLeadingComment;
 use crate::joiner_ext::EmptyLines;
 use crate::prelude::*;
 use crate::r::lists::expression_list::FormatRExpressionListOptions;
@@ -5,6 +6,8 @@ use air_r_syntax::RRoot;
 use air_r_syntax::RRootFields;
 use air_r_syntax::RSyntaxNode;
 use biome_formatter::CstFormatContext;
+use biome_formatter::FormatRefWithRule;
+use biome_formatter::trivia::FormatLeadingComments;
 use biome_formatter::write;
 use biome_rowan::Direction;
 use biome_rowan::SyntaxElement;
@@ -45,6 +48,28 @@ impl FormatNodeRule<RRoot> for FormatRRoot {
         )
     }
 
+    // The root only has leading comments of its own if there are no expressions for them to
+    // lead. Nothing follows the last comment then, so empty lines after it aren't kept.
+    fn fmt_leading_comments(&self, node: &RRoot, f: &mut RFormatter) -> FormatResult<()> {
+        let comments = f.comments().clone();
+
+        let Some((last, rest)) = comments.leading_comments(node.syntax()).split_last() else {
+            return Ok(());
+        };
+
+        write!(
+            f,
+            [
+                FormatLeadingComments::Comments(rest),
+                FormatRefWithRule::new(last, FormatRLeadingComment)
+            ]
+        )?;
+
+        last.mark_formatted();
+
+        Ok(())
+    }
+
     fn is_suppressed(&self, node: &RRoot, f: &RFormatter) -> bool {
         let comments = f.context().comments();
         comments.mark_suppression_checked(node.syntax());
-- 
2.43.0


From ac168d42a1a134c604dc50d501a62b2b63ee2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:21 +0000
Subject: [PATCH 09/29] fix: a comment inside a signed number of a table call
 no longer breaks its row

---
 .../src/call_arguments_table.rs               | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index be5940c..c22e824 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -367,6 +367,18 @@ impl ColumnInfo {
 
 impl ArgKind {
     fn parse(arg: &RArgument, f: &mut RFormatter) -> FormatResult<Option<Self>> {
+        // Comments of the argument itself are formatted along with the row, but comments
+        // inside the argument would swallow the rest of the row, so bail on those
+        let has_inner_comments = arg
+            .syntax()
+            .descendants()
+            .skip(1)
+            .any(|node| f.comments().has_comments(&node));
+
+        if has_inner_comments {
+            return Ok(None);
+        }
+
         match arg.value() {
             Some(AnyRExpression::AnyRValue(AnyRValue::RIntegerValue(value))) => {
                 Ok(Some(Self::parse_integer(value)?))
@@ -449,18 +461,6 @@ impl ArgKind {
     }
 
     fn parse_other(arg: &RArgument, f: &mut RFormatter) -> FormatResult<Option<ArgKind>> {
-        // Comments of the argument itself are formatted along with the row, but comments
-        // inside the argument would swallow the rest of the row, so bail on those
-        let has_inner_comments = arg
-            .syntax()
-            .descendants()
-            .skip(1)
-            .any(|node| f.comments().has_comments(&node));
-
-        if has_inner_comments {
-            return Ok(None);
-        }
-
         // Format with flat layout by disabling soft line breaks
         let mut buffer = RemoveSoftLinesBuffer::new(f);
         let mut recording = buffer.start_recording();
-- 
2.43.0


From debe1671d270a57333a64006ad323478e41946f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:41 +0000
Subject: [PATCH 10/29] fix: a skip directive in front of a number of a table
 call no longer misaligns its column

---
 .../src/call_arguments_table.rs               | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index c22e824..492b0b5 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -99,18 +99,18 @@ impl FormatRCallArguments {
                     // Add left padding for right-aligned values
                     write_spaces(left_pad, f)?;
 
-                    // Format the value
-                    match &arg_data.kind {
-                        ArgKind::Other { text } => {
-                            let arg_syntax = arg_data.node.syntax();
+                    let arg_syntax = arg_data.node.syntax();
 
-                            // Suppression comments do nothing inside a table
-                            f.comments().mark_suppression_checked(arg_syntax);
+                    // Suppression comments do nothing inside a table
+                    f.comments().mark_suppression_checked(arg_syntax);
 
-                            // We've formatted the argument without comments, so
-                            // we're in charge of formatting them
-                            format_leading_comments(arg_syntax).fmt(f)?;
+                    // We format the argument without comments, so we're in
+                    // charge of formatting them
+                    format_leading_comments(arg_syntax).fmt(f)?;
 
+                    // Format the value
+                    match &arg_data.kind {
+                        ArgKind::Other { text } => {
                             // 0-length arguments are holes. Don't print them
                             // because a `text("")` after a `Space` will prevent
                             // the latter from being considered trailing by the
@@ -118,17 +118,15 @@ impl FormatRCallArguments {
                             if !text.is_empty() {
                                 write!(f, [dynamic_text(text, 0.into())])?;
                             }
-
-                            format_trailing_comments(arg_syntax).fmt(f)?;
                         }
 
                         ArgKind::Numeric { .. } => {
-                            // For numeric types, format the node directly. This
-                            // handles comments as well.
-                            write!(f, [arg_data.node.format()])?;
+                            fmt_argument_fields(&arg_data.node, f)?;
                         }
                     }
 
+                    format_trailing_comments(arg_syntax).fmt(f)?;
+
                     // Add right padding (but not for the last item)
                     if !arg_data.is_last_in_list {
                         write_spaces(right_pad, f)?;
-- 
2.43.0


From 8e6f502fbfe59cb9d02b47e35f82a42d53926d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 11/29] fix: a comment above a number of a table call no longer
 takes the padding of the number

---
 crates/air_r_formatter/src/call_arguments_table.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index 492b0b5..ef0a1db 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -96,9 +96,6 @@ impl FormatRCallArguments {
                         (0, 0)
                     };
 
-                    // Add left padding for right-aligned values
-                    write_spaces(left_pad, f)?;
-
                     let arg_syntax = arg_data.node.syntax();
 
                     // Suppression comments do nothing inside a table
@@ -108,6 +105,9 @@ impl FormatRCallArguments {
                     // charge of formatting them
                     format_leading_comments(arg_syntax).fmt(f)?;
 
+                    // Add left padding for right-aligned values
+                    write_spaces(left_pad, f)?;
+
                     // Format the value
                     match &arg_data.kind {
                         ArgKind::Other { text } => {
-- 
2.43.0


From 4a216c70f0f0b9719b23034738cc5ab1450a16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 12/29] fix: a comment in front of a comma of a table call
 starts a row

---
 crates/air_r_formatter/src/call_arguments_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/air_r_formatter/src/call_arguments_table.rs b/crates/air_r_formatter/src/call_arguments_table.rs
index ef0a1db..845fdbb 100644
--- a/crates/air_r_formatter/src/call_arguments_table.rs
+++ b/crates/air_r_formatter/src/call_arguments_table.rs
@@ -238,10 +238,14 @@ fn build_table_impl(args: &RArgumentList, f: &mut RFormatter) -> FormatResult<Op
             arg_separator.map_or(0, get_lines_before_token)
         };
 
+        // A leading comment always puts its argument on a new line, even if it comes
+        // from before the comma in front of the argument
+        let new_row = lines_before > 0 || f.comments().has_leading_comments(arg_node.syntax());
+
         // Push new row if any. Empty lines are not rows. Note empty lines still
         // get formatted as part of trivia in the formatting pass. We just don't
         // want to consider empty lines as rows in our table info.
-        if lines_before > 0 && !current_row.is_empty() {
+        if new_row && !current_row.is_empty() {
             rows.push(current_row);
             current_row = Vec::new();
         }
-- 
2.43.0


From 18560b8499b10f56768e4b1be3139afb926710cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 13/29] fix: a line break in a quoted name is no longer mangled
 in files with CRLF line endings

---
 .../src/r/auxiliary/identifier.rs               | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/air_r_formatter/src/r/auxiliary/identifier.rs b/crates/air_r_formatter/src/r/auxiliary/identifier.rs
index d285dde..653332c 100644
--- a/crates/air_r_formatter/src/r/auxiliary/identifier.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/identifier.rs
@@ -1,13 +1,26 @@
 use crate::prelude::*;
 use air_r_syntax::RIdentifier;
 use air_r_syntax::RIdentifierFields;
-use biome_formatter::write;
+use biome_formatter::prelude::syntax_token_cow_slice;
+use biome_formatter::trivia::format_replaced;
 
 #[derive(Debug, Clone, Default)]
 pub(crate) struct FormatRIdentifier;
 impl FormatNodeRule<RIdentifier> for FormatRIdentifier {
     fn fmt_fields(&self, node: &RIdentifier, f: &mut RFormatter) -> FormatResult<()> {
         let RIdentifierFields { name_token } = node.as_fields();
-        write![f, [name_token.format()]]
+        let name_token = name_token?;
+
+        // Like multiline strings, quoted names may contain line breaks, and the printer
+        // can only handle `\n`
+        format_replaced(
+            &name_token,
+            &syntax_token_cow_slice(
+                line_ending::normalize_ref(name_token.text_trimmed()),
+                &name_token,
+                name_token.text_trimmed_range().start(),
+            ),
+        )
+        .fmt(f)
     }
 }
-- 
2.43.0


From 6fc89304520c4f5a7c11bb00ca9f5d322117bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 14/29] fix: apply text edits at the same position in the order
 of the list

---
 crates/aether_lsp_utils/src/proto/from_proto.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/aether_lsp_utils/src/proto/from_proto.rs b/crates/aether_lsp_utils/src/proto/from_proto.rs
index 7eaabe2..ad265ff 100644
--- a/crates/aether_lsp_utils/src/proto/from_proto.rs
+++ b/crates/aether_lsp_utils/src/proto/from_proto.rs
@@ -137,23 +137,25 @@ pub fn apply_text_edits(
     line_index: &mut LineIndex,
     position_encoding: PositionEncoding,
 ) {
-    // Sort edits in reverse order by start position to ensure that edits
-    // applied later in the document don’t shift the ranges of edits earlier in
-    // the document. This way, edits in the bottom don't invalidate the
+    // Sort edits by start position, then apply them in reverse order to ensure
+    // that edits applied later in the document don’t shift the ranges of edits
+    // earlier in the document. This way, edits in the bottom don't invalidate the
     // positions of edits at the top. Use stable sort to preserve the original
     // order for edits at the same position (which defines insertion order per
-    // LSP spec).
+    // LSP spec). Since all of these insert at the same place, the last one has
+    // to be applied first for its text to end up last.
     edits.sort_by(|a, b| {
         let a_start = a.range.start;
         let b_start = b.range.start;
-        b_start
+        a_start
             .line
-            .cmp(&a_start.line)
-            .then_with(|| b_start.character.cmp(&a_start.character))
+            .cmp(&b_start.line)
+            .then_with(|| a_start.character.cmp(&b_start.character))
     });
 
     let changes: Vec<lsp_types::TextDocumentContentChangeEvent> = edits
         .into_iter()
+        .rev()
         .map(|edit| lsp_types::TextDocumentContentChangeEvent {
             range: Some(edit.range),
             range_length: None,
-- 
2.43.0


From 9916ce6a219bfa5009512a16dfe93eefffb699e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:41 +0000
Subject: [PATCH 15/29] fix: track line endings of a document across changes

---
 crates/lsp/src/documents.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/lsp/src/documents.rs b/crates/lsp/src/documents.rs
index 829049e..cecec14 100644
--- a/crates/lsp/src/documents.rs
+++ b/crates/lsp/src/documents.rs
@@ -110,6 +110,16 @@ impl Document {
             }
         }
 
+        // Detect endings again if all lines are replaced, or if these are the first ones
+        let mut has_lines = self.contents.contains('\n');
+        for change in &changes {
+            has_lines &= change.range.is_some();
+            if !has_lines && change.text.contains('\n') {
+                has_lines = true;
+                self.endings = line_ending::infer(&change.text);
+            }
+        }
+
         from_proto::apply_text_changes(
             &mut self.contents,
             changes,
-- 
2.43.0


From a04f73873d5e9e18f6213dc1d0bcbc223dd5d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:35 +0000
Subject: [PATCH 16/29] fix: format documents in the language server with Unix
 line endings

---
 crates/lsp/src/workspaces.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1cbc000..1fe6aa9 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -257,12 +257,16 @@ impl WorkspaceSettings<'_> {
         }
     }
 
+    /// Format options for the contents of a [`crate::documents::Document`]
+    ///
+    /// These contents have Unix line endings, which the formatter has to preserve. We
+    /// convert to the line endings of the document when we create edits for the client.
     pub(crate) fn to_format_options(
         &self,
         source: &str,
         document_settings: &DocumentSettings,
     ) -> RFormatOptions {
-        match self {
+        let format_options = match self {
             WorkspaceSettings::Toml(settings) => {
                 // If there is an actual TOML, that wins
                 settings.format.to_format_options(source)
@@ -272,6 +276,8 @@ impl WorkspaceSettings<'_> {
                 let format_options = settings.format.to_format_options(source);
                 DocumentSettings::merge(format_options, document_settings)
             }
-        }
+        };
+
+        format_options.with_line_ending(settings::LineEnding::Lf)
     }
 }
-- 
2.43.0


From e08d61077d0a492ed6f711529d9bc4e77b3ffa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:09 +0000
Subject: [PATCH 17/29] fix: reload settings of workspaces nested below a
 changed `air.toml`

---
 crates/lsp/src/workspaces.rs    | 11 ++++++++++-
 crates/workspace/src/resolve.rs |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 1fe6aa9..ce1bdd6 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -178,7 +178,16 @@ impl WorkspaceSettingsResolver {
 
         let mut changed = false;
 
-        for workspace_match in self.path_to_settings_resolver.matches_mut(&path) {
+        // Settings are discovered by walking up from a workspace, so workspaces nested below
+        // the directory of the `air.toml` may use it just as well as the ones that contain it
+        let directory = path.parent().unwrap_or(&path);
+
+        for workspace_match in self
+            .path_to_settings_resolver
+            .items_mut()
+            .iter_mut()
+            .filter(|item| path.starts_with(item.path()) || item.path().starts_with(directory))
+        {
             // Clear existing settings up front, regardless of what happens when reloading.
             // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
             {
diff --git a/crates/workspace/src/resolve.rs b/crates/workspace/src/resolve.rs
index 7d9e5e1..ae263af 100644
--- a/crates/workspace/src/resolve.rs
+++ b/crates/workspace/src/resolve.rs
@@ -114,6 +114,10 @@ impl<T> PathResolver<T> {
         &self.items
     }
 
+    pub fn items_mut(&mut self) -> &mut [PathItem<T>] {
+        &mut self.items
+    }
+
     pub fn len(&self) -> usize {
         self.items.len()
     }
-- 
2.43.0


From ba334978bf21d9825c15f70b68a8fe036e440544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:09 +0000
Subject: [PATCH 18/29] fix: keep workspace folders whose `air.toml` is invalid
 when they are opened

---
 crates/lsp/src/workspaces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index ce1bdd6..9b2c528 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -84,11 +84,13 @@ impl WorkspaceSettingsResolver {
             }
         };
 
+        // Still add the workspace if its `air.toml` is invalid. Otherwise its files would get
+        // settings from an enclosing workspace, and we wouldn't notice once the file is fixed.
         let discovered_settings = match discover_settings(&[&path]) {
             Ok(discovered_settings) => discovered_settings,
             Err(error) => {
                 failed_to_open_workspace_folder(url, error);
-                return;
+                Vec::new()
             }
         };
 
-- 
2.43.0


From cb4ccbd9190f2ca4e33ac2b52d44457067a27afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:35 +0000
Subject: [PATCH 19/29] fix: send settings of all open documents to the client
 whenever they may have changed

---
 crates/lsp/src/handlers_state.rs | 14 ++++++++++----
 crates/lsp/src/main_loop.rs      |  2 +-
 crates/lsp/src/workspaces.rs     |  3 ++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/lsp/src/handlers_state.rs b/crates/lsp/src/handlers_state.rs
index 72fdf4b..5446477 100644
--- a/crates/lsp/src/handlers_state.rs
+++ b/crates/lsp/src/handlers_state.rs
@@ -144,12 +144,13 @@ pub(crate) async fn did_open(
     state.documents.insert(uri.clone(), document);
 
     // Propagate client settings to Air
-    update_config(vec![uri.clone()], lsp_state, state)
+    update_config(vec![uri], lsp_state, state)
         .instrument(tracing::info_span!("did_change_configuration"))
         .await?;
 
-    // Backpropagate Air settings to client
-    lsp_state.sync_file_settings(vec![uri]).await;
+    // Backpropagate Air settings to client. This includes the documents that are already
+    // open because the client replaces all settings it knows of.
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
 
     Ok(())
 }
@@ -199,9 +200,10 @@ pub(crate) async fn did_change_configuration(
         .await
 }
 
-pub(crate) fn did_change_workspace_folders(
+pub(crate) async fn did_change_workspace_folders(
     params: DidChangeWorkspaceFoldersParams,
     lsp_state: &mut LspState,
+    state: &WorldState,
 ) -> anyhow::Result<()> {
     for lsp_types::WorkspaceFolder { uri, .. } in params.event.added {
         lsp_state.open_workspace_folder(&uri);
@@ -209,6 +211,10 @@ pub(crate) fn did_change_workspace_folders(
     for lsp_types::WorkspaceFolder { uri, .. } in params.event.removed {
         lsp_state.close_workspace_folder(&uri);
     }
+
+    // Backpropagate settings for all opened files as they may be in a different workspace now
+    lsp_state.sync_file_settings(state.workspace_uris()).await;
+
     Ok(())
 }
 
diff --git a/crates/lsp/src/main_loop.rs b/crates/lsp/src/main_loop.rs
index 7309256..003421b 100644
--- a/crates/lsp/src/main_loop.rs
+++ b/crates/lsp/src/main_loop.rs
@@ -324,7 +324,7 @@ impl GlobalState {
                             handlers::handle_initialized(&self.lsp_state).await?;
                         },
                         LspNotification::DidChangeWorkspaceFolders(params) => {
-                            handlers_state::did_change_workspace_folders(params, &mut self.lsp_state)?;
+                            handlers_state::did_change_workspace_folders(params, &mut self.lsp_state, &self.world).await?;
                         },
                         LspNotification::DidChangeConfiguration(params) => {
                             handlers_state::did_change_configuration(params, &mut self.lsp_state, &mut self.world).await?;
diff --git a/crates/lsp/src/workspaces.rs b/crates/lsp/src/workspaces.rs
index 9b2c528..9b9e68a 100644
--- a/crates/lsp/src/workspaces.rs
+++ b/crates/lsp/src/workspaces.rs
@@ -197,6 +197,8 @@ impl WorkspaceSettingsResolver {
                 workspace_settings_resolver.clear();
             }
 
+            changed = true;
+
             let workspace_path = workspace_match.path();
 
             tracing::trace!("Reloading workspace settings: {}", workspace_path.display());
@@ -218,7 +220,6 @@ impl WorkspaceSettingsResolver {
                 settings,
             } in discovered_settings
             {
-                changed = true;
                 workspace_settings_resolver.add(&directory, settings);
             }
         }
-- 
2.43.0


From 9b1adfdc8681901690f50eeef6a14e44cf69ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:13 +0000
Subject: [PATCH 20/29] fix: format selections that end between statements or
 behind the last one

---
 crates/lsp/src/handlers_format.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/lsp/src/handlers_format.rs b/crates/lsp/src/handlers_format.rs
index 73f08c8..c07416b 100644
--- a/crates/lsp/src/handlers_format.rs
+++ b/crates/lsp/src/handlers_format.rs
@@ -257,7 +257,18 @@ fn find_expression_lists(node: &RSyntaxNode, offset: TextSize, end: bool) -> Vec
                     continue;
                 };
 
-                let is_contained = if end {
+                let is_list = node.kind() == RSyntaxKind::R_EXPRESSION_LIST;
+
+                // Everything is in the program's list, including what is between its
+                // expressions and around them
+                let is_program = is_list && parent.kind() == RSyntaxKind::R_ROOT;
+
+                let is_contained = if is_list {
+                    let list_range = node.text_range_with_trivia();
+                    is_program
+                        || list_range.contains(offset)
+                        || (end && list_range.contains_inclusive(offset))
+                } else if end {
                     let trimmed_node_range = node.text_trimmed_range();
                     trimmed_node_range.contains_inclusive(offset)
                 } else {
@@ -270,9 +281,8 @@ fn find_expression_lists(node: &RSyntaxNode, offset: TextSize, end: bool) -> Vec
                     continue;
                 }
 
-                if parent.kind() == RSyntaxKind::R_EXPRESSION_LIST {
-                    nodes.push(parent.clone());
-                    continue;
+                if is_list {
+                    nodes.push(node);
                 }
             }
 
-- 
2.43.0


From 52960b903c24fa9a09b89abd1e3c2347362c0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:56 +0000
Subject: [PATCH 21/29] fix: do not match the root of exclude patterns against
 them

A pattern like `*/` matches the directory of the configuration itself, as
an empty path, so `air format .` skipped everything below it.
---
 crates/workspace/src/file_patterns.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/workspace/src/file_patterns.rs b/crates/workspace/src/file_patterns.rs
index 528bb9c..f12d35a 100644
--- a/crates/workspace/src/file_patterns.rs
+++ b/crates/workspace/src/file_patterns.rs
@@ -67,6 +67,12 @@ impl FilePatterns {
     where
         P: AsRef<Path>,
     {
+        let path = path.as_ref();
+
+        if self.is_root(path) {
+            return None;
+        }
+
         match self.matcher.matched(path, is_directory) {
             Match::None => None,
             Match::Whitelist(_) => None,
@@ -92,18 +98,20 @@ impl FilePatterns {
         let mut path = path.as_ref();
         let mut is_directory = is_directory;
 
-        loop {
+        while !self.is_root(path) {
             match self.matcher.matched(path, is_directory) {
                 Match::None => (), // walk up
                 Match::Whitelist(_) => return None,
                 Match::Ignore(glob) => return Some(glob),
             }
             match path.parent() {
-                Some(parent) if !self.is_root(parent) => path = parent,
-                _ => return None,
+                Some(parent) => path = parent,
+                None => return None,
             }
             is_directory = true;
         }
+
+        None
     }
 
     /// The `root` is not a candidate for a match, only what is inside of it is
-- 
2.43.0


From 28643d01b741339e0e559105cec48d7637fcf56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 22/29] fix: Read `air.addExecutableToTerminalPath`

The extension declares `air.addExecutableToTerminalPath` but read
`air.addExecutableToPath`, so a user could not turn it off.
---
 editors/code/src/settings.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/settings.ts b/editors/code/src/settings.ts
index 74a49b8..b15e076 100644
--- a/editors/code/src/settings.ts
+++ b/editors/code/src/settings.ts
@@ -42,7 +42,8 @@ export function getWorkspaceSettings(
 		executableStrategy:
 			config.get<ExecutableStrategy>("executableStrategy") ?? "bundled",
 		executablePath: config.get<string>("executablePath"),
-		addExecutableToPath: config.get<boolean>("addExecutableToPath") ?? true,
+		addExecutableToPath:
+			config.get<boolean>("addExecutableToTerminalPath") ?? true,
 	};
 }
 
-- 
2.43.0


From 7021b2190b309cf9291d643a504288c59cc0f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 23/29] fix: Find the open document of a configuration request
 by its URI

`vscode.Uri` objects were compared by identity, which never holds for the URI
of a request, so language-specific settings never reached the server.
---
 editors/code/src/lsp.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/lsp.ts b/editors/code/src/lsp.ts
index 6abe05b..de2cd38 100644
--- a/editors/code/src/lsp.ts
+++ b/editors/code/src/lsp.ts
@@ -162,7 +162,8 @@ export class Lsp {
 						// call `openDocument()` here, we just look for an
 						// already opened one.
 						const document = vscode.workspace.textDocuments.find(
-							(document) => document.uri === uri,
+							(document) =>
+								document.uri.toString() === uri.toString(),
 						);
 
 						// If there was no document, it means it was closed in
-- 
2.43.0


From 79289204c79bd015adf45007171c2659427ef836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 24/29] fix: Apply synchronised settings to unsaved files too

The settings were keyed by the path of the URL as sent by the server and looked
up by the path of the document, which differ for unsaved files.
---
 .../code/src/notification/sync-file-settings.ts  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/notification/sync-file-settings.ts b/editors/code/src/notification/sync-file-settings.ts
index 5ac086a..da89ded 100644
--- a/editors/code/src/notification/sync-file-settings.ts
+++ b/editors/code/src/notification/sync-file-settings.ts
@@ -1,6 +1,5 @@
 import * as vscode from "vscode";
 import * as lc from "vscode-languageclient/node";
-import { normalizePath } from "../utils";
 
 export interface SyncFileSettingsParams {
 	file_settings: FileSettings[];
@@ -20,6 +19,13 @@ export interface FileFormatSettings {
 export const SYNC_FILE_SETTINGS =
 	new lc.NotificationType<SyncFileSettingsParams>("air/syncFileSettings");
 
+// We go through `vscode.Uri` so that the URL sent by the server is encoded in the
+// same way as the document URI. We also can't use the path only, the server sends
+// settings for unsaved files too.
+function fileSettingsKey(uri: vscode.Uri): string {
+	return uri.toString();
+}
+
 export class FileSettingsState {
 	// There is no way to propagate settings to all editors from the
 	// notification handler as we can only change visible editors. To properly
@@ -43,8 +49,10 @@ export class FileSettingsState {
 		this.settings.clear();
 
 		for (const fileSettings of params.file_settings) {
-			const path = normalizePath(fileSettings.url);
-			this.settings.set(path, fileSettings.format);
+			this.settings.set(
+				fileSettingsKey(vscode.Uri.parse(fileSettings.url)),
+				fileSettings.format,
+			);
 		}
 
 		// Apply right away to the active text editor. We also have a handler
@@ -57,7 +65,7 @@ export class FileSettingsState {
 
 	public apply(editor: vscode.TextEditor) {
 		const uri = editor.document.uri;
-		const settings = this.settings.get(uri.path);
+		const settings = this.settings.get(fileSettingsKey(uri));
 
 		if (settings) {
 			const insertSpaces = settings.indent_style === "space";
-- 
2.43.0


From a01541dc6f3e4214e186df341b0c2077d7dce81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 25/29] fix: Only append to `.Rbuildignore`

Existing patterns are recognised in files with mixed line endings, and what
does not survive decoding (a byte order mark, other encodings) is kept.
---
 .../workspace-folder-initialization.ts        | 38 +++++++++----------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/editors/code/src/command/workspace-folder-initialization.ts b/editors/code/src/command/workspace-folder-initialization.ts
index 46008b6..c03f637 100644
--- a/editors/code/src/command/workspace-folder-initialization.ts
+++ b/editors/code/src/command/workspace-folder-initialization.ts
@@ -181,30 +181,26 @@ async function updateRbuildignore(
 	const content = new TextDecoder().decode(buffer);
 
 	const newline = content.includes("\r\n") ? "\r\n" : "\n";
-	const lines = content.split(newline);
+	// Line endings may be mixed
+	const lines = content.split(/\r?\n/);
 
-	if (lines.at(-1) === "") {
-		// Drop final line if it's empty, i.e. we split on newlines and the
-		// file ended with a newline. This avoids writing a blank line between
-		// the existing content and our new lines.
-		lines.pop();
-	}
-
-	let anyMissing = false;
 	const patterns = ["^\\.vscode$", "^[.]?air[.]toml$"];
+	const missing = patterns.filter((pattern) => !lines.includes(pattern));
 
-	for (const pattern of patterns) {
-		const exists = lines.find((line) => line === pattern);
-
-		if (!exists) {
-			anyMissing = true;
-			lines.push(pattern);
-		}
+	if (missing.length === 0) {
+		return;
 	}
 
-	if (anyMissing) {
-		const content = lines.join(newline) + newline;
-		const buffer = new TextEncoder().encode(content);
-		await vscode.workspace.fs.writeFile(rbuildignoreUri, buffer);
-	}
+	// If the existing content doesn't end with a newline, we have to end its
+	// final line first
+	const separator = lines.at(-1) === "" ? "" : newline;
+	const addition =
+		separator + missing.map((pattern) => pattern + newline).join("");
+
+	// Append to the original bytes rather than to `content`, so we don't touch
+	// anything that doesn't survive decoding
+	await vscode.workspace.fs.writeFile(
+		rbuildignoreUri,
+		Buffer.concat([buffer, new TextEncoder().encode(addition)]),
+	);
 }
-- 
2.43.0


From 1e2bf6e234d1ce091048a081b3aeaf60042ec323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 26/29] fix: Only save documents within the workspace folder to
 format

`/path/to/pkg2/file.R` also starts with `/path/to/pkg`.
---
 editors/code/src/workspace.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 8f8b3bf..9f2d332 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -165,6 +165,14 @@ export async function saveAllDirtyWorkspaceTextDocuments(
 	return saved.every((save) => save);
 }
 
+// Compares with a trailing separator, so that `/path/to/pkg2` isn't within `/path/to/pkg`
+function isWithin(directory: string, file: string): boolean {
+	const prefix = directory.endsWith(path.sep)
+		? directory
+		: directory + path.sep;
+	return file.startsWith(prefix);
+}
+
 function dirtyWorkspaceTextDocuments(
 	workspaceFolder: vscode.WorkspaceFolder,
 ): vscode.TextDocument[] {
@@ -184,7 +192,7 @@ function dirtyWorkspaceTextDocuments(
 			return false;
 		}
 
-		if (!document.uri.fsPath.startsWith(workspaceFolder.uri.fsPath)) {
+		if (!isWithin(workspaceFolder.uri.fsPath, document.uri.fsPath)) {
 			// The document must live "under" the chosen workspace folder for us to care about it
 			return false;
 		}
-- 
2.43.0


From bfb6ff746f501dd6b9f87de6b64f47e7978a605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 27/29] fix: Tell workspace folders with the same name apart

The chosen folder was looked up by name, so the first one of that name was used
whichever was picked.
---
 editors/code/src/workspace.ts | 44 +++++++++++------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/editors/code/src/workspace.ts b/editors/code/src/workspace.ts
index 9f2d332..b652105 100644
--- a/editors/code/src/workspace.ts
+++ b/editors/code/src/workspace.ts
@@ -1,7 +1,6 @@
 import path from "path";
 import * as vscode from "vscode";
 import * as fs from "fs-extra";
-import * as output from "./output";
 
 /*
  * Locate the "root" workspace folder
@@ -95,36 +94,21 @@ export async function selectWorkspaceFolder(): Promise<
 async function selectWorkspaceFolderFromQuickPick(
 	workspaceFolders: readonly vscode.WorkspaceFolder[],
 ): Promise<vscode.WorkspaceFolder | undefined> {
-	// Show the workspace names
-	const workspaceFolderNames = workspaceFolders.map(
-		(workspaceFolder) => workspaceFolder.name,
-	);
-
-	const workspaceFolderName = await vscode.window.showQuickPick(
-		workspaceFolderNames,
-		{
-			canPickMany: false,
-			title: "Select a workspace folder",
-		},
-	);
-
-	if (!workspaceFolderName) {
-		// User bailed from the quick pick
-		return undefined;
-	}
-
-	// Match selected name back to the workspace folder
-	for (let workspaceFolder of workspaceFolders) {
-		if (workspaceFolder.name === workspaceFolderName) {
-			return workspaceFolder;
-		}
-	}
+	// Show the workspace names, with their paths to tell folders with the same
+	// name apart
+	const items = workspaceFolders.map((workspaceFolder) => ({
+		label: workspaceFolder.name,
+		description: workspaceFolder.uri.fsPath,
+		workspaceFolder,
+	}));
+
+	const item = await vscode.window.showQuickPick(items, {
+		canPickMany: false,
+		title: "Select a workspace folder",
+	});
 
-	// Should never get here
-	output.log(
-		`Matched a workspace folder name, but unexpectedly can't find corresponding workspace folder. Folder name: ${workspaceFolderName}.`,
-	);
-	return undefined;
+	// `undefined` if the user bailed from the quick pick
+	return item?.workspaceFolder;
 }
 
 /**
-- 
2.43.0


From 381024199285070a98f9e07e485e6e85cd744837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:51 +0000
Subject: [PATCH 28/29] fix: Accept `"warning"` as log level

That is what `air.logLevel` of the VS Code extension is declared to be. It made
the deserialization of all initialization options fail.
---
 crates/lsp/src/logging.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lsp/src/logging.rs b/crates/lsp/src/logging.rs
index a69396b..b4e2c3e 100644
--- a/crates/lsp/src/logging.rs
+++ b/crates/lsp/src/logging.rs
@@ -350,6 +350,8 @@ fn resolve_dependency_log_levels(dependency_log_levels: Option<String>) -> Optio
 #[serde(rename_all = "lowercase")]
 pub(crate) enum LogLevel {
     Error,
+    // Advertised as "warning" by our VS Code extension
+    #[serde(alias = "warning")]
     Warn,
     #[default]
     Info,
-- 
2.43.0


From 93bbb68f796d2e36637b57f0154f0dedd76610e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:42 +0000
Subject: [PATCH 29/29] fix: A comment behind `(` no longer hugs the only
 argument of a call

---
 .../air_r_formatter/src/r/auxiliary/call_arguments.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
index b1be2b6..5918721 100644
--- a/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
+++ b/crates/air_r_formatter/src/r/auxiliary/call_arguments.rs
@@ -1090,6 +1090,17 @@ fn is_hugging_call(
         return Ok(false);
     }
 
+    // A comment at the end of the line of the `l_token` (or of the last leading hole) is a
+    // trailing comment of that token, but leads the argument
+    if arg
+        .syntax()
+        .first_token()
+        .and_then(|token| token.prev_token())
+        .is_some_and(|token| token.has_trailing_comments())
+    {
+        return Ok(false);
+    }
+
     Ok(matches!(
         arg,
         AnyRExpression::RCall(_) | AnyRExpression::RSubset(_) | AnyRExpression::RSubset2(_)
-- 
2.43.0

