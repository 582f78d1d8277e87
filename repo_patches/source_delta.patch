From 0bc4317d00fe9f53072a6e84596be6640690d63f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 1/5] fix: start the search for a hunk with an empty new range
 at the right line

The range of a hunk that leaves no lines behind (a deletion without context)
states the line before it, not its first line.  Such hunks were applied one
line too early whenever the lines there happened to match.
---
 src/apply.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..e5fe801 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -143,9 +143,17 @@ fn find_position<T: PartialEq + ?Sized>(
     image: &[ImageLine<T>],
     hunk: &Hunk<'_, T>,
 ) -> Option<usize> {
+    // An empty range names the line which precedes it while a non-empty one names its first line
+    let range = hunk.new_range();
+    let pos = if range.is_empty() {
+        range.start()
+    } else {
+        range.start().saturating_sub(1)
+    };
+
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    let pos = std::cmp::min(pos, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From f135ccb87ea47bef5bf7b759a42a2b40c0b44002 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 2/5] fix: write escape sequences for special characters in
 file names

A newline, tab, NUL or carriage return in a file name was written as a
backslash followed by the raw character, which cannot be parsed back.
---
 src/patch/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..9843002 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -166,10 +166,15 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
         if self.needs_to_be_escaped_bytes() {
             w.write_all(b"\"")?;
             for b in self.0.as_ref().as_ref() {
-                if ESCAPED_CHARS_BYTES.contains(b) {
-                    w.write_all(b"\\")?;
+                match b {
+                    b'\n' => w.write_all(b"\\n")?,
+                    b'\t' => w.write_all(b"\\t")?,
+                    b'\0' => w.write_all(b"\\0")?,
+                    b'\r' => w.write_all(b"\\r")?,
+                    b'\"' => w.write_all(b"\\\"")?,
+                    b'\\' => w.write_all(b"\\\\")?,
+                    _ => w.write_all(&[*b])?,
                 }
-                w.write_all(&[*b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -206,10 +211,15 @@ impl fmt::Display for Filename<'_, str> {
         if self.needs_to_be_escaped() {
             f.write_char('\"')?;
             for c in self.0.chars() {
-                if ESCAPED_CHARS.contains(&c) {
-                    f.write_char('\\')?;
+                match c {
+                    '\n' => f.write_str("\\n")?,
+                    '\t' => f.write_str("\\t")?,
+                    '\0' => f.write_str("\\0")?,
+                    '\r' => f.write_str("\\r")?,
+                    '\"' => f.write_str("\\\"")?,
+                    '\\' => f.write_str("\\\\")?,
+                    _ => f.write_char(c)?,
                 }
-                f.write_char(c)?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From 4d50a3c3250eb55d4de7f37cd45b8453876cbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 3/5] fix: keep the function context of a hunk when parsing and
 formatting

Parsing kept the newline that ends the header line and formatting wrote a
second space in front of the context and another newline behind it, so a
parsed patch with function context was formatted as a patch that says
something else.
---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..c075778 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|context| context.strip_suffix("\n").unwrap_or(context));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 95101806d6fb3d6593297ca5d1a66d8a11e463dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 4/5] fix: reject hunk ranges whose end overflows

Checking the order of hunks whose headers state huge line numbers panicked
with overflow checks, and accepted overlapping hunks without them.
---
 src/patch/parse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index c075778..22d9388 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -258,7 +258,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -274,7 +274,11 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
-    Ok(HunkRange::new(start, len))
+    // The end of the range has to be a line number as well
+    start
+        .checked_add(len)
+        .map(|_| HunkRange::new(start, len))
+        .ok_or_else(|| ParsePatchError::new("can't parse range"))
 }
 
 fn hunk_lines<'a, T: Text + ?Sized>(parser: &mut Parser<'a, T>) -> Result<Vec<Line<'a, T>>> {
-- 
2.43.0


From 39e3da81324fdfe225f14ea92b6be265afd9924a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 5/5] fix: put conflict markers on lines of their own

When a side of a conflict ended without a newline the marker behind it was
glued to the end of that side's last line.
---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..ee968f4 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // A marker stands on a line of its own even if the text before it ends without a newline
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // A marker stands on a line of its own even if the text before it ends without a newline
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0

