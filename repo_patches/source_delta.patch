From 4d8718539df5280a553149a8743f9294ccdeec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 1/7] fix: apply hunks which leave no lines at the line they
 state

The start of an empty range is the line before the hunk, so subtracting one
made deletions without context match one line too early and remove the wrong
one of two equal lines.
---
 src/apply.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..e104c76 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -145,7 +145,15 @@ fn find_position<T: PartialEq + ?Sized>(
 ) -> Option<usize> {
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    //
+    // An empty range states the line after which the hunk applies instead of its first line
+    let new_range = hunk.new_range();
+    let start = if new_range.is_empty() {
+        new_range.start()
+    } else {
+        new_range.start().saturating_sub(1)
+    };
+    let pos = std::cmp::min(start, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From 90e73a79c192a7dbfb224cb46d6b954799c82628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 2/7] fix: write escape sequences for control characters in
 file names

A newline, tab, NUL or carriage return in a file name was written as a
backslash followed by the character itself, which does not parse.
---
 src/patch/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..e59a0af 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -147,6 +147,18 @@ const ESCAPED_CHARS: &[char] = &['\n', '\t', '\0', '\r', '\"', '\\'];
 #[allow(clippy::byte_char_slices)]
 const ESCAPED_CHARS_BYTES: &[u8] = &[b'\n', b'\t', b'\0', b'\r', b'\"', b'\\'];
 
+// The byte which follows the backslash in the escaped form of `b`, if `b` has to be escaped
+fn escape(b: u8) -> Option<u8> {
+    match b {
+        b'\n' => Some(b'n'),
+        b'\t' => Some(b't'),
+        b'\0' => Some(b'0'),
+        b'\r' => Some(b'r'),
+        b'\"' | b'\\' => Some(b),
+        _ => None,
+    }
+}
+
 impl Filename<'_, str> {
     fn needs_to_be_escaped(&self) -> bool {
         self.0.contains(ESCAPED_CHARS)
@@ -166,10 +178,10 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
         if self.needs_to_be_escaped_bytes() {
             w.write_all(b"\"")?;
             for b in self.0.as_ref().as_ref() {
-                if ESCAPED_CHARS_BYTES.contains(b) {
-                    w.write_all(b"\\")?;
+                match escape(*b) {
+                    Some(e) => w.write_all(&[b'\\', e])?,
+                    None => w.write_all(&[*b])?,
                 }
-                w.write_all(&[*b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -206,10 +218,10 @@ impl fmt::Display for Filename<'_, str> {
         if self.needs_to_be_escaped() {
             f.write_char('\"')?;
             for c in self.0.chars() {
-                if ESCAPED_CHARS.contains(&c) {
-                    f.write_char('\\')?;
+                match u8::try_from(c).ok().and_then(escape) {
+                    Some(e) => write!(f, "\\{}", char::from(e))?,
+                    None => f.write_char(c)?,
                 }
-                f.write_char(c)?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From 8f36c244cb49215aba6acfae6dde64bbe2f733fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 3/7] fix: keep the function context of a hunk as it is

The parser took the end of the header line for a part of the function
context, and writing a patch put a second space before it. A parsed patch with
function context was written with an additional empty line in each hunk.
---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..c075778 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|context| context.strip_suffix("\n").unwrap_or(context));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 8a6cb45a4845c5dfbe39e63c9a32db02c2dad8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 4/7] fix: reject hunk ranges whose end overflows

Computing the end of such a range panicked or wrapped around, so overlapping
hunks could be accepted.
---
 src/patch/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index c075778..41cc746 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -258,7 +258,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -274,6 +274,11 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    // the end of the range has to be representable as well
+    start
+        .checked_add(len)
+        .ok_or_else(|| ParsePatchError::new("can't parse range"))?;
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From 51f826587ac6ba27cc238411e08bd984be2c944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 5/7] fix: put every conflict marker on a line of its own

A marker after a section whose last line has no newline was appended to that
line.
---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..26d1493 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // a marker always starts a line, even after a text without a final newline
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // a marker always starts a line, even after a text without a final newline
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0


From 40e9963fdb611377e27ed63be3ce9697ee398ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 6/7] fix: reject context lines after a side of the hunk has
 ended

---
 src/patch/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 41cc746..a796906 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -293,6 +293,10 @@ fn hunk_lines<'a, T: Text + ?Sized>(parser: &mut Parser<'a, T>) -> Result<Vec<Li
             break;
         } else if no_newline_context {
             return Err(ParsePatchError::new("expected end of hunk"));
+        } else if (line.starts_with(" ") || line.starts_with("\n"))
+            && (no_newline_delete || no_newline_insert)
+        {
+            return Err(ParsePatchError::new("expected no more context lines"));
         } else if let Some(line) = line.strip_prefix(" ") {
             Line::Context(line)
         } else if line.starts_with("\n") {
-- 
2.43.0


From 1f0bda7fea4aec9b49e55a590137827746c8a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 7/7] fix: read octal and letter escapes in quoted file names

git and GNU diff write bytes outside of printable ASCII as three octal
digits, and some control characters by letter; such names did not parse.
A NUL is now written with three digits, so that digits may follow it.
---
 src/patch/mod.rs   | 19 ++++++++++---------
 src/patch/parse.rs | 31 ++++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index e59a0af..cde8b33 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -147,14 +147,15 @@ const ESCAPED_CHARS: &[char] = &['\n', '\t', '\0', '\r', '\"', '\\'];
 #[allow(clippy::byte_char_slices)]
 const ESCAPED_CHARS_BYTES: &[u8] = &[b'\n', b'\t', b'\0', b'\r', b'\"', b'\\'];
 
-// The byte which follows the backslash in the escaped form of `b`, if `b` has to be escaped
-fn escape(b: u8) -> Option<u8> {
+// The escaped form of `b`, if `b` has to be escaped
+fn escape(b: u8) -> Option<&'static str> {
     match b {
-        b'\n' => Some(b'n'),
-        b'\t' => Some(b't'),
-        b'\0' => Some(b'0'),
-        b'\r' => Some(b'r'),
-        b'\"' | b'\\' => Some(b),
+        b'\n' => Some("\\n"),
+        b'\t' => Some("\\t"),
+        b'\0' => Some("\\000"),
+        b'\r' => Some("\\r"),
+        b'\"' => Some("\\\""),
+        b'\\' => Some("\\\\"),
         _ => None,
     }
 }
@@ -179,7 +180,7 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
             w.write_all(b"\"")?;
             for b in self.0.as_ref().as_ref() {
                 match escape(*b) {
-                    Some(e) => w.write_all(&[b'\\', e])?,
+                    Some(e) => w.write_all(e.as_bytes())?,
                     None => w.write_all(&[*b])?,
                 }
             }
@@ -219,7 +220,7 @@ impl fmt::Display for Filename<'_, str> {
             f.write_char('\"')?;
             for c in self.0.chars() {
                 match u8::try_from(c).ok().and_then(escape) {
-                    Some(e) => write!(f, "\\{}", char::from(e))?,
+                    Some(e) => f.write_str(e)?,
                     None => f.write_char(c)?,
                 }
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index a796906..0c524c7 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -60,8 +60,8 @@ pub fn parse(input: &str) -> Result<Patch<'_, str>> {
     let hunks = hunks(&mut parser)?;
 
     Ok(Patch::new(
-        header.0.map(convert_cow_to_str),
-        header.1.map(convert_cow_to_str),
+        header.0.map(convert_cow_to_str).transpose()?,
+        header.1.map(convert_cow_to_str).transpose()?,
         hunks,
     ))
 }
@@ -74,12 +74,14 @@ pub fn parse_bytes(input: &[u8]) -> Result<Patch<'_, [u8]>> {
     Ok(Patch::new(header.0, header.1, hunks))
 }
 
-// This is only used when the type originated as a utf8 string
-fn convert_cow_to_str(cow: Cow<'_, [u8]>) -> Cow<'_, str> {
+// This is only used when the type originated as a utf8 string, of which only octal escapes can
+// make something that is not utf8
+fn convert_cow_to_str(cow: Cow<'_, [u8]>) -> Result<Cow<'_, str>> {
     match cow {
-        Cow::Borrowed(b) => std::str::from_utf8(b).unwrap().into(),
-        Cow::Owned(o) => String::from_utf8(o).unwrap().into(),
+        Cow::Borrowed(b) => std::str::from_utf8(b).ok().map(Cow::Borrowed),
+        Cow::Owned(o) => String::from_utf8(o).ok().map(Cow::Owned),
     }
+    .ok_or_else(|| ParsePatchError::new("filename is not valid UTF-8"))
 }
 
 #[allow(clippy::type_complexity)]
@@ -165,13 +167,24 @@ fn unescaped_filename<T: Text + ToOwned + ?Sized>(filename: &T) -> Result<Cow<'_
 fn escaped_filename<T: Text + ToOwned + ?Sized>(escaped: &T) -> Result<Cow<'_, [u8]>> {
     let mut filename = Vec::new();
 
-    let mut chars = escaped.as_bytes().iter().copied();
-    while let Some(c) = chars.next() {
+    let mut chars = escaped.as_bytes().iter();
+    while let Some(&c) = chars.next() {
         if c == b'\\' {
-            let ch = match chars
+            let ch = match *chars
                 .next()
                 .ok_or_else(|| ParsePatchError::new("expected escaped character"))?
             {
+                // A byte as three octal digits, as written by git and GNU diff
+                d @ b'0'..=b'3' if matches!(chars.as_slice(), [b'0'..=b'7', b'0'..=b'7', ..]) => {
+                    chars
+                        .by_ref()
+                        .take(2)
+                        .fold(d - b'0', |byte, d| byte * 8 + (d - b'0'))
+                }
+                b'a' => b'\x07',
+                b'b' => b'\x08',
+                b'v' => b'\x0b',
+                b'f' => b'\x0c',
                 b'n' => b'\n',
                 b't' => b'\t',
                 b'0' => b'\0',
-- 
2.43.0

