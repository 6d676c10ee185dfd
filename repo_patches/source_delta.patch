From b37bec31658fa6edd280c5b1196a0edece8e7089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 1/6] fix: reject image digests with non-hexadecimal characters

The digest pattern was not anchored, so any 64-character string that held
at least one hexadecimal digit was accepted.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From beecceafb7db8e7ff07597ab0159db61ce98877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 2/6] fix: only treat '#' as a comment after a line
 continuation

A shell-form argument that itself began with '#' (RUN #foo, EXPOSE #80,
ENV a #x) was taken as a comment line, and the following instruction was
swallowed as the rest of its argument.
---
 src/dockerfile_parser.pest | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..5f3a5ca 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -68,14 +68,18 @@ any_content = @{
   )+
 }
 any_breakable = ${
+  // some piece of content, requiring a continuation EXCEPT on the final line
+  any_content ~ (line_continuation ~ any_breakable_continued)?
+}
+
+// the part of an any_breakable that follows a line continuation; comments are
+// only recognized here, as a '#' elsewhere is regular content
+any_breakable_continued = _{
   (
     // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable?
-  ) | (
-    // ... OR some piece of content, requiring a continuation EXCEPT on the
-    // final line
-    any_content ~ (line_continuation ~ any_breakable)?
-  )
+    comment_line ~ any_breakable_continued?
+  ) |
+  any_breakable
 }
 
 // consumes any character until the end of the line
-- 
2.43.0


From 2cd91d834436afa26ef74febe9af76a0158824dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 3/6] fix: remove line continuations in quoted labels whatever
 the newline style

Only a backslash directly followed by a line feed was removed, so quoted
label names and values continued with CRLF or CR newlines, or with blanks
after the backslash, were rejected.
---
 src/util.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..8f048ce 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -46,11 +46,33 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes line continuations (an escape, optional whitespace, and a newline in
+/// any style) from a string
 ///
 /// This should be used to clean any input from the any_breakable rule
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  let mut cleaned = String::with_capacity(s.len());
+  let mut rest = s;
+
+  while let Some(pos) = rest.find('\\') {
+    let after = rest[pos + 1..].trim_start_matches(|c| c == ' ' || c == '\t');
+    let newline_len = match after.as_bytes() {
+      [b'\r', b'\n', ..] => 2,
+      [b'\n', ..] | [b'\r', ..] => 1,
+      _ => 0
+    };
+
+    if newline_len > 0 {
+      cleaned.push_str(&rest[..pos]);
+      rest = &after[newline_len..];
+    } else {
+      cleaned.push_str(&rest[..=pos]);
+      rest = &rest[pos + 1..];
+    }
+  }
+
+  cleaned.push_str(rest);
+  cleaned
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From e070658db33dde525bb737cd00c0350d0cc6a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 4/6] fix: find global ARGs that follow another instruction

get_global_arg stopped at the first instruction that is not an ARG, so it
missed ARGs that global_args lists after e.g. a LABEL preceding the first
FROM.
---
 src/dockerfile_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..4e8913e 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -408,7 +408,9 @@ impl Dockerfile {
             continue
           }
         },
-        _ => return None
+        // only ARGs preceding the first FROM are global
+        Instruction::From(_) => return None,
+        _ => continue
       }
     }
 
-- 
2.43.0


From 4d6f8e581ef2bb9772c16da74aa69a10e37abb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 5/6] fix: allow a comment between a keyword and its shell or
 exec form

A comment line following a continuation right after RUN, CMD or ENTRYPOINT
was taken as the argument and the document was rejected.
---
 src/instructions/cmd.rs        | 4 +++-
 src/instructions/entrypoint.rs | 4 +++-
 src/instructions/run.rs        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..59b0e42 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,9 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..8d3f22d 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,9 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..3267514 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,9 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From 07cb20175fb5cfc71544852c76fcf234ba077584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 6/6] fix: match continued text and quoted strings iteratively

The grammar recursed once per line continuation and once per escape, so a
document with some ten thousand continued lines (or a string with as many
escapes) overflowed the stack and aborted the process.
---
 src/dockerfile_parser.pest | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 5f3a5ca..6a1ff5d 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -37,12 +37,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = _{ ws* ~ NEWLINE }
 
 double_quoted_string  = @{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = @{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
@@ -68,18 +68,12 @@ any_content = @{
   )+
 }
 any_breakable = ${
-  // some piece of content, requiring a continuation EXCEPT on the final line
-  any_content ~ (line_continuation ~ any_breakable_continued)?
-}
-
-// the part of an any_breakable that follows a line continuation; comments are
-// only recognized here, as a '#' elsewhere is regular content
-any_breakable_continued = _{
-  (
-    // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable_continued?
-  ) |
-  any_breakable
+  // some piece of content, requiring a continuation EXCEPT on the final line;
+  // comment lines (no line continuation required) are only recognized after a
+  // continuation, as a '#' elsewhere is regular content
+  any_content ~
+  (line_continuation ~ comment_line* ~ any_content)* ~
+  (line_continuation ~ comment_line+)?
 }
 
 // consumes any character until the end of the line
-- 
2.43.0

