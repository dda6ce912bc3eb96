From dc0f0fdc2653ebecc68374e664bf94c256a52ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 1/6] fix: do not recurse once per line when an inline element
 stays open

Parser::block fed a line to the inline parser and then called next_span again.
While an inline opener is unresolved the inline parser asks for more lines
without emitting an event, so that a long paragraph (e.g. a single '*' followed
by some ten thousand lines) recursed once per line and overflowed the stack.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..19c2c59 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2791,7 +2791,10 @@ impl<'s> Parser<'s> {
                                 Some(block::EventKind::Inline),
                             ),
                         );
-                        return self.next_span();
+                        if let Some(event) = self.inline() {
+                            return Some(event);
+                        }
+                        continue;
                     }
                 }
                 block::EventKind::Stale => {
-- 
2.43.0


From 5d2cfc4971ed46023554e2b434eab8c2761f2258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 2/6] fix: report errors when flushing standard output

The BufWriter around stdout was dropped without being flushed, which ignores
write errors, and stdout itself may hold back a last unterminated line. The
command exited successfully with output missing, e.g. on a full disk.
---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4ea4aec..3720633 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ struct App {
 fn run() -> Result<(), std::io::Error> {
     use jotdown::Render;
     use std::io::Read;
+    use std::io::Write;
 
     let app: App = clap::Parser::parse();
 
@@ -39,7 +40,11 @@ fn run() -> Result<(), std::io::Error> {
 
     match app.output {
         Some(path) => renderer.write_events(parser, std::fs::File::create(path)?)?,
-        None => renderer.write_events(parser, std::io::BufWriter::new(std::io::stdout()))?,
+        None => {
+            let mut out = std::io::BufWriter::new(std::io::stdout());
+            renderer.write_events(parser, &mut out)?;
+            out.flush()?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From e2ef9726ac3794a1c7a7139e6a9f250beba26c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 3/6] fix: do not let the indentation depth wrap around after a
 write error

If writing the newline before a start tag failed, the depth was not
incremented. Rendering further events after the error could then decrement the
depth below zero, making the renderer write 2^64 indentation strings.
---
 src/html.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..f9b21f1 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -324,7 +324,8 @@ impl<'s> Renderer<'s> {
             out.write_char('\n')?;
         }
 
-        let next_depth = (self.depth as isize + depth_change) as usize;
+        // may be unbalanced if a previous event failed to render
+        let next_depth = self.depth.saturating_add_signed(depth_change);
         if depth_change < 0 {
             self.depth = next_depth;
         }
-- 
2.43.0


From f7c4f66d2972257e71f5913eb2a1f784b55b61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 4/6] fix: reset the renderer at the start of each document

A renderer used for a second document kept the state of the first, e.g. its
footnote references, producing a bogus endnotes section and unclosed paragraphs
in the second document. After a document that was abandoned, for example due to
a write error, the next could also be indented wrongly or swallowed entirely.
---
 src/html.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index f9b21f1..05ff980 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -355,6 +355,12 @@ impl<'s> Renderer<'s> {
     where
         W: std::fmt::Write,
     {
+        if matches!(&e, Event::Start(Container::Document, ..)) {
+            // do not carry over any state from a previous, possibly incomplete, document
+            *self = Self::new(self.indent.take());
+            return Ok(());
+        }
+
         if let Event::Start(Container::Footnote { label }, ..) = e {
             self.footnotes.start(label, Vec::new());
             return Ok(());
-- 
2.43.0


From 995ed91fe4b37716adf25fe0733b69906f7cc397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 5/6] fix: do not panic on headings with more than 65535 number
 signs

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..35fcaf7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -425,7 +425,7 @@ impl<'s> TreeParser<'s> {
                 Kind::Atom(a) => Block::Atom(a),
                 Kind::Paragraph => Block::Leaf(Paragraph),
                 Kind::Heading { level } => Block::Leaf(Heading {
-                    level: level.try_into().unwrap(),
+                    level: level.try_into().unwrap_or(u16::MAX),
                     has_section: top_level,
                     pos: span_start.start as u32,
                 }),
-- 
2.43.0


From b27db6ee57ffec628b596444fb66953715fe498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 6/6] fix: do not collect attributes over successive link
 definitions and headings

Attributes in front of a link definition or heading also applied to all
definitions that followed without a blank line in between, each keeping a
copy: memory grew with the square of their number.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 19c2c59..de07447 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2232,6 +2232,7 @@ impl<'s> PrePass<'s> {
                         "".into() // static
                     };
                     link_definitions.insert(label, (url, attrs));
+                    attr_prev.clear();
                 }
                 block::EventKind::Enter(block::Node::Leaf(block::Leaf::Heading { .. })) => {
                     // All headings ids have to be obtained initially, as references can appear
@@ -2319,6 +2320,7 @@ impl<'s> PrePass<'s> {
                         text,
                         id_override,
                     });
+                    attr_prev.clear();
                 }
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
-- 
2.43.0

