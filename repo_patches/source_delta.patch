From 6509395b6e3acf9d456ad2066e4e1a0b38862253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 01/26] fix: withdraw entries registered by abandoned parse
 attempts

Footnotes, table of contents entries, HTML and code blocks, and
bibliographies are kept in tables shared between parser clones. When a
rule failed after having registered some, they stayed behind, and were
registered again when the same text was parsed anew.
---
 src/parsing/parser.rs                     | 50 +++++++++++++++++++++++
 src/parsing/rule/impls/definition_list.rs |  2 +
 src/parsing/rule/mod.rs                   | 16 ++++++--
 src/tree/bibliography.rs                  |  4 ++
 4 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index f915c12..4c4a202 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -298,6 +298,43 @@ impl<'r, 't> Parser<'r, 't> {
         mem::take(&mut self.bibliographies.borrow_mut())
     }
 
+    // Shared table snapshots
+    //
+    // The tables above are shared between all parser clones, so discarding
+    // a clone does not discard what it registered. When an attempt at parsing
+    // something is abandoned, its entries must be withdrawn explicitly.
+
+    /// Records the current extent of the shared tables.
+    pub fn save_tables(&self) -> SharedTables {
+        SharedTables {
+            table_of_contents: self.table_of_contents.borrow().len(),
+            html_blocks: self.html_blocks.borrow().len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            footnotes: self.footnotes.borrow().len(),
+            bibliographies: self.bibliographies.borrow().next_index(),
+            has_footnote_block: self.has_footnote_block,
+        }
+    }
+
+    /// Withdraws everything registered since the given snapshot was taken.
+    pub fn restore_tables(&mut self, saved: SharedTables) {
+        self.table_of_contents
+            .borrow_mut()
+            .truncate(saved.table_of_contents);
+
+        self.html_blocks.borrow_mut().truncate(saved.html_blocks);
+
+        self.code_blocks.borrow_mut().truncate(saved.code_blocks);
+
+        self.footnotes.borrow_mut().truncate(saved.footnotes);
+
+        self.bibliographies
+            .borrow_mut()
+            .truncate(saved.bibliographies);
+
+        self.has_footnote_block = saved.has_footnote_block;
+    }
+
     // Special for [[include]], appending a SyntaxTree
     pub fn append_shared_items(
         &mut self,
@@ -574,6 +611,19 @@ impl<'r, 't> Parser<'r, 't> {
 #[derive(Debug)]
 pub struct NonUniqueNameError;
 
+/// Snapshot of the extent of the tables shared between parser clones.
+///
+/// See [`Parser::save_tables()`].
+#[derive(Debug, Copy, Clone)]
+pub struct SharedTables {
+    table_of_contents: usize,
+    html_blocks: usize,
+    code_blocks: usize,
+    footnotes: usize,
+    bibliographies: usize,
+    has_footnote_block: bool,
+}
+
 #[inline]
 fn make_shared_vec<T>() -> Rc<RefCell<Vec<T>>> {
     Rc::new(RefCell::new(Vec::new()))
diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1a4f8fb..a95dcf9 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -67,6 +67,7 @@ fn parse_definition_list<'r, 't>(
     // Collect remainder, halting if there's a failure
     if !at_end {
         loop {
+            let tables = parser.save_tables();
             let sub_parser = &mut parser.clone();
 
             match parse_item(sub_parser) {
@@ -84,6 +85,7 @@ fn parse_definition_list<'r, 't>(
                 }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
+                    parser.restore_tables(tables);
                     break;
                 }
             }
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index bf46757..2029bd6 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -67,15 +67,23 @@ impl Rule {
         }
 
         // Fork parser and try running the rule.
+        let tables = parser.save_tables();
         let mut sub_parser = parser.clone_with_rule(self);
-        let result = (self.try_consume_fn)(&mut sub_parser);
+        let mut result = (self.try_consume_fn)(&mut sub_parser);
 
         if let Ok(ref output) = result {
             // First, ensure there aren't any partial elements in the result.
-            output.check_partials(parser)?;
+            if let Err(error) = output.check_partials(parser) {
+                result = Err(error);
+            }
+        }
+
+        match result {
+            // Finally save the parser state since it succeeded.
+            Ok(_) => parser.update(&sub_parser),
 
-            // Now, finally save the parser state since it succeeded.
-            parser.update(&sub_parser);
+            // Otherwise discard everything this attempt registered.
+            Err(_) => parser.restore_tables(tables),
         }
 
         result
diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 1284e8c..c68b7bd 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -102,6 +102,10 @@ impl<'t> BibliographyList<'t> {
         self.0.append(&mut other.0);
     }
 
+    pub fn truncate(&mut self, len: usize) {
+        self.0.truncate(len);
+    }
+
     #[inline]
     pub fn next_index(&self) -> usize {
         self.0.len()
-- 
2.43.0


From b14c01b2905770ac1719316ca9e0a775d73a2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 02/26] fix: leave a line that is not a heading intact after a
 heading

The lookahead for consecutive headings ran on the parser itself, so when
the next line turned out not to be a heading its plus signs were lost. It
also recursed once per heading, overflowing the stack on long runs.
---
 src/parsing/rule/impls/header.rs | 53 ++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6ee06e1..ef694f5 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -29,6 +29,41 @@ pub const RULE_HEADER: Rule = Rule {
 
 fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
+) -> ParseResult<'r, 't, Elements<'t>> {
+    // The first heading must be valid
+    let (elements, mut all_errors, _) = parse_heading(parser)?.into();
+    let mut all_elements: Vec<_> = elements.into_iter().collect();
+
+    // Collect further headings until we hit an error.
+    //
+    // We do this because the container consumes the newline,
+    // which we need to trigger the next header when using regular rules.
+    loop {
+        let tables = parser.save_tables();
+        let sub_parser = &mut parser.clone();
+
+        match parse_heading(sub_parser) {
+            Ok(success) => {
+                let (elements, mut errors, _) = success.into();
+
+                all_elements.extend(elements);
+                all_errors.append(&mut errors);
+                parser.update(sub_parser);
+            }
+            Err(_) => {
+                // Leave the tokens as they were, this isn't a heading
+                parser.restore_tables(tables);
+                break;
+            }
+        }
+    }
+
+    // Build final Elements object
+    ok!(false; all_elements, all_errors)
+}
+
+fn parse_heading<'r, 't>(
+    parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Trying to create header container");
 
@@ -53,7 +88,7 @@ fn try_consume_fn<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
-    let (elements, mut all_errors, _) = collect_container(
+    let (elements, all_errors, _) = collect_container(
         parser,
         RULE_HEADER,
         ContainerType::Header(heading),
@@ -80,19 +115,5 @@ fn try_consume_fn<'r, 't>(
         parser.push_table_of_contents_entry(heading.level, elements);
     }
 
-    // Recursively collect headings until we hit an error.
-    //
-    // We do this because the container consumes the newline,
-    // which we need to trigger the next header when using regular rules.
-    let mut all_elements: Vec<_> = elements.into_iter().collect();
-
-    if let Ok(success) = (try_consume_fn)(parser) {
-        let (elements, mut errors, _) = success.into();
-
-        all_elements.extend(elements);
-        all_errors.append(&mut errors);
-    }
-
-    // Build final Elements object
-    ok!(false; all_elements, all_errors)
+    ok!(false; elements, all_errors)
 }
-- 
2.43.0


From bba383adc4544cb75316f73acbacd87c452ef403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 03/26] fix: leave a line that is not a list item intact after
 a list

A bullet with no whitespace after it ends the list, but it had already
been consumed, so the character was lost.
---
 src/parsing/rule/impls/list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 59eab30..f3c1fb1 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -54,6 +54,7 @@ fn try_consume_fn<'r, 't>(
 
     // Produce a depth list with elements
     loop {
+        let line_start = parser.clone();
         let current = parser.current();
         let depth = match current.token {
             // Count the number of spaces for its depth
@@ -98,6 +99,7 @@ fn try_consume_fn<'r, 't>(
         let current = parser.current();
         if current.token != Token::Whitespace {
             warn!("Didn't find whitespace after bullet token, ending list iteration");
+            parser.update(&line_start); // not a list item, leave the line as it was
             break;
         }
         parser.step()?;
-- 
2.43.0


From aa4ecfecfdad6667d1c08570b8f4c194a072b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 04/26] fix: leave an unfinished row after a table as text

If a line after a complete row starts with a table column but does not
end with one, the table ends there. The cells of that line had already
been consumed and were dropped from the page.
---
 src/parsing/rule/impls/table.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 93eb57c..b565b62 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -47,6 +47,9 @@ fn try_consume_fn<'r, 't>(
     'table: loop {
         debug!("Parsing next table row");
 
+        let row_start = parser.clone();
+        let row_tables = parser.save_tables();
+        let row_errors = errors.len();
         let mut cells = Vec::new();
 
         macro_rules! build_row {
@@ -65,6 +68,12 @@ fn try_consume_fn<'r, 't>(
                     return Err(parser.make_err(ParseErrorKind::RuleFailed));
                 } else {
                     // At least one row was created, end it here.
+                    //
+                    // Whatever was consumed past that is not a row,
+                    // so leave it as it was.
+                    parser.update(&row_start);
+                    parser.restore_tables(row_tables);
+                    errors.truncate(row_errors);
                     break 'table;
                 }
             };
-- 
2.43.0


From 1bc022ea650cdb5c68ae913f4e46b7df0a3007cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 05/26] fix: drop what a false condition's body registered

A [[iftags]] or [[ifcategory]] block whose condition does not hold excludes
its elements, but its footnotes, headings, code blocks and so on still
appeared in their lists, and a footnote block inside suppressed the
automatic one.
---
 src/parsing/rule/impls/block/blocks/ifcategory.rs | 3 +++
 src/parsing/rule/impls/block/blocks/iftags.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 951064e..5b8675a 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -67,6 +67,7 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let tables = parser.save_tables();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFCATEGORY, false)?.into();
 
@@ -84,6 +85,8 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Exclude footnotes, headings, etc registered by the body too
+        parser.restore_tables(tables);
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 5be9522..82c75c2 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -51,6 +51,7 @@ fn parse_fn<'r, 't>(
         })?;
 
     // Get body content, never with paragraphs
+    let tables = parser.save_tables();
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFTAGS, false)?.into();
 
@@ -68,6 +69,8 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Exclude footnotes, headings, etc registered by the body too
+        parser.restore_tables(tables);
         Elements::None
     };
 
-- 
2.43.0


From 084fe0cec31af0f7e6dc9e32013f86591394108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 06/26] fix: keep no blocks from a parse which hit the
 recursion limit

In this case the page is only its source text, but the HTML and code
blocks found before giving up were still returned with it.
---
 src/parsing/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/mod.rs b/src/parsing/mod.rs
index 44b1af6..defe076 100644
--- a/src/parsing/mod.rs
+++ b/src/parsing/mod.rs
@@ -151,6 +151,8 @@ where
             let wikitext = tokenization.full_text().inner();
             let elements = vec![text!(wikitext)];
             let errors = vec![error];
+            let html_blocks = vec![];
+            let code_blocks = vec![];
             let table_of_contents = vec![];
             let footnotes = vec![];
             let bibliographies = BibliographyList::new();
-- 
2.43.0


From 78ddb482816a7f3ede9099b1e541bc77f25cb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 07/26] fix: do not read an include block within another's
 argument

Such a match was recorded with a range inside of the range of the outer
include, so replacing both corrupted the text or panicked.
---
 src/includes/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/includes/mod.rs b/src/includes/mod.rs
index 4656265..b3f9681 100644
--- a/src/includes/mod.rs
+++ b/src/includes/mod.rs
@@ -41,6 +41,7 @@ use crate::settings::WikitextSettings;
 use crate::tree::VariableMap;
 use once_cell::sync::Lazy;
 use regex::{Regex, RegexBuilder};
+use std::ops::Range;
 
 static INCLUDE_REGEX: Lazy<Regex> = Lazy::new(|| {
     RegexBuilder::new(r"^\[\[\s*include\s+")
@@ -78,13 +79,22 @@ where
         input.len(),
     );
 
-    let mut ranges = Vec::new();
+    let mut ranges: Vec<Range<usize>> = Vec::new();
     let mut includes = Vec::new();
 
     // Get include references
     for mtch in INCLUDE_REGEX.find_iter(input) {
         let start = mtch.start();
 
+        // This match may be within the previous include block,
+        // as part of one of its arguments.
+        if let Some(&Range { end, .. }) = ranges.last() {
+            if start < end {
+                trace!("Skipping match inside of an include block (start {start})");
+                continue;
+            }
+        }
+
         trace!(
             "Found include regex match (start {}, slice '{}')",
             start,
-- 
2.43.0


From 784193b38aeae046c1af72fd8e43025db79100a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 08/26] fix: render citations within bibliography entries
 without recursing

The preview shown on a citation rendered the entry in full. An entry which
cites itself overflowed the stack, and a footnote within a cited entry was
numbered once per citation, panicking when the numbers ran out.
---
 src/render/html/context.rs              | 29 +++++++++++++++++++++++++
 src/render/html/element/bibliography.rs | 18 +++++++++++----
 src/render/html/element/footnotes.rs    |  6 +++++
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 651af3b..4b1ba98 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -76,6 +76,7 @@ where
     table_of_contents_index: usize,
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
+    in_bibliography_preview: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -125,6 +126,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             table_of_contents_index: 0,
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
+            in_bibliography_preview: false,
         }
     }
 
@@ -252,6 +254,33 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             .map(|elements| elements.as_slice())
     }
 
+    // Bibliography previews
+    #[inline]
+    pub fn in_bibliography_preview(&self) -> bool {
+        self.in_bibliography_preview
+    }
+
+    /// Runs the closure to produce a preview of a bibliography entry.
+    ///
+    /// This is a copy of what the bibliography block displays, so it must
+    /// not affect the numbering of any items.
+    pub fn bibliography_preview<F>(&mut self, f: F)
+    where
+        F: FnOnce(&mut Self),
+    {
+        let code_snippet_index = self.code_snippet_index;
+        let table_of_contents_index = self.table_of_contents_index;
+        let equation_index = self.equation_index;
+
+        self.in_bibliography_preview = true;
+        f(self);
+        self.in_bibliography_preview = false;
+
+        self.code_snippet_index = code_snippet_index;
+        self.table_of_contents_index = table_of_contents_index;
+        self.equation_index = equation_index;
+    }
+
     // Backlinks
     #[inline]
     pub fn add_link(&mut self, link: &LinkLocation) {
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 61cfe87..7ddcf21 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -59,6 +59,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                         ctx.push_raw(']');
                     }
 
+                    // Bibliography entries can cite each other, or themselves.
+                    // Thus, don't show a preview inside of a preview.
+                    if ctx.in_bibliography_preview() {
+                        return;
+                    }
+
                     // Tooltip shown on hover.
                     // Is aria-hidden due to difficulty in getting a simultaneous
                     // tooltip and link to work. A screen reader can still navigate
@@ -79,10 +85,14 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                                 .contents(&label);
 
                             // Actual tooltip contents
-                            ctx.html()
-                                .span()
-                                .attr(attr!("class" => "wj-bibliography-ref-contents"))
-                                .contents(contents);
+                            ctx.bibliography_preview(|ctx| {
+                                ctx.html()
+                                    .span()
+                                    .attr(
+                                        attr!("class" => "wj-bibliography-ref-contents"),
+                                    )
+                                    .contents(contents);
+                            });
                         });
                 });
         }
diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index dba35fa..da7ad02 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -23,6 +23,12 @@ use super::prelude::*;
 pub fn render_footnote(ctx: &mut HtmlContext) {
     debug!("Rendering footnote reference");
 
+    // Footnotes within a bibliography entry are numbered where the entry
+    // itself is displayed, not in each preview of it.
+    if ctx.in_bibliography_preview() {
+        return;
+    }
+
     let index = ctx.next_footnote_index();
     let id = str!(index);
 
-- 
2.43.0


From 9e014457a7fe7da591976d8f08a450091d5965dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 09/26] fix: reject a footnote block inside of a footnote

It displays all footnotes, including the one which contains it, so
rendering it overflowed the stack.
---
 src/parsing/rule/impls/block/blocks/footnote.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index 8b592e2..658bd83 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -106,6 +106,11 @@ fn parse_footnote_block<'r, 't>(
     assert!(!flag_score, "Footnote block doesn't allow score flag");
     assert_block_name(&BLOCK_FOOTNOTE_BLOCK, name);
 
+    // A footnote cannot contain the list of footnotes, it would contain itself.
+    if parser.in_footnote() {
+        return Err(parser.make_err(ParseErrorKind::FootnotesNested));
+    }
+
     // Parse arguments
     let mut arguments = parser.get_head_map(&BLOCK_FOOTNOTE_BLOCK, in_head)?;
 
-- 
2.43.0


From de526cc9a045596843085b4aa1e378c3728afd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 10/26] fix: fall back past an unset include argument followed
 by whitespace

---
 src/includes/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/includes/parse.rs b/src/includes/parse.rs
index 6239e01..bacee85 100644
--- a/src/includes/parse.rs
+++ b/src/includes/parse.rs
@@ -123,11 +123,14 @@ fn process_pairs(mut pairs: Pairs<Rule>) -> Result<IncludeRef, IncludeParseError
         //     width=300px
         // ]]
         // ```
+        //
+        // Values extend up to the next separator, so any whitespace
+        // before it (as seen above) has to be disregarded here.
 
         var_reference.clear();
         str_write!(var_reference, "{{${key}}}");
 
-        if !arguments.contains_key(key) && value != var_reference {
+        if !arguments.contains_key(key) && value.trim() != var_reference {
             let key = Cow::Borrowed(key);
             let value = Cow::Borrowed(value);
 
-- 
2.43.0


From 8bb49372d27d1a46637a0342bcb2f667d83cf934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 11/26] Add guarded hooks for deterministic simulation (--cfg
 ftml_sim)

---
 src/lib.rs              |  6 ++++
 src/parsing/rule/mod.rs |  5 +++
 src/render/handle.rs    | 46 +++++++++++++++++++++++++++
 src/sim.rs              | 70 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 127 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 0e3188b..651ee2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -72,6 +72,9 @@
 //! [`serde`]: https://docs.rs/serde
 //! [`wasm-pack`]: https://rustwasm.github.io/docs/wasm-pack/
 
+// For the simulation hooks, see the sim module.
+#![allow(unexpected_cfgs)]
+
 // Only list crates which we want global macro imports.
 // Rest are implicit based on Cargo.toml
 
@@ -117,6 +120,9 @@ mod utf16;
 #[cfg(target_arch = "wasm32")]
 pub mod wasm;
 
+#[cfg(ftml_sim)]
+pub mod sim;
+
 pub mod data;
 pub mod includes;
 pub mod info;
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index 2029bd6..a37ba82 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -78,6 +78,11 @@ impl Rule {
             }
         }
 
+        #[cfg(ftml_sim)]
+        if result.is_ok() && crate::sim::rule_fault(self.name) {
+            result = Err(parser.make_err(ParseErrorKind::RuleFailed));
+        }
+
         match result {
             // Finally save the parser state since it succeeded.
             Ok(_) => parser.update(&sub_parser),
diff --git a/src/render/handle.rs b/src/render/handle.rs
index 747bdc2..1624b1b 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -39,6 +39,13 @@ impl Handle {
     pub fn get_page_title(&self, _site: &str, _page: &str) -> Option<String> {
         debug!("Fetching page title");
 
+        #[cfg(ftml_sim)]
+        if let Some(answer) =
+            crate::sim::hooks().and_then(|hooks| hooks.page_title(_site, _page))
+        {
+            return answer;
+        }
+
         // TODO
         Some(format!("TODO: actual title ({_site} {_page})"))
     }
@@ -46,6 +53,13 @@ impl Handle {
     pub fn get_page_exists(&self, _site: &str, _page: &str) -> bool {
         debug!("Checking page existence");
 
+        #[cfg(ftml_sim)]
+        if let Some(answer) =
+            crate::sim::hooks().and_then(|hooks| hooks.page_exists(_site, _page))
+        {
+            return answer;
+        }
+
         // For testing
         #[cfg(test)]
         if _page == "missing" {
@@ -58,6 +72,13 @@ impl Handle {
 
     pub fn get_user_info<'a>(&self, name: &'a str) -> Option<UserInfo<'a>> {
         debug!("Fetching user info (name '{name}')");
+
+        #[cfg(ftml_sim)]
+        if let Some(answer) = crate::sim::hooks().and_then(|hooks| hooks.user_info(name))
+        {
+            return answer;
+        }
+
         let mut info = UserInfo::dummy();
         info.user_name = cow!(name);
         info.user_profile_url = Cow::Owned(format!("/user:info/{name}"));
@@ -72,6 +93,13 @@ impl Handle {
     ) -> Option<Cow<'a, str>> {
         debug!("Getting file link for image");
 
+        #[cfg(ftml_sim)]
+        if let Some(answer) =
+            crate::sim::hooks().and_then(|hooks| hooks.image_link(source))
+        {
+            return answer.map(Cow::Owned);
+        }
+
         let (site, page, file): (&str, &str, &str) = match source {
             ImageSource::Url(url) => return Some(Cow::clone(url)),
             ImageSource::File1 { .. }
@@ -132,6 +160,13 @@ impl Handle {
     pub fn get_message(&self, language: &str, message: &str) -> &'static str {
         debug!("Fetching message (language {language}, key {message})");
 
+        #[cfg(ftml_sim)]
+        if let Some(answer) =
+            crate::sim::hooks().and_then(|hooks| hooks.message(language, message))
+        {
+            return answer;
+        }
+
         let _ = language;
 
         // TODO
@@ -156,6 +191,12 @@ impl Handle {
     pub fn post_html(&self, info: &PageInfo, html: &str) -> String {
         debug!("Submitting HTML to create iframe-able snippet");
 
+        #[cfg(ftml_sim)]
+        if let Some(answer) = crate::sim::hooks().and_then(|hooks| hooks.post_html(html))
+        {
+            return answer;
+        }
+
         let _ = info;
         let _ = html;
 
@@ -166,6 +207,11 @@ impl Handle {
     pub fn post_code(&self, index: NonZeroUsize, code: &str) {
         debug!("Submitting code snippet (index {})", index.get());
 
+        #[cfg(ftml_sim)]
+        if let Some(hooks) = crate::sim::hooks() {
+            hooks.post_code(index, code);
+        }
+
         let _ = index;
         let _ = code;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..6bf9c9b
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,70 @@
+/*
+ * sim.rs
+ *
+ * ftml - Library to parse Wikidot text
+ * Copyright (C) 2019-2025 Wikijump Team
+ *
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU Affero General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
+ * GNU Affero General Public License for more details.
+ *
+ * You should have received a copy of the GNU Affero General Public License
+ * along with this program. If not, see <http://www.gnu.org/licenses/>.
+ */
+
+//! Hooks for running the library inside of a deterministic simulation.
+//!
+//! This module only exists when built with `RUSTFLAGS='--cfg ftml_sim'`.
+//! A simulator installs its hooks for the current thread, and is then able
+//! to make parse rules fail, and to answer in place of the site.
+//!
+//! Without hooks installed everything behaves as it does normally.
+
+use crate::data::UserInfo;
+use crate::tree::ImageSource;
+use std::cell::RefCell;
+use std::fmt::Debug;
+use std::num::NonZeroUsize;
+use std::rc::Rc;
+
+/// What a simulator can decide.
+///
+/// Methods which return `None` leave the decision to the normal code.
+pub trait SimHooks: Debug {
+    /// Whether this successful attempt to apply a rule should fail instead.
+    fn rule_fault(&self, rule: &'static str) -> bool;
+
+    fn page_title(&self, site: &str, page: &str) -> Option<Option<String>>;
+    fn page_exists(&self, site: &str, page: &str) -> Option<bool>;
+    fn user_info(&self, name: &str) -> Option<Option<UserInfo<'static>>>;
+    fn image_link(&self, source: &ImageSource) -> Option<Option<String>>;
+    fn message(&self, language: &str, message: &str) -> Option<&'static str>;
+    fn post_html(&self, html: &str) -> Option<String>;
+    fn post_code(&self, index: NonZeroUsize, code: &str);
+}
+
+thread_local! {
+    static HOOKS: RefCell<Option<Rc<dyn SimHooks>>> = const { RefCell::new(None) };
+}
+
+/// Installs (or removes) the hooks for the current thread.
+pub fn install(hooks: Option<Rc<dyn SimHooks>>) {
+    HOOKS.with(|cell| *cell.borrow_mut() = hooks);
+}
+
+pub(crate) fn hooks() -> Option<Rc<dyn SimHooks>> {
+    HOOKS.with(|cell| cell.borrow().clone())
+}
+
+pub(crate) fn rule_fault(rule: &'static str) -> bool {
+    match hooks() {
+        Some(hooks) => hooks.rule_fault(rule),
+        None => false,
+    }
+}
-- 
2.43.0


From 95132f0e20d41e5a54866c80b16f89e2d120c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 12/26] fix: keep CSS strings from closing their style element

---
 src/render/html/element/style.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/render/html/element/style.rs b/src/render/html/element/style.rs
index b8fb58e..1f09849 100644
--- a/src/render/html/element/style.rs
+++ b/src/render/html/element/style.rs
@@ -49,10 +49,14 @@ pub fn render_style(ctx: &mut HtmlContext, input_css: &str) {
         }
     };
 
+    // Strings and URLs in the CSS may contain "</style>", which would
+    // terminate the HTML element. Escaping the slash has the same meaning.
+    let output_css = output_css.replace("</", "<\\/");
+
     ctx.html().style().inner(|ctx| {
-        // SAFETY: The resultant CSS cannot contain HTML-escaping elements,
-        //         as those are invalid and would not be retained during
-        //         the parcel_css parsing process.
+        // SAFETY: Outside of strings and URLs (see above), the resultant CSS
+        //         cannot contain HTML-escaping elements, as those are invalid
+        //         and would not be retained during the parcel_css parsing process.
         ctx.push_raw_str(&output_css);
     });
 }
-- 
2.43.0


From 4cf38a46cef42c6a30918936e9a29731252d1906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 13/26] fix: accept underscores in data and aria attribute
 names

The attribute name filter lets 'data-a_b' through, on which the
assertion in the HTML builder panicked.
---
 src/render/html/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/render/html/builder.rs b/src/render/html/builder.rs
index 14bdd11..5eda1f4 100644
--- a/src/render/html/builder.rs
+++ b/src/render/html/builder.rs
@@ -311,7 +311,7 @@ impl Drop for HtmlBuilderTag<'_, '_, '_, '_, '_> {
 fn is_alphanumeric(value: &str) -> bool {
     value
         .chars()
-        .all(|c| c.is_ascii_alphabetic() || c.is_ascii_digit() || c == '-')
+        .all(|c| c.is_ascii_alphabetic() || c.is_ascii_digit() || matches!(c, '-' | '_'))
 }
 
 #[inline]
-- 
2.43.0


From d03664f1575db70d713e7ecd73fc4fecd3574388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 14/26] fix: render a URL link with an empty label instead of
 panicking

'[[[https://example.com/|]]]' asks for the title of a page, but its
location is a URL, for which get_link_label() panicked.
---
 src/render/handle.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/render/handle.rs b/src/render/handle.rs
index 1624b1b..b4b73ce 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -139,9 +139,8 @@ impl Handle {
                 LinkLocation::Page(page_ref) => page_ref.page(),
             },
             LinkLabel::Page => match link {
-                LinkLocation::Url(_) => {
-                    panic!("Requested link label of page for a URL");
-                }
+                // A URL has no page title, e.g. [[[https://example.com/|]]]
+                LinkLocation::Url(url) => url.as_ref(),
                 LinkLocation::Page(page_ref) => {
                     let (site, page) = page_ref.fields_or(site);
                     page_title = match self.get_page_title(site, page) {
-- 
2.43.0


From 83dfa0f239663dd8bd6638598fc25cdb70b56f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 15/26] fix: treat a lone '))' as text instead of panicking

The token had the bibcite rule in its list, which asserts that it starts at '(('.
---
 src/parsing/rule/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/mapping.rs b/src/parsing/rule/mapping.rs
index ec61180..f6c816b 100644
--- a/src/parsing/rule/mapping.rs
+++ b/src/parsing/rule/mapping.rs
@@ -44,7 +44,7 @@ pub static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| {
         Token::LeftBlockStar => vec![RULE_BLOCK_STAR],
         Token::RightBlock => vec![],
         Token::LeftParentheses => vec![RULE_BIBCITE, RULE_TEXT],
-        Token::RightParentheses => vec![RULE_BIBCITE, RULE_TEXT],
+        Token::RightParentheses => vec![RULE_TEXT],
         Token::LeftMath => vec![RULE_MATH],
         Token::RightMath => vec![],
         Token::DoubleDash => vec![RULE_STRIKETHROUGH_DASH, RULE_DASH],
-- 
2.43.0


From 1a1137d46e36549af8ab31a44ad77949a7f41962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 16/26] fix: only take '((bibcite label))' as a citation

Any '((identifier label))' was taken as one, which dropped its first word.
---
 src/parsing/rule/impls/bibcite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/bibcite.rs b/src/parsing/rule/impls/bibcite.rs
index a6047d2..fa7c9fa 100644
--- a/src/parsing/rule/impls/bibcite.rs
+++ b/src/parsing/rule/impls/bibcite.rs
@@ -35,7 +35,7 @@ fn try_consume_fn<'r, 't>(
     // This is like a poor man's block, it's "((bibcite <label>))"
     let current = parser.current();
     if current.token != Token::Identifier
-        && !current.slice.eq_ignore_ascii_case("bibcite")
+        || !current.slice.eq_ignore_ascii_case("bibcite")
     {
         warn!("'((' not followed by 'bibcite', failing rule");
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
-- 
2.43.0


From 53dae35e5a7d578d9f5ddf374f9ef405c3fb77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 17/26] fix: accept list items, table cells, tabs etc. only in
 their immediate parent

They were accepted anywhere below it too, for instance in another list item or
in bold text, which left a partial element in the tree and made rendering panic.
---
 src/parsing/parser.rs                            | 16 +++++++++++++++-
 .../rule/impls/block/blocks/ifcategory.rs        |  6 +++++-
 src/parsing/rule/impls/block/blocks/iftags.rs    |  6 +++++-
 src/parsing/rule/impls/block/blocks/table.rs     |  2 --
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 4c4a202..ffe4aa0 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -81,6 +81,7 @@ pub struct Parser<'r, 't> {
 
     // Flags
     accepts_partial: AcceptsPartial,
+    outer_accepts_partial: AcceptsPartial, // What the rule this one is run from accepts.
     in_footnote: bool, // Whether we're currently inside [[footnote]] ... [[/footnote]].
     has_footnote_block: bool, // Whether a [[footnoteblock]] was created.
     start_of_line: bool,
@@ -116,6 +117,7 @@ impl<'r, 't> Parser<'r, 't> {
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
             accepts_partial: AcceptsPartial::None,
+            outer_accepts_partial: AcceptsPartial::None,
             in_footnote: false,
             has_footnote_block: false,
             start_of_line: true,
@@ -148,6 +150,14 @@ impl<'r, 't> Parser<'r, 't> {
         self.accepts_partial
     }
 
+    /// The partial accepted by whatever will receive this rule's elements.
+    ///
+    /// For rules which pass their contents through as-is.
+    #[inline]
+    pub fn outer_accepts_partial(&self) -> AcceptsPartial {
+        self.outer_accepts_partial
+    }
+
     #[inline]
     pub fn in_footnote(&self) -> bool {
         self.in_footnote
@@ -172,6 +182,11 @@ impl<'r, 't> Parser<'r, 't> {
     pub fn clone_with_rule(&self, rule: Rule) -> Self {
         let mut clone = self.clone();
         clone.set_rule(rule);
+
+        // Partials are only meant for the immediate parent,
+        // so each rule starts out not accepting any.
+        clone.outer_accepts_partial = clone.accepts_partial;
+        clone.accepts_partial = AcceptsPartial::None;
         clone
     }
 
@@ -453,7 +468,6 @@ impl<'r, 't> Parser<'r, 't> {
     #[inline]
     pub fn update(&mut self, parser: &Parser<'r, 't>) {
         // Flags
-        self.accepts_partial = parser.accepts_partial;
         self.in_footnote = parser.in_footnote;
         self.has_footnote_block = parser.has_footnote_block;
         self.start_of_line = parser.start_of_line;
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 5b8675a..b1b16b0 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::{ElementCondition, ElementConditionType};
+use crate::parsing::{ElementCondition, ElementConditionType, ParserWrap};
 
 pub const BLOCK_IFCATEGORY: BlockRule = BlockRule {
     name: "block-ifcategory",
@@ -43,6 +43,10 @@ fn parse_fn<'r, 't>(
     assert!(!flag_score, "IfCategory doesn't allow score flag");
     assert_block_name(&BLOCK_IFCATEGORY, name);
 
+    // The body belongs to the parent, so what it accepts is accepted here
+    let flag = parser.outer_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, flag);
+
     // Parse out tag conditions
     let conditions =
         parser.get_head_value(&BLOCK_IFCATEGORY, in_head, |parser, spec| match spec {
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 82c75c2..c0a9532 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::ElementCondition;
+use crate::parsing::{ElementCondition, ParserWrap};
 
 pub const BLOCK_IFTAGS: BlockRule = BlockRule {
     name: "block-iftags",
@@ -43,6 +43,10 @@ fn parse_fn<'r, 't>(
     assert!(!flag_score, "IfTags doesn't allow score flag");
     assert_block_name(&BLOCK_IFTAGS, name);
 
+    // The body belongs to the parent, so what it accepts is accepted here
+    let flag = parser.outer_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, flag);
+
     // Parse out tag conditions
     let conditions =
         parser.get_head_value(&BLOCK_IFTAGS, in_head, |parser, spec| match spec {
diff --git a/src/parsing/rule/impls/block/blocks/table.rs b/src/parsing/rule/impls/block/blocks/table.rs
index b1b547e..0b36dc9 100644
--- a/src/parsing/rule/impls/block/blocks/table.rs
+++ b/src/parsing/rule/impls/block/blocks/table.rs
@@ -232,8 +232,6 @@ fn parse_cell_header<'r, 't>(
     flag_score: bool,
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);
-
     // Get block contents.
     let ParsedBlock {
         elements,
-- 
2.43.0


From 66867974a1094e3b111131d7b38e8f05d48e1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 18/26] fix: show an error for LaTeX which the converter panics
 on

---
 src/render/html/element/math.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/render/html/element/math.rs b/src/render/html/element/math.rs
index 1fafb0b..96600de 100644
--- a/src/render/html/element/math.rs
+++ b/src/render/html/element/math.rs
@@ -25,6 +25,7 @@ use std::num::NonZeroUsize;
 cfg_if! {
     if #[cfg(feature = "mathml")] {
         use latex2mathml::{latex_to_mathml, DisplayStyle};
+        use std::panic;
     } else {
         /// Mocked version of the enum from `latex2mathml`.
         #[derive(Debug, Copy, Clone, PartialEq, Eq)]
@@ -112,7 +113,13 @@ fn render_latex(
             // Add generated MathML
             cfg_if! {
                 if #[cfg(feature = "mathml")] {
-                    match latex_to_mathml(latex_source, display) {
+                    // The converter panics on some of the LaTeX it doesn't implement
+                    let result = panic::catch_unwind(|| {
+                        latex_to_mathml(latex_source, display).map_err(|error| str!(error))
+                    })
+                    .unwrap_or_else(|_| Err(str!("Unsupported LaTeX")));
+
+                    match result {
                         Ok(mathml) => {
                             debug!("Processed LaTeX -> MathML");
 
@@ -124,8 +131,6 @@ fn render_latex(
                         }
                         Err(error) => {
                             warn!("Error processing LaTeX -> MathML: {error}");
-                            let error = str!(error);
-
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => _error_type))
-- 
2.43.0


From e3311403564d681a4ea9ffdd9584574e20bfe5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 19/26] fix: do not take block names with two trailing
 underscores as blocks

Both were ignored, which ended in a failed assertion on the name.
---
 src/parsing/rule/impls/block/rule.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsing/rule/impls/block/rule.rs b/src/parsing/rule/impls/block/rule.rs
index 8f8ed3c..69426dc 100644
--- a/src/parsing/rule/impls/block/rule.rs
+++ b/src/parsing/rule/impls/block/rule.rs
@@ -112,9 +112,12 @@ where
     };
 
     // Get the block rule for this name
+    //
+    // The lookup permits a trailing underscore,
+    // but we've already removed the only one allowed.
     let block = match get_block_rule_with_name(name) {
-        Some(block) => block,
-        None => return Err(parser.make_err(ParseErrorKind::NoSuchBlock)),
+        Some(block) if !name.ends_with('_') => block,
+        _ => return Err(parser.make_err(ParseErrorKind::NoSuchBlock)),
     };
 
     // Set block rule for better errors
-- 
2.43.0


From 4b5cc919381b570882ba9c7979c71a8055a4c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 20/26] fix: do not take tokens which merely contain a key as
 an attribute's key

The expression was not anchored, so quoted text became part of the key and was
put into the HTML unescaped behind 'data-' or 'aria-'.
---
 src/parsing/rule/impls/block/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/block/parser.rs b/src/parsing/rule/impls/block/parser.rs
index d9257f1..e1610f3 100644
--- a/src/parsing/rule/impls/block/parser.rs
+++ b/src/parsing/rule/impls/block/parser.rs
@@ -31,7 +31,8 @@ use crate::tree::Element;
 use once_cell::sync::Lazy;
 use regex::Regex;
 
-static ARGUMENT_KEY: Lazy<Regex> = Lazy::new(|| Regex::new(r"[A-Za-z0-9_\-]+").unwrap());
+static ARGUMENT_KEY: Lazy<Regex> =
+    Lazy::new(|| Regex::new(r"^[A-Za-z0-9_\-]+$").unwrap());
 
 impl<'r, 't> Parser<'r, 't>
 where
-- 
2.43.0


From 94c5aee12f6b014338f4fc5cb6562e377ea3e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 21/26] fix: keep anchors on the same page out of the backlinks

---
 src/render/html/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 4b1ba98..ceb80a1 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -298,6 +298,11 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
                     return;
                 }
 
+                // Anchors are within this same page.
+                if link.starts_with('#') {
+                    return;
+                }
+
                 // Also support [ links pointing to local pages.
                 // e.g. [/scp-001 SCP-001] in addition to [[[SCP-001]]].
                 if link.starts_with('/') {
-- 
2.43.0


From 5d98961913fc201fecf6cf373618e5036e67b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 22/26] fix: do not skip over text after the colon in a
 definition list

---
 src/parsing/rule/impls/definition_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index a95dcf9..f7a8443 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -137,8 +137,11 @@ fn parse_item<'r, 't>(
     .chain(&mut errors, &mut _paragraph_safe);
     let end_token = parser.current();
 
+    // Step past the colon, and the whitespace after it, if any.
+    // Anything else belongs to the value, and is not to be skipped over.
     strip_whitespace(&mut key_elements);
-    parser.step_n(2)?;
+    parser.step()?;
+    parser.get_optional_space()?;
 
     // Gather key wikitext
     let key_string = parser
-- 
2.43.0


From fec7baaa584962805e80e01e6a72e3042b874532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 23/26] fix: put headings within headings in order in the table
 of contents

---
 src/parsing/parser.rs            | 14 +++++++++++---
 src/parsing/rule/impls/header.rs |  6 +++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index ffe4aa0..c8f2b29 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -231,9 +231,15 @@ impl<'r, 't> Parser<'r, 't> {
         }
     }
 
-    /// Add heading element to table of contents.
-    pub fn push_table_of_contents_entry(
+    /// How many entries the table of contents has so far.
+    pub fn table_of_contents_len(&self) -> usize {
+        self.table_of_contents.borrow().len()
+    }
+
+    /// Add heading element to table of contents, at the given position.
+    pub fn insert_table_of_contents_entry(
         &mut self,
+        index: usize,
         heading: HeadingLevel,
         name_elements: &[Element],
     ) {
@@ -244,7 +250,9 @@ impl<'r, 't> Parser<'r, 't> {
         let name =
             TextRender.render_partial(name_elements, self.page_info, self.settings, 0);
 
-        self.table_of_contents.borrow_mut().push((level, name));
+        self.table_of_contents
+            .borrow_mut()
+            .insert(index, (level, name));
     }
 
     #[cold]
diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index ef694f5..6eb7a32 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -88,6 +88,10 @@ fn parse_heading<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
+    // Any headings within this one come after it in the table of contents,
+    // so note down where its own entry belongs.
+    let toc_index = parser.table_of_contents_len();
+
     let (elements, all_errors, _) = collect_container(
         parser,
         RULE_HEADER,
@@ -112,7 +116,7 @@ fn parse_heading<'r, 't>(
         };
 
         // Create table of contents entry with the given level and name.
-        parser.push_table_of_contents_entry(heading.level, elements);
+        parser.insert_table_of_contents_entry(toc_index, heading.level, elements);
     }
 
     ok!(false; elements, all_errors)
-- 
2.43.0


From b215eee877495ca15b049ad07c5f9fbf72691b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 24/26] fix: ask once whether a page exists, however its site
 is written

A page on the current site can be linked to with or without the name of
the site. These were looked up separately, so that links to one page could
disagree on whether it exists.
---
 src/render/html/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index ceb80a1..3ef1101 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -321,14 +321,16 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
     }
 
     pub fn page_exists(&mut self, page_ref: &PageRef) -> bool {
+        // A page on this site can be referred to with or without its site name
         let (site, page) = page_ref.fields_or(&self.info.site);
+        let full_ref = PageRef::page_and_site(site, page);
 
         // Get from cache, or fetch and add
-        match self.pages_exists.get(page_ref) {
+        match self.pages_exists.get(&full_ref) {
             Some(exists) => *exists,
             None => {
                 let exists = self.handle.get_page_exists(site, page);
-                self.pages_exists.insert(page_ref.to_owned(), exists);
+                self.pages_exists.insert(full_ref.to_owned(), exists);
                 exists
             }
         }
-- 
2.43.0


From c5536c9d0da949e6eaa1df8b827ac0f87da30163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 25/26] fix: give a heading in a bibliography entry its id once

The preview on a citation repeated the id of the entry itself, so that the
table of contents led to the hidden preview.
---
 src/render/html/element/container.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/html/element/container.rs b/src/render/html/element/container.rs
index 8a688c7..a5a3d67 100644
--- a/src/render/html/element/container.rs
+++ b/src/render/html/element/container.rs
@@ -46,6 +46,10 @@ pub fn render_container_internal(ctx: &mut HtmlContext, container: &Container) {
     // Get correct ID, based on the render setting
     let random_id = choose_id(ctx, &tag_spec);
 
+    // The ID belongs to the container where the bibliography entry itself
+    // is displayed, not to its copy in each preview of it.
+    let has_id = !ctx.in_bibliography_preview();
+
     // Build the tag
     let mut tag = ctx.html().tag(tag_spec.tag());
 
@@ -60,7 +64,7 @@ pub fn render_container_internal(ctx: &mut HtmlContext, container: &Container) {
             "id" => match random_id {
                 Some(ref id) => id,
                 None => &id,
-            };;
+            }; if has_id;;
             container.attributes(),
         )),
     };
-- 
2.43.0


From 7df0488517a86cdf8b2d450cb31b6044cf685ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 26/26] fix: do not try a pattern which never matches at each
 character

The email pattern of the lexer can never match, since repetition in pest is
possessive, but it was tried at each character of text such as Chinese or
Japanese, and read up to the next whitespace each time. Tokenizing was
quadratic in the length of text without spaces.
---
 src/parsing/lexer.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsing/lexer.pest b/src/parsing/lexer.pest
index e7729fd..b361955 100644
--- a/src/parsing/lexer.pest
+++ b/src/parsing/lexer.pest
@@ -44,7 +44,6 @@ token = _{
     // Text-like
     url |
     identifier |
-    email |
     variable |
     string |
 
@@ -120,6 +119,10 @@ token = _{
 
 identifier = @{ (ASCII_ALPHANUMERIC | ASCII_DIGIT)+ }
 
+// Not one of the tokens above: since repetition is possessive, the first part
+// also takes the "@", so this never matches. Trying it at each character which
+// starts no other token read up to the next whitespace each time, so the time
+// taken was quadratic in the length of text without spaces.
 email = @{
     (!(" " | "\t" | NEWLINE) ~ ANY)+ ~
     "@" ~
-- 
2.43.0

