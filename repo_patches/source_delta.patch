From 2ee4f44420ea6afa45d0545075942061a178bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:00 +0000
Subject: [PATCH 01/31] fix: leave ignore mode when a conditional block ends

endif popped the conditional without recomputing whether lines are ignored, so
everything after a block whose branch was not taken was dropped.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From 0e988bd9148499af3a43a738ebb3e23b38418e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 02/31] fix: record the rule still open at the end of a
 makefile

A rule only reached the database when a later line closed it, so the last rule
of every file (or eval'd text) was lost.
---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..04d4d7c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -588,6 +588,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input also ends whatever rule is still open
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..8bb4e7b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -287,7 +287,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From baa7580ead7ab132165bb0b33ee1d71f32b86fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 03/31] fix: drop recipe lines inside conditional branches not
 taken

Recipe lines were recognised before the conditional state was looked at, so
the recipes of both branches ended up in the open rule.
---
 src/parsers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8bb4e7b..80c9194 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -165,7 +165,9 @@ impl ParserState {
             run_parser!(recipe_line(i, engine.command_char), |line| {
                 // Push the line. This is safe since we only run this parser if
                 // we're currently processing a rule
-                self.push_command_line(line);
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From c9e720781d325906cf05f38d59a434e2e6ca7761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 04/31] fix: recognise ${name} variable references

The braced form was looked for by its closing brace, so it was read as a
reference to a variable called '{' followed by text.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From b0ae8c4082e00b572dfcc397a647ac60cd1b7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:07 +0000
Subject: [PATCH 05/31] fix: keep the text following a function call

Parsing continued after the function's own arguments rather than after its
closing paren, so everything behind a $(func ...) was dropped.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..4970988 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,7 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        Ok((_, v)) => Ok((i, v)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From dc27d28bae104ca293fb22f3f850d2ddc71ded2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:28 +0000
Subject: [PATCH 06/31] fix: keep the sensitivity of immediately expanded
 values

Referencing a := variable copied its text but not the set of variables that
text was computed from.
---
 src/ast/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..cc209f7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -119,7 +119,10 @@ impl AstNode {
                 }
                 contents
             }
-            AstChildren::PreEvaluated(ref block) => block.content().map(|x| x.clone()).collect(),
+            AstChildren::PreEvaluated(ref block) => {
+                merge_sensitivity!(block.raw_sensitivity());
+                block.content().map(|x| x.clone()).collect()
+            }
             AstChildren::VariableReference(name) => {
                 // Compute the variable name, and then try to evaluate it
                 let name = eval_subexpr!(name);
-- 
2.43.0


From 299c019845bd6c9c445cbe65d9ef0c7514dec58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:29 +0000
Subject: [PATCH 07/31] fix: keep the sensitivity of text when splitting it
 into lines

Logical lines were built with an empty sensitivity set, so nothing evaluated
through $(eval) was sensitive to the variables its text came from.
---
 src/parsers/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 80c9194..ce644a2 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -546,7 +546,7 @@ pub(crate) fn makefile_line(
     if backslash_count & 1 == 0 {
         // There is an even number of backslashes, so don't escape them
         lines.push(first_line.0.to_content_reference());
-        return Ok((i, Block::new(Default::default(), lines)));
+        return Ok((i, Block::new(i.parent().raw_sensitivity(), lines)));
     }
     // Otherwise, we need to clean up the line
     clean_line_end(&mut first_line.0, backslash_count, whitespace_handling);
@@ -575,11 +575,11 @@ pub(crate) fn makefile_line(
             Ok(x) => x,
             Err(NErr::Incomplete(_)) => {
                 debug!("Incomplete parse while trying to grab a full line");
-                return Ok((i, Block::new(Default::default(), lines)));
+                return Ok((i, Block::new(i.parent().raw_sensitivity(), lines)));
             }
             Err(NErr::Error(_)) => {
                 debug!("Was not able to find more line while pulling makefile line");
-                return Ok((i, Block::new(Default::default(), lines)));
+                return Ok((i, Block::new(i.parent().raw_sensitivity(), lines)));
             }
             Err(NErr::Failure(e)) => {
                 // propegate failures
@@ -604,7 +604,7 @@ pub(crate) fn makefile_line(
         }
     }
 
-    Ok((i, Block::new(Default::default(), lines)))
+    Ok((i, Block::new(i.parent().raw_sensitivity(), lines)))
 }
 
 /// Create a new Nom `IResult` recoverable error with our custom error kind
-- 
2.43.0


From 6d9fff2d77ba63527816b8b54cb8c2d039286e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 08/31] fix: do not let ?= replace a variable that is already
 defined

---
 src/parsers/variable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..2752ad6 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -96,6 +96,13 @@ impl crate::parsers::ParserState {
         }
 
         match action.action {
+            Action::Define(ref parameters)
+                if parameters.flavor == Flavor::Conditional
+                    && !action.modifiers.define
+                    && engine.database.get_variable(action.name).is_some() =>
+            {
+                // Conditional assignments never replace an existing value
+            }
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
-- 
2.43.0


From a27932ea5bc3e23dfe5119791666b5226c15bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:33 +0000
Subject: [PATCH 09/31] fix: report makefile parse errors instead of panicking

Any line the parser rejected took the whole process down through
unimplemented!() although the API returns a Result with a parse error.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04d4d7c..b2e20ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -580,9 +580,17 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
-                Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
+                Err(NErr::Failure(c)) | Err(NErr::Error(c)) => {
+                    return Err(MakefileError::ParseError(match c.into_error_kind() {
+                        nom::ErrorKind::Custom(kind) => kind,
+                        other => ParseErrorKind::NomError(nom::error_to_u32(&other)),
+                    }));
+                }
+                Err(NErr::Incomplete(_)) => {
+                    return Err(MakefileError::ParseError(ParseErrorKind::InternalFailure(
+                        "incomplete line",
+                    )));
+                }
             };
 
             i = new_i;
-- 
2.43.0


From 49138b95ba585dd35b8ce3b3464a7eebaad75006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 10/31] fix: do not evaluate conditionals nested in a branch
 not taken

Their arguments were expanded, running any $(eval) in text that must have no
effect.
---
 src/parsers/conditional/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..2a325f4 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,16 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfEq(_, _) | Conditional::IfNEq(_, _) if self.ignoring => {
+                // Nothing inside this conditional can be executed, so only
+                // track the nesting. Evaluating it could have side effects.
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
-- 
2.43.0


From 8ada15c6a0a698ecefefbb4e4cc4c2bc9f520129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:01 +0000
Subject: [PATCH 11/31] fix: accept := with an empty value

The location of the (empty) value was unwrapped, so 'X :=' panicked.
---
 src/parsers/variable/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 2752ad6..ac0fe42 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -348,10 +348,7 @@ fn parse_variable_assignment<'a>(
     if assignment_type == AssignmentType::Simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
-        let location = value_segment
-            .location()
-            .expect("value segment should have nonzero length");
-        value_ast = ast::preevaluated(location.into(), contents);
+        value_ast = ast::preevaluated(value_ast.location(), contents);
     }
 
     // TODO: the origin reported here is not necessarily correct. We need to
-- 
2.43.0


From 5a3f2842f48a8574bcdd049b047983430e42bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 12/31] fix: expand text appended to a := variable immediately

+= on a simply expanded variable kept the new text unexpanded, so its value
changed whenever a variable mentioned there changed later.
---
 src/parsers/variable/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index ac0fe42..57a8714 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -345,7 +345,14 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // Appending to a simple variable expands the new text immediately, too
+    let appends_to_simple = assignment_type == AssignmentType::Append
+        && match context.database.get_variable(variable_name) {
+            Some(existing) => existing.value.flavor == Flavor::Simple,
+            None => false,
+        };
+
+    if assignment_type == AssignmentType::Simple || appends_to_simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         value_ast = ast::preevaluated(value_ast.location(), contents);
-- 
2.43.0


From 012c540ee568dfa4ea2d2c4065ce6cf0cf0c77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 13/31] fix: require whitespace between a function name and its
 arguments

The separator was allowed to be empty, so $(wordlist) or $(evaluate) were
taken for calls of word and eval.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 4970988..c9f2c85 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -161,7 +161,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 5e4d708d6fcfe98aeb1c1f1e01f21105ccf96ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:50 +0000
Subject: [PATCH 14/31] fix: skip segments that end exactly at the start of a
 slice

A segment wholly in front of the requested range was sliced at its own end,
which panics.
---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..b4ab93a 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -285,7 +285,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..f1fded7 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -184,7 +184,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From 515411685746e7496cd9f0cb29b8b3462eac3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:32 +0000
Subject: [PATCH 15/31] fix: count bytes, not characters, when iterating over
 sliced text

Offsets and lengths are in bytes but were applied as character counts, so
slices of text with non-ASCII characters skipped or repeated content.
---
 src/evaluated/block_span.rs        |  7 ++-----
 src/evaluated/content_reference.rs | 31 +++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index b4ab93a..6814b2e 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,8 +156,8 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
+            Some(x) => Box::new(BlockSpanCharIteratorInternal::ContentReference(
+                x.chars_from(parent.offset),
             )),
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
@@ -183,7 +182,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,7 +190,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index f1fded7..7f23c5b 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,24 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        self.chars_from(0)
+    }
+
+    /// Iterate over the characters in this content reference, leaving out the
+    /// first `skip` bytes
+    pub(super) fn chars_from(&self, skip: usize) -> ContentReferenceIter {
+        let mut chars = self.node.chars();
+        let mut to_skip = self.offset + skip;
+        while to_skip > 0 {
+            match chars.next() {
+                Some(c) => to_skip -= c.len_utf8(),
+                None => break,
+            }
+        }
+        ContentReferenceIter {
+            chars,
+            remaining_bytes: self.length.saturating_sub(skip),
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +154,21 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    chars: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let tr = self.chars.next()?;
+        self.remaining_bytes -= tr.len_utf8();
+        Some(tr)
     }
 }
 
-- 
2.43.0


From ebcedf785c4aaf957736d9bf08bb039054e9ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 16/31] fix: report byte positions when searching text

Substring search and the position helpers mixed character counts with byte
offsets: searching text with multi-byte characters indexed out of bounds or
pointed into the middle of a character.
---
 src/evaluated/nom/mod.rs | 67 +++++++++++++---------------------------
 1 file changed, 21 insertions(+), 46 deletions(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..3973eeb 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,16 +32,19 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|&(_, c)| predicate(c))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
-        } else {
-            None
+        let mut index = 0;
+        let mut chars = self.iter_elements();
+        for _ in 0..count {
+            index += chars.next()?.len_utf8();
         }
+        Some(index)
     }
 }
 
@@ -194,52 +197,24 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
             return None;
         }
 
-        let substr_bytes = substr.as_bytes();
-        let mut buffer = Vec::with_capacity(substr.len());
-        let mut char_buffer = [0, 0, 0, 0];
-        buffer.resize_with(substr.len(), || 0);
-
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
+        if substr.is_empty() {
             return Some(0);
         }
 
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
+        // The most recent bytes of our content, at most as many as we search for
+        let substr_bytes = substr.as_bytes();
+        let mut window = std::collections::VecDeque::with_capacity(substr.len());
+        let mut char_buffer = [0, 0, 0, 0];
+
+        for (i, c) in self.iter_indices() {
+            for byte in c.encode_utf8(&mut char_buffer).bytes() {
+                if window.len() == substr.len() {
+                    window.pop_front();
                 }
+                window.push_back(byte);
             }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
+            if window == substr_bytes {
+                return Some(i + c.len_utf8() - substr.len());
             }
         }
 
-- 
2.43.0


From 98fec280aea64efc7fae3a9b1e25f1fa1b001ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:49 +0000
Subject: [PATCH 17/31] fix: do not cut non-ASCII makefile text inside a
 character

Several line splitting helpers assumed every character is one byte long.
---
 src/parsers/mod.rs         | 14 ++++++++------
 src/parsers/targets/mod.rs | 20 +++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index ce644a2..37b2242 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -391,6 +391,7 @@ where
     let mut last_nonslash_idx = -1;
     let mut next_push_start = 0;
     let mut stopchar_index = i.len() + 1;
+    let mut stopchar_len = 1;
     let mut stopchar_seen = false;
     for (idx, ch) in i.iter_indices() {
         if stop(ch) {
@@ -398,7 +399,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -421,11 +422,12 @@ where
                 // found the stopchar, and then break out
                 Arc::make_mut(&mut tr).push_all_contents(i.slice(next_push_start..end_idx));
                 stopchar_index = idx;
+                stopchar_len = ch.len_utf8();
                 break;
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
@@ -451,7 +453,7 @@ where
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        (tr, Some((stop_character, i.slice(stopchar_index + stopchar_len..))))
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
@@ -517,15 +519,15 @@ pub(crate) fn makefile_line(
                         s.slice(0..0)
                     } else {
                         // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
+                        let mut content_end = 1;
                         for (i, c) in s.char_indices() {
                             if c == ' ' || c == '\t' || c == '\\' {
                                 continue;
                             }
-                            last_non_whitespace = i;
+                            content_end = i + c.len_utf8();
                         }
 
-                        s.slice(..last_non_whitespace + 1)
+                        s.slice(..content_end)
                     }
                 }
             }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..34d93e2 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
@@ -555,7 +555,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -597,13 +597,11 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         };
                     }
                 } else {
-                    // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
+                    // There were at least 2 prior bytes, grab the last characters
+                    let (ch1, ch2) = pre
+                        .span()
+                        .iter_elements()
+                        .fold(('\0', '\0'), |(_, last), ch| (last, ch));
                     // Check condition 1 and 2
                     if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
                         // Condition 1 or 2 failed, not a drive spec
-- 
2.43.0


From 116f91a1c773806f7d1a989bfa1f9c454340f1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:49 +0000
Subject: [PATCH 18/31] fix: end a line at its own line break

The search for a comment ran past the end of the line, so a '#' anywhere later
in the file glued all the lines in front of it together. Windows line endings
also left a carriage return behind.
---
 src/parsers/mod.rs          | 33 +++++++++++++++++++--------------
 src/parsers/variable/mod.rs | 11 ++++++++---
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 37b2242..9be200d 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -322,20 +322,25 @@ where
         + nom::InputLength
         + nom::FindSubstring<&'static str>,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    // Whichever comes first ends the line
+    let (rest, line) = match input.iter_indices().find(|&(_, c)| c == '#' || c == '\n') {
+        Some((idx, _)) => input.take_split(idx),
+        None => {
+            let (rest, line) = input.take_split(input.input_len());
+            return Ok((rest, (line, LineEndReason::EOF)));
+        }
+    };
+
+    if rest.iter_elements().next() == Some('#') {
+        return Ok((rest, (line, LineEndReason::Comment)));
+    }
+
+    // The carriage return of a Windows line ending is not part of the line
+    let line = match line.iter_indices().last() {
+        Some((idx, '\r')) => line.slice(..idx),
+        _ => line,
+    };
+    Ok((rest.slice(1..), (line, LineEndReason::LineBreak)))
 }
 
 named!(
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 57a8714..2c863ad 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -393,16 +393,21 @@ pub(crate) fn parse_define_line<'a>(
     // round-trip it through the processing function above
     // This also uses a specialized version of makefile_grab_line, since we
     // actually need the line endings to stay intact.
+    use nom::{FindSubstring, InputTake};
+    let line_start = i;
     let (next_lines, i) = fix_error!(
         i,
         ParseErrorKind,
         alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
+            recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX and Windows line endings
                 nom::rest // EOF
         )
     )?;
+    // A comment ends the line early
+    let (next_lines, i) = match i.find_substring("#") {
+        Some(idx) => line_start.take_split(idx),
+        None => (next_lines, i),
+    };
 
     debug!("Parsing define line {:?}", i.into_string());
     let location = i.location().expect("There should be content on the line");
-- 
2.43.0


From 7d677e48cdca4c9e0d96f62ec0f75e4ee88630d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:09 +0000
Subject: [PATCH 19/31] fix: match keywords as whole words only

A target such as elsewhere, includes or undefined was taken for the directive
its name starts with.
---
 src/parsers/conditional/mod.rs | 26 +++++++++++++++-----------
 src/parsers/directives/mod.rs  | 17 +++++++++--------
 src/parsers/mod.rs             | 11 +++++++++++
 src/parsers/variable/mod.rs    | 14 +++++++-------
 4 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 2a325f4..8d10415 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -2,7 +2,7 @@
 
 // #SPC-P-Conditional
 
-use super::makefile_whitespace;
+use super::{keyword_end, makefile_whitespace};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
@@ -141,22 +141,26 @@ fn parse_line_internal<'a>(
         Else,
         EndIf,
     }
+    /// The arguments of an ifeq may start without any whitespace
+    fn ifeq_keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+        match i.chars().next() {
+            Some('(') | Some('"') | Some('\'') => Ok((i, ())),
+            _ => keyword_end(i),
+        }
+    }
     let (input, tag) = preceded!(
         input,
         makefile_whitespace,
         add_return_error!(
             ErrorKind::Custom(ParseErrorKind::ConditionalExpected),
             terminated!(
-                fix_error!(
-                    ParseErrorKind,
-                    alt_complete!(
-                        tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
-                        tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
-                        tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
-                        tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
-                        tag_no_case!("else") => { |_| ConditionalType::Else } |
-                        tag_no_case!("endif") => { |_| ConditionalType::EndIf }
-                    )
+                alt!(
+                    terminated!(pe_complete!(pe_fix!(tag_no_case!("ifdef"))), keyword_end) => { |_| ConditionalType::IfDef } |
+                    terminated!(pe_complete!(pe_fix!(tag_no_case!("ifndef"))), keyword_end) => { |_| ConditionalType::IfNDef } |
+                    terminated!(pe_complete!(pe_fix!(tag_no_case!("ifeq"))), ifeq_keyword_end) => { |_| ConditionalType::IfEq } |
+                    terminated!(pe_complete!(pe_fix!(tag_no_case!("ifneq"))), ifeq_keyword_end) => { |_| ConditionalType::IfNEq } |
+                    terminated!(pe_complete!(pe_fix!(tag_no_case!("else"))), keyword_end) => { |_| ConditionalType::Else } |
+                    terminated!(pe_complete!(pe_fix!(tag_no_case!("endif"))), keyword_end) => { |_| ConditionalType::EndIf }
                 ),
                 makefile_whitespace
             )
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..0e4e7c7 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::keyword_end;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -97,14 +98,14 @@ pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action,
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(terminated!(pe_fix!(tag_no_case!("export")), keyword_end), parse_ast) => { Action::Export }     |
+            preceded!(terminated!(pe_fix!(tag_no_case!("unexport")), keyword_end), parse_ast) => { Action::Unexport } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("vpath")), keyword_end), parse_ast) => { Action::VPath }       |
+            preceded!(terminated!(pe_fix!(tag_no_case!("include")), keyword_end), parse_ast) => { Action::Include }   |
+            preceded!(terminated!(pe_fix!(tag_no_case!("sinclude")), keyword_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("-include")), keyword_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("load")), keyword_end), parse_ast) => { Action::Load }         |
+            preceded!(terminated!(pe_fix!(tag_no_case!("-load")), keyword_end), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 9be200d..99f61c9 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -356,6 +356,17 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
     fix_error!(input, ParseErrorKind, take_till!(|c| c != ' ' && c != '\t'))
 }
 
+/// Matches the end of a keyword, without consuming anything. Keywords are whole
+/// words, so they must be followed by whitespace or nothing at all.
+pub(crate) fn keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => {
+            error_out(i, ParseErrorKind::InternalFailure("not a keyword"))
+        }
+        _ => Ok((i, ())),
+    }
+}
+
 /// Capture the next token in the input
 #[inline]
 pub fn makefile_token<T>(input: T) -> IResult<T, T, ParseErrorKind>
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 2c863ad..c6e0686 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{error_out, keyword_end, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -208,7 +208,7 @@ pub(crate) fn parse_line<'a>(
                 pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
                 pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
             ),
-            makefile_whitespace
+            preceded!(keyword_end, makefile_whitespace)
         ) {
             Ok(b) => b,
             Err(_) => {
@@ -417,11 +417,11 @@ pub(crate) fn parse_define_line<'a>(
         i,
         preceded!(
             makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+            alt!(
+                terminated!(pe_fix!(tag!("define")), keyword_end) => { |_|  DefineLineAction::IncreaseNesting} |
+                terminated!(pe_fix!(tag!("endef")), keyword_end) => { |_|  DefineLineAction::DecreaseNesting}  |
+                pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
+            )
         )
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-- 
2.43.0


From 771641181b99f797e76edb7d4b5f52782e69e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:06 +0000
Subject: [PATCH 20/31] fix: reject lines that are neither rule, assignment nor
 directive

The end of the line was never recognised, so such lines were silently ignored
instead of reporting a missing separator.
---
 src/parsers/targets/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 34d93e2..a4ba459 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -235,6 +235,13 @@ pub(crate) fn parse_line<'a>(
             }
         }
 
+        // Push synthetic spaces between spaces
+        debug!("Adding {:?} to expanded content", new_content.into_string());
+        if pre_colon_buffer.len() > 0 {
+            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
+        }
+        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
         let mword = next_mword(line_next).map_err(|e| lift_collapsed_span_error(e, line_start))?;
         line_next = mword.0;
         mw = (mword.1).0;
@@ -243,13 +250,6 @@ pub(crate) fn parse_line<'a>(
         if mwt == MWordEnd::EOL {
             break;
         }
-
-        // Push synthetic spaces between spaces
-        debug!("Adding {:?} to expanded content", new_content.into_string());
-        if pre_colon_buffer.len() > 0 {
-            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
-        }
-        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -418,6 +418,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From 794cc4853bd71943f5b1fa830bbd5231e2ea611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:32 +0000
Subject: [PATCH 21/31] fix: keep the line end and comment of a define body
 line

Everything from a '#' on was cut from the line, line end included, which
joined the line with the one after the comment.
---
 src/parsers/variable/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index c6e0686..d6138d6 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -393,8 +393,7 @@ pub(crate) fn parse_define_line<'a>(
     // round-trip it through the processing function above
     // This also uses a specialized version of makefile_grab_line, since we
     // actually need the line endings to stay intact.
-    use nom::{FindSubstring, InputTake};
-    let line_start = i;
+    use nom::{FindSubstring, Slice};
     let (next_lines, i) = fix_error!(
         i,
         ParseErrorKind,
@@ -403,16 +402,17 @@ pub(crate) fn parse_define_line<'a>(
                 nom::rest // EOF
         )
     )?;
-    // A comment ends the line early
-    let (next_lines, i) = match i.find_substring("#") {
-        Some(idx) => line_start.take_split(idx),
-        None => (next_lines, i),
-    };
 
     debug!("Parsing define line {:?}", i.into_string());
     let location = i.location().expect("There should be content on the line");
     let (_, ast) = parse_ast(i)?;
 
+    // A comment is part of the body, but not of a directive
+    let i = match i.find_substring("#") {
+        Some(idx) => i.slice(..idx),
+        None => i,
+    };
+
     let (i, action) = pe_fix!(
         i,
         preceded!(
-- 
2.43.0


From 483620ba34c41b6fa9605dda7190d8db8a8a18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:45 +0000
Subject: [PATCH 22/31] fix: keep reading a rule line after a word that expands
 to nothing

---
 src/parsers/targets/mod.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index a4ba459..8a50dae 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
-- 
2.43.0


From 0472e0447b2fe780f190c4c39dbd679fdd6b8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 23/31] fix: recognise a drive specification after other
 targets

---
 src/parsers/targets/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 8a50dae..87cd403 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -597,7 +597,7 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                     }
                 } else {
                     // There were at least 2 prior bytes, grab the last characters
-                    let (ch1, ch2) = pre
+                    let (ch2, ch1) = pre
                         .span()
                         .iter_elements()
                         .fold(('\0', '\0'), |(_, last), ch| (last, ch));
-- 
2.43.0


From 3c0983f643f3af62a8990b3731391f55430f14a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:44 +0000
Subject: [PATCH 24/31] fix: an assignment operator in a rule's command is not
 a target variable

---
 src/parsers/targets/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 87cd403..229818a 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -299,18 +299,25 @@ pub(crate) fn parse_line<'a>(
         }
     };
 
-    // Try to match against a variable assignment operation
-    match parse_variable_line(post_targets_slice, names, engine) {
-        Ok((_, action)) => {
-            return Ok((
-                rest,
-                Action::TargetVariable {
-                    targets,
-                    variable_action: action,
-                },
-            ));
+    // Try to match against a variable assignment operation. An operator after
+    // the semicolon is part of the command.
+    if post_targets_slice
+        .slice(..pre_semi_len)
+        .iter_elements()
+        .any(|c| c == '=')
+    {
+        match parse_variable_line(post_targets_slice, names, engine) {
+            Ok((_, action)) => {
+                return Ok((
+                    rest,
+                    Action::TargetVariable {
+                        targets,
+                        variable_action: action,
+                    },
+                ));
+            }
+            Err(_) => {}
         }
-        Err(_) => {}
     }
 
     // Expand the pre-semicolon slice
-- 
2.43.0


From 26c3587414b80a21225831948487488f114f7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:37 +0000
Subject: [PATCH 25/31] fix: a continued recipe line needs no command character

---
 src/parsers/recipe_line.rs | 46 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/parsers/recipe_line.rs b/src/parsers/recipe_line.rs
index 3c2c94a..4b362aa 100644
--- a/src/parsers/recipe_line.rs
+++ b/src/parsers/recipe_line.rs
@@ -13,21 +13,14 @@ pub(super) fn recipe_line<'a>(
     i: BlockSpan<'a>,
     command_char: char,
 ) -> IResult<BlockSpan<'a>, AstNode, ParseErrorKind> {
-    macro_rules! grab_command_line(
-        ($i:expr ) => { grab_command_line!($i , ) };
-        ($i:expr, ) => {
-            preceded!(
-                $i,
-                fix_error!(ParseErrorKind, char!(command_char)),
-                makefile_grab_line
-        )};
-    );
-
     // Grab the first command line
     let (mut i, (line, end_reason)) = add_return_error!(
         i,
         ErrorKind::Custom(ParseErrorKind::RecipeExpected),
-        grab_command_line!()
+        preceded!(
+            fix_error!(ParseErrorKind, char!(command_char)),
+            makefile_grab_line
+        )
     )?;
 
     let line_start = line;
@@ -42,23 +35,20 @@ pub(super) fn recipe_line<'a>(
 
     while ends_with_backslash(line.span()) & 1 == 1 {
         Arc::make_mut(&mut line).push(ContentReference::newline()); // Add back the \n we striped
-        let next_line_result = grab_command_line!(i);
-        match next_line_result {
-            Ok((new_i, (next_line, end_reason))) => {
-                Arc::make_mut(&mut line).push(next_line.to_content_reference());
-                i = new_i;
-
-                // If the line has a comment, stop the line (and processing)
-                if end_reason == super::LineEndReason::Comment {
-                    let (_, ast) = parse_ast(line.span())
-                        .map_err(|e| lift_collapsed_span_error(e, line_start))?;
-                    return Ok((i, ast));
-                }
-            }
-            Err(_) => {
-                // If we couldn't grab a line, this must not be a command line
-                break;
-            }
+        // The command character is optional on a continued line, and not part of it
+        let (new_i, (next_line, end_reason)) = preceded!(
+            i,
+            fix_error!(ParseErrorKind, opt!(char!(command_char))),
+            makefile_grab_line
+        )?;
+        Arc::make_mut(&mut line).push(next_line.to_content_reference());
+        i = new_i;
+
+        // If the line has a comment, stop the line (and processing)
+        if end_reason == super::LineEndReason::Comment {
+            let (_, ast) =
+                parse_ast(line.span()).map_err(|e| lift_collapsed_span_error(e, line_start))?;
+            return Ok((i, ast));
         }
     }
 
-- 
2.43.0


From 10137e4941d8ed37793de8aea28f6fc811434f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 26/31] fix: substitution references match the end of the word,
 empty and whole words

---
 src/ast/text_functions.rs | 56 ++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..076cc60 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -23,16 +23,16 @@ pub(super) fn do_subref(
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     pre_replacement.span(),
-                    post_replacement,
+                    Some(post_replacement),
                 ),
-                // Only key had a %
+                // Only key had a %, so whole words are replaced
                 (replacement, None) => do_replacement(
                     variable_value.span(),
                     sensitivity,
                     &pre_key.into_string(),
                     &post_key.into_string(),
-                    BlockSpan::empty(),
                     replacement.span(),
+                    None,
                 ),
             }
         }
@@ -42,20 +42,22 @@ pub(super) fn do_subref(
             "",
             &key.into_string(),
             BlockSpan::empty(),
-            replacement.span(),
+            Some(replacement.span()),
         ),
     }
 }
 
-/// Internal function that can actually do replacement
+/// Internal function that can actually do replacement. If there is no
+/// `post_replacement`, the part of the word between the keys is replaced as well.
 fn do_replacement<'a>(
     mut tokens: BlockSpan,
     sensitivity: Set<VariableName>,
     pre_key: &str,
     post_key: &str,
     pre_replacement: BlockSpan,
-    post_replacement: BlockSpan,
+    post_replacement: Option<BlockSpan>,
 ) -> Arc<Block> {
+    use nom::Slice;
     let mut output = Block::new(sensitivity, Default::default());
     let total_key_length = pre_key.len() + post_key.len();
     let mut first = true;
@@ -72,42 +74,24 @@ fn do_replacement<'a>(
 
         debug!("processing token {:?}", token.into_string());
 
-        if token.len() < total_key_length {
-            // The token is too short to match the key, just push all its contents unmodified
-            debug!("Skipping because too short");
+        let text = token.into_string();
+        if text.is_empty()
+            || text.len() < total_key_length
+            || !text.starts_with(pre_key)
+            || !text.ends_with(post_key)
+        {
+            debug!("Skipping because the key does not match");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
+        let captured = token.slice(pre_key.len()..text.len() - post_key.len());
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
-            Ok(v) => v,
-            Err(_) => {
-                // A failure to match here indicates we couldn't find the key,
-                // so just push everything and move on
-                debug!("Skipping because capture failed");
-                Arc::make_mut(&mut output).push_all_contents(token);
-                continue;
-            }
-        };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
-            Arc::make_mut(&mut output).push_all_contents(token);
-            continue;
-        }
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
-        Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
+        if let Some(post_replacement) = post_replacement {
+            Arc::make_mut(&mut output).push_all_contents(captured);
+            Arc::make_mut(&mut output).push_all_contents(post_replacement);
+        }
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
     // the block before returning it
-- 
2.43.0


From 8383131b38066a739b51dd86b2a05c20819c20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:48 +0000
Subject: [PATCH 27/31] fix: offsets between spans count the part of the
 segment the second starts in

---
 src/evaluated/block_span.rs | 15 ---------------
 src/evaluated/nom/mod.rs    | 15 +++------------
 2 files changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 6814b2e..2f0fa73 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -26,21 +26,6 @@ impl<'a> BlockSpan<'a> {
         }
     }
 
-    /// Create an empty block with the provided parent.
-    /// This requires us to also pass an empty array for "contents", so `Offset`
-    /// works correctly.
-    pub(crate) fn empty_with_parent(
-        parent: &'a Block,
-        contents: &'a [ContentReference],
-    ) -> BlockSpan<'a> {
-        BlockSpan {
-            parent,
-            contents: contents,
-            offset: 0,
-            length: 0,
-        }
-    }
-
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
         if self.length == 0 {
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 3973eeb..4c8c102 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -98,10 +98,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 let snd = self.slice(..i);
                 Ok((fst, snd))
             }
-            None => Ok((
-                BlockSpan::empty_with_parent(self.parent, &self.contents[self.contents.len()..]),
-                *self,
-            )),
+            None => Ok((self.slice(self.length..), *self)),
         }
     }
 
@@ -116,13 +113,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 if self.length == 0 {
                     Err(Err::Error(Context::Code(*self, e)))
                 } else {
-                    Ok((
-                        BlockSpan::empty_with_parent(
-                            self.parent,
-                            &self.contents[self.contents.len()..],
-                        ),
-                        *self,
-                    ))
+                    Ok((self.slice(self.length..), *self))
                 }
             }
         }
@@ -240,7 +231,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From 4145bc5009ceed4e39b64e8b8cdfada92a2d6f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:17 +0000
Subject: [PATCH 28/31] fix: a span of a block that starts with empty content
 can be copied

Copying the start of such a span tripped the assertion that its offset
lies inside its first content.
---
 src/evaluated/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index abcfc5b..6fb1dd1 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -70,12 +70,16 @@ impl Block {
     /// Get this block as a parsable span
     pub fn span(&self) -> BlockSpan {
         let length = self.content.iter().map(|x| x.length).sum();
-        BlockSpan {
+        let mut tr = BlockSpan {
             parent: self,
             contents: &self.content,
             offset: 0,
             length: length,
-        }
+        };
+        // the content may start with something empty
+        tr.revalidate_offset();
+
+        tr
     }
 
     /// Get a list of things that this tree is sensitive too
-- 
2.43.0


From 7b1a569180e5b00c3c06374735f712ded08d51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:15 +0000
Subject: [PATCH 29/31] fix: iterating over an empty span at the end of sliced
 text does not underflow

The offset of an empty span may lie beyond its first content, whose node
may have more text than is skipped.
---
 src/evaluated/content_reference.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 7f23c5b..07aaac8 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -82,7 +82,7 @@ impl ContentReference {
         let mut to_skip = self.offset + skip;
         while to_skip > 0 {
             match chars.next() {
-                Some(c) => to_skip -= c.len_utf8(),
+                Some(c) => to_skip = to_skip.saturating_sub(c.len_utf8()),
                 None => break,
             }
         }
-- 
2.43.0


From 9a7459d30dd88c01a2332cea5ca73f3b587ed1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 30/31] fix: keep the backslashes that stand before the blanks
 of a line continuation

---
 src/parsers/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 99f61c9..acc3559 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -534,10 +534,10 @@ pub(crate) fn makefile_line(
                         // Either the empty string or just "\\" should go to the empty string
                         s.slice(0..0)
                     } else {
-                        // In GNU mode we strip off all the whitespace and the backslash
+                        // In GNU mode we strip off the backslash and all the whitespace before it
                         let mut content_end = 1;
-                        for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
+                        for (i, c) in s.slice(..s.len() - 1).char_indices() {
+                            if c == ' ' || c == '\t' {
                                 continue;
                             }
                             content_end = i + c.len_utf8();
-- 
2.43.0


From e0c5ecdac6c3258309bee6cdb447512d612ed11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 31/31] fix: split the name off substitution references at the
 first colon

---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index cc209f7..37385fb 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -129,7 +129,7 @@ impl AstNode {
                 debug!("Variable name is {:?}", name.into_string());
                 let colon_find = pair!(
                     name.span(),
-                    recognize!(many1!(take_until_and_consume!(":"))),
+                    recognize!(take_until_and_consume!(":")),
                     recognize!(many1!(take_until_and_consume!("=")))
                 );
                 match colon_find {
-- 
2.43.0

