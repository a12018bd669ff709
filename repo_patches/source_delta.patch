From 781f6faf88e30f941150c319502de9dcd46e13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 01/32] fix: do not panic when the start rule does not match

---
 fall/parse/src/syn_engine/expr.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..c9bb79a 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,7 +20,18 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) => leftover,
+        None => {
+            // Nothing is recognized: produce an empty root, everything is a leftover.
+            match parser.grammar[start_rule] {
+                Expr::Pub { ty, .. } => parser.start(ty),
+                _ => unreachable!(),
+            };
+            parser.finish();
+            pos
+        }
+    };
     if !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
-- 
2.43.0


From 3aa758a13fae1c29990799f4f72c87d00d21ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 02/32] fix: do not panic when a cached rule is tried at the
 end of input during reparse

---
 fall/parse/src/syn_engine/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..5031847 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -101,7 +101,7 @@ impl<'g> Parser<'g> {
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
         if let Some((ref cache, events)) = self.cache {
-            let text_pos = self.non_ws_indexes[pos.0 as usize].0;
+            let text_pos = self.non_ws_indexes.get(pos.0 as usize)?.0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
                 self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 return Some(Pos(pos.0 + n_tokens, pos.1));
-- 
2.43.0


From d3c35fb84552a755e6dca3045d38a9e983adf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 03/32] fix: do not produce nodes for cached rules matched by
 lookahead

---
 fall/parse/src/syn_engine/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 5031847..27402ba 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -103,7 +103,9 @@ impl<'g> Parser<'g> {
         if let Some((ref cache, events)) = self.cache {
             let text_pos = self.non_ws_indexes.get(pos.0 as usize)?.0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                if !self.predicate_mode {
+                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
-- 
2.43.0


From a94f1e434c1115c7a543e1f402af4f1ed8c9630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 04/32] fix: do not panic on operators, injection and
 replacement inside lookahead

---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 27402ba..2b0d1a0 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -152,6 +152,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -160,6 +163,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From d8ec321f2226ac9463c9b10d19aca46e8deae7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 05/32] fix: do not panic on raw strings with more than thirty
 hashes

---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..cd81a71 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -252,7 +252,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more then 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..e9b8e90 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -190,7 +190,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more then 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 #[allow(unused)]
diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2dcbd2..937903d 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1295,7 +1295,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more than 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 223c058..33eaf63 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -573,7 +573,7 @@ fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
     // Who needs more than 25 hashes anyway? :)
     let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
+    let closing = q_hashes.get(..quote_start)?;
     s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
-- 
2.43.0


From 0106991d7027bcd57e8d8c35d554e3a74f52d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 06/32] fix: bind the arguments of a call simultaneously

---
 fall/parse/src/syn_engine/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index c9bb79a..f83cc82 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -334,7 +334,7 @@ fn parse_call<'g>(
     let old = p.args;
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
+            Expr::Var(i) => old[i.0 as usize].unwrap(),
             _ => arg
         };
 
-- 
2.43.0


From ef665ce7965ce07cebf9bf1cec963ff7e9e692e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 07/32] fix: do not limit grammars to sixteen contexts and
 parameters

---
 fall/parse/src/syn_engine/expr.rs   | 16 +++++++++++++---
 fall/parse/src/syn_engine/parser.rs |  8 ++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index f83cc82..2134888 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -301,6 +301,9 @@ fn parse_enter<'g>(
     ctx: Context, e: ExprRef,
 ) -> Option<Pos> {
     let idx = ctx.0 as usize;
+    if idx >= p.contexts.len() {
+        p.contexts.resize(idx + 1, false);
+    }
     let old = p.contexts[idx];
     p.contexts[idx] = true;
     let result = parse_expr(p, e, tokens);
@@ -313,6 +316,9 @@ fn parse_exit<'g>(
     ctx: Context, e: ExprRef,
 ) -> Option<Pos> {
     let idx = ctx.0 as usize;
+    if idx >= p.contexts.len() {
+        p.contexts.resize(idx + 1, false);
+    }
     let old = p.contexts[idx];
     p.contexts[idx] = false;
     let result = parse_expr(p, e, tokens);
@@ -324,21 +330,25 @@ fn parse_is_in<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ctx: Context,
 ) -> Option<Pos> {
-    if p.contexts[ctx.0 as usize] { Some(tokens) } else { None }
+    if p.contexts.get(ctx.0 as usize) == Some(&true) { Some(tokens) } else { None }
 }
 
 fn parse_call<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
-    let old = p.args;
+    let old = p.args.clone();
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
             Expr::Var(i) => old[i.0 as usize].unwrap(),
             _ => arg
         };
 
-        p.args[arg_pos.0 as usize] = Some(arg);
+        let idx = arg_pos.0 as usize;
+        if idx >= p.args.len() {
+            p.args.resize(idx + 1, None);
+        }
+        p.args[idx] = Some(arg);
     }
     let result = parse_expr(p, body, tokens);
     p.args = old;
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 2b0d1a0..516ccd8 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -16,8 +16,8 @@ pub(crate) struct Parser<'g> {
     events: Vec<Event>,
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
-    pub contexts: [bool; 16],
-    pub args: [Option<ExprRef>; 16],
+    pub contexts: Vec<bool>,
+    pub args: Vec<Option<ExprRef>>,
     pub prev: Option<NodeType>,
 }
 
@@ -69,8 +69,8 @@ impl<'g> Parser<'g> {
             events: Vec::new(),
             replacement: None,
             predicate_mode: false,
-            contexts: [false; 16],
-            args: [None; 16],
+            contexts: Vec::new(),
+            args: Vec::new(),
             prev: None,
         };
         (parser, pos)
-- 
2.43.0


From 61dbc323906daba3c77b71fb091dfb0c83dd6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 08/32] fix: evaluate an argument with the parameters of its
 call site

---
 fall/parse/src/syn_engine/expr.rs   | 26 +++++++++++++++++---------
 fall/parse/src/syn_engine/parser.rs | 12 ++++++++++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 2134888..b7483b9 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -1,9 +1,12 @@
 use std::collections::HashMap;
+use std::mem;
+use std::rc::Rc;
+
 use fall_tree::{Language, Text, TextUnit};
 
 use crate::{NodeTypeRef, Context, Arg, ExprRef, Expr};
 use crate::lex_engine::Token;
-use crate::syn_engine::parser::{Parser, Pos};
+use crate::syn_engine::parser::{ArgValue, Parser, Pos};
 use crate::syn_engine::Event;
 
 use super::Grammar;
@@ -337,19 +340,21 @@ fn parse_call<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
-    let old = p.args.clone();
+    let old = Rc::clone(&p.args);
+    let mut new = Vec::clone(&old);
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => old[i.0 as usize].unwrap(),
-            _ => arg
+            Expr::Var(i) => old[i.0 as usize].clone().unwrap(),
+            _ => ArgValue { expr: arg, args: Rc::clone(&old) },
         };
 
         let idx = arg_pos.0 as usize;
-        if idx >= p.args.len() {
-            p.args.resize(idx + 1, None);
+        if idx >= new.len() {
+            new.resize(idx + 1, None);
         }
-        p.args[idx] = Some(arg);
+        new[idx] = Some(arg);
     }
+    p.args = Rc::new(new);
     let result = parse_expr(p, body, tokens);
     p.args = old;
     result
@@ -359,8 +364,11 @@ fn parse_var<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     i: Arg,
 ) -> Option<Pos> {
-    let expr = p.args[i.0 as usize].unwrap();
-    parse_expr(p, expr, tokens)
+    let arg = p.args[i.0 as usize].clone().unwrap();
+    let old = mem::replace(&mut p.args, arg.args);
+    let result = parse_expr(p, arg.expr, tokens);
+    p.args = old;
+    result
 }
 
 fn parse_prev_is<'g>(
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 516ccd8..303138e 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::rc::Rc;
 
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
 use crate::lex_engine::Token;
@@ -17,7 +18,7 @@ pub(crate) struct Parser<'g> {
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
     pub contexts: Vec<bool>,
-    pub args: Vec<Option<ExprRef>>,
+    pub args: Rc<Vec<Option<ArgValue>>>,
     pub prev: Option<NodeType>,
 }
 
@@ -36,6 +37,13 @@ impl Pos {
 
 pub(crate) struct Mark(u32);
 
+/// An argument of a call, together with the arguments visible at the call site.
+#[derive(Clone)]
+pub(crate) struct ArgValue {
+    pub expr: ExprRef,
+    pub args: Rc<Vec<Option<ArgValue>>>,
+}
+
 impl<'g> Parser<'g> {
     pub fn new(
         cache: Option<(HashMap<(TextUnit, ExprRef), (u32, u32, u32)>, &'g [Event])>,
@@ -70,7 +78,7 @@ impl<'g> Parser<'g> {
             replacement: None,
             predicate_mode: false,
             contexts: Vec::new(),
-            args: Vec::new(),
+            args: Rc::new(Vec::new()),
             prev: None,
         };
         (parser, pos)
-- 
2.43.0


From a0837037a5535385d85d51d201e6b9866c69be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 09/32] fix: an empty range is equal to itself, not less

---
 fall/text/src/text_range.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 1b87fc4..72fa95c 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -113,12 +113,12 @@ impl ops::Index<TextRange> for String {
 
 impl PartialOrd for TextRange {
     fn partial_cmp(&self, other: &TextRange) -> Option<Ordering> {
-        if self.end() <= other.start() {
+        if self == other {
+            Some(Ordering::Equal)
+        } else if self.end() <= other.start() {
             Some(Ordering::Less)
         } else if other.end() <= self.start() {
             Some(Ordering::Greater)
-        } else if self == other {
-            Some(Ordering::Equal)
         } else {
             None
         }
-- 
2.43.0


From 368aaaadfb4a880fa1b218e57ea4d6c37053f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 10/32] fix: refuse to deserialize a range whose end is before
 its start

---
 fall/text/src/text_range.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 72fa95c..da3d41a 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::ops;
 
 use serde::{Serialize, Serializer, Deserialize, Deserializer};
+use serde::de::Error as DeserializeError;
 
 use super::{TextUnit, tu};
 
@@ -32,7 +33,10 @@ impl Serialize for TextRange {
 
 impl<'de> Deserialize<'de> for TextRange {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let (start, end) = Deserialize::deserialize(deserializer)?;
+        let (start, end): (TextUnit, TextUnit) = Deserialize::deserialize(deserializer)?;
+        if start > end {
+            return Err(D::Error::custom(format!("Invalid text range [{}; {})", start, end)));
+        }
         Ok(TextRange { start, end })
     }
 }
-- 
2.43.0


From e214d85b732da84b4f65934da127fe35e03f86c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 11/32] fix: match unclosed brackets of a grammar source in
 linear time

Every unclosed bracket was scanned twice to the end of the text, which
doubled with every level: twenty unclosed braces took minutes.
---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index cd81a71..6eb8d8c 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -233,7 +233,7 @@ rule in_parens { <balanced '(' ')'> }
 rule in_bracks { <balanced '[' ']'> }
 
 rule balanced(bra, ket) {
-  { bra <balanced bra ket> ket
+  { bra <commit> <balanced bra ket> ket
   | {<not ket> <any>}
   }*
 }
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index e9b8e90..9202c6b 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],1]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 7dd071455180dabc56ff6c476535610fedf6ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 12/32] fix: keep a node injected into another when both are
 injected or operands

---
 fall/parse/src/syn_engine/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 303138e..e00821a 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -174,10 +174,17 @@ impl<'g> Parser<'g> {
         if self.predicate_mode {
             return;
         }
-        match self.events[child.0 as usize] {
-            Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
-            _ => unreachable!(),
+        // The child may have been put into another node already.
+        let mut child = child.0;
+        loop {
+            match self.events[child as usize] {
+                Event::Start { forward_parent: Some(fwd), .. } => child += fwd,
+                Event::Start { ref mut forward_parent, .. } => {
+                    *forward_parent = Some(parent.0 - child);
+                    return;
+                }
+                _ => unreachable!(),
+            }
         }
     }
 
-- 
2.43.0


From 5953af424e22b8e1a782cfb903c9e795b10fb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 13/32] fix: recognise a commit point whatever the layout
 inside its angle brackets

---
 fall/gen/src/generate/codegen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..fb11ba0 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -203,7 +203,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
             Expr::SeqExpr(seq) => {
                 fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
+                    match part {
+                        Expr::CallExpr(call) => call.fn_name() == "commit",
+                        _ => false,
+                    }
                 }
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
-- 
2.43.0


From bf2b4cc813b3093380dd6128fd224bfa5ef90202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 14/32] fix: delimit the generated parser table so that token
 spellings cannot end it

---
 fall/gen/src/generate/codegen.rs | 6 ++++++
 fall/gen/src/generate/mod.rs     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index fb11ba0..18005f2 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -59,7 +59,13 @@ impl<'a, 'f> Codegen<'a, 'f> {
             self.expressions[i] = expr;
         }
         let parser = serde_json::to_string(&self.expressions).unwrap();
+        // The raw string literal must not end at a quote inside of the table
+        let mut hashes = "##".to_string();
+        while parser.contains(&format!("\"{}", hashes)) {
+            hashes.push('#');
+        }
         context.insert("parser_json", &parser);
+        context.insert("parser_json_hashes", &hashes);
 
         let lex_rules = self.file().tokenizer_def()
             .ok_or(format_err!("no tokens defined"))?
diff --git a/fall/gen/src/generate/mod.rs b/fall/gen/src/generate/mod.rs
index 42d6418..646cfac 100644
--- a/fall/gen/src/generate/mod.rs
+++ b/fall/gen/src/generate/mod.rs
@@ -30,7 +30,7 @@ pub fn language() -> &'static rt::Language {
     }
 
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"{{ parser_json }}"##;
+        let parser_json = r{{ parser_json_hashes }}"{{ parser_json }}"{{ parser_json_hashes }};
 
         ::fall_parse::ParserDefinition {
             node_types: vec![
-- 
2.43.0


From 4e4b30ae5b4fbd265ce237c7ec4c2121c343f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 15/32] fix: a contextual token does not span skipped tokens

---
 fall/parse/src/syn_engine/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index e00821a..648f3fe 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -215,6 +215,11 @@ impl<'g> Parser<'g> {
             if pos.is_empty() {
                 return None;
             }
+            let (cur_start, _) = self.non_ws_indexes[pos.0 as usize];
+            if cur_start + leftover != start + tu(text.len() as u32) {
+                // There's whitespace in between.
+                return None;
+            }
             let cur_len = self[pos].len;
             if leftover < cur_len {
                 return None;
-- 
2.43.0


From 7cce167c5f443e25ee5ba006315e2d6414fae569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 16/32] fix: do not panic on an operator rule without a body

---
 .../src/analysis/query/resolve_pratt_variant.rs    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..e6bc9f2 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -1,6 +1,6 @@
 use itertools::Itertools;
 use super::{PratVariant, PrattOp};
-use fall_tree::AstNode;
+use fall_tree::{AstNode, AstChildren};
 use crate::analysis::diagnostics::DiagnosticSink;
 use crate::analysis::db::{self, DB};
 use crate::syntax::Expr;
@@ -28,14 +28,16 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             }
         };
 
+        let body: Expr = AstChildren::new(rule.node().children()).next()?;
+
         if kind == "atom" {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return Some(PratVariant::Atom(body));
         }
 
-        let args = match rule.body() {
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +63,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +77,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +90,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
-- 
2.43.0


From e5f9b139b46e20d6c828daaaea218ed11cb7a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 17/32] fix: do not panic on nameless definitions of an ast
 block

---
 lang/fall/src/analysis/query/ast_node_traits.rs |  5 ++++-
 lang/fall/src/analysis/query/resolve_method.rs  | 11 ++++++++---
 lang/fall/src/editor/references/mod.rs          |  6 +++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..1ff426e 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 
 use fall_tree::{Text, AstNode};
+use fall_tree::search::child_of_type;
 use crate::analysis::diagnostics::DiagnosticSink;
 use crate::analysis::db::{self, DB};
 use crate::syntax::{AstTraitDef, COLON, IDENT};
@@ -9,7 +10,9 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            ast.ast_traits()
+                .filter_map(|trait_| child_of_type(trait_.node(), IDENT).map(|name| (name.text(), trait_)))
+                .collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_method.rs b/lang/fall/src/analysis/query/resolve_method.rs
index 4763681..1dca15d 100644
--- a/lang/fall/src/analysis/query/resolve_method.rs
+++ b/lang/fall/src/analysis/query/resolve_method.rs
@@ -1,7 +1,9 @@
 use super::{MethodKind, ChildKind, Arity};
 use crate::analysis::diagnostics::DiagnosticSink;
 use crate::analysis::db::{self, DB};
-use crate::syntax::{AstSelector, FallFile};
+use fall_tree::{AstNode, Text};
+use fall_tree::search::child_of_type;
+use crate::syntax::{AstSelector, FallFile, IDENT};
 
 impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
     fn execute(self, db: &DB<'f>, _: &mut DiagnosticSink) -> Option<MethodKind<'f>> {
@@ -29,10 +31,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
 
 fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<ChildKind<'f>> {
     let ast_def = file.ast_def()?;
-    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == selector.child()) {
+    if let Some(ast) = ast_def.ast_nodes().find(|&a| is_named(a, selector.child())) {
         return Some(ChildKind::AstNode(ast));
     }
-    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == selector.child()) {
+    if let Some(class) = ast_def.ast_classes().find(|&c| is_named(c, selector.child())) {
         return Some(ChildKind::AstClass(class));
     }
     if let Some(lex_rule) = file.tokenizer_def().and_then(|td| td.lex_rules().find(|r| r.node_type() == selector.child())) {
@@ -41,6 +43,9 @@ fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<Child
     None
 }
 
+fn is_named<'f, A: AstNode<'f>>(def: A, name: Text) -> bool {
+    child_of_type(def.node(), IDENT).map(|ident| ident.text() == name).unwrap_or(false)
+}
 
 #[cfg(test)]
 mod tests {}
diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..c8ad857 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -1,6 +1,6 @@
 use fall_tree::{Node, TextUnit, TextRange, AstNode};
 use fall_tree::visitor::{visitor, process_node};
-use fall_tree::search::ast;
+use fall_tree::search::{ast, child_of_type};
 use crate::analysis::{Analysis, RefKind, CallKind, MethodKind, ChildKind};
 use crate::syntax::{RefExpr, CallExpr, MethodDef, SynRule, LexRule, Parameter, AstNodeDef, AstClassDef,
              IDENT};
@@ -110,13 +110,13 @@ impl<'f> From<Parameter<'f>> for Declaration<'f> {
 
 impl<'f> From<AstNodeDef<'f>> for Declaration<'f> {
     fn from(rule: AstNodeDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), child_of_type(rule.node(), IDENT))
     }
 }
 
 impl<'f> From<AstClassDef<'f>> for Declaration<'f> {
     fn from(rule: AstClassDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), child_of_type(rule.node(), IDENT))
     }
 }
 
-- 
2.43.0


From 2ecc74acbc72f3ecb3ccab81dc88b4d77ab06d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 18/32] fix: report duplicate rules whatever else is in the
 file

---
 lang/fall/src/analysis/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..bf9e936 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,8 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From 03e5f4ddedc466748ad108225770e7616f982205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 19/32] fix: order diagnostics independently of the order of
 queries

---
 lang/fall/src/analysis/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index bf9e936..a36e5ab 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -70,12 +70,13 @@ impl<'f> Analysis<'f> {
         self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
-        result.sort_by_key(|d| {
-            let priority = match d.severity {
-                Severity::Error => 0,
-                Severity::Warning => 1,
-            };
-            (priority, d.range.start(), d.range.end())
+        let priority = |d: &Diagnostic| match d.severity {
+            Severity::Error => 0,
+            Severity::Warning => 1,
+        };
+        result.sort_by(|a, b| {
+            (priority(a), a.range.start(), a.range.end(), &a.message)
+                .cmp(&(priority(b), b.range.start(), b.range.end(), &b.message))
         });
         result
     }
-- 
2.43.0


From 25683c92f9040a36d30011a5e04b8cb85e816c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 20/32] fix: reformatting twice changes nothing more

A space was added next to a pipe with an empty element beside it every time
the file was reformatted, and inside broken input a space was inserted by one
rule only to be deleted by another.
---
 lang/fall/src/editor/formatter.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index c951fa9..fed10f3 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -44,7 +44,7 @@ impl<'r> Spacer<'r> {
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
         for &rule in self.rules {
             let (spaces, ws_node, before_ws_node) =
-                match (rule, sibling(node, Direction::Right), sibling(node, Direction::Left)) {
+                match (rule, neighbor(node, Direction::Right), neighbor(node, Direction::Left)) {
                     (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
                         (spaces, next, node)
                     }
@@ -60,7 +60,9 @@ impl<'r> Spacer<'r> {
 
             match (spaces, ws_node.ty() == self.ws_type) {
                 (Spaces::None, true) => edit.delete(ws_node),
-                (Spaces::Single, false) => edit.insert_text_after(before_ws_node, " ".to_owned()),
+                (Spaces::Single, false) if !self.is_tight_after(before_ws_node) => {
+                    edit.insert_text_after(before_ws_node, " ".to_owned())
+                }
                 (Spaces::Single, true) if ws_node.text().len() != tu(1) => {
                     edit.replace_with_text(ws_node, " ".to_owned())
                 }
@@ -68,6 +70,24 @@ impl<'r> Spacer<'r> {
             }
         }
     }
+
+    fn is_tight_after(&self, node: Node) -> bool {
+        let next = neighbor(node, Direction::Right);
+        self.rules.iter().any(|&rule| match rule {
+            Rule::After(ty, Spaces::None) => node.ty() == ty,
+            Rule::Before(ty, Spaces::None) => next.map(|n| n.ty()) == Some(ty),
+            _ => false,
+        })
+    }
+}
+
+// An empty node takes no part in the layout.
+fn neighbor(node: Node, dir: Direction) -> Option<Node> {
+    let mut node = sibling(node, dir)?;
+    while node.range().is_empty() {
+        node = sibling(node, dir)?;
+    }
+    Some(node)
 }
 
 
-- 
2.43.0


From 40043c2cb97adb2474099194d4332e6ed561d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 21/32] fix: watch for file changes before indexing, survive a
 missing root

Changes made between the initial indexing and the start of watching were
never noticed, and a root that can't be watched ended the indexing thread
before it looked at any change.
---
 indxr/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..d47faff 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -65,20 +65,25 @@ pub struct FileIndexImpl<V> {
 }
 
 fn watch<V>(index: &FileIndexImpl<V>) {
-    let initial_indexing_start = ::std::time::Instant::now();
-    for path in index.file_set.roots.iter() {
-        index.change(path)
-    }
-    let elapsed = initial_indexing_start.elapsed();
-    info!("indexing took = {}s", elapsed.as_secs());
     let (tx, rx) = channel();
 
+    // Start watching before indexing, so that changes made meanwhile are not missed
     let _watchers = index.file_set.roots.iter().map(|path| {
         let tx = tx.clone();
         let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
-        watcher.watch(path, RecursiveMode::Recursive).unwrap();
+        if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
+            error!("can't watch {}: {:?}", path.display(), e);
+        }
         watcher
     }).collect::<Vec<_>>();
+
+    let initial_indexing_start = ::std::time::Instant::now();
+    for path in index.file_set.roots.iter() {
+        index.change(path)
+    }
+    let elapsed = initial_indexing_start.elapsed();
+    info!("indexing took = {}s", elapsed.as_secs());
+
     loop {
         match rx.recv() {
             Ok(event) => {
-- 
2.43.0


From 9a1b95464d57963281f69881d8cac876d0b67caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 22/32] fix: drop index entries under removed, moved and
 replaced directories

Removing or moving away a directory, or replacing it with a file (or the
other way round), left the values of the files below it in the index for
ever.
---
 indxr/src/lib.rs | 58 +++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 42 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index d47faff..3ab40be 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -113,49 +113,23 @@ fn watch<V>(index: &FileIndexImpl<V>) {
 
 impl<V> FileIndexImpl<V> {
     fn change(&self, path: &Path) {
-        let added = path.exists();
-        match (path.is_dir(), added) {
-            (false, true) => {
-                if !(self.file_set.filter)(path) {
-                    return
-                }
-                let value = (self.mapper)(path);
-                let mut data = self.data.lock().unwrap();
-                match value {
-                    None => {
-                        data.remove(path);
-                    },
-                    Some(value) => {
-                        let file = IndexedFile { path: path.to_owned(), value};
-                        data.insert(path.to_owned(), file);
-                    }
-                };
-            }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
-            }
-            (true, false) => {
-                self.data.lock().unwrap().retain(|k, _| {
-                    !k.starts_with(path)
-                });
+        // Yields nothing if the path is gone, and the path itself if it is a file
+        let files = WalkDir::new(path)
+            .into_iter()
+            .filter_map(|entry| entry.ok())
+            .filter(|entry| entry.file_type().is_file() && (self.file_set.filter)(entry.path()));
+
+        let mut local = HashMap::new();
+        for entry in files {
+            let path = entry.path().to_owned();
+            if let Some(value) = (self.mapper)(&path) {
+                let file = IndexedFile { path: path.clone(), value };
+                local.insert(path.clone(), file);
             }
-            (true, true) => {
-                let files = WalkDir::new(path)
-                    .into_iter()
-                    .filter_map(|entry| entry.ok())
-                    .filter(|entry| entry.file_type().is_file() && (self.file_set.filter)(entry.path()));
-
-                let mut local = HashMap::new();
-                for entry in files {
-                    let path = entry.path().to_owned();
-                    if let Some(value) = (self.mapper)(&path) {
-                        let file = IndexedFile { path: path.clone(), value };
-                        local.insert(path.clone(), file);
-                    }
-                }
+        }
 
-                self.data.lock().unwrap().extend(local);
-            }
-        };
+        let mut data = self.data.lock().unwrap();
+        data.retain(|k, _| !k.starts_with(path));
+        data.extend(local);
     }
 }
-- 
2.43.0


From 060a1806f1b9216db08d97bbfcc67e8a9893e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 23/32] fix: index the roots again when file system events were
 lost

---
 indxr/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 3ab40be..88663e8 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -100,6 +100,12 @@ fn watch<V>(index: &FileIndexImpl<V>) {
                         index.change(&p1);
                         index.change(&p2);
                     }
+                    DebouncedEvent::Rescan => {
+                        // Some events were lost
+                        for path in index.file_set.roots.iter() {
+                            index.change(path)
+                        }
+                    }
                     _ => continue,
                 }
             },
-- 
2.43.0


From 70307abeec5f19a9a54682c7f535dd7666557a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 24/32] fix: breadcrumbs and typing help at the very beginning
 of a file

They subtracted from the offset without looking, which panicked.
---
 lang/rust/src/editor/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..5094cbb 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -29,6 +29,9 @@ impl RustEditorFile {
     }
 
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
+        if offset == tu(0) {
+            return None;
+        }
         let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
         if let_kw.ty() != LET {
             return None;
@@ -63,6 +66,9 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
+        if offset == tu(0) {
+            return Vec::new();
+        }
         let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
             Some(leaf) => leaf,
             None => return Vec::new(),
-- 
2.43.0


From 65db117710b46bc0f0a878c8797a3485d8caae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 25/32] fix: add braces around the alias of a use declaration
 too

`use a::b as c;` became `use a::{b} as c;`, which does not parse.
---
 lang/rust/src/editor/actions.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/actions.rs b/lang/rust/src/editor/actions.rs
index 8fc6b10..714f507 100644
--- a/lang/rust/src/editor/actions.rs
+++ b/lang/rust/src/editor/actions.rs
@@ -1,7 +1,7 @@
-use fall_tree::{File, TextUnit, FileEdit, AstNode};
+use fall_tree::{File, TextUnit, TextRange, FileEdit, AstNode};
 use fall_tree::search::ast;
 use fall_editor::actions::ActionResult;
-use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl};
+use crate::syntax::{ALIAS, NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl};
 
 
 pub const ACTIONS: &[(&str, fn(&File, TextUnit, bool) -> Option<ActionResult>)] = &[
@@ -13,6 +13,7 @@ fn add_use_braces(file: &File, offset: TextUnit, apply: bool) -> Option<ActionRe
     let use_decl: UseDecl = ast::node_at_offset(file.root(), offset)?;
     let path = use_decl.path()?;
     let last_segment = path.segment()?.node();
+    let alias = use_decl.node().children().find(|n| n.ty() == ALIAS);
     if use_decl.spec().is_some() {
         return None;
     }
@@ -20,7 +21,11 @@ fn add_use_braces(file: &File, offset: TextUnit, apply: bool) -> Option<ActionRe
         return Some(ActionResult::Available);
     }
     let mut edit = FileEdit::new(&file);
-    edit.replace_with_text(last_segment, format!("{{{}}}", last_segment.text()));
+    let range = TextRange::from_to(
+        last_segment.range().start(),
+        alias.unwrap_or(last_segment).range().end(),
+    );
+    edit.replace_substring(range, format!("{{{}}}", file.text().slice(range)));
     Some(ActionResult::Applied(edit.into_text_edit()))
 }
 
-- 
2.43.0


From 6c8f0535a49b57fa42855aea355ddb32962061fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 26/32] fix: find symbols whose names differ from others only
 in case

Of the symbols of a file with one name, and of names equal up to case, only
the first was kept, so that a struct was lost next to a function of that name.
---
 lang/rust/src/editor/symbol_index.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..f85f1fc 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -75,9 +75,11 @@ impl Query {
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
             let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            let key = file.symbols[idx].key();
+            for symbol in file.symbols[idx..].iter().take_while(|s| s.key() == key) {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol.clone())
+                }
             }
         }
     }
@@ -102,12 +104,12 @@ impl FileSymbols {
                 lc_range: [line_index.translate(range.start()), line_index.translate(range.end())],
             })
         });
-        symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
+        symbols.sort_by_key(Symbol::key);
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        // maps a key to the first of the symbols which have it
+        let mut keys: Vec<(String, u64)> = symbols.iter().map(Symbol::key).zip(0u64..).collect();
+        keys.dedup_by(|a, b| a.0 == b.0);
+        let map = fst::Map::from_iter(keys).unwrap();
 
         FileSymbols { symbols, map }
     }
@@ -119,4 +121,10 @@ pub struct Symbol {
     pub name: String,
     pub range: TextRange,
     pub lc_range: [LineCol; 2]
-}
\ No newline at end of file
+}
+
+impl Symbol {
+    fn key(&self) -> String {
+        self.name.to_lowercase()
+    }
+}
-- 
2.43.0


From 3fecaf6f18dcaf5a7ded013dc0ae033f15ec0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 27/32] fix: match whole characters when searching for symbols

---
 lang/rust/src/editor/fst_subseq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/rust/src/editor/fst_subseq.rs b/lang/rust/src/editor/fst_subseq.rs
index 75b5c2b..a4a8124 100644
--- a/lang/rust/src/editor/fst_subseq.rs
+++ b/lang/rust/src/editor/fst_subseq.rs
@@ -27,6 +27,11 @@ impl<'a> fst::Automaton for FstSubSeq<'a> {
         if byte == self.query.as_bytes()[state] {
             return state + 1;
         }
+        // match whole characters: forget the bytes of an unfinished one
+        let mut state = state;
+        while !self.query.is_char_boundary(state) {
+            state -= 1;
+        }
         return state;
     }
 
-- 
2.43.0


From 225ea0199fd808d05c073336216af791b0f47dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 28/32] fix: do not panic on ast names which begin or end with
 an underscore

---
 fall/gen/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index 6cc6350..a43c369 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -7,6 +7,7 @@ pub fn scream(word: Text) -> String {
 pub fn camel(word: Text) -> String {
     word.to_cow()
         .split("_")
+        .filter(|w| !w.is_empty())
         .map(|w| w[..1].to_ascii_uppercase() + &w[1..])
         .collect()
 }
-- 
2.43.0


From b0172b0b03fcad3ff974b4a18a663592bd39ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 29/32] fix: refuse grammars the generator has no code for
 instead of panicking

---
 fall/gen/src/generate/codegen.rs | 42 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 18005f2..7f38f49 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -1,8 +1,9 @@
 use serde_json;
 use tera::Context;
 
-use fall_tree::{Text, AstNode};
-use lang_fall::syntax::{FallFile, SynRule, LexRule, Expr, BlockExpr,
+use fall_tree::{Text, AstNode, AstChildren};
+use fall_tree::search::child_of_type;
+use lang_fall::syntax::{IDENT, HASH_STRING, FallFile, SynRule, LexRule, Expr, BlockExpr,
                         MethodDef, Parameter};
 use lang_fall::{RefKind, CallKind, MethodKind, Analysis, PratVariant, PrattOp, Arity, ChildKind};
 
@@ -78,12 +79,24 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
         context.insert("lex_rules", &lex_rules);
 
+        if let Some(verbatim) = self.file().verbatim_def() {
+            child_of_type(verbatim.node(), HASH_STRING)
+                .ok_or(format_err!("verbatim without a string"))?;
+        }
         let verbatim = self.file().verbatim_def().map(|v| v.contents());
         context.insert("verbatim", &verbatim);
         context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
 
 
         if let Some(ast) = self.file().ast_def() {
+            let definitions = ast.ast_nodes().map(|it| it.node())
+                .chain(ast.ast_classes().map(|it| it.node()))
+                .chain(ast.ast_traits().map(|it| it.node()));
+            for definition in definitions {
+                child_of_type(definition, IDENT)
+                    .ok_or(format_err!("ast definition without a name: {}", definition.text()))?;
+            }
+
             context.insert("ast_nodes", &ast.ast_nodes().map(|node| {
                 Ok(CtxAstNode {
                     struct_name: camel(node.name()),
@@ -155,12 +168,14 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = AstChildren::new(rule.node().children()).next()
+            .ok_or(format_err!("rule without a body: {}", rule.node().text()))?;
+        let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
             }
-            (true, _) => unreachable!(),
+            (true, _) => return Err(format_err!("Bad pratt spec")),
             (false, body) => self.gen_expr(body)?
         };
 
@@ -190,7 +205,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            (None, true, _) => return Err(format_err!(
+                "rule replaces without a node type: {}", rule.node().text()
+            )),
         };
 
         Ok(body)
@@ -283,9 +300,12 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r)
+                                .ok_or(format_err!("rule without a node type: {}", r.node().text())))
+                            .collect::<Result<Vec<_>>>()?
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit => return Err(format_err!("commit outside of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
@@ -371,7 +391,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         ("Option<rt::Text<'f>>".to_owned(),
                          format!("rt::child_of_type(self.node(), {}).map(|n| n.text())", node_type)),
 
-                    Arity::Many => unimplemented!(),
+                    Arity::Many => return Err(format_err!(
+                        "many tokens are not supported: `{}`", method.node().text()
+                    )),
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
@@ -405,7 +427,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             Arity::Optional =>
                                 ("Option<rt::Node<'f>>".to_owned(),
                                  format!("self.node().children().find(|n| n.ty() == {})", node_type)),
-                            Arity::Many => unimplemented!(),
+                            Arity::Many => return Err(format_err!(
+                        "many tokens are not supported: `{}`", method.node().text()
+                    )),
                         }
                     }
                 }
-- 
2.43.0


From b9495ce5ed9c471f770206e792998ce9e8da1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 30/32] fix: don't reuse a cached match that reaches beyond the
 end of the layer

After an edit which puts a cached rule into a shorter layer, the parser ran past the layer and panicked.
---
 fall/parse/src/syn_engine/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 648f3fe..5172764 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -111,6 +111,10 @@ impl<'g> Parser<'g> {
         if let Some((ref cache, events)) = self.cache {
             let text_pos = self.non_ws_indexes.get(pos.0 as usize)?.0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
+                if n_tokens > pos.1 - pos.0 {
+                    // The match reaches beyond the end of the current layer.
+                    return None;
+                }
                 if !self.predicate_mode {
                     self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 }
-- 
2.43.0


From c6a92334cce69c1932f6ed276510cd6916c0495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 31/32] fix: don't reuse a cached match under other contexts
 than it was made in

Moving a Rust function with `a < b` into a block inside the type arguments of a type gave another tree than parsing from scratch.
---
 fall/parse/src/syn_engine/mod.rs    |  5 +++--
 fall/parse/src/syn_engine/parser.rs | 32 ++++++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..c5108cf 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
 use crate::lex_engine::Token;
 use crate::{Expr, ExprRef};
+use self::parser::ContextSet;
 
 pub struct Grammar<'g> {
     pub node_types: &'g [NodeType],
@@ -34,7 +35,7 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32 },
+    Cached { key: u32, n_events: u32, contexts: ContextSet },
 }
 
 pub(crate) fn salvage_segments(
@@ -79,7 +80,7 @@ pub(crate) fn salvage_segments(
             Event::Token { n_raw_tokens, .. } =>
                 eat_tokens(&mut raw_token_pos, &mut text_pos, n_raw_tokens),
 
-            Event::Cached { key, n_events } => {
+            Event::Cached { key, n_events, .. } => {
                 let start = text_pos;
                 let mut n_tokens = 0u32;
                 let mut has_error = false;
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 5172764..81f159e 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -37,6 +37,16 @@ impl Pos {
 
 pub(crate) struct Mark(u32);
 
+/// The active contexts, if all of them are among the first 64.
+#[derive(Copy, Clone, Debug)]
+pub(crate) struct ContextSet(Option<u64>);
+
+impl ContextSet {
+    fn same(self, other: ContextSet) -> bool {
+        self.0.is_some() && self.0 == other.0
+    }
+}
+
 /// An argument of a call, together with the arguments visible at the call site.
 #[derive(Clone)]
 pub(crate) struct ArgValue {
@@ -115,6 +125,12 @@ impl<'g> Parser<'g> {
                     // The match reaches beyond the end of the current layer.
                     return None;
                 }
+                match events[start_event as usize - 1] {
+                    Event::Cached { contexts, .. } => if !contexts.same(self.context_set()) {
+                        return None;
+                    }
+                    _ => unreachable!(),
+                }
                 if !self.predicate_mode {
                     self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 }
@@ -127,10 +143,24 @@ impl<'g> Parser<'g> {
 
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
-        self.event(Event::Cached { key: expr.0, n_events: 0 });
+        let contexts = self.context_set();
+        self.event(Event::Cached { key: expr.0, n_events: 0, contexts });
         mark
     }
 
+    fn context_set(&self) -> ContextSet {
+        let mut bits = 0;
+        for (i, &active) in self.contexts.iter().enumerate() {
+            if active {
+                if i >= 64 {
+                    return ContextSet(None);
+                }
+                bits |= 1 << i;
+            }
+        }
+        ContextSet(Some(bits))
+    }
+
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
             let len = self.events.len() as u32 - (mark.0 + 1);
-- 
2.43.0


From 256ea1b364c395a7dd6517e188e590ef8da5b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 32/32] fix: reusing a cached match leaves the same state
 behind as parsing it

After an edit, previous-node tests and replaceable nodes did not see what a reused match completed.
---
 fall/parse/src/syn_engine/expr.rs   | 20 ++++----
 fall/parse/src/syn_engine/mod.rs    |  4 +-
 fall/parse/src/syn_engine/parser.rs | 71 +++++++++++++++++++++++++----
 fall/parse/src/syn_engine/pratt.rs  |  5 +-
 4 files changed, 80 insertions(+), 20 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index b7483b9..5bda7bc 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -144,16 +144,17 @@ fn parse_pub<'g>(
     ty_idx: NodeTypeRef, body: ExprRef, replaceable: bool,
 ) -> Option<Pos> {
     if replaceable {
-        p.replacement = None;
+        p.set_replacement(None);
     }
     let mark = p.start(ty_idx);
     let ts = parse_expr(p, body, tokens)?;
-    if let (true, Some(ty)) = (replaceable, p.replacement) {
-        p.replacement = None;
+    if let (true, Some(ty)) = (replaceable, p.replacement()) {
+        p.set_replacement(None);
         p.replace(mark, ty)
     };
     p.finish();
-    p.prev = Some(p[ty_idx]);
+    let ty = p[ty_idx];
+    p.set_prev(ty);
     Some(ts)
 }
 
@@ -162,7 +163,7 @@ fn parse_pub_replace<'g>(
     ty_idx: NodeTypeRef, body: ExprRef
 ) -> Option<Pos> {
     let ts = parse_expr(p, body, tokens)?;
-    p.replacement = Some(ty_idx);
+    p.set_replacement(Some(ty_idx));
     Some(ts)
 }
 
@@ -375,7 +376,7 @@ fn parse_prev_is<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ts: &[NodeTypeRef],
 ) -> Option<Pos> {
-    if let Some(prev) = p.prev {
+    if let Some(prev) = p.prev() {
         for &ty_idx in ts {
             let t = p[ty_idx];
             if t == prev {
@@ -403,8 +404,11 @@ fn parse_inject<'g>(
 fn parse_cached<'g>(p: &mut Parser<'g>, expr: ExprRef, pos: Pos) -> Option<Pos> {
 
     let mark = p.start_cached(expr);
-    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos))?;
-    p.finish_cached(mark);
+    let before = p.start_effect();
+    let result = p.get_from_cache(expr, pos).or_else(|| parse_expr(p, expr, pos));
+    let effect = p.finish_effect(before);
+    let result = result?;
+    p.finish_cached(mark, effect);
 
     Some(result)
 }
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index c5108cf..05ca5cc 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use fall_tree::{NodeType, TextEdit, TextUnit, TextEditOp, tu, TextRange, ERROR};
 use crate::lex_engine::Token;
 use crate::{Expr, ExprRef};
-use self::parser::ContextSet;
+use self::parser::{ContextSet, Effect};
 
 pub struct Grammar<'g> {
     pub node_types: &'g [NodeType],
@@ -35,7 +35,7 @@ pub(crate) enum Event {
     Start { ty: NodeType, forward_parent: Option<u32> },
     Token { ty: NodeType, n_raw_tokens: u16 },
     End,
-    Cached { key: u32, n_events: u32, contexts: ContextSet },
+    Cached { key: u32, n_events: u32, contexts: ContextSet, effect: Effect },
 }
 
 pub(crate) fn salvage_segments(
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 81f159e..e5a666d 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::mem;
 use std::rc::Rc;
 
 use fall_tree::{TextUnit, Text, TextSuffix, NodeType, tu};
@@ -15,11 +16,12 @@ pub(crate) struct Parser<'g> {
 
     ticks: u64,
     events: Vec<Event>,
-    pub replacement: Option<NodeTypeRef>,
+    replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
     pub contexts: Vec<bool>,
     pub args: Rc<Vec<Option<ArgValue>>>,
-    pub prev: Option<NodeType>,
+    prev: Option<NodeType>,
+    effect: Effect,
 }
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
@@ -37,6 +39,13 @@ impl Pos {
 
 pub(crate) struct Mark(u32);
 
+/// What parsing did to the state the parser keeps besides the events.
+#[derive(Copy, Clone, Debug, Default)]
+pub(crate) struct Effect {
+    prev: Option<NodeType>,
+    replacement: Option<Option<NodeTypeRef>>,
+}
+
 /// The active contexts, if all of them are among the first 64.
 #[derive(Copy, Clone, Debug)]
 pub(crate) struct ContextSet(Option<u64>);
@@ -90,6 +99,7 @@ impl<'g> Parser<'g> {
             contexts: Vec::new(),
             args: Rc::new(Vec::new()),
             prev: None,
+            effect: Effect::default(),
         };
         (parser, pos)
     }
@@ -125,12 +135,15 @@ impl<'g> Parser<'g> {
                     // The match reaches beyond the end of the current layer.
                     return None;
                 }
-                match events[start_event as usize - 1] {
-                    Event::Cached { contexts, .. } => if !contexts.same(self.context_set()) {
+                let effect = match events[start_event as usize - 1] {
+                    Event::Cached { contexts, effect, .. } => if contexts.same(self.context_set()) {
+                        effect
+                    } else {
                         return None;
                     }
                     _ => unreachable!(),
-                }
+                };
+                self.apply(effect);
                 if !self.predicate_mode {
                     self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 }
@@ -141,10 +154,49 @@ impl<'g> Parser<'g> {
         return None;
     }
 
+    pub fn prev(&self) -> Option<NodeType> {
+        self.prev
+    }
+
+    pub fn set_prev(&mut self, ty: NodeType) {
+        self.apply(Effect { prev: Some(ty), replacement: None });
+    }
+
+    pub fn replacement(&self) -> Option<NodeTypeRef> {
+        self.replacement
+    }
+
+    pub fn set_replacement(&mut self, replacement: Option<NodeTypeRef>) {
+        self.apply(Effect { prev: None, replacement: Some(replacement) });
+    }
+
+    fn apply(&mut self, effect: Effect) {
+        if let Some(ty) = effect.prev {
+            self.prev = Some(ty);
+            self.effect.prev = Some(ty);
+        }
+        if let Some(replacement) = effect.replacement {
+            self.replacement = replacement;
+            self.effect.replacement = Some(replacement);
+        }
+    }
+
+    /// Starts to note what happens to the state; gives what was noted so far.
+    pub fn start_effect(&mut self) -> Effect {
+        mem::take(&mut self.effect)
+    }
+
+    /// Adds what was noted since to what was noted before.
+    pub fn finish_effect(&mut self, before: Effect) -> Effect {
+        let effect = mem::replace(&mut self.effect, before);
+        self.apply(effect);
+        effect
+    }
+
     pub fn start_cached(&mut self, expr: ExprRef) -> Mark {
         let mark = self.mark();
         let contexts = self.context_set();
-        self.event(Event::Cached { key: expr.0, n_events: 0, contexts });
+        self.event(Event::Cached { key: expr.0, n_events: 0, contexts, effect: Effect::default() });
         mark
     }
 
@@ -161,11 +213,14 @@ impl<'g> Parser<'g> {
         ContextSet(Some(bits))
     }
 
-    pub fn finish_cached(&mut self, mark: Mark) {
+    pub fn finish_cached(&mut self, mark: Mark, done: Effect) {
         if !self.predicate_mode {
             let len = self.events.len() as u32 - (mark.0 + 1);
             match self.events[mark.0 as usize] {
-                Event::Cached { ref mut n_events, .. } => *n_events = len,
+                Event::Cached { ref mut n_events, ref mut effect, .. } => {
+                    *n_events = len;
+                    *effect = done;
+                }
                 _ => unreachable!(),
             }
         }
diff --git a/fall/parse/src/syn_engine/pratt.rs b/fall/parse/src/syn_engine/pratt.rs
index db192a1..c1acf7f 100644
--- a/fall/parse/src/syn_engine/pratt.rs
+++ b/fall/parse/src/syn_engine/pratt.rs
@@ -38,7 +38,7 @@ fn pratt_go<'g>(
                     }
                 }
                 let ty = p[ix.ty];
-                p.prev = Some(ty);
+                p.set_prev(ty);
                 lhs = new_lhs;
                 p.finish();
                 continue 'l;
@@ -63,7 +63,8 @@ fn pratt_prefix<'p>(
         let mark = p.start(prefix.ty);
         if let Some(tokens) = parse_expr(p, prefix.op, tokens) {
             if let Some(rest) = pratt_go(p, table, tokens, prefix.priority) {
-                p.prev = Some(p[prefix.ty]);
+                let ty = p[prefix.ty];
+                p.set_prev(ty);
                 p.finish();
                 return Some(rest);
             }
-- 
2.43.0

