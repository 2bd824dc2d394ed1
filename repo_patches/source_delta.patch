From 23f471cde67c6b6b9cc4b567d162968ad254b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:29 +0000
Subject: [PATCH 01/41] fix: do not panic when the first token is `<`

---
 src/lexer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..d552a3d 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,10 +153,10 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
-                        self.type_declaration_depth += 1;
+                    if let Some(last_token) = self.tokens.last() {
+                        if last_token.in_(&vec!["ARRAY", "STRUCT"]) {
+                            self.type_declaration_depth += 1;
+                        }
                     }
                     self.next_char()?;
                     self.construct_token(line, column, ch.to_string())
-- 
2.43.0


From 272397c5057ef56c57277afee4c9f348666b13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:29 +0000
Subject: [PATCH 02/41] fix: recognize ARRAY< and STRUCT< even if comments are
 placed before `<`

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d552a3d..9785599 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,7 +153,7 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if let Some(last_token) = self.tokens.last() {
+                    if let Some(last_token) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
                         if last_token.in_(&vec!["ARRAY", "STRUCT"]) {
                             self.type_declaration_depth += 1;
                         }
-- 
2.43.0


From 4ce666fc7204e48621835bd7e3056029db99376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:29 +0000
Subject: [PATCH 03/41] fix: do not tokenize the end of TABLE<x RANGE<T>> as
 `>>`

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9785599..3b66233 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -154,7 +154,7 @@ impl Lexer {
                     self.construct_token(line, column, "<>".to_string())
                 } else {
                     if let Some(last_token) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
-                        if last_token.in_(&vec!["ARRAY", "STRUCT"]) {
+                        if last_token.in_(&vec!["ARRAY", "RANGE", "STRUCT"]) {
                             self.type_declaration_depth += 1;
                         }
                     }
-- 
2.43.0


From a48168d3a5ea510697a7a402c78ee50a2c30aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:29 +0000
Subject: [PATCH 04/41] fix: `/*/` does not close the comment it opens

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 3b66233..1715aba 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -312,6 +312,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * -> comment (the `*` of `/*/` does not close the comment)
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From fb64d753c27032ef168e7c6d5b89eb010be42efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:29 +0000
Subject: [PATCH 05/41] fix: do not panic when EOF is found in place of an
 identifier

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..60130c6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -942,6 +942,9 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
+                if parser.is_eof(0) {
+                    break;
+                }
                 if curr_token.literal.chars().next().unwrap() == '`' {
                     break;
                 }
-- 
2.43.0


From c7da4ea2ff274f7cbe2d8d2b264ae4fac81e2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:05 +0000
Subject: [PATCH 06/41] fix: do not treat `|>` as a part of the identifier just
 before it

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 60130c6..8bf5374 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -952,7 +952,7 @@ impl Parser {
                     Ok(n) => n,
                     Err(_) => break, // in the case of EOF
                 };
-                if next_token.in_(&vec![",", ".", "(", ")", ";"]) {
+                if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
                     break;
                 }
                 if !(curr_token.literal.chars().last().unwrap() == '.')
-- 
2.43.0


From b6d277236affb606dbce6f3949abd5f70a44a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:05 +0000
Subject: [PATCH 07/41] fix: do not accept (and lose) a semicolon in the middle
 of MERGE statement

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8bf5374..06e52ac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2650,10 +2650,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From ef3c919a36b41e4cb6c060dd8ec2019535ce5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:05 +0000
Subject: [PATCH 08/41] fix: do not take exponential time to parse nested
 parenthesized joins

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 06e52ac..bc32eaa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -13,6 +13,7 @@ pub struct Parser {
     leading_comment_indices: Vec<usize>,
     trailing_comment_indices: Vec<usize>,
     tokens: Vec<Token>,
+    quoted_table_positions: Vec<usize>, // `(` which turned out not to be a select statement
 }
 
 impl Parser {
@@ -22,6 +23,7 @@ impl Parser {
             leading_comment_indices: Vec::new(),
             trailing_comment_indices: Vec::new(),
             tokens,
+            quoted_table_positions: Vec::new(),
         };
         while p.tokens[p.position].is_comment() {
             p.leading_comment_indices.push(p.position);
@@ -1245,6 +1247,9 @@ impl Parser {
                         break;
                     }
                 }
+                if self.quoted_table_positions.contains(&self.position) {
+                    statement_flg = false; // do not try to parse it as a select statement again
+                }
                 if statement_flg {
                     let org = self.clone();
                     group = match self.parse_select_statement(false, false) {
@@ -1257,6 +1262,7 @@ impl Parser {
                             self.leading_comment_indices = org.leading_comment_indices;
                             self.trailing_comment_indices = org.trailing_comment_indices;
                             self.tokens = org.tokens;
+                            self.quoted_table_positions.push(self.position);
 
                             // retry
                             let mut group = self.construct_node(NodeType::GroupedExpr)?;
-- 
2.43.0


From 402f5dd2e59ddd68373bf23e60bdd55acb66a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:05 +0000
Subject: [PATCH 09/41] fix: unary operators bind less tightly than field
 access (-a.b is -(a.b))

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bc32eaa..4969423 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -461,7 +461,10 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    let right = self.parse_expr(
+                        103, // NOTE 103 is a little greater than `.`
+                        false, false, false, true,
+                    )?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0


From e44cde5dd06af88f1aff93f8945e345f1f7f8d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:45 +0000
Subject: [PATCH 10/41] fix: attach `;` after an embedded FROM or pipe query to
 the enclosing statement

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4969423..81139e6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -305,7 +305,7 @@ impl Parser {
         let mut grouped = self.construct_node(NodeType::GroupedStatement)?;
         self.next_token()?; // ( -> SELECT | FROM
         if self.get_token(0)?.is("FROM") {
-            grouped.push_node("stmt", self.parse_from_statement()?);
+            grouped.push_node("stmt", self.parse_from_statement(false)?);
         } else {
             grouped.push_node("stmt", self.parse_select_statement(false, true)?);
         }
@@ -1105,7 +1105,7 @@ impl Parser {
                 // actually, it may be pipe syntax
                 self.parse_select_statement(semicolon, true)?
             }
-            "FROM" => self.parse_from_statement()?, // pipe syntax
+            "FROM" => self.parse_from_statement(semicolon)?, // pipe syntax
             // DML
             "INSERT" => self.parse_insert_statement(semicolon)?,
             "DELETE" => self.parse_delete_statement(semicolon)?,
@@ -2024,7 +2024,7 @@ impl Parser {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
             self.next_token()?; // ( -> SELECT
             if self.get_token(0)?.is("FROM") {
-                node.push_node("stmt", self.parse_from_statement()?);
+                node.push_node("stmt", self.parse_from_statement(false)?);
             } else {
                 node.push_node("stmt", self.parse_select_statement(false, true)?);
             }
@@ -2080,7 +2080,7 @@ impl Parser {
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
             } else if self.get_token(1)?.is("|>") {
                 self.next_token()?; // -> |>
-                return self.parse_pipe_statement(node);
+                return self.parse_pipe_statement(node, semicolon);
             }
             return Ok(node);
         }
@@ -2088,7 +2088,7 @@ impl Parser {
             let with = self.parse_with_clause()?;
             self.next_token()?; // -> SELECT | '(' | FROM
             let mut node = if self.get_token(0)?.is("FROM") {
-                self.parse_from_statement()?
+                self.parse_from_statement(semicolon)?
             } else {
                 self.parse_select_statement(semicolon, true)?
             };
@@ -2253,27 +2253,27 @@ impl Parser {
             node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         } else if self.get_token(1)?.is("|>") && root {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(node);
+            return self.parse_pipe_statement(node, semicolon);
         }
         Ok(node)
     }
-    fn parse_from_statement(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
         from.push_node("expr", self.parse_table(true)?);
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(from);
+            return self.parse_pipe_statement(from, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             from.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
         Ok(from)
     }
-    fn parse_pipe_statement(&mut self, left: Node) -> BQ2CSTResult<Node> {
+    fn parse_pipe_statement(&mut self, left: Node, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut pipe = self.construct_node(NodeType::PipeStatement)?;
         pipe.push_node("left", left);
         self.next_token()?; // -> SELECT | LIMIT | ...
@@ -2313,10 +2313,10 @@ impl Parser {
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(pipe);
+            return self.parse_pipe_statement(pipe, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             pipe.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
-- 
2.43.0


From a0962a97834c4c78424030cfdb491874b34e5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:45 +0000
Subject: [PATCH 11/41] fix: `|>` after a subquery in FROM clause or a set
 operand applies to the whole query

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 81139e6..4c2a182 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2078,7 +2078,7 @@ impl Parser {
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
-            } else if self.get_token(1)?.is("|>") {
+            } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
                 return self.parse_pipe_statement(node, semicolon);
             }
-- 
2.43.0


From 43a640fff97a2d679d7dad6c7e1fba91e78685a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:45 +0000
Subject: [PATCH 12/41] fix: do not parse FULL, LEFT or INNER before a set
 operator as a join type

---
 src/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4c2a182..5fcbdcd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -183,6 +183,21 @@ impl Parser {
         };
         self.tokens.len() - 1 <= idx
     }
+    fn is_set_operator_with_method(&self, offset: usize) -> BQ2CSTResult<bool> {
+        if !self
+            .get_token(offset)?
+            .in_(&vec!["INNER", "FULL", "LEFT", "OUTER"])
+        {
+            return Ok(false);
+        }
+        let mut offset = offset + 1;
+        if self.get_token(offset)?.is("OUTER") {
+            offset += 1;
+        }
+        Ok(self
+            .get_token(offset)?
+            .in_(&vec!["UNION", "INTERSECT", "EXCEPT"]))
+    }
     fn next_token(&mut self) -> BQ2CSTResult<()> {
         // leading comments
         self.leading_comment_indices = Vec::new();
@@ -1380,6 +1395,8 @@ impl Parser {
         while self.get_token(1)?.in_(&vec![
             "left", "right", "cross", "inner", "full", "join", ",",
         ]) && root
+            // e.g. SELECT 1 FROM t FULL OUTER UNION ALL SELECT 2
+            && !self.is_set_operator_with_method(1)?
         {
             self.next_token()?; // table -> LEFT, RIGHT, INNER, CROSS, FULL, JOIN, ","
             let mut join = if self.get_token(0)?.in_(&vec!["join", ","]) {
-- 
2.43.0


From a9b1f2282939fd49845bc4c49cc09de2f6ba84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:45 +0000
Subject: [PATCH 13/41] fix: accept labeled, BREAK and CONTINUE statements at
 EOF without `;`

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5fcbdcd..1bb9b7f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4140,7 +4140,7 @@ impl Parser {
         };
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> trailing_label
             stmt.push_node("trailing_label", self.construct_node(NodeType::Identifier)?);
         }
@@ -4152,7 +4152,7 @@ impl Parser {
     }
     fn parse_break_continue_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut node = self.construct_node(NodeType::BreakContinueStatement)?;
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> label
             node.push_node("label", self.construct_node(NodeType::Identifier)?);
         }
-- 
2.43.0


From 8d06cd97c79fabd48af0be64afb20a8522eee258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:56 +0000
Subject: [PATCH 14/41] fix: parse * EXCEPT (...) REPLACE (...), and EXCEPT
 DISTINCT after * as a set operator

---
 src/parser.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1bb9b7f..c79f31e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -371,24 +371,19 @@ impl Parser {
             match self.get_token(0)?.literal.to_uppercase().as_str() {
                 "*" => {
                     left.node_type = NodeType::Asterisk;
-                    match self.get_token(1)?.literal.to_uppercase().as_str() {
-                        "REPLACE" => {
-                            self.next_token()?; // * -> REPLACE
-                            let mut replace =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // REPLACE -> (
-                            replace.push_node("group", self.parse_grouped_exprs(true)?);
-                            left.push_node("replace", replace);
-                        }
-                        "EXCEPT" => {
-                            self.next_token()?; // * -> except
-                            let mut except =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // except -> (
-                            except.push_node("group", self.parse_grouped_exprs(false)?);
-                            left.push_node("except", except);
-                        }
-                        _ => (),
+                    if self.get_token(1)?.is("EXCEPT") && self.get_token(2)?.is("(") {
+                        self.next_token()?; // * -> except
+                        let mut except = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // except -> (
+                        except.push_node("group", self.parse_grouped_exprs(false)?);
+                        left.push_node("except", except);
+                    }
+                    if self.get_token(1)?.is("REPLACE") && self.get_token(2)?.is("(") {
+                        self.next_token()?; // -> REPLACE
+                        let mut replace = self.construct_node(NodeType::KeywordWithGroupedXXX)?;
+                        self.next_token()?; // REPLACE -> (
+                        replace.push_node("group", self.parse_grouped_exprs(true)?);
+                        left.push_node("replace", replace);
                     }
                 }
                 // STRUCT
-- 
2.43.0


From fab5e37fa7e920b067ebd4e83e270c250a5ccad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:16 +0000
Subject: [PATCH 15/41] fix: accept NOT NULL after the DEFAULT expression of a
 column

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c79f31e..7a55e18 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -130,7 +130,7 @@ impl Parser {
             "=" | "<" | ">" | "<=" | ">=" | "!=" | "<>" | "LIKE" | "BETWEEN" | "IN" | "IS" => 109,
             "NOT" => match self.get_token(offset + 1)?.literal.to_uppercase().as_str() {
                 "IN" | "LIKE" | "BETWEEN" => 109,
-                "ENFORCED" => usize::MAX,
+                "ENFORCED" | "NULL" => usize::MAX, // DEFAULT expr NOT NULL
                 _ => {
                     return Err(BQ2CSTError::from_token(
                         self.get_token(offset + 1)?,
-- 
2.43.0


From 278a112447ddd393c3422bd3551b616cd7340aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:34 +0000
Subject: [PATCH 16/41] fix: recognize 4., 4.e3 and hexadecimal integers as
 numeric literals

---
 src/lexer.rs | 20 ++++++++++++++++++++
 src/token.rs |  5 ++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 1715aba..274deb1 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -357,6 +357,19 @@ impl Lexer {
     }
     fn read_number(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        if self.get_char(0) == Some('0')
+            && (self.get_char(1) == Some('x') || self.get_char(1) == Some('X'))
+            && is_hex_digit(&self.get_char(2))
+        {
+            self.next_char()?; // 0 -> x
+            self.next_char()?; // x -> F
+            while is_hex_digit(&self.get_char(0)) {
+                self.next_char()?;
+            }
+            return Ok(self.input[first_position..self.position]
+                .into_iter()
+                .collect());
+        }
         while is_digit(&self.get_char(0)) {
             self.next_char()?;
         } // 9 -> .
@@ -426,6 +439,13 @@ fn is_digit(ch: &Option<char>) -> bool {
     }
 }
 
+fn is_hex_digit(ch: &Option<char>) -> bool {
+    match ch {
+        Some(ch) => ch.is_digit(16),
+        None => false,
+    }
+}
+
 fn is_end_of_line(ch: &Option<char>) -> bool {
     match ch {
         Some(ch) => ch == &'\n',
diff --git a/src/token.rs b/src/token.rs
index 55df731..c7f772d 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,10 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(
+            r"^(0[xX][0-9a-fA-F]+|([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?)$",
+        )
+        .unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From 44acd0cf773dc95cd94bbe4bb856149d9b7e3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:55 +0000
Subject: [PATCH 17/41] fix: OPTIONS(...) after CLONE is not an alias of the
 table

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7a55e18..cf795f8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1313,6 +1313,7 @@ impl Parser {
             .get_token(1)?
             .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE"])
             && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"]))
+            && !(self.get_token(1)?.is("OPTIONS") && self.get_token(2)?.is("("))
         {
             left = self.push_trailing_alias(left)?;
         }
-- 
2.43.0


From 682748486fab3528637b81e2a2d1ecc1bb0cba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:12 +0000
Subject: [PATCH 18/41] fix: accept pattern quantifier {m,} which has no upper
 bound

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cf795f8..b654a2b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1989,8 +1989,10 @@ impl Parser {
         if self.get_token(1)?.is(",") {
             self.next_token()?; // -> ,
             quantifier.push_node("comma", self.construct_node(NodeType::Symbol)?);
-            self.next_token()?; // -> n
-            quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            if !self.get_token(1)?.is("}") {
+                self.next_token()?; // -> n
+                quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            }
         }
         self.next_token()?; // -> }
         quantifier.push_node("rbrace", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0


From 2c3943d81a4d56f8471912b475853e46023d73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:12 +0000
Subject: [PATCH 19/41] fix: parse a subquery which starts with FROM in
 expressions

---
 src/parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b654a2b..3e7c5d8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -390,9 +390,9 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT"]) {
+                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT", "FROM"]) {
                         left.node_type = NodeType::GroupedStatement;
-                        left.push_node("stmt", self.parse_select_statement(false, true)?);
+                        left.push_node("stmt", self.parse_statement(false)?);
                         self.next_token()?; // expr -> )
                         left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                     } else if self.get_token(0)?.is(")") {
@@ -526,6 +526,10 @@ impl Parser {
                     // in the case of `ARRAY(SELECT 1)`
                     left = self.parse_select_statement(false, true)?;
                 }
+                "FROM" => {
+                    // in the case of `ARRAY(FROM t)`
+                    left = self.parse_from_statement(false)?;
+                }
                 "NOT" => {
                     self.next_token()?; // NOT -> boolean
                     let right = self.parse_expr(110, false, false, false, true)?;
@@ -1011,10 +1015,10 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH"]) {
+            if self.get_token(1)?.in_(&vec!["SELECT", "WITH", "FROM"]) {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
-                self.next_token()?; // -> SELECT | WITH
-                lparen.push_node("stmt", self.parse_select_statement(false, true)?);
+                self.next_token()?; // -> SELECT | WITH | FROM
+                lparen.push_node("stmt", self.parse_statement(false)?);
                 self.next_token()?; // -> )
                 lparen.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                 node.push_node("right", lparen);
-- 
2.43.0


From bf82ec5db6ced6dba4065dbc1b01361cb4f6c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:12 +0000
Subject: [PATCH 20/41] fix: allow a trailing comma before `|>` and before `)`
 in pipe syntax

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3e7c5d8..5a5eb09 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2170,6 +2170,7 @@ impl Parser {
                     "EXCEPT",
                     ";",
                     ")",
+                    "|>",
                 ],
                 true,
                 true,
@@ -2366,7 +2367,7 @@ impl Parser {
             operator.push_node("keywords", temp)
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "WINDOW"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", "WINDOW", "|>", ")"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("WINDOW") {
             self.next_token()?; // -> WINDOW
@@ -2396,7 +2397,7 @@ impl Parser {
     fn parse_aggregate_pipe_operator(&mut self) -> BQ2CSTResult<Node> {
         let mut operator = self.construct_node(NodeType::AggregatePipeOperator)?;
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", "GROUP", "|>", ")"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         if self.get_token(1)?.is("GROUP") {
             self.next_token()?; // expr -> GROUP
@@ -2537,7 +2538,7 @@ impl Parser {
             operator.push_node("keywords", self.construct_node(NodeType::Keyword)?);
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", "|>", ")"], true, true)?;
         operator.push_node_vec("exprs", exprs);
         Ok(operator)
     }
-- 
2.43.0


From 816cc374310b126b87791e6e1066bec46465f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:12 +0000
Subject: [PATCH 21/41] fix: accept ORDER BY and LIMIT after a set operation
 whose last operand is parenthesized

---
 src/parser.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 5a5eb09..ebba680 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2267,6 +2267,17 @@ impl Parser {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
+        // SELECT 1 UNION ALL (SELECT 2) ORDER BY 1 LIMIT 1
+        if node.node_type == NodeType::SetOperator {
+            if self.get_token(1)?.is("ORDER") {
+                self.next_token()?; // -> ORDER
+                node.push_node("orderby", self.parse_xxxby_exprs()?);
+            }
+            if self.get_token(1)?.is("LIMIT") {
+                self.next_token()?; // -> LIMIT
+                node.push_node("limit", self.parse_limit_clause()?);
+            }
+        }
         // ;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // expr -> ;
@@ -2277,6 +2288,25 @@ impl Parser {
         }
         Ok(node)
     }
+    fn parse_limit_clause(&mut self) -> BQ2CSTResult<Node> {
+        let mut limit = self.construct_node(NodeType::LimitClause)?;
+        self.next_token()?; // LIMIT -> expr
+        limit.push_node(
+            "expr",
+            self.parse_expr(usize::MAX, false, false, false, true)?,
+        );
+        if self.get_token(1)?.is("OFFSET") {
+            self.next_token()?; // expr -> OFFSET
+            let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
+            self.next_token()?; // OFFSET -> expr
+            offset.push_node(
+                "expr",
+                self.parse_expr(usize::MAX, false, false, false, true)?,
+            );
+            limit.push_node("offset", offset);
+        }
+        Ok(limit)
+    }
     fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
-- 
2.43.0


From abd6133b3714b34f56050525de86cb16b27f6ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:16 +0000
Subject: [PATCH 22/41] fix: do not parse parenthesized WITH(...) expression as
 a WITH clause

---
 src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ebba680..3ab3608 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -390,7 +390,10 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT", "FROM"]) {
+                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT", "FROM"])
+                        // in the case of `(WITH(a AS 1, a))`
+                        && !(self.get_token(0)?.is("WITH") && self.get_token(1)?.is("("))
+                    {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_statement(false)?);
                         self.next_token()?; // expr -> )
@@ -1015,7 +1018,9 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH", "FROM"]) {
+            if self.get_token(1)?.in_(&vec!["SELECT", "WITH", "FROM"])
+                && !(self.get_token(1)?.is("WITH") && self.get_token(2)?.is("("))
+            {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH | FROM
                 lparen.push_node("stmt", self.parse_statement(false)?);
-- 
2.43.0


From aaded41f7e537286f2869f8fe48809a4b6b03daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:42 +0000
Subject: [PATCH 23/41] fix: ASC, DESC and NULLS FIRST | LAST belong to the
 whole sort key, not to its last operand

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3ab3608..df8f562 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -234,14 +234,14 @@ impl Parser {
         // NOTE `AND` is not parsed as binary operator because of precedence
         between.push_node(
             "right_min",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         self.next_token()?; // expr1 -> AND
         between.push_node("and", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // AND -> expr2
         between.push_node(
             "right_max",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         Ok(between)
     }
@@ -260,7 +260,7 @@ impl Parser {
         node.push_node("left", left);
         node.push_node(
             "right",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         Ok(node)
     }
@@ -476,7 +476,7 @@ impl Parser {
                     self.next_token()?; // - -> expr
                     let right = self.parse_expr(
                         103, // NOTE 103 is a little greater than `.`
-                        false, false, false, true,
+                        false, false, false, false,
                     )?;
                     left.push_node("right", right);
                 }
@@ -488,7 +488,7 @@ impl Parser {
                     {
                         left.node_type = NodeType::UnaryOperator;
                         self.next_token()?; // -> expr
-                        let right = self.parse_expr(002, false, false, false, true)?;
+                        let right = self.parse_expr(002, false, false, false, false)?;
                         left.push_node("right", right);
                     }
                 }
@@ -509,13 +509,13 @@ impl Parser {
                 "TABLE" | "MODEL" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // TABLE -> ident
-                    let right = self.parse_expr(002, false, true, false, true)?;
+                    let right = self.parse_expr(002, false, true, false, false)?;
                     left.push_node("right", right);
                 }
                 "B" | "R" | "BR" | "RB" => {
                     if self.get_token(1)?.is_string() {
                         self.next_token()?; // R -> 'string'
-                        let right = self.parse_expr(001, false, false, false, true)?;
+                        let right = self.parse_expr(001, false, false, false, false)?;
                         left.push_node("right", right);
                         left.node_type = NodeType::UnaryOperator;
                     }
@@ -535,7 +535,7 @@ impl Parser {
                 }
                 "NOT" => {
                     self.next_token()?; // NOT -> boolean
-                    let right = self.parse_expr(110, false, false, false, true)?;
+                    let right = self.parse_expr(110, false, false, false, false)?;
                     left.push_node("right", right);
                     left.node_type = NodeType::UnaryOperator;
                 }
@@ -754,7 +754,7 @@ impl Parser {
                     if self.get_token(0)?.literal.as_str() == "*" {
                         dot.push_node(
                             "right",
-                            self.parse_expr(usize::MAX, false, false, false, true)?,
+                            self.parse_expr(usize::MAX, false, false, false, false)?,
                         );
                     } else {
                         // after dot true means parse as identifier
@@ -765,7 +765,7 @@ impl Parser {
                                 false,
                                 as_table,
                                 !is_chained_function,
-                                true,
+                                false,
                             )?,
                         );
                     }
@@ -1012,7 +1012,7 @@ impl Parser {
             self.next_token()?; // IN -> UNNEST
             let mut unnest = self.parse_expr(
                 102, // NOTE 102 is a little greater than `(` (calling function)
-                false, false, false, true,
+                false, false, false, false,
             )?;
             unnest.node_type = NodeType::CallingUnnest;
             node.push_node("right", unnest);
@@ -1048,7 +1048,7 @@ impl Parser {
         self.next_token()?; // FROM -> expr
         node.push_node(
             "right",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         Ok(node)
     }
-- 
2.43.0


From 31958bd5c059511662220b9d5c76fcf01ab15dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:32 +0000
Subject: [PATCH 24/41] fix: do not parse LEFT, INNER or FULL JOIN after a
 parenthesized query as a set operator

---
 src/parser.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index df8f562..b894060 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2060,15 +2060,11 @@ impl Parser {
                 ));
             }
             node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-            while self.get_token(1)?.in_(&vec![
-                "UNION",
-                "INTERSECT",
-                "EXCEPT",
-                "INNER",
-                "FULL",
-                "LEFT",
-                "OUTER",
-            ]) && root
+            while (self
+                .get_token(1)?
+                .in_(&vec!["UNION", "INTERSECT", "EXCEPT"])
+                || self.is_set_operator_with_method(1)?)
+                && root
             {
                 self.next_token()?;
                 node = self.parse_set_operator(node)?;
@@ -2259,15 +2255,11 @@ impl Parser {
             node.push_node("limit", limit);
         }
         // UNION
-        while self.get_token(1)?.in_(&vec![
-            "UNION",
-            "INTERSECT",
-            "EXCEPT",
-            "INNER",
-            "FULL",
-            "LEFT",
-            "OUTER",
-        ]) && root
+        while (self
+            .get_token(1)?
+            .in_(&vec!["UNION", "INTERSECT", "EXCEPT"])
+            || self.is_set_operator_with_method(1)?)
+            && root
         {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
-- 
2.43.0


From 49871b97fa554a9dfbe9399813f0869e1ac1407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:16 +0000
Subject: [PATCH 25/41] fix: parse a query which starts with FROM after AS or
 INSERT as FROM statement

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b894060..716ec0b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2115,6 +2115,9 @@ impl Parser {
             node.push_node("with", with);
             return Ok(node);
         }
+        if self.get_token(0)?.is("FROM") {
+            return self.parse_from_statement(semicolon); // pipe syntax
+        }
         // SELECT
         let mut node = self.construct_node(NodeType::SelectStatement)?;
 
-- 
2.43.0


From a4784d9567bd6082cd22b3dadae5860f255306c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:59 +0000
Subject: [PATCH 26/41] fix: parse the source of MERGE as a table (e.g. USING
 my-project.dataset.table)

---
 src/parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 716ec0b..a2c95e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2704,10 +2704,7 @@ impl Parser {
         self.next_token()?; // -> USING
         let mut using = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // USING -> expr
-        using.push_node(
-            "expr",
-            self.parse_expr(usize::MAX, true, false, false, true)?,
-        );
+        using.push_node("expr", self.parse_table(true)?);
         merge.push_node("using", using);
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
-- 
2.43.0


From 2af96cf99b2dd1be140ac8ba2ef727565e7d734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:45 +0000
Subject: [PATCH 27/41] fix: `<` after a field named array, range or struct
 does not open a type (e.g. tbl.array < 1)

---
 src/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 274deb1..34139b6 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,8 +153,11 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if let Some(last_token) = self.tokens.iter().rev().find(|t| !t.is_comment()) {
-                        if last_token.in_(&vec!["ARRAY", "RANGE", "STRUCT"]) {
+                    let mut prev_tokens = self.tokens.iter().rev().filter(|t| !t.is_comment());
+                    if let Some(last_token) = prev_tokens.next() {
+                        // a field may have the same name as a type (e.g. tbl.array < 1)
+                        let is_field = prev_tokens.next().map_or(false, |t| t.is("."));
+                        if last_token.in_(&vec!["ARRAY", "RANGE", "STRUCT"]) && !is_field {
                             self.type_declaration_depth += 1;
                         }
                     }
-- 
2.43.0


From 999cb9dd6fecab3c38fef9cdab1d2804f773222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:49 +0000
Subject: [PATCH 28/41] fix: an empty template (e.g. {} or {{}}) is not
 unterminated

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 34139b6..9097448 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -227,9 +227,9 @@ impl Lexer {
                 } else {
                     let mut end = false;
                     'outer: while !end {
-                        self.next_char()?;
                         for i in 0..count {
                             if self.get_char(i) != Some('}') {
+                                self.next_char()?;
                                 continue 'outer;
                             };
                         }
-- 
2.43.0


From 2bc5cdaade1dc3381572e8fc774492e07067210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:01 +0000
Subject: [PATCH 29/41] fix: do not parse a broken subquery in FROM clause as a
 table whose name is SELECT

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index a2c95e5..bab93b5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1277,6 +1277,9 @@ impl Parser {
                     group = match self.parse_select_statement(false, false) {
                         Ok(stmt) => stmt,
 
+                        // `SELECT` is not a name of table
+                        Err(err) if offset == 1 => return Err(err),
+
                         // maybe that is a table quoted by ()! not a select statement!
                         Err(_) => {
                             // restore original state
-- 
2.43.0


From 497181b4d1299662046bf7b337294edae90f1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:22 +0000
Subject: [PATCH 30/41] fix: do not accept another token in place of a closing
 bracket or END (e.g. SELECT f(a b)

---
 src/parser.rs | 63 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bab93b5..58ad93d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -100,6 +100,20 @@ impl Parser {
         }
         Ok(node)
     }
+    fn construct_rparen(&self, literal: &str) -> BQ2CSTResult<Node> {
+        self.expect(literal)?;
+        self.construct_node(NodeType::Symbol)
+    }
+    fn expect(&self, literal: &str) -> BQ2CSTResult<()> {
+        let token = self.get_token(0)?;
+        if !token.is(literal) {
+            return Err(BQ2CSTError::from_token(
+                token,
+                format!("Expected `{}` but got: {:?}", literal, token),
+            ));
+        }
+        Ok(())
+    }
     fn get_precedence(&self, offset: usize) -> BQ2CSTResult<usize> {
         // https://cloud.google.com/bigquery/docs/reference/standard-sql/operators
         // 001... - (identifier e.g. region-us)
@@ -397,7 +411,7 @@ impl Parser {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_statement(false)?);
                         self.next_token()?; // expr -> )
-                        left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                        left.push_node("rparen", self.construct_rparen(")")?);
                     } else if self.get_token(0)?.is(")") {
                         left.node_type = NodeType::EmptyStruct;
                         left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
@@ -411,7 +425,7 @@ impl Parser {
                             left.push_node_vec("exprs", exprs);
                         }
                         self.next_token()?; // expr -> )
-                        left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                        left.push_node("rparen", self.construct_rparen(")")?);
                     }
                 }
                 "STRUCT" => {
@@ -429,7 +443,7 @@ impl Parser {
                         exprs.push(expr)
                     }
                     self.next_token()?; // -> )
-                    struct_literal.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    struct_literal.push_node("rparen", self.construct_rparen(")")?);
                     struct_literal.push_node_vec("exprs", exprs);
                     struct_literal.push_node("type", type_);
                     left = struct_literal;
@@ -451,7 +465,7 @@ impl Parser {
                         left.push_node_vec("exprs", self.parse_exprs(&vec![], false, true)?);
                         self.next_token()?; // exprs -> ]
                     }
-                    left.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    left.push_node("rparen", self.construct_rparen("]")?);
                 }
                 "ARRAY" => {
                     // when used as literal
@@ -466,7 +480,7 @@ impl Parser {
                             arr.push_node_vec("exprs", self.parse_exprs(&vec![], false, true)?);
                             self.next_token()?; // exprs -> ]
                         }
-                        arr.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                        arr.push_node("rparen", self.construct_rparen("]")?);
                         arr.push_node("type", type_);
                         left = arr;
                     }
@@ -578,6 +592,7 @@ impl Parser {
                         self.next_token()?; // result_expr -> end
                     }
                     left.push_node_vec("arms", arms);
+                    self.expect("END")?;
                     left.push_node("end", self.construct_node(NodeType::Keyword)?);
                 }
                 _ => (),
@@ -700,7 +715,7 @@ impl Parser {
                         }
                         self.next_token()?; // expr -> )
                     }
-                    node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    node.push_node("rparen", self.construct_rparen(")")?);
                     if self.get_token(1)?.is("over") {
                         self.next_token()?; // ) -> OVER
                         let mut over = self.construct_node(NodeType::OverClause)?;
@@ -720,7 +735,7 @@ impl Parser {
                         self.parse_expr(usize::MAX, false, false, false, true)?,
                     );
                     self.next_token()?; // expr -> ]
-                    node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    node.push_node("rparen", self.construct_rparen("]")?);
                     left = node;
                 }
                 "." => {
@@ -899,7 +914,7 @@ impl Parser {
             group.push_node_vec("exprs", self.parse_exprs(&vec![")"], alias, true)?);
         }
         self.next_token()?; // exprs -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_rparen(")")?);
         Ok(group)
     }
     fn parse_grouped_type_declaration_or_constraints(
@@ -1025,7 +1040,7 @@ impl Parser {
                 self.next_token()?; // -> SELECT | WITH | FROM
                 lparen.push_node("stmt", self.parse_statement(false)?);
                 self.next_token()?; // -> )
-                lparen.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                lparen.push_node("rparen", self.construct_rparen(")")?);
                 node.push_node("right", lparen);
             } else {
                 node.push_node("right", self.parse_grouped_exprs(false)?);
@@ -1294,7 +1309,7 @@ impl Parser {
                             self.next_token()?; // ( -> table
                             group.push_node("expr", self.parse_table(true)?);
                             self.next_token()?; // -> )
-                            group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                            group.push_node("rparen", self.construct_rparen(")")?);
                             group
                         }
                     }
@@ -1303,7 +1318,7 @@ impl Parser {
                     self.next_token()?; // ( -> expr
                     group.push_node("expr", self.parse_table(true)?);
                     self.next_token()?; // table -> )
-                    group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    group.push_node("rparen", self.construct_rparen(")")?);
                 }
                 left = group;
             }
@@ -1460,7 +1475,7 @@ impl Parser {
                     self.next_token()?; // < -> type
                     type_.push_node("type", self.parse_type(schema, false)?);
                     self.next_token()?; // type -> >
-                    type_.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    type_.push_node("rparen", self.construct_rparen(">")?);
                     res.push_node("type_declaration", type_);
                 }
                 res
@@ -1492,7 +1507,7 @@ impl Parser {
                         }
                         type_declarations.push(type_declaration);
                     }
-                    type_.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                    type_.push_node("rparen", self.construct_rparen(">")?);
                     type_.push_node_vec("declarations", type_declarations);
                     res.push_node("type_declaration", type_);
                 }
@@ -1672,7 +1687,7 @@ impl Parser {
                 window.push_node("frame", frame)
             }
             self.next_token()?; // -> )
-            window.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+            window.push_node("rparen", self.construct_rparen(")")?);
             Ok(window)
         } else {
             Ok(self.construct_node(NodeType::Identifier)?)
@@ -1766,7 +1781,7 @@ impl Parser {
         self.next_token()?; // -> PERCENT
         group.push_node("percent", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_rparen(")")?);
         Ok(group)
     }
     fn parse_pivot_config_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1781,7 +1796,7 @@ impl Parser {
         self.next_token()?; // -> IN
         config.push_node("in", self.parse_keyword_with_grouped_exprs(true)?);
         self.next_token()?; // -> )
-        config.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        config.push_node("rparen", self.construct_rparen(")")?);
         Ok(config)
     }
     fn parse_unpivot_config_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1836,12 +1851,12 @@ impl Parser {
             exprs.push(expr);
         }
         self.next_token()?; // -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_rparen(")")?);
         group.push_node_vec("exprs", exprs);
         in_.push_node("group", group);
         config.push_node("in", in_);
         self.next_token()?; // -> )
-        config.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        config.push_node("rparen", self.construct_rparen(")")?);
         Ok(config)
     }
     fn parse_match_recognize_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1912,7 +1927,7 @@ impl Parser {
             config.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
         };
         self.next_token()?; // -> )
-        config.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        config.push_node("rparen", self.construct_rparen(")")?);
         Ok(config)
     }
     fn parse_by_name_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -1961,7 +1976,7 @@ impl Parser {
         }
         group.push_node_vec("patterns", patterns);
         self.next_token()?; // -> )
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_rparen(")")?);
         Ok(group)
     }
     fn parse_pattern(&mut self) -> BQ2CSTResult<Node> {
@@ -2007,7 +2022,7 @@ impl Parser {
             }
         }
         self.next_token()?; // -> }
-        quantifier.push_node("rbrace", self.construct_node(NodeType::Symbol)?);
+        quantifier.push_node("rbrace", self.construct_rparen("}")?);
         Ok(quantifier)
     }
     fn parse_corresponding_clause(&mut self) -> BQ2CSTResult<Node> {
@@ -2844,7 +2859,7 @@ impl Parser {
             all.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
             group.push_node("expr", all);
             self.next_token()?; // -> )
-            group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+            group.push_node("rparen", self.construct_rparen(")")?);
             create.push_node("column_group", group);
         } else {
             create.push_node("column_group", self.parse_grouped_exprs(false)?);
@@ -3140,7 +3155,7 @@ impl Parser {
                     self.parse_expr(usize::MAX, false, false, false, true)?,
                 );
                 self.next_token()?; // expr -> )
-                group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                group.push_node("rparen", self.construct_rparen(")")?);
                 as_.push_node("group", group);
                 node.push_node("as", as_);
             }
@@ -3367,7 +3382,7 @@ impl Parser {
                 self.next_token()?; // -> custom_holiday
                 group.push_node("custom_holiday", self.parse_cte()?);
                 self.next_token()?; // -> )
-                group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+                group.push_node("rparen", self.construct_rparen(")")?);
                 as_.push_node("group", group);
                 create.push_node("training_data_custom_holiday", as_)
             } else {
-- 
2.43.0


From 8a90802cb6f8f95a1f17a9e2d92cae3efd6034fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:41 +0000
Subject: [PATCH 31/41] fix: do not accept a statement with unknown keyword as
 a labeled one (e.g. SELCT a FROM t)

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 58ad93d..0ce018e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4170,6 +4170,7 @@ impl Parser {
     fn parse_labeled_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let label = self.construct_node(NodeType::Identifier)?;
         self.next_token()?; // -> :
+        self.expect(":")?;
         let colon = self.construct_node(NodeType::Symbol)?;
         self.next_token()?; // -> stmt
         let mut stmt = self.parse_statement(false)?;
-- 
2.43.0


From 71f4764ea3582701fc8e9382a6ace126599236c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:51 +0000
Subject: [PATCH 32/41] fix: declare children which may be missing as optional
 in TypeScript

---
 src/types.rs | 67 ++++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 89f22f7..b97fc24 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -203,7 +203,7 @@ export type Expr = BaseNode & {
 
 export type FromItemExpr = Expr & {
   children: {
-    with_offset: NodeChild;
+    with_offset?: NodeChild;
     pivot?: NodeChild;
     unpivot?: NodeChild;
     match_recognize?: NodeChild;
@@ -284,7 +284,7 @@ export type AlterColumnStatement = BaseNode & {
     if_exists?: NodeVecChild;
     ident: NodeChild;
     // SET
-    set: NodeChild;
+    set?: NodeChild;
     options?: NodeChild;
     data_type?: NodeVecChild;
     type?: NodeChild;
@@ -434,8 +434,8 @@ export type AssertStatement = XXXStatement & {
   node_type: "AssertStatement";
   children: {
     expr: NodeChild;
-    as: NodeChild;
-    description: NodeChild;
+    as?: NodeChild;
+    description?: NodeChild;
   };
 };
 
@@ -697,7 +697,7 @@ export type CreateSchemaStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    default_collate: NodeChild;
+    default_collate?: NodeChild;
     with_connection?: NodeChild;
     options?: NodeChild;
   };
@@ -729,8 +729,8 @@ export type CreateTableStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    like_or_copy: NodeChild;
-    source_table: NodeChild;
+    like_or_copy?: NodeChild;
+    source_table?: NodeChild;
     column_schema_group?: NodeChild;
     default_collate?: NodeChild;
     clone?: NodeChild;
@@ -771,7 +771,7 @@ export type DeclareStatement = XXXStatement & {
 export type DeleteStatement = XXXStatement & {
   node_type: "DeleteStatement";
   children: {
-    from: NodeChild;
+    from?: NodeChild;
     table_name: NodeChild;
     where: NodeChild;
   };
@@ -847,7 +847,7 @@ export type ExecuteStatement = XXXStatement & {
   children: {
     immediate: NodeChild;
     sql_expr: NodeChild;
-    into: NodeChild;
+    into?: NodeChild;
     using?: NodeChild;
   };
 };
@@ -877,8 +877,8 @@ export type ExtractArgument = BaseNode & {
   children: {
     extract_datepart: NodeChild;
     extract_from: NodeChild;
-    at_time_zone: NodeVecChild;
-    time_zone: NodeChild;
+    at_time_zone?: NodeVecChild;
+    time_zone?: NodeChild;
   };
 };
 
@@ -904,7 +904,7 @@ export type ForSystemTimeAsOfClause = BaseNode & {
 export type FromStatement = XXXStatement & {
   node_type: "FromStatement";
   children: {
-    with: NodeChild;
+    with?: NodeChild;
     expr: NodeChild;
   };
 }
@@ -986,15 +986,15 @@ export type GroupedStatement = FromItemExpr &
       with?: { Node: WithClause };
       stmt: NodeChild;
       rparen: NodeChild;
-      orderby: NodeChild;
-      limit: NodeChild;
+      orderby?: NodeChild;
+      limit?: NodeChild;
     };
   };
 
 export type GroupedTypeDeclarationOrConstraints = BaseNode & {
   node_type: "GroupedTypeDeclarationOrConstraints";
   children: {
-    declarations: NodeVecChild;
+    declarations?: NodeVecChild;
     rparen: NodeChild;
   };
 };
@@ -1027,8 +1027,8 @@ export type IfStatement = XXXStatement & {
   children: {
     condition: NodeChild;
     then: NodeChild;
-    elseifs: NodeVecChild;
-    else: NodeChild;
+    elseifs?: NodeVecChild;
+    else?: NodeChild;
     end_if: NodeVecChild;
   };
 };
@@ -1078,12 +1078,12 @@ export type IsDistinctFromOperator = Expr & {
 export type JoinOperator = FromItemExpr & {
   node_type: "JoinOperator";
   children: {
-    join_type: NodeChild;
-    outer: NodeChild;
+    join_type?: NodeChild;
+    outer?: NodeChild;
     left: NodeChild;
     right: NodeChild;
-    on: NodeChild;
-    using: NodeChild;
+    on?: NodeChild;
+    using?: NodeChild;
     order: undefined;
     null_order: undefined;
     comma: undefined;
@@ -1107,7 +1107,7 @@ export type Keyword = BaseNode & {
 export type KeywordSequence = BaseNode & {
   node_type: "KeywordSequence";
   children: {
-    next_keyword: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
+    next_keyword?: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
   };
 };
 
@@ -1186,7 +1186,7 @@ export type MatchRecognizeConfig = BaseNode & {
     orderby?: NodeChild;
     measures?: NodeChild;
     skip_rule?: NodeChild;
-    pattern: NodeChild;
+    pattern?: NodeChild;
     define?: NodeChild;
     options?: NodeChild;
     rparen: NodeChild;
@@ -1542,10 +1542,9 @@ export type Type = BaseNode & {
 };
 
 export type TypeDeclaration = BaseNode & {
-  token: Token;
   node_type: "TypeDeclaration";
   children: {
-    in_out: NodeChild;
+    in_out?: NodeChild;
     type: NodeChild;
     comma?: NodeChild;
   };
@@ -1602,7 +1601,7 @@ export type UnpivotOperator = BaseNode & {
   token: Token;
   node_type: "UnpivotOperator";
   children: {
-    include_or_exclude_nulls: NodeVecChild;
+    include_or_exclude_nulls?: NodeVecChild;
     config: NodeChild;
     as?: NodeChild;
     alias?: NodeChild;
@@ -1615,7 +1614,7 @@ export type UpdateStatement = XXXStatement & {
     table_name?: NodeChild;
     set: NodeChild;
     from?: NodeChild;
-    where: NodeChild;
+    where?: NodeChild;
   };
 };
 
@@ -1624,8 +1623,8 @@ export type WhenClause = BaseNode & {
   children: {
     not?: NodeChild;
     matched: NodeChild;
-    by_target_or_source: NodeVecChild;
-    and: NodeChild;
+    by_target_or_source?: NodeVecChild;
+    and?: NodeChild;
     then: NodeChild;
   };
 };
@@ -1673,9 +1672,9 @@ export type WindowSpecification = BaseNode & {
   node_type: "WindowSpecification";
   children: {
     name?: NodeChild;
-    partitionby: NodeChild;
-    orderby: NodeChild;
-    frame: NodeChild;
+    partitionby?: NodeChild;
+    orderby?: NodeChild;
+    frame?: NodeChild;
     rparen: NodeChild;
   };
 };
@@ -1710,7 +1709,7 @@ export type WithPartitionColumnsClause = BaseNode & {
   node_type: "WithPartitionColumnsClause";
   children: {
     partition_columns: NodeVecChild;
-    column_schema_group: NodeChild;
+    column_schema_group?: NodeChild;
   };
 };
 
@@ -1720,7 +1719,7 @@ export type WithQuery = BaseNode & {
   children: {
     as: { Node: Keyword };
     stmt: { Node: GroupedStatement };
-    comma: NodeChild;
+    comma?: NodeChild;
   };
 };
 
-- 
2.43.0


From 4fd5594fca1478d85338dd5d1d07ba8d22761de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:58 +0000
Subject: [PATCH 33/41] fix: declare children which were missing from the
 TypeScript types

---
 src/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index b97fc24..f80ca40 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1009,6 +1009,9 @@ export type GroupedType = BaseNode & {
 
 export type Identifier = IdentifierGeneral & {
   node_type: "Identifier";
+  children: {
+    row_value_alias?: NodeChild;
+  };
 };
 
 export type IdentWithOptions = Expr & {
@@ -1059,8 +1062,6 @@ export type IntervalLiteral = Expr & {
     date_part: NodeChild;
     to?: NodeChild;
     to_date_part?: NodeChild;
-    order: undefined;
-    null_order: undefined;
   };
 };
 
@@ -1315,6 +1316,7 @@ export type PatternQuantifier = BaseNode & {
 export type PipeStatement = XXXStatement & {
   node_type: "PipeStatement";
   children: {
+    with?: { Node: WithClause };
     left: NodeChild;
     right: NodeChild;
   };
@@ -1435,6 +1437,8 @@ export type SetOperator = XXXStatement & {
     distinct_or_all: NodeChild;
     left: { Node: SetOperator | SelectStatement | GroupedStatement };
     right: { Node: SetOperator | SelectStatement | GroupedStatement };
+    orderby?: NodeChild;
+    limit?: NodeChild;
   };
 };
 
-- 
2.43.0


From a27d7951a46364cb1841679addf1d382c7f7948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:55 +0000
Subject: [PATCH 34/41] fix: parse a parenthesized query which is followed by a
 set operator, ORDER BY, LIMIT or `|>` in expressions (e.g. ARRAY((SELECT 1)
 UNION ALL SELECT 2))

---
 src/parser.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ce018e..612d79f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -212,6 +212,46 @@ impl Parser {
             .get_token(offset)?
             .in_(&vec!["UNION", "INTERSECT", "EXCEPT"]))
     }
+    fn is_query(&self, offset: usize) -> BQ2CSTResult<bool> {
+        if !self.get_token(offset)?.is("(") {
+            return Ok(self
+                .get_token(offset)?
+                .in_(&vec!["WITH", "SELECT", "FROM"])
+                // in the case of `(WITH(a AS 1, a))`
+                && !(self.get_token(offset)?.is("WITH") && self.get_token(offset + 1)?.is("(")));
+        }
+        // in the case of `(SELECT 1) UNION ALL SELECT 2`
+        let mut query = offset + 1;
+        while self.get_token(query)?.is("(") {
+            query += 1;
+        }
+        if !self.is_query(query)? {
+            return Ok(false);
+        }
+        let mut rparen = offset;
+        let mut depth = 0;
+        for token in &self.tokens[self.get_offset_index(offset)?..] {
+            if token.is_comment() {
+                continue;
+            } else if token.is("(") {
+                depth += 1;
+            } else if token.is(")") {
+                depth -= 1;
+            }
+            if depth == 0 {
+                return Ok(self.get_token(rparen + 1)?.in_(&vec![
+                    "UNION",
+                    "INTERSECT",
+                    "EXCEPT",
+                    "ORDER",
+                    "LIMIT",
+                    "|>",
+                ]) || self.is_set_operator_with_method(rparen + 1)?);
+            }
+            rparen += 1;
+        }
+        Ok(false)
+    }
     fn next_token(&mut self) -> BQ2CSTResult<()> {
         // leading comments
         self.leading_comment_indices = Vec::new();
@@ -404,10 +444,7 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT", "FROM"])
-                        // in the case of `(WITH(a AS 1, a))`
-                        && !(self.get_token(0)?.is("WITH") && self.get_token(1)?.is("("))
-                    {
+                    if self.is_query(0)? {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_statement(false)?);
                         self.next_token()?; // expr -> )
@@ -662,6 +699,9 @@ impl Parser {
                                 }
                                 node.push_node_vec("args", vec![from]);
                             }
+                            "ARRAY" | "EXISTS" if self.is_query(0)? => {
+                                node.push_node_vec("args", vec![self.parse_statement(false)?]);
+                            }
                             _ => {
                                 node.push_node_vec(
                                     "args",
@@ -1033,9 +1073,7 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH", "FROM"])
-                && !(self.get_token(1)?.is("WITH") && self.get_token(2)?.is("("))
-            {
+            if self.is_query(1)? {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH | FROM
                 lparen.push_node("stmt", self.parse_statement(false)?);
-- 
2.43.0


From bad51dd55288b34dffe60d035297765bbee1a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:52 +0000
Subject: [PATCH 35/41] fix: do not accept another token in place of the end of
 a block, a type list, STRUCT(...) or a view column list (e.g. CREATE FUNCTION
 f(a INT64] AS (1))

---
 src/parser.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 612d79f..e1f4a9d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -476,8 +476,11 @@ impl Parser {
                         if self.get_token(1)?.is(",") {
                             self.next_token()?; // -> ,
                             expr.push_node("comma", self.construct_node(NodeType::Symbol)?);
+                            exprs.push(expr)
+                        } else {
+                            exprs.push(expr);
+                            break;
                         }
-                        exprs.push(expr)
                     }
                     self.next_token()?; // -> )
                     struct_literal.push_node("rparen", self.construct_rparen(")")?);
@@ -963,6 +966,7 @@ impl Parser {
         aggregate: bool,
     ) -> BQ2CSTResult<Node> {
         let mut group = self.construct_node(NodeType::GroupedTypeDeclarationOrConstraints)?;
+        let rparen = if self.get_token(0)?.is("<") { ">" } else { ")" };
         self.next_token()?; // ( -> INOUT | ident | type | PRIMARY | CONSTRAING | FOREIGN
         let mut type_declarations = Vec::new();
         let marker_tokens = vec![",", ">", ")", "TYPE", "<"];
@@ -1001,13 +1005,15 @@ impl Parser {
             if self.get_token(0)?.is(",") {
                 type_declaration.push_node("comma", self.construct_node(NodeType::Symbol)?);
                 self.next_token()?; // , -> type
+            } else {
+                self.expect(rparen)?;
             }
             type_declarations.push(type_declaration);
         }
         if 0 < type_declarations.len() {
             group.push_node_vec("declarations", type_declarations);
         }
-        group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
+        group.push_node("rparen", self.construct_rparen(rparen)?);
         Ok(group)
     }
     fn parse_identifier(&mut self) -> BQ2CSTResult<Node> {
@@ -3073,6 +3079,9 @@ impl Parser {
                 if self.get_token(1)?.is(",") {
                     self.next_token()?; // -> ,
                     ident.push_node("comma", self.construct_node(NodeType::Symbol)?);
+                } else if !self.get_token(1)?.is(")") {
+                    self.next_token()?; // -> unexpected token
+                    self.expect(")")?;
                 }
                 idents.push(ident);
             }
@@ -4198,6 +4207,7 @@ impl Parser {
         self.next_token()?; // -> END
         let end = self.construct_node(NodeType::Keyword)?;
         self.next_token()?; // -> IF
+        self.expect("IF")?;
         if_.push_node_vec("end_if", vec![end, self.construct_node(NodeType::Keyword)?]);
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
@@ -4255,6 +4265,7 @@ impl Parser {
         self.next_token()?; // -> END
         let end = self.construct_node(NodeType::Keyword)?;
         self.next_token()?; // -> LOOP
+        self.expect("LOOP")?;
         loop_.push_node_vec(
             "end_loop",
             vec![end, self.construct_node(NodeType::Keyword)?],
@@ -4277,7 +4288,9 @@ impl Parser {
         );
         repeat.push_node("until", until);
         self.next_token()?; // -> END
+        self.expect("END")?;
         repeat.push_node_vec("end_repeat", self.parse_n_keywords(2)?);
+        self.expect("REPEAT")?;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             repeat.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
@@ -4296,6 +4309,7 @@ impl Parser {
         self.next_token()?; // -> END
         let end = self.construct_node(NodeType::Keyword)?;
         self.next_token()?; // -> WHILE
+        self.expect("WHILE")?;
         while_.push_node_vec(
             "end_while",
             vec![end, self.construct_node(NodeType::Keyword)?],
@@ -4327,6 +4341,7 @@ impl Parser {
         for_.push_node("do", self.parse_keyword_with_statements(&vec!["END"])?);
         self.next_token()?; // -> END
         for_.push_node_vec("end_for", self.parse_n_keywords(2)?);
+        self.expect("FOR")?;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             for_.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
@@ -4405,6 +4420,7 @@ impl Parser {
         case.push_node_vec("arms", arms);
         self.next_token()?; // -> END
         case.push_node_vec("end_case", self.parse_n_keywords(2)?);
+        self.expect("CASE")?;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             case.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0


From cf012ef93aeab6a218b49f45721bf8d936bec990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:37 +0000
Subject: [PATCH 36/41] fix: do not parse LEFT, INNER or FULL of a set operator
 after a trailing comma as a column (e.g. SELECT a, LEFT UNION ALL SELECT b)

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e1f4a9d..01c05b7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -936,7 +936,11 @@ impl Parser {
         }
         exprs.push(expr);
         // second expr and later
-        while !self.get_token(1)?.in_(until) && !self.is_eof(1) {
+        while !self.get_token(1)?.in_(until)
+            && !self.is_eof(1)
+            // in the case of `SELECT a, LEFT UNION ALL SELECT b`
+            && !self.is_set_operator_with_method(1)?
+        {
             self.next_token()?;
             let mut expr = self.parse_expr(usize::MAX, alias, false, false, true)?;
             if self.get_token(1)?.is(",") {
-- 
2.43.0


From 6f10e2fb7921703737db4df777b6dd956bff155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:32 +0000
Subject: [PATCH 37/41] fix: do not take a reserved word or a symbol for the
 alias of the table of DELETE (e.g. DELETE t EXCEPT WHERE TRUE)

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 01c05b7..63f21a4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2690,7 +2690,7 @@ impl Parser {
         }
         self.next_token()?; // -> table_name
         let mut table_name = self.parse_identifier()?;
-        if !self.get_token(1)?.is("WHERE") {
+        if self.get_token(1)?.is("AS") || self.get_token(1)?.is_identifier() {
             self.next_token()?; // -> AS, ident
             if self.get_token(0)?.is("AS") {
                 table_name.push_node("as", self.construct_node(NodeType::Keyword)?);
@@ -2700,6 +2700,7 @@ impl Parser {
         }
         delete.push_node("table_name", table_name);
         self.next_token()?; // -> WHERE
+        self.expect("WHERE")?;
         let mut where_ = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // WHERE -> expr
         where_.push_node(
-- 
2.43.0


From a27fa9747b98bd30d900d3b75fb9d15d85fa3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:26 +0000
Subject: [PATCH 38/41] fix: do not take a bracket or a semicolon for a
 keyword, a name or an expression, nor another token for an opening bracket
 (e.g. DROP TABLE ; SELECT 1)

---
 src/parser.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 63f21a4..dc73ca2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -57,6 +57,34 @@ impl Parser {
         // It is possible to avoid cloning tokens (see #20)
         // but it does not improve execution time.
         let curr_token = self.get_token(0)?;
+        let is_valid = match node_type {
+            NodeType::AccessOperator | NodeType::ArrayLiteral => curr_token.is("["),
+            NodeType::CallingFunction
+            | NodeType::GroupedExpr
+            | NodeType::GroupedExprs
+            | NodeType::GroupedIdentWithOptions
+            | NodeType::GroupedPattern
+            | NodeType::GroupedStatement
+            | NodeType::MatchRecognizeConfig
+            | NodeType::PivotConfig
+            | NodeType::StructLiteral
+            | NodeType::TableSampleRatio
+            | NodeType::TrainingDataCustomHolidayClause
+            | NodeType::UnpivotConfig
+            | NodeType::WindowSpecification => curr_token.is("("),
+            NodeType::GroupedType | NodeType::GroupedTypeDeclarationOrConstraints => {
+                curr_token.in_(&vec!["(", "<"])
+            }
+            NodeType::Symbol => true,
+            NodeType::Unknown => !curr_token.in_(&vec![")", "]", ";"]),
+            _ => !curr_token.in_(&vec!["(", ")", "[", "]", ";"]),
+        };
+        if !is_valid {
+            return Err(BQ2CSTError::from_token(
+                curr_token,
+                format!("Unexpected token: {:?}", curr_token),
+            ));
+        }
         let mut node = match node_type {
             NodeType::EOF => Node::empty(node_type),
             NodeType::Unknown => {
-- 
2.43.0


From ec10dd8fa5109c48fa7dd7c952c21f1e411439f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 39/41] fix: parse DEFAULT as a value of INSERT, UPDATE and
 MERGE into a node of a declared type (e.g. UPDATE t SET a = DEFAULT WHERE
 TRUE)

---
 src/parser.rs | 2 ++
 src/types.rs  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index dc73ca2..4c2f8e6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -105,6 +105,8 @@ impl Parser {
                     node.node_type = NodeType::NullLiteral;
                 } else if let "(" | "." = self.get_token(1)?.literal.as_str() {
                     node.node_type = NodeType::Identifier;
+                } else if curr_token.is("DEFAULT") {
+                    node.node_type = NodeType::Keyword; // VALUES (DEFAULT), SET col = DEFAULT
                 }
                 node
             }
diff --git a/src/types.rs b/src/types.rs
index f80ca40..54ba7ec 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1103,6 +1103,9 @@ export type JoinPipeOperator = PipeOperator & {
 export type Keyword = BaseNode & {
   token: Token;
   node_type: "Keyword";
+  children: {
+    comma?: NodeChild;
+  };
 };
 
 export type KeywordSequence = BaseNode & {
-- 
2.43.0


From ab2f52b44a027e344984e0f0aff153ebe6e4dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:04 +0000
Subject: [PATCH 40/41] fix: report the error of the attempt that got further
 when a table in parentheses is read in two ways (e.g. SELECT 1 FROM ((SELECT
 1) UNION ALL SELECT FROM))

---
 src/parser.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4c2f8e6..26269ce 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1374,7 +1374,7 @@ impl Parser {
                         Err(err) if offset == 1 => return Err(err),
 
                         // maybe that is a table quoted by ()! not a select statement!
-                        Err(_) => {
+                        Err(err) => {
                             // restore original state
                             self.position = org.position;
                             self.leading_comment_indices = org.leading_comment_indices;
@@ -1383,20 +1383,20 @@ impl Parser {
                             self.quoted_table_positions.push(self.position);
 
                             // retry
-                            let mut group = self.construct_node(NodeType::GroupedExpr)?;
-                            self.next_token()?; // ( -> table
-                            group.push_node("expr", self.parse_table(true)?);
-                            self.next_token()?; // -> )
-                            group.push_node("rparen", self.construct_rparen(")")?);
-                            group
+                            match self.parse_quoted_table() {
+                                Ok(group) => group,
+                                // report the error of the attempt that got further
+                                Err(retry)
+                                    if (err.line, err.column) <= (retry.line, retry.column) =>
+                                {
+                                    return Err(retry)
+                                }
+                                Err(_) => return Err(err),
+                            }
                         }
                     }
                 } else {
-                    group = self.construct_node(NodeType::GroupedExpr)?;
-                    self.next_token()?; // ( -> expr
-                    group.push_node("expr", self.parse_table(true)?);
-                    self.next_token()?; // table -> )
-                    group.push_node("rparen", self.construct_rparen(")")?);
+                    group = self.parse_quoted_table()?;
                 }
                 left = group;
             }
@@ -1849,6 +1849,14 @@ impl Parser {
         }
         Ok(groupby)
     }
+    fn parse_quoted_table(&mut self) -> BQ2CSTResult<Node> {
+        let mut group = self.construct_node(NodeType::GroupedExpr)?;
+        self.next_token()?; // ( -> table
+        group.push_node("expr", self.parse_table(true)?);
+        self.next_token()?; // table -> )
+        group.push_node("rparen", self.construct_rparen(")")?);
+        Ok(group)
+    }
     fn parse_table_sample_ratio(&mut self) -> BQ2CSTResult<Node> {
         let mut group = self.construct_node(NodeType::TableSampleRatio)?;
         self.next_token()?; // -> expr
-- 
2.43.0


From 74561633cc6322add964ce7e46e1c928024d37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 41/41] fix: do not take a name for the alias of a condition, a
 sort key, an assignment or a dropped column of a pipe operator (e.g. FROM t
 |> WHERE a b)

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 26269ce..95b19e6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2666,13 +2666,16 @@ impl Parser {
     }
     fn parse_base_pipe_operator(&mut self, keywords: bool) -> BQ2CSTResult<Node> {
         let mut operator = self.construct_node(NodeType::BasePipeOperator)?;
+        let alias = !self
+            .get_token(0)?
+            .in_(&vec!["DROP", "ORDER", "SET", "WHERE"]);
         // NOTE: for now, single keyword is only allowed
         if keywords {
             self.next_token()?; // -> keyword
             operator.push_node("keywords", self.construct_node(NodeType::Keyword)?);
         }
         self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "|>", ")"], true, true)?;
+        let exprs = self.parse_exprs(&vec![";", "|>", ")"], alias, true)?;
         operator.push_node_vec("exprs", exprs);
         Ok(operator)
     }
-- 
2.43.0

