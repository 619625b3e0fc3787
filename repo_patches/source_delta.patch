From 6b27953d81b2e1aaac73f782c5e01ca1b5f5feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/51] fix: consume unexpected non-ASCII characters so the
 parser makes progress

---
 ratel/src/lexer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..ba8b460 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -463,6 +463,8 @@ const UNI: ByteHandler = Some(|lex| {
     let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
 
     if !first.is_alphanumeric() {
+        lex.index += first.len_utf8();
+
         return lex.token = UnexpectedToken;
     }
 
-- 
2.43.0


From 1cb0ac0bb496e0cc32407d0ee274f901a759d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/51] fix: accept identifiers starting with a non-ASCII
 letter after an accessor dot

---
 ratel/src/lexer/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index ba8b460..e8c09c3 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -883,10 +883,15 @@ impl<'arena> Lexer<'arena> {
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
-                if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
-                } else if TABLE[ch as usize] {
+                let legal = if ch > 127 {
+                    let start = self.index;
+
+                    self.slice_source(start, start + 4).chars().next().map_or(false, char::is_alphanumeric)
+                } else {
+                    TABLE[ch as usize]
+                };
+
+                if legal {
                     self.read_label();
                     return self.token = Accessor;
                 } else {
-- 
2.43.0


From da5205cda607b1aff828850e8d02bb14256f1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 03/51] fix: stop at the end of the source when looking for an
 accessor name

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index e8c09c3..f0a80f7 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -880,6 +880,10 @@ impl<'arena> Lexer<'arena> {
         unwind_loop!({
             ch = self.read_byte();
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
-- 
2.43.0


From 3812a49efe05029dee6b93f90bed173b2fd09d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 04/51] fix: report unterminated template literals instead of
 reading past the source

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index f0a80f7..4dc38a5 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -777,6 +777,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
-- 
2.43.0


From d390b22c4e02a6ffff4b889fbfe7d42253b70abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 05/51] fix: report unterminated regular expressions instead of
 reading past the source

---
 ratel/src/lexer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 4dc38a5..84672e6 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1029,6 +1029,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From 58d9aabfeaa090d28f198a49d51e03352dcf3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 06/51] fix: stop parsing switch cases at the end of the
 program

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..14988bd 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From 80477e12d9c67d43c90eac10e1261cc4c87b074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 07/51] fix: reject blocks that are not closed before the end
 of the program

---
 ratel/src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..931a09a 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -159,6 +159,10 @@ impl<'ast> Parser<'ast> {
             builder.push(self.arena, I::parse(self));
         }
 
+        if self.lexer.token == EndOfProgram {
+            self.error::<()>();
+        }
+
         Block { body: builder.as_list() }
     }
 
-- 
2.43.0


From 5e6a2ba18902ba10b6b415ed5b670258c0c42ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 08/51] fix: consume the semicolon that ends a do-while
 statement

---
 ratel/src/parser/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 14988bd..891ae97 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -471,6 +471,7 @@ impl<'ast> Parser<'ast> {
         let test = self.expression::<ANY>();
         let end = self.lexer.end();
         expect!(self, ParenClose);
+        allow!(self, Semicolon => ());
 
         self.alloc_at_loc(start, end, DoStatement {
             body,
-- 
2.43.0


From 3e98a96b6dd799933239973314e9f525915f9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 09/51] fix: consume the semicolon that ends a debugger
 statement

---
 ratel/src/parser/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 891ae97..52a535d 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -76,6 +76,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
-- 
2.43.0


From 3e1ea3294d9641c48f58997f67f1539dd09ec752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 10/51] fix: parse the exponent operator as right-associative

---
 ratel/src/parser/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..7913b65 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -426,7 +426,7 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
+binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From 2a88f7adaaee122181b3aacaf40468fb1f607954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 11/51] fix: consume the semicolon that ends an import
 declaration

---
 ratel/src/parser/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 52a535d..2e9f402 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -666,6 +666,7 @@ impl<'ast> Parser<'ast> {
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
+                self.expect_semicolon();
 
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
@@ -752,6 +753,7 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+        self.expect_semicolon();
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From 32c381d681a1075acb4f969bfe12233d3a3ee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 12/51] fix: keep line breaks before and inside comments for
 semicolon insertion

---
 ratel/src/lexer/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 84672e6..315d579 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -403,7 +403,7 @@ const SLH: ByteHandler = Some(|lex| {
             unwind_loop!({
                 match lex.next_byte() {
                     0 | b'\n' => {
-                        return lex.consume();
+                        return lex.skip_to_token();
                     }
                     _ => {}
                 }
@@ -420,13 +420,17 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.consume();
+                                return lex.skip_to_token();
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
                         }
                     },
                     0 => return lex.token = UnexpectedEndOfProgram,
+                    b'\n' => {
+                        lex.asi = Asi::ImplicitSemicolon;
+                        lex.bump()
+                    },
                     _ => lex.bump()
                 }
             });
@@ -658,7 +662,12 @@ impl<'arena> Lexer<'arena> {
     #[inline]
     pub fn consume(&mut self) {
         self.asi = Asi::NoSemicolon;
+        self.skip_to_token();
+    }
 
+    /// Skip whitespace and comments up to the next token, keeping track of line breaks.
+    #[inline]
+    fn skip_to_token(&mut self) {
         let mut ch;
 
         unwind_loop!({
-- 
2.43.0


From 81c3abc326040f1af9aee73efda58f42b51d8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 13/51] fix: transform arrow functions that are the expression
 body of an arrow function

---
 ratel-visitor/src/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..7d41d23 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -100,7 +100,13 @@ impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
             Arrow(ref arrow) => {
                 visitor.on_arrow_expression(arrow, self);
                 visitor.push_parent(ParentNode::from(self));
-                arrow.visit_with(visitor);
+
+                // The visitor might have just replaced this arrow with a regular
+                // function, its children need to be visited in their new place.
+                match self.item {
+                    Function(ref function) => function.visit_with(visitor),
+                    _                      => arrow.visit_with(visitor),
+                }
             },
             Object(ref object) => {
                 visitor.on_object_expression(object, self);
-- 
2.43.0


From 391b2cadd7ce01b4272c353cb9dca016e58ad5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 14/51] fix: open a function scope for arrow functions

---
 ratel-visitor/src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index 7d41d23..e4c3789 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Identifier, Expression, ExpressionNode, StatementNode, Literal};
 use ratel::ast::expression::*;
 
-use {Visitor, Visitable, ParentNode};
+use {Visitor, Visitable, ParentNode, ScopeKind};
 
 
 impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
@@ -337,8 +337,10 @@ impl<'ast> Visitable<'ast> for ArrowExpression<'ast> {
     where
         V: Visitor<'ast>,
     {
+        visitor.on_enter_scope(ScopeKind::Function);
         self.params.visit_with(visitor);
         self.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From a38bc2f0a11b82181a4779b1f47e24f0c178580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 15/51] fix: declare the parameter of a catch clause in the
 scope of its block

---
 ratel-visitor/src/statement.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..bb4a8ad 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -324,8 +324,12 @@ impl<'ast> Visitable<'ast> for CatchClause<'ast> {
     where
         V: Visitor<'ast>,
     {
+        // Visit the StatementList instead of BlockNode since the
+        // parameter of the clause belongs inside the block
+        visitor.on_enter_scope(ScopeKind::Block);
         self.param.visit_with(visitor);
-        self.body.visit_with(visitor);
+        self.body.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 9cace1ddc9a63c1e245ee9a4af8b990436e619fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 16/51] fix: push import declarations on the stack of parents
 before popping them

---
 ratel-visitor/src/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index bb4a8ad..a4a65e7 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
-- 
2.43.0


From 995c5d6908a3f016c8888b0d6ef9c74bfab15f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 17/51] fix: import specifiers declare their local names

---
 ratel-visitor/src/statement.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a4a65e7..b590944 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -397,7 +397,6 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
         self.specifiers.visit_with(visitor);
     }
 }
@@ -426,8 +425,7 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -439,7 +437,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
 
@@ -451,6 +449,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local.item);
     }
 }
-- 
2.43.0


From f32671e209862f51f05e9a98f137ce8a77313181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 18/51] fix: rest parameters are declarations

---
 ratel-visitor/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..8c5ca94 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -150,7 +150,7 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
                 elements.visit_with(visitor);
             }
             Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
+                visitor.on_reference_declaration(&argument.item);
             }
             Pattern::AssignmentPattern {
                 ref left,
-- 
2.43.0


From 6fa7d118bbb6d674deee4b4c930de7b67980358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 19/51] fix: announce the program body as a statement list

---
 ratel-visitor/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 8c5ca94..cf88ead 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -126,6 +126,8 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
         V: Visitor<'ast>,
     {
         let body = self.body();
+
+        visitor.on_statement_list(body);
         for item in body {
             item.visit_with(visitor);
         }
-- 
2.43.0


From 1866f861e579078204457f64bc86c998400268be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 20/51] fix: meta properties do not use any references

---
 ratel-visitor/src/expression.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index e4c3789..7dd2d1a 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -204,12 +204,8 @@ impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {
+        // `new` and `target` are not references
     }
 }
 
-- 
2.43.0


From 6a34f913364a628f035a8d3cb3cc55fab5444091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 21/51] fix: names bound by object patterns are declarations

---
 ratel-visitor/src/lib.rs | 49 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index cf88ead..df90cbd 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -6,7 +6,7 @@ extern crate ratel;
 use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 use ratel::ast::{ExpressionList, ExpressionNode, StatementList, StatementNode};
-use ratel::ast::{Identifier, Literal, Node, NodeList, Pattern};
+use ratel::ast::{Expression, Identifier, Literal, Node, NodeList, OperatorKind, Pattern};
 
 use ratel::Module;
 
@@ -146,7 +146,7 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::Void => {}
             Pattern::Identifier(ref ident) => visitor.on_reference_declaration(ident),
             Pattern::ObjectPattern { ref properties } => {
-                properties.visit_with(visitor);
+                declare_properties(properties, visitor);
             }
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
@@ -165,6 +165,51 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
     }
 }
 
+/// Visit the properties of an object pattern
+fn declare_properties<'ast, V>(properties: &'ast NodeList<'ast, Property<'ast>>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    for property in properties {
+        match property.item {
+            Property::Shorthand(ref ident) => visitor.on_reference_declaration(ident),
+            Property::Literal { ref key, ref value } => {
+                key.visit_with(visitor);
+                declare_target(value, visitor);
+            }
+            Property::Spread { ref argument } => declare_target(argument, visitor),
+            Property::Method { .. } => property.visit_with(visitor),
+        }
+    }
+}
+
+/// Visit an expression that is the target of a property in an object pattern,
+/// all references it binds are declarations
+fn declare_target<'ast, V>(target: &'ast ExpressionNode<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match target.item {
+        Expression::Identifier(ref ident) => visitor.on_reference_declaration(ident),
+        Expression::Binary(BinaryExpression {
+            operator: OperatorKind::Assign,
+            ref left,
+            ref right,
+        }) => {
+            declare_target(left, visitor);
+            right.visit_with(visitor);
+        }
+        Expression::Object(ref object) => declare_properties(&object.body, visitor),
+        Expression::Array(ref array) => {
+            for element in &array.body {
+                declare_target(element, visitor);
+            }
+        }
+        Expression::Spread(ref spread) => declare_target(&spread.argument, visitor),
+        _ => target.visit_with(visitor),
+    }
+}
+
 impl<'ast> Visitable<'ast> for PropertyKey<'ast> {
     type Parent = Node<'ast, Self>;
 
-- 
2.43.0


From 08ed58d1c19eaa600f03069c5e9658efbd843651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 22/51] fix: apply new to the constructor and its arguments
 only

---
 ratel/src/parser/expression.rs | 39 ++++++++++++++++++++++++++++++++--
 ratel/src/parser/nested.rs     | 24 ++++++++++++---------
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..6906ff0 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, MEM};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -153,7 +153,7 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let expression = par.new_expression();
             let end = par.lexer.end();
             par.alloc_at_loc(start, end, expression)
         }
@@ -280,6 +280,18 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    #[inline]
+    pub fn call_expression(&mut self, callee: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+        let start = self.lexer.start_then_consume();
+        let arguments = self.call_arguments();
+        let end = self.lexer.end_then_consume();
+
+        self.alloc_at_loc(start, end, CallExpression {
+            callee,
+            arguments,
+        })
+    }
+
     #[inline]
     pub fn call_arguments(&mut self) -> ExpressionList<'ast> {
         if self.lexer.token == ParenClose {
@@ -344,6 +356,29 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    /// The operand is either the constructor alone or a call of it, whatever
+    /// follows applies to the created object.
+    #[inline]
+    pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let callee = self.expression::<MEM>();
+
+        let operand = match (self.lexer.token, callee.item) {
+            (ParenOpen, _) => self.call_expression(callee),
+
+            // `new (foo())` calls the result of `foo()`, while `new foo()` does not
+            (_, Expression::Call(_)) => self.alloc_at_loc(callee.start, callee.end, CallExpression {
+                callee,
+                arguments: NodeList::empty(),
+            }),
+            _ => callee,
+        };
+
+        PrefixExpression {
+            operator: OperatorKind::New,
+            operand,
+        }
+    }
+
     #[inline]
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 7913b65..7fd6939 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Only member accesses and templates, for the constructor in a new expression
+bp!(MEM, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
@@ -283,16 +296,7 @@ const ACCS: NestedHandler = Some(|par, left| {
     })
 });
 
-const CALL: NestedHandler = Some(|par, left| {
-    let start = par.lexer.start_then_consume();
-    let arguments = par.call_arguments();
-    let end = par.lexer.end_then_consume();
-
-    par.alloc_at_loc(start, end, CallExpression {
-        callee: left,
-        arguments,
-    })
-});
+const CALL: NestedHandler = Some(|par, left| par.call_expression(left));
 
 const CMEM: NestedHandler = Some(|par, left| {
     par.lexer.consume();
-- 
2.43.0


From 81586041f5517360fee9fa30e78c60b18e6ea84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 23/51] fix: print the finally keyword of try statements

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..a402ca5 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -257,6 +257,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From 499c9255bfa740bad9b038e0916ed3c421dde224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 24/51] fix: print the star of generator functions

---
 ratel-codegen/src/function.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..e47477b 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -59,6 +59,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
-- 
2.43.0


From f88f77e51d04a49d2441aa6b2b97895cf9a5b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 25/51] fix: print empty statements

---
 ratel-codegen/src/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index a402ca5..28e71eb 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -11,7 +11,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
         use ratel::ast::Statement::*;
 
         match *self {
-            Empty => {},
+            Empty => gen.write_byte(b';'),
             Debugger => {
                 gen.write_bytes(b"debugger");
             },
-- 
2.43.0


From 6d3a22797a13da1812be29dc178b2c88bc052134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 26/51] fix: separate debugger, import and do-while statements
 from what follows

---
 ratel-codegen/src/lib.rs       | 44 +++++++++++++++++++++++++++++++---
 ratel-codegen/src/statement.rs |  4 ++++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..b4940b9 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -18,6 +18,10 @@ pub trait Generator: Sized {
     fn write_bytes(&mut self, &[u8]);
     fn write_pretty(&mut self, u8);
 
+    /// Write a semicolon before anything that is written next, unless
+    /// it ends the enclosing block.
+    fn end_statement(&mut self);
+
     #[inline]
     fn write<T>(&mut self, item: &T) where
         T: ToCode<Self>,
@@ -90,14 +94,16 @@ pub trait Generator: Sized {
 }
 
 pub struct MinifyingGenerator {
-    code: Vec<u8>
+    code: Vec<u8>,
+    unterminated: bool,
 }
 
 
 impl Default for MinifyingGenerator {
     fn default() -> Self {
         MinifyingGenerator {
-            code: Vec::with_capacity(128)
+            code: Vec::with_capacity(128),
+            unterminated: false,
         }
     }
 }
@@ -111,14 +117,23 @@ impl Generator for MinifyingGenerator {
 
     #[inline]
     fn write_byte(&mut self, ch: u8) {
+        terminate(&mut self.code, &mut self.unterminated, ch);
         self.code.push(ch);
     }
 
     #[inline]
     fn write_pretty(&mut self, _: u8) {}
 
+    #[inline]
+    fn end_statement(&mut self) {
+        self.unterminated = true;
+    }
+
     #[inline]
     fn write_bytes(&mut self, slice: &[u8]) {
+        if let Some(&ch) = slice.first() {
+            terminate(&mut self.code, &mut self.unterminated, ch);
+        }
         extend_from_slice(&mut self.code, slice);
     }
 }
@@ -126,6 +141,7 @@ impl Generator for MinifyingGenerator {
 pub struct PrettyGenerator {
     code: Vec<u8>,
     dent: usize,
+    unterminated: bool,
 }
 
 impl Default for PrettyGenerator {
@@ -133,6 +149,7 @@ impl Default for PrettyGenerator {
         PrettyGenerator {
             code: Vec::with_capacity(128),
             dent: 0,
+            unterminated: false,
         }
     }
 }
@@ -146,16 +163,25 @@ impl Generator for PrettyGenerator {
 
     #[inline]
     fn write_byte(&mut self, ch: u8) {
+        terminate(&mut self.code, &mut self.unterminated, ch);
         self.code.push(ch);
     }
 
     #[inline]
     fn write_pretty(&mut self, ch: u8) {
-        self.code.push(ch);
+        self.write_byte(ch);
+    }
+
+    #[inline]
+    fn end_statement(&mut self) {
+        self.unterminated = true;
     }
 
     #[inline]
     fn write_bytes(&mut self, slice: &[u8]) {
+        if let Some(&ch) = slice.first() {
+            terminate(&mut self.code, &mut self.unterminated, ch);
+        }
         extend_from_slice(&mut self.code, slice);
     }
 
@@ -320,6 +346,18 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
     }
 }
 
+/// Write the pending semicolon, if there is any, before `next`
+#[inline]
+fn terminate(code: &mut Vec<u8>, unterminated: &mut bool, next: u8) {
+    if *unterminated {
+        *unterminated = false;
+
+        if next != b'}' {
+            code.push(b';');
+        }
+    }
+}
+
 // From: https://github.com/dtolnay/fastwrite/blob/master/src/lib.rs#L68
 //
 // LLVM is not able to lower `Vec::extend_from_slice` into a memcpy, so this
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 28e71eb..66cb7ed 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -14,6 +14,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
             Empty => gen.write_byte(b';'),
             Debugger => {
                 gen.write_bytes(b"debugger");
+                gen.end_statement();
             },
             Expression(ref expression) => {
                 if expression.is_allowed_as_bare_statement() {
@@ -178,6 +179,7 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.test);
         gen.write_byte(b')');
+        gen.end_statement();
     }
 }
 
@@ -324,6 +326,7 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'\'');
             gen.write(&self.source);
             gen.write_byte(b'\'');
+            gen.end_statement();
             return
         }
 
@@ -353,6 +356,7 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
         gen.write_bytes(b" from '");
         gen.write_bytes(self.source.as_bytes());
         gen.write_byte(b'\'');
+        gen.end_statement();
     }
 }
 impl<'ast, G: Generator> ToCode<G> for ForImportSpecifier<'ast> {
-- 
2.43.0


From 7efd9e02cc45d3a07cf2589c51f9c0c9628f5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 27/51] fix: keep the parenthesis around operands that need
 them when printing

---
 ratel-codegen/src/expression.rs | 44 +++++++++++++++++++++++++++------
 ratel/src/ast/expression.rs     |  4 ++-
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..eb52af1 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,4 +1,5 @@
 use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
+use ratel::ast::ExpressionNode;
 use ratel::ast::expression::*;
 
 use {ToCode, Generator};
@@ -129,7 +130,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, 17);
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
@@ -138,7 +139,7 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ComputedMemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, 17);
         gen.write_byte(b'[');
         gen.write(&self.property);
         gen.write_byte(b']');
@@ -157,7 +158,7 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
         gen.write_list(&self.arguments);
         gen.write_byte(b')');
@@ -215,6 +216,24 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
     }
 }
 
+/// Write the operand of `new`, without its arguments. Any call inside has to be
+/// in parenthesis so that it doesn't become the one that creates the object.
+fn write_constructor<'ast, G: Generator>(gen: &mut G, constructor: &ExpressionNode<'ast>) {
+    let mut innermost = constructor;
+
+    let has_call = loop {
+        innermost = match innermost.item {
+            Expression::Member(ref member)           => &member.object,
+            Expression::ComputedMember(ref computed) => &computed.object,
+            Expression::TaggedTemplate(ref tagged)   => &tagged.tag,
+            Expression::Call(_)                      => break true,
+            _                                        => break false,
+        };
+    };
+
+    gen.write_expression(constructor, if has_call { 101 } else { 15 });
+}
+
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -222,7 +241,16 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+        match (self.operator, self.operand.item) {
+            (OperatorKind::New, Expression::Call(ref call)) => {
+                write_constructor(gen, &call.callee);
+                gen.write_byte(b'(');
+                gen.write_list(&call.arguments);
+                gen.write_byte(b')');
+            },
+            (OperatorKind::New, _) => write_constructor(gen, &self.operand),
+            _                      => gen.write_expression(&self.operand, 15),
+        }
     }
 }
 
@@ -237,15 +265,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, 5);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, 1);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, 1);
     }
 }
 
@@ -281,7 +309,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, 17);
         gen.write(&self.quasi);
     }
 }
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..85c22fa 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,7 +191,7 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_) | MetaProperty(_) => 18,
 
             Call(_) => 17,
 
@@ -202,6 +202,8 @@ impl<'ast> Expression<'ast> {
 
             Conditional(_) => 4,
 
+            Arrow(_) => 3,
+
             Sequence(_) => 0,
 
             _  => 100,
-- 
2.43.0


From 3c2269c3dcffedaf71083a7ffa1ac2c4f492c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 28/51] fix: keep the parenthesis around sequences in lists,
 initializers and values when printing

---
 ratel-codegen/src/expression.rs | 16 ++++++++--------
 ratel-codegen/src/function.rs   |  4 ++--
 ratel-codegen/src/lib.rs        | 20 ++++++++++++++++++--
 ratel-codegen/src/statement.rs  |  2 +-
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index eb52af1..bb6e443 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -92,7 +92,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
             },
             Method {
                 ref key,
@@ -105,7 +105,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, 1);
             }
         }
     }
@@ -114,7 +114,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
     }
 }
 
@@ -122,7 +122,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expression_list(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -160,7 +160,7 @@ impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     fn to_code(&self, gen: &mut G) {
         gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expression_list(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -245,7 +245,7 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
             (OperatorKind::New, Expression::Call(ref call)) => {
                 write_constructor(gen, &call.callee);
                 gen.write_byte(b'(');
-                gen.write_list(&call.arguments);
+                gen.write_expression_list(&call.arguments);
                 gen.write_byte(b')');
             },
             (OperatorKind::New, _) => write_constructor(gen, &self.operand),
@@ -318,7 +318,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, 1);
     }
 }
 
@@ -326,7 +326,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
+            ArrowBody::Expression(ref expression) => gen.write_expression(expression, 1),
             ArrowBody::Block(ref block)           => gen.write(block),
         }
     }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index e47477b..a8e388e 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -107,7 +107,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 1);
                 gen.write_byte(b';');
             }
         }
@@ -124,7 +124,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, 1);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index b4940b9..9a3d9bd 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -3,7 +3,7 @@
 extern crate pretty_assertions;
 extern crate ratel;
 
-use ratel::ast::{Node, ExpressionNode, Loc, Block, Pattern};
+use ratel::ast::{Node, ExpressionList, ExpressionNode, Loc, Block, Pattern};
 use ratel::Module;
 
 mod expression;
@@ -59,6 +59,22 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Same as above, for expressions that are separated by commas
+    #[inline]
+    fn write_expression_list<'ast>(&mut self, items: &ExpressionList<'ast>) {
+        let mut items = items.iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, 1);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, 1);
+        }
+    }
+
     #[inline]
     fn write_block<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -340,7 +356,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, 1);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 66cb7ed..f77ebbe 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -73,7 +73,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, 1);
         }
     }
 }
-- 
2.43.0


From 6e054c8d1d263efbc4df8ef00ca4fb0f02a7d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 29/51] fix: print parenthesis around statements that start
 with an object, function or class

---
 ratel/src/ast/expression.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 85c22fa..e510e3c 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -218,7 +218,21 @@ impl<'ast> Expression<'ast> {
             Object(_)   |
             Function(_) |
             Class(_)    => false,
-            _           => true,
+
+            // The first token comes from the leftmost expression
+            Sequence(ref sequence)       => match sequence.body.iter().next() {
+                Some(first) => first.is_allowed_as_bare_statement(),
+                None        => true,
+            },
+            Member(ref member)           => member.object.is_allowed_as_bare_statement(),
+            ComputedMember(ref computed) => computed.object.is_allowed_as_bare_statement(),
+            Call(ref call)               => call.callee.is_allowed_as_bare_statement(),
+            Binary(ref binary)           => binary.left.is_allowed_as_bare_statement(),
+            Postfix(ref postfix)         => postfix.operand.is_allowed_as_bare_statement(),
+            Conditional(ref conditional) => conditional.test.is_allowed_as_bare_statement(),
+            TaggedTemplate(ref tagged)   => tagged.tag.is_allowed_as_bare_statement(),
+
+            _ => true,
         }
     }
 
-- 
2.43.0


From 202410405c2bc8191cade35105b4592d546d91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 30/51] fix: print parenthesis around arrow function bodies
 that start with an object

---
 ratel-codegen/src/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index bb6e443..0c7d40e 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -326,8 +326,13 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write_expression(expression, 1),
             ArrowBody::Block(ref block)           => gen.write(block),
+            ArrowBody::Expression(ref expression) => {
+                // An opening brace would start a block
+                let bp = if expression.is_allowed_as_bare_statement() { 1 } else { 101 };
+
+                gen.write_expression(expression, bp);
+            },
         }
     }
 }
-- 
2.43.0


From e85600a21723f2a03692abdb1bfb2129f60b9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 31/51] fix: keep the parenthesis around the base of an
 exponent when printing

---
 ratel-codegen/src/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 0c7d40e..5833e12 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -193,7 +193,13 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        gen.write_expression(&self.left, bp);
+        // Exponents are right-associative
+        let bp_left = match self.operator {
+            OperatorKind::Exponent => bp + 1,
+            _                      => bp,
+        };
+
+        gen.write_expression(&self.left, bp_left);
 
         if spacing_left {
             gen.write_byte(b' ');
-- 
2.43.0


From d2e9fe69ada0ff1f3e262b3325ae043d65424239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 32/51] fix: keep the parenthesis around integers before a
 member access when printing

---
 ratel-codegen/src/expression.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 5833e12..7026050 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -130,7 +130,13 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 17);
+        let bp = match self.object.item {
+            // The dot would become a part of the number
+            Expression::Literal(Literal::Number(n)) if n.bytes().all(|b| b.is_ascii_digit()) => 101,
+            _ => 17,
+        };
+
+        gen.write_expression(&self.object, bp);
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
-- 
2.43.0


From 465d45fc6fc07aa1d4d1f8ea153838c41b912e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 33/51] fix: separate operators that would become a single
 token when printing

---
 ratel-codegen/src/expression.rs | 34 ++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 7026050..ebe7b87 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -171,6 +171,22 @@ impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     }
 }
 
+/// Find the expression that the first token of an expression belongs to
+fn leftmost<'a, 'ast>(mut expression: &'a ExpressionNode<'ast>) -> &'a ExpressionNode<'ast> {
+    loop {
+        expression = match expression.item {
+            Expression::Member(ref member)           => &member.object,
+            Expression::ComputedMember(ref computed) => &computed.object,
+            Expression::Call(ref call)               => &call.callee,
+            Expression::Binary(ref binary)           => &binary.left,
+            Expression::Postfix(ref postfix)         => &postfix.operand,
+            Expression::Conditional(ref conditional) => &conditional.test,
+            Expression::TaggedTemplate(ref tagged)   => &tagged.tag,
+            _ => return expression,
+        };
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -179,7 +195,11 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 
         let (spacing_left, spacing_right) = match category {
             OperatorCategory::Word => (true, true),
-            OperatorCategory::Safe => (false, false),
+            OperatorCategory::Safe => match leftmost(&self.right).item {
+                // Two slashes would start a comment
+                Expression::Literal(Literal::RegEx(_)) => (false, self.operator == OperatorKind::Division),
+                _ => (false, false),
+            },
             category => {
                 let spacing_left = match self.left.item {
                     Expression::Postfix(PostfixExpression { operator, .. }) => {
@@ -188,7 +208,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
                     _ => false
                 };
 
-                let spacing_right = match self.right.item {
+                let spacing_right = match leftmost(&self.right).item {
                     Expression::Prefix(PrefixExpression { operator, .. }) => {
                         category == operator.category()
                     },
@@ -250,7 +270,15 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write(&self.operator);
-        if self.operator.category() == OperatorCategory::Word {
+        let category = self.operator.category();
+        let spacing = match self.operand.item {
+            Expression::Prefix(PrefixExpression { operator, .. }) => {
+                category != OperatorCategory::Safe && category == operator.category()
+            },
+            _ => false
+        };
+
+        if spacing || category == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
         match (self.operator, self.operand.item) {
-- 
2.43.0


From 9aae840a85c1e74af8dddc3083092d95cfcb6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 34/51] fix: keep the parenthesis around the parts of a for-in
 statement when printing

---
 ratel-codegen/src/statement.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index f77ebbe..aa243bd 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -218,9 +218,18 @@ impl<'ast, G: Generator> ToCode<G> for ForInStatement<'ast> {
         gen.write_bytes(b"for");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-        gen.write(&self.left);
-        gen.write_bytes(b" in ");
-        gen.write(&self.right);
+        match self.left.item {
+            ForInit::Expression(ref left) => {
+                gen.write_expression(left, 11);
+                gen.write_bytes(b" in ");
+                gen.write_expression(&self.right, 12);
+            },
+            ForInit::Declaration(_) => {
+                gen.write(&self.left);
+                gen.write_bytes(b" in ");
+                gen.write(&self.right);
+            },
+        }
         gen.write_byte(b')');
         gen.write_pretty(b' ');
         gen.write(&self.body);
-- 
2.43.0


From 3d8f0d6aea65bbeb2704e9fad0ebcb783b414995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 35/51] fix: print import sources with quotes that they do not
 contain

---
 ratel-codegen/src/statement.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index aa243bd..a9bc4d9 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -330,11 +330,23 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        let mut bytes = self.source.bytes();
+        let mut quote = b'\'';
+
+        // The source is kept as written, use double quotes if it contains a single quote
+        while let Some(byte) = bytes.next() {
+            match byte {
+                b'\\' => { bytes.next(); },
+                b'\'' => quote = b'"',
+                _     => {},
+            }
+        }
+
         gen.write_bytes(b"import ");
         if self.specifiers.is_empty() {
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             gen.write(&self.source);
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             gen.end_statement();
             return
         }
@@ -362,9 +374,10 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'}');
         }
 
-        gen.write_bytes(b" from '");
+        gen.write_bytes(b" from ");
+        gen.write_byte(quote);
         gen.write_bytes(self.source.as_bytes());
-        gen.write_byte(b'\'');
+        gen.write_byte(quote);
         gen.end_statement();
     }
 }
-- 
2.43.0


From e5e6bb8227e4bc0f7446b010dad29a21d70286d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 36/51] fix: locate the key of an accessor method at its own
 text

---
 ratel/src/parser/function.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a9bcbdd..b479ea9 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -115,8 +115,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
         let mut kind = MethodKind::Method;
 
-        let token_start = par.lexer.start();
-        let token_end;
+        let mut token_start = par.lexer.start();
+        let mut token_end;
 
         let key = match par.lexer.token {
             _ if par.lexer.token.is_word() => {
@@ -130,7 +130,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                         _     => return par.error()
                     };
                     label = par.lexer.token_as_str();
-                    par.lexer.consume();
+                    token_start = par.lexer.start();
+                    token_end = par.lexer.end_then_consume();
                 } else if !is_static && label == "constructor" {
                     kind = MethodKind::Constructor;
                 }
-- 
2.43.0


From cd8b6c905bed8293f7906aa0adb306cf65a6b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 37/51] fix: serialize new expressions without arguments

---
 ratel/src/astgen/expression.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..b578233 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,7 +164,7 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
@@ -172,7 +172,6 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", &arguments)
                     })
                 },
-                _ => unimplemented!()
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From ddf9162bc3dbe5e6a49e4a87a105a061075f84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 38/51] fix: serialize class fields

---
 ratel/src/astgen/function.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..3145b3c 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -36,8 +36,13 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
-- 
2.43.0


From b6b448a34413bcda55d29b55de343e64125ef883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 39/51] fix: mark methods and class members with computed keys
 as computed

---
 ratel/src/ast/expression.rs  | 10 ++++++++++
 ratel/src/astgen/function.rs |  4 ++--
 ratel/src/astgen/value.rs    | 10 ++--------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index e510e3c..f728576 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -8,6 +8,16 @@ pub enum PropertyKey<'ast> {
     Binary(&'ast str),
 }
 
+impl<'ast> PropertyKey<'ast> {
+    #[inline]
+    pub fn is_computed(&self) -> bool {
+        match *self {
+            PropertyKey::Computed(_) => true,
+            _                        => false,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub enum Property<'ast> {
     Shorthand(&'ast str),
diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 3145b3c..15888b0 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -31,7 +31,7 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
@@ -39,7 +39,7 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
             Literal { is_static, key, value } => {
                 self.in_loc(serializer, "PropertyDefinition", 4, |state| {
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..b66234d 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -114,17 +114,11 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 Expression::Identifier(value).serialize(serializer)
             }
             Literal { key, value } => {
-                let computed = if let PropertyKey::Computed(_) = key.item {
-                    true
-                } else {
-                    false
-                };
-
                 self.in_loc(serializer, "Property", 6, |state| {
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("method", &false)?;
                     state.serialize_field("shorthand", &false)?;
-                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("value", &value)?;
                     state.serialize_field("kind", &"init")
                 })
@@ -133,7 +127,7 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 state.serialize_field("key", &*key)?;
                 state.serialize_field("method", &true)?;
                 state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
+                state.serialize_field("computed", &key.is_computed())?;
                 state.serialize_field("value", &value)?;
                 state.serialize_field("kind", &"init")
             }),
-- 
2.43.0


From 9c206a7abce41cd60049d808df0b21b6d064d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 40/51] fix: serialize array patterns with holes

---
 ratel/src/astgen/expression.rs | 34 +++++++++++++++++++---------------
 ratel/src/astgen/value.rs      |  3 +++
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index b578233..acc3dca 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -1,5 +1,5 @@
 use serde::ser::{Serialize, Serializer, SerializeStruct};
-use ast::{Expression, Loc, OperatorKind};
+use ast::{Expression, Loc, Node, NodeList, OperatorKind};
 use ast::expression::*;
 use astgen::SerializeInLoc;
 
@@ -37,6 +37,23 @@ fn expression_type(operator: OperatorKind, prefix: bool) -> &'static str {
     }
 }
 
+/// Holes are `None`, the ones at the end are left out
+pub fn sparse_elements<'ast, T, F>(body: NodeList<'ast, T>, is_hole: F) -> Vec<Option<&'ast Node<'ast, T>>>
+where
+    T: Copy,
+    F: Fn(&T) -> bool,
+{
+    let mut elems = body.iter()
+                        .map(|node| if is_hole(&node.item) { None } else { Some(node) })
+                        .collect::<Vec<_>>();
+
+    while let Some(&None) = elems.last() {
+        elems.pop();
+    }
+
+    elems
+}
+
 impl<'ast> SerializeInLoc for SpreadExpression<'ast> {
     fn serialize<S>(&self, serializer: S) -> Result<S::SerializeStruct, S::Error>
     where
@@ -225,20 +242,7 @@ impl<'ast> SerializeInLoc for ArrayExpression<'ast> {
     {
         self.in_loc(serializer, "ArrayExpression", 1, |state| {
 
-            let mut elems = self.body.iter()
-                                     .map(|loc| if loc.item != Expression::Void { Some(loc) } else { None } )
-                                     .collect::<Vec<_>>();
-            loop {
-                let should_pop = match elems.last() {
-                    Some(&None) => true,
-                    Some(&Some(_)) => break,
-                    None => break,
-                };
-
-                if should_pop {
-                    elems.pop();
-                }
-            }
+            let elems = sparse_elements(self.body, |item| *item == Expression::Void);
 
             state.serialize_field("elements", &elems)
         })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index b66234d..d7d8d06 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -1,6 +1,7 @@
 use ast::expression::{PropertyKey, TaggedTemplateExpression, TemplateLiteral};
 use ast::{Expression, Literal, Loc, NodeList, Pattern, Property};
 use astgen::SerializeInLoc;
+use astgen::expression::sparse_elements;
 use serde::ser::{Serialize, SerializeSeq, SerializeStruct, Serializer};
 
 #[derive(Debug, Serialize, PartialEq)]
@@ -253,6 +254,8 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                let elements = sparse_elements(elements, |item| *item == Void);
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From 193eacb9547d075e28811a2b60683116beca9361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 41/51] fix: serialize numbers with exponents, without digits
 or beyond 32 bits

---
 ratel/src/astgen/value.rs | 42 +++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index d7d8d06..4acd764 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -28,7 +28,31 @@ pub fn parse_regex(value: &str) -> RegExLiteral {
 
 #[inline]
 pub fn is_float(value: &str) -> bool {
-    value.bytes().any(|c| c == b'.')
+    value.bytes().any(|c| c == b'.' || c == b'e' || c == b'E')
+}
+
+/// The lexer accepts numbers without digits after the exponent, those have no value.
+#[inline]
+fn parse_float(value: &str) -> f64 {
+    value.parse().unwrap_or(::std::f64::NAN)
+}
+
+/// Integers that do not fit in 64 bits are represented by the nearest float.
+#[inline]
+fn serialize_integer<S: SerializeStruct>(state: &mut S, digits: &str, radix: u32) -> Result<(), S::Error> {
+    if let Ok(value) = i64::from_str_radix(digits, radix) {
+        return state.serialize_field("value", &value);
+    }
+
+    if radix == 10 {
+        return state.serialize_field("value", &parse_float(digits));
+    }
+
+    let value = digits.chars()
+                      .filter_map(|ch| ch.to_digit(radix))
+                      .fold(0.0, |value, digit| value * f64::from(radix) + f64::from(digit));
+
+    state.serialize_field("value", &value)
 }
 
 #[derive(Debug)]
@@ -200,30 +224,22 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         if is_hexdecimal || is_octal {
                             let value = unsafe { number.get_unchecked(2..number.len()) };
                             let radix = if is_hexdecimal { 16 } else { 8 };
-                            state.serialize_field(
-                                "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
-                            )?;
+                            serialize_integer(state, value, radix)?;
                             return state.serialize_field("raw", &number)
                         }
                     }
 
                     if is_float(number) {
-                        let value: f64 = number.parse().expect("Invalid number");
-                        state.serialize_field("value", &value)?;
+                        state.serialize_field("value", &parse_float(number))?;
                         return state.serialize_field("raw", &number)
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
+                    serialize_integer(state, number, 10)?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
                     let value = unsafe { number.get_unchecked(2..number.len()) };
-                    state.serialize_field(
-                        "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
-                    )?;
+                    serialize_integer(state, value, 2)?;
                     state.serialize_field("raw", &number)
                 }
                 String(value) => {
-- 
2.43.0


From 7b223b3b68581b199cfd370f02de7a853f0f76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 42/51] fix: report errors at the start of a line on that line

---
 ratel/src/error.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..55ad272 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -49,13 +49,10 @@ impl Display for ParseError {
                 start,
                 end
             } => {
-                let (lineno, line) = source[..start]
-                                       .lines()
-                                       .enumerate()
-                                       .last()
-                                       .unwrap_or((0, ""));
-
-                let colno = line.chars().count();
+                let before = &source[..start];
+                let lineno = before.bytes().filter(|&byte| byte == b'\n').count();
+                let line_start = before.rfind('\n').map_or(0, |index| index + 1);
+                let colno = before[line_start..].chars().count();
                 let token_len = source[start..end].chars().count();
 
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
-- 
2.43.0


From b450a6b96cbf984d46528aa0d2c79b0b9d4ddce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 43/51] fix: quote the empty last line in error reports

---
 ratel/src/error.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index 55ad272..4df9daa 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -57,8 +57,12 @@ impl Display for ParseError {
 
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
 
+                // `lines` leaves out the empty line after the last line break
+                let last = if source.is_empty() || source.ends_with('\n') { Some("") } else { None };
+
                 let iter = source
                             .lines()
+                            .chain(last)
                             .enumerate()
                             .skip_while(|&(index, _)| index < lineno.saturating_sub(2))
                             .take_while(|&(index, _)| index < lineno + 3);
-- 
2.43.0


From b0052466a24233448eef31977d92efd834af37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 44/51] fix: replace arrow functions in the tree itself when
 transforming

---
 ratel-transformer/src/es2015/arrow.rs | 29 +++++++++++++++++++--------
 ratel-transformer/src/lib.rs          |  2 +-
 ratel-visitor/src/expression.rs       |  8 +-------
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index c01ea7b..5255717 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -1,5 +1,5 @@
-use ratel::ast::{NodeList, ExpressionNode, Function, Name, OptionalName, Block};
-use ratel::ast::expression::{ArrowExpression, ArrowBody};
+use ratel::ast::{NodeList, Expression, ExpressionNode, Function, Name, OptionalName, Block};
+use ratel::ast::expression::{ArrowExpression, ArrowBody, FunctionExpression};
 use ratel::ast::statement::ReturnStatement;
 use ratel_visitor::Visitor;
 
@@ -15,15 +15,20 @@ impl<'ast> TransformArrow<'ast> {
             ctx
         }
     }
-}
 
-impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
-    fn on_arrow_expression(&mut self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+    fn function(&self, node: &ArrowExpression<'ast>) -> FunctionExpression<'ast> {
         let body = match node.body {
             ArrowBody::Block(block)     => block,
             ArrowBody::Expression(expr) => {
+                // The returned expression is a new node, the visitor is
+                // not going to get to it if it's an arrow function itself.
+                let value = match expr.item {
+                    Expression::Arrow(ref arrow) => self.ctx.alloc_as_loc(&expr, self.function(arrow)),
+                    _                            => expr,
+                };
+
                 let ret = self.ctx.alloc_as_loc(&expr, ReturnStatement {
-                    value: Some(expr)
+                    value: Some(value)
                 });
 
                 self.ctx.alloc_as_loc(&ret, Block {
@@ -32,11 +37,19 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
             }
         };
 
-        self.ctx.swap(*ptr, Function {
+        Function {
             name: OptionalName::empty(),
             generator: false,
             params: node.params,
             body,
-        });
+        }
+    }
+}
+
+impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
+    fn on_arrow_expression(&mut self, node: &ArrowExpression<'ast>, ptr: &'ast ExpressionNode<'ast>) {
+        let function = self.function(node);
+
+        self.ctx.swap(ptr, function);
     }
 }
diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index 7a345a4..a9c6589 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -61,7 +61,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 
     #[inline]
-    pub fn swap<T, I>(&self, ptr: Node<'ast, T>, item: I) where
+    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) where
         T: Copy + 'ast,
         I: Into<T>,
     {
diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index 7dd2d1a..faeea33 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -100,13 +100,7 @@ impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
             Arrow(ref arrow) => {
                 visitor.on_arrow_expression(arrow, self);
                 visitor.push_parent(ParentNode::from(self));
-
-                // The visitor might have just replaced this arrow with a regular
-                // function, its children need to be visited in their new place.
-                match self.item {
-                    Function(ref function) => function.visit_with(visitor),
-                    _                      => arrow.visit_with(visitor),
-                }
+                arrow.visit_with(visitor);
             },
             Object(ref object) => {
                 visitor.on_object_expression(object, self);
-- 
2.43.0


From c9fff7c05d1633bbfd02f0723c271184d9a80c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 45/51] fix: start the range of an import without specifiers at
 its keyword

---
 ratel/src/parser/statement.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 2e9f402..ece3f91 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -662,7 +662,6 @@ impl<'ast> Parser<'ast> {
                 }
             }
             LiteralString => { // empty import entry
-                let start = self.lexer.start();
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
-- 
2.43.0


From 2e0f07642f606af512aee7b8d546f3f729231279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 46/51] fix: put the operand of new in parenthesis when it is a
 unary expression

---
 ratel-codegen/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index ebe7b87..63c40c3 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -263,7 +263,7 @@ fn write_constructor<'ast, G: Generator>(gen: &mut G, constructor: &ExpressionNo
         };
     };
 
-    gen.write_expression(constructor, if has_call { 101 } else { 15 });
+    gen.write_expression(constructor, if has_call { 101 } else { 17 });
 }
 
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
-- 
2.43.0


From 8b4e57ce759ae4b8f905ffc450508ffd8004c5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 47/51] fix: reject class fields with an accessor keyword

---
 ratel/src/parser/function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index b479ea9..6f32384 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -176,7 +176,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                     value,
                 }
             },
-            OperatorAssign => {
+            // Only methods can be accessors
+            OperatorAssign if kind != MethodKind::Get && kind != MethodKind::Set => {
                 par.lexer.consume();
 
                 let expression = par.expression::<B0>();
-- 
2.43.0


From d20daea232d55c6125c528a4768ea5c129fc3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 48/51] fix: skip comments between an accessor dot and the name

---
 ratel/src/lexer/mod.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 315d579..1f297ec 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -897,7 +897,9 @@ impl<'arena> Lexer<'arena> {
                 return self.token = UnexpectedEndOfProgram;
             }
 
-            if ch > 0x20 {
+            if ch == b'/' && self.skip_comment() {
+                // Comments can separate the accessor from the name
+            } else if ch > 0x20 {
                 self.accessor_start = self.index;
 
                 let legal = if ch > 127 {
@@ -914,12 +916,38 @@ impl<'arena> Lexer<'arena> {
                 } else {
                     return self.token = UnexpectedToken;
                 }
+            } else {
+                self.bump();
             }
-
-            self.bump();
         })
     }
 
+    /// Skip the comment that starts at the slash on the current index, if there is one.
+    #[inline]
+    fn skip_comment(&mut self) -> bool {
+        let is_block = match unsafe { *self.ptr.add(self.index + 1) } {
+            b'/' => false,
+            b'*' => true,
+            _    => return false,
+        };
+
+        self.index += 2;
+
+        loop {
+            match self.read_byte() {
+                0 => return true,
+                b'\n' if !is_block => return true,
+                b'*' if is_block => {
+                    if self.next_byte() == b'/' {
+                        self.bump();
+                        return true;
+                    }
+                },
+                _ => self.bump()
+            }
+        }
+    }
+
     #[inline]
     fn read_label(&mut self) {
         while util::legal_in_label(self.read_byte()) {
-- 
2.43.0


From 27c9f44764a3e1c068f533e9006bd6a9c499b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 49/51] fix: read regular expressions that start with an equals
 sign

---
 ratel/src/lexer/mod.rs         | 3 ++-
 ratel/src/parser/expression.rs | 6 +++---
 ratel/src/parser/statement.rs  | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 1f297ec..290282b 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1034,7 +1034,8 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     pub fn read_regular_expression(&mut self) -> &'arena str {
-        let start = self.index - 1;
+        // The token read so far is either `/` or `/=`
+        let start = self.token_start;
         let mut in_class = false;
         loop {
             match self.read_byte() {
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 6906ff0..a64e45c 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -23,7 +23,7 @@ static DEF_CONTEXT: Context = &[
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
@@ -45,7 +45,7 @@ pub static ARRAY_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
@@ -58,7 +58,7 @@ pub static CALL_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index ece3f91..54d6d1a 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -28,7 +28,7 @@ static STMT_HANDLERS: [StatementHandler; 108] = [
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     CONS, BRK,  DO,   ____, ____, ____, ____, CLAS, ____, RET,  WHL,  ____,
-- 
2.43.0


From f3e85c65bfa2a038073c40203b402f6aced86e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 50/51] fix: reject numbers whose exponent has no digits

---
 ratel/src/lexer/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 290282b..80a9063 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1022,6 +1022,12 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        // An exponent needs a digit
+        match self.read_byte() {
+            b'0'..=b'9' => self.bump(),
+            _           => return self.token = UnexpectedToken,
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
-- 
2.43.0


From 7de4c187c100096c2a88514265edcafe39b3f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:54 +0000
Subject: [PATCH 51/51] fix: round integers that do not fit in 64 bits only
 once in the JSON export

---
 ratel/src/astgen/value.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 4acd764..98f0b8d 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -48,11 +48,21 @@ fn serialize_integer<S: SerializeStruct>(state: &mut S, digits: &str, radix: u32
         return state.serialize_field("value", &parse_float(digits));
     }
 
-    let value = digits.chars()
-                      .filter_map(|ch| ch.to_digit(radix))
-                      .fold(0.0, |value, digit| value * f64::from(radix) + f64::from(digit));
+    // Only the conversion of the leading bits rounds, the lowest of
+    // them stands for all those that have been left out.
+    let mut leading = 0u64;
+    let mut scale = 1f64;
+
+    for digit in digits.chars().filter_map(|ch| ch.to_digit(radix)) {
+        if leading >> 60 == 0 {
+            leading = leading * u64::from(radix) + u64::from(digit);
+        } else {
+            leading |= u64::from(digit != 0);
+            scale *= f64::from(radix);
+        }
+    }
 
-    state.serialize_field("value", &value)
+    state.serialize_field("value", &(leading as f64 * scale))
 }
 
 #[derive(Debug)]
-- 
2.43.0

