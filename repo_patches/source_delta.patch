From 4f19cfd9bd9d4fda9888749105ff8e3c167d0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:55 +0000
Subject: [PATCH 01/14] fix: keep terminals and nonterminals apart in the EBNF
 suffix caches

---
 src/tool/visitor/grammar_visitor.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 6836e31..4d54680 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -114,9 +114,9 @@ pub struct ProductionVisitor<'a> {
   block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>,
 
 
-  star_cache: HashMap<usize, usize>,
-  plus_cache: HashMap<usize, usize>,
-  question_cache: HashMap<usize, usize>,
+  star_cache: HashMap<ProductionItem, usize>,
+  plus_cache: HashMap<ProductionItem, usize>,
+  question_cache: HashMap<ProductionItem, usize>,
 }
 
 impl<'a> ProductionVisitor<'a> {
@@ -199,7 +199,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         // item * => item2 -> item item2 | epsilon
 
         // 查看是否已存在 item_id 即为 新产生式的 id。
-        if let Some(item_id) = self.star_cache.get(&id) {
+        if let Some(item_id) = self.star_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -214,14 +214,14 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.star_cache.insert(id, self.next_rule_id);
+        self.star_cache.insert(item, self.next_rule_id);
 
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else if let Some(_) = suffix.plus() {
         // item * => item2 -> item item2 | item
-        if let Some(item_id) = self.plus_cache.get(&id) {
+        if let Some(item_id) = self.plus_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -235,13 +235,13 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
 
-        self.plus_cache.insert(id, self.next_rule_id);
+        self.plus_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
       else {
         // item * => item2 -> item | epsilon
-        if let Some(item_id) = self.question_cache.get(&id) {
+        if let Some(item_id) = self.question_cache.get(&item) {
           return Box::new(ProductionItem::NonTerminal(*item_id));
         }
 
@@ -254,7 +254,7 @@ impl SyntaxisVisitor for ProductionVisitor<'_> {
         let p2 = Production::new(self.next_rule_id, &vec![item]);
         self.grammar.productions.insert(p1);
         self.grammar.productions.insert(p2);
-        self.question_cache.insert(id, self.next_rule_id);
+        self.question_cache.insert(item, self.next_rule_id);
         self.next_rule_id += 1;
         return Box::new(item2);
       }
-- 
2.43.0


From 72d0d64fd903eabc2eb61a4e2c54a006e4192905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 02/14] fix: look a repeated parser rule up among the
 nonterminals

---
 src/tool/visitor/grammar_visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 4d54680..d385f60 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -93,7 +93,7 @@ impl SyntaxisVisitor for SymbolVisitor<'_> {
 
   fn visit_parser_rule(&mut self, ctx: &dyn ParserRuleContext) -> Box<dyn std::any::Any> {
     let name = &ctx.rule_ref().unwrap().symbol.text;
-    if self.grammar.vocabulary.is_terminal_name_defined(name) {
+    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {
       println!("重复定义 rule: {}", name);
       return self.default_result();
     }
-- 
2.43.0


From 9fdd914bd690660e9f3a69b19a2489f4c191be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:57 +0000
Subject: [PATCH 03/14] fix: place the _STOP token at the end of the input

---
 src/tool/templates/target/rust/lexer.tera | 4 ++--
 src/tool/v1/syntaxis_lexer.rs             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tool/templates/target/rust/lexer.tera b/src/tool/templates/target/rust/lexer.tera
index 2def620..3d923a5 100644
--- a/src/tool/templates/target/rust/lexer.tera
+++ b/src/tool/templates/target/rust/lexer.tera
@@ -67,8 +67,8 @@ impl Lexer for {{name}}Lexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
diff --git a/src/tool/v1/syntaxis_lexer.rs b/src/tool/v1/syntaxis_lexer.rs
index cdeb40c..26f1ce1 100644
--- a/src/tool/v1/syntaxis_lexer.rs
+++ b/src/tool/v1/syntaxis_lexer.rs
@@ -90,8 +90,8 @@ impl Lexer for SyntaxisLexer {
         channel: 0,
         text: "_STOP".to_owned(),
         token_index: self.token_index,
-        char_start_index: self.cursor,
-        char_stop_index: self.cursor,
+        char_start_index: self.input.len(),
+        char_stop_index: self.input.len(),
       });
     }
     let mut len = 0;
-- 
2.43.0


From 859155d193415c59205c15c83357320c72a1f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:25 +0000
Subject: [PATCH 04/14] fix: spell the QUESTION token name of the bootstrap
 lexer

---
 src/tool/syntaxis/syntaxis_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/syntaxis/syntaxis_lexer.rs b/src/tool/syntaxis/syntaxis_lexer.rs
index 00f6db8..de1d428 100644
--- a/src/tool/syntaxis/syntaxis_lexer.rs
+++ b/src/tool/syntaxis/syntaxis_lexer.rs
@@ -72,7 +72,7 @@ impl SyntaxisLexer {
 
     let token_names = vec![
       "_START", "_STOP", "LINE_COMMENT", "BLOCK_COMMENT", "WS", "FRAGMENT", "TOKEN_REF",
-      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUEStION", "DOT",
+      "RULE_REF", "COLON", "OR", "SEMI", "STAR", "PLUS", "QUESTION", "DOT",
       "NOT", "LPAREN", "RPAREN", "POUND", "STRING_LITERAL", "RANGE", "REGULAR_LITERAL", "EPSILON"
     ];
 
-- 
2.43.0


From 65a7bb337c961b57bbada74a885fbca721341ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 05/14] fix: skip empty subtrees when looking for the first and
 last token of a rule

---
 src/runtime/ast/rule_context.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/runtime/ast/rule_context.rs b/src/runtime/ast/rule_context.rs
index 9be510c..69a893b 100644
--- a/src/runtime/ast/rule_context.rs
+++ b/src/runtime/ast/rule_context.rs
@@ -35,41 +35,38 @@ impl RuleContext {
   pub fn get_rule_index(&self) -> usize { self.rule_index }
 
   pub fn get_first_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    // 跳过不包含任何终结符的子节点(例如匹配了 epsilon 的 rule)
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx),
       ASTContext::Rule(ctx) => ctx.get_first_terminal(),
       ASTContext::Error(_) => None,
-    }
+    })
 
   }
 
   pub fn get_last_terminal(&self) -> Option<&TerminalContext> { 
-    if self.children.len() <= 0 { return None }
-    match &self.children.last().unwrap() {
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx),
       ASTContext::Rule(ctx) => ctx.get_last_terminal(),
       ASTContext::Error(_) => None,
-    }
+    })
   }
 
   pub fn get_start_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match &self.children[0] {
+    self.children.iter().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_start_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
+    })
 
   }
 
   pub fn get_stop_token(&self) -> Option<Token> {
-    if self.children.len() <= 0 { return None }
-    match self.children.last().unwrap() {
+    self.children.iter().rev().find_map(|child| match child {
       ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),
       ASTContext::Rule(ctx) => ctx.get_stop_token(),
       ASTContext::Error(ctx) => Some(ctx.symbol.clone()),
-    }
+    })
   }
 
   pub fn get_terminal(&self, token_type: usize, i: usize) -> Option<&TerminalContext> {
-- 
2.43.0


From 0de0a5c7ae0754c1e6cebc37f587a16174e6ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:37 +0000
Subject: [PATCH 06/14] fix: hand out v1 views from the v1 parser, whose token
 numbers match the v1 lexer

---
 src/tool/v1/syntaxis_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tool/v1/syntaxis_parser.rs b/src/tool/v1/syntaxis_parser.rs
index f8d4991..3431729 100644
--- a/src/tool/v1/syntaxis_parser.rs
+++ b/src/tool/v1/syntaxis_parser.rs
@@ -1,6 +1,8 @@
 use std::{collections::HashMap, rc::Rc};
 
-use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::{grammar::{Production, ProductionItem}, syntaxis::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext}}};
+use crate::{runtime::{token::Token, ast::{rule_context::RuleContext, terminal_context::TerminalContext, ast_context::ASTContext}, vocabulary::Vocabulary}, tool::grammar::{Production, ProductionItem}};
+
+use super::syntaxis_context::{RuleListContext, ParserRuleContext, BlockContext, AlternativeContext, EpsilonContext, ElementContext, EbnfSuffixContext, LexerRuleContext, RegularContext};
 
 
 
-- 
2.43.0


From f34ae03df7c88e429c86ae8d5d039a12947fd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:52 +0000
Subject: [PATCH 07/14] fix: show should_visit_next_child the current result,
 not the box around it

---
 src/tool/syntaxis/syntaxis_visitor.rs | 2 +-
 src/tool/v1/syntaxis_visitor.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/syntaxis/syntaxis_visitor.rs b/src/tool/syntaxis/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/syntaxis/syntaxis_visitor.rs
+++ b/src/tool/syntaxis/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
diff --git a/src/tool/v1/syntaxis_visitor.rs b/src/tool/v1/syntaxis_visitor.rs
index e241f28..024f8db 100644
--- a/src/tool/v1/syntaxis_visitor.rs
+++ b/src/tool/v1/syntaxis_visitor.rs
@@ -71,7 +71,7 @@ pub trait SyntaxisVisitor {
   fn visit_children(&mut self, ctx: &RuleContext) -> Box<dyn Any> {
     let mut result = self.default_result();
     for child in ctx.children.iter() {
-      if ! self.should_visit_next_child(ctx, &result) { break; }
+      if ! self.should_visit_next_child(ctx, result.as_ref()) { break; }
 
       let child_result = match child {
         ASTContext::Terminal(ctx) => self.visit_terminal(ctx),
-- 
2.43.0


From a4463888afc026b6ba9da438f56de5c138b3f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:05 +0000
Subject: [PATCH 08/14] fix: escape template substitutions, carriage returns
 and tags in drawn names and texts

---
 src/tool/gui/ast_drawer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index ec55cc6..0117fe4 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -25,7 +25,8 @@ impl ASTDrawer {
   }
 
   fn escape(s: &str) -> String {
-    s.replace("\\", "\\\\").replace("`", "\\`")
+    // 防止 ${ 被当作模板替换、回车符被规范化为换行符、</script 或 <!-- 影响外层的 script 标签
+    s.replace("\\", "\\\\").replace("`", "\\`").replace("$", "\\$").replace("\r", "\\r").replace("<", "\\x3C")
   }
 
   fn dump(ast: &RuleContext) -> String {
-- 
2.43.0


From 2ac952c8b05de77a90d1636963433a53aa0de5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:05 +0000
Subject: [PATCH 09/14] fix: write the whole drawn page, or fail

---
 src/tool/gui/ast_drawer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/gui/ast_drawer.rs b/src/tool/gui/ast_drawer.rs
index 0117fe4..58f712a 100644
--- a/src/tool/gui/ast_drawer.rs
+++ b/src/tool/gui/ast_drawer.rs
@@ -57,7 +57,7 @@ impl ASTDrawer {
     
 
     let mut file = std::fs::File::create(filename).unwrap();
-    file.write(result.as_bytes()).unwrap();
+    file.write_all(result.as_bytes()).unwrap();
   }
 }
 
-- 
2.43.0


From cd6b518f939670512849f1c26d12782db430dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:34 +0000
Subject: [PATCH 10/14] fix: make a string literal's token match exactly the
 string it denotes

---
 src/tool/visitor/lexer_rule_visitor.rs | 31 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 67d695d..8ddb23f 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -82,11 +82,7 @@ impl SyntaxisVisitor for StringLiteralVisitor {
 
 
       // abc  ab\n
-      let literal = &name[1..name.len()-1]
-        .replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")
-        .replace("\\r", "\r").replace("\\'", "\'").replace("+", "\\+")
-        .replace("*", "\\*")
-      ;
+      let literal = StringLiteralVisitor::regular_escape(&name[1..name.len()-1]);
 
       self.data.push( LexerRuleData {token_type: self.next_token_type, token_name: format!("T_{}", self.next_token_type), regex: format!("^({})", literal) });
       self.next_token_type += 1;
@@ -103,4 +99,29 @@ impl StringLiteralVisitor {
       cache: HashSet::new(),
     }
   }
+
+  // 将字符串字面量的内容转换为恰好识别它所表示的字符串的正则表达式
+  fn regular_escape(literal: &str) -> String {
+    let mut result = String::new();
+    let mut chars = literal.chars();
+    while let Some(c) = chars.next() {
+      if c != '\\' {
+        result += &regex::escape(c.encode_utf8(&mut [0; 4]));
+        continue;
+      }
+
+      match chars.next() {
+        Some('\'') => result.push('\''),
+        Some('u') => {
+          // \u{41} 与 \u{0x41}, 后者的 0x 不能出现在正则表达式中
+          let code: String = chars.by_ref().take_while(|c| *c != '}').collect();
+          result += &format!("\\u{{{}}}", code.trim_start_matches("{").trim_start_matches("0x"));
+        },
+        // 其余转义在正则表达式中的写法相同
+        Some(c) => { result.push('\\'); result.push(c); },
+        None => result += "\\\\",
+      }
+    }
+    result
+  }
 }
-- 
2.43.0


From f1696d9507546bb8c266689e6d69616aa6c9f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:32 +0000
Subject: [PATCH 11/14] fix: give the string literals of a grammar their tokens
 instead of panicking

---
 src/tool/visitor/grammar_visitor.rs    | 10 ++++++----
 src/tool/visitor/lexer_rule_visitor.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index d385f60..649ca82 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::tool::{grammar::{Grammar, ProductionItem, Production}, syntaxis::{syntaxis_visitor::SyntaxisVisitor, syntaxis_context::{ElementContext, LexerRuleContext, ParserRuleContext}}};
 
-use super::lexer_rule_visitor::LexerRuleData;
+use super::lexer_rule_visitor::{LexerRuleData, StringLiteralVisitor};
 
 /**
  * 第一遍 将所有的语法规则中的字符串字面量转换为 token
@@ -20,11 +20,13 @@ pub struct StringLiteralToTokenVisitor<'a> {
 }
 
 impl<'a> StringLiteralToTokenVisitor<'a> {
-  // 将字符串字面量转义为对应的实际字符串
-  fn escape(_input: &str) -> String { todo!() }
+  // 字符串字面量对应的 token 名, 即字面量本身, ProductionVisitor 据此查找
+  fn escape(input: &str) -> String { input.to_owned() }
   
   // 将字符串字面量转义为识别它的正则表达式
-  fn regular_escape(_input: &str) -> String { todo!() }
+  fn regular_escape(input: &str) -> String {
+    format!("^({})", StringLiteralVisitor::regular_escape(&input[1..input.len()-1]))
+  }
 
   pub fn new(grammar: &'a mut Grammar, first_token_id: usize) -> Self {
     Self { grammar, next_token_id: first_token_id, data: Vec::new(), }
diff --git a/src/tool/visitor/lexer_rule_visitor.rs b/src/tool/visitor/lexer_rule_visitor.rs
index 8ddb23f..6cffd5b 100644
--- a/src/tool/visitor/lexer_rule_visitor.rs
+++ b/src/tool/visitor/lexer_rule_visitor.rs
@@ -101,7 +101,7 @@ impl StringLiteralVisitor {
   }
 
   // 将字符串字面量的内容转换为恰好识别它所表示的字符串的正则表达式
-  fn regular_escape(literal: &str) -> String {
+  pub(super) fn regular_escape(literal: &str) -> String {
     let mut result = String::new();
     let mut chars = literal.chars();
     while let Some(c) = chars.next() {
-- 
2.43.0


From 7dc1efaa23d1ea132dabd7916987181fa6d1915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:18 +0000
Subject: [PATCH 12/14] fix: collect the string literals inside blocks too

---
 src/tool/visitor/grammar_visitor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool/visitor/grammar_visitor.rs b/src/tool/visitor/grammar_visitor.rs
index 649ca82..4fb5bad 100644
--- a/src/tool/visitor/grammar_visitor.rs
+++ b/src/tool/visitor/grammar_visitor.rs
@@ -50,7 +50,8 @@ impl SyntaxisVisitor for StringLiteralToTokenVisitor<'_> {
       self.data.push(LexerRuleData { token_type: self.next_token_id, token_name: format!("_T_{}", self.next_token_id), regex: regular_string, });
       self.next_token_id += 1;
     }
-    self.default_result()
+    // 括号中的 block 里也可能有字符串字面量
+    self.visit_children(ctx.as_rule())
   }
 }
 
-- 
2.43.0


From 300522d781a100fa1520ba1045f3724b4d1a5ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:43 +0000
Subject: [PATCH 13/14] fix: print a space before the nonterminals of a
 production

---
 src/tool/grammar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/grammar/mod.rs b/src/tool/grammar/mod.rs
index cc4aa36..4c14692 100644
--- a/src/tool/grammar/mod.rs
+++ b/src/tool/grammar/mod.rs
@@ -235,7 +235,7 @@ impl Display for Grammar {
       for item in production.right.iter() {
         match item {
           ProductionItem::NonTerminal(id) => {
-            write!(f, "{}", self.vocabulary.get_nonterminal_name_with_default(*id))?
+            write!(f, " {}", self.vocabulary.get_nonterminal_name_with_default(*id))?
           },
           ProductionItem::Terminal(id) => {
             let name = self.vocabulary.get_terminal_name(*id);
-- 
2.43.0


From 4db077b8cf645239c834514e1e5f188ce11f0df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 14/14] fix: escape the title of a drawn page

---
 src/tool/templates/gui/ast.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/templates/gui/ast.html b/src/tool/templates/gui/ast.html
index 8e25d35..cb2ceb4 100644
--- a/src/tool/templates/gui/ast.html
+++ b/src/tool/templates/gui/ast.html
@@ -5,7 +5,7 @@
   <meta charset="UTF-8">
   <meta http-equiv="X-UA-Compatible" content="IE=edge">
   <meta name="viewport" content="width=device-width, initial-scale=1.0">
-  <title>{{ name }}</title>
+  <title>{{ name | escape }}</title>
   <style>
     * {
       margin: 0 0;
-- 
2.43.0

