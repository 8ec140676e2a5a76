From 6b4a04fabf6d1a7e3a41f742513d31c4260946ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 01/42] fix: accept an empty dictionary display

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..8855f54 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From d130a826eec35ddd5b3c81d2f628bf61f382c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 02/42] fix: lambda definition checks for its 'lambda' keyword

---
 src/parser/expressions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8855f54..90ba180 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -657,6 +657,10 @@ impl Expressions for PythonCoreParser {
         match &self.symbol {
             Ok(s1) => {
                 let symbol1 = (*s1).clone();
+                match &*symbol1 {
+                    Token::PyLambda(..) => { },
+                    _ => return Err(format!("SyntaxError at {}: Expecting 'lambda' in 'lambda' expression!", start_pos))
+                }
                 let _ = self.advance();
                 let mut left : Option<Box<ASTNode>> = None;
                 match &self.symbol {
-- 
2.43.0


From 92a35b6d3c8cfbe20eb2eda27a2ded6659dbd44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 03/42] fix: accept a trailing comma in tuple and list displays

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 90ba180..b377a31 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -806,6 +806,8 @@ impl Expressions for PythonCoreParser {
                                         match &self.symbol {
                                             Ok(s4) => {
                                                 match &(**s4) {
+                                                    Token::PyRightParen(..) |
+                                                    Token::PyRightBracket(..) => { },
                                                     Token::PyMul(..) => {
                                                         nodes_list.push(self.parse_expressions_star_expr()?)
                                                     },
-- 
2.43.0


From f36b8454fe9c99061a5d205b1ec0602bc3cdc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 04/42] fix: parse call arguments as an argument list

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b377a31..4ae2a34 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -847,7 +847,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From dc7b9d7a2624819296def7916472b0e668c7de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 05/42] fix: slices look at the token after the first ':' and
 may end at ','

---
 src/parser/expressions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4ae2a34..1680990 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -958,6 +958,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s3) => {
                                 match &**s3 {
                                     Token::PyRightBracket(..) |
+                                    Token::PyComa(..) |
                                     Token::PyColon(..) => { },
                                     _ => second_node = Some(self.parse_expressions_test()?)
                                 }
@@ -966,7 +967,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3{
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
@@ -974,7 +975,7 @@ impl Expressions for PythonCoreParser {
                                             Ok(s4) => {
                                                 match &**s4 {
                                                     Token::PyRightBracket(..) |
-                                                    Token::PyColon(..) => { },
+                                                    Token::PyComa(..) => { },
                                                     _ => third_node = Some(self.parse_expressions_test()?)
                                                 }
                                             },
-- 
2.43.0


From 0b70b2602cb0757071d74e2194274ef4adb67bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 06/42] fix: accept a trailing comma in a subscript list

---
 src/parser/expressions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1680990..094be48 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -919,7 +919,15 @@ impl Expressions for PythonCoreParser {
                             let symbol1 = (**s).clone();
                             separators_list.push( Box::new(symbol1) );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_expressions_subscript()? );
+                            match &self.symbol {
+                                Ok(s2) => {
+                                    match &**s2 {
+                                        Token::PyRightBracket(..) => { },
+                                        _ => nodes_list.push( self.parse_expressions_subscript()? )
+                                    }
+                                },
+                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in subscript list expression!", self.lexer.get_position()))
+                            }
                             true
                         },
                         _ => false
-- 
2.43.0


From 89c487d1253d589c020ef2949841f1971d404d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 07/42] fix: target lists hold expressions and may end a
 statement with a comma

---
 src/parser/expressions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 094be48..7d1b744 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1014,7 +1014,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1030,6 +1030,8 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
+                                        Token::Newline(..) |
+                                        Token::PySemiColon(..) |
                                         Token::PyIn(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
@@ -1037,7 +1039,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From b49de7984f9ceb07c8671a3edd2554e3603e2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 08/42] fix: accept a trailing comma in a test list before ':'

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7d1b744..e65bad7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1079,6 +1079,7 @@ impl Expressions for PythonCoreParser {
                                     match &(**s2) {
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
+                                        Token::PyColon(..) |
                                         Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         _ => {
-- 
2.43.0


From 1148b577aa849fb40bb0a9db53ffbe6955cc865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 09/42] fix: accept a trailing comma in a star-expression list
 before ')' and a type comment

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e65bad7..995ba47 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1526,6 +1526,8 @@ impl Expressions for PythonCoreParser {
                                         Token::PySemiColon( .. ) |
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
+                                        Token::PyRightParen( .. ) |
+                                        Token::TypeComment( .. ) |
                                         Token::PyColon( .. ) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
-- 
2.43.0


From a7433c7771e3e6b466d67e3a555ea0d59059ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 10/42] fix: dictionary displays continue after the second
 entry

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 995ba47..24a6e84 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1194,7 +1194,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From 60a18fa39a81ec8956ee8233bcc83bce368989c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 11/42] fix: later entries of a dictionary or set display start
 where they are written

---
 src/parser/expressions.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 24a6e84..34f8495 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1160,6 +1160,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1169,7 +1170,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
@@ -1181,7 +1182,7 @@ impl Expressions for PythonCoreParser {
                                                                     let symbol3 = (**s3).clone();
                                                                     let _ = self.advance();
                                                                     let right_node = self.parse_expressions_test()?;
-                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
+                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(entry_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
                                                                     true
                                                                 },
                                                                 _ => return Err(format!("SyntaxError at {}: Expecting ':' in dictionary entry expression!", self.lexer.get_position()))
@@ -1211,6 +1212,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1220,7 +1222,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::MulSet(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
-- 
2.43.0


From 0fe0525501a4610d0df719c4dd6973cb1f4e08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 12/42] fix: accept dictionary and set comprehensions

---
 src/parser/expressions.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 34f8495..2b457a1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1150,6 +1150,23 @@ impl Expressions for PythonCoreParser {
             },
             _ => return Err(format!("Syntax Error at {} - Expecting symbol in dictionary/set expression!", self.lexer.get_position()))
         }
+        match &self.symbol {
+            Ok(s) => {
+                match &**s {
+                    Token::PyFor(..) |
+                    Token::PyAsync(..) => {
+                        nodes_list.push( self.parse_expressions_comp_for()? );
+                        nodes_list.reverse();
+                        return match is_dictionary {
+                            true => Ok(Box::new( ASTNode::DictionaryContainer(start_pos, self.lexer.get_position(), nodes_list, separators_list) )),
+                            _ => Ok(Box::new( ASTNode::SetContainer(start_pos, self.lexer.get_position(), nodes_list, separators_list) ))
+                        }
+                    },
+                    _ => { }
+                }
+            },
+            _ => return Err(format!("Syntax Error at {} - Expecting symbol in dictionary/set expression!", self.lexer.get_position()))
+        }
         match is_dictionary {
             true => {
                 while
-- 
2.43.0


From b8d9645f1de91fb5a5402cfae4cb2c9551844386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 13/42] fix: accept named expressions in set displays

---
 src/parser/expressions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 2b457a1..bb9ad92 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1137,6 +1137,13 @@ impl Expressions for PythonCoreParser {
                                         let right_node = self.parse_expressions_test()?;
                                         nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol2), right_node) ) );
                                     },
+                                    Token::PyColonAssign(..) => {
+                                        is_dictionary = false;
+                                        let symbol2 = (**s2).clone();
+                                        let _ = self.advance();
+                                        let right_node = self.parse_expressions_test()?;
+                                        nodes_list.push( Box::new( ASTNode::NamedExpr(start_pos, self.lexer.get_position(), left_node, Box::new(symbol2), right_node) ) );
+                                    },
                                     _ => {
                                         is_dictionary = false;
                                         nodes_list.push( left_node )
@@ -1243,7 +1250,7 @@ impl Expressions for PythonCoreParser {
                                                     true
                                                 },
                                                 _ => {
-                                                    nodes_list.push( self.parse_expressions_test()? );
+                                                    nodes_list.push( self.parse_expressions_named_expression()? );
                                                     true
                                                 }
                                             }
-- 
2.43.0


From 7cda8cf3a1474c1c621b79be0d97c752bced1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 14/42] fix: accept a trailing comma after lambda parameters

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index bb9ad92..bd63c19 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1630,6 +1630,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
@@ -1692,6 +1693,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 coma_found = true;
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1742,6 +1744,7 @@ impl Expressions for PythonCoreParser {
                                                                                                                 }
                                                                                                                 false
                                                                                                             },
+                                                                                                            Token::PyColon(..) => false,
                                                                                                             _ => {
                                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                                 true
@@ -1816,6 +1819,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 }
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1850,6 +1854,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
-- 
2.43.0


From 9745e0d46e088d39c52b85d10c9633a6a66c750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 15/42] fix: starred lambda parameters take no default and a
 lone '*' is allowed

---
 src/parser/expressions.rs | 45 +++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index bd63c19..960d75d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1601,7 +1601,16 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        match &self.symbol {
+                            Ok(name) => {
+                                match &**name {
+                                    Token::PyComa(..) |
+                                    Token::PyColon(..) => { },
+                                    _ => mul_node = Some( self.parse_expressions_vfp_def()? )
+                                }
+                            },
+                            _ => return Err(format!("Syntax Error at {} - Expecting symbol in variable arguments list expression!", self.lexer.get_position()))
+                        }
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1615,7 +1624,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1649,7 +1658,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1715,7 +1724,16 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            match &self.symbol {
+                                                                                Ok(name) => {
+                                                                                    match &**name {
+                                                                                        Token::PyComa(..) |
+                                                                                        Token::PyColon(..) => { },
+                                                                                        _ => mul_node = Some( self.parse_expressions_vfp_def()? )
+                                                                                    }
+                                                                                },
+                                                                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in variable arguments list expression!", self.lexer.get_position()))
+                                                                            }
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1729,7 +1747,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1764,7 +1782,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1790,7 +1808,16 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            match &self.symbol {
+                                                                Ok(name) => {
+                                                                    match &**name {
+                                                                        Token::PyComa(..) |
+                                                                        Token::PyColon(..) => { },
+                                                                        _ => mul_node = Some( self.parse_expressions_vfp_def()? )
+                                                                    }
+                                                                },
+                                                                _ => return Err(format!("Syntax Error at {} - Expecting symbol in variable arguments list expression!", self.lexer.get_position()))
+                                                            }
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
@@ -1804,7 +1831,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1839,7 +1866,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0


From ac1f356f9fa25d4bee95d1abc45d2113ea2c0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 16/42] fix: the value of an annotated assignment may contain
 starred expressions

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..8122a83 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -508,7 +508,7 @@ impl Statements for PythonCoreParser {
                                                         Ok(Box::new( ASTNode::AnnAssignStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node, Some( (symbol2, next_node) )) ))
                                                     },
                                                     _ => {
-                                                        let next_node = self.parse_expressions_testlist()?;
+                                                        let next_node = self.parse_expressions_testlist_star_expr()?;
                                                         Ok(Box::new( ASTNode::AnnAssignStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node, Some( (symbol2, next_node) )) ))
                                                     }
                                                 }
-- 
2.43.0


From b497baca107ec82934b73afb90137331eabcb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 17/42] fix: the message of an assert statement follows a comma

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 8122a83..a46460e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1156,7 +1156,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From f7dc4816ca216128e232eea988a5893021027a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 18/42] fix: import statements reach the import rule instead of
 themselves

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index a46460e..18fe843 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From 491ff1a67ec998418dbf318cc1c1e6682ba2fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 19/42] fix: async def parses a function definition

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 18fe843..a0b0345 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1228,7 +1228,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From 614b3cbffd91893c781d0a56b835fa7be6c5e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 20/42] fix: conditions of if, elif and while may be named
 expressions

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index a0b0345..70e961a 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1260,7 +1260,7 @@ impl Statements for PythonCoreParser {
                     Token::PyIf(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1319,7 +1319,7 @@ impl Statements for PythonCoreParser {
                     Token::PyElif(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1381,7 +1381,7 @@ impl Statements for PythonCoreParser {
                     Token::PyWhile(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-- 
2.43.0


From d3ee3a3c37e996d285fc26b95007434e76272f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 21/42] fix: reject 'except*' without an exception type

---
 src/parser/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 70e961a..0a5e0ae 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1785,6 +1785,9 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
+                                    Token::PyColon(..) if symbol_mul.is_some() => {
+                                        Err(format!("SyntaxError at {}: Expecting exception type after 'except*' in except statement!", start_pos))
+                                    },
                                     Token::PyColon(..) => {
                                         Ok(Box::new( ASTNode::ExceptClauseStmt(start_pos, self.lexer.get_position(), symbol1, symbol_mul, None) ))
                                     },
-- 
2.43.0


From 9a21058aea3f19b5e42ece9ea2005799a3df213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 22/42] fix: a nested try statement leaves the enclosing
 statement's handler kind alone

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 0a5e0ae..739aa9b 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1495,7 +1495,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1508,6 +1508,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1551,6 +1552,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From f5ab8c9b8d24ac9e7e3adc659449c6e3c290b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 23/42] fix: a with item with a target is a with item node

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 739aa9b..536a684 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1717,7 +1717,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From d43a1141cce05d3431ca5d26ca95cbf3abcb4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 24/42] fix: class arguments are an argument list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..e10e5c8 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -629,7 +629,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From 6d599584122aae3b77edc8e57fc392bbb8f6a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 25/42] fix: a decorator consumes the line end it stores

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index e10e5c8..de02a5c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From da3691bf20eb430395015029184d98b015792ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 26/42] fix: interactive input consumes the line end after a
 compound statement

---
 src/parser/blocks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index de02a5c..7da0e25 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -122,6 +122,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s2 {
                                     Token::Newline(..) => {
                                         let symbol = Some( s2 );
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, symbol) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting Newline after compound statement in single input!", start_pos))
@@ -139,6 +140,7 @@ impl Blocks for PythonCoreParser {
                                         match &*s3 {
                                             Token::Newline(..) => {
                                                 let symbol = Some( s3 );
+                                                let _ = self.advance();
                                                 Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, symbol) ))
                                             },
                                             _ => Err(format!("SyntaxError at {}: Expecting Newline after compound statement in single input!", start_pos))
-- 
2.43.0


From 2549d721e44676ab1bbd27c047c445442bd92b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 27/42] fix: a function definition needs its parameter list

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 7da0e25..8baf371 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -362,7 +362,7 @@ impl Blocks for PythonCoreParser {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
                                                     },
-                                                    _ => None
+                                                    _ => return Err(format!("SyntaxError at {}: Expecting '(' in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From ade262cab7034b8c03d82023bb07ea30ae2799e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 28/42] fix: a match statement is an error instead of a panic

---
 src/parser/patterns.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..648f0ac 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -1,5 +1,6 @@
 
 use crate::{ ASTNode, PythonCoreParser };
+use crate::parser::tokenizer::Tokenizer;
 
 
 pub trait Patterns {
@@ -9,7 +10,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+        Err(format!("SyntaxError at {}: Match statements are not supported!", self.lexer.get_position()))
     }
 }
 
-- 
2.43.0


From 2a508858821abdd0274cf6392bc1b5e09fbcfc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 29/42] fix: accept a trailing comma in an assigned test list
 before '=' and a type comment

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 960d75d..7d663af 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1079,6 +1079,8 @@ impl Expressions for PythonCoreParser {
                                     match &(**s2) {
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
+                                        Token::PyAssign(..) |
+                                        Token::TypeComment(..) |
                                         Token::PyColon(..) |
                                         Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
-- 
2.43.0


From ef6c30876f147df2b4bebab3992edb18e781083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 30/42] fix: a CRLF line end no longer swallows the first
 character of the next line

---
 src/parser/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..1b83706 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -182,7 +182,8 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle newline as token or trivia as needed */
                 match self.source_buffer.peek_three_chars() {
                     ( '\r', '\n', _  ) => {
-                        for _i in 1 ..= 3 { let _ = self.source_buffer.advance(); }
+                        for _i in 1 ..= 2 { let _ = self.source_buffer.advance(); }
+                        if self.source_buffer.get_position() == self.source_buffer.count() { let _ = self.source_buffer.advance(); } // Last line end of source is reported one longer.
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
                             trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
-- 
2.43.0


From 1fed7bf4a20704a5c61d55b8a3b261fc0430822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 31/42] fix: a number starting with '0' no longer swallows the
 character after it

---
 src/parser/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b83706..f458c3a 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -742,9 +742,15 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From c9d372fb2ab8c4df0c6c5b5a8968b0438a612ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 32/42] fix: a backslash in a string literal escapes the
 character after it

---
 src/parser/tokenizer.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index f458c3a..0318831 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1027,6 +1027,15 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         true
                     },
+                    ( '\\', c, _ ) => {
+                        buffer.push(self.source_buffer.get_char());
+                        let _ = self.source_buffer.advance();
+                        if c != '\0' {
+                            buffer.push(c);
+                            let _ = self.source_buffer.advance();
+                        }
+                        true
+                    },
                     ( a, b, c) if quote == a && quote == b && quote == c => {
                         for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         false
@@ -1045,6 +1054,13 @@ impl Tokenizer for PythonCoreTokenizer {
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
+                    '\\' => {
+                        buffer.push(self.source_buffer.get_char());
+                        let _ = self.source_buffer.advance();
+                        let escaped = match self.source_buffer.peek_three_chars() { ( '\0', _ , _ ) => 0, ( '\r', '\n', _ ) => 2, _ => 1 };
+                        for _i in 0 .. escaped { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     _ => {
                         if self.source_buffer.get_char() == quote {
                             buffer.push(self.source_buffer.get_char());
-- 
2.43.0


From 0d40bb99a8e3627868a7a46e8ca16455448fb3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 33/42] fix: recognise bytes literals and raw bytes literals

---
 src/parser/tokenizer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 0318831..5366053 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -618,6 +618,16 @@ impl Tokenizer for PythonCoreTokenizer {
                     "u" |
                     "R" |
                     "U" |
+                    "b" |
+                    "B" |
+                    "br" |
+                    "Br" |
+                    "bR" |
+                    "BR" |
+                    "rb" |
+                    "rB" |
+                    "Rb" |
+                    "RB" |
                     "f" |
                     "F" |
                     "fr" |
-- 
2.43.0


From 5895759bf5581a556e1038c20303ea7122a8ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 34/42] fix: lines after a blank or comment line take part in
 indentation again

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 5366053..3b05c34 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From 979b97f6c91c3ae6fedecdc5b0e3a8de329db7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 35/42] fix: indent and dedent tokens keep the trivia collected
 before them

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 3b05c34..b1ceff3 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From f9ff9b526038729c56ae30d939c17172fe9c16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 36/42] fix: a dedent to a column between two levels is an
 error

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b1ceff3..13e55a3 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -98,7 +98,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0


From 81464c2fb5ec6ada0f56e31c478bc1c7c2868be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 37/42] fix: newline trivia records the line end that was read

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 13e55a3..d08dff8 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -204,7 +204,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -221,7 +221,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From 23ec4dd22f6276b62476495f87ea4a5dfe9fa869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 38/42] fix: a number with an exponent needs digits in the
 exponent

---
 src/parser/tokenizer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d08dff8..8390c50 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -815,6 +815,10 @@ impl Tokenizer for PythonCoreTokenizer {
                                     },
                                     _ => {}
                                 }
+                                match self.source_buffer.get_char() {
+                                    '0' ..= '9' => {},
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit in exponent!", &self.get_position()) )
+                                }
                                 while   match self.source_buffer.get_char() {
                                     '_' => {
                                         buffer.push( self.source_buffer.get_char() );
@@ -884,6 +888,10 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
+                        match self.source_buffer.get_char() {
+                            '0' ..= '9' => {},
+                            _ => return Err( format!("Syntax Error at {} - Expected digit in exponent!", &self.get_position()) )
+                        }
                         while   match self.source_buffer.get_char() {
                             '_' => {
                                 buffer.push( self.source_buffer.get_char() );
@@ -969,6 +977,10 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
+                        match self.source_buffer.get_char() {
+                            '0' ..= '9' => {},
+                            _ => return Err( format!("Syntax Error at {} - Expected digit in exponent!", &self.get_position()) )
+                        }
                         while   match self.source_buffer.get_char() {
                             '_' => {
                                 buffer.push( self.source_buffer.get_char() );
-- 
2.43.0


From c9f2dfd8cc0042475e53fc43e9b9e91a658bb391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 39/42] fix: a NUL character is not the end of the source

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 8390c50..6707fb5 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -172,7 +172,7 @@ impl Tokenizer for PythonCoreTokenizer {
 
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
-                    '\0' => {
+                    '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => {
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
-- 
2.43.0


From 32fc410c5ee1d8027cfb0edc1664c1c16c7fe9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 40/42] fix: blanks on the last line do not change indentation

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 6707fb5..3a472af 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -84,6 +84,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 is_blank_line = true
                             }
                         },
+                        '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => col = 0u32, // End of source leaves all blocks.
                         _ => { }
                     }
 
-- 
2.43.0


From a3119a39146bc39c154afba41e937410099c23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 41/42] fix: a line starting with a line continuation takes
 part in indentation and ends with a newline

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 3a472af..4d63931 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -67,7 +67,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     };
 
                     match self.source_buffer.get_char() {
-                        '#' | '\r' | '\n' | '\\' => {
+                        '#' | '\r' | '\n' => {
                             if col == 0 && self.is_interactive {
                                 match self.source_buffer.get_char() {
                                     '\r' | '\n' => {
-- 
2.43.0


From 6bbd8ab188413a8b18f7ba4fb8944651893edb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 42/42] fix: move sub-trees into their parent instead of
 copying them, so that parsing time no longer grows quadratically

---
 src/parser/expressions.rs | 56 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7d663af..93f6ea2 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -320,31 +320,31 @@ impl Expressions for PythonCoreParser {
                             Token::PyMul(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::MulTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::MulTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyDiv(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::DivTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::DivTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyFloorDiv(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::FloorDivTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::FloorDivTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyModulo(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::ModuloTerm(start_pos, self.lexer.get_position(), left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::ModuloTerm(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), right_node));
                                 true
                             },
                             Token::PyMatrice(..) => {
                                 let _ = self.advance();
                                 let right_node = self.parse_expressions_factor()?;
-                                left_node = Box::new(ASTNode::MatriceTerm(start_pos, self.lexer.get_position(),left_node.clone(), Box::new(symbol), right_node));
+                                left_node = Box::new(ASTNode::MatriceTerm(start_pos, self.lexer.get_position(),left_node, Box::new(symbol), right_node));
                                 true
                             },
                             _ => false
@@ -365,13 +365,13 @@ impl Expressions for PythonCoreParser {
                     Token::PyPlus(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_term()?;
-                        left_node = Box::new(ASTNode::PlusArithExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::PlusArithExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyMinus(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_term()?;
-                        left_node = Box::new(ASTNode::MinusArithExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::MinusArithExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -392,13 +392,13 @@ impl Expressions for PythonCoreParser {
                     Token::PyShiftLeft(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_arith()?;
-                        left_node = Box::new(ASTNode::ShiftLeftExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::ShiftLeftExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyShiftRight(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_arith()?;
-                        left_node = Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -419,7 +419,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyBitAnd(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_shift()?;
-                        left_node = Box::new(ASTNode::AndExpr(start_pos, self.lexer.get_position(), left_node.clone(), Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::AndExpr(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -440,7 +440,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyBitXor(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_and_expr()?;
-                        left_node = Box::new(ASTNode::XorExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::XorExpr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -461,7 +461,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyBitOr(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_xor_expr()?;
-                        left_node = Box::new(ASTNode::Expr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::Expr(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -500,43 +500,43 @@ impl Expressions for PythonCoreParser {
                     Token::PyLess(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::LessComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::LessComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyLessEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::LessEqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::LessEqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::EqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::EqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyGreaterEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::GreaterEqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::GreaterEqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyGreater(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::GreaterComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::GreaterComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyNotEqual(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::NotEqualComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::NotEqualComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyIn(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        left_node = Box::new(ASTNode::InComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::InComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     Token::PyIs(..) => {
@@ -548,11 +548,11 @@ impl Expressions for PythonCoreParser {
                                     Token::PyNot(..) => {
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_expr()?;
-                                        left_node = Box::new(ASTNode::IsNotComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), Box::new(symbol2), right_node));
+                                        left_node = Box::new(ASTNode::IsNotComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), Box::new(symbol2), right_node));
                                     },
                                     _ => {
                                         let right_node = self.parse_expressions_expr()?;
-                                        left_node = Box::new(ASTNode::IsComparison(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                                        left_node = Box::new(ASTNode::IsComparison(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                                     }
                                 }
                             },
@@ -571,7 +571,7 @@ impl Expressions for PythonCoreParser {
                                     Token::PyIn(..) => {
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_expr()?;
-                                        left_node = Box::new(ASTNode::NotInComparison(start_pos, self.lexer.get_position(), left_node.clone(), Box::new(symbol), Box::new(symbol2), right_node));
+                                        left_node = Box::new(ASTNode::NotInComparison(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), Box::new(symbol2), right_node));
                                     },
                                     _ => {
                                         return Err(format!("SyntaxError at {}: Expecting 'in' pr 'not in' in comparison expression!", start_pos))
@@ -620,7 +620,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyAnd(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_not_test()?;
-                        left_node = Box::new(ASTNode::AndTest(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::AndTest(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -641,7 +641,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyOr(..) => {
                         let _ = self.advance();
                         let right_node = self.parse_expressions_and_test()?;
-                        left_node = Box::new(ASTNode::OrTest(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));
+                        left_node = Box::new(ASTNode::OrTest(start_pos, self.lexer.get_position(), left_node,Box::new(symbol), right_node));
                         true
                     },
                     _ => false
@@ -1055,7 +1055,7 @@ impl Expressions for PythonCoreParser {
             } {};
         match ( nodes_list.len(), separators_list.len() ) {
             ( 1, 0 ) => {
-                Ok((nodes_list[0]).clone())
+                Ok(nodes_list.remove(0))
             },
             _ => Ok(Box::new(ASTNode::ExprList(start_pos, self.lexer.get_position(), nodes_list, separators_list)))
         }
@@ -1101,7 +1101,7 @@ impl Expressions for PythonCoreParser {
             } {};
         match ( nodes_list.len(), separators_list.len() ) {
             ( 1, 0 ) => {
-                Ok((nodes_list[0]).clone())
+                Ok(nodes_list.remove(0))
             },
             _ => Ok(Box::new(ASTNode::TestList(start_pos, self.lexer.get_position(), nodes_list, separators_list)))
         }
@@ -1581,7 +1581,7 @@ impl Expressions for PythonCoreParser {
         separators_list.reverse();
         match ( nodes_list.len(), separators_list.len() ) {
             (1, 0) => {
-                Ok(nodes_list[0].clone())
+                Ok(nodes_list.remove(0))
             },
             _=> Ok(Box::new(ASTNode::TestListStarExpr(start_pos, self.lexer.get_position(), nodes_list, separators_list)))
         }
@@ -1675,7 +1675,7 @@ impl Expressions for PythonCoreParser {
                         }
                     },
                     _ => {
-                        nodes_list.push( (self.parse_expressions_var_args_assignments()?).clone() );
+                        nodes_list.push( self.parse_expressions_var_args_assignments()? );
                         while
                             match &self.symbol {
                                 Ok(s5) => {
-- 
2.43.0

