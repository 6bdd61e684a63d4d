From 11952e22b5f3df3134396ec514920c2a67fedfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 01/33] fix: treat /*/ as the start of a comment, not as a
 complete one

---
 trlc/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..090608b 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -342,6 +342,8 @@ class TRLC_Lexer(Lexer_Base):
         elif self.cc == "/" and self.nc == "*":
             # lobster-trace: LRM.Comments
             kind = "COMMENT"
+            self.advance()
+            self.advance()
             while self.nc and not (self.cc == "*" and self.nc == "/"):
                 self.advance()
             self.advance()
-- 
2.43.0


From a9a5c7cca1211e459b32ba1eef13a6c31021b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 02/33] fix: report malformed or unterminated strings at the
 end of a file

A quote, two quotes or an opening triple quote directly at the end of the
file ended in a failed assertion, as the reported position lay behind the
last character.
---
 trlc/lexer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 090608b..8d532ba 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -427,7 +427,9 @@ class TRLC_Lexer(Lexer_Base):
                                              start_line = start_line,
                                              start_col  = start_col,
                                              start_pos  = start_pos,
-                                             end_pos    = self.lexpos),
+                                             end_pos    = min(
+                                                 self.lexpos,
+                                                 self.length - 1)),
                             "unterminated triple-quoted string")
             else:
                 while self.nc != '"':
@@ -464,7 +466,8 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                          self.length - 1)),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
@@ -479,7 +482,8 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                          self.length - 1)),
                         "unterminated triple-quoted string")
 
         elif self.is_numeric(self.cc):
-- 
2.43.0


From cf2f3d9ebc450baba65f96010c71026582a87547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 03/33] fix: accept a triple-quoted string that ends exactly at
 the end of the file

---
 trlc/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 8d532ba..fa8d36c 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -421,7 +421,7 @@ class TRLC_Lexer(Lexer_Base):
                         quotes_seen += 1
                     else:
                         quotes_seen = 0
-                    if self.nc is None:
+                    if self.nc is None and quotes_seen < 3:
                         self.mh.lex_error(
                             Source_Reference(lexer      = self,
                                              start_line = start_line,
@@ -476,7 +476,7 @@ class TRLC_Lexer(Lexer_Base):
                     quotes_seen += 1
                 else:
                     quotes_seen = 0
-                if self.nc is None:
+                if self.nc is None and quotes_seen < 3:
                     self.mh.lex_error(
                         Source_Reference(lexer      = self,
                                          start_line = start_line,
-- 
2.43.0


From beb5a8fa7855d670ff6095a0981872cec5e586bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 04/33] fix: remove trailing whitespace from the first line of
 triple-quoted strings

The language reference manual removes trailing whitespace on every line.
---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index fa8d36c..0e9b338 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -37,7 +37,7 @@ def triple_quoted_string_value(raw_value):
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From 72eb53097e2d5429f97f54389322246691511682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 05/33] fix: report numeric literals that are too large instead
 of crashing

---
 trlc/lexer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 0e9b338..5c520bb 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -613,7 +613,10 @@ class TRLC_Lexer(Lexer_Base):
             # lobster-trace: LRM.Integer_Values
             base_text = sref.text().replace("_", "")
             if int_base == 10:
-                value = int(base_text)
+                try:
+                    value = int(base_text)
+                except ValueError:
+                    self.mh.lex_error(sref, "integer literal is too large")
             elif int_base == 2:
                 value = int(base_text[2:], base=2)
             else:
@@ -621,7 +624,10 @@ class TRLC_Lexer(Lexer_Base):
 
         elif kind == "DECIMAL":
             # lobster-trace: LRM.Decimal_Values
-            value = Fraction(sref.text().replace("_", ""))
+            try:
+                value = Fraction(sref.text().replace("_", ""))
+            except ValueError:
+                self.mh.lex_error(sref, "decimal literal is too large")
 
         elif kind == "COMMENT":
             value = sref.text()
-- 
2.43.0


From d5cd2c21c5a7029bd2268f4842686b6f322e6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 06/33] fix: do not crash when an array bound or check ends at
 the end of the file

---
 trlc/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..f89e381 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -637,7 +637,7 @@ class Parser(Parser_Base):
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
             else:
-                self.mh.error(self.nt.location,
+                self.mh.error(self.nt.location if self.nt else a_loc,
                               "expected INTEGER or * for upper bound")
             t_hi = self.ct
             loc_hi = self.ct.location
@@ -1593,7 +1593,8 @@ class Parser(Parser_Base):
                 elif self.peek("STRING"):
                     has_extrainfo = True
                 else:
-                    self.mh.error(self.nt.location,
+                    self.mh.error(self.nt.location
+                                  if self.nt else self.ct.location,
                                   "expected either a details string or"
                                   " identifier to anchor the check message")
 
@@ -1820,7 +1821,9 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate(self.nt.location
+                                     if self.nt else self.ct.location,
+                                     typ)
 
             next_is_optional = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From 083b087874d96b0a969f377d7b4fb886ee7426a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 07/33] fix: enforce an upper array bound of zero

---
 trlc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index f89e381..e9e2204 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1764,7 +1764,8 @@ class Parser(Parser_Base):
                               (typ.lower_bound,
                                len(rv.value)),
                               fatal=False)
-            if typ.upper_bound and len(rv.value) > typ.upper_bound:
+            if typ.upper_bound is not None and \
+               len(rv.value) > typ.upper_bound:
                 self.mh.error(rv.value[typ.upper_bound].location,
                               "this array requires at most %u elements "
                               "(%u provided)" %
-- 
2.43.0


From bea9967198ed537760779b35f02719cc8a864b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 08/33] fix: report a wrong number of arguments to a type
 conversion

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index e9e2204..1d99bc8 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1270,7 +1270,7 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
-- 
2.43.0


From 7def30f0a385c02b15dde522eaf23c3fb5153b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 09/33] fix: report a membership test on null instead of
 crashing

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 1d99bc8..98e9fe9 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -916,7 +916,7 @@ class Parser(Parser_Base):
                 self.mh.error(
                     n_a.location,
                     "membership test only defined for Strings and Arrays,"
-                    " not for %s" % n_a.typ.name)
+                    " not for %s" % (n_a.typ.name if n_a.typ else "null"))
 
             if t_not is not None:
                 a_unary_op = ast.Unary_Operator.LOGICAL_NOT
-- 
2.43.0


From 35fd47b06724713e0cd1f14572afa40be5adaa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 10/33] fix: report an array index directly behind the last
 element

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..32dadaa 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1812,7 +1812,7 @@ class Binary_Expression(Expression):
                          (v_lhs.typ.upper_bound,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From 11dcf79f3e0e5fc8e9a3f60aa4a8c69810515aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 11/33] fix: require the separator in front of a mandatory
 tuple field

---
 trlc/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 98e9fe9..bb45ad2 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1827,11 +1827,19 @@ class Parser(Parser_Base):
                                      typ)
 
             next_is_optional = False
+            n_separator      = None
             for n_item in typ.iter_sequence():
+                if isinstance(n_item, ast.Separator):
+                    n_separator = n_item
                 if isinstance(n_item, ast.Composite_Component):
                     if next_is_optional and n_item.optional:
                         break
                     value = self.parse_value(n_item.n_typ)
+                    if next_is_optional:
+                        self.mh.error(value.location,
+                                      "separator '%s' is missing in front"
+                                      " of %s" % (n_separator.to_string(),
+                                                  n_item.name))
                     rv.assign(n_item.name, value)
 
                 elif n_item.token.kind in ("AT", "COLON", "SEMICOLON"):
-- 
2.43.0


From f518ecec8423f1bc861752b318de365c4bc7ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 12/33] fix: reject null as the right operand of and, or, and
 implies

---
 trlc/ast.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 32dadaa..375240a 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1636,23 +1636,17 @@ class Binary_Expression(Expression):
         # Check for the short-circuit operators first
         if self.operator == Binary_Operator.LOGICAL_AND:
             assert isinstance(v_lhs.value, bool)
-            if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
-            else:
+            if not v_lhs.value:
                 return v_lhs
 
         elif self.operator == Binary_Operator.LOGICAL_OR:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
                 return v_lhs
-            else:
-                return self.n_rhs.evaluate(mh, context, gstab)
 
         elif self.operator == Binary_Operator.LOGICAL_IMPLIES:
             assert isinstance(v_lhs.value, bool)
-            if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
-            else:
+            if not v_lhs.value:
                 return Value(location = self.location,
                              value    = True,
                              typ      = self.typ)
@@ -1667,7 +1661,12 @@ class Binary_Expression(Expression):
                      (self.to_string(),
                       mh.cross_file_reference(self.location)))
 
-        if self.operator == Binary_Operator.LOGICAL_XOR:
+        if self.operator in (Binary_Operator.LOGICAL_AND,
+                             Binary_Operator.LOGICAL_OR,
+                             Binary_Operator.LOGICAL_IMPLIES):
+            return v_rhs
+
+        elif self.operator == Binary_Operator.LOGICAL_XOR:
             assert isinstance(v_lhs.value, bool)
             assert isinstance(v_rhs.value, bool)
             return Value(location = self.location,
-- 
2.43.0


From 86f49190607fdcbacf4055e2b3a2f667ab771572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 13/33] fix: report null in a quantifier body and quantifiers
 in a static context

A null body ended in a failed assertion, and a quantified expression used
where only static expressions are permitted in a type error.
---
 trlc/ast.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 375240a..8ea9db4 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2287,9 +2287,9 @@ class Quantified_Expression(Expression):
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
         if context is None:
-            new_ctx = {}
-        else:
-            new_ctx = copy(context)
+            mh.error(self.location,
+                     "cannot be used in a static context")
+        new_ctx = copy(context)
 
         # This is going to be a bit tricky. We essentially eliminate
         # the quantifier and substitute; for the sake of making better
@@ -2311,6 +2311,12 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(self.n_expr.location,
+                         "body of quantified expression %s (%s) "
+                         "must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From 32510194c9bf59dbe2f8cf840a18a93d646a8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 14/33] fix: reject null as a choice of oneof

---
 trlc/ast.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 8ea9db4..d134d1b 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2048,9 +2048,15 @@ class OneOf_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_choices = [n_choice.evaluate(mh, context, gstab).value
-                     for n_choice in self.choices]
-
+        v_choices = []
+        for n_choice in self.choices:
+            v_choice = n_choice.evaluate(mh, context, gstab)
+            if v_choice.value is None:
+                mh.error(v_choice.location,
+                         "choice in %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
+            v_choices.append(v_choice.value)
         return Value(location = self.location,
                      value    = v_choices.count(True) == 1,
                      typ      = self.typ)
-- 
2.43.0


From ecd92c8592bbcbe0912076cfbaae3044775d265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 15/33] fix: include all fields when rendering a tuple in
 messages

---
 trlc/ast.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index d134d1b..7557360 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1050,18 +1050,16 @@ class Tuple_Aggregate(Expression):
             rv = "("
         for n_item in self.typ.iter_sequence():
             if isinstance(n_item, Separator):
-                rv += " %s " % n_item.token.value
-            elif first:
+                rv += " %s " % n_item.to_string()
+            elif first or self.typ.has_separators():
                 first = False
             else:
                 rv += ", "
 
             if isinstance(n_item, Composite_Component):
                 rv += self.value[n_item.name].to_string()
-        if self.typ.has_separators():
-            rv = ""
-        else:
-            rv = ")"
+        if not self.typ.has_separators():
+            rv += ")"
         return rv
 
     def evaluate(self, mh, context, gstab):
-- 
2.43.0


From bbbbc4ec68fb70433cb67314b3c9e8a436b9fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 16/33] fix: locate markup references in the first line of a
 triple-quoted string

---
 trlc/nested.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/nested.py b/trlc/nested.py
index 339b975..f175239 100644
--- a/trlc/nested.py
+++ b/trlc/nested.py
@@ -50,7 +50,8 @@ class Nested_Lexer(Lexer_Base):
             loc = Source_Reference(
                 lexer      = self.origin_location.lexer,
                 start_line = self.origin_location.line_no + (start_line - 1),
-                start_col  = (self.origin_location.col_no + self.base_offset
+                start_col  = (self.origin_location.col_no +
+                              self.base_offset + start_col - 1
                               if start_line == 1
                               else start_col),
                 start_pos  = (self.origin_location.start_pos +
-- 
2.43.0


From ec86040651c9191e3385c127ecd9d231d3e45f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 17/33] fix: compare record references by the object they refer
 to

The language reference manual defines two references to be equal iff they
refer to the same object. References to two objects without any components
of their own compared equal, and an object of an extension was never found
in an array of its base type (nor a Markup_String in an array of String).
---
 trlc/ast.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7557360..871e8ce 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -86,7 +86,10 @@ class Value:
         self.typ      = typ
 
     def __eq__(self, other):
-        return self.typ == other.typ and self.value == other.value
+        if isinstance(self.typ, (Record_Type, Union_Type)):
+            # lobster-trace: LRM.Equality_On_Record_References
+            return self.value is other.value
+        return self.value == other.value
 
     def __repr__(self):  # pragma: no cover
         return "Value(%s)" % self.value
@@ -1145,7 +1148,7 @@ class Record_Reference(Expression):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, copy(self.target.field), self.typ)
+        return Value(self.location, self.target.field, self.typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
@@ -1673,12 +1676,12 @@ class Binary_Expression(Expression):
 
         elif self.operator == Binary_Operator.COMP_EQ:
             return Value(location = self.location,
-                         value    = v_lhs.value == v_rhs.value,
+                         value    = v_lhs == v_rhs,
                          typ      = self.typ)
 
         elif self.operator == Binary_Operator.COMP_NEQ:
             return Value(location = self.location,
-                         value    = v_lhs.value != v_rhs.value,
+                         value    = v_lhs != v_rhs,
                          typ      = self.typ)
 
         elif self.operator in (Binary_Operator.COMP_LT,
-- 
2.43.0


From 8b58d9c8b45975ce505851c4216196a986cadc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 18/33] fix: permit equality tests between a record type and
 its extensions

---
 trlc/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 871e8ce..7aaf85f 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1475,9 +1475,9 @@ class Binary_Expression(Expression):
             if (self.n_lhs.typ is None) or (self.n_rhs.typ is None):
                 # We can compary anything to null (including itself)
                 pass
-            elif isinstance(self.n_lhs.typ, Union_Type) or \
-                 isinstance(self.n_rhs.typ, Union_Type):
-                # For union types, we allow comparison if both
+            elif isinstance(self.n_lhs.typ, (Record_Type, Union_Type)) or \
+                 isinstance(self.n_rhs.typ, (Record_Type, Union_Type)):
+                # For record and union types, we allow comparison if both
                 # sides are record-like (Record_Type or Union_Type)
                 lhs_is_record = isinstance(self.n_lhs.typ,
                                            (Record_Type, Union_Type))
-- 
2.43.0


From ad034277c00a0435363614317a5752a083849bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 19/33] fix: require the element type on the left of an array
 membership test

Any enumeration, tuple, or record type used to be accepted.
---
 trlc/ast.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7aaf85f..f6a5aa8 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1530,7 +1530,16 @@ class Binary_Expression(Expression):
 
         elif operator == Binary_Operator.ARRAY_CONTAINS:
             self.n_rhs.ensure_type(mh, Array_Type)
-            self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type.__class__)
+            element_type = self.n_rhs.typ.element_type
+            self.n_lhs.ensure_type(mh, element_type.__class__)
+            if isinstance(element_type, Record_Type):
+                if not (self.n_lhs.typ.is_subclass_of(element_type) or
+                        element_type.is_subclass_of(self.n_lhs.typ)):
+                    self.n_lhs.ensure_type(mh, element_type)
+            elif isinstance(element_type, (Enumeration_Type,
+                                           Tuple_Type,
+                                           Union_Type)):
+                self.n_lhs.ensure_type(mh, element_type)
 
         elif operator == Binary_Operator.PLUS:
             if isinstance(self.n_lhs.typ, Builtin_Numeric_Type):
-- 
2.43.0


From 36226a480a7bfa63e5377a3546c4dd73f396313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 20/33] fix: do not crash when verifying ranges, oneof,
 division or indexing in quantifiers

When the body of a quantifier (or the check of a tuple) is translated into
a formula there is no program graph to attach checks to. All checks of a
quantifier body have already been emitted at that point.
---
 trlc/vcg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..4734d96 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -166,9 +166,8 @@ class VCG:
         assert isinstance(bool_expr, smt.Expression)
         assert bool_expr.sort is smt.BUILTIN_BOOLEAN
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -186,9 +185,8 @@ class VCG:
         assert isinstance(int_expr, smt.Expression)
         assert int_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -207,9 +205,8 @@ class VCG:
         assert isinstance(real_expr, smt.Expression)
         assert real_expr.sort is smt.BUILTIN_REAL
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -231,9 +228,8 @@ class VCG:
         assert index_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Binary_Expression)
         assert origin.operator == Binary_Operator.INDEX
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
-- 
2.43.0


From 15fb8320c2ed257b28e6d68eef1d639fab3fc7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 21/33] fix: do not crash when verifying a conversion that does
 not change the type

---
 trlc/vcg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 4734d96..73cc1ae 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -879,10 +879,16 @@ class VCG:
             sym_value = smt.Sequence_Length(operand_value)
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_DECIMAL:
-            sym_value = smt.Conversion_To_Real(operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Integer):
+                sym_value = smt.Conversion_To_Real(operand_value)
+            else:
+                sym_value = operand_value
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_INT:
-            sym_value = smt.Conversion_To_Integer("rna", operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Decimal):
+                sym_value = smt.Conversion_To_Integer("rna", operand_value)
+            else:
+                sym_value = operand_value
 
         else:
             self.mh.ice_loc(n_expr,
-- 
2.43.0


From d435319a234487b06ae871d55c429180ba514561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 22/33] fix: permit membership tests between unions with
 related members

---
 trlc/ast.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index f6a5aa8..4f69f86 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1536,9 +1536,12 @@ class Binary_Expression(Expression):
                 if not (self.n_lhs.typ.is_subclass_of(element_type) or
                         element_type.is_subclass_of(self.n_lhs.typ)):
                     self.n_lhs.ensure_type(mh, element_type)
-            elif isinstance(element_type, (Enumeration_Type,
-                                           Tuple_Type,
-                                           Union_Type)):
+            elif isinstance(element_type, Union_Type):
+                if not any(lm.is_subclass_of(em) or em.is_subclass_of(lm)
+                           for lm in self.n_lhs.typ.types
+                           for em in element_type.types):
+                    self.n_lhs.ensure_type(mh, element_type)
+            elif isinstance(element_type, (Enumeration_Type, Tuple_Type)):
                 self.n_lhs.ensure_type(mh, element_type)
 
         elif operator == Binary_Operator.PLUS:
-- 
2.43.0


From 87cb9b2bf153499fd46158b3da93fa6e7a4f9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 23/33] fix: do not read an unrelated field of an extension
 through a union

---
 trlc/ast.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 4f69f86..ddb0a68 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1148,7 +1148,7 @@ class Record_Reference(Expression):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, self.target.field, self.typ)
+        return Value(self.location, self.target.field, self.target.n_typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
@@ -1898,9 +1898,8 @@ class Field_Access_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_prefix = self.n_prefix.evaluate(mh,
-                                          context,
-                                          gstab).value
+        v_prefix_obj = self.n_prefix.evaluate(mh, context, gstab)
+        v_prefix = v_prefix_obj.value
         if v_prefix is None:
             # lobster-trace: LRM.Dereference
             mh.error(self.n_prefix.location,
@@ -1911,6 +1910,14 @@ class Field_Access_Expression(Expression):
         if self.n_field.name not in v_prefix:
             return Value(self.location, None, None)
 
+        # An extension of a member type may declare a field of the
+        # same name but with another type, which is not the field
+        # referred to here.
+        if self.is_union_access and not self.is_universal and \
+           not any(n_comp.name == self.n_field.name and
+                   n_comp.n_typ is self.n_field.n_typ
+                   for n_comp in v_prefix_obj.typ.all_components()):
+            return Value(self.location, None, None)
         v_field = v_prefix[self.n_field.name]
         if isinstance(v_field, Expression):
             # lobster-trace: LRM.Dereference
-- 
2.43.0


From f8616ca6e0232e4ac4d833374bbf10e59b4380b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 24/33] fix: permit access to inherited components of a
 referenced record

---
 trlc/ast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ddb0a68..41d0d49 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1882,7 +1882,10 @@ class Field_Access_Expression(Expression):
         self.is_union_access = is_union_access
         self.is_universal    = is_universal
 
-        if not is_union_access:
+        if not is_union_access and \
+           not (isinstance(self.n_prefix.typ, Record_Type) and
+                isinstance(self.n_field.member_of, Record_Type) and
+                self.n_prefix.typ.is_subclass_of(self.n_field.member_of)):
             self.n_prefix.ensure_type(mh, self.n_field.member_of)
 
     def dump(self, indent=0):  # pragma: no cover
-- 
2.43.0


From 4ccdbe2ebfade15d1951dea8ac56ccf16b616f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 25/33] fix: reject a trailing comma in function arguments

---
 trlc/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index bb45ad2..e22d7c7 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1253,6 +1253,9 @@ class Parser(Parser_Base):
             if self.peek("COMMA"):
                 self.match("COMMA")
                 n_name.set_ast_link(self.ct)
+                if self.peek("KET"):
+                    self.mh.error(self.nt.location,
+                                  "expected expression after comma")
             else:
                 break
         self.match("KET")
-- 
2.43.0


From 5555b4ee112be28115e24887cd339f11a209a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 26/33] fix: perform the checks of every tuple in an array

---
 trlc/ast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 41d0d49..5891fd3 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2601,8 +2601,11 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            ok = True
+            for v in value.value:
+                if not self.element_type.perform_type_checks(mh, v, gstab):
+                    ok = False
+            return ok
         else:
             assert isinstance(value, Implicit_Null)
             return True
-- 
2.43.0


From 4734048b251864de7416340ce59e07b4baa8a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:31 +0000
Subject: [PATCH 27/33] fix: perform the checks of tuples nested in other
 tuples

---
 trlc/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 5891fd3..7689ff3 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3135,6 +3135,10 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            for n_field in self.all_components():
+                if not n_field.n_typ.perform_type_checks(
+                        mh, value.value[n_field.name], gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From 25a45ca3e2137efb9c5a54b7cb4991d8b63c8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 28/33] fix: report all files and sections each time objects
 are iterated by section

---
 trlc/ast.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7689ff3..6f94003 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3443,8 +3443,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3472,16 +3470,19 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files    = []
+        section_names = []
+
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.append(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in section_names:
+                        section_names.append(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From f209c80a1ddb02708f6d68a62847d68dcd5cb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:08 +0000
Subject: [PATCH 29/33] fix: produce no result after a failed import or a
 malformed include file

---
 trlc/ast.py  | 9 ++++++---
 trlc/trlc.py | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 6f94003..3f89cd2 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -266,15 +266,18 @@ class Compilation_Unit(Node):
         assert isinstance(mh, Message_Handler)
         assert isinstance(stab, Symbol_Table)
         self.imports = set()
+        ok = True
         for t_import in self.raw_imports:
-            # We can ignore errors here, because that just means we
-            # generate more error later.
+            # We can carry on after errors here, because that just
+            # means we generate more error later.
             try:
                 a_import = stab.lookup(mh, t_import, Package)
                 self.imports.add(a_import)
                 a_import.set_ast_link(t_import)
             except TRLC_Error:
-                pass
+                ok = False
+
+        return ok
 
     def is_visible(self, n_pkg):
         # lobster-trace: LRM.Import_Visibility
diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5d7f5dd..348deb6 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -307,11 +307,11 @@ class Source_Manager:
         # lobster-trace: LRM.Preamble
 
         # Register all include files not yet registered
+        ok = True
         for file_name in list(sorted(self.includes.values())):
-            self.register_file(file_name, primary=False)
+            ok &= self.register_file(file_name, primary=False)
 
         # Parse preambles and build dependency graph
-        ok = True
         graph = self.dep_graph
         files = {}
         for container, kind in ((self.rsl_files, "rsl"),
@@ -341,7 +341,7 @@ class Source_Manager:
                 if parser.cu.package is None:
                     continue
                 pkg_name = parser.cu.package.name
-                parser.cu.resolve_imports(self.mh, self.stab)
+                ok &= parser.cu.resolve_imports(self.mh, self.stab)
 
                 graph[(pkg_name , kind)] |= \
                     {(imported_pkg.name , kind)
-- 
2.43.0


From f854e1db55ecf465726784063b50c687a6cf006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:21 +0000
Subject: [PATCH 30/33] fix: do not include files again that are already
 registered

---
 trlc/trlc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 348deb6..7cfe556 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -173,6 +173,9 @@ class Source_Manager:
         """
         assert os.path.isdir(dir_name)
 
+        registered = {os.path.abspath(file_name)
+                      for file_name in self.all_files}
+
         for path, dirs, files in os.walk(dir_name):
             for n, dirname in reversed(list(enumerate(dirs))):
                 keep = True
@@ -189,7 +192,8 @@ class Source_Manager:
                    (os.path.join(path, file_name)
                     for file_name in files
                     if os.path.splitext(file_name)[1] in (".rsl",
-                                                          ".trlc"))})
+                                                          ".trlc"))
+                 if os.path.abspath(full_name) not in registered})
 
     def register_file(self, file_name, file_content=None, primary=True):
         """Schedule a file for parsing.
-- 
2.43.0


From d96f8ae15acd4f8fdcb9240b96f46ed2b6538a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 31/33] fix: report unused imports of a file in a fixed order

---
 trlc/lint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..f428a72 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -234,7 +234,7 @@ class Linter:
                 continue
             if not file.cu.imports:
                 continue
-            for item in file.cu.imports:
+            for item in sorted(file.cu.imports, key=lambda pkg: pkg.name):
                 import_tokens = [t for t in file.lexer.tokens
                                  if t.value == item.name]
                 markup = self.markup_ref(item,
-- 
2.43.0


From 25e41f4baefeb7f6d04f7be533c3ead30289e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:55 +0000
Subject: [PATCH 32/33] fix: do not parse the body of a model file with a
 malformed import

---
 trlc/trlc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 7cfe556..655520d 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -423,7 +423,10 @@ class Source_Manager:
 
             for node in sorted(candidates):
                 try:
-                    ok &= rsl_map[node].parse_rsl_file()
+                    # After an error in the preamble the imports are
+                    # not known, see build_graph.
+                    if rsl_map[node].cu.imports is not None:
+                        ok &= rsl_map[node].parse_rsl_file()
                     self.signal_progress()
                 except TRLC_Error:
                     ok = False
-- 
2.43.0


From e8bf6eb9ba08c3447b62611a81e12ec8bb1ff3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 33/33] fix: report constructs that are nested too deeply
 instead of crashing

---
 trlc/trlc.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 655520d..03b26aa 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -430,6 +430,11 @@ class Source_Manager:
                     self.signal_progress()
                 except TRLC_Error:
                     ok = False
+                except RecursionError:
+                    self.mh.error(rsl_map[node].ct.location,
+                                  "too many nested constructs",
+                                  fatal = False)
+                    ok = False
                 processed.add(node)
 
             work_list -= candidates
@@ -455,6 +460,11 @@ class Source_Manager:
                 self.signal_progress()
             except TRLC_Error:
                 ok = False
+            except RecursionError:
+                self.mh.error(parser.ct.location,
+                              "too many nested constructs",
+                              fatal = False)
+                ok = False
 
         return ok
 
@@ -482,6 +492,12 @@ class Source_Manager:
                         ok = False
                 except TRLC_Error:
                     ok = False
+                except RecursionError:
+                    self.mh.error(obj.location,
+                                  "too many nested constructs in a check"
+                                  " of this object",
+                                  fatal = False)
+                    ok = False
 
         return ok
 
-- 
2.43.0

