From 72cb53ef1430fd82383199f4e452bf6099fcab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 001/132] fix: indexed part-selects [base +: width] and [base
 -: width] select exactly width bits

---
 pyverilog/vparser/parser.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..5ea45c9 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -849,6 +849,20 @@ class VerilogParser(object):
         p[0].end_lineno = p.lineno(7)
 
     # --------------------------------------------------------------------------
+    # var[base +: width] selects the bits base + width - 1 down to base
+    def _indexed_partselect_plus(self, p):
+        lineno = p.lineno(1)
+        msb = Minus(Plus(p[3], p[5], lineno=lineno),
+                    IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(p[1], msb, p[3], lineno=lineno)
+
+    # var[base -: width] selects the bits base down to base - width + 1
+    def _indexed_partselect_minus(self, p):
+        lineno = p.lineno(1)
+        lsb = Plus(Minus(p[3], p[5], lineno=lineno),
+                   IntConst('1', lineno=lineno), lineno=lineno)
+        return Partselect(p[1], p[3], lsb, lineno=lineno)
+
     def p_lpartselect_lpointer(self, p):
         'lpartselect : pointer LBRACKET expression COLON expression RBRACKET'
         p[0] = Partselect(p[1], p[3], p[5], lineno=p.lineno(1))
@@ -856,12 +870,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_plus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_minus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -871,12 +885,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_plus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_minus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1217,14 +1231,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_plus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_minus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1234,14 +1246,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_plus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect_minus(p)
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From 9922b68e24425de690b3e86923190c4e22cf0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 002/132] fix: lex ^~ as the XNOR operator

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..914f918 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -129,7 +129,7 @@ class VerilogLexer(object):
 
     t_NOR = r'~\|'
     t_NAND = r'~\&'
-    t_XNOR = r'~\^'
+    t_XNOR = r'~\^|\^~'
     t_OR = r'\|'
     t_AND = r'\&'
     t_XOR = r'\^'
-- 
2.43.0


From 2b05582bee72b4855e3fe2882f65d20a29fd5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 003/132] fix: emit <<< (Sla) in generated code

---
 pyverilog/ast_code_generator/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..2cc1a2b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -574,6 +574,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
-- 
2.43.0


From 64853dbb8ccf0d50b80268b3d0de2398ca67f4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 004/132] fix: give every statement node an end line so
 statements can be nested in each other

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 5ea45c9..8f368df 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1579,11 +1579,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1635,6 +1637,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1675,6 +1678,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1757,12 +1761,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno if p[5] is not None else p.lineno(5)
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1779,6 +1785,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From 22ebc91967d0965011606c53d3ac92f3e60a7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 005/132] fix: a real declaration keeps the declared names

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 8f368df..e33773d 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -727,7 +727,7 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(r,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-- 
2.43.0


From d0be4520d06951d0cec8433a7da94d8ae5748146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 006/132] fix: a net declaration assignment with a delay
 declares its name

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index e33773d..b80f92a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -674,9 +674,9 @@ class VerilogParser(object):
 
     def p_declassign_element_delay(self, p):
         'declassign_element : delays ID EQUALS delays rvalue'
-        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
+        assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(2)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From c52b7ef9fe252f4143fe57ee6b1ae2bbf75f78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 007/132] fix: a header port without a type inherits direction,
 net type, sign and range of the port before it

---
 pyverilog/vparser/parser.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index b80f92a..d599bcf 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -339,26 +339,12 @@ class VerilogParser(object):
     def p_ioports(self, p):
         'ioports : ioports COMMA ioport'
         if isinstance(p[3], str):
-            t = None
-            for r in reversed(p[1]):
-                if isinstance(r.first, Input):
-                    t = Ioport(Input(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and r.second is None:
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Output) and isinstance(r.second, Reg):
-                    t = Ioport(Output(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               Reg(name=p[3], width=r.first.width,
-                                   lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
-                if isinstance(r.first, Inout):
-                    t = Ioport(Inout(name=p[3], width=r.first.width, lineno=p.lineno(3)),
-                               lineno=p.lineno(3))
-                    break
+            prev = p[1][-1]
+            decls = [None if r is None else
+                     r.__class__(name=p[3], width=r.width, signed=r.signed,
+                                 lineno=p.lineno(3))
+                     for r in (prev.first, prev.second)]
+            t = Ioport(decls[0], decls[1], lineno=p.lineno(3))
             p[0] = p[1] + (t,)
         else:
             p[0] = p[1] + (p[3],)
-- 
2.43.0


From 09b04e2c634e35f8596a3fd2492893e37b7e773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 008/132] fix: a parser object used twice starts each parse
 from line 1 with no directives

---
 pyverilog/vparser/lexer.py  | 5 +++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 914f918..8945141 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,11 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    def reset(self):
+        self.reset_lineno()
+        self.directives = []
+        self.default_nettype = 'wire'
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d599bcf..3b84b25 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 451e3fcae6083dab547764ba13e445a8d5348d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 009/132] fix: accept a signed binary literal that begins with
 X

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8945141..3592823 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -186,7 +186,7 @@ class VerilogLexer(object):
     t_DOLLER = r'\$'
 
     bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xZzZ?][0-1xXzZ?_]*'
+    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
     octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
     signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
     hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-- 
2.43.0


From 5a8af91c86fe12b8d41a8d3417e380f513c91cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 010/132] fix: dump_tokens reports an illegal character instead
 of crashing

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 3592823..6e81c4b 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -282,7 +282,7 @@ class VerilogLexer(object):
 
 def dump_tokens(text):
     def my_error_func(msg, a, b):
-        sys.write(msg + "\n")
+        sys.stderr.write(msg + "\n")
         sys.exit()
 
     lexer = VerilogLexer(error_func=my_error_func)
-- 
2.43.0


From e4e9f6c2c5e880f431b9f392848adbba11ac97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 011/132] fix: accept a line comment or directive that ends the
 text without a newline

---
 pyverilog/vparser/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 6e81c4b..76d0e9d 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -103,7 +103,7 @@ class VerilogLexer(object):
     t_ignore = ' \t'
 
     # Directive
-    directive = r"""\`.*?\n"""
+    directive = r"""\`.*?(\n|\Z)"""
 
     @TOKEN(directive)
     def t_DIRECTIVE(self, t):
@@ -115,7 +115,7 @@ class VerilogLexer(object):
         pass
 
     # Comment
-    linecomment = r"""//.*?\n"""
+    linecomment = r"""//.*?(\n|\Z)"""
     commentout = r"""/\*(.|\n)*?\*/"""
 
     @TOKEN(linecomment)
-- 
2.43.0


From 7f14edc0ab92eed8deb8238569f09e19dba32b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 012/132] fix: generated ranges, loop headers and parameter
 lists keep escaped names, strings and every parameter

---
 pyverilog/ast_code_generator/codegen.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 2cc1a2b..39963c1 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,8 +95,18 @@ def del_paren(s):
     return s
 
 
+_removable_space = re.compile(r'("(?:[^"\\]|\\.)*"|\\\S+ )| ')
+
+
 def del_space(s):
-    return s.replace(' ', '')
+    """ remove spaces, except in strings and at the end of escaped identifiers """
+    return _removable_space.sub(lambda m: m.group(1) or '', s)
+
+
+def del_semicolon(s):
+    if s.endswith(';'):
+        return s[:-1]
+    return s
 
 
 class ASTCodeGenerator(ConvertVisitor):
@@ -148,7 +158,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = []
+        for param in node.params:
+            for p in (param.list if isinstance(param, Decl) else (param,)):
+                params.append(del_semicolon(self.visit(p)))
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -737,7 +750,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From 66ba521e300b2205a3ffb4de1a7bbf059bf73085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 013/132] fix: emit the delays of continuous assignments

---
 pyverilog/ast_code_generator/codegen.py          | 2 ++
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 39963c1..438036f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -656,6 +656,8 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
+            'rdelay': '' if node.rdelay is None else self.visit(node.rdelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..233f2e2 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {% if rdelay != '' %}{{ rdelay }} {% endif %}{{ right }};
-- 
2.43.0


From 588b16584bbd5fb06f8fa8fd2d205345ec609b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 014/132] fix: parenthesise delays that are not a name or a
 number

---
 pyverilog/ast_code_generator/codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 438036f..44b272f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -855,7 +855,8 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'delay': self.visit(node.delay),
+            'delay': self.visit(node.delay) if isinstance(node.delay, (Constant, Identifier)) else
+            '(' + del_paren(self.visit(node.delay)) + ')',
         }
         rslt = template.render(template_dict)
         return rslt
-- 
2.43.0


From 63f98d8169700ee16646eda56dff8f42b7d9f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 015/132] fix: emit the initial value of an integer declaration

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 44b272f..4836506 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -354,6 +354,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From 5cf3695722a406a5395a1830df2d13c1804c2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 016/132] fix: spell disable correctly in generated code

---
 pyverilog/ast_code_generator/template/disable.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
-- 
2.43.0


From 4c3fe51ef9d8f1e0ca91d1b06f6d1264d75144b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 017/132] fix: separate the items of a generate region

---
 pyverilog/ast_code_generator/template/generatestatement.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/template/generatestatement.txt b/pyverilog/ast_code_generator/template/generatestatement.txt
index f7447a0..7f2d906 100644
--- a/pyverilog/ast_code_generator/template/generatestatement.txt
+++ b/pyverilog/ast_code_generator/template/generatestatement.txt
@@ -1,4 +1,5 @@
 
-generate {% for item in items %}{{ item }}{% endfor %}
+generate {% for item in items %}{% if not loop.first %}
+{% endif %}{{ item }}{% endfor %}
 endgenerate
 
-- 
2.43.0


From ba0374af6fe4c793c2a690500d21d84daa443944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 018/132] fix: generate code for always_ff/comb/latch, casez,
 unique case and supply nets

---
 pyverilog/ast_code_generator/codegen.py       | 27 +++++++++++++++++++
 .../template/alwayscomb.txt                   |  3 +++
 .../ast_code_generator/template/alwaysff.txt  |  3 +++
 .../template/alwayslatch.txt                  |  3 +++
 .../template/casezstatement.txt               |  5 ++++
 .../ast_code_generator/template/supply.txt    |  1 +
 .../template/uniquecasestatement.txt          |  5 ++++
 7 files changed, 47 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 4836506..dd12743 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -417,6 +417,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'width': '' if node.width is None else self.visit(node.width),
+            'value': self.visit(node.value),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -674,6 +686,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -789,6 +810,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..b72886b
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..11860f0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..35eeaf0
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch @({{ sens_list }}) {{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..7500dc9
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From 85a22a794c57ac97c2e355a52ffda0f8634b5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 019/132] fix: a statement without event control is not one
 that waits for @(*)

---
 pyverilog/ast_code_generator/template/always.txt         | 2 +-
 pyverilog/ast_code_generator/template/alwayscomb.txt     | 2 +-
 pyverilog/ast_code_generator/template/alwaysff.txt       | 2 +-
 pyverilog/ast_code_generator/template/alwayslatch.txt    | 2 +-
 pyverilog/ast_code_generator/template/eventstatement.txt | 2 +-
 pyverilog/vparser/parser.py                              | 3 +--
 6 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyverilog/ast_code_generator/template/always.txt b/pyverilog/ast_code_generator/template/always.txt
index 299eee8..d606731 100644
--- a/pyverilog/ast_code_generator/template/always.txt
+++ b/pyverilog/ast_code_generator/template/always.txt
@@ -1,3 +1,3 @@
 
-always @({{ sens_list }}) {{ statement }}
+always {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
index b72886b..f556b76 100644
--- a/pyverilog/ast_code_generator/template/alwayscomb.txt
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -1,3 +1,3 @@
 
-always_comb @({{ sens_list }}) {{ statement }}
+always_comb {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
index 11860f0..a99d26e 100644
--- a/pyverilog/ast_code_generator/template/alwaysff.txt
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -1,3 +1,3 @@
 
-always_ff @({{ sens_list }}) {{ statement }}
+always_ff {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
index 35eeaf0..c586722 100644
--- a/pyverilog/ast_code_generator/template/alwayslatch.txt
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -1,3 +1,3 @@
 
-always_latch @({{ sens_list }}) {{ statement }}
+always_latch {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/eventstatement.txt b/pyverilog/ast_code_generator/template/eventstatement.txt
index 098301c..fafecdd 100644
--- a/pyverilog/ast_code_generator/template/eventstatement.txt
+++ b/pyverilog/ast_code_generator/template/eventstatement.txt
@@ -1 +1 @@
-@({{ senslist }});
+{% if senslist != '' %}@({{ senslist }}){% endif %};
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 3b84b25..021d4f5 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1360,8 +1360,7 @@ class VerilogParser(object):
 
     def p_sens_empty(self, p):
         'senslist : empty'
-        p[0] = SensList(
-            (Sens(None, 'all', lineno=p.lineno(1)),), lineno=p.lineno(1))
+        p[0] = SensList((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_sens_level(self, p):
-- 
2.43.0


From 4cfce26a9d79d4ad53a5322b10427843f3e6e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 020/132] fix: keep the else branch with its own if in
 generated code

---
 pyverilog/ast_code_generator/codegen.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index dd12743..5e35a69 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -109,6 +109,15 @@ def del_semicolon(s):
     return s
 
 
+def has_open_if(node):
+    """ whether an else right after the statement would belong to an if inside of it """
+    if isinstance(node, IfStatement):
+        return node.false_statement is None or has_open_if(node.false_statement)
+    if isinstance(node, (ForStatement, WhileStatement, WaitStatement, ForeverStatement)):
+        return has_open_if(node.statement)
+    return False
+
+
 class ASTCodeGenerator(ConvertVisitor):
     def __init__(self, indentsize=2):
         self.env = Environment(loader=FileSystemLoader(DEFAULT_TEMPLATE_DIR))
@@ -758,7 +767,10 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_IfStatement(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        true_statement = '' if node.true_statement is None else self.visit(node.true_statement)
+        true_node = node.true_statement
+        if node.false_statement is not None and has_open_if(true_node):
+            true_node = Block((true_node,))
+        true_statement = '' if true_node is None else self.visit(true_node)
         false_statement = '' if node.false_statement is None else self.visit(node.false_statement)
         template_dict = {
             'cond': del_paren(self.visit(node.cond)),
-- 
2.43.0


From 069a3ae8ba54690a38cd289477b66e635216afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 021/132] fix: a unique case statement holds its selector and
 items

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 021d4f5..e1c0e7f 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1692,7 +1692,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From ca4754d49316c48ed548b64c34587742ff114c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 022/132] fix: a default_nettype directive after a module does
 not change that module

---
 pyverilog/vparser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index e1c0e7f..f2f2b49 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -127,18 +127,20 @@ class VerilogParser(object):
     def p_moduledef(self, p):
         'moduledef : MODULE modulename paramlist portlist items ENDMODULE'
         p[0] = ModuleDef(name=p[2], paramlist=p[3], portlist=p[4], items=p[5],
-                         default_nettype=self.get_default_nettype(), lineno=p.lineno(1))
+                         default_nettype=self.module_nettype, lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(6)
 
     def p_modulename(self, p):
         'modulename : ID'
         p[0] = p[1]
+        self.module_nettype = self.get_default_nettype()
         p.set_lineno(0, p.lineno(1))
 
     def p_modulename_or(self, p):
         'modulename : SENS_OR'  # or primitive
         p[0] = p[1]
+        self.module_nettype = self.get_default_nettype()
         p.set_lineno(0, p.lineno(1))
 
     def p_paramlist(self, p):
-- 
2.43.0


From 8d40004976eb567ed47d0eee0d6e391561f09342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 023/132] fix: keep the delay in front of an if statement

---
 pyverilog/vparser/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index f2f2b49..7051941 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1588,15 +1588,22 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p[5].end_lineno
 
+    # an if statement has no delay of its own: wait before it in a block
+    def _delayed(self, delay, statement):
+        if delay is None:
+            return statement
+        wait = SingleStatement(delay, lineno=delay.lineno)
+        return Block((wait, statement), lineno=delay.lineno)
+
     def p_if_statement_delay(self, p):
         'if_statement : delays IF LPAREN cond RPAREN true_statement ELSE else_statement'
-        p[0] = IfStatement(p[4], p[6], p[8], lineno=p.lineno(2))
+        p[0] = self._delayed(p[1], IfStatement(p[4], p[6], p[8], lineno=p.lineno(2)))
         p.set_lineno(0, p.lineno(2))
         p[0].end_lineno = p[8].end_lineno
 
     def p_if_statement_woelse_delay(self, p):
         'if_statement : delays IF LPAREN cond RPAREN true_statement'
-        p[0] = IfStatement(p[4], p[6], None, lineno=p.lineno(2))
+        p[0] = self._delayed(p[1], IfStatement(p[4], p[6], None, lineno=p.lineno(2)))
         p.set_lineno(0, p.lineno(2))
         p[0].end_lineno = p[6].end_lineno
 
-- 
2.43.0


From 9edd7298735c02e56e59179de2355726d586fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 024/132] fix: an integer parameter is signed and 32 bits wide

---
 pyverilog/vparser/parser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 7051941..1ae53a5 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -172,6 +172,11 @@ class VerilogParser(object):
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
+    # an integer is a signed 32-bit variable
+    def _integer_width(self, lineno):
+        return Width(msb=IntConst('31', lineno=lineno),
+                     lsb=IntConst('0', lineno=lineno), lineno=lineno)
+
     def p_param(self, p):
         'param : PARAMETER param_substitution_list COMMA'
         paramlist = [Parameter(rname, rvalue, lineno=p.lineno(2))
@@ -202,7 +207,8 @@ class VerilogParser(object):
 
     def p_param_integer(self, p):
         'param : PARAMETER INTEGER param_substitution_list COMMA'
-        paramlist = [Parameter(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Parameter(rname, rvalue, self._integer_width(p.lineno(2)), signed=True,
+                               lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
@@ -237,7 +243,8 @@ class VerilogParser(object):
 
     def p_param_end_integer(self, p):
         'param_end : PARAMETER INTEGER param_substitution_list'
-        paramlist = [Parameter(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Parameter(rname, rvalue, self._integer_width(p.lineno(2)), signed=True,
+                               lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
@@ -770,7 +777,8 @@ class VerilogParser(object):
 
     def p_parameterdecl_integer(self, p):
         'parameterdecl : PARAMETER INTEGER param_substitution_list SEMICOLON'
-        paramlist = [Parameter(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Parameter(rname, rvalue, self._integer_width(p.lineno(2)), signed=True,
+                               lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
@@ -805,7 +813,8 @@ class VerilogParser(object):
 
     def p_localparamdecl_integer(self, p):
         'localparamdecl : LOCALPARAM INTEGER param_substitution_list SEMICOLON'
-        paramlist = [Localparam(rname, rvalue, lineno=p.lineno(3))
+        paramlist = [Localparam(rname, rvalue, self._integer_width(p.lineno(2)), signed=True,
+                                lineno=p.lineno(3))
                      for rname, rvalue in p[3]]
         p[0] = Decl(tuple(paramlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
-- 
2.43.0


From f4fa59caffa1ead2e25ed3f79b293022bb93ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 025/132] fix: keep the range of a parameter whose value is a
 string

---
 pyverilog/ast_code_generator/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 5e35a69..286be1e 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -406,7 +406,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
@@ -419,7 +419,7 @@ class ASTCodeGenerator(ConvertVisitor):
         value = self.visit(node.value)
         template_dict = {
             'name': escape(node.name),
-            'width': '' if node.width is None or (value.startswith('"') and value.endswith('"')) else self.visit(node.width),
+            'width': '' if node.width is None else self.visit(node.width),
             'value': value,
             'signed': node.signed,
         }
-- 
2.43.0


From 1514bedd3168796df8f74d355058fc7b6125f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 026/132] fix: emit all separators of a loop header without
 initialisation

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 286be1e..ccdbb91 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -784,7 +784,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
+            'pre': ';' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
             'post': '' if node.post is None else del_space(del_semicolon(self.visit(node.post))),
             'statement': '' if node.statement is None else self.visit(node.statement),
-- 
2.43.0


From 6046a5a9f7c65450e93d0426f75c403f54b3ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 027/132] fix: parenthesise a string delay

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index ccdbb91..4978c6f 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -895,7 +895,7 @@ class ASTCodeGenerator(ConvertVisitor):
         filename = getfilename(node)
         template = self.get_template(filename)
         template_dict = {
-            'delay': self.visit(node.delay) if isinstance(node.delay, (Constant, Identifier)) else
+            'delay': self.visit(node.delay) if isinstance(node.delay, (IntConst, FloatConst, Identifier)) else
             '(' + del_paren(self.visit(node.delay)) + ')',
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From c4c72f2f6398ab96874345945b85a43071511f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 028/132] fix: keep the space between a binary and a unary
 operator in generated ranges

---
 pyverilog/ast_code_generator/codegen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 4978c6f..0c26206 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -95,11 +95,13 @@ def del_paren(s):
     return s
 
 
-_removable_space = re.compile(r'("(?:[^"\\]|\\.)*"|\\\S+ )| ')
+_removable_space = re.compile(
+    r'("(?:[^"\\]|\\.)*"|\\\S+ |(?<=[-+*/%&|^~!<>=]) (?=[-+&|^~!]))| ')
 
 
 def del_space(s):
-    """ remove spaces, except in strings and at the end of escaped identifiers """
+    """ remove spaces, except in strings, at the end of escaped identifiers
+    and between two operators """
     return _removable_space.sub(lambda m: m.group(1) or '', s)
 
 
-- 
2.43.0


From dd8e88cbb079261a49325a6e8daecce8a1f3ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 029/132] fix: accept integer signed declarations

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 1ae53a5..954d495 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -696,7 +696,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 9fbee7a7661dccb2ed6e54a4397948f8020a9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 030/132] fix: a scope with several indices is a ParseError,
 not an AttributeError

---
 pyverilog/vparser/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 954d495..8cce5b3 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2265,6 +2265,8 @@ class VerilogParser(object):
 
     def p_scope_pointer(self, p):
         'scope : pointer DOT'
+        if not isinstance(p[1].var, Identifier):
+            raise ParseError("Syntax Error")
         scope = () if p[1].var.scope is None else p[1].var.scope.labellist
         p[0] = IdentifierScope(scope + (IdentifierScopeLabel(p[1].var.name,
                                                              p[1].ptr, lineno=p.lineno(1)),), lineno=p.lineno(1))
-- 
2.43.0


From 1d663cbc2fe8777e1d60c59c6eb4909b84f614bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 031/132] fix: a null statement has a line number

---
 pyverilog/vparser/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 8cce5b3..a50db2c 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1763,8 +1763,9 @@ class VerilogParser(object):
     # --------------------------------------------------------------------------
     def p_event_statement(self, p):
         'event_statement : senslist SEMICOLON'
-        p[0] = EventStatement(p[1], lineno=p.lineno(1))
-        p.set_lineno(0, p.lineno(1))
+        lineno = p.lineno(1) or p.lineno(2)
+        p[0] = EventStatement(p[1], lineno=lineno)
+        p.set_lineno(0, lineno)
         p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 352978d9f363efc1543f3447f841f6c2c20b8006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 032/132] fix: a delay number has the line number of the number

---
 pyverilog/vparser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index a50db2c..180d5fd 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1490,13 +1490,13 @@ class VerilogParser(object):
     def p_delays_intnumber(self, p):
         'delays : DELAY intnumber'
         p[0] = DelayStatement(
-            IntConst(p[2], lineno=p.lineno(1)), lineno=p.lineno(1))
+            IntConst(p[2], lineno=p.lineno(2)), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_delays_floatnumber(self, p):
         'delays : DELAY floatnumber'
         p[0] = DelayStatement(FloatConst(
-            p[2], lineno=p.lineno(1)), lineno=p.lineno(1))
+            p[2], lineno=p.lineno(2)), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_delays_empty(self, p):
-- 
2.43.0


From ee45edd3ba984e04eaa8932ccf86b7c2c6bee738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 033/132] fix: carriage returns and form feeds are white space

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 76d0e9d..db8d90b 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -100,7 +100,7 @@ class VerilogLexer(object):
     )
 
     # Ignore
-    t_ignore = ' \t'
+    t_ignore = ' \t\r\f'
 
     # Directive
     directive = r"""\`.*?(\n|\Z)"""
-- 
2.43.0


From f6a302c62f2dd81b807a397d9e89280e7c5fb7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 034/132] fix: a comment after default_nettype is not part of
 the net type

---
 pyverilog/vparser/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index db8d90b..4448eb3 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -109,7 +109,7 @@ class VerilogLexer(object):
     def t_DIRECTIVE(self, t):
         self.directives.append((self.lexer.lineno, t.value))
         t.lexer.lineno += t.value.count("\n")
-        m = re.match("^`default_nettype\s+(.+)\n", t.value)
+        m = re.match(r"^`default_nettype\s+(\w+)", t.value)
         if m:
             self.default_nettype = m.group(1)
         pass
-- 
2.43.0


From c6731ee00fc142e5174dea7162f4a5d02a569acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 035/132] fix: a repeated word in a declaration is an error

---
 pyverilog/vparser/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 180d5fd..b05f118 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -393,6 +393,8 @@ class VerilogParser(object):
         return Ioport(first, second, lineno=lineno)
 
     def typecheck_ioport(self, sigtypes):
+        if len(set(sigtypes)) != len(sigtypes):
+            raise ParseError("Syntax Error")
         if 'input' not in sigtypes and 'output' not in sigtypes and 'inout' not in sigtypes:
             raise ParseError("Syntax Error")
         if 'input' in sigtypes and 'output' in sigtypes:
@@ -544,6 +546,8 @@ class VerilogParser(object):
         return decls
 
     def typecheck_decl(self, sigtypes, dimensions=None):
+        if len(set(sigtypes)) != len(sigtypes):
+            raise ParseError("Syntax Error")
         if ('supply0' in sigtypes or 'supply1' in sigtypes) and \
            dimensions is not None:
             raise ParseError("SyntaxError")
@@ -628,6 +632,8 @@ class VerilogParser(object):
         return decls
 
     def typecheck_declassign(self, sigtypes):
+        if len(set(sigtypes)) != len(sigtypes):
+            raise ParseError("Syntax Error")
         if len(sigtypes) == 1 and 'signed' in sigtypes:
             raise ParseError("Syntax Error")
         if 'reg' not in sigtypes and 'wire' not in sigtypes:
-- 
2.43.0


From 1cdf22ed3fe914344392913b41c40a8826e328ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 036/132] fix: a declaration of two net types is an error

---
 pyverilog/vparser/parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index b05f118..a93ba5f 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -392,9 +392,13 @@ class VerilogParser(object):
                          dimensions=dimensions, lineno=lineno)
         return Ioport(first, second, lineno=lineno)
 
-    def typecheck_ioport(self, sigtypes):
-        if len(set(sigtypes)) != len(sigtypes):
+    def typecheck_sigtypes(self, sigtypes):
+        nettypes = [t for t in sigtypes if t in ('wire', 'reg', 'tri', 'supply0', 'supply1')]
+        if len(set(sigtypes)) != len(sigtypes) or len(nettypes) > 1:
             raise ParseError("Syntax Error")
+
+    def typecheck_ioport(self, sigtypes):
+        self.typecheck_sigtypes(sigtypes)
         if 'input' not in sigtypes and 'output' not in sigtypes and 'inout' not in sigtypes:
             raise ParseError("Syntax Error")
         if 'input' in sigtypes and 'output' in sigtypes:
@@ -546,8 +550,7 @@ class VerilogParser(object):
         return decls
 
     def typecheck_decl(self, sigtypes, dimensions=None):
-        if len(set(sigtypes)) != len(sigtypes):
-            raise ParseError("Syntax Error")
+        self.typecheck_sigtypes(sigtypes)
         if ('supply0' in sigtypes or 'supply1' in sigtypes) and \
            dimensions is not None:
             raise ParseError("SyntaxError")
@@ -632,8 +635,7 @@ class VerilogParser(object):
         return decls
 
     def typecheck_declassign(self, sigtypes):
-        if len(set(sigtypes)) != len(sigtypes):
-            raise ParseError("Syntax Error")
+        self.typecheck_sigtypes(sigtypes)
         if len(sigtypes) == 1 and 'signed' in sigtypes:
             raise ParseError("Syntax Error")
         if 'reg' not in sigtypes and 'wire' not in sigtypes:
-- 
2.43.0


From bda7145a86724ec18ac67254c617e49723bfbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 037/132] fix: an argument list that begins with a comma is an
 error

---
 pyverilog/vparser/parser.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index a93ba5f..c66dd5d 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1903,15 +1903,20 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
 
     def p_param_args(self, p):
-        'param_args : param_args COMMA param_arg'
+        'param_args_nonempty : param_args_nonempty COMMA param_arg'
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
     def p_param_args_one(self, p):
-        'param_args : param_arg'
+        'param_args_nonempty : param_arg'
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
+    def p_param_args_some(self, p):
+        'param_args : param_args_nonempty'
+        p[0] = p[1]
+        p.set_lineno(0, p.lineno(1))
+
     def p_param_args_empty(self, p):
         'param_args : empty'
         p[0] = ()
@@ -1934,15 +1939,20 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
 
     def p_instance_ports_list(self, p):
-        'instance_ports_list : instance_ports_list COMMA instance_port_list'
+        'instance_ports_list_nonempty : instance_ports_list_nonempty COMMA instance_port_list'
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
     def p_instance_ports_list_one(self, p):
-        'instance_ports_list : instance_port_list'
+        'instance_ports_list_nonempty : instance_port_list'
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
+    def p_instance_ports_list_some(self, p):
+        'instance_ports_list : instance_ports_list_nonempty'
+        p[0] = p[1]
+        p.set_lineno(0, p.lineno(1))
+
     def p_instance_ports_list_empty(self, p):
         'instance_ports_list : empty'
         p[0] = ()
@@ -2097,15 +2107,20 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
 
     def p_sysargs(self, p):
-        'sysargs : sysargs COMMA sysarg'
+        'sysargs_nonempty : sysargs_nonempty COMMA sysarg'
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
     def p_sysargs_one(self, p):
-        'sysargs : sysarg'
+        'sysargs_nonempty : sysarg'
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
+    def p_sysargs_some(self, p):
+        'sysargs : sysargs_nonempty'
+        p[0] = p[1]
+        p.set_lineno(0, p.lineno(1))
+
     def p_sysargs_empty(self, p):
         'sysargs : empty'
         p[0] = ()
@@ -2189,15 +2204,20 @@ class VerilogParser(object):
         p.set_lineno(0, p.lineno(1))
 
     def p_func_args(self, p):
-        'func_args : func_args COMMA expression'
+        'func_args_nonempty : func_args_nonempty COMMA expression'
         p[0] = p[1] + (p[3],)
         p.set_lineno(0, p.lineno(1))
 
     def p_func_args_one(self, p):
-        'func_args : expression'
+        'func_args_nonempty : expression'
         p[0] = (p[1],)
         p.set_lineno(0, p.lineno(1))
 
+    def p_func_args_some(self, p):
+        'func_args : func_args_nonempty'
+        p[0] = p[1]
+        p.set_lineno(0, p.lineno(1))
+
     def p_func_args_empty(self, p):
         'func_args : empty'
         p[0] = ()
-- 
2.43.0


From 71a66cac8b2b55714dc235c91755cca86712eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 038/132] fix: two nodes are equal only if they hold the same
 contents in the same places

---
 pyverilog/vparser/ast.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..4fd70b0 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -56,19 +56,18 @@ class Node(object):
         if type(self) != type(other):
             return False
 
-        self_attrs = tuple([getattr(self, a) for a in self.attr_names])
-        other_attrs = tuple([getattr(other, a) for a in other.attr_names])
-
-        if self_attrs != other_attrs:
-            return False
-
-        other_children = other.children()
-
-        for i, c in enumerate(self.children()):
-            if c != other_children[i]:
-                return False
-
-        return True
+        return self._contents() == other._contents()
+
+    def _contents(self):
+        """ All that the node holds, except its position in the source text """
+        ret = {}
+        for name, value in vars(self).items():
+            if name in ('lineno', 'end_lineno'):
+                continue
+            if isinstance(value, (list, tuple)):
+                value = tuple(value) or None
+            ret[name] = value
+        return ret
 
     def __ne__(self, other):
         return not self.__eq__(other)
-- 
2.43.0


From 5ababf1a572319381d11a78489fae8d2469c4520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 039/132] fix: the dimensions of a port are among its children

---
 pyverilog/vparser/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index 4fd70b0..0541541 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -172,6 +172,8 @@ class Port(Node):
         nodelist = []
         if self.width:
             nodelist.append(self.width)
+        if self.dimensions:
+            nodelist.append(self.dimensions)
         return tuple(nodelist)
 
 
-- 
2.43.0


From 3ffdfa065809204649a081c276a3937de21833b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 040/132] fix: identifiers in the index of a scope label are
 identifiers of the tree

---
 pyverilog/utils/identifierreplace.py | 5 +++++
 pyverilog/utils/identifiervisitor.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 65355b3..ea14fbb 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -72,6 +72,11 @@ class IdentifierReplace(object):
             setattr(node, name, ret)
         return node
 
+    def visit_IdentifierScopeLabel(self, node):
+        if node.loop is not None:
+            node.loop = self.visit(node.loop)
+        return node
+
     def visit_Identifier(self, node):
         if node.name in self.ids:
             return vast.Identifier(self.ids[node.name])
diff --git a/pyverilog/utils/identifiervisitor.py b/pyverilog/utils/identifiervisitor.py
index 2f906ef..ebec5cc 100644
--- a/pyverilog/utils/identifiervisitor.py
+++ b/pyverilog/utils/identifiervisitor.py
@@ -32,4 +32,9 @@ class IdentifierVisitor(NodeVisitor):
         self.identifiers = []
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         self.identifiers.append(node.name)
+
+    def visit_IdentifierScopeLabel(self, node):
+        if node.loop is not None:
+            self.visit(node.loop)
-- 
2.43.0


From 1b5d5cd1172e2539c0a1f28705ded09cfed2992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 041/132] fix: embedded code has a line number

---
 pyverilog/vparser/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index 0541541..011f7b7 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -1286,6 +1286,7 @@ class EmbeddedCode(Node):
     attr_names = ('code',)
 
     def __init__(self, code, lineno=0):
+        self.lineno = lineno
         self.code = code
 
     def children(self):
-- 
2.43.0


From 810965ebc8fad238faacbf687ae5b94912136fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 042/132] fix: a replaced identifier keeps its scope and line
 number

---
 pyverilog/utils/identifierreplace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index ea14fbb..71305a8 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -78,6 +78,7 @@ class IdentifierReplace(object):
         return node
 
     def visit_Identifier(self, node):
+        self.generic_visit(node)
         if node.name in self.ids:
-            return vast.Identifier(self.ids[node.name])
+            return vast.Identifier(self.ids[node.name], node.scope, lineno=node.lineno)
         return node
-- 
2.43.0


From ea511982dba0b9687ec857cd76f7bc3745200ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 043/132] fix: an identifier held twice by a tree is replaced
 once

---
 pyverilog/utils/identifierreplace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyverilog/utils/identifierreplace.py b/pyverilog/utils/identifierreplace.py
index 71305a8..8b24201 100644
--- a/pyverilog/utils/identifierreplace.py
+++ b/pyverilog/utils/identifierreplace.py
@@ -48,8 +48,17 @@ def children_items(node):
 class IdentifierReplace(object):
     def __init__(self, ids):
         self.ids = ids
+        self.visited = {}  # results of the nodes seen, as a tree may hold a node twice
 
     def visit(self, node):
+        if id(node) in self.visited:
+            return self.visited[id(node)][1]
+        ret = self._visit(node)
+        if isinstance(node, Node):
+            self.visited[id(node)] = (node, ret)
+        return ret
+
+    def _visit(self, node):
         method = 'visit_' + node.__class__.__name__
         visitor = getattr(self, method, self.generic_visit)
         ret = visitor(node)
-- 
2.43.0


From 7a71999b27981b314db53ace0168966f3053e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 044/132] fix: a single file name or text given to the
 preprocessor is one source

---
 pyverilog/vparser/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..e40ea2f 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -32,7 +32,7 @@ class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
         if not isinstance(filelist, (tuple, list)):
-            filelist = list(filelist)
+            filelist = [filelist]
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
         # in python string. The following loop iterates through these `sources`,
-- 
2.43.0


From 1e6fde2e16bc29b108a5d7f85400efa37c693e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 045/132] fix: sources are preprocessed in the given order, and
 every time they are asked for

---
 pyverilog/vparser/preprocessor.py | 57 ++++++++++++++++---------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index e40ea2f..97f1c8f 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -34,28 +34,7 @@ class VerilogPreprocessor(object):
         if not isinstance(filelist, (tuple, list)):
             filelist = [filelist]
 
-        # Elements in `filelist` can either be raw Verilog files, or Verilog code
-        # in python string. The following loop iterates through these `sources`,
-        # and normalizes all of them into files.
-        #
-        # For Verilog code in python string, the contents of the string is stored
-        # in a temporary file for further use with `iverilog`.
-        self.temp_files_paths = []
-        self.filelist = []
-
-        for source in filelist:
-            # If `source` is verilog code in python strings
-            if not os.path.isfile(source):
-                temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
-                with open(temp_fd, 'w') as f:
-                    f.write(source)
-
-                self.temp_files_paths.append(temp_path)
-
-            else: # else if it is normal verilog file path
-                self.filelist.append(source)
-
-        self.filelist += self.temp_files_paths
+        self.filelist = list(filelist)
 
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
@@ -82,12 +61,34 @@ class VerilogPreprocessor(object):
         self.iv.append(outputfile)
 
     def preprocess(self):
-        cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
-
-        # Removing the temporary files that were created
-        for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+        # Elements in `filelist` can either be raw Verilog files, or Verilog code
+        # in python string. The following loop iterates through these `sources`,
+        # and normalizes all of them into files, in the given order.
+        #
+        # For Verilog code in python string, the contents of the string is stored
+        # in a temporary file for further use with `iverilog`.
+        temp_files_paths = []
+        paths = []
+
+        try:
+            for source in self.filelist:
+                # If `source` is verilog code in python strings
+                if not os.path.isfile(source):
+                    temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
+                    temp_files_paths.append(temp_path)
+                    with open(temp_fd, 'w') as f:
+                        f.write(source)
+                    paths.append(temp_path)
+
+                else:  # else if it is normal verilog file path
+                    paths.append(source)
+
+            subprocess.call(self.iv + paths)
+
+        finally:
+            # Removing the temporary files that were created
+            for temp_file_path in temp_files_paths:
+                os.remove(temp_file_path)
 
 
 def preprocess(
-- 
2.43.0


From e57efa550d41e757f2ca04973b734e02a39217e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 046/132] fix: a failure of the preprocessor is an error, not
 an incomplete text

---
 pyverilog/vparser/preprocessor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 97f1c8f..98dfa9e 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -35,6 +35,7 @@ class VerilogPreprocessor(object):
             filelist = [filelist]
 
         self.filelist = list(filelist)
+        self.outputfile = outputfile
 
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
@@ -83,13 +84,19 @@ class VerilogPreprocessor(object):
                 else:  # else if it is normal verilog file path
                     paths.append(source)
 
-            subprocess.call(self.iv + paths)
+            status = subprocess.call(self.iv + paths)
 
         finally:
             # Removing the temporary files that were created
             for temp_file_path in temp_files_paths:
                 os.remove(temp_file_path)
 
+        if status != 0:
+            # The output is not the preprocessed text of the sources
+            if os.path.isfile(self.outputfile):
+                os.remove(self.outputfile)
+            raise RuntimeError('Preprocessing of the sources failed')
+
 
 def preprocess(
     filelist,
-- 
2.43.0


From 1a613c43a6808ce031ad1eb816646a5f8a221ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 047/132] fix: undefined names in the optimizer; width of a
 system function

---
 pyverilog/dataflow/optimizer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..273e7a5 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -81,7 +81,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFHighImpedance):
             return tree
         if isinstance(tree, DFDelay):
-            raise FormatError('Can not evaluate and optimize a DFDelay')
+            raise verror.FormatError('Can not evaluate and optimize a DFDelay')
             # return tree
 
         if isinstance(tree, DFIntConst):
@@ -341,10 +341,12 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
+            if node.syscall in ('signed', 'unsigned') and len(node.nextnodes) == 1:
+                return self.getWidth(node.nextnodes[0])
             return self.default_width
 
-        raise FormatError('Illegal Pointer in getWidth()')
+        raise verror.FormatError('Illegal Pointer in getWidth()')
 
     def evalConcat(self, nextnodes):
         concatval = 0
@@ -357,7 +359,7 @@ class VerilogOptimizer(object):
 
     def isCondTrue(self, cond):
         if not isinstance(cond, DFEvalValue):
-            raise FormatError('Can not evaluate the branch condition.')
+            raise verror.FormatError('Can not evaluate the branch condition.')
         if cond.value == 0:
             return False
         return True
@@ -437,7 +439,7 @@ class VerilogOptimizer(object):
         if isinstance(tree, DFSyscall):
             return DFSyscall(tree.syscall, tuple([self.optimizeHierarchy(n) for n in tree.nextnodes]))
 
-        raise FormatError('Can not merge due to unrecognized type of tree')
+        raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
-- 
2.43.0


From c02a1d008c3418ec2c28171fe6e6d378f7a095a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 048/132] fix: the optimizer computes the width of every
 operator as the language does

---
 pyverilog/dataflow/optimizer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 273e7a5..21c6165 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,11 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    # operators with a result of 1 bit
+    bool_ops = ('Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor', 'Land', 'Lor')
+    # operators with a result as wide as the left operand
+    left_ops = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -299,6 +303,8 @@ class VerilogOptimizer(object):
             return self.default_width
         if isinstance(node, DFTerminal):
             term = self.getTerm(node.name)
+            if term.msb is None or term.lsb is None:
+                return 1
             msb = self.optimizeConstant(term.msb).value
             lsb = self.optimizeConstant(term.lsb).value
             width = abs(msb - lsb) + 1
@@ -317,8 +323,10 @@ class VerilogOptimizer(object):
         if isinstance(node, DFOperator):
             if node.operator in self.compare_ops:
                 return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
+            if node.operator in self.bool_ops:
                 return 1
+            if node.operator in self.left_ops:
+                return self.getWidth(node.nextnodes[0])
             maxwidth = 0
             for n in node.nextnodes:
                 width = self.getWidth(n)
-- 
2.43.0


From b9d1b5d565aff27ffafe0fd334af08228e36501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 049/132] fix: constant folding in the optimizer follows the
 arithmetic of the language

---
 pyverilog/dataflow/optimizer.py | 58 ++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 21c6165..cf248c2 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -24,6 +24,11 @@ class VerilogOptimizer(object):
     bool_ops = ('Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor', 'Land', 'Lor')
     # operators with a result as wide as the left operand
     left_ops = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
+    # operators that are defined for real numbers
+    float_ops = ('Uplus', 'Uminus', 'Ulnot', 'Power', 'Times', 'Divide', 'Plus', 'Minus',
+                 'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Land', 'Lor')
+    # constant results with more bits than this are not computed
+    max_width = 4096
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -176,16 +181,30 @@ class VerilogOptimizer(object):
     def evalOperator(self, operator, nextnodes):
         valuelist = []
         width = 0
+        isfloat = False
         for n in nextnodes:
-            if not isinstance(n, DFEvalValue):
+            if not isinstance(n, DFEvalValue) or n.isstring:
                 return None
             valuelist.append(n.value)
+            isfloat = isfloat or n.isfloat
             if n.width > width:
                 width = n.width
+        if isfloat and operator not in self.float_ops:
+            return None
+        if operator in ('Divide', 'Mod') and valuelist[1] == 0:
+            return None if isfloat else DFUndefined(width)
         rslt = self._evalOperator(operator, tuple(valuelist), width)
-        return DFEvalValue(rslt, width)
+        if rslt is None:
+            return None
+        if operator in self.compare_ops or operator in self.bool_ops:
+            return DFEvalValue(rslt, 1)
+        if operator in self.left_ops:
+            width = nextnodes[0].width
+        return DFEvalValue(rslt, width, isfloat=isfloat)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
+        if operator == 'Uplus':
+            return valuelist[0]
         if operator == 'Uminus':
             return -1 * valuelist[0]
         if operator == 'Ulnot':
@@ -231,23 +250,26 @@ class VerilogOptimizer(object):
                     rslt = 1 if rslt == 0 else 0
             return rslt
         if operator == 'Power':
-            return valuelist[0] ** valuelist[1]
+            return self._evalPower(valuelist[0], valuelist[1])
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                return self._evalDivide(valuelist[0], valuelist[1])
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
-            return valuelist[0] % valuelist[1]
+            return valuelist[0] - valuelist[1] * self._evalDivide(valuelist[0], valuelist[1])
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
-        if operator == 'Sll':
+        if operator in self.left_ops and not 0 <= valuelist[1] <= self.max_width:
+            return None
+        if operator == 'Sll' or operator == 'Sla':
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
+            if valuelist[0] < 0:
+                return (valuelist[0] & ((1 << width) - 1)) >> valuelist[1]
             return valuelist[0] >> valuelist[1]
         if operator == 'Sra':
             return valuelist[0] >> valuelist[1]
@@ -273,7 +295,7 @@ class VerilogOptimizer(object):
         if operator == 'Xor':
             return valuelist[0] ^ valuelist[1]
         if operator == 'Xnor':
-            return ~(valuelist[0] ^ valuelist[1])
+            return ~(valuelist[0] ^ valuelist[1]) & ((1 << width) - 1)
         if operator == 'Or':
             return valuelist[0] | valuelist[1]
         if operator == 'Land':
@@ -282,6 +304,24 @@ class VerilogOptimizer(object):
             return 1 if valuelist[0] or valuelist[1] else 0
         return None
 
+    def _evalDivide(self, left, right):
+        # truncation toward zero
+        value = abs(left) // abs(right)
+        return value if (left < 0) == (right < 0) else -value
+
+    def _evalPower(self, base, exponent):
+        if not isinstance(base, int) or not isinstance(exponent, int):
+            return base ** exponent
+        if exponent < 0:
+            if base == 0:
+                return None
+            if abs(base) > 1:
+                return 0
+            return base if exponent % 2 else 1
+        if abs(base) > 1 and exponent * abs(base).bit_length() > self.max_width:
+            return None
+        return base ** exponent
+
     def getWidth(self, node):
         if node is None:
             return self.default_width
-- 
2.43.0


From dbb24a979ad7c7d36110a67fa957fe2353e3d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 050/132] fix: logical simplifications keep the one-bit truth
 value of a wide operand

---
 pyverilog/dataflow/optimizer.py | 44 +++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index cf248c2..ef86542 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -715,10 +715,10 @@ class VerilogOptimizer(object):
             return node.nextnodes[0]
         if node.operator == 'Or':
             return node.nextnodes[0]
-        if node.operator == 'Land':
-            return node.nextnodes[0]
-        if node.operator == 'Lor':
-            return node.nextnodes[0]
+        if node.operator == 'Land' or node.operator == 'Lor':
+            if self.getWidth(node.nextnodes[0]) == 1:
+                return node.nextnodes[0]
+            return node
         if node.operator == 'LessThan':
             return DFEvalValue(0, 1)  # value, width
         if node.operator == 'GreaterThan':
@@ -771,9 +771,9 @@ class VerilogOptimizer(object):
                     return node
             return node
         if node.operator == 'Or':
-            if isinstance(left, DFEvalValue) and left.value == 0:
+            if isinstance(left, DFEvalValue) and left.value == 0 and self.getWidth(right) == self.getWidth(node):
                 return right
-            if isinstance(right, DFEvalValue) and right.value == 0:
+            if isinstance(right, DFEvalValue) and right.value == 0 and self.getWidth(left) == self.getWidth(node):
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
@@ -799,19 +799,19 @@ class VerilogOptimizer(object):
                 return DFEvalValue(0, 1)
             if isinstance(right, DFEvalValue) and right.value == 0:
                 return DFEvalValue(0, 1)
-            if isinstance(left, DFEvalValue) and left.value > 0:
+            if isinstance(left, DFEvalValue) and left.value and self.getWidth(right) == 1:
                 return right
-            if isinstance(right, DFEvalValue) and right.value > 0:
+            if isinstance(right, DFEvalValue) and right.value and self.getWidth(left) == 1:
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.getWidth(right) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.getWidth(left) == 1:
                     return DFEvalValue(0, 1)
                 else:
                     return node
@@ -883,13 +883,13 @@ class VerilogOptimizer(object):
                 return left
             return node
         if node.operator == 'Lor':
-            if isinstance(left, DFEvalValue) and left.value == 0:
+            if isinstance(left, DFEvalValue) and left.value == 0 and self.getWidth(right) == 1:
                 return right
-            if isinstance(right, DFEvalValue) and right.value == 0:
+            if isinstance(right, DFEvalValue) and right.value == 0 and self.getWidth(left) == 1:
                 return left
-            if isinstance(left, DFEvalValue) and left.value > 0:
+            if isinstance(left, DFEvalValue) and left.value:
                 return DFEvalValue(1, 1)
-            if isinstance(right, DFEvalValue) and right.value > 0:
+            if isinstance(right, DFEvalValue) and right.value:
                 return DFEvalValue(1, 1)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
@@ -907,25 +907,29 @@ class VerilogOptimizer(object):
                     and isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left.nextnodes[0], DFOperator) and left.nextnodes[0].operator == 'Ulnot'\
                     and left.nextnodes[0].nextnodes[0] == right.nextnodes[0]\
-                    and left.nextnodes[1] == right.nextnodes[1]:
+                    and left.nextnodes[1] == right.nextnodes[1]\
+                    and self.getWidth(left.nextnodes[1]) == 1:
                 return left.nextnodes[1]
             if isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left.nextnodes[1], DFOperator) and left.nextnodes[1].operator == 'Ulnot'\
                     and left.nextnodes[1].nextnodes[0] == right.nextnodes[0]\
-                    and left.nextnodes[0] == right.nextnodes[1]:
+                    and left.nextnodes[0] == right.nextnodes[1]\
+                    and self.getWidth(left.nextnodes[0]) == 1:
                 return left.nextnodes[0]
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[0], DFOperator) and right.nextnodes[0].operator == 'Ulnot'\
                     and right.nextnodes[0].nextnodes[0] == left.nextnodes[0]\
-                    and right.nextnodes[1] == left.nextnodes[1]:
+                    and right.nextnodes[1] == left.nextnodes[1]\
+                    and self.getWidth(right.nextnodes[1]) == 1:
                 return right.nextnodes[1]
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[1], DFOperator) and right.nextnodes[1].operator == 'Ulnot'\
                     and right.nextnodes[1].nextnodes[0] == left.nextnodes[0]\
-                    and right.nextnodes[0] == left.nextnodes[1]:
+                    and right.nextnodes[0] == left.nextnodes[1]\
+                    and self.getWidth(right.nextnodes[0]) == 1:
                 return right.nextnodes[0]
             return node
         return node
@@ -972,6 +976,8 @@ class VerilogOptimizer(object):
             if not (s in ret_exist_list):
                 ret_list.append(l)
                 ret_exist_list.append(s)
+        if len(ret_list) == 1 and self.getWidth(ret_list[0]) != 1:
+            return node
         return tuple(sorted(ret_list, key=lambda x: x.tocode(), reverse=True))
 
     def mergeLor(self, node):
@@ -1015,6 +1021,8 @@ class VerilogOptimizer(object):
             if not (s in ret_exist_list):
                 ret_list.append(l)
                 ret_exist_list.append(s)
+        if len(ret_list) == 1 and self.getWidth(ret_list[0]) != 1:
+            return node
         return tuple(sorted(ret_list, key=lambda x: x.tocode(), reverse=True))
 
 # -------------------------------------------------------------------------------
-- 
2.43.0


From 28ad4fba1c27e4fb336b203ea88b5c672306e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 051/132] fix: multiplication and division become shifts only
 where width and sign allow it

---
 pyverilog/dataflow/optimizer.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index ef86542..7887f8c 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -569,23 +569,45 @@ class VerilogOptimizer(object):
             return True
         return False
 
+    def _isSigned(self, node):
+        # whether the value can be negative
+        if isinstance(node, DFTerminal):
+            return signaltype.isInteger(self.getTerm(node.name).termtype)
+        if isinstance(node, DFEvalValue):
+            return node.value < 0
+        if isinstance(node, DFSyscall):
+            return node.syscall == 'signed'
+        if isinstance(node, DFBranch):
+            return self._isSigned(node.truenode) or self._isSigned(node.falsenode)
+        if isinstance(node, DFOperator):
+            if node.operator in self.compare_ops or node.operator in self.bool_ops:
+                return False
+            if node.operator in self.left_ops:
+                return self._isSigned(node.nextnodes[0])
+            return True in [self._isSigned(n) for n in node.nextnodes]
+        return False
+
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
             return node
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-             self._isPowerOf2(node.nextnodes[1].value))):
+             self._isPowerOf2(node.nextnodes[1].value) and
+             self.getWidth(node.nextnodes[0]) == self.getWidth(node))):
             return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
-             self._isPowerOf2(node.nextnodes[0].value))):
+             self._isPowerOf2(node.nextnodes[0].value) and
+             self.getWidth(node.nextnodes[1]) == self.getWidth(node))):
             return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-                 self._isPowerOf2(node.nextnodes[1].value))):
+                 self._isPowerOf2(node.nextnodes[1].value) and
+                 self.getWidth(node.nextnodes[0]) == self.getWidth(node) and
+                 not self._isSigned(node.nextnodes[0]))):
             return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
         return node
 
-- 
2.43.0


From 876c412c6e479da3a0a9a67c7f97c84710b997cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 052/132] fix: bit and part selection of constants

---
 pyverilog/dataflow/optimizer.py | 46 +++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 7887f8c..7f3fabc 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -144,9 +144,12 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb)
-                return evalcc
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                evalcc = self.evalPartselect(var, msb, lsb, self.getOffset(tree.var))
+                if evalcc is not None:
+                    return evalcc
+            if isinstance(tree.var, DFTerminal) and self.getOffset(tree.var) != 0:
+                return DFPartselect(tree.var, msb, lsb)
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -158,8 +161,11 @@ class VerilogOptimizer(object):
             if term.dims is not None:
                 return DFPointer(var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr)
-                return evalcc
+                evalcc = self.evalPointer(var, ptr, self.getOffset(tree.var))
+                if evalcc is not None:
+                    return evalcc
+            if self.getOffset(tree.var) != 0:
+                return DFPointer(tree.var, ptr)
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFSyscall):
@@ -412,16 +418,28 @@ class VerilogOptimizer(object):
             return False
         return True
 
-    def evalPartselect(self, var, msb, lsb):
+    def getOffset(self, node):
+        """ index of the least significant bit """
+        if not isinstance(node, DFTerminal):
+            return 0
+        lsb = self.getTerm(node.name).lsb
+        lsb = self.optimizeConstant(lsb)
+        if isinstance(lsb, DFEvalValue):
+            return lsb.value
+        return 0
+
+    def evalPartselect(self, var, msb, lsb, offset=0):
         width = msb.value - lsb.value + 1
-        partval = var.value >> lsb.value
-        if partval >= 2 ** width:
-            partval = partval % (2 ** width)
-        return DFEvalValue(partval, width)
-
-    def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
-        return DFEvalValue(ptrval, 1)
+        low = lsb.value - offset
+        if not isinstance(var.value, int) or width < 1 or low < 0 or low + width > self.getWidth(var):
+            return None
+        return DFEvalValue((var.value >> low) & ((1 << width) - 1), width)
+
+    def evalPointer(self, var, ptr, offset=0):
+        pos = ptr.value - offset
+        if not isinstance(var.value, int) or pos < 0 or pos >= self.getWidth(var):
+            return None
+        return DFEvalValue((var.value >> pos) & 0x1, 1)
 
     def optimizeHierarchy(self, tree):
         if tree is None:
-- 
2.43.0


From 0961110329cd48e02568084ced221d22da1fffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 053/132] fix: concatenation of negative and string constants
 and of branches that keep a value

---
 pyverilog/dataflow/optimizer.py | 40 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 7f3fabc..9a6bcb9 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -406,9 +406,11 @@ class VerilogOptimizer(object):
         concatval = 0
         sum_width = 0
         for node in nextnodes:
+            if not isinstance(node.value, int):
+                return None
             width = self.getWidth(node)
             sum_width += width
-            concatval = (concatval << width) | node.value
+            concatval = (concatval << width) | (node.value & ((1 << width) - 1))
         return DFEvalValue(concatval, sum_width)
 
     def isCondTrue(self, cond):
@@ -646,7 +648,7 @@ class VerilogOptimizer(object):
         constvallist = []
         constval = 0
         for n in concatnode.nextnodes:
-            if isinstance(n, DFEvalValue):
+            if isinstance(n, DFEvalValue) and isinstance(n.value, int):
                 constvallist.append(n)
                 constval = self.evalConcat(tuple(constvallist))
                 if len(constvallist) > 1:
@@ -711,29 +713,17 @@ class VerilogOptimizer(object):
                 pass
             elif not isinstance(n, DFBranch):
                 pass
-            elif last_node.condnode == n.condnode:
-                truenode_list = (last_node.truenode, n.truenode)
-                falsenode_list = (last_node.falsenode, n.falsenode)
-                new_truenode_list = []
-                new_falsenode_list = []
-                pos = 0
-                for t in truenode_list:
-                    if t is None:
-                        new_truenode_list.append(DFUndefined(self.getWidth(falsenode_list[pos])))
-                    else:
-                        new_truenode_list.append(t)
-                    pos += 1
-
-                pos = 0
-                for f in falsenode_list:
-                    if f is None:
-                        new_falsenode_list.append(DFUndefined(self.getWidth(truenode_list[pos])))
-                    else:
-                        new_falsenode_list.append(f)
-                    pos += 1
-
-                new_node = DFBranch(last_node.condnode, DFConcat(
-                    tuple(new_truenode_list)), DFConcat(tuple(new_falsenode_list)))
+            elif (last_node.condnode == n.condnode and
+                  (last_node.truenode is None) == (n.truenode is None) and
+                  (last_node.falsenode is None) == (n.falsenode is None)):
+                # an absent branch keeps the value
+                truenode = None
+                if n.truenode is not None:
+                    truenode = DFConcat((last_node.truenode, n.truenode))
+                falsenode = None
+                if n.falsenode is not None:
+                    falsenode = DFConcat((last_node.falsenode, n.falsenode))
+                new_node = DFBranch(last_node.condnode, truenode, falsenode)
                 last_node = new_node
                 nodelist.pop()
                 nodelist.append(new_node)
-- 
2.43.0


From 791080512624f7d87dbe15ed9ec930fab8f69dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 054/132] fix: parts of a concatenation are cut at the right
 bits

---
 pyverilog/dataflow/optimizer.py | 99 ++++++++++++++-------------------
 1 file changed, 41 insertions(+), 58 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 9a6bcb9..58a05ee 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -487,7 +487,7 @@ class VerilogOptimizer(object):
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 return self.takePart(var.nextnodes, msb, lsb)
-            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and lsb.value == 0 and self.getWidth(var) == (msb.value + 1):
+            if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and self.isWhole(var, msb, lsb):
                 return var
             return DFPartselect(var, msb, lsb)
         if isinstance(tree, DFPointer):
@@ -509,6 +509,19 @@ class VerilogOptimizer(object):
 
         raise verror.FormatError('Can not merge due to unrecognized type of tree')
 
+    def isWhole(self, node, msb, lsb):
+        """ whether a range is all of a node """
+        if isinstance(node, DFTerminal):
+            term = self.getTerm(node.name)
+            if term.dims is not None:
+                return False
+            if term.msb is not None and term.lsb is not None:
+                left = self.optimizeConstant(term.msb)
+                right = self.optimizeConstant(term.lsb)
+                return (isinstance(left, DFEvalValue) and isinstance(right, DFEvalValue) and
+                        left.value == msb.value and right.value == lsb.value)
+        return lsb.value == 0 and self.getWidth(node) == (msb.value + 1)
+
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
 
@@ -520,66 +533,36 @@ class VerilogOptimizer(object):
         msbcut = max(msb.value, lsb.value)
         cutwidth = msbcut - lsbcut + 1
 
-        widsum = 0
-        widpos = 1
-        widoffset = 0
         usednodes = []
-        lsb = -1
-        msb = -1
-        lsboffset = -1
-        msboffset = -1
-        use = False
-        for w in widlist:  # from LSB
-            if lsbcut >= widoffset and lsbcut < widoffset + w:
-                lsb = widoffset
-                lsboffset = lsbcut - lsb
-                use = True
-            if use:
-                widsum += w
-                usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
-            if msbcut >= widoffset and msbcut < widoffset + w:
-                msb = widoffset + w - 1
-                msboffset = msb - msbcut
-                break
-            widpos += 1
-            widoffset += w
-
+        offset = 0
+        for n, w in zip(reversed(nextnodes), widlist):  # from LSB
+            low = max(lsbcut - offset, 0)
+            high = min(msbcut - offset, w - 1)
+            if low == 0 and high == w - 1:
+                usednodes.append(self.optimizeConstant(n))
+            elif low <= high:
+                usednodes.append(self.optimizeConstant(self.cutPart(n, high, low)))
+            offset += w
+        if msbcut >= offset:
+            usednodes.append(DFUndefined(min(msbcut - offset + 1, cutwidth)))
         usednodes.reverse()
-
-        if len(usednodes) == 0:
-            return DFUndefined(cutwidth)
-        if msboffset < 0:
-            if lsboffset == 0:
-                return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
-            if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-        if lsboffset == 0 and msboffset == 0:
-            if len(usednodes) == 1:
-                return usednodes[0]
-            return DFConcat(tuple(usednodes))
-
         if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
-
-        ret_usednodes = []
-        usednodes_cnt = 0
-        for node in reversed(usednodes):  # from LSB
-            if usednodes_cnt == 0 and lsboffset > 0:
-                lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
-                lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            else:
-                ret_usednodes.append(self.optimizeConstant(node))
-            usednodes_cnt += 1
-        ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+            return usednodes[0]
+        return DFConcat(tuple(usednodes))
+
+    def cutPart(self, node, msb, lsb):
+        """ bits of a node, counted from its least significant bit """
+        if isinstance(node, DFUndefined):
+            return DFUndefined(msb - lsb + 1)
+        if isinstance(node, DFTerminal) and not self.hasConstant(node.name):
+            term = self.getTerm(node.name)
+            left = self.optimizeConstant(term.msb)
+            right = self.optimizeConstant(term.lsb)
+            if isinstance(left, DFEvalValue) and isinstance(right, DFEvalValue):
+                if left.value < right.value:
+                    return DFPartselect(node, DFEvalValue(right.value - msb), DFEvalValue(right.value - lsb))
+                return DFPartselect(node, DFEvalValue(right.value + msb), DFEvalValue(right.value + lsb))
+        return DFPartselect(node, DFEvalValue(msb), DFEvalValue(lsb))
 
     def _isPowerOf2(self, value):
         if value <= 0:
-- 
2.43.0


From f7efbe49e254cd89a547927819c5732f51d12ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 055/132] fix: adjacent part selections are joined only in the
 direction of the signal

---
 pyverilog/dataflow/optimizer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 58a05ee..1fae2cf 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -522,6 +522,16 @@ class VerilogOptimizer(object):
                         left.value == msb.value and right.value == lsb.value)
         return lsb.value == 0 and self.getWidth(node) == (msb.value + 1)
 
+    def isDescending(self, node):
+        """ whether the most significant bit of a signal has the highest index """
+        term = self.getTerm(node.name)
+        if term.msb is None or term.lsb is None:
+            return True
+        left = self.optimizeConstant(term.msb)
+        right = self.optimizeConstant(term.lsb)
+        return (isinstance(left, DFEvalValue) and isinstance(right, DFEvalValue) and
+                left.value >= right.value)
+
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
 
@@ -672,10 +682,16 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif False in [isinstance(b, DFEvalValue) for b in (last_node.msb, last_node.lsb, n.msb, n.lsb)]:
+                pass
+            elif last_node.msb.value < last_node.lsb.value or n.msb.value < n.lsb.value:
+                pass
+            elif not self.isDescending(n.var):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-                if self.getWidth(last_node.var) == (last_node.msb.value - n.lsb.value + 1):
+                if self.isWhole(last_node.var, last_node.msb, n.lsb):
                     new_node = last_node.var
                 ret_nodes.append(new_node)
                 last_node = new_node
-- 
2.43.0


From d21a82f26b0bb1933aea558d3a783e94b889fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 056/132] fix: value and width of signed, unsized and
 hexadecimal literals

---
 pyverilog/dataflow/dataflow.py  | 60 +++++++++++++++------------------
 pyverilog/dataflow/optimizer.py |  4 +--
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index da85be2..84ef95e 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -150,41 +150,37 @@ class DFIntConst(DFConstant):
         ret = '(IntConst ' + str(self.value) + ')'
         return ret
 
+    bases = {'b': 2, 'o': 8, 'd': 10, 'h': 16}
+
+    def _parse(self):
+        """ size (or None), signedness, base and digits """
+        targ = ''.join(self.value.split()).replace('_', '').lower()
+        if "'" not in targ:
+            return None, True, 10, targ
+        size, digits = targ.split("'")
+        signed = digits[0] == 's'
+        if signed:
+            digits = digits[1:]
+        return (int(size, 10) if size else None), signed, self.bases[digits[0]], digits[1:]
+
     def eval(self):
-        targ = self.value.replace('_', '')
-        signed = False
-        match = re.search(r'[Ss](.+)', targ)
-        if match is not None:
-            signed = True
-        match = re.search(r'[Hh](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 16)
-        match = re.search(r'[Dd](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'[Oo](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 8)
-        match = re.search(r'[Bb](.+)', targ)
-        if match is not None:
-            return int(match.group(1), 2)
-        return int(targ, 10)
+        size, signed, base, digits = self._parse()
+        value = int(digits, base)
+        if "'" not in self.value:
+            return value
+        width = self.width()
+        value &= (1 << width) - 1
+        if signed and value >> (width - 1):
+            value -= 1 << width
+        return value
 
     def width(self):
-        targ = self.value.replace('_', '')
-        match = re.search(r'(.+)\'[Hh].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Dd].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Oo].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        match = re.search(r'(.+)\'[Bb].+', targ)
-        if match is not None:
-            return int(match.group(1), 10)
-        return 32
+        size, signed, base, digits = self._parse()
+        if size is not None:
+            return size
+        if set(digits) & set('xz?'):
+            return 32
+        return max(32, int(digits, base).bit_length())
 
 
 class DFFloatConst(DFConstant):
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 1fae2cf..f49a095 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -94,9 +94,7 @@ class VerilogOptimizer(object):
             # return tree
 
         if isinstance(tree, DFIntConst):
-            if 'x' in tree.value or 'z' in tree.value:
-                return DFUndefined(tree.width())
-            if 'X' in tree.value or 'Z' in tree.value:
+            if set(tree.value) & set('xXzZ?'):
                 return DFUndefined(tree.width())
             return DFEvalValue(tree.eval(), tree.width())
         if isinstance(tree, DFFloatConst):
-- 
2.43.0


From 4646021ca10780d90fce2414983f75d9094c4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 057/132] fix: concatenated branches are merged only if their
 values have the same width

---
 pyverilog/dataflow/optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index f49a095..fb3643c 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -700,6 +700,12 @@ class VerilogOptimizer(object):
             return ret_nodes[0]
         return DFConcat(tuple(ret_nodes))
 
+    def hasEvenWidth(self, branch):
+        """ whether both values of a branch have the same width """
+        if branch.truenode is None or branch.falsenode is None:
+            return True
+        return self.getWidth(branch.truenode) == self.getWidth(branch.falsenode)
+
     def mergeConcat_branch(self, concatnode):
         nodelist = []
         last_node = None
@@ -712,7 +718,8 @@ class VerilogOptimizer(object):
                 pass
             elif (last_node.condnode == n.condnode and
                   (last_node.truenode is None) == (n.truenode is None) and
-                  (last_node.falsenode is None) == (n.falsenode is None)):
+                  (last_node.falsenode is None) == (n.falsenode is None) and
+                  self.hasEvenWidth(last_node) and self.hasEvenWidth(n)):
                 # an absent branch keeps the value
                 truenode = None
                 if n.truenode is not None:
-- 
2.43.0


From 75aec45be52ca2975f23be0b2aba1d62402e7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 058/132] fix: the width of a branch without else is the width
 of its value

---
 pyverilog/dataflow/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index fb3643c..a5c3bc3 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -355,6 +355,10 @@ class VerilogOptimizer(object):
             return width
 
         if isinstance(node, DFBranch):
+            if node.truenode is None:
+                return self.getWidth(node.falsenode)
+            if node.falsenode is None:
+                return self.getWidth(node.truenode)
             truewidth = self.getWidth(node.truenode)
             falsewidth = self.getWidth(node.falsenode)
             return max(truewidth, falsewidth)
-- 
2.43.0


From 57cdc1daf5021cc971ecd1ee273535afe9a18e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 059/132] fix: reorder system calls, delays and selections
 whose bounds are conditional

---
 pyverilog/dataflow/reorder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..65072de 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -12,6 +12,7 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -59,8 +60,6 @@ def reorder(tree):
         resolved_msb = reorder(tree.msb)
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
-        if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -80,7 +79,10 @@ def reorder(tree):
     if isinstance(tree, DFDelay):
         return DFDelay(reorder(tree.nextnode))
 
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    if isinstance(tree, DFSyscall):
+        return DFSyscall(tree.syscall, tuple([reorder(n) for n in tree.nextnodes]))
+
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
 
 ############################################################################
 
-- 
2.43.0


From 6932a0df09859bae1f27b92d309c7a3b3b01f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 060/132] fix: leave a branch without one of its nodes below
 the operator or concatenation

---
 pyverilog/dataflow/reorder.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index 65072de..499fae1 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -87,6 +87,12 @@ def reorder(tree):
 ############################################################################
 
 
+def isFullBranch(tree):
+    # a branch without one of its nodes cannot be put over an operator:
+    # the operator would be applied to nothing
+    return isinstance(tree, DFBranch) and tree.truenode is not None and tree.falsenode is not None
+
+
 def insertBranch(base, truenode, falsenode):
     if isinstance(base, DFBranch):
         return DFBranch(base.condnode, insertBranch(base.truenode, truenode, falsenode), insertBranch(base.falsenode, truenode, falsenode))
@@ -94,15 +100,15 @@ def insertBranch(base, truenode, falsenode):
 
 
 def insertUnaryOp(base, op):
-    if isinstance(base, DFBranch):
+    if isFullBranch(base):
         return DFBranch(base.condnode, insertUnaryOp(base.truenode, op), insertUnaryOp(base.falsenode, op))
     return DFOperator((base,), op)
 
 
 def insertOp(left, right, op):
-    if isinstance(left, DFBranch):
+    if isFullBranch(left):
         return DFBranch(left.condnode, insertOp(left.truenode, right, op), insertOp(left.falsenode, right, op))
-    elif isinstance(right, DFBranch):
+    elif isFullBranch(right):
         return DFBranch(right.condnode, insertOp(left, right.truenode, op), insertOp(left, right.falsenode, op))
     return DFOperator((left, right), op)
 
@@ -112,7 +118,7 @@ def insertOpList(nextnodes, op):
     restnodes = list(nextnodes)
     for n in nextnodes:
         restnodes.pop(0)
-        if isinstance(n, DFBranch):
+        if isFullBranch(n):
             return DFBranch(n.condnode, insertOpList(tuple(donenodes + [n.truenode, ] + restnodes), op), insertOpList(tuple(donenodes + [n.falsenode, ] + restnodes), op))
         donenodes.append(n)
     return DFOperator(nextnodes, op)
@@ -123,7 +129,7 @@ def insertConcat(nextnodes):
     restnodes = list(nextnodes)
     for n in nextnodes:
         restnodes.pop(0)
-        if isinstance(n, DFBranch):
+        if isFullBranch(n):
             return DFBranch(n.condnode, insertConcat(tuple(donenodes + [n.truenode, ] + restnodes)), insertConcat(tuple(donenodes + [n.falsenode, ] + restnodes)))
         donenodes.append(n)
     return DFConcat(nextnodes)
-- 
2.43.0


From 5baddde94c9af07ecc7a3cbefbe70389fa399752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 061/132] fix: replaceUndefined keeps undefined parts of a
 concatenation and accepts every kind of node

---
 pyverilog/dataflow/replace.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index de4ac8b..238ec40 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 
+import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
@@ -19,7 +20,8 @@ def replaceUndefined(tree, termname):
         return DFTerminal(termname)
     if isinstance(tree, DFUndefined):
         return DFTerminal(termname)
-    # if isinstance(tree, DFHighImpedance): return DFTerminal(termname)
+    if isinstance(tree, DFHighImpedance):
+        return tree
     if isinstance(tree, DFConstant):
         return tree
     if isinstance(tree, DFEvalValue):
@@ -48,6 +50,17 @@ def replaceUndefined(tree, termname):
     if isinstance(tree, DFConcat):
         nextnodes = []
         for n in tree.nextnodes:
+            if isinstance(n, DFUndefined):
+                # some of the bits, not the whole of the terminal
+                nextnodes.append(n)
+                continue
             nextnodes.append(replaceUndefined(n, termname))
         return DFConcat(tuple(nextnodes))
-    raise DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
+    if isinstance(tree, DFDelay):
+        return DFDelay(replaceUndefined(tree.nextnode, termname))
+    if isinstance(tree, DFSyscall):
+        nextnodes = []
+        for n in tree.nextnodes:
+            nextnodes.append(replaceUndefined(n, termname))
+        return DFSyscall(tree.syscall, tuple(nextnodes))
+    raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
-- 
2.43.0


From 8efa25255ade8c881e7ea986e6b8ee9433c20178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 062/132] fix: an unconditional later assignment replaces the
 conditional earlier one when merged

---
 pyverilog/dataflow/merge.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..2311b0e 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -376,9 +376,7 @@ class VerilogDataflowMerge(object):
             return second
 
         if isinstance(first, DFBranch) and not isinstance(second, DFBranch):
-            cond_fst = self.optimizer.optimize(first.condnode)
-            appended = copy.deepcopy(second)
-            return DFBranch(cond_fst, self.appendTail(appended, first.truenode), self.appendTail(appended, first.falsenode))
+            return second
         if not isinstance(first, DFBranch) and isinstance(second, DFBranch):
             cond_snd = self.optimizer.optimize(second.condnode)
             appended = copy.deepcopy(first)
-- 
2.43.0


From 0d426598356277cd01ca4da3b45126517fd992ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 063/132] fix: leave an index that is a branch without one of
 its nodes in place

---
 pyverilog/dataflow/reorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index 499fae1..a50c9e3 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -67,7 +67,7 @@ def reorder(tree):
     if isinstance(tree, DFPointer):
         resolved_ptr = reorder(tree.ptr)
         resolved_var = reorder(tree.var)
-        if isinstance(resolved_ptr, DFBranch):
+        if isFullBranch(resolved_ptr):
             # raise FormatError('PTR should not be DFBranch')n
             return DFBranch(resolved_ptr.condnode,
                             reorder(DFPointer(resolved_var, resolved_ptr.truenode)),
-- 
2.43.0


From ee5904fc418827e5c994c67c7cbc2519e4c752f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 064/132] fix: unary plus has a mark and an order

---
 pyverilog/utils/op2mark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/op2mark.py b/pyverilog/utils/op2mark.py
index e97c2da..d423d86 100644
--- a/pyverilog/utils/op2mark.py
+++ b/pyverilog/utils/op2mark.py
@@ -8,7 +8,7 @@
 # -------------------------------------------------------------------------------
 
 operator_mark = {
-    'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
+    'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
     'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^',
     'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%',
     'Plus': '+', 'Minus': '-',
@@ -27,7 +27,7 @@ def op2mark(op):
 
 
 operator_order = {
-    'Uminus': 0, 'Ulnot': 0, 'Unot': 0, 'Uand': 0, 'Unand': 0,
+    'Uplus': 0, 'Uminus': 0, 'Ulnot': 0, 'Unot': 0, 'Uand': 0, 'Unand': 0,
     'Uor': 0, 'Unor': 0, 'Uxor': 0, 'Uxnor': 0,
     'Power': 1,
     'Times': 2, 'Divide': 2, 'Mod': 2,
-- 
2.43.0


From 7ef70fbb047b86b861220406d6a29c3d9d8129cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 065/132] fix: width of an indexed part select

---
 pyverilog/dataflow/optimizer.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index a5c3bc3..eafb4ff 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -364,10 +364,11 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
-            msb = self.optimizeConstant(node.msb).value
-            lsb = self.optimizeConstant(node.lsb).value
-            width = abs(msb - lsb) + 1
-            return width
+            msb_terms, msb = self.getLinear(node.msb)
+            lsb_terms, lsb = self.getLinear(node.lsb)
+            if sorted(msb_terms) != sorted(lsb_terms):
+                return self.default_width
+            return abs(msb - lsb) + 1
         if isinstance(node, DFOperator):
             if node.operator in self.compare_ops:
                 return 1
@@ -404,6 +405,21 @@ class VerilogOptimizer(object):
 
         raise verror.FormatError('Illegal Pointer in getWidth()')
 
+    def getLinear(self, node):
+        """ a bound as (variable terms, constant): the bounds of an indexed part select
+        have the same variable terms """
+        node = self.optimizeConstant(node)
+        if isinstance(node, DFEvalValue):
+            return [], node.value
+        if isinstance(node, DFOperator) and node.operator in ('Plus', 'Minus') and len(node.nextnodes) == 2:
+            left_terms, left = self.getLinear(node.nextnodes[0])
+            right_terms, right = self.getLinear(node.nextnodes[1])
+            if node.operator == 'Plus':
+                return left_terms + right_terms, left + right
+            if not right_terms:
+                return left_terms, left - right
+        return [node.tostr()], 0
+
     def evalConcat(self, nextnodes):
         concatval = 0
         sum_width = 0
-- 
2.43.0


From 0470e91f203892579f180ad17b3d818c2894761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 066/132] fix: a condition that is itself conditional no longer
 fails to be analysed

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..2810724 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1028,7 +1028,7 @@ class BindVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..98e0416 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -500,7 +500,7 @@ class SignalVisitor(NodeVisitor):
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
             if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
+                return reorder.insertBranch(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From c0603913cd4b4b69b164a0e5fab87f3312225d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 067/132] fix: an assignment under nested conditions keeps the
 earlier value where any of them does not hold

---
 pyverilog/dataflow/bindvisitor.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2810724..28cff16 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1501,10 +1501,7 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1531,25 +1528,14 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, rest=None):
+        # rest is what holds wherever one of the conditions does not
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
-        if len(condlist) == 1:
-            if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
-            else:
-                return DFBranch(condlist[0], None, node)
-        else:
-            if flowlist[0]:
-                return DFBranch(
-                    condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
-            else:
-                return DFBranch(
-                    condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+        next_tree = self.makeBranchTree(condlist[1:], flowlist[1:], node, rest)
+        if flowlist[0]:
+            return DFBranch(condlist[0], next_tree, rest)
+        return DFBranch(condlist[0], rest, next_tree)
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From bd36ef1dec39e565eb96c6f147fcdac247f8d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 068/132] fix: a part of a blocking assignment to a
 concatenation is not selected twice

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 28cff16..038f9e5 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1462,7 +1462,7 @@ class BindVisitor(NodeVisitor):
             renamed_term = DFTerminal(renamed_dst[term_i][0])
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
-- 
2.43.0


From 01a946e0aa247de2a6315bce13b2430f6bf76515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 069/132] fix: the value of a variable in one branch is not
 that of another branch

---
 pyverilog/dataflow/visit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index da67da3..a946b3c 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -487,13 +487,16 @@ class Frame(object):
         return self.modulename
 
     def setBlockingAssign(self, dst, bind):
+        # a copy: the bind itself also stands in the dataflow, where later
+        # assignments, in other branches as well, change its tree
+        bind = copy.copy(bind)
         if not dst in self.blockingassign:
             self.blockingassign[dst] = (bind,)
             return
         current = self.blockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
-                self.blockingassign[dst][c_i].tree = bind.tree
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
+                self.blockingassign[dst] = current[:c_i] + (bind,) + current[c_i + 1:]
                 return
         self.blockingassign[dst] = current + (bind,)
 
@@ -511,7 +514,7 @@ class Frame(object):
             return
         current = self.nonblockingassign[dst]
         for c_i, c in enumerate(current):
-            if c.msb == bind.msb and c.msb == bind.msb and c.ptr == bind.ptr:
+            if c.msb == bind.msb and c.lsb == bind.lsb and c.ptr == bind.ptr:
                 self.nonblockingassign[dst][c_i].tree = copy.deepcopy(bind.tree)
                 return
         self.nonblockingassign[dst] = current + (copy.deepcopy(bind),)
-- 
2.43.0


From 24c0ab5ba6bee91d1fdc7f6722e9cdbe41a32ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 070/132] fix: casez and unique case statements are analysed
 like the other case statements

---
 pyverilog/dataflow/bindvisitor.py   | 6 ++++++
 pyverilog/dataflow/signalvisitor.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 038f9e5..f606dec 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -375,6 +375,12 @@ class BindVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist, myframes):
         if len(caselist) == 0:
             return
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 98e0416..6963dc3 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -231,6 +231,12 @@ class SignalVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist):
         if len(caselist) == 0:
             return
-- 
2.43.0


From 0721eef7ffefc8e4c16a4467d82defbdad43ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 071/132] fix: a default case item that is not the last no
 longer hides the items after it

---
 pyverilog/dataflow/bindvisitor.py   | 4 +++-
 pyverilog/dataflow/signalvisitor.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index f606dec..a329419 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -367,7 +367,9 @@ class BindVisitor(NodeVisitor):
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, node.caselist, caseframes)
+        # the default item is taken last, wherever it stands
+        caselist = sorted(node.caselist, key=lambda c: c.cond is None)
+        self._case(node.comp, caselist, caseframes)
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 6963dc3..3a7de0e 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -225,7 +225,9 @@ class SignalVisitor(NodeVisitor):
 
     def visit_CaseStatement(self, node):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, node.caselist)
+        # the default item is taken last, wherever it stands
+        caselist = sorted(node.caselist, key=lambda c: c.cond is None)
+        self._case(node.comp, caselist)
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
-- 
2.43.0


From be027988eb481288eb2e8a387965eb364022f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 072/132] fix: a target with an ascending range in a
 concatenation takes the right bits

---
 pyverilog/dataflow/bindvisitor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index a329419..a1291b7 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1320,7 +1320,12 @@ class BindVisitor(NodeVisitor):
 
             if msb is None and lsb is None:
                 msb, lsb = self.getTermWidth(name)
-            diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
+            left_value, right_value = self.optimize(msb), self.optimize(lsb)
+            if (isinstance(left_value, DFEvalValue) and isinstance(right_value, DFEvalValue) and
+                    left_value.value < right_value.value):  # ascending range
+                diff = reorder.reorder(DFOperator((lsb, msb), 'Minus'))
+            else:
+                diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
             part_lsb = part_offset
             part_msb = reorder.reorder(DFOperator((part_offset, diff), 'Plus'))
             part_offset = reorder.reorder(
-- 
2.43.0


From 78ee108f2b6e04c463ac5eb83c47a6378e8cc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 073/132] fix: assignments in a function called by a continuous
 assignment see the earlier ones

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 pyverilog/dataflow/visit.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index a1291b7..00b2199 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -547,7 +547,7 @@ class BindVisitor(NodeVisitor):
 
         self.generic_visit(node)
         self.frames.setCurrent(current)
-        if self.frames.isAlways():
+        if self.frames.isAlways() or self.frames.isFunctioncall():
             self.copyBlockingAssigns(current + ScopeLabel(label, 'block'), current)
 
     def visit_Assign(self, node):
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index a946b3c..b075476 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -787,7 +787,7 @@ class FrameTable(object):
 
     def getBlockingAssign(self, dst, scope):
         p = scope
-        while self.dict[p].isAlways():
+        while self.dict[p].isAlways() or self.dict[p].isFunctioncall():
             ret = self.dict[p].getBlockingAssign(dst)
             if ret:
                 return ret
-- 
2.43.0


From 078ebc1d900bc02b383ef5026a9c911185383f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 074/132] fix: a whole variable in a concatenated target is
 assigned as a whole

---
 pyverilog/dataflow/bindvisitor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 00b2199..af16c87 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1318,14 +1318,15 @@ class BindVisitor(NodeVisitor):
                 ret.append((name, msb, lsb, ptr, None, None))
                 continue
 
+            range_msb, range_lsb = msb, lsb
             if msb is None and lsb is None:
-                msb, lsb = self.getTermWidth(name)
-            left_value, right_value = self.optimize(msb), self.optimize(lsb)
+                range_msb, range_lsb = self.getTermWidth(name)
+            left_value, right_value = self.optimize(range_msb), self.optimize(range_lsb)
             if (isinstance(left_value, DFEvalValue) and isinstance(right_value, DFEvalValue) and
                     left_value.value < right_value.value):  # ascending range
-                diff = reorder.reorder(DFOperator((lsb, msb), 'Minus'))
+                diff = reorder.reorder(DFOperator((range_lsb, range_msb), 'Minus'))
             else:
-                diff = reorder.reorder(DFOperator((msb, lsb), 'Minus'))
+                diff = reorder.reorder(DFOperator((range_msb, range_lsb), 'Minus'))
             part_lsb = part_offset
             part_msb = reorder.reorder(DFOperator((part_offset, diff), 'Plus'))
             part_offset = reorder.reorder(
-- 
2.43.0


From 5afeeac7fd2c2b13c9a962a19710c61d8a813780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 075/132] fix: the unassigned bits below a part have a width
 that is not negative

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index af16c87..ccc10ce 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1303,7 +1303,7 @@ class BindVisitor(NodeVisitor):
                             else bind.ptr.value):
                 continue
             if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
+                concatlist.append(DFUndefined(lsb - last_msb - 1))
             concatlist.append(bind.tree)
             last_msb = -1 if bind.msb is None else bind.msb.value
             last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
-- 
2.43.0


From 229f95e3d7339e26241f170a3db6ee7333b8f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 076/132] fix: always_ff, always_comb and always_latch are
 analysed like always

---
 pyverilog/dataflow/bindvisitor.py   | 9 +++++++++
 pyverilog/dataflow/modulevisitor.py | 9 +++++++++
 pyverilog/dataflow/signalvisitor.py | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index ccc10ce..8c2eb29 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -231,6 +231,15 @@ class BindVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        self.visit_Always(node)
+
     def _get_signal_name(self, n):
         if isinstance(n, Identifier):
             return n.name
diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 3d24200..f579ef4 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -53,6 +53,15 @@ class ModuleVisitor(NodeVisitor):
     def visit_Always(self, node):
         pass
 
+    def visit_AlwaysFF(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        self.visit_Always(node)
+
     def visit_Initial(self, node):
         pass
 
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 3a7de0e..f11338b 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -166,6 +166,15 @@ class SignalVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        self.visit_Always(node)
+
     def visit_IfStatement(self, node):
 
         if (self.frames.isGenerate()
-- 
2.43.0


From e1e02944b75e5dc1d71f43bf72a77f83797a37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 077/132] fix: a conditional nonblocking assignment to a
 concatenation selects from its source, not from the merged value

---
 pyverilog/dataflow/bindvisitor.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 8c2eb29..494f589 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1418,9 +1418,12 @@ class BindVisitor(NodeVisitor):
                     alwaysinfo=None, bindtype=None):
 
         for name, msb, lsb, ptr, part_msb, part_lsb in dst:
+            tree = raw_tree
+            if len(dst) > 1:
+                tree = reorder.reorder(
+                    DFPartselect(raw_tree, part_msb, part_lsb))
             bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                 raw_tree, condlist, flowlist,
-                                 num_dst=len(dst),
+                                 tree, condlist, flowlist,
                                  alwaysinfo=alwaysinfo,
                                  bindtype=bindtype)
 
@@ -1492,7 +1495,7 @@ class BindVisitor(NodeVisitor):
 
     def makeBind(self, name, msb, lsb, ptr, part_msb, part_lsb,
                  raw_tree, condlist, flowlist,
-                 num_dst=1, alwaysinfo=None, bindtype=None):
+                 alwaysinfo=None, bindtype=None):
 
         current_bindlist = self.getBindlist(name)
         current_tree = None
@@ -1529,10 +1532,6 @@ class BindVisitor(NodeVisitor):
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
-- 
2.43.0


From 68ce5a92b6729066ad8a1cd044e27d4ce90c9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 078/132] fix: an instance of a module whose parameters have
 ranges is analysed

---
 pyverilog/dataflow/signalvisitor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index f11338b..5b011fe 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -388,9 +388,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError("Multiple definitions for Constant")
             for definition in definitions:
                 simple_definition = copy.deepcopy(definition)
-                if simple_definition.width is not None:
-                    simple_definition.width.msb = None
-                    simple_definition.width.lsb = None
+                simple_definition.width = None
                 term = self.makeConstantTerm(name, simple_definition, current)
                 self.setConstantTerm(name, term)
 
-- 
2.43.0


From 17150e3149668a2cdc9b36cbcee866a8d1425a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 079/132] fix: an output port connected to a concatenation
 drives its parts

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 494f589..fa58e7f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1348,7 +1348,7 @@ class BindVisitor(NodeVisitor):
     def getDsts(self, left, scope):
         if isinstance(left, Lvalue):
             return self.getDsts(left.var, scope)
-        if isinstance(left, LConcat):
+        if isinstance(left, Concat):  # LConcat, or Concat connected to an output port
             dst = []
             for n in left.list:
                 dst.extend(list(self.getDsts(n, scope)))
-- 
2.43.0


From cbd4a9312de8a1d50adc78896cfde45483be6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 080/132] fix: a supply net is one bit wide

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index fa58e7f..5287e86 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -877,7 +877,7 @@ class BindVisitor(NodeVisitor):
             termtype = 'Task'
         termtypes = set([termtype])
 
-        if isinstance(node, (Parameter, Localparam)):
+        if isinstance(node, Parameter) and not isinstance(node, Supply):
             msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
         else:
             msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-- 
2.43.0


From 70973cd9c38ab8051a438347b7932529365ff9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 081/132] fix: the last port of buf and not gates is the input,
 the others are outputs

---
 pyverilog/dataflow/bindvisitor.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 5287e86..9fae01f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -190,21 +190,23 @@ class BindVisitor(NodeVisitor):
 
     def _visit_Instance_primitive(self, node, arrayindex=None):
         primitive_type = primitives[node.module]
-        left = node.portlist[0].argname
-        if arrayindex is not None:
-            left = Pointer(left, IntConst(str(arrayindex)))
-        right = None
-        if primitive_type == None:
-            right = (Pointer(node.portlist[1].argname, IntConst('0')) if arrayindex is None else
-                     Pointer(node.portlist[1].argname, IntConst(str(arrayindex))))
-        elif primitive_type == Unot:
-            right = (Ulnot(Pointer(node.portlist[1].argname, IntConst('0'))) if arrayindex is None else
-                     Ulnot(Pointer(node.portlist[1].argname, IntConst(str(arrayindex)))))
+        args = [p.argname for p in node.portlist]
+        bit = IntConst('0') if arrayindex is None else IntConst(str(arrayindex))
+        if primitive_type in (None, Unot):  # any number of outputs, then the input
+            outputs, inputs = args[:-1], args[-1:]
         else:
-            concat_list = ([Pointer(p.argname, IntConst('0')) for p in node.portlist[1:]] if arrayindex is None else
-                           [Pointer(p.argname, IntConst(str(arrayindex))) for p in node.portlist[1:]])
-            right = primitive_type(Concat(concat_list))
-        self.addBind(left, right, bindtype='assign')
+            outputs, inputs = args[:1], args[1:]
+        inputs = [Pointer(arg, bit) for arg in inputs]
+        if primitive_type is None:
+            right = inputs[0]
+        elif primitive_type is Unot:
+            right = Ulnot(inputs[0])
+        else:
+            right = primitive_type(Concat(inputs))
+        for left in outputs:
+            if arrayindex is not None:
+                left = Pointer(left, bit)
+            self.addBind(left, right, bindtype='assign')
 
     def visit_Initial(self, node):
         pass
-- 
2.43.0


From eb6c61266f18d7334241f980f2286f30707a0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 082/132] fix: a negative generate or loop condition is true

---
 pyverilog/dataflow/bindvisitor.py   | 6 +++---
 pyverilog/dataflow/signalvisitor.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 9fae01f..2f0de24 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -307,7 +307,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
 
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
                 if node.true_statement is not None:
                     self.copyBlockingAssigns(current + ScopeLabel(label, 'if'), current)
@@ -471,7 +471,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
@@ -515,7 +515,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError(("Can not process the while-statement. "
                                           "while-condition should be evaluated statically."))
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 5b011fe..0bf1866 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -187,7 +187,7 @@ class SignalVisitor(NodeVisitor):
             rslt = self.optimize(tree)
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
             else:
                 label = self.labels.get(self.frames.getLabelKey('if'))
@@ -305,7 +305,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError(("Can not process the for-statement. "
                                           "for-condition should be evaluated statically."))
             # loop termination
-            if rslt.value <= 0:
+            if rslt.value == 0:
                 break
 
             # main-statement
-- 
2.43.0


From 0f33d576af6838b3538725f1e8a13c722f3a4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 083/132] fix: declarations in a generate loop have the width
 of their own iteration

---
 pyverilog/dataflow/bindvisitor.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 2f0de24..77411ef 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -880,17 +880,17 @@ class BindVisitor(NodeVisitor):
         termtypes = set([termtype])
 
         if isinstance(node, Parameter) and not isinstance(node, Supply):
-            msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
+            msb = DFIntConst('31') if node.width is None else self.makeBoundTree(node.width.msb, scope)
         else:
-            msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-        lsb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.lsb, scope)
+            msb = DFIntConst('0') if node.width is None else self.makeBoundTree(node.width.msb, scope)
+        lsb = DFIntConst('0') if node.width is None else self.makeBoundTree(node.width.lsb, scope)
 
         dims = None
         if node.dimensions is not None:
             dims = []
             for length in node.dimensions.lengths:
-                l = self.makeDFTree(length.msb, scope)
-                r = self.makeDFTree(length.lsb, scope)
+                l = self.makeBoundTree(length.msb, scope)
+                r = self.makeBoundTree(length.lsb, scope)
                 dims.append((l, r))
             dims = tuple(dims)
 
@@ -898,6 +898,13 @@ class BindVisitor(NodeVisitor):
         self.dataflow.addTerm(name, term)
         self.setConstantTerm(name, term)
 
+    def makeBoundTree(self, node, scope):
+        tree = self.makeDFTree(node, scope)
+        for label in scope.scopechain:
+            if label.scopeloop is not None:  # the loop variable has another value later
+                return self.optimize(tree)
+        return tree
+
     def addBind(self, left, right, alwaysinfo=None, bindtype=None):
         if self.frames.isFunctiondef() and not self.frames.isFunctioncall():
             return
-- 
2.43.0


From 008e76d7011018e76e99b1958f1386b5ed31679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 084/132] fix: a constant declared with a range is cut to it,
 and constants that depend on overridden parameters are recomputed

---
 pyverilog/dataflow/bindvisitor.py   | 41 ++++++++++++++++++-----------
 pyverilog/dataflow/optimizer.py     | 11 ++++++++
 pyverilog/dataflow/signalvisitor.py | 24 ++++++++++++-----
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 77411ef..a7622a5 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -89,7 +89,7 @@ class BindVisitor(NodeVisitor):
         name = current + ScopeLabel(node.name, 'signal')
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, current))
-            self.setConstant(name, value)
+            self.setDeclaredConstant(name, value, node, current)
 
         if len(self.dataflow.getBindlist(name)) == 0:
             self.addBind(node.name, node.value, bindtype='parameter')
@@ -106,7 +106,7 @@ class BindVisitor(NodeVisitor):
         name = current + ScopeLabel(node.name, 'signal')
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, current))
-            self.setConstant(name, value)
+            self.setDeclaredConstant(name, value, node, current)
 
         self.addBind(node.name, node.value, bindtype='localparam')
 
@@ -157,23 +157,23 @@ class BindVisitor(NodeVisitor):
         if nodename == '':
             raise verror.FormatError("Module %s requires an instance name" % node.module)
 
-        current = self.stackInstanceFrame(nodename, node.module)
-
-        scope = self.frames.getCurrent()
+        current = self.frames.getCurrent()
+        scope = current + ScopeLabel(nodename, 'module')
 
+        given = {}
         paramnames = self.moduleinfotable.getParamNames(node.module)
         for paramnames_i, param in enumerate(node.parameterlist):
-            self.addInstanceParameterBind(param, paramnames[paramnames_i])
-            value = self.optimize(self.getTree(param.argname, current))
             paramname = paramnames[paramnames_i] if param.paramname is None else param.paramname
             if paramname not in paramnames:
                 raise verror.FormatError("No such parameter: %s in %s" %
                                          (paramname, nodename))
             name = scope + ScopeLabel(paramname, 'signal')
-            self.setConstant(name, value)
-            definition = Parameter(paramname, str(value.value))
-            term = self.makeConstantTerm(name, definition, current)
-            self.setConstantTerm(name, term)
+            given[name] = self.optimize(self.getTree(param.argname, current))
+
+        self.stackInstanceFrame(nodename, node.module, given)
+
+        for paramnames_i, param in enumerate(node.parameterlist):
+            self.addInstanceParameterBind(param, paramnames[paramnames_i])
 
         ioports = self.moduleinfotable.getIOPorts(node.module)
         for ioport_i, port in enumerate(node.portlist):
@@ -581,10 +581,10 @@ class BindVisitor(NodeVisitor):
     def optimize(self, node):
         return self.optimizer.optimize(node)
 
-    def stackInstanceFrame(self, instname, modulename):
+    def stackInstanceFrame(self, instname, modulename, given={}):
         current = self.frames.getCurrent()
         self.frames.setCurrent(current + ScopeLabel(instname, 'module'))
-        self.copyFrameInfo(current + ScopeLabel(instname, 'module'))
+        self.copyFrameInfo(current + ScopeLabel(instname, 'module'), given)
         return current
 
     def stackNextFrame(self, label, scopetype,
@@ -609,7 +609,7 @@ class BindVisitor(NodeVisitor):
         self.copyFrameInfo(new_current)
         return current
 
-    def copyFrameInfo(self, current):
+    def copyFrameInfo(self, current, given={}):
         for name, definitions in self.frames.getConsts(current).items():
             if len(definitions) > 1:
                 raise verror.FormatError("Multiple definitions for Constant")
@@ -637,11 +637,13 @@ class BindVisitor(NodeVisitor):
                 for definition in definitions:
                     if isinstance(definition, Genvar):
                         continue
-                    value = self.optimize(self.getTree(definition.value, current))
+                    value = given.get(name)
+                    if value is None:
+                        value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
                         all_passed = False
                         continue
-                    self.setConstant(name, value)
+                    self.setDeclaredConstant(name, value, definition, current)
 
     def copyAllFrameInfo(self):
         for name, definitions in self.frames.getAllConsts().items():
@@ -690,6 +692,13 @@ class BindVisitor(NodeVisitor):
             for bind in bindlist:
                 self.frames.setBlockingAssign(name, bind, scope_copy_to)
 
+    def setDeclaredConstant(self, name, value, definition, scope):
+        if definition.width is not None:
+            msb = self.optimize(self.getTree(definition.width.msb, scope))
+            lsb = self.optimize(self.getTree(definition.width.lsb, scope))
+            value = self.optimizer.fitConstant(value, msb, lsb, definition.signed)
+        self.setConstant(name, value)
+
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
 
diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index eafb4ff..64f3d25 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -54,6 +54,17 @@ class VerilogOptimizer(object):
     def getConstlist(self):
         return self.constlist
 
+    def fitConstant(self, value, msb, lsb, signed=False):
+        """ value of a constant that is declared with the range [msb:lsb] """
+        if (not isinstance(value, DFEvalValue) or value.isfloat or value.isstring or
+                not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue)):
+            return value
+        width = abs(msb.value - lsb.value) + 1
+        rslt = value.value & ((1 << width) - 1)
+        if signed and rslt >> (width - 1):
+            rslt -= 1 << width
+        return DFEvalValue(rslt, width)
+
     def setTerm(self, name, term):
         self.terms[name] = term
 
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 0bf1866..eeb4cde 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -67,14 +67,14 @@ class SignalVisitor(NodeVisitor):
         name = self.frames.getCurrent() + ScopeLabel(node.name, 'signal')
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, self.frames.getCurrent()))
-            self.setConstant(name, value)
+            self.setDeclaredConstant(name, value, node, self.frames.getCurrent())
 
     def visit_Localparam(self, node):
         self.frames.addConst(node)
         name = self.frames.getCurrent() + ScopeLabel(node.name, 'signal')
         if not self.hasConstant(name):
             value = self.optimize(self.getTree(node.value, self.frames.getCurrent()))
-            self.setConstant(name, value)
+            self.setDeclaredConstant(name, value, node, self.frames.getCurrent())
 
     def visit_Genvar(self, node):
         self.frames.addConst(node)
@@ -139,6 +139,7 @@ class SignalVisitor(NodeVisitor):
 
         scope = self.frames.getCurrent()
 
+        given = {}
         paramnames = self.moduleinfotable.getParamNames(node.module)
         for paramnames_i, param in enumerate(node.parameterlist):
             paramname = paramnames[paramnames_i] if param.paramname is None else param.paramname
@@ -147,9 +148,9 @@ class SignalVisitor(NodeVisitor):
                                          (paramname, nodename))
             value = self.optimize(self.getTree(param.argname, current))
             name, definition = self.searchConstantDefinition(scope, paramname)
-            self.setConstant(name, value)
+            given[name] = value
 
-        self.setInstanceConstants()
+        self.setInstanceConstants(given)
         self.setInstanceConstantTerms()
 
         self.visit(self.moduleinfotable.getDefinition(node.module))
@@ -401,7 +402,7 @@ class SignalVisitor(NodeVisitor):
                 term = self.makeConstantTerm(name, definition, current)
                 self.setConstantTerm(name, term)
 
-    def setInstanceConstants(self):
+    def setInstanceConstants(self, given={}):
         current = self.frames.getCurrent()
 
         all_passed = False
@@ -417,12 +418,21 @@ class SignalVisitor(NodeVisitor):
                 for definition in definitions:
                     if isinstance(definition, Genvar):
                         continue
-                    value = self.optimize(self.getTree(definition.value, current))
+                    value = given.get(name)
+                    if value is None:
+                        value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
                         all_passed = False
                         continue
 
-                    self.setConstant(name, value)
+                    self.setDeclaredConstant(name, value, definition, current)
+
+    def setDeclaredConstant(self, name, value, definition, scope):
+        if definition.width is not None:
+            msb = self.optimize(self.getTree(definition.width.msb, scope))
+            lsb = self.optimize(self.getTree(definition.width.lsb, scope))
+            value = self.optimizer.fitConstant(value, msb, lsb, definition.signed)
+        self.setConstant(name, value)
 
     def setConstant(self, name, value):
         self.optimizer.setConstant(name, value)
-- 
2.43.0


From 6ccd325c208eb1a936cba392c9c8bb3697810ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:04 +0000
Subject: [PATCH 085/132] fix: instance arrays connect slices by the width of
 the port, in either direction, or broadcast

---
 pyverilog/dataflow/bindvisitor.py   | 91 ++++++++++++++++++++++-------
 pyverilog/dataflow/signalvisitor.py |  2 +-
 2 files changed, 71 insertions(+), 22 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index a7622a5..e7b7ec1 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -144,11 +144,61 @@ class BindVisitor(NodeVisitor):
         current = self.frames.getCurrent()
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
-        num_of_pins = msb + 1 - lsb
-
-        for i in range(lsb, msb + 1):
-            nodename = node.name + '_' + str(i)
-            self._visit_Instance_body(node, nodename, arrayindex=i)
+        step = 1 if lsb <= msb else -1
+        count = abs(msb - lsb) + 1
+
+        # the rightmost instance takes the lowest bits
+        for position in range(count):
+            nodename = node.name + '_' + str(lsb + position * step)
+            self._visit_Instance_body(node, nodename, arrayindex=position)
+
+    def _getArrayPortArg(self, arg, portwidth, arrayindex, scope):
+        """ the part of a connected signal that an instance in an array takes """
+        if arrayindex is None:
+            return arg
+        msb, lsb = self._getArgRange(arg, scope)
+        if msb is not None and abs(msb - lsb) + 1 == portwidth:
+            return arg  # every instance takes all of it
+        step = -1 if msb is not None and msb < lsb else 1
+        low = (0 if lsb is None else lsb) + arrayindex * portwidth * step
+        high = low + (portwidth - 1) * step
+        if isinstance(arg, Partselect):
+            arg = arg.var
+        if portwidth == 1:
+            return Pointer(arg, IntConst(str(low)))
+        return Partselect(arg, IntConst(str(high)), IntConst(str(low)))
+
+    def _getArgRange(self, arg, scope):
+        if isinstance(arg, Identifier) and arg.scope is None:
+            name = arg.name
+            key, definitions = self.frames.searchSignalDefinition(scope, name)
+            return self._getDeclaredRange(definitions, scope)
+        if isinstance(arg, Pointer):
+            if not isinstance(arg.var, Identifier):
+                return (None, None)
+            key, definitions = self.frames.searchSignalDefinition(scope, arg.var.name)
+            for definition in definitions or ():
+                if definition.dimensions is not None:
+                    return self._getDeclaredRange(definitions, scope)
+            return (0, 0)
+        if isinstance(arg, Partselect):
+            return self._evalRange(arg.msb, arg.lsb, scope)
+        return (None, None)
+
+    def _getDeclaredRange(self, definitions, scope):
+        if definitions is None:
+            return (None, None)
+        for definition in definitions:
+            if definition.width is not None:
+                return self._evalRange(definition.width.msb, definition.width.lsb, scope)
+        return (0, 0)
+
+    def _evalRange(self, msb, lsb, scope):
+        msb = self.optimize(self.getTree(msb, scope))
+        lsb = self.optimize(self.getTree(lsb, scope))
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return (None, None)
+        return (msb.value, lsb.value)
 
     def _visit_Instance_body(self, node, nodename, arrayindex=None):
         if node.module in primitives:
@@ -191,12 +241,15 @@ class BindVisitor(NodeVisitor):
     def _visit_Instance_primitive(self, node, arrayindex=None):
         primitive_type = primitives[node.module]
         args = [p.argname for p in node.portlist]
-        bit = IntConst('0') if arrayindex is None else IntConst(str(arrayindex))
         if primitive_type in (None, Unot):  # any number of outputs, then the input
             outputs, inputs = args[:-1], args[-1:]
         else:
             outputs, inputs = args[:1], args[1:]
-        inputs = [Pointer(arg, bit) for arg in inputs]
+        current = self.frames.getCurrent()
+        if arrayindex is None:
+            inputs = [Pointer(arg, IntConst('0')) for arg in inputs]
+        else:
+            inputs = [self._getArrayPortArg(arg, 1, arrayindex, current) for arg in inputs]
         if primitive_type is None:
             right = inputs[0]
         elif primitive_type is Unot:
@@ -204,8 +257,7 @@ class BindVisitor(NodeVisitor):
         else:
             right = primitive_type(Concat(inputs))
         for left in outputs:
-            if arrayindex is not None:
-                left = Pointer(left, bit)
+            left = self._getArrayPortArg(left, 1, arrayindex, current)
             self.addBind(left, right, bindtype='assign')
 
     def visit_Initial(self, node):
@@ -944,26 +996,23 @@ class BindVisitor(NodeVisitor):
         if ldst[0][0] is None:
             raise verror.DefinitionError('No such port: %s' % portname)
 
+        if port.argname is None:
+            return
+        portarg = port.argname
+        if arrayindex is not None:
+            key, definitions = self.frames.searchSignalDefinition(lscope, portname)
+            msb, lsb = self._getDeclaredRange(definitions, lscope)
+            portwidth = 1 if msb is None else abs(msb - lsb) + 1
+            portarg = self._getArrayPortArg(portarg, portwidth, arrayindex, rscope)
+
         termtype = self.getTermtype(ldst[0][0])
         for t in termtype:
             if t == 'Input':
-                if port.argname is None:
-                    continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
                 self.addDataflow(ldst, portarg, lscope, rscope)
             elif t == 'Output':
-                if port.argname is None:
-                    continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
             elif t == 'Inout':
-                if port.argname is None:
-                    continue
-                portarg = (port.argname if arrayindex is None else
-                           Pointer(port.argname, IntConst(str(arrayindex))))
                 self.addDataflow(ldst, portarg, lscope, rscope)
                 rdst = self.getDestinations(portarg, rscope)
                 self.addDataflow(rdst, portname, rscope, lscope)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index eeb4cde..c99bdcd 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -122,7 +122,7 @@ class SignalVisitor(NodeVisitor):
         msb = self.optimize(self.getTree(node.array.msb, current)).value
         lsb = self.optimize(self.getTree(node.array.lsb, current)).value
 
-        for i in range(lsb, msb + 1):
+        for i in range(min(msb, lsb), max(msb, lsb) + 1):
             nodename = node.name + '_' + str(i)
             self._visit_Instance_body(node, nodename)
 
-- 
2.43.0


From 8609199bb2227eedf3cda29bdb0b71763f43b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 086/132] fix: a renamed variable has the width of the part
 that is assigned

---
 pyverilog/dataflow/bindvisitor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index e7b7ec1..b7edc13 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1528,8 +1528,18 @@ class BindVisitor(NodeVisitor):
             newterm = copy.deepcopy(term)
             newterm.name = renamed_dname
             newterm.termtype = set(['Rename'])
+            msb, lsb, ptr = d[1:4]
+            if ptr is not None:
+                # one word or one bit
+                if term.dims is None:
+                    newterm.msb, newterm.lsb = DFIntConst('0'), DFIntConst('0')
+                newterm.dims = None
+            if msb is not None and lsb is not None:
+                # some of the bits
+                width = self.optimizer.getWidth(DFPartselect(DFTerminal(dname), msb, lsb))
+                newterm.msb, newterm.lsb = DFIntConst(str(width - 1)), DFIntConst('0')
             self.dataflow.addTerm(renamed_dname, newterm)
-            newd = (renamed_dname,) + d[1:]
+            newd = (renamed_dname, None, None, None) + d[4:]
             renamed_dst += (newd,)
         return renamed_dst
 
-- 
2.43.0


From de62d1c316e347b51ceb79439d8460e396da3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 087/132] fix: merging partial assignments gives every bit its
 own driver

---
 pyverilog/dataflow/merge.py | 384 +++++++++++++++++-------------------
 1 file changed, 178 insertions(+), 206 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 2311b0e..741dfa5 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -118,44 +118,28 @@ class VerilogDataflowMerge(object):
         if self.getTermDims(termname) is not None:
             discretebinds = {}
             for bind in bindlist:
-                if isinstance(bind.ptr, DFEvalValue):
-                    ptrval = bind.ptr.value
-                    if not ptrval in discretebinds:
-                        discretebinds[ptrval] = []
-                    discretebinds[ptrval] += [bind]
-                else:
-                    if not 'any' in discretebinds:
-                        discretebinds['any'] = []
-                    discretebinds['any'] += [bind]
-
-            if 'any' in discretebinds:
+                if not isinstance(bind.ptr, DFEvalValue):
+                    return DFTerminal(termname)
+                if not bind.ptr.value in discretebinds:
+                    discretebinds[bind.ptr.value] = []
+                discretebinds[bind.ptr.value] += [bind]
+
+            ptr = self.optimizer.optimizeConstant(ptr)
+            if ptr is None:
                 return DFTerminal(termname)
 
             if isinstance(ptr, DFEvalValue):
-                if len(discretebinds[ptr.value]) == 0:
+                if not ptr.value in discretebinds:
                     return None
-                if len(discretebinds[ptr.value]) == 1:
-                    return discretebinds[ptr.value][0].tree
                 return self.getMergedTree(discretebinds[ptr.value])
 
-            minptr = min(list(discretebinds.keys()))
-            maxptr = max(list(discretebinds.keys()))
             ret = None
-            for c in range(minptr, maxptr + 1):
-                truetree = None
-                if len(discretebinds[c]) == 0:
-                    continue
-                if len(discretebinds[c]) == 1:
-                    truetree = discretebinds[c][0].tree
-                else:
-                    truetree = self.getMergedTree(discretebinds[c])
+            for c in sorted(discretebinds.keys()):
+                truetree = self.getMergedTree(discretebinds[c])
                 ret = DFBranch(DFOperator((DFEvalValue(c), ptr), 'Eq'), truetree, ret)
             return ret
 
-        if len(bindlist) == 1:
-            return bindlist[0].tree
-        new_tree = self.getMergedTree(bindlist)
-        return self.optimizer.optimize(new_tree)
+        return self.getMergedTree(bindlist)
 
     def getResolvedTree(self, termname, ptr=None):
         raise verror.ImplementationError()
@@ -277,28 +261,131 @@ class VerilogDataflowMerge(object):
             return ret
         raise verror.DefinitionError('Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
 
+    def getTermRange(self, termname):
+        """ declared (msb, lsb) of a term """
+        term = self.getTerm(termname)
+        msb = self.optimizer.optimizeConstant(term.msb)
+        lsb = self.optimizer.optimizeConstant(term.lsb)
+        if msb is None or lsb is None:
+            return 0, 0
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            raise verror.FormatError('MSB and LSB should be constant.')
+        return msb.value, lsb.value
+
+    def getBitPositions(self, bind):
+        """ highest and lowest bit that is assigned, counted from the least significant bit """
+        term_msb, term_lsb = self.getTermRange(bind.dest)
+        if bind.msb is None or bind.lsb is None:
+            return abs(term_msb - term_lsb), 0
+        msb = self.optimizer.optimizeConstant(bind.msb)
+        lsb = self.optimizer.optimizeConstant(bind.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            raise verror.FormatError('MSB and LSB should be constant.')
+        if term_msb < term_lsb:
+            return term_lsb - msb.value, term_lsb - lsb.value
+        return msb.value - term_lsb, lsb.value - term_lsb
+
+    def getIndex(self, termname, position):
+        """ declared index of a bit """
+        term_msb, term_lsb = self.getTermRange(termname)
+        if term_msb < term_lsb:
+            return term_lsb - position
+        return term_lsb + position
+
+    def getWord(self, bind):
+        """ key of the word that is assigned """
+        if isinstance(bind.ptr, DFEvalValue):
+            return bind.ptr.value
+        return None
+
+    def fitTree(self, tree, width):
+        """ the value of a tree as it is assigned to an object of a width """
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.fitTree(tree.truenode, width), self.fitTree(tree.falsenode, width))
+        if isinstance(tree, DFUndefined):
+            return DFUndefined(width)
+        tree_width = self.optimizer.getWidth(tree)
+        if tree_width == width:
+            return tree
+        if isinstance(tree, DFEvalValue) and isinstance(tree.value, int):
+            return DFEvalValue(tree.value & ((1 << width) - 1), width)
+        if tree_width > width:
+            return self.optimizer.cutPart(tree, width - 1, 0)
+        if isinstance(tree, DFOperator):
+            # the operands are extended
+            return DFOperator((tree, DFEvalValue(0, width)), 'Or')
+        return DFConcat((DFEvalValue(0, width - tree_width), tree))
+
+    def cutTree(self, tree, msb, lsb):
+        """ bits of a tree, counted from its least significant bit """
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.cutTree(tree.truenode, msb, lsb), self.cutTree(tree.falsenode, msb, lsb))
+        if lsb == 0 and self.optimizer.getWidth(tree) == msb + 1:
+            return tree
+        return self.optimizer.cutPart(tree, msb, lsb)
+
+    def hasHold(self, tree):
+        if tree is None:
+            return True
+        if isinstance(tree, DFBranch):
+            return self.hasHold(tree.truenode) or self.hasHold(tree.falsenode)
+        return False
+
+    def hasPartialHold(self, tree):
+        """ whether some of the bits keep their value where others are assigned """
+        if isinstance(tree, DFConcat):
+            return any([self.hasHold(n) or self.hasPartialHold(n) for n in tree.nextnodes])
+        if isinstance(tree, DFBranch):
+            return self.hasPartialHold(tree.truenode) or self.hasPartialHold(tree.falsenode)
+        return False
+
+    def replaceHold(self, tree, hold):
+        """ a bit that is not assigned keeps its value """
+        if tree is None:
+            return copy.deepcopy(hold)
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.replaceHold(tree.truenode, hold), self.replaceHold(tree.falsenode, hold))
+        return tree
+
+    def getHold(self, bind, msb, lsb):
+        var = DFTerminal(bind.dest)
+        if self.getWord(bind) is not None:
+            var = DFPointer(var, DFEvalValue(self.getWord(bind)))
+        return DFPartselect(var, DFEvalValue(self.getIndex(bind.dest, msb)), DFEvalValue(self.getIndex(bind.dest, lsb)))
+
     def getMergedTree(self, optimized_bindlist):
-        concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-        for bind in sorted(optimized_bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value):
-                continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
-        return DFConcat(tuple(reversed(concatlist)))
+        """ a tree of all bits, from definitions of different bits """
+        term = self.getTerm(optimized_bindlist[0].dest)
+        term_msb, term_lsb = self.getTermRange(optimized_bindlist[0].dest)
+        width = abs(term_msb - term_lsb) + 1
+        if len(optimized_bindlist) == 1:
+            bind = optimized_bindlist[0]
+            if signaltype.isRename(term.termtype) or self.getBitPositions(bind) == (width - 1, 0):
+                return bind.tree
+
+        pieces = []
+        hold_pieces = []
+        next_lsb = 0
+        for bind in sorted(optimized_bindlist, key=lambda x: self.getBitPositions(x)[1]):
+            msb, lsb = self.getBitPositions(bind)
+            if next_lsb < lsb:
+                pieces.append(DFUndefined(lsb - next_lsb))
+                hold_pieces.append(DFUndefined(lsb - next_lsb))
+            tree = self.fitTree(bind.tree, msb - lsb + 1)
+            pieces.append(tree)
+            hold_pieces.append(self.replaceHold(tree, self.getHold(bind, msb, lsb)))
+            next_lsb = msb + 1
+        if next_lsb < width:
+            pieces.append(DFUndefined(width - next_lsb))
+            hold_pieces.append(DFUndefined(width - next_lsb))
+        merged_tree = self.optimizer.optimize(DFConcat(tuple(reversed(pieces))))
+        if self.hasPartialHold(merged_tree):
+            merged_tree = self.optimizer.optimize(DFConcat(tuple(reversed(hold_pieces))))
+        return merged_tree
 
     def getOptimizedBindlist(self, bindlist):
         if len(bindlist) == 0:
@@ -317,44 +404,28 @@ class VerilogDataflowMerge(object):
             new_bindlist.append(new_bind)
         if len(new_bindlist) == 1:
             return (new_bindlist[0],)
+        for bind in new_bindlist:
+            if bind.ptr is not None and not isinstance(bind.ptr, DFEvalValue):
+                return tuple(new_bindlist)
         split_positions = self.splitPositions(tuple(new_bindlist))
         new_bindlist = self.splitBindlist(tuple(new_bindlist), split_positions)
         return self.mergeBindlist(tuple(new_bindlist))
 
     def mergeBindlist(self, bindlist):
-        merged_bindlist = []
-        last_bind = None
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-
-        for bind in sorted(bindlist, key=bindkey):
-            if last_bind is None:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-            elif isinstance(last_bind.ptr, DFEvalValue) and isinstance(bind.ptr, DFEvalValue) and last_bind.ptr.value != bind.ptr.value:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-            elif last_bind.lsb is None or bind.lsb is None or last_bind is None or bind.msb is None:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-            elif last_bind.lsb.value == bind.lsb.value and last_bind.msb.value == bind.msb.value:
-                new_tree = self.mergeTree(last_bind.tree, bind.tree)
-                new_tree = self.optimizer.optimize(new_tree)
-                merged_bindlist.pop()
-                new_bind = copy.deepcopy(bind)
-                new_bind.tree = new_tree
-                merged_bindlist.append(new_bind)
-                last_bind = copy.deepcopy(new_bind)
-            else:
-                merged_bindlist.append(copy.deepcopy(bind))
-                last_bind = copy.deepcopy(bind)
-        return tuple(merged_bindlist)
+        """ merges the definitions of the same bits in their order """
+        merged_binds = {}
+        for bind in bindlist:
+            key = (self.getWord(bind), self.getBitPositions(bind))
+            if not key in merged_binds:
+                merged_binds[key] = copy.deepcopy(bind)
+                continue
+            width = key[1][0] - key[1][1] + 1
+            new_tree = self.mergeTree(self.fitTree(merged_binds[key].tree, width), self.fitTree(bind.tree, width))
+            new_bind = copy.deepcopy(bind)
+            new_bind.tree = self.optimizer.optimize(new_tree)
+            merged_binds[key] = new_bind
+        return tuple([merged_binds[key] for key in sorted(
+            merged_binds.keys(), key=lambda x: (-1 if x[0] is None else x[0], x[1][1]))])
 
     def mergeTree(self, first, second):
         if isinstance(first, DFBranch) and isinstance(second, DFBranch):
@@ -395,133 +466,34 @@ class VerilogDataflowMerge(object):
         return target
 
     def splitBindlist(self, bindlist, split_positions):
-        if len(bindlist) == 0:
-            return ()
-        return self.splitBindPositions(bindlist[0], split_positions) + self.splitBindlist(bindlist[1:], split_positions)
-
-    def splitBindPositions(self, bind, split_positions):
-        if len(split_positions) == 0:
-            return (copy.deepcopy(bind),)
-        if bind is None:
+        ret = ()
+        for bind in bindlist:
+            ret += self.splitBind(bind, split_positions[self.getWord(bind)])
+        return ret
+
+    def splitBind(self, bind, split_positions):
+        """ splits a definition at bit positions """
+        bind_msb, bind_lsb = self.getBitPositions(bind)
+        cuts = [pos for pos in split_positions if bind_lsb < pos and pos <= bind_msb]
+        if len(cuts) == 0:
             return (copy.deepcopy(bind),)
-        bind_left, bind_right = self.splitBind(bind, split_positions[0])
-        ret = () if bind_right is None else (bind_right,)
-        return ret + self.splitBindPositions(bind_left, split_positions[1:])
-
-    def splitBind(self, bind, splitpos):
-        tree = bind.tree
-        msb = self.optimizer.optimizeConstant(bind.msb)
-        lsb = self.optimizer.optimizeConstant(bind.lsb)
-        ptr = self.optimizer.optimizeConstant(bind.ptr)
-        if ptr is not None and msb is None or lsb is None:
-            if self.getTermDims(bind.dest) is not None:
-                msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-                lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-            else:
-                msb = copy.deepcopy(ptr)
-                lsb = copy.deepcopy(ptr)
-        if ptr is None and msb is None or lsb is None:
-            term = self.getTerm(bind.dest)
-            msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-            lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-        if splitpos > lsb.value and splitpos <= msb.value:  # split
-            right_lsb = lsb.value
-            right_msb = splitpos - 1
-            right_width = splitpos - lsb.value
-            left_lsb = splitpos
-            left_msb = msb.value
-            left_width = msb.value - splitpos + 1
-            right_tree = reorder.reorder(DFPartselect(copy.deepcopy(
-                tree), DFEvalValue(right_width - 1), DFEvalValue(0)))
-            left_tree = reorder.reorder(DFPartselect(copy.deepcopy(tree), DFEvalValue(
-                msb.value), DFEvalValue(msb.value - left_width + 1)))
-            right_tree = self.optimizer.optimize(right_tree)
-            left_tree = self.optimizer.optimize(left_tree)
-            left_bind = copy.deepcopy(bind)
-            left_bind.tree = left_tree
-            left_bind.msb = DFEvalValue(left_msb)
-            left_bind.lsb = DFEvalValue(left_lsb)
-            right_bind = copy.deepcopy(bind)
-            right_bind.tree = right_tree
-            right_bind.msb = DFEvalValue(right_msb)
-            right_bind.lsb = DFEvalValue(right_lsb)
-            return left_bind, right_bind
-        return bind, None
+        tree = self.fitTree(bind.tree, bind_msb - bind_lsb + 1)
+        ret = []
+        for lsb, next_lsb in zip([bind_lsb] + cuts, cuts + [bind_msb + 1]):
+            new_bind = copy.deepcopy(bind)
+            new_tree = self.cutTree(tree, next_lsb - 1 - bind_lsb, lsb - bind_lsb)
+            new_bind.tree = self.optimizer.optimize(reorder.reorder(new_tree))
+            new_bind.msb = DFEvalValue(self.getIndex(bind.dest, next_lsb - 1))
+            new_bind.lsb = DFEvalValue(self.getIndex(bind.dest, lsb))
+            ret.append(new_bind)
+        return tuple(ret)
 
     def splitPositions(self, bindlist):
-        split_positions = set([])
-        assigned_range = []  # (msb, lsb, ptr)
-
+        """ word -> bit positions where a definition begins or ends """
+        split_positions = {}
         for bind in bindlist:
-            ptr = self.optimizer.optimizeConstant(bind.ptr)
-            msb = self.optimizer.optimizeConstant(bind.msb)
-            lsb = self.optimizer.optimizeConstant(bind.lsb)
-            if msb is None and lsb is None:
-                term = self.getTerm(bind.dest)
-                msb = self.optimizer.optimizeConstant(term.msb)
-                lsb = self.optimizer.optimizeConstant(term.lsb)
-            elif not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
-                raise FormatError('MSB and LSB should be constant.')
-
-            if ptr is None or isinstance(ptr, DFEvalValue):
-                ptrval = None if ptr is None else ptr.value
-                matched_range = self.matchedRange(
-                    tuple(assigned_range), msb.value, lsb.value, ptrval)
-                unmatched_range = self.unmatchedRange(
-                    tuple(matched_range), msb.value, lsb.value, ptrval)
-                split_positions |= self.getPositionsFromRange(matched_range, ptrval)
-                assigned_range += matched_range + unmatched_range
-
-        return tuple(sorted(list(split_positions)))
-
-    def getPositionsFromRange(self, matched_range, search_ptr):
-        positions = set([])
-        for msb, lsb, ptr in matched_range:
-            if search_ptr is not None and search != ptr:
-                continue
+            msb, lsb = self.getBitPositions(bind)
+            positions = split_positions.setdefault(self.getWord(bind), set([]))
             positions.add(lsb)
             positions.add(msb + 1)
-        return positions
-
-    def matchedRange(self, assigned_range, search_msb, search_lsb, search_ptr):
-        matched_range = []
-        for msb, lsb, ptr in assigned_range:
-            match = False
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if lsb <= search_lsb and search_lsb <= msb:
-                match = True
-                match_lsb = search_lsb
-            else:
-                match_lsb = lsb
-            if lsb <= search_msb and search_msb <= msb:
-                match = True
-                match_msb = search_msb
-            else:
-                match_msb = msb
-            if match:
-                matched_range.append((match_msb, match_lsb, search_ptr))
-        return tuple(matched_range)
-
-    def unmatchedRange(self, matched_range, search_msb, search_lsb, search_ptr):
-        unmatched_range = []
-        minval = None
-        maxval = None
-        last_msb = None
-        for msb, lsb, ptr in sorted(matched_range, key=lambda x: x[0]):
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if minval is None or lsb < minval:
-                minval = lsb
-            if maxval is None or msb > maxval:
-                maxval = msb
-            if last_msb is not None and last_msb + 1 > lsb:
-                unmatched_range.append((last_msb + 1, lsb - 1, ptr))
-            last_msb = msb
-        if minval is None and maxval is None:
-            return ((search_msb, search_lsb, search_ptr), )
-        if search_lsb < minval:
-            unmatched_range.append((search_lsb, minval - 1, search_ptr))
-        if maxval < search_msb:
-            unmatched_range.append((maxval + 1, search_msb, search_ptr))
-        return tuple(unmatched_range)
+        return dict([(word, tuple(sorted(positions))) for word, positions in split_positions.items()])
-- 
2.43.0


From 86885c73a9ef015146d858ec47abbefd3f2f3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 088/132] fix: selected bits of a signal are taken from its
 tree by position

---
 pyverilog/dataflow/walker.py | 61 +++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 5b69358..aa339f9 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -96,19 +96,17 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             msb = self.walkTree(tree.msb, visited, step, delay)
             lsb = self.walkTree(tree.lsb, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
-            if isinstance(var, DFPartselect):
-                child_lsb = self.getTerm(str(tree.var)).lsb.eval()
-                return DFPartselect(var.var, DFIntConst(str(msb.eval() + var.lsb.eval() - child_lsb)),
-                                    DFIntConst(str(lsb.eval() + var.lsb.eval() - child_lsb)))
-            return DFPartselect(var, msb, lsb)
+            return self.replaceSelected(tree.var, var, msb, lsb)
 
         if isinstance(tree, DFPointer):
             ptr = self.walkTree(tree.ptr, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, ptr=ptr)
             if isinstance(tree.var, DFTerminal):
-                if (self.getTermDims(tree.var.name) is not None and
-                        not (isinstance(var, DFTerminal) and var.name == tree.var.name)):
+                if isinstance(var, DFTerminal) and var.name == tree.var.name:
+                    return DFPointer(var, ptr)
+                if self.getTermDims(tree.var.name) is not None:
                     return var
+                return self.replaceSelected(tree.var, var, ptr, ptr)
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFConcat):
@@ -119,3 +117,52 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
 
         raise verror.DefinitionError(
             'Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
+
+    def replaceSelected(self, old_var, var, msb, lsb):
+        """ selected bits of a variable that is replaced by its tree """
+        termname = None
+        if isinstance(old_var, DFTerminal):
+            termname = old_var.name
+        elif isinstance(old_var, DFPointer) and isinstance(old_var.var, DFTerminal) \
+                and self.getTermDims(old_var.var.name) is not None:
+            termname = old_var.var.name
+        if termname is None or isinstance(var, DFUndefined):
+            return DFPartselect(var, msb, lsb)
+        if isinstance(var, DFTerminal) and var.name == termname:
+            return DFPartselect(var, msb, lsb)
+        if isinstance(var, DFPointer) and isinstance(var.var, DFTerminal) and var.var.name == termname:
+            return DFPartselect(var, msb, lsb)
+        msb = self.getPosition(termname, msb)
+        lsb = self.getPosition(termname, lsb)
+        if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+            term_msb, term_lsb = self.getTermRange(termname)
+            return self.cutTree(self.fitTree(var, abs(term_msb - term_lsb) + 1), msb.value, lsb.value)
+        if isinstance(var, DFTerminal):
+            msb = self.getPositionIndex(var.name, msb)
+            lsb = self.getPositionIndex(var.name, lsb)
+        if msb == lsb:
+            return DFPointer(var, lsb)
+        return DFPartselect(var, msb, lsb)
+
+    def getPosition(self, termname, index):
+        """ position of the bit at an index, counted from the least significant bit """
+        term_msb, term_lsb = self.getTermRange(termname)
+        optimized_index = self.optimizer.optimizeConstant(index)
+        if isinstance(optimized_index, DFEvalValue):
+            if term_msb < term_lsb:
+                return DFEvalValue(term_lsb - optimized_index.value)
+            return DFEvalValue(optimized_index.value - term_lsb)
+        if term_msb < term_lsb:
+            return DFOperator((DFEvalValue(term_lsb), index), 'Minus')
+        if term_lsb == 0:
+            return index
+        return DFOperator((index, DFEvalValue(term_lsb)), 'Minus')
+
+    def getPositionIndex(self, termname, position):
+        """ index of the bit at a position """
+        term_msb, term_lsb = self.getTermRange(termname)
+        if term_msb < term_lsb:
+            return DFOperator((DFEvalValue(term_lsb), position), 'Minus')
+        if term_lsb == 0:
+            return position
+        return DFOperator((position, DFEvalValue(term_lsb)), 'Plus')
-- 
2.43.0


From 029f54a80b3391c6b65755607974831c783d801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 089/132] fix: getting the kind of an assignment does not call
 a function that is not there

---
 pyverilog/dataflow/merge.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 741dfa5..9b0d399 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -69,8 +69,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
-- 
2.43.0


From dec5eeef2764566e6b9392e26e7a5e731210e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 090/132] fix: a signal on the way that is held or not driven
 is the end of a walk, not the signal that is walked

---
 pyverilog/dataflow/replace.py | 34 +++++++++++++++++-----------------
 pyverilog/dataflow/walker.py  | 10 ++++++++--
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index 238ec40..c9b0b92 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -15,10 +15,10 @@ import pyverilog.utils.verror as verror
 from pyverilog.dataflow.dataflow import *
 
 
-def replaceUndefined(tree, termname):
-    if tree is None:
-        return DFTerminal(termname)
-    if isinstance(tree, DFUndefined):
+def replaceUndefined(tree, termname, ptr=None):
+    if tree is None or isinstance(tree, DFUndefined):
+        if ptr is not None:
+            return DFPointer(DFTerminal(termname), ptr)
         return DFTerminal(termname)
     if isinstance(tree, DFHighImpedance):
         return tree
@@ -29,24 +29,24 @@ def replaceUndefined(tree, termname):
     if isinstance(tree, DFTerminal):
         return tree
     if isinstance(tree, DFBranch):
-        condnode = replaceUndefined(tree.condnode, termname)
-        truenode = replaceUndefined(tree.truenode, termname)
-        falsenode = replaceUndefined(tree.falsenode, termname)
+        condnode = replaceUndefined(tree.condnode, termname, ptr)
+        truenode = replaceUndefined(tree.truenode, termname, ptr)
+        falsenode = replaceUndefined(tree.falsenode, termname, ptr)
         return DFBranch(condnode, truenode, falsenode)
     if isinstance(tree, DFOperator):
         nextnodes = []
         for n in tree.nextnodes:
-            nextnodes.append(replaceUndefined(n, termname))
+            nextnodes.append(replaceUndefined(n, termname, ptr))
         return DFOperator(tuple(nextnodes), tree.operator)
     if isinstance(tree, DFPartselect):
-        msb = replaceUndefined(tree.msb, termname)
-        lsb = replaceUndefined(tree.lsb, termname)
-        var = replaceUndefined(tree.var, termname)
+        msb = replaceUndefined(tree.msb, termname, ptr)
+        lsb = replaceUndefined(tree.lsb, termname, ptr)
+        var = replaceUndefined(tree.var, termname, ptr)
         return DFPartselect(var, msb, lsb)
     if isinstance(tree, DFPointer):
-        ptr = replaceUndefined(tree.ptr, termname)
-        var = replaceUndefined(tree.var, termname)
-        return DFPointer(var, ptr)
+        new_ptr = replaceUndefined(tree.ptr, termname, ptr)
+        new_var = replaceUndefined(tree.var, termname, ptr)
+        return DFPointer(new_var, new_ptr)
     if isinstance(tree, DFConcat):
         nextnodes = []
         for n in tree.nextnodes:
@@ -54,13 +54,13 @@ def replaceUndefined(tree, termname):
                 # some of the bits, not the whole of the terminal
                 nextnodes.append(n)
                 continue
-            nextnodes.append(replaceUndefined(n, termname))
+            nextnodes.append(replaceUndefined(n, termname, ptr))
         return DFConcat(tuple(nextnodes))
     if isinstance(tree, DFDelay):
-        return DFDelay(replaceUndefined(tree.nextnode, termname))
+        return DFDelay(replaceUndefined(tree.nextnode, termname, ptr))
     if isinstance(tree, DFSyscall):
         nextnodes = []
         for n in tree.nextnodes:
-            nextnodes.append(replaceUndefined(n, termname))
+            nextnodes.append(replaceUndefined(n, termname, ptr))
         return DFSyscall(tree.syscall, tuple(nextnodes))
     raise verror.DefinitionError('Undefined DFNode type: %s %s' % (str(type(tree)), str(tree)))
diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index aa339f9..d329a0d 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -77,8 +77,14 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                         and not signaltype.isRename(termtype)):
                     nextstep -= 1
 
-            return self.walkTree(self.getTree(termname, nptr),
-                                 visited | set([termname, ]), nextstep, delay)
+            nexttree = self.getTree(termname, nptr)
+            if nexttree is None and nptr is None:
+                return tree
+            walked_tree = self.walkTree(nexttree, visited | set([termname, ]), nextstep, delay)
+            if 'functioncall' in [label.scopetype for label in scope]:
+                # the variables of a function keep no value between its calls
+                return walked_tree
+            return replace.replaceUndefined(walked_tree, termname, nptr)
 
         if isinstance(tree, DFBranch):
             condnode = self.walkTree(tree.condnode, visited, step, delay)
-- 
2.43.0


From 59eb6d2b95184b1bb8d616de294ab41d6238b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 091/132] fix: the clock of a register is in its subset

---
 pyverilog/dataflow/subset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..20a443e 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -50,6 +50,9 @@ class VerilogSubset(VerilogDataflowMerge):
             if bind.isClockEdge():
                 clock_name = bind.getClockName()
                 if clock_name != util.toTermname((self.topmodule, self.clock_name)):
+                    if clock_name in nextsources:
+                        continue
+                    nextsources.add(clock_name)
                     r_binds, r_sources = self.getBindSubset(clock_name, nextsources)
                     nextsources |= r_sources
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
-- 
2.43.0


From cdc02cd38fd17d9b0c573c01be83aa499ff4ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 092/132] fix: the ranges of a comparison with <= are inferred

---
 pyverilog/utils/inference.py  | 2 +-
 pyverilog/utils/signaltype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..b86b0fa 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -42,7 +42,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..da3e432 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -85,7 +85,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From 6207043b073d59f5085e648b78f5d685ba526b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 093/132] fix: a range of state values stays within the values
 the signal can have

---
 pyverilog/controlflow/transition.py | 7 ++++++-
 pyverilog/utils/inference.py        | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..5350cdb 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -274,7 +274,12 @@ def createStateNode(infval, width):
         minval = 0
     if maxval is None:
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    minval = max(minval, 0)
+    maxval = min(maxval, util.maxValue(width))
+    range_pairs = ()
+    if minval <= maxval:
+        range_pairs = ((minval, maxval),)
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index b86b0fa..f208abc 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -31,8 +31,8 @@ def op_LessThan(val):
     minval = 0
     maxval = val - 1
     if maxval < 0:
-        minval = None
-        maxval = None
+        # no value
+        return InferredValue(0, None, inv=True)
     return InferredValue(minval, maxval)
 
 
-- 
2.43.0


From 2f2049680c02121dc99cc3d7dfe296b31cddc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 094/132] fix: a comparison with something that is not a
 constant is a condition, not a range of states

---
 pyverilog/controlflow/transition.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 5350cdb..817c192 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -72,10 +72,13 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if not signaltype.isCompare(cond.operator):
+        return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
+
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
-- 
2.43.0


From 2ef3392169196fdef106384ddaa44e84d19dc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 095/132] fix: conditions no state value meets give no state,
 not all of them

---
 pyverilog/controlflow/transition.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 817c192..1b0dac6 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -144,8 +144,6 @@ def andStateNodeList(lnode, rnode):
                 val = andStateNode(l, r)
                 if val:
                     new_list.append(val)
-        if len(new_list) == 0:
-            return None
         return StateNodeList(tuple(new_list))
     if isStateNodeList(lnode) and isStateNode(rnode):
         new_list = []
@@ -153,8 +151,6 @@ def andStateNodeList(lnode, rnode):
             val = andStateNode(l, rnode)
             if val:
                 new_list.append(val)
-        if len(new_list) == 0:
-            return None
         return StateNodeList(tuple(new_list))
     if isStateNode(lnode) and isStateNodeList(rnode):
         new_list = []
@@ -162,13 +158,13 @@ def andStateNodeList(lnode, rnode):
             val = andStateNode(lnode, r)
             if val:
                 new_list.append(val)
-        if len(new_list) == 0:
-            return None
         return StateNodeList(tuple(new_list))
     return None
 
 
 def notStateNode(node):
+    if node.isany and node.transcond is None:
+        return StateNode(maxvalue=node.maxvalue)
     if node.isany:
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
@@ -200,9 +196,6 @@ def andStateNode(sna, snb):
     elif len(sna.range_pairs) > 0 and len(snb.range_pairs) > 0:
         range_pairs = _and_range_pairs(sna, snb)
 
-    if (not isany) and len(range_pairs) == 0:
-        return None
-
     transcond = None
     if isinstance(sna.transcond, DFNode) and isinstance(snb.transcond, DFNode):
         transcond = DFOperator((sna.transcond, snb.transcond), 'Land')
-- 
2.43.0


From a8d8b2386fe3cbcb625206e8e4ebcda884f4e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 096/132] fix: operators on the state value are split into
 cases only where the state has one bit

---
 pyverilog/controlflow/active_analyzer.py      |  2 +-
 pyverilog/controlflow/controlflow_analyzer.py |  2 +-
 pyverilog/controlflow/transition.py           | 52 ++++++++++++-------
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..7b3c4c4 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -56,7 +56,7 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
         active_conditions = []
         fsm_sig_width = self.getWidth(fsm_sig)
         for condlist, func in sorted(funcdict.items(), key=lambda x: len(x[0])):
-            node = transition.walkCondlist(condlist, fsm_sig, fsm_sig_width)
+            node = transition.walkCondlist(condlist, fsm_sig, fsm_sig_width, self.optimizer)
             state_node_list = []
             if isinstance(node, transition.StateNodeList):
                 for n in node.nodelist:
diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..3354677 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -70,7 +70,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             if not isinstance(func, DFEvalValue):
                 continue
             print("Condition: %s, Inferring transition condition" % str(condlist))
-            node = transition.walkCondlist(condlist, termname, width)
+            node = transition.walkCondlist(condlist, termname, width, self.optimizer)
             if node is None:
                 continue
             statenode_list = node.nodelist if isinstance(
diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 1b0dac6..0c2ccd2 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -17,13 +17,13 @@ import pyverilog.utils.signaltype as signaltype
 import pyverilog.utils.inference as inference
 
 
-def walkCondlist(condlist, termname, termwidth=32):
+def walkCondlist(condlist, termname, termwidth=32, optimizer=None):
     node = None
     if len(condlist) == 0:
         maxvalue = util.maxValue(termwidth)
         return StateNode(maxvalue=maxvalue, isany=True)
     for cond in condlist:
-        rslt = walkCond(cond, termname, termwidth)
+        rslt = walkCond(cond, termname, termwidth, optimizer)
         if node and rslt:
             node = andStateNodeList(node, rslt)
         elif rslt:
@@ -31,40 +31,42 @@ def walkCondlist(condlist, termname, termwidth=32):
     return node
 
 
-def walkCond(cond, termname, termwidth=32):
+def walkCond(cond, termname, termwidth=32, optimizer=None):
     if isinstance(cond, DFOperator):
         if len(cond.nextnodes) == 1:
-            return _walkCond_DFOperator_unary(cond, termname, termwidth)
+            return _walkCond_DFOperator_unary(cond, termname, termwidth, optimizer)
         if len(cond.nextnodes) == 2:
-            return _walkCond_DFOperator_dual(cond, termname, termwidth)
+            return _walkCond_DFOperator_dual(cond, termname, termwidth, optimizer)
     if isinstance(cond, DFTerminal):
         comp_cond = DFOperator((cond, DFEvalValue(0)), 'GreaterThan')
-        return _walkCond_DFOperator_dual(comp_cond, termname, termwidth)
+        return _walkCond_DFOperator_dual(comp_cond, termname, termwidth, optimizer)
     maxvalue = util.maxValue(termwidth)
     return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
-def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
-    node = walkCond(cond.nextnodes[0], termname, termwidth)
-    if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+def _walkCond_DFOperator_unary(cond, termname, termwidth=32, optimizer=None):
+    nextnode = cond.nextnodes[0]
+    if cond.operator == 'Ulnot' or (cond.operator in ('Unot', 'Unand', 'Unor', 'Uxnor') and isBit(nextnode, optimizer)):
+        return notStateNodeList(walkCond(nextnode, termname, termwidth, optimizer))
+    if cond.operator in ('Uor', 'Uplus', 'Uminus') or isBit(nextnode, optimizer):
+        return walkCond(nextnode, termname, termwidth, optimizer)
+    return StateNode(transcond=cond, maxvalue=util.maxValue(termwidth), isany=True)
 
 
-def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
+def _walkCond_DFOperator_dual(cond, termname, termwidth=32, optimizer=None):
     maxvalue = util.maxValue(termwidth)
     if signaltype.isNonConditionOp(cond.operator):
         return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
     if not signaltype.isCompare(cond.operator) and signaltype.isOr(cond.operator):
-        lnode = walkCond(cond.nextnodes[0], termname, termwidth)
-        rnode = walkCond(cond.nextnodes[1], termname, termwidth)
+        lnode = walkCond(cond.nextnodes[0], termname, termwidth, optimizer)
+        rnode = walkCond(cond.nextnodes[1], termname, termwidth, optimizer)
         ret = orStateNodeList(lnode, rnode)
         if ret:
             return ret
-    if not signaltype.isCompare(cond.operator) and signaltype.isAnd(cond.operator):
-        lnode = walkCond(cond.nextnodes[0], termname, termwidth)
-        rnode = walkCond(cond.nextnodes[1], termname, termwidth)
+    if cond.operator == 'Land' or (cond.operator == 'And' and isBit(cond.nextnodes[0], optimizer) and isBit(cond.nextnodes[1], optimizer)):
+        lnode = walkCond(cond.nextnodes[0], termname, termwidth, optimizer)
+        rnode = walkCond(cond.nextnodes[1], termname, termwidth, optimizer)
         ret = andStateNodeList(lnode, rnode)
         if ret:
             return ret
@@ -89,6 +91,20 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
+def isBit(node, optimizer=None):
+    """ whether the value is 0 or 1 """
+    if isinstance(node, DFEvalValue):
+        return node.value in (0, 1)
+    if isinstance(node, DFOperator):
+        if signaltype.isCompare(node.operator) or node.operator in ('Ulnot', 'Land', 'Lor', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor'):
+            return True
+        if node.operator in ('And', 'Or', 'Xor'):
+            return isBit(node.nextnodes[0], optimizer) and isBit(node.nextnodes[1], optimizer)
+    if optimizer is not None:
+        return optimizer.getWidth(node) == 1
+    return isinstance(node, DFTerminal)
+
+
 def notStateNodeList(node):
     if isStateNode(node):
         return notStateNode(node)
@@ -257,8 +273,6 @@ def _not_transcond(transcond):
         return None
     elif isinstance(transcond, DFOperator) and transcond.operator == 'Ulnot':
         return transcond.nextnodes[0]
-    elif isinstance(transcond, DFOperator) and transcond.operator == 'Unot':
-        return transcond.nextnodes[0]
     return DFOperator((transcond,), 'Ulnot')
 
 
-- 
2.43.0


From ebab7c5884690733c46a74e480a4e06a45dc9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:23 +0000
Subject: [PATCH 097/132] fix: transitions that are never taken are not in the
 state machine

---
 pyverilog/controlflow/controlflow_analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 3354677..ff02c20 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -196,6 +196,8 @@ class FiniteStateMachine(object):
                         dst_cond_dict[dst] = evaluate.optimize(DFOperator((cur_cond, cond), 'Lor'))
             new_dstdict = {}
             for dst, cond in dst_cond_dict.items():
+                if isinstance(cond, DFEvalValue) and cond.value == 0:
+                    continue
                 if isinstance(cond, DFEvalValue) and cond.value > 0:
                     new_dstdict[None] = dst
                 else:
-- 
2.43.0


From ac014b713e2da7ca171060172d6d66abac96b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 098/132] fix: every loop of a state machine is found, and
 found once

---
 pyverilog/controlflow/controlflow_analyzer.py | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index ff02c20..5c39844 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -253,23 +253,12 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
+        done = set([])
         for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
-            paths = self.get_looppath(k)
-            for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+            # the loops through the states before are found already
+            for path in self.get_looppath(k, done):
+                loops.add(self.rotate(path))
+            done.add(k)
         return loops
 
     def rotate(self, path):
@@ -277,21 +266,19 @@ class FiniteStateMachine(object):
         minval_pos = path.index(minval)
         return path[minval_pos:] + path[:minval_pos]
 
-    def get_looppath(self, src):
+    def get_looppath(self, src, done=()):
         paths = set([])
         if not src in self.fsm:
             return paths
-        nextnodes = set(self.fsm[src].values())
+        nextnodes = set(self.fsm[src].values()) - set(done)
         for n in nextnodes:
-            r = self._looppath(src, n, visited=set([n]))
+            r = self._looppath(src, n, visited=set(done) | set([n]))
             if len(r) > 0:
                 paths |= r
         return paths
 
-    def _looppath(self, src, node, visited, cnt=0):
+    def _looppath(self, src, node, visited):
         paths = set([])
-        if cnt > 50:
-            return paths
         if src == node:
             paths.add((src,))
             return paths
@@ -299,7 +286,7 @@ class FiniteStateMachine(object):
             return paths
         nextnodes = set(self.fsm[node].values()) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
+            r = self._looppath(src, n, visited=visited | set([n]))
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From ef7f65149321f28b628d27c5129eb6eaf02f6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 099/132] fix: loops take the transitions from any state, too

---
 pyverilog/controlflow/controlflow_analyzer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 5c39844..993ae3a 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -254,13 +254,20 @@ class FiniteStateMachine(object):
     def get_loop(self):
         loops = set([])
         done = set([])
-        for k in sorted(self.fsm.keys()):
+        for k in sorted(set(self.fsm.keys()) | set(self.any.values())):
             # the loops through the states before are found already
             for path in self.get_looppath(k, done):
                 loops.add(self.rotate(path))
             done.add(k)
         return loops
 
+    def get_nextnodes(self, src):
+        # the transitions from any state are taken from this one, too
+        nextnodes = set(self.any.values())
+        if src in self.fsm:
+            nextnodes |= set(self.fsm[src].values())
+        return nextnodes
+
     def rotate(self, path):
         minval = min(path)
         minval_pos = path.index(minval)
@@ -268,9 +275,7 @@ class FiniteStateMachine(object):
 
     def get_looppath(self, src, done=()):
         paths = set([])
-        if not src in self.fsm:
-            return paths
-        nextnodes = set(self.fsm[src].values()) - set(done)
+        nextnodes = self.get_nextnodes(src) - set(done)
         for n in nextnodes:
             r = self._looppath(src, n, visited=set(done) | set([n]))
             if len(r) > 0:
@@ -282,9 +287,7 @@ class FiniteStateMachine(object):
         if src == node:
             paths.add((src,))
             return paths
-        if not node in self.fsm:
-            return paths
-        nextnodes = set(self.fsm[node].values()) - visited
+        nextnodes = self.get_nextnodes(node) - visited
         for n in nextnodes:
             r = self._looppath(src, n, visited=visited | set([n]))
             if len(r) > 0:
-- 
2.43.0


From 49e874bf8c225ed2c3fe35ba4edf2afbac0c30da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 100/132] fix: signals that follow each other or are not driven
 do not stop the state machine analysis

---
 pyverilog/controlflow/controlflow_analyzer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 993ae3a..2852355 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -79,9 +79,9 @@ class VerilogControlflowAnalyzer(VerilogSubset):
                 fsm.construct(func.value, statenode)
         return fsm
 
-    def getFuncdict(self, termname, delaycnt=0):
+    def getFuncdict(self, termname, delaycnt=0, visited=()):
         termtype = self.getTermtype(termname)
-        if not self.isClockEdge(termname):
+        if termname in visited or not termname in self.binddict or not self.isClockEdge(termname):
             return {}, 0
         if signaltype.isRename(termtype):
             return {}, 0
@@ -91,7 +91,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             next_term = list(funcdict.values())[0]
             if isinstance(next_term, DFTerminal):
-                return self.getFuncdict(next_term.name, delaycnt + 1)
+                return self.getFuncdict(next_term.name, delaycnt + 1, visited + (termname,))
         return funcdict, delaycnt
 
     def isFsmVar(self, termname):
-- 
2.43.0


From a81b8120abf0e5d27d5b15d355f5b63b16f71175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 101/132] fix: a memory named like a state variable does not
 stop the state machine analysis

---
 pyverilog/controlflow/controlflow_analyzer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 2852355..897a14d 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -85,6 +85,9 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             return {}, 0
         if signaltype.isRename(termtype):
             return {}, 0
+        if self.getTermDims(termname) is not None:
+            # the words of a memory have no state machine of their own
+            return {}, 0
         tree = self.makeTree(termname)
         funcdict = splitter.split(tree)
         funcdict = splitter.remove_reset_condition(funcdict)
-- 
2.43.0


From 549f3807bfdddc387ccd024a1ed4ca9550d688b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 102/132] fix: an or of values of different widths is one
 condition, as its operands are extended

---
 pyverilog/controlflow/transition.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 0c2ccd2..350f3e8 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -58,7 +58,7 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32, optimizer=None):
     if signaltype.isNonConditionOp(cond.operator):
         return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
-    if not signaltype.isCompare(cond.operator) and signaltype.isOr(cond.operator):
+    if cond.operator == 'Lor' or (cond.operator == 'Or' and isEvenWidth(cond, optimizer)):
         lnode = walkCond(cond.nextnodes[0], termname, termwidth, optimizer)
         rnode = walkCond(cond.nextnodes[1], termname, termwidth, optimizer)
         ret = orStateNodeList(lnode, rnode)
@@ -91,6 +91,14 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32, optimizer=None):
     return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
 
+def isEvenWidth(node, optimizer=None):
+    """ whether no operand is extended """
+    l, r = node.nextnodes
+    if isBit(l, optimizer) and isBit(r, optimizer):
+        return True
+    return optimizer is not None and optimizer.getWidth(l) == optimizer.getWidth(r)
+
+
 def isBit(node, optimizer=None):
     """ whether the value is 0 or 1 """
     if isinstance(node, DFEvalValue):
-- 
2.43.0


From d5a16fce0c5a3676d3067b772633036243642fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 103/132] fix: transitions from any state that are never taken
 are not in the state machine

---
 pyverilog/controlflow/controlflow_analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 897a14d..780b898 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -207,6 +207,8 @@ class FiniteStateMachine(object):
                     new_dstdict[cond] = dst
             new_fsm[src] = new_dstdict
         self.fsm = new_fsm
+        self.any = {cond: dst for cond, dst in self.any.items()
+                    if not (isinstance(cond, DFEvalValue) and cond.value == 0)}
 
     def view(self):
         for cond, dst in self.any.items():
-- 
2.43.0


From 8ee6e709823e04d551e4745aa90e8afe2aaa1b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 104/132] fix: a parameter whose value is not known does not
 make the analysis run forever

---
 pyverilog/dataflow/bindvisitor.py   | 9 +++++----
 pyverilog/dataflow/signalvisitor.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index b7edc13..8cfb630 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -677,9 +677,10 @@ class BindVisitor(NodeVisitor):
                 cterm = self.makeConstantTerm(name, definition, current)
                 self.setConstantTerm(name, cterm)
 
-        all_passed = False
-        while not all_passed:
-            all_passed = True
+        # until no more constants get a value (that of some is not known)
+        progress = True
+        while progress:
+            progress = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
@@ -693,9 +694,9 @@ class BindVisitor(NodeVisitor):
                     if value is None:
                         value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
-                        all_passed = False
                         continue
                     self.setDeclaredConstant(name, value, definition, current)
+                    progress = True
 
     def copyAllFrameInfo(self):
         for name, definitions in self.frames.getAllConsts().items():
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index c99bdcd..11444f5 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -405,9 +405,10 @@ class SignalVisitor(NodeVisitor):
     def setInstanceConstants(self, given={}):
         current = self.frames.getCurrent()
 
-        all_passed = False
-        while not all_passed:
-            all_passed = True
+        # until no more constants get a value (that of some is not known)
+        progress = True
+        while progress:
+            progress = False
             for name, definitions in self.frames.getConsts(current).items():
                 if len(definitions) > 1:
                     raise verror.FormatError("Multiple definitions for Constant")
@@ -422,10 +423,10 @@ class SignalVisitor(NodeVisitor):
                     if value is None:
                         value = self.optimize(self.getTree(definition.value, current))
                     if not isinstance(value, DFEvalValue):
-                        all_passed = False
                         continue
 
                     self.setDeclaredConstant(name, value, definition, current)
+                    progress = True
 
     def setDeclaredConstant(self, name, value, definition, scope):
         if definition.width is not None:
-- 
2.43.0


From 4159ffa7d5adacb5af6efda73678f70052d7bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 105/132] fix: white space and underscores around the base of a
 number are part of it

---
 pyverilog/vparser/lexer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 4448eb3..a7524a9 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -185,15 +185,17 @@ class VerilogLexer(object):
     t_DELAY = r'\#'
     t_DOLLER = r'\$'
 
-    bin_number = '[0-9]*\'[bB][0-1xXzZ?][0-1xXzZ?_]*'
-    signed_bin_number = '[0-9]*\'[sS][bB][0-1xXzZ?][0-1xXzZ?_]*'
-    octal_number = '[0-9]*\'[oO][0-7xXzZ?][0-7xXzZ?_]*'
-    signed_octal_number = '[0-9]*\'[sS][oO][0-7xXzZ?][0-7xXzZ?_]*'
-    hex_number = '[0-9]*\'[hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-    signed_hex_number = '[0-9]*\'[sS][hH][0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
-
-    decimal_number = '([0-9]*\'[dD][0-9xXzZ?][0-9xXzZ?_]*)|([0-9][0-9_]*)'
-    signed_decimal_number = '[0-9]*\'[sS][dD][0-9xXzZ?][0-9xXzZ?_]*'
+    # there may be white space before and after the base
+    number_size = '([0-9][0-9_]*[ \t]*)?'
+    bin_number = number_size + '\'[bB][ \t]*[0-1xXzZ?][0-1xXzZ?_]*'
+    signed_bin_number = number_size + '\'[sS][bB][ \t]*[0-1xXzZ?][0-1xXzZ?_]*'
+    octal_number = number_size + '\'[oO][ \t]*[0-7xXzZ?][0-7xXzZ?_]*'
+    signed_octal_number = number_size + '\'[sS][oO][ \t]*[0-7xXzZ?][0-7xXzZ?_]*'
+    hex_number = number_size + '\'[hH][ \t]*[0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
+    signed_hex_number = number_size + '\'[sS][hH][ \t]*[0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*'
+
+    decimal_number = '(' + number_size + '\'[dD][ \t]*[0-9xXzZ?][0-9xXzZ?_]*)|([0-9][0-9_]*)'
+    signed_decimal_number = number_size + '\'[sS][dD][ \t]*[0-9xXzZ?][0-9xXzZ?_]*'
 
     exponent_part = r"""([eE][-+]?[0-9]+)"""
     fractional_constant = r"""([0-9]*\.[0-9]+)|([0-9]+\.)"""
-- 
2.43.0


From fe5eb4ca439e0eb17c3b94bd1838e31611d00206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:50 +0000
Subject: [PATCH 106/132] fix: real numbers may have underscores

---
 pyverilog/dataflow/dataflow.py | 2 +-
 pyverilog/vparser/lexer.py     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 84ef95e..5579354 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -192,7 +192,7 @@ class DFFloatConst(DFConstant):
         return ret
 
     def eval(self):
-        return float(self.value)
+        return float(self.value.replace('_', ''))
 
 
 class DFStringConst(DFConstant):
diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index a7524a9..d7ea508 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -197,10 +197,10 @@ class VerilogLexer(object):
     decimal_number = '(' + number_size + '\'[dD][ \t]*[0-9xXzZ?][0-9xXzZ?_]*)|([0-9][0-9_]*)'
     signed_decimal_number = number_size + '\'[sS][dD][ \t]*[0-9xXzZ?][0-9xXzZ?_]*'
 
-    exponent_part = r"""([eE][-+]?[0-9]+)"""
-    fractional_constant = r"""([0-9]*\.[0-9]+)|([0-9]+\.)"""
+    exponent_part = r"""([eE][-+]?[0-9][0-9_]*)"""
+    fractional_constant = r"""(([0-9][0-9_]*)?\.[0-9][0-9_]*)|([0-9][0-9_]*\.)"""
     float_number = '((((' + fractional_constant + ')' + \
-        exponent_part + '?)|([0-9]+' + exponent_part + ')))'
+        exponent_part + '?)|([0-9][0-9_]*' + exponent_part + ')))'
 
     simple_escape = r"""([a-zA-Z\\?'"])"""
     octal_escape = r"""([0-7]{1,3})"""
-- 
2.43.0


From 34de68002b13f8ad1c58dd680c141abc1be77e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 107/132] fix: subsets come in the same order in every process

---
 pyverilog/dataflow/subset.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 20a443e..6e1f8de 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -57,7 +57,8 @@ class VerilogSubset(VerilogDataflowMerge):
                     nextsources |= r_sources
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
 
-        sources = self.getBindSources(termname)
+        # (in the same order in every process)
+        sources = sorted(self.getBindSources(termname), key=lambda x: str(x))
         for source in sources:
             if source in visited_sources:
                 continue
@@ -84,6 +85,7 @@ class VerilogSubset(VerilogDataflowMerge):
 
     def getSubset(self, targets):
         visited_binddict, visited_sources = self.getBindSourceSubset(targets)
+        visited_sources = sorted(visited_sources, key=lambda x: str(x))
         return self._discretion(visited_binddict, visited_sources)
 
     def _discretion(self, visited_binddict, visited_sources):
@@ -107,16 +109,19 @@ class VerilogSubset(VerilogDataflowMerge):
                 assign_type = self.getAssignType(left, right)
                 if assign_type == 'clockedge':
                     if not left in always_clockedge:
-                        always_clockedge[left] = set([])
-                    always_clockedge[left].add(right)
+                        always_clockedge[left] = []
+                    if not right in always_clockedge[left]:
+                        always_clockedge[left].append(right)
                 elif assign_type == 'combination':
                     if not left in always_combination:
-                        always_combination[left] = set([])
-                    always_combination[left].add(right)
+                        always_combination[left] = []
+                    if not right in always_combination[left]:
+                        always_combination[left].append(right)
                 elif assign_type == 'assign':
                     if not left in assign:
-                        assign[left] = set([])
-                    assign[left].add(right)
+                        assign[left] = []
+                    if not right in assign[left]:
+                        assign[left].append(right)
                 elif assign_type == 'parameter':
                     parameter[left] = right
                     continue
-- 
2.43.0


From 6fe2dbb0ea79bc0ef69223e977bd4a2709f4b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:11 +0000
Subject: [PATCH 108/132] fix: tri and supply nets are assigned like wires

---
 pyverilog/dataflow/merge.py   | 2 ++
 pyverilog/utils/signaltype.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 9b0d399..9316fe0 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -93,6 +93,8 @@ class VerilogDataflowMerge(object):
             return 'assign'
         if signaltype.isGenvar(termtype):
             return 'genvar'
+        if signaltype.isTri(termtype) or signaltype.isSupply(termtype):
+            return 'assign'
         raise verror.DefinitionError('Unexpected Assignment Type: %s : %s' %
                                      (str(termname), str(termtype)))
 
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index da3e432..0b5e17c 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -35,6 +35,14 @@ def isWire(termtype):
     return isType(termtype, 'Wire')
 
 
+def isTri(termtype):
+    return isType(termtype, 'Tri')
+
+
+def isSupply(termtype):
+    return isType(termtype, 'Supply')
+
+
 def isReg(termtype):
     return isType(termtype, 'Reg')
 
-- 
2.43.0


From eec6a7bbb213845d6c7af6f1ff499d9a5b9b5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 109/132] fix: scope.py knows verror

---
 pyverilog/utils/scope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/utils/scope.py b/pyverilog/utils/scope.py
index eb02ee4..563c43f 100644
--- a/pyverilog/utils/scope.py
+++ b/pyverilog/utils/scope.py
@@ -12,6 +12,8 @@ import sys
 import os
 import copy
 
+import pyverilog.utils.verror as verror
+
 scopetype_list_unprint = ('generate', 'always', 'function',  # 'functioncall',
                           'task', 'taskcall', 'initial', 'for', 'while', 'if')
 scopetype_list_print = ('module', 'block', 'signal', 'functioncall',)
@@ -22,7 +24,7 @@ class ScopeLabel(object):
     def __init__(self, scopename, scopetype='any', scopeloop=None):
         self.scopename = scopename
         if scopetype not in scopetype_list:
-            raise DefinitionError('No such Scope type')
+            raise verror.DefinitionError('No such Scope type')
         self.scopetype = scopetype
         self.scopeloop = scopeloop
 
-- 
2.43.0


From a9dec899f6af5196d2c8c83d709ebb51b99e33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 110/132] fix: a printed name with a loop index selects its
 signal

---
 pyverilog/utils/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyverilog/utils/util.py b/pyverilog/utils/util.py
index c47dd46..f81fd39 100644
--- a/pyverilog/utils/util.py
+++ b/pyverilog/utils/util.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 import copy
+import re
 
 from pyverilog.utils.scope import ScopeLabel, ScopeChain
 
@@ -26,11 +27,7 @@ def toTermname(name):
 
 
 def toTermname_str(name):
-    scopechain_list = []
-    for n in name.split('.'):
-        # fix me: to support "module.scope.signal[ptr]", lexical analyzer is required.
-        scopechain_list.append(ScopeLabel(n, 'any'))
-    return ScopeChain(scopechain_list)
+    return toTermname_list(name.split('.'))
 
 
 def toTermname_list(name):
@@ -38,6 +35,11 @@ def toTermname_list(name):
     for n in name:
         if not isinstance(n, str):
             raise TypeError()
+        # a generate loop is printed with its index
+        loop = re.match(r'([^\\].*)\[(-?[0-9]+)\]$', n)
+        if loop:
+            scopechain_list.append(ScopeLabel(loop.group(1), 'any', int(loop.group(2))))
+            continue
         scopechain_list.append(ScopeLabel(n, 'any'))
     return ScopeChain(scopechain_list)
 
-- 
2.43.0


From 9b727f1b930e3f8fafe77ee5049122125af219b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 111/132] fix: hierarchical names are searched from the
 referring scope outwards

---
 pyverilog/dataflow/bindvisitor.py   | 14 +++++-----
 pyverilog/dataflow/signalvisitor.py | 23 +++++++++--------
 pyverilog/dataflow/visit.py         | 40 +++++++++++++++++++++++++++++
 3 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 8cfb630..998a9ae 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -814,13 +814,13 @@ class BindVisitor(NodeVisitor):
         raise verror.DefinitionError('module not found')
 
     def searchScopeTerminal(self, blocklabel, name, current):
-        currentmodule = self.getModuleScopeChain(current)
-        localchain = currentmodule[-1:] + self.toScopeChain(blocklabel, current)
-        matchedchain = self.frames.searchMatchedScopeChain(currentmodule, localchain)
-        varname = currentmodule[:-1] + matchedchain + ScopeLabel(name, 'signal')
-        if self.dataflow.hasTerm(varname):
-            return varname
-        raise verror.DefinitionError('No such signal: %s' % varname)
+        localchain = self.toScopeChain(blocklabel, current)
+        matchedchain = self.frames.searchScopeChain(current, localchain)
+        if matchedchain is not None:
+            varname = matchedchain + ScopeLabel(name, 'signal')
+            if self.dataflow.hasTerm(varname):
+                return varname
+        raise verror.DefinitionError('No such signal: %s' % (localchain + ScopeLabel(name, 'signal')))
 
     # def searchScopeConstantDefinition(self, blocklabel, name, current):
     #    currentmodule = self.getModuleScopeChain(current)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 11444f5..dd195a1 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -450,24 +450,25 @@ class SignalVisitor(NodeVisitor):
     def hasConstantTerm(self, name):
         self.optimizer.hasTerm(name)
 
-    def toScopeChain(self, blocklabel):
+    def toScopeChain(self, blocklabel, current):
         scopelist = []
         for b in blocklabel.labellist:
             if b.loop is not None:
-                loop = self.optimize(b.loop)
+                loop = self.optimize(self.getTree(b.loop, current))
                 if not isinstance(loop, DFEvalValue):
                     raise verror.FormatError('Loop iterator should be constant')
-                scopelist.append(ScopeLabel(b.name, 'for', loop))
+                scopelist.append(ScopeLabel('for', 'for', loop.value))
             scopelist.append(ScopeLabel(b.name, 'any'))
         return ScopeChain(scopelist)
 
-    def searchScopeConstantValue(self, blocklabel, name):
-        currentmodule = self.frames.getCurrentModuleScopeChain()
-        localchain = currentmodule[-1:] + self.toScopeChain(blocklabel)
-        matchedchain = self.frames.searchMatchedScopeChain(currentmodule, localchain)
-        varname = currentmodule[:-1] + matchedchain + ScopeLabel(name, 'signal')
-        const = self.getConstant(varname)
-        return const
+    def searchScopeConstantValue(self, blocklabel, name, current):
+        localchain = self.toScopeChain(blocklabel, current)
+        matchedchain = self.frames.searchScopeChain(current, localchain)
+        if matchedchain is not None:
+            varname = matchedchain + ScopeLabel(name, 'signal')
+            if self.hasConstant(varname):
+                return self.getConstant(varname)
+        raise verror.DefinitionError('constant value not found: %s' % (localchain + ScopeLabel(name, 'signal')))
 
     # def searchScopeConstantDefinition(self, blocklabel, name):
     #    currentmodule = self.frames.getCurrentModuleScopeChain()
@@ -508,7 +509,7 @@ class SignalVisitor(NodeVisitor):
 
         if isinstance(node, Identifier):
             if node.scope is not None:
-                const = self.searchScopeConstantValue(node.scope, node.name)
+                const = self.searchScopeConstantValue(node.scope, node.name, scope)
                 return const
             return self.searchConstantValue(scope, node.name)
 
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index b075476..5a351dc 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -836,6 +836,46 @@ class FrameTable(object):
         previous = self.dict[key].getPrevious()
         return self.searchSignalDefinition(previous, name)
 
+    def searchScopeChain(self, current, target):
+        # the scope that a hierarchical name denotes: it starts below the
+        # innermost enclosing scope that has its first part
+        scope = current
+        while len(scope) > 0:
+            found = self.searchLowerScopeChain(scope, target)
+            if found is not None:
+                return found
+            frame = self.dict[scope]
+            if frame.isModule() and target[0].scopetype == 'any':
+                if target[0].scopename == (frame.getModuleName() or scope[-1].scopename):
+                    if len(target) == 1:
+                        return scope
+                    found = self.searchLowerScopeChain(scope, target[1:])
+                    if found is not None:
+                        return found
+            scope = scope[:-1]
+        return None
+
+    def searchLowerScopeChain(self, scope, target):
+        for nextscope in self.dict[scope].getNext():
+            label = nextscope[-1]
+            if label.scopetype == 'for' and target[0].scopetype == 'for':
+                matched = label.scopeloop == target[0].scopeloop
+            elif label.isPrintable():
+                matched = label == target[0]
+            else:
+                found = self.searchLowerScopeChain(nextscope, target)
+                if found is not None:
+                    return found
+                continue
+            if not matched:
+                continue
+            if len(target) == 1:
+                return nextscope
+            found = self.searchLowerScopeChain(nextscope, target[1:])
+            if found is not None:
+                return found
+        return None
+
     def searchMatchedScopeChain(self, currentchain, targetchain):
         skiplength = len(currentchain) - 1
         printable = currentchain[skiplength].isPrintable()
-- 
2.43.0


From 39203e8a1f1316f53c3c2b53018ab863cec44491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 112/132] fix: a hierarchical name can be assigned

---
 pyverilog/dataflow/bindvisitor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 998a9ae..71f15f3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1430,6 +1430,8 @@ class BindVisitor(NodeVisitor):
             return (name, None, None, None)
 
         if isinstance(left, Identifier):
+            if left.scope is not None:
+                return (self.searchScopeTerminal(left.scope, left.name, scope), None, None, None)
             name = self.searchTerminal(left.name, scope)
             if name is None:
                 m = re.search('none', self.default_nettype)
@@ -1442,8 +1444,6 @@ class BindVisitor(NodeVisitor):
                 if m:
                     self.addTerm(Reg(left.name), rscope=scope)
                 name = self.searchTerminal(left.name, scope)
-            if left.scope is not None:
-                name = left.scope + ScopeLabel(left.name, 'signal')
             return (name, None, None, None)
 
         if isinstance(left, Partselect):
@@ -1455,9 +1455,10 @@ class BindVisitor(NodeVisitor):
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
-            name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
-                name = left.var.scope + ScopeLabel(left.var.name, 'signal')
+                name = self.searchScopeTerminal(left.var.scope, left.var.name, scope)
+            else:
+                name = self.searchTerminal(left.var.name, scope)
             msb = self.optimize(self.makeDFTree(left.msb, scope))
             lsb = self.optimize(self.makeDFTree(left.lsb, scope))
             return (name, msb, lsb, None)
@@ -1471,9 +1472,10 @@ class BindVisitor(NodeVisitor):
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
-            name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
-                name = left.var.scope + ScopeLabel(left.var.name, 'signal')
+                name = self.searchScopeTerminal(left.var.scope, left.var.name, scope)
+            else:
+                name = self.searchTerminal(left.var.name, scope)
             ptr = self.optimize(self.makeDFTree(left.ptr, scope))
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
-- 
2.43.0


From 9a061c1ccf3cf2a81ea08248b9ae6ec5a436e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 113/132] fix: locals of a function are not signals of the
 scope that defines it

---
 pyverilog/dataflow/signalvisitor.py | 10 ++++++++--
 pyverilog/dataflow/visit.py         |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index dd195a1..c50abf6 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -86,13 +86,19 @@ class SignalVisitor(NodeVisitor):
     def visit_Function(self, node):
         self.frames.addFunction(node)
         self.frames.setFunctionDef()
-        self.generic_visit(node)
+        # (its statements are visited where it is called)
+        for statement in node.statement:
+            if isinstance(statement, (Decl, Ioport)):
+                self.visit(statement)
         self.frames.unsetFunctionDef()
 
     def visit_Task(self, node):
         self.frames.addTask(node)
         self.frames.setTaskDef()
-        self.generic_visit(node)
+        # (its statements are visited where it is called)
+        for statement in node.statement:
+            if isinstance(statement, (Decl, Ioport)):
+                self.visit(statement)
         self.frames.unsetTaskDef()
 
     def visit_Initial(self, node):
diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index 5a351dc..bd65e53 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -677,6 +677,9 @@ class FrameTable(object):
         if self.task_def and isinstance(var, Input):
             self.dict[self.current].addTaskPort(var)
             return
+        if self.function_def or self.task_def:
+            # what is declared in it belongs to each of its calls
+            return
         self.dict[self.current].addSignal(var)
 
     def addConst(self, var):
-- 
2.43.0


From 5492dc9b220349f8abd0f1e4c2dccc5f65004341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:26 +0000
Subject: [PATCH 114/132] fix: a condition that a reset is part of keeps its
 other parts

---
 pyverilog/controlflow/splitter.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/splitter.py b/pyverilog/controlflow/splitter.py
index c2ad643..658a785 100644
--- a/pyverilog/controlflow/splitter.py
+++ b/pyverilog/controlflow/splitter.py
@@ -57,12 +57,37 @@ def remove_reset_condlist(condlist):
 
 
 def _remove_reset_cond(cond):
-    condstr = cond.tostr()
-    if signaltype.isReset(condstr):
+    # what is not the reset stays: in "reset or a" it is a
+    if isinstance(cond, DFOperator) and cond.operator == 'Ulnot':
+        r = _remove_reset_cond(cond.nextnodes[0])
+        if r is None or r is cond.nextnodes[0]:
+            return None if r is None else cond
+        return DFOperator((r,), cond.operator)
+    if isinstance(cond, DFOperator) and cond.operator in ('Land', 'Lor', 'And', 'Or'):
+        nextnodes = tuple([_remove_reset_cond(n) for n in cond.nextnodes])
+        rest = tuple([n for n in nextnodes if n is not None])
+        if len(rest) == 0:
+            return None
+        if len(rest) == 1:
+            return DFOperator((rest[0], DFEvalValue(1)), 'And') if cond.operator == 'And' else rest[0]
+        if nextnodes[0] is cond.nextnodes[0] and nextnodes[1] is cond.nextnodes[1]:
+            return cond
+        return DFOperator(nextnodes, cond.operator)
+    names = _terminal_names(cond)
+    if names and all([signaltype.isReset(str(name[-1])) for name in names]):
         return None
     return cond
 
 
+def _terminal_names(node):
+    if isinstance(node, DFTerminal):
+        return [node.name]
+    names = []
+    for child in node.children():
+        names.extend(_terminal_names(child))
+    return names
+
+
 def active_constant(termname, node, op='>', value=0):
     if not isinstance(node, DFEvalValue):
         return False
-- 
2.43.0


From c009af3b85eec95a49daea579bda1d5787246077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:26 +0000
Subject: [PATCH 115/132] fix: active conditions of a signal that is always
 active

---
 pyverilog/controlflow/active_analyzer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 7b3c4c4..9bc6033 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -29,11 +29,13 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
             return {}
         tree = self.makeTree(termname)
         funcdict = splitter.split(tree)
-        funcdict = splitter.filter(funcdict, termname, condition)
+        if len(funcdict) == 0 and tree is not None:
+            funcdict = {(): tree}
+        # (before the filter: without the condition, what reset does stands for all)
         funcdict = splitter.remove_reset_condition(funcdict)
+        funcdict = splitter.filter(funcdict, termname, condition)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From e6ae46e106bbec0d3fd5fbb50a2a295e71c23eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:45 +0000
Subject: [PATCH 116/132] fix: constants that are declared with an ascending
 range

---
 pyverilog/dataflow/optimizer.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 64f3d25..00a66c4 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -138,7 +138,7 @@ class VerilogOptimizer(object):
                 msb_val = self.optimizeConstant(msb)
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
-                    constwidth = msb_val.value - lsb_val.value + 1
+                    constwidth = abs(msb_val.value - lsb_val.value) + 1
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
@@ -154,7 +154,7 @@ class VerilogOptimizer(object):
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
             if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb, self.getOffset(tree.var))
+                evalcc = self.evalPartselect(var, self.getPosition(tree.var, msb), self.getPosition(tree.var, lsb))
                 if evalcc is not None:
                     return evalcc
             if isinstance(tree.var, DFTerminal) and self.getOffset(tree.var) != 0:
@@ -170,7 +170,7 @@ class VerilogOptimizer(object):
             if term.dims is not None:
                 return DFPointer(var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr, self.getOffset(tree.var))
+                evalcc = self.evalPointer(var, self.getPosition(tree.var, ptr))
                 if evalcc is not None:
                     return evalcc
             if self.getOffset(tree.var) != 0:
@@ -459,15 +459,24 @@ class VerilogOptimizer(object):
             return lsb.value
         return 0
 
-    def evalPartselect(self, var, msb, lsb, offset=0):
+    def getPosition(self, node, index):
+        """ position of the bit at an index, counted from the least significant bit """
+        offset = self.getOffset(node)
+        if isinstance(node, DFTerminal):
+            msb = self.optimizeConstant(self.getTerm(node.name).msb)
+            if isinstance(msb, DFEvalValue) and msb.value < offset:
+                return DFEvalValue(offset - index.value)
+        return DFEvalValue(index.value - offset)
+
+    def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
-        low = lsb.value - offset
+        low = lsb.value
         if not isinstance(var.value, int) or width < 1 or low < 0 or low + width > self.getWidth(var):
             return None
         return DFEvalValue((var.value >> low) & ((1 << width) - 1), width)
 
-    def evalPointer(self, var, ptr, offset=0):
-        pos = ptr.value - offset
+    def evalPointer(self, var, ptr):
+        pos = ptr.value
         if not isinstance(var.value, int) or pos < 0 or pos >= self.getWidth(var):
             return None
         return DFEvalValue((var.value >> pos) & 0x1, 1)
-- 
2.43.0


From f63abaa8fe7e2338cf73ae42c14542812583f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 117/132] fix: delays in the dataflow compare their value

---
 pyverilog/dataflow/dataflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 5579354..2f3d21e 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -632,10 +632,10 @@ class DFDelay(DFNotTerminal):
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        return self.nextnodes == other.nextnodes
+        return self.nextnode == other.nextnode
 
     def __hash__(self):
-        return hash(tuple(self.nextnodes))
+        return hash(self.nextnode)
 
 
 class DFSyscall(DFNotTerminal):
-- 
2.43.0


From 6365e2a131a7d22d5bdb8692d8e26fa15b74d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 118/132] fix: terms can be hashed

---
 pyverilog/dataflow/dataflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 2f3d21e..d8bdaf9 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -720,7 +720,8 @@ class Term(object):
                 and self.dims == other.dims)
 
     def __hash__(self):
-        return hash((self.name, self.termtype, self.msb, self.lsb, self.dims))
+        dims = None if self.dims is None else tuple(self.dims)
+        return hash((self.name, frozenset(self.termtype), self.msb, self.lsb, dims))
 
     def getScope(self, termname):
         return termname[:-1]
-- 
2.43.0


From 295a1b9123caf54196c694445cb5d56809f91908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 119/132] fix: always blocks compare their clock and reset

---
 pyverilog/dataflow/visit.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index bd65e53..c401fdc 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -64,6 +64,24 @@ class AlwaysInfo(object):
         self.reset_bit = reset_bit
         self.senslist = senslist
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
+    def __eq__(self, other):
+        if type(self) != type(other):
+            return False
+        return (self.clock_name == other.clock_name
+                and self.clock_edge == other.clock_edge
+                and self.clock_bit == other.clock_bit
+                and self.reset_name == other.reset_name
+                and self.reset_edge == other.reset_edge
+                and self.reset_bit == other.reset_bit
+                and tuple(self.senslist) == tuple(other.senslist))
+
+    def __hash__(self):
+        return hash((self.clock_name, self.clock_edge, self.clock_bit,
+                     self.reset_name, self.reset_edge, self.reset_bit))
+
     def getClockName(self):
         return self.clock_name
 
-- 
2.43.0


From f88d4d1d57c946f168eae4718bc4b26366a647b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 120/132] fix: sensitivity list of an always block

---
 pyverilog/dataflow/visit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/visit.py b/pyverilog/dataflow/visit.py
index c401fdc..9789d25 100644
--- a/pyverilog/dataflow/visit.py
+++ b/pyverilog/dataflow/visit.py
@@ -100,6 +100,9 @@ class AlwaysInfo(object):
     def getResetBit(self):
         return self.reset_bit
 
+    def getSenslist(self):
+        return self.senslist
+
     def isClockEdge(self):
         if self.clock_name != '' and self.clock_edge == 'posedge':
             return True
-- 
2.43.0


From b7c9e3e7ad442bee9e8de9d9bb39e214fd74005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 121/132] fix: code of string and real constants in the
 dataflow

---
 pyverilog/dataflow/dataflow.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index d8bdaf9..ff28654 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -203,6 +203,9 @@ class DFStringConst(DFConstant):
         ret = '(StringConst ' + str(self.value) + ')'
         return ret
 
+    def tocode(self, dest='dest'):
+        return '"' + self.value + '"'
+
     def eval(self):
         return self.value
 
@@ -513,6 +516,10 @@ class DFEvalValue(DFNode):
         return ret
 
     def tocode(self, dest='dest'):
+        if self.isstring:
+            return '"' + self.value + '"'
+        if self.isfloat:
+            return '(' + repr(self.value) + ')' if self.value < 0 else repr(self.value)
         return self.__repr__()
 
     def children(self):
-- 
2.43.0


From 582b99b309dca6f70a6a4cdb34d42391af019c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 122/132] fix: code of a system call without arguments in the
 dataflow

---
 pyverilog/dataflow/dataflow.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index ff28654..a0df97b 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -666,9 +666,7 @@ class DFSyscall(DFNotTerminal):
 
     def tocode(self, dest='dest'):
         ret = '$' + self.syscall + '('
-        for n in self.nextnodes:
-            ret += n.tocode(dest) + ','
-        ret = ret[:-1]
+        ret += ','.join([n.tocode(dest) for n in self.nextnodes])
         ret += ')'
         return ret
 
-- 
2.43.0


From feebfdb5e2a66caec2d54781ad5289abddaf6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 123/132] fix: code of a clocked assignment keeps the bits of
 its clock and reset

---
 pyverilog/dataflow/dataflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index a0df97b..b7d0bf7 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -879,10 +879,14 @@ class Bind(object):
         if self.alwaysinfo.clock_edge is not None and self.alwaysinfo.clock_name is not None:
             code += self.alwaysinfo.clock_edge + ' '
             code += util.toFlatname(self.alwaysinfo.clock_name)
+            if self.alwaysinfo.clock_bit:
+                code += '[' + str(self.alwaysinfo.clock_bit) + ']'
         if self.alwaysinfo.reset_edge is not None and self.alwaysinfo.reset_name is not None:
             code += ' or '
             code += self.alwaysinfo.reset_edge + ' '
             code += util.toFlatname(self.alwaysinfo.reset_name)
+            if self.alwaysinfo.reset_bit:
+                code += '[' + str(self.alwaysinfo.reset_bit) + ']'
         code += ') begin\n'
         if isinstance(self.tree, DFBranch):
             code += self.tree.tocode(dest, always='clockedge')
-- 
2.43.0


From 7a23b2fd6288246fcde41edda52d624e354b9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 124/132] fix: code of signals below the top module

---
 pyverilog/dataflow/dataflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index b7d0bf7..c37dfd4 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -748,7 +748,9 @@ class Term(object):
             elif signaltype.isOutput(self.termtype):
                 code += 'output '
         else:
-            if signaltype.isInput(self.termtype):
+            if signaltype.isWire(self.termtype):
+                pass
+            elif signaltype.isInput(self.termtype):
                 code += 'wire '
             elif signaltype.isInout(self.termtype):
                 code += 'wire '
-- 
2.43.0


From c44a38010f800f139294f0d9d1c87571753ff949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 125/132] fix: regenerated code does not declare genvars

---
 pyverilog/dataflow/dataflow_codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index e2d24aa..91881a1 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -135,6 +135,8 @@ class VerilogCodeGenerator(VerilogSubset):
                 continue
             if signaltype.isInput(termtype) and tk == util.toTermname((self.topmodule, self.clock_name)):
                 continue
+            if signaltype.isGenvar(termtype):
+                continue
             code += tv.tocode()
 
         for pk, pv in parameter.items():
-- 
2.43.0


From 322b9b3b14529c4dd2d257f149b5f25ce1d8b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 126/132] fix: regenerated code has parameters with their
 declared value

---
 pyverilog/dataflow/dataflow_codegen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyverilog/dataflow/dataflow_codegen.py b/pyverilog/dataflow/dataflow_codegen.py
index 91881a1..02ff608 100644
--- a/pyverilog/dataflow/dataflow_codegen.py
+++ b/pyverilog/dataflow/dataflow_codegen.py
@@ -11,6 +11,7 @@ from __future__ import print_function
 import sys
 import os
 import re
+import copy
 
 import pyverilog.utils.util as util
 import pyverilog.utils.signaltype as signaltype
@@ -139,7 +140,11 @@ class VerilogCodeGenerator(VerilogSubset):
                 continue
             code += tv.tocode()
 
+        # (with the value and the width that the declaration gives them)
         for pk, pv in parameter.items():
+            if pk in self.constlist:
+                pv = copy.copy(pv)
+                pv.tree = self.constlist[pk]
             code += pv.tocode()
 
         # assign
-- 
2.43.0


From 0fdd2b6833067c35c43dd4e808f2eb362078f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 127/132] fix: regenerated code declares tri and supply nets

---
 pyverilog/dataflow/dataflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index c37dfd4..0973c42 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -767,6 +767,10 @@ class Term(object):
             code += 'wire '
         if signaltype.isRename(self.termtype):
             code += 'wire '
+        if signaltype.isTri(self.termtype):
+            code += 'tri '
+        if signaltype.isSupply(self.termtype):
+            code += 'wire '
 
         if (not signaltype.isInteger(self.termtype)
                 and self.msb is not None and self.lsb is not None):
-- 
2.43.0


From 9b52aefcf46299a66e98d3bbd512b4c6d9156ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 128/132] fix: resolved constants have the bits of their
 declaration

---
 pyverilog/dataflow/optimizer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 00a66c4..5917da1 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -1121,19 +1121,31 @@ class VerilogDataflowOptimizer(VerilogOptimizer):
     def getTerm(self, name):
         return self.terms[name]
 
+    def getDeclaredValue(self, name, value):
+        """ value of a constant, with the bits that its declared range has """
+        term = self.getTerm(name)
+        if not isinstance(value, DFEvalValue) or term.msb is None or term.lsb is None:
+            return value
+        declared = self.fitConstant(value, self.optimizeConstant(term.msb), self.optimizeConstant(term.lsb))
+        width = declared.width
+        if value.isfloat or value.isstring or width == 32 or -(1 << (width - 1)) <= value.value < 0:
+            # (without a declared range it has the width of its value, and where it is signed it keeps its sign)
+            return value
+        return declared
+
     def resolveConstant(self):
         # 2-pass
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
             termtype = self.getTerm(bk).termtype
             if signaltype.isParameter(termtype) or signaltype.isLocalparam(termtype):
-                rslt = self.optimizeConstant(bv[0].tree)
+                rslt = self.getDeclaredValue(bk, self.optimizeConstant(bv[0].tree))
                 if isinstance(rslt, DFEvalValue):
                     self.constlist[bk] = rslt
 
         for bk, bv in sorted(self.binddict.items(), key=lambda x: len(x[0])):
             termtype = self.getTerm(bk).termtype
             if signaltype.isParameter(termtype) or signaltype.isLocalparam(termtype):
-                rslt = self.optimizeConstant(bv[0].tree)
+                rslt = self.getDeclaredValue(bk, self.optimizeConstant(bv[0].tree))
                 if isinstance(rslt, DFEvalValue):
                     self.constlist[bk] = rslt
 
-- 
2.43.0


From 9f9c4fc23a45e3bd97dcab11b46d33d024e8fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 129/132] fix: code of negative constants in the dataflow is
 signed

---
 pyverilog/dataflow/dataflow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/dataflow.py b/pyverilog/dataflow/dataflow.py
index 0973c42..8252411 100644
--- a/pyverilog/dataflow/dataflow.py
+++ b/pyverilog/dataflow/dataflow.py
@@ -520,6 +520,8 @@ class DFEvalValue(DFNode):
             return '"' + self.value + '"'
         if self.isfloat:
             return '(' + repr(self.value) + ')' if self.value < 0 else repr(self.value)
+        if self.value < 0:
+            return self.__repr__().replace("'d", "'sd")
         return self.__repr__()
 
     def children(self):
-- 
2.43.0


From b635ca487ecf2d5178237b67de253d93136d6f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 130/132] fix: supply nets are assigned as nets in the dataflow

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 71f15f3..ef1d867 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -98,7 +98,7 @@ class BindVisitor(NodeVisitor):
         self.addTerm(node)
         current = self.frames.getCurrent()
         name = current + ScopeLabel(node.name, 'signal')
-        self.addBind(node.name, node.value, bindtype='parameter')
+        self.addBind(node.name, node.value)
 
     def visit_Localparam(self, node):
         self.addTerm(node)
-- 
2.43.0


From 00ccf44b97979917c264099517ece2d5d223680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:02 +0000
Subject: [PATCH 131/132] fix: all bits of a supply1 vector are 1

---
 pyverilog/dataflow/bindvisitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index ef1d867..09155a0 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -98,7 +98,10 @@ class BindVisitor(NodeVisitor):
         self.addTerm(node)
         current = self.frames.getCurrent()
         name = current + ScopeLabel(node.name, 'signal')
-        self.addBind(node.name, node.value)
+        value = node.value
+        if node.width is not None and value.value == '1':
+            value = Unot(IntConst('0'))  # all bits are 1
+        self.addBind(node.name, value)
 
     def visit_Localparam(self, node):
         self.addTerm(node)
-- 
2.43.0


From e5f1a08c8bb5b80fb1dfee65cc56b772ae1e6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:58 +0000
Subject: [PATCH 132/132] fix: a concatenated target takes the bits of a source
 whose declared range does not start at 0

The parts of the source are counted from its least significant bit; they were
used as indices, which are other bits of a signal declared [7:4] or [0:3].
---
 pyverilog/dataflow/bindvisitor.py | 47 +++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 09155a0..b4f0dff 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1493,8 +1493,7 @@ class BindVisitor(NodeVisitor):
         for name, msb, lsb, ptr, part_msb, part_lsb in dst:
             tree = raw_tree
             if len(dst) > 1:
-                tree = reorder.reorder(
-                    DFPartselect(raw_tree, part_msb, part_lsb))
+                tree = self.makePart(raw_tree, part_msb, part_lsb)
             bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                  tree, condlist, flowlist,
                                  alwaysinfo=alwaysinfo,
@@ -1508,6 +1507,45 @@ class BindVisitor(NodeVisitor):
                                           part_msb, part_lsb,
                                           alwaysinfo)
 
+    def makePart(self, tree, part_msb, part_lsb):
+        """ part of a value for one of the targets of a concatenation,
+        part_msb and part_lsb count from its least significant bit """
+        tree = reorder.reorder(tree)
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode,
+                            self.makePart(tree.truenode, part_msb, part_lsb),
+                            self.makePart(tree.falsenode, part_msb, part_lsb))
+        if tree is None:
+            return None
+        declared = tree.var if isinstance(tree, DFPointer) else tree
+        if isinstance(declared, DFTerminal):
+            msb, lsb = self.getBitRange(declared.name, isinstance(tree, DFPointer))
+            if msb is None or lsb is None:
+                pass
+            elif msb < lsb:
+                part_msb = DFOperator((DFIntConst(str(lsb)), part_msb), 'Minus')
+                part_lsb = DFOperator((DFIntConst(str(lsb)), part_lsb), 'Minus')
+            elif lsb != 0:
+                part_msb = DFOperator((part_msb, DFIntConst(str(lsb))), 'Plus')
+                part_lsb = DFOperator((part_lsb, DFIntConst(str(lsb))), 'Plus')
+        return reorder.reorder(DFPartselect(tree, part_msb, part_lsb))
+
+    def getBitRange(self, name, word=False):
+        """ declared range of the bits of a signal, or of a word of it """
+        term = self.dataflow.getTerm(name)
+        if term is None:
+            return (None, None)
+        if term.msb is None:
+            # the module of a port is visited after its connections
+            key, definitions = self.frames.searchSignalDefinition(name[:-1], name[-1].scopename)
+            return (None, None) if word else self._getDeclaredRange(definitions, name[:-1])
+        if word != (term.dims is not None):
+            return (None, None)
+        msb, lsb = self.optimize(term.msb), self.optimize(term.lsb)
+        if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+            return (None, None)
+        return (msb.value, lsb.value)
+
     def setDataflow_rename(self, dst, raw_tree, condlist, flowlist,
                            scope, alwaysinfo=None):
         renamed_dst = self.getRenamedDst(dst)
@@ -1518,7 +1556,7 @@ class BindVisitor(NodeVisitor):
                              part_msb, part_lsb, alwaysinfo):
         tree = raw_tree
         if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
+            tree = self.makePart(raw_tree, part_msb, part_lsb)
         bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
         self.frames.addNonblockingAssign(name, bind)
 
@@ -1553,8 +1591,7 @@ class BindVisitor(NodeVisitor):
         for name, msb, lsb, ptr, part_msb, part_lsb in renamed_dst:
             tree = raw_tree
             if len(renamed_dst) > 1:
-                tree = reorder.reorder(
-                    DFPartselect(tree, part_msb, part_lsb))
+                tree = self.makePart(tree, part_msb, part_lsb)
             bind = Bind(tree, name, msb, lsb, ptr)
             self.dataflow.addBind(name, bind)
 
-- 
2.43.0

