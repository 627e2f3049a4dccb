From 9a93aeb426ec21e6093fa009afc11526360e933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 01/56] fix: don't hang on an unterminated [[ long string when
 reading p8/lua code

---
 pico_preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 1194164..3341ee5 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -38,7 +38,8 @@ def preprocess_code(path, code, start_line=0, **opts):
                     i += 1
 
         elif ch == '[' and list_get(code, i + 1) == '[': # long string
-            skip_long_brackets()
+            if not skip_long_brackets():
+                i += 1
 
         elif ch in ('"', "'"): # string
             i += 1
-- 
2.43.0


From a299dc54257e9b1dfea584035d5b825b22e599bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 02/56] fix: old compression of very repetitive code could emit
 matches shorter than the minimum

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 88eb30e..edf42e3 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -226,7 +226,7 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
                     if no_repeat:
                         c = min(c, i - j)
                     
-                    if not (max_o != None and j < i - max_o):
+                    if c >= min_c and not (max_o != None and j < i - max_o):
                         best_c, best_j = c, j
                 
             return best_c, best_j
-- 
2.43.0


From 3f3020eab093c1d99735b98be38246e3962bec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 03/56] fix: unminify removed the semicolon that separates a
 statement from a following parenthesis

---
 pico_unminify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_unminify.py b/pico_unminify.py
index e17dff4..c2f4efc 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -44,7 +44,10 @@ def unminify_code(root, unminify_opts):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded
+        # (except for those that prevent the next statement from being parsed as a call)
         if token.parent.type == NodeType.block and token.value == ";":
+            if token.next_token().value == "(":
+                output.insert(-1 if output and output[-1] == "\n" else len(output), value)
             return
         
         # undo ugly token replacements
-- 
2.43.0


From 123233e36b6fa39f8dcd09d9d8d4309a1b1387b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 04/56] fix: unminify turned a double negation into a comment

---
 pico_unminify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index c2f4efc..79a2ac6 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -58,7 +58,8 @@ def unminify_code(root, unminify_opts):
                 token.value not in k_tight_suffix_tokens and \
                 not (token.value in ("(", "[") and (prev_token.type == TokenType.ident or 
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
-                not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op):
+                not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op and 
+                     not (prev_token.value == "-" and value.startswith("-"))):
             output.append(" ")
 
         output.append(value)
-- 
2.43.0


From 46f7d5aebecad2d182cd1e88fae04e56c0547c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 05/56] fix: unminify merged an opening bracket with a long
 string following it

---
 pico_unminify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_unminify.py b/pico_unminify.py
index 79a2ac6..de74fb9 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -62,6 +62,9 @@ def unminify_code(root, unminify_opts):
                      not (prev_token.value == "-" and value.startswith("-"))):
             output.append(" ")
 
+        elif prev_tight and prev_token.value == "[" and value.startswith("["):
+            output.append(" ") # (keep a long string from merging with the bracket)
+
         output.append(value)
         prev_token = token
         prev_tight = True
-- 
2.43.0


From 228ea9477f51362cd4fd498e8f296edc6b283ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 06/56] fix: merging 'local a=f()' with a following 'local b'
 assigned f's second result to b

---
 pico_minify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..43dba12 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -258,6 +258,10 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             ((prev.sources and is_vararg_expr(prev.sources[-1])) or (next.sources and is_vararg_expr(next.sources[-1])) or len(next.targets) < len(next.sources))):
         return
     
+    # a last source that provides multiple values must not become the source of next's targets
+    if prev.sources and is_vararg_expr(prev.sources[-1]) and not next.sources:
+        return
+    
     merge_prev = getattr(next.first_token(), "merge_prev", None)
     if merge_prev is False:
         return
-- 
2.43.0


From 4840d1d6d884ba4fd5a9053f489d5050e55af4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 07/56] fix: erasing constants from a declaration could give
 another local the extra results of a call

---
 pico_constfold.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7699120..c45c86a 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -499,6 +499,13 @@ def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
         indices.pop() # can't deal with this easily otherwise
 
+    # the last source can't be erased if that would make the source before it provide multiple values
+    num_sources = len(node.sources)
+    if len(node.targets) > num_sources and num_sources - 1 in indices:
+        rest_sources = [source for i, source in enumerate(node.sources) if i not in indices]
+        if rest_sources and is_vararg_expr(rest_sources[-1]) and len(node.targets) - len(indices) > len(rest_sources):
+            indices.remove(num_sources - 1)
+
     def delete_array_item(node, array, i):
         child_i = node.children.index(array[i])
         node.remove_child(child_i)
-- 
2.43.0


From 7c29e68194437374b88114d60e1c4d2f70e378d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 08/56] fix: folding a shift or rotation by -32768 recursed
 endlessly

---
 pico_constfold.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index c45c86a..990c596 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -286,37 +286,42 @@ def lua_bin_xor(lang, a, b):
     elif a.is_integer_cvt and b.is_integer_cvt:
         return LuaInteger(a.uint_value ^ b.uint_value)
 
+def _lua_shift_neg(lang, func, a, b):
+    neg_b = lua_neg(lang, b)
+    if neg_b.value != b.value: # else, can't be negated (avoid relying on behavior of such a shift)
+        return func(lang, a, neg_b)
+
 def lua_shl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             if not fixnum_is_negative(a.value): # avoid relying on questionable shift-left-neg-by-neg behaviour
-                return lua_lshr(lang, a, lua_neg(lang, b))
+                return _lua_shift_neg(lang, lua_lshr, a, b)
         elif fixnum_is_whole(b.value): # avoid relying on shift-by-fract behaviour
             return LuaFixnum(a.value << min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
         if b.value < 0:
-            return lua_shr(lang, a, lua_neg(lang, b))
+            return _lua_shift_neg(lang, lua_shr, a, b)
         else:
             return LuaInteger(a.uint_value << min(b.uint_value, 64))
 
 def lua_shr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_shl(lang, a, lua_neg(lang, b))
+            return _lua_shift_neg(lang, lua_shl, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(fixnum_to_signed(a.value) >> min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
         if b.value < 0:
-            return lua_shl(lang, a, lua_neg(lang, b))
+            return _lua_shift_neg(lang, lua_shl, a, b)
         elif a.value >= 0: # avoid relying on inconsistent shift-right-neg behaviour (for now?)
             return LuaInteger(a.uint_value >> min(b.uint_value, 64))
 
 def lua_lshr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_shl(lang, a, lua_neg(lang, b))
+            return _lua_shift_neg(lang, lua_shl, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(a.value >> min(fixnum_to_whole(b.value), 32))
     # not yet(?) impl. for picotron?
@@ -324,7 +329,7 @@ def lua_lshr(lang, a, b):
 def lua_rotl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_rotr(lang, a, lua_neg(lang, b))
+            return _lua_shift_neg(lang, lua_rotr, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_left(a.value, fixnum_to_whole(b.value), 32))
     # not yet(?) impl. for picotron?
@@ -332,7 +337,7 @@ def lua_rotl(lang, a, b):
 def lua_rotr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_rotl(lang, a, lua_neg(lang, b))
+            return _lua_shift_neg(lang, lua_rotl, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_right(a.value, fixnum_to_whole(b.value), 32))
     # not yet(?) impl. for picotron?
-- 
2.43.0


From 36f4fe06a47ee15aa64f959a8f3d4e6639dc32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 09/56] Revert "fix: merging 'local a=f()' with a following
 'local b' assigned f's second result to b"

This reverts commit 228ea9477f51362cd4fd498e8f296edc6b283ee4.
---
 pico_minify.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 43dba12..26f09c3 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -258,10 +258,6 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             ((prev.sources and is_vararg_expr(prev.sources[-1])) or (next.sources and is_vararg_expr(next.sources[-1])) or len(next.targets) < len(next.sources))):
         return
     
-    # a last source that provides multiple values must not become the source of next's targets
-    if prev.sources and is_vararg_expr(prev.sources[-1]) and not next.sources:
-        return
-    
     merge_prev = getattr(next.first_token(), "merge_prev", None)
     if merge_prev is False:
         return
-- 
2.43.0


From 6d8bf35b348bd095e8ef4c0e35299dec28851394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 10/56] fix: shorthands whose body got erased by constant
 folding were left without a body

---
 pico_constfold.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 990c596..0313e12 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -1,7 +1,7 @@
 from utils import *
 from pico_defs import *
 from pico_tokenize import Token, TokenType, ConstToken, k_skip_children, tokenize, KeepCommentFlags
-from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr
+from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt
 from pico_output import format_fixnum, format_luanum
 
 class LuaType(Enum):
@@ -753,6 +753,17 @@ def fold_consts(ctxt, minify_opts, root, errors):
 
     root.traverse_nodes(pre=skip_special, post=update_node_constval)
 
+    # shorthands whose body got entirely erased need something in its place
+    def fixup_empty_short(node):
+        if node.type == NodeType.block and node.stmts and node.parent and is_short_block_stmt(node.parent):
+            tokens = node.get_tokens()
+            if all(token.value == ";" for token in tokens):
+                node.stmts.clear()
+                if not tokens:
+                    node.insert_token(0, TokenType.punct, ";")
+
+    root.traverse_nodes(post=fixup_empty_short)
+
 def parse_constant(value, lang, as_str=False):
     if as_str:
         return LuaString(to_langstr(value, lang))
-- 
2.43.0


From 4bbda4810f6aac188a085d6b755e1705a5e77ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 11/56] fix: a comment following a shorthand or '?' could pull
 the next statement into its line

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index d02e13c..c4865e1 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -312,7 +312,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
+            if (need_linebreak or prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
-- 
2.43.0


From a2813ea0f658c4ba00cccc3cea7e7467a00ddd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 12/56] fix: if/while with an erased body, or one starting with
 a parenthesis, became an invalid shorthand

---
 pico_minify.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..a2f1c7e 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -87,7 +87,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
 
             # can the node be converted to shorthand?
             if not to_short and not has_elseif:
-                has_empties, starts_with_do = False, False
+                has_empties, bad_start = False, False
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
@@ -98,15 +98,17 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     if not allow_child_shorthands(node, body):
                         allow_shorthand = False
                     
-                    if not body.children:
+                    body_tokens = body.get_tokens()
+                    if not body_tokens:
                         has_empties = True
                     
-                    if i == 0:
+                    elif i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = body.first_token().value == "do"
+                        # or with a parenthesis. (would be part of the condition)
+                        bad_start = body_tokens[0].value in ("do", "(")
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
-                to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
+                to_short = allow_shorthand and not (has_empties and not focus.chars) and not bad_start
                 if to_short:
                     allowed_shorts.add(node)
             
@@ -173,7 +175,7 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not body.children:
+            if not body.get_tokens():
                 body.append_token(TokenType.punct, ";")
         
         on_enable_shorthand(node)
-- 
2.43.0


From 17a6ac51c79e523a92ddd449bc2795bddb69ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:52 +0000
Subject: [PATCH 13/56] fix: a line break inside a block comment does not end
 the shorthand before it

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index c4865e1..425e95a 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -355,7 +355,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
 
-        if need_linebreak and "\n" in comment_out:
+        if need_linebreak and "\n" in comment_out and not comment.isblock: # (line breaks inside block comments do not end a shorthand)
             need_linebreak = False
 
     def token_output(token):
-- 
2.43.0


From a6c9c5d2c5128a153204929248f4ee7a630106e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 14/56] fix: folding a constant if could join the statement
 before it with a following parenthesis

---
 pico_constfold.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 0313e12..2c84c78 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -481,7 +481,7 @@ def fixup_syntax_between(parent, prev, next):
     nextt = next.first_token()
     if nextt and nextt.value == "(":
         prevt = prev.last_token()
-        if prevt.value in (")", "]") or prevt.type == TokenType.ident:
+        if prevt.value in (")", "]", "}") or prevt.type in (TokenType.ident, TokenType.string):
             i = parent.children.index(prev)
             parent.insert_token(i+1, TokenType.punct, ";", near_next=True)
 
@@ -658,6 +658,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
         elif node.type in (NodeType.if_, NodeType.elseif):
             constval = get_const(node.cond)
             if constval:
+                was_stmt = node.type == NodeType.if_
+
                 if constval.is_truthy:
                     if node.else_:
                         node.else_.erase(KeepCommentFlags.first)
@@ -685,6 +687,9 @@ def fold_consts(ctxt, minify_opts, root, errors):
                             remove_else_node(node.parent)
                         else:
                             node.replace_with(node.else_)
+
+                if was_stmt:
+                    fixup_syntax_after_remove(node)
     
         # store which node was expected to be const but isn't
         if in_const_ctxt and node.type != NodeType.const and const_ctxt_fail is None:
-- 
2.43.0


From c13f6d6a78e733459c11dd4e7bd44dd453ff04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 15/56] fix: a parenthesis on the line after a shorthand or '?'
 was parsed as a part of it

---
 pico_parse.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pico_parse.py b/pico_parse.py
index 4d0f0e3..0db91d4 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -306,6 +306,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     labelscope = LabelScope(None, funcdepth)
     curr_compiler = None
     unresolved_labels = None
+    short_vline = None # line of the innermost shorthand (if any), whose statements can't go on to the next line
     errors = []
     if lang is None:
         lang = ctxt.lang if ctxt else Language.pico8
@@ -643,6 +644,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_expr(prec=None):
         expr = parse_core_expr()
+        if expr.short: # nothing can follow a '?'
+            return expr
+
         while True:
             nonlocal idx
             token = take()
@@ -654,7 +658,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
                 index = parse_expr()
                 close = require("]")
                 expr = Node(NodeType.index, [expr, token, index, close], key=index, child=expr)
-            elif value == "(" and expr.type in k_prefix_types:
+            elif value == "(" and expr.type in k_prefix_types and not (e(short_vline) and token.vline > short_vline):
                 expr = parse_call(expr)
             elif (value == "{" or peek(-1).type == TokenType.string) and expr.type in k_prefix_types:
                 idx -= 1
@@ -832,8 +836,11 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return Node(NodeType.return_, tokens, items=rets)
         
     def parse_print():
+        nonlocal short_vline
         tokens = [peek(-1)]
+        old_short_vline, short_vline = short_vline, tokens[0].vline
         args = parse_list(tokens, parse_expr)
+        short_vline = old_short_vline
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
         func = parse_var(token=print_token, implicit=True)
@@ -955,7 +962,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return parse_misc_stmt()
 
     def parse_block(vline=None, with_until=False, inline=False):
-        nonlocal scope, labelscope, depth
+        nonlocal scope, labelscope, depth, short_vline
+        old_short_vline, short_vline = short_vline, vline
+
         if not inline:
             oldscope = scope
             labelscope = LabelScope(labelscope, funcdepth)
@@ -980,6 +989,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         if with_until:
             until = parse_until()
 
+        short_vline = old_short_vline
+
         if not inline:
             depth -= 1
             labelscope = labelscope.parent
-- 
2.43.0


From 38c2551be4bd07fd5d7aebd013c4f4dc6c2c2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 16/56] fix: folding 'true and f()' could let f provide more
 than one value

---
 pico_constfold.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 2c84c78..5d3d968 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -544,6 +544,11 @@ def erase_assign_targets(node, indices):
 def create_const_node(token):
     return Node(NodeType.const, [token], token=token)
 
+def create_group_node(node):
+    open_token = Token.synthetic(TokenType.punct, "(", node, prepend=True)
+    close_token = Token.synthetic(TokenType.punct, ")", node, append=True)
+    return Node(NodeType.group, [open_token, node, close_token], child=node)
+
 def create_do_node_if_needed(node):
     needed = False
 
@@ -624,7 +629,10 @@ def fold_consts(ctxt, minify_opts, root, errors):
                     
                     if constval:
                         if constval is node.right:
-                            node.replace_with(node.right)
+                            if is_vararg_expr(node.right): # must still be a single value
+                                node.replace_with(create_group_node(node.right))
+                            else:
+                                node.replace_with(node.right)
                         else:
                             set_const(node, constval, ctxt, focus, in_const_ctxt)
 
-- 
2.43.0


From cd79abdcbac7196e2d72fe7814a8e87af1bc7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 17/56] fix: a folded while condition that became a shorthand
 recursed endlessly

---
 pico_tokenize.py | 1861 +++++++++++++++++++++++-----------------------
 1 file changed, 934 insertions(+), 927 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 99ad0d9..7ec4e48 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -1,927 +1,934 @@
-from utils import *
-from pico_preprocess import k_wspace
-from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
-
-keywords = {
-    "and", "break", "do", "else", "elseif", "end", "false", 
-    "for", "function", "goto", "if", "in", "local", "nil", 
-    "not", "or", "repeat", "return", "then", "true", "until",
-    "while"
-}
-
-def split_hint_args(data, ctxt=None):
-    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
-    name, args = name.strip(), args.strip()
-    if ctxt and ctxt.map_aliases:
-        name, args = ctxt.map_aliases(name, args)
-    return name, args
-
-class StopTraverse(BaseException):
-    pass
-
-k_skip_children = True # value returnable from traverse's pre-function
-
-class KeepCommentFlags(Bitmask):
-    first = last = ...
-
-class TokenNodeBase:
-    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
-    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
-
-    def __init__(m):
-        m.parent, m.children = None, ()
-
-    def __repr__(m):
-        return "%s(type=%s)" % (typename(m), m.type)
-
-    def __str__(m):
-        reprlist = []
-        for key, val in m.__dict__.items():
-            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
-                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
-                continue
-            reprlist.append("%s=%r" % (key, val))
-        return "%s(%s)" % (typename(m), ", ".join(reprlist))
-    
-    @property
-    def source_text(m):
-        if m.source and m.idx != None and m.endidx != None:
-            return m.source.text[m.idx:m.endidx]
-        else:
-            return None
-    
-    def find_parent(m, type):
-        parent = m.parent
-        while parent and parent.type != type:
-            parent = parent.parent
-        return parent
-
-    def _sibling(m, delta):
-        parent = m.parent
-        if parent is None:
-            return None
-        i = parent.children.index(m) + delta
-        return list_get(parent.children, i)
-
-    def next_sibling(m): return m._sibling(1)
-    def prev_sibling(m): return m._sibling(-1)
-
-    def _adjacent(m, delta):
-        while m:
-            sib = m._sibling(delta)
-            if sib:
-                return sib
-            m = m.parent
-        return None
-
-    def _find_token(m, delta, adjacent=False):
-        i = 0 if delta > 0 else -1
-        if adjacent:
-            m = m._adjacent(delta)
-        while isinstance(m, Node):
-            if m.children:
-                m = m.children[i]
-            else:
-                m = m._adjacent(delta)
-        return m if m else Token.none
-
-    def next_token(m): return m._find_token(1, adjacent=True)
-    def prev_token(m): return m._find_token(-1, adjacent=True)
-
-    def first_token(m): return m._find_token(1)
-    def last_token(m): return m._find_token(-1)
-
-    def find_or_create_token(m, child_i=0, last=False):
-        for_child = child_i < len(m.children) and not last
-        if for_child:
-            m = m.children[child_i]
-        token = m.first_token() if for_child else m.next_token()
-        is_after = True
-        if token is Token.none:
-            token = m.next_token() if for_child else m.last_token()
-            is_after = for_child
-            if token is Token.none:
-                token = m.prev_token()
-                is_after = False
-                if token is Token.none:
-                    token = Token.dummy(m.source)
-                    # we should only reach here when m is an empty node of some kind
-                    m.append_existing(token)
-        return token, is_after
-
-    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
-        skip = pre(m) if pre else None
-        if not skip:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_nodes(pre, post, tokens, extra)
-                elif tokens:
-                    tokens(child)
-            if extra and hasattr(m, "extra_children"):
-                for child in m.extra_children:
-                    child.traverse_nodes(pre, post, tokens, extra)
-        if post: post(m)
-
-    def traverse_tokens(m, visit):
-        if isinstance(m, Token):
-            visit(m)
-        else:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_tokens(visit)
-                else:
-                    visit(child)
-    
-    def traverse_parents(m, visit):
-        parent = m.parent
-        while parent:
-            visit(parent)
-            parent = parent.parent
-
-    def collect_comments(m, irrelevant=False, flags=None):
-        comments = []
-        def visit(token):
-            nonlocal comments
-            comments += token.children
-        
-        if isinstance(flags, KeepCommentFlags):
-            first_token = m.first_token() if flags.first else None
-            last_token = m.last_token() if flags.last else None
-            if first_token:
-                visit(first_token)
-            if last_token and last_token != first_token:
-                visit(last_token)
-        else:
-            m.traverse_tokens(visit)
-
-        if irrelevant:
-            comments = [c for c in comments if c.hint != CommentHint.auto]
-        return comments
-
-    def add_extra_child(m, child):
-        if not hasattr(m, "extra_children"):
-            m.extra_children = []
-        child.parent = m
-        child.extra_i = len(m.extra_children)
-        m.extra_children.append(child)
-    
-    def is_extra_child(m):
-        return hasattr(m, "extra_i")
-    
-    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
-        cpy = copy(m)
-        for child in cpy.children:
-            child.parent = cpy
-        m.erase()
-        return cpy
-
-    def copy(m):
-        cpy = copy(m)
-        cpy.children = [child.copy() for child in m.children]
-        for child in cpy.children:
-            child.parent = cpy
-        for key, val in cpy.__dict__.items():
-            idx = list_find(m.children, val)
-            if idx >= 0:
-                cpy.__dict__[key] = cpy.children[idx]
-        return cpy
-
-class TokenType(Enum):
-    number = string = ident = keyword = punct = ...
-    compiler = ... # special
-
-class Token(TokenNodeBase):
-    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
-    For number/string tokens, the actual value is 'parsed_value'
-    Its children are the comments *before* it, if any."""
-
-    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
-        super().__init__()
-        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
-    
-    def check(m, expected):
-        if isinstance(expected, tuple):
-            assert m.value in expected
-        else:
-            assert m.value == expected
-
-    def modify(m, value, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.value = value
-        m.modified = True
-        lazy_property.clear(m, "parsed_value")
-    
-    def erase(m, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.type, m.value, m.modified = None, None, True
-
-    def add_comments(m, comments, first=False):
-        if m.children == ():
-            m.children = []
-        if first:
-            m.children[0:0] = comments
-        else:
-            m.children += comments
-    
-    def remove_comments(m):
-        m.children = ()
-
-    @lazy_property
-    def parsed_value(m):
-        if m.type == TokenType.number:
-            if m.lang == Language.picotron:
-                return parse_luanum(m.value)
-            else:
-                return parse_fixnum(m.value)
-        elif m.type == TokenType.string:
-            return parse_string_literal(m.value, m.lang)
-        else:
-            return None
-
-    @classmethod
-    def dummy(cls, source):
-        idx = len(source.text) if source else 0
-        vline = sys.maxsize if source else 0
-        return cls(None, None, source, idx, idx, vline, None)
-
-    @classmethod
-    def synthetic(cls, type, value, other, append=False, prepend=False):
-        idx = other.endidx if append else other.idx
-        endidx = other.idx if prepend else other.endidx
-        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
-
-Token.none = Token.dummy(None)
-
-class ConstToken(Token):
-    def __init__(m, type, parsed_value, other):
-        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
-        m.parsed_value = parsed_value
-        lazy_property.clear(m, "value")
-
-    @lazy_property
-    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
-                  # (but not used for output under minify-tokens)
-        if isinstance(m.parsed_value, (int, float)):
-            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
-            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
-            return format_num(m.parsed_value, sign=None if allow_unary else "")
-        else:
-            return format_string_literal(m.parsed_value, long=False)
-
-    @post_property_change
-    def parent(m, old, new):
-        lazy_property.clear(m, "value")
-
-class CommentHint(Enum):
-    none = auto = preserve = lint = keep = ...
-
-k_keep_prefix = "keep:"
-
-class Comment(TokenNodeBase):
-    """A pico8 comment, optionally holding some kind of hint"""
-
-    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
-        super().__init__()
-        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
-        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
-
-    def modify(m, value):
-        m.value = value
-        m.modified = True
-
-    @property
-    def value(m):
-        return m.source_text
-
-def is_ident_char(ch, lang=Language.pico8):
-    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
-            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
-
-def is_identifier(str, lang=Language.pico8):
-    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
-    
-k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
-
-k_hint_split_re = re.compile(r"[\s,]+")
-
-class NextTokenMods:
-    def __init__(m):
-        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
-        m.comments = None
-        
-    def add_comment(m, cmt):
-        if m.comments is None:
-            m.comments = []
-        m.comments.append(cmt)
-
-def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
-    text = source.text
-    idx = 0
-    vline = 0
-    tokens = []
-    errors = []
-    real_tokens = None
-    next_mods = None
-    if lang is None:
-        lang = ctxt.lang if ctxt else Language.pico8
-    
-    is_pico8 = lang == Language.pico8
-    is_picotron = lang == Language.picotron
-
-    def peek(off=0):
-        i = idx + off
-        return text[i] if 0 <= i < len(text) else ''
-
-    def take():
-        nonlocal idx
-        ch = peek()
-        idx += 1
-        return ch
-
-    def accept(ch,):
-        nonlocal idx
-        if peek() == ch:
-            idx += 1
-            return True
-        return False
-
-    def accept_one_of(*chs):
-        nonlocal idx
-        if peek() in chs:
-            idx += 1
-            return True
-        return False
-
-    def get_next_mods():
-        nonlocal next_mods
-        if next_mods is None:
-            next_mods = NextTokenMods()
-        return next_mods
-
-    def add_token(type, start, end_off=0, value=None):
-        end = idx + end_off
-        if value is None and type is not None: # (dummy tokens have type==value==None)
-            value = text[start:end]
-        token = Token(type, value, source, start, end, vline, lang)
-        tokens.append(token)
-        
-        nonlocal next_mods
-        if next_mods != None:
-            add_next_mods(token, next_mods)
-            next_mods = None
-        return token
-
-    def add_error(msg, off=-1):
-        add_token(None, idx + off) # error token
-        errors.append(Error(msg, tokens[-1]))
-
-    def add_dyn_include(include_data):
-        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
-            include_name, include_args = split_hint_args(include_data, ctxt)
-            include_func = ctxt.include_getter(include_name)
-            if include_func:
-                included_str = include_func(args=include_args, ctxt=ctxt)
-                if included_str != None:
-                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
-                    tokens.extend(included_tokens)
-                    errors.extend(included_errors)
-                    return
-            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
-
-    def add_sublang(token, sublang_data):
-        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
-            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
-
-            sublang_cls = ctxt.sublang_getter(sublang_name)
-            if sublang_cls:
-                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
-                token.sublang_name = sublang_name
-                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
-                                            ctxt=ctxt, on_error=add_lang_error)
-            else:
-                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
-
-    def switch_compiler(compiler_data):
-        nonlocal real_tokens, tokens
-        if real_tokens != None:
-            real_tokens, tokens = None, real_tokens
-
-        if compiler_data != None:
-            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
-                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
-                if compiler_name != "none":
-                    compiler_cls = ctxt.compiler_getter(compiler_name)
-                    if compiler_cls:
-                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
-                        for dyn_include in curr_compiler.get_dynamic_includes():
-                            add_dyn_include(dyn_include)
-                        
-                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
-                        compiler_token.compiler_name = compiler_name
-                        compiler_token.compiler = curr_compiler
-                        compiler_token.compiler_tokens = []
-                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
-
-                    else:
-                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
-
-    def add_next_mods(token, mods):
-        if mods.comments != None:
-            token.children = mods.comments        
-        if mods.var_kind != None:
-            token.var_kind = mods.var_kind
-        if mods.keys_kind != None:
-            token.keys_kind = mods.keys_kind
-        if mods.is_const != None:
-            token.is_const = mods.is_const
-        if mods.func_kind != None:
-            token.func_kind = mods.func_kind
-        if mods.merge_prev != None:
-            token.merge_prev = mods.merge_prev
-        if mods.force_safe != None:
-            token.force_safe = mods.force_safe
-        if mods.rename != None:
-            token.rename = mods.rename
-        if mods.placeholder != None:
-            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
-            token.placeholder_expr = mods.placeholder[1]
-            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
-                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
-        if mods.sublang != None:
-            add_sublang(token, mods.sublang)
-
-    def process_comment(orig_idx, comment, isblock):
-        hint, hintdata, hintprefix = CommentHint.none, None, ""
-
-        if ctxt and ctxt.hint_comments:
-            proper = False
-            if comment.startswith("$"):
-                comment = comment[1:]
-                hintprefix = "$"
-                proper = True
-
-            if comment.startswith("lint:"):
-                lints = k_hint_split_re.split(str_after_first(comment, ":"))
-                lints = [lint for lint in lints if lint]
-                hint, hintdata = CommentHint.lint, lints
-
-                for lint in lints:
-                    if lint.startswith("func::"):
-                        get_next_mods().func_kind = str_after_first(lint, "::")
-
-            elif comment.startswith("preserve:"):
-                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
-                preserves = [preserve for preserve in preserves if preserve]
-                hint, hintdata = CommentHint.preserve, preserves
-
-            elif comment.startswith(k_keep_prefix):
-                hint = CommentHint.keep
-                
-            elif comment.startswith("dynamic-include:") and proper:
-                add_dyn_include(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-            
-            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
-                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
-                dest_name, dest_args = split_hint_args(alias_value, ctxt)
-                if ctxt and ctxt.add_custom_alias:
-                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
-                hint = CommentHint.auto
-                
-            elif comment.startswith("switch-compiler:") and proper:
-                switch_compiler(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-
-            elif isblock:
-                hint = CommentHint.auto
-                if comment in ("global", "nameof"): # nameof is deprecated
-                    get_next_mods().var_kind = VarKind.global_
-                elif comment in ("member", "memberof"): # memberof is deprecated
-                    get_next_mods().var_kind = VarKind.member
-                elif comment in ("preserve", "string"): # string is deprecated
-                    get_next_mods().var_kind = False
-                elif comment == "global-keys":
-                    get_next_mods().keys_kind = VarKind.global_
-                elif comment == "member-keys":
-                    get_next_mods().keys_kind = VarKind.member
-                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
-                    get_next_mods().keys_kind = False
-                elif comment == "no-merge":
-                    get_next_mods().merge_prev = False
-                elif comment == "const":
-                    get_next_mods().is_const = True
-                elif comment == "non-const":
-                    get_next_mods().is_const = False
-                elif comment == "force-safe":
-                    get_next_mods().force_safe = True
-                elif comment.startswith("language::"):
-                    get_next_mods().sublang = str_after_first(comment, "::")
-                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
-                    get_next_mods().rename = str_after_first(comment, "::")
-                elif comment.startswith("placeholder-expr::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
-                elif comment.startswith("placeholder-stmt::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
-                else:
-                    hint = CommentHint.none
-        
-            if proper and hint == CommentHint.none:
-                eprint(f"unrecognized $-comment '{comment}'")
-            # at some point, warn about improper comments and so on?
-
-        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
-            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
-        
-    def tokenize_line_comment():
-        nonlocal vline
-        orig_idx = idx
-        while take() not in ('\n', ''): pass
-
-        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
-        vline += 1
-
-    def tokenize_long_brackets(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if accept('['):
-            pad_idx = idx
-            while accept('='): pass
-            pad = text[pad_idx:idx]
-
-            if accept('['):
-                start_i = idx
-                end_i = text.find(f"]{pad}]", idx)
-                if end_i >= 0:
-                    idx = end_i + len(pad) + 2
-                    return True, orig_idx, start_i, end_i
-                
-                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
-        
-        return False, orig_idx, None, None
-
-    def tokenize_long_comment():
-        nonlocal idx
-        ok, orig_idx, start, end = tokenize_long_brackets(0)
-        if ok:
-            process_comment(orig_idx - 2, text[start:end], isblock=True)
-        else:
-            idx = orig_idx
-        return ok
-
-    def tokenize_number(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if is_picotron:
-            is_hex = peek() == '0' and peek(1) in ('x', 'X')
-
-            while True:
-                ch = peek()
-                if (is_ident_char(ch, lang) or ch == '.' or
-                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
-                    idx += 1
-                else:
-                    break
-
-        else:
-            ch = peek()
-            if ch == '0' and peek(1) in ('b', 'B'):
-                idx += 2
-                digits = "01"
-            elif ch == '0' and peek(1) in ('x', 'X'):
-                idx += 2
-                digits = "0123456789aAbBcCdDeEfF"
-            else:
-                digits = "0123456789"
-
-            while True:
-                ch = peek()
-                if ch and ch in digits:
-                    idx += 1
-                elif ch == '.':
-                    idx += 1
-                else:
-                    break
-
-        add_token(TokenType.number, orig_idx)
-
-    def tokenize_ident(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-        
-        while is_ident_char(peek(), lang):
-            idx += 1
-            
-        if text[orig_idx:idx] in keywords:
-            add_token(TokenType.keyword, orig_idx)
-        else:
-            add_token(TokenType.ident, orig_idx)
-
-    def tokenize_string(off):
-        nonlocal idx
-        orig_idx = idx + off
-        idx = orig_idx + 1
-        quote = text[orig_idx]
-
-        while True:
-            ch = take()
-            if ch in ('\n', ''):
-                add_error("Unterminated string", orig_idx - idx)
-                break
-            elif ch == '\\':
-                if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
-                        take()
-                else:
-                    take() # at least
-            elif ch == quote:
-                break
-
-        add_token(TokenType.string, orig_idx)
-
-    def tokenize_long_string(off):
-        ok, orig_idx, _, _ = tokenize_long_brackets(off)
-        if ok:
-            add_token(TokenType.string, orig_idx)
-        else:
-            add_error("Invalid long brackets")
-    
-    if ctxt and ctxt.default_compiler and not inner:
-        switch_compiler(ctxt.default_compiler)
-
-    while idx < len(text):
-        ch = take()
-
-        if ch in k_wspace: # whitespace
-            if ch == "\n":
-                vline += 1
-
-        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
-            tokenize_number(-1)
-
-        elif is_ident_char(ch, lang): # identifier
-            tokenize_ident(-1)
-
-        elif ch in ('"', "'"): # string
-            tokenize_string(-1)
-
-        elif ch == '[' and accept_one_of('=', '['): # long string
-            tokenize_long_string(-2)
-
-        elif ch == '-' and accept('-'): # comment
-            if not tokenize_long_comment():
-                tokenize_line_comment()
-
-        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
-            tokenize_line_comment()
-
-        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
-            orig_idx = idx - 1
-            if ch in ".:/^<>" and accept(ch):
-                if ch in (".>" if is_pico8 else ".") and accept(ch):
-                    if ch == ">": accept('=')
-                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
-                    accept('=')
-                elif ch in "./^<>":
-                    accept('=')
-            elif ch in "+-*/\\%&|^<>=~":
-                accept('=')
-            add_token(TokenType.punct, orig_idx)
-
-        elif ch == '!' and accept('='): # alt. punctuation
-            add_token(TokenType.punct, idx - 2)
-
-        else:
-            add_error("invalid character")
-    
-    if (next_mods or all_comments) and not inner:
-        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
-
-    if real_tokens != None:
-        switch_compiler(None)
-    return tokens, errors
-    
-
-def count_tokens(tokens):
-    count = 0
-    for i, token in enumerate(tokens):
-        if token.children:
-            for comment in token.children:
-                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
-                    return count
-
-        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
-            continue
-
-        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
-                token.endidx == tokens[i+1].idx and
-                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
-                tokens[i-1].value not in (")", "]", "}", ";", "end")):
-            continue
-
-        count += 1
-    return count
-
-def parse_fixnum(origstr):
-    """parse a fixnum from a pico8 string"""
-    str = origstr.lower()
-    
-    neg = bnot = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-    elif str.startswith("~"):
-        str = str[1:]
-        bnot = True
-
-    digits = "0123456789"
-    if str.startswith("0x"):
-        digits += "abcdef"
-        str = str[2:]
-    elif str.startswith("0b"):
-        digits = "01"
-        str = str[2:]
-    base = len(digits)
-
-    value = 0
-    while str and str[0] in digits:
-        value = (value * base) + digits.index(str[0])
-        str = str[1:]
-
-    if str and str[0] == '.':
-        str = str[1:]
-        dotvalue = 0
-        dotdigits = 0
-        while str and str[0] in digits:
-            dotvalue = (dotvalue * base) + digits.index(str[0])
-            dotdigits += 1
-            str = str[1:]
-        
-        value += dotvalue / (base ** dotdigits)
-    
-    if str:
-        throw(f"Invalid pico8 number: {origstr}")
-
-    fixnum = num_to_fixnum(value)
-    if neg:
-        fixnum = -fixnum & k_fixnum_mask
-    elif bnot:
-        fixnum = ~fixnum & k_fixnum_mask
-
-    return fixnum
-
-def parse_luanum(origstr):
-    str = origstr.lower()
-
-    neg = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-
-    try:
-        if str.startswith("0x"):
-            if "." in str or "p" in str:
-                try:
-                    value = float.fromhex(str)
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(int(str, base=16))
-        
-        elif str.startswith("0b"):
-            # TODO: recheck this if ever fixed to support exponents?
-            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
-            dotpos = str.find(".")
-            if dotpos >= 0:
-                str = str_replace_at(str, dotpos, 1, "")
-            value = int(str, base=2)
-            if dotpos >= 0:
-                try:
-                    value = math.ldexp(value, dotpos - len(str))
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(value)
-            
-        else:
-            if "." in str or "e" in str:
-                value = float(str) # no OverflowError here
-            else:
-                value = int(str)
-                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
-                    value = num_to_luaint(value)
-                else:
-                    value = float(value)
-    except ValueError:
-        throw(f"Invalid lua number: {origstr}")
-    
-    if neg:
-        value = -value
-    return value
-
-k_char_escapes = {
-    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
-    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
-    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
-}
-
-def lang_chr(value, lang):
-    if lang == Language.pico8 or value < 0x80:
-        return chr(value)
-    else:
-        return chr(0xdc00 + value) # surrogate escape
-
-def ext_unicode_to_lang_str(value, lang):
-    if value < 0x80:
-        return lang_chr(value, lang)
-    
-    suffix = ""
-    count = 0
-    while value >= (0x40 >> count):
-        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
-        value >>= 6
-        count += 1
-    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
-
-def parse_char_escape(str, pos, lang):
-    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
-
-    esc = str_get(str, pos + 1)
-    esc_ch = k_char_escapes.get(esc)
-    if esc_ch:
-        return esc_ch, pos + 2
-
-    elif esc == 'z':
-        end = pos + 2
-        while str_get(str, end) in k_wspace:
-            end += 1
-        return "", end
-
-    elif esc == 'x':
-        end = pos + 4
-        hex_esc = str[pos + 2 : end]
-        value = maybe_int(hex_esc, base=16)
-        if value is None:
-            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif '0' <= esc <= '9':
-        end = pos + 2
-        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
-            end += 1
-        dec_esc = str[pos + 1 : end]
-        value = maybe_int(dec_esc)
-        if value is None or value >= 256:
-            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif lang == Language.picotron and esc == 'u':
-        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
-        end = str.find("}", pos) + 1
-        check(end > 0, f"Unterminated unicode escape in: '{str}'")
-        uni_esc = str[pos + 3 : end - 1]
-        value = maybe_int(uni_esc, base=16)
-        if value is None or value >= 0x80000000:
-            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
-        return ext_unicode_to_lang_str(value, lang), end
-
-    else:
-        throw(f"Invalid escape: '{esc}' in: '{str}'")    
-
-def parse_string_literal(str, lang=Language.pico8):
-    """parse a pico8 string from a pico8 string literal"""
-    if str.startswith("["):
-        start = str.index("[", 1) + 1
-        lit = str[start:-start]
-        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
-        if lit.startswith('\n'):
-            lit = lit[1:]
-        return lit
-
-    else:
-        litparts = []
-        str = str[1:-1]
-        start = 0
-        while start < len(str):
-            end = str.find('\\', start)
-            if end < 0:
-                litparts.append(str[start:])
-                break
-
-            if end > start:
-                litparts.append(str[start:end])
-
-            esc, start = parse_char_escape(str, end, lang)
-            litparts.append(esc)
-                
-        return "".join(litparts)
-
-from pico_parse import Node, VarKind, can_replace_with_unary
-from pico_output import format_fixnum, format_luanum, format_string_literal
-from pico_process import Error, Source
+from utils import *
+from pico_preprocess import k_wspace
+from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
+
+keywords = {
+    "and", "break", "do", "else", "elseif", "end", "false", 
+    "for", "function", "goto", "if", "in", "local", "nil", 
+    "not", "or", "repeat", "return", "then", "true", "until",
+    "while"
+}
+
+def split_hint_args(data, ctxt=None):
+    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
+    name, args = name.strip(), args.strip()
+    if ctxt and ctxt.map_aliases:
+        name, args = ctxt.map_aliases(name, args)
+    return name, args
+
+class StopTraverse(BaseException):
+    pass
+
+k_skip_children = True # value returnable from traverse's pre-function
+
+class KeepCommentFlags(Bitmask):
+    first = last = ...
+
+class TokenNodeBase:
+    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
+    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
+
+    def __init__(m):
+        m.parent, m.children = None, ()
+
+    def __repr__(m):
+        return "%s(type=%s)" % (typename(m), m.type)
+
+    def __str__(m):
+        reprlist = []
+        for key, val in m.__dict__.items():
+            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
+                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
+                continue
+            reprlist.append("%s=%r" % (key, val))
+        return "%s(%s)" % (typename(m), ", ".join(reprlist))
+    
+    @property
+    def source_text(m):
+        if m.source and m.idx != None and m.endidx != None:
+            return m.source.text[m.idx:m.endidx]
+        else:
+            return None
+    
+    def find_parent(m, type):
+        parent = m.parent
+        while parent and parent.type != type:
+            parent = parent.parent
+        return parent
+
+    def _sibling(m, delta):
+        parent = m.parent
+        if parent is None:
+            return None
+        i = parent.children.index(m) + delta
+        return list_get(parent.children, i)
+
+    def next_sibling(m): return m._sibling(1)
+    def prev_sibling(m): return m._sibling(-1)
+
+    def _adjacent(m, delta):
+        while m:
+            sib = m._sibling(delta)
+            if sib:
+                return sib
+            m = m.parent
+        return None
+
+    def _find_token(m, delta, adjacent=False):
+        i = 0 if delta > 0 else -1
+        if adjacent:
+            m = m._adjacent(delta)
+        while isinstance(m, Node):
+            if m.children:
+                m = m.children[i]
+            else:
+                m = m._adjacent(delta)
+        return m if m else Token.none
+
+    def next_token(m): return m._find_token(1, adjacent=True)
+    def prev_token(m): return m._find_token(-1, adjacent=True)
+
+    def first_token(m): return m._find_token(1)
+    def last_token(m): return m._find_token(-1)
+
+    def find_or_create_token(m, child_i=0, last=False):
+        for_child = child_i < len(m.children) and not last
+        if for_child:
+            m = m.children[child_i]
+        token = m.first_token() if for_child else m.next_token()
+        is_after = True
+        if token is Token.none:
+            token = m.next_token() if for_child else m.last_token()
+            is_after = for_child
+            if token is Token.none:
+                token = m.prev_token()
+                is_after = False
+                if token is Token.none:
+                    token = Token.dummy(m.source)
+                    # we should only reach here when m is an empty node of some kind
+                    m.append_existing(token)
+        return token, is_after
+
+    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
+        skip = pre(m) if pre else None
+        if not skip:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_nodes(pre, post, tokens, extra)
+                elif tokens:
+                    tokens(child)
+            if extra and hasattr(m, "extra_children"):
+                for child in m.extra_children:
+                    child.traverse_nodes(pre, post, tokens, extra)
+        if post: post(m)
+
+    def traverse_tokens(m, visit):
+        if isinstance(m, Token):
+            visit(m)
+        else:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_tokens(visit)
+                else:
+                    visit(child)
+    
+    def traverse_parents(m, visit):
+        parent = m.parent
+        while parent:
+            visit(parent)
+            parent = parent.parent
+
+    def collect_comments(m, irrelevant=False, flags=None):
+        comments = []
+        def visit(token):
+            nonlocal comments
+            comments += token.children
+        
+        if isinstance(flags, KeepCommentFlags):
+            first_token = m.first_token() if flags.first else None
+            last_token = m.last_token() if flags.last else None
+            if first_token:
+                visit(first_token)
+            if last_token and last_token != first_token:
+                visit(last_token)
+        else:
+            m.traverse_tokens(visit)
+
+        if irrelevant:
+            comments = [c for c in comments if c.hint != CommentHint.auto]
+        return comments
+
+    def add_extra_child(m, child):
+        if not hasattr(m, "extra_children"):
+            m.extra_children = []
+        child.parent = m
+        child.extra_i = len(m.extra_children)
+        m.extra_children.append(child)
+    
+    def is_extra_child(m):
+        return hasattr(m, "extra_i")
+    
+    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
+        cpy = copy(m)
+        for child in cpy.children:
+            child.parent = cpy
+        m.erase()
+        return cpy
+
+    def copy(m):
+        cpy = copy(m)
+        cpy.children = [child.copy() for child in m.children]
+        for child in cpy.children:
+            child.parent = cpy
+        for key, val in cpy.__dict__.items():
+            idx = list_find(m.children, val)
+            if idx >= 0:
+                cpy.__dict__[key] = cpy.children[idx]
+        return cpy
+
+class TokenType(Enum):
+    number = string = ident = keyword = punct = ...
+    compiler = ... # special
+
+class Token(TokenNodeBase):
+    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
+    For number/string tokens, the actual value is 'parsed_value'
+    Its children are the comments *before* it, if any."""
+
+    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
+        super().__init__()
+        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
+    
+    def check(m, expected):
+        if isinstance(expected, tuple):
+            assert m.value in expected
+        else:
+            assert m.value == expected
+
+    def modify(m, value, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.value = value
+        m.modified = True
+        lazy_property.clear(m, "parsed_value")
+    
+    def erase(m, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.type, m.value, m.modified = None, None, True
+
+    def add_comments(m, comments, first=False):
+        if m.children == ():
+            m.children = []
+        if first:
+            m.children[0:0] = comments
+        else:
+            m.children += comments
+    
+    def remove_comments(m):
+        m.children = ()
+
+    @lazy_property
+    def parsed_value(m):
+        if m.type == TokenType.number:
+            if m.lang == Language.picotron:
+                return parse_luanum(m.value)
+            else:
+                return parse_fixnum(m.value)
+        elif m.type == TokenType.string:
+            return parse_string_literal(m.value, m.lang)
+        else:
+            return None
+
+    @classmethod
+    def dummy(cls, source):
+        idx = len(source.text) if source else 0
+        vline = sys.maxsize if source else 0
+        return cls(None, None, source, idx, idx, vline, None)
+
+    @classmethod
+    def synthetic(cls, type, value, other, append=False, prepend=False):
+        idx = other.endidx if append else other.idx
+        endidx = other.idx if prepend else other.endidx
+        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
+
+Token.none = Token.dummy(None)
+
+class ConstToken(Token):
+    has_own_value = False # default property - whether value was set explicitly (see modify)
+
+    def __init__(m, type, parsed_value, other):
+        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
+        m.parsed_value = parsed_value
+        lazy_property.clear(m, "value")
+
+    @lazy_property
+    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
+                  # (but not used for output under minify-tokens)
+        if isinstance(m.parsed_value, (int, float)):
+            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
+            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
+            return format_num(m.parsed_value, sign=None if allow_unary else "")
+        else:
+            return format_string_literal(m.parsed_value, long=False)
+
+    def modify(m, value, expected=None):
+        super().modify(value, expected)
+        m.has_own_value = True
+
+    @post_property_change
+    def parent(m, old, new):
+        if not m.has_own_value:
+            lazy_property.clear(m, "value")
+
+class CommentHint(Enum):
+    none = auto = preserve = lint = keep = ...
+
+k_keep_prefix = "keep:"
+
+class Comment(TokenNodeBase):
+    """A pico8 comment, optionally holding some kind of hint"""
+
+    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
+        super().__init__()
+        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
+        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
+
+    def modify(m, value):
+        m.value = value
+        m.modified = True
+
+    @property
+    def value(m):
+        return m.source_text
+
+def is_ident_char(ch, lang=Language.pico8):
+    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
+            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
+
+def is_identifier(str, lang=Language.pico8):
+    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
+    
+k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
+
+k_hint_split_re = re.compile(r"[\s,]+")
+
+class NextTokenMods:
+    def __init__(m):
+        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
+        m.comments = None
+        
+    def add_comment(m, cmt):
+        if m.comments is None:
+            m.comments = []
+        m.comments.append(cmt)
+
+def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
+    text = source.text
+    idx = 0
+    vline = 0
+    tokens = []
+    errors = []
+    real_tokens = None
+    next_mods = None
+    if lang is None:
+        lang = ctxt.lang if ctxt else Language.pico8
+    
+    is_pico8 = lang == Language.pico8
+    is_picotron = lang == Language.picotron
+
+    def peek(off=0):
+        i = idx + off
+        return text[i] if 0 <= i < len(text) else ''
+
+    def take():
+        nonlocal idx
+        ch = peek()
+        idx += 1
+        return ch
+
+    def accept(ch,):
+        nonlocal idx
+        if peek() == ch:
+            idx += 1
+            return True
+        return False
+
+    def accept_one_of(*chs):
+        nonlocal idx
+        if peek() in chs:
+            idx += 1
+            return True
+        return False
+
+    def get_next_mods():
+        nonlocal next_mods
+        if next_mods is None:
+            next_mods = NextTokenMods()
+        return next_mods
+
+    def add_token(type, start, end_off=0, value=None):
+        end = idx + end_off
+        if value is None and type is not None: # (dummy tokens have type==value==None)
+            value = text[start:end]
+        token = Token(type, value, source, start, end, vline, lang)
+        tokens.append(token)
+        
+        nonlocal next_mods
+        if next_mods != None:
+            add_next_mods(token, next_mods)
+            next_mods = None
+        return token
+
+    def add_error(msg, off=-1):
+        add_token(None, idx + off) # error token
+        errors.append(Error(msg, tokens[-1]))
+
+    def add_dyn_include(include_data):
+        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
+            include_name, include_args = split_hint_args(include_data, ctxt)
+            include_func = ctxt.include_getter(include_name)
+            if include_func:
+                included_str = include_func(args=include_args, ctxt=ctxt)
+                if included_str != None:
+                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
+                    tokens.extend(included_tokens)
+                    errors.extend(included_errors)
+                    return
+            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
+
+    def add_sublang(token, sublang_data):
+        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
+            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
+
+            sublang_cls = ctxt.sublang_getter(sublang_name)
+            if sublang_cls:
+                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
+                token.sublang_name = sublang_name
+                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
+                                            ctxt=ctxt, on_error=add_lang_error)
+            else:
+                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
+
+    def switch_compiler(compiler_data):
+        nonlocal real_tokens, tokens
+        if real_tokens != None:
+            real_tokens, tokens = None, real_tokens
+
+        if compiler_data != None:
+            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
+                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
+                if compiler_name != "none":
+                    compiler_cls = ctxt.compiler_getter(compiler_name)
+                    if compiler_cls:
+                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
+                        for dyn_include in curr_compiler.get_dynamic_includes():
+                            add_dyn_include(dyn_include)
+                        
+                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
+                        compiler_token.compiler_name = compiler_name
+                        compiler_token.compiler = curr_compiler
+                        compiler_token.compiler_tokens = []
+                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
+
+                    else:
+                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
+
+    def add_next_mods(token, mods):
+        if mods.comments != None:
+            token.children = mods.comments        
+        if mods.var_kind != None:
+            token.var_kind = mods.var_kind
+        if mods.keys_kind != None:
+            token.keys_kind = mods.keys_kind
+        if mods.is_const != None:
+            token.is_const = mods.is_const
+        if mods.func_kind != None:
+            token.func_kind = mods.func_kind
+        if mods.merge_prev != None:
+            token.merge_prev = mods.merge_prev
+        if mods.force_safe != None:
+            token.force_safe = mods.force_safe
+        if mods.rename != None:
+            token.rename = mods.rename
+        if mods.placeholder != None:
+            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
+            token.placeholder_expr = mods.placeholder[1]
+            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
+                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
+        if mods.sublang != None:
+            add_sublang(token, mods.sublang)
+
+    def process_comment(orig_idx, comment, isblock):
+        hint, hintdata, hintprefix = CommentHint.none, None, ""
+
+        if ctxt and ctxt.hint_comments:
+            proper = False
+            if comment.startswith("$"):
+                comment = comment[1:]
+                hintprefix = "$"
+                proper = True
+
+            if comment.startswith("lint:"):
+                lints = k_hint_split_re.split(str_after_first(comment, ":"))
+                lints = [lint for lint in lints if lint]
+                hint, hintdata = CommentHint.lint, lints
+
+                for lint in lints:
+                    if lint.startswith("func::"):
+                        get_next_mods().func_kind = str_after_first(lint, "::")
+
+            elif comment.startswith("preserve:"):
+                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
+                preserves = [preserve for preserve in preserves if preserve]
+                hint, hintdata = CommentHint.preserve, preserves
+
+            elif comment.startswith(k_keep_prefix):
+                hint = CommentHint.keep
+                
+            elif comment.startswith("dynamic-include:") and proper:
+                add_dyn_include(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+            
+            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
+                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
+                dest_name, dest_args = split_hint_args(alias_value, ctxt)
+                if ctxt and ctxt.add_custom_alias:
+                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
+                hint = CommentHint.auto
+                
+            elif comment.startswith("switch-compiler:") and proper:
+                switch_compiler(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+
+            elif isblock:
+                hint = CommentHint.auto
+                if comment in ("global", "nameof"): # nameof is deprecated
+                    get_next_mods().var_kind = VarKind.global_
+                elif comment in ("member", "memberof"): # memberof is deprecated
+                    get_next_mods().var_kind = VarKind.member
+                elif comment in ("preserve", "string"): # string is deprecated
+                    get_next_mods().var_kind = False
+                elif comment == "global-keys":
+                    get_next_mods().keys_kind = VarKind.global_
+                elif comment == "member-keys":
+                    get_next_mods().keys_kind = VarKind.member
+                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
+                    get_next_mods().keys_kind = False
+                elif comment == "no-merge":
+                    get_next_mods().merge_prev = False
+                elif comment == "const":
+                    get_next_mods().is_const = True
+                elif comment == "non-const":
+                    get_next_mods().is_const = False
+                elif comment == "force-safe":
+                    get_next_mods().force_safe = True
+                elif comment.startswith("language::"):
+                    get_next_mods().sublang = str_after_first(comment, "::")
+                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
+                    get_next_mods().rename = str_after_first(comment, "::")
+                elif comment.startswith("placeholder-expr::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
+                elif comment.startswith("placeholder-stmt::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
+                else:
+                    hint = CommentHint.none
+        
+            if proper and hint == CommentHint.none:
+                eprint(f"unrecognized $-comment '{comment}'")
+            # at some point, warn about improper comments and so on?
+
+        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
+            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
+        
+    def tokenize_line_comment():
+        nonlocal vline
+        orig_idx = idx
+        while take() not in ('\n', ''): pass
+
+        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
+        vline += 1
+
+    def tokenize_long_brackets(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if accept('['):
+            pad_idx = idx
+            while accept('='): pass
+            pad = text[pad_idx:idx]
+
+            if accept('['):
+                start_i = idx
+                end_i = text.find(f"]{pad}]", idx)
+                if end_i >= 0:
+                    idx = end_i + len(pad) + 2
+                    return True, orig_idx, start_i, end_i
+                
+                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
+        
+        return False, orig_idx, None, None
+
+    def tokenize_long_comment():
+        nonlocal idx
+        ok, orig_idx, start, end = tokenize_long_brackets(0)
+        if ok:
+            process_comment(orig_idx - 2, text[start:end], isblock=True)
+        else:
+            idx = orig_idx
+        return ok
+
+    def tokenize_number(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if is_picotron:
+            is_hex = peek() == '0' and peek(1) in ('x', 'X')
+
+            while True:
+                ch = peek()
+                if (is_ident_char(ch, lang) or ch == '.' or
+                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
+                    idx += 1
+                else:
+                    break
+
+        else:
+            ch = peek()
+            if ch == '0' and peek(1) in ('b', 'B'):
+                idx += 2
+                digits = "01"
+            elif ch == '0' and peek(1) in ('x', 'X'):
+                idx += 2
+                digits = "0123456789aAbBcCdDeEfF"
+            else:
+                digits = "0123456789"
+
+            while True:
+                ch = peek()
+                if ch and ch in digits:
+                    idx += 1
+                elif ch == '.':
+                    idx += 1
+                else:
+                    break
+
+        add_token(TokenType.number, orig_idx)
+
+    def tokenize_ident(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+        
+        while is_ident_char(peek(), lang):
+            idx += 1
+            
+        if text[orig_idx:idx] in keywords:
+            add_token(TokenType.keyword, orig_idx)
+        else:
+            add_token(TokenType.ident, orig_idx)
+
+    def tokenize_string(off):
+        nonlocal idx
+        orig_idx = idx + off
+        idx = orig_idx + 1
+        quote = text[orig_idx]
+
+        while True:
+            ch = take()
+            if ch in ('\n', ''):
+                add_error("Unterminated string", orig_idx - idx)
+                break
+            elif ch == '\\':
+                if accept('z'): # skip line breaks
+                    while peek() in k_wspace:
+                        take()
+                else:
+                    take() # at least
+            elif ch == quote:
+                break
+
+        add_token(TokenType.string, orig_idx)
+
+    def tokenize_long_string(off):
+        ok, orig_idx, _, _ = tokenize_long_brackets(off)
+        if ok:
+            add_token(TokenType.string, orig_idx)
+        else:
+            add_error("Invalid long brackets")
+    
+    if ctxt and ctxt.default_compiler and not inner:
+        switch_compiler(ctxt.default_compiler)
+
+    while idx < len(text):
+        ch = take()
+
+        if ch in k_wspace: # whitespace
+            if ch == "\n":
+                vline += 1
+
+        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
+            tokenize_number(-1)
+
+        elif is_ident_char(ch, lang): # identifier
+            tokenize_ident(-1)
+
+        elif ch in ('"', "'"): # string
+            tokenize_string(-1)
+
+        elif ch == '[' and accept_one_of('=', '['): # long string
+            tokenize_long_string(-2)
+
+        elif ch == '-' and accept('-'): # comment
+            if not tokenize_long_comment():
+                tokenize_line_comment()
+
+        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
+            tokenize_line_comment()
+
+        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
+            orig_idx = idx - 1
+            if ch in ".:/^<>" and accept(ch):
+                if ch in (".>" if is_pico8 else ".") and accept(ch):
+                    if ch == ">": accept('=')
+                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
+                    accept('=')
+                elif ch in "./^<>":
+                    accept('=')
+            elif ch in "+-*/\\%&|^<>=~":
+                accept('=')
+            add_token(TokenType.punct, orig_idx)
+
+        elif ch == '!' and accept('='): # alt. punctuation
+            add_token(TokenType.punct, idx - 2)
+
+        else:
+            add_error("invalid character")
+    
+    if (next_mods or all_comments) and not inner:
+        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
+
+    if real_tokens != None:
+        switch_compiler(None)
+    return tokens, errors
+    
+
+def count_tokens(tokens):
+    count = 0
+    for i, token in enumerate(tokens):
+        if token.children:
+            for comment in token.children:
+                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
+                    return count
+
+        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
+            continue
+
+        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
+                token.endidx == tokens[i+1].idx and
+                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
+                tokens[i-1].value not in (")", "]", "}", ";", "end")):
+            continue
+
+        count += 1
+    return count
+
+def parse_fixnum(origstr):
+    """parse a fixnum from a pico8 string"""
+    str = origstr.lower()
+    
+    neg = bnot = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+    elif str.startswith("~"):
+        str = str[1:]
+        bnot = True
+
+    digits = "0123456789"
+    if str.startswith("0x"):
+        digits += "abcdef"
+        str = str[2:]
+    elif str.startswith("0b"):
+        digits = "01"
+        str = str[2:]
+    base = len(digits)
+
+    value = 0
+    while str and str[0] in digits:
+        value = (value * base) + digits.index(str[0])
+        str = str[1:]
+
+    if str and str[0] == '.':
+        str = str[1:]
+        dotvalue = 0
+        dotdigits = 0
+        while str and str[0] in digits:
+            dotvalue = (dotvalue * base) + digits.index(str[0])
+            dotdigits += 1
+            str = str[1:]
+        
+        value += dotvalue / (base ** dotdigits)
+    
+    if str:
+        throw(f"Invalid pico8 number: {origstr}")
+
+    fixnum = num_to_fixnum(value)
+    if neg:
+        fixnum = -fixnum & k_fixnum_mask
+    elif bnot:
+        fixnum = ~fixnum & k_fixnum_mask
+
+    return fixnum
+
+def parse_luanum(origstr):
+    str = origstr.lower()
+
+    neg = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+
+    try:
+        if str.startswith("0x"):
+            if "." in str or "p" in str:
+                try:
+                    value = float.fromhex(str)
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(int(str, base=16))
+        
+        elif str.startswith("0b"):
+            # TODO: recheck this if ever fixed to support exponents?
+            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
+            dotpos = str.find(".")
+            if dotpos >= 0:
+                str = str_replace_at(str, dotpos, 1, "")
+            value = int(str, base=2)
+            if dotpos >= 0:
+                try:
+                    value = math.ldexp(value, dotpos - len(str))
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(value)
+            
+        else:
+            if "." in str or "e" in str:
+                value = float(str) # no OverflowError here
+            else:
+                value = int(str)
+                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
+                    value = num_to_luaint(value)
+                else:
+                    value = float(value)
+    except ValueError:
+        throw(f"Invalid lua number: {origstr}")
+    
+    if neg:
+        value = -value
+    return value
+
+k_char_escapes = {
+    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
+    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
+    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
+}
+
+def lang_chr(value, lang):
+    if lang == Language.pico8 or value < 0x80:
+        return chr(value)
+    else:
+        return chr(0xdc00 + value) # surrogate escape
+
+def ext_unicode_to_lang_str(value, lang):
+    if value < 0x80:
+        return lang_chr(value, lang)
+    
+    suffix = ""
+    count = 0
+    while value >= (0x40 >> count):
+        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
+        value >>= 6
+        count += 1
+    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
+
+def parse_char_escape(str, pos, lang):
+    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
+
+    esc = str_get(str, pos + 1)
+    esc_ch = k_char_escapes.get(esc)
+    if esc_ch:
+        return esc_ch, pos + 2
+
+    elif esc == 'z':
+        end = pos + 2
+        while str_get(str, end) in k_wspace:
+            end += 1
+        return "", end
+
+    elif esc == 'x':
+        end = pos + 4
+        hex_esc = str[pos + 2 : end]
+        value = maybe_int(hex_esc, base=16)
+        if value is None:
+            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif '0' <= esc <= '9':
+        end = pos + 2
+        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
+            end += 1
+        dec_esc = str[pos + 1 : end]
+        value = maybe_int(dec_esc)
+        if value is None or value >= 256:
+            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif lang == Language.picotron and esc == 'u':
+        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
+        end = str.find("}", pos) + 1
+        check(end > 0, f"Unterminated unicode escape in: '{str}'")
+        uni_esc = str[pos + 3 : end - 1]
+        value = maybe_int(uni_esc, base=16)
+        if value is None or value >= 0x80000000:
+            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
+        return ext_unicode_to_lang_str(value, lang), end
+
+    else:
+        throw(f"Invalid escape: '{esc}' in: '{str}'")    
+
+def parse_string_literal(str, lang=Language.pico8):
+    """parse a pico8 string from a pico8 string literal"""
+    if str.startswith("["):
+        start = str.index("[", 1) + 1
+        lit = str[start:-start]
+        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
+        if lit.startswith('\n'):
+            lit = lit[1:]
+        return lit
+
+    else:
+        litparts = []
+        str = str[1:-1]
+        start = 0
+        while start < len(str):
+            end = str.find('\\', start)
+            if end < 0:
+                litparts.append(str[start:])
+                break
+
+            if end > start:
+                litparts.append(str[start:end])
+
+            esc, start = parse_char_escape(str, end, lang)
+            litparts.append(esc)
+                
+        return "".join(litparts)
+
+from pico_parse import Node, VarKind, can_replace_with_unary
+from pico_output import format_fixnum, format_luanum, format_string_literal
+from pico_process import Error, Source
-- 
2.43.0


From c2aec09ef09d70712f3e8e072f702eab4ac73c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 18/56] fix: don't fold divisions resulting in -32768, which
 pico8 clamps to -32767.99999

---
 pico_constfold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 5d3d968..c8704aa 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -178,7 +178,7 @@ def _div_trunc(a, b):
 def lua_div(lang, a, b):
     if a.is_fixnum and b.is_fixnum and b.value != 0: # avoid relying on div-by-0 behavior
         result = _div_trunc(a.signed_value << 16, b.signed_value)
-        if is_signed_fixnum_in_range(result): # avoid relying on clamping overflow behavior
+        if is_signed_fixnum_in_range(result) and result != -0x80000000: # avoid relying on clamping overflow behavior
             return LuaFixnum(result)
     
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-- 
2.43.0


From f7e56b570a93edc36e270ed490ca1d0b365a8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:32 +0000
Subject: [PATCH 19/56] fix: removing the space between an operator and a kept
 comment merged them into a longer comment

---
 pico_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 425e95a..2546f60 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -257,8 +257,10 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
     return strlong if len(strlong) < len(strlit) else strlit
 
 def need_whitespace_between(ctxt, prev, next):
-    if isinstance(prev, Comment) or isinstance(next, Comment):
+    if isinstance(prev, Comment):
         return False
+    if isinstance(next, Comment): # (e.g. a minus before "--" or a division before "//")
+        return prev.value.endswith(next.value[0])
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From e0c64cfa505744aaf960f41eab95501ff59361ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 20/56] fix: a string ending in \z and whitespace crashed the
 parsing of its contents

---
 pico_tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 7ec4e48..16266a9 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -866,7 +866,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while str_get(str, end) in k_wspace:
+        while str_get(str, end, "x") in k_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From 1e13c53c04c84e88ab3d3a97354efdb4f0a53024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:44 +0000
Subject: [PATCH 21/56] fix: a string ending in ']' could be written in long
 brackets that end too early

---
 pico_output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 2546f60..ae9dd7c 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -214,17 +214,17 @@ k_char_escapes_rev_min = {k: v for k, v in k_char_escapes_rev.items() if k in "\
 def get_long_brackets_equals(value):
     for i in itertools.count():
         eqs = "=" * i
-        if f"]{eqs}]" not in value:
+        if f"]{eqs}]" not in f"{value}]{eqs}": # (the end of the value may combine with the closing bracket)
             return eqs
 
 def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, long=None, quote=None):
     """format a pico8 string to a pico8 string literal"""
 
     if long != False:
-        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value):
+        eqs = get_long_brackets_equals(value)
+        if "\0" not in value and "\r" not in value and (use_complex_long or not eqs):
             newline = "\n" if value.startswith("\n") else ""
 
-            eqs = get_long_brackets_equals(value)
             strlong = f"[{eqs}[{newline}{value}]{eqs}]"
             if long == True:
                 return strlong
-- 
2.43.0


From 955730e8075d5fb791f69a191f64ae2af11a065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 22/56] fix: a return without values at the end of the code was
 rejected

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 0db91d4..3337e22 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -829,7 +829,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_return(vline):
         tokens = [peek(-1)]
-        if peek().value in k_block_ends + (";",) or (e(vline) and peek().vline > vline):
+        if peek().value in k_block_ends + (";", None) or (e(vline) and peek().vline > vline):
             return Node(NodeType.return_, tokens, items=[])
         else:
             rets = parse_list(tokens, parse_expr)
-- 
2.43.0


From 8b579345b9ca0b26110a54535377ca1a1b2e2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 23/56] fix: a kept line comment could become the start of an
 unfinished block comment

---
 pico_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_output.py b/pico_output.py
index ae9dd7c..960f4b5 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -342,6 +342,8 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         if exclude_comments:
             if comment.hint == CommentHint.keep:
                 comment_out = comment.value.replace(comment.hintprefix + k_keep_prefix, "", 1)
+                if not comment.isblock and re.match(r"--\[=*\[", comment_out): # don't let it become a block comment
+                    comment_out = "-- " + comment_out[2:]
             else:
                 return
         else:
-- 
2.43.0


From 8eed01e4ac8d5f5446ff5f871d9c00ce4cbe49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:54 +0000
Subject: [PATCH 24/56] fix: removing needless parentheses or making shorthands
 duplicated the comments within

---
 pico_tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 16266a9..f6c06f4 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -172,7 +172,7 @@ class TokenNodeBase:
         cpy = copy(m)
         for child in cpy.children:
             child.parent = cpy
-        m.erase()
+        m.erase(keep_comments=False) # (the copy has them)
         return cpy
 
     def copy(m):
-- 
2.43.0


From ee97aa7a00bcfda4d050f2481b54cccfeae78c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:48 +0000
Subject: [PATCH 25/56] fix: a line comment ending in ']' could be written as a
 block comment that ends too early

---
 pico_output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 960f4b5..52fbe74 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -351,8 +351,9 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
                 if comment.isblock:
                     comment_out = re.sub(r"\n\s*", " ", comment.value)
                 else:
-                    eqs = get_long_brackets_equals(comment.value)
-                    comment_out = f"--[{eqs}[{comment.value[2:-1]}]{eqs}]"
+                    text = comment.value[2:-1]
+                    eqs = get_long_brackets_equals(text)
+                    comment_out = f"--[{eqs}[{text}]{eqs}]"
             else:
                 comment_out = comment.value
         
-- 
2.43.0


From 8f243243541f6f085411f543be01431ee22b80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:15 +0000
Subject: [PATCH 26/56] fix: unminify crashed on a semicolon in the else part
 of a shorthand if

---
 pico_unminify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index de74fb9..0cf51e5 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -40,7 +40,7 @@ def unminify_code(root, unminify_opts):
 
         # ignore shorthand parens, to avoid increasing token count as we convert shorthands to longhand
         gparent = token.parent.parent
-        if gparent and is_short_block_stmt(gparent) and token.parent == gparent.cond and token.value in ("(", ")"):
+        if gparent and is_short_block_stmt(gparent) and gparent.type != NodeType.else_ and token.parent == gparent.cond and token.value in ("(", ")"):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded
-- 
2.43.0


From 36d120040bd5edbd46d8c3ef7ce143a48e26b736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 27/56] fix: unminify put the semicolon before a parenthesis
 into a '?' line or a line comment

---
 pico_unminify.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 0cf51e5..b516ad7 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -8,6 +8,7 @@ def unminify_code(root, unminify_opts):
     output = []
     prev_token = Token.none
     prev_tight = False
+    after_separator = False
     indent = 0
     curr_stmt = None
     stmt_stack = []
@@ -16,7 +17,7 @@ def unminify_code(root, unminify_opts):
     k_tight_suffix_tokens = (")", "]", "}", ",", ";", ".", ":", "::")
 
     def visit_token(token):
-        nonlocal prev_token, prev_tight
+        nonlocal prev_token, prev_tight, after_separator
         value = token.value
 
         for comment in token.children:
@@ -47,7 +48,9 @@ def unminify_code(root, unminify_opts):
         # (except for those that prevent the next statement from being parsed as a call)
         if token.parent.type == NodeType.block and token.value == ";":
             if token.next_token().value == "(":
-                output.insert(-1 if output and output[-1] == "\n" else len(output), value)
+                # (as the first thing in the next line, as nothing may follow a '?' or a line comment)
+                output.append(indent_str * indent + value)
+                after_separator = True
             return
         
         # undo ugly token replacements
@@ -70,7 +73,7 @@ def unminify_code(root, unminify_opts):
         prev_tight = True
 
     def visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, prev_tight, after_separator
 
         if node.type == NodeType.block:
             if node.parent:
@@ -91,7 +94,9 @@ def unminify_code(root, unminify_opts):
                     output.append("\n")
 
             curr_stmt = node
-            output.append(indent_str * indent)
+            if not after_separator:
+                output.append(indent_str * indent)
+            after_separator = False
             prev_tight = False
 
     def end_visit_node(node):
-- 
2.43.0


From 7d5816430f4de9379ff05f54d06f1cb19e447602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 28/56] fix: unminify broke a '?' with a function or a block
 comment within into several lines

---
 pico_unminify.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index b516ad7..45aa8b1 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -12,17 +12,25 @@ def unminify_code(root, unminify_opts):
     indent = 0
     curr_stmt = None
     stmt_stack = []
+    oneline = 0 # within a '?', which must stay on its line
 
     k_tight_prefix_tokens = ("(", "[", "{", "?", ".", ":", "::")
     k_tight_suffix_tokens = (")", "]", "}", ",", ";", ".", ":", "::")
 
+    def add_line_break():
+        output.append(" " if oneline else "\n")
+
+    def add_indent():
+        if not oneline:
+            output.append(indent_str * indent)
+
     def visit_token(token):
         nonlocal prev_token, prev_tight, after_separator
         value = token.value
 
         for comment in token.children:
             comment_value = comment.value
-            if "\n" in comment_value:
+            if "\n" in comment_value and not oneline:
                 if prev_tight:
                     output.append("\n")
                     output.append(indent_str * indent)
@@ -49,7 +57,8 @@ def unminify_code(root, unminify_opts):
         if token.parent.type == NodeType.block and token.value == ";":
             if token.next_token().value == "(":
                 # (as the first thing in the next line, as nothing may follow a '?' or a line comment)
-                output.append(indent_str * indent + value)
+                add_indent()
+                output.append(value)
                 after_separator = True
             return
         
@@ -72,8 +81,11 @@ def unminify_code(root, unminify_opts):
         prev_token = token
         prev_tight = True
 
+    def is_print_stmt(node):
+        return node.type == NodeType.call and node.short
+
     def visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight, after_separator
+        nonlocal indent, curr_stmt, prev_tight, after_separator, oneline
 
         if node.type == NodeType.block:
             if node.parent:
@@ -84,30 +96,36 @@ def unminify_code(root, unminify_opts):
 
             stmt_stack.append(curr_stmt)
             curr_stmt = None
-            output.append("\n")
+            add_line_break()
             prev_tight = False
 
         elif curr_stmt is None:
-            if is_function_stmt(node):
+            if is_function_stmt(node) and not oneline:
                 child_i = node.parent.children.index(node)
                 if child_i > 0 and not is_function_stmt(node.parent.children[child_i - 1]):
                     output.append("\n")
 
             curr_stmt = node
             if not after_separator:
-                output.append(indent_str * indent)
+                add_indent()
             after_separator = False
             prev_tight = False
 
+        if is_print_stmt(node):
+            oneline += 1
+
     def end_visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, prev_tight, oneline
+
+        if is_print_stmt(node):
+            oneline -= 1
 
         if node.type == NodeType.block:
             if node.parent:
                 indent -= 1
 
             curr_stmt = stmt_stack.pop()
-            output.append(indent_str * indent)
+            add_indent()
             prev_tight = False
             
             # shorthand -> longhand
@@ -116,10 +134,10 @@ def unminify_code(root, unminify_opts):
 
         elif node is curr_stmt:
             curr_stmt = None
-            output.append("\n")
+            add_line_break()
             prev_tight = False
                 
-            if is_function_stmt(node):
+            if is_function_stmt(node) and not oneline:
                 output.append("\n")
 
     root.traverse_nodes(visit_node, end_visit_node, tokens=visit_token)
-- 
2.43.0


From a0ba0d72635fff9e74e287c4585e2f2b6f158ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 29/56] fix: merging assignments let '#' or a builtin read a
 table before the assignment to its member

---
 pico_minify.py  | 4 ++++
 pico_process.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index a2f1c7e..000de3e 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -238,6 +238,10 @@ def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True,
             if (safe_only or not allow_call or
                     not (func.type == NodeType.var and is_root_global_or_builtin_local(func) and not func.var.reassigned and func.name not in ctxt.builtins_with_callbacks)):
                 raise StopTraverse()
+            elif not allow_index and func.name in ctxt.builtins_with_table_access:
+                raise StopTraverse()
+        elif expr.type == NodeType.unary_op and expr.op == "#" and not allow_index:
+            raise StopTraverse()
         elif expr.type == NodeType.member and not allow_member:
             raise StopTraverse()
         elif expr.type == NodeType.index and not allow_index:
diff --git a/pico_process.py b/pico_process.py
index b12336b..873bb9c 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -61,6 +61,12 @@ builtins_with_callbacks = {
     "coresume", "foreach", "yield",
 }
 
+# subset of builtins (of all languages) that read or change the members of tables they're given before returning
+builtins_with_table_access = {
+    "add", "count", "del", "deli", "inext", "next", "pod", "rawget", "rawlen", "rawset",
+    "rnd", "send_message", "store", "store_metadata", "unpack",
+}
+
 # callbacks that are called by the builtin mainloop logic
 builtin_callbacks = {
     "_init", "_draw", "_update", "_update60",
@@ -200,6 +206,7 @@ class ContextBase:
         m.builtins = builtins.copy()
         m.local_builtins = local_builtins.copy() if use_local_builtins else set()
         m.builtins_with_callbacks = builtins_with_callbacks
+        m.builtins_with_table_access = builtins_with_table_access
         m.builtin_callbacks = builtin_callbacks
         m.builtin_members = builtin_members
         
-- 
2.43.0


From f2de90277f45ea8aafd9edf456e9d11b08b15f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 30/56] fix: merging assignments evaluated the second's table
 and index before the calls in the first

---
 pico_minify.py | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 000de3e..e8bf57c 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -256,6 +256,38 @@ def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True,
     except StopTraverse:
         return False
 
+def node_contains_call(root):
+    def visitor(node):
+        if node.type == NodeType.call:
+            raise StopTraverse()
+
+    try:
+        root.traverse_nodes(visitor)
+        return False
+    except StopTraverse:
+        return True
+
+def target_is_unaffected(target, allow_vars):
+    """can calling a function not affect which table and index 'target' refers to?
+    (allow_vars - the function does not assign variables, only table members)"""
+    def visitor(node):
+        if node is target or node.type in (NodeType.const, NodeType.group):
+            pass
+        elif node.type == NodeType.var:
+            if not allow_vars and node is not getattr(target, "key", None) and (node.kind == VarKind.global_ or node.var.captured):
+                raise StopTraverse()
+        elif node.type in (NodeType.unary_op, NodeType.binary_op) and allow_vars:
+            if node.op == "#":
+                raise StopTraverse()
+        else:
+            raise StopTraverse()
+
+    try:
+        target.traverse_nodes(visitor)
+        return True
+    except StopTraverse:
+        return False
+
 def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     if len(prev.targets) < len(prev.sources):
         return
@@ -301,7 +333,19 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             return
         if require_trivial and not expr_is_trivial(node, ctxt, safe_only, allow_member, allow_index, allow_call=False, has_env=has_env):
             return
-    
+
+    # check if prev's sources may affect the tables or indices in next's targets (which would now be evaluated before the sources)
+
+    for node in next.targets:
+        if node.type == NodeType.var:
+            continue
+        for source in prev.sources:
+            if not expr_is_trivial(source, ctxt, safe_only, has_env=has_env):
+                if not target_is_unaffected(node, allow_vars=False):
+                    return
+            elif node_contains_call(source) and not target_is_unaffected(node, allow_vars=True):
+                return
+
     # when reordering local declarations, ensure we don't change which local wins out among identically-named locals
     # (this relies on rename being done already!)
         
-- 
2.43.0


From 71d475cf079263e4e2379581fb3f5fe23a235bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:07 +0000
Subject: [PATCH 31/56] fix: give pico_tokenize.py its own line endings (CRLF)
 back, which an earlier fix had changed

---
 pico_tokenize.py | 1868 +++++++++++++++++++++++-----------------------
 1 file changed, 934 insertions(+), 934 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index f6c06f4..16fbd03 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -1,934 +1,934 @@
-from utils import *
-from pico_preprocess import k_wspace
-from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
-
-keywords = {
-    "and", "break", "do", "else", "elseif", "end", "false", 
-    "for", "function", "goto", "if", "in", "local", "nil", 
-    "not", "or", "repeat", "return", "then", "true", "until",
-    "while"
-}
-
-def split_hint_args(data, ctxt=None):
-    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
-    name, args = name.strip(), args.strip()
-    if ctxt and ctxt.map_aliases:
-        name, args = ctxt.map_aliases(name, args)
-    return name, args
-
-class StopTraverse(BaseException):
-    pass
-
-k_skip_children = True # value returnable from traverse's pre-function
-
-class KeepCommentFlags(Bitmask):
-    first = last = ...
-
-class TokenNodeBase:
-    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
-    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
-
-    def __init__(m):
-        m.parent, m.children = None, ()
-
-    def __repr__(m):
-        return "%s(type=%s)" % (typename(m), m.type)
-
-    def __str__(m):
-        reprlist = []
-        for key, val in m.__dict__.items():
-            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
-                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
-                continue
-            reprlist.append("%s=%r" % (key, val))
-        return "%s(%s)" % (typename(m), ", ".join(reprlist))
-    
-    @property
-    def source_text(m):
-        if m.source and m.idx != None and m.endidx != None:
-            return m.source.text[m.idx:m.endidx]
-        else:
-            return None
-    
-    def find_parent(m, type):
-        parent = m.parent
-        while parent and parent.type != type:
-            parent = parent.parent
-        return parent
-
-    def _sibling(m, delta):
-        parent = m.parent
-        if parent is None:
-            return None
-        i = parent.children.index(m) + delta
-        return list_get(parent.children, i)
-
-    def next_sibling(m): return m._sibling(1)
-    def prev_sibling(m): return m._sibling(-1)
-
-    def _adjacent(m, delta):
-        while m:
-            sib = m._sibling(delta)
-            if sib:
-                return sib
-            m = m.parent
-        return None
-
-    def _find_token(m, delta, adjacent=False):
-        i = 0 if delta > 0 else -1
-        if adjacent:
-            m = m._adjacent(delta)
-        while isinstance(m, Node):
-            if m.children:
-                m = m.children[i]
-            else:
-                m = m._adjacent(delta)
-        return m if m else Token.none
-
-    def next_token(m): return m._find_token(1, adjacent=True)
-    def prev_token(m): return m._find_token(-1, adjacent=True)
-
-    def first_token(m): return m._find_token(1)
-    def last_token(m): return m._find_token(-1)
-
-    def find_or_create_token(m, child_i=0, last=False):
-        for_child = child_i < len(m.children) and not last
-        if for_child:
-            m = m.children[child_i]
-        token = m.first_token() if for_child else m.next_token()
-        is_after = True
-        if token is Token.none:
-            token = m.next_token() if for_child else m.last_token()
-            is_after = for_child
-            if token is Token.none:
-                token = m.prev_token()
-                is_after = False
-                if token is Token.none:
-                    token = Token.dummy(m.source)
-                    # we should only reach here when m is an empty node of some kind
-                    m.append_existing(token)
-        return token, is_after
-
-    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
-        skip = pre(m) if pre else None
-        if not skip:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_nodes(pre, post, tokens, extra)
-                elif tokens:
-                    tokens(child)
-            if extra and hasattr(m, "extra_children"):
-                for child in m.extra_children:
-                    child.traverse_nodes(pre, post, tokens, extra)
-        if post: post(m)
-
-    def traverse_tokens(m, visit):
-        if isinstance(m, Token):
-            visit(m)
-        else:
-            for child in m.children:
-                if isinstance(child, Node):
-                    child.traverse_tokens(visit)
-                else:
-                    visit(child)
-    
-    def traverse_parents(m, visit):
-        parent = m.parent
-        while parent:
-            visit(parent)
-            parent = parent.parent
-
-    def collect_comments(m, irrelevant=False, flags=None):
-        comments = []
-        def visit(token):
-            nonlocal comments
-            comments += token.children
-        
-        if isinstance(flags, KeepCommentFlags):
-            first_token = m.first_token() if flags.first else None
-            last_token = m.last_token() if flags.last else None
-            if first_token:
-                visit(first_token)
-            if last_token and last_token != first_token:
-                visit(last_token)
-        else:
-            m.traverse_tokens(visit)
-
-        if irrelevant:
-            comments = [c for c in comments if c.hint != CommentHint.auto]
-        return comments
-
-    def add_extra_child(m, child):
-        if not hasattr(m, "extra_children"):
-            m.extra_children = []
-        child.parent = m
-        child.extra_i = len(m.extra_children)
-        m.extra_children.append(child)
-    
-    def is_extra_child(m):
-        return hasattr(m, "extra_i")
-    
-    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
-        cpy = copy(m)
-        for child in cpy.children:
-            child.parent = cpy
-        m.erase(keep_comments=False) # (the copy has them)
-        return cpy
-
-    def copy(m):
-        cpy = copy(m)
-        cpy.children = [child.copy() for child in m.children]
-        for child in cpy.children:
-            child.parent = cpy
-        for key, val in cpy.__dict__.items():
-            idx = list_find(m.children, val)
-            if idx >= 0:
-                cpy.__dict__[key] = cpy.children[idx]
-        return cpy
-
-class TokenType(Enum):
-    number = string = ident = keyword = punct = ...
-    compiler = ... # special
-
-class Token(TokenNodeBase):
-    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
-    For number/string tokens, the actual value is 'parsed_value'
-    Its children are the comments *before* it, if any."""
-
-    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
-        super().__init__()
-        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
-    
-    def check(m, expected):
-        if isinstance(expected, tuple):
-            assert m.value in expected
-        else:
-            assert m.value == expected
-
-    def modify(m, value, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.value = value
-        m.modified = True
-        lazy_property.clear(m, "parsed_value")
-    
-    def erase(m, expected=None):
-        if expected != None:
-            m.check(expected)
-        m.type, m.value, m.modified = None, None, True
-
-    def add_comments(m, comments, first=False):
-        if m.children == ():
-            m.children = []
-        if first:
-            m.children[0:0] = comments
-        else:
-            m.children += comments
-    
-    def remove_comments(m):
-        m.children = ()
-
-    @lazy_property
-    def parsed_value(m):
-        if m.type == TokenType.number:
-            if m.lang == Language.picotron:
-                return parse_luanum(m.value)
-            else:
-                return parse_fixnum(m.value)
-        elif m.type == TokenType.string:
-            return parse_string_literal(m.value, m.lang)
-        else:
-            return None
-
-    @classmethod
-    def dummy(cls, source):
-        idx = len(source.text) if source else 0
-        vline = sys.maxsize if source else 0
-        return cls(None, None, source, idx, idx, vline, None)
-
-    @classmethod
-    def synthetic(cls, type, value, other, append=False, prepend=False):
-        idx = other.endidx if append else other.idx
-        endidx = other.idx if prepend else other.endidx
-        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
-
-Token.none = Token.dummy(None)
-
-class ConstToken(Token):
-    has_own_value = False # default property - whether value was set explicitly (see modify)
-
-    def __init__(m, type, parsed_value, other):
-        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
-        m.parsed_value = parsed_value
-        lazy_property.clear(m, "value")
-
-    @lazy_property
-    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
-                  # (but not used for output under minify-tokens)
-        if isinstance(m.parsed_value, (int, float)):
-            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
-            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
-            return format_num(m.parsed_value, sign=None if allow_unary else "")
-        else:
-            return format_string_literal(m.parsed_value, long=False)
-
-    def modify(m, value, expected=None):
-        super().modify(value, expected)
-        m.has_own_value = True
-
-    @post_property_change
-    def parent(m, old, new):
-        if not m.has_own_value:
-            lazy_property.clear(m, "value")
-
-class CommentHint(Enum):
-    none = auto = preserve = lint = keep = ...
-
-k_keep_prefix = "keep:"
-
-class Comment(TokenNodeBase):
-    """A pico8 comment, optionally holding some kind of hint"""
-
-    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
-        super().__init__()
-        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
-        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
-
-    def modify(m, value):
-        m.value = value
-        m.modified = True
-
-    @property
-    def value(m):
-        return m.source_text
-
-def is_ident_char(ch, lang=Language.pico8):
-    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
-            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
-
-def is_identifier(str, lang=Language.pico8):
-    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
-    
-k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
-
-k_hint_split_re = re.compile(r"[\s,]+")
-
-class NextTokenMods:
-    def __init__(m):
-        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
-        m.comments = None
-        
-    def add_comment(m, cmt):
-        if m.comments is None:
-            m.comments = []
-        m.comments.append(cmt)
-
-def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
-    text = source.text
-    idx = 0
-    vline = 0
-    tokens = []
-    errors = []
-    real_tokens = None
-    next_mods = None
-    if lang is None:
-        lang = ctxt.lang if ctxt else Language.pico8
-    
-    is_pico8 = lang == Language.pico8
-    is_picotron = lang == Language.picotron
-
-    def peek(off=0):
-        i = idx + off
-        return text[i] if 0 <= i < len(text) else ''
-
-    def take():
-        nonlocal idx
-        ch = peek()
-        idx += 1
-        return ch
-
-    def accept(ch,):
-        nonlocal idx
-        if peek() == ch:
-            idx += 1
-            return True
-        return False
-
-    def accept_one_of(*chs):
-        nonlocal idx
-        if peek() in chs:
-            idx += 1
-            return True
-        return False
-
-    def get_next_mods():
-        nonlocal next_mods
-        if next_mods is None:
-            next_mods = NextTokenMods()
-        return next_mods
-
-    def add_token(type, start, end_off=0, value=None):
-        end = idx + end_off
-        if value is None and type is not None: # (dummy tokens have type==value==None)
-            value = text[start:end]
-        token = Token(type, value, source, start, end, vline, lang)
-        tokens.append(token)
-        
-        nonlocal next_mods
-        if next_mods != None:
-            add_next_mods(token, next_mods)
-            next_mods = None
-        return token
-
-    def add_error(msg, off=-1):
-        add_token(None, idx + off) # error token
-        errors.append(Error(msg, tokens[-1]))
-
-    def add_dyn_include(include_data):
-        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
-            include_name, include_args = split_hint_args(include_data, ctxt)
-            include_func = ctxt.include_getter(include_name)
-            if include_func:
-                included_str = include_func(args=include_args, ctxt=ctxt)
-                if included_str != None:
-                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
-                    tokens.extend(included_tokens)
-                    errors.extend(included_errors)
-                    return
-            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
-
-    def add_sublang(token, sublang_data):
-        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
-            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
-
-            sublang_cls = ctxt.sublang_getter(sublang_name)
-            if sublang_cls:
-                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
-                token.sublang_name = sublang_name
-                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
-                                            ctxt=ctxt, on_error=add_lang_error)
-            else:
-                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
-
-    def switch_compiler(compiler_data):
-        nonlocal real_tokens, tokens
-        if real_tokens != None:
-            real_tokens, tokens = None, real_tokens
-
-        if compiler_data != None:
-            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
-                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
-                if compiler_name != "none":
-                    compiler_cls = ctxt.compiler_getter(compiler_name)
-                    if compiler_cls:
-                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
-                        for dyn_include in curr_compiler.get_dynamic_includes():
-                            add_dyn_include(dyn_include)
-                        
-                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
-                        compiler_token.compiler_name = compiler_name
-                        compiler_token.compiler = curr_compiler
-                        compiler_token.compiler_tokens = []
-                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
-
-                    else:
-                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
-
-    def add_next_mods(token, mods):
-        if mods.comments != None:
-            token.children = mods.comments        
-        if mods.var_kind != None:
-            token.var_kind = mods.var_kind
-        if mods.keys_kind != None:
-            token.keys_kind = mods.keys_kind
-        if mods.is_const != None:
-            token.is_const = mods.is_const
-        if mods.func_kind != None:
-            token.func_kind = mods.func_kind
-        if mods.merge_prev != None:
-            token.merge_prev = mods.merge_prev
-        if mods.force_safe != None:
-            token.force_safe = mods.force_safe
-        if mods.rename != None:
-            token.rename = mods.rename
-        if mods.placeholder != None:
-            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
-            token.placeholder_expr = mods.placeholder[1]
-            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
-                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
-        if mods.sublang != None:
-            add_sublang(token, mods.sublang)
-
-    def process_comment(orig_idx, comment, isblock):
-        hint, hintdata, hintprefix = CommentHint.none, None, ""
-
-        if ctxt and ctxt.hint_comments:
-            proper = False
-            if comment.startswith("$"):
-                comment = comment[1:]
-                hintprefix = "$"
-                proper = True
-
-            if comment.startswith("lint:"):
-                lints = k_hint_split_re.split(str_after_first(comment, ":"))
-                lints = [lint for lint in lints if lint]
-                hint, hintdata = CommentHint.lint, lints
-
-                for lint in lints:
-                    if lint.startswith("func::"):
-                        get_next_mods().func_kind = str_after_first(lint, "::")
-
-            elif comment.startswith("preserve:"):
-                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
-                preserves = [preserve for preserve in preserves if preserve]
-                hint, hintdata = CommentHint.preserve, preserves
-
-            elif comment.startswith(k_keep_prefix):
-                hint = CommentHint.keep
-                
-            elif comment.startswith("dynamic-include:") and proper:
-                add_dyn_include(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-            
-            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
-                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
-                dest_name, dest_args = split_hint_args(alias_value, ctxt)
-                if ctxt and ctxt.add_custom_alias:
-                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
-                hint = CommentHint.auto
-                
-            elif comment.startswith("switch-compiler:") and proper:
-                switch_compiler(str_after_first(comment, ":"))
-                hint = CommentHint.auto
-
-            elif isblock:
-                hint = CommentHint.auto
-                if comment in ("global", "nameof"): # nameof is deprecated
-                    get_next_mods().var_kind = VarKind.global_
-                elif comment in ("member", "memberof"): # memberof is deprecated
-                    get_next_mods().var_kind = VarKind.member
-                elif comment in ("preserve", "string"): # string is deprecated
-                    get_next_mods().var_kind = False
-                elif comment == "global-keys":
-                    get_next_mods().keys_kind = VarKind.global_
-                elif comment == "member-keys":
-                    get_next_mods().keys_kind = VarKind.member
-                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
-                    get_next_mods().keys_kind = False
-                elif comment == "no-merge":
-                    get_next_mods().merge_prev = False
-                elif comment == "const":
-                    get_next_mods().is_const = True
-                elif comment == "non-const":
-                    get_next_mods().is_const = False
-                elif comment == "force-safe":
-                    get_next_mods().force_safe = True
-                elif comment.startswith("language::"):
-                    get_next_mods().sublang = str_after_first(comment, "::")
-                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
-                    get_next_mods().rename = str_after_first(comment, "::")
-                elif comment.startswith("placeholder-expr::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
-                elif comment.startswith("placeholder-stmt::") and proper:
-                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
-                else:
-                    hint = CommentHint.none
-        
-            if proper and hint == CommentHint.none:
-                eprint(f"unrecognized $-comment '{comment}'")
-            # at some point, warn about improper comments and so on?
-
-        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
-            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
-        
-    def tokenize_line_comment():
-        nonlocal vline
-        orig_idx = idx
-        while take() not in ('\n', ''): pass
-
-        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
-        vline += 1
-
-    def tokenize_long_brackets(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if accept('['):
-            pad_idx = idx
-            while accept('='): pass
-            pad = text[pad_idx:idx]
-
-            if accept('['):
-                start_i = idx
-                end_i = text.find(f"]{pad}]", idx)
-                if end_i >= 0:
-                    idx = end_i + len(pad) + 2
-                    return True, orig_idx, start_i, end_i
-                
-                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
-        
-        return False, orig_idx, None, None
-
-    def tokenize_long_comment():
-        nonlocal idx
-        ok, orig_idx, start, end = tokenize_long_brackets(0)
-        if ok:
-            process_comment(orig_idx - 2, text[start:end], isblock=True)
-        else:
-            idx = orig_idx
-        return ok
-
-    def tokenize_number(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-
-        if is_picotron:
-            is_hex = peek() == '0' and peek(1) in ('x', 'X')
-
-            while True:
-                ch = peek()
-                if (is_ident_char(ch, lang) or ch == '.' or
-                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
-                    idx += 1
-                else:
-                    break
-
-        else:
-            ch = peek()
-            if ch == '0' and peek(1) in ('b', 'B'):
-                idx += 2
-                digits = "01"
-            elif ch == '0' and peek(1) in ('x', 'X'):
-                idx += 2
-                digits = "0123456789aAbBcCdDeEfF"
-            else:
-                digits = "0123456789"
-
-            while True:
-                ch = peek()
-                if ch and ch in digits:
-                    idx += 1
-                elif ch == '.':
-                    idx += 1
-                else:
-                    break
-
-        add_token(TokenType.number, orig_idx)
-
-    def tokenize_ident(off):
-        nonlocal idx
-        idx += off
-        orig_idx = idx
-        
-        while is_ident_char(peek(), lang):
-            idx += 1
-            
-        if text[orig_idx:idx] in keywords:
-            add_token(TokenType.keyword, orig_idx)
-        else:
-            add_token(TokenType.ident, orig_idx)
-
-    def tokenize_string(off):
-        nonlocal idx
-        orig_idx = idx + off
-        idx = orig_idx + 1
-        quote = text[orig_idx]
-
-        while True:
-            ch = take()
-            if ch in ('\n', ''):
-                add_error("Unterminated string", orig_idx - idx)
-                break
-            elif ch == '\\':
-                if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
-                        take()
-                else:
-                    take() # at least
-            elif ch == quote:
-                break
-
-        add_token(TokenType.string, orig_idx)
-
-    def tokenize_long_string(off):
-        ok, orig_idx, _, _ = tokenize_long_brackets(off)
-        if ok:
-            add_token(TokenType.string, orig_idx)
-        else:
-            add_error("Invalid long brackets")
-    
-    if ctxt and ctxt.default_compiler and not inner:
-        switch_compiler(ctxt.default_compiler)
-
-    while idx < len(text):
-        ch = take()
-
-        if ch in k_wspace: # whitespace
-            if ch == "\n":
-                vline += 1
-
-        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
-            tokenize_number(-1)
-
-        elif is_ident_char(ch, lang): # identifier
-            tokenize_ident(-1)
-
-        elif ch in ('"', "'"): # string
-            tokenize_string(-1)
-
-        elif ch == '[' and accept_one_of('=', '['): # long string
-            tokenize_long_string(-2)
-
-        elif ch == '-' and accept('-'): # comment
-            if not tokenize_long_comment():
-                tokenize_line_comment()
-
-        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
-            tokenize_line_comment()
-
-        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
-            orig_idx = idx - 1
-            if ch in ".:/^<>" and accept(ch):
-                if ch in (".>" if is_pico8 else ".") and accept(ch):
-                    if ch == ">": accept('=')
-                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
-                    accept('=')
-                elif ch in "./^<>":
-                    accept('=')
-            elif ch in "+-*/\\%&|^<>=~":
-                accept('=')
-            add_token(TokenType.punct, orig_idx)
-
-        elif ch == '!' and accept('='): # alt. punctuation
-            add_token(TokenType.punct, idx - 2)
-
-        else:
-            add_error("invalid character")
-    
-    if (next_mods or all_comments) and not inner:
-        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
-
-    if real_tokens != None:
-        switch_compiler(None)
-    return tokens, errors
-    
-
-def count_tokens(tokens):
-    count = 0
-    for i, token in enumerate(tokens):
-        if token.children:
-            for comment in token.children:
-                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
-                    return count
-
-        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
-            continue
-
-        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
-                token.endidx == tokens[i+1].idx and
-                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
-                tokens[i-1].value not in (")", "]", "}", ";", "end")):
-            continue
-
-        count += 1
-    return count
-
-def parse_fixnum(origstr):
-    """parse a fixnum from a pico8 string"""
-    str = origstr.lower()
-    
-    neg = bnot = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-    elif str.startswith("~"):
-        str = str[1:]
-        bnot = True
-
-    digits = "0123456789"
-    if str.startswith("0x"):
-        digits += "abcdef"
-        str = str[2:]
-    elif str.startswith("0b"):
-        digits = "01"
-        str = str[2:]
-    base = len(digits)
-
-    value = 0
-    while str and str[0] in digits:
-        value = (value * base) + digits.index(str[0])
-        str = str[1:]
-
-    if str and str[0] == '.':
-        str = str[1:]
-        dotvalue = 0
-        dotdigits = 0
-        while str and str[0] in digits:
-            dotvalue = (dotvalue * base) + digits.index(str[0])
-            dotdigits += 1
-            str = str[1:]
-        
-        value += dotvalue / (base ** dotdigits)
-    
-    if str:
-        throw(f"Invalid pico8 number: {origstr}")
-
-    fixnum = num_to_fixnum(value)
-    if neg:
-        fixnum = -fixnum & k_fixnum_mask
-    elif bnot:
-        fixnum = ~fixnum & k_fixnum_mask
-
-    return fixnum
-
-def parse_luanum(origstr):
-    str = origstr.lower()
-
-    neg = False
-    if str.startswith("-"):
-        str = str[1:]
-        neg = True
-
-    try:
-        if str.startswith("0x"):
-            if "." in str or "p" in str:
-                try:
-                    value = float.fromhex(str)
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(int(str, base=16))
-        
-        elif str.startswith("0b"):
-            # TODO: recheck this if ever fixed to support exponents?
-            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
-            dotpos = str.find(".")
-            if dotpos >= 0:
-                str = str_replace_at(str, dotpos, 1, "")
-            value = int(str, base=2)
-            if dotpos >= 0:
-                try:
-                    value = math.ldexp(value, dotpos - len(str))
-                except OverflowError:
-                    value = float('inf')
-            else:
-                value = num_to_luaint(value)
-            
-        else:
-            if "." in str or "e" in str:
-                value = float(str) # no OverflowError here
-            else:
-                value = int(str)
-                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
-                    value = num_to_luaint(value)
-                else:
-                    value = float(value)
-    except ValueError:
-        throw(f"Invalid lua number: {origstr}")
-    
-    if neg:
-        value = -value
-    return value
-
-k_char_escapes = {
-    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
-    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
-    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
-}
-
-def lang_chr(value, lang):
-    if lang == Language.pico8 or value < 0x80:
-        return chr(value)
-    else:
-        return chr(0xdc00 + value) # surrogate escape
-
-def ext_unicode_to_lang_str(value, lang):
-    if value < 0x80:
-        return lang_chr(value, lang)
-    
-    suffix = ""
-    count = 0
-    while value >= (0x40 >> count):
-        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
-        value >>= 6
-        count += 1
-    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
-
-def parse_char_escape(str, pos, lang):
-    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
-
-    esc = str_get(str, pos + 1)
-    esc_ch = k_char_escapes.get(esc)
-    if esc_ch:
-        return esc_ch, pos + 2
-
-    elif esc == 'z':
-        end = pos + 2
-        while str_get(str, end, "x") in k_wspace:
-            end += 1
-        return "", end
-
-    elif esc == 'x':
-        end = pos + 4
-        hex_esc = str[pos + 2 : end]
-        value = maybe_int(hex_esc, base=16)
-        if value is None:
-            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif '0' <= esc <= '9':
-        end = pos + 2
-        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
-            end += 1
-        dec_esc = str[pos + 1 : end]
-        value = maybe_int(dec_esc)
-        if value is None or value >= 256:
-            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
-        return lang_chr(value, lang), end
-
-    elif lang == Language.picotron and esc == 'u':
-        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
-        end = str.find("}", pos) + 1
-        check(end > 0, f"Unterminated unicode escape in: '{str}'")
-        uni_esc = str[pos + 3 : end - 1]
-        value = maybe_int(uni_esc, base=16)
-        if value is None or value >= 0x80000000:
-            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
-        return ext_unicode_to_lang_str(value, lang), end
-
-    else:
-        throw(f"Invalid escape: '{esc}' in: '{str}'")    
-
-def parse_string_literal(str, lang=Language.pico8):
-    """parse a pico8 string from a pico8 string literal"""
-    if str.startswith("["):
-        start = str.index("[", 1) + 1
-        lit = str[start:-start]
-        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
-        if lit.startswith('\n'):
-            lit = lit[1:]
-        return lit
-
-    else:
-        litparts = []
-        str = str[1:-1]
-        start = 0
-        while start < len(str):
-            end = str.find('\\', start)
-            if end < 0:
-                litparts.append(str[start:])
-                break
-
-            if end > start:
-                litparts.append(str[start:end])
-
-            esc, start = parse_char_escape(str, end, lang)
-            litparts.append(esc)
-                
-        return "".join(litparts)
-
-from pico_parse import Node, VarKind, can_replace_with_unary
-from pico_output import format_fixnum, format_luanum, format_string_literal
-from pico_process import Error, Source
+from utils import *
+from pico_preprocess import k_wspace
+from pico_defs import Language, k_fixnum_mask, num_to_fixnum, num_to_luaint, is_luaint_in_range
+
+keywords = {
+    "and", "break", "do", "else", "elseif", "end", "false", 
+    "for", "function", "goto", "if", "in", "local", "nil", 
+    "not", "or", "repeat", "return", "then", "true", "until",
+    "while"
+}
+
+def split_hint_args(data, ctxt=None):
+    name, args = list_unpack(data.strip().split(" ", 1), 2, "")
+    name, args = name.strip(), args.strip()
+    if ctxt and ctxt.map_aliases:
+        name, args = ctxt.map_aliases(name, args)
+    return name, args
+
+class StopTraverse(BaseException):
+    pass
+
+k_skip_children = True # value returnable from traverse's pre-function
+
+class KeepCommentFlags(Bitmask):
+    first = last = ...
+
+class TokenNodeBase:
+    """Baseclass for syntax Tokens, syntax Nodes, and Comments.
+    The syntax tree is comprised of these and can be traversed via traverse_nodes or traverse_tokens"""
+
+    def __init__(m):
+        m.parent, m.children = None, ()
+
+    def __repr__(m):
+        return "%s(type=%s)" % (typename(m), m.type)
+
+    def __str__(m):
+        reprlist = []
+        for key, val in m.__dict__.items():
+            if key in ("parent", "children", "idx", "endidx", "vline", "lang", "modified", "source",
+                       "scope", "extra_i", "extra_children", "stmts", "globals", "members"):
+                continue
+            reprlist.append("%s=%r" % (key, val))
+        return "%s(%s)" % (typename(m), ", ".join(reprlist))
+    
+    @property
+    def source_text(m):
+        if m.source and m.idx != None and m.endidx != None:
+            return m.source.text[m.idx:m.endidx]
+        else:
+            return None
+    
+    def find_parent(m, type):
+        parent = m.parent
+        while parent and parent.type != type:
+            parent = parent.parent
+        return parent
+
+    def _sibling(m, delta):
+        parent = m.parent
+        if parent is None:
+            return None
+        i = parent.children.index(m) + delta
+        return list_get(parent.children, i)
+
+    def next_sibling(m): return m._sibling(1)
+    def prev_sibling(m): return m._sibling(-1)
+
+    def _adjacent(m, delta):
+        while m:
+            sib = m._sibling(delta)
+            if sib:
+                return sib
+            m = m.parent
+        return None
+
+    def _find_token(m, delta, adjacent=False):
+        i = 0 if delta > 0 else -1
+        if adjacent:
+            m = m._adjacent(delta)
+        while isinstance(m, Node):
+            if m.children:
+                m = m.children[i]
+            else:
+                m = m._adjacent(delta)
+        return m if m else Token.none
+
+    def next_token(m): return m._find_token(1, adjacent=True)
+    def prev_token(m): return m._find_token(-1, adjacent=True)
+
+    def first_token(m): return m._find_token(1)
+    def last_token(m): return m._find_token(-1)
+
+    def find_or_create_token(m, child_i=0, last=False):
+        for_child = child_i < len(m.children) and not last
+        if for_child:
+            m = m.children[child_i]
+        token = m.first_token() if for_child else m.next_token()
+        is_after = True
+        if token is Token.none:
+            token = m.next_token() if for_child else m.last_token()
+            is_after = for_child
+            if token is Token.none:
+                token = m.prev_token()
+                is_after = False
+                if token is Token.none:
+                    token = Token.dummy(m.source)
+                    # we should only reach here when m is an empty node of some kind
+                    m.append_existing(token)
+        return token, is_after
+
+    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
+        skip = pre(m) if pre else None
+        if not skip:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_nodes(pre, post, tokens, extra)
+                elif tokens:
+                    tokens(child)
+            if extra and hasattr(m, "extra_children"):
+                for child in m.extra_children:
+                    child.traverse_nodes(pre, post, tokens, extra)
+        if post: post(m)
+
+    def traverse_tokens(m, visit):
+        if isinstance(m, Token):
+            visit(m)
+        else:
+            for child in m.children:
+                if isinstance(child, Node):
+                    child.traverse_tokens(visit)
+                else:
+                    visit(child)
+    
+    def traverse_parents(m, visit):
+        parent = m.parent
+        while parent:
+            visit(parent)
+            parent = parent.parent
+
+    def collect_comments(m, irrelevant=False, flags=None):
+        comments = []
+        def visit(token):
+            nonlocal comments
+            comments += token.children
+        
+        if isinstance(flags, KeepCommentFlags):
+            first_token = m.first_token() if flags.first else None
+            last_token = m.last_token() if flags.last else None
+            if first_token:
+                visit(first_token)
+            if last_token and last_token != first_token:
+                visit(last_token)
+        else:
+            m.traverse_tokens(visit)
+
+        if irrelevant:
+            comments = [c for c in comments if c.hint != CommentHint.auto]
+        return comments
+
+    def add_extra_child(m, child):
+        if not hasattr(m, "extra_children"):
+            m.extra_children = []
+        child.parent = m
+        child.extra_i = len(m.extra_children)
+        m.extra_children.append(child)
+    
+    def is_extra_child(m):
+        return hasattr(m, "extra_i")
+    
+    def move(m): # create a "destructive" copy - old object is no longer usable unless replaced
+        cpy = copy(m)
+        for child in cpy.children:
+            child.parent = cpy
+        m.erase(keep_comments=False) # (the copy has them)
+        return cpy
+
+    def copy(m):
+        cpy = copy(m)
+        cpy.children = [child.copy() for child in m.children]
+        for child in cpy.children:
+            child.parent = cpy
+        for key, val in cpy.__dict__.items():
+            idx = list_find(m.children, val)
+            if idx >= 0:
+                cpy.__dict__[key] = cpy.children[idx]
+        return cpy
+
+class TokenType(Enum):
+    number = string = ident = keyword = punct = ...
+    compiler = ... # special
+
+class Token(TokenNodeBase):
+    """A pico8 token, at 'source'.text['idx':'endidx'] (which is equal to its 'value'). Its 'type' is a TokenType.
+    For number/string tokens, the actual value is 'parsed_value'
+    Its children are the comments *before* it, if any."""
+
+    def __init__(m, type, value, source, idx, endidx, vline, lang, modified=False):
+        super().__init__()
+        m.type, m.value, m.source, m.idx, m.endidx, m.vline, m.lang, m.modified = type, value, source, idx, endidx, vline, lang, modified
+    
+    def check(m, expected):
+        if isinstance(expected, tuple):
+            assert m.value in expected
+        else:
+            assert m.value == expected
+
+    def modify(m, value, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.value = value
+        m.modified = True
+        lazy_property.clear(m, "parsed_value")
+    
+    def erase(m, expected=None):
+        if expected != None:
+            m.check(expected)
+        m.type, m.value, m.modified = None, None, True
+
+    def add_comments(m, comments, first=False):
+        if m.children == ():
+            m.children = []
+        if first:
+            m.children[0:0] = comments
+        else:
+            m.children += comments
+    
+    def remove_comments(m):
+        m.children = ()
+
+    @lazy_property
+    def parsed_value(m):
+        if m.type == TokenType.number:
+            if m.lang == Language.picotron:
+                return parse_luanum(m.value)
+            else:
+                return parse_fixnum(m.value)
+        elif m.type == TokenType.string:
+            return parse_string_literal(m.value, m.lang)
+        else:
+            return None
+
+    @classmethod
+    def dummy(cls, source):
+        idx = len(source.text) if source else 0
+        vline = sys.maxsize if source else 0
+        return cls(None, None, source, idx, idx, vline, None)
+
+    @classmethod
+    def synthetic(cls, type, value, other, append=False, prepend=False):
+        idx = other.endidx if append else other.idx
+        endidx = other.idx if prepend else other.endidx
+        return cls(type, value, other.source, idx, endidx, other.vline, other.lang, modified=True)
+
+Token.none = Token.dummy(None)
+
+class ConstToken(Token):
+    has_own_value = False # default property - whether value was set explicitly (see modify)
+
+    def __init__(m, type, parsed_value, other):
+        super().__init__(type, None, other.source, other.idx, other.endidx, other.vline, other.lang, modified=True)
+        m.parsed_value = parsed_value
+        lazy_property.clear(m, "value")
+
+    @lazy_property
+    def value(m): # used during going over chars for rename (tsk...) and for output when not minify-tokens
+                  # (but not used for output under minify-tokens)
+        if isinstance(m.parsed_value, (int, float)):
+            allow_unary = can_replace_with_unary(m.parent) if m.parent else True
+            format_num = format_fixnum if m.lang == Language.pico8 else format_luanum
+            return format_num(m.parsed_value, sign=None if allow_unary else "")
+        else:
+            return format_string_literal(m.parsed_value, long=False)
+
+    def modify(m, value, expected=None):
+        super().modify(value, expected)
+        m.has_own_value = True
+
+    @post_property_change
+    def parent(m, old, new):
+        if not m.has_own_value:
+            lazy_property.clear(m, "value")
+
+class CommentHint(Enum):
+    none = auto = preserve = lint = keep = ...
+
+k_keep_prefix = "keep:"
+
+class Comment(TokenNodeBase):
+    """A pico8 comment, optionally holding some kind of hint"""
+
+    def __init__(m, isblock, hint, hintdata=None, hintprefix="", source=None, idx=None, endidx=None, vline=None, modified=False):
+        super().__init__()
+        m.isblock, m.hint, m.hintdata, m.hintprefix = isblock, hint, hintdata, hintprefix
+        m.source, m.idx, m.endidx, m.vline, m.modified = source, idx, endidx, vline, modified
+
+    def modify(m, value):
+        m.value = value
+        m.modified = True
+
+    @property
+    def value(m):
+        return m.source_text
+
+def is_ident_char(ch, lang=Language.pico8):
+    return ('0' <= ch <= '9' or 'a' <= ch <= 'z' or 'A' <= ch <= 'Z' or ch == '_' or
+            (lang == Language.pico8 and (ch in ('\x1e', '\x1f') or ch >= '\x80')))
+
+def is_identifier(str, lang=Language.pico8):
+    return str and all(is_ident_char(ch, lang) for ch in str) and not str[:1].isdigit() and str not in keywords
+    
+k_identifier_split_re = r"([0-9A-Za-z_\x1e\x1f\x80-\xff]+)"
+
+k_hint_split_re = re.compile(r"[\s,]+")
+
+class NextTokenMods:
+    def __init__(m):
+        m.var_kind = m.keys_kind = m.is_const = m.func_kind = m.merge_prev = m.force_safe = m.sublang = m.rename = m.placeholder = None
+        m.comments = None
+        
+    def add_comment(m, cmt):
+        if m.comments is None:
+            m.comments = []
+        m.comments.append(cmt)
+
+def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
+    text = source.text
+    idx = 0
+    vline = 0
+    tokens = []
+    errors = []
+    real_tokens = None
+    next_mods = None
+    if lang is None:
+        lang = ctxt.lang if ctxt else Language.pico8
+    
+    is_pico8 = lang == Language.pico8
+    is_picotron = lang == Language.picotron
+
+    def peek(off=0):
+        i = idx + off
+        return text[i] if 0 <= i < len(text) else ''
+
+    def take():
+        nonlocal idx
+        ch = peek()
+        idx += 1
+        return ch
+
+    def accept(ch,):
+        nonlocal idx
+        if peek() == ch:
+            idx += 1
+            return True
+        return False
+
+    def accept_one_of(*chs):
+        nonlocal idx
+        if peek() in chs:
+            idx += 1
+            return True
+        return False
+
+    def get_next_mods():
+        nonlocal next_mods
+        if next_mods is None:
+            next_mods = NextTokenMods()
+        return next_mods
+
+    def add_token(type, start, end_off=0, value=None):
+        end = idx + end_off
+        if value is None and type is not None: # (dummy tokens have type==value==None)
+            value = text[start:end]
+        token = Token(type, value, source, start, end, vline, lang)
+        tokens.append(token)
+        
+        nonlocal next_mods
+        if next_mods != None:
+            add_next_mods(token, next_mods)
+            next_mods = None
+        return token
+
+    def add_error(msg, off=-1):
+        add_token(None, idx + off) # error token
+        errors.append(Error(msg, tokens[-1]))
+
+    def add_dyn_include(include_data):
+        if ctxt and ctxt.include_getter and not ctxt.ignore_transforms:
+            include_name, include_args = split_hint_args(include_data, ctxt)
+            include_func = ctxt.include_getter(include_name)
+            if include_func:
+                included_str = include_func(args=include_args, ctxt=ctxt)
+                if included_str != None:
+                    included_tokens, included_errors = tokenize(Source(include_name, included_str), ctxt, all_comments, inner=True)
+                    tokens.extend(included_tokens)
+                    errors.extend(included_errors)
+                    return
+            eprint("warning - ignoring unrecognized dynamic include '%s'" % include_name)
+
+    def add_sublang(token, sublang_data):
+        if ctxt and ctxt.sublang_getter and token.type == TokenType.string:
+            sublang_name, sublang_args = split_hint_args(sublang_data, ctxt)
+
+            sublang_cls = ctxt.sublang_getter(sublang_name)
+            if sublang_cls:
+                add_lang_error = lambda msg: add_error(f"{sublang_name}: {msg}")
+                token.sublang_name = sublang_name
+                token.sublang = sublang_cls(token.parsed_value, args=sublang_args,
+                                            ctxt=ctxt, on_error=add_lang_error)
+            else:
+                eprint("warning - ignoring unrecognized language '%s'" % sublang_name)
+
+    def switch_compiler(compiler_data):
+        nonlocal real_tokens, tokens
+        if real_tokens != None:
+            real_tokens, tokens = None, real_tokens
+
+        if compiler_data != None:
+            if ctxt and ctxt.compiler_getter and not ctxt.ignore_transforms:
+                compiler_name, compiler_args = split_hint_args(compiler_data, ctxt)
+                if compiler_name != "none":
+                    compiler_cls = ctxt.compiler_getter(compiler_name)
+                    if compiler_cls:
+                        curr_compiler = compiler_cls(args=compiler_args, ctxt=ctxt, src=source)
+                        for dyn_include in curr_compiler.get_dynamic_includes():
+                            add_dyn_include(dyn_include)
+                        
+                        compiler_token = add_token(TokenType.compiler, idx, value="`compiler`")
+                        compiler_token.compiler_name = compiler_name
+                        compiler_token.compiler = curr_compiler
+                        compiler_token.compiler_tokens = []
+                        real_tokens, tokens = tokens, compiler_token.compiler_tokens
+
+                    else:
+                        eprint("warning - ignoring unrecognized compiler '%s'" % compiler_name)
+
+    def add_next_mods(token, mods):
+        if mods.comments != None:
+            token.children = mods.comments        
+        if mods.var_kind != None:
+            token.var_kind = mods.var_kind
+        if mods.keys_kind != None:
+            token.keys_kind = mods.keys_kind
+        if mods.is_const != None:
+            token.is_const = mods.is_const
+        if mods.func_kind != None:
+            token.func_kind = mods.func_kind
+        if mods.merge_prev != None:
+            token.merge_prev = mods.merge_prev
+        if mods.force_safe != None:
+            token.force_safe = mods.force_safe
+        if mods.rename != None:
+            token.rename = mods.rename
+        if mods.placeholder != None:
+            token.placeholder_name, token.placeholder_args = split_hint_args(mods.placeholder[0], ctxt)
+            token.placeholder_expr = mods.placeholder[1]
+            if not (token.type == TokenType.string if token.placeholder_expr else token.value == 'do'):
+                eprint(f"invalid usage of $placeholder: {token.placeholder_name}")
+        if mods.sublang != None:
+            add_sublang(token, mods.sublang)
+
+    def process_comment(orig_idx, comment, isblock):
+        hint, hintdata, hintprefix = CommentHint.none, None, ""
+
+        if ctxt and ctxt.hint_comments:
+            proper = False
+            if comment.startswith("$"):
+                comment = comment[1:]
+                hintprefix = "$"
+                proper = True
+
+            if comment.startswith("lint:"):
+                lints = k_hint_split_re.split(str_after_first(comment, ":"))
+                lints = [lint for lint in lints if lint]
+                hint, hintdata = CommentHint.lint, lints
+
+                for lint in lints:
+                    if lint.startswith("func::"):
+                        get_next_mods().func_kind = str_after_first(lint, "::")
+
+            elif comment.startswith("preserve:"):
+                preserves = k_hint_split_re.split(str_after_first(comment, ":"))
+                preserves = [preserve for preserve in preserves if preserve]
+                hint, hintdata = CommentHint.preserve, preserves
+
+            elif comment.startswith(k_keep_prefix):
+                hint = CommentHint.keep
+                
+            elif comment.startswith("dynamic-include:") and proper:
+                add_dyn_include(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+            
+            elif (comment.startswith("def-alias:") and proper) or comment.startswith("deflanguage:"): # deflanguage is deprecated
+                alias_name, alias_value = list_unpack(str_after_first(comment, ":").split("=", 1), 2, "")
+                dest_name, dest_args = split_hint_args(alias_value, ctxt)
+                if ctxt and ctxt.add_custom_alias:
+                    ctxt.add_custom_alias(alias_name.strip(), dest_name, dest_args)
+                hint = CommentHint.auto
+                
+            elif comment.startswith("switch-compiler:") and proper:
+                switch_compiler(str_after_first(comment, ":"))
+                hint = CommentHint.auto
+
+            elif isblock:
+                hint = CommentHint.auto
+                if comment in ("global", "nameof"): # nameof is deprecated
+                    get_next_mods().var_kind = VarKind.global_
+                elif comment in ("member", "memberof"): # memberof is deprecated
+                    get_next_mods().var_kind = VarKind.member
+                elif comment in ("preserve", "string"): # string is deprecated
+                    get_next_mods().var_kind = False
+                elif comment == "global-keys":
+                    get_next_mods().keys_kind = VarKind.global_
+                elif comment == "member-keys":
+                    get_next_mods().keys_kind = VarKind.member
+                elif comment in ("preserve-keys", "string-keys"): # string-keys is deprecated
+                    get_next_mods().keys_kind = False
+                elif comment == "no-merge":
+                    get_next_mods().merge_prev = False
+                elif comment == "const":
+                    get_next_mods().is_const = True
+                elif comment == "non-const":
+                    get_next_mods().is_const = False
+                elif comment == "force-safe":
+                    get_next_mods().force_safe = True
+                elif comment.startswith("language::"):
+                    get_next_mods().sublang = str_after_first(comment, "::")
+                elif comment.startswith("rename::") and not any(ch.isspace() for ch in comment):
+                    get_next_mods().rename = str_after_first(comment, "::")
+                elif comment.startswith("placeholder-expr::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), True)
+                elif comment.startswith("placeholder-stmt::") and proper:
+                    get_next_mods().placeholder = (str_after_first(comment, "::"), False)
+                else:
+                    hint = CommentHint.none
+        
+            if proper and hint == CommentHint.none:
+                eprint(f"unrecognized $-comment '{comment}'")
+            # at some point, warn about improper comments and so on?
+
+        if all_comments or (hint != CommentHint.none and hint != CommentHint.auto):
+            get_next_mods().add_comment(Comment(isblock, hint, hintdata, hintprefix, source, orig_idx, idx, vline))
+        
+    def tokenize_line_comment():
+        nonlocal vline
+        orig_idx = idx
+        while take() not in ('\n', ''): pass
+
+        process_comment(orig_idx - 2, text[orig_idx:idx], isblock=False)
+        vline += 1
+
+    def tokenize_long_brackets(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if accept('['):
+            pad_idx = idx
+            while accept('='): pass
+            pad = text[pad_idx:idx]
+
+            if accept('['):
+                start_i = idx
+                end_i = text.find(f"]{pad}]", idx)
+                if end_i >= 0:
+                    idx = end_i + len(pad) + 2
+                    return True, orig_idx, start_i, end_i
+                
+                add_error("Unterminated long comment (no longer accepted by pico8)", 0)
+        
+        return False, orig_idx, None, None
+
+    def tokenize_long_comment():
+        nonlocal idx
+        ok, orig_idx, start, end = tokenize_long_brackets(0)
+        if ok:
+            process_comment(orig_idx - 2, text[start:end], isblock=True)
+        else:
+            idx = orig_idx
+        return ok
+
+    def tokenize_number(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+
+        if is_picotron:
+            is_hex = peek() == '0' and peek(1) in ('x', 'X')
+
+            while True:
+                ch = peek()
+                if (is_ident_char(ch, lang) or ch == '.' or
+                        (ch in ('-', '+') and peek(-1) in (('p', 'P') if is_hex else ('e', 'E')))):
+                    idx += 1
+                else:
+                    break
+
+        else:
+            ch = peek()
+            if ch == '0' and peek(1) in ('b', 'B'):
+                idx += 2
+                digits = "01"
+            elif ch == '0' and peek(1) in ('x', 'X'):
+                idx += 2
+                digits = "0123456789aAbBcCdDeEfF"
+            else:
+                digits = "0123456789"
+
+            while True:
+                ch = peek()
+                if ch and ch in digits:
+                    idx += 1
+                elif ch == '.':
+                    idx += 1
+                else:
+                    break
+
+        add_token(TokenType.number, orig_idx)
+
+    def tokenize_ident(off):
+        nonlocal idx
+        idx += off
+        orig_idx = idx
+        
+        while is_ident_char(peek(), lang):
+            idx += 1
+            
+        if text[orig_idx:idx] in keywords:
+            add_token(TokenType.keyword, orig_idx)
+        else:
+            add_token(TokenType.ident, orig_idx)
+
+    def tokenize_string(off):
+        nonlocal idx
+        orig_idx = idx + off
+        idx = orig_idx + 1
+        quote = text[orig_idx]
+
+        while True:
+            ch = take()
+            if ch in ('\n', ''):
+                add_error("Unterminated string", orig_idx - idx)
+                break
+            elif ch == '\\':
+                if accept('z'): # skip line breaks
+                    while peek() in k_wspace:
+                        take()
+                else:
+                    take() # at least
+            elif ch == quote:
+                break
+
+        add_token(TokenType.string, orig_idx)
+
+    def tokenize_long_string(off):
+        ok, orig_idx, _, _ = tokenize_long_brackets(off)
+        if ok:
+            add_token(TokenType.string, orig_idx)
+        else:
+            add_error("Invalid long brackets")
+    
+    if ctxt and ctxt.default_compiler and not inner:
+        switch_compiler(ctxt.default_compiler)
+
+    while idx < len(text):
+        ch = take()
+
+        if ch in k_wspace: # whitespace
+            if ch == "\n":
+                vline += 1
+
+        elif '0' <= ch <= '9' or (ch == '.' and '0' <= peek() <= '9'): # number
+            tokenize_number(-1)
+
+        elif is_ident_char(ch, lang): # identifier
+            tokenize_ident(-1)
+
+        elif ch in ('"', "'"): # string
+            tokenize_string(-1)
+
+        elif ch == '[' and accept_one_of('=', '['): # long string
+            tokenize_long_string(-2)
+
+        elif ch == '-' and accept('-'): # comment
+            if not tokenize_long_comment():
+                tokenize_line_comment()
+
+        elif ch == '/' and is_pico8 and accept('/'): # c-style comment
+            tokenize_line_comment()
+
+        elif ch in "+-*/\\%&|^<>=~#()[]{};,?@$.:": # punctuation
+            orig_idx = idx - 1
+            if ch in ".:/^<>" and accept(ch):
+                if ch in (".>" if is_pico8 else ".") and accept(ch):
+                    if ch == ">": accept('=')
+                elif ch in "<>" and is_pico8 and accept(">" if ch == "<" else "<"):
+                    accept('=')
+                elif ch in "./^<>":
+                    accept('=')
+            elif ch in "+-*/\\%&|^<>=~":
+                accept('=')
+            add_token(TokenType.punct, orig_idx)
+
+        elif ch == '!' and accept('='): # alt. punctuation
+            add_token(TokenType.punct, idx - 2)
+
+        else:
+            add_error("invalid character")
+    
+    if (next_mods or all_comments) and not inner:
+        add_token(None, idx) # end token, for ending whitespace/comments/etc (TBD: lost if inner...)
+
+    if real_tokens != None:
+        switch_compiler(None)
+    return tokens, errors
+    
+
+def count_tokens(tokens):
+    count = 0
+    for i, token in enumerate(tokens):
+        if token.children:
+            for comment in token.children:
+                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
+                    return count
+
+        if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
+            continue
+
+        if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
+                token.endidx == tokens[i+1].idx and
+                i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
+                tokens[i-1].value not in (")", "]", "}", ";", "end")):
+            continue
+
+        count += 1
+    return count
+
+def parse_fixnum(origstr):
+    """parse a fixnum from a pico8 string"""
+    str = origstr.lower()
+    
+    neg = bnot = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+    elif str.startswith("~"):
+        str = str[1:]
+        bnot = True
+
+    digits = "0123456789"
+    if str.startswith("0x"):
+        digits += "abcdef"
+        str = str[2:]
+    elif str.startswith("0b"):
+        digits = "01"
+        str = str[2:]
+    base = len(digits)
+
+    value = 0
+    while str and str[0] in digits:
+        value = (value * base) + digits.index(str[0])
+        str = str[1:]
+
+    if str and str[0] == '.':
+        str = str[1:]
+        dotvalue = 0
+        dotdigits = 0
+        while str and str[0] in digits:
+            dotvalue = (dotvalue * base) + digits.index(str[0])
+            dotdigits += 1
+            str = str[1:]
+        
+        value += dotvalue / (base ** dotdigits)
+    
+    if str:
+        throw(f"Invalid pico8 number: {origstr}")
+
+    fixnum = num_to_fixnum(value)
+    if neg:
+        fixnum = -fixnum & k_fixnum_mask
+    elif bnot:
+        fixnum = ~fixnum & k_fixnum_mask
+
+    return fixnum
+
+def parse_luanum(origstr):
+    str = origstr.lower()
+
+    neg = False
+    if str.startswith("-"):
+        str = str[1:]
+        neg = True
+
+    try:
+        if str.startswith("0x"):
+            if "." in str or "p" in str:
+                try:
+                    value = float.fromhex(str)
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(int(str, base=16))
+        
+        elif str.startswith("0b"):
+            # TODO: recheck this if ever fixed to support exponents?
+            # TODO: recheck this if current 0b2 through 0bf bug stays around, and support it if so?
+            dotpos = str.find(".")
+            if dotpos >= 0:
+                str = str_replace_at(str, dotpos, 1, "")
+            value = int(str, base=2)
+            if dotpos >= 0:
+                try:
+                    value = math.ldexp(value, dotpos - len(str))
+                except OverflowError:
+                    value = float('inf')
+            else:
+                value = num_to_luaint(value)
+            
+        else:
+            if "." in str or "e" in str:
+                value = float(str) # no OverflowError here
+            else:
+                value = int(str)
+                if is_luaint_in_range(value): # intentionally disregarding the possibility of 'neg'
+                    value = num_to_luaint(value)
+                else:
+                    value = float(value)
+    except ValueError:
+        throw(f"Invalid lua number: {origstr}")
+    
+    if neg:
+        value = -value
+    return value
+
+k_char_escapes = {
+    '*': '\1', '#': '\2', '-': '\3', '|': '\4', '+': '\5', '^': '\6',
+    'a': '\a', 'b': '\b', 't': '\t', 'n': '\n', 'v': '\v', 'f': '\f', 'r': '\r',
+    '\\': '\\', '"': '"', "'": "'", '\n': '\n',
+}
+
+def lang_chr(value, lang):
+    if lang == Language.pico8 or value < 0x80:
+        return chr(value)
+    else:
+        return chr(0xdc00 + value) # surrogate escape
+
+def ext_unicode_to_lang_str(value, lang):
+    if value < 0x80:
+        return lang_chr(value, lang)
+    
+    suffix = ""
+    count = 0
+    while value >= (0x40 >> count):
+        suffix = lang_chr(0x80 + (value & 0x3f), lang) + suffix
+        value >>= 6
+        count += 1
+    return lang_chr(((-0x80 >> count) & 0xff) + value, lang) + suffix
+
+def parse_char_escape(str, pos, lang):
+    "parse an escape sequence (pos is the position of the '\\', which isn't checked)"
+
+    esc = str_get(str, pos + 1)
+    esc_ch = k_char_escapes.get(esc)
+    if esc_ch:
+        return esc_ch, pos + 2
+
+    elif esc == 'z':
+        end = pos + 2
+        while str_get(str, end, "x") in k_wspace:
+            end += 1
+        return "", end
+
+    elif esc == 'x':
+        end = pos + 4
+        hex_esc = str[pos + 2 : end]
+        value = maybe_int(hex_esc, base=16)
+        if value is None:
+            throw(f"Invalid hex escape: '{hex_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif '0' <= esc <= '9':
+        end = pos + 2
+        while end < pos + 4 and '0' <= str_get(str, end, '') <= '9':
+            end += 1
+        dec_esc = str[pos + 1 : end]
+        value = maybe_int(dec_esc)
+        if value is None or value >= 256:
+            throw(f"Invalid dec escape: '{dec_esc}' in: '{str}'")
+        return lang_chr(value, lang), end
+
+    elif lang == Language.picotron and esc == 'u':
+        check(str_get(str, pos + 2) == "{", f"Invalid unicode escape in: '{str}'")
+        end = str.find("}", pos) + 1
+        check(end > 0, f"Unterminated unicode escape in: '{str}'")
+        uni_esc = str[pos + 3 : end - 1]
+        value = maybe_int(uni_esc, base=16)
+        if value is None or value >= 0x80000000:
+            throw(f"Invalid uni escape: '{uni_esc}' in: '{str}'")
+        return ext_unicode_to_lang_str(value, lang), end
+
+    else:
+        throw(f"Invalid escape: '{esc}' in: '{str}'")    
+
+def parse_string_literal(str, lang=Language.pico8):
+    """parse a pico8 string from a pico8 string literal"""
+    if str.startswith("["):
+        start = str.index("[", 1) + 1
+        lit = str[start:-start]
+        lit = re.sub(r"\n\r?|\r\n?", "\n", lit)
+        if lit.startswith('\n'):
+            lit = lit[1:]
+        return lit
+
+    else:
+        litparts = []
+        str = str[1:-1]
+        start = 0
+        while start < len(str):
+            end = str.find('\\', start)
+            if end < 0:
+                litparts.append(str[start:])
+                break
+
+            if end > start:
+                litparts.append(str[start:end])
+
+            esc, start = parse_char_escape(str, end, lang)
+            litparts.append(esc)
+                
+        return "".join(litparts)
+
+from pico_parse import Node, VarKind, can_replace_with_unary
+from pico_output import format_fixnum, format_luanum, format_string_literal
+from pico_process import Error, Source
-- 
2.43.0


From 0c00c361040f2121c5f4876219efb505ef3e36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:05 +0000
Subject: [PATCH 32/56] fix: merging a meta section of another cart crashed

---
 pico_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index c4a6682..192954b 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -768,7 +768,7 @@ def merge_cart(dest, src, sections):
             dest.label = src.label
         elif section.startswith(k_meta_prefix):
             meta_name = section[len(k_meta_prefix):]
-            dest.meta[meta_name] = src.name[meta_name]
+            dest.meta[meta_name] = src.meta[meta_name]
         else:
             throw(f"unknown cart section: '{section}'")
 
-- 
2.43.0


From fbd7a009c5219dca66a7d163042ad3a57969e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:50 +0000
Subject: [PATCH 33/56] fix: old-compressed code that fills the cart was read
 past its end (crash), and its printed size was 2 too large

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index edf42e3..9c4c9ef 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -109,7 +109,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
         if debug_handler: debug_handler.init(r, str)
 
         code = []
-        while True:
+        while len(code) < unc_size:
             ch = r.u8()
             if ch == 0x00:
                 ch2 = r.u8()
-- 
2.43.0


From 16af43d13085234e8c8cf7e76ddfe8714adc7e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:50 +0000
Subject: [PATCH 34/56] fix: token count of the output took signs apart from
 their numbers as they were in the input

---
 pico_process.py  | 11 +++++++++--
 pico_tokenize.py |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index 873bb9c..0ace12f 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -392,7 +392,14 @@ def process_code(ctxt, source, input_count=False, count=False, lint=False, minif
             if count:
                 assert not source.is_super
                 new_tokens = root.get_tokens() if need_parse else tokens
-                print_token_count(count_tokens(new_tokens), handler=count)
+
+                are_adjacent = None
+                if need_unminify or (need_minify and minify.get("spaces", True)):
+                    # the output has nothing between a sign and its number, except for the kept comments
+                    def are_adjacent(_, next):
+                        return not any(need_unminify or cmt.hint == CommentHint.keep for cmt in next.children)
+
+                print_token_count(count_tokens(new_tokens, are_adjacent), handler=count)
 
     return True, errors
 
@@ -420,7 +427,7 @@ def echo_code(code, ctxt, echo=True):
     else:
         file_write_maybe_text(echo, code)    
 
-from pico_tokenize import tokenize, count_tokens
+from pico_tokenize import tokenize, count_tokens, CommentHint
 from pico_parse import parse, create_super_root, get_sub_root
 from pico_lint import lint_code
 from pico_minify import minify_code, Focus
diff --git a/pico_tokenize.py b/pico_tokenize.py
index 16fbd03..fe98ff0 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -715,7 +715,9 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
     return tokens, errors
     
 
-def count_tokens(tokens):
+def count_tokens(tokens, are_adjacent=None):
+    are_adjacent = are_adjacent or (lambda token, next: token.endidx == next.idx)
+
     count = 0
     for i, token in enumerate(tokens):
         if token.children:
@@ -727,7 +729,7 @@ def count_tokens(tokens):
             continue
 
         if (token.value in ("-", "~") and i+1 < len(tokens) and tokens[i+1].type == TokenType.number and
-                token.endidx == tokens[i+1].idx and
+                are_adjacent(token, tokens[i+1]) and
                 i-1 >= 0 and tokens[i-1].type not in (TokenType.number, TokenType.string, TokenType.ident) and
                 tokens[i-1].value not in (")", "]", "}", ";", "end")):
             continue
-- 
2.43.0


From d95efdff247d29ccf56a74206d8e3a06e9757b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:57 +0000
Subject: [PATCH 35/56] fix: globals named like special members (n, __index...)
 were renamed but not when accessed through _ENV

---
 pico_rename.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 5975849..2220a68 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -41,7 +41,8 @@ class IncludeExcludeMapping:
 class TableMemberPairIncludeExcludeMapping:
     """Defines which string-pairs are included or excluded, through dicts & regexes"""
 
-    def __init__(m, tables=None, members=None, pairs=None):
+    def __init__(m, tables=None, members=None, pairs=None, builtin_members=()):
+        m.builtin_members = builtin_members
         m.table_dict = dict.fromkeys(tables, True) if e(tables) else {}
         m.member_dict = dict.fromkeys(members, True) if e(members) else {}
         m.pair_dict = dict.fromkeys(pairs, True) if e(pairs) else {}
@@ -70,7 +71,11 @@ class TableMemberPairIncludeExcludeMapping:
         else:
             table, member = "", key
 
-        value = m.pair_dict.get(key, m.table_dict.get(table, m.member_dict.get(member, m.default)))
+        default = m.default
+        if member in m.builtin_members and table != "_ENV": # (_ENV's members are globals)
+            default = True
+
+        value = m.pair_dict.get(key, m.table_dict.get(table, m.member_dict.get(member, default)))
         if value is False:
             return False
 
@@ -86,7 +91,7 @@ class TableMemberPairIncludeExcludeMapping:
 def rename_tokens(ctxt, root, rename_opts):
     global_strings_cpy = ctxt.builtins | ctxt.builtin_callbacks
     preserved_globals = IncludeExcludeMapping(global_strings_cpy)
-    preserved_members = TableMemberPairIncludeExcludeMapping(members=ctxt.builtin_members)
+    preserved_members = TableMemberPairIncludeExcludeMapping(builtin_members=ctxt.builtin_members)
     
     # read rename options (e.g. what to preserve)
 
-- 
2.43.0


From 93af91234eea595e780f16cd7db2011ea6963343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:31 +0000
Subject: [PATCH 36/56] fix: with --rename-safe-only, globals matching a
 preserve rule with a wildcard were renamed

---
 pico_rename.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index 2220a68..32672d3 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -179,7 +179,8 @@ def rename_tokens(ctxt, root, rename_opts):
         # but it seems more useful to assume it won't
 
         preserved_members.default = True # can't reasonably guarantee safety of this
-        preserved_globals.default = can_access_globals
+        if can_access_globals:
+            preserved_globals.default = True
 
     # collect uses of identifier
     # (e.g. to give priority to more frequently used ones)
-- 
2.43.0


From 73898b573c9a2804bb24dd0feba92439ac6fee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:22 +0000
Subject: [PATCH 37/56] fix: names kept by a --[[$preserve]] or
 --[[$preserve-keys]] hint were given to other variables too

---
 pico_rename.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pico_rename.py b/pico_rename.py
index 32672d3..41fcfe1 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -266,6 +266,16 @@ def rename_tokens(ctxt, root, rename_opts):
             elif node.name == "_ENV":
                 return None
 
+        elif kind is False: # preserved by a hint (whatever its real kind is)
+            if node.kind == VarKind.member:
+                member_excludes.add(node.name)
+            elif node.kind == VarKind.global_:
+                global_excludes.add(node.name)
+            elif node.kind == VarKind.local:
+                local_excludes[node.name].add(node.var)
+            elif node.kind == VarKind.label:
+                label_excludes[node.name].add(node.var)
+
         return kind
 
     def is_after_zero(node):
-- 
2.43.0


From e666d21a7c10a04b4996f9ef097d34fa25c94d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:58 +0000
Subject: [PATCH 38/56] fix: with --preserve "*=*.*", globals sharing a
 preserved member's name (n, __index...) were renamed apart from it

---
 pico_rename.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 41fcfe1..b957e0e 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -202,6 +202,9 @@ def rename_tokens(ctxt, root, rename_opts):
 
     renamed_vars = set()
 
+    def is_preserved_global(name):
+        return name in preserved_globals or (members_as_globals and name in preserved_members)
+
     def compute_effective_kind(node, kind, explicit):
         """get the identifier kind (global/member/etc) of a node, taking into account hints in the code"""
 
@@ -244,6 +247,8 @@ def rename_tokens(ctxt, root, rename_opts):
             
             if (table_name, node.name) in preserved_members:
                 member_excludes.add(node.name)
+                if members_as_globals:
+                    global_excludes.add(node.name)
                 return None
             elif table_name == "_ENV" or members_as_globals:
                 return compute_effective_kind(node, VarKind.global_, explicit=True)
@@ -254,7 +259,7 @@ def rename_tokens(ctxt, root, rename_opts):
                 if env_var and env_var.keys_kind != None:
                     return compute_effective_kind(node, env_var.keys_kind, explicit=True)
 
-            if node.var.implicit or node.name in preserved_globals:
+            if node.var.implicit or is_preserved_global(node.name):
                 global_excludes.add(node.name)
                 return None
 
@@ -325,7 +330,7 @@ def rename_tokens(ctxt, root, rename_opts):
         elif node.type == NodeType.sublang:
             for name, count in node.sublang.get_global_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_globals:
+                    if is_preserved_global(name):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
@@ -334,6 +339,8 @@ def rename_tokens(ctxt, root, rename_opts):
                 if is_identifier(name, ctxt.lang):
                     if name in preserved_members:
                         member_excludes.add(name)
+                        if members_as_globals:
+                            global_excludes.add(name)
                     elif members_as_globals:
                         global_uses[name] += count
                     else:
-- 
2.43.0


From 1e8b47ae6428847d0d35f94ec2ed282068e5e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 39/56] fix: _ENV.x was renamed as a global though a hint
 (--[[$member-keys]]_ENV, _ENV.--[[$member]]x) says it is a member

---
 pico_rename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index b957e0e..233e1f7 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -250,7 +250,7 @@ def rename_tokens(ctxt, root, rename_opts):
                 if members_as_globals:
                     global_excludes.add(node.name)
                 return None
-            elif table_name == "_ENV" or members_as_globals:
+            elif (table_name == "_ENV" and not explicit) or members_as_globals:
                 return compute_effective_kind(node, VarKind.global_, explicit=True)
 
         elif kind == VarKind.global_:
-- 
2.43.0


From 4ba1dd60bc0191f873209466d1367f9875ca9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:33 +0000
Subject: [PATCH 40/56] fix: a --[[$rename]] hint did not apply to names hinted
 to be treated as the renamed global or member

---
 pico_rename.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 233e1f7..d3d3fc7 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -208,17 +208,21 @@ def rename_tokens(ctxt, root, rename_opts):
     def compute_effective_kind(node, kind, explicit):
         """get the identifier kind (global/member/etc) of a node, taking into account hints in the code"""
 
-        if node.var.rename:
-            node.name = node.var.rename
-            renamed_vars.add(node.var)
+        var = node.var
+        if (kind == VarKind.global_ or kind == VarKind.member) and kind != node.kind and (e(node.var_kind) or not var.rename):
+            var = (root.globals if kind == VarKind.global_ else root.members)[node.name] # (treated as a different variable)
+
+        if var.rename:
+            node.name = var.rename
+            renamed_vars.add(var)
             if kind == VarKind.member:
                 member_excludes.add(node.name)
             elif kind == VarKind.global_:
                 global_excludes.add(node.name)
             elif kind == VarKind.local:
-                local_excludes[node.name].add(node.var)
+                local_excludes[node.name].add(var)
             elif kind == VarKind.label:
-                label_excludes[node.name].add(node.var)
+                label_excludes[node.name].add(var)
             return None
 
         if kind == VarKind.member:
@@ -500,7 +504,7 @@ def rename_tokens(ctxt, root, rename_opts):
                 node.name = local_renames[node.var]
             elif node.effective_kind == VarKind.label:
                 node.name = label_renames[node.var]
-            elif node.var.rename:
+            elif node.name != node.var.name:
                 orig_name = node.var.name # (node.name already renamed)
             else:
                 return
-- 
2.43.0


From 9b54c0c1470b11364017de6032f77151168d5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:33 +0000
Subject: [PATCH 41/56] fix: preserve/rename rules for a table (tab.x) missed
 when the table's variable has a --[[$rename]] hint

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index d3d3fc7..51f9512 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -230,7 +230,7 @@ def rename_tokens(ctxt, root, rename_opts):
             
             if node.parent.type == NodeType.member and node.parent.key == node and node.parent.child.type == NodeType.var:
                 var_node = node.parent.child
-                table_name = var_node.name
+                table_name = var_node.var.name # (var_node.name may already be renamed)
 
                 if not explicit and var_node.var and var_node.var.keys_kind != None:
                     return compute_effective_kind(node, var_node.var.keys_kind, explicit=True)
@@ -244,7 +244,7 @@ def rename_tokens(ctxt, root, rename_opts):
                     assign_i = table_node.parent.sources.index(table_node)
                     target_node = list_get(table_node.parent.targets, assign_i)
                     if target_node and target_node.type == NodeType.var:
-                        table_name = target_node.name
+                        table_name = target_node.var.name
 
                         if not explicit and target_node.var and target_node.var.keys_kind != None:
                             return compute_effective_kind(node, target_node.var.keys_kind, explicit=True)
-- 
2.43.0


From 1104b5d199ee2c99b29a38bae7f99f1fc74bd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:33 +0000
Subject: [PATCH 42/56] fix: a kept global hinted as a member could be captured
 by a local renamed to its name

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 51f9512..27ea1d6 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -319,9 +319,9 @@ def rename_tokens(ctxt, root, rename_opts):
             # add to the scope based on real kind, as we need to avoid conflicts with preserved vars too
             if node.kind == VarKind.global_:
                 for scope in node.scope.chain():
-                    if node.effective_kind == VarKind.member: # rare, e.g. see --[[member-keys]] example
+                    if node.effective_kind != VarKind.global_: # rare, e.g. see --[[member-keys]] example
                         scope.used_members.add(node.name)
-                    else:
+                    if node.effective_kind != VarKind.member:
                         scope.used_globals.add(node.name)
 
             elif node.kind in (VarKind.local, VarKind.label):
-- 
2.43.0


From c01f9c0afe34d0f36659bea41799cb6ad6d3e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:33 +0000
Subject: [PATCH 43/56] fix: builtins, preserved members and --[[$rename]]
 hinted names were renamed wrongly in split strings

---
 pico_rename.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 27ea1d6..80b841b 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -333,20 +333,23 @@ def rename_tokens(ctxt, root, rename_opts):
                         
         elif node.type == NodeType.sublang:
             for name, count in node.sublang.get_global_usages().items():
-                if is_identifier(name, ctxt.lang):
+                if is_identifier(name, ctxt.lang) and not root.globals[name].rename:
                     if is_preserved_global(name):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
 
             for name, count in node.sublang.get_member_usages().items():
-                if is_identifier(name, ctxt.lang):
+                if is_identifier(name, ctxt.lang) and not root.members[name].rename:
                     if name in preserved_members:
                         member_excludes.add(name)
                         if members_as_globals:
                             global_excludes.add(name)
                     elif members_as_globals:
-                        global_uses[name] += count
+                        if is_preserved_global(name):
+                            global_excludes.add(name)
+                        else:
+                            global_uses[name] += count
                     else:
                         member_uses[name] += count
 
@@ -492,6 +495,9 @@ def rename_tokens(ctxt, root, rename_opts):
 
     # write the new names into the syntax tree
 
+    def get_hinted_renames(kind):
+        return {var.name: var.rename for var in renamed_vars if var.kind == kind}
+
     def update_idents(node):
         if node.type == NodeType.var:
             orig_name = node.name
@@ -520,7 +526,9 @@ def rename_tokens(ctxt, root, rename_opts):
                 
         elif node.type == NodeType.sublang:
             effective_member_renames = global_renames if members_as_globals else member_renames
-            node.sublang.rename(globals=global_renames, members=effective_member_renames, locals=local_renames)
+            effective_member_renames = {k: v for k, v in effective_member_renames.items() if k not in preserved_members}
+            node.sublang.rename(globals={**global_renames, **get_hinted_renames(VarKind.global_)},
+                                members={**effective_member_renames, **get_hinted_renames(VarKind.member)}, locals=local_renames)
             
     root.traverse_nodes(update_idents, extra=True)
 
-- 
2.43.0


From 0bf56c4ec299f2f17835cd8a688fdadfcf0eb016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:42 +0000
Subject: [PATCH 44/56] fix: labels repeated from an outer function were not
 always found by the linter

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 3337e22..e2a131d 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -108,7 +108,7 @@ class LabelScope:
         if var:
             return var
         elif m.parent and (crossfunc or m.parent.funcdepth == m.funcdepth):
-            return m.parent.find(name)
+            return m.parent.find(name, crossfunc)
     
     def chain(m, crossfunc=False):
         curr = m
-- 
2.43.0


From cb6d94150fae52aac80a804df0f4178a7da1f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:42 +0000
Subject: [PATCH 45/56] fix: --lint-global ignored used:: hints, unlike --$lint
 comments

---
 pico_lint.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pico_lint.py b/pico_lint.py
index 82765a7..c0f15f6 100644
--- a/pico_lint.py
+++ b/pico_lint.py
@@ -12,7 +12,7 @@ def lint_code(ctxt, root, lint_opts):
     lint_unused_global = lint_opts.get("unused-global", True)
     lint_duplicate = lint_opts.get("duplicate", True)
     lint_duplicate_global = lint_opts.get("duplicate-global", True)
-    custom_globals = set(lint_opts.get("globals", ()))
+    custom_globals = set()
 
     def add_error(msg, node):
         errors.append(Error(msg, node))
@@ -26,15 +26,21 @@ def lint_code(ctxt, root, lint_opts):
     assigned_locals = set()
     # (builtin locals will end up both as used globals and used locals)
 
+    def add_hint(value):
+        if "::" not in value:
+            custom_globals.add(value)
+        elif value.startswith("used::"):
+            used_globals.add(str_after_first(value, "::"))
+
+    for value in lint_opts.get("globals", ()):
+        add_hint(value)
+
     def preprocess_tokens(token):
         if token.children:
             for comment in token.children:
                 if comment.hint == CommentHint.lint:
                     for value in comment.hintdata:
-                        if "::" not in value:
-                            custom_globals.add(value)
-                        elif value.startswith("used::"):
-                            used_globals.add(str_after_first(value, "::"))
+                        add_hint(value)
 
     def preprocess_vars(node):
         if node.type == NodeType.var:
-- 
2.43.0


From ce1172d48a815422d13e11424db8b988e227e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:42 +0000
Subject: [PATCH 46/56] fix: unknown expressions and attributes were reported
 at the token after them

---
 pico_parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_parse.py b/pico_parse.py
index e2a131d..889e5de 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -436,7 +436,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         if with_attr and is_picotron and accept("<", tokens):
             attr = take()
             if attr.value not in ("const", "close"):
-                add_error(f"unknown attribute '{attr.value}'")
+                add_error_at(f"unknown attribute '{attr.value}'", attr)
             tokens.append(attr)
             require(">", tokens)
 
@@ -637,7 +637,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         elif token.type == TokenType.ident:
             return parse_var(token=token)
         else:
-            add_error("unknown expression", fail=True)
+            add_error_at("unknown expression", token, fail=True)
 
     def compare_prec(op, prec):
         return (prec == None) or ((prec <= k_binary_op_precs[op]) if op in k_right_binary_ops else (prec < k_binary_op_precs[op]))
-- 
2.43.0


From a10c2068b577400050ffe44b1d665d140a617961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:42 +0000
Subject: [PATCH 47/56] fix: // comments and [=[ ]=] strings were not skipped
 by the preprocessor

---
 pico_preprocess.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 3341ee5..bc253b5 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -37,7 +37,11 @@ def preprocess_code(path, code, start_line=0, **opts):
                 while list_get(code, i) not in ('\n', None):
                     i += 1
 
-        elif ch == '[' and list_get(code, i + 1) == '[': # long string
+        elif ch == '/' and list_get(code, i + 1) == '/': # c-style comment
+            while list_get(code, i) not in ('\n', None):
+                i += 1
+
+        elif ch == '[' and list_get(code, i + 1) in ('[', '='): # long string
             if not skip_long_brackets():
                 i += 1
 
-- 
2.43.0


From 8e05432012b742f77875e4807bd951b1892d626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:42 +0000
Subject: [PATCH 48/56] fix: errors were reported at wrong places when
 including a tab of a cart with includes

---
 pico_preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index bc253b5..b4926ea 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -143,7 +143,7 @@ def trim_cart_to_tab(cart, target_tab):
             new_code_map.clear()
         
         new_idx = max(map.idx - start, 0)
-        new_src_idx = map.src_idx + (start if map.src_path == cart.path else 0)
+        new_src_idx = map.src_idx + max(start - map.idx, 0)
 
         new_code_map.append(CodeMapping(new_idx, map.src_path, map.src_code, new_src_idx, map.src_line))
     cart.code_map = new_code_map
-- 
2.43.0


From 2b45b03a44bbd677e90aa500b79176162366ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:43 +0000
Subject: [PATCH 49/56] fix: p64 files with \r or starting like base64 were not
 restored when read back

---
 picotron_cart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index c56d85a..f3ac5fd 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -480,8 +480,10 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     return cart
 
-k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix
-k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix
+# (a \r would be read as a line break, and the base64 prefix as base64)
+k_bad_p64_prefixes_re = b"|^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
+k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x1f\x7f-\xff]" + k_bad_p64_prefixes_re
+k_min_bad_p64_char_re = b"[\x00\r]" + k_bad_p64_prefixes_re
 
 def preview_order_key(pair):
     # we prefer to sort p64 files for better visibility of code, e.g. in the webapp's preview
-- 
2.43.0


From 1d84f7eec67b9dae3af438caa672f294396bc568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:24 +0000
Subject: [PATCH 50/56] fix: files in folders without an entry were left out of
 fs outputs

---
 picotron_cart.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index f3ac5fd..6ac7dd7 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -582,20 +582,23 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
     
     if is_dir is None:
         file = cart.files.get(fspath)
-        is_dir = file.is_dir if file else False
+        is_dir = file.is_dir if file else any(name.startswith(fspath.rstrip("/") + "/") for name in cart.files)
 
     if is_dir:
         if fspath and not fspath.endswith("/"):
             fspath += "/"
         dir_create(path, delete_existing=delete_existing)
 
-        for child_fspath, file in cart.files.items():
-            if child_fspath.startswith(fspath):
-                child = child_fspath[len(fspath):]
-                if child.count("/") == (1 if file.is_dir else 0):
-                    child_path = path_join(path, child)
-                    check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
-                    write_cart64_to_fs(cart, child_path, file.is_dir, child_fspath, **opts)
+        children = {} # (not all directories necessarily have an entry of their own)
+        for child_fspath in cart.files:
+            if child_fspath.startswith(fspath) and child_fspath != fspath:
+                child, sep, _ = child_fspath[len(fspath):].partition("/")
+                children[child + sep] = bool(sep)
+
+        for child, child_is_dir in children.items():
+            child_path = path_join(path, child)
+            check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
+            write_cart64_to_fs(cart, child_path, child_is_dir, fspath + child, **opts)
     else:
         if path_is_dir(path):
             path = path_join(path, path_basename(fspath)) # good default
-- 
2.43.0


From e09c000a046a4c856237255f8325c6c11363ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:24 +0000
Subject: [PATCH 51/56] fix: --extract of a folder with a final slash failed
 without an output name

---
 run_shrinko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 5e035ae..391824a 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -704,7 +704,7 @@ def create_main(lang):
         if args.extract:
             for extract in args.extract:
                 if len(extract) == 1:
-                    all_outputs.append(OutputDef(path_basename(extract[0]), CartFormatCls.fs, extract[0]))
+                    all_outputs.append(OutputDef(path_basename(extract[0].rstrip("/")), CartFormatCls.fs, extract[0]))
                 elif len(extract) == 2:
                     all_outputs.append(OutputDef(extract[1], CartFormatCls.fs, extract[0]))
                 else:
-- 
2.43.0


From 49fe7e3bad0547924c8600ce7a47628757ed31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:24 +0000
Subject: [PATCH 52/56] fix: --merge with just a file was rejected for picotron
 carts

---
 run_shrinko.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 391824a..3514a85 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -558,7 +558,9 @@ def create_main(lang):
 
         if args.merge:
             for merge in args.merge:
-                if len(merge) == 2:
+                if len(merge) == 1 and is_picotron:
+                    extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=["*"]))
+                elif len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
                     extra_inputs.append(InputDef(merge[0], CartFormatCls(merge[2]), sections=SplitBySeps(merge[1])))
-- 
2.43.0


From 9f29205bf78cd9a529510d3dea47eedb1234eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:26 +0000
Subject: [PATCH 53/56] fix: --label did not replace a label in another format,
 or was ignored when in qoi

---
 picotron_cart.py | 7 +++++--
 run_shrinko.py   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 6ac7dd7..4af07b8 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -710,6 +710,10 @@ def preproc_meta(cart, delete_meta, keep_meta_keys):
     for path in to_delete:
         del cart.files[path]
 
+def delete_label_files(cart):
+    for label_file in k_label_files:
+        cart.files.pop(label_file, None)
+
 def preproc_cart64(cart, delete_meta=None, keep_meta_keys=None, delete_label=None,
                    uncompress_pods=False, base64_pods=False, keep_pod_compression=False, need_pod_compression=False):
     if delete_meta:
@@ -721,8 +725,7 @@ def preproc_cart64(cart, delete_meta=None, keep_meta_keys=None, delete_label=Non
     
     if delete_label:
         label_file, label = cart.label
-        for any_label_file in k_label_files:
-            cart.files.pop(any_label_file, None)
+        delete_label_files(cart)
         cart.set_raw_label(label_file, label)
     
     if not keep_pod_compression:
diff --git a/run_shrinko.py b/run_shrinko.py
index 3514a85..460e16e 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -8,7 +8,7 @@ from pico_constfold import parse_constant
 from pico_defs import Language, get_latest_pico8_version, parse_pico8_version
 from pico_preprocess import IncludeNotFoundError
 from picotron_defs import PicotronContext, Cart64Source, get_latest_picotron_runtime
-from picotron_cart import Cart64Format, read_cart64, write_cart64, merge_cart64, filter_cart64, preproc_cart64
+from picotron_cart import Cart64Format, read_cart64, write_cart64, merge_cart64, filter_cart64, preproc_cart64, delete_label_files
 from picotron_cart import write_cart64_compressed_size, write_cart64_version
 from picotron_export import read_cart64_export, read_sysrom_file
 import argparse
@@ -115,7 +115,7 @@ def create_main(lang):
         
         shrinko_name = "shrinkotron"
         pico_name = "picotron"
-        label_section = "label.png"
+        label_section = "label.*"
         default_keep_meta_keys = ("runtime",)
     
     else:
@@ -580,6 +580,9 @@ def create_main(lang):
             if input_name:
                 cart.name = input_name
             
+            if is_picotron and input_format == CartFormatCls.label:
+                delete_label_files(main_cart) # (may be in another format)
+
             if e(merge_sections) or e(fspath):
                 merge_cart_func(main_cart, cart, merge_sections)
             else:
-- 
2.43.0


From c011c423fc403326748542ae443ed83864fa23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:26 +0000
Subject: [PATCH 54/56] fix: negative integers of picotron pods were written as
 numbers that don't read back

---
 pico_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico_output.py b/pico_output.py
index 52fbe74..cd2ac28 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -125,6 +125,10 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
             decvalue = "%d" % value
             if base:
                 minvalue = decvalue
+                if sign is None and value == 0x8000000000000000:
+                    minvalue = "0x%x" % value # no decimal form is parsed as this integer
+                elif sign is None and value > 0x8000000000000000:
+                    return format_luanum(value, sign='-', base=base) # same, unless negated
 
         if not base:
             if value >= 0x8000000000000000:
-- 
2.43.0


From 95c54e9762b9e9869353a92164c6cd9041ef71c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:26 +0000
Subject: [PATCH 55/56] fix: a 'true' key in a picotron pod was written as if
 it was the index 1

---
 picotron_fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index e0664ca..5644c2e 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -138,7 +138,7 @@ def format_pod(value, ud_handler=None):
         index = 1
         parts = []
         for key, child in value.items():
-            if key == index:
+            if key == index and not isinstance(key, bool):
                 parts.append(format_pod(child, ud_handler))
                 index += 1
             elif isinstance(key, str) and is_identifier(key, Language.picotron):
-- 
2.43.0


From 8f2fa272044110b9f0eacd78f9c22b03a7d0bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:28 +0000
Subject: [PATCH 56/56] fix: a missing --merge or --label file ended in a
 traceback

---
 run_shrinko.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 460e16e..7aa51f5 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -574,8 +574,11 @@ def create_main(lang):
 
         # read additional carts
         for input, input_format, input_name, merge_sections, fspath in extra_inputs:
-            cart = read_cart_func(input, input_format, fspath=fspath, sections=merge_sections,
-                                  keep_compression=args.keep_compression)
+            try:
+                cart = read_cart_func(input, input_format, fspath=fspath, sections=merge_sections,
+                                      keep_compression=args.keep_compression)
+            except OSError as err:
+                throw(f"cannot read cart: {err}")
             
             if input_name:
                 cart.name = input_name
-- 
2.43.0

