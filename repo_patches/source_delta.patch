From 3cf1ce5da49dd55a28df229ffdb07c036d82cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 01/46] fix: continue in a while loop re-tests the loop
 condition

---
 src/bare_script/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..36d088f 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -215,12 +215,16 @@ def parse_script(script_text, start_line_number=1):
             # Add the while-do label
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
                 'expr': parse_expression(match_while_begin.group('expr')),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
+
+            # A constant-true condition need not be re-tested, so continue directly at the loop label
+            if whiledo['expr'] == {'variable': 'true'}:
+                whiledo['continue'] = whiledo['loop']
             label_defs.append({'while': whiledo})
             label_index += 1
 
@@ -242,6 +246,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From c1620504e8e9bec945c3ece2e81ab0b07d72a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 02/46] fix: contain binary operator failures, a failed
 operation is null

---
 src/bare_script/runtime.py | 49 ++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..b38f403 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -248,6 +248,22 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         raise BareScriptRuntimeError(f'Undefined function "{func_name}"')
 
+    # Unary expression
+    if expr_key == 'unary':
+        unary_op = expr['unary']['op']
+        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
+        if unary_op == '!':
+            return not value_boolean(value)
+        elif unary_op == '-' and isinstance(value, (int, float)):
+            return -value
+
+        # Invalid operation value
+        return None
+
+    # Expression group
+    if expr_key == 'group':
+        return evaluate_expression(expr['group'], options, locals_, builtins)
+
     # Binary expression
     if expr_key == 'binary':
         bin_op = expr['binary']['op']
@@ -267,6 +283,15 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+        return _binary_operation(bin_op, left_value, right_value)
+
+    # Unknown expression
+    return None
+
+
+# Helper function to compute a non-short-circuiting binary operation. Any failure is an invalid operation.
+def _binary_operation(bin_op, left_value, right_value):
+    try:
         if bin_op == '+':
             # number + number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
@@ -337,26 +362,14 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
-
-        # Invalid operation values
-        return None
-
-    # Unary expression
-    if expr_key == 'unary':
-        unary_op = expr['unary']['op']
-        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
-        if unary_op == '!':
-            return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
-            return -value
+                result = left_value ** right_value
+                return result if not isinstance(result, complex) else None
 
-        # Invalid operation value
-        return None
+    except Exception: # pylint: disable=broad-exception-caught
+        pass
 
-    # Expression group
-    # expr_key == 'group'
-    return evaluate_expression(expr['group'], options, locals_, builtins)
+    # Invalid operation values
+    return None
 
 
 class BareScriptRuntimeError(Exception):
-- 
2.43.0


From d7fded3d7a4ef0dc0920681bcf34396920a72ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 03/46] fix: booleans are not numbers in arithmetic operators

---
 src/bare_script/runtime.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index b38f403..2621abf 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -254,7 +254,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and _is_number(value):
             return -value
 
         # Invalid operation value
@@ -289,12 +289,17 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return None
 
 
+# Helper function to test if a value is a number - a boolean is not a number
+def _is_number(value):
+    return isinstance(value, (int, float)) and not isinstance(value, bool)
+
+
 # Helper function to compute a non-short-circuiting binary operation. Any failure is an invalid operation.
 def _binary_operation(bin_op, left_value, right_value):
     try:
         if bin_op == '+':
             # number + number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value + right_value
 
             # string + string
@@ -308,16 +313,16 @@ def _binary_operation(bin_op, left_value, right_value):
                 return value_string(left_value) + right_value
 
             # datetime + number
-            elif isinstance(left_value, datetime.date) and isinstance(right_value, (int, float)):
+            elif isinstance(left_value, datetime.date) and _is_number(right_value):
                 left_dt = value_normalize_datetime(left_value)
                 return left_dt + datetime.timedelta(milliseconds=right_value)
-            elif isinstance(left_value, (int, float)) and isinstance(right_value, datetime.date):
+            elif _is_number(left_value) and isinstance(right_value, datetime.date):
                 right_dt = value_normalize_datetime(right_value)
                 return right_dt + datetime.timedelta(milliseconds=left_value)
 
         elif bin_op == '-':
             # number - number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value - right_value
 
             # datetime - datetime
@@ -328,12 +333,12 @@ def _binary_operation(bin_op, left_value, right_value):
 
         elif bin_op == '*':
             # number * number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value * right_value
 
         elif bin_op == '/':
             # number / number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value / right_value
 
         elif bin_op == '==':
@@ -356,12 +361,12 @@ def _binary_operation(bin_op, left_value, right_value):
 
         elif bin_op == '%':
             # number % number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 return left_value % right_value
 
         else: # bin_op == '**'
             # number ** number
-            if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
+            if _is_number(left_value) and _is_number(right_value):
                 result = left_value ** right_value
                 return result if not isinstance(result, complex) else None
 
-- 
2.43.0


From 8b1dd600c11bad71d598dc108d409d36e8bb354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 04/46] fix: a boolean is not a valid number function argument

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..fe38375 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -297,7 +297,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From 33ffbd66ea7b498f3d5e1978426eb4a263a2c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 05/46] fix: multiply and exponentiate numbers as floats,
 however an integral number is held

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 2621abf..6ba10cc 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -334,7 +334,7 @@ def _binary_operation(bin_op, left_value, right_value):
         elif bin_op == '*':
             # number * number
             if _is_number(left_value) and _is_number(right_value):
-                return left_value * right_value
+                return float(left_value) * right_value
 
         elif bin_op == '/':
             # number / number
@@ -367,7 +367,7 @@ def _binary_operation(bin_op, left_value, right_value):
         else: # bin_op == '**'
             # number ** number
             if _is_number(left_value) and _is_number(right_value):
-                result = left_value ** right_value
+                result = float(left_value) ** right_value
                 return result if not isinstance(result, complex) else None
 
     except Exception: # pylint: disable=broad-exception-caught
-- 
2.43.0


From 6c92019515da39f0f352cb6025f26efee5f5d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 06/46] fix: round a number identically whether it is held as
 an int or a float

---
 src/bare_script/value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index fe38375..ccf57e9 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -440,7 +440,8 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    value = float(value)
+    multiplier = 10.0 ** digits
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From bd2e9cb64bc29f5ecd8afe048937cdb664045b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 07/46] fix: arraySet with a float index

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From 0fd5329e5564b0fc4bca7be5e35bbe6f5e40c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 08/46] fix: dataTop with a float count

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From e135ee30290e68c5b03e1bf6d9656cd1afc389e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 09/46] fix: report the line of a block statement's expression
 error

---
 src/bare_script/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 36d088f..c92e966 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -128,7 +128,7 @@ def parse_script(script_text, start_line_number=1):
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': _parse_block_expression(match_if_begin, 'expr', line, start_line_number + ix_line)}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -159,7 +159,7 @@ def parse_script(script_text, start_line_number=1):
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': _parse_block_expression(match_if_else_if, 'expr', line, start_line_number + ix_line)}}
             }
             label_index += 1
 
@@ -217,7 +217,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_block_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -272,7 +272,7 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': _parse_block_expression(match_for_begin, 'values', line, start_line_number + ix_line)}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -409,6 +409,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse a block statement's expression (if, elif, while, for)
+def _parse_block_expression(match, group, line, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, line, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From b6f0d2376d8b37c50aed1c230d7e2a9894d0082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 10/46] fix: a line continuation at the end of the script is an
 error, not a dropped line

---
 src/bare_script/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index c92e966..6639421 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -399,6 +399,10 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        raise BareScriptParserError('Unterminated line continuation', ' '.join(line_continuation), 1, start_line_number + ix_line)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From 3e5c1f07e41fb3e863726b47a7a6d0aa26626c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 11/46] fix: a function left open at the end of the script is
 an error

---
 src/bare_script/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 6639421..d2163c1 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -35,6 +35,8 @@ def parse_script(script_text, start_line_number=1):
     line_continuation = []
     function_def = None
     function_label_def_depth = None
+    function_line = None
+    function_line_number = None
     label_defs = []
     label_index = 0
     for ix_line_part, line_part in enumerate(lines):
@@ -89,6 +91,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_line = line
+            function_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -403,6 +407,10 @@ def parse_script(script_text, start_line_number=1):
     if line_continuation:
         raise BareScriptParserError('Unterminated line continuation', ' '.join(line_continuation), 1, start_line_number + ix_line)
 
+    # Dangling function definition?
+    if function_def is not None and len(label_defs) <= function_label_def_depth:
+        raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From 626a9c40614087d215f731d273d5ce97e0cb08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 12/46] fix: parse an unterminated string literal in linear
 time

---
 src/bare_script/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index d2163c1..3c857e1 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -624,9 +624,9 @@ _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
 _R_EXPR_GROUP_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_NUMBER = re.compile(r'^\s*([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)')
-_R_EXPR_STRING = re.compile(r"^\s*'((?:\\\\|\\'|[^'])*)'")
+_R_EXPR_STRING = re.compile(r"^\s*'((?:[^'\\]|\\[\\']|\\(?![\\']))*\\?)'")
 _R_EXPR_STRING_ESCAPE = re.compile(r'\\([\\\'])')
-_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\\\|\\"|[^"])*)"')
+_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:[^"\\]|\\[\\"]|\\(?![\\"]))*\\?)"')
 _R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'\\([\\"])')
 _R_EXPR_VARIABLE = re.compile(r'^\s*([A-Za-z_]\w*)')
 _R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\\]|[^\]])+)\s*\]')
-- 
2.43.0


From 88a59c1ccc4bb8db73c905bb90f4901496ea8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 13/46] fix: an expression nested too deeply is a parser error,
 not a RecursionError

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 3c857e1..6867b21 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -475,6 +475,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression nesting too deep', expr_text)
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From 640be8e0f7088704c0552c47b417739719078bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 14/46] fix: running out of stack is a runtime error, not a
 RecursionError

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 6ba10cc..69c7b63 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -41,7 +41,10 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    try:
+        return _execute_script_helper(script['statements'], options, None)
+    except RecursionError:
+        raise BareScriptRuntimeError('Maximum recursion depth exceeded')
 
 
 def _execute_script_helper(statements, options, locals_):
-- 
2.43.0


From 48297c06132bdc7e8fb653af02e410f36cd39ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 15/46] fix: JSON number clean-up alters string and key text

---
 src/bare_script/value.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index ccf57e9..9b4f695 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -113,8 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\1', result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,8 +129,8 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
+# Strings are matched (and kept) so that only numbers are cleaned up
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("[^"\\]*(?:\\.[^"\\]*)*")|\.0+(?!\d)')
 
 
 def value_boolean(value):
-- 
2.43.0


From 18717677d7634695333a8105149cef4d073947f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 16/46] fix: diffLines drops Identical blocks pushed to a
 misspelt array

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 41a5072543156f96c5df7a5c573a8fbd405f99b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 17/46] fix: a parser error of a script included within a
 function is not swallowed

---
 src/bare_script/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 69c7b63..d432fec 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -128,7 +128,7 @@ def _execute_script_helper(statements, options, locals_):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -239,7 +239,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -390,3 +390,8 @@ class BareScriptRuntimeError(Exception):
 
     def __init__(self, message):
         super().__init__(message)
+
+
+# An include script's parser error - unlike a library function's parser error, it is not contained by a function call
+class _IncludeParserError(BareScriptParserError):
+    pass
-- 
2.43.0


From 2724fbe5a3190ff61dd5caaa1b75cdbde8104d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 18/46] fix: count the statements of included scripts

---
 src/bare_script/runtime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index d432fec..20a2a04 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -142,7 +142,10 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From e74e2071b07a3d0155b9f2a016273ad98e7b502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 19/46] fix: count the statements executed by data expressions
 with variables

---
 src/bare_script/data.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..0a9dad7 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -135,6 +135,16 @@ def validate_data(data, csv=False):
     return types
 
 
+# Helper function to evaluate a row expression. The statements executed are counted by the (un-copied) options.
+def _evaluate_row(expr, row, eval_options, options):
+    evaluate_expression = _import_evaluate_expression()
+    try:
+        return evaluate_expression(expr, eval_options, row)
+    finally:
+        if options is not None and 'statementCount' in eval_options:
+            options['statementCount'] = eval_options['statementCount']
+
+
 def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=False, variables=None, options=None):
     """
     Join two data arrays
@@ -157,8 +167,6 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Compute the map of row field name to joined row field name
     left_names = {}
     right_names_raw = {}
@@ -198,7 +206,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = value_json(_evaluate_row(right_expression, right_row, eval_options, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -206,7 +214,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = value_json(_evaluate_row(left_expression, left_row, eval_options, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -237,8 +245,6 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
-
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
 
@@ -253,7 +259,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
 
     # Compute the calculated field for each row
     for row in data:
-        row[field_name] = evaluate_expression(calc_expr, eval_options, row)
+        row[field_name] = _evaluate_row(calc_expr, row, eval_options, options)
 
     return data
 
@@ -275,7 +281,6 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
 
     # Parse the filter expression
     filter_expr = parse_expression(expr)
@@ -291,7 +296,7 @@ def filter_data(data, expr, variables=None, options=None):
 
     # Filter the data
     for row in data:
-        if value_boolean(evaluate_expression(filter_expr, eval_options, row)):
+        if value_boolean(_evaluate_row(filter_expr, row, eval_options, options)):
             result.append(row)
 
     return result
-- 
2.43.0


From 27eded11894ebc57e83386726659b15910621ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 20/46] fix: text that merely resembles an ISO date or datetime
 parses to null

---
 src/bare_script/value.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 9b4f695..fc8b92e 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -496,6 +496,14 @@ def value_parse_datetime(text):
     :rtype: datetime.datetime or None
     """
 
+    try:
+        return _parse_datetime(text)
+    except (OverflowError, ValueError):
+        return None
+
+
+# Helper function to parse a datetime string - raises an exception if a datetime component is out of range
+def _parse_datetime(text):
     m_date = _R_DATE.match(text)
     if m_date is not None:
         year = int(m_date.group('year'))
@@ -508,8 +516,8 @@ def value_parse_datetime(text):
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From 2f9b1c5b632b6347bbb881c66f6093a25077a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 21/46] fix: an explicitly-false lastArgArray collects the
 first argument

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 20a2a04..f0025f7 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -160,7 +160,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = func_args_length - 1 if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From b7ae729fcb2ec05103846940d522329e7bc7c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 22/46] fix: a function expression model without arguments
 calls the function with no arguments

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index f0025f7..ab5039d 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -229,7 +229,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Compute the function arguments
         func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+            if 'args' in expr['function'] else []
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From a513dfa19bbd4e100337d2a0c6733e43b7d5a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 23/46] fix: a non-finite integer argument is a validation
 error

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index fc8b92e..f3b9189 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -311,7 +311,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and arg_value % 1 != 0) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
-- 
2.43.0


From d305ff8e9f9ce72c5644261041f15bd8cfe265e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 24/46] fix: keep the failure value when an invalid argument
 has no JSON text

---
 src/bare_script/value.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index f3b9189..3a86ac5 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -341,10 +341,15 @@ class ValueArgsError(Exception):
     """
 
     def __init__(self, arg_name, arg_value, return_value = None):
+        try:
+            value_text = value_json(arg_value)
+        except (RecursionError, TypeError, ValueError):
+            # Non-finite number or circular container
+            value_text = f'<{value_type(arg_value)}>'
         if arg_name is None:
-            message = f'Too many arguments ({value_json(arg_value)})'
+            message = f'Too many arguments ({value_text})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            message = f'Invalid "{arg_name}" argument value, {value_text}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From 8efd66075234aa663b3e060dfdefe2c67abb477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 25/46] fix: text with digit separators is not a number

---
 src/bare_script/value.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 3a86ac5..d39f04c 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -459,6 +459,10 @@ def value_parse_number(text):
     :rtype: float or None
     """
 
+    # Python number syntax allows digit separators
+    if '_' in text:
+        return None
+
     try:
         value = float(text)
         if math.isnan(value) or math.isinf(value):
@@ -480,6 +484,10 @@ def value_parse_integer(text, radix=10):
     :rtype: int or None
     """
 
+    # Python number syntax allows digit separators
+    if '_' in text:
+        return None
+
     try:
         return int(text, radix)
     except ValueError:
-- 
2.43.0


From 58369ea6d6b849880d5fc99f1b5b5ccd14fb6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 26/46] fix: dataParseCSV alters line breaks within quoted
 values

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..7434907 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From 6665563cf06969f014ee7ed28c9223e43afa1d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 27/46] fix: dataParseCSV returns a null key for surplus row
 values

---
 src/bare_script/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 7434907..048d6e3 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -443,6 +443,10 @@ def _data_parse_csv(args, unused_options):
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
 
+    # Drop values without a field name
+    for row in data:
+        row.pop(None, None)
+
     # Validate the data (as CSV)
     validate_data(data, True)
     return data
-- 
2.43.0


From b91cd079a2b837bb09c024cde9cf7fcfd5577de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 28/46] fix: data category and join keys conflate different
 values

---
 src/bare_script/data.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 0a9dad7..a992698 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,8 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, value_parse_number, \
+    value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -135,6 +136,20 @@ def validate_data(data, csv=False):
     return types
 
 
+# Helper function to compute a value's hashable category (or join) key - equal values, and only those, have equal keys
+def _category_key(value):
+    type_ = value_type(value)
+    if type_ == 'array':
+        return (type_, tuple(_category_key(item) for item in value))
+    elif type_ == 'object':
+        return (type_, tuple((key, _category_key(value[key])) for key in sorted(value)))
+    elif type_ == 'datetime':
+        return (type_, value_normalize_datetime(value))
+    elif type_ in ('function', 'regex', None):
+        return (type_, None)
+    return (type_, value)
+
+
 # Helper function to evaluate a row expression. The statements executed are counted by the (un-copied) options.
 def _evaluate_row(expr, row, eval_options, options):
     evaluate_expression = _import_evaluate_expression()
@@ -206,7 +221,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(_evaluate_row(right_expression, right_row, eval_options, options))
+        category_key = _category_key(_evaluate_row(right_expression, right_row, eval_options, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -214,7 +229,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(_evaluate_row(left_expression, left_row, eval_options, options))
+        category_key = _category_key(_evaluate_row(left_expression, left_row, eval_options, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -325,7 +340,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _category_key(category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -466,7 +481,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _category_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 791531d41ae1335bc40ca95e8c27acaaa21dcff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 29/46] fix: datetimeMillisecond returns 1000 for the last half
 millisecond of a second

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 048d6e3..a6860fa 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -578,7 +578,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From cacf5d99de56201b19537d2ed89456d8aa401679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 30/46] fix: datetimeNew does not loop over every month for
 out-of-range components

---
 src/bare_script/library.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index a6860fa..a44c8d9 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -657,6 +657,12 @@ def _datetime_new(args, unused_options):
         month -= extra_years * 12
         year += extra_years
 
+    # Adjust whole 400-year calendar cycles
+    if day < 1 or day > 146097:
+        extra_cycles = (day - 1) // 146097
+        day -= extra_cycles * 146097
+        year += extra_cycles * 400
+
     # Adjust day
     if day < 1:
         while day < 1:
-- 
2.43.0


From 4a749d43697773a05529459daaa39cf849917e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 31/46] fix: an invalid datetime argument near the range limits
 keeps the documented failure value

---
 src/bare_script/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index d39f04c..04e735b 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -343,8 +343,8 @@ class ValueArgsError(Exception):
     def __init__(self, arg_name, arg_value, return_value = None):
         try:
             value_text = value_json(arg_value)
-        except (RecursionError, TypeError, ValueError):
-            # Non-finite number or circular container
+        except (OverflowError, RecursionError, TypeError, ValueError):
+            # Non-finite number, circular container, or datetime out of the local range
             value_text = f'<{value_type(arg_value)}>'
         if arg_name is None:
             message = f'Too many arguments ({value_text})'
-- 
2.43.0


From 863e35b8161de1daf0d5fc3b4b7f36f61bc6dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:06 +0000
Subject: [PATCH 32/46] fix: accept a bare return followed by several
 whitespace characters

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 6867b21..d0b2f0a 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -442,7 +442,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From bb27477746577b66188d0f1e868291d75e8f1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 33/46] fix: integral numbers of 1e16 and above are written
 with a decimal point

---
 src/bare_script/value.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 04e735b..130fe22 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -67,7 +67,7 @@ def value_string(value):
     elif isinstance(value, int):
         return str(value)
     elif isinstance(value, float):
-        return R_NUMBER_CLEANUP.sub('', str(value))
+        return f'{value:.0f}' if value.is_integer() else str(value)
     elif isinstance(value, datetime.date):
         iso = value_normalize_datetime(value).astimezone().isoformat()
         match_microsecond = _R_DATETIME_MICROSECOND.search(iso)
@@ -113,7 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(_value_json_number_cleanup, result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,7 +130,14 @@ class _JSONEncoder(json.JSONEncoder):
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
 # Strings are matched (and kept) so that only numbers are cleaned up
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("[^"\\]*(?:\\.[^"\\]*)*")|\.0+(?!\d)')
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("[^"\\]*(?:\\.[^"\\]*)*")|(-?\d(?:\.\d+)?e\+\d+)|\.0+(?!\d)')
+
+
+# Helper function to remove the fraction of an integral number
+def _value_json_number_cleanup(match):
+    if match.group(1) is not None:
+        return match.group(1)
+    return value_string(float(match.group(2))) if match.group(2) is not None else ''
 
 
 def value_boolean(value):
-- 
2.43.0


From 8c6690026d547fe1ef637b8ec58926f3a5cb7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 34/46] fix: evaluate_expression cannot call a script function
 of an earlier run

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index ab5039d..8700a55 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -59,7 +59,7 @@ def _execute_script_helper(statements, options, locals_):
         statement_key = next(iter(statement.keys()))
 
         # Increment the statement counter
-        options['statementCount'] += 1
+        options['statementCount'] = options.get('statementCount', 0) + 1
         max_statements = options.get('maxStatements', DEFAULT_MAX_STATEMENTS)
         if max_statements > 0 and options['statementCount'] > max_statements:
             raise BareScriptRuntimeError(f'Exceeded maximum script statements ({max_statements})')
-- 
2.43.0


From 7c0995bb359093a69e26980d5d03f540865eaf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 35/46] fix: dataJoin never renames two right fields to the
 same unique name

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index a992698..5dd4017 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -200,7 +200,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
         else:
             ix_unique = 2
             unique_name = f'{field_name}{ix_unique}'
-            while unique_name in left_names or unique_name in right_names or unique_name in right_names_raw:
+            while unique_name in left_names or unique_name in right_names_raw or unique_name in right_names.values():
                 ix_unique += 1
                 unique_name = f'{field_name}{ix_unique}'
             right_names[field_name] = unique_name
-- 
2.43.0


From 7f771d25dfbd276cfe5e41fbe842eeb273f2fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:33 +0000
Subject: [PATCH 36/46] fix: a datetime text with an invalid UTC offset minute
 parses to null

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 130fe22..9348aab 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -537,7 +537,7 @@ def _parse_datetime(text):
     return None
 
 _R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From 332a5284c9ea6929c67b1b2affe4a1f8d3268c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 37/46] fix: an include within a function resolves against the
 function's file, not its caller's

---
 src/bare_script/runtime.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 8700a55..606297c 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -42,12 +42,13 @@ def execute_script(script, options=None):
     # Execute the script
     options['statementCount'] = 0
     try:
-        return _execute_script_helper(script['statements'], options, None)
+        return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
     except RecursionError:
         raise BareScriptRuntimeError('Maximum recursion depth exceeded')
 
 
-def _execute_script_helper(statements, options, locals_):
+# Statements are executed with the URL function of the file that contains them, which resolves its include statements
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -99,14 +100,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -143,7 +143,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
-                    _execute_script_helper(script['statements'], include_options, None)
+                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
 
@@ -154,7 +154,7 @@ def _execute_script_helper(statements, options, locals_):
 
 
 # Runtime script function implementation
-def _script_function(function, args, options):
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -167,7 +167,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From ce1779c7169d20421742a88f373c4087f8cf0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 38/46] fix: dataAggregate min and max of values of mixed types
 raised TypeError

---
 src/bare_script/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 5dd4017..458f5e2 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -371,9 +371,9 @@ def aggregate_data(data, aggregation):
             elif func == 'count':
                 aggregate_row[field] = len(measure_values)
             elif func == 'max':
-                aggregate_row[field] = max(measure_values)
+                aggregate_row[field] = max(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'min':
-                aggregate_row[field] = min(measure_values)
+                aggregate_row[field] = min(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'sum':
                 aggregate_row[field] = sum(measure_values)
             elif func == 'stddev':
-- 
2.43.0


From e545399badc0d7257bbfea18e345756f3b2a2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:03 +0000
Subject: [PATCH 39/46] fix: datetimeNew with huge components does not loop

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index a44c8d9..39e6167 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -625,7 +625,7 @@ _DATETIME_MONTH_ARGS = value_args_model([
 # $arg millisecond: Optional (default is 0). The millisecond.
 # $return: The new datetime
 def _datetime_new(args, unused_options):
-    year, month, day, hour, minute, second, millisecond = value_args_validate(_DATETIME_NEW_ARGS, args)
+    year, month, day, hour, minute, second, millisecond = (int(value) for value in value_args_validate(_DATETIME_NEW_ARGS, args))
 
     # Adjust millisecond
     if millisecond < 0 or millisecond >= 1000:
-- 
2.43.0


From 91b464f106db1a15a8d1a08b8671274cee00f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 40/46] fix: a null logFn option is no log function when a
 function failure is reported in debug mode

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 606297c..0bba9e4 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -246,7 +246,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
-                if options is not None and 'logFn' in options and options.get('debug'):
+                if options is not None and options.get('logFn') is not None and options.get('debug'):
                     options['logFn'](f'BareScript: Function "{func_name}" failed with error: {error}')
                 if isinstance(error, ValueArgsError):
                     return error.return_value
-- 
2.43.0


From 03bd6cdbff70e69b0993d01fee4b618ef08b3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:19 +0000
Subject: [PATCH 41/46] fix: a data function whose expression adds rows to the
 data does not run forever

---
 src/bare_script/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 458f5e2..9b09b63 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -220,7 +220,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
 
     # Bucket the right rows by the right expression value
     right_category_rows = {}
-    for right_row in right_data:
+    for right_row in list(right_data):
         category_key = _category_key(_evaluate_row(right_expression, right_row, eval_options, options))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
@@ -228,7 +228,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
 
     # Join the left with the right
     data = []
-    for left_row in left_data:
+    for left_row in list(left_data):
         category_key = _category_key(_evaluate_row(left_expression, left_row, eval_options, options))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
@@ -273,7 +273,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
             eval_options['globals'] = variables
 
     # Compute the calculated field for each row
-    for row in data:
+    for row in list(data):
         row[field_name] = _evaluate_row(calc_expr, row, eval_options, options)
 
     return data
@@ -310,7 +310,7 @@ def filter_data(data, expr, variables=None, options=None):
             eval_options['globals'] = variables
 
     # Filter the data
-    for row in data:
+    for row in list(data):
         if value_boolean(_evaluate_row(filter_expr, row, eval_options, options)):
             result.append(row)
 
-- 
2.43.0


From e5f3228aea6a3d8d0172d2e06efbee901a45964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:21 +0000
Subject: [PATCH 42/46] fix: the compare function of arraySort sees the array,
 and a failed sort leaves it as it was

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 39e6167..c1c849b 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -332,7 +332,8 @@ def _array_sort(args, options):
     if compare_fn is None:
         array.sort(key=functools.cmp_to_key(value_compare))
     else:
-        array.sort(key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))
+        # list.sort empties the array while it is being sorted, which the compare function could observe
+        array[:] = sorted(array, key=functools.cmp_to_key(lambda v1, v2: compare_fn([v1, v2], options)))
     return array
 
 _ARRAY_SORT_ARGS = value_args_model([
-- 
2.43.0


From 5129a836b3b5d26619d9c295f00edb9089784d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:11 +0000
Subject: [PATCH 43/46] fix: unary minus and % of int zero give the same signed
 zero as their float spelling

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 0bba9e4..d47e5a8 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -261,7 +261,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         if unary_op == '!':
             return not value_boolean(value)
         elif unary_op == '-' and _is_number(value):
-            return -value
+            return -value if value != 0 else -float(value)
 
         # Invalid operation value
         return None
@@ -368,7 +368,7 @@ def _binary_operation(bin_op, left_value, right_value):
         elif bin_op == '%':
             # number % number
             if _is_number(left_value) and _is_number(right_value):
-                return left_value % right_value
+                return float(left_value) % right_value
 
         else: # bin_op == '**'
             # number ** number
-- 
2.43.0


From 6c932be8c9df81c597f1b4e0668b2c442f9a6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:26 +0000
Subject: [PATCH 44/46] fix: dataAggregate sum is the same for int and float
 spellings of the values

---
 src/bare_script/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 9b09b63..8eb9649 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -375,7 +375,8 @@ def aggregate_data(data, aggregation):
             elif func == 'min':
                 aggregate_row[field] = min(measure_values, key=functools.cmp_to_key(value_compare))
             elif func == 'sum':
-                aggregate_row[field] = sum(measure_values)
+                # The sum of ints and floats rounds differently than the sum of floats
+                aggregate_row[field] = sum(1.0 * value for value in measure_values)
             elif func == 'stddev':
                 aggregate_row[field] = statistics.pstdev(measure_values)
             else: # func == 'average'
-- 
2.43.0


From f58f0bbf8d8b028641f187ea3cf60955b09cd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:54 +0000
Subject: [PATCH 45/46] fix: an include within a global for loop does not
 change the loop's own variables

---
 src/bare_script/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index d47e5a8..e3858c0 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -139,13 +139,15 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                         for warning in warnings:
                             log_fn(f'BareScript:     {warning}')
 
-                # Execute the include script
+                # Execute the include script - it must not change the for-loop variables of the scripts that include it
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
+                loop_vars = {name: value for name, value in globals_.items() if name.startswith('__bareScript')}
                 try:
                     _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
+                globals_.update(loop_vars)
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From 2f465a2f0ba986caa7fcefdf051f9ebbe9943bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:54 +0000
Subject: [PATCH 46/46] fix: functions with a name of one letter can be called

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index d0b2f0a..db08e01 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -620,7 +620,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0

