From 387533866cc6ec77cddd8966e262f9e4dbfd38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 01/27] fix: keep a pending record whose last field is empty at
 end of input

A last line ending in an escape character with an empty field so far
(e.g. 'a,\\') left the parser inside a record with field_len == 0, and the
whole record was dropped.
---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..6d8a1e1 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -464,8 +464,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		lineobj = PyIter_Next(self->input_iter);
 		if (lineobj == NULL) {
 			/* End of input OR exception */
-			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+			if (!PyErr_Occurred() && self->state != START_RECORD) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From 929ec53e55910fa2d56508145f86cede9e3fb5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 02/27] fix: reader no longer modifies the caller's
 SimpleDialect

Format parameters were set on the dialect object that was passed in.
---
 clevercsv/read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..229b83a 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -49,7 +49,12 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From 5dbb5949c1e2d2a2b2c576208531fd46140e9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 03/27] fix: restore the field size limit when detection raises

---
 clevercsv/consistency.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..89917cd 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -118,15 +118,16 @@ class ConsistencyDetector:
         # the best parsing result)
         old_limit = field_size_limit(len(data) + 1)
 
-        scores = self.compute_consistency_scores(data, dialects)
-        best_dialects = ConsistencyDetector.get_best_dialects(scores)
-        result: Optional[SimpleDialect] = None
-        if len(best_dialects) == 1:
-            result = best_dialects[0]
-        else:
-            result = tie_breaker(data, best_dialects)
-
-        field_size_limit(old_limit)
+        try:
+            scores = self.compute_consistency_scores(data, dialects)
+            best_dialects = ConsistencyDetector.get_best_dialects(scores)
+            result: Optional[SimpleDialect] = None
+            if len(best_dialects) == 1:
+                result = best_dialects[0]
+            else:
+                result = tie_breaker(data, best_dialects)
+        finally:
+            field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
-- 
2.43.0


From 9cef10fd953733dbbdadda05e27968f3e9f438eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 04/27] fix: is_json_obj no longer raises on huge integers or
 deep nesting

---
 clevercsv/detect_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..cd65411 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -202,7 +202,7 @@ class TypeDetector:
             return False
         try:
             _ = json.loads(cell)
-        except json.JSONDecodeError:
+        except (ValueError, RecursionError):
             return False
         return True
 
-- 
2.43.0


From e61b82e454a25bd3151a2de10caf8d9c35e13a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 05/27] fix: write_table with transpose refuses ragged tables

zip() silently cut the longer rows off before the length check.
---
 clevercsv/wrappers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..4f80726 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -445,14 +445,14 @@ def write_table(
     if not table:
         return
 
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
+    list_table = list(map(list, table))
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From ac16c7d99c08999c586f5a631aa4f4a343938c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 06/27] fix: standardize --transpose keeps the cells of longer
 rows

---
 clevercsv/console/commands/standardize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..6093c39 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,7 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From c7aa9dce06d13b3930e942502ba295c3d13f4074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 07/27] fix: escape file names and dialect characters in
 generated code

A backslash delimiter or a file name with a double quote or backslash gave
code that is invalid or opens another file.
---
 clevercsv/console/commands/_utils.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..954ade1 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -20,6 +20,17 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def _literal(value: Optional[str]) -> str:
+    """Write a value as a (double quoted) Python literal"""
+    if value is None:
+        return "None"
+    text = "".join(
+        c if c.isprintable() and c not in '"\\' else repr(c)[1:-1]
+        for c in value
+    )
+    return '"%s"' % text.replace('"', '\\"')
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -27,9 +38,10 @@ def generate_code(
     use_pandas: bool = False,
 ) -> List[str]:
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    d = _literal(dialect.delimiter)
+    q = _literal(dialect.quotechar)
+    e = _literal(dialect.escapechar)
+    f = _literal(filename)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +52,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = _literal(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({f}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From 097133105a845f971dd1ec3f684d333126b5fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 08/27] fix: dialect conversion keeps strict and accepts
 csv.Dialect instances

csv.Dialect classes have no 'strict' attribute unless they set one, so
from_csv_dialect raised AttributeError; to_csv_dialect dropped it.
---
 clevercsv/dialect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..246539d 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -100,7 +100,8 @@ class SimpleDialect:
         delimiter = "" if d.delimiter is None else d.delimiter
         quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        strict = bool(getattr(d, "strict", False))
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
@@ -116,6 +117,7 @@ class SimpleDialect:
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
+            strict = self.strict
 
         return dialect()
 
-- 
2.43.0


From 0202f4e176a5daef51c1a824332b2ebff89675eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 09/27] fix: reader and writer accept every documented kind of
 csv dialect

---
 clevercsv/read.py  | 6 +++++-
 clevercsv/write.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 229b83a..71e98e9 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -16,6 +16,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -46,7 +48,9 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
             sd = SimpleDialect(
diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..94cf327 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -57,11 +57,11 @@ class writer:
         d: _DialectLike = ""
         if isinstance(dialect, str):
             d = _csv.get_dialect(dialect)
-        elif isinstance(dialect, _csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)):
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
+        elif isinstance(dialect, type) and issubclass(dialect, csv.Dialect):
             d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
-- 
2.43.0


From a8ee7a29467b722e4f4a1d6acb186739d2ee8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 10/27] fix: iterating a reader continues where next() left off

Every iter() made a new parser, so rows of a list input already returned
by next() were returned again.
---
 clevercsv/read.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 71e98e9..fbd5af4 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -68,14 +68,15 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
-        self.parser_gen = Parser(
-            self.csvfile,
-            delimiter=self._dialect.delimiter,
-            quotechar=self._dialect.quotechar,
-            escapechar=self._dialect.escapechar,
-            field_limit=field_size_limit(),
-            strict=self._dialect.strict,
-        )
+        if self.parser_gen is None:
+            self.parser_gen = Parser(
+                self.csvfile,
+                delimiter=self._dialect.delimiter,
+                quotechar=self._dialect.quotechar,
+                escapechar=self._dialect.escapechar,
+                field_limit=field_size_limit(),
+                strict=self._dialect.strict,
+            )
         return self
 
     def __next__(self) -> List[str]:
-- 
2.43.0


From e64855c81b9351f345746eaac3e83195653ac419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 11/27] fix: release arguments when the parser input is not
 iterable, check a string allocation

---
 src/cparser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 6d8a1e1..ac117c3 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -161,7 +161,9 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
 	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
 	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	if (new != NULL && PyUnicode_CopyCharacters(new, 0, str, strip_front,
+				how_many) < 0)
+		Py_CLEAR(new);
 	Py_DECREF(str);
 	return new;
 }
@@ -676,8 +678,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	if (self->input_iter == NULL) {
 		PyErr_SetString(PyExc_TypeError,
 				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
+		goto err;
 	}
 
 	PyObject_GC_Track(self);
-- 
2.43.0


From 35799c11b8412c479d6067f6b0da448c6f79a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 12/27] fix: keep the second quote of a doubled quote in an
 unterminated quoted block

It was left as a NUL character in the abstraction.
---
 src/abstraction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..4479ad4 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -225,6 +225,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 		}
 		if (i + 1 < len && t == 'Q') {
 			i++;
+			new_S[i] = (char)t;
 		} else {
 			quote_idx_r[quote_idx] = i;
 			quote_idx++;
-- 
2.43.0


From ac0022dcb239a36616902b682544946b4bc5eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 13/27] fix: split_row keeps an empty last cell in rows with
 quotes

A trailing delimiter was ignored, so a row with an empty unquoted last cell
passed as a row of quoted cells only.
---
 clevercsv/normal_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..167a431 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -225,8 +225,7 @@ def split_row(row: str, dialect: SimpleDialect) -> List[str]:
             current_cell += c
         else:
             current_cell += c
-    if current_cell:
-        cells.append(current_cell)
+    cells.append(current_cell)
     return cells
 
 
-- 
2.43.0


From 100a107fa5acbe252201167c0cbcce1269cf10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 14/27] fix: tie breaking no longer depends on set order

reduce_pairwise returned list(set(...)), so the dialect chosen among four
tied ones could change with the hash seed.
---
 clevercsv/break_ties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..73a21b1 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -94,7 +94,8 @@ def reduce_pairwise(
         if d not in visited:
             new_dialects.add(d)
 
-    return list(new_dialects)
+    # keep the order of the input, set order depends on the hash seed
+    return [d for d in dialects if d in new_dialects]
 
 
 def _dialects_only_differ_in_field(
-- 
2.43.0


From 0fe2e11c05b1b73b09007b1af1dc027def0aee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:05 +0000
Subject: [PATCH 15/27] fix: strict mode accepts a closing quote followed by a
 delimiter or line end

---
 src/cparser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index ac117c3..4173138 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -366,7 +366,8 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != self->delimiter &&
+						v != '\r' && v != '\n' && v != '\0') {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From 5616a037872b4353bb58402cb719ee004cd72f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 16/27] fix: escaped or unpaired quotes at the ends of a cell
 stay text

---
 src/cparser.c | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 4173138..d75570e 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -71,6 +71,8 @@ typedef struct {
 	Py_UCS4 *field;
 	Py_ssize_t field_size;
 	Py_ssize_t field_len;
+	int quote_start;	/* the field starts with an opening quote */
+	Py_ssize_t quote_end;	/* field length at its last closing quote */
 	long field_limit;
 
 	Py_UCS4 delimiter;
@@ -168,27 +170,6 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 	return new;
 }
 
-static int _strstartswith(PyObject *str, Py_UCS4 c)
-{
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, 0) == c;
-}
-
-static int _strendswith(PyObject *str, Py_UCS4 c)
-{
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, len - 1) == c;
-}
-
-static int _quotecond(PyObject *field, Py_ssize_t field_len, Py_UCS4 q)
-{
-	if (q == '\0')
-		return 0;
-	if (field_len <= 1)
-		return 0;
-	return (_strstartswith(field, q) && _strendswith(field, q));
-}
-
 static int parse_save_field(ParserObj *self, int trailing)
 {
 	int is_quoted = 0;
@@ -200,7 +181,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip quotes if quoted string
-	if (_quotecond(field, self->field_len, self->quotechar)) {
+	if (self->quote_start && self->quote_end == self->field_len) {
 		field = _strstrip(field, 1, 1);
 		if (field == NULL) {
 			return -1;
@@ -209,7 +190,7 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip partial quotes if trailing at end of file
-	if (trailing && _strstartswith(field, self->quotechar)) {
+	if (trailing && self->quote_start && self->state == IN_QUOTED_FIELD) {
 		field = _strstrip(field, 1, 0);
 		if (field == NULL) {
 			return -1;
@@ -218,6 +199,8 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	self->field_len = 0;
+	self->quote_start = 0;
+	self->quote_end = 0;
 	if (self->return_quoted > 0) {
 		PyObject *tuple = PyTuple_New(2);
 		if (tuple == NULL) {
@@ -299,6 +282,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else if (u == self->quotechar) {
 				if (parse_add_char(self, u) < 0)
 					return -1;
+				self->quote_start = 1;
 				self->state = IN_QUOTED_FIELD;
 			} else if (u == self->escapechar) {
 				self->state = ESCAPED_CHAR;
@@ -376,6 +360,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				} else {
 					if (parse_add_char(self, u) < 0)
 						return -1;
+					self->quote_end = self->field_len;
 					self->state = IN_FIELD;
 				}
 			} else {
@@ -443,6 +428,8 @@ static int parse_reset(ParserObj *self)
 	if (self->fields == NULL)
 		return -1;
 	self->field_len = 0;
+	self->quote_start = 0;
+	self->quote_end = 0;
 	self->state = START_RECORD;
 	return 0;
 }
-- 
2.43.0


From 27b5073a98ca9d4fc5b281262fcc9d50b7f6b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 17/27] fix: cells stripped of wide quote characters are
 canonical strings

---
 src/cparser.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index d75570e..77e331c 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -161,11 +161,8 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	if (new != NULL && PyUnicode_CopyCharacters(new, 0, str, strip_front,
-				how_many) < 0)
-		Py_CLEAR(new);
+	PyObject *new = PyUnicode_Substring(str, strip_front,
+			PyUnicode_GetLength(str) - strip_back);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From 0d210cd732d6906e07860773d71e633a59066973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 18/27] fix: the abstraction functions refuse arguments that
 are not strings

base_abstraction and c_merge_with_quotechar read any object as if it were
a string: out of bounds reads or a crash.
---
 src/abstraction.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 4479ad4..9a7a5f7 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -60,7 +60,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 		 *quotechar_obj = NULL,
 		 *escapechar_obj = NULL;
 
-	if (!PyArg_ParseTuple(args, "OOOO", &S, &delimiter_obj, &quotechar_obj,
+	if (!PyArg_ParseTuple(args, "UOOO", &S, &delimiter_obj, &quotechar_obj,
 				&escapechar_obj)) {
 		return NULL;
 	}
@@ -153,7 +153,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 
 	// retrieve the string from the function arguments
 	PyObject *S = NULL;
-	if (!PyArg_ParseTuple(args, "O", &S)) {
+	if (!PyArg_ParseTuple(args, "U", &S)) {
 		return NULL;
 	}
 
-- 
2.43.0


From 3d39d3ce6bf61832b03f4580c74faad580743a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 19/27] fix: no crash when the input iterator advances its own
 parser

The nested call hands out the list of fields, which the outer call then
used as a NULL pointer.
---
 src/cparser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index 77e331c..ee228f1 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -449,6 +449,14 @@ static PyObject *Parser_iternext(ParserObj *self)
 		return NULL;
 	do {
 		lineobj = PyIter_Next(self->input_iter);
+		if (self->fields == NULL) {
+			/* the iterator used this parser itself */
+			Py_XDECREF(lineobj);
+			if (!PyErr_Occurred())
+				PyErr_SetString(_cparserstate_global->error_obj,
+						"iterator has already advanced the parser");
+			return NULL;
+		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() && self->state != START_RECORD) {
-- 
2.43.0


From b201282f648780cc8df8c0fde2af6070dcf94bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 20/27] fix: release the module and report the error when its
 initialisation fails

---
 src/abstraction.c |  4 +++-
 src/cparser.c     | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 9a7a5f7..f252a57 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -306,7 +306,9 @@ PyMODINIT_FUNC PyInit_cabstraction(void)
 		return NULL;
 
 	if (PyModule_AddStringConstant(module, "__version__",
-				MODULE_VERSION) == -1)
+				MODULE_VERSION) == -1) {
+		Py_DECREF(module);
 		return NULL;
+	}
 	return module;
 }
diff --git a/src/cparser.c b/src/cparser.c
index ee228f1..bf08e66 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -734,14 +734,21 @@ PyMODINIT_FUNC PyInit_cparser(void)
 	/* Add version to the module. */
 	if (PyModule_AddStringConstant(module, "__version__",
 				MODULE_VERSION) == -1)
-		return NULL;
+		goto err;
 
 
 	/* Add the CSV exception object to the module. */
 	_cparserstate(module)->error_obj = PyErr_NewException("clevercsv.cparser.Error", NULL, NULL);
 	if (_cparserstate(module)->error_obj == NULL)
-		return NULL;
+		goto err;
 	Py_INCREF(_cparserstate(module)->error_obj);
-	PyModule_AddObject(module, "Error", _cparserstate(module)->error_obj);
+	if (PyModule_AddObject(module, "Error", _cparserstate(module)->error_obj) < 0) {
+		Py_DECREF(_cparserstate(module)->error_obj);
+		goto err;
+	}
 	return module;
+
+err:
+	Py_DECREF(module);
+	return NULL;
 }
-- 
2.43.0


From acb9292b243290049632e354258c72559f842524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 21/27] fix: extrasaction of DictWriter is case insensitive
 throughout

The value was checked ignoring case but compared exactly, so "RAISE" was
accepted and then dropped unknown fields silently.
---
 clevercsv/dict_read_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..073d970 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -131,7 +131,7 @@ class DictWriter(Generic[_T]):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-        self.extrasaction = extrasaction
+        self.extrasaction = extrasaction.lower()
         self.writer = writer(f, dialect, *args, **kwds)
 
     def writeheader(self) -> Any:
-- 
2.43.0


From d27b201c8becdf18ec6cef7bd65438a47b99c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 22/27] fix: write_table creates no file for an empty iterator

The table may be any iterable, but only empty containers were recognised
as having no rows.
---
 clevercsv/wrappers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 4f80726..0cdbbf5 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -442,10 +442,9 @@ def write_table(
         When the length of the rows is not constant.
 
     """
-    if not table:
-        return
-
     list_table = list(map(list, table))
+    if not list_table:
+        return
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
-- 
2.43.0


From 8e58dfdcfd0d01fc1cc08bda7b2938200c469c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 23/27] fix: dialect validation refuses components that are not
 strings

---
 clevercsv/dialect.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 246539d..cd7c775 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -63,24 +63,24 @@ class SimpleDialect:
         self.strict = strict
 
     def validate(self) -> None:
-        if self.delimiter is None or len(self.delimiter) > 1:
+        if not isinstance(self.delimiter, str) or len(self.delimiter) > 1:
             raise ValueError(
                 "Delimiter should be zero or one characters, got: %r"
-                % self.delimiter
+                % (self.delimiter,)
             )
-        if self.quotechar is None or len(self.quotechar) > 1:
+        if not isinstance(self.quotechar, str) or len(self.quotechar) > 1:
             raise ValueError(
                 "Quotechar should be zero or one characters, got: %r"
-                % self.quotechar
+                % (self.quotechar,)
             )
-        if self.escapechar is None or len(self.escapechar) > 1:
+        if not isinstance(self.escapechar, str) or len(self.escapechar) > 1:
             raise ValueError(
                 "Escapechar should be zero or one characters, got: %r"
-                % self.escapechar
+                % (self.escapechar,)
             )
         if self.strict not in set([False, True]):
             raise ValueError(
-                "Strict should be True or False, got: %r" % self.strict
+                "Strict should be True or False, got: %r" % (self.strict,)
             )
 
     @classmethod
-- 
2.43.0


From 09b0b75bcab3ad8fbc0db2d5b97b0c11197c5866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 24/27] fix: the normal method of detection no longer falls
 back to consistency

---
 clevercsv/detect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..ec3ec1b 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -119,6 +119,9 @@ class Detector:
             if dialect is not None:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
+            if method == DetectionMethod.NORMAL:
+                self.method_ = DetectionMethod.NORMAL
+                return None
 
         self.method_ = DetectionMethod.CONSISTENCY
         consistency_detector = ConsistencyDetector(skip=skip, verbose=verbose)
-- 
2.43.0


From fd8fda29d07177e5bf1e57c13701e90512fd2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 25/27] fix: no crash when the destructor of a line advances
 the parser

---
 src/cparser.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index bf08e66..23101b1 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -452,10 +452,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		if (self->fields == NULL) {
 			/* the iterator used this parser itself */
 			Py_XDECREF(lineobj);
-			if (!PyErr_Occurred())
-				PyErr_SetString(_cparserstate_global->error_obj,
-						"iterator has already advanced the parser");
-			return NULL;
+			goto reentered;
 		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
@@ -513,15 +510,27 @@ static PyObject *Parser_iternext(ParserObj *self)
 			}
 			pos++;
 		}
-		Py_DECREF(lineobj);
-		if (parse_process_char(self, 0, 0) < 0)
+		if (parse_process_char(self, 0, 0) < 0) {
+			Py_DECREF(lineobj);
 			goto err;
+		}
+		Py_DECREF(lineobj);
+		if (self->fields == NULL) {
+			/* the destructor of the line used this parser itself */
+			goto reentered;
+		}
 	} while (self->state != START_RECORD);
 
 	fields = self->fields;
 	self->fields = NULL;
 	return fields;
 
+reentered:
+	if (!PyErr_Occurred())
+		PyErr_SetString(_cparserstate_global->error_obj,
+				"iterator has already advanced the parser");
+	return NULL;
+
 err:
 	Py_CLEAR(self->fields);
 	return NULL;
-- 
2.43.0


From 7c309fdcefd536287072ef0c5853c7ccb6ca471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 26/27] fix: do not consider the placeholder of removed URLs as
 a delimiter

With delimiters=["U"] a sample in which U does not occur (outside URLs) got
a candidate dialect with U as its delimiter.
---
 clevercsv/potential_dialects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index f8b74e6..6226321 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -67,8 +67,9 @@ def get_dialects(
         List of SimpleDialect objects that are considered potential dialects.
 
     """
-    # URLs are removed to reduce noise
-    no_url = filter_urls(data)
+    # URLs are removed to reduce noise. Only the characters that remain matter
+    # here, so nothing that isn't in the data may take the place of the URLs.
+    no_url = filter_urls(data, placeholder="")
     delims = get_delimiters(no_url, encoding, delimiters=delimiters)
     quotechars = get_quotechars(no_url)
     escapechars = {}
@@ -125,9 +126,9 @@ def unicode_category(x: str, encoding: str) -> str:
     return unicodedata.category(as_unicode)
 
 
-def filter_urls(data: str) -> str:
+def filter_urls(data: str, placeholder: str = "U") -> str:
     """Filter URLs from the data"""
-    return PATTERN_URL.sub("U", data)
+    return PATTERN_URL.sub(placeholder, data)
 
 
 def get_delimiters(
-- 
2.43.0


From d2d6806b9a02672b5436e0fe0561eba471e51d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:31 +0000
Subject: [PATCH 27/27] fix: order delimiters given as a set before normal form
 detection

The order of iteration over a set of strings depends on the hash seed, and
normal form detection returns the first dialect that fits.
---
 clevercsv/detect.py      | 5 ++++-
 clevercsv/normal_form.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index ec3ec1b..90737ab 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -108,7 +108,10 @@ class Detector:
 
         """
         method = DetectionMethod(method) if isinstance(method, str) else method
-        if delimiters is not None:
+        if isinstance(delimiters, (set, frozenset)):
+            # the order of a set depends on the hash seed
+            delimiters = sorted(delimiters)
+        elif delimiters is not None:
             delimiters = list(delimiters)
         if method == DetectionMethod.NORMAL or method == DetectionMethod.AUTO:
             if verbose:
diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 167a431..8dfece1 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -54,6 +54,9 @@ def detect_dialect_normal(
     """
     if delimiters is None:
         delimiters = DELIMS
+    elif isinstance(delimiters, (set, frozenset)):
+        # the order of a set depends on the hash seed
+        delimiters = sorted(delimiters)
     delimiters = list(delimiters)
     for delim, quotechar in itertools.product(delimiters, QUOTECHARS):
         if maybe_has_escapechar(data, encoding, delim, quotechar):
-- 
2.43.0

