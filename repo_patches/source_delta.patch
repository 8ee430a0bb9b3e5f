From 93559490d867b3a44889c0b80e1d9e24d4e64308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 01/40] fix: accept well-formed quoted fields in strict mode

In strict mode the parser raised an error for every closing quote, also when
it was followed by the delimiter or the end of the record.
---
 src/cparser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 242ba6d..bf49e3e 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -364,7 +364,8 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 				if (v == self->quotechar) {
 					self->doublequote = 1;
 					self->state = QUOTE_IN_QUOTED_FIELD;
-				} else if (self->strict) {
+				} else if (self->strict && v != self->delimiter &&
+						v != '\r' && v != '\n' && v != '\0') {
 					PyErr_Format(_cparserstate_global->error_obj,
 							"'%c' expected after '%c'",
 							self->delimiter,
-- 
2.43.0


From d904fa7730499e783aadc8fe1309bff7cd4c4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 02/40] fix: keep the last record when it ends in an escape
 character

When the input ended directly after an escape character at the start of a
field, the parser dropped the whole record.
---
 src/cparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index bf49e3e..56b450a 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -466,7 +466,7 @@ static PyObject *Parser_iternext(ParserObj *self)
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() && (self->field_len != 0 ||
-						self->state == IN_QUOTED_FIELD)) {
+						self->state != START_RECORD)) {
 				if (self->strict) {
 					PyErr_SetString(_cparserstate_global->error_obj,
 							"unexpected end of data");
-- 
2.43.0


From f7ae0df001493f0320ebd0bd9447f15a7cf9c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 03/40] fix: don't strip literal quote characters from the ends
 of a cell

Escaped or doubled quote characters that happen to be the first and last
characters of a cell were taken for the quotes around the cell, and removed.
---
 src/cparser.c | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 56b450a..247ea32 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -71,6 +71,8 @@ typedef struct {
 	Py_UCS4 *field;
 	Py_ssize_t field_size;
 	Py_ssize_t field_len;
+	int quote_first;	/* field starts with an opening quote */
+	Py_ssize_t quote_end;	/* field length just after the last quote */
 	long field_limit;
 
 	Py_UCS4 delimiter;
@@ -166,25 +168,11 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 	return new;
 }
 
-static int _strstartswith(PyObject *str, Py_UCS4 c)
+static int _quotecond(ParserObj *self)
 {
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, 0) == c;
-}
-
-static int _strendswith(PyObject *str, Py_UCS4 c)
-{
-	Py_ssize_t len = PyUnicode_GetLength(str);
-	return (len > 0) && PyUnicode_ReadChar(str, len - 1) == c;
-}
-
-static int _quotecond(PyObject *field, Py_ssize_t field_len, Py_UCS4 q)
-{
-	if (q == '\0')
+	if (self->field_len <= 1)
 		return 0;
-	if (field_len <= 1)
-		return 0;
-	return (_strstartswith(field, q) && _strendswith(field, q));
+	return self->quote_first && self->quote_end == self->field_len;
 }
 
 static int parse_save_field(ParserObj *self, int trailing)
@@ -198,16 +186,14 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	// strip quotes if quoted string
-	if (_quotecond(field, self->field_len, self->quotechar)) {
+	if (_quotecond(self)) {
 		field = _strstrip(field, 1, 1);
 		if (field == NULL) {
 			return -1;
 		}
 		is_quoted = 1;
-	}
-
-	// strip partial quotes if trailing at end of file
-	if (trailing && _strstartswith(field, self->quotechar)) {
+	} else if (trailing && self->quote_first) {
+		// strip partial quotes if trailing at end of file
 		field = _strstrip(field, 1, 0);
 		if (field == NULL) {
 			return -1;
@@ -216,6 +202,8 @@ static int parse_save_field(ParserObj *self, int trailing)
 	}
 
 	self->field_len = 0;
+	self->quote_first = 0;
+	self->quote_end = 0;
 	if (self->return_quoted > 0) {
 		PyObject *tuple = PyTuple_New(2);
 		if (tuple == NULL) {
@@ -277,6 +265,17 @@ static int parse_add_char(ParserObj *self, Py_UCS4 c)
 	return 0;
 }
 
+/* Add an opening or closing quote, as opposed to a literal quote character */
+static int parse_add_quote(ParserObj *self, Py_UCS4 c)
+{
+	if (parse_add_char(self, c) < 0)
+		return -1;
+	if (self->field_len == 1)
+		self->quote_first = 1;
+	self->quote_end = self->field_len;
+	return 0;
+}
+
 static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 {
 	switch (self->state) {
@@ -295,7 +294,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 					return -1;
 				self->state = (u == '\0' ? START_RECORD : EAT_CRNL);
 			} else if (u == self->quotechar) {
-				if (parse_add_char(self, u) < 0)
+				if (parse_add_quote(self, u) < 0)
 					return -1;
 				self->state = IN_QUOTED_FIELD;
 			} else if (u == self->escapechar) {
@@ -343,7 +342,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 			} else if (u == self->escapechar) {
 				self->state = ESCAPED_CHAR;
 			} else if (u == self->quotechar) {
-				if (parse_add_char(self, u) < 0)
+				if (parse_add_quote(self, u) < 0)
 					return -1;
 				self->state = IN_QUOTED_FIELD;
 			} else if (u == self->delimiter) {
@@ -372,7 +371,7 @@ static int parse_process_char(ParserObj *self, Py_UCS4 u, Py_UCS4 v)
 							self->quotechar);
 					return -1;
 				} else {
-					if (parse_add_char(self, u) < 0)
+					if (parse_add_quote(self, u) < 0)
 						return -1;
 					self->state = IN_FIELD;
 				}
@@ -441,6 +440,8 @@ static int parse_reset(ParserObj *self)
 	if (self->fields == NULL)
 		return -1;
 	self->field_len = 0;
+	self->quote_first = 0;
+	self->quote_end = 0;
 	self->state = START_RECORD;
 	return 0;
 }
-- 
2.43.0


From d8c80994f756eac271eb07b64b28a8fffbc4eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 04/40] fix: raise TypeError when abstraction helpers don't get
 a string

Any other object was read as if it were a string, which crashes.
---
 src/abstraction.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abstraction.c b/src/abstraction.c
index 6034f4e..f907e83 100644
--- a/src/abstraction.c
+++ b/src/abstraction.c
@@ -60,7 +60,7 @@ PyObject *base_abstraction(PyObject *self,  PyObject *args)
 		 *quotechar_obj = NULL,
 		 *escapechar_obj = NULL;
 
-	if (!PyArg_ParseTuple(args, "OOOO", &S, &delimiter_obj, &quotechar_obj,
+	if (!PyArg_ParseTuple(args, "UOOO", &S, &delimiter_obj, &quotechar_obj,
 				&escapechar_obj)) {
 		return NULL;
 	}
@@ -153,7 +153,7 @@ PyObject *c_merge_with_quotechar(PyObject *self, PyObject *args)
 
 	// retrieve the string from the function arguments
 	PyObject *S = NULL;
-	if (!PyArg_ParseTuple(args, "O", &S)) {
+	if (!PyArg_ParseTuple(args, "U", &S)) {
 		return NULL;
 	}
 
-- 
2.43.0


From 45b7d2aac9556c5883f795e3e84f77ac56a4aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 05/40] fix: release the parser arguments when the input isn't
 iterable

---
 src/cparser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 247ea32..1ae35b6 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -679,8 +679,7 @@ static PyObject *cparser_parser(PyObject *module, PyObject *args, PyObject *keyw
 	if (self->input_iter == NULL) {
 		PyErr_SetString(PyExc_TypeError,
 				"argument 1 must be an iterator");
-		Py_DECREF(self);
-		return NULL;
+		goto err;
 	}
 
 	PyObject_GC_Track(self);
-- 
2.43.0


From 85868e42b53c3e061989698d824a78a98ab1d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 06/40] fix: don't modify the dialect that is given to the
 reader

Format parameters were set on the caller's SimpleDialect object.
---
 clevercsv/read.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 90ce386..3671cb6 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -49,7 +49,13 @@ class reader:
         elif isinstance(dialect, csv.Dialect):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
-            sd = dialect
+            # make a copy, the format parameters shouldn't alter the original
+            sd = SimpleDialect(
+                dialect.delimiter,
+                dialect.quotechar,
+                dialect.escapechar,
+                strict=dialect.strict,
+            )
         else:
             raise ValueError("Unknown dialect type: %r" % dialect)
         for key, value in fmtparams.items():
-- 
2.43.0


From 8d20210e8cd0168c0fad6ff28db5a516bd0762cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 07/40] fix: continue where the reader is when iterating over
 it

Calling iter() on a reader created a new parser, so when the input is not
itself an iterator, records that had been read already were returned again.
---
 clevercsv/read.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/clevercsv/read.py b/clevercsv/read.py
index 3671cb6..527e0fa 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -65,14 +65,15 @@ class reader:
         return sd
 
     def __iter__(self) -> Iterator[List[str]]:
-        self.parser_gen = Parser(
-            self.csvfile,
-            delimiter=self._dialect.delimiter,
-            quotechar=self._dialect.quotechar,
-            escapechar=self._dialect.escapechar,
-            field_limit=field_size_limit(),
-            strict=self._dialect.strict,
-        )
+        if self.parser_gen is None:
+            self.parser_gen = Parser(
+                self.csvfile,
+                delimiter=self._dialect.delimiter,
+                quotechar=self._dialect.quotechar,
+                escapechar=self._dialect.escapechar,
+                field_limit=field_size_limit(),
+                strict=self._dialect.strict,
+            )
         return self
 
     def __next__(self) -> List[str]:
-- 
2.43.0


From fd678efa4a7f5bd216bae0d61b2377b3dac8515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 08/40] fix: accept csv.Dialect objects and classes in the
 reader

Instances of csv.Dialect failed on the optional strict attribute, and dialect
classes such as clevercsv.excel and the objects returned by csv.get_dialect
were rejected, although csv.reader and the documentation allow them.
---
 clevercsv/dialect.py | 4 +++-
 clevercsv/read.py    | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index 9d909d9..b87adaa 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -100,7 +100,9 @@ class SimpleDialect:
         delimiter = "" if d.delimiter is None else d.delimiter
         quotechar = "" if d.quoting == csv.QUOTE_NONE else d.quotechar
         escapechar = "" if d.escapechar is None else d.escapechar
-        return cls(delimiter, quotechar, escapechar, strict=d.strict)
+        # csv.Dialect objects don't need to have the strict attribute
+        strict = bool(getattr(d, "strict", False))
+        return cls(delimiter, quotechar, escapechar, strict=strict)
 
     def to_csv_dialect(self) -> csv.Dialect:
         class dialect(csv.Dialect):
diff --git a/clevercsv/read.py b/clevercsv/read.py
index 527e0fa..7d3cc86 100644
--- a/clevercsv/read.py
+++ b/clevercsv/read.py
@@ -16,6 +16,8 @@ from typing import Iterator
 from typing import List
 from typing import Optional
 
+import _csv
+
 from . import field_size_limit
 from ._types import _DialectLike
 from .cparser import Error as ParserError
@@ -46,7 +48,9 @@ class reader:
     ) -> SimpleDialect:
         if isinstance(dialect, str):
             sd = SimpleDialect.from_csv_dialect(csv.get_dialect(dialect))
-        elif isinstance(dialect, csv.Dialect):
+        elif isinstance(dialect, (csv.Dialect, _csv.Dialect)) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             sd = SimpleDialect.from_csv_dialect(dialect)
         elif isinstance(dialect, SimpleDialect):
             # make a copy, the format parameters shouldn't alter the original
-- 
2.43.0


From f5ccc66a7dd8a0d9435d8132ea8ea2a2f6b953ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/40] fix: accept csv.Dialect objects and subclasses in the
 writer

The documentation allows any csv.Dialect, but only the three predefined
classes were accepted.
---
 clevercsv/write.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/write.py b/clevercsv/write.py
index 91c72ec..2800658 100644
--- a/clevercsv/write.py
+++ b/clevercsv/write.py
@@ -61,7 +61,9 @@ class writer:
             d = dialect
         elif isinstance(dialect, SimpleDialect):
             d = dialect.to_csv_dialect()
-        elif dialect in [csv.excel, csv.excel_tab, csv.unix_dialect]:
+        elif isinstance(dialect, csv.Dialect) or (
+            isinstance(dialect, type) and issubclass(dialect, csv.Dialect)
+        ):
             d = dialect
         else:
             raise ValueError(f"Unknown dialect type: {dialect}")
-- 
2.43.0


From 974dbe21a0e918e15ebff5a4288f2a10d705e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 10/40] fix: don't change the global field size limit during
 detection

The limit was raised while the consistency measure ran, which was visible to
other threads, and it was not restored when an error occurred.
---
 clevercsv/break_ties.py   | 28 +++++++++++++++++-----------
 clevercsv/consistency.py  | 12 ++++--------
 clevercsv/cparser_util.py | 13 ++++++++++++-
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 490adfd..c9e14e0 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -7,6 +7,7 @@ Author: Gertjan van den Burg
 
 """
 
+from typing import Any
 from typing import List
 from typing import Optional
 
@@ -15,6 +16,11 @@ from .dialect import SimpleDialect
 from .utils import pairwise
 
 
+def _parse(data: str, dialect: SimpleDialect) -> List[Any]:
+    # Cells can be as large as the data, regardless of the field size limit
+    return list(parse_string(data, dialect, field_limit=len(data) + 1))
+
+
 def tie_breaker(
     data: str, dialects: List[SimpleDialect]
 ) -> Optional[SimpleDialect]:
@@ -74,8 +80,8 @@ def reduce_pairwise(
     # First, identify dialects that result in the same parsing result.
     equal_dialects = []
     for a, b in pairwise(dialects):
-        X = list(parse_string(data, a))
-        Y = list(parse_string(data, b))
+        X = _parse(data, a)
+        Y = _parse(data, b)
         if X == Y:
             equal_dialects.append((a, b))
 
@@ -151,8 +157,8 @@ def break_ties_two(
             d_no = A if A.quotechar == "" else B
             d_yes = B if d_no == A else A
 
-            X = list(parse_string(data, dialect=d_no))
-            Y = list(parse_string(data, dialect=d_yes))
+            X = _parse(data, d_no)
+            Y = _parse(data, d_yes)
 
             if X == Y:
                 # quotechar has no effect
@@ -176,8 +182,8 @@ def break_ties_two(
     elif _dialects_only_differ_in_field(A, B, "escapechar"):
         Dnone, Descape = (A, B) if A.escapechar == "" else (B, A)
 
-        X = list(parse_string(data, Dnone))
-        Y = list(parse_string(data, Descape))
+        X = _parse(data, Dnone)
+        Y = _parse(data, Descape)
 
         # double check shape. Usually if the shape differs the pattern score
         # should have caught it, but if by a freakish occurance it hasn't then
@@ -225,8 +231,8 @@ def break_ties_two(
             d_no = A if (Aq, Ae) == ("", "") else B
             d_yes = B if d_no == A else A
 
-            X = list(parse_string(data, dialect=d_no))
-            Y = list(parse_string(data, dialect=d_yes))
+            X = _parse(data, d_no)
+            Y = _parse(data, d_yes)
 
             if len(X) != len(Y):
                 return None
@@ -303,9 +309,9 @@ def break_ties_three(
         # difference is *only* in quotechar
         dialects = [A, B, C]
 
-        pA = list(parse_string(data, A))
-        pB = list(parse_string(data, B))
-        pC = list(parse_string(data, C))
+        pA = _parse(data, A)
+        pB = _parse(data, B)
+        pC = _parse(data, C)
 
         if len(pA) != len(pB) or len(pA) != len(pC) or len(pB) != len(pC):
             return None
diff --git a/clevercsv/consistency.py b/clevercsv/consistency.py
index a7454f3..3f26a96 100644
--- a/clevercsv/consistency.py
+++ b/clevercsv/consistency.py
@@ -15,7 +15,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 
-from . import field_size_limit
 from .break_ties import tie_breaker
 from .cparser_util import parse_string
 from .detect_pattern import pattern_score
@@ -113,11 +112,6 @@ class ConsistencyDetector:
         # TODO: probably some optimization there too
         dialects = get_dialects(data, delimiters=delimiters)
 
-        # TODO: This is not thread-safe and this object can simply own a Parser
-        # for each dialect and set the limit directly there (we can also cache
-        # the best parsing result)
-        old_limit = field_size_limit(len(data) + 1)
-
         scores = self.compute_consistency_scores(data, dialects)
         best_dialects = ConsistencyDetector.get_best_dialects(scores)
         result: Optional[SimpleDialect] = None
@@ -126,7 +120,6 @@ class ConsistencyDetector:
         else:
             result = tie_breaker(data, best_dialects)
 
-        field_size_limit(old_limit)
         return result
 
     def compute_consistency_scores(
@@ -196,7 +189,10 @@ class ConsistencyDetector:
     ) -> float:
         """Compute the type score"""
         total = known = 0
-        for row in parse_string(data, dialect, return_quoted=True):
+        # Cells can be as large as the data, regardless of the size limit
+        for row in parse_string(
+            data, dialect, return_quoted=True, field_limit=len(data) + 1
+        ):
             assert all(isinstance(cell, tuple) for cell in row)
             for cell, is_quoted in row:
                 total += 1
diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 484c257..668ed06 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -53,13 +53,16 @@ def _parse_data(
     escapechar: str,
     strict: bool,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
+    if field_limit is None:
+        field_limit = field_size_limit()
     parser = Parser(
         data,
         delimiter=delimiter,
         quotechar=quotechar,
         escapechar=escapechar,
-        field_limit=field_size_limit(),
+        field_limit=field_limit,
         strict=strict,
         return_quoted=return_quoted,
     )
@@ -78,6 +81,7 @@ def parse_data(
     escapechar: Optional[str] = None,
     strict: Optional[bool] = None,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Parse the data given a dialect using the C parser
 
@@ -110,6 +114,10 @@ def parse_data(
         For each cell, return a tuple "(field, is_quoted)" where the second
         element indicates whether the cell was a quoted cell or not.
 
+    field_limit : int
+        The maximum size of a field. If None, the limit set with
+        :func:`field_size_limit` is used.
+
     Yields
     ------
     rows : list
@@ -136,6 +144,7 @@ def parse_data(
         escapechar_,
         strict_,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
 
 
@@ -143,10 +152,12 @@ def parse_string(
     data: str,
     dialect: SimpleDialect,
     return_quoted: bool = False,
+    field_limit: Optional[int] = None,
 ) -> Iterator[Union[List[str], List[Tuple[str, bool]]]]:
     """Utility for when the CSV file is encoded as a single string"""
     return parse_data(
         iter(io.StringIO(data, newline="")),
         dialect=dialect,
         return_quoted=return_quoted,
+        field_limit=field_limit,
     )
-- 
2.43.0


From a053682752b7a160c972046a85c840bad24cd25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 11/40] fix: don't fail detection on JSON cells that can't be
 loaded

json.loads raises ValueError for very long integers and RecursionError for
deeply nested objects, which aborted dialect detection.
---
 clevercsv/detect_type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index e0635f3..dad6e65 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -202,7 +202,9 @@ class TypeDetector:
             return False
         try:
             _ = json.loads(cell)
-        except json.JSONDecodeError:
+        except (ValueError, RecursionError):
+            # ValueError includes JSONDecodeError, and occurs on its own for
+            # integers that exceed the limit on integer string conversion
             return False
         return True
 
-- 
2.43.0


From d688fef9cf41f6c261dc24c3f507c586e3ba3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 12/40] fix: check the table in write_table before it is
 transposed

Transposing a table with rows of different length silently dropped cells
instead of raising the documented ValueError, and an empty iterator resulted
in an output file although the documentation says none is created.
---
 clevercsv/wrappers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clevercsv/wrappers.py b/clevercsv/wrappers.py
index 18dc6d7..b68e80c 100644
--- a/clevercsv/wrappers.py
+++ b/clevercsv/wrappers.py
@@ -442,17 +442,17 @@ def write_table(
         When the length of the rows is not constant.
 
     """
-    if not table:
-        return
-
-    if transpose:
-        list_table = list(map(list, zip(*table)))
-    else:
-        list_table = list(map(list, table))
+    list_table = list(map(list, table))
 
     if len(set(map(len, list_table))) > 1:
         raise ValueError("Table doesn't have constant row length.")
 
+    if transpose:
+        list_table = list(map(list, zip(*list_table)))
+
+    if not list_table:
+        return
+
     with open(filename, "w", newline="", encoding=encoding) as fp:
         w = writer(fp, dialect=dialect)
         w.writerows(list_table)
-- 
2.43.0


From 988f76de98a0fafaafd816cd0ef53d6a9cff0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 13/40] fix: keep all cells when standardize transposes rows of
 unequal length

The transposed output was cut off at the shortest row, and was empty when the
file contained a blank line.
---
 clevercsv/console/commands/standardize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index f25c9e4..6093c39 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import io
+import itertools
 import os
 import shutil
 import sys
@@ -207,7 +208,7 @@ class StandardizeCommand(Command):
         with open(path, "r", newline="", encoding=encoding) as fp:
             read = reader(fp, dialect=dialect)
             rows = list(read)
-        rows = list(map(list, zip(*rows)))
+        rows = list(map(list, itertools.zip_longest(*rows, fillvalue="")))
         write = writer(stream, dialect="excel")
         for row in rows:
             write.writerow(row)
-- 
2.43.0


From dc331d3f4b1f0e56ff294a2ca9f2b7c8cc7aaafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 14/40] fix: don't fail in view --transpose when the file is
 empty

---
 clevercsv/console/commands/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/view.py b/clevercsv/console/commands/view.py
index 60ae57c..9805819 100644
--- a/clevercsv/console/commands/view.py
+++ b/clevercsv/console/commands/view.py
@@ -81,7 +81,7 @@ class ViewCommand(Command):
             return 1
 
         if self.args.transpose:
-            max_row_length = max(map(len, rows))
+            max_row_length = max(map(len, rows), default=0)
             fixed_rows: List[Sequence[Optional[str]]] = []
             for row in rows:
                 if len(row) == max_row_length:
-- 
2.43.0


From 55670019cc33b873d87bcc09eff586c1976604cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 15/40] fix: escape the strings in generated code

File names and dialects with quotes, backslashes, or control characters
resulted in code that was invalid or that read something else.
---
 clevercsv/console/commands/_utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 20c1861..d025bbf 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 
+import json
+
 from typing import Any
 from typing import List
 from typing import Optional
@@ -20,6 +22,12 @@ def parse_int(val: Any, name: str) -> Optional[int]:
         )
 
 
+def _quote(val: Optional[str]) -> str:
+    """Write a string as a Python string literal with double quotes"""
+    # Escape sequences in JSON strings mean the same in Python
+    return json.dumps(val, ensure_ascii=False)
+
+
 def generate_code(
     filename: str,
     dialect: SimpleDialect,
@@ -27,9 +35,10 @@ def generate_code(
     use_pandas: bool = False,
 ) -> List[str]:
     assert dialect.quotechar is not None
-    d = '"\\t"' if dialect.delimiter == "\t" else f'"{dialect.delimiter}"'
-    q = '"%s"' % (dialect.quotechar.replace('"', '\\"'))
-    e = repr(f"{dialect.escapechar}").replace("'", '"')
+    f = _quote(filename)
+    d = _quote(dialect.delimiter)
+    q = _quote(dialect.quotechar)
+    e = _quote(dialect.escapechar)
     base = [
         "",
         f"# Code generated with CleverCSV version {__version__}",
@@ -40,16 +49,16 @@ def generate_code(
         return [
             *base,
             "",
-            f'df = clevercsv.read_dataframe("{filename}", delimiter={d}, '
+            f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
             f"quotechar={q}, escapechar={e})",
             "",
         ]
 
-    enc = "None" if encoding is None else f'"{encoding}"'
+    enc = "None" if encoding is None else _quote(encoding)
     lines = [
         *base,
         "",
-        f'with open("{filename}", "r", newline="", encoding={enc}) as fp:',
+        f'with open({f}, "r", newline="", encoding={enc}) as fp:',
         "    reader = clevercsv.reader(fp, "
         + f"delimiter={d}, quotechar={q}, escapechar={e})",
         "    rows = list(reader)",
-- 
2.43.0


From 2fc3bb3fe875b3e1055eee12d05098133058dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 16/40] fix: handle all line endings and empty samples in
 has_header

Samples with carriage returns as line terminator raised an Error, and an
empty sample raised StopIteration.
---
 clevercsv/detect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index 1574110..cae08dd 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -147,9 +147,11 @@ class Detector:
         if dialect is None:
             raise NoDetectionResult
 
-        rdr = reader(StringIO(sample), dialect)
+        rdr = reader(StringIO(sample, newline=""), dialect)
 
-        header = next(rdr)  # assume first row is header
+        header = next(rdr, None)  # assume first row is header
+        if header is None:
+            return False
 
         columns = len(header)
         columnTypes: Dict[int, Optional[Union[int, type]]] = {}
-- 
2.43.0


From 64ca388494db1f4acb1c8729298b8cde38de949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 17/40] fix: make tie breaking independent of the hash seed

The order of the dialects that remained after reducing ties pairwise was that
of a set, so the detected dialect could differ from run to run.
---
 clevercsv/break_ties.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index c9e14e0..38effcc 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -86,19 +86,20 @@ def reduce_pairwise(
             equal_dialects.append((a, b))
 
     # Try to break the ties in these pairs
-    new_dialects = set()
+    # (the dialects are collected in a dict, so that their order is fixed)
+    new_dialects = {}
     visited = set()
     for A, B in equal_dialects:
         ans = break_ties_two(data, A, B)
         if ans is not None:
-            new_dialects.add(ans)
+            new_dialects[ans] = None
         visited.add(A)
         visited.add(B)
 
     # and add the dialects that we didn't visit
     for d in dialects:
         if d not in visited:
-            new_dialects.add(d)
+            new_dialects[d] = None
 
     return list(new_dialects)
 
-- 
2.43.0


From ab4532b7d94c0467e95591ca429fa0137973f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 18/40] fix: show whitespace delimiters in the plain output of
 detect

Tabs and spaces were stripped from the output, which made them look the same
as no delimiter at all.
---
 clevercsv/console/commands/detect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clevercsv/console/commands/detect.py b/clevercsv/console/commands/detect.py
index 58ccefb..ceb6078 100644
--- a/clevercsv/console/commands/detect.py
+++ b/clevercsv/console/commands/detect.py
@@ -122,9 +122,9 @@ class DetectCommand(Command):
             return 1
 
         if self.args.plain:
-            print(f"delimiter = {dialect.delimiter}".strip())
-            print(f"quotechar = {dialect.quotechar}".strip())
-            print(f"escapechar = {dialect.escapechar}".strip())
+            for name in ["delimiter", "quotechar", "escapechar"]:
+                value = getattr(dialect, name)
+                print(f"{name} = {value}" if value else f"{name} =")
             if self.args.add_runtime:
                 print(f"runtime = {runtime}")
         elif self.args.json:
-- 
2.43.0


From ee30fae4c3d4f63dba723164bebc71708d9f3acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 19/40] fix: replace the file atomically in standardize
 --in-place

When the standardized data could not be written the temporary file was left
behind, the permissions of the file were lost, and when the temporary
directory is on another file system a failure could destroy the input file.
---
 clevercsv/console/commands/standardize.py | 29 +++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 6093c39..9cf9692 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -253,18 +253,27 @@ class StandardizeCommand(Command):
         modified.
 
         """
-        tmpfd, tmpfname = tempfile.mkstemp(prefix="clevercsv_", suffix=".csv")
-        tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
-        self._write_to_stream(path, tmpid, dialect, encoding)
-        tmpid.close()
+        # Write to a file in the same directory, so that the input file can be
+        # replaced at once, and the input file is intact if anything fails.
+        target = os.path.realpath(path)
+        tmpfd, tmpfname = tempfile.mkstemp(
+            prefix="clevercsv_", suffix=".csv", dir=os.path.dirname(target)
+        )
+        try:
+            tmpid = os.fdopen(tmpfd, "w", newline="", encoding=target_encoding)
+            with tmpid:
+                self._write_to_stream(path, tmpid, dialect, encoding)
 
-        previous_sha1 = sha1sum(path)
-        new_sha1 = sha1sum(tmpfname)
-        if previous_sha1 == new_sha1:
-            os.unlink(tmpfname)
-            return 0
+            previous_sha1 = sha1sum(path)
+            new_sha1 = sha1sum(tmpfname)
+            if previous_sha1 == new_sha1:
+                return 0
 
-        shutil.move(tmpfname, path)
+            shutil.copymode(target, tmpfname)
+            os.replace(tmpfname, target)
+        finally:
+            if os.path.exists(tmpfname):
+                os.unlink(tmpfname)
         return 2
 
     def _to_stdout(
-- 
2.43.0


From 3087d34ef1bf869f5c89e7cd22221dfc8d3d97b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 20/40] fix: refuse to standardize a file with itself as the
 output file

The file was emptied before it was read, so all data was lost.
---
 clevercsv/console/commands/standardize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 9cf9692..8f7262d 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -293,6 +293,14 @@ class StandardizeCommand(Command):
         encoding: Optional[str],
         target_encoding: Optional[str],
     ) -> int:
+        if os.path.exists(output) and os.path.samefile(path, output):
+            print(
+                "Output file is the same as the input file, use the "
+                "'-i/--in-place' option to overwrite it.",
+                file=sys.stderr,
+            )
+            return 1
+
         with open(output, "w", newline="", encoding=target_encoding) as fp:
             self._write_to_stream(path, fp, dialect, encoding)
         return 0
-- 
2.43.0


From ae6ac1697a27d55a3d18633ac41628cef476ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 21/40] fix: count a trailing empty cell in normal form
 detection

Rows with quotes lost an empty last cell, so files with a varying number of
cells or with unquoted empty cells could match normal forms 1 and 3.
---
 clevercsv/normal_form.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index aff21fa..167a431 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -225,8 +225,7 @@ def split_row(row: str, dialect: SimpleDialect) -> List[str]:
             current_cell += c
         else:
             current_cell += c
-    if current_cell:
-        cells.append(current_cell)
+    cells.append(current_cell)
     return cells
 
 
-- 
2.43.0


From 9c31192c9f9ea758d10bad288ce7e88fc0eb85ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 22/40] fix: don't crash when there is no memory to remove
 quotes from a cell

---
 src/cparser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cparser.c b/src/cparser.c
index 1ae35b6..3eafe8d 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -163,7 +163,8 @@ static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
 	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
 	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	if (new != NULL)
+		PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From 231858402180c48a8702c64de18c69a45cef4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 23/40] fix: make canonical strings when removing wide quotes
 from cells

---
 src/cparser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 3eafe8d..4ab31be 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -161,10 +161,8 @@ static int _set_char(const char *name, Py_UCS4 *target, PyObject *src, Py_UCS4 d
  */
 static PyObject *_strstrip(PyObject *str, int strip_front, int strip_back)
 {
-	Py_ssize_t how_many = PyUnicode_GetLength(str) - strip_front - strip_back;
-	PyObject *new = PyUnicode_New(how_many, PyUnicode_MAX_CHAR_VALUE(str));
-	if (new != NULL)
-		PyUnicode_CopyCharacters(new, 0, str, strip_front, how_many);
+	PyObject *new = PyUnicode_Substring(str, strip_front,
+			PyUnicode_GetLength(str) - strip_back);
 	Py_DECREF(str);
 	return new;
 }
-- 
2.43.0


From 9b6a9202a1ae6aa2a11143174a355921e5b2f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 24/40] fix: use normal form detection exclusively when asked
 to

---
 clevercsv/detect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/detect.py b/clevercsv/detect.py
index cae08dd..da4acbf 100644
--- a/clevercsv/detect.py
+++ b/clevercsv/detect.py
@@ -119,6 +119,10 @@ class Detector:
             if dialect is not None:
                 self.method_ = DetectionMethod.NORMAL
                 return dialect
+            if method == DetectionMethod.NORMAL:
+                # The normal form is used exclusively
+                self.method_ = DetectionMethod.NORMAL
+                return None
 
         self.method_ = DetectionMethod.CONSISTENCY
         consistency_detector = ConsistencyDetector(skip=skip, verbose=verbose)
-- 
2.43.0


From 01dade188a4ed707b73dfe986590ed6039bae7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 25/40] fix: don't escape quotes when writing with a dialect
 without quotechar

---
 clevercsv/dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index b87adaa..a7de8aa 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -108,7 +108,7 @@ class SimpleDialect:
         class dialect(csv.Dialect):
             assert self.delimiter is not None
             delimiter = self.delimiter
-            quotechar = '"' if self.quotechar == "" else self.quotechar
+            quotechar = None if self.quotechar == "" else self.quotechar
             escapechar = None if self.escapechar == "" else self.escapechar
             doublequote = True
             quoting = (
-- 
2.43.0


From 2008c28af5c555b5dfc51b2eb1f1483c90aa94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 26/40] fix: don't ignore text after the time zone of a
 datetime

---
 clevercsv/detect_type.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/detect_type.py b/clevercsv/detect_type.py
index dad6e65..695da2d 100644
--- a/clevercsv/detect_type.py
+++ b/clevercsv/detect_type.py
@@ -162,6 +162,8 @@ class TypeDetector:
             # [date]T[time][+-][time]
             if "+" in parts[1]:
                 subparts = parts[1].split("+")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
@@ -174,6 +176,8 @@ class TypeDetector:
                     return True
             elif "-" in parts[1]:
                 subparts = parts[1].split("-")
+                if len(subparts) > 2:
+                    return False
                 istime1 = self.is_time(subparts[0])
                 if not istime1:
                     return False
-- 
2.43.0


From 6f560d91939f8c9762e2db257dd0ec880add2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 27/40] fix: recognise datetimes with a time zone of hours only

---
 clevercsv/_regexes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/clevercsv/_regexes.py b/clevercsv/_regexes.py
index b0d84c2..1bc961f 100644
--- a/clevercsv/_regexes.py
+++ b/clevercsv/_regexes.py
@@ -96,9 +96,7 @@ PATTERN_TIME_HHMM_2: Pattern[str] = regex.compile(
     r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
 )
 
-PATTERN_TIME_HH: Pattern[str] = regex.compile(
-    r"(0[0-9]|1[0-9]|2[0-3])([0-5][0-9])"
-)
+PATTERN_TIME_HH: Pattern[str] = regex.compile(r"(0[0-9]|1[0-9]|2[0-3])")
 
 PATTERN_TIME_HMM: Pattern[str] = regex.compile(
     r"([0-9]|1[0-9]|2[0-3]):([0-5][0-9])"
-- 
2.43.0


From b81362c92be7e99847bfa286998af72d91e8386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 28/40] fix: escapes affect only the next character when
 testing for masked delimiters

---
 clevercsv/potential_dialects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clevercsv/potential_dialects.py b/clevercsv/potential_dialects.py
index f8b74e6..c9f2b16 100644
--- a/clevercsv/potential_dialects.py
+++ b/clevercsv/potential_dialects.py
@@ -282,8 +282,9 @@ def masked_by_quotechar(
     i = 0
     while i < len(data):
         s = data[i]
+        escaped, escape_next = escape_next, False
         if s == quotechar:
-            if escape_next:
+            if escaped:
                 i += 1
                 continue
             if not in_quotes:
@@ -295,7 +296,7 @@ def masked_by_quotechar(
                     in_quotes = False
         elif s == test_char and not in_quotes:
             return False
-        elif s == escapechar:
+        elif s == escapechar and not escaped:
             escape_next = True
         i += 1
     return True
-- 
2.43.0


From 33c90bf90d757126b679d5d48c3964f4e61f8bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 29/40] fix: consider each offending cell when breaking ties
 between escape characters

---
 clevercsv/break_ties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clevercsv/break_ties.py b/clevercsv/break_ties.py
index 38effcc..e81aaf7 100644
--- a/clevercsv/break_ties.py
+++ b/clevercsv/break_ties.py
@@ -218,10 +218,10 @@ def break_ties_two(
                     continue
                 if a == Descape.escapechar and b == Descape.quotechar:
                     count += 1
-            if count > 0 and count % 2 == 0:
-                return Descape
-            else:
+            if count == 0 or count % 2 == 1:
                 return Dnone
+        if cells_unescaped:
+            return Descape
     elif A.delimiter == B.delimiter:
         Aq, Ae = A.quotechar, A.escapechar
         Bq, Be = B.quotechar, B.escapechar
-- 
2.43.0


From f094686faaee5682dae8c7567f811b94df75eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 30/40] fix: don't allow quotes inside quoted cells in normal
 form 3

---
 clevercsv/normal_form.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 167a431..2dc4864 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -302,6 +302,9 @@ def is_form_3(rows: List[str], dialect: SimpleDialect) -> bool:
                 if not is_quoted_cell(cell, dialect.quotechar):
                     # then this form isn't right
                     return False
+                # or with quotes inside the quotes
+                if has_nested_quotes(cell, dialect.quotechar):
+                    return False
             # if it's not quoted
             else:
                 # and it's not elementary
-- 
2.43.0


From 5f846f462163e2a4c4983a485f2e91a57826cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 31/40] fix: don't crash when the input iterator uses the
 parser

---
 src/cparser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cparser.c b/src/cparser.c
index 4ab31be..8d5fbe5 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -463,6 +463,14 @@ static PyObject *Parser_iternext(ParserObj *self)
 		return NULL;
 	do {
 		lineobj = PyIter_Next(self->input_iter);
+		if (self->fields == NULL) {
+			/* The iterator used this parser, so the record is gone */
+			Py_XDECREF(lineobj);
+			if (!PyErr_Occurred())
+				PyErr_SetString(_cparserstate_global->error_obj,
+						"iterator has already advanced the parser");
+			return NULL;
+		}
 		if (lineobj == NULL) {
 			/* End of input OR exception */
 			if (!PyErr_Occurred() && (self->field_len != 0 ||
-- 
2.43.0


From a016a1cb0e59f89e7941403719945387ccc90702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 32/40] fix: don't count the quotes around a cell for the field
 size limit

---
 src/cparser.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/cparser.c b/src/cparser.c
index 8d5fbe5..6b29e39 100644
--- a/src/cparser.c
+++ b/src/cparser.c
@@ -174,6 +174,12 @@ static int _quotecond(ParserObj *self)
 	return self->quote_first && self->quote_end == self->field_len;
 }
 
+static void parse_limit_error(ParserObj *self)
+{
+	PyErr_Format(_cparserstate_global->error_obj, "field larger than field limit (%ld)",
+			self->field_limit);
+}
+
 static int parse_save_field(ParserObj *self, int trailing)
 {
 	int is_quoted = 0;
@@ -200,6 +206,13 @@ static int parse_save_field(ParserObj *self, int trailing)
 		is_quoted = 1;
 	}
 
+	// quotes that weren't stripped count
+	if (PyUnicode_GET_LENGTH(field) > self->field_limit && self->field_len > 0) {
+		Py_DECREF(field);
+		parse_limit_error(self);
+		return -1;
+	}
+
 	self->field_len = 0;
 	self->quote_first = 0;
 	self->quote_end = 0;
@@ -253,9 +266,9 @@ static int parse_grow_buff(ParserObj *self)
 
 static int parse_add_char(ParserObj *self, Py_UCS4 c)
 {
-	if (self->field_len >= self->field_limit) {
-		PyErr_Format(_cparserstate_global->error_obj, "field larger than field limit (%ld)",
-				self->field_limit);
+	/* two quotes are removed from the cell if it turns out to be quoted */
+	if (self->field_len - 2 * self->quote_first >= self->field_limit) {
+		parse_limit_error(self);
 		return -1;
 	}
 	if (self->field_len == self->field_size && !parse_grow_buff(self))
@@ -267,10 +280,10 @@ static int parse_add_char(ParserObj *self, Py_UCS4 c)
 /* Add an opening or closing quote, as opposed to a literal quote character */
 static int parse_add_quote(ParserObj *self, Py_UCS4 c)
 {
+	if (self->field_len == 0)
+		self->quote_first = 1;
 	if (parse_add_char(self, c) < 0)
 		return -1;
-	if (self->field_len == 1)
-		self->quote_first = 1;
 	self->quote_end = self->field_len;
 	return 0;
 }
-- 
2.43.0


From c584a1e456b4adcf57c84b208374f8356cc3c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 33/40] fix: reject field size limits that the parser can't use

---
 clevercsv/cparser_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/cparser_util.py b/clevercsv/cparser_util.py
index 668ed06..3522dd5 100644
--- a/clevercsv/cparser_util.py
+++ b/clevercsv/cparser_util.py
@@ -6,6 +6,7 @@ Python utility functions that wrap the C parser.
 """
 
 import io
+import struct
 
 from typing import Any
 from typing import Iterable
@@ -21,6 +22,7 @@ from .dialect import SimpleDialect
 from .exceptions import Error
 
 _FIELD_SIZE_LIMIT: int = 128 * 1024
+_C_LONG_MAX: int = 2 ** (8 * struct.calcsize("l") - 1) - 1
 
 
 def field_size_limit(*args: Any, **kwargs: Any) -> int:
@@ -42,6 +44,8 @@ def field_size_limit(*args: Any, **kwargs: Any) -> int:
     limit = all_args[0]
     if not isinstance(limit, int):
         raise TypeError("limit must be an integer")
+    if not -_C_LONG_MAX <= limit <= _C_LONG_MAX:
+        raise OverflowError("limit is too large to convert to C long")
     _FIELD_SIZE_LIMIT = int(limit)
     return old_limit
 
-- 
2.43.0


From fde05e11e16c4d638458842e059b935d144ebd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 34/40] fix: accept an iterator as the field names of
 DictReader and DictWriter

---
 clevercsv/dict_read_write.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index fd0f665..0a9f856 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -54,6 +54,8 @@ class DictReader(
         *args: Any,
         **kwds: Any,
     ) -> None:
+        if fieldnames is not None and iter(fieldnames) is fieldnames:
+            fieldnames = list(fieldnames)
         self._fieldnames = fieldnames
         self.restkey = restkey
         self.restval = restval
@@ -125,6 +127,8 @@ class DictWriter(Generic[_T]):
         *args: Any,
         **kwds: Any,
     ):
+        if fieldnames is not None and iter(fieldnames) is fieldnames:
+            fieldnames = list(fieldnames)
         self.fieldnames = fieldnames
         self.restval = restval
         if extrasaction.lower() not in ("raise", "ignore"):
-- 
2.43.0


From bd1177119bf7e44e4fa41cd480c278775e49d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 35/40] fix: DictWriter ignored extra keys when extrasaction
 was given in capitals

---
 clevercsv/dict_read_write.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/dict_read_write.py b/clevercsv/dict_read_write.py
index 0a9f856..34fa21b 100644
--- a/clevercsv/dict_read_write.py
+++ b/clevercsv/dict_read_write.py
@@ -131,7 +131,8 @@ class DictWriter(Generic[_T]):
             fieldnames = list(fieldnames)
         self.fieldnames = fieldnames
         self.restval = restval
-        if extrasaction.lower() not in ("raise", "ignore"):
+        extrasaction = extrasaction.lower()
+        if extrasaction not in ("raise", "ignore"):
             raise ValueError(
                 "extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction
             )
-- 
2.43.0


From 1ea2f20ceb019b479db932909598360b4d8c5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 36/40] fix: remove the temporary file of standardize when it
 can't be examined

---
 clevercsv/console/commands/standardize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clevercsv/console/commands/standardize.py b/clevercsv/console/commands/standardize.py
index 8f7262d..3004ebc 100644
--- a/clevercsv/console/commands/standardize.py
+++ b/clevercsv/console/commands/standardize.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import contextlib
 import io
 import itertools
 import os
@@ -267,13 +268,15 @@ class StandardizeCommand(Command):
             previous_sha1 = sha1sum(path)
             new_sha1 = sha1sum(tmpfname)
             if previous_sha1 == new_sha1:
+                os.unlink(tmpfname)
                 return 0
 
             shutil.copymode(target, tmpfname)
             os.replace(tmpfname, target)
-        finally:
-            if os.path.exists(tmpfname):
+        except BaseException:
+            with contextlib.suppress(OSError):
                 os.unlink(tmpfname)
+            raise
         return 2
 
     def _to_stdout(
-- 
2.43.0


From 6067bec458ee44a946d3527fd94debd9a7a6417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 37/40] fix: keep the encoding and number of characters in
 generated pandas code

---
 clevercsv/console/commands/_utils.py  | 8 ++++++--
 clevercsv/console/commands/code.py    | 6 +++++-
 clevercsv/console/commands/explore.py | 6 +++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index d025bbf..0133000 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -33,6 +33,7 @@ def generate_code(
     dialect: SimpleDialect,
     encoding: Optional[str],
     use_pandas: bool = False,
+    num_chars: Optional[int] = None,
 ) -> List[str]:
     assert dialect.quotechar is not None
     f = _quote(filename)
@@ -45,16 +46,19 @@ def generate_code(
         "",
         "import clevercsv",
     ]
+    enc = "None" if encoding is None else _quote(encoding)
     if use_pandas:
+        # These are detected from the whole file, unless they're given
+        options = "" if num_chars is None else f", num_chars={num_chars}"
+        options += "" if encoding is None else f", encoding={enc}"
         return [
             *base,
             "",
             f"df = clevercsv.read_dataframe({f}, delimiter={d}, "
-            f"quotechar={q}, escapechar={e})",
+            f"quotechar={q}, escapechar={e}{options})",
             "",
         ]
 
-    enc = "None" if encoding is None else _quote(encoding)
     lines = [
         *base,
         "",
diff --git a/clevercsv/console/commands/code.py b/clevercsv/console/commands/code.py
index de88d12..3277af8 100644
--- a/clevercsv/console/commands/code.py
+++ b/clevercsv/console/commands/code.py
@@ -72,7 +72,11 @@ class CodeCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            self.args.encoding if self.args.pandas else encoding,
+            use_pandas=self.args.pandas,
+            num_chars=num_chars,
         )
         print("\n".join(code_lines))
         return 0
diff --git a/clevercsv/console/commands/explore.py b/clevercsv/console/commands/explore.py
index 3634f02..3ab08ee 100644
--- a/clevercsv/console/commands/explore.py
+++ b/clevercsv/console/commands/explore.py
@@ -77,7 +77,11 @@ class ExploreCommand(Command):
             return 1
 
         code_lines = generate_code(
-            filename, dialect, encoding, use_pandas=self.args.pandas
+            filename,
+            dialect,
+            self.args.encoding if self.args.pandas else encoding,
+            use_pandas=self.args.pandas,
+            num_chars=num_chars,
         )
 
         console = code.InteractiveConsole()
-- 
2.43.0


From e9b2b02861e5a740945159ba2364c082a62eecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 38/40] fix: escape undecodable file names in generated code

---
 clevercsv/console/commands/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clevercsv/console/commands/_utils.py b/clevercsv/console/commands/_utils.py
index 0133000..6089ab4 100644
--- a/clevercsv/console/commands/_utils.py
+++ b/clevercsv/console/commands/_utils.py
@@ -25,7 +25,9 @@ def parse_int(val: Any, name: str) -> Optional[int]:
 def _quote(val: Optional[str]) -> str:
     """Write a string as a Python string literal with double quotes"""
     # Escape sequences in JSON strings mean the same in Python
-    return json.dumps(val, ensure_ascii=False)
+    literal = json.dumps(val, ensure_ascii=False)
+    # File names can hold surrogates, which source code can't
+    return literal.encode("utf-8", "backslashreplace").decode("utf-8")
 
 
 def generate_code(
-- 
2.43.0


From e362d592839756e64bbf0b7a7b601afc03efadda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 39/40] fix: ignore allowed delimiters of several characters in
 normal form detection

---
 clevercsv/normal_form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clevercsv/normal_form.py b/clevercsv/normal_form.py
index 2dc4864..b694f6c 100644
--- a/clevercsv/normal_form.py
+++ b/clevercsv/normal_form.py
@@ -54,7 +54,8 @@ def detect_dialect_normal(
     """
     if delimiters is None:
         delimiters = DELIMS
-    delimiters = list(delimiters)
+    # Only single characters can be the delimiter of a dialect
+    delimiters = [delim for delim in delimiters if len(delim) <= 1]
     for delim, quotechar in itertools.product(delimiters, QUOTECHARS):
         if maybe_has_escapechar(data, encoding, delim, quotechar):
             if verbose:
-- 
2.43.0


From 99f3ce8b964d9802580e7ff993c2eeeb00497f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 40/40] fix: keep strict when converting a dialect to a csv
 dialect

---
 clevercsv/dialect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clevercsv/dialect.py b/clevercsv/dialect.py
index a7de8aa..1ca8893 100644
--- a/clevercsv/dialect.py
+++ b/clevercsv/dialect.py
@@ -118,6 +118,7 @@ class SimpleDialect:
             # TODO: We need to set this because it can't be None anymore in
             # recent versions of Python
             lineterminator = "\n"
+            strict = self.strict
 
         return dialect()
 
-- 
2.43.0

