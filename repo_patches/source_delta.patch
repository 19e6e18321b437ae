From b760299e4b14e9a0d336faa53efbb600d4663eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 01/43] fix: reject "?" that no datashape follows

---
 datashape/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 2cd5080..9dd6b27 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -143,6 +143,7 @@ class DataShapeParser(object):
                                               constructors[tok.id],
                                               saved_pos - 1)
                 return coretypes.DataShape(option(ds))
+            self.raise_error('Expected a datashape after the "?"')
         else:
             return self.parse_datashape_nooption()
 
-- 
2.43.0


From d374ca1e70bca23ebda8894cffb961766c3d1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 02/43] fix: lex names that begin with True or False as names

---
 datashape/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index b3e1935..d88704d 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -21,7 +21,7 @@ def _str_val(s):
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-    ('BOOLEAN',    r'True|False', ast.literal_eval),
+    ('BOOLEAN',    r'(?:True|False)(?![a-zA-Z0-9_])', ast.literal_eval),
     ('NAME_LOWER', r'[a-z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_UPPER', r'[A-Z][a-zA-Z0-9_]*', lambda x : x),
     ('NAME_OTHER', r'_[a-zA-Z0-9_]*', lambda x : x),
-- 
2.43.0


From 22ddd30109d733f2e6e5d01893f1bee8bb204318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 03/43] fix: quote field names that do not lex as a single name

---
 datashape/internal_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index 701d2a9..d0d1b4d 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -6,7 +6,6 @@ Do not import datashape modules into this module.  See util.py in that case
 
 from __future__ import print_function, division, absolute_import
 
-import keyword
 import re
 
 
@@ -119,5 +118,5 @@ def groupby(func, seq):
 
 
 def isidentifier(s):
-    return (keyword.iskeyword(s) or
-            re.match(r'^[_a-zA-Z][_a-zA-Z0-9]*$', s) is not None)
+    return (s not in ('True', 'False') and
+            re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
-- 
2.43.0


From c0b4ca7f814cc3574b56095d6da44cd044456043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 04/43] fix: let the parser know the bytes and char types

---
 datashape/type_symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 1032100..34924fe 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -73,6 +73,8 @@ no_constructor_types = [
     ('complex', ct.complex_float64),
     ('string', ct.string),
     ('json', ct.json),
+    ('bytes', ct.bytes_),
+    ('char', ct.char),
     ('date', ct.date_),
     ('time', ct.time_),
     ('datetime', ct.datetime_),
-- 
2.43.0


From d609c23294bfe41dd84e9074f5789158e7faa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 05/43] fix: unpickle types without parameters from protocols 0
 and 1

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index ea28b82..2dd0730 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -69,6 +69,9 @@ class Mono(with_metaclass(Type, object)):
 
     composite = False
 
+    # pickle protocols 0 and 1 drop an empty state
+    _parameters = ()
+
     def __init__(self, *params):
         self._parameters = params
 
-- 
2.43.0


From 8732ad33277ac0145c15cb9608bdd96d1a1e5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 06/43] fix: hash a fixed dimension like the integer it equals

---
 datashape/coretypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 2dd0730..50ef99e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -852,7 +852,9 @@ class Fixed(Unit):
         return (type(other) is Fixed and self.val == other.val or
                 isinstance(other, _inttypes) and self.val == other)
 
-    __hash__ = Mono.__hash__
+    def __hash__(self):
+        # equal to the plain integer, so it has to hash like one
+        return hash(self.val)
 
     def __str__(self):
         return str(self.val)
-- 
2.43.0


From 1334711aebbfff4ec6a1881bd6029cdb0df2eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 07/43] fix: raise TypeError for unsupported string parameters

---
 datashape/coretypes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 50ef99e..b4bb41d 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -386,13 +386,14 @@ class String(Unit):
     def __init__(self, *args):
         if len(args) == 0:
             fixlen, encoding = None, None
-        if len(args) == 1:
-            if isinstance(args[0], _strtypes):
-                fixlen, encoding = None, args[0]
-            if isinstance(args[0], _inttypes):
-                fixlen, encoding = args[0], None
-        if len(args) == 2:
+        elif len(args) == 1 and isinstance(args[0], _strtypes):
+            fixlen, encoding = None, args[0]
+        elif len(args) == 1 and isinstance(args[0], _inttypes):
+            fixlen, encoding = args[0], None
+        elif len(args) == 2:
             fixlen, encoding = args
+        else:
+            raise TypeError('string datashape takes a length and an encoding')
 
         encoding = encoding or 'U8'
         if isinstance(encoding, str):
-- 
2.43.0


From e04734f0f9ff9ec0114d92d5495f0c18b332d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 08/43] fix: raise ValueError for every unknown time unit

---
 datashape/coretypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index b4bb41d..da4ac82 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -302,8 +302,8 @@ def normalize_time_unit(s):
         return s
     if s in _unit_aliases:
         return _unit_aliases[s]
-    if s[-1] == 's' and len(s) > 2:
-        return normalize_time_unit(s.rstrip('s'))
+    if s[-1:] == 's' and s[:-1] in _unit_aliases:
+        return _unit_aliases[s[:-1]]
 
     raise ValueError("Do not understand time unit %s" % s)
 
-- 
2.43.0


From aa00f61f568a7e3a625c9d34c7004173a835d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 09/43] fix: raise ValueError for an empty type variable symbol

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index da4ac82..5bcdf2a 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -877,7 +877,7 @@ class TypeVar(Unit):
     __slots__ = 'symbol',
 
     def __init__(self, symbol):
-        if not symbol[0].isupper():
+        if not symbol[:1].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
         self.symbol = symbol
-- 
2.43.0


From fdd91ab710a608b653edce6451bc8adf479115b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 10/43] fix: clip slices of fixed dimensions the way sequences
 do

---
 datashape/coretypes.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 5bcdf2a..8ad995e 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -677,14 +677,7 @@ class DataShape(Mono):
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-                n = int(self[0])
-                start = index.start or 0
-                stop = index.stop or n
-                if start < 0:
-                    start = n + start
-                if stop < 0:
-                    stop = n + stop
-                count = stop - start
+                count = len(range(*index.indices(int(self[0]))))
             else:
                 start = index.start or 0
                 stop = index.stop
@@ -696,8 +689,8 @@ class DataShape(Mono):
                 else:
                     count = var
 
-            if count != var and index.step is not None:
-                count = int(ceil(count / index.step))
+                if count != var and index.step is not None:
+                    count = int(ceil(count / index.step))
 
             return count * self.subarray(1)
         if isinstance(index, tuple):
-- 
2.43.0


From 8825d6a4f4e6264bff622e43482af6a0320f8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 11/43] fix: unify records only when they have the same field
 names

---
 datashape/discovery.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 602cffa..3780a90 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -294,10 +294,11 @@ def unite_base(dshapes):
         good_dshapes = bynull[False]
     except KeyError:
         return len(dshapes) * null
+    base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
         base = lowest_common_dshape(good_dshapes)
-    elif (all(isinstance(ds, Record) for ds in good_dshapes) and
-          ds.names == dshapes[0].names for ds in good_dshapes):
+    elif all(isinstance(ds, Record) and ds.names == good_dshapes[0].names
+             for ds in good_dshapes):
         names = good_dshapes[0].names
         base = Record([[name,
                         unite_base([ds.dict.get(name, null) for ds in good_dshapes]).subshape[0]]
-- 
2.43.0


From 218ff7205b4de8c7345875672abe925fb7f5bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 12/43] fix: discover rows whose columns have no common type

---
 datashape/discovery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 3780a90..ee0507e 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -296,7 +296,10 @@ def unite_base(dshapes):
         return len(dshapes) * null
     base = None
     if all(isinstance(ds, Unit) for ds in good_dshapes):
-        base = lowest_common_dshape(good_dshapes)
+        try:
+            base = lowest_common_dshape(good_dshapes)
+        except ValueError:  # no common dshape, leave it to the next strategy
+            pass
     elif all(isinstance(ds, Record) and ds.names == good_dshapes[0].names
              for ds in good_dshapes):
         names = good_dshapes[0].names
-- 
2.43.0


From 2172916c7e27f02e77eec8b091a37e72de65db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 13/43] fix: a row validates against a record only field for
 field

---
 datashape/user.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datashape/user.py b/datashape/user.py
index c6b42be..30f2faf 100644
--- a/datashape/user.py
+++ b/datashape/user.py
@@ -45,8 +45,9 @@ def validate(schema, d):
 
 @dispatch(Record, (tuple, list))
 def validate(schema, seq):
-    return all(validate(sch, item) for (k, sch), item
-                                    in zip(schema.parameters[0], seq))
+    return (len(seq) == len(schema.parameters[0]) and
+            all(validate(sch, item) for (k, sch), item
+                in zip(schema.parameters[0], seq)))
 
 
 @dispatch(str, object)
-- 
2.43.0


From 9a4f2cf85a4782eb383bd1209df64a919e703b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 14/43] fix: isfixed sees variable dimensions inside tuples and
 options

---
 datashape/predicates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index 8d99b04..e6d569e 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .util import collect, dshape
+from .util import collect, dshape, has_var_dim
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
                         date_, datetime_, TypeVar, to_numpy_dtype, Map,
@@ -100,7 +100,7 @@ def isfixed(ds):
     ds = dshape(ds)
     if isinstance(ds[0], TypeVar):
         return None  # don't know
-    if isinstance(ds[0], Var):
+    if has_var_dim(ds):
         return False
     if isinstance(ds[0], Record):
         return all(map(isfixed, ds[0].types))
-- 
2.43.0


From 1b057b6f4431718d6b4bd15d9da0181b47c1cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 15/43] fix: collect nothing from parameters that are not types

---
 datashape/util/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/util/__init__.py b/datashape/util/__init__.py
index 9af40a8..37820f5 100644
--- a/datashape/util/__init__.py
+++ b/datashape/util/__init__.py
@@ -108,6 +108,7 @@ def collect(pred, expr):
         return chain.from_iterable(collect(pred, typ) for typ in expr.parameters)
     if isinstance(expr, (list, tuple)):
         return chain.from_iterable(collect(pred, item) for item in expr)
+    return []
 
 
 def has_var_dim(ds):
-- 
2.43.0


From b656732d610c28ac76914b80caa58f4a8c047531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 16/43] fix: count float16 among the floating types

---
 datashape/typesets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index bfcec97..b74a138 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -112,7 +112,7 @@ signed = TypeSet(int8, int16, int32, int64, name='signed')
 unsigned = TypeSet(uint8, uint16, uint32, uint64, name='unsigned')
 integral = TypeSet(*[x for t in zip(signed, unsigned) for x in t],
                    name='integral')
-floating = TypeSet(float32, float64, name='floating')
+floating = TypeSet(float16, float32, float64, name='floating')
 complexes = TypeSet(complex64, complex128, name='complexes')
 boolean = TypeSet(bool_, name='boolean')
 
-- 
2.43.0


From 1ed30602bdd89fe008ed2e3d717df4b12a898c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 17/43] fix: assert_dshape_equal compares the number of
 dimensions

---
 datashape/util/testing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index f8fc5ea..5d03afe 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -74,6 +74,10 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
         path = ()
 
     if check_dim:
+        assert len(ashape) == len(bshape), \
+            'dimensions do not match: %d != %d\n%s != %s\n%s' % (
+                len(ashape), len(bshape), a, b, _fmt_path(path),
+            )
         for n, (adim, bdim) in enumerate(zip(ashape, bshape)):
             if adim != bdim:
                 path += '.shape[%d]' % n,
-- 
2.43.0


From 8004ff3f27f5b48e4a7a37ffd8c646dda1a969b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 18/43] fix: assert_dshape_equal compares units

---
 datashape/util/testing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 5d03afe..a176a15 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -154,12 +154,12 @@ def assert_dshape_equal(a, b, path=None, **kwargs):
     if path is None:
         path = ()
 
-    assert a.unit == b.unit, '%s units do not match: %r != %s\n%s' % (
+    assert a.unit == b.unit, '%s units do not match: %r != %r\n%s' % (
         type(a).__name__.lower(), a.unit, b.unit, _fmt_path(path + ('.unit',)),
     )
 
-    path.append('.tp')
-    assert_dshape_equal(a.tp, b.tp, **kwargs)
+    path += '.tp',
+    assert_dshape_equal(a.tp, b.tp, path=path, **kwargs)
 
 
 @dispatch(String, String)
-- 
2.43.0


From 5fc8a853a9868077cee74b128f9aa1a5db3301fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 19/43] fix: report string lengths that are not known

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index a176a15..9585576 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -179,7 +179,7 @@ def assert_dshape_equal(a,
 
     if check_str_fixlen:
         assert a.fixlen == b.fixlen, \
-            'string fixlens do not match: %d != %d\n%s' % (
+            'string fixlens do not match: %r != %r\n%s' % (
                 a.fixlen, b.fixlen, _fmt_path(path + ('.fixlen',)),
             )
 
-- 
2.43.0


From 5edaa4ae70d2ae2e57fb0e06007af74c6bebcea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 20/43] fix: reject a second wildcard at every depth of a
 datashape

---
 datashape/validation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datashape/validation.py b/datashape/validation.py
index 4339b40..dbc2e39 100644
--- a/datashape/validation.py
+++ b/datashape/validation.py
@@ -21,7 +21,10 @@ def traverse(f, t):
     -------
     DataShape
     """
-    if isinstance(t, T.Mono) and not isinstance(t, T.Unit):
+    if isinstance(t, (list, tuple)):
+        return [traverse(f, p) for p in t]
+    if (isinstance(t, T.Mono) and
+            (not isinstance(t, T.Unit) or isinstance(t, T.Units))):
         return f(t, [traverse(f, p) for p in t.parameters])
     return t
 
-- 
2.43.0


From 5c350b8958c04e16cb0ef36e2a7ce8a2e4058b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 21/43] fix: naming a datashape does not clobber a registered
 type

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 8ad995e..a517f24 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -567,7 +567,7 @@ class DataShape(Mono):
         self.name = kwds.get('name')
 
         if self.name:
-            type(type(self))._registry[self.name] = self
+            type(type(self)).register(self.name, self)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From 8fac4b5fea619b8d6ef6123244aadc35e987326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 22/43] fix: promote options that are wrapped in a datashape

---
 datashape/promote.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datashape/promote.py b/datashape/promote.py
index 798aba7..a2d62d3 100644
--- a/datashape/promote.py
+++ b/datashape/promote.py
@@ -41,6 +41,7 @@ def promote(lhs, rhs, promote_option=True):
     """
     if lhs == rhs:
         return lhs
+    lhs, rhs = lhs.measure, rhs.measure
     left, right = getattr(lhs, 'ty', lhs), getattr(rhs, 'ty', rhs)
     if left == right == datashape.string:
         # Special case string promotion, since numpy promotes to `object`.
-- 
2.43.0


From 85f5aa6a5c0766f4cfbb0986f15025ffa4ce5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 23/43] fix: maxtype rejects records with TypeError like other
 measures

Matching a record against the scalar type set iterated over its fields and
failed with KeyError.
---
 datashape/typesets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index b74a138..ab38dfc 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -195,8 +195,8 @@ def maxtype(measure):
     isoption = isinstance(measure, Option)
     if isoption:
         measure = measure.ty
-    if (not matches_typeset(measure, scalar) and
-        not isinstance(measure, (Decimal, TimeDelta))):
+    if (measure not in scalar and
+            not isinstance(measure, (Decimal, TimeDelta))):
 
         raise TypeError('measure must be numeric')
 
-- 
2.43.0


From e93d041c5826edbc9774015a726d49b0689f3d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 24/43] fix: index datashapes whose first dimension is a type
 variable

isdimension does not know type variables, so an integer or a list as the
index of such a dimension was rejected.
---
 datashape/coretypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index a517f24..26873d2 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -657,8 +657,8 @@ class DataShape(Mono):
         >>> print(ds.subshape[0, 1:])
         {amount: int32, id: int32}
         """
-        from .predicates import isdimension
-        if isinstance(index, _inttypes) and isdimension(self[0]):
+        # a type variable in front of the measure is a dimension, too
+        if isinstance(index, _inttypes) and self.shape:
             return self.subarray(1)
         if isinstance(self[0], Record) and isinstance(index, _strtypes):
             return self[0][index]
@@ -673,7 +673,7 @@ class DataShape(Mono):
         if isinstance(self[0], Record) and isinstance(index, slice):
             rec = self[0]
             return DataShape(Record(rec.parameters[0][index]))
-        if isinstance(index, list) and isdimension(self[0]):
+        if isinstance(index, list) and self.shape:
             return len(index) * self.subarray(1)
         if isinstance(index, slice):
             if isinstance(self[0], Fixed):
-- 
2.43.0


From 7b9ed512d3cea2e981f9b3b687d5fe4c50aa21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 25/43] fix: null, options, functions and maps are measures, an
 ellipsis is a dimension

Without a kind they were accepted in front of the last position of a
datashape, and an ellipsis in the last position.
---
 datashape/coretypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 26873d2..3650a08 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -196,6 +196,7 @@ class Ellipsis(Mono):
         A... * float32   # float32 array w/ any number of dimensions,
                         # associated with type variable A
     """
+    cls = DIMENSION
     __slots__ = 'typevar',
 
     def __init__(self, typevar=None):
@@ -211,7 +212,7 @@ class Ellipsis(Mono):
 class Null(Unit):
 
     """The null datashape."""
-    pass
+    cls = MEASURE
 
 
 class Date(Unit):
@@ -721,6 +722,7 @@ class Option(Mono):
     Measure types which may or may not hold data. Makes no
     indication of how this is implemented in memory.
     """
+    cls = MEASURE
     __slots__ = 'ty',
 
     def __init__(self, ds):
@@ -882,6 +884,8 @@ class TypeVar(Unit):
 class Function(Mono):
     """Function signature type
     """
+    cls = MEASURE
+
     @property
     def restype(self):
         return self.parameters[-1]
@@ -897,6 +901,7 @@ class Function(Mono):
 
 
 class Map(Mono):
+    cls = MEASURE
     __slots__ = 'key', 'value'
 
     def __init__(self, key, value):
-- 
2.43.0


From 0a22120521d2915c4e740d28eeeaea9741479377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 26/43] fix: text multiplied by a type keeps the order of the
 two

---
 datashape/coretypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 3650a08..1ea5b76 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -156,7 +156,7 @@ class Mono(with_metaclass(Type, object)):
     def __rmul__(self, other):
         if isinstance(other, _strtypes):
             import datashape
-            return self * datashape.dshape(other)
+            return datashape.dshape(other) * self
         if isinstance(other, _inttypes):
             other = Fixed(other)
 
-- 
2.43.0


From 51924952d72383322215f8111e16cdb7035cfaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 27/43] fix: a datashape built from a datashape adds its
 dimensions

DataShape(3, dshape('4 * int32')) had the datashape as its measure, so it
printed like, but differed from, 3 * 4 * int32, and a datashape was accepted
as a dimension in front of another measure.
---
 datashape/coretypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 1ea5b76..a55ad69 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -542,6 +542,7 @@ class DataShape(Mono):
     --------
     datashape.dshape
     """
+    cls = MEASURE
     composite = False
 
     def __init__(self, *parameters, **kwds):
@@ -552,6 +553,10 @@ class DataShape(Mono):
                             % parameters[0])
         if len(parameters) > 0:
             self._parameters = tuple(map(_launder, parameters))
+            if isinstance(self._parameters[-1], DataShape):
+                # a datashape inside a datashape adds its dimensions
+                self._parameters = (self._parameters[:-1] +
+                                    self._parameters[-1].parameters)
             if getattr(self._parameters[-1], 'cls', MEASURE) != MEASURE:
                 raise TypeError(('Only a measure can appear on the'
                                  ' last position of a datashape, not %s') %
-- 
2.43.0


From d67d945b0f71c4fba9ef2769278eb4177c473bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 28/43] fix: isdatelike overlooked datetimes with a time zone

---
 datashape/predicates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datashape/predicates.py b/datashape/predicates.py
index e6d569e..98aae5d 100644
--- a/datashape/predicates.py
+++ b/datashape/predicates.py
@@ -3,7 +3,7 @@ import numpy as np
 from .util import collect, dshape, has_var_dim
 from .internal_utils import remove
 from .coretypes import (DataShape, Fixed, Var, Ellipsis, Record, Tuple, Unit,
-                        date_, datetime_, TypeVar, to_numpy_dtype, Map,
+                        Date, DateTime, TypeVar, to_numpy_dtype, Map,
                         Option, Categorical)
 from .typesets import floating, boolean
 
@@ -206,4 +206,4 @@ def isdatelike(ds):
     True
     """
     ds = launder(ds)
-    return ds == date_ or ds == datetime_
+    return isinstance(ds, (Date, DateTime))
-- 
2.43.0


From bac23ef5909fa68ffef1fd6cfacc61d41dc8820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 29/43] fix: assert_dshape_equal(check_dim=False) failed when
 only one side has dimensions

---
 datashape/util/testing.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index 9585576..cc5ee90 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -5,6 +5,7 @@ from ..coretypes import (
     DataShape,
     DateTime,
     Function,
+    Mono,
     Option,
     Record,
     String,
@@ -103,6 +104,25 @@ def assert_dshape_equal(a, b, check_dim=True, path=None, **kwargs):
     )
 
 
+@assert_dshape_equal.register(DataShape, Mono)
+@assert_dshape_equal.register(Mono, DataShape)
+def _check_mixed(a, b, check_dim=True, path=None, **kwargs):
+    """A datashape whose dimensions do not count is compared by its measure.
+    """
+    if check_dim and a.shape != b.shape:
+        return _base_case(a, b, path=path)
+    if path is None:
+        path = ()
+    path += '.measure',
+    assert_dshape_equal(
+        a.measure,
+        b.measure,
+        check_dim=check_dim,
+        path=path,
+        **kwargs
+    )
+
+
 class Slotted(with_metaclass(ABCMeta)):
     @classmethod
     def __subclasshook__(cls, subcls):
-- 
2.43.0


From e168edba1e088b20fd28c6c2e3bb5a1db6994eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 30/43] fix: repr of an unnamed type set depended on the hash
 seed

It printed a set of types, in the iteration order of the set.
---
 datashape/typesets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datashape/typesets.py b/datashape/typesets.py
index ab38dfc..bd8d064 100644
--- a/datashape/typesets.py
+++ b/datashape/typesets.py
@@ -48,7 +48,8 @@ class TypeSet(Unit):
     def __repr__(self):
         if self.name:
             return '{%s}' % (self.name,)
-        return "%s(%s, name=%s)" % (self.__class__.__name__, self._set,
+        return "%s(%s, name=%s)" % (self.__class__.__name__,
+                                    ', '.join(map(repr, self._order)),
                                     self.name)
 
     def __or__(self, other):
-- 
2.43.0


From 7deee4fd17481f638bbfc66f6633a4753075957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 31/43] fix: discovery of a mixed set depended on the hash seed

The tuple type listed the elements in the iteration order of the set.
---
 datashape/discovery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index ee0507e..54b931f 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -226,6 +226,9 @@ def discover(seq):
             pass
 
     types = list(map(discover, seq))
+    if isinstance(seq, (set, frozenset)):
+        # a set has no order of its own that could be reported
+        types.sort(key=str)
     return do_one([unite_identical, unite_merge_dimensions, Tuple])(types)
 
 
-- 
2.43.0


From 285a85e5b4bcece3c40ebe99657e3072cc20df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:59 +0000
Subject: [PATCH 32/43] fix: strings holding a NUL or a lone surrogate could
 not be tokenised

---
 datashape/lexer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datashape/lexer.py b/datashape/lexer.py
index d88704d..d4b6ef9 100644
--- a/datashape/lexer.py
+++ b/datashape/lexer.py
@@ -15,9 +15,11 @@ from . import error
 __all__ = ['lex', 'Token']
 
 def _str_val(s):
-    # Use the Python parser via the ast module to parse the string,
-    # since the string_escape and unicode_escape codecs do the wrong thing
-    return ast.parse('u' + s).body[0].value.s
+    # Use the Python parser via the ast module to parse each escape sequence,
+    # since the string_escape and unicode_escape codecs do the wrong thing.
+    # Python source may not hold every character that a string may.
+    return re.sub(r'\\(?:u[0-9a-fA-F]{4}|.)',
+                  lambda m: ast.literal_eval('u"' + m.group() + '"'), s[1:-1])
 
 # A list of the token names, corresponding regex, and value extraction function
 _tokens = [
-- 
2.43.0


From b23313c7114f12457d68d6a13e51ca9ceb8d2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 33/43] fix: a dimension not followed by '*' was silently
 dropped

---
 datashape/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 9dd6b27..04d4f43 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -167,6 +167,9 @@ class DataShapeParser(object):
                     self.pos = saved_pos
                     self.raise_error('Expected a dim or a dtype')
                 return coretypes.DataShape(dim, *dshape.parameters)
+            # A dim which isn't followed by an asterisk isn't part of
+            # the datashape, so its tokens must not be skipped
+            self.pos = saved_pos
         # Try dtype
         dtype = self.parse_dtype()
         if dtype:
-- 
2.43.0


From 4bc1cc72f13351ec44aa6dc369dad0e60c9e1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 34/43] fix: a trailing comma in type constructor arguments was
 ignored

---
 datashape/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 04d4f43..1d86a2a 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -353,6 +353,9 @@ class DataShapeParser(object):
                                            'Expected another keyword argument, ' +
                                            'positional arguments cannot follow ' +
                                            'keyword arguments')
+        if kwargs is None and len(args) > 0:
+            # We've seen "type_arg COMMA", so another argument is required
+            self.raise_error('Expected another type constructor argument')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From b0cc1ff8c3b2a707577484373910d27b51c83440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 35/43] fix: a repeated keyword argument silently replaced the
 first one

---
 datashape/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datashape/parser.py b/datashape/parser.py
index 1d86a2a..80eb856 100644
--- a/datashape/parser.py
+++ b/datashape/parser.py
@@ -356,6 +356,8 @@ class DataShapeParser(object):
         if kwargs is None and len(args) > 0:
             # We've seen "type_arg COMMA", so another argument is required
             self.raise_error('Expected another type constructor argument')
+        if kwargs and len(dict(kwargs)) != len(kwargs):
+            self.raise_error('Repeated keyword argument')
         return (args, dict(kwargs) if kwargs else {})
 
     def parse_type_arg(self):
-- 
2.43.0


From c6d50ed0fb89f6eed379bc563f8ac79363044aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 36/43] fix: struct[...] silently dropped names or datashapes
 without a partner

---
 datashape/type_symbol_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datashape/type_symbol_table.py b/datashape/type_symbol_table.py
index 34924fe..559e357 100644
--- a/datashape/type_symbol_table.py
+++ b/datashape/type_symbol_table.py
@@ -27,6 +27,10 @@ def _complex(tp):
 
 def _struct(names, dshapes):
     """Simple temporary type constructor for struct"""
+    if len(names) != len(dshapes):
+        raise ValueError('struct needs as many datashapes as field names, '
+                         'got %d names and %d datashapes' %
+                         (len(names), len(dshapes)))
     return ct.Record(list(zip(names, dshapes)))
 
 
-- 
2.43.0


From ae510011270bb953a8b20aa8ffc172c961b80a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 37/43] fix: a type variable named by something else than text
 raised AttributeError

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index a55ad69..e6fcd93 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -877,6 +877,9 @@ class TypeVar(Unit):
     __slots__ = 'symbol',
 
     def __init__(self, symbol):
+        if not isinstance(symbol, _strtypes):
+            raise TypeError('TypeVar symbol must be a string, got %r' %
+                            (symbol,))
         if not symbol[:1].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
-- 
2.43.0


From b46bb686963bdde5d83bf90ef55042d89187901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 38/43] fix: categorical of datashapes or with a type that is
 none raised internal errors

---
 datashape/coretypes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index e6fcd93..5a04141 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -1121,7 +1121,15 @@ class Categorical(Mono):
 
     def __init__(self, categories, type=None, ordered=False):
         self.categories = tuple(categories)
-        self.type = (type or datashape.discover(self.categories)).measure
+        if any(isinstance(category, Mono) for category in self.categories):
+            raise TypeError('categories must be values, got %r' %
+                            (categories,))
+        if type is None:
+            type = datashape.discover(self.categories)
+        elif not isinstance(type, Mono):
+            raise TypeError('type of the categories must be a datashape, '
+                            'got %r' % (type,))
+        self.type = type.measure
         self.ordered = ordered
 
     def __str__(self):
-- 
2.43.0


From 62e0152329f15571ff76a505058dd550cc34961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:59 +0000
Subject: [PATCH 39/43] fix: text with backslashes or control characters was
 printed in escapes the grammar lacks

---
 datashape/coretypes.py      | 14 +++++++-------
 datashape/internal_utils.py | 23 +++++++++++++++++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 5a04141..557b1cd 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -25,7 +25,7 @@ from .py2help import (
     unicode,
     with_metaclass,
 )
-from .internal_utils import IndexCallable, isidentifier
+from .internal_utils import IndexCallable, isidentifier, quoted
 
 
 # Classes of unit types.
@@ -242,7 +242,7 @@ class Time(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quoted(str(self.tz)))
 
 
 class DateTime(Unit):
@@ -263,7 +263,7 @@ class DateTime(Unit):
         if self.tz is None:
             return basename
         else:
-            return '%s[tz=%r]' % (basename, str(self.tz))
+            return '%s[tz=%s]' % (basename, quoted(str(self.tz)))
 
     def to_numpy_dtype(self):
         return np.dtype('datetime64[us]')
@@ -342,9 +342,9 @@ class Units(Unit):
 
     def __str__(self):
         if self.tp == DataShape(float64):
-            return 'units[%r]' % (self.unit)
+            return 'units[%s]' % quoted(self.unit)
         else:
-            return 'units[%r, %s]' % (self.unit, self.tp)
+            return 'units[%s, %s]' % (quoted(self.unit), self.tp)
 
 
 class Bytes(Unit):
@@ -1107,7 +1107,7 @@ R = Record  # Alias for record literals
 
 def _format_categories(cats, n=10):
     return '[%s%s]' % (
-        ', '.join(map(repr, cats[:n])),
+        ', '.join(map(quoted, cats[:n])),
         ', ...' if len(cats) > n else ''
     )
 
@@ -1441,7 +1441,7 @@ def pprint(ds, width=80):
 
     if isinstance(ds, Record):
         pairs = ['%s: %s' % (name if isidentifier(name) else
-                             repr(print_unicode_string(name)),
+                             quoted(print_unicode_string(name)),
                              pprint(typ, width - len(result) - len(name)))
                  for name, typ in zip(ds.names, ds.types)]
         short = '{%s}' % ', '.join(pairs)
diff --git a/datashape/internal_utils.py b/datashape/internal_utils.py
index d0d1b4d..e20ac4d 100644
--- a/datashape/internal_utils.py
+++ b/datashape/internal_utils.py
@@ -6,6 +6,7 @@ Do not import datashape modules into this module.  See util.py in that case
 
 from __future__ import print_function, division, absolute_import
 
+import ast
 import re
 
 
@@ -120,3 +121,25 @@ def groupby(func, seq):
 def isidentifier(s):
     return (s not in ('True', 'False') and
             re.match(r'[_a-zA-Z][_a-zA-Z0-9]*\Z', s) is not None)
+
+
+def _plain_escape(m):
+    escape = m.group()
+    if escape[1] == 'x':
+        return '\\u00' + escape[2:]
+    if escape[1] == 'U':
+        return ast.literal_eval('u"' + escape + '"')
+    return '\\u005c'
+
+
+def quoted(s):
+    """ The repr of a string, as a string token of the datashape grammar
+
+    Of the escape sequences which repr uses the grammar knows neither
+    escaped backslashes nor those by two or eight digits.
+
+    >>> print(quoted('a'))
+    'a'
+    """
+    return re.sub(r'\\(?:\\|x[0-9a-f]{2}|U[0-9a-f]{8})', _plain_escape,
+                  repr(s))
-- 
2.43.0


From 3112363666bef0730f00aa4636a29fa95761e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 40/43] fix: type variables could have symbols that are no
 names

---
 datashape/coretypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index 557b1cd..fa6d9a3 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -10,6 +10,7 @@ shape and data type.
 import sys
 import ctypes
 import operator
+import re
 
 from math import ceil
 
@@ -883,6 +884,8 @@ class TypeVar(Unit):
         if not symbol[:1].isupper():
             raise ValueError(('TypeVar symbol %r does not '
                               'begin with a capital') % symbol)
+        if not re.match(r'[A-Z][a-zA-Z0-9_]*\Z', symbol):
+            raise ValueError('TypeVar symbol %r is not a name' % symbol)
         self.symbol = symbol
 
     def __str__(self):
-- 
2.43.0


From 6e0000a17eccfdddf45260bc325055e9676e2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 41/43] fix: text with a number of time units too large for
 NumPy made discovery fail

---
 datashape/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/discovery.py b/datashape/discovery.py
index 54b931f..0493924 100644
--- a/datashape/discovery.py
+++ b/datashape/discovery.py
@@ -180,7 +180,7 @@ def discover(s):
     for f in string_coercions:
         try:
             return discover(f(s))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, OverflowError):
             pass
 
     # don't let dateutil parse things like sunday, monday etc into dates
-- 
2.43.0


From 2957faf94fb6e6a2c59414fe302b221fb6930e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 42/43] fix: slices of a variable dimension that select
 nothing, or have a step of zero, failed or had the wrong length

---
 datashape/coretypes.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/datashape/coretypes.py b/datashape/coretypes.py
index fa6d9a3..500fb3c 100644
--- a/datashape/coretypes.py
+++ b/datashape/coretypes.py
@@ -12,8 +12,6 @@ import ctypes
 import operator
 import re
 
-from math import ceil
-
 import datashape
 
 import numpy as np
@@ -686,19 +684,18 @@ class DataShape(Mono):
             if isinstance(self[0], Fixed):
                 count = len(range(*index.indices(int(self[0]))))
             else:
-                start = index.start or 0
-                stop = index.stop
-                if not stop:
-                    count = -start if start < 0 else var
+                start, stop = index.start, index.stop
+                step = 1 if index.step is None else index.step
+                if step == 0:
+                    raise ValueError('slice step cannot be zero')
+                if start is None and step > 0:
+                    start = 0
                 if (stop is not None and start is not None and stop >= 0 and
                         start >= 0):
-                    count = stop - start
+                    count = max(0, -((start - stop) // step))
                 else:
                     count = var
 
-                if count != var and index.step is not None:
-                    count = int(ceil(count / index.step))
-
             return count * self.subarray(1)
         if isinstance(index, tuple):
             if not index:
-- 
2.43.0


From 423c1db4f2b34e6baea52d88e23bdf3f384511ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:21 +0000
Subject: [PATCH 43/43] fix: a failed assertion on a time against a datetime
 did not say where they differ

---
 datashape/util/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datashape/util/testing.py b/datashape/util/testing.py
index cc5ee90..c35ff5e 100644
--- a/datashape/util/testing.py
+++ b/datashape/util/testing.py
@@ -158,7 +158,7 @@ def _base_case(a, b, path=None, **kwargs):
 @dispatch((DateTime, Time), (DateTime, Time))
 def assert_dshape_equal(a, b, path=None, check_tz=True, **kwargs):
     if type(a) != type(b):
-        return _base_case(a, b)
+        return _base_case(a, b, path=path)
     if check_tz:
         _check_slots(a, b, path)
 
-- 
2.43.0

