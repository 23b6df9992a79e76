From ad3d2ff29e87dc807c6f1c9e69fdf34db41c0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 01/58] fix: parsing must keep blanks that begin a quoted text
 (C02, C03)

---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..070c5a7 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -49,7 +49,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # A single token, so that the blanks within the quotes are not skipped
+        return RegExMatch(r"'(?:\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
@@ -151,12 +152,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -343,7 +340,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # A single token, so that the blanks within the quotes are not skipped
+        return RegExMatch(r"'(?:\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From 9bbee46534979aefa7992b031ddaf94fb4edef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/58] fix: parse ids with an output name but without
 parameters (C02)

---
 whatami/parsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 070c5a7..6838c33 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+from future.utils import string_types
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
 
@@ -243,6 +244,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         # lengths can be 1, 2 or 3
         if 3 == len(children):
             out_name, an_id, kvs = children
+        elif 2 == len(children) and isinstance(children[1], string_types):
+            out_name, an_id = children
+            kvs = []
         elif 2 == len(children):
             an_id, kvs = children
             out_name = None
-- 
2.43.0


From c410dd287fe11fe057466debc44b21f444d42b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 03/58] fix: parse nested ids whose name starts like a literal,
 e.g. nanmean() (C02, C03)

---
 whatami/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 6838c33..6492218 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -103,7 +103,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     # Key-values
 
     def value():
-        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id]
+        # N.B. order matters: "set()" is not a nested id, but names in nested ids can start like a literal (e.g. "nan")
+        return [a_set, whatami_id, a_none, a_bool, a_number, a_string, a_tuple, a_list, a_dict, a_class]
 
     def kv():
         return an_id, StrMatch('='), value
-- 
2.43.0


From 22530153bbb7a886c331b3a3dd30c1af6c115350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/58] fix: parsing must give back frozensets as frozensets
 (C02)

---
 whatami/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 6492218..1067258 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -216,12 +216,12 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return dict(list(children[0]))
 
     @staticmethod
-    def visit_an_empty_set(*_):
-        return set()
+    def visit_an_empty_set(node, _):
+        return frozenset() if node.flat_str().startswith('frozenset') else set()
 
     @staticmethod
-    def visit_a_non_empty_set(_, children):
-        return set(list(children[0]))
+    def visit_a_non_empty_set(node, children):
+        return (frozenset if node.flat_str().startswith('frozenset') else set)(children[0])
 
     # Key-values
 
-- 
2.43.0


From 71c85736bde10812ec10558564b8c4f90e8d2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/58] fix: parse classes without module, like <class 'str'>
 (C02)

---
 whatami/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 1067258..8bc5134 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -182,8 +182,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
-        except (ImportError, AttributeError):
+            return getattr(maybe_import(module or 'builtins'), clazz)
+        except (ImportError, AttributeError, ValueError, TypeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
 
-- 
2.43.0


From cfd1c0bef89abcfc94a1fb749484cafe5b379526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 06/58] fix: parsing must unescape the quotes in a text (C02)

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 8bc5134..2fd895c 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -155,7 +155,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 
     @staticmethod
     def visit_a_string(node, _):
-        return node.value[1:-1]
+        return node.value[1:-1].replace("\\'", "'")
 
     @staticmethod
     def visit_a_true(*_):
-- 
2.43.0


From bd004596c1f133a421b785334bc7c66df6897daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 07/58] fix: flatten must support dictionaries with unorderable
 keys (C07)

---
 whatami/what.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..6041f8b 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -70,6 +70,7 @@ import hashlib
 import inspect
 from copy import deepcopy
 from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
+from operator import itemgetter
 import types
 
 from future.utils import PY3
@@ -175,7 +176,10 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
-                kvs = sorted(what.items())
+                try:
+                    kvs = sorted(what.items(), key=itemgetter(0))
+                except TypeError:  # unorderable keys
+                    kvs = sorted(what.items(), key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From 66482256587dabd1940d87321a6c2e3217249786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 08/58] fix: indexing through a path that does not exist must
 raise KeyError (C07, C19)

---
 whatami/what.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 6041f8b..d3db1f8 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -228,7 +228,9 @@ class What(object):
                 for key in item:
                     try:
                         w = w[key]
-                    except TypeError:
+                    except (TypeError, IndexError):
+                        if not is_whatable(w):
+                            raise KeyError(item)
                         w = w.what()[key]
                 return w
             raise
-- 
2.43.0


From f55718b2feda3e004a6b21b545d678a941df0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 09/58] fix: positional ids must not repeat the values of
 nested configurations (C06)

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index d3db1f8..e1b6e12 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -288,7 +288,7 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too, recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 3336d751e26187a60f72a96e0d31a585c223706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 10/58] fix: id2dict must convert configurations nested in
 collections (C22)

---
 whatami/whatutils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..6be898d 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -95,11 +95,17 @@ def id2dict(whatid):
     whatid : string
       a whatami id string
     """
-    what = id2what(whatid)
-    return {'whatami_name': what.name,
-            'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+    def plain(v):
+        if isinstance(v, What):
+            return {'whatami_name': v.name,
+                    'whatami_out_name': v.out_name,
+                    'whatami_conf': {k: plain(kv) for k, kv in v.conf.items()}}
+        if type(v) in (list, tuple):
+            return type(v)(map(plain, v))
+        if type(v) == dict:
+            return {k: plain(kv) for k, kv in v.items()}
+        return v
+    return plain(id2what(whatid))
 
 
 def obj2what(obj,
-- 
2.43.0


From 75c5a2c1506fc4e2b65d9884f5fb422d4ecbe72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 11/58] fix: an empty prefix or postfix must not exclude every
 key (C11)

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..95500ed 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -480,8 +480,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From 376cef90f2b6839a0d3c2b496b79ebdb6e9cca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 12/58] fix: whatable must honor non_id_keys also for functions
 (C05, C13)

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index e1b6e12..5d62c18 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -521,7 +521,8 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+            non_ids = set(excludes or ()) | set(non_id_keys or ())
+            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=non_ids)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From 8ce75e9f5ef567d806f691ecc984c80aeb3781c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/58] fix: each request for the configuration of a whatable
 function must give its own copy (C13)

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 5d62c18..eb71d8a 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -522,7 +522,7 @@ def whatable(obj=None,
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
             non_ids = set(excludes or ()) | set(non_id_keys or ())
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=non_ids)
+            whatablefunc.what = partial(What(name, config_dict, non_id_keys=non_ids).copy)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From b825fd597373d26c6766d728fb5a410383c600dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 14/58] fix: a whatable class must be usable as a value (C13,
 C26)

---
 whatami/plugins.py   | 4 ++--
 whatami/what.py      | 7 ++++++-
 whatami/whatutils.py | 5 ++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..e3d7c35 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -14,7 +14,7 @@ from whatami import getargspec, is_whatable
 
 from whatami.misc import maybe_import
 
-from .what import What, whatareyou
+from .what import What, whatareyou, is_whatable_class
 from .misc import callable2call, config_dict_for_object, curry2partial
 from .minijoblib.hashing import hasher
 
@@ -35,7 +35,7 @@ def whatable_plugin(v):
 
     This should be second in the plugin chain to allow free specialisation of the what method.
     """
-    if is_whatable(v):
+    if is_whatable(v) and not is_whatable_class(v):
         what = v.what
         what = what() if callable(what) else what
         return what_plugin(what)
diff --git a/whatami/what.py b/whatami/what.py
index eb71d8a..0351287 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -229,7 +229,7 @@ class What(object):
                     try:
                         w = w[key]
                     except (TypeError, IndexError):
-                        if not is_whatable(w):
+                        if not is_whatable(w) or is_whatable_class(w):
                             raise KeyError(item)
                         w = w.what()[key]
                 return w
@@ -366,6 +366,11 @@ def whatareyou(obj,
                 non_id_keys=non_id_keys)
 
 
+def is_whatable_class(obj):
+    """Whatable classes need an instance to provide a configuration, so they are values like any other class."""
+    return inspect.isclass(obj) and is_whatable(obj) and not inspect.ismethod(obj.what)
+
+
 def is_whatable(obj):
     """Whatable objects have a method what() that takes no parameters and return a What configuration.
 
diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 6be898d..7f7072d 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -17,6 +17,7 @@ from arpeggio import NoMatch
 from whatami import (config_dict_for_object,
                      parse_whatid, build_oldwhatami_parser,
                      whatareyou, What, is_whatable, maybe_import)
+from .what import is_whatable_class
 
 
 def whatamize_object(clazz_or_fqn, what_func, fail_on_import_error=True, force=False):
@@ -69,6 +70,8 @@ def what2id(obj):
         return None
     if isinstance(obj, string_types):
         return obj
+    if is_whatable_class(obj):
+        return whatareyou(obj).id()
     try:
         return obj.what().id()
     except AttributeError:
@@ -135,7 +138,7 @@ def obj2what(obj,
     >>> print(obj2what(id2what, excludes=('parser',)).id())
     parse_whatid(visitor=None)
     """
-    if not force_inspect and is_whatable(obj):  # do not move this to whatareyou, or we face infinite recursion
+    if not force_inspect and is_whatable(obj) and not is_whatable_class(obj):  # do not move this to whatareyou, or we face infinite recursion
         return obj.what()
     return whatareyou(obj,
                       name_override=name_override,
-- 
2.43.0


From 8178c1078c977954ef1bf702fb498489be93b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 15/58] fix: positional arguments can be bound to parameters
 with a default (C12)

---
 whatami/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 95500ed..c83d759 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -304,8 +304,10 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
+            keywords = dict(chain(((arg, default) for arg, default in zip(args[-len(defaults):], defaults)
+                                   if arg not in pos2keyword),
+                                  keywords.items()))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
                 raise ValueError('Some partial %r keywords are not parameters of the function %s' %
-- 
2.43.0


From 05a4add4e66e16cc79e3dec5124c83ab2f6da355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 16/58] fix: introspect callable objects without a name like
 any other object (C11)

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c83d759..68d7515 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -326,7 +326,7 @@ def callable2call(c, closure_extractor=lambda c: c):
                 c.func,
                 positional=positional + list(c.args),                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
-        if hasattr(c, '__call__'):
+        if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
             return c.__name__, keywords
         raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % c)
-- 
2.43.0


From 1431be1cd7ca04368ed8bdfc06e5ddf9013d23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 17/58] fix: slots that have not been assigned must be skipped
 (C11)

---
 whatami/misc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 68d7515..3b403d4 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -401,8 +401,14 @@ def _slotsdict(obj):
     {'prop': 3}
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
-    return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+    slots = {}
+    for dname, value in descriptors:
+        if '__weakref__' != dname and inspect.ismemberdescriptor(value):
+            try:
+                slots[dname] = value.__get__(obj)
+            except AttributeError:  # declared but not assigned
+                pass
+    return slots
 
 
 def _propsdict(obj):
-- 
2.43.0


From ac5d329a7a843ccbc4cb27c016f0e2b5d9d2cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 18/58] fix: whatareyou must keep the contents of frozensets
 and of set subclasses (C04, C11)

---
 whatami/what.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 0351287..7f99898 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -350,8 +350,10 @@ def whatareyou(obj,
                                     add_slots=add_slots,
                                     add_properties=add_properties,
                                     add_class=add_class)
-        if type(obj) in (list, tuple, set, dict):  # N.B. do not use isinstance here
+        if type(obj) in (list, tuple, set, frozenset, dict):  # N.B. do not use isinstance here
             cd['seq'] = obj
+        elif isinstance(obj, (set, frozenset)):
+            cd['seq'] = set(obj)
         elif isinstance(obj, dict):
             cd['seq'] = {k: v for k, v in obj.items()}
         elif isinstance(obj, tuple):
-- 
2.43.0


From 6f613a066b13145a862a71ba24ef5a5606f861c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 19/58] fix: whatareyou must keep the order of ordered
 dictionaries (C04)

---
 whatami/what.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 7f99898..ad37b15 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -68,6 +68,7 @@ buy(currency='euro',price=4294967296)
 from __future__ import print_function, absolute_import
 import hashlib
 import inspect
+from collections import OrderedDict
 from copy import deepcopy
 from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
 from operator import itemgetter
@@ -354,6 +355,8 @@ def whatareyou(obj,
             cd['seq'] = obj
         elif isinstance(obj, (set, frozenset)):
             cd['seq'] = set(obj)
+        elif isinstance(obj, OrderedDict):
+            cd['seq'] = list(obj.items())
         elif isinstance(obj, dict):
             cd['seq'] = {k: v for k, v in obj.items()}
         elif isinstance(obj, tuple):
-- 
2.43.0


From 49a93846c135dd7562f9444b93380eff8adb877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 20/58] fix: registry entries can be removed by giving both
 their nickname and their id (C14)

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From 77ed351b75c47b10e5e4622db531f736a70435f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 21/58] fix: records with any id can get columns from iterables
 (C16)

---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..bc4db9c 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, items=()):
+        super(_DefaultDict, self).__init__(items)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +561,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From e6a53ebfbcf7bfaaa226f8286eafdf266d4e6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 22/58] fix: recorders must not share the list of
 postprocessors with their user (C17)

---
 whatami/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index bc4db9c..a6a5ded 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -512,7 +512,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
@@ -543,7 +543,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
 
     def override_record_postprocessors(self, *postprocessors):
         """Override the current record postprocessors."""
-        self._record_postprocessors = postprocessors
+        self._record_postprocessors = list(postprocessors)
 
     # --- Adding records machinery
 
-- 
2.43.0


From 3b7b3fde6414fe42039b807337c259546e6925c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 23/58] fix: ids given as an iterator must not be lost without
 an id extractor (C15, C16)

---
 whatami/registry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index a6a5ded..505625d 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -620,8 +620,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
         if isinstance(ids, string_types) or not is_iterable(ids):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
-        if self.id_extractor is not None:
-            ids = list(map(self.id_extractor, ids))
+        ids = list(ids if self.id_extractor is None else map(self.id_extractor, ids))
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 54a31e50d5515ff35aaef2e3efa54d88d71560bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 24/58] fix: match_whatids must support any iterable of ignored
 keys (C18)

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 7f7072d..e9efdfa 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -308,6 +308,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
     # Slow but somehow clear implementation ahead, based on What.flatten
     # Alternatives: nasty recursion, make flatten take a visitor that can abort...
 
+    ignored_keys = set(ignored_keys)  # N.B. it can be an iterator
     template_what = id2what(template_whatid)
     template_name = template_what.name
     template_keys, template_values = template_what.flatten(non_ids_too=non_ids_too,
@@ -324,7 +325,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From 9f9cd88a6f6bde5ce6799f3c9ea7a655a8273714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 25/58] fix: match_whatids must compare nested configurations
 also without recursion (C18)

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index e9efdfa..2170d1e 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -324,7 +324,8 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
         return False
 
     def not_ignored_values(keys, values):
-        return [(value.name, value.out_name) if isinstance(value, What) else value
+        # N.B. when recursing, the parameters of nested configurations have their own keys
+        return [(value.name, value.out_name) if isinstance(value, What) and recursive else value
                 for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
-- 
2.43.0


From 164872cadbbb3c8fd561f994a02c660e76f1bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 26/58] fix: sklearn objects without get_params can identify
 themselves without being registered (C24)

---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..7b8c875 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if use_short and pinfo is not None else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From 67a62fe446edc4f455265d6767bef74b99cbf81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 27/58] fix: maybe_import must give the first variant that can
 be imported (C28)

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index 3b403d4..48b708e 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -717,6 +717,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From d0320a9f5a3ace5ee734f2af4e51646338948668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 28/58] fix: maybe_import_member must support variants (C28)

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 48b708e..48067cb 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -793,7 +793,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From add2d48fb863d52e254b3524fe137c65f5fb54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 29/58] fix: old-style ids can have empty dictionaries (C20)

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 2fd895c..742d954 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -384,7 +384,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From 6ecf8e781db4e70ffde4b52b631e127f87e4e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 30/58] fix: functions as what of an instance make it whatable,
 failing whats do not (C26)

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index ad37b15..9e13302 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -400,7 +400,7 @@ def is_whatable(obj):
     try:
         what_method = obj.what
         selfbind = '__self__' if PY3 else 'im_self'
-        if getattr(what_method, selfbind, None) is None:
+        if inspect.isclass(obj) and getattr(what_method, selfbind, None) is None:
             # Unbounded method, so this comes from a class
             if hasattr(what_method, 'whatami'):
                 return True
-- 
2.43.0


From 39a3e73e52a98e6711fa3c0948c8523536a00a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 31/58] fix: making an object whatable never replaces a what
 that is not ours (C13)

---
 whatami/what.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 9e13302..e914480 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -526,6 +526,8 @@ def whatable(obj=None,
                                               wrapped=obj,
                                               assigned=update_in_wrapper)
         else:
+            if hasattr(obj, 'what') and not hasattr(obj.what, 'whatami'):
+                raise Exception('function already has an attribute what, and is not a whatami what')
             whatablefunc = obj
 
         # Adds what method
@@ -543,12 +545,12 @@ def whatable(obj=None,
         raise TypeError('builtins cannot be whatamised')
 
     # At the moment we just monkey-patch the object
-    if hasattr(obj, 'what') and not is_whatable(obj):
+    if hasattr(obj, 'what') and not hasattr(obj.what, 'whatami'):
         if force_flag_as_whatami:
             # mark this method as a whatami method
             # http://legacy.python.org/dev/peps/pep-0232/
             # http://stackoverflow.com/questions/23345005/does-pep-232-also-works-for-instance-methods
-            to_annotate = obj.what.__func__ if not PY3 else obj.what
+            to_annotate = getattr(obj.what, '__func__', obj.what)
             to_annotate.whatami = True
             return obj
         else:
-- 
2.43.0


From b6d2451662e6d92aad01cdd7fb78c562721ffe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 32/58] fix: paths do not go through texts and classes (C07)

---
 whatami/what.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index e914480..7c4d9f6 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -74,7 +74,7 @@ from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
 from operator import itemgetter
 import types
 
-from future.utils import PY3
+from future.utils import PY3, string_types
 
 from .misc import callable2call, is_iterable, config_dict_for_object, extract_decorated_function_from_closure, trim_dict
 
@@ -227,6 +227,8 @@ class What(object):
             if isinstance(item, tuple):
                 w = self.conf
                 for key in item:
+                    if isinstance(w, (string_types, type)):  # these can be indexed, but have no parameters
+                        raise KeyError(item)
                     try:
                         w = w[key]
                     except (TypeError, IndexError):
-- 
2.43.0


From 43665e56ab43b31faa9ffbb3908a569b0b22b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 33/58] fix: configurations are not iterable, even if they can
 be indexed (C16)

---
 whatami/what.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 7c4d9f6..c713073 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -245,6 +245,9 @@ class What(object):
         except KeyError:
             return default
 
+    # Retrieving with [] must not make configurations look like sequences
+    __iter__ = None
+
     # ---- Fluency
 
     def set(self, key, value, copy=False):
-- 
2.43.0


From f519927bc786c584c2827a5b176f21bbb6461ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 34/58] fix: recorders with ids of any type can be exported to
 a data frame (C15)

---
 whatami/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 505625d..dfc6cf5 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -688,4 +688,6 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
-        return pd.DataFrame.from_dict(self._registry, orient='index').loc[self._registry.keys()]
+        # N.B. do not ask pandas to sort the index, ids might be of any type
+        return pd.DataFrame(list(self._registry.values()),
+                            index=pd.Index(list(self._registry.keys()), tupleize_cols=False))
-- 
2.43.0


From 13f7191d7329ff7f789d07903c87265fcda570f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 35/58] fix: positional arguments are bound from the innermost
 partial application on (C12)

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 48067cb..037e74a 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -324,7 +324,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From a5be28a2538420e27ca5aacfa2a8cb4c0a79b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 36/58] fix: see through whatable functions when they are
 applied further (C12)

---
 whatami/misc.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 037e74a..af1abb3 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -230,7 +230,7 @@ def curry2partial(obj):
         return obj
 
 
-def callable2call(c, closure_extractor=lambda c: c):
+def callable2call(c, closure_extractor=None):
     """
     Extracts the (actual) function name and set parameters from a callable.
 
@@ -242,10 +242,11 @@ def callable2call(c, closure_extractor=lambda c: c):
     c : callable
         The function, partial, builtin or, in general, any callable.
 
-    closure_extractor : function c -> function, default c -> c
+    closure_extractor : function c -> callable, default None
         A function that will be executed whenever c is a closure.
-        It should return a function to be analyzed by inspect.
-        This can be useful to specify custom behavior with, e.g., decorated functions
+        It should return the callable to be analyzed, which is c itself if there is no custom behavior.
+        This can be useful to specify custom behavior with, e.g., decorated functions.
+        If None, functions decorated with whatable are unwrapped.
 
     Returns
     -------
@@ -290,6 +291,9 @@ def callable2call(c, closure_extractor=lambda c: c):
     >>> params
     {'x': 5}
     """
+    if closure_extractor is None:
+        closure_extractor = extract_decorated_function_from_closure
+
     def callable2call_recursive(c, positional=None, keywords=None):
         c = curry2partial(c)
         if keywords is None:
@@ -298,7 +302,9 @@ def callable2call(c, closure_extractor=lambda c: c):
             positional = []
         if inspect.isfunction(c):
             if is_closure(c):  # allow custom behavior with closures
-                c = closure_extractor(c)
+                extracted = closure_extractor(c)
+                if extracted is not c:
+                    return callable2call_recursive(extracted, positional=positional, keywords=keywords)
             args, _, _, defaults = getargspec(c)
             defaults = [] if not defaults else defaults
             args = [] if not args else args
@@ -578,14 +584,14 @@ def is_closure(c):
 
 def extract_decorated_function_from_closure(c):
     """
-    Extracts a function from closure c iff the closure only have one cell mapping to a function
+    Extracts a function or partial from closure c iff the closure only have one cell mapping to it
     and also has a method 'what'.
     (this ad-hoc behavior could help to play well with the whatable decorator)
     """
-    closure = c.__closure__
+    closure = getattr(c, '__closure__', None)
     if closure is not None and len(closure) == 1 and hasattr(c, 'what'):
         func = closure[0].cell_contents
-        if inspect.isfunction(func):
+        if (inspect.isfunction(func) or isinstance(func, partial)) and getattr(c, '__wrapped__', func) is func:
             return extract_decorated_function_from_closure(func)
     return c
 
-- 
2.43.0


From 83c3c2787f6433a9ff5af28d8be84e929da17c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 37/58] fix: excluded names can come from an iterator (C11,
 C13)

---
 whatami/misc.py | 3 ++-
 whatami/what.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index af1abb3..a4530a4 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -493,10 +493,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes)
     return {k: v for k, v in cd.items() if
             not (exclude_prefix and k.startswith(exclude_prefix)) and
             not (exclude_postfix and k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
diff --git a/whatami/what.py b/whatami/what.py
index c713073..3c77965 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -549,6 +549,12 @@ def whatable(obj=None,
     if inspect.isbuiltin(obj):
         raise TypeError('builtins cannot be whatamised')
 
+    # These can be iterators, and what() can be called many times
+    if is_iterable(non_id_keys):
+        non_id_keys = set(non_id_keys)
+    if is_iterable(excludes):
+        excludes = set(excludes)
+
     # At the moment we just monkey-patch the object
     if hasattr(obj, 'what') and not hasattr(obj.what, 'whatami'):
         if force_flag_as_whatami:
-- 
2.43.0


From 9b0b75c6bce8202e3019a1d4f6be233381c94d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 38/58] fix: configurations captured from a call do not share
 the locals of the call (C25)

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 2170d1e..8b90287 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -238,7 +238,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)  # N.B. copy, the locals can be the very same dictionary for the whole call
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From 3909c52715b2088f2117cf7cfc88f3b186f8d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 39/58] fix: decorate all the classes made from the same
 decorators or members alike (C27)

---
 whatami/misc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index a4530a4..49729da 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -692,13 +692,16 @@ def decorate_some(name='DecorateSome', **decorators):
     Decorator 1
     Called foo at Sub
     """
+    # N.B. decorators can come from an iterator, and must reach all the classes
+    decorators = {attr: list(attr_decorators) if is_iterable(attr_decorators) else [attr_decorators]
+                  for attr, attr_decorators in decorators.items()}
+
     def new_decorate(mcs, name, bases=None, d=None):
         # Use a closure to keep metaclass parameters
         # Alternative: add a "decorators" member to the metaclass "mcs" dictionary
+        d = dict(d)  # N.B. copy, so creating another class from the same members does not decorate again
         for attr, attr_decorators in decorators.items():
             if attr in d:
-                if not is_iterable(attr_decorators):
-                    attr_decorators = [attr_decorators]
                 for attr_decorator in attr_decorators:
                     d[attr] = attr_decorator(d[attr])
         return type.__new__(mcs, name, bases, d)
-- 
2.43.0


From d55e854f3689814f4a753f88a7b9e9f43f8624b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 40/58] fix: name the missing positional arguments when the
 required ones come from an iterator (C27)

---
 whatami/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 49729da..3904bf1 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -128,12 +128,13 @@ def ensure_has_positional_args(func, args=()):
     Exception: function 'func' is missing ['nocilla'] positional args; name positional args correctly
     """
     func_args = required_args(func)
-    if not set(args) <= set(func_args):
+    missing = sorted(set(args) - set(func_args))  # N.B. args can be an iterator
+    if missing:
         # Is there any way to find at this stage if the function is defined within a class,
         # so we can provide better error messages?
         raise Exception('function %r is missing %r positional args; name positional args correctly' % (
             func.__name__,
-            sorted(set(args) - set(func_args))))
+            missing))
     return func
 
 
-- 
2.43.0


From 9cb5805ddf9f06c62d77295ce1a388c6c50daae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 41/58] fix: name the missing positional arguments of callables
 without a name (C27)

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 3904bf1..cdf21ad 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -133,7 +133,7 @@ def ensure_has_positional_args(func, args=()):
         # Is there any way to find at this stage if the function is defined within a class,
         # so we can provide better error messages?
         raise Exception('function %r is missing %r positional args; name positional args correctly' % (
-            func.__name__,
+            getattr(func, '__name__', func),  # N.B. partials and the like have no name
             missing))
     return func
 
-- 
2.43.0


From df5f38770bfb24a5456d890fc8267dd866a0d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 42/58] fix: optional imports do not fail when the library
 fails to import with any other error (C28)

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index cdf21ad..fd15cf9 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -729,8 +729,8 @@ class _LazyImportError(object):
             try:
                 self.module = import_module(variant)
                 break
-            except ImportError as ie:
-                self._errors.append((variant, ie))
+            except Exception as e:  # N.B. libraries can fail to import in many ways
+                self._errors.append((variant, e))
         # Autogenerate install hint
         if install_msg in ('conda', 'pip'):
             install_msg = '%s install %s' % (install_msg, variants[0])
-- 
2.43.0


From 0cc2325cdde8b8cc5e10d2515d2e8ed6f9419ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 43/58] fix: any attribute of a library that fails to import
 raises when used (C28)

---
 whatami/misc.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index fd15cf9..a9449ff 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -720,35 +720,36 @@ class _LazyImportError(object):
         # Bookkeeping
         self._library_name = library_name
         self._variants = variants
-        self._errors = []
+        self._errors = errors = []
         # Try to import
         self.module = self
         if not variants:
-            variants = [self._library_name]
+            variants = [library_name]
         for variant in variants:
             try:
                 self.module = import_module(variant)
                 break
             except Exception as e:  # N.B. libraries can fail to import in many ways
-                self._errors.append((variant, e))
+                errors.append((variant, e))
         # Autogenerate install hint
         if install_msg in ('conda', 'pip'):
             install_msg = '%s install %s' % (install_msg, variants[0])
         self._install_msg = install_msg
 
     def __getattribute__(self, name):
-        if name in ('_library_name', '_install_msg', '_errors', '_maybe_import', 'module', '_variants'):
-            return super(_LazyImportError, self).__getattribute__(name)  # pragma: no cover
-        errors_msg = '\n'.join(['\timport %s: %s' % (variant, str(ie)) for variant, ie in self._errors])
-        if self._install_msg is not None:
+        # N.B. only we look into our members; users think they are using the library
+        library_name, install_msg, errors = [object.__getattribute__(self, member)
+                                             for member in ('_library_name', '_install_msg', '_errors')]
+        errors_msg = '\n'.join(['\timport %s: %s' % (variant, str(ie)) for variant, ie in errors])
+        if install_msg is not None:
             raise ImportError('Trying to access %s from module %s, but the library fails to import.\n'
                               'Errors: \n%s\n'
                               'Maybe install it like "%s"?' %
-                              (name, self._library_name, errors_msg, self._install_msg))
+                              (name, library_name, errors_msg, install_msg))
         else:
             raise ImportError('Trying to access %s from module %s, but the library fails to import.\n'
                               'Errors: \n%s\n' %
-                              (name, self._library_name, errors_msg))
+                              (name, library_name, errors_msg))
 
 
 def maybe_import(library_name, install_msg=None, *variants):
@@ -774,7 +775,7 @@ def maybe_import(library_name, install_msg=None, *variants):
       toolz = LazyImportError.maybe_import(toolz, install_msg='conda', 'cytoolz', 'toolz')
     """
     lie = _LazyImportError(library_name, install_msg, *variants)
-    return lie.module
+    return object.__getattribute__(lie, 'module')
 
 
 def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None, *variants):
-- 
2.43.0


From e24a5988e1e90600e1fc11b3fa78e88969164778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 44/58] fix: collect exactly the submodules of the package,
 whatever the errors importing them (C28)

---
 whatami/misc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index a9449ff..1b406c2 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -834,22 +834,22 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
     if isinstance(package, string_types):
         try:
             package = import_module(package)
-        except ImportError:
+        except Exception:
             if ignore_errors:
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(getattr(package, '__path__', ())):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-        except ImportError:
+        except Exception:
             if not ignore_errors:  # pragma: no cover
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
-            except ImportError:  # pragma: no cover
+                results.update(import_submodules(full_name, ignore_errors=ignore_errors))
+            except Exception:  # pragma: no cover
                 if not ignore_errors:
                     raise
     return results
-- 
2.43.0


From ac4c95c7279f4c95f4b0412aa15f52188b3c674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 45/58] fix: the ids of arrays do not depend on strides that
 are never used (C23)

---
 whatami/minijoblib/hashing.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..2fb106a 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -157,6 +157,23 @@ class Hasher(Pickler):
     dispatch[type(set())] = save_set
 
 
+def _used_strides(array):
+    """ The strides of the array, but these of dimensions with less than
+        two elements are never used, so they depend only on the others.
+    """
+    if not array.flags.c_contiguous and not array.flags.f_contiguous:
+        return tuple(stride if length > 1 else 0
+                     for stride, length in zip(array.strides, array.shape))
+    # As in a newly created array
+    strides = [array.itemsize] * array.ndim
+    dims = list(range(array.ndim))
+    if array.flags.c_contiguous:
+        dims.reverse()
+    for dim, previous in zip(dims[1:], dims):
+        strides[dim] = strides[previous] * max(array.shape[previous], 1)
+    return tuple(strides)
+
+
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
     """
@@ -224,7 +241,7 @@ class NumpyHasher(Hasher):
             # different views on the same data with different dtypes.
 
             # The object will be pickled by the pickler hashed at the end.
-            obj = (klass, ('HASHED', obj.dtype, obj.shape, obj.strides))
+            obj = (klass, ('HASHED', obj.dtype, obj.shape, _used_strides(obj)))
         elif isinstance(obj, self.np.dtype):
             # Atomic dtype objects are interned by their default constructor:
             # np.dtype('f8') is np.dtype('f8')
-- 
2.43.0


From c6fba4deae3eced9f4a4738242211ad23c8f762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 46/58] fix: masked arrays have ids, that depend on their mask
 too (C23)

---
 whatami/minijoblib/hashing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 2fb106a..8c3e8ff 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -203,7 +203,12 @@ class NumpyHasher(Hasher):
             than pickling them. Off course, this is a total abuse of
             the Pickler class.
         """
-        if isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
+        if (isinstance(obj, self.np.ma.MaskedArray) and
+                not obj.dtype.hasobject):
+            # The mask is as much of the array as its data
+            obj = (obj.__class__, ('MASKED', obj.data,
+                                   self.np.ma.getmaskarray(obj)))
+        elif isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
             # Compute a hash of the object
             # The update function of the hash requires a c_contiguous buffer.
             if obj.shape == ():
-- 
2.43.0


From d1774169c923846445b2228ec8d4c218f4260631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 47/58] fix: the ids of all random generators depend on their
 state (C23)

---
 whatami/plugins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index e3d7c35..c3756e8 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -225,7 +225,7 @@ def numpy_plugin(v):
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
     if np is not None and hasher is not None:
-        if isinstance(v, np.random.RandomState):
+        if isinstance(v, (np.random.RandomState, getattr(np.random, 'Generator', np.random.RandomState))):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
-- 
2.43.0


From 0c1ae1fdfaa063e74920adf79072f57c270e22d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 48/58] fix: the layout of the mask of an array is no part of
 its id (C23)

---
 whatami/minijoblib/hashing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 8c3e8ff..9fe7ed3 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -205,9 +205,10 @@ class NumpyHasher(Hasher):
         """
         if (isinstance(obj, self.np.ma.MaskedArray) and
                 not obj.dtype.hasobject):
-            # The mask is as much of the array as its data
-            obj = (obj.__class__, ('MASKED', obj.data,
-                                   self.np.ma.getmaskarray(obj)))
+            # The mask is as much of the array as its data (but not its
+            # layout, that depends on how the mask came to be)
+            mask = self.np.array(self.np.ma.getmaskarray(obj), order='C')
+            obj = (obj.__class__, ('MASKED', obj.data, mask))
         elif isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
             # Compute a hash of the object
             # The update function of the hash requires a c_contiguous buffer.
-- 
2.43.0


From cb76504cda46c277d953ee393b37a6e496c59c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 49/58] fix: classes that happen to be named as a registered
 scikit-learn one identify themselves (C24)

---
 whatami/wrappers/what_sklearn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index 7b8c875..db27b41 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -598,6 +598,8 @@ def _what_for_sklearn(x, use_short=True):
     """Returns a What configuration for the scikit learn estimator x."""
     name = x.__class__.__name__
     pinfo = _SKLRegistry.get(name, None)
+    if pinfo is not None and pinfo.object is not x.__class__:
+        pinfo = None  # Some other class with the same name
     try:
         configuration_dict = x.get_params(deep=False)   # N.B. we take care of recursing ourselves
     except AttributeError:
-- 
2.43.0


From ddd0727704d17434cde750bec0d025fa821cfe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 50/58] fix: the order of sets and dictionaries must not change
 the hash of what has them (C23)

---
 whatami/minijoblib/hashing.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 9fe7ed3..e4d881f 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -13,6 +13,7 @@ import sys
 import types
 import struct
 import io
+from operator import itemgetter
 
 from ._compat import _bytes_or_unicode, PY3_OR_LATER
 
@@ -23,6 +24,19 @@ else:
     Pickler = pickle.Pickler
 
 
+def _sorted_if_total(elements, key=lambda e: e):
+    """ Sorts elements by key. Raises TypeError if that does not decide their
+        order (e.g. sets are ordered by inclusion).
+    """
+    try:
+        elements = sorted(elements, key=key)
+        if all(key(e1) < key(e2) for e1, e2 in zip(elements, elements[1:])):
+            return elements
+    except ArithmeticError:  # decimals that are not a number
+        pass
+    raise TypeError('there is no total order for these elements')
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -34,7 +48,7 @@ class _ConsistentSet(object):
             # consistent and orderable.
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
-            self._sequence = sorted(set_sequence)
+            self._sequence = _sorted_if_total(set_sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
@@ -91,6 +105,9 @@ class Hasher(Pickler):
             else:
                 cls = obj.__self__.__class__
                 obj = _MyHash(func_name, inst, cls)
+        elif isinstance(obj, (set, frozenset)) and type(obj) is not set:
+            # like sets (see save_set), but telling the class
+            obj = (obj.__class__, _ConsistentSet(obj), getattr(obj, '__dict__', None))
         Pickler.save(self, obj)
 
     def memoize(self, obj):
@@ -138,17 +155,18 @@ class Hasher(Pickler):
 
     def _batch_setitems(self, items):
         # forces order of keys in dict to ensure consistent hash.
+        items = list(items)  # these can come from an iterator
         try:
             # Trying first to compare dict assuming the type of keys is
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            items = _sorted_if_total(items, key=itemgetter(0))
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
-            Pickler._batch_setitems(self, iter(sorted((hasher(k), v)
-                                                      for k, v in items)))
+            items = sorted(((hasher(k), v) for k, v in items), key=itemgetter(0))
+        Pickler._batch_setitems(self, iter(items))
 
     def save_set(self, set_items):
         # forces order of items in Set to ensure consistent hash
-- 
2.43.0


From ffc217dd7c7153fc5b3ba31ccd4a377327968cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 51/58] fix: the order of an OrderedDict must change the hash
 of what has it (C23)

---
 whatami/minijoblib/hashing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index e4d881f..91e905d 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -13,6 +13,7 @@ import sys
 import types
 import struct
 import io
+from collections import OrderedDict
 from operator import itemgetter
 
 from ._compat import _bytes_or_unicode, PY3_OR_LATER
@@ -108,6 +109,9 @@ class Hasher(Pickler):
         elif isinstance(obj, (set, frozenset)) and type(obj) is not set:
             # like sets (see save_set), but telling the class
             obj = (obj.__class__, _ConsistentSet(obj), getattr(obj, '__dict__', None))
+        elif isinstance(obj, OrderedDict):
+            # the order of the items matters
+            obj = (obj.__class__, list(obj.items()), getattr(obj, '__dict__', None))
         Pickler.save(self, obj)
 
     def memoize(self, obj):
-- 
2.43.0


From d863efef755ab2a6ba105e3ce3ac78cbddb32c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 52/58] fix: sharing equal values must not change the hash of
 what has them (C23)

---
 whatami/minijoblib/hashing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 91e905d..1652073 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -7,6 +7,7 @@ hashing of numpy arrays.
 # Copyright (c) 2009 Gael Varoquaux
 # License: BSD Style, 3 clauses.
 
+import datetime
 import pickle
 import hashlib
 import sys
@@ -14,6 +15,7 @@ import types
 import struct
 import io
 from collections import OrderedDict
+from numbers import Number
 from operator import itemgetter
 
 from ._compat import _bytes_or_unicode, PY3_OR_LATER
@@ -38,6 +40,10 @@ def _sorted_if_total(elements, key=lambda e: e):
     raise TypeError('there is no total order for these elements')
 
 
+# Immutable values, that cannot be told from their copies
+_VALUES = (tuple, Number, datetime.date, datetime.time, datetime.timedelta)
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -113,6 +119,11 @@ class Hasher(Pickler):
             # the order of the items matters
             obj = (obj.__class__, list(obj.items()), getattr(obj, '__dict__', None))
         Pickler.save(self, obj)
+        if isinstance(obj, _VALUES) and id(obj) in self.memo:
+            # Saved again, it must not become a reference to this one (see
+            # memoize). The memo must still grow, as references are numbered.
+            memoized = self.memo.pop(id(obj))
+            self.memo['saved', memoized[0]] = memoized
 
     def memoize(self, obj):
         # We want hashing to be sensitive to value instead of reference.
-- 
2.43.0


From 1721cf4ee9b47f26b117c2dd76f8815c1f1c7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:18 +0000
Subject: [PATCH 53/58] fix: numpy and pandas are optional, so ids must not
 need them (C29)

---
 whatami/misc.py    |  5 +++++
 whatami/plugins.py | 12 ++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 1b406c2..0dc8fc7 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -778,6 +778,11 @@ def maybe_import(library_name, install_msg=None, *variants):
     return object.__getattribute__(lie, 'module')
 
 
+def is_imported(module):
+    """Returns False iff the module, as returned by `maybe_import`, could not be imported."""
+    return type(module) is not _LazyImportError  # N.B. isinstance would access the module
+
+
 def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None, *variants):
     """
     Tries to obtain a member from a class, with all the goodies of `maybe_import`
diff --git a/whatami/plugins.py b/whatami/plugins.py
index c3756e8..c4f44f0 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -12,7 +12,7 @@ from functools import partial
 
 from whatami import getargspec, is_whatable
 
-from whatami.misc import maybe_import
+from whatami.misc import maybe_import, is_imported
 
 from .what import What, whatareyou, is_whatable_class
 from .misc import callable2call, config_dict_for_object, curry2partial
@@ -204,7 +204,7 @@ np = maybe_import('numpy', 'conda')
 
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return is_imported(np)
 
 
 pd = maybe_import('pandas', 'conda')
@@ -212,26 +212,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return is_imported(pd)
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, (np.random.RandomState, getattr(np.random, 'Generator', np.random.RandomState))):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From 9e7a99bc392e05a806f85ca594c2341a9d06e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:43 +0000
Subject: [PATCH 54/58] fix: threads cannot share parsers, which hold the state
 of the parse (C30)

---
 whatami/parsers.py   | 17 +++++++++++++++--
 whatami/whatutils.py |  4 ++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 742d954..c0897fd 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,8 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+import threading
+
 from future.utils import string_types
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
@@ -262,7 +264,18 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return children[0]
 
 
-DEFAULT_WHATAMI_PARSER = build_whatami_parser()
+class PerThreadParser(threading.local):
+    """A parser for each thread, as they hold the state of the parse and so cannot be shared."""
+
+    def __init__(self, build):
+        super(PerThreadParser, self).__init__()
+        self.parser = build()
+
+    def __getattr__(self, name):
+        return getattr(self.parser, name)
+
+
+DEFAULT_WHATAMI_PARSER = PerThreadParser(build_whatami_parser)
 DEFAULT_WHATAMI_VISITOR = WhatamiTreeVisitor()
 
 
@@ -309,7 +322,7 @@ def parse_whatid(id_string, parser=None, visitor=None):
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-        DEFAULT_WHATAMI_PARSER = build_whatami_parser()
+        DEFAULT_WHATAMI_PARSER = PerThreadParser(build_whatami_parser)
         raise
 
 # --- Maintenance for old whatami id strings
diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8b90287..d06ce09 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -15,7 +15,7 @@ from operator import itemgetter
 from arpeggio import NoMatch
 
 from whatami import (config_dict_for_object,
-                     parse_whatid, build_oldwhatami_parser,
+                     parse_whatid, build_oldwhatami_parser, PerThreadParser,
                      whatareyou, What, is_whatable, maybe_import)
 from .what import is_whatable_class
 
@@ -467,7 +467,7 @@ def oldid2what(oldwhatid):
     """
     global OLD_WHATID_PARSER
     if OLD_WHATID_PARSER is None:
-        OLD_WHATID_PARSER = build_oldwhatami_parser()
+        OLD_WHATID_PARSER = PerThreadParser(build_oldwhatami_parser)
     out = None
     if oldwhatid.startswith('out='):
         out, _, oldwhatid = oldwhatid.partition('#')
-- 
2.43.0


From a8c25a32d519625b7cda98686e1e8e6fd4fe619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:10 +0000
Subject: [PATCH 55/58] fix: arguments bound by position to builtins and
 classes are refused, not dropped (C12)

---
 whatami/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index 0dc8fc7..911472a 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -335,6 +335,9 @@ def callable2call(c, closure_extractor=None):
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
+            if len(positional) > 0:
+                raise ValueError('Cannot tell which parameters of %s are bound by position, '
+                                 'please bind them by name' % c.__name__)
             return c.__name__, keywords
         raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % c)
     return callable2call_recursive(c)
-- 
2.43.0


From 2aeec20cfd06319d9a6ab259f9b12c39ba0edd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 56/58] fix: what2id asks only methods for ids, and tells of
 failures (C26)

---
 whatami/whatutils.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index d06ce09..acd9d2c 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -70,15 +70,22 @@ def what2id(obj):
         return None
     if isinstance(obj, string_types):
         return obj
-    if is_whatable_class(obj):
-        return whatareyou(obj).id()
-    try:
-        return obj.what().id()
-    except AttributeError:
+
+    def has_method(name):
+        # N.B. attributes can be called like these, and methods of classes need an instance
+        method = getattr(obj, name, None)
+        return callable(method) and (inspect.ismethod(method) or not inspect.isclass(obj))
+
+    if has_method('what'):
         try:
-            return obj.id()
+            build_id = obj.what().id
         except AttributeError:
-            return whatareyou(obj).id()
+            pass  # not a configuration
+        else:
+            return build_id()  # N.B. the errors building the id must be known
+    if has_method('id'):
+        return obj.id()
+    return whatareyou(obj).id()
 
 
 # An alias for whatami.parse_whatid
-- 
2.43.0


From 21bff14a649c23c05a741534668b112c1b25f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:45 +0000
Subject: [PATCH 57/58] fix: ids with lone surrogates can be shortened too
 (C06)

---
 whatami/what.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 3c77965..b98ce67 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -303,10 +303,10 @@ class What(object):
     def _trim_too_long(string, maxlength=0):
         """Returns the string or its sha1 if the string length is larger than maxlength."""
         if 0 < maxlength < len(string):
-            try:
-                return hashlib.sha1(string.encode('utf-8')).hexdigest()
-            except UnicodeError:  # pragma: no cover
-                return hashlib.sha1(string.decode('utf-8').encode('utf-8')).hexdigest()
+            if not isinstance(string, bytes):
+                # lone surrogates (e.g. from file names that cannot be decoded) are just other characters
+                string = string.encode('utf-8', 'surrogatepass')
+            return hashlib.sha1(string).hexdigest()
         return string
 
     # --- ID to dictionary
-- 
2.43.0


From 8a895a565e620a3366b6ba05004b8c6af0496c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:18 +0000
Subject: [PATCH 58/58] fix: records that postprocessors add meanwhile are not
 replaced (C15)

---
 whatami/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/registry.py b/whatami/registry.py
index dfc6cf5..1a31198 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -655,6 +655,10 @@ class Recorder(with_metaclass(_RecorderMeta)):
                 record = function(an_id, record, self)
             # Add record to registry
             records[an_id] = record
+        # Postprocessors can have added records by themselves
+        for an_id in records:
+            if an_id in self._registry:
+                raise Exception('"%s" is already in the registry' % an_id)
         # All correct, commit
         self._registry.update(records)
         return records
-- 
2.43.0

