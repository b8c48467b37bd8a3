From 023cf4bbfc3dbb1100835c1c31943498f26f8b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 01/52] fix: keep views and proxies of dict subclasses on the
 same mapping

Being a dict, the helper used to reach the mapping behind a view or a
mapping proxy was merged by __or__ of OrderedDict and other subclasses
of dict, so their views were stored as views of a copy (of type dict for
most subclasses), and a mapping which holds a view of itself could not
be stored at all.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..fd9641c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -932,7 +932,7 @@ class _attrgetter_helper(object):
             attrs[index] = ".".join([attrs[index], attr])
         return type(self)(attrs, index)
 
-class _dictproxy_helper(dict):
+class _dictproxy_helper: # not a dict, or subclasses of dict would copy in __or__
    def __ror__(self, a):
         return a
 
-- 
2.43.0


From d56d1639401e261c65aae738d719afe42db47215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 02/52] fix: do not recurse endlessly in globalvars

Functions which refer to each other through their globals, or to
themselves through a closure, made globalvars, and so dump with
recurse=True, raise RecursionError.
---
 dill/detect.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..d4cfa36 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -169,8 +169,15 @@ def globalvars(func, recurse=True, builtin=False):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
+    return _globalvars(func, recurse, builtin, set())
+
+def _globalvars(func, recurse, builtin, seen):
+    # seen holds the ids of the functions already visited, as functions may
+    # refer to each other (or to themselves) through globals and closures
     if ismethod(func): func = func.__func__
     if isfunction(func):
+        if id(func) in seen: return {}
+        seen.add(id(func))
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
         orig_func, func = func, set()
@@ -180,8 +187,8 @@ def globalvars(func, recurse=True, builtin=False):
             except ValueError: # cell is empty
                 pass
             else:
-                _vars = globalvars(cell_contents, recurse, builtin) or {}
-                func.update(_vars) #XXX: (above) be wary of infinte recursion?
+                _vars = _globalvars(cell_contents, recurse, builtin, seen) or {}
+                func.update(_vars)
                 globs.update(_vars)
         # get globals
         globs.update(orig_func.__globals__ or {})
@@ -196,7 +203,7 @@ def globalvars(func, recurse=True, builtin=False):
                 if nested_func is orig_func:
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(_globalvars(nested_func, True, builtin, seen))
     elif iscode(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
@@ -211,7 +218,7 @@ def globalvars(func, recurse=True, builtin=False):
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
                 nested_func = globs.get(key)
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(_globalvars(nested_func, True, builtin, seen))
     else:
         return {}
     #NOTE: if name not in __globals__, then we skip it...
-- 
2.43.0


From c8897935befdffa4fc700d45670a263750d339b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 03/52] fix: find globals without printing to the shared
 sys.stdout

nestedglobals replaced sys.stdout while it parsed the printed output of
dis, so that two threads storing functions with recurse=True lost globals
or output to each other; it also missed the globals which the body of a
nested class refers to, and took names from the text of string constants.
---
 dill/detect.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index d4cfa36..d6c50d2 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -140,25 +140,18 @@ def nestedglobals(func, recurse=True):
     """get the names of any globals found within func"""
     func = code(func)
     if func is None: return list()
-    import sys
-    from .temp import capture
-    CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    with capture('stdout') as out:
-        try:
-            dis.dis(func) #XXX: dis.dis(None) disassembles last traceback
-        except IndexError:
-            pass #FIXME: HACK for IS_PYPY (3.11)
-    for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line:
-            name = line.split('(')[-1].split(')')[0]
-            if CAN_NULL:
-                names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-            else:
-                names.add(name)
+    try:
+        for ins in dis.get_instructions(func):
+            # the body of a class uses LOAD_NAME for globals
+            if '_GLOBAL' in ins.opname or ins.opname == 'LOAD_NAME':
+                names.add(ins.argval)
+    except IndexError:
+        pass #FIXME: HACK for IS_PYPY (3.11)
+    # code of nested functions is included, whether or not recurse is set
     for co in getattr(func, 'co_consts', tuple()):
-        if co and recurse and iscode(co):
-            names.update(nestedglobals(co, recurse=True))
+        if iscode(co):
+            names.update(nestedglobals(co, recurse=recurse))
     return list(names)
 
 def referredglobals(func, recurse=True, builtin=False):
-- 
2.43.0


From 35fe772c2c07625a668754b72de23c43997b43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 04/52] fix: keep a function's changed __qualname__ and removed
 __doc__

Since Python 3.11 a new function gets the qualified name of its code, so
functions under functools.wraps loaded with that of the wrapper; and one
whose __doc__ was set to None got the docstring of its code back.
---
 dill/_dill.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index fd9641c..62a67d9 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2031,7 +2031,12 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
-        if obj.__qualname__ != obj.__name__:
+        # a new function gets the docstring of its code
+        if obj.__doc__ is None and type(next(iter(obj.__code__.co_consts), None)) is str:
+            state_dict['__doc__'] = None
+        # a new function gets the qualified name of its code (python >= 3.11)
+        co_qualname = getattr(obj.__code__, 'co_qualname', obj.__name__)
+        if not (obj.__qualname__ == obj.__name__ == co_qualname):
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
             state_dict['__module__'] = obj.__module__
-- 
2.43.0


From 5ca0e065eae3d98367f29dce4c27136fc37ac8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 05/52] fix: keep class attributes that are also attributes of
 a base class

A class holds only its own attributes in __dict__; dropping those that are the
same object as the base's loses e.g. '__hash__ = object.__hash__', after which
a class that defines __eq__ loads as unhashable.
---
 dill/_dill.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 62a67d9..9065abe 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1759,24 +1759,7 @@ def save_module(pickler, obj):
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
 # License: https://github.com/cloudpipe/cloudpickle/blob/master/LICENSE
 def _get_typedict_type(cls, clsdict, attrs, postproc_list):
-    """Retrieve a copy of the dict of a class without the inherited methods"""
-    if len(cls.__bases__) == 1:
-        inherited_dict = cls.__bases__[0].__dict__
-    else:
-        inherited_dict = {}
-        for base in reversed(cls.__bases__):
-            inherited_dict.update(base.__dict__)
-    to_remove = []
-    for name, value in dict.items(clsdict):
-        try:
-            base_value = inherited_dict[name]
-            if value is base_value and hasattr(value, '__qualname__'):
-                to_remove.append(name)
-        except KeyError:
-            pass
-    for name in to_remove:
-        dict.pop(clsdict, name)
-
+    """Retrieve a copy of the dict of a class without what every class gets anew"""
     if issubclass(type(cls), type):
         clsdict.pop('__dict__', None)
         clsdict.pop('__weakref__', None)
-- 
2.43.0


From 7eabb0a30b4e77893736ce3b61ce15ced8870c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 06/52] fix: pickle classes with private names in __slots__

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 9065abe..a4ff5af 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1857,6 +1857,8 @@ def save_type(pickler, obj, postproc_list=None):
                 slots = (slots,)
 
             for name in slots:
+                if name.startswith('__') and not name.endswith('__') and obj.__name__.strip('_'):
+                    name = '_' + obj.__name__.lstrip('_') + name # private slot
                 _dict.pop(name, None)
 
             if isinstance(obj, abc.ABCMeta):
-- 
2.43.0


From 30a8652741acccf1589df3c53ba021b093ac9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 07/52] fix: keep the bases of a class that inherits
 __orig_bases__

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index a4ff5af..0adbda1 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1874,7 +1874,7 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__'):
+            if '__orig_bases__' not in obj.__dict__: # may be inherited
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From 824d360bd562734d06500ea55dcb40ad1b8294d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 08/52] fix: rebuild a namedtuple with renamed fields, and not
 as an unrelated object of that name

---
 dill/_dill.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 0adbda1..42357ae 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -995,10 +995,11 @@ def _create_dtypemeta(scalar_type):
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     class_ = _import_module(modulename + '.' + name, safe=True)
-    if class_ is not None:
+    if getattr(class_, '_fields', None) == tuple(fieldnames): # else only the name is the same
         return class_
     import collections
-    t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
+    # rename=True, as a field that was renamed has a name like '_1'
+    t = collections.namedtuple(name, fieldnames, rename=True, defaults=defaults, module=modulename)
     return t
 
 def _create_capsule(pointer, name, context, destructor):
-- 
2.43.0


From e3934f47b4b5e82b001197cb8aedb8c578e36689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 09/52] fix: keep methods, annotations and docstring of a
 typing.NamedTuple

---
 dill/_dill.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 42357ae..fc922a6 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1002,6 +1002,12 @@ def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     t = collections.namedtuple(name, fieldnames, rename=True, defaults=defaults, module=modulename)
     return t
 
+def _complete_namedtuple(class_, attrs):
+    name = class_.__module__ + '.' + class_.__name__
+    if _import_module(name, safe=True) is not class_: # i.e. it was created
+        for k, v in attrs.items():
+            setattr(class_, k, v)
+
 def _create_capsule(pointer, name, context, destructor):
     attr_found = False
     try:
@@ -1806,6 +1812,17 @@ def save_type(pickler, obj, postproc_list=None):
                 postproc_list = []
             postproc_list.append((setattr, (obj, '__qualname__', obj_name)))
 
+        # e.g. the methods and annotations of a typing.NamedTuple
+        import collections
+        plain = collections.namedtuple(obj.__name__, obj._fields, rename=True).__dict__
+        attrs = {k: v for k, v in obj.__dict__.items() if k not in plain
+            or getattr(v, '__code__', None) != getattr(plain[k], '__code__', None)
+            or k == '__doc__' and v != plain[k]}
+        if attrs and not _locate_function(obj, pickler):
+            if postproc_list is None:
+                postproc_list = []
+            postproc_list.append((_complete_namedtuple, (obj, attrs)))
+
         if not obj._field_defaults:
             _save_with_postproc(pickler, (_create_namedtuple, (obj.__name__, obj._fields, obj.__module__)), obj=obj, postproc_list=postproc_list)
         else:
-- 
2.43.0


From 744097044bdc2d0894619e463ca0775a2cf8a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 10/52] fix: fill cells that hold the object itself before what
 needs them is loaded

E.g. methods of a metaclass that use super() are called when a class among the
globals of its methods is loaded.
---
 dill/_dill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index fc922a6..3efb66e 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1146,6 +1146,9 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
         # print(pickler.x*' ', 'pop', obj, id(obj))
         postproc = pickler._postproc.pop(id(obj))
         # assert postproc_list == postproc, 'Stack tampered!'
+        # Fill the cells that hold the object itself first (last in the list),
+        # as unpickling what the rest refers to may need them (e.g. super()).
+        postproc.sort(key=lambda r: r[0] is _shims._setattr and r[1][2] is obj)
         for reduction in reversed(postproc):
             if reduction[0] is _setitems:
                 # use the internal machinery of pickle.py to speedup when
-- 
2.43.0


From 680a932583f7052292ae198b0d6fa783d6b23bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 11/52] fix: lift the update of closure cells (#458) again

The postponed update uses _shims._setattr, which never equals setattr.
---
 dill/_dill.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 3efb66e..f607290 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2064,10 +2064,12 @@ def save_function(pickler, obj):
             topmost_postproc = next(iter(_postproc.values()), None)
             if closure and topmost_postproc:
                 for cell in closure:
-                    possible_postproc = (setattr, (cell, 'cell_contents', obj))
-                    try:
-                        topmost_postproc.remove(possible_postproc)
-                    except ValueError:
+                    # compare identities, as the contents may be anything
+                    for i, (func, args) in enumerate(topmost_postproc):
+                        if func is _shims._setattr and args[0] is cell and args[2] is obj:
+                            possible_postproc = topmost_postproc.pop(i)
+                            break
+                    else:
                         continue
 
                     # Change the value of the cell
-- 
2.43.0


From af29ff8068f7dbbdcd6bb1095964158e498fb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 12/52] fix: keep the namedtuple type that is compared with
 alive

The mapping proxy of a type does not keep the type itself alive, and the
garbage collection of the type empties it.
---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index f607290..d013a40 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1817,7 +1817,8 @@ def save_type(pickler, obj, postproc_list=None):
 
         # e.g. the methods and annotations of a typing.NamedTuple
         import collections
-        plain = collections.namedtuple(obj.__name__, obj._fields, rename=True).__dict__
+        plaintype = collections.namedtuple(obj.__name__, obj._fields, rename=True)
+        plain = plaintype.__dict__ # emptied when the type is collected
         attrs = {k: v for k, v in obj.__dict__.items() if k not in plain
             or getattr(v, '__code__', None) != getattr(plain[k], '__code__', None)
             or k == '__doc__' and v != plain[k]}
-- 
2.43.0


From 6404bbb22293146da74247a9b582b22631cd8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 13/52] fix: with recurse, store only the globals a function
 refers to itself

The functions it refers to come with globals of their own, if they have to
be stored at all: the globals of functions found by importing them, and
objects that only share their name with one of these, do not belong into
the pickle.
---
 dill/_dill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d013a40..2453d02 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1997,8 +1997,11 @@ def save_function(pickler, obj):
         postproc_list = []
         if _recurse:
             # recurse to get all globals referred to by obj
-            from .detect import globalvars
+            from .detect import globalvars, nestedglobals
             globs_copy = globalvars(obj, recurse=True, builtin=True)
+            # the functions that obj refers to have globals of their own
+            names = set(nestedglobals(obj))
+            globs_copy = {k: v for k, v in globs_copy.items() if k in names}
 
             # Add the name of the module to the globs dictionary to prevent
             # the duplication of the dictionary. Pickle the unpopulated
-- 
2.43.0


From 7457276a6e6079f36939c5c9b777c2958ec60eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 14/52] fix: with recurse, do not mistake globals of other
 modules for those of the function

A function in a closure may come from another module: its globals are not
what the names in the enclosing function refer to.
---
 dill/_dill.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2453d02..bdc9cca 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1996,12 +1996,12 @@ def save_function(pickler, obj):
         _original_main = getattr(pickler, '_original_main', __builtin__)#'None'
         postproc_list = []
         if _recurse:
-            # recurse to get all globals referred to by obj
-            from .detect import globalvars, nestedglobals
-            globs_copy = globalvars(obj, recurse=True, builtin=True)
-            # the functions that obj refers to have globals of their own
-            names = set(nestedglobals(obj))
-            globs_copy = {k: v for k, v in globs_copy.items() if k in names}
+            # get all globals referred to by obj (the functions that obj refers
+            # to are stored with globals of their own, if at all)
+            from .detect import nestedglobals
+            globs = vars(__builtin__).copy()
+            globs.update(obj.__globals__ or {})
+            globs_copy = {name: globs[name] for name in nestedglobals(obj) if name in globs}
 
             # Add the name of the module to the globs dictionary to prevent
             # the duplication of the dictionary. Pickle the unpopulated
-- 
2.43.0


From a9252735627f1dca226fb7e20882ca248a0a73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 15/52] fix: find modules that are hidden by a class of the
 same name in their package

A class such as unittest.main (unittest.main.TestProgram) was taken for
the module, so that the module was loaded as this class and the objects
of the module were stored by value.
---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index bdc9cca..c9f1689 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1070,6 +1070,8 @@ def _import_module(import_name, safe=False):
             module = '.'.join(items[:-1])
             obj = items[-1]
             submodule = getattr(__import__(module, None, None, [obj]), obj)
+            if isinstance(submodule, type): # may hide the module of that name
+                submodule = sys.modules.get(import_name, submodule)
             if isinstance(submodule, (ModuleType, type)):
                 return submodule
             return __import__(import_name, None, None, [obj])
-- 
2.43.0


From 3f8ee9eb5e8a5a0546416dfab4f7e256b5be1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 16/52] fix: keep the size of the cache of a cached cached
 function

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index c9f1689..e9bb36b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1502,7 +1502,8 @@ if LRUCacheType is not None:
             args = (kwargs.maxsize,)
         else:
             kwargs = obj.cache_parameters()
-            args = (kwargs['maxsize'], kwargs['typed'])
+            # cache_parameters is that of the wrapped one if a cached is cached
+            args = (obj.cache_info().maxsize, kwargs['typed'])
         if args != lru_cache.__defaults__:
             wrapper = Reduce(lru_cache, args, is_callable=True)
         else:
-- 
2.43.0


From aef7adb699f79e1be5313bb4a38efd68de11c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 17/52] fix: find the referent of a weak proxy whatever its
 str() gives

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index e9bb36b..802b1b0 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1646,6 +1646,10 @@ def save_singleton(pickler, obj):
 def _proxy_helper(obj): # a dead proxy returns a reference to None
     """get memory address of proxy's reference object"""
     _repr = repr(obj)
+    if not IS_PYPY and type(obj) in (ProxyType, CallableProxyType):
+        # str(obj) is defined by the type of the reference object
+        try: return int(_repr.rstrip('>').split(' at ')[-1], base=16)
+        except ValueError: return id(None) # it's dead
     try: _str = str(obj)
     except ReferenceError: # it's a dead proxy
         return id(None)
-- 
2.43.0


From 43e464b40f4b6551d367406f092be67ec6b15731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:19 +0000
Subject: [PATCH 18/52] fix: do not lock the copy of a re-entrant lock that is
 free

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 802b1b0..131eaf3 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -819,7 +819,7 @@ def _create_lock(locked, *args): #XXX: ignores 'blocking'
 
 def _create_rlock(count, owner, *args): #XXX: ignores 'blocking'
     lock = RLockType()
-    if owner is not None:
+    if owner: # else it's unlocked, and _acquire_restore would lock it
         lock._acquire_restore((count, owner))
     if owner and not lock._is_owned():
         raise UnpicklingError("Cannot acquire lock")
-- 
2.43.0


From 2e0fe0229cb0fdb0f8b00b9d19c91f13e7d694fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 19/52] fix: store the state of a NumPy array after the array,
 so that the array may refer to itself

---
 dill/_dill.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 131eaf3..976d70c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -412,7 +412,8 @@ class Pickler(StockPickler):
                     logger.trace(pickler, "Nu: (%s, %s)", obj.shape, obj.dtype)
                     npdict = getattr(obj, '__dict__', None)
                     f, args, state = obj.__reduce__()
-                    pickler.save_reduce(_create_array, (f,args,state,npdict), obj=obj)
+                    # the state follows the array, as it may refer to the array
+                    pickler.save_reduce(f, args, (state,npdict), obj=obj, state_setter=_set_array_state)
                     logger.trace(pickler, "# Nu")
                     return
         # end numpy hack
@@ -987,6 +988,12 @@ def _create_array(f, args, state, npdict=None):
         array.__dict__.update(npdict)
     return array
 
+def _set_array_state(array, state):
+    state, npdict = state
+    array.__setstate__(state)
+    if npdict is not None: # we also have saved state in __dict__
+        array.__dict__.update(npdict)
+
 def _create_dtypemeta(scalar_type):
     if NumpyDType is True: __hook__() # a bit hacky I think
     if scalar_type is None:
-- 
2.43.0


From 08237f7c9bbd36dab0ab6810737066d7b3d491de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 20/52] fix: honour reducers registered with copyreg for a
 metaclass

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 976d70c..2141772 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -42,6 +42,7 @@ from .logger import adapter as logger
 from .logger import trace as _trace
 log = logger # backward compatibility (see issue #582)
 
+import copyreg
 import os
 import sys
 diff = None
@@ -329,7 +330,7 @@ class MetaCatchingDict(dict):
             return default
 
     def __missing__(self, key):
-        if issubclass(key, type):
+        if issubclass(key, type) and key not in copyreg.dispatch_table:
             return save_type
         else:
             raise KeyError()
-- 
2.43.0


From c37bcb063732699855d2111e7da89d489126e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:39 +0000
Subject: [PATCH 21/52] fix: do not store the slot names that copyreg caches in
 a class

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2141772..c227784 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1788,6 +1788,7 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
     if issubclass(type(cls), type):
         clsdict.pop('__dict__', None)
         clsdict.pop('__weakref__', None)
+        clsdict.pop('__slotnames__', None) # cached by copyreg
         # clsdict.pop('__prepare__', None)
     return clsdict, attrs
 
-- 
2.43.0


From 514f4f5b3dc7167414abf467e3f8e53b4e45c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 22/52] fix: use the protocol of dill.settings for a Pickler
 created without one

---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index c227784..8fe2b94 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -364,7 +364,9 @@ class Pickler(StockPickler):
        #_strictio = kwds.pop('strictio', None)
         _fmode = kwds.pop('fmode', None)
         _recurse = kwds.pop('recurse', None)
-        StockPickler.__init__(self, file, *args, **kwds)
+        protocol = args[0] if args else kwds.pop('protocol', None)
+        if protocol is None: protocol = settings['protocol']
+        StockPickler.__init__(self, file, protocol, *args[1:], **kwds)
         self._main = _main_module
         self._diff_cache = {}
         self._byref = settings['byref'] if _byref is None else _byref
-- 
2.43.0


From ba87b43ed7b7527ce0c0cd0e8e3eba076e8c38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:19 +0000
Subject: [PATCH 23/52] fix: leave the warning filters alone in dill.pickles

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 8fe2b94..e669dbe 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2222,9 +2222,9 @@ def pickles(obj,exact=False,safe=False,**kwds):
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
         except (AttributeError, TypeError):
-            warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            with warnings.catch_warnings():
+                warnings.simplefilter('ignore') #FIXME: be specific
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
         if result: return True
-- 
2.43.0


From 22973f1ad6ccacba856f1037be697bf6285ef804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:52 +0000
Subject: [PATCH 24/52] fix: let the types decide in dill.pickles before
 anything is compared

---
 dill/_dill.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e669dbe..521bc47 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2217,7 +2217,10 @@ def pickles(obj,exact=False,safe=False,**kwds):
         exceptions = (TypeError, AssertionError, NotImplementedError, PicklingError, UnpicklingError)
     try:
         pik = copy(obj, **kwds)
-        #FIXME: should check types match first, then check content if "exact"
+        if not exact: # check if types match first
+            if type(pik) == type(obj): return True
+            # class instances might have been dumped with byref=False
+            if repr(type(pik)) == repr(type(obj)): return True #XXX: InstanceType?
         try:
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
@@ -2227,13 +2230,7 @@ def pickles(obj,exact=False,safe=False,**kwds):
                 result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
-        if result: return True
-        if not exact:
-            result = type(pik) == type(obj)
-            if result: return result
-            # class instances might have been dumped with byref=False
-            return repr(type(pik)) == repr(type(obj)) #XXX: InstanceType?
-        return False
+        return True if result else False
     except exceptions:
         return False
 
-- 
2.43.0


From ce0bd5f12df13f5222a7020682d54492ef1ddde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 25/52] fix: do not store the slot names that copyreg caches in
 a named tuple

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 521bc47..406cc76 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1840,6 +1840,7 @@ def save_type(pickler, obj, postproc_list=None):
         attrs = {k: v for k, v in obj.__dict__.items() if k not in plain
             or getattr(v, '__code__', None) != getattr(plain[k], '__code__', None)
             or k == '__doc__' and v != plain[k]}
+        attrs.pop('__slotnames__', None) # cached by copyreg
         if attrs and not _locate_function(obj, pickler):
             if postproc_list is None:
                 postproc_list = []
-- 
2.43.0


From 4277e5e09f3660b11e8be18bd27ee6fa1b11efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:41 +0000
Subject: [PATCH 26/52] fix: do not report an instance whose class was stored
 by value in detect.errors

---
 dill/detect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index d6c50d2..4889a3f 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -265,7 +265,9 @@ def errors(obj, depth=0, exact=False, safe=False):
             if exact:
                 assert pik == obj, \
                     "Unpickling produces %s instead of %s" % (pik,obj)
-            assert type(pik) == type(obj), \
+            # class instances might have been dumped with byref=False
+            assert type(pik) == type(obj) or \
+                   repr(type(pik)) == repr(type(obj)), \
                 "Unpickling produces %s instead of %s" % (type(pik),type(obj))
             return None
         except Exception:
-- 
2.43.0


From 72f1d8a792c68583f389c8e14287084f962163c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:03 +0000
Subject: [PATCH 27/52] fix: compare the items by identity in detect.baditems

---
 dill/detect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index 4889a3f..4ad4147 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -234,7 +234,8 @@ def baditems(obj, exact=False, safe=False): #XXX: obj=globals() ?
         return [j for j in (badobjects(obj,0,exact,safe),) if j is not None]
     obj = obj.values() if getattr(obj,'values',None) else obj
     _obj = [] # can't use a set, as items may be unhashable
-    [_obj.append(badobjects(i,0,exact,safe)) for i in obj if i not in _obj]
+    [_obj.append(badobjects(i,0,exact,safe)) for i in obj \
+           if not any(i is j for j in _obj)] # items may not be comparable
     return [j for j in _obj if j is not None]
 
 
-- 
2.43.0


From 4cc43d9a122ec1ef706682bb1df2eb4aab6bc53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 28/52] fix: drop the functions of the user too when the
 extension of pickle is reverted

---
 dill/_dill.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 406cc76..1dd2dcc 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -488,10 +488,15 @@ def register(t):
 def _revert_extension():
     """drop dill-registered types from pickle's dispatch table"""
     for type, func in list(StockPickler.dispatch.items()):
-        if func.__module__ == __name__:
+        # drop dill's own functions, and those registered with dill by the user
+        if getattr(func, '__module__', None) == __name__ \
+                or _extended.get(type) is func:
             del StockPickler.dispatch[type]
             if type in pickle_dispatch_copy:
                 StockPickler.dispatch[type] = pickle_dispatch_copy[type]
+    _extended.clear()
+
+_extended = {} # what _extend put in pickle's dispatch table
 
 def use_diff(on=True):
     """
@@ -2288,7 +2293,7 @@ def _extend():
     # need to have pickle not choke on _main_module?  use is_dill(pickler)
     for t,func in Pickler.dispatch.items():
         try:
-            StockPickler.dispatch[t] = func
+            StockPickler.dispatch[t] = _extended[t] = func
         except Exception: #TypeError, PicklingError, UnpicklingError
             logger.trace(pickler, "skip: %s", t)
     return
-- 
2.43.0


From 8369e959438c42a7f264c2ec45e5271f934dc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 29/52] fix: point an object to the class in main behind its
 __setattr__

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 1dd2dcc..92e642c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -458,7 +458,11 @@ class Unpickler(StockUnpickler):
         if type(obj).__module__ == getattr(_main_module, '__name__', '__main__'):
             if not self._ignore:
                 # point obj class to main
-                try: obj.__class__ = getattr(self._main, type(obj).__name__)
+                try:
+                    cls = getattr(self._main, type(obj).__name__)
+                    # not a state change, so not through a custom __setattr__
+                    base = type if isinstance(obj, type) else object
+                    base.__setattr__(obj, '__class__', cls)
                 except (AttributeError,TypeError): pass # defined in a file
        #_main_module.__dict__.update(obj.__dict__) #XXX: should update globals ?
         return obj
-- 
2.43.0


From 410ac9c1edbbd18de04d69868aaed37df15bfbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 30/52] fix: look up the class in main by its qualified name,
 nested classes were missed or mixed up

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 92e642c..ff20c34 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -459,7 +459,7 @@ class Unpickler(StockUnpickler):
             if not self._ignore:
                 # point obj class to main
                 try:
-                    cls = getattr(self._main, type(obj).__name__)
+                    cls, _ = _getattribute(self._main, type(obj).__qualname__)
                     # not a state change, so not through a custom __setattr__
                     base = type if isinstance(obj, type) else object
                     base.__setattr__(obj, '__class__', cls)
-- 
2.43.0


From d0c63d7c074453613d015bb07b58d641ab7ce2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 31/52] fix: functions of a saved module-type object keep using
 its namespace

---
 dill/_dill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index ff20c34..3b001cf 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2020,7 +2020,7 @@ def save_function(pickler, obj):
         logger.trace(pickler, "F1: %s", obj)
         _recurse = getattr(pickler, '_recurse', None)
         _postproc = getattr(pickler, '_postproc', None)
-        _main_modified = getattr(pickler, '_main_modified', None)
+        _session = getattr(pickler, '_session', None)
         _original_main = getattr(pickler, '_original_main', __builtin__)#'None'
         postproc_list = []
         if _recurse:
@@ -2041,7 +2041,7 @@ def save_function(pickler, obj):
 
             # If the globals is the __dict__ from the module being saved as a
             # session, substitute it by the dictionary being actually saved.
-            if _main_modified and globs_copy is _original_main.__dict__:
+            if _session and globs_copy is _original_main.__dict__:
                 globs_copy = getattr(pickler, '_main', _original_main).__dict__
                 globs = globs_copy
             # If the globals is a module __dict__, do not save it in the pickle.
-- 
2.43.0


From 9a4558c69b3c3417451bbe0fd298b4a32f83107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 32/52] fix: load_module_asdict no longer changes a live
 submodule (find the module by its name in sys.modules first)

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 3b001cf..d6ca3aa 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1088,9 +1088,9 @@ def _import_module(import_name, safe=False):
             items = import_name.split('.')
             module = '.'.join(items[:-1])
             obj = items[-1]
-            submodule = getattr(__import__(module, None, None, [obj]), obj)
-            if isinstance(submodule, type): # may hide the module of that name
-                submodule = sys.modules.get(import_name, submodule)
+            submodule = sys.modules.get(import_name) # may be hidden in module
+            if submodule is None:
+                submodule = getattr(__import__(module, None, None, [obj]), obj)
             if isinstance(submodule, (ModuleType, type)):
                 return submodule
             return __import__(import_name, None, None, [obj])
-- 
2.43.0


From 9c3709e2ffbdc005ec17dcb462f9ca2f39312091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:33 +0000
Subject: [PATCH 33/52] fix: sessions are found anywhere in the buffer of a
 stream

---
 dill/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index db556c8..495b372 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -352,7 +352,10 @@ def _make_peekable(stream):
     """return stream as an object with a peek() method"""
     import io
     if hasattr(stream, 'peek'):
-        return stream
+        # The chunk of a buffered stream may end anywhere, better read ahead.
+        seekable = getattr(stream, 'seekable', None)
+        if seekable is None or not seekable():
+            return stream
     if not (hasattr(stream, 'tell') and hasattr(stream, 'seek')):
         try:
             return io.BufferedReader(stream)
-- 
2.43.0


From 2f2b5433ab833276d4e3be52c3bda97f8e56018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:02 +0000
Subject: [PATCH 34/52] fix: load_module_asdict works for module-type objects,
 and its own errors are not hidden

---
 dill/session.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 495b372..c292cf2 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -642,21 +642,25 @@ def load_module_asdict(
         file = _make_peekable(file)
         main_name = _identify_module(file)
         old_main = sys.modules.get(main_name)
-        main = ModuleType(main_name)
-        if update:
-            if old_main is None:
-                old_main = _import_module(main_name)
-            main.__dict__.update(old_main.__dict__)
+        if main_name.startswith('__runtime__.'):
+            # A module-type object has no current state to start with.
+            main = load_module(file, **kwds)
         else:
-            main.__builtins__ = __builtin__
-        sys.modules[main_name] = main
-        load_module(file, **kwds)
+            main = ModuleType(main_name)
+            if update:
+                if old_main is None:
+                    old_main = _import_module(main_name)
+                main.__dict__.update(old_main.__dict__)
+            else:
+                main.__builtins__ = __builtin__
+            sys.modules[main_name] = main
+            load_module(file, **kwds)
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
         try:
             if old_main is None:
-                del sys.modules[main_name]
+                sys.modules.pop(main_name, None)
             else:
                 sys.modules[main_name] = old_main
         except NameError:  # failed before setting old_main
-- 
2.43.0


From 01ba49bfa2193bdb84fe613c7ecbf2497c07603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:53 +0000
Subject: [PATCH 35/52] fix: names of attributes are no globals in
 globalvars(recurse=False)

---
 dill/detect.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 4ad4147..e414140 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -135,19 +135,24 @@ def freevars(func):
 
     return dict(get_cell_contents())
 
-# thanks to Davies Liu for recursion of globals
-def nestedglobals(func, recurse=True):
-    """get the names of any globals found within func"""
-    func = code(func)
-    if func is None: return list()
+def _globalnames(co):
+    # the names of globals in the code, without those in nested code
     names = set()
     try:
-        for ins in dis.get_instructions(func):
+        for ins in dis.get_instructions(co):
             # the body of a class uses LOAD_NAME for globals
             if '_GLOBAL' in ins.opname or ins.opname == 'LOAD_NAME':
                 names.add(ins.argval)
     except IndexError:
         pass #FIXME: HACK for IS_PYPY (3.11)
+    return names
+
+# thanks to Davies Liu for recursion of globals
+def nestedglobals(func, recurse=True):
+    """get the names of any globals found within func"""
+    func = code(func)
+    if func is None: return list()
+    names = _globalnames(func)
     # code of nested functions is included, whether or not recurse is set
     for co in getattr(func, 'co_consts', tuple()):
         if iscode(co):
@@ -187,7 +192,7 @@ def _globalvars(func, recurse, builtin, seen):
         globs.update(orig_func.__globals__ or {})
         # get names of references
         if not recurse:
-            func.update(orig_func.__code__.co_names)
+            func.update(_globalnames(orig_func.__code__))
         else:
             func.update(nestedglobals(orig_func.__code__))
             # find globals for all entries of func
@@ -201,7 +206,7 @@ def _globalvars(func, recurse, builtin, seen):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
         if not recurse:
-            func = func.co_names # get names
+            func = _globalnames(func) # get names
         else:
             orig_func = func.co_name # to stop infinite recursion
             func = set(nestedglobals(func))
-- 
2.43.0


From 6c7bdaa8f92460be6ed9029fd8cb59b4463ed8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:27 +0000
Subject: [PATCH 36/52] fix: globalvars no longer mixes up names of different
 modules

---
 dill/detect.py | 87 ++++++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 49 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index e414140..95e8252 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -167,60 +167,49 @@ def globalvars(func, recurse=True, builtin=False):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
-    return _globalvars(func, recurse, builtin, set())
-
-def _globalvars(func, recurse, builtin, seen):
-    # seen holds the ids of the functions already visited, as functions may
-    # refer to each other (or to themselves) through globals and closures
     if ismethod(func): func = func.__func__
-    if isfunction(func):
-        if id(func) in seen: return {}
-        seen.add(id(func))
-        globs = vars(getmodule(sum)).copy() if builtin else {}
-        # get references from within closure
-        orig_func, func = func, set()
-        for obj in orig_func.__closure__ or {}:
+    if iscode(func):
+        # there is nothing but the builtins to get references from
+        globs = vars(getmodule(sum)) if builtin else {}
+        names = nestedglobals(func) if recurse else _globalnames(func)
+        return dict((name,globs[name]) for name in names if name in globs)
+    if not isfunction(func):
+        return {}
+    builtins = vars(getmodule(sum)) if builtin else {}
+    # the function, those it refers to from within its closure (and so on),
+    # and last those found under the name of a global (and so on). Functions
+    # may refer to each other (or to themselves) through globals and closures
+    funcs = [func]
+    def visit(obj):
+        if ismethod(obj): obj = obj.__func__
+        if isfunction(obj) and not any(obj is f for f in funcs):
+            funcs.append(obj)
+    def visit_closure(func):
+        for cell in func.__closure__ or ():
             try:
-                cell_contents = obj.cell_contents
+                visit(cell.cell_contents)
             except ValueError: # cell is empty
                 pass
-            else:
-                _vars = _globalvars(cell_contents, recurse, builtin, seen) or {}
-                func.update(_vars)
-                globs.update(_vars)
-        # get globals
-        globs.update(orig_func.__globals__ or {})
+    for f in funcs:
+        visit_closure(f)
+    namespaces = [f.__globals__ for f in funcs]
+    _vars = {}
+    for f in funcs:
+        globs = f.__globals__
         # get names of references
-        if not recurse:
-            func.update(_globalnames(orig_func.__code__))
-        else:
-            func.update(nestedglobals(orig_func.__code__))
-            # find globals for all entries of func
-            for key in func.copy(): #XXX: unnecessary...?
-                nested_func = globs.get(key)
-                if nested_func is orig_func:
-                   #func.remove(key) if key in func else None
-                    continue  #XXX: globalvars(func, False)?
-                func.update(_globalvars(nested_func, True, builtin, seen))
-    elif iscode(func):
-        globs = vars(getmodule(sum)).copy() if builtin else {}
-       #globs.update(globals())
-        if not recurse:
-            func = _globalnames(func) # get names
-        else:
-            orig_func = func.co_name # to stop infinite recursion
-            func = set(nestedglobals(func))
-            # find globals for all entries of func
-            for key in func.copy(): #XXX: unnecessary...?
-                if key is orig_func:
-                   #func.remove(key) if key in func else None
-                    continue  #XXX: globalvars(func, False)?
-                nested_func = globs.get(key)
-                func.update(_globalvars(nested_func, True, builtin, seen))
-    else:
-        return {}
-    #NOTE: if name not in __globals__, then we skip it...
-    return dict((name,globs[name]) for name in func if name in globs)
+        names = nestedglobals(f.__code__) if recurse else _globalnames(f.__code__)
+        for name in names:
+            if name in globs: obj = globs[name]
+            elif name in builtins: obj = builtins[name]
+            else: continue #NOTE: if name not in __globals__, then we skip it...
+            # skip the names of another namespace
+            if any(globs is ns for ns in namespaces) or \
+                    (name in func.__globals__ and func.__globals__[name] is obj):
+                _vars.setdefault(name, obj)
+            # find globals for all entries of names
+            if recurse: visit(obj)
+        visit_closure(f)
+    return _vars
 
 
 def varnames(func):
-- 
2.43.0


From b01b72dd240579c3297279283e590e803175d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:32 +0000
Subject: [PATCH 37/52] fix: sizes in traces have the right unit

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..d35968a 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -204,7 +204,7 @@ class TraceFormatter(logging.Formatter):
             # Show object size in human-readable form.
             power = int(math.log(record.size, 2)) // 10
             size = record.size >> power*10
-            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power] + "i" if power else "")
+            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power-1] + "i" if power else "")
         vars(record).update(fields)
         return super().format(record)
 
-- 
2.43.0


From cb336c649708469bf0274b1bf8d8a0a6e9e4aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:52 +0000
Subject: [PATCH 38/52] fix: tracing works for streams without positions

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index d35968a..c4b02f8 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -151,7 +151,7 @@ class TraceAdapter(logging.LoggerAdapter):
             except AttributeError:
                 # PyPy may use a BytesBuilder as frame
                 size += len(frame)
-        except (AttributeError, TypeError):
+        except (AttributeError, TypeError, OSError):
             pass
         if size is not None:
             if not pushed_obj:
-- 
2.43.0


From ba47826282ba1e6e52b3f9723bc72fe0c67d6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:13 +0000
Subject: [PATCH 39/52] fix: trace context managers restore handlers and level
 also when nested

---
 dill/logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index c4b02f8..a2b47bf 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -271,15 +271,18 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            # an outer redirection (or the user) may have removed it already
+            self.has_stderr = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
-        self.old_level = adapter.getEffectiveLevel()
+        self.old_level = logger.level
         adapter.setLevel(logging.INFO)
         return adapter.info
     def __exit__(self, *exc_info):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.has_stderr:
+                adapter.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From 134663a6ef1d0ad18a44f2d355a0aa56569c873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:34 +0000
Subject: [PATCH 40/52] fix: dill.temp stores source with any characters, and
 loads it in binary mode

---
 dill/temp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..70ef7a8 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -41,8 +41,7 @@ def capture(stream='stdout'):
 
 
 def b(x): # deal with b'foo' versus 'foo'
-    import codecs
-    return codecs.latin_1_encode(x)[0]
+    return x.encode('utf-8')
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -60,7 +59,9 @@ def load_source(file, **kwds):
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8')
     source = open(fname, mode=mode, **kwds).read()
+    if isinstance(source, bytes): source = source.decode('utf-8')
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
-- 
2.43.0


From 60ae2de09cf1d80d3d583457d01286afc1972c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:47 +0000
Subject: [PATCH 41/52] fix: whats_changed names all attributes through which a
 change is reached in cycles

---
 dill/__diff.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index 6fa8dd5..26523a7 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -126,6 +126,17 @@ def release_gone():
      if src(obj) < 4] #XXX: correct for pypy?
 
 
+def forget_unchanged(seen, start):
+    """
+    Forgets the unchanged objects among those seen after the first ones, which
+    were found while looking at a changed object. As an object is taken to be
+    unchanged while it is looked at, they may refer to a changed one in a cycle.
+    """
+    for id_ in list(seen)[start:]:
+        if not any(seen[id_]):
+            del seen[id_]
+
+
 def whats_changed(obj, seen=None, simple=False, first=True):
     """
     Check an object against the memo. Returns a list in the form
@@ -162,8 +173,17 @@ def whats_changed(obj, seen=None, simple=False, first=True):
             raise RuntimeError("Object not memorised " + str(obj))
 
     seen[obj_id] = ({}, False)
+    start = len(seen)
 
-    chngd = whats_changed
+    if first:
+        def chngd(obj, seen, simple, first):
+            before = len(seen)
+            change = whats_changed(obj, seen, simple, first)
+            if change:
+                forget_unchanged(seen, before)
+            return change
+    else:
+        chngd = whats_changed
     id_ = id
 
     # compare attributes
@@ -198,6 +218,8 @@ def whats_changed(obj, seen=None, simple=False, first=True):
                 if id_(i) != j or chngd(i, seen, True, False):
                     seq_diff = True
                     break
+    if first and (changed or seq_diff):
+        forget_unchanged(seen, start)
     seen[obj_id] = changed, seq_diff
     if simple:
         return changed or seq_diff
-- 
2.43.0


From d2102593cfc505768544386ea739760dc85ce792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 42/52] fix: parents ignores the objects given to ignore

---
 dill/pointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index d27745f..17b96db 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -46,7 +46,7 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
     ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
     ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth)[::-1]
+    chain = find_chain(obj, predicate, edge_func, depth, ignore)[::-1]
     #XXX: should pop off obj... ?
     return chain
 
-- 
2.43.0


From 0d1f9d8c25df6af809cd109f825206e6f7d6b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:48 +0000
Subject: [PATCH 43/52] fix: no object is registered both as picklable and as
 not picklable

---
 dill/_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_objects.py b/dill/_objects.py
index 573fae8..d191352 100644
--- a/dill/_objects.py
+++ b/dill/_objects.py
@@ -443,7 +443,7 @@ x['TracebackType'] = _function2()[1] #(see: inspect.getouterframes,getframeinfo)
 # built-in types (CH 5)
 # string services (CH 7)
 x['StructType'] = struct.Struct('c')
-x['CallableIteratorType'] = _srepattern.finditer('')
+x['SREIteratorType'] = _srepattern.finditer('')
 x['SREMatchType'] = _srepattern.match('')
 x['SREScannerType'] = _srepattern.scanner('')
 x['StreamReader'] = codecs.StreamReader(_cstrI) #XXX: ... and etc
-- 
2.43.0


From 67fe43933a11d86d371fb2c5be9ccf9adf2b53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:10 +0000
Subject: [PATCH 44/52] fix: FILE_FMODE keeps the contents of binary files and
 line ends, and loads handles of mode x; loaded _pyio handles keep their type

---
 dill/_dill.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d6ca3aa..92c66c1 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -875,17 +875,14 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         # NOTE: has different fileno
         try:
             #FIXME: missing: *buffering*, encoding, softspace
-            if fmode == FILE_FMODE:
-                f = open(name, mode if "w" in mode else "w")
-                f.write(fdata)
-                if "w" not in mode:
-                    f.close()
-                    f = open(name, mode)
-            elif name == '<fdopen>': # file did not exist
+            if fmode == FILE_FMODE: # older versions stored text, not bytes
+                with open(name, "w" if isinstance(fdata, str) else "wb") as f:
+                    f.write(fdata)
+            if name == '<fdopen>': # file did not exist
                 import tempfile
                 f = tempfile.TemporaryFile(mode)
             # treat x mode as w mode
-            elif fmode == CONTENTS_FMODE \
+            elif fmode != HANDLE_FMODE \
                and ("w" in mode or "x" in mode):
                 # stop truncation when opening
                 flags = os.O_CREAT
@@ -893,7 +890,7 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
                     flags |= os.O_RDWR
                 else:
                     flags |= os.O_WRONLY
-                f = os.fdopen(os.open(name, flags), mode)
+                f = open(os.open(name, flags), mode)
                 # set name to the correct value
                 r = getattr(f, "buffer", f)
                 r = getattr(r, "raw", r)
@@ -1428,9 +1425,8 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "r")
-        fdata = f.read()
-        f.close()
+        with open_(obj.name, "rb") as f: # not decoded, the file may be binary
+            fdata = f.read()
     else:
         fdata = ""
     if is_dill(pickler, child=True):
-- 
2.43.0


From f0e06939339ce2beee449df91109c8044f9c9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:34 +0000
Subject: [PATCH 45/52] fix: loading a handle with CONTENTS_FMODE does not
 create an executable file

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 92c66c1..d829b22 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -890,7 +890,7 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
                     flags |= os.O_RDWR
                 else:
                     flags |= os.O_WRONLY
-                f = open(os.open(name, flags), mode)
+                f = open(os.open(name, flags, 0o666), mode)
                 # set name to the correct value
                 r = getattr(f, "buffer", f)
                 r = getattr(r, "raw", r)
-- 
2.43.0


From a8536b15121f334cf5e74bc0526de8e0ed7ae35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:22 +0000
Subject: [PATCH 46/52] fix: unbuffered files are restored unbuffered

---
 dill/_dill.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d829b22..f2749ff 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -880,7 +880,8 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
                     f.write(fdata)
             if name == '<fdopen>': # file did not exist
                 import tempfile
-                f = tempfile.TemporaryFile(mode)
+                buffering = 0 if open is FileType else -1
+                f = tempfile.TemporaryFile(mode, buffering)
             # treat x mode as w mode
             elif fmode != HANDLE_FMODE \
                and ("w" in mode or "x" in mode):
@@ -1441,7 +1442,13 @@ def _save_file(pickler, obj, open_):
     return
 
 
-@register(FileType) #XXX: in 3.x has buffer=0, needs different _create?
+@register(FileType)
+def save_file(pickler, obj):
+    logger.trace(pickler, "Fi: %s", obj)
+    f = _save_file(pickler, obj, FileType) # open would give a buffered file
+    logger.trace(pickler, "# Fi")
+    return f
+
 @register(BufferedReaderType)
 @register(BufferedWriterType)
 @register(TextWrapperType)
-- 
2.43.0


From 8fc8a48f73f4109dfefd79ae03d7e7413a6a9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:44 +0000
Subject: [PATCH 47/52] fix: load_types removes all names from dill.types

---
 dill/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/__init__.py b/dill/__init__.py
index 8c45188..ac687b6 100644
--- a/dill/__init__.py
+++ b/dill/__init__.py
@@ -81,7 +81,7 @@ def load_types(pickleable=True, unpickleable=True):
     del _objects
     # reset contents of types to 'empty'
     [types.__dict__.pop(obj) for obj in list(types.__dict__.keys()) \
-                             if obj.find('Type') != -1]
+                             if not obj.startswith('_')]
     # add corresponding types from objects to types
     reload(types)
 
-- 
2.43.0


From 922838f656dcdd28fc2de856ffd67f975b65df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 48/52] fix: a copy of a handle named by its descriptor does
 not close the original when it goes

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index f2749ff..e1f87a5 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -898,7 +898,8 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
                 r.name = name
                 assert f.name == name
             else:
-                f = open(name, mode)
+                # a copy of the descriptor is closed independently
+                f = open(os.dup(name) if isinstance(name, int) else name, mode)
         except (IOError, FileNotFoundError):
             err = sys.exc_info()[1]
             raise UnpicklingError(err)
-- 
2.43.0


From 979cfadccd746e17af665a9729e029ff4e873597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:56 +0000
Subject: [PATCH 49/52] fix: saving a module while other threads import modules

---
 dill/_dill.py   | 2 +-
 dill/session.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e1f87a5..d17022f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1746,7 +1746,7 @@ def _is_builtin_module(module):
     )
 
 def _is_imported_module(module):
-    return getattr(module, '__loader__', None) is not None or module in sys.modules.values()
+    return getattr(module, '__loader__', None) is not None or module in list(sys.modules.values())
 
 @register(ModuleType)
 def save_module(pickler, obj):
diff --git a/dill/session.py b/dill/session.py
index c292cf2..0b69abb 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -100,12 +100,12 @@ def _module_map():
         by_id=defaultdict(list),
         top_level={},
     )
-    for modname, module in sys.modules.items():
+    for modname, module in list(sys.modules.items()): # other threads may import
         if modname in ('__main__', '__mp_main__') or not isinstance(module, ModuleType):
             continue
         if '.' not in modname:
             modmap.top_level[id(module)] = modname
-        for objname, modobj in module.__dict__.items():
+        for objname, modobj in list(module.__dict__.items()):
             modmap.by_name[objname].append((modobj, modname))
             modmap.by_id[id(modobj)].append((modobj, objname, modname))
     return modmap
@@ -120,13 +120,13 @@ IMPORTED_AS_MODULES = tuple(re.compile(x) for x in IMPORTED_AS_MODULES)
 def _lookup_module(modmap, name, obj, main_module):
     """lookup name or id of obj if module is imported"""
     for modobj, modname in modmap.by_name[name]:
-        if modobj is obj and sys.modules[modname] is not main_module:
+        if modobj is obj and sys.modules.get(modname) is not main_module:
             return modname, name
     __module__ = getattr(obj, '__module__', None)
     if isinstance(obj, IMPORTED_AS_TYPES) or (__module__ is not None
             and any(regex.fullmatch(__module__) for regex in IMPORTED_AS_MODULES)):
         for modobj, objname, modname in modmap.by_id[id(obj)]:
-            if sys.modules[modname] is not main_module:
+            if sys.modules.get(modname) is not main_module:
                 return modname, objname
     return None, None
 
-- 
2.43.0


From 8f1aad9c0ef207df813c1cd7984c721e30ce4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:20 +0000
Subject: [PATCH 50/52] fix: storing functions does not touch the warning
 filters, that all threads share

---
 dill/_dill.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index d17022f..6845a07 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1195,6 +1195,27 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
 #    logger.trace(pickler, "# Co")
 #    return
 
+def _lnotab(code):
+    """get co_lnotab without the deprecated attribute (and its warning, that
+    can't be silenced without side effects on other threads)"""
+    lnotab = []
+    addr, line = 0, code.co_firstlineno
+    for start, _, lineno in code.co_lines():
+        if lineno is None or lineno == line:
+            continue
+        step, lines = start - addr, lineno - line
+        addr, line = start, lineno
+        lines = (lines + 2**31) % 2**32 - 2**31 # line numbers may overflow
+        while step > 255:
+            lnotab += (255, 0)
+            step -= 255
+        while not -128 <= lines <= 127:
+            part = 127 if lines > 0 else -128
+            lnotab += (step, part & 255)
+            step, lines = 0, lines - part
+        lnotab += (step, lines & 255)
+    return bytes(lnotab)
+
 # The following function is based on 'save_codeobject' from 'cloudpickle'
 # Copyright (c) 2012, Regents of the University of California.
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
@@ -1214,18 +1235,16 @@ def save_code(pickler, obj):
             obj.co_cellvars
         )
     elif hasattr(obj, "co_exceptiontable"): # python 3.11 (18 args)
-        with warnings.catch_warnings():
-            if not OLD312a7: # issue 597
-                warnings.filterwarnings('ignore', category=DeprecationWarning)
-            args = (                            # [not counted in args]
-                getattr(obj, 'co_lnotab', b''), # for < python 3.10; 3.15.0b1+
-                obj.co_argcount, obj.co_posonlyargcount,
-                obj.co_kwonlyargcount, obj.co_nlocals, obj.co_stacksize,
-                obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,
-                obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,
-                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,
-                obj.co_freevars, obj.co_cellvars
-            )
+        args = (
+            obj.co_lnotab if OLD312a7 else _lnotab(obj), # issue 597
+                                # for < python 3.10 [not counted in args]
+            obj.co_argcount, obj.co_posonlyargcount,
+            obj.co_kwonlyargcount, obj.co_nlocals, obj.co_stacksize,
+            obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,
+            obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,
+            obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,
+            obj.co_freevars, obj.co_cellvars
+        )
     elif hasattr(obj, "co_qualname"): # pypy 3.11 7.3.19+ (17 args)
         args = (
             obj.co_lnotab, obj.co_argcount, obj.co_posonlyargcount,
-- 
2.43.0


From 45624c8df40841df78797a150b1829ca9b68bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:49 +0000
Subject: [PATCH 51/52] fix: source of classes with decorators and of nested
 classes of the same name

---
 dill/source.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index b77d9fb..0529b72 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -102,6 +102,30 @@ def _matchlambda(func, line):
     return False
 
 
+def _findclass(cls, lines):
+    """get the starting line number of the class (or None, if not found)"""
+    import ast
+    if cls.__qualname__.rsplit('.',1)[-1] != cls.__name__: # was renamed
+        return None
+    try:
+        tree = ast.parse(''.join(lines))
+    except (SyntaxError, ValueError): # the history of an interpreter
+        return None
+    lnum = None # of the last definition with the same qualified name
+    stack = [(tree, '')]
+    while stack:
+        node, scope = stack.pop()
+        if isinstance(node, ast.ClassDef):
+            if scope + node.name == cls.__qualname__:
+                start = [i.lineno for i in node.decorator_list + [node]]
+                lnum = max(lnum or 0, min(start) - 1)
+            scope += node.name + '.'
+        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
+            scope += node.name + '.<locals>.'
+        stack.extend((child, scope) for child in ast.iter_child_nodes(node))
+    return lnum
+
+
 def findsource(object):
     """Return the entire source file and starting line number for an object.
     For interactively-defined objects, the 'file' is the interpreter's history.
@@ -234,6 +258,9 @@ def findsource(object):
             #XXX: we don't find how the instance was built
     except AttributeError: pass
     if isclass(object):
+        lnum = _findclass(object, lines)
+        if lnum is not None:
+            return lines, lnum
         name = object.__name__
         pat = re.compile(r'^(\s*)class\s*' + name + r'\b')
         # make some effort to find the best matching class definition:
-- 
2.43.0


From 8e3b9449232d07a020886a9e4cc3bca1df5b244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:11 +0000
Subject: [PATCH 52/52] fix: source of asynchronous functions

---
 dill/source.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 0529b72..9ec63d3 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -210,14 +210,14 @@ def findsource(object):
     if ismethod(object):
         name = object.__name__
         if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s))'
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__func__
     if isfunction(object):
         name = object.__name__
         if name == '<lambda>':
             pat1 = r'(.*(?<!\w)lambda(:|\s))'
             obj = object #XXX: better a copy?
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__code__
     if istraceback(object):
         object = object.tb_frame
@@ -229,10 +229,10 @@ def findsource(object):
         stdin = object.co_filename == '<stdin>'
         if stdin:
             lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
-            if not pat1: pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            if not pat1: pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         else:
             lnum = object.co_firstlineno - 1
-            pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
         while lnum > 0: #XXX: won't find decorators in <stdin> ?
@@ -309,7 +309,7 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
         if lstrip: block = _outdent(block)
         return ([block], [lnum]) if locate is True else [block]
 
-    pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
+    pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
     pat2 = r'^(\s*@)'; pat2 = re.compile(pat2)
    #pat3 = r'^(\s*class\s)'; pat3 = re.compile(pat3) #XXX: enclosing class?
     #FIXME: bound methods need enclosing class (and then instantiation)
@@ -448,7 +448,7 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
                 if not line.startswith('@'): break
                 skip += 1
             #XXX: use regex from findsource / getsourcelines ?
-            if lines[skip].lstrip().startswith('def '): # we have a function
+            if lines[skip].lstrip().startswith(('def ','async ')): # we have a function
                 if alias != object.__name__:
                     lines.append('\n%s = %s\n' % (alias, object.__name__))
             elif 'lambda ' in lines[skip]: # we have a lambda
-- 
2.43.0

