From 784b563151334c99fecb698c34263822f76dd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/32] fix: load dictionary keys with the handler of their own
 type

On the first load of a Dict the handler found for the value type was assigned
to the variable holding the handler of the key type.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..e903d24 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From 631798b1e00533c4e908baaf67a1d44d799b872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 02/32] fix: do not pass subclasses of basic types through in
 containers

List[int] accepted True as it is, also with basiccast=False, while int and
Tuple[int, int] require or convert to the exact type.
---
 typedload/dataloader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e903d24..62d7cf3 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -406,8 +406,8 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     # Try fast load
     try:
         return {
-            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \
-            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \
+            k if key_type_basic and type(k) == key_type else key_f(l, k, key_type): \
+            v if value_type_basic and type(v) == value_type else value_f(l, v, value_type) \
             for k, v in value.items()
         }
     except Exception:
@@ -928,7 +928,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     try:
         ctr = count(1)
         if t in l.basictypes:
-            return function((i if isinstance(i, t) else f(l, i, t) for i in compress(value, ctr)))
+            return function((i if type(i) == t else f(l, i, t) for i in compress(value, ctr)))
         elif is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
             return function((i if type(i) in types else f(l, i, t) for i in compress(value, ctr)))
         else:
-- 
2.43.0


From 30808bdf2775adec36bc0d629bf9345f19a14f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/32] fix: check the kind of text of re.Pattern and wrap all
 compile errors

Pattern[str] accepted bytes because the builtin type was inspected instead of
the annotation. re.compile() can also raise OverflowError and ValueError.
---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 62d7cf3..5c9d771 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -820,7 +820,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
@@ -830,6 +830,8 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except (ValueError, OverflowError, RecursionError) as e:
+        raise TypedloadValueError(str(e), value=value, type_=type_)
 
 
 def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
-- 
2.43.0


From bf565ffa421e84a7272e38ceae27c27d1701a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/32] fix: raise TypedloadTypeError when a value without
 length is loaded as a tuple

---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 5c9d771..d756775 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -434,9 +434,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
-    if l.failonextra and len(value) > len(args):
+    try:
+        length = len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
+    if l.failonextra and length > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
-    elif len(value) < len(args):
+    elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
     ctr = count(1)  # Keep track of the position in the tuple
-- 
2.43.0


From 4262f3e7a12c3e99da22c6cfb731c80ff5b2ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 05/32] fix: wrap the errors of dates and timedeltas out of
 range

The ValueError or OverflowError raised for NaN or too large values was not
a TypedloadException.
---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index d756775..6198c14 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -819,7 +819,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
             return type_(*value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
-    except ValueError as e:
+    except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
 
 
@@ -843,6 +843,8 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except (ValueError, OverflowError) as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From fc14955f53e3ef86309d43d9db26960208d4e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 06/32] fix: report extra fields that are not strings

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6198c14..74d2fa1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -572,7 +572,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(str(i) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From aec9591fddee132319e7536d3963d835e0e780a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/32] fix: do not crash when the field that tells the members
 of a union apart is not hashable

---
 typedload/dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 74d2fa1..261e52d 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -706,7 +706,10 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError: # Value of the field is not hashable
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
-- 
2.43.0


From 6b05aade34c2452c9dba0d22814d7582be19e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/32] fix: only list typedload exceptions when an enum can
 not be loaded

When the value could be loaded into the annotated type but was not one of the
members, a plain ValueError was listed in the exceptions and str() crashed.
---
 typedload/dataloader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 261e52d..f24a58c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -788,8 +788,16 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
     for _, t in get_type_hints(type_).items():
         try:
             return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+        except TypedloadException as e:
             exceptions.append(e)
+        except Exception as e:
+            # The value could be loaded but the enum does not have it
+            exceptions.append(TypedloadValueError(
+                str(e),
+                trace=[TraceItem(value, t, Annotation(AnnotationType.UNION, t))],
+                value=value,
+                type_=t,
+            ))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % repr(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From d0ceeb149b19b9ae1ddf88438ac970208a4bb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 09/32] fix: make the types found inside other types known to
 forward references

Only the type passed to load() was recorded, so List[Node] failed when Node
refers to itself, unless Node had been loaded directly before.
It is also recorded before the handler gets cached, as another thread might
use the handler and need to resolve the reference straight away.
---
 typedload/dataloader.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index f24a58c..4ebd201 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -257,6 +257,9 @@ class Loader:
                     raise
                 match = False
             if match:
+                # Add type to known types, to resolve ForwardRef later on
+                if self.frefs is not None and hasattr(type_, '__name__') and not hasattr(type_, '__origin__'):
+                    self.frefs.setdefault(type_.__name__, type_)
                 return i
         raise ValueError('No matching condition found')
 
@@ -289,12 +292,6 @@ class Loader:
 
             func = self._indexcache[type_] = self.handlers[index][1]
 
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
-- 
2.43.0


From 7a0f8e4b4aeea841b7c57391e6ae07ca2ec7e316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 10/32] fix: do not alter the annotations of the TypedDict
 being loaded

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 4ebd201..73bb0a5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -632,7 +632,7 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        type_hints = dict(type_.__annotations__)
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
-- 
2.43.0


From 1c15ece1a6165f6deea16e9f9d168947288d3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 11/32] fix: dump dataclasses that use forward references

The hints were looked up on the instance, where even references to classes
defined in the same module can not be resolved.
---
 typedload/datadumper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..f7c0b93 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -268,7 +268,12 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        try:
+            type_hints = get_type_hints(t)
+        except NameError:
+            # There are forward references that can not be resolved.
+            # The hints only enable faster code paths
+            type_hints = {}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From bf4b028a79801d798124a61d86ff7fa98e6b49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 12/32] fix: dump attrs fields whose default factory takes self

---
 typedload/datadumper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index f7c0b93..ae77537 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -214,8 +214,10 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
-                continue
+            elif hasattr(attr.default, 'factory'):
+                default = attr.default
+                if attrval == (default.factory(value) if default.takes_self else default.factory()):
+                    continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
     return r
-- 
2.43.0


From 80230ac5dc9af17815fcc8de38891dcf0cf8da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 13/32] fix: load argparse.Namespace into classes with mangled
 names

---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 73bb0a5..77f2d87 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -517,6 +517,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
                     transforms[name] = pyname
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
+    value = _dictequivalence(l, value)
     try:
         value = _mangle_names(transforms, value, l.failonextra)
     except ValueError as e:
@@ -886,6 +887,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         if l.mangle_key in attribute.metadata:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
+    value = _dictequivalence(l, value)
     try:
         value = _mangle_names(namesmap, value, l.failonextra)
     except ValueError as e:
-- 
2.43.0


From fdfa70e63fd61983c79fa847c7280d43beb80016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 14/32] fix: load None when it is used as a type

list[None] and dict[str, None] were refused, while List[None] was not.
---
 typedload/typechecks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/typechecks.py b/typedload/typechecks.py
index 3bcc7ee..b8f8337 100644
--- a/typedload/typechecks.py
+++ b/typedload/typechecks.py
@@ -143,8 +143,10 @@ def is_optional(type_: Any) -> bool:
 def is_nonetype(type_: Any) -> bool:
     '''
     type_ == type(None)
+
+    None is accepted as well, since in annotations it stands for its type
     '''
-    return type_ == NONETYPE
+    return type_ is None or type_ == NONETYPE
 
 
 def _generic_type_check(type_: Any, native, from_typing) -> bool:
-- 
2.43.0


From cb7552afc250aff67da5d6218fa16f84a234ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 15/32] fix: do not pass to the constructor the fields that it
 does not take

Loading data that had the value of a dataclass or attrs field with init=False,
for example data that was dumped from the same class, failed.
ClassVar and InitVar are not fields: a ClassVar without value was required.
---
 typedload/dataloader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 77f2d87..91c2aaf 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -21,6 +21,7 @@ Module to load data into typed data structures
 # author Salvo "LtWorf" Tomaselli <tiposchi@tiscali.it>
 
 
+import dataclasses
 import datetime
 from enum import Enum
 import ipaddress
@@ -496,15 +497,16 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = set(type_.__dataclass_fields__.keys())
-        necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
-                            v.init == True and # Is a field for the constructor
-                            v.default == v.default_factory # Has no default or factory
+        # Only the fields for the constructor
+        initfields = {i.name: i for i in dataclasses.fields(type_) if i.init}
+        fields = set(initfields.keys())
+        necessary_fields = {k for k,v in initfields.items() if
+                            v.default is v.default_factory # Has no default or factory
                             }
         if l.pep563:
             type_hints = get_type_hints(type_)
         else:
-            type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}
+            type_hints = {k: v.type for k,v in initfields.items()}
 
         #Name mangling
 
@@ -874,7 +876,8 @@ def _get_attr_converter_type(c: "Callable"):
 def _attrload(l: Loader, value: Any, type_) -> Any:
     from attr._make import _Nothing as NOTHING
 
-    fields = {i.name for i in type_.__attrs_attrs__}
+    # Only the fields for the constructor
+    fields = {i.name for i in type_.__attrs_attrs__ if i.init}
     necessary_fields = set()
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
-- 
2.43.0


From 68a0da51e7e04d2b17cfb1cd4accae4dd8763fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 16/32] fix: do not dump ClassVar and InitVar as if they were
 fields of a dataclass

---
 typedload/datadumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index ae77537..ccc55b5 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -266,7 +266,8 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
+        from dataclasses import fields as dataclass_fields
+        fields = {i.name for i in dataclass_fields(value)}
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-- 
2.43.0


From d7b830eb98a534b63adbd539932ffb349a17176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 17/32] fix: wrap the error when the keys of a dictionary are
 not hashable

---
 typedload/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 91c2aaf..dc063d4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -416,8 +416,12 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         return {
             l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
             for k, v in value.items()}
+    except TypedloadException:
+        raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
+    except TypeError as e: # A key is not hashable
+        raise TypedloadTypeError(str(e), type_=type_, value=value)
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
-- 
2.43.0


From b6f7f69fc376f1ec8b3b5777157a125e3ad04104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 18/32] fix: use custom handlers of basic types also inside
 containers

The values that already had the type were passed through by list, set, tuple
and dict without calling the handler.
---
 typedload/dataloader.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index dc063d4..2f85dc7 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -368,10 +368,6 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     """
     key_type, value_type = type_.__args__
 
-
-    key_type_basic = key_type in l.basictypes
-    value_type_basic = value_type in l.basictypes
-
     key_handler = l._indexcache.get(key_type)
     if key_handler is not None:
         key_f = key_handler
@@ -401,6 +397,10 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
 
     value = _dictequivalence(l, value)
 
+    # Values of basic types do not need the handler, unless it is a custom one
+    key_type_basic = key_type in l.basictypes and key_f is _basicload
+    value_type_basic = value_type in l.basictypes and value_f is _basicload
+
     # Try fast load
     try:
         return {
@@ -448,7 +448,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     ctr = count(1)  # Keep track of the position in the tuple
 
     try:
-        return tuple(v if t in l.basictypes and type(v) == t else h(l, v, t)
+        return tuple(v if h is _basicload and type(v) == t else h(l, v, t)
             for v, h, t in zip(
                 compress(value, ctr),
                 (l._indexcache.get(t) or l.handlers[l.index(t)][1] for t in args),
@@ -952,9 +952,9 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     # load calling the handler directly, skipping load()
     try:
         ctr = count(1)
-        if t in l.basictypes:
+        if t in l.basictypes and f is _basicload:
             return function((i if type(i) == t else f(l, i, t) for i in compress(value, ctr)))
-        elif is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
+        elif f is _unionload and is_union(t) and (types := set(uniontypes(t))).issubset(l.basictypes):
             return function((i if type(i) in types else f(l, i, t) for i in compress(value, ctr)))
         else:
             return function(map(f, repeat(l), compress(value, ctr), repeat(t)))
-- 
2.43.0


From ce629cb0a88ea543561cd67ff2a5bf61724fcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 19/32] fix: do not show None in the path of the exceptions of
 a NewType

---
 typedload/exceptions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index a485bcb..48cc635 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -107,10 +107,12 @@ class TypedloadException(Exception):
         Compact representation of where in the data the exception happened
         '''
         path = []
-        for i in trace:
+        for n, i in enumerate(trace):
             if i.annotation:
                 path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
-            else:
+            elif n == 0:
+                # Only the first item is the root, the others without
+                # annotation (NewType) are not a step in the data
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
             return '.'
-- 
2.43.0


From fd772de4f37b97b06e922a23e63c8c2996e9eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 20/32] fix: raise the proper exception for tuples that can not
 be dumped

---
 typedload/datadumper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index ccc55b5..a01edbb 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -175,7 +175,7 @@ class Dumper:
                 match = False
             if match:
                 return i
-        raise TypedloadValueError('Unable to dump %s' % value, value=value, type_=type(value))
+        raise TypedloadValueError('Unable to dump %s' % (value,), value=value, type_=type(value))
 
     def dump(self, value: Any, annotated_type=Any) -> Any:
         """
-- 
2.43.0


From 2292135c95085507e980bc4205b3964d9215bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 21/32] fix: load attrs fields whose constructor parameter has
 another name

attrs strips the underscores of private attributes, so their classes could be
dumped but not loaded.
---
 typedload/dataloader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 2f85dc7..ec66425 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -550,9 +550,12 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     return value
 
 
-def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_) -> Any:
+def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, aliases: Optional[Dict[str, str]] = None) -> Any:
     '''
     Helper function to load dict-like data into an object.
+
+    aliases are the names of the constructor parameters, when they
+    are not the same as the names of the fields.
     '''
     try:
         vfields = set(value.keys())
@@ -609,6 +612,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
             annotation=Annotation(AnnotationType.FIELD, k)
             e.trace.insert(0, TraceItem(value, type_, annotation))
             raise e
+    if aliases:
+        params = {aliases[k]: v for k, v in params.items()}
     try:
         return type_(**params)
     except TypeError as e:
@@ -902,7 +907,10 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
-    return _objloader(l, fields, necessary_fields, type_hints, value, type_)
+    # The parameters of the constructor might have another name (e.g. private attributes)
+    aliases = {i.name: getattr(i, 'alias', None) or i.name for i in type_.__attrs_attrs__}
+
+    return _objloader(l, fields, necessary_fields, type_hints, value, type_, aliases)
 
 
 def _strconstructload(l: Loader, value, type_):
-- 
2.43.0


From 00e541ab2baa59f8c6e1924c31c2c2087a8c3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 22/32] fix: load argparse.Namespace having attributes named as
 methods of dict

---
 typedload/dataloader.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index ec66425..47b123b 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -557,16 +557,11 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     aliases are the names of the constructor parameters, when they
     are not the same as the names of the fields.
     '''
+    value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
     except AttributeError as e:
-        newvalue = _dictequivalence(l, value)
-
-        if newvalue is value:
-            raise TypedloadAttributeError(str(e), value=value, type_=type_)
-        else:
-            value = newvalue
-            vfields = set(value.keys())
+        raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -717,7 +712,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         if discriminatorscache[1]:
             try:
                 preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
-            except TypeError: # Value of the field is not hashable
+            except TypeError: # Value of the field is not hashable, or get is not a method
                 preferredtype = None
             if preferredtype:
                 # Place best value on top
-- 
2.43.0


From a7f2c8f9e4075e77fd08c1a9e8412cd5eb6c52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 23/32] fix: refuse to dump classes instead of failing on their
 fields

---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index a01edbb..d08e2b7 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -142,11 +142,11 @@ class Dumper:
         self.handlers = [
             (lambda value: type(value) in self.basictypes, _identitydump),
             (lambda value: isinstance(value, tuple) and hasattr(value, '_fields') and hasattr(value, '_asdict'), _namedtupledump),
-            (lambda value: '__dataclass_fields__' in dir(value), _dataclassdump),
+            (lambda value: not isinstance(value, type) and '__dataclass_fields__' in dir(value), _dataclassdump),
             (lambda value: isinstance(value, (list, tuple, set, frozenset)), _iteratordump),
             (lambda value: isinstance(value, Enum), lambda l, value, t: l.dump(value.value)),
             (lambda value: isinstance(value, Dict), lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),
-            (is_attrs, _attrdump),
+            (lambda value: not isinstance(value, type) and is_attrs(value), _attrdump),
             (lambda value: isinstance(value, (datetime.date, datetime.time)), _datetimedump),
             (lambda value: isinstance(value, datetime.timedelta), _timedeltadump),
             (lambda value: isinstance(value, re.Pattern), _patterndump),
-- 
2.43.0


From eb6c0f1c3868a7af44dc5ab50d1ec4e6f99a189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 24/32] fix: raise TypedloadTypeError when keys or values of a
 Dict have an unsupported type

It is what load() promises and what happens for all the other types.
---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 47b123b..ce2d571 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -375,7 +375,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         try:
             key_f = l._indexcache[key_type] = l.handlers[l.index(key_type)][1]
         except ValueError:
-            raise TypedloadValueError(
+            raise TypedloadTypeError(
                 'Cannot deal with value of type %s (key of %s)' % (tname(key_type), tname(type_)),
                 value=value,
                 type_=key_type
@@ -389,7 +389,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         try:
             value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
-            raise TypedloadValueError(
+            raise TypedloadTypeError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
                 value=value,
                 type_=value_type
-- 
2.43.0


From a623d7824db425e126b412e650829b2ba4954310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 25/32] fix: do not load again the values of a Dict to find
 which one failed

---
 typedload/dataloader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index ce2d571..3f0fe64 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -25,7 +25,7 @@ import dataclasses
 import datetime
 from enum import Enum
 import ipaddress
-from itertools import compress, count, repeat
+from itertools import compress, count, islice, repeat
 from functools import reduce
 from pathlib import Path
 import re
@@ -403,11 +403,19 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
 
     # Try fast load
     try:
+        ctr = count(1)
         return {
             k if key_type_basic and type(k) == key_type else key_f(l, k, key_type): \
             v if value_type_basic and type(v) == value_type else value_f(l, v, value_type) \
-            for k, v in value.items()
+            for k, v in compress(value.items(), ctr)
         }
+    except TypedloadException as e:
+        # Find which item failed. Values are not loaded again, they might
+        # be iterators that are already consumed
+        k, v = next(islice(value.items(), next(ctr) - 2, None))
+        l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k))
+        e.trace.insert(0, TraceItem(v, value_type, Annotation(AnnotationType.VALUE, v)))
+        raise e
     except Exception:
         # Failed, do the slow method with exception tracking
         pass
-- 
2.43.0


From 30fd858e08c05297b0dfbdc718bfcf230ab5f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 26/32] fix: load subclasses of NamedTuple classes

---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 3f0fe64..3926e00 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -630,9 +630,13 @@ def _namedtupleload(l: Loader, value: Any, type_) -> Any:
     This loads a Dict[str, Any] into a NamedTuple.
     """
     if l.pep563:
-        type_hints = get_type_hints(type_)
+        annotations = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        # The class might be a subclass of the actual NamedTuple
+        annotations = {}
+        for i in reversed(type_.__mro__):
+            annotations.update(getattr(i, '__annotations__', {}))
+    type_hints = {k: v for k, v in annotations.items() if k in type_._fields}
     fields = set(type_hints.keys())
     optional_fields = set(getattr(type_, '_field_defaults', {}).keys())
     necessary_fields = fields.difference(optional_fields)
-- 
2.43.0


From dc9bb3b7130d04196d36d04bcc75833d6f3c59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 27/32] fix: show the whole path of the alternatives of nested
 unions

---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index 48cc635..a99c455 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -128,9 +128,9 @@ class TypedloadException(Exception):
         msg = spaces + 'Exceptions:\n'
         for i in self.exceptions:
             msg += i._firstline(indent + 1) + '\n'
-            msg += spaces + '  ' 'Path: ' + self._path(self.trace + i.trace[1:]) + '\n'
+            msg += spaces + '  ' 'Path: ' + self._path(trace + i.trace[1:]) + '\n'
             if i.exceptions:
-                msg += i._subexceptions(indent + 1, self.trace + i.trace[1:])
+                msg += i._subexceptions(indent + 1, trace + i.trace[1:])
         return msg
 
     def _firstline(self, indent: int) -> str:
-- 
2.43.0


From 817507b5fbfa0b5c91a86d2a615139f82dcd4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 28/32] fix: honour an empty mangled name when loading
 dataclasses, as attrs and dump do

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 3926e00..bd7b5d1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -527,7 +527,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         for pyname in fields:
             if type_.__dataclass_fields__[pyname].metadata:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
-                if name:
+                if name is not None:
                     transforms[name] = pyname
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
-- 
2.43.0


From f8d41439f980c6cb42ac9a28bab8f9e6319598b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 29/32] fix: refuse what has keys or items that are not
 methods, and classes, given for an object

---
 typedload/dataloader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index bd7b5d1..5b06a30 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -396,6 +396,10 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
             )
 
     value = _dictequivalence(l, value)
+    try:
+        value.items()
+    except (AttributeError, TypeError) as e: # TypeError if items is not a method
+        raise TypedloadAttributeError(str(e), type_=type_, value=value)
 
     # Values of basic types do not need the handler, unless it is a custom one
     key_type_basic = key_type in l.basictypes and key_f is _basicload
@@ -536,7 +540,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         value = _mangle_names(transforms, value, l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
@@ -552,6 +556,10 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
 
     in all other cases this simply returns value.
     '''
+    if isinstance(value, type):
+        # The class itself is not like a dict
+        return value
+
     # Convert argparse.Namespace to dictionary
     if l.dictequivalence and hasattr(value, '_get_kwargs'):
         return {k: v for k,v in value._get_kwargs()}
@@ -568,7 +576,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
-    except AttributeError as e:
+        value.items()
+    except (AttributeError, TypeError) as e: # TypeError if they are not methods
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
@@ -911,7 +920,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         value = _mangle_names(namesmap, value, l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     # The parameters of the constructor might have another name (e.g. private attributes)
-- 
2.43.0


From 2abbf566b69f73e2b6b05de193ae252ffe2bb063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:47 +0000
Subject: [PATCH 30/32] fix: dump attrs objects whose default value has an
 attribute called factory

---
 typedload/datadumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index d08e2b7..ea91447 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -206,6 +206,7 @@ class Dumper:
 
 
 def _attrdump(d, value, t) -> Dict[str, Any]:
+    from attr import Factory
     r = {}
     for attr in value.__attrs_attrs__:
         attrval = getattr(value, attr.name)
@@ -214,7 +215,7 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory'):
+            elif isinstance(attr.default, Factory):  # type: ignore
                 default = attr.default
                 if attrval == (default.factory(value) if default.takes_self else default.factory()):
                     continue
-- 
2.43.0


From 61c57fa2bd9ea5c1a1da719d1ce1e8e04ca2b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:55 +0000
Subject: [PATCH 31/32] fix: do not share the literals of unions that only
 differ by the order of the types

---
 typedload/dataloader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 5b06a30..d9c05c9 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -241,7 +241,7 @@ class Loader:
 
         self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str]]]
 
-        self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        self._unionload_discriminatorcache = {}  # type: Dict[Tuple[Type, ...], Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
     def index(self, type_: Type[T]) -> int:
         """
@@ -708,7 +708,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     if hasattr(value, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
-        discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        # The key is args because unions that only differ by the order are equal
+        discriminatorscache = l._unionload_discriminatorcache.get(args)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
         # First time generate the deep inspection for literal
         if discriminatorscache is None:
@@ -726,7 +727,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 discriminatorscache = key, cachedict
             else:
                 discriminatorscache = None, None
-            l._unionload_discriminatorcache[type_] = discriminatorscache
+            l._unionload_discriminatorcache[args] = discriminatorscache
 
         # Cache is created, use it
         # It's a tuple key, {value: type}
-- 
2.43.0


From 95944e1c091ee1bfb2c6d39ca342f2372fd3c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:39 +0000
Subject: [PATCH 32/32] fix: load attrs classes whose converter is not a plain
 function

---
 typedload/dataloader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index d9c05c9..aa56088 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -891,7 +891,15 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
+    import attr
+    if isinstance(c, getattr(attr, 'Converter', ())):
+        # The function is contained
+        c = c.converter
+    try:
+        hints = get_type_hints(c)
+    except TypeError:
+        # Not a function, and it has no annotations
+        return Any
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-- 
2.43.0

