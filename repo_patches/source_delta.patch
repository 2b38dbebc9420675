From ef7b9ff39afc4bcceada28bd0bf365bca26f9afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 01/79] fix: compose property types from the selected mix-in,
 not the last one looked at

---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..8522f3a 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From ee6a59a223c035c9db13893ed3d41062fc853f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 02/79] fix: initialize properties whose selected type does not
 derive from the called one

---
 normalize/property/meta.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 8522f3a..f45dd4e 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -264,3 +264,13 @@ class MetaProperty(type):
             for kwarg in duckwargs:
                 DUCKWARGS[kwarg].add((traits, self))
         return self
+
+    def __call__(cls, *args, **kwargs):
+        """Construct a property.  ``__new__`` selects the type by its traits;
+        that type need not derive from the one called, in which case python
+        does not call its initializer.
+        """
+        prop = super(MetaProperty, cls).__call__(*args, **kwargs)
+        if not isinstance(prop, cls):
+            prop.__init__(*args, **kwargs)
+        return prop
-- 
2.43.0


From e46fc7f6f578494c82b0d19071f0f13c90e1dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 03/79] fix: compose property types from declared types only,
 so that earlier declarations don't matter

---
 normalize/property/meta.py | 85 ++++++++++++++------------------------
 1 file changed, 30 insertions(+), 55 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f45dd4e..f158be6 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -142,9 +142,12 @@ def create_property_type_from_traits(trait_set):
     the composition order will be the same every time.
     """
     wanted_traits = set(trait_set)
+    # only mix declared types together: re-using those composed earlier makes
+    # the result depend on what was declared before, and can combine them into
+    # contradictory base class orders.
     stock_types = dict(
         (k, v) for k, v in list(PROPERTY_TYPES.items()) if
-        set(k).issubset(wanted_traits)
+        set(k).issubset(wanted_traits) and '__composed__' not in v.__dict__
     )
 
     traits_available = set()
@@ -158,62 +161,34 @@ def create_property_type_from_traits(trait_set):
             missing=repr(tuple(sorted(missing_traits))),
         )
 
-    made_types = []
-    # mix together property types, until we have made the right type.
-    while trait_set not in PROPERTY_TYPES:
-
-        # be somewhat deterministic: always start with types which provide the
-        # 'first' trait on the list
-        start_with = set(
-            k for k in list(stock_types.keys()) if k and k[0] == trait_set[0]
+    # mix together property types, until we have the right traits; each time
+    # pick the type to join on which reduces the short-fall as much as possible
+    # (and be deterministic; the first in trait order if there are several)
+    bases = []
+    shortfall = wanted_traits
+    while shortfall:
+        mix_in = max(
+            sorted(stock_types.keys()), key=lambda k: len(shortfall & set(k))
         )
-
-        # prefer extending already composed trait sets, by only adding to the
-        # longest ones
-        longest = max(len(x) for x in start_with)
-        made_type = False
-
-        for base in sorted(start_with):
-            if len(base) != longest:
-                continue
-
-            # pick a type to join on which reduces the short-fall as much as
-            # possible.
-            shortfall = len(wanted_traits) - len(base)
-            mix_in = None
-            for other in sorted(stock_types.keys()):
-                # skip mixes that will fail; this means that the type on the
-                # list is a trait subset of 'base'
-                mixed_traits = tuple(sorted(set(base) | set(other)))
-                if mixed_traits in PROPERTY_TYPES:
-                    continue
-
-                this_shortfall = len(wanted_traits - (set(base) | set(other)))
-                if this_shortfall < shortfall:
-                    mix_in = other
-                    mixed_in_product = mixed_traits
-                    shortfall = this_shortfall
-                    if shortfall == 0:
-                        break
-
-            if mix_in:
-                base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[mix_in]
-                new_name = _merge_camel_case_names(
-                    base_type.__name__, other_type.__name__,
-                )
-                new_type = type(new_name, (base_type, other_type), {})
-                stock_types[mixed_in_product] = new_type
-                made_types.append(new_type)
-                made_type = True
-
-        if not made_type:
-            raise exc.PropertyTypeMixinFailure(
-                traitlist=repr(trait_set),
-                newtypelist=", ".join(
-                    "%r (%s)" % (x.traits, x.__name__) for x in made_types
-                )
+        bases.append(stock_types[mix_in])
+        shortfall = shortfall - set(mix_in)
+
+    # types which supply default arguments have to be initialized before those
+    # which take the arguments.
+    bases.sort(key=lambda x: not getattr(x, 'default_kwargs', None))
+
+    new_name = bases[0].__name__
+    for base_type in bases[1:]:
+        new_name = _merge_camel_case_names(new_name, base_type.__name__)
+    try:
+        type(new_name, tuple(bases), {'__composed__': True})
+    except TypeError:
+        raise exc.PropertyTypeMixinFailure(
+            traitlist=repr(trait_set),
+            newtypelist=", ".join(
+                "%r (%s)" % (x.traits, x.__name__) for x in bases
             )
+        )
 
 
 class MetaProperty(type):
-- 
2.43.0


From 04bb2d02a7b5b88af3b04fc156c454b7141e756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 04/79] fix: identify empty collections by their (empty)
 contents, not by the unhashable collection

---
 normalize/identity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..8d2f0ba 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,7 +85,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
-            val_pk = ()
+            val_pk = None
             set_elements = 0
             for value_type in value_type_list:
                 if issubclass(value_type, normalize.record.Record):
@@ -93,11 +93,12 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                                    selector[prop.name] if selector else None,
                                    normalize_object_slot)
                     pk_elements = len([x for x in pk if x is not None])
-                    if not val_pk or pk_elements > set_elements:
+                    if val_pk is None or pk_elements > set_elements:
                         val_pk = pk
                         set_elements = pk_elements
 
-            val_pk = val_pk or val
+            if val_pk is None:
+                val_pk = val
             try:
                 val_pk.__hash__()
             except TypeError:
-- 
2.43.0


From 8ae8b5c80a3229cce41b07d04fae2a431fbeca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 05/79] fix: identify a value of a type union by the types it
 is an instance of

---
 normalize/identity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index 8d2f0ba..bc20aa2 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -85,6 +85,10 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
+            if isinstance(val, prop.valuetype):
+                value_type_list = tuple(
+                    x for x in value_type_list if isinstance(val, x)
+                )
             val_pk = None
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From 7441b205b27761abc42602769076ad0efa926061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 06/79] fix: repr() of JSON dict collections

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..2d89f0a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -497,7 +497,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From 06e90d8e0d771dcb71d27e68f75747855fa59b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 07/79] fix: ListCollection.insert() inserts the item itself

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..efad13b 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = [x]
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From 7b5fc314475077a35824b77b633522e2c696bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 08/79] fix: ListCollection.pop() with an index before the
 start is an IndexError

---
 normalize/coll.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index efad13b..b0c4b17 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -378,10 +378,6 @@ class ListCollection(KeyedCollection):
         self[i:i] = [x]
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From 0c4283868ba592cf1897ac7f217684f7bbc02477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 09/79] fix: ListCollection.index() stops at the end of the
 list

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index b0c4b17..21b0189 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -365,7 +365,7 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
-        for k in range(i, j):
+        for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
         raise ValueError("%r is not in list" % x)
-- 
2.43.0


From 3d1c30c6fd3252054270cd853a5348003f0b220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 10/79] fix: ListCollection.extend() adds nothing when an item
 is rejected

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 21b0189..54603ec 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -348,7 +348,7 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From fc34bc0f98413a5b669b64f0502b47d21245df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 11/79] fix: DictCollection accepts other dict collections and
 rejects what it cannot unpack

---
 normalize/coll.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 54603ec..f3b9a27 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -221,10 +221,10 @@ class DictCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, (collections.abc.Mapping, DictCollection)):
             for k, v in coll.items():
                 yield k, v
-        elif isinstance(coll, collections.abc.Sequence):
+        elif isinstance(coll, (collections.abc.Sequence, Collection)):
             i = 0
             for v in coll:
                 yield (i, v)
@@ -238,6 +238,11 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif coll is not None:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From f355521ffea6a303da12f7a7ce0c4b90f66ee699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 12/79] fix: comparing a collection with a plain container of
 other values is False, not an error

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index f3b9a27..a488240 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -119,7 +119,10 @@ class Collection(Record):
         # coerce collections derived from simple python collection types
         if not isinstance(other, type(self)) and \
                 isinstance(other, self.colltype):
-            other = type(self)(other)
+            try:
+                other = type(self)(other)
+            except exc.CoercionError:
+                return False
         return self.itemtype == getattr(other, "itemtype", None) and \
             self._values == getattr(other, "_values", None)
 
-- 
2.43.0


From 3764c6f60ab8a1d3afaecf0304f817641687e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 13/79] fix: a collection's coerceitem function must return the
 item type

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index a488240..fde45b6 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -142,7 +142,10 @@ class Collection(Record):
             return v
         else:
             try:
-                return cls.coerceitem(v)
+                item = cls.coerceitem(v)
+                if not isinstance(item, cls.itemtype):
+                    raise TypeError("coerced to %r" % (item,))
+                return item
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
-- 
2.43.0


From 8deeef40e7a8e158e845d40df7558de33be9fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 14/79] fix: from_json() ignores unknown keys for plain
 records, as documented

---
 normalize/record/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 2d89f0a..f769e58 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -153,6 +153,8 @@ def from_json(record_type, json_struct):
     elif issubclass(record_type, Record):
         # do what the default JsonRecord __init__ does
         init_kwargs = json_to_initkwargs(record_type, json_struct)
+        if "unknown_json_keys" not in record_type.properties:
+            init_kwargs.pop("unknown_json_keys", None)
         instance = record_type(**init_kwargs)
         return instance
     else:
-- 
2.43.0


From 6af300cc9d6b692a79d9dc83146bf58bf279ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 15/79] fix: marshall JSON in to attributes which hold plain
 records and collections

---
 normalize/record/json.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f769e58..73c7137 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -37,13 +37,15 @@ from normalize.record import Record
 from normalize.selector import FieldSelector
 
 
-def _json_to_value_initializer(json_val, proptype):
+def _json_to_value_initializer(json_val, proptype, coerce=None):
     if proptype:
-        if isinstance(proptype, JsonRecord):
+        if isinstance(json_val, proptype):
             return json_val
         elif hasattr(proptype, "from_json"):
             return proptype.from_json(json_val)
-        elif isinstance(proptype, Record) and isinstance(json_val, dict):
+        elif coerce in (None, proptype) and isinstance(proptype, type) and \
+                issubclass(proptype, Record) and \
+                isinstance(json_val, (dict, list)):
             return from_json(proptype, json_val)
 
     return json_val
@@ -96,6 +98,7 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                                     json_struct[json_name]
                                 ),
                                 prop.valuetype,
+                                prop.coerce,
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
@@ -107,7 +110,7 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                 proptype = prop.valuetype
                 try:
                     kwargs[propname] = _json_to_value_initializer(
-                        json_val, proptype,
+                        json_val, proptype, prop.coerce,
                     )
                 except Exception as e:
                     raise _box_ingress_error(prop.name, e)
@@ -118,6 +121,19 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
     return kwargs
 
 
+def _json_to_items(coll_type, json_struct):
+    """Generate the ``(K, V)`` tuples of a collection which is not aware of
+    JSON; the values are of the collection's item type."""
+    for k, v in coll_type.coll_to_tuples(json_struct):
+        try:
+            v = coll_type.coerce_value(
+                _json_to_value_initializer(v, coll_type.itemtype)
+            )
+        except Exception as e:
+            raise _box_ingress_error(k, e)
+        yield k, v
+
+
 def _decode_and_parse_json(json_data):
     """Internal helper to normalize incoming JSON input.
 
@@ -150,6 +166,11 @@ def from_json(record_type, json_struct):
     if issubclass(record_type, JsonRecord):
         return record_type(json_struct)
 
+    elif issubclass(record_type, Collection):
+        return record_type(values=record_type.tuples_to_coll(
+            _json_to_items(record_type, json_struct)
+        ))
+
     elif issubclass(record_type, Record):
         # do what the default JsonRecord __init__ does
         init_kwargs = json_to_initkwargs(record_type, json_struct)
-- 
2.43.0


From 5cd51861ac1a66e667618a6fede341af3c33f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 16/79] fix: selector paths with any key, newlines and negative
 indexes parse back

---
 normalize/selector.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..9bbb3e6 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -504,7 +504,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -513,9 +513,9 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
     re.X,
 )
@@ -531,7 +531,7 @@ def _scan_selector_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -920,9 +920,9 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
@@ -958,7 +958,7 @@ def _scan_mfs_path(path):
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From 40d125d80ba2674015c6bd23f55fa1571cbad497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 17/79] fix: field selectors reject false elements of other
 types, too

---
 normalize/selector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 9bbb3e6..4198daf 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -70,10 +70,9 @@ class FieldSelector(object):
                 expr_selectors = list(expr)
 
             # Validate the selector
-            if any(
-                e for e in expr_selectors if not (
-                    isinstance(e, str) or isinstance(e, int) or e is None
-                )
+            if not all(
+                isinstance(e, str) or isinstance(e, int) or e is None
+                for e in expr_selectors
             ):
                 raise ValueError(
                     "FieldSelectors can only contain ints/longs, "
-- 
2.43.0


From f45c747aae40e03e8725c4f9de5e07fb747737b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 18/79] fix: FieldSelector.startswith() anything longer is
 False

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 4198daf..72a327d 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -471,13 +471,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return bool(self.selectors) and self.selectors[0] == key_or_fs
 
     @property
     def path(self):
-- 
2.43.0


From 5ab9fde9f125e16905368409078b62fd753781d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 19/79] fix: equal field selectors have equal hashes

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 72a327d..9fb8d94 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -367,7 +367,7 @@ class FieldSelector(object):
         return self.selectors == other.selectors
 
     def __hash__(self):
-        return super(FieldSelector, self).__hash__()
+        return hash(tuple(self.selectors))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From 67346f19316c0cbf4ce7b49d88d454bdf3f37f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 20/79] fix: subscripting a wildcard multi-selector by an index
 it contains

---
 normalize/selector.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 9fb8d94..d501538 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -716,10 +716,7 @@ class MultiFieldSelector(object):
             else:
                 return self  # XXX wat
 
-        tail = (
-            self.heads[None] if self.complete else
-            self.heads.get(index, None)
-        )
+        tail = self.heads.get(None if self.has_none else index, None)
         return type(self).complete_mfs() if tail == all else tail
 
     def __contains__(self, index):
-- 
2.43.0


From 996eb7b3158b095c7b8a17284d02d98a8089b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 21/79] fix: path of an empty multi-selector parses back

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index d501538..a3dd476 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -941,9 +941,9 @@ def _scan_mfs_path(path):
                     mfs.append(fs)
                 fs = list(stack[-1])
             else:
-                if not popping:
+                if not popping and fs:
                     mfs.append(fs)
-                    popping = True
+                popping = True
                 fs = stack.pop()
         else:
             popping = False
-- 
2.43.0


From d1491fb458b09f68b1b605dd5bd93b5b14b2ecdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 22/79] fix: missing dictionary keys are field selector
 exceptions, like missing indexes

---
 normalize/selector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index a3dd476..796d923 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -159,7 +159,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -220,7 +220,7 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
+                    except LookupError:
                         raise FieldSelectorException(
                             "Could not find Record specified by index: %s." %
                             selector
@@ -336,7 +336,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -352,7 +352,10 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
             if hasattr(record, to_delete):
                 delattr(record, to_delete)
-- 
2.43.0


From e043de57753d0d6b121b03d556aac7d3f9a7493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 23/79] fix: wildcards in field selectors apply to the values
 of dictionaries, and in post()

---
 normalize/selector.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 796d923..e27980a 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -39,6 +39,13 @@ def _try_index(instance, selector):
     return False
 
 
+def _all_items(collection):
+    """The items of a collection; what 'None' in a selector refers to"""
+    if isinstance(collection, (dict, DictCollection)):
+        return list(collection.values())
+    return collection
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -143,7 +150,7 @@ class FieldSelector(object):
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 rv = []
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     val = None
                     try:
                         val = sub_field_selector.get(r)
@@ -193,7 +200,12 @@ class FieldSelector(object):
         if len(self.selectors) == 1:
             selector = self.selectors[0]
             if selector is None:
-                record[:] = value
+                if isinstance(record, (dict, DictCollection)):
+                    items = type(record)(value)
+                    record.clear()
+                    record.update(items)
+                else:
+                    record[:] = value
             elif _try_index(record, selector):
                 try:
                     record[selector] = value
@@ -214,7 +226,7 @@ class FieldSelector(object):
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
             if selector is None:
-                for x in record:
+                for x in _all_items(record):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
@@ -254,7 +266,10 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(
+                    sub_field_selector.post(r, value)
+                    for r in _all_items(record)
+                )
 
             # supports the case where an item is created by setting
             # a single required field value
@@ -322,7 +337,7 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     try:
                         sub_field_selector.delete(r)
                         all_exc = False
-- 
2.43.0


From bf05dd4b62f3788568bfb42bccc0685a6e4b040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 24/79] fix: FieldSelector.post() creates collection items at
 the end of the path

---
 normalize/selector.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index e27980a..3093188 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -22,6 +22,7 @@ from copy import deepcopy
 import functools
 import re
 
+from normalize.coll import Collection
 from normalize.coll import DictCollection
 from normalize.coll import ListCollection
 from normalize.exc import FieldSelectorAttributeError
@@ -46,6 +47,10 @@ def _all_items(collection):
     return collection
 
 
+def _is_coll_type(item_type):
+    return isinstance(item_type, type) and issubclass(item_type, Collection)
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -273,9 +278,13 @@ class FieldSelector(object):
 
             # supports the case where an item is created by setting
             # a single required field value
-            kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
-                kwarg[self.selectors[-1]] = value
+            def create(item_type):
+                kwarg = {}
+                if i >= len(self.selectors) - 2 and \
+                        isinstance(self.selectors[-1], str) and \
+                        not _is_coll_type(item_type):
+                    kwarg[self.selectors[-1]] = value
+                return item_type(**kwarg), bool(kwarg)
 
             if _try_index(record, selector):
                 try:
@@ -287,16 +296,14 @@ class FieldSelector(object):
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
-                        record.append(type(record).itemtype(**kwarg))
-                        if kwarg:
-                            put_final = True
+                        item, put_final = create(type(record).itemtype)
+                        record.append(item)
                     else:
                         raise
                     record = record[selector]
                 except KeyError:
-                    record[selector] = type(record).itemtype(**kwarg)
-                    if kwarg:
-                        put_final = True
+                    record[selector], put_final = create(type(record).itemtype)
+                    record = record[selector]
             else:
                 if not hasattr(record, selector):
                     prop = type(record).properties[selector]
@@ -305,13 +312,17 @@ class FieldSelector(object):
                             "Must specify default= or isa= to auto-vivify "
                             "%s" % prop
                         )
-                    setattr(record, selector, prop.valuetype(**kwarg))
-                    if kwarg:
-                        put_final = True
+                    item, put_final = create(prop.valuetype)
+                    setattr(record, selector, item)
                 record = getattr(record, selector)
             i = i + 1
         if not put_final:
-            type(self)([self.selectors[-1]]).put(record, value)
+            selector = self.selectors[-1]
+            if isinstance(record, (list, ListCollection)) and \
+                    selector == len(record):
+                record.append(value)
+            else:
+                type(self)([selector]).put(record, value)
         return 1
 
     def delete(self, record):
-- 
2.43.0


From abfd8300c1dab21a550204e1a92c65761e52e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 25/79] fix: MultiFieldSelector.delete() of several items of a
 list

---
 normalize/selector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 3093188..5fb7fa3 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -579,6 +579,13 @@ def _fmt_mfs_path(head, tail):
     )
 
 
+def _path_order(fs):
+    """Like the order of field selectors, but of any kind"""
+    return tuple(
+        (x is not None, isinstance(x, str), x) for x in fs.selectors
+    )
+
+
 class _None(object):
     pass
 
@@ -886,7 +893,8 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        # last items first, so as not to move the others
+        for fs in sorted(self, key=_path_order, reverse=True):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From 84209193c424b7821d8e6edfc121aeeb2d25c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 26/79] fix: MultiFieldSelector.patch() sets list items in
 order and skips what is missing on both sides

---
 normalize/selector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 5fb7fa3..a9df513 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -919,7 +919,7 @@ class MultiFieldSelector(object):
         """
         # TODO: this could also be a whole lot more efficient!
         fs_val = []
-        for fs in self:
+        for fs in sorted(self, key=_path_order):
             try:
                 fs_val.append((fs, fs.get(source)))
             except AttributeError:
@@ -932,7 +932,10 @@ class MultiFieldSelector(object):
 
         for fs, val in fs_val:
             if val is _None:
-                fs.delete(target)
+                try:
+                    fs.delete(target)
+                except FieldSelectorException:
+                    pass
             else:
                 fs.post(target, val if not copy else copy(val))
 
-- 
2.43.0


From cc4ac6f0ed10188c9181a05bc2934cb0541eda00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 27/79] fix: MultiFieldSelector.patch() with wildcards copies
 each item's own value

---
 normalize/selector.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index a9df513..735d1f9 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -586,6 +586,26 @@ def _path_order(fs):
     )
 
 
+def _expand_wildcards(fs, obj):
+    """Replaces any wildcards on the way to what a selector refers to by the
+    indexes or keys there are in ``obj``"""
+    if None not in fs.selectors[:-1]:
+        return [fs]
+    i = fs.selectors.index(None)
+    try:
+        coll = fs[:i].get(obj)
+    except AttributeError:
+        return [fs]
+    if isinstance(coll, (dict, DictCollection)):
+        keys = list(coll.keys())
+    else:
+        keys = range(len(coll))
+    expanded = []
+    for k in keys:
+        expanded.extend(_expand_wildcards(fs[:i] + [k] + fs[i + 1:], obj))
+    return expanded
+
+
 class _None(object):
     pass
 
@@ -919,7 +939,10 @@ class MultiFieldSelector(object):
         """
         # TODO: this could also be a whole lot more efficient!
         fs_val = []
-        for fs in sorted(self, key=_path_order):
+        selectors = []
+        for fs in self:
+            selectors.extend(_expand_wildcards(fs, source))
+        for fs in sorted(selectors, key=_path_order):
             try:
                 fs_val.append((fs, fs.get(source)))
             except AttributeError:
-- 
2.43.0


From 41797898af4b66cec8c6b9ed82b95f5cd67b054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 28/79] fix: patching all the values of a dict with a
 multi-selector wildcard

---
 normalize/selector.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 735d1f9..88a39e3 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -944,7 +944,12 @@ class MultiFieldSelector(object):
             selectors.extend(_expand_wildcards(fs, source))
         for fs in sorted(selectors, key=_path_order):
             try:
-                fs_val.append((fs, fs.get(source)))
+                val = fs.get(source)
+                if fs.selectors[-1:] == [None]:
+                    coll = fs[:-1].get(source)
+                    if isinstance(coll, (dict, DictCollection)):
+                        val = dict(coll.items())
+                fs_val.append((fs, val))
             except AttributeError:
                 fs_val.append((fs, _None))
             except FieldSelectorException:
-- 
2.43.0


From 444a5fc07d5c6b326563eff974257cb8ab258126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 29/79] fix: multi-selector get on JSON dict collections

---
 normalize/selector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 88a39e3..be5697c 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -867,14 +867,18 @@ class MultiFieldSelector(object):
         elif isinstance(obj, (dict, DictCollection)):
             if self.has_none:
                 tail = self.heads[None]
-                return ctor(
+                vals = list(
                     (k, self._get(v, tail)) for k, v in obj.items()
                 )
             else:
-                return ctor(
+                vals = list(
                     (head, self._get(obj[head], tail)) for head, tail in
                     self.heads.items() if head in obj
                 )
+            if isinstance(obj, DictCollection):
+                return ctor(values=dict(vals))
+            else:
+                return ctor(vals)
         else:
             if self.has_int or (self.has_none and self.heads[None] is not all):
                 raise TypeError(
-- 
2.43.0


From db15d7ee7b87bd97197646d223dc4d9afda6e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 30/79] fix: pickling and copying sub-classes of generic
 collections

---
 normalize/coll.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index fde45b6..ebee83d 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -18,6 +18,7 @@
 from __future__ import absolute_import
 
 import collections
+import copyreg
 import sys
 import types
 
@@ -478,6 +479,12 @@ class _Generic(Collection):
         """helper method for pickling"""
         return (_GenericPickler(type(self).generic_key), (self._values,))
 
+    def __reduce_ex__(self, protocol):
+        if GENERIC_TYPES.get(type(self).generic_key) is type(self):
+            return self.__reduce__()
+        # a declared sub-class of a generic type
+        return (copyreg.__newobj__, (type(self),), self.__getstate__())
+
 
 def _make_generic(of, coll):
     """Used to make a new Collection type, without that type having to be
-- 
2.43.0


From c3fe042a773be13533eb7aa321528ab28f77969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:24 +0000
Subject: [PATCH 31/79] fix: comparing lists and dicts of unhashable values

---
 normalize/diff.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..d9c4998 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -116,6 +116,24 @@ class _Nothing(object):
 _nothing = _Nothing()
 
 
+def _hashable(value):
+    """Returns the value, or if it isn't hashable, something which is, and
+    equal to that of equal values only."""
+    try:
+        hash(value)
+        return value
+    except TypeError:
+        pass
+    if isinstance(value, dict):
+        return dict, frozenset((k, _hashable(v)) for k, v in value.items())
+    elif isinstance(value, (list, tuple)):
+        return type(value), tuple(_hashable(v) for v in value)
+    elif isinstance(value, set):
+        return set, frozenset(value)
+    else:
+        return type(value), repr(value)
+
+
 class DiffOptions(object):
     """Optional data structure to pass diff options down.  Some functions are
     delegated to this object, allowing for further customization of operation,
@@ -812,8 +830,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -897,8 +914,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From 9e8c8c7db9136f49b50a4aa855edb3a818cd9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 32/79] fix: compare_as is not called for unset attributes of
 collection items

---
 normalize/diff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index d9c4998..a773477 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -308,7 +308,10 @@ class DiffOptions(object):
         """This hook wraps ``normalize_slot``, and performs clean-ups which
         require access to the object the slot is in as well as the value.
         """
-        if value is not _nothing and hasattr(prop, "compare_as"):
+        if value is not _nothing and hasattr(prop, "compare_as") and not (
+            # the clean-up function is not for attributes which are not set
+            value is None and getattr(obj, prop.name, _nothing) is not None
+        ):
             method, nargs = getattr(prop, "compare_as_info", (False, 1))
             args = []
             if method:
-- 
2.43.0


From 0e8019be3226bb1af1c1dfbb67b186c707d49422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 33/79] fix: text in lists inside of collection items is
 normalized when comparing

---
 normalize/diff.py     |  3 ++-
 normalize/identity.py | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index a773477..4dd1bc0 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -348,7 +348,8 @@ class DiffOptions(object):
         """Retrieve an object identifier from the given record; if it is an
         alien class, and the type is provided, then use duck typing to get the
         corresponding fields of the alien class."""
-        pk = record_id(record, type_, selector, self.normalize_object_slot)
+        pk = record_id(record, type_, selector, self.normalize_object_slot,
+                       self.normalize_item)
         return pk
 
     def id_args(self, type_, fs):  # XXX deprecated
diff --git a/normalize/identity.py b/normalize/identity.py
index bc20aa2..13726a6 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -20,7 +20,8 @@ import normalize.exc as exc
 import normalize.record
 
 
-def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
+def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
+              normalize_item=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
     returns None for other types, meaning all bets about identity are off.
@@ -56,12 +57,19 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
+        if normalize_item and not (
+            isinstance(type_.itemtype, type) and
+            issubclass(type_.itemtype, normalize.record.Record)
+        ):
+            gen = ((k, normalize_item(v, object_, k)) for k, v in gen)
         return tuple(
             record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
+                normalize_item,
             ) for k, v in gen if selector[(k,)]
         ) if selector else tuple(
-            record_id(v, type_.itemtype, None, normalize_object_slot) for
+            record_id(v, type_.itemtype, None, normalize_object_slot,
+                      normalize_item) for
             k, v in gen
         )
 
@@ -95,7 +103,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 if issubclass(value_type, normalize.record.Record):
                     pk = record_id(val, value_type,
                                    selector[prop.name] if selector else None,
-                                   normalize_object_slot)
+                                   normalize_object_slot, normalize_item)
                     pk_elements = len([x for x in pk if x is not None])
                     if val_pk is None or pk_elements > set_elements:
                         val_pk = pk
-- 
2.43.0


From 0cf4651b572359e0e0308b967eaccf55aec820c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 34/79] fix: equal dict collections have the same identity,
 whatever their order

---
 normalize/identity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/identity.py b/normalize/identity.py
index 13726a6..64894cf 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -52,11 +52,13 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
     if not pk_cols and issubclass(
         type_, normalize.coll.Collection
     ):
-        # FIXME: unordered collections will rarely match each other
         gen = (
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
+        if issubclass(type_, normalize.coll.DictCollection):
+            # equal whatever their order
+            gen = sorted(gen, key=lambda kv: repr(kv[0]))
         if normalize_item and not (
             isinstance(type_.itemtype, type) and
             issubclass(type_.itemtype, normalize.record.Record)
-- 
2.43.0


From 37cb919858cbea4e66d5eff0fe2827fc2dfb4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 35/79] fix: comparing collections of records whose compare_as
 changes the type of a value

---
 normalize/identity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index 64894cf..7c26013 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -99,6 +99,9 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None,
                 value_type_list = tuple(
                     x for x in value_type_list if isinstance(val, x)
                 )
+            elif normalize_object_slot and hasattr(prop, "compare_as"):
+                # cleaned up to something else; compare that by its value
+                value_type_list = ()
             val_pk = None
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From ebbaa210b8e48fd27ca0f60285f7c75ff181e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 36/79] fix: a visit filter selecting some items of a
 collection applied to all of them

---
 normalize/visitor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..b0a3406 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -677,7 +677,14 @@ class VisitorPattern(object):
     @classmethod
     def map_collection(cls, visitor, coll_generator, coll_type):
         rv = visitor.copy()
+        leaves = not isinstance(coll_type.itemtype, tuple) and not issubclass(
+            coll_type.itemtype, Record
+        )
         for key, value in coll_generator:
+            if leaves and rv.visit_filter and not rv.visit_filter[
+                rv.cue + [key]
+            ]:
+                continue
             rv.push(key)
             mapped = cls.map(rv, value, coll_type.itemtype)
             rv.pop(key)
-- 
2.43.0


From 63521b72a35cac14954ae73e57b0df7a487d0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 37/79] fix: visiting unset record and collection attributes
 with apply_empty_slots

---
 normalize/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index b0a3406..0a0d132 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -703,7 +703,10 @@ class VisitorPattern(object):
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
 
-        if isinstance(value_type, tuple):
+        if isinstance(value, (AttributeError, KeyError)):
+            # nothing to descend into
+            mapped = visitor.apply(value, prop, visitor)
+        elif isinstance(value_type, tuple):
             mapped = cls.map_type_union(
                 visitor, value, value_type, prop,
             )
-- 
2.43.0


From 8446593511abee32e4755b7f49efe8723fad6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 38/79] fix: casting a plain value to a union of a record type
 and another

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..64067c5 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -466,7 +466,7 @@ class VisitorPropError(VisitorException):
     )
 
 
-class VisitorGrokRecordError(VisitorException):
+class VisitorGrokRecordError(VisitorException, TypeError):
     message = (
         u"{val} found where I'm expecting to unpack a "
         u"{record_type_name} record at {field_selector}"
-- 
2.43.0


From 9182b9fd93ae0be601ce4b3424582b90de009464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 39/79] fix: casting to a record type without visible
 attributes gave a plain dict

---
 normalize/visitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 0a0d132..1dc0414 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -407,9 +407,11 @@ class VisitorPattern(object):
         ``value_type`` is not appropriate for ``value``.
         """
         is_coll = issubclass(value_type, Collection)
-        is_record = issubclass(value_type, Record) and any(
-            not visitor.is_filtered(prop) for prop in
-            list(value_type.properties.values())
+        is_record = issubclass(value_type, Record) and (
+            not is_coll or any(
+                not visitor.is_filtered(prop) for prop in
+                list(value_type.properties.values())
+            )
         )
 
         if is_record and not isinstance(value, cls.grok_mapping_types):
-- 
2.43.0


From 279978be725bfc2c46323875437d76efcab69a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 40/79] fix: error message of VisitorUnpackError could not be
 formatted

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 64067c5..0528ccb 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -491,5 +491,5 @@ class VisitorTooSimple(VisitorException):
 class VisitorUnpackError(VisitorException, TypeError):
     message = (
         "Can't unpack collection at {context.field_selector}; expected "
-        "{colltype.__name__}, got {passed!r}"
+        "{colltype}, got {passed!r}"
     )
-- 
2.43.0


From 2d8b7057182fa9858d077c788e49d51757a13c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 41/79] fix: report ambiguous property arguments and mutable
 v1_none as definition errors

The exceptions raised for them did not exist, so AttributeError was
raised instead.
---
 normalize/exc.py           | 11 +++++++++++
 normalize/property/meta.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 0528ccb..f6efb36 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -149,6 +149,13 @@ class CoerceError(CoercionError):
     )
 
 
+class AmbiguousPropertyTraitArg(PropertyDefinitionError):
+    message = (
+        "Argument {trait_arg!r} is accepted by several property types; pass "
+        "traits=[...] to select one of: {could_be}"
+    )
+
+
 class CoerceWithoutType(PropertyDefinitionError):
     message = (
         "In order to coerce types, the intended type must be known; "
@@ -300,6 +307,10 @@ class MultipleInheritanceClash(SubclassError):
     )
 
 
+class NoneMutable(PropertyDefinitionError):
+    message = "v1_none must be an immutable value; {passed!r} isn't"
+
+
 class NotCallable(EmptyAttributeError, TypeError):
     message = (
         "No types in ({typenames}) support invoking"
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f158be6..8fb35c4 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -72,7 +72,7 @@ def has(selfie, self, args, kwargs):
                 raise exc.AmbiguousPropertyTraitArg(
                     trait_arg=argname,
                     could_be=" ".join(
-                        sorted(x.__name__ for x in implies_traits)
+                        sorted("+".join(x) for x in implies_traits)
                     ),
                     matched_traits=implies_traits,
                 )
-- 
2.43.0


From 010f7c616ca72debcff68ee8db8d78f019484537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 42/79] fix: to_json of records with V1Property attributes

V1Property.slot_is_empty called super() with the record instead of the
property, which is a TypeError.
---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..88c9fca 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -454,7 +454,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From 92b7004ceb801ffeef4e5ac5a647180060f9b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 43/79] fix: assigning None to an unset v1 attribute

It is the same as deleting the attribute, which has nothing to do if it
is not set; it raised KeyError.
---
 normalize/property/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 88c9fca..732aff8 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -466,7 +466,8 @@ class V1Property(SafeProperty):
             super().__set__(obj, value)
         except exc.CoercionError:
             if value is None or value == self.v1_none:
-                self.__delete__(obj)
+                if self.required or self.name in obj.__dict__:
+                    self.__delete__(obj)
             else:
                 raise
 
-- 
2.43.0


From 843e44dcc4d1a73dafeb71547bfd6f46f731c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 44/79] fix: default arguments of property types composed on
 declaration

Types deriving from others made with make_property_type could fail to be
instantiated with more arguments (TypeError from super()), and the traits
which the default arguments of a type named in traits= ask for were
missing.  Collect the default arguments of all the types first.
---
 normalize/property/meta.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 8fb35c4..cabcc2f 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -33,7 +33,7 @@ def looks_like_v1_none(value):
     return not value and value.__hash__ and not callable(value)
 
 
-def has(selfie, self, args, kwargs):
+def has(self, args, kwargs):
     """This is called 'has' but is called indirectly.  Each Property sub-class
     is installed with this function which replaces their __new__.
 
@@ -52,7 +52,7 @@ def has(selfie, self, args, kwargs):
     """
     if args:
         raise exc.PositionalArgumentsProhibited()
-    extra_traits = set(kwargs.pop('traits', tuple()))
+    extra_traits = set(kwargs.pop('traits', None) or ())
 
     safe_unless_ro = self.__safe_unless_ro__ or any(
         x in kwargs for x in ("required", "isa", "check")
@@ -110,7 +110,14 @@ def has(selfie, self, args, kwargs):
             base=type(self).__name__,
         )
 
-    return super(selfie, self).__new__(property_type)
+    if property_type is not self:
+        # the types which this one is made of may supply default arguments
+        # which ask for yet more traits.
+        return property_type.__new__(
+            property_type, traits=extra_traits, **kwargs
+        )
+
+    return object.__new__(property_type)
 
 
 def _merge_camel_case_names(base_name, new_name):
@@ -199,12 +206,12 @@ class MetaProperty(type):
     def __new__(mcs, name, bases, attrs):
         """This __new__ method is called when new property trait combinations
         are created."""
-        selfie = [None, attrs.get('default_kwargs', {})]
-
         def _has(self, *args, **kwargs):
-            mixed_kwargs = dict(selfie[1])
+            mixed_kwargs = dict()
+            for base in reversed(self.__mro__):
+                mixed_kwargs.update(base.__dict__.get('default_kwargs', {}))
             mixed_kwargs.update(kwargs)
-            return has(selfie[0], self, args, mixed_kwargs)
+            return has(self, args, mixed_kwargs)
 
         attrs['__new__'] = _has
         duckwargs = set()
@@ -234,7 +241,6 @@ class MetaProperty(type):
         attrs['all_duckwargs'] = all_duckwargs
         self = super(MetaProperty, mcs).__new__(mcs, name, bases, attrs)
         PROPERTY_TYPES[self.traits] = self
-        selfie[0] = self
         if trait:
             for kwarg in duckwargs:
                 DUCKWARGS[kwarg].add((traits, self))
-- 
2.43.0


From 1cfaad6f17d5017d1dc96801fe5ef6419399ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 45/79] fix: do not use another collection type of the same
 name

Properties declared with coll=TYPE got a collection of a different type if
one with the same name and item type had been declared before.
---
 normalize/coll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index ebee83d..5f12f96 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -503,7 +503,9 @@ def _make_generic(of, coll):
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
     if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of:
+        if GENERIC_TYPES[key].itemtype != of or (
+            not issubclass(GENERIC_TYPES[key], coll)
+        ):
             raise exc.PropertyNotUnique(key=key)
     else:
         # oh, we get to name it?  Goodie!
-- 
2.43.0


From 93fcd11a6eea34c9f3143f69e22a32a95afc2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 46/79] fix: subtypes of subtypes of records and other types
 with a metaclass

---
 normalize/subtype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/subtype.py b/normalize/subtype.py
index e09240e..bfff4a0 100644
--- a/normalize/subtype.py
+++ b/normalize/subtype.py
@@ -44,7 +44,9 @@ class subtype(type):
 
         # for classes with a custom metaclass, we'll need to whip up a new
         # metaclass for them, then construct that.
-        if not issubclass(typcls, type(of)):
+        if issubclass(type(of), typcls):
+            typcls = type(of)
+        elif not issubclass(typcls, type(of)):
             typcls = type(
                 type(of).__name__ + typcls.__name__.capitalize(),
                 (typcls, type(of)), {})
-- 
2.43.0


From 740a5b93138a8e210608113c06e3416349327ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 47/79] fix: required attributes with a false default

The default became the v1 none value, and constructing the record without
a value raised PropertyRequired.
---
 normalize/property/__init__.py | 1 +
 normalize/property/meta.py     | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 732aff8..13e24d2 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -442,6 +442,7 @@ class V1Property(SafeProperty):
             raise exc.NoneMutable(passed=v1_none)
         self.v1_upgraded = False
         if v1_none is _none and 'default' in kwargs and \
+           not kwargs.get('required') and \
            looks_like_v1_none(kwargs['default']):
             v1_none = kwargs['default']
             del kwargs['default']
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index cabcc2f..270cf19 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -94,7 +94,9 @@ def has(self, args, kwargs):
         all_traits.add("safe")
 
     if "v1" not in all_traits:
-        if 'default' in kwargs and looks_like_v1_none(kwargs['default']):
+        if 'default' in kwargs and not kwargs.get('required') and (
+            looks_like_v1_none(kwargs['default'])
+        ):
             all_traits.add("v1")
             if 'safe' not in all_traits:
                 all_traits.add("safe")
-- 
2.43.0


From 1b0ba5f476478a31a5734b176402ab1922fffd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 48/79] fix: attributes declared under the name of another's
 empty_attr

Declaring 'x' and 'x0' replaced the declaration of x0 by the accessor for
unset values of x: values assigned to x0 were not checked, and x0 read as
x when unset.
---
 normalize/record/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..24b43f1 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -80,7 +80,10 @@ class RecordMeta(type):
                     good_props.append(prop)
             return tuple(good_props)
 
-        attrs.update(aux_props)
+        # accessors made up for a property do not replace what was declared
+        for aux_name, aux_prop in aux_props.items():
+            if aux_name not in attrs and aux_name not in properties:
+                attrs[aux_name] = aux_prop
         attrs['primary_key'] = coerce_prop_list('primary_key')
         attrs['properties'] = properties
         attrs['_sorted_properties'] = sorted(
-- 
2.43.0


From e8fb3b5e01db770cd120ab64a08dc87796860453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 49/79] fix: inherited special methods of types of unset
 attributes

Placeholders for unset attributes raised for items, calls and attributes
which the declared type supports through a base class.
---
 normalize/empty.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..2c31e1c 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -32,6 +32,14 @@ def itertypes(iterable):
                 yield entry
 
 
+def _declares(type_, name):
+    """Whether instances of a type have the special method (``hasattr`` would
+    also find those of its metaclass)"""
+    return any(
+        cls.__dict__.get(name) is not None for cls in type_.__mro__
+    )
+
+
 class EmptyVal(object):
     """Empty Value placeholder for a given tuple of types.  This object's
     ``__nonzero__`` always returns ``False``, and it knows how to infer types
@@ -64,7 +72,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if _declares(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,7 +106,7 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if _declares(type_, "__call__"):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
@@ -113,7 +121,7 @@ class EmptyVal(object):
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif _declares(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
-- 
2.43.0


From fd85a858a18cb5bf9b6087d2ffe6885883b5f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 50/79] fix: slices of and iteration over placeholders of unset
 attributes

Slicing the placeholder for a type that does not support subscripting did
not raise, and iterating over any placeholder never ended.
---
 normalize/empty.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index 2c31e1c..d397a1f 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -113,9 +113,7 @@ class EmptyVal(object):
     def __getitem__(self, item):
         if self._typetuple is any:
             return self
-        if isinstance(item, slice):
-            return self
-        elif self._member_type is None:
+        if self._member_type is None:
             coll_types = []
             for type_ in self._typetuple:
                 is_coll = issubclass(type_, normalize.coll.Collection)
@@ -130,7 +128,12 @@ class EmptyVal(object):
                 self._member_type = placeholder(tuple(itertypes(coll_types)))
             else:
                 self._member_type = placeholder(any)
-        return self._member_type
+        return self if isinstance(item, slice) else self._member_type
+
+    def __iter__(self):
+        # without this, python would go on for ever using __getitem__
+        self[0]
+        return iter(())
 
     def __bool__(self):
         return False
-- 
2.43.0


From 5abb2f8b654f4bce513683363a2e118c1373a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 51/79] fix: marshal out the nested objects of auto JSON
 records

AutoJsonRecord.json_data() marshalled nested records out as {}.
---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 73c7137..c1fc0da 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -602,7 +602,7 @@ class AutoJsonRecord(JsonRecord):
                 for k, v in self.unknown_json_keys.items():
                     k = type(self).convert_json_key_out(k)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
-- 
2.43.0


From 8103213e1ecba7be5340ab7efb4cb16defd812b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 52/79] fix: load mixed and nested lists into auto JSON records

---
 normalize/record/json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index c1fc0da..08c692d 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -550,10 +550,10 @@ class AutoJsonRecord(JsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(AutoJsonRecord)(thing)
         else:
-            return thing
+            return list(cls.auto_upgrade_any(x) for x in thing)
 
     @classmethod
     def auto_upgrade_any(cls, thing):
@@ -641,7 +641,7 @@ class NCAutoJsonRecord(AutoJsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(NCAutoJsonRecord)(thing)
         else:
-            return thing
+            return list(cls.auto_upgrade_any(x) for x in thing)
-- 
2.43.0


From 3f1cb637c4e492ee3ea5d0561f5e3060b6c2ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 53/79] fix: AttributeError for missing attributes of auto JSON
 records

A KeyError was raised, which breaks hasattr(), getattr() with a default and copying;
attributes could neither be assigned nor deleted.
---
 normalize/record/json.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 08c692d..1731775 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -608,20 +608,25 @@ class AutoJsonRecord(JsonRecord):
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-        else:
+        try:
             return self.unknown_json_keys[attr]
+        except KeyError:
+            raise AttributeError("%s.%s" % (type(self).__name__, attr))
 
     def __setattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+    def __delattr__(self, attr):
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError("%s.%s" % (type(self).__name__, attr))
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From 26a313227f3755ce1237b8a1d74c42074a1140b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 54/79] fix: tell the normalize_item hook the index of the item

---
 normalize/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 4dd1bc0..0dd931e 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -832,7 +832,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         seen = collections.Counter()
         for i, v in collection_generator(propval_x):
             v = options.normalize_item(
-                v, propval_a if options.duck_type else propval_x
+                v, propval_a if options.duck_type else propval_x, i,
             )
             v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
@@ -916,7 +916,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         seen = collections.Counter()
         for k, v in collection_generator(propval_x):
             v = options.normalize_item(
-                v, propval_a if options.duck_type else propval_x
+                v, propval_a if options.duck_type else propval_x, k,
             )
             v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
-- 
2.43.0


From 0967ac03178a16520816c3c7dce45ce37b3ba156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 55/79] fix: default and comparison functions may be any
 callable

---
 normalize/property/__init__.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 13e24d2..17c5d82 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -156,19 +156,22 @@ class Property(metaclass=MetaProperty):
         self.empty_attr = empty_attr
         self.extraneous = extraneous
 
-    def func_info(self, func):
-        args = inspect.getfullargspec(func)
-        is_method = False
-        if not args.args:
-            required_args = 0
-        else:
-            required_args = len(args.args)
-            if args.defaults:
-                required_args -= len(args.defaults)
-            if required_args and args.args[0] == "self":
-                is_method = True
-                required_args -= 1
-        return is_method, required_args
+    def func_info(self, func, unknown=0):
+        """Returns whether the first argument of the function is ``self``, and
+        how many other arguments it requires (``unknown`` for builtins which
+        do not tell)"""
+        try:
+            params = inspect.signature(func).parameters.values()
+        except (TypeError, ValueError):
+            return False, unknown
+        required = [
+            x for x in params if x.default is x.empty and
+            x.kind in (x.POSITIONAL_ONLY, x.POSITIONAL_OR_KEYWORD)
+        ]
+        is_method = bool(required) and required[0].name == "self" and (
+            required[0].kind == inspect.Parameter.POSITIONAL_OR_KEYWORD
+        )
+        return is_method, len(required) - is_method
 
     @property
     def bound(self):
@@ -484,7 +487,7 @@ class DiffasProperty(Property):
         """
         super(DiffasProperty, self).__init__(**kwargs)
         self.compare_as = compare_as
-        is_method, nargs = self.func_info(compare_as)
+        is_method, nargs = self.func_info(compare_as, unknown=1)
         self.compare_as_info = is_method, nargs
         if nargs > 1:
             raise exc.CompareAsSignatureError(
-- 
2.43.0


From c8b1e768304988ef86789ae47782628906950f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 56/79] fix: equal dict items under the same key belong
 together in comparisons

---
 normalize/diff.py | 67 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 0dd931e..380e409 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -134,6 +134,38 @@ def _hashable(value):
         return type(value), repr(value)
 
 
+def _number_items(items_a, items_b, by_key=False):
+    """Tells equal items of a collection apart, by numbering them.  With
+    ``by_key``, equal items which have the same key in both get the same
+    number; otherwise they are numbered as they come.
+
+    args:
+        ``items_a=``\ *LIST*, ``items_b=``\ *LIST*
+            The items of each side, as ``(key, id)`` tuples
+
+        ``by_key=``\ *BOOL*
+            Set if the items have no meaningful order
+
+    Returns, for each side, a dictionary from ``(id, number)`` to the key.
+    """
+    if by_key:
+        shared = set(items_a).intersection(items_b)
+        same = [x for x in items_a if x in shared]
+        items_a, items_b = (
+            same + [x for x in items if x not in shared]
+            for items in (items_a, items_b)
+        )
+    numbered = list()
+    for items in items_a, items_b:
+        seen = collections.Counter()
+        keys = dict()
+        for k, v in items:
+            keys[v, seen[v]] = k
+            seen[v] += 1
+        numbered.append(keys)
+    return numbered
+
+
 class DiffOptions(object):
     """Optional data structure to pass diff options down.  Some functions are
     delegated to this object, allowing for further customization of operation,
@@ -633,8 +665,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         options = DiffOptions()
 
     propvals = dict(a=propval_a, b=propval_b)
-    values = dict()
-    rev_keys = dict()
+    items = dict()
     compare_values = None
     coll_type = (
         type(propval_a) if propval_a is not _nothing else type(propval_b)
@@ -666,10 +697,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
     for x in "a", "b":
         propval_x = propvals[x]
-        vals = values[x] = set()
-        rev_key = rev_keys[x] = dict()
-
-        seen = collections.Counter()
+        items[x] = list()
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
@@ -684,9 +712,13 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 # the value type is a Record, and hence descent is
                 # possible.
                 compare_values = isinstance(pk, tuple)
-            vals.add((pk, seen[pk]))
-            rev_key[(pk, seen[pk])] = k
-            seen[pk] += 1
+            items[x].append((k, pk))
+
+    rev_keys = dict()
+    rev_keys['a'], rev_keys['b'] = _number_items(
+        items['a'], items['b'], by_key=issubclass(coll_type, DictCollection),
+    )
+    values = dict((x, set(keys)) for x, keys in rev_keys.items())
 
     if options.recurse:
         # we can be sure that both records have these keys
@@ -907,22 +939,23 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
     if not options:
         options = DiffOptions()
     propvals = dict(a=propval_a, b=propval_b)
-    values = dict()
-    rev_keys = dict()
+    items = dict()
     for x in "a", "b":
         propval_x = propvals[x]
-        vals = values[x] = set()
-        rev_key = rev_keys[x] = dict()
-        seen = collections.Counter()
+        items[x] = list()
         for k, v in collection_generator(propval_x):
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x, k,
             )
             v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
-                vals.add((v, seen[v]))
-                rev_key[(v, seen[v])] = k
-                seen[v] += 1
+                items[x].append((k, v))
+
+    rev_keys = dict()
+    rev_keys['a'], rev_keys['b'] = _number_items(
+        items['a'], items['b'], by_key=True,
+    )
+    values = dict((x, set(keys)) for x, keys in rev_keys.items())
 
     removed = values['a'] - values['b']
     added = values['b'] - values['a']
-- 
2.43.0


From 41b7d154b2da64921fb788a8a1a403739f63fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 57/79] fix: show the text of field selector exceptions

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index f6efb36..4773859 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -92,7 +92,7 @@ class FeatureNotImplementedException(StringFormatException):
 
 
 class FieldSelectorException(StringFormatException):
-    pass
+    message = "{0}"
 
 
 class PropertyDefinitionError(StringFormatException):
-- 
2.43.0


From 585d2cd692af765f12a019ba1a014101221c3116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 58/79] fix: items not of any type of a union are coercion
 errors

---
 normalize/coll.py | 5 +++++
 normalize/exc.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 5f12f96..2f5f489 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -150,6 +150,11 @@ class Collection(Record):
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
+                    itemtype_name=(
+                        "(" + ", ".join(x.__name__ for x in cls.itemtype) + ")"
+                        if isinstance(cls.itemtype, tuple) else
+                        cls.itemtype.__name__
+                    ),
                     colltype=cls,
                     passed=v,
                     exc=e,
diff --git a/normalize/exc.py b/normalize/exc.py
index 4773859..25e5e88 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -172,7 +172,7 @@ class CollectionCoerceError(CoercionError):
 
 class CollectionItemCoerceError(CoercionError):
     message = (
-        "coerce to {itemtype.__name__} for insertion to "
+        "coerce to {itemtype_name} for insertion to "
         "{colltype.__name__} failed for value {passed!r}: {exc}"
     )
 
-- 
2.43.0


From 23985d00d230761ffe6e5f8217395f7f3d237f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 59/79] fix: rejecting functions which have no module

---
 normalize/property/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 17c5d82..2cbf646 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -143,7 +143,7 @@ class Property(metaclass=MetaProperty):
                 else:
                     raise exc.DefaultSignatureError(
                         func=default,
-                        module=default.__module__,
+                        module=getattr(default, "__module__", None),
                         nargs=nargs,
                     )
             self.default_is_method = is_method
@@ -492,7 +492,7 @@ class DiffasProperty(Property):
         if nargs > 1:
             raise exc.CompareAsSignatureError(
                 func=compare_as,
-                module=compare_as.__module__,
+                module=getattr(compare_as, "__module__", None),
                 nargs=nargs,
             )
 
-- 
2.43.0


From 1104e6ffd173012adf4100349de0a75c8117f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 60/79] fix: unknown names in primary_key are
 PropertiesNotKnown

---
 normalize/record/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 24b43f1..6881c25 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -69,7 +69,7 @@ class RecordMeta(type):
             if proplist:
                 for prop in proplist:
                     if isinstance(prop, str):
-                        prop = properties[prop]
+                        prop = properties.get(prop, prop)
                     if not isinstance(prop, Property) or (
                         prop not in all_properties
                     ):
-- 
2.43.0


From 2bcd444ae116a346215ed137c13add075aa95ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 61/79] fix: several properties may read the same JSON key

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 1731775..09388be 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -102,10 +102,10 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
-                    unknown_keys.remove(json_name)
+                    unknown_keys.discard(json_name)
         elif prop.name in json_struct:
             json_val = json_struct[prop.name]
-            unknown_keys.remove(prop.name)
+            unknown_keys.discard(prop.name)
             if prop.name not in kwargs:
                 proptype = prop.valuetype
                 try:
-- 
2.43.0


From 355f1082352eca659aa274bbb089ce64bae788b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 62/79] fix: post() past an unknown attribute is a field
 selector exception

---
 normalize/selector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index be5697c..6a47cbf 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -306,7 +306,11 @@ class FieldSelector(object):
                     record = record[selector]
             else:
                 if not hasattr(record, selector):
-                    prop = type(record).properties[selector]
+                    prop = getattr(type(record), "properties", {}).get(
+                        selector,
+                    )
+                    if prop is None:
+                        raise FieldSelectorAttributeError(name=selector)
                     if not prop.valuetype:
                         raise FieldSelectorException(
                             "Must specify default= or isa= to auto-vivify "
-- 
2.43.0


From 21ec6889ce5c427827ab11257fa21dc275bf21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 63/79] fix: tell the name of the missing attribute in
 FieldSelectorAttributeError

---
 normalize/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 25e5e88..4dc19b7 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -257,6 +257,11 @@ class EmptySignatureError(PropertyDefinitionError):
 class FieldSelectorAttributeError(FieldSelectorException, AttributeError):
     message = "Could not find property specified by name: {name}"
 
+    def __init__(self, *args, **kwargs):
+        super(FieldSelectorAttributeError, self).__init__(*args, **kwargs)
+        # AttributeError has an (empty) attribute of that name
+        self.name = kwargs['name']
+
 
 class FieldSelectorKeyError(FieldSelectorException, KeyError):
     message = "Could not find Record specified by index: {key}"
-- 
2.43.0


From 8515f1ec8948a86e2bad319e0ca46c3432f2516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 64/79] fix: made-up empty accessors do not hide attributes of
 other base classes

---
 normalize/record/meta.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 6881c25..ef5dc70 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -17,7 +17,10 @@
 
 from __future__ import absolute_import
 
+import inspect
+
 import normalize.exc as exc
+from normalize.property import EmptyAuxProp
 from normalize.property import Property
 
 
@@ -96,6 +99,12 @@ class RecordMeta(type):
 
         self = super(RecordMeta, mcs).__new__(mcs, name, bases, attrs)
 
+        # ... nor what another base class declared
+        for propname, prop in properties.items():
+            if isinstance(inspect.getattr_static(self, propname),
+                          EmptyAuxProp):
+                setattr(self, propname, prop)
+
         for propname, prop in local_props.items():
             prop.bind(self)
 
-- 
2.43.0


From 0b109dfd5eac3cc7f6837b9ce8096224fff417a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 65/79] fix: json_data() methods are given only arguments they
 take

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 09388be..7142032 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -202,7 +202,7 @@ def _json_data(x, extraneous):
         has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
-            tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            tjte = 'extraneous' in argspec.args + argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
             if tjte:
                 return x.json_data(extraneous=extraneous)
-- 
2.43.0


From ae5782b07a934accf52c05a4efcadfe74e47483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 66/79] fix: an AttributeError raised by a conversion function
 does not drop the attribute from the JSON output

---
 normalize/record/json.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 7142032..778e076 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -212,6 +212,13 @@ def _json_data(x, extraneous):
             return to_json(x, extraneous)
 
 
+def _slot_to_json(prop, val, extraneous):
+    if hasattr(prop, "to_json"):
+        return prop.to_json(val, extraneous, _json_data)
+    else:
+        return _json_data(val, extraneous)
+
+
 def to_json(record, extraneous=True, prop=None):
     """JSON conversion function: a 'visitor' function which implements marshall
     out (to JSON data form), honoring JSON property types/hints but does not
@@ -237,11 +244,7 @@ def to_json(record, extraneous=True, prop=None):
     if prop:
         if isinstance(prop, str):
             prop = type(record).properties[prop]
-        val = prop.__get__(record)
-        if hasattr(prop, "to_json"):
-            return prop.to_json(val, extraneous, _json_data)
-        else:
-            return _json_data(val, extraneous)
+        return _slot_to_json(prop, prop.__get__(record), extraneous)
 
     elif isinstance(record, Collection):
         if isinstance(record, RecordDict):
@@ -261,9 +264,10 @@ def to_json(record, extraneous=True, prop=None):
             elif not hasattr(prop, "json_name") or prop.json_name is not None:
                 json_name = getattr(prop, "json_name", prop.name)
                 try:
-                    rv_dict[json_name] = to_json(record, extraneous, prop)
+                    val = prop.__get__(record)
                 except AttributeError:
-                    pass
+                    continue
+                rv_dict[json_name] = _slot_to_json(prop, val, extraneous)
         return rv_dict
 
     elif isinstance(record, int):
-- 
2.43.0


From 6f647bbb0375e04352ab87edac6c8eff716ba172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 67/79] fix: comparison filter naming attributes of one
 collection item hid their differences

---
 normalize/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 380e409..98ac480 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -701,7 +701,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
-                if fs_a + [k] not in options.compare_filter:
+                if not options.compare_filter[fs_a + [k]]:
                     continue
             pk = options.record_id(
                 v, **(id_args(k) if callable(id_args) else id_args))
-- 
2.43.0


From f6444fdb78b2c45c4b9c144cef81ed1b72d9fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 68/79] fix: comparison filter naming an item of a simple list
 or dict let the others be compared

---
 normalize/diff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/normalize/diff.py b/normalize/diff.py
index 98ac480..0bbe708 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -854,6 +854,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         fs_b = FieldSelector(tuple())
     if not options:
         options = DiffOptions()
+    coll_filter = options.compare_filter and options.compare_filter[fs_a]
     propvals = dict(a=propval_a, b=propval_b)
     values = dict()
     indices = dict()
@@ -863,6 +864,8 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = indices[x] = dict()
         seen = collections.Counter()
         for i, v in collection_generator(propval_x):
+            if coll_filter and not coll_filter[i]:
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x, i,
             )
@@ -938,12 +941,15 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         fs_b = FieldSelector(tuple())
     if not options:
         options = DiffOptions()
+    coll_filter = options.compare_filter and options.compare_filter[fs_a]
     propvals = dict(a=propval_a, b=propval_b)
     items = dict()
     for x in "a", "b":
         propval_x = propvals[x]
         items[x] = list()
         for k, v in collection_generator(propval_x):
+            if coll_filter and not coll_filter[k]:
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x, k,
             )
-- 
2.43.0


From f86671feba5ee09665f8354e3213569ed4920080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:05 +0000
Subject: [PATCH 69/79] fix: comparing collections with items of different
 derived types raised TypeError

---
 normalize/diff.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 0bbe708..e49f5bf 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -730,8 +730,8 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         for key in shared_keys:
             if (isinstance(propval_a, collections.abc.Iterable) and
                isinstance(propval_b, collections.abc.Iterable)):
-                diffs = _diff_iter(propval_a[key], propval_b[key],
-                                   fs_a + [key], fs_b + [key], options)
+                diffs = _item_diff_iter(propval_a[key], propval_b[key],
+                                        fs_a + [key], fs_b + [key], options)
 
                 for diff in diffs:
                     yield diff
@@ -769,7 +769,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                         b_val = _nothing
                 selector_a = fs_a + a_key
                 selector_b = fs_b + b_key
-                for diff in _diff_iter(
+                for diff in _item_diff_iter(
                     a_val, b_val, selector_a, selector_b, options,
                 ):
                     yield diff
@@ -785,7 +785,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                     selector_a = fs_a + a_key
                     selector_b = fs_b + b_key
                     any_diffs = False
-                    for diff in _diff_iter(
+                    for diff in _item_diff_iter(
                         a_val, b_val, selector_a, selector_b, options,
                     ):
                         if diff.diff_type != DiffTypes.NO_CHANGE:
@@ -1076,6 +1076,19 @@ def _diff_iter(base, other, fs_a, fs_b, options):
         return chain(*generators)
 
 
+def _item_diff_iter(base, other, fs_a, fs_b, options):
+    """Compares matched items of collections; items of different types are
+    different, like attribute values are"""
+    if options.duck_type or type(base) == type(other) or (
+        base is _nothing or other is _nothing
+    ):
+        return _diff_iter(base, other, fs_a, fs_b, options)
+    else:
+        return iter([
+            DiffInfo(diff_type=DiffTypes.MODIFIED, base=fs_a, other=fs_b),
+        ])
+
+
 class Diff(ListCollection):
     """Container for a list of differences."""
     base_type_name = SafeProperty(isa=str, extraneous=True,
-- 
2.43.0


From 0c9f6cfbfbfd1e7a21529e9b6105a1b9989f29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 70/79] fix: selectors of attributes of list collections raised
 TypeError

---
 normalize/selector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 6a47cbf..2a4ecd4 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -35,6 +35,10 @@ def _try_index(instance, selector):
         return False
     if isinstance(selector, int):
         return True
+    if isinstance(instance, ListCollection) and \
+            selector in type(instance).properties:
+        # an attribute of the collection itself
+        return False
     if getattr(instance, "__getitem__", False):
         return True
     return False
-- 
2.43.0


From 319121870592824256f625169ba70e91ae473841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:43 +0000
Subject: [PATCH 71/79] fix: str() of records with unhashable values of typed
 attributes raised KeyHashError

---
 normalize/record/__init__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/normalize/record/__init__.py b/normalize/record/__init__.py
index e317d9b..86293a7 100644
--- a/normalize/record/__init__.py
+++ b/normalize/record/__init__.py
@@ -94,7 +94,18 @@ class Record(metaclass=RecordMeta):
         of all of the defined attributes with their values) is included, up to
         the first 30 characters or so.
         """
-        pk = self.__pk__
+        try:
+            pk = self.__pk__
+        except (exc.KeyHashError, exc.IdentityCrisis):
+            # something in there is not hashable; just show the values
+            props = type(self).primary_key
+            if not props and hasattr(self, "itertuples"):
+                pk = tuple(v for k, v in self.itertuples())
+            else:
+                pk = tuple(
+                    getattr(self, x.name, None)
+                    for x in props or type(self)._sorted_properties
+                )
         key = repr(pk[0] if len(pk) == 1 else pk)
         return "<%s %s>" % (
             type(self).__name__, key[:30] + "..." if len(key) > 32 else key
-- 
2.43.0


From 57547274470d0c25ce1d091dd81c2644c24c561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 72/79] fix: marshalling out in several threads at once raised
 KeyError

---
 normalize/record/json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 778e076..636c58a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -199,11 +199,13 @@ def _json_data(x, extraneous):
             return x.json_data()
     else:
         htj = hasattr(x, "json_data") and callable(x.json_data)
-        has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
             tjte = 'extraneous' in argspec.args + argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
+        # last, as other threads look at this first
+        has_json_data[type(x)] = htj
+        if htj:
             if tjte:
                 return x.json_data(extraneous=extraneous)
             else:
-- 
2.43.0


From c0a093e4d23abfc1e8f83b6179e6a7044aeebb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:33 +0000
Subject: [PATCH 73/79] fix: list_of() and dict_of() in several threads at once
 gave different types

---
 normalize/coll.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 2f5f489..fe6dd66 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -507,20 +507,21 @@ def _make_generic(of, coll):
 
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
-    if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of or (
-            not issubclass(GENERIC_TYPES[key], coll)
-        ):
-            raise exc.PropertyNotUnique(key=key)
-    else:
+    if key not in GENERIC_TYPES:
         # oh, we get to name it?  Goodie!
         generic_name = "%s%s" % (of.__name__, coll.suffix)
-        GENERIC_TYPES[key] = type(
+        new_type = type(
             generic_name, (coll, _Generic), dict(itemtype=of, generic_key=key)
         )
-        mod = sys.modules[of.__module__]
-        if not hasattr(mod, generic_name):
-            setattr(mod, generic_name, GENERIC_TYPES[key])
+        # (unless another thread just did)
+        if GENERIC_TYPES.setdefault(key, new_type) is new_type:
+            mod = sys.modules[of.__module__]
+            if not hasattr(mod, generic_name):
+                setattr(mod, generic_name, new_type)
+    if GENERIC_TYPES[key].itemtype != of or (
+        not issubclass(GENERIC_TYPES[key], coll)
+    ):
+        raise exc.PropertyNotUnique(key=key)
     return GENERIC_TYPES[key]
 
 
-- 
2.43.0


From 24c858bb73ce954e4d9d4f980b1580c540e0f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 74/79] fix: declaring properties in several threads at once
 raised PropertyTypeClash

---
 normalize/property/meta.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 270cf19..9ca8e71 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -16,12 +16,16 @@
 
 from collections import defaultdict
 import inspect
+import threading
 
 import normalize.exc as exc
 
 
 PROPERTY_TYPES = dict()
 
+# held while a property type is being made
+COMPOSING = threading.RLock()
+
 # Duck typing kwargs... for picking the right Property sub-class to instantiate
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
@@ -104,7 +108,10 @@ def has(self, args, kwargs):
     trait_set_key = tuple(sorted(all_traits))
 
     if trait_set_key not in PROPERTY_TYPES:
-        create_property_type_from_traits(trait_set_key)
+        with COMPOSING:
+            # (unless another thread just did)
+            if trait_set_key not in PROPERTY_TYPES:
+                create_property_type_from_traits(trait_set_key)
     property_type = PROPERTY_TYPES[trait_set_key]
     if not isinstance(property_type, type(self)):
         raise exc.PropertyTypeMismatch(
-- 
2.43.0


From d3aed47cf018b9a807ed2979fb6d84d85e5e015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 75/79] fix: putting a JSON dict collection to all items of
 another one raised

---
 normalize/selector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 2a4ecd4..18e58b2 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -210,6 +210,8 @@ class FieldSelector(object):
             selector = self.selectors[0]
             if selector is None:
                 if isinstance(record, (dict, DictCollection)):
+                    if isinstance(value, DictCollection):
+                        value = dict(value.items())
                     items = type(record)(value)
                     record.clear()
                     record.update(items)
-- 
2.43.0


From e3ee2a89860ef8f6cf97d7bf52445c12c1cba7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 76/79] fix: default arguments of a base of a property type
 made without any were lost

---
 normalize/property/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 9ca8e71..fe2e0af 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -191,7 +191,9 @@ def create_property_type_from_traits(trait_set):
 
     # types which supply default arguments have to be initialized before those
     # which take the arguments.
-    bases.sort(key=lambda x: not getattr(x, 'default_kwargs', None))
+    bases.sort(key=lambda x: not any(
+        base.__dict__.get('default_kwargs') for base in x.__mro__
+    ))
 
     new_name = bases[0].__name__
     for base_type in bases[1:]:
-- 
2.43.0


From 597c1b280f73e911659e629ea423212942b1b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:21 +0000
Subject: [PATCH 77/79] fix: repr of errors with tuples among their arguments

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 4dc19b7..ed1c227 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -68,7 +68,7 @@ class StringFormatException(NormalizeError):
         return "%s%s(%s)" % (
             "exc." if self.__module__.endswith(".exc") else "",
             type(self).__name__, ", ".join(
-                tuple("%r" % x for x in self.args) +
+                tuple(repr(x) for x in self.args) +
                 tuple("%s=%r" % (k, v) for k, v in self.kwargs.items())
             )
         )
-- 
2.43.0


From c18474c62892d518bc7033adffb7d287afb19e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:28 +0000
Subject: [PATCH 78/79] fix: typed lists find items as lists do (tuples, values
 unequal to themselves)

---
 normalize/coll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index fe6dd66..228928d 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -383,9 +383,9 @@ class ListCollection(KeyedCollection):
             if j < 0:
                 j = 0
         for k in range(i, min(j, len_)):
-            if self[k] == x:
+            if self[k] is x or self[k] == x:
                 return k
-        raise ValueError("%r is not in list" % x)
+        raise ValueError("%r is not in list" % (x,))
 
     def insert(self, i, x):
         if i < 0:
-- 
2.43.0


From bc0b8587947067f21d50b8c00d9584c32500d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:55 +0000
Subject: [PATCH 79/79] fix: a value which a coerce function's subtype refused
 was stored

---
 normalize/property/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 2cbf646..443e26c 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -206,12 +206,14 @@ class Property(metaclass=MetaProperty):
         if value is None and self.required and not self.valuetype:
             raise exc.PropertyRequired(prop=self)
         if self.valuetype and not isinstance(value, self.valuetype):
+            refused = False
             try:
                 new_value = self.coerce(value)
             except exc.SubtypeCoerceError as e:
                 # this particular coerce error will be re-caught below,
                 # unless the coerce method returned None
                 new_value = e.coerced
+                refused = True
             except Exception as e:
                 raise exc.CoerceError(
                     prop=self,
@@ -228,7 +230,7 @@ class Property(metaclass=MetaProperty):
                         self.valuetype.__name__
                     ),
                 )
-            if not isinstance(new_value, self.valuetype):
+            if refused or not isinstance(new_value, self.valuetype):
                 if _none_ok and new_value is None and not self.required:
                     # allow coerce functions to return 'None' to silently
                     # swallow optional properties on initialization
-- 
2.43.0

