From 4eb4fcb0834a50b4f23b5f8c1820457f060058ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 01/34] fix: deserialize an unparameterized frozenset into a
 frozenset

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7c651d1..395cb1f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -574,7 +574,7 @@ def from_obj(
                 res = [thisfunc(type_args(c)[0], e) for e in o]
         elif is_set(c):
             if is_bare_set(c):
-                res = set(o)
+                res = frozenset(o) if is_frozen_set(c) else set(o)
             elif is_frozen_set(c):
                 res = frozenset(thisfunc(type_args(c)[0], e) for e in o)
             else:
@@ -1098,7 +1098,7 @@ class Renderer:
         Render rvalue for set.
         """
         if is_bare_set(arg.type):
-            return f"set({arg.data})"
+            return f"{'frozenset' if is_frozen_set(arg.type) else 'set'}({arg.data})"
         elif is_frozen_set(arg.type):
             return f"frozenset({self.render(arg[0])} for v in {arg.data})"
         else:
-- 
2.43.0


From cad6c426b57a37b5661b65c93e368b6731d0300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 02/34] fix: deserialize a frozenset held by a union

---
 serde/compat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..0728966 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -200,9 +200,9 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         args = type_args(typ)
         if args:
             et = thisfunc(args[0])
-            return f"{mod}set[{et}]"
+            return f"frozenset[{et}]" if is_frozen_set(typ) else f"{mod}set[{et}]"
         else:
-            return f"{mod}set"
+            return "frozenset" if is_frozen_set(typ) else f"{mod}set"
     elif is_dict(typ):
         args = type_args(typ)
         if args and len(args) == 2:
-- 
2.43.0


From ec1f7f3634c0e9f79bb4f0eb3962aeeeeb3c0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 03/34] fix: deserialize an IntEnum or str-mixin enum held by a
 union

---
 serde/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 395cb1f..2ff3a78 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1475,7 +1475,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
+    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1689,6 +1689,7 @@ def render_union_func(
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
         is_primitive=is_primitive,
+        is_enum=is_enum,
         is_none=is_none,
         typename=typename,
     )
-- 
2.43.0


From f5058b2428a0d16eea316fba9d8ea6c344a0abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 04/34] fix: support a PEP 695 alias of a Literal type

---
 serde/compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/compat.py b/serde/compat.py
index 0728966..5528ce9 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -466,6 +466,8 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
+        elif is_pep695_type_alias(cls):
+            recursive(cls.__value__)
         if is_dataclass(cls):
             stack.append(cls)
             if isinstance(cls, type):
-- 
2.43.0


From 99ee8d8fe5d3809cf7eec47f3ef9cfa041bfbef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 05/34] fix: support a PEP 695 alias as a member of a union

---
 serde/compat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serde/compat.py b/serde/compat.py
index 5528ce9..a9f7a78 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -397,6 +397,7 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
                 recursive(args[0])
                 recursive(args[1])
         elif is_pep695_type_alias(cls):
+            lst.add(cls)
             recursive(cls.__value__)
         else:
             lst.add(cls)
-- 
2.43.0


From 065d3ca060d193d9294d5f1b39edae0a45297e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 06/34] fix: alias works together with rename/rename_all and on
 every field type

---
 serde/de.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 2ff3a78..cd7cd5b 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -842,6 +842,10 @@ class DeField(Field[T]):
 
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
+        elif self.alias:
+            names = ",".join(f'"{s}"' for s in [self.conv_name(), *self.alias])
+            nullable = is_union(self.type) and type(None) in get_args(self.type)
+            return f"_get_by_aliases({self.datavar}, [{names}], raise_error={not nullable})"
         elif is_union(self.type) and type(None) in get_args(self.type):
             return f'{self.datavar}.get("{self.conv_name()}")'
         else:
@@ -1192,9 +1196,6 @@ class Renderer:
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         return f"deserialize_enum({typename(arg.type)}, {dat})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
@@ -1205,9 +1206,6 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
@@ -1259,7 +1257,7 @@ class Renderer:
         """
 
         def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (f'"{s}"' for s in [arg.name, *arg.alias])
+            return (f'"{s}"' for s in [arg.conv_name(), *arg.alias])
 
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
-- 
2.43.0


From c579289288fad9adf8cd98097982a41bc3057482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 07/34] fix: keep unions of the same types in a different order
 apart in the cache

---
 serde/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..0e40a54 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -93,6 +93,9 @@ SETTINGS = {"debug": False}
 @dataclass(frozen=True)
 class UnionCacheKey:
     union: Hashable
+    args: tuple[Any, ...]
+    """ Types of the union in the declared order: `Union[A, B]` and `Union[B, A]` are equal but the
+    order decides which type is tried first, and the names of the generated functions. """
     tagging: Tagging
 
 
@@ -179,7 +182,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, args=type_args(union_cls), tagging=tagging)
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -191,7 +194,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, args=type_args(union_cls), tagging=tagging)
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
-- 
2.43.0


From 30f009b2282fba70c89f73762ed6b78ba3b34b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 08/34] fix: from_dict and from_tuple deserialize the elements
 of tuple[T, ...]

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index cd7cd5b..cb60dba 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -590,8 +590,10 @@ def from_obj(
             else:
                 res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
                 res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
         elif is_dict(c):
-- 
2.43.0


From a125c05143395d777b912867e953e73ffe860131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 09/34] fix: internal tagging leaves the serialized object's
 own dict unchanged

---
 serde/se.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index c3a0e18..dc690be 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -738,7 +738,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    res = {{rvalue(arg(t))}}
+    res = {**{{rvalue(arg(t))}}}
     res["{{tagging.tag}}"] = "{{typename(t)}}"
     return res
 
-- 
2.43.0


From 487c4dc345c249463277dfc77adf612d8924f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 10/34] fix: from_tuple aligns with to_tuple when a field is
 serialized only, and supports kw_only fields

---
 serde/de.py | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index cb60dba..553c34a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1321,13 +1321,17 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f,positions[f.name]))}}
   {% endfor %}
 
   try:
     return cls(
       {% for f in fields %}
+      {% if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% else %}
       __{{f.name}},
+      {% endif %}
       {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1501,6 +1505,35 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 )
 
 
+def _force_kw_only(fields: list[DeField[Any]]) -> list[DeField[Any]]:
+    """
+    Pass the fields declared after a field that is not deserialized to the constructor by keyword.
+    """
+    force_kw = False
+    for field in fields:
+        if not renderable(field):
+            force_kw = True
+        if force_kw:
+            field.kw_only = True
+    return fields
+
+
+def _positions(fields: list[DeField[Any]]) -> dict[str, int]:
+    """
+    Position of each field in the tuple. A field that is serialized but not deserialized
+    e.g. `init=False` occupies a position, too.
+    """
+    positions: dict[str, int] = {}
+    n = 0
+    for field in fields:
+        if field.name is None:
+            raise SerdeError("Field name is None.")
+        positions[field.name] = n
+        if renderable(field) or not (field.skip or field.skip_serializing):
+            n += 1
+    return positions
+
+
 def render_from_iter(
     cls: type[Any],
     legacy_class_deserializer: DeserializeFunc | None = None,
@@ -1516,7 +1549,8 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    all_fields = _force_kw_only(defields(cls))
+    fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1534,6 +1568,7 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             fields=fields,
+            positions=_positions(all_fields),
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
@@ -1614,13 +1649,7 @@ def render_from_dict(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    all_fields = defields(cls)
-    force_kw = False
-    for field in all_fields:
-        if not renderable(field):
-            force_kw = True
-        if force_kw:
-            field.kw_only = True
+    all_fields = _force_kw_only(defields(cls))
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename="__serde_transparent__", case=None)
-- 
2.43.0


From 051058996b224c467c4e61e41df752d7d3d4fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 11/34] fix: skip_if_default compares the value of the field
 and works together with skip_if_none

---
 serde/core.py | 45 +++++++++++++++++++++++++++++++++------------
 serde/se.py   | 10 +++++++++-
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 0e40a54..7670641 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -551,8 +551,11 @@ class Func:
     mangeld: str = ""
     """ Mangled function name """
 
-    def __call__(self, v: Any) -> None:
-        return self.inner(v)  # type: ignore
+    takes_value: bool = False
+    """ The function also takes the value of the field, next to the serialized value """
+
+    def __call__(self, *v: Any) -> None:
+        return self.inner(*v)  # type: ignore
 
     @property
     def name(self) -> str:
@@ -571,22 +574,36 @@ def skip_if_none(v: Any) -> Any:
 
 
 def skip_if_default(v: Any, default: Any | None = None) -> Any:
+    """
+    Test if the value of a field equals the default.
+    """
     if isinstance(default, dataclasses._MISSING_TYPE):
         return False
 
-    serialized_default = default
+    if v == default:
+        return True
 
-    # Align the comparison with how serde serializes defaults so nested dataclasses
-    # with class-level skip_if_default are handled correctly.
-    if dataclasses.is_dataclass(default) and not isinstance(default, type):
+    # Dataclasses which don't define equality are compared by the contents.
+    if (
+        dataclasses.is_dataclass(default)
+        and not isinstance(default, type)
+        and type(v) is type(default)
+        and type(v).__eq__ is object.__eq__
+    ):
         try:
             from .se import to_dict as serde_to_dict
 
-            serialized_default = serde_to_dict(default)
+            return serde_to_dict(v) == serde_to_dict(default)
         except Exception:
-            serialized_default = dataclasses.asdict(default)
+            return dataclasses.asdict(v) == dataclasses.asdict(default)
+
+    return False
+
 
-    return v == serialized_default  # Why return type is deduced to be Any?
+def skip_if_default_or_none(
+    serialized: Any, v: Any, default: Any | None = None, none: bool = False
+) -> Any:
+    return (none and skip_if_none(serialized)) or skip_if_default(v, default)
 
 
 @dataclass
@@ -722,10 +739,14 @@ class Field(Generic[T]):
             elif not isinstance(f.default_factory, dataclasses._MISSING_TYPE):
                 default_value = f.default_factory()
             else:
-                default_value = dataclasses._MISSING_TYPE
+                default_value = dataclasses.MISSING
 
-            skip_if_def = functools.partial(skip_if_default, default=default_value)
-            skip_if_default_func = Func(skip_if_def, cls.mangle(f, "skip_if_default"))
+            skip_if_def = functools.partial(
+                skip_if_default_or_none, default=default_value, none=bool(skip_if_none_flag)
+            )
+            skip_if_default_func = Func(
+                skip_if_def, cls.mangle(f, "skip_if_default"), takes_value=True
+            )
 
         skip_if: Func | None = None
         if f.metadata.get("serde_skip_if"):
diff --git a/serde/se.py b/serde/se.py
index dc690be..09a1fea 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -669,7 +669,7 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
       if __k not in res:
         res[__k] = __v
   {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}(subres):
+  if not {{f.skip_if.name}}({{skip_args(f)}}):
     {{lvalue(f)}} = subres
   {% else -%}
   if skip_none:
@@ -836,9 +836,17 @@ def render_to_dict(
             type_check=type_check,
             lvalue=lrenderer.render,
             rvalue=renderer.render,
+            skip_args=skip_args,
         )
 
 
+def skip_args(f: SeField[Any]) -> str:
+    """
+    Render arguments for the skip_if function of the field.
+    """
+    return f"subres, {f.varname}" if f.skip_if and f.skip_if.takes_value else "subres"
+
+
 def render_union_func(
     cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
 ) -> str:
-- 
2.43.0


From d171a7a5d52749db5be4341f66dca77bfaac8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 12/34] fix: skip_none also applies to fields with skip_if

---
 serde/se.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 09a1fea..634bdb1 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -669,7 +669,7 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
       if __k not in res:
         res[__k] = __v
   {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}({{skip_args(f)}}):
+  if not (skip_none and subres is None) and not {{f.skip_if.name}}({{skip_args(f)}}):
     {{lvalue(f)}} = subres
   {% else -%}
   if skip_none:
-- 
2.43.0


From fa1aa8de7fe5b871ca6fc1d13d376ef0d60bd40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 13/34] fix: to_dict and to_tuple convert an enum passed
 directly or in a collection

---
 serde/se.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serde/se.py b/serde/se.py
index 634bdb1..dcf1358 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import abc
 import copy
 import dataclasses
+import enum
 import functools
 import typing
 import itertools
@@ -438,6 +439,8 @@ def to_obj(
             return serializable_to_obj(o)
         elif is_serializable(o):
             return serializable_to_obj(o)
+        elif isinstance(o, enum.Enum):
+            return enum_value(type(o), o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return [thisfunc(e) for e in o]
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
-- 
2.43.0


From 2fba47902c45fbcebb9b5ffea56c9d6b78025831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 14/34] fix: to_pickle honours skip_none

---
 serde/pickle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/serde/pickle.py b/serde/pickle.py
index b48fb08..4a505ac 100644
--- a/serde/pickle.py
+++ b/serde/pickle.py
@@ -34,7 +34,14 @@ def to_pickle(
     **opts: Any,
 ) -> bytes:
     return se.serialize(
-        to_dict(obj, c=cls, reuse_instances=reuse_instances, convert_sets=convert_sets), **opts
+        to_dict(
+            obj,
+            c=cls,
+            reuse_instances=reuse_instances,
+            convert_sets=convert_sets,
+            skip_none=skip_none,
+        ),
+        **opts,
     )
 
 
-- 
2.43.0


From c4e9a79de8993e1273f6c7a16d5d5de1d93c5425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 15/34] fix: to_msgpack accepts skip_none as documented

---
 serde/msgpack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 22bab81..bbee20e 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -50,6 +50,7 @@ def to_msgpack(
     ext_dict: dict[type[Any], int] | None = None,
     reuse_instances: bool = False,
     convert_sets: bool = True,
+    skip_none: bool = False,
     **opts: Any,
 ) -> bytes:
     """
@@ -76,7 +77,12 @@ def to_msgpack(
         if ext_type_code is None:
             raise SerdeError(f"Could not find type code for {obj_type.__name__} in ext_dict")
 
-    kwargs: Any = {"c": cls, "reuse_instances": reuse_instances, "convert_sets": convert_sets}
+    kwargs: Any = {
+        "c": cls,
+        "reuse_instances": reuse_instances,
+        "convert_sets": convert_sets,
+        "skip_none": skip_none,
+    }
     dict_or_tuple = to_dict(obj, **kwargs) if named else to_tuple(obj, **kwargs)
     return se.serialize(
         dict_or_tuple,
-- 
2.43.0


From eebcd2c7fa915036ff00ad8ee0beb0706d8cf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 16/34] fix: a flattened dataclass keeps its own options and
 may be None when serialized

---
 serde/se.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index dcf1358..a7deaf6 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -53,6 +53,7 @@ from .compat import (
     is_literal,
     is_none,
     is_opt,
+    is_opt_dataclass,
     is_primitive,
     is_set,
     is_str_serializable,
@@ -665,7 +666,11 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
   {% for f in fields -%}
   {% if not (f.skip or f.skip_serializing) -%}
   subres = {{rvalue(f)}}
-  {% if lvalue(f) == '__FLATTEN_DICT__' -%}
+  {% if lvalue(f) == '__FLATTEN_DATACLASS__' -%}
+  # Merge the fields of flattened dataclass into result
+  if subres is not None:
+    res.update(subres)
+  {% elif lvalue(f) == '__FLATTEN_DICT__' -%}
   # Merge flattened dict into result (declared fields take precedence)
   if subres:
     for __k, __v in subres.items():
@@ -884,27 +889,15 @@ class LRenderer:
         """
         Render lvalue
         """
-        if is_dataclass(arg.type) and arg.flatten:
-            return self.flatten(arg)
-        elif is_opt(arg.type) and arg.flatten:
-            inner = arg[0]
-            if is_dataclass(inner.type):
-                return self.flatten(inner)
+        if arg.flatten and (is_dataclass(arg.type) or is_opt_dataclass(arg.type)):
+            # Special marker for flatten dataclass - handled by template
+            return "__FLATTEN_DATACLASS__"
         elif is_flatten_dict(arg.type) and arg.flatten:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
         return f'res["{arg.conv_name(self.case)}"]'
 
-    def flatten(self, arg: SeField[Any]) -> str:
-        """
-        Render field with flatten attribute.
-        """
-        flattened = []
-        for f in sefields(arg.type, self.serialize_class_var):
-            flattened.append(self.render(f))
-        return ", ".join(flattened)
-
 
 @dataclass
 class Renderer:
@@ -1020,7 +1013,7 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        if arg.flatten:
+        if arg.flatten and self.func == TO_ITER:
             flattened = []
             for f in sefields(arg.type, self.serialize_class_var):
                 f.parent = arg
@@ -1041,7 +1034,7 @@ class Renderer:
 
         inner = arg[0]
         inner.name = arg.varname
-        if arg.flatten:
+        if arg.flatten and self.func == TO_ITER:
             return self.render(inner)
         else:
             return f"({self.render(inner)}) if {arg.varname} is not None else None"
-- 
2.43.0


From 2c35479d8d31f72ddc34f9a5b4c2d81af7662a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 17/34] fix: restore a flattened dataclass with renamed,
 optional or omitted fields

---
 serde/core.py |  3 +++
 serde/de.py   | 57 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 7670641..d9d071d 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -264,6 +264,9 @@ class Scope:
     de_known_fields: set[str] = dataclasses.field(default_factory=set)
     """ Field names accepted by the generated from_dict function """
 
+    de_required_fields: list[tuple[str, ...]] = dataclasses.field(default_factory=list)
+    """ Names, with aliases, of the fields the generated from_dict function can't go without """
+
     de_has_flatten_dict: bool = False
     """ True when generated from_dict or a flattened child captures unknown fields """
 
diff --git a/serde/de.py b/serde/de.py
index 553c34a..d2e5e14 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1073,13 +1073,7 @@ class Renderer:
         if arg.iterbased or isinstance(arg, InnerField):
             exists = f"{arg.data} is not None"
         elif arg.flatten:
-            # Check nullabilities of all nested fields.
-            exists = " and ".join(
-                [
-                    f'{arg.datavar}.get("{f.name}") is not None'
-                    for f in dataclasses.fields(inner.type)
-                ]
-            )
+            exists = self.flattened_exists(arg, inner.type)
         else:
             name = arg.conv_name()
             if arg.alias:
@@ -1253,6 +1247,22 @@ class Renderer:
             "deserialize_numbers=deserialize_numbers)"
         )
 
+    def flattened_exists(self, arg: DeField[Any], cls: type[Any]) -> str:
+        """
+        Render condition that tells if the data has the fields of a flattened dataclass: all of
+        the required fields or, when every field can be omitted, any of the fields.
+        """
+        scope: Scope = getattr(cls, SERDE_SCOPE)
+        required = scope.de_required_fields or [sorted(scope.de_known_fields)]
+        exists = " and ".join(
+            f"_exists_by_aliases({arg.datavar}, {list(names)!r})" for names in required
+        )
+        if scope.de_required_fields and is_opt(arg.type):
+            # An optional dataclass is None as well when all of its fields are None.
+            all_names = [name for names in required for name in names]
+            exists += f" and any({arg.datavar}.get(n) is not None for n in {all_names!r})"
+        return exists
+
     def default(self, arg: DeField[Any], code: str) -> str:
         """
         Renders supplying default value during deserialization.
@@ -1262,16 +1272,7 @@ class Renderer:
             return (f'"{s}"' for s in [arg.conv_name(), *arg.alias])
 
         if arg.flatten:
-            # When a field has the `flatten` attribute, iterate over its dataclass fields.
-            # This ensures that the code checks keys in the data while considering aliases.
-            flattened = []
-            for subarg in defields(arg.type):
-                if subarg.alias:
-                    aliases = get_aliased_fields(subarg)
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])")
-                else:
-                    flattened.append(f'"{subarg.name}" in {arg.datavar}')
-            exists = " and ".join(flattened)
+            exists = self.flattened_exists(arg, arg[0].type if is_opt(arg.type) else arg.type)
         else:
             if arg.alias:
                 aliases = get_aliased_fields(arg)
@@ -1632,6 +1633,27 @@ def _collect_known_fields(
     return known
 
 
+def _collect_required_fields(
+    fields: list[DeField[Any]], rename_all: str | None
+) -> list[tuple[str, ...]]:
+    """
+    Collect names of the fields, including aliases, that have to be in the input.
+    """
+    flattened_children = _collect_flattened_dataclass_child_scopes(fields)
+    required: list[tuple[str, ...]] = []
+    for f in fields:
+        if f.supports_default() or is_opt(f.type):
+            continue
+        if is_union(f.type) and type(None) in get_args(f.type):
+            continue
+        child_scope = flattened_children.get(f.name) if f.name is not None else None
+        if child_scope is not None:
+            required.extend(child_scope.de_required_fields)
+        elif not f.flatten:
+            required.append(tuple(get_known_fields(f, rename_all)))
+    return required
+
+
 def render_from_dict(
     cls: type[Any],
     rename_all: str | None = None,
@@ -1678,6 +1700,7 @@ def render_from_dict(
         # Compute known fields - exclude flatten dict field itself since it captures unknown fields
         known_fields = _collect_known_fields(all_fields, rename_all, exclude_flatten_dict=True)
         serde_scope.de_known_fields = known_fields
+        serde_scope.de_required_fields = _collect_required_fields(fields, rename_all)
         serde_scope.de_has_flatten_dict = has_flatten_dict_transitively
 
         res = jinja2_env.get_template("dict").render(
-- 
2.43.0


From de47295c4b4d08ef5b76cde0bf2694cbe17ada08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 18/34] fix: a keyword-only field may be declared before other
 fields

---
 serde/de.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index d2e5e14..2b50f73 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1508,11 +1508,12 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
 def _force_kw_only(fields: list[DeField[Any]]) -> list[DeField[Any]]:
     """
-    Pass the fields declared after a field that is not deserialized to the constructor by keyword.
+    Pass the fields declared after a field that is not deserialized, or that is keyword only, to the
+    constructor by keyword.
     """
     force_kw = False
     for field in fields:
-        if not renderable(field):
+        if field.kw_only or not renderable(field):
             force_kw = True
         if force_kw:
             field.kw_only = True
-- 
2.43.0


From 8eca92476117b3b5e57914ff2266e9a66d234c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 19/34] fix: restore float subclasses from formats that convert
 numbers

---
 serde/de.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 2b50f73..4a1af12 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -622,6 +622,8 @@ def from_obj(
             res = c.fromisoformat(o)
         elif isinstance(c, type) and issubclass(c, float):
             res = deserialize_numbers(o) if deserialize_numbers else c(o)
+            if deserialize_numbers and c is not float:
+                res = c(res)
         elif is_any(c) or is_ellipsis(c):
             res = o
         else:
@@ -1208,8 +1210,11 @@ class Renderer:
             else:
                 assert arg.name
                 escaped_arg_name = arg.name.replace('"', '\\"')
+                number = f"deserialize_numbers({dat})"
+                if arg.type is not float:
+                    number = f"{typ}({number})"
                 return (
-                    f"deserialize_numbers({dat}) if deserialize_numbers else "
+                    f"{number} if deserialize_numbers else "
                     f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
                 )
         if self.suppress_coerce and suppress_coerce:
-- 
2.43.0


From df2dca015cf18e841fe5de585bea0412b0804e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 20/34] fix: a Literal in a union does not match values outside
 of it when serialized

---
 serde/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index d9d071d..e6be642 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -404,7 +404,7 @@ def is_instance(obj: Any, typ: Any) -> bool:
     elif is_generic(typ):
         return is_generic_instance(obj, typ)
     elif is_literal(typ):
-        return True
+        return any(type(obj) is type(v) and obj == v for v in type_args(typ))
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
         if type(inner) is type:
-- 
2.43.0


From 2be21bc35ae2f83fd1a7b53b2c9ec8632b7eee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 21/34] fix: tell frozenset from set in the functions generated
 for a union only

---
 serde/compat.py | 17 ++++++++++-------
 serde/core.py   |  3 ++-
 serde/de.py     |  2 +-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index a9f7a78..5a29014 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -152,7 +152,7 @@ def get_args(typ: type[Any]) -> tuple[Any, ...]:
 
 
 @cache
-def typename(typ: Any, with_typing_module: bool = False) -> str:
+def typename(typ: Any, with_typing_module: bool = False, with_frozenset: bool = False) -> str:
     """
     >>> from typing import Any
     >>> typename(int)
@@ -176,7 +176,9 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
     'Any'
     """
     mod = "typing." if with_typing_module else ""
-    thisfunc = functools.partial(typename, with_typing_module=with_typing_module)
+    thisfunc = functools.partial(
+        typename, with_typing_module=with_typing_module, with_frozenset=with_frozenset
+    )
     if is_opt(typ):
         args = type_args(typ)
         if args:
@@ -197,12 +199,13 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         else:
             return f"{mod}list"
     elif is_set(typ):
+        name = "frozenset" if with_frozenset and is_frozen_set(typ) else f"{mod}set"
         args = type_args(typ)
         if args:
             et = thisfunc(args[0])
-            return f"frozenset[{et}]" if is_frozen_set(typ) else f"{mod}set[{et}]"
+            return f"{name}[{et}]"
         else:
-            return "frozenset" if is_frozen_set(typ) else f"{mod}set"
+            return name
     elif is_dict(typ):
         args = type_args(typ)
         if args and len(args) == 2:
@@ -256,9 +259,9 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         if inner:
             return typename(inner)
 
-        name: str | None = getattr(typ, "_name", None)
-        if name:
-            return name
+        type_name: str | None = getattr(typ, "_name", None)
+        if type_name:
+            return type_name
         else:
             name = getattr(typ, "__name__", None)
             if isinstance(name, str):
diff --git a/serde/core.py b/serde/core.py
index e6be642..1d3229e 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -963,7 +963,8 @@ def union_func_name(prefix: str, union_args: Sequence[Any]) -> str:
     >>> union_func_name("union_se", [int, list[str], IPv4Address])
     'union_se_int_list_str__IPv4Address'
     """
-    return re.sub(r"[^A-Za-z0-9]", "_", f"{prefix}_{'_'.join([typename(e) for e in union_args])}")
+    names = [typename(e, with_frozenset=True) for e in union_args]
+    return re.sub(r"[^A-Za-z0-9]", "_", f"{prefix}_{'_'.join(names)}")
 
 
 def literal_func_name(literal_args: Sequence[Any]) -> str:
diff --git a/serde/de.py b/serde/de.py
index 4a1af12..4ecdb2d 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1490,7 +1490,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, {{typename(t, with_frozenset=True)}}), "object is not of type '{{typename(t)}}'")
     return res
   except Exception as e:
     errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
-- 
2.43.0


From 8ab386c115117ae860f704751f85d4eb74b8126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 22/34] fix: a class deserializer also applies to the elements
 of a field next to a legacy deserializer

---
 serde/de.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 4ecdb2d..802b2bb 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1012,7 +1012,12 @@ class Renderer:
         ):
             # Rerender the code for default deserializer.
             default = Renderer(
-                self.func, self.cls, None, suppress_coerce=self.suppress_coerce
+                self.func,
+                self.cls,
+                None,
+                suppress_coerce=self.suppress_coerce,
+                class_deserializer=self.class_deserializer,
+                class_name=self.class_name,
             ).render(arg)
             return self.custom_class_deserializer(arg, default)
         else:
-- 
2.43.0


From 8eccb267b66dd0c591289d85ab854aae49235865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 23/34] fix: restore the values of generic classes by their
 type arguments

---
 serde/compat.py | 62 +++++++++++++++++++++++++++++++++++++++++++++++++
 serde/core.py   |  3 +++
 serde/de.py     | 58 +++++++++++++++++++++++++++------------------
 serde/se.py     |  5 +++-
 4 files changed, 105 insertions(+), 23 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 5a29014..365e6d3 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -1181,3 +1181,65 @@ def get_generic_arg(
         return typing.Any
 
     return args[orig_index]
+
+
+def resolve_type_var(typ: Any, name: str) -> Any:
+    """
+    Get the type bound to a type variable of a generic class, or of one of its base classes.
+    A variable that is not bound is regarded as `Any`.
+
+    >>> T = typing.TypeVar('T')
+    >>> U = typing.TypeVar('U')
+    >>> class GenericFoo(typing.Generic[T]):
+    ...     pass
+    >>> class GenericBar(GenericFoo[list[U]], typing.Generic[U]):
+    ...     pass
+    >>> resolve_type_var(GenericFoo[int], 'T').__name__
+    'int'
+    >>> resolve_type_var(GenericBar[int], 'U').__name__
+    'int'
+    >>> resolve_type_var(GenericBar[int], 'T')
+    list[int]
+    >>> resolve_type_var(GenericFoo, 'T')
+    typing.Any
+    """
+    args = list(_find_type_args(typ, name))
+    # The same name may stand for different types in a class and its bases.
+    ambiguous = any(arg != args[0] for arg in args)
+    return typing.Any if not args or ambiguous or isinstance(args[0], TypeVar) else args[0]
+
+
+def _find_type_args(typ: Any, name: str) -> Iterator[Any]:
+    origin = get_origin(typ) or typ
+    params = [param.__name__ for param in getattr(origin, "__parameters__", ())]
+    bound = dict(zip(params, type_args(typ))) if get_origin(typ) else {}
+    if name in bound:
+        yield bound[name]
+    for base in vars(origin).get("__orig_bases__", origin.__bases__):
+        if get_origin(base) is not Generic and base not in (Generic, object):
+            for arg in _find_type_args(base, name):
+                yield _replace_type_vars(arg, lambda name: bound.get(name, typing.Any))
+
+
+def bind_type_vars(typ: Any, generic: Any) -> Any:
+    """
+    Replace type variables in a type with the types bound to them in a generic class.
+
+    >>> T = typing.TypeVar('T')
+    >>> class GenericFoo(typing.Generic[T]):
+    ...     pass
+    >>> bind_type_vars(dict[str, T], GenericFoo[int])
+    dict[str, int]
+    >>> bind_type_vars(list[str], GenericFoo[int])
+    list[str]
+    """
+    return _replace_type_vars(typ, lambda name: resolve_type_var(generic, name))
+
+
+def _replace_type_vars(typ: Any, find: Callable[[str], Any]) -> Any:
+    if isinstance(typ, TypeVar):
+        return find(typ.__name__)
+    params = getattr(typ, "__parameters__", ())
+    if get_origin(typ) is None or not params:
+        return typ
+    return typ[tuple(find(param.__name__) for param in params)]
diff --git a/serde/core.py b/serde/core.py
index 1d3229e..777c1e1 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -276,6 +276,9 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    generic_types: list[Any] = dataclasses.field(default_factory=list)
+    """ Subscripted generic types of the fields, referenced by the deserializing functions """
+
     reuse_instances_default: bool = True
     """ Default values for to_dict & from_dict arguments """
 
diff --git a/serde/de.py b/serde/de.py
index 802b2bb..752d8c7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -25,11 +25,10 @@ from .compat import (
     SerdeSkip,
     T,
     UserError,
-    find_generic_arg,
     get_args,
-    get_generic_arg,
     get_origin,
-    get_type_var_names,
+    bind_type_vars,
+    resolve_type_var,
     is_any,
     is_bare_counter,
     is_bare_deque,
@@ -78,6 +77,7 @@ from .core import (
     disabled,
     Scope,
     Tagging,
+    Untagged,
     TypeCheck,
     add_func,
     coerce_object,
@@ -319,7 +319,10 @@ def deserialize(
         g["collections"] = collections
         g["Literal"] = Literal
         g["from_obj"] = from_obj
-        g["get_generic_arg"] = get_generic_arg
+        g["get_origin"] = get_origin
+        g["_untagged"] = _untagged
+        g["resolve_type_var"] = resolve_type_var
+        g["bind_type_vars"] = bind_type_vars
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
@@ -989,12 +992,10 @@ class Renderer:
             # For subclasses for primitives e.g. class FooStr(str), coercing is always enabled
             res = self.primitive(arg, not is_primitive_subclass(arg.type))
         elif isinstance(arg.type, TypeVar):
-            if not self.cls:
-                raise SerdeError("Missing cls")
-            index = find_generic_arg(self.cls, arg.type)
+            # Values of a type variable are serialized without tags.
             res = (
-                f"from_obj(get_generic_arg(maybe_generic, maybe_generic_type_vars, "
-                f"variable_type_args, {index}), {arg.data}, named={not arg.iterbased}, "
+                f"from_obj(_untagged(resolve_type_var(maybe_generic, {arg.type.__name__!r})), "
+                f"{arg.data}, named={self.func != FROM_ITER}, "
                 "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers)"
             )
         elif is_literal(arg.type):
@@ -1057,11 +1058,19 @@ class Renderer:
             else:
                 var = arg.datavar
 
-        type_args_str = [str(t).lstrip("~") for t in arg.type_args] if arg.type_args else None
+        if arg.type_args:
+            # Subscripted generic type e.g. Foo[Bar] or Foo[T], the type variables of the latter
+            # are known when the function is called.
+            scope: Scope = getattr(self.cls, SERDE_SCOPE)
+            scope.generic_types.append(arg.type[tuple(arg.type_args)])
+            generic = f"serde_scope.generic_types[{len(scope.generic_types) - 1}]"
+            maybe_generic = f"bind_type_vars({generic}, maybe_generic)"
+        else:
+            maybe_generic = "maybe_generic"
 
         opts = (
-            "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
-            f"variable_type_args={type_args_str}, reuse_instances=reuse_instances, "
+            f"maybe_generic={maybe_generic}, maybe_generic_type_vars=maybe_generic_type_vars, "
+            "variable_type_args=None, reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers"
         )
 
@@ -1241,7 +1250,7 @@ class Renderer:
         func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
         return (
             f"serde_scope.funcs['{func_name}']("
-            "cls=cls, "
+            "cls=cls, maybe_generic=maybe_generic, "
             f"data={arg.data}, "
             "reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers)"
@@ -1316,6 +1325,10 @@ def to_iter_arg(f: DeField[T], *args: Any, **kwargs: Any) -> DeField[T]:
     return f
 
 
+def _untagged(typ: Any) -> Any:
+    return Untagged(typ) if is_union(typ) and not is_opt(typ) else typ
+
+
 def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
@@ -1329,7 +1342,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
+  if get_origin(maybe_generic) is not cls:
+    maybe_generic = cls
 
   {% for f in fields %}
   __{{f.name}} = {{rvalue(arg(f,positions[f.name]))}}
@@ -1356,7 +1370,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
+  if get_origin(maybe_generic) is not cls:
+    maybe_generic = cls
 
   fake_data = (data,)
   __{{field.name}} = {{rvalue(field)}}
@@ -1380,6 +1395,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
+  if get_origin(maybe_generic) is not cls:
+    maybe_generic = cls
+
   {% if deny_unknown_fields and not has_flatten_dict %}
   known_fields = {{ known_fields }}
   unknown_fields = set((data or {}).keys()) - known_fields
@@ -1387,8 +1405,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     raise SerdeError(f'unknown fields: {unknown_fields}, expected one of {known_fields}')
   {% endif %}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   {% if has_flatten_dict %}
   __flatten_known_fields = {{ known_fields }}
   __flatten_extra = {k: v for k, v in (data or {}).items() if k not in __flatten_known_fields}
@@ -1445,7 +1461,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
+  if get_origin(maybe_generic) is not cls:
+    maybe_generic = cls
 
   fake_dict = {"__serde_transparent__": data}
   __{{field.name}} = {{rvalue(field)}}
@@ -1467,6 +1484,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
+  maybe_generic = maybe_generic or cls
   errors = []
   {% for t in union_args %}
   try:
@@ -1572,7 +1590,6 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             field=field,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
         )
     else:
@@ -1581,7 +1598,6 @@ def render_from_iter(
             serde_scope=serde_scope,
             fields=fields,
             positions=_positions(all_fields),
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
         )
@@ -1696,7 +1712,6 @@ def render_from_dict(
             serde_scope=serde_scope,
             field=field,
             type_check=type_check,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
         )
     else:
@@ -1719,7 +1734,6 @@ def render_from_dict(
             serde_scope=serde_scope,
             fields=fields,
             type_check=type_check,
-            cls_type_vars=get_type_var_names(cls),
             class_name=typename(cls),
             rvalue=renderer.render,
             arg=functools.partial(to_arg, rename_all=rename_all),
diff --git a/serde/se.py b/serde/se.py
index a7deaf6..c88bd0a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -974,7 +974,10 @@ class Renderer:
             res = f"{arg.varname} if reuse_instances else {arg.varname}.isoformat()"
         elif is_none(arg.type):
             res = "None"
-        elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
+        elif isinstance(arg.type, TypeVar):
+            named = self.func != TO_ITER
+            res = f"to_obj({arg.varname}, {named}, False, False, skip_none, typing.Any)"
+        elif is_any(arg.type):
             res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
-- 
2.43.0


From a5d892dcc591e917654327e403f5568e3f6eee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 24/34] fix: a str is not read as a collection of its
 characters when it is an arm of the union

---
 serde/de.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 752d8c7..5b20a46 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1511,6 +1511,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
+    {% elif text_types and is_collection(t) %}
+    ensure(not isinstance(fake_dict["fake_key"], ({{text_types}},)), "text is not a collection")
     {% endif %}
     res = {{rvalue(arg(t))}}
     ensure(is_bearable(res, {{typename(t, with_frozenset=True)}}), "object is not of type '{{typename(t)}}'")
@@ -1768,6 +1770,11 @@ def render_union_func(
         is_primitive=is_primitive,
         is_enum=is_enum,
         is_none=is_none,
+        # A str (or bytes) belongs to the arm of that type, not to a collection of its characters.
+        text_types=", ".join(typename(t) for t in union_args if t in (str, bytes, bytearray)),
+        is_collection=lambda t: any(
+            f(t) for f in (is_list, is_set, is_deque, is_tuple, is_counter)
+        ),
         typename=typename,
     )
 
-- 
2.43.0


From 000d34443ee900d6c09729e55502ec8018dd265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 25/34] fix: reuse_instances, convert_sets and skip_none also
 apply to a union passed directly

---
 serde/core.py | 17 ++++++++++++++---
 serde/de.py   |  4 +++-
 serde/se.py   |  8 +++++++-
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 777c1e1..04728ba 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -203,7 +203,14 @@ class Cache:
         self.classes[cache_key] = wrapper
         return wrapper
 
-    def serialize_union(self, cls: type[Any], obj: Any) -> Any:
+    def serialize_union(
+        self,
+        cls: type[Any],
+        obj: Any,
+        reuse_instances: bool | None = None,
+        convert_sets: bool | None = None,
+        skip_none: bool = False,
+    ) -> Any:
         """
         Serialize the specified Union into dict or tuple.
         """
@@ -211,12 +218,13 @@ class Cache:
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
-        return scope.funcs[func_name](obj, False, False)
+        return scope.funcs[func_name](obj, bool(reuse_instances), bool(convert_sets), skip_none)
 
     def deserialize_union(
         self,
         cls: type[T],
         data: Any,
+        reuse_instances: bool | None = None,
         deserialize_numbers: Callable[[str | int], float] | None = None,
     ) -> T:
         """
@@ -229,7 +237,10 @@ class Cache:
         return cast(
             T,
             scope.funcs[func_name](
-                cls=union_cls, data=data, deserialize_numbers=deserialize_numbers
+                cls=union_cls,
+                data=data,
+                reuse_instances=bool(reuse_instances),
+                deserialize_numbers=deserialize_numbers,
             ),
         )
 
diff --git a/serde/de.py b/serde/de.py
index 5b20a46..2699aae 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -539,7 +539,9 @@ def from_obj(
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to deserialize into the object.
-        return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        return CACHE.deserialize_union(
+            c, o, reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers
+        )
 
     if is_generic(c):
         # Store subscripted generic type such as Foo[Bar] in "maybe_generic",
diff --git a/serde/se.py b/serde/se.py
index c88bd0a..ee07b0a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -425,7 +425,13 @@ def to_obj(
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to serialize the object.
         if c and is_union(c) and not is_opt(c):
-            return CACHE.serialize_union(c, o)
+            return CACHE.serialize_union(
+                c,
+                o,
+                reuse_instances=reuse_instances,
+                convert_sets=convert_sets,
+                skip_none=skip_none,
+            )
 
         if o is None:
             return None
-- 
2.43.0


From 49257d2e853373a343533250fd1bfd4b21129d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 26/34] fix: convert_sets also applies to class instances held
 by members of type Any or a type variable

---
 serde/se.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index ee07b0a..c4e8a1a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -982,9 +982,9 @@ class Renderer:
             res = "None"
         elif isinstance(arg.type, TypeVar):
             named = self.func != TO_ITER
-            res = f"to_obj({arg.varname}, {named}, False, False, skip_none, typing.Any)"
+            res = f"to_obj({arg.varname}, {named}, False, convert_sets, skip_none, typing.Any)"
         elif is_any(arg.type):
-            res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
+            res = f"to_obj({arg.varname}, True, False, convert_sets, skip_none, typing.Any)"
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
             assert origin
-- 
2.43.0


From 6904ac524185371b85307fb86d5068a19df1f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 27/34] fix: options of a class decorator also apply when the
 class was decorated implicitly before

---
 serde/de.py | 4 ++++
 serde/se.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 2699aae..89fee8f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -300,6 +300,10 @@ def deserialize(
                 skip_if_none_default=skip_if_none,
             )
             setattr(cls, SERDE_SCOPE, scope)
+        else:
+            # The scope was made by `serialize`, or when another class with a field of this
+            # class was decorated earlier.
+            scope.reuse_instances_default = reuse_instances_default
         scope.transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
diff --git a/serde/se.py b/serde/se.py
index c4e8a1a..525ddde 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -262,6 +262,13 @@ def serialize(
                 skip_if_none_default=skip_if_none,
             )
             setattr(cls, SERDE_SCOPE, scope)
+        else:
+            # The scope was made by `deserialize`, or when another class with a field of this
+            # class was decorated earlier.
+            scope.reuse_instances_default = reuse_instances_default
+            scope.convert_sets_default = convert_sets_default
+            scope.skip_if_default_default = skip_if_default
+            scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_serializers: list[ClassSerializer] = list(
-- 
2.43.0


From 790375efd500801000a358bc0f6365bcf3c2521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 28/34] fix: restore every member of an enum whose values a
 data format changes, not only members like the first

---
 serde/core.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 04728ba..bd85312 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1199,17 +1199,43 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
     try:
         return typ(value)
     except (ValueError, KeyError):
+        for member in typ.__members__.values():
+            if is_encoded_enum_value(member.value, value):
+                return member
         # A ValueError/KeyError here means ``typ`` has at least one member (an
         # empty enum would raise TypeError instead), so ``__members__`` is never
         # empty in this branch.
         member_value_type = type(next(iter(typ.__members__.values())).value)
-        if isinstance(value, list) and member_value_type is tuple:
-            return typ(tuple(value))
         if isinstance(value, str) and member_value_type is not str:
             return typ(member_value_type(value))
         raise
 
 
+def is_encoded_enum_value(member_value: Any, value: Any) -> bool:
+    """
+    Test if ``value`` is what a data format makes of ``member_value``, the value of an enum member.
+    A nested enum is written as its value, a tuple comes back as a list, and a number used as a key
+    comes back as ``str``.
+
+    >>> is_encoded_enum_value((1, 2), [1, 2])
+    True
+    >>> is_encoded_enum_value(10, "10")
+    True
+    """
+    if isinstance(member_value, enum.Enum):
+        inner = member_value.value
+        return bool(inner == value) or is_encoded_enum_value(inner, value)
+    if isinstance(member_value, tuple):
+        return (
+            isinstance(value, list)
+            and len(member_value) == len(value)
+            and all(m == v or is_encoded_enum_value(m, v) for m, v in zip(member_value, value))
+        )
+    if isinstance(member_value, (int, float)) and not isinstance(member_value, bool):
+        return isinstance(value, str) and str(member_value) == value
+    return False
+
+
 def coerce_object(cls: str, field: str, typ: type[Any], obj: Any) -> Any:
     if obj is None:
         raise SerdeError(
-- 
2.43.0


From cf5900243427400e931fd059de5dfac1713e5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 29/34] fix: an enum deserialized directly or in a collection
 is read like an enum field

---
 serde/de.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 89fee8f..e5ada57 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -627,6 +627,8 @@ def from_obj(
             from .numpy import deserialize_numpy_array_direct
 
             res = deserialize_numpy_array_direct(c, o)
+        elif is_enum(c):
+            res = deserialize_enum(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif isinstance(c, type) and issubclass(c, float):
-- 
2.43.0


From 90e6a170f488cfa45ba534c4c98f44b715201db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 30/34] fix: keys of a mapping serialized directly are
 converted like the keys of a field

---
 serde/se.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index 525ddde..d372047 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -380,6 +380,17 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
     return TO_DICT not in scope.funcs
 
 
+def is_scalar_instance(obj: Any) -> bool:
+    """
+    Test if `obj` is an instance of a non-primitive type that is serialized into a primitive value.
+    """
+    return (
+        isinstance(obj, enum.Enum)
+        or is_str_serializable_instance(obj)
+        or is_datetime_instance(obj)
+    )
+
+
 def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     """Return a globally registered class serializer that handles ``typ``, if any.
 
@@ -460,14 +471,16 @@ def to_obj(
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return tuple(thisfunc(e) for e in o)
         elif isinstance(o, Mapping):
-            return {k: thisfunc(v) for k, v in o.items()}
+            return {
+                thisfunc(k) if is_scalar_instance(k) else k: thisfunc(v) for k, v in o.items()
+            }
         elif isinstance(o, Set):
             return [thisfunc(e) for e in o]
         elif isinstance(o, deque):
             return [thisfunc(e) for e in o]
         elif isinstance(o, Counter):
             return dict(o)
-        elif is_str_serializable_instance(o) or is_datetime_instance(o):
+        elif is_scalar_instance(o):
             se_cls = o.__class__ if not c or c is Any else c
             return CACHE.serialize(
                 se_cls,
-- 
2.43.0


From 33e5ae5345b77b99de6bf7757b1a6a23f6b65e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 31/34] fix: a mapping is not read as a collection of its keys
 when it is an arm of the union

---
 serde/de.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index e5ada57..501236a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1522,6 +1522,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif text_types and is_collection(t) %}
     ensure(not isinstance(fake_dict["fake_key"], ({{text_types}},)), "text is not a collection")
     {% endif %}
+    {% if is_sequence(t) %}
+    ensure(not isinstance(fake_dict["fake_key"], dict), "mapping is not a sequence of its keys")
+    {% endif %}
     res = {{rvalue(arg(t))}}
     ensure(is_bearable(res, {{typename(t, with_frozenset=True)}}), "object is not of type '{{typename(t)}}'")
     return res
@@ -1783,6 +1786,7 @@ def render_union_func(
         is_collection=lambda t: any(
             f(t) for f in (is_list, is_set, is_deque, is_tuple, is_counter)
         ),
+        is_sequence=lambda t: any(f(t) for f in (is_list, is_set, is_deque, is_tuple)),
         typename=typename,
     )
 
-- 
2.43.0


From b05d144e6c3980b62a2cee8ae2e41158087e9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 32/34] fix: float keys of a mapping are restored from formats
 that convert numbers

---
 serde/de.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 501236a..285c1b2 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -563,6 +563,8 @@ def from_obj(
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
         )
+        # Keys of a mapping may be `str` where values are numbers, e.g. in JSON.
+        keyfunc = functools.partial(from_obj, named=named, reuse_instances=reuse_instances)
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
@@ -597,7 +599,7 @@ def from_obj(
             if is_bare_counter(c):
                 res = collections.Counter(o)
             else:
-                res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
+                res = collections.Counter({keyfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
             if is_bare_tuple(c):
                 res = tuple(e for e in o)
@@ -615,13 +617,13 @@ def from_obj(
                 res = collections.defaultdict(
                     origin if origin else v.type,
                     {
-                        thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
+                        keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
                         for k, v in o.items()
                     },
                 )
             else:
                 res = {
-                    thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
+                    keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
                 }
         elif _is_numpy_array(c):
             from .numpy import deserialize_numpy_array_direct
-- 
2.43.0


From 4c3e0561fc55d4ecff468261e8ae77df823b869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 33/34] fix: text is not accepted for an enum of booleans or
 collections unless it is a member's value

---
 serde/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index bd85312..15e8688 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1206,7 +1206,9 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
         # empty enum would raise TypeError instead), so ``__members__`` is never
         # empty in this branch.
         member_value_type = type(next(iter(typ.__members__.values())).value)
-        if isinstance(value, str) and member_value_type is not str:
+        # Anything converts to these types, also text that is no member's value.
+        lenient = (str, bytes, bool, tuple, list, set, frozenset)
+        if isinstance(value, str) and not issubclass(member_value_type, lenient):
             return typ(member_value_type(value))
         raise
 
-- 
2.43.0


From 7c76552ea3a592fdcd030740872b0ea2fbefb78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 34/34] fix: class variables of enum and union types are
 serialized

---
 serde/se.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index d372047..7b6877b 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -296,8 +296,14 @@ def serialize(
                 serde_legacy_custom_class_serializer, custom=serializer
             )
 
+        roots: list[type[Any]] = [cls]
+        if serialize_class_var:
+            # Types of the class variables, which `iter_types` and `iter_unions` don't look at.
+            class_vars = (f.type for f in sefields(cls, serialize_class_var))
+            roots += [type_args(typ)[0] for typ in class_vars if is_class_var(typ)]
+
         # Collect types used in the generated code.
-        for typ in iter_types(cls):
+        for typ in itertools.chain.from_iterable(map(iter_types, roots)):
             # When we encounter a dataclass not marked with serialize, then also generate serialize
             # functions for it.
             if is_dataclass_without_se(typ) and typ is not cls:
@@ -310,7 +316,7 @@ def serialize(
             g[typename(typ)] = typ
 
         # render all union functions
-        for union in iter_unions(cls):
+        for union in itertools.chain.from_iterable(map(iter_unions, roots)):
             union_args = list(type_args(union))
             union_key = union_func_name(UNION_SE_PREFIX, union_args)
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
-- 
2.43.0

