From eeeda5138b82a953b5cd435b7ef4beaac46ac0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 001/150] fix: look builtins up in the builtins module when
 importing symbols

importlib.__builtins__ is a module on PyPy, so every Symbol conversion (and with it
every Loader, Repository and FileSaver construction) raised AttributeError.
---
 ngoschema/types/symbols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 9eedeef..359ffcc 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import builtins
 import logging
 import importlib
 import inspect
@@ -25,11 +26,11 @@ class Symbol(Primitive):
     """
     DOT = re.compile(r"\.")
     _pyType = None
-    _builtins = importlib.__builtins__
+    _builtins = vars(builtins)
 
     @staticmethod
     def _convert(self, value, **opts):
-        typed = self._builtins.get(value, value)
+        typed = self._builtins.get(value, value) if isinstance(value, str) else value
         if String.check(typed):
             value = String.convert(typed, **opts)
             poss = [m.start() for m in Symbol.DOT.finditer("%s." % typed)]
-- 
2.43.0


From d0eaaaf67026947bdde13348c53020113caf82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 002/150] fix: raise InvalidValue for strings that are not a
 date or a time

The message had a placeholder without argument, so the rejection itself failed with
IndexError.
---
 ngoschema/types/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 532600b..e4aa682 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -60,7 +60,7 @@ class Date(Primitive):
                     return a.date()
                 except Exception:
                     pass
-        raise InvalidValue("{0} is not detected as a date: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a date".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
@@ -100,7 +100,7 @@ class Time(Primitive):
                 return a.time()
             except Exception:
                 pass
-        raise InvalidValue("{0} is not detected as a time: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a time".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 8b01054fd0cc6490991add04808eb40d13163160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 003/150] fix: datetimes read back their own ISO 8601
 serialization and keep the UTC offset

_serialize produces isoformat() ('T' separated), which _convert rejected, and an explicit
offset in the text was parsed and then dropped, changing the instant.
---
 ngoschema/types/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index e4aa682..fa02512 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -135,9 +135,12 @@ class Datetime(Date, Time):
                     return arrow.utcnow()
                 if value in settings.DATE_TODAY_STRINGS:
                     return arrow.get(arrow.utcnow().date())
+                if 'T' in value:
+                    # ISO 8601, which is what _serialize produces by default
+                    return arrow.get(value)
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
-                dt = datetime.datetime.combine(a_d.date(), a_t.time())
+                dt = datetime.datetime.combine(a_d.date(), a_t.time(), a_t.tzinfo)
                 return arrow.get(dt)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
-- 
2.43.0


From 1faa4f26f34512a65c3fe73ec18cbf5677660af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 004/150] fix: honour AM/PM in time strings

'HH:mm' matched before 'HH:mm A' was tried, so '10:11 PM' was read as 10:11.
---
 ngoschema/config/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/config/settings.py b/ngoschema/config/settings.py
index 67e9b4a..dfc943e 100644
--- a/ngoschema/config/settings.py
+++ b/ngoschema/config/settings.py
@@ -136,6 +136,8 @@ ALT_DATE_FORMATS = [
 ]
 
 ALT_TIME_FORMATS = [
+    'HH:mm:ss A',
+    'HH:mm A',
     'HH:mm:ss.SSSSSS ZZ',
     'HH:mm:ss.SSSSSS',
     'HH:mm:ss.SSS ZZ',
@@ -144,8 +146,6 @@ ALT_TIME_FORMATS = [
     'HH:mm:ss ZZ',
     'HH:mm:ss',
     'HH:mm',
-    'HH:mm:ss A',
-    'HH:mm A',
 ]
 
 DATETIME_FORMATS = {
-- 
2.43.0


From 7027ab7ca7764d4d6a11e90519b17898867141c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 005/150] fix: enum conversion returns members unchanged and
 rejects out of range indices

---
 ngoschema/types/type.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 9ba2485..6c769ee 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -102,6 +102,9 @@ class Enum(Primitive):
         from .numerics import Integer
         from .strings import String
         enum = self._enum
+        if value in enum:
+            return value
+        s = value
         if String.check(value):
             s = String.convert(value, **opts)
             if s in enum:
@@ -110,7 +113,7 @@ class Enum(Primitive):
             i = Integer.convert(value)
             if i in enum:
                 return i
-            if i > len(enum):
+            if not 0 <= i < len(enum):
                 raise ConversionError('Index %i exceeds enum size of %r' % (i, enum))
             return enum[i]
 
-- 
2.43.0


From 76a0f685d8943e6312714a3e021da743f025db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 006/150] fix: reading a negated alias negates the value

---
 ngoschema/protocols/object_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 022d9c1..0a6d5c7 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -294,7 +294,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             if name not in self._propertiesAllowed:
                 return MutableMapping.__getattribute__(self, name)
                 return self.__dict__[name]
-        op = lambda x: neg(x) if name in self._aliasesNegated else x
+        negated = name in self._aliasesNegated
+        op = lambda x: neg(x) if negated and x is not None else x
         name = self._aliasesNegated.get(name, name)
         name = self._aliases.get(name, name)
         raw = self._propertiesTranslation.get(name, name)
@@ -396,7 +397,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._relationshipsDescriptor.get(key)
         if desc:
             return desc.__get__(self)
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        negated = key in self._aliasesNegated
+        op = lambda x: neg(x) if negated and x is not None else x
         key = self._aliasesNegated.get(key, key)
         key = self._aliases.get(key, key)
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From f96845f8507f847f523595a46167bdc5e2afb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 007/150] fix: dotted access paths may go through array indices

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 0a6d5c7..b028d7d 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -388,7 +388,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = getattr(cur, p) if isinstance(p, str) and hasattr(cur, p) else cur[p]
                     if cur is None:
                         return
                 return cur
@@ -419,7 +419,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = getattr(cur, p) if isinstance(p, str) and hasattr(cur, p) else cur[p]
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From f1bf0523b2bf0dc9f1e12b0f221e577d2fa9ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 008/150] fix: serializing without read only properties does
 not modify the excludes of the caller

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0b233c7..ea958c2 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -89,7 +89,7 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
-            excludes += list(self._readOnly)
+            excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
             if k in self._required:
                 yield k
-- 
2.43.0


From a2fee090a6fa446e8cc28d2cad6e40d005602072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 009/150] fix: multipleOf with a float divisor applies to
 decimal numbers

---
 ngoschema/managers/jsch_validators.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/jsch_validators.py b/ngoschema/managers/jsch_validators.py
index a96da66..d77c73f 100644
--- a/ngoschema/managers/jsch_validators.py
+++ b/ngoschema/managers/jsch_validators.py
@@ -2,6 +2,8 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import decimal
+
 from jsonschema import _validators
 from jsonschema.validators import create
 
@@ -36,7 +38,6 @@ jsch_validators_registry.register('minItems')(_validators.minItems)
 jsch_validators_registry.register('minLength')(_validators.minLength)
 jsch_validators_registry.register('minProperties')(_validators.minProperties)
 jsch_validators_registry.register('minimum')(_validators.minimum)
-jsch_validators_registry.register('multipleOf')(_validators.multipleOf)
 jsch_validators_registry.register('oneOf')(_validators.oneOf)
 jsch_validators_registry.register('not')(_validators.not_)
 jsch_validators_registry.register('pattern')(_validators.pattern)
@@ -51,6 +52,14 @@ jsch_validators_registry.register('definitions')(_validators.properties)
 jsch_validators_registry.register('$defs')(_validators.properties)
 
 
+@jsch_validators_registry.register('multipleOf')
+def multiple_of(validator, param, value, schema):
+    # numbers are instances of Decimal, which does not mix with floats
+    if isinstance(value, decimal.Decimal) and isinstance(param, float):
+        param = decimal.Decimal(str(param))
+    return _validators.multipleOf(validator, param, value, schema)
+
+
 @jsch_validators_registry.register('$recursiveRef')
 def recursive_ref(validator, ref, instance, schema):
     resolve = getattr(validator.resolver, "resolve", None)
-- 
2.43.0


From 3137ced8b2e0437161d5d94357f69629b173f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 010/150] fix: an enumeration honours a declared default that
 is falsy

---
 ngoschema/types/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 6c769ee..1402143 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -88,7 +88,7 @@ class Enum(Primitive):
     def __init__(self, **opts):
         Primitive.__init__(self, **opts)
         self._enum = self._schema.get('enum', [])
-        if self._enum and not self._default:
+        if self._enum and self._default is None:
             self._default = self._enum[0]
 
     @staticmethod
-- 
2.43.0


From f12c4dd033444b199a237f1bda1d16971107f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 011/150] fix: falsy defaults (0, false, '') of primitive
 properties are defaults

---
 ngoschema/types/type.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 1402143..35b8d69 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -43,6 +43,16 @@ class Primitive(Type):
         Type.__init__(self, **opts)
         self._rawLiterals = self._schema.get('rawLiterals', self._rawLiterals)
 
+    @staticmethod
+    def _has_default(self, value=None, **opts):
+        # falsy values (0, False or '') are values as good as any other
+        return value is not None or self._default is not None
+
+    @classmethod
+    def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
+        value = cls._default if value is None else value
+        return cls._deserialize(cls, value, raw_literals=raw_literals, **opts)
+
     @staticmethod
     def _check(self, value, **opts):
         from collections import Mapping, Sequence
-- 
2.43.0


From 7df225750719186b09338373ce6e3a096d34a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 012/150] fix: raise InvalidValue for values that are not a
 date, a time or a datetime

---
 ngoschema/types/datetime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index fa02512..37c82b5 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -41,7 +41,8 @@ class Date(Primitive):
         if value is None:
             return value
         if isinstance(value, (arrow.Arrow, datetime.datetime)):
-            assert value.time() == datetime.time(0, 0), value.time()
+            if value.time() != datetime.time(0, 0):
+                raise InvalidValue("{0} has a time component".format(value))
             return value.date()
         if isinstance(value, datetime.date):
             return value
@@ -87,7 +88,8 @@ class Time(Primitive):
         if isinstance(value, datetime.time):
             return value
         if isinstance(value, (datetime.datetime, arrow.Arrow)):
-            assert value.date() == datetime.date(1, 1, 1)
+            if value.date() != datetime.date(1, 1, 1):
+                raise InvalidValue("{0} has a date component".format(value))
             return value.time()
         if String.check(value, **opts):
             value = String.convert(value, **opts)
@@ -144,6 +146,7 @@ class Datetime(Date, Time):
                 return arrow.get(dt)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
+        raise InvalidValue("{0} is not detected as a datetime".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 9e2c13784b8545409d4efe664a0d6e895deeb0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 013/150] fix: objects with the same content compare equal

---
 ngoschema/protocols/object_protocol.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b028d7d..b4a80ad 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -256,6 +256,15 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __iter__(self):
         return iter(self._dataValidated.keys())
 
+    def __eq__(self, other):
+        if other is self:
+            return True
+        if not isinstance(other, Mapping) or set(self) != set(other):
+            return False
+        return all(self[k] == other[k] for k in self)
+
+    __hash__ = CollectionProtocol.__hash__
+
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-- 
2.43.0


From 32226e66028d42e71097414630f385ad0a6e19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 014/150] fix: refuse 24:00 in datetimes instead of moving it
 to the start of the day

---
 ngoschema/types/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 37c82b5..3233a79 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -142,6 +142,8 @@ class Datetime(Date, Time):
                     return arrow.get(value)
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
+                if a_t.date() != datetime.date(1, 1, 1):
+                    raise ValueError('hour must be in 0..23')
                 dt = datetime.datetime.combine(a_d.date(), a_t.time(), a_t.tzinfo)
                 return arrow.get(dt)
         except Exception as er:
-- 
2.43.0


From d18f569045e5e7902e81f58eb2295a86f82ee63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 015/150] fix: detect all the properties an expression or a
 pattern reads

---
 ngoschema/types/strings.py |  3 +-
 ngoschema/utils/jinja2.py  | 64 ++++++++++++++++++++++++++------------
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 0807a58..127dadd 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -59,7 +59,8 @@ class Expr(String):
 
     @staticmethod
     def _inputs(self, value, **opts):
-        return set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        inputs = [i[5:] if i.startswith('this.') else i for i in Expr._expr_regex.findall(str(value))]
+        return set(inputs).difference(builtins.__dict__)
 
 
 class Pattern(String):
diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index eddeea3..ab156e6 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -16,7 +16,7 @@ from builtins import str
 
 import inflection
 import jinja2
-import jinja2.parser
+import jinja2.nodes
 from slugify import slugify as _slugify
 
 from .utils import GenericClassRegistry
@@ -70,27 +70,51 @@ class TemplatedString(object):
 def get_jinja2_variables(source, remove_this=True):
     """return the list of variables in jinja2 source (no filters)"""
     env = default_jinja2_env()
-    parser = jinja2.parser.Parser(env, source)
+    try:
+        ast = env.parse(source)
+    except jinja2.TemplateSyntaxError:
+        return []
+    local = set(n.name for n in ast.find_all(jinja2.nodes.Name) if n.ctx != 'load').union(env.globals)
     vars = []
-    var = []
-    processing = False
-    for t in parser.stream:
-        if t.type == 'variable_begin':
-            processing = True
-            continue
-        if processing:
-            if t.type == 'variable_end' or t.value == '|':
-                processing=False
-                vars.append(''.join(var))
-                var = []
-                continue
-            if t.type == 'integer' and var[-1] == '.':
-                var.pop(-1)
-                var.append(f'[{t.value}]')
+
+    def add(node):
+        # path to a variable, made of attributes and constant indices
+        parts = []
+        while isinstance(node, (jinja2.nodes.Getattr, jinja2.nodes.Getitem)):
+            if isinstance(node, jinja2.nodes.Getattr):
+                parts.insert(0, f'.{node.attr}')
+            elif isinstance(node.arg, jinja2.nodes.Const) and isinstance(node.arg.value, int):
+                parts.insert(0, f'[{node.arg.value}]')
             else:
-                var.append(t.value)
-    return vars if not remove_this \
-        else [v.replace('this.', '').replace('self.', '') for v in vars]
+                parts = []
+                visit(node.arg)
+            node = node.node
+        if not isinstance(node, jinja2.nodes.Name):
+            return visit(node)
+        if node.name in ('this', 'self') and remove_this:
+            parts, name = parts[1:], parts[0][1:] if parts else ''
+        else:
+            name = node.name
+        if not any(p.startswith('.') for p in parts):
+            parts = []
+        if name and node.name not in local:
+            vars.append(name + ''.join(parts))
+
+    def visit(node):
+        if isinstance(node, jinja2.nodes.Call) and isinstance(node.node, jinja2.nodes.Getattr):
+            # method call: only the object it is called on is a variable
+            for child in node.iter_child_nodes(exclude=('node', )):
+                visit(child)
+            visit(node.node.node)
+        elif isinstance(node, (jinja2.nodes.Getattr, jinja2.nodes.Getitem, jinja2.nodes.Name)):
+            add(node)
+        else:
+            for child in node.iter_child_nodes():
+                visit(child)
+
+    visit(ast)
+    return list(dict.fromkeys(vars))
+
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From a334255015c681f014dbfd4d9fb083261739ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 016/150] fix: evaluate expressions and patterns given to
 boolean properties

---
 ngoschema/types/boolean.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/boolean.py b/ngoschema/types/boolean.py
index 1f8415f..b27581f 100644
--- a/ngoschema/types/boolean.py
+++ b/ngoschema/types/boolean.py
@@ -37,8 +37,15 @@ class Boolean(Primitive):
         :param context: evaluation context
         :return: urllib.parse.ParsedResult instance
         """
-        from .strings import String
+        from .strings import String, Expr, Pattern
         from .numerics import Integer
+        if Expr.check(value) or Pattern.check(value):
+            if opts.get('raw_literals', self._rawLiterals):
+                return value
+            # evaluate the literal without converting the result
+            value = Primitive._convert(self, value, **dict(opts, pyType=None))
+            if value is None:
+                return value
         if Boolean.check(value):
             return value
         if String.check(value):
-- 
2.43.0


From 4b7820b07fb348a8c4d3ab4b50b63abf6df7458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 017/150] fix: accessors redefined in a subclass apply to
 inherited properties

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b4a80ad..9366ea8 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -737,10 +737,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 ptype._schema.get('description'))
         # remaining descriptors are properties defined in other bases with local getter/setter/deleter definitions
         for pname, pfun in descriptor_funs.items():
-            ptrans = clean_js_name(pname)
             for b in pbases:
-                if hasattr(b, ptrans) and isinstance(b, PropertyDescriptor):
-                    d = copy.copy(getattr(b.trans))
+                d = getattr(b, '_propertiesDescriptor', {}).get(pname)
+                if d:
+                    d = copy.copy(d)
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
-- 
2.43.0


From 2b45a21927176ad934cea007ec7b6db30cf244da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 018/150] fix: a property that was deleted can be set again

---
 ngoschema/protocols/object_protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 9366ea8..94f3447 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -95,6 +95,10 @@ class PropertyDescriptor:
             key = self.pname
             if key in obj._readOnly:
                 raise AttributeError("'%s' is read only" % key)
+            if key not in obj._data:
+                # property deleted before
+                obj._data[key] = None
+                obj._items_touch(key)
             obj._set_data(key, value)
             if not obj._lazyLoading:
                 obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
-- 
2.43.0


From 67c5b9b28c24e94f9d9a92a7d23c0ec0558424a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 019/150] fix: deleting items honours required properties,
 accessors and unread additional properties

---
 ngoschema/protocols/object_protocol.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 94f3447..1853d92 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -449,14 +449,17 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
 
     def __delitem__(self, key):
-        for trans, raw in self._propertiesTranslation.items():
-            if key in (trans, raw):
-                delattr(self, trans)
-                break
-        else:
-            del self._data[key]
-            del self._itemsInputs[key]
-            del self._dataValidated[key]
+        raw, trans = self._properties_raw_trans(key)
+        if raw not in self._data:
+            raise KeyError(key)
+        desc = self._propertiesDescriptor.get(raw)
+        if desc:
+            return desc.__delete__(self)
+        # additional properties have no inputs until they are read
+        del self._data[raw]
+        self._dataValidated.pop(raw, None)
+        self._dataAdditional.pop(raw, None)
+        self._itemsInputs.pop(raw, None)
 
     @staticmethod
     def _serialize(self, value, schema=False, excludes=[], only=[], **opts):
-- 
2.43.0


From 55b29dbabde3403a9a7a0909a5c487c5a34ccff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:00 +0000
Subject: [PATCH 020/150] fix: pattern properties and typed additional
 properties are validated, with or without other additional properties

---
 ngoschema/protocols/object_protocol.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 1853d92..d8d0e01 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -292,7 +292,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if alias:
             cls.__properties_raw_trans[name] = (alias, name)
             return alias, name
-        if cls._propertiesAdditional:
+        if cls._propertiesAdditional or any(reg.search(name) for reg, t in cls._propertiesPattern):
             trans = clean_js_name(name)
             cls.__properties_raw_trans[name] = (name, trans)
             return name, trans
@@ -315,7 +315,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return op(desc.__get__(self))
-        if self._propertiesAdditional and name in self._data:
+        if name in self._data:
             self._itemsInputs[raw] = self._items_inputs_evaluate(name)
             self._dataAdditional[raw] = v = op(self[name])
             return v
@@ -443,10 +443,16 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return desc.__set__(self, op(value))
-        if not self._propertiesAdditional:
+        if raw is None:
             raise KeyError(key)
         v = op(value)
         self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
+        if not self._items_type(self, key).is_constant():
+            # value has a type, from a pattern or from the schema of additional properties
+            self._dataValidated[key] = None
+            if not self._lazyLoading:
+                self._itemsInputs[key] = self._items_inputs_evaluate(key)
+                self._set_dataValidated(key, self._items_evaluate(key))
 
     def __delitem__(self, key):
         raw, trans = self._properties_raw_trans(key)
-- 
2.43.0


From 36dd9c2d8ae768a79e0553ef5bdb9ad538e94718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:09 +0000
Subject: [PATCH 021/150] fix: names resolved for a class are not remembered
 for its subclasses

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index d8d0e01..0749114 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -272,7 +272,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-        if cls.__properties_raw_trans is None:
+        if '_ObjectProtocol__properties_raw_trans' not in cls.__dict__:
+            # one cache for each class, subclasses have their own properties and aliases
             cls.__properties_raw_trans = {}
         cached = cls.__properties_raw_trans.get(name)
         if cached:
-- 
2.43.0


From 2d0f7de0238375e380455590b790702614df966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 022/150] fix: an empty array is a value, it is not replaced by
 the declared default

---
 ngoschema/protocols/collection_protocol.py | 2 +-
 ngoschema/types/array.py                   | 9 ++++++---
 ngoschema/types/collection.py              | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index aa57d40..7be6ec6 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -38,7 +38,7 @@ class CollectionProtocol(Collection):
         self._lazyLoading = lazyLoading if lazyLoading is not None else self._lazyLoading
         lz = self._lazyLoading if items is None else not items
         #Collection.__init__(self, **opts)
-        if value is None:
+        if value is None and (opts or not self.is_array()):
             # to allow initialization by keywords
             value = opts
             opts = {}
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6a9ab6e..672d458 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -44,7 +44,10 @@ class ArrayDeserializer(CollectionDeserializer):
         if String.check(value):
             split_string = opts.get('split_string', self._splitString)
             str_del = opts.get('strDelimiter', self._strDelimiter)
-            value = [s.strip() for s in value.split(str_del)] if split_string else [value]
+            if not value:
+                value = []
+            else:
+                value = [s.strip() for s in value.split(str_del)] if split_string else [value]
         else:
             value = list(value) if isinstance(value, (Sequence, deque)) else [value]
         many = opts.get('many', self._many)
@@ -117,7 +120,7 @@ class Array(Collection, ArraySerializer):
         Collection.__init__(self, **opts)
 
     def __call__(self, value=None, *values, **opts):
-        value = value or list(values)  # to allow initialization by varargs
+        value = list(values) if value is None and values else value  # to allow initialization by varargs
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
@@ -158,7 +161,7 @@ class Array(Collection, ArraySerializer):
         return True
 
     def default(self, value=None, **opts):
-        value = value or self._default
+        value = self._default if value is None else value
         ret = [None] * len(value)
         for k, t in self._items_types(self, value):
             ret[k] = t.default(value[k], **opts) if t.has_default(value[k]) else None
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 59e667a..3c52d2d 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -74,7 +74,7 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        ret = self._deserializer._deserialize(self, value or self._default, items=items, evaluate=False, **opts)
+        ret = self._deserializer._deserialize(self, self._default if value is None else value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
             for k, t in self._items_types(self, value):
-- 
2.43.0


From 0a0d74cff349e49b052f5b6958441e965b30133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 023/150] fix: relative access paths

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 0749114..0e5d2ba 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -50,7 +50,7 @@ def split_cname(cname):
         n, indices = parts[0], parts[1:]
         return [n] + [int(i.strip(']')) for i in indices]
     cns = sum([split_part(part) for part in cname.split('.')], [])
-    return cns.pop(0) if cns and not cns[0] else cns
+    return cns[1:] if cns and not cns[0] else cns
 
 
 class PropertyDescriptor:
@@ -402,7 +402,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts:
-                    cur = getattr(cur, p) if isinstance(p, str) and hasattr(cur, p) else cur[p]
+                    cur = getattr(cur, p) if p and isinstance(p, str) and hasattr(cur, p) else cur[p]
                     if cur is None:
                         return
                 return cur
@@ -433,7 +433,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = getattr(cur, p) if isinstance(p, str) and hasattr(cur, p) else cur[p]
+                    cur = getattr(cur, p) if p and isinstance(p, str) and hasattr(cur, p) else cur[p]
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From 35eff3e308600e06966441e74e514a7bc4604e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:47 +0000
Subject: [PATCH 024/150] fix: a class with bases keeps the parents its schema
 extends

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index cb6c1c9..18cac61 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -171,7 +171,8 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
-            schema['extends'] = [b._id for b in bases if hasattr(b, '_id')]
+            extends = list(schema.get('extends', []))
+            schema['extends'] = extends + [b._id for b in bases if hasattr(b, '_id') and b._id not in extends]
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From 656bb970c72cf1601d57e80ef9f4cef3b824def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 025/150] fix: arrays insert at any index, assign slices, read
 assigned items again and leave refused items out

---
 ngoschema/protocols/array_protocol.py | 39 ++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index a58cf6a..68f49aa 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -72,16 +72,43 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     def __len__(self):
         return len(self._data)
 
+    def __getitem__(self, item):
+        if isinstance(item, slice):
+            return [self[i] for i in range(*item.indices(len(self)))]
+        return CollectionProtocol.__getitem__(self, item)
+
+    def __setitem__(self, item, value):
+        if not isinstance(item, slice):
+            # the value read before is outdated
+            self._dataValidated[item] = None
+            return CollectionProtocol.__setitem__(self, item, value)
+        value = list(value)
+        self._data[item] = value
+        self._dataValidated[item] = [None] * len(value)
+        self._itemsInputs[item] = [{} for v in value]
+        if not self._lazyLoading:
+            for i in range(len(self)):
+                self[i]
+
     def insert(self, item, value):
+        # same index whatever the list it is given to
+        item = slice(item, None).indices(len(self))[0]
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
-        elif isinstance(value, TypeProtocol):
-            value.set_context(self._context)
-        self._validate(self, value, items=False)
+        try:
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            elif isinstance(value, TypeProtocol):
+                value.set_context(self._context)
+            self._validate(self, self, items=False)
+        except Exception:
+            # a refused value is not inserted
+            del self._itemsInputs[item]
+            del self._dataValidated[item]
+            del self._data[item]
+            raise
 
     def _str_list(self):
         if self._str is None:
-- 
2.43.0


From 26061f1c9819167da4cef5f69a8a43ce70744e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 026/150] fix: required properties left out of a serialization
 are not given as None

---
 ngoschema/types/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index ea958c2..00152d9 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -88,11 +88,14 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         all_ordered += list(keys.difference(all_ordered))
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
+        left_out = excludes
         if no_readOnly:
             excludes = list(excludes) + list(self._readOnly)
         for k in all_ordered:
             if k in self._required:
-                yield k
+                # required properties are always given, unless they are explicitly left out
+                if k not in left_out and (not only or k in only):
+                    yield k
             elif ObjectSerializer._is_included(k, value, excludes=excludes, only=only, no_defaults=no_defaults):
                 yield k
 
-- 
2.43.0


From ddebbce94fa6ed76e8b096fcf2570d9e5c2c2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 027/150] fix: an unset uri or path is serialized as None

---
 ngoschema/types/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index cdc7acc..c6498fe 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -56,7 +56,7 @@ class Uri(Primitive, Resolver):
         :param context: evaluation context
         :return: json data
         """
-        return Uri._convert(self, value, **opts).geturl()
+        return Uri._convert(self, value, **opts).geturl() if value is not None else None
 
     @staticmethod
     def _resolve(self, value, **opts):
@@ -163,7 +163,7 @@ class Path(Uri):
                 fp = fr.document.filepath
                 from pathlib import Path
                 p = value.relative_to(fp)
-        return str(value)
+        return str(value) if value is not None else None
 
     @staticmethod
     def _resolve(self, typed, **opts):
-- 
2.43.0


From a2428af95fb385a14275823be73c03eb5df96812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 028/150] fix: a type that is also an enumeration has each base
 once

---
 ngoschema/protocols/type_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 18cac61..d77abdd 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -69,7 +69,7 @@ class TypeProtocol(Serializer):
         if 'type' in schema:
             extra_bases += (type_builder.get_type(schema['type']), )
         # filter bases to remove duplicates
-        extra_bases = tuple(b for b in extra_bases if not issubclass(b, bases))
+        extra_bases = tuple(b for i, b in enumerate(extra_bases) if not issubclass(b, bases) and b not in extra_bases[:i])
         if not bases and not extra_bases:
             extra_bases = (Type, )
         attrs['_schema'] = schema = dict(ReadOnlyChainMap(schema, *[b._schema for b in bases + extra_bases if hasattr(b, '_schema')]))
-- 
2.43.0


From 7e56d6cb7516c43c66d77230354f9862c550c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 029/150] fix: options of a collection type are its own, not
 those of all collections

---
 ngoschema/types/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 3c52d2d..b4b9e97 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -56,8 +56,8 @@ class Collection(Type, CollectionSerializer):
     _items_type_cache = None
 
     def __init__(self, items=None, notValidated=None, notSerialized=None, **opts):
-        self._notValidated.update(notValidated or [])
-        self._notSerialized.update(notSerialized or [])
+        self._notValidated = self._notValidated.union(notValidated or [])
+        self._notSerialized = self._notSerialized.union(notSerialized or [])
         Type.__init__(self, **opts)
         self._items = items or self._items
 
-- 
2.43.0


From 1fd6d44bff7bbb640f74d44155cdfe92b14d0051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 030/150] fix: what an object keeps out of its serialization
 does not concern the objects it holds

---
 ngoschema/protocols/collection_protocol.py |  1 -
 ngoschema/types/collection.py              | 12 +++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 7be6ec6..c6882fa 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -82,7 +82,6 @@ class CollectionProtocol(Collection):
 
     @staticmethod
     def _serialize(self, value, excludes=[], **opts):
-        excludes = list(self._notSerialized.union(excludes))
         return self._collection._serialize(self, value, excludes=excludes, **opts)
 
     def _touch(self):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index b4b9e97..fd7e42e 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -113,15 +113,17 @@ class Collection(Type, CollectionSerializer):
         return Type._evaluate(self, value, convert=False, validate=validate, **opts)
 
     @staticmethod
-    def _serialize(self, value, items=True, only=[], **opts):
+    def _serialize(self, value, items=True, only=[], excludes=[], **opts):
         opts.setdefault('no_defaults', True)
-        ret = value = self._serializer._serialize(self, value, only=only, **opts)
+        # items have their own not serialized properties
+        not_serialized = list(self._notSerialized.union(excludes))
+        ret = value = self._serializer._serialize(self, value, only=only, excludes=not_serialized, **opts)
         if items:
-            ret = self.null(value, only=only, **opts)
+            ret = self.null(value, only=only, excludes=not_serialized, **opts)
             for k, t in self._items_types(self, ret):
-                if self._is_included(k, value, only=only, **opts):
+                if self._is_included(k, value, only=only, excludes=not_serialized, **opts):
                     v = value[k]
-                    ret[k] = t._serialize(t, v, **opts)
+                    ret[k] = t._serialize(t, v, excludes=excludes, **opts)
                     #ret[k] = v.do_serialize(**opts) if hasattr(v, 'do_serialize') else t._serialize(t, v, **opts)
         return self._collType(ret)
 
-- 
2.43.0


From c24cf90ef2bdece61206b074019b609376b5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 031/150] fix: class attributes give the defaults of the
 properties of the same class

---
 ngoschema/protocols/object_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 0e5d2ba..78a3b3f 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -730,6 +730,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
         # add redefined properties to local properties and to schemas
         if extra_schema_properties:
+            for k in extra_schema_properties:
+                # local properties have already been built, without this default
+                type_builder._registry.pop(f'{id}/properties/{k}', None)
             local_properties.update({k: type_builder.build(f'{id}/properties/{k}', sch)
                                      for k, sch in extra_schema_properties.items()})
             schema.setdefault('properties', {})
-- 
2.43.0


From 682504bcc00d2dff41b2ef648e7ca744fb4b6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:40 +0000
Subject: [PATCH 032/150] fix: a type whose construction failed can be built
 again

---
 ngoschema/managers/type_builder.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 4ed9fbc..6618ee4 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -80,19 +80,22 @@ class TypeBuilder(GenericClassRegistry):
             return _False()
         attrs = attrs or {}
         self._on_construction[id] = (schema, bases, attrs)
-        if '$ref' in schema:
-            schema = schema.copy()
-            ref = schema.pop('$ref')
-            cls = self.load(scope(ref, id))
-            if schema:
-                cls = cls.extend_type(id, **schema)
-        elif 'object' in schema.get('type', ''):
-            cls = ObjectProtocol.build(id, schema, bases, attrs)
-        elif 'array' in schema.get('type', ''):
-            cls = ArrayProtocol.build(id, schema, bases, attrs)
-        else:
-            cls = TypeProtocol.build(id, schema, bases, attrs)()
-        self._on_construction.pop(id)
+        try:
+            if '$ref' in schema:
+                schema = schema.copy()
+                ref = schema.pop('$ref')
+                cls = self.load(scope(ref, id))
+                if schema:
+                    cls = cls.extend_type(id, **schema)
+            elif 'object' in schema.get('type', ''):
+                cls = ObjectProtocol.build(id, schema, bases, attrs)
+            elif 'array' in schema.get('type', ''):
+                cls = ArrayProtocol.build(id, schema, bases, attrs)
+            else:
+                cls = TypeProtocol.build(id, schema, bases, attrs)()
+        finally:
+            # also when the construction fails, otherwise the type would never be ready
+            self._on_construction.pop(id)
         self._registry[id] = cls
         NamespaceManager.register_ns(id)
         return cls
-- 
2.43.0


From db8011966711eff40a019921e478206cb6f5b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:40 +0000
Subject: [PATCH 033/150] fix: data marked with a schema is read without
 modifying it, whatever the form of the identifier

---
 ngoschema/managers/type_builder.py     |  3 +++
 ngoschema/protocols/object_protocol.py | 11 ++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 6618ee4..e54b902 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -102,6 +102,9 @@ class TypeBuilder(GenericClassRegistry):
 
     def load(self, id):
         from ..protocols import TypeProxy
+        if id not in self._registry and id.endswith('#') and id[:-1] in self._registry:
+            # same schema, with an empty fragment
+            id = id[:-1]
         if id not in self._registry:
             if id in self._on_construction:
                 return TypeProxy.build(id)
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 78a3b3f..10f48fe 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -162,10 +162,11 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers import type_builder
         data = args[0] if args else kwargs
         if isinstance(data, Mapping) and data.get('$schema'):
-            s_id = Id.convert(scope(data.pop('$schema'), cls._id), **kwargs)
-            if s_id != cls._id:
-                cls = type_builder.load(s_id)
-                return cls(*args, **kwargs)
+            # data belongs to the caller, its schema is left in
+            s_id = Id.convert(scope(data['$schema'], cls._id), **kwargs)
+            s_cls = cls if s_id == cls._id else type_builder.load(s_id)
+            if s_cls is not cls:
+                return s_cls(*args, **kwargs)
         return super(ObjectProtocol, cls).__new__(cls)
 
     @staticmethod
@@ -184,8 +185,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     @staticmethod
     def _convert(self, value, **opts):
         from ..managers.type_builder import type_builder
-        #value = self._collType(value)
         if value.get('$schema'):
+            value = self._collType(value)
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
                 self = type_builder.load(s_id)
-- 
2.43.0


From 30c0c0394829906245040157845dc23d30c7d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 034/150] fix: an unset uri or path is serialized as None
 (early return)

---
 ngoschema/types/uri.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index c6498fe..8462d05 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -56,7 +56,9 @@ class Uri(Primitive, Resolver):
         :param context: evaluation context
         :return: json data
         """
-        return Uri._convert(self, value, **opts).geturl() if value is not None else None
+        if value is None:
+            return None
+        return Uri._convert(self, value, **opts).geturl()
 
     @staticmethod
     def _resolve(self, value, **opts):
@@ -163,7 +165,9 @@ class Path(Uri):
                 fp = fr.document.filepath
                 from pathlib import Path
                 p = value.relative_to(fp)
-        return str(value) if value is not None else None
+        if value is None:
+            return None
+        return str(value)
 
     @staticmethod
     def _resolve(self, typed, **opts):
-- 
2.43.0


From 577d59ca2ea5af8b9d3afd42db51a46e8c8b7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 035/150] fix: queries can be ordered by a path

sorted() was given the path's reader as a comparison function and raised TypeError
---
 ngoschema/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index c40a1a9..3108a2d 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -409,7 +409,7 @@ class Query(object):
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
                 self._result_cache = sorted(self._result_cache,
-                                            lambda x: get_descendant(x, ks))
+                                            key=lambda x: get_descendant(x, ks))
             if self._reverse:
                 self._result_cache = reversed(self._result_cache)
         return self._result_cache
-- 
2.43.0


From 869bbf53ab3181c4e4d296dc0b0049fef6bc0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 036/150] fix: the results of a reversed query can be read more
 than once

they were kept as an iterator, and reversing an ordered query had no effect
---
 ngoschema/query.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 3108a2d..e877d7b 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -346,7 +346,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def exclude(self,
@@ -361,7 +361,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def filter_any_of(self,
@@ -376,7 +376,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def exclude_any_of(self,
@@ -392,7 +392,7 @@ class Query(object):
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
-                reverse=reverse or self._reverse,
+                reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
 
     def __iter__(self):
@@ -411,7 +411,7 @@ class Query(object):
                 self._result_cache = sorted(self._result_cache,
                                             key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = reversed(self._result_cache)
+                self._result_cache = list(reversed(self._result_cache))
         return self._result_cache
 
     def __getitem__(self, k):
@@ -439,21 +439,27 @@ class Query(object):
         res = self.result_cache
         for o in others:
             res += o.result_cache
-        return Query(res, self._distinct, self._order_by)
+        # the results are reversed already, but their order is applied again
+        reverse = bool(self._order_by) and self._reverse
+        return Query(res, self._distinct, self._order_by, reverse)
 
     def intersection(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r in ores]
-        return Query(res, self._distinct, self._order_by)
+        # the results are reversed already, but their order is applied again
+        reverse = bool(self._order_by) and self._reverse
+        return Query(res, self._distinct, self._order_by, reverse)
 
     def difference(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r not in ores]
-        return Query(res, self._distinct, self._order_by)
+        # the results are reversed already, but their order is applied again
+        reverse = bool(self._order_by) and self._reverse
+        return Query(res, self._distinct, self._order_by, reverse)
 
     def get(self, *attrs, **attrs_value):
         ret = list(Query._filter_or_exclude(self._iterable,
@@ -489,7 +495,7 @@ class Query(object):
 
     def reverse(self):
         ret = self._chain()
-        ret._iterable = reversed(self.result_cache)
+        ret._reverse = not self._reverse
         return ret
 
     def count(self):
-- 
2.43.0


From dcb22ea1d629d50fd8193b32c819b6797deaa29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 037/150] fix: last result of a query

negative indexes are refused, so that last always raised AssertionError
---
 ngoschema/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index e877d7b..a28f593 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -489,7 +489,7 @@ class Query(object):
 
     def last(self):
         try:
-            return self[-1]
+            return self.result_cache[-1]
         except IndexError:
             return None
 
-- 
2.43.0


From cb76b9c26e4e8a2a33c48d2fc261ecc1e4bdbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 038/150] fix: the union of queries leaves the results of the
 first one as they are

---
 ngoschema/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index a28f593..1271ac6 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -436,7 +436,7 @@ class Query(object):
         return False
 
     def union(self, *others):
-        res = self.result_cache
+        res = list(self.result_cache)
         for o in others:
             res += o.result_cache
         # the results are reversed already, but their order is applied again
-- 
2.43.0


From 383606f6dc633db5fc6c77e874106a15d6bf8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 039/150] fix: a query can be used again after another was made
 from it

the items of an iterator, as those of a filtered query, were used up by the
first request
---
 ngoschema/query.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 1271ac6..0b5294d 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -226,8 +226,17 @@ class Query(object):
         self._order_by = order_by
         self._reverse = reverse
 
+    def _items(self):
+        """
+        Queried items, those of an iterator staying available to the next requests
+        """
+        items = self._iterable
+        if iter(items) is items:
+            self._iterable, items = itertools.tee(items)
+        return items
+
     def _chain(self):
-        return Query(self._iterable, self._distinct, self._order_by, self._reverse)
+        return Query(self._items(), self._distinct, self._order_by, self._reverse)
 
     @staticmethod
     def _filter_or_exclude(iterable,
@@ -342,7 +351,7 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
                 order_by=order_by or self._order_by,
@@ -356,7 +365,7 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     negate=True,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
@@ -371,7 +380,7 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     any_of=True,
                                                     distinct=distinct or self._distinct,
                                                     **attrs_value)),
@@ -386,7 +395,7 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._iterable, *attrs,
+                (x for x in Query._filter_or_exclude(self._items(), *attrs,
                                                     any_of=True,
                                                     negate=True,
                                                     distinct=distinct or self._distinct,
@@ -402,7 +411,7 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._iterable)
+            self._result_cache = list(self._items())
 
             ob = self._order_by
             if ob:
@@ -462,7 +471,7 @@ class Query(object):
         return Query(res, self._distinct, self._order_by, reverse)
 
     def get(self, *attrs, **attrs_value):
-        ret = list(Query._filter_or_exclude(self._iterable,
+        ret = list(Query._filter_or_exclude(self._items(),
                                         *attrs,
                                         distinct=self._distinct,
                                         **attrs_value))
@@ -476,7 +485,7 @@ class Query(object):
 
     def next(self, *attrs, **attrs_value):
         return next(
-                Query._filter_or_exclude(self._iterable,
+                Query._filter_or_exclude(self._items(),
                                          *attrs,
                                          distinct=self._distinct,
                                          **attrs_value))
@@ -505,7 +514,7 @@ class Query(object):
         return len(self) == 0
 
     def order_by(self, order_by, reverse=False):
-        return Query(self._iterable, self._distinct, order_by, reverse=reverse)
+        return Query(self._items(), self._distinct, order_by, reverse=reverse)
 
     def all(self):
         """
-- 
2.43.0


From 041d301b9491d11993c049ca9729d640a1cc2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 040/150] fix: distinct results of objects which are not
 hashable

and of queries which are not filtered
---
 ngoschema/query.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 0b5294d..0ff5c2c 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -264,15 +264,16 @@ class Query(object):
                            negate=negate,
                            any_of=any_of,
                            **attrs_value)
-        seen = set()
+        seen = []
         for obj in iterable:
             if not obj: # todo change to is None??
                 continue
             if test_op(obj):
                 if distinct:
                     comparable = _comparable(obj)
+                    # the objects are not necessarily hashable
                     if comparable not in seen:
-                        seen.add(comparable)
+                        seen.append(comparable)
                     else:
                         continue
                 yield obj
@@ -412,6 +413,11 @@ class Query(object):
     def result_cache(self):
         if self._result_cache is None:
             self._result_cache = list(self._items())
+            if self._distinct:
+                results, self._result_cache = self._result_cache, []
+                for obj in results:
+                    if obj not in self._result_cache:
+                        self._result_cache.append(obj)
 
             ob = self._order_by
             if ob:
-- 
2.43.0


From 644c42ab858fb80f2b6d95c971655f9bead3aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 041/150] fix: filters test each object on its own and all the
 criteria of any_of

a missing value ended the test of any_of, and an attribute named as an operator
changed the criteria for the objects tested afterwards
---
 ngoschema/query.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 0ff5c2c..829f351 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -135,24 +135,21 @@ class Filter(object):
         for k, v2 in self.attrs_value.items():
             ks, ops, ops_negate = self.attrs_ops[k]
             o = get_descendant(obj, ks)
+            # the operators are shared by all the objects tested
+            ops = list(ops)
+            # check if it s not a child
+            while ops and utils.is_mapping(o):
+                o2 = get_descendant(o, [ops[0]])
+                if o2 is None:
+                    break
+                o = o2
+                ops.pop(0)
             if o is None:
-                # breaking the look we never go in the for/ELSE statement where
-                # an object is potentially yielded
-                test = False
-                break
-            elif ops and utils.is_mapping(o):
-                # check if it s not a child
-                for op in ops:
-                    o2 = get_descendant(o, op)
-                    if o2:
-                        o = o2
-                        ks.append(ops.pop(0))
-                    else:
-                        test = False
-                        break
-            ops = ops or ['eq']
-            v = _comparable(o)
-            test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
+                test2 = False
+            else:
+                ops = ops or ['eq']
+                v = _comparable(o)
+                test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
             test = (test or test2) if self.anyOf else (test and test2)
             if self.anyOf:
                 if test2:
-- 
2.43.0


From 211426250a77fcb0bbb7603b2a1df0e131445bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 042/150] fix: descendants of an empty child are missing

the child itself was returned instead
---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 41b55db..e7dcd6f 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -671,7 +671,7 @@ def get_descendant(obj, key_list):
     except Exception as er:
         child = None
     return get_descendant(child, key_list[1:]) \
-        if child and len(key_list) > 1 else child
+        if child is not None and len(key_list) > 1 else child
 
 
 def topological_sort(data):
-- 
2.43.0


From 9c6f706654a088441f37f2c066309af15c361746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 043/150] fix: criteria on a size or an item compare its value

any object with a non empty size or item was selected
---
 ngoschema/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 829f351..8a03681 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -105,6 +105,9 @@ def _apply_ops_test(ops, negate, a, b):
         if op == 'regex':
             return re.match(b, a)
 
+    if ops and (ops[-1] == 'size' or ops[-1].startswith('@')):
+        # those give a value, which is still to be compared
+        ops = ops + ['eq']
     for op in ops:
         a = _apply_op(op, a, b)
     return not a if negate else a
-- 
2.43.0


From f13f4a14a4f959a6c00d0b8c811d6668ebada60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 044/150] fix: case insensitive criteria take their text
 literally

it was used as a regular expression, and the end of a text was looked for at
its beginning
---
 ngoschema/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 8a03681..e08abbd 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -95,13 +95,13 @@ def _apply_ops_test(ops, negate, a, b):
         if op == 'endswith':
             return a.endswith(b)
         if op == 'ieq':
-            return re.match('^%s$' % b, a, re.IGNORECASE)
+            return a.lower() == b.lower()
         if op == 'istartswith':
-            return re.match('^%s' % b, a, re.IGNORECASE)
+            return a.lower().startswith(b.lower())
         if op == 'iendswith':
-            return re.match('%s$' % b, a, re.IGNORECASE)
+            return a.lower().endswith(b.lower())
         if op == 'icontains':
-            return re.search('%s' % b, a, re.IGNORECASE)
+            return b.lower() in a.lower()
         if op == 'regex':
             return re.match(b, a)
 
-- 
2.43.0


From 913066e8d5580eb3fc25f1f81894c99d7b4eb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 045/150] fix: criteria on attributes named as an operator

no attribute was left to read and the filter raised IndexError
---
 ngoschema/query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index e08abbd..96da4d5 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -57,7 +57,8 @@ def _comparable(obj):
 def _sort_criteria(criteria):
     elts = criteria.split('__')
     ops = []
-    for e in reversed(elts):
+    # the first element is the name of an attribute, even when operators have the same
+    for e in reversed(elts[1:]):
         if e not in _operators and not e.startswith('@'):
             break
         ops.insert(0, e)
-- 
2.43.0


From 958b677c688cec061521f13b3077df985549589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 046/150] fix: errors of criteria are raised whenever a query
 is read

the filter ended with the first error, which list ignores when it asks for the
length: the query seemed to be empty
---
 ngoschema/query.py | 47 ++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 96da4d5..bf7e0d0 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -210,6 +210,21 @@ def search_object_non_rec(obj, path, *attrs, **attrs_value):
             p_cur, cur = p_par, cur._parent
 
 
+class _Selection(object):
+    """
+    Items of a query which meet criteria, tested each time they are read: an error of the
+    criteria is raised by all the readings (list ignores the one raised by the length)
+    """
+
+    def __init__(self, _query, *attrs, **options):
+        self._query = _query
+        self._attrs = attrs
+        self._options = options
+
+    def __iter__(self):
+        return Query._filter_or_exclude(self._query._items(), *self._attrs, **self._options)
+
+
 class Query(object):
 
     def __init__(self, iterable, distinct=False, order_by=False, reverse=False):
@@ -353,9 +368,9 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._items(), *attrs,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self, *attrs,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
@@ -367,10 +382,10 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._items(), *attrs,
-                                                    negate=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self, *attrs,
+                           negate=True,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
@@ -382,10 +397,10 @@ class Query(object):
                distinct=None,
                **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._items(), *attrs,
-                                                    any_of=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self, *attrs,
+                           any_of=True,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
@@ -397,11 +412,11 @@ class Query(object):
                 distinct=None,
                 **attrs_value):
         return Query(
-                (x for x in Query._filter_or_exclude(self._items(), *attrs,
-                                                    any_of=True,
-                                                    negate=True,
-                                                    distinct=distinct or self._distinct,
-                                                    **attrs_value)),
+                _Selection(self, *attrs,
+                           any_of=True,
+                           negate=True,
+                           distinct=distinct or self._distinct,
+                           **attrs_value),
                 order_by=order_by or self._order_by,
                 reverse=self._reverse if reverse is None else reverse,
                 distinct=distinct or self._distinct)
-- 
2.43.0


From ba2dbdc050c55d0d9f88d5fdcc9e5a6bcb92fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 047/150] fix: a document registered again or unregistered is
 not resolved as before

the first document resolved for a uri was remembered for ever
---
 ngoschema/resolvers/uri_resolver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1486102..e85457c 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,7 +41,6 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
-@functools.lru_cache(128)
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
-- 
2.43.0


From 910f91385af4e4f8895ed2162ae59b0aefdcc788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 048/150] fix: schemas without id are loaded with their title

the absence of id raised AttributeError, and SchemaError when there is no title either was never reached
---
 ngoschema/loaders/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index 9fd191b..c5f2f2f 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -38,7 +38,7 @@ def load_schema(schema, schemas_store=None):
     :type schemas_store: dict
     """
     from ngoschema.resolvers.uri_resolver import UriResolver
-    uri = _id_of(schema).rstrip('#')
+    uri = (_id_of(schema) or '').rstrip('#')
     if not uri and "title" in schema:
         uri = inflection.parameterize(six.text_type(schema["title"]), "_")
     if not uri:
-- 
2.43.0


From 99a050f1aceda484efcfc815449ef578f25b6e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 049/150] fix: keywords given along a reference

a reference to a primitive type made unusable types as soon as it had a
description or a default, and properties added to a referenced object were ignored
---
 ngoschema/managers/type_builder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index e54b902..5b52679 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -85,7 +85,12 @@ class TypeBuilder(GenericClassRegistry):
                 schema = schema.copy()
                 ref = schema.pop('$ref')
                 cls = self.load(scope(ref, id))
-                if schema:
+                if schema and not isinstance(cls, type):
+                    # types of primitives are given by instances
+                    cls = type(cls).extend_type(id, **schema)()
+                elif schema and cls.is_object() and not issubclass(cls, TypeProxy):
+                    cls = ObjectProtocol.build(id, dict(schema, extends=[cls._id] + list(schema.get('extends', []))), bases, attrs)
+                elif schema:
                     cls = cls.extend_type(id, **schema)
             elif 'object' in schema.get('type', ''):
                 cls = ObjectProtocol.build(id, schema, bases, attrs)
-- 
2.43.0


From 3870e57a17919889e8acf91128c245f69359c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 050/150] fix: the schema given to a class is not modified

a schema given to several classes made the next ones extend the parents of the
first
---
 ngoschema/protocols/type_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index d77abdd..4146081 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -171,8 +171,11 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
+            schema = dict(schema)
             extends = list(schema.get('extends', []))
             schema['extends'] = extends + [b._id for b in bases if hasattr(b, '_id') and b._id not in extends]
+        # the schema of the caller, or the registered document, stays as it is
+        schema = dict(schema)
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From 80af1618d0fe5249091898db0041e2607d1c3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 051/150] fix: the properties of a class defined again are
 those of its new schema

classes of the same name had the property types of the first one
---
 ngoschema/protocols/type_protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 4146081..552fb48 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -181,6 +181,10 @@ class SchemaMetaclass(type):
         # remove previous entry in registry
         if id in type_builder._registry:
             del type_builder._registry[id]
+            # and of the types built for its items
+            nested = tuple('%s/%s' % (id, k) for k in ('properties/', 'patternProperties/', 'additionalProperties'))
+            for k in [k for k in type_builder._registry if k.startswith(nested)]:
+                del type_builder._registry[k]
         attrs['_clsname'] = clsname
         return type_builder.build(id, schema, bases, attrs=attrs)
 
-- 
2.43.0


From 6626eca88fdb0fd85a3015e591e19eabbbd26381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 052/150] fix: inline types do not take the item types of
 deleted ones

their items were registered with the id of the type, which is used again when
the type is deleted
---
 ngoschema/types/array.py      | 4 ++--
 ngoschema/types/collection.py | 5 +++++
 ngoschema/types/object.py     | 4 ++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 672d458..500b1a9 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -11,7 +11,7 @@ from ..managers.type_builder import register_type
 from ..protocols.serializer import Serializer
 from .type import Type
 from .constants import _True
-from .collection import CollectionDeserializer, CollectionSerializer, Collection
+from .collection import CollectionDeserializer, CollectionSerializer, Collection, _inline_types
 from .strings import String
 
 
@@ -108,7 +108,7 @@ class Array(Collection, ArraySerializer):
     def __init__(self, items=None, **opts):
         # split the schema to isolate items schema and object schema
         from ..managers.type_builder import type_builder
-        cls_name = f'{self.__class__.__name__}_{id(self)}'
+        cls_name = f'{self.__class__.__name__}_{next(_inline_types)}'
         if isinstance(items, Mapping):
             self._items = type_builder.build(f'{cls_name}/items', items)
         elif isinstance(items, Sequence):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index fd7e42e..d42b26c 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 from collections import defaultdict
+from itertools import count
 from operator import neg
 
 from ..utils import ReadOnlyChainMap as ChainMap
@@ -11,6 +12,10 @@ from .type import Type
 from .constants import _True
 
 
+# to name the types of the items of inline types, id() might be used again
+_inline_types = count()
+
+
 class CollectionDeserializer(Deserializer):
     _collType = None
     _many = True
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 00152d9..4c96de4 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -14,7 +14,7 @@ from ..protocols.serializer import Serializer
 from .constants import _True, _False
 from .type import Type
 from .strings import Pattern
-from .collection import CollectionDeserializer, CollectionSerializer, Collection
+from .collection import CollectionDeserializer, CollectionSerializer, Collection, _inline_types
 
 
 class ObjectDeserializer(CollectionDeserializer):
@@ -129,7 +129,7 @@ class Object(Collection, ObjectSerializer):
                  **opts):
         # split the schema to isolate properties schema and object schema
         Collection.__init__(self, **opts)
-        cls_name = f'{self.__class__.__name__}_{id(self)}'
+        cls_name = f'{self.__class__.__name__}_{next(_inline_types)}'
         if properties:
             ps = OrderedDict(self._properties)
             properties = untype_schema(properties)
-- 
2.43.0


From bdcd8cea218369ac22be037d4c891bd85c6cb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 053/150] fix: pattern properties of inline object types

they raised AttributeError
---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 4c96de4..57bf0eb 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -137,7 +137,7 @@ class Object(Collection, ObjectSerializer):
                                    for name, sch in properties.items()]))
             self._properties = ps
         if patternProperties:
-            pps = set(self.patternProperties)
+            pps = set(self._propertiesPattern)
             pps.update([(re.compile(k), type_builder.build(
                 f'{cls_name}/patternProperties/{k}', v)) for k, v in patternProperties.items()])
             self._propertiesPattern = pps
-- 
2.43.0


From 4fb8baf5723fbaf56761481b2ea6e8178084d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 054/150] fix: defaults of properties whose type is built later

an unset array read None instead of an empty array when its type refers to
the type of the object
---
 ngoschema/protocols/type_proxy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index a3cebaa..e16649d 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -41,9 +41,17 @@ class TypeProxy(TypeProtocol):
         return p and p.check(value, **opts)
 
     @classmethod
-    def has_default(cls):
+    def has_default(cls, value=None, **opts):
         p = cls.proxy_type()
-        return p and p.has_default()
+        if p is None:
+            # still on construction
+            return cls.is_array() or cls._schema.get('default') is not None
+        return p.has_default(value, **opts)
+
+    @classmethod
+    def default(cls, value=None, **opts):
+        p = cls.proxy_type()
+        return p and p.default(value, **opts)
 
     @classmethod
     def convert(cls, value, **opts):
-- 
2.43.0


From ea348e92c50c2ed0cf7cf57bf2ca0318afcdb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 055/150] fix: chain maps skip the maps which are None,
 whatever is asked

---
 ngoschema/utils/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index e7dcd6f..50e0f3a 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -51,6 +51,8 @@ class ReadOnlyChainMap(Mapping):
 
     def __getitem__(self, key):
         for mapping in self._maps:
+            if mapping is None:
+                continue
             try:
                 return mapping[key]
             except KeyError:
@@ -58,7 +60,7 @@ class ReadOnlyChainMap(Mapping):
         raise KeyError(key)
 
     def __contains__(self, key):
-        return any(key in m or {} for m in self._maps)
+        return any(key in m for m in self._maps if m is not None)
 
     def reversed_keys(self):
         viewed = set()
@@ -83,7 +85,7 @@ class ReadOnlyChainMap(Mapping):
                     yield k
 
     def __len__(self):
-        return len(set().union(*self._maps))
+        return len(set().union(*(m for m in self._maps if m is not None)))
 
     def new_child(self, *maps, **kwargs):
         return ReadOnlyChainMap(kwargs, *maps, *self._maps)
@@ -112,6 +114,8 @@ class ReadOnlyChainMap(Mapping):
     def merged(self):
         ret = dict()
         for m in self.maps:
+            if m is None:
+                continue
             for k in set(m.keys()).difference(ret.keys()):
                 ret[k] = m[k]
         return ret
-- 
2.43.0


From a7065babd6a1b390d5695786883e9bd98bc3159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 056/150] fix: flattened maps of a context follow the maps
 added to it

---
 ngoschema/utils/utils.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 50e0f3a..9fc8aa1 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -97,18 +97,15 @@ class ReadOnlyChainMap(Mapping):
     def __str__(self):
         return str(self.merged)
 
-    _maps_flattened = None
     @property
     def maps_flattened(self):
-        if self._maps_flattened is None:
-            mf = []
-            for m in self._maps:
-                if isinstance(m, ReadOnlyChainMap):
-                    mf.extend(m.maps_flattened)
-                else:
-                    mf.append(m)
-            self._maps_flattened = mf
-        return self._maps_flattened
+        mf = []
+        for m in self._maps:
+            if isinstance(m, ReadOnlyChainMap):
+                mf.extend(m.maps_flattened)
+            else:
+                mf.append(m)
+        return mf
 
     @property
     def merged(self):
-- 
2.43.0


From 64b2f179540b3e5d6fe86fce7e605d99c229f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 057/150] fix: instances of a context can be searched in
 reverse order

---
 ngoschema/utils/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 9fc8aa1..1baa0b5 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -149,10 +149,8 @@ class Context(ReadOnlyChainMap):
         self._maps.append(mapping)
 
     def find_instance(self, cls, default=None, exclude=None, reverse=False):
-        gen = (m for m in self.maps if isinstance(m, cls) and m is not exclude)
-        if reverse:
-            gen = reversed(gen)
-        return next(gen, default)
+        maps = reversed(self.maps) if reverse else self.maps
+        return next((m for m in maps if isinstance(m, cls) and m is not exclude), default)
 
     def __hash__(self):
         return hash(repr(sorted(self.merged.items())))
-- 
2.43.0


From a15371043cc31429bbc92f7ad4773e65eb0d9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 058/150] fix: a weak registry gives the registered object, it
 does not call it

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 1baa0b5..fd84f16 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -245,8 +245,8 @@ class WeakRegistry(Registry):
         self._registry = weakref.WeakValueDictionary()
 
     def __getitem__(self, key):
-        # callv weak reference
-        return self._registry[key]()
+        # WeakValueDictionary already gives the referenced value
+        return self._registry[key]
 
 
 class GenericClassRegistry(Registry):
-- 
2.43.0


From 03a87fe800ed7cb9b7a1e3fc69ae10ed6beaae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 059/150] fix: default value asked to a class registry is given

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index fd84f16..632cbdc 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -266,7 +266,7 @@ class GenericClassRegistry(Registry):
         return f
 
     def get(self, id, default=None):
-        return self._registry.get(id)
+        return self._registry.get(id, default)
 
     def contains(self, id):
         return id in self._registry
-- 
2.43.0


From 18887085e28c73be0cd888be1484a69a94079131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 060/150] fix: separator of nested_dict_iter applies at all
 levels

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 632cbdc..3a1a786 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -473,7 +473,7 @@ def nested_dict_iter(nested, separator='.'):
     """
     for key, value in nested.items():
         if isinstance(value, collections.Mapping):
-            for inner_key, inner_value in nested_dict_iter(value):
+            for inner_key, inner_value in nested_dict_iter(value, separator):
                 yield f'{key}{separator}{inner_key}', inner_value
         else:
             yield key, value
-- 
2.43.0


From 683997fe07857c6f3eaaa15b73d39322cfbb6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 061/150] fix: grouper does not add an empty page

---
 ngoschema/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 3a1a786..f51bb85 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -512,7 +512,8 @@ def grouper( page_size, iterable ):
         if len(page) == page_size:
             yield page
             page= []
-    yield page
+    if page:
+        yield page
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 36ca2d5489af14d9e999a85818c610a57a23e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 062/150] fix: topological_sort leaves its input unmodified

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index f51bb85..2926896 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -680,8 +680,8 @@ def topological_sort(data):
     from functools import reduce
     if not data:
         return {}
-    for k, v in data.items():
-        v.discard(k) # Ignore self dependencies
+    # work on a copy and ignore self dependencies
+    data = {k: set(v) - {k} for k, v in data.items()}
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     data.update({item: set() for item in extra_items_in_deps})
     while True:
-- 
2.43.0


From cd2fca85e42336a4bca6d81b32128ae56f957740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 063/150] fix: filter_collection keeps the only keys asked and
 goes through sequences

---
 ngoschema/utils/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 2926896..752bc09 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -448,14 +448,14 @@ def filter_collection(data,
 
     def _filter_keys(container, keys, keep=True):
         if is_mapping(container):
-            for k in keys.intersection(container.keys()):
-                if not keep:
+            for k in list(container.keys()):
+                if (k in keys) != keep:
                     container.pop(k)
                 elif recursive:
-                    _filter_keys(container[k], keys, keep, recursive)
+                    _filter_keys(container[k], keys, keep)
         elif is_sequence(container):
             for v in container:
-                _filter_keys(v, keys, keep, recursive)
+                _filter_keys(v, keys, keep)
         return container
 
     if only or but:
-- 
2.43.0


From bbea55997ed96543bb24d600b1468d11d6b53d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 064/150] fix: indices in brackets of a path are integers

---
 ngoschema/utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 752bc09..f6fa88e 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -650,9 +650,10 @@ def split_path(path):
     """ return a path as a list of attributes and key, index"""
     paths = []
     for part in path.split('.'):
-        for key in part.split('['):
+        for i, key in enumerate(part.split('[')):
+            is_index = bool(i) and re.match(r'^-?[0-9]+\]$', key)
             key = key.strip('[]')
-            paths.append(int(key) if is_integer(key) else key)
+            paths.append(int(key) if is_index else key)
     return paths
 
 
-- 
2.43.0


From 746597a81ed6f0b91ee73aa4fae9b55cc663b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 065/150] fix: an instance casted as a parent gets its class
 back when an error is raised

---
 ngoschema/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index f6fa88e..a16cc52 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -523,8 +523,10 @@ def casted_as(instance, cls):
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
     instance.__class__ = cls
-    yield instance
-    instance.__class__ = instance_cls
+    try:
+        yield instance
+    finally:
+        instance.__class__ = instance_cls
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From 7cddaf95f19a57216b6b43c9e172b00be2bde330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 066/150] fix: a bracket is in another one when the other one
 encloses it

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index a16cc52..aabb73d 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -567,7 +567,7 @@ class Bracket:
         raise InvalidValue('unknown bracket type %s (only %s)' % (bracket, ''.join(brs)))
 
     def is_in(self, other):
-        return self._pos[0] < other._pos[0] and other._pos[1] > self._pos[1]
+        return other._pos[0] < self._pos[0] and self._pos[1] < other._pos[1]
 
     def content(self):
         return self._context[self._pos[0]+1 : self._pos[1]]
-- 
2.43.0


From 1ae11c63391b206dedeb89eac9bc5bf6aba72ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 067/150] fix: multiple_replace with nothing to replace

---
 ngoschema/utils/str_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index b040d99..c278154 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -144,6 +144,8 @@ class lazy_format(object):
 
 
 def _multiple_replacer(replace_dict):
+    if not replace_dict:
+        return lambda string: string
     replacement_function = lambda match: replace_dict[match.group(0)]
     pattern = re.compile(
         "|".join([re.escape(k) for k, v in list(replace_dict.items())]), re.M)
-- 
2.43.0


From 8484fdaa6560eb6a357b5d7498e696f140ec0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 068/150] fix: a lazy format gives the same text each time it
 is formatted

---
 ngoschema/utils/str_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index c278154..98463a4 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -135,12 +135,13 @@ class lazy_format(object):
         self.to_format = to_format
 
     def __str__(self):
+        args, kwargs = list(self.args), dict(self.kwargs)
         for a in self.to_format:
             if utils.is_integer(a):
-                self.args[a] = log_format(list(self.args)[a])
+                args[a] = log_format(args[a])
             else:
-                self.kwargs[a] = log_format(self.kwargs[a])
-        return self.fmt.format(*self.args, **self.kwargs)
+                kwargs[a] = log_format(kwargs[a])
+        return self.fmt.format(*args, **kwargs)
 
 
 def _multiple_replacer(replace_dict):
-- 
2.43.0


From fca23217332d4e81f5e0db006be132e726b944dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 069/150] fix: take_arrays on methods, on arguments given by
 name and on a single second argument

---
 ngoschema/decorators.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 80bd467..545937c 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -44,24 +44,33 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
 
         @wrapt.decorator
         def wrapper(method, instance, args, kwargs):
+            # wrapped might be a bound method, which does not have its instance among its arguments
+            shift = 0 if instance is None else 1
+            i1, i2 = narg1 - shift, narg2 - shift
             # case first argument is an array
-            if type(args[narg1]) in (list, set, tuple):
+            if i1 < len(args) and type(args[i1]) in (list, set, tuple):
                 ret = []
                 new_args = list(args)
                 # only first argument is an array
-                if (narg2 == -1 or not type(args[narg2]) in (list, set, tuple)
-                        or len(args[narg2]) == 1):
-                    for v in args[narg1]:
-                        new_args[narg1] = v
-                        ret.append(wrapped(*new_args, **kwargs))
+                if (narg2 == -1 or i2 >= len(args)
+                        or not type(args[i2]) in (list, set, tuple)):
+                    for v in args[i1]:
+                        new_args[i1] = v
+                        ret.append(method(*new_args, **kwargs))
                 # both are list
                 else:
                     # same size - call with zipped values
-                    if len(args[narg1]) == len(args[narg2]):
-                        for v1, v2 in zip(args[narg1], args[narg2]):
-                            new_args[narg1] = v1
-                            new_args[narg2] = v2
-                            ret.append(wrapped(*new_args, **kwargs))
+                    if len(args[i1]) == len(args[i2]):
+                        for v1, v2 in zip(args[i1], args[i2]):
+                            new_args[i1] = v1
+                            new_args[i2] = v2
+                            ret.append(method(*new_args, **kwargs))
+                    # a single second argument goes with all the first ones
+                    elif len(args[i2]) == 1:
+                        new_args[i2] = list(args[i2])[0]
+                        for v in args[i1]:
+                            new_args[i1] = v
+                            ret.append(method(*new_args, **kwargs))
                     # different size
                     else:
                         raise InvalidValue(
@@ -69,7 +78,7 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                             (narg1, narg2))
             else:
                 # if the first one is not a string, ignore and call func
-                return wrapped(*args, **kwargs)
+                return method(*args, **kwargs)
             if flatten:
                 return [item for sublist in ret for item in sublist]
             return ret
-- 
2.43.0


From 44d7a1eb1bf00cbe054ea6bd790846e85491bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 070/150] fix: assert_arg checks the right argument of methods
 of falsy instances and of named only arguments

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 545937c..0e8881f 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -146,7 +146,7 @@ def assert_arg(arg, typ, **schema):
             if not assert_args:
                 return wrapped(*args, **kwargs)
 
-            arg_i2 = arg_i if not instance and arg_i is not None else arg_i - 1
+            arg_i2 = arg_i if instance is None or arg_i is None else arg_i - 1
             args = list(args)
             try:
                 if arg_s in kwargs:
-- 
2.43.0


From feb51da60abb10f749fa2bae8e25d59e6c524508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 071/150] fix: log_exceptions on functions without arguments

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 0e8881f..ccf9cfc 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -204,7 +204,7 @@ def log_exceptions(method, instance, args, kwargs):
     SHOULDN T BE USED FOR __init__, use log_init instead
     """
     # special case happening for getters/setters
-    if instance is None:
+    if instance is None and args:
         instance = args[0]
     try:
         if hasattr(instance, "_logger"):
-- 
2.43.0


From a7b0297068835371509a10bd266486002adcdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 072/150] fix: log_init on instances without logger

---
 ngoschema/decorators.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index ccf9cfc..4926628 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -234,19 +234,21 @@ def log_init(init, instance, args, kwargs):
     """
     log init of instance and possible exceptions
     """
-    instance._logger.info(
-        "%s",
-        _format_call_msg("INIT <%s>.__init__" % instance.__class__.__name__,
-                         args, kwargs))
+    if hasattr(instance, "_logger"):
+        instance._logger.info(
+            "%s",
+            _format_call_msg("INIT <%s>.__init__" % instance.__class__.__name__,
+                             args, kwargs))
     try:
         return init(*args, **kwargs)
     except Exception as er:
         etype, value, trace = sys.exc_info()
-        instance._logger.error(
-            "CALL %s\n\tERROR: %s: %s",
-            _format_call_msg(
-                "INIT <%s>.__init__" % instance.__class__.__name__, args,
-                kwargs), etype.__name__, value)
+        if hasattr(instance, "_logger"):
+            instance._logger.error(
+                "CALL %s\n\tERROR: %s: %s",
+                _format_call_msg(
+                    "INIT <%s>.__init__" % instance.__class__.__name__, args,
+                    kwargs), etype.__name__, value)
         try:
             six.reraise(etype, value, trace)
         finally:
-- 
2.43.0


From 269ed35704dda3ff4fe8b32bd9937ab6117b6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 073/150] fix: an argument which cannot be converted is
 reported as an invalid argument

---
 ngoschema/decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 4926628..5557f31 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -21,7 +21,7 @@ from pprint import pformat
 from pyrsistent import pmap
 from python_jsonschema_objects.validators import ValidationError
 
-from .exceptions import InvalidValue
+from .exceptions import ConversionError, InvalidValue
 
 # about decorators and why using wrapt
 # https://hynek.me/articles/decorators/
@@ -157,7 +157,7 @@ def assert_arg(arg, typ, **schema):
                     # must be a default value, assume it s correct!
                     pass
                     #raise Exception("error with argument definition (%s,%i)"%(arg_s, arg_i2))
-            except (ValidationError, InvalidValue) as er:
+            except (ValidationError, ConversionError) as er:
                 if arg_s in kwargs:
                     raise ValidationError(
                         "%s=%r is not valid. %s" % (arg_s, kwargs[arg_s], er))
-- 
2.43.0


From 65a12543f3a00d5f29e2d56cb58a353b6f85e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:34 +0000
Subject: [PATCH 074/150] fix: sets and deques are formatted in logs

---
 ngoschema/utils/str_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index 98463a4..95bc774 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -94,7 +94,7 @@ class PrettyShortPrinter(pprint.PrettyPrinter):
                 if len(rep) >= max_coll_len:
                     rep = rep[:max_coll_len] + '...}'
             else:
-                rep = self._repr([v for v in object[0:self._maxEl]], context, level)
+                rep = self._repr(list(islice(object, self._maxEl)), context, level)
                 if len(object) >= self._maxEl:
                     rep = rreplace(rep, ']', '+%i...]' % (len(object)-self._maxEl))
                 if len(rep) >= max_coll_len:
-- 
2.43.0


From 60ee9de6980a791d74d526bf15e06ef5d21553f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:45 +0000
Subject: [PATCH 075/150] fix: get_unicode decodes bytes

---
 ngoschema/utils/str_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index 95bc774..9a4a445 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -183,7 +183,7 @@ def split_string(string, delimiters=" ", strip=True):
 
 
 def get_unicode(str_or_unicode, encoding='utf-8'):
-    if isinstance(str_or_unicode, (str, basestring)):
+    if isinstance(str_or_unicode, str):
         return str_or_unicode
     return str(str_or_unicode, encoding, errors='ignore')
 
-- 
2.43.0


From 6931ecf994400545f195a0bb4ae93790e1fcbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 076/150] fix: scoped sessions refuse arguments once created
 and can be configured

---
 ngoschema/session.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3e33711..3550cad 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -10,7 +10,9 @@ from __future__ import unicode_literals
 
 import weakref
 import functools
+import logging
 
+from sqlalchemy import exc as sa_exc
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
 from . import utils
@@ -19,6 +21,8 @@ from .protocols import ObjectProtocol, ArrayProtocol, SchemaMetaclass, with_meta
 from .types import Tuple, Array
 from .query import Query
 
+logger = logging.getLogger(__name__)
+
 _sessions = weakref.WeakValueDictionary()
 
 _new_sessionid = utils.threadsafe_counter()
@@ -346,7 +350,7 @@ class scoped_session(object):
         """
 
         if self.registry.has():
-            self._logger.warning(
+            logger.warning(
                 "At least one scoped session is already present. "
                 " configure() can not affect sessions that have "
                 "already been created."
-- 
2.43.0


From 3044668fc62881f66441d9aefaa2b114e6a53bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 077/150] fix: repositories are bound to the session they are
 given

---
 ngoschema/repositories/file_repositories.py | 2 +-
 ngoschema/repositories/memory_repository.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/repositories/file_repositories.py b/ngoschema/repositories/file_repositories.py
index 818f851..b0812cf 100644
--- a/ngoschema/repositories/file_repositories.py
+++ b/ngoschema/repositories/file_repositories.py
@@ -54,7 +54,7 @@ class FileRepository(with_metaclass(SchemaMetaclass, Repository, FileSaver)):
 
     def __init__(self, value=None, meta_opts=None, **opts):
         ObjectProtocol.__init__(self, value, **opts)
-        Repository.__init__(self, **(meta_opts or {}), **self)
+        Repository.__init__(self, **dict({'session': opts.get('session')}, **(meta_opts or {})), **self)
         #Repository.__init__(self, **(meta_opts or {}), instanceClass=self.instanceClass)
 
     @staticmethod
diff --git a/ngoschema/repositories/memory_repository.py b/ngoschema/repositories/memory_repository.py
index 4b6435f..249e249 100644
--- a/ngoschema/repositories/memory_repository.py
+++ b/ngoschema/repositories/memory_repository.py
@@ -18,7 +18,7 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
         from ..types import Array
         #from ..protocols.array_protocol import ArrayProtocol
         ObjectProtocol.__init__(self, **opts)
-        Repository.__init__(self, **(meta_opts or {}), **self)
+        Repository.__init__(self, **dict({'session': opts.get('session')}, **(meta_opts or {})), **self)
         self._catalog = OrderedDict()
         self._content = Array(items=self._instanceClass, maxItems=1 if not self._many else None)(value)
 
-- 
2.43.0


From 6c3d5b2cd6aeaea8687ac51219072994b35d9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 078/150] fix: types can be built by several threads

---
 ngoschema/managers/type_builder.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 5b52679..11980eb 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -4,6 +4,8 @@ from __future__ import unicode_literals
 
 import logging
 import copy
+import functools
+import threading
 from collections import OrderedDict, Mapping
 from jsonschema.validators import extend
 from jsonschema.exceptions import UndefinedTypeCheck
@@ -29,6 +31,18 @@ def untype_schema(schema):
     return schema
 
 
+# types are built in several steps, other threads have to wait for them to be completed
+_build_lock = threading.RLock()
+
+
+def _locked(method):
+    @functools.wraps(method)
+    def wrapper(*args, **kwargs):
+        with _build_lock:
+            return method(*args, **kwargs)
+    return wrapper
+
+
 class TypeBuilder(GenericClassRegistry):
     _registry = {}
     _type_registry = {}
@@ -62,6 +76,7 @@ class TypeBuilder(GenericClassRegistry):
     def get_type(self, id):
         return self._type_registry[id]
 
+    @_locked
     def build(self, id, schema=None, bases=(), attrs=None):
         from .namespace_manager import NamespaceManager
         from ..protocols import TypeProtocol, ObjectProtocol, ArrayProtocol, TypeProxy
@@ -105,6 +120,7 @@ class TypeBuilder(GenericClassRegistry):
         NamespaceManager.register_ns(id)
         return cls
 
+    @_locked
     def load(self, id):
         from ..protocols import TypeProxy
         if id not in self._registry and id.endswith('#') and id[:-1] in self._registry:
-- 
2.43.0


From b3928a5c33277d4465c819a69e419b4a88c9e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:09 +0000
Subject: [PATCH 079/150] fix: objects with a schema can be casted

---
 ngoschema/utils/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index aabb73d..1158aa8 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -522,11 +522,12 @@ def casted_as(instance, cls):
     instance_cls = instance.__class__
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
-    instance.__class__ = cls
+    # the instance might redefine __setattr__, as objects with a schema do
+    object.__setattr__(instance, '__class__', cls)
     try:
         yield instance
     finally:
-        instance.__class__ = instance_cls
+        object.__setattr__(instance, '__class__', instance_cls)
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From be3831e7453bb4f7313004600448ed6041116bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:49 +0000
Subject: [PATCH 080/150] fix: properties and accessors are inherited in the
 order of python

---
 ngoschema/protocols/object_protocol.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 10f48fe..b9633c3 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -12,7 +12,7 @@ from operator import neg
 import copy
 
 from ..exceptions import InvalidValue
-from ..utils import ReadOnlyChainMap as ChainMap, shorten
+from ..utils import ReadOnlyChainMap as ChainMap, shorten, mro
 from .. import decorators
 from ..resolvers.uri_resolver import UriResolver, resolve_uri
 from ..types.array import Array
@@ -578,6 +578,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         pbases = tuple(b for b in pbases if b not in not_ready_yet)
         if not pbases:
             bases += [ObjectProtocol]
+        # all ancestors, in the order python looks up their attributes
+        ancestors = mro(*[b for b in bases + bases_extended if b not in not_ready_yet])
+        pancestors = [b for b in ancestors if '_propertiesLocal' in b.__dict__]
 
         # create an aliases dictionary from all bases dependencies
         aliases = schema.get('aliases', {})
@@ -620,7 +623,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         for i, s in zip(not_ready_yet, not_ready_yet_sch):
             for k, v in s.get('properties', {}).items():
                 redefined_properties[k] = type_builder.build(f'{id}/properties/{k}', v)
-        all_properties = ChainMap(local_properties, redefined_properties, *[b._propertiesChained for b in pbases])
+        all_properties = ChainMap(local_properties, redefined_properties,
+                                  *[p for b in pancestors for p in (b._propertiesLocal, b._propertiesRedefined)])
         pattern_properties = set([(re.compile(k),
                                    type_builder.build(f'{id}/patternProperties/{k}', v))
                                    for k, v in schema.get('patternProperties', {}).items()])
@@ -718,8 +722,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 fname = f'{PROP_PREF[prop]}{ptrans}'
                 fun = attrs.get(fname)
                 if not fun:
-                    fun = [getattr(b, fname) for b in bases if hasattr(b, fname)]
-                    fun = None if not fun else fun[0]
+                    fun = next((getattr(b, fname) for b in ancestors if fname in b.__dict__), None)
                 if fun:
                     insp = inspect_function(fun)
                     for d in insp.get('decorators', []):
@@ -755,10 +758,11 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 ptype._schema.get('description'))
         # remaining descriptors are properties defined in other bases with local getter/setter/deleter definitions
         for pname, pfun in descriptor_funs.items():
-            for b in pbases:
-                d = getattr(b, '_propertiesDescriptor', {}).get(pname)
+            for b in pancestors:
+                d = b._propertiesDescriptorLocal.get(pname)
                 if d:
                     d = copy.copy(d)
+                    d.ptype = all_properties[pname]
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
@@ -779,8 +783,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         attrs['_propertiesRedefined'] = redefined_properties
         attrs['_propertiesPattern'] = set().union(pattern_properties, *[b._propertiesPattern for b in pbases])
         attrs['_propertiesAdditional'] = additional_properties
-        attrs['_propertiesDescriptor'] = dict(ChainMap(properties_descriptor, *[getattr(b, '_propertiesDescriptor', {})
-                                                                                for b in pbases]))
+        attrs['_propertiesDescriptorLocal'] = properties_descriptor
+        attrs['_propertiesDescriptor'] = dict(ChainMap(properties_descriptor, *[b._propertiesDescriptorLocal
+                                                                                for b in pancestors]))
         attrs['_relationships'] = relationships
         attrs['_localRelationships'] = local_relationships
         attrs['_relationshipsDescriptor'] = dict(ChainMap(local_relationships_descriptor,
-- 
2.43.0


From 97f8b613d2ae5eff3ec67c51e42eb8839b4bc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 081/150] fix: a type referenced by the one it extends is built
 from it

---
 ngoschema/managers/type_builder.py | 26 +++++++++++++++++++++++++-
 ngoschema/protocols/type_proxy.py  |  9 +++++++--
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 11980eb..31fd487 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -127,11 +127,35 @@ class TypeBuilder(GenericClassRegistry):
             # same schema, with an empty fragment
             id = id[:-1]
         if id not in self._registry:
-            if id in self._on_construction:
+            if self._is_waiting(id):
                 return TypeProxy.build(id)
             self._registry[id] = self.build(id)
         return self._registry[id]
 
+    def load_ready(self, id):
+        """ load a type, None while it is still on construction """
+        if id in self._registry:
+            return self._registry[id]
+        with _build_lock:
+            return None if self._is_waiting(id) else self.load(id)
+
+    def _is_waiting(self, id):
+        """ if a type, or one it extends, is still on construction """
+        if id in self._on_construction:
+            return True
+        seen, to_see = set(), [id]
+        while to_see and self._on_construction:
+            i = to_see.pop()
+            schema = resolve_uri(i)
+            for e in schema.get('extends', []) if isinstance(schema, Mapping) else []:
+                e = scope(e, i)
+                if e in self._on_construction:
+                    return True
+                if e not in seen and e not in self._registry:
+                    seen.add(e)
+                    to_see.append(e)
+        return False
+
     def check_schema(self, schema):
         from jsonschema.exceptions import SchemaError
         for error in default_meta_validator.iter_errors(schema):
diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index e16649d..2b61c1f 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+from ..resolvers.uri_resolver import resolve_uri
 from .type_protocol import TypeProtocol
 
 
@@ -14,7 +15,11 @@ class TypeProxy(TypeProtocol):
         from ..managers.type_builder import type_builder
         from .object_protocol import ObjectProtocol
         from .array_protocol import ArrayProtocol
-        sch, bases, attrs = type_builder._on_construction[uri]
+        if uri in type_builder._on_construction:
+            sch, bases, attrs = type_builder._on_construction[uri]
+        else:
+            # waiting for a type it extends
+            sch, bases, attrs = resolve_uri(uri), (), {}
         schema = schema or sch
         clsname = attrs.get('_clsname') or default_ns_manager.get_id_cname(uri)
         protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch['type'], TypeProtocol)
@@ -33,7 +38,7 @@ class TypeProxy(TypeProtocol):
     @classmethod
     def proxy_type(cls):
         from ..managers.type_builder import type_builder
-        return type_builder.get(cls._proxyUri)
+        return type_builder.load_ready(cls._proxyUri)
 
     @classmethod
     def check(cls, value, **opts):
-- 
2.43.0


From fbceabb0e179d8ff38c432a121dc592756e025ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 082/150] fix: class attributes do not modify the schema given

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b9633c3..f46d425 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -739,8 +739,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 type_builder._registry.pop(f'{id}/properties/{k}', None)
             local_properties.update({k: type_builder.build(f'{id}/properties/{k}', sch)
                                      for k, sch in extra_schema_properties.items()})
-            schema.setdefault('properties', {})
-            schema['properties'].update(extra_schema_properties)
+            # the properties of the schema given stay as they are
+            schema['properties'] = dict(schema.get('properties', {}), **extra_schema_properties)
 
         # create descriptors
         # go through local properties and create descriptors
-- 
2.43.0


From ec071add6f348fe11dea4322248dd24a9b8c6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:53 +0000
Subject: [PATCH 083/150] fix: foreign keys are looked up in every repository
 of their class

---
 ngoschema/types/foreign_key.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 9819e9a..7fd0c7a 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -157,9 +157,8 @@ class ForeignKey(Ref):
         fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
-            v = r.resolve_fkey(key)
-            if v is not None:
-                return v
+            if key in r:
+                return r.resolve_fkey(key)
         raise InvalidValue('impossible to resolve foreign key %s' % repr(key))
 
 
-- 
2.43.0


From 72fd70d7b813a3e25f0b5d0ac77ae20c107542a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 084/150] fix: foreign keys of a class still being built have
 the type of its keys

---
 ngoschema/protocols/type_protocol.py | 5 +++--
 ngoschema/types/foreign_key.py       | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 552fb48..4e86f94 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -59,8 +59,9 @@ class TypeProtocol(Serializer):
                 fc = type_builder.load(fs)
                 attrs['_foreignClass'] = fc
                 #attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', fc._primaryKeys)
-                attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', getattr(fc._schema, 'primaryKeys', ['id']))
-                attrs['_foreignKeysType'] = [fc._items_type(fc, k) for k in fks]
+                if not hasattr(fc, '_proxyUri'):
+                    attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', fc._primaryKeys)
+                    attrs['_foreignKeysType'] = [fc._items_type(fc, k) for k in fks]
             except Exception as er:
                 # certainly a proxy type inf fc item fk type evaluation
                 #logger.error(er, exc_info=True)
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 7fd0c7a..2d47868 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -89,13 +89,19 @@ class ForeignKey(Ref):
                 self._foreignClass = fc
                 self._foreignKeys = fk = self._schema.get('foreignKey', {}).get('foreignKeys', fc._primaryKeys)
                 self._foreignKeysType = tuple(fc._items_type(fc, k) for k in fk)
+        elif fc:
+            # still being built, its keys are not known yet
+            self._foreignClass = fc
         return fc
 
     def get_foreignClass(self):
         from ..protocols.type_proxy import TypeProxy
         fc, fs = self._foreignClass, self._foreignSchema
         if fc and issubclass(fc, TypeProxy):
-            self._foreignClass = fc.proxy_type()
+            fc = fc.proxy_type()
+            if fc:
+                # type is ready, its keys are now known
+                ForeignKey.set_foreignClass(self, fc)
         if not fc and fs:
             ForeignKey.set_foreignSchema(self, self._foreignSchema)
         return self._foreignClass
@@ -127,6 +133,7 @@ class ForeignKey(Ref):
 
     @staticmethod
     def _serialize(self, value, **opts):
+        ForeignKey.get_foreignClass(self)
         fkt = self._foreignKeysType
         return fkt[0]._convert(fkt[0], value, **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts)\
                                                                                   for t, v in zip(fkt, value))
-- 
2.43.0


From 9d2984841703c81db00f536acf3adb6654df8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 085/150] fix: a text key is not split unless the key is
 composite

---
 ngoschema/types/foreign_key.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 2d47868..0716b90 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -118,7 +118,8 @@ class ForeignKey(Ref):
                 return None
             value = [value]
         else:
-            value = Array.deserialize(value, split_string=True, **opts)
+            # only a composite key is a list of keys
+            value = Array.deserialize(value, split_string=len(self._foreignKeysType) > 1, **opts)
         opts['raw_literals'] = False
         fkt = self._foreignKeysType
         return fkt[0]._convert(fkt[0], value[0], **opts) if len(fkt)==1 else tuple(t._convert(t, v, **opts) for t, v in zip(fkt, value))
@@ -157,8 +158,9 @@ class ForeignKey(Ref):
         return value
 
     @staticmethod
-    @assert_arg(1, Tuple, strDelimiter=',')
     def _resolve(self, key, session=None, **opts):
+        key = ForeignKey._convert(self, key)
+        key = key if isinstance(key, tuple) else (key, )
         session = session or scoped_session(session_maker())()
         ric = [r.instanceClass for r in session.repositories]
         fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
-- 
2.43.0


From 62e7616024b8b149286feb2f354083a0dc19266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 086/150] fix: dependencies declared with depend_on_prop are
 known without inspection

---
 ngoschema/decorators.py                | 7 ++++++-
 ngoschema/protocols/object_protocol.py | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 5557f31..6950b60 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -286,7 +286,12 @@ def depend_on_prop(*prop_names):
     @wrapt.decorator
     def wrapper(wrapped, instance, args, kwargs):
         return wrapped(*args, **kwargs)
-    return wrapper
+
+    def decorate(wrapped):
+        # to be found without the inspection of the source
+        wrapped._dependOnProp = prop_names
+        return wrapper(wrapped)
+    return decorate
 
 
 class ClassPropertyDescriptor(object):
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index f46d425..ae79ebc 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -724,6 +724,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 if not fun:
                     fun = next((getattr(b, fname) for b in ancestors if fname in b.__dict__), None)
                 if fun:
+                    dependencies[pname].update(getattr(fun, '_dependOnProp', ()))
                     insp = inspect_function(fun)
                     for d in insp.get('decorators', []):
                         if 'depend_on_prop' == d['name']:
-- 
2.43.0


From 013f15ae012f37d0d1d552786285d3f5092d9d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 087/150] fix: instances know the instance which holds them

---
 ngoschema/contexts/instance_context.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngoschema/contexts/instance_context.py b/ngoschema/contexts/instance_context.py
index f8c52d0..6f79051 100644
--- a/ngoschema/contexts/instance_context.py
+++ b/ngoschema/contexts/instance_context.py
@@ -11,7 +11,9 @@ class InstanceContext(ObjectProtocolContext):
     def set_context(self, context, **opts):
         from ..models.instances import Instance
         ObjectProtocolContext.set_context(self, context, **opts)
-        self._parentInstance = next((m for m in self._context.maps
-                                      if isinstance(m, Instance) and m is not self), None)
+        parent = next((m for m in self._context.maps
+                       if isinstance(m, Instance) and m is not self), None)
+        # not through the property, whose descriptor is hidden by the attribute of the context class
+        self.__dict__['_parentInstance'] = parent
         if '_parentInstance' in self._properties:
-            self._set_dataValidated('_parentInstance', self._parentInstance)
+            self._set_dataValidated('_parentInstance', parent)
-- 
2.43.0


From 6b1f0f200bc94b80d99b0984b8bae711bdf24558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 088/150] fix: canonical names follow the names of the
 instances they are made of

---
 ngoschema/models/instances.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index ca2e648..88aff18 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -24,13 +24,12 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     _id = "https://numengo.org/ngoschema#/$defs/instances/$defs/Instance"
 
     def __str__(self):
-        if self._str is None:
-            cn = self._canonicalName
-            a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
-            self._str = '<%s %s>' % (self.qualname(), ' '.join(a))
-        return self._str
+        # canonical name changes with the names of the instances which hold this one
+        cn = self._canonicalName
+        a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
+        return '<%s %s>' % (self.qualname(), ' '.join(a))
 
-    @depend_on_prop('name')
+    @depend_on_prop('name', '_parentInstance._canonicalName')
     def get_canonicalName(self):
         return self._canonicalName
 
-- 
2.43.0


From 1d88f4277ba057ecebe5de32a9d972dda8f3f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:14 +0000
Subject: [PATCH 089/150] fix: canonical names are resolved from the instance
 they are given to

---
 ngoschema/protocols/object_protocol.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index ae79ebc..85ed00e 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -338,33 +338,40 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     def resolve_cname_path(self, cname):
         from ..models.instances import Instance
+        from .array_protocol import ArrayProtocol
+
+        def is_array(v):
+            return isinstance(v, ArrayProtocol) or Array.check(v, split_string=False)
+
         # use generators because of 'null' which might lead to different paths
         def _resolve_cname_path(cn, cur, cur_cn, cur_path):
             # empty path, yield current path and doc
             if not cn:
                 yield cur, cn, cur_path
             if Object.check(cur):
-                cn2 = cur_cn + [(cur.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>').rsplit(':')[-1]]
+                # objects without name are not part of canonical names
+                cur_name = cur.get(ATTRIBUTE_NAME_FIELD)
+                cn2 = cur_cn + [cur_name.rsplit(':')[-1]] if cur_name else cur_cn
                 if cn2 == cn[0:len(cn2)]:
                     if cn2 == cn:
                         yield cur, cn, cur_path
                     for k, v in cur.items():
-                        if Object.check(v) or Array.check(v, split_string=False):
+                        if not k.startswith('_') and (Object.check(v) or is_array(v)):
                             for _ in _resolve_cname_path(cn, v, cn2, cur_path + [k]):
                                 yield _
-            if Array.check(cur, split_string=False):
+            if is_array(cur):
                 for i, v in enumerate(cur):
                     for _ in _resolve_cname_path(cn, v, cur_cn, cur_path + [i]):
                         yield _
 
-        cname = [self.name] if isinstance(self, Instance) else []
-        cname += [e.split(':')[-1] for e in cname]
+        names = [self.name] if isinstance(self, Instance) and self.name else []
+        cname = names + [e.split(':')[-1] for e in cname]
         cur = self
         cur_cn = []
         # first search without last element, as last one might not be a named object
         # but the name of an attribute
         for d, c, p in _resolve_cname_path(cname[:-1], cur, cur_cn, []):
-            if cname[-1] in d or (d.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>').rsplit(':')[-1] == cname[-1]:
+            if cname[-1] in d:
                 p.append(cname[-1])
                 return p
             # we can continue the search from last point. we remove the last element of the
@@ -375,7 +382,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     #@assert_arg(1, Tuple, strDelimiter='.')
     def resolve_cname(self, cname):
-        cname = cname if Array.check(cname) else cname.split('.')
+        cname = cname if Array.check(cname, split_string=False) else cname.split('.')
         cur, path = self, self.resolve_cname_path(cname)
         for p in path:
             cur = cur[p]
-- 
2.43.0


From 3641f875d680b46d392358454f0253b66ab6b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:04 +0000
Subject: [PATCH 090/150] fix: instances which hold others can be printed

---
 ngoschema/protocols/object_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 85ed00e..fc85439 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -505,10 +505,14 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             ret.move_to_end('$schema', False)
         return ret
 
+    def _print_excludes(self):
+        # references to what holds this object, which is printed with it
+        return [k for k in self._notSerialized if k.startswith('_')]
+
     def __repr__(self):
         if self._repr is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
+            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True, excludes=self._print_excludes()))
             hidden = max(0, len(ks) - m)
             a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
@@ -518,7 +522,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __str__(self):
         if self._str is None:
             m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
+            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False, excludes=self._print_excludes()))
             hidden = max(0, len(ks) - m)
             a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
             a += ['+%i...' % hidden] if hidden else []
-- 
2.43.0


From ce8940f5dc6828ab1449995c176d7a9e81788907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:30 +0000
Subject: [PATCH 091/150] fix: the pointer of a foreign key gives the entity it
 refers to

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index fc85439..f03d88f 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -657,7 +657,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 for kbp, bp in bps.items():
                     local_relationships[kbp] = rl = relationship_builder.build(f'{id}/relationships/{kbp}', bp, attrs=ra)
                     #local_relationships[rn] = rl = RelationshipBuilder.build(f'{id}/relationships/{rn}', rs, attrs=ra)
-                    local_relationships_descriptor[kbp] = RelationshipDescriptor(kbp, rl)
+                    # resolves the foreign key kept in the property
+                    local_relationships_descriptor[kbp] = RelationshipDescriptor(k, rl)
 
         # add some magic on methods defined in class
         # exception handling, argument conversion/validation, dependencies, etc...
-- 
2.43.0


From 2238b66d5c624fa132db74b550f6f690cc6ff833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 092/150] fix: printed objects show the current values of what
 they hold

---
 ngoschema/protocols/array_protocol.py  | 12 +++++------
 ngoschema/protocols/object_protocol.py | 28 +++++++++++---------------
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 68f49aa..6212d68 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -111,13 +111,11 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
             raise
 
     def _str_list(self):
-        if self._str is None:
-            hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
-            a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
-                 for i, t in enumerate(self._items_types(self, self._data))
-                 if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
-            self._str = '[%s]' % (', '.join(a))
-        return self._str
+        hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
+        a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
+             for i, t in enumerate(self._items_types(self, self._data))
+             if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
+        return '[%s]' % (', '.join(a))
 
     def __repr__(self):
         return '%s(%s)' % (self.qualname(), ArrayProtocol._str_list(self))
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index f03d88f..ee12320 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -510,24 +510,20 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         return [k for k in self._notSerialized if k.startswith('_')]
 
     def __repr__(self):
-        if self._repr is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True, excludes=self._print_excludes()))
-            hidden = max(0, len(ks) - m)
-            a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._repr = '%s(%s)' % (self.qualname(), ', '.join(a))
-        return self._repr
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True, excludes=self._print_excludes()))
+        hidden = max(0, len(ks) - m)
+        a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '%s(%s)' % (self.qualname(), ', '.join(a))
 
     def __str__(self):
-        if self._str is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False, excludes=self._print_excludes()))
-            hidden = max(0, len(ks) - m)
-            a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._str = '{%s}' % (', '.join(a))
-        return self._str
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False, excludes=self._print_excludes()))
+        hidden = max(0, len(ks) - m)
+        a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '{%s}' % (', '.join(a))
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From 743ea972f5f859a1f354195076e17438a3b18738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 093/150] fix: memory repositories resolve their instances by
 their current keys

---
 ngoschema/repositories/memory_repository.py | 43 ++++++++++++---------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/ngoschema/repositories/memory_repository.py b/ngoschema/repositories/memory_repository.py
index 249e249..b405073 100644
--- a/ngoschema/repositories/memory_repository.py
+++ b/ngoschema/repositories/memory_repository.py
@@ -20,7 +20,9 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
         ObjectProtocol.__init__(self, **opts)
         Repository.__init__(self, **dict({'session': opts.get('session')}, **(meta_opts or {})), **self)
         self._catalog = OrderedDict()
-        self._content = Array(items=self._instanceClass, maxItems=1 if not self._many else None)(value)
+        self._content = []
+        for v in Array(items=self._instanceClass, maxItems=1 if not self._many else None)(value):
+            self._commit(self, v)
 
     def __contains__(self, item):
         return item in self._catalog
@@ -32,22 +34,27 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
     def _commit(self, value, save=False, **opts):
         """ optionally load the value (at least validate it) and add it to content """
         value = self._saver._save(self, value, **opts) if save else value
-        if self._many:
-            # check/set identity keys
-            pk = value.identityKeys
-            for i, k in enumerate(pk):
-                iks = [c.identityKeys[i] for c in self._content]
-                if k is None:
-                    k = max([-1] + iks) + 1
-                    value._set_data(value.primaryKeys[i], k)
-            pk = value.identityKeys
-            self._catalog[value._identityKeys] = value
-            for i, c in enumerate(self._content):
-                if pk == c.identityKeys:
-                    self._content[i] = value
-                    break
-            else:
-                self._content.append(value)
+        if not self._many:
+            # only the last instance is kept
+            self._content = []
+            self._catalog.clear()
+        # check/set identity keys
+        pk = value.identityKeys
+        for i, k in enumerate(pk):
+            if k is None:
+                iks = [c.identityKeys[i] for c in self._content if c is not value]
+                k = max([-1] + [ik for ik in iks if ik is not None]) + 1
+                value._set_data(value.primaryKeys[i], k)
+        pk = value.identityKeys
+        # the instance can have been committed with other keys
+        for ik in [ik for ik, c in self._catalog.items() if c is value]:
+            del self._catalog[ik]
+        self._catalog[value._identityKeys] = value
+        same = [i for i, c in enumerate(self._content) if c is value or pk == c.identityKeys]
+        if same:
+            self._content[same[0]] = value
+            for i in reversed(same[1:]):
+                del self._content[i]
         else:
-            self._content = self._content(value)
+            self._content.append(value)
         return self._content
-- 
2.43.0


From b9b8c62dfd4f26c87b80f4c0330902a7f89bc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:24 +0000
Subject: [PATCH 094/150] fix: entities are serialized and printed by their
 current keys

---
 ngoschema/models/instances.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 88aff18..8ac4919 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -77,7 +77,7 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
 
     def __str__(self):
         if self._str is None:
-            ks = [str(k) for k in self._identityKeys]
+            ks = [str(k) for k in self.get_identityKeys()]
             self._str = '<%s %s>' % (self.qualname(), ', '.join(ks))
         return self._str
 
@@ -95,12 +95,12 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         add_identity_keys = opts.get('add_identity_keys', False)
         if value and not root_entity:
             if use_identity_keys:
-                ik = value.identityKeys
-                return ik[0] if len(ik) == 1 else ik
+                ik = value.get_identityKeys()
+                return ik[0] if len(ik) == 1 else list(ik)
             if use_entity_keys:
-                keys = self.primaryKeys
+                keys = value._primaryKeys
                 assert len(keys) == 1, keys
-                return {(keys[0] if keys[0] != '$id' else '$ref'): self.identityKeys[0]}
+                return {(keys[0] if keys[0] != '$id' else '$ref'): value.get_identityKeys()[0]}
         data = ObjectProtocol._serialize(self, value, **opts)
         if add_identity_keys:
             for k in self._primaryKeys:
-- 
2.43.0


From fea3724e5d35a20e4e33d7422eb242c6ceb74b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:02 +0000
Subject: [PATCH 095/150] fix: values are not printed for each type they are
 checked not to be of

---
 ngoschema/protocols/checker.py | 16 +++++++++++++++-
 ngoschema/types/type.py        |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/checker.py b/ngoschema/protocols/checker.py
index 778f5cc..7a18b77 100644
--- a/ngoschema/protocols/checker.py
+++ b/ngoschema/protocols/checker.py
@@ -6,6 +6,20 @@ from ..exceptions import ConversionError
 from ..utils import shorten
 
 
+class TypeErrorMessage:
+    """ message of a type error, made only if it is read as it prints the whole value """
+
+    def __init__(self, fmt, value, *args):
+        self._fmt = fmt
+        self._value = value
+        self._args = args
+
+    def __str__(self):
+        return self._fmt % ((shorten(self._value, str_fun=repr), ) + self._args)
+
+    __repr__ = __str__
+
+
 class Checker:
     _pyType = None
 
@@ -17,7 +31,7 @@ class Checker:
         """ method to overload locally for extra check. Allows to associate a message to check failure."""
         py_type = opts.get('pyType', self._pyType)
         if py_type and not isinstance(value, py_type):
-            raise TypeError('%s is not of type %s.' % (shorten(value, str_fun=repr), self._pyType))
+            raise TypeError(TypeErrorMessage('%s is not of type %s.', value, self._pyType))
         if not py_type:
             return value
             #raise TypeError('No type defined.')
diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 35b8d69..e0cb99f 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 
 import logging
 
+from ..protocols.checker import TypeErrorMessage
 from ..protocols.type_protocol import TypeProtocol
 from ..managers.type_builder import register_type
 from ..utils import ReadOnlyChainMap
@@ -58,7 +59,7 @@ class Primitive(Type):
         from collections import Mapping, Sequence
         if not self._pyType:
             if isinstance(value, (Mapping, Sequence)) and not isinstance(value, str):
-                raise TypeError('%s is not a primitive.' % shorten(value, str_fun=repr))
+                raise TypeError(TypeErrorMessage('%s is not a primitive.', value))
             return value
         else:
             return Type._check(self, value, **opts)
-- 
2.43.0


From b37fb84e00c8fd447421542623cec7f3a28c2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:21 +0000
Subject: [PATCH 096/150] fix: values are not printed when a type refuses them
 without reading why

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 ngoschema/types/datetime.py            | 7 ++++---
 ngoschema/types/foreign_key.py         | 3 ++-
 ngoschema/types/numerics.py            | 3 ++-
 ngoschema/types/object.py              | 3 ++-
 ngoschema/types/strings.py             | 5 +++--
 ngoschema/types/symbols.py             | 3 ++-
 ngoschema/types/type.py                | 2 +-
 ngoschema/types/uri.py                 | 5 +++--
 9 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index ee12320..fa63d48 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -12,6 +12,7 @@ from operator import neg
 import copy
 
 from ..exceptions import InvalidValue
+from .checker import TypeErrorMessage
 from ..utils import ReadOnlyChainMap as ChainMap, shorten, mro
 from .. import decorators
 from ..resolvers.uri_resolver import UriResolver, resolve_uri
@@ -172,7 +173,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     @staticmethod
     def _check(self, value, **opts):
         if not isinstance(value, Mapping):
-            raise TypeError('%s if not of type mapping.' % value)
+            raise TypeError(TypeErrorMessage('%s is not of type mapping.', value))
         value = self._collType(value)
         keys = set(value)
         for k1, k2 in ChainMap(self._propertiesTranslation, self._aliases, self._aliasesNegated).items():
diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 3233a79..bb6a4c0 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -6,6 +6,7 @@ import datetime
 import arrow
 
 from ..exceptions import ValidationError, InvalidValue
+from ..protocols.checker import TypeErrorMessage
 from .type import TypeProtocol, Primitive
 from ..managers.type_builder import register_type
 from .strings import String
@@ -34,7 +35,7 @@ class Date(Primitive):
     def _check(self, value, **opts):
         if isinstance(value, (arrow.Arrow, datetime.datetime)) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type date.' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type date.', value))
 
     @staticmethod
     def _convert(self, value, **opts):
@@ -79,7 +80,7 @@ class Time(Primitive):
     def _check(self, value, **opts):
         if isinstance(value, (arrow.Arrow, datetime.datetime)) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type date.' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type date.', value))
 
     @staticmethod
     def _convert(self, value, **opts):
@@ -120,7 +121,7 @@ class Datetime(Date, Time):
     def _check(self, value, **opts):
         if isinstance(value, (arrow.Arrow, datetime.datetime)) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type date.' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type date.', value))
 
     @staticmethod
     def _convert(self, value, **opts):
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 0716b90..e370f48 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -6,6 +6,7 @@ from collections import OrderedDict, defaultdict, Mapping, Sequence
 import re
 
 from .. import settings
+from ..protocols.checker import TypeErrorMessage
 from ..exceptions import InvalidValue
 from ..decorators import assert_arg
 from ngoschema.resolvers.uri_resolver import resolve_uri
@@ -130,7 +131,7 @@ class ForeignKey(Ref):
     def _check(self, value, **opts):
         if all(t._check(t, v, **opts) for t, v in zip(self._foreignKeysType, Array.deserialize(value, **opts))):
             return value
-        raise TypeError('%s is not of type foreignKey.' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type foreignKey.', value))
 
     @staticmethod
     def _serialize(self, value, **opts):
diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index 737bbdf..47d0a6f 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -9,6 +9,7 @@ import logging
 from past.types import basestring
 
 from ..exceptions import ValidationError, ConversionError, ExpressionError
+from ..protocols.checker import TypeErrorMessage
 from .type import TypeProtocol, Primitive
 from ..managers.type_builder import register_type
 from .. import settings
@@ -43,7 +44,7 @@ class Number(Numeric):
     def _check(self, value, **opts):
         if isinstance(value, (numbers.Number, decimal.Decimal, float, int)):
             return value
-        raise TypeError('%s is not of type "number".' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type "number".', value))
 
     @staticmethod
     def _evaluate(self, value, **opts):
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 57bf0eb..a163414 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -7,6 +7,7 @@ import re
 from operator import neg
 
 from ..exceptions import InvalidValue
+from ..protocols.checker import TypeErrorMessage
 from ..decorators import log_exceptions
 from ..utils import ReadOnlyChainMap as ChainMap, shorten
 from ..managers.type_builder import register_type, type_builder, untype_schema
@@ -48,7 +49,7 @@ class ObjectDeserializer(CollectionDeserializer):
     @staticmethod
     def _check(self, value, **opts):
         if not isinstance(value, Mapping):
-            raise TypeError('%s is not of type mapping.' % value)
+            raise TypeError(TypeErrorMessage('%s is not of type mapping.', value))
         #value = self._collType(value)
         return value
 
diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 127dadd..714b1c0 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -10,6 +10,7 @@ from past.types import basestring
 
 import re
 from ..exceptions import ValidationError, ConversionError, ExpressionError
+from ..protocols.checker import TypeErrorMessage
 from .type import TypeProtocol, Primitive
 from ..managers.type_builder import register_type
 from .. import settings
@@ -47,7 +48,7 @@ class Expr(String):
     def _check(self, value, **opts):
         if String.check(value) and value.startswith("`"):
             return value
-        raise TypeError('%s is not of type "expr".' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type "expr".', value))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
@@ -69,7 +70,7 @@ class Pattern(String):
     def _check(self, value, **opts):
         if String.check(value) and ("{{" in value or "{%" in value):
             return value
-        raise TypeError('%s is not of type "pattern".' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type "pattern".', value))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 359ffcc..f23bca3 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -10,6 +10,7 @@ import types
 import re
 
 from ..exceptions import ConversionError
+from ..protocols.checker import TypeErrorMessage
 from ..utils import qualname
 from ..managers.type_builder import register_type
 from .type import TypeProtocol, Primitive
@@ -60,7 +61,7 @@ class Symbol(Primitive):
     def _check(self, value, **opts):
         if self.check_symbol(value) or TypeProtocol._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type symbol.' % value)
+        raise TypeError(TypeErrorMessage('%s is not of type symbol.', value))
 
     @classmethod
     def check_symbol(cls, value):
diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index e0cb99f..dda195d 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -106,7 +106,7 @@ class Enum(Primitive):
     def _check(self, value, **opts):
         if value in self._enum or Primitive._check(self, value, **opts):
             return value
-        raise TypeError('%s is not of type enum %s.' % (value, self._enum))
+        raise TypeError(TypeErrorMessage('%s is not of type enum %s.', value, self._enum))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index 8462d05..ffda75f 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -9,6 +9,7 @@ import pathlib
 import urllib.parse
 
 from ..managers.type_builder import register_type
+from ..protocols.checker import TypeErrorMessage
 from ..contexts.ns_manager_context import find_ns_mgr, NsManagerContext
 from ..resolvers.uri_resolver import resolve_uri, scope
 from ..protocols import Resolver, Context
@@ -32,7 +33,7 @@ class Uri(Primitive, Resolver):
         """
         if Primitive._check(self, value) or isinstance(value, pathlib.Path) or String.check(value, **opts):
             return value
-        raise TypeError('%s is not type Uri.' % value)
+        raise TypeError(TypeErrorMessage('%s is not type Uri.', value))
 
     @staticmethod
     def _convert(self, value, **opts):
@@ -85,7 +86,7 @@ class Id(NsManagerContext, String):
         if m and canonical:
             uri = find_ns_mgr(context).get_cname_id(m.group())
             return value
-        raise TypeError('%s is not type Id.' % value)
+        raise TypeError(TypeErrorMessage('%s is not type Id.', value))
 
     @staticmethod
     def _convert(self, value, context=None, **opts):
-- 
2.43.0


From 76313fe3fc1c1ecce95392be486e94e5b8f440b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:41 +0000
Subject: [PATCH 097/150] fix: the namespace of a name or an identifier is the
 most precise one

---
 ngoschema/managers/namespace_manager.py | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index e420217..5fe392f 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -61,26 +61,28 @@ class NamespaceManager(Registry):
         return self._current_ns_uri
 
     def _find_ns_by_cname(self, cname):
-        reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if cname.startswith(c+'.') or c == cname], reverse=True)
+        reg = ChainMap(self._registry, self._builder_ns, NamespaceManager.available_namespaces())
+        ns_names = sorted([c for c in reg.keys() if cname.startswith(c+'.') or c == cname], key=len)
         if ns_names:
-            cn = ns_names[0]
+            cn = ns_names[-1]
             return cn, reg[cn]
-        for u in UriResolver._doc_store.keys():
-            c = NamespaceManager._uri_to_cname(u)
-            if cname.startswith(c+'.') or c == cname:
-                return c, u
         return None, None
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if uri.startswith(u)], reverse=True)
-        if ns_names:
-            cn = ns_names[0]
-            return cn, reg[cn]
         uri_ns = uri.split('#')[0] if '#' in uri else uri
+
+        def is_in(u):
+            rest = uri[len(u):]
+            # a longer path is the one of another document
+            return uri.startswith(u) and (not rest or rest[0] == '#' or u[-1:] == '#' or (rest[0] == '/' and '#' not in rest))
+
+        # the most precise namespace, a registered name first
+        found = [(len(u), 1, c, u) for c, u in reg.items() if is_in(u)]
         if uri_ns in UriResolver._doc_store.keys():
-            return NamespaceManager._uri_to_cname(uri_ns), uri_ns
+            found.append((len(uri_ns), 0, NamespaceManager._uri_to_cname(uri_ns), uri_ns))
+        if found:
+            return max(found)[2:]
         return None, None
 
     def __contains__(self, item):
-- 
2.43.0


From 3699bea25e5f7a4335633269a68856323dcb294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:41 +0000
Subject: [PATCH 098/150] fix: canonical name of a document identified with an
 empty fragment

---
 ngoschema/managers/namespace_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 5fe392f..2fbdd8e 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -110,9 +110,10 @@ class NamespaceManager(Registry):
         #ns_cn = ns_names[0] if ns_names else Uri.convert(ref).path.replace('/', '.')
         cn = ns_cn or current_ns
         frag = ref[len(ns_uri):] if ns_uri and ref.startswith(ns_uri) else ref
+        frag = frag.strip('#')
         #ns_uri, frag = urldefrag(ref)
         if frag:
-            f_cn = NamespaceManager._fragment_to_cname(frag.strip('#'))
+            f_cn = NamespaceManager._fragment_to_cname(frag)
             return f'{ns_cn}.{f_cn}' if ns_cn else f_cn
         return ns_cn
 
-- 
2.43.0


From 93725fcd2fab250523bf8b63e2ef526e67aca078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:41 +0000
Subject: [PATCH 099/150] fix: names and identifiers follow the namespaces and
 documents added later

---
 ngoschema/managers/namespace_manager.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 2fbdd8e..877bf4b 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -34,8 +34,6 @@ class NamespaceManager(Registry):
     _builder_ns = {}
 
     def __init__(self, *parents, **local):
-        self._get_id_cname = lru_cache(1024)(self._get_id_cname_cached)
-        self._get_cname_id = lru_cache(1024)(self._get_cname_id_cached)
         self._local = dict(local)
         self._local.setdefault('', self._current_ns_uri)
         self._registry = ChainMap(self._local, *parents)
@@ -94,7 +92,7 @@ class NamespaceManager(Registry):
 
     def get_id_cname(self, ref, relative=False):
         rcn = self._current_ns
-        cname = self._get_id_cname(ref, rcn)
+        cname = self._find_id_cname(ref, rcn)
         if relative and rcn and cname.startswith(rcn):
             local_cn = cname[len(rcn):].split('.')
             if local_cn and not local_cn[0]:
@@ -102,7 +100,7 @@ class NamespaceManager(Registry):
             return rcn
         return cname
 
-    def _get_id_cname_cached(self, ref, current_ns):
+    def _find_id_cname(self, ref, current_ns):
         ns_cn, ns_uri = self._find_ns_by_uri(ref)
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         #ns_names = sorted([k for k, uri in ns.items() if ref.startswith(uri)], reverse=True)
@@ -125,13 +123,13 @@ class NamespaceManager(Registry):
                 rcn.pop()
                 cname = cname[1:]
             cname = '.'.join(rcn + [cname])
-        id = self._get_cname_id(cname, self._current_ns)
+        id = self._find_cname_id(cname, self._current_ns)
         u = self._current_ns_uri.split('#')[0] + '#'
         if u and id.startswith(u):
             id = id[len(u.strip('#')):]
         return id
 
-    def _get_cname_id_cached(self, cname, current_ns):
+    def _find_cname_id(self, cname, current_ns):
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         # iterate on namespace sorted from the longest to get the most qualified
         #ns_names = sorted([k for k, uri in ns.items() if cname.startswith(k+'.') or k == cname], reverse=True)
-- 
2.43.0


From 141de7c6e1c7b38f4fbf41455e5cf355a1414db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:41 +0000
Subject: [PATCH 100/150] fix: definitions of a namespace

---
 ngoschema/managers/namespace_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 877bf4b..082d3a7 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -209,8 +209,9 @@ class NamespaceManager(Registry):
         return OrderedDict([(k, ns[k]) for k in sorted(nsk)])
 
     def get_cname_definitions(self, cname):
-        ns_uri = self.get_id_cname(cname)
+        ns_uri = self.get_cname_id(cname)
         doc = resolve_uri(ns_uri)
+        ns_uri = ns_uri if '#' in ns_uri else ns_uri + '#'
         defs = {}
         for tag in ['$defs', 'definitions']:
             for k, v in doc.get(tag, {}).items():
-- 
2.43.0


From 2c8c9301244ed11ba1e238e581a8dac7d9515908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:41 +0000
Subject: [PATCH 101/150] fix: the current namespace is one the name given
 belongs to

---
 ngoschema/managers/namespace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 082d3a7..eaf3053 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -44,7 +44,7 @@ class NamespaceManager(Registry):
         self._local[NamespaceManager._uri_to_cname(uri) if name is None else name] = uri
 
     def set_current(self, name):
-        ns_names = sorted([k for k in self._registry.keys() if name.startswith(k)])
+        ns_names = sorted([k for k in self._registry.keys() if k and (name == k or name.startswith(k + '.'))])
         assert ns_names, name
         cname = ns_names[-1]
         self._current_ns = cname
-- 
2.43.0


From 8a68ceeacc4b07ea010d6c9c585cc38d2d590574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:11 +0000
Subject: [PATCH 102/150] fix: types are loaded by name whatever the current
 namespace

---
 ngoschema/managers/namespace_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index eaf3053..23eb6ab 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -199,7 +199,12 @@ class NamespaceManager(Registry):
 
     def load(self, cname):
         from .type_builder import type_builder
-        return type_builder.load(self.get_cname_id(cname))
+        return type_builder.load(self._absolute_id(cname))
+
+    def _absolute_id(self, cname):
+        # identifiers in the current namespace are relative to it
+        id = self.get_cname_id(cname)
+        return self._current_ns_uri.split('#')[0] + id if id.startswith('#') else id
 
     def namespaces(self, contains=None):
         ns = ChainMap(self._registry, self._builder_ns, NamespaceManager.available_namespaces())
@@ -209,9 +214,8 @@ class NamespaceManager(Registry):
         return OrderedDict([(k, ns[k]) for k in sorted(nsk)])
 
     def get_cname_definitions(self, cname):
-        ns_uri = self.get_cname_id(cname)
+        ns_uri = self._absolute_id(cname)
         doc = resolve_uri(ns_uri)
-        ns_uri = ns_uri if '#' in ns_uri else ns_uri + '#'
         defs = {}
         for tag in ['$defs', 'definitions']:
             for k, v in doc.get(tag, {}).items():
-- 
2.43.0


From bdffa645949d0c735976dc69202fe8f23ea77e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 103/150] fix: names relative to the current namespace are only
 those it contains

---
 ngoschema/managers/namespace_manager.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 23eb6ab..b9b4a45 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -93,11 +93,8 @@ class NamespaceManager(Registry):
     def get_id_cname(self, ref, relative=False):
         rcn = self._current_ns
         cname = self._find_id_cname(ref, rcn)
-        if relative and rcn and cname.startswith(rcn):
-            local_cn = cname[len(rcn):].split('.')
-            if local_cn and not local_cn[0]:
-                return '.'.join(local_cn[1:])
-            return rcn
+        if relative and rcn and (cname == rcn or cname.startswith(rcn + '.')):
+            return cname[len(rcn) + 1:]
         return cname
 
     def _find_id_cname(self, ref, current_ns):
-- 
2.43.0


From 5511dc2a7084d715ef8f52425a0ef9e22d467eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:50 +0000
Subject: [PATCH 104/150] fix: names are searched in namespaces which are parts
 of a document

---
 ngoschema/managers/namespace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index b9b4a45..72ea61c 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -139,7 +139,7 @@ class NamespaceManager(Registry):
             cns = cns[1:]
         fragment_parts = []
         if fragment_cname:
-            if ns_uri in UriResolver._doc_store:
+            if ns_uri and ns_uri.split('#')[0] in UriResolver._doc_store:
                 import dpath.util
                 doc = resolve_uri(ns_uri)
                 glob = ''.join(['/*/'+c for c in cns])
-- 
2.43.0


From 3d915e553458b6a67996025ab50f90b8713a9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:07 +0000
Subject: [PATCH 105/150] fix: the names given to a namespace manager come
 before those of the types built

---
 ngoschema/managers/namespace_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 72ea61c..b556a4a 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -67,7 +67,6 @@ class NamespaceManager(Registry):
         return None, None
 
     def _find_ns_by_uri(self, uri):
-        reg = ChainMap(self._registry, self._builder_ns)
         uri_ns = uri.split('#')[0] if '#' in uri else uri
 
         def is_in(u):
@@ -75,8 +74,9 @@ class NamespaceManager(Registry):
             # a longer path is the one of another document
             return uri.startswith(u) and (not rest or rest[0] == '#' or u[-1:] == '#' or (rest[0] == '/' and '#' not in rest))
 
-        # the most precise namespace, a registered name first
-        found = [(len(u), 1, c, u) for c, u in reg.items() if is_in(u)]
+        # the most precise namespace, named by this manager first
+        found = [(len(u), 2, c, u) for c, u in self._registry.items() if is_in(u)]
+        found += [(len(u), 1, c, u) for c, u in self._builder_ns.items() if is_in(u)]
         if uri_ns in UriResolver._doc_store.keys():
             found.append((len(uri_ns), 0, NamespaceManager._uri_to_cname(uri_ns), uri_ns))
         if found:
-- 
2.43.0


From 6ee5d51120b9002a2a4990297dd0a8a3dbc70ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:29 +0000
Subject: [PATCH 106/150] fix: the default name of a definition is separated
 from the one of its document

---
 ngoschema/managers/namespace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index b556a4a..0e11872 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -174,7 +174,7 @@ class NamespaceManager(Registry):
                 elif not p[0].isdigit():
                     cn.append(p.replace('-', '_'))
         ns_name = '.'.join(cn)
-        return ns_name + NamespaceManager._fragment_to_cname(u.fragment) if u.fragment else ns_name
+        return f'{ns_name}.{NamespaceManager._fragment_to_cname(u.fragment)}' if u.fragment else ns_name
 
     @staticmethod
     def register_ns(uri, cname=None):
-- 
2.43.0


From 966247cb83dbfaa40be7697c3d4e929bf2e4f216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 107/150] fix: JSON texts are decoded

---
 ngoschema/serializers/json_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/serializers/json_serializer.py b/ngoschema/serializers/json_serializer.py
index a02be67..a8365c7 100644
--- a/ngoschema/serializers/json_serializer.py
+++ b/ngoschema/serializers/json_serializer.py
@@ -44,7 +44,7 @@ class JsonSerializer(with_metaclass(SchemaMetaclass, Serializer)):
     @staticmethod
     def _deserialize_json(self, value, **opts):
         value = Serializer._deserialize(self, value, **opts)
-        value = self._encoder.decode(value)
+        value = json.loads(value)
         return value
 
     @staticmethod
-- 
2.43.0


From 7c71cf02d597104a73bcd9834c1c07cd7d6cc2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 108/150] fix: the encoder of a file loader is not replaced by
 the one of the JSON serializer

---
 ngoschema/serializers/json_serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/serializers/json_serializer.py b/ngoschema/serializers/json_serializer.py
index a8365c7..48a4e8d 100644
--- a/ngoschema/serializers/json_serializer.py
+++ b/ngoschema/serializers/json_serializer.py
@@ -26,14 +26,14 @@ class JsonSerializer(with_metaclass(SchemaMetaclass, Serializer)):
     _ensure_ascii = False
     _separators = None
     _default = None
-    _encoder = json.JSONEncoder(indent=_indent, ensure_ascii=_ensure_ascii, separators=_separators, default=_default)
+    _jsonEncoder = json.JSONEncoder(indent=_indent, ensure_ascii=_ensure_ascii, separators=_separators, default=_default)
 
     def __init__(self, value=None, indent=2, ensure_ascii=False, separators=None, default=None, meta_opts=None, **opts):
         self._indent = indent
         self._ensure_ascii = ensure_ascii
         self._separators = separators
         self._default = default
-        self._encoder = json.JSONEncoder(indent=indent, ensure_ascii=ensure_ascii, separators=separators, default=default)
+        self._jsonEncoder = json.JSONEncoder(indent=indent, ensure_ascii=ensure_ascii, separators=separators, default=default)
         #ObjectProtocol.__init__(self, value, **opts)
         #Serializer.__init__(self, **(meta_opts or {}), **self)
 
@@ -54,7 +54,7 @@ class JsonSerializer(with_metaclass(SchemaMetaclass, Serializer)):
     @staticmethod
     def _serialize_json(self, value, **opts):
         value = Serializer._serialize(self, value, **opts)
-        return self._encoder.encode(value)
+        return self._jsonEncoder.encode(value)
 
     #@classmethod
     def deserialize_json(self, value, **opts):
-- 
2.43.0


From cd27af0be674d9bf2dac98589f6e0b7abcec3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:30 +0000
Subject: [PATCH 109/150] fix: YAML texts are written

---
 ngoschema/serializers/yaml_serializer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngoschema/serializers/yaml_serializer.py b/ngoschema/serializers/yaml_serializer.py
index cba9bd5..1bdc42d 100644
--- a/ngoschema/serializers/yaml_serializer.py
+++ b/ngoschema/serializers/yaml_serializer.py
@@ -51,13 +51,14 @@ class YamlSerializer(with_metaclass(SchemaMetaclass, Serializer, YamlDeserialize
 
     @staticmethod
     def _serialize_yaml(self, value, **opts):
-        __doc__ = self._yaml.safe_dump.__doc__
-        yaml.indent = opts.get('indent', self._indent)
-        yaml.allow_unicode = opts.get('charset', self._charset)
+        value = Serializer._serialize(self, value, **opts)
+        writer = YAML(typ='safe')
+        writer.indent = opts.get('indent', self._indent)
+        writer.allow_unicode = True
+        writer.default_flow_style = False
         output = StringIO()
-        self._yaml.safe_dump(value, output, default_flow_style=False, **opts)
-        value = output.getvalue()
-        return Serializer._serialize(self, value, **opts)
+        writer.dump(value, output)
+        return output.getvalue()
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 664054cc0ca3ff9ee91db9383d528fb73426984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 110/150] fix: XML texts are written

---
 ngoschema/serializers/xml_serializer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ngoschema/serializers/xml_serializer.py b/ngoschema/serializers/xml_serializer.py
index 66c6b16..fba061f 100644
--- a/ngoschema/serializers/xml_serializer.py
+++ b/ngoschema/serializers/xml_serializer.py
@@ -106,7 +106,6 @@ class XmlSerializer(with_metaclass(SchemaMetaclass, Serializer, XmlDeserializer)
         tag = opts.get('tag', self._tag)
         attr_prefix = opts.get('attr_prefix', self._attrPrefix)
         cdata_key = opts.get('cdata_key', self._cdataKey)
-        force_list = opts.get('force_list', self._forceList)
         pretty = opts.get('pretty', self._pretty)
         indent = opts.get('indent', self._indent)
         newl = opts.get('newl', self._newl)
@@ -114,12 +113,10 @@ class XmlSerializer(with_metaclass(SchemaMetaclass, Serializer, XmlDeserializer)
         value = xmltodict.unparse({tag: value},
                                  attr_prefix=attr_prefix,
                                  cdata_key=cdata_key,
-                                 force_list=force_list,
                                  pretty=pretty,
                                  indent=indent,
                                  newl=newl,
-                                 short_empty_elements=short_empty_elements,
-                                 **opts)
+                                 short_empty_elements=short_empty_elements)
         return value
 
     @staticmethod
-- 
2.43.0


From b9a44623e13f567f387ae1e60f4206f04102f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 111/150] fix: XML texts are read with the options they are
 written with

---
 ngoschema/serializers/xml_serializer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngoschema/serializers/xml_serializer.py b/ngoschema/serializers/xml_serializer.py
index fba061f..ba2ea32 100644
--- a/ngoschema/serializers/xml_serializer.py
+++ b/ngoschema/serializers/xml_serializer.py
@@ -37,13 +37,17 @@ class XmlDeserializer(Deserializer):
     @staticmethod
     def _deserialize_xml(self, value, **opts):
         charset = opts.get('charset', self._charset)
-        process_namespaces = opts.get('attr_prefix', self._processNamespaces)
+        process_namespaces = opts.get('process_namespaces', self._processNamespaces)
         namespace_separator = opts.get('namespace_separator', self._namespaceSeparator)
         disable_entities = opts.get('disable_entities', self._disableEntities)
-        process_comments = opts.get('attr_prefix', self._processComments)
+        process_comments = opts.get('process_comments', self._processComments)
         force_list = opts.get('force_list', self._forceList)
+        attr_prefix = opts.get('attr_prefix', self._attrPrefix)
+        cdata_key = opts.get('cdata_key', self._cdataKey)
         value = xmltodict.parse(value,
                                  encoding=charset,
+                                 attr_prefix=attr_prefix,
+                                 cdata_key=cdata_key,
                                  force_list=force_list,
                                  process_namespaces=process_namespaces,
                                  namespace_separator=namespace_separator,
-- 
2.43.0


From 243f84d44e8cee79dccd5156cb274a5b24cc4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 112/150] fix: an XML document can be read after one with
 another root

---
 ngoschema/serializers/xml_serializer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ngoschema/serializers/xml_serializer.py b/ngoschema/serializers/xml_serializer.py
index ba2ea32..ce3061c 100644
--- a/ngoschema/serializers/xml_serializer.py
+++ b/ngoschema/serializers/xml_serializer.py
@@ -54,12 +54,13 @@ class XmlDeserializer(Deserializer):
                                  disable_entities=disable_entities,
                                  process_comments=process_comments)
         value = Serializer._deserialize(self, value, **opts)
-        if not self._tag:
-            keys = list(value.keys())
-            if len(keys) != 1:
-                raise NotImplemented('ambiguous request. use tag argument.')
-            self._tag = keys[0]
-        return value[self._tag]
+        tag = opts.get('tag', self._tag)
+        if not tag:
+            # a document has one root
+            tag, = value.keys()
+            if not isinstance(self, type):
+                self._rootTag = tag
+        return value[tag]
 
     #@classmethod
     def deserialize_xml(self, value, **opts):
@@ -71,6 +72,7 @@ class XmlSerializer(with_metaclass(SchemaMetaclass, Serializer, XmlDeserializer)
     _id = 'https://numengo.org/ngoschema#/$defs/serializers/$defs/XmlSerializer'
     _deserializer = XmlDeserializer
     _tag = None
+    _rootTag = None
     _postprocessor = None
     _attrPrefix = '@'
     _cdataKey = '#text'
@@ -107,7 +109,7 @@ class XmlSerializer(with_metaclass(SchemaMetaclass, Serializer, XmlDeserializer)
     @staticmethod
     def _serialize_xml(self, value, **opts):
         value = Serializer._serialize(self, value, **opts)
-        tag = opts.get('tag', self._tag)
+        tag = opts.get('tag', self._tag or self._rootTag)
         attr_prefix = opts.get('attr_prefix', self._attrPrefix)
         cdata_key = opts.get('cdata_key', self._cdataKey)
         pretty = opts.get('pretty', self._pretty)
-- 
2.43.0


From b27d15979f5b885438869bcab6e58247457fc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 113/150] fix: a XML serializer is built without a tag

---
 ngoschema/serializers/xml_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/serializers/xml_serializer.py b/ngoschema/serializers/xml_serializer.py
index ce3061c..2d5a6cd 100644
--- a/ngoschema/serializers/xml_serializer.py
+++ b/ngoschema/serializers/xml_serializer.py
@@ -91,8 +91,9 @@ class XmlSerializer(with_metaclass(SchemaMetaclass, Serializer, XmlDeserializer)
         self._indent = opts.get('indent', XmlSerializer._indent)
         self._newl = opts.get('newl', XmlSerializer._newl)
         self._shortEmptyElements = opts.get('short_empty_elements', XmlSerializer._shortEmptyElements)
-        if not tag and self._instanceClass:
-            self._tag = self._instanceClass.__name__
+        instance_class = getattr(self, '_instanceClass', None)
+        if not tag and instance_class:
+            self._tag = instance_class.__name__
 
         # this default post processor makes all non attribute be list
         _prefix = str(attr_prefix)
-- 
2.43.0


From cbe14ec9d00218e42634d0668f827b5d6f06468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:04 +0000
Subject: [PATCH 114/150] fix: long texts of XML documents are read entirely

---
 ngoschema/utils/xmltodict.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 09c5764..a3a1750 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -47,6 +47,7 @@ class _DictSAXHandler(object):
         self.path = []
         self.stack = []
         self.data = []
+        self.in_text = False
         self.item = None
         self.item_depth = item_depth
         self.xml_attribs = xml_attribs
@@ -90,6 +91,7 @@ class _DictSAXHandler(object):
         self.namespace_declarations[prefix or ''] = uri
 
     def startElement(self, full_name, attrs):
+        self.in_text = False
         name = self._build_name(full_name)
         attrs = self._attrs_to_dict(attrs)
         if attrs and self.namespace_declarations:
@@ -115,6 +117,7 @@ class _DictSAXHandler(object):
             self.data = []
 
     def endElement(self, full_name):
+        self.in_text = False
         name = self._build_name(full_name)
         if len(self.path) == self.item_depth:
             item = self.item
@@ -154,10 +157,12 @@ class _DictSAXHandler(object):
         self.path.pop()
 
     def characters(self, data):
-        if not self.data:
-            self.data = [data]
+        if self.data and self.in_text:
+            # a long text comes in several parts
+            self.data[-1] += data
         else:
-            self.data.append(data)
+            self.data = (self.data or []) + [data]
+        self.in_text = True
 
     def comments(self, data):
         if self.strip_whitespace:
-- 
2.43.0


From 7dfd334e69ed3eb272bc8078a2e95535e9018782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:52 +0000
Subject: [PATCH 115/150] fix: the texts after the children of an XML element
 are read entirely

---
 ngoschema/utils/xmltodict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index a3a1750..caffc2d 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -99,7 +99,8 @@ class _DictSAXHandler(object):
             self.namespace_declarations = OrderedDict()
         self.path.append((name, attrs or None))
         if len(self.path) > self.item_depth:
-            self.stack.append((self.item, self.data))
+            # the first text is the one before the children
+            self.stack.append((self.item, self.data or ['']))
             if self.xml_attribs:
                 attr_entries = []
                 for key, value in attrs.items():
@@ -139,8 +140,7 @@ class _DictSAXHandler(object):
                 data = [d.strip() for d in data]
             if data:
                 text = data[0]
-                if len(data) > 1:
-                    tail = data[1]
+                tail = self.cdata_separator.join(d for d in data[1:] if d)
                 if (text or tail) and self.force_cdata and item is None:
                     item = self.dict_constructor()
             if item is not None:
-- 
2.43.0


From 2c5a8bc9c6e2438e0f4e1040f1c91c59119c0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:52 +0000
Subject: [PATCH 116/150] fix: numbers are written as texts of XML elements

---
 ngoschema/utils/xmltodict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index caffc2d..85ddee8 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -441,7 +441,7 @@ def _emit(key, value, content_handler,
         if pretty and children:
             content_handler.ignorableWhitespace(newl)
         if text is not None:
-            content_handler.characters(text)
+            content_handler.characters(str(text))
         for child_key, child_value in children:
             _emit(child_key, child_value, content_handler,
                   attr_prefix, cdata_key, cdata_tail_key, depth+1, preprocessor,
@@ -451,7 +451,7 @@ def _emit(key, value, content_handler,
         if pretty and children:
             content_handler.ignorableWhitespace(depth * indent)
         if tail is not None:
-            content_handler.characters(tail)
+            content_handler.characters(str(tail))
         content_handler.endElement(key)
         if pretty and depth:
             content_handler.ignorableWhitespace(newl)
-- 
2.43.0


From c62aba2709a7092dcca7112a41557021c2cf0cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:53 +0000
Subject: [PATCH 117/150] fix: long texts are written in YAML as they are

---
 ngoschema/serializers/yaml_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/serializers/yaml_serializer.py b/ngoschema/serializers/yaml_serializer.py
index 1bdc42d..b646980 100644
--- a/ngoschema/serializers/yaml_serializer.py
+++ b/ngoschema/serializers/yaml_serializer.py
@@ -2,6 +2,8 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import sys
+
 from ruamel import yaml
 from ruamel.yaml import YAML
 try:
@@ -56,6 +58,8 @@ class YamlSerializer(with_metaclass(SchemaMetaclass, Serializer, YamlDeserialize
         writer.indent = opts.get('indent', self._indent)
         writer.allow_unicode = True
         writer.default_flow_style = False
+        # folding spoils texts having backslashes
+        writer.width = sys.maxsize
         output = StringIO()
         writer.dump(value, output)
         return output.getvalue()
-- 
2.43.0


From abaceeb4ae510a637f9d74bb8fe6dc8e50ecb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:10 +0000
Subject: [PATCH 118/150] fix: files are written whatever they contain, and
 only with texts which can be encoded

---
 ngoschema/protocols/file_loader.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 43ab0da..fa8d068 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -102,31 +102,34 @@ class FileSaver(Saver, FileLoader):
     #    self._filepath = filepath = Path.convert(filepath) if filepath else None
     #    return filepath
 
+    @staticmethod
+    def _encode(self, value, **opts):
+        binary = opts.get('binary', self._binary)
+        return value if binary else value.encode(opts.get('charset', self._charset))
+
     @staticmethod
     @assert_arg(2, Path)
     def _write_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
-        mode = 'wb' if binary else 'w'
+        # encoded first: a text which cannot be does not spoil the file
+        content = FileSaver._encode(self, value, **opts)
         if not filepath.parent.exists():
             self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
             os.makedirs(str(filepath.parent))
         if filepath.exists():
-            content = self.read_file(filepath)
-            if value == content:
+            if content == self._read_file(self, filepath, **dict(opts, binary=True)):
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
-        with self._open_file(self, filepath, mode=mode, **opts) as f:
-            return f.write(value)
+        with self._open_file(self, filepath, mode='wb', **dict(opts, binary=True)) as f:
+            return f.write(content)
 
     @staticmethod
     @assert_arg(2, PathFileExists)
     def _append_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
-        mode = 'ab' if binary else 'a'
-        with self._open_file(self, filepath, mode=mode, **opts) as f:
-            return f.write(value)
+        content = FileSaver._encode(self, value, **opts)
+        with self._open_file(self, filepath, mode='ab', **dict(opts, binary=True)) as f:
+            return f.write(content)
 
     @staticmethod
     @assert_arg(2, Path)
-- 
2.43.0


From 1df79ea4e9d9d7ef9c77afdd11af3797ec6ea1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:10 +0000
Subject: [PATCH 119/150] fix: a file is read to its end, or refused

---
 ngoschema/protocols/file_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index fa8d068..79d7968 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -49,9 +49,9 @@ class FileLoader(Loader):
     @staticmethod
     def _read_file(self, filepath, **opts):
         binary = opts.get('binary', self._binary)
-        mode = 'rb' if binary else 'r'
-        with FileLoader._open_file(self, filepath, mode=mode, **opts) as f:
-            return f.read()
+        with FileLoader._open_file(self, filepath, mode='rb', **dict(opts, binary=True)) as f:
+            content = f.read()
+        return content if binary else content.decode(opts.get('charset', self._charset))
 
     @staticmethod
     def _deserialize(self, filepath, **opts):
-- 
2.43.0


From babebd808dd623683e84e133f743d799579d7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:10 +0000
Subject: [PATCH 120/150] fix: a file loader loads the file it was given

---
 ngoschema/protocols/file_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 79d7968..387600a 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -84,7 +84,7 @@ class FileLoader(Loader):
         return self._load_file(self, filepath, **opts)
 
     def load(self, filepath=None, **opts):
-        filepath = filepath or self.filepath
+        filepath = filepath or self._filepath
         return FileLoader._load(self, filepath, **opts)
 
 
@@ -164,5 +164,5 @@ class FileSaver(Saver, FileLoader):
         return FileSaver._save_file(self, value, self.filepath, **opts)
 
     def save(self, value, filepath=None, **opts):
-        filepath = filepath or self.filepath
+        filepath = filepath or self._filepath
         return FileSaver._save_file(self, value, filepath, **opts)
-- 
2.43.0


From ade8694555e70d5745863684de0ffc18255e32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:10 +0000
Subject: [PATCH 121/150] fix: a file saver writes with its encoder

---
 ngoschema/protocols/file_loader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 387600a..3c28d61 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -136,6 +136,7 @@ class FileSaver(Saver, FileLoader):
     def _save_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
         value = Saver._save(self, value, **opts)
+        value = self._encoder.serialize(value, deserialize=False)
         append = opts.pop('append', self._append)
         if append:
             FileSaver._append_file(self, value, filepath, **opts)
-- 
2.43.0


From e2554ee0c2422830ff66a37b6ecf753f86751209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:10 +0000
Subject: [PATCH 122/150] fix: the information of a file is found from its path

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 077d2ea..4ccb6eb 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -73,7 +73,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
     _lazyLoading = True
 
     def __init__(self, file=None, filepath=None, **opts):
-        file = file or File(filepath)
+        file = file or File(filepath=filepath)
         ObjectProtocol.__init__(self, file=file, **opts)
 
     def get_dateCreated(self):
-- 
2.43.0


From 04f4335e958b28b135499b3833e28f4290902638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:11 +0000
Subject: [PATCH 123/150] fix: documents are decoded, loaded and unloaded

---
 ngoschema/models/files.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 4ccb6eb..0a31542 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -158,7 +158,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
     @depend_on_prop('uri', 'filepath')
     def get_contentRaw(self):
         if self.filepath:
-            return FileSaver._load_file(self, self.filepath)
+            return FileSaver._read_file(self, self.filepath)
         if self.uri:
             return UriResolver._resolve(self, self.uri)
 
@@ -180,7 +180,7 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
     def get_content(self):
         if not self.binary:
             try:
-                return self._encoder._deserialize(self, self.contentRaw)
+                return self._encoder.deserialize(self.contentRaw, evaluate=False)
             except Exception as er:
                 self._logger.error(er, exc_info=True)
 
@@ -201,12 +201,12 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
 
     @property
     def loaded(self):
-        return bool(self._content)
+        return self.doc_id in UriResolver._doc_store
 
     def unload(self):
         # remove reference from main registry
-        if self.id:
-            UriResolver.unregister_doc(self.id)
+        if self.loaded:
+            UriResolver.unregister_doc(self.doc_id)
         self.contentRaw = self.content = None
 
     def write(self, content, append=False, **opts):
-- 
2.43.0


From b73c3d17c348a1b030247876ae41b02c604c3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:18 +0000
Subject: [PATCH 124/150] fix: the information of a file is found whatever it
 contains

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 0a31542..37afb55 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -73,7 +73,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
     _lazyLoading = True
 
     def __init__(self, file=None, filepath=None, **opts):
-        file = file or File(filepath=filepath)
+        file = file or File(filepath=filepath, binary=True)
         ObjectProtocol.__init__(self, file=file, **opts)
 
     def get_dateCreated(self):
-- 
2.43.0


From b7991f29e7bc8637044f305bf9d1a765bb6f6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:21 +0000
Subject: [PATCH 125/150] fix: the variables of a template are those it reads,
 even when given in it too

---
 ngoschema/utils/jinja2.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index ab156e6..bea7706 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -16,6 +16,7 @@ from builtins import str
 
 import inflection
 import jinja2
+import jinja2.meta
 import jinja2.nodes
 from slugify import slugify as _slugify
 
@@ -67,14 +68,23 @@ class TemplatedString(object):
 
 
 @functools.lru_cache(512)
-def get_jinja2_variables(source, remove_this=True):
+def get_jinja2_variables(source, remove_this=True, remove_globals=True):
     """return the list of variables in jinja2 source (no filters)"""
     env = default_jinja2_env()
     try:
-        ast = env.parse(source)
+        # without globals, names of globals are variables like others
+        bare = env.overlay()
+        bare.globals = {}
+        ast = bare.parse(source)
     except jinja2.TemplateSyntaxError:
         return []
-    local = set(n.name for n in ast.find_all(jinja2.nodes.Name) if n.ctx != 'load').union(env.globals)
+    local = set(n.name for n in ast.find_all(jinja2.nodes.Name) if n.ctx != 'load')
+    try:
+        free = jinja2.meta.find_undeclared_variables(ast)
+    except jinja2.TemplateError:
+        free = set(n.name for n in ast.find_all(jinja2.nodes.Name)).difference(local)
+    if remove_globals:
+        free = free.difference(env.globals)
     vars = []
 
     def add(node):
@@ -85,19 +95,22 @@ def get_jinja2_variables(source, remove_this=True):
                 parts.insert(0, f'.{node.attr}')
             elif isinstance(node.arg, jinja2.nodes.Const) and isinstance(node.arg.value, int):
                 parts.insert(0, f'[{node.arg.value}]')
+            elif isinstance(node.arg, jinja2.nodes.Const) and getattr(node.node, 'name', None) == 'this':
+                parts.insert(0, f'.{node.arg.value}')
             else:
                 parts = []
                 visit(node.arg)
             node = node.node
         if not isinstance(node, jinja2.nodes.Name):
             return visit(node)
-        if node.name in ('this', 'self') and remove_this:
-            parts, name = parts[1:], parts[0][1:] if parts else ''
+        if node.name in ('this', 'self') and remove_this and parts:
+            parts, name = parts[1:], parts[0][1:]
         else:
             name = node.name
-        if not any(p.startswith('.') for p in parts):
+        if not any(p.startswith('.') for p in parts) or node.name in local:
+            # what is below a name also given in the template can be something else
             parts = []
-        if name and node.name not in local:
+        if name and node.name in free.union(('this', 'self')):
             vars.append(name + ''.join(parts))
 
     def visit(node):
-- 
2.43.0


From 5b8d037de83089d20b67d7a40868095956f579e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:21 +0000
Subject: [PATCH 126/150] fix: the variables of an expression are the names it
 reads

---
 ngoschema/types/strings.py | 77 ++++++++++++++++++++++++++++++++++----
 1 file changed, 70 insertions(+), 7 deletions(-)

diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 714b1c0..52f6451 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -2,7 +2,9 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+import ast
 import builtins
+import functools
 import numbers
 import decimal
 import logging
@@ -41,9 +43,66 @@ class String(Primitive):
         self._format = self._schema.get('format', self._format)
 
 
-class Expr(String):
-    _expr_regex = re.compile(r"[a-zA-Z_]+[\w\.]*")
+@functools.lru_cache(512)
+def get_expr_variables(source):
+    """return the list of names of variables read in a python expression, with the paths which are read"""
+    try:
+        tree = ast.parse(source.strip(), mode='eval')
+    except (SyntaxError, ValueError):
+        return []
+    vars = []
+
+    def add(node, bound):
+        # path to a variable, made of attributes and constant indices
+        parts = []
+        while isinstance(node, (ast.Attribute, ast.Subscript)):
+            key = getattr(node, 'slice', None)
+            if isinstance(node, ast.Attribute):
+                parts.insert(0, f'.{node.attr}')
+            elif isinstance(key, ast.Constant) and isinstance(key.value, int):
+                parts.insert(0, f'[{key.value}]')
+            elif isinstance(key, ast.Constant) and getattr(node.value, 'id', None) == 'this':
+                parts.insert(0, f'.{key.value}')
+            else:
+                parts = []
+                visit(key, bound)
+            node = node.value
+        if not isinstance(node, ast.Name):
+            return visit(node, bound)
+        if node.id in bound:
+            return
+        path = node.id + (''.join(parts) if any(p.startswith('.') for p in parts) else '')
+        vars.append((node.id, path[5:] if path.startswith('this.') else path))
+
+    def visit(node, bound):
+        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
+            for g in node.generators:
+                visit(g.iter, bound)
+                bound = bound.union(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))
+                for i in g.ifs:
+                    visit(i, bound)
+            for k in ('elt', 'key', 'value'):
+                if hasattr(node, k):
+                    visit(getattr(node, k), bound)
+        elif isinstance(node, ast.Lambda):
+            for d in node.args.defaults + [d for d in node.args.kw_defaults if d]:
+                visit(d, bound)
+            visit(node.body, bound.union(a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)))
+        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
+            # method call: only the object it is called on is a variable
+            for child in [node.func.value] + node.args + node.keywords:
+                visit(child, bound)
+        elif isinstance(node, (ast.Attribute, ast.Subscript, ast.Name)):
+            add(node, bound)
+        else:
+            for child in ast.iter_child_nodes(node):
+                visit(child, bound)
+
+    visit(tree, frozenset())
+    return vars
+
 
+class Expr(String):
     @staticmethod
     def _check(self, value, **opts):
         if String.check(value) and value.startswith("`"):
@@ -59,9 +118,9 @@ class Expr(String):
         return TypeProtocol._convert(self, typed, **opts)
 
     @staticmethod
-    def _inputs(self, value, **opts):
-        inputs = [i[5:] if i.startswith('this.') else i for i in Expr._expr_regex.findall(str(value))]
-        return set(inputs).difference(builtins.__dict__)
+    def _inputs(self, value, names=(), **opts):
+        return set(path for name, path in get_expr_variables(str(value)[1:])
+                   if name == 'this' or name in names or name not in builtins.__dict__)
 
 
 class Pattern(String):
@@ -80,7 +139,11 @@ class Pattern(String):
             return TemplatedString(value)(ctx)
 
     @staticmethod
-    def _inputs(self, value, **opts):
+    def _inputs(self, value, names=(), **opts):
         from ngoschema.utils.jinja2 import get_jinja2_variables
-        return set(get_jinja2_variables(value))
+        inputs = set(get_jinja2_variables(value))
+        if names:
+            # a name given by the context hides the global of this name
+            inputs.update(v for v in get_jinja2_variables(value, remove_globals=False) if re.split(r'[.\[]', v)[0] in names)
+        return inputs
 
-- 
2.43.0


From fae5ca27855c22782adb796824bde0c3657f58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:21 +0000
Subject: [PATCH 127/150] fix: a derived value follows the content of the
 collections it reads

---
 ngoschema/protocols/collection_protocol.py | 20 +++++++++++++++++---
 ngoschema/protocols/object_protocol.py     |  3 +++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index c6882fa..6b01049 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 
 import logging
 from abc import abstractmethod
+from collections.abc import Mapping
 from operator import neg
 
 from ..exceptions import InvalidValue, InvalidOperation
@@ -21,6 +22,16 @@ from .type_protocol import TypeProtocol
 LAZY_LOADING = settings.DEFAULT_COLLECTION_LAZY_LOADING
 
 
+def _content(value, holders=()):
+    """image of the content of a value, which is different once anything held by the value has changed"""
+    if not isinstance(value, CollectionProtocol) or any(h is value for h in holders):
+        return value
+    holders += (value, )
+    if isinstance(value._data, Mapping):
+        return {k: _content(v, holders) for k, v in value._data.items()}
+    return [_content(v, holders) for v in value._data]
+
+
 class CollectionProtocol(Collection):
     _lazyLoading = LAZY_LOADING
     _collection = None
@@ -102,18 +113,21 @@ class CollectionProtocol(Collection):
         # treat dependencies
         for k in self._dependencies.get(item, []):
             try:
-                ret[k] = self[k]
+                ret[k] = _content(self[k])
             except Exception as er:
                 self._logger.error(er, exc_info=True)
         # treat data
         if t.is_primitive() and not t._rawLiterals:
-            for k in t._inputs(t, self._data[item]):
+            for k in t._inputs(t, self._data[item], names=self._items_names()):
                 try:
-                    ret[k] = self[k]
+                    ret[k] = _content(self if k == 'this' else self[k])
                 except Exception as er:
                     self._logger.error(er, exc_info=True)
         return ret
 
+    def _items_names(self):
+        return ()
+
     def _items_evaluate(self, item, **opts):
         from ..types.constants import _True
         v = self._data[item]
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index fa63d48..ecdff16 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -242,6 +242,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def _create_context(self, *extra_contexts, **local):
         return CollectionProtocol._create_context(self, {'this': self}, self._dataValidated, self, *extra_contexts, **local)
 
+    def _items_names(self):
+        return self._data
+
     def _items_touch(self, item):
         CollectionProtocol._items_touch(self, item)
         for d, s in self._dependencies.items():
-- 
2.43.0


From 553392672af3923c899d358e13b40c4df27c5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:40 +0000
Subject: [PATCH 128/150] fix: properties are deleted as attributes by all
 their names

---
 ngoschema/protocols/object_protocol.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index ecdff16..65b5b91 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -405,6 +405,16 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             raise AttributeError("'{0}' is not a valid property of {1}".format(
                                  name, self.__class__.__name__))
 
+    def __delattr__(self, name):
+        # private and protected attributes, and the names of declared properties, are attributes
+        if name.startswith('_') or hasattr(type(self), name):
+            return MutableMapping.__delattr__(self, name)
+        try:
+            del self[name]
+        except KeyError as er:
+            raise AttributeError("'{0}' is not a valid property of {1}".format(
+                                 name, self.__class__.__name__))
+
     def __getitem__(self, key):
         if not key:
             return self._parent
-- 
2.43.0


From be405b6a6751c1267828ba6f55197b9f3af5da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:40 +0000
Subject: [PATCH 129/150] fix: the deleter of a property is not called for a
 property which is not there

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 65b5b91..b0cbc60 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -117,7 +117,7 @@ class PropertyDescriptor:
         key = self.pname
         if key in obj._required:
             raise AttributeError('%s is a required argument.' % key)
-        if self.fdel:
+        if self.fdel and key in obj._data:
             self.fdel(obj)
         del obj._data[key]
         del obj._dataValidated[key]
-- 
2.43.0


From 12194b6b398ba66e6f28ba04c0a4b0bbeb553e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:38 +0000
Subject: [PATCH 130/150] fix: the items of the items of a value are validated
 too

---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index d42b26c..4842065 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -104,7 +104,7 @@ class Collection(Type, CollectionSerializer):
             value = self._collType(value)  # make a copy to avoid modifying original object
             for k, t in self._items_types(self, value):
                 if self._is_included(k, value, no_defaults=no_defaults, **opts):
-                    value[k] = t._validate(t, value[k], **opts)
+                    value[k] = t._validate(t, value[k], items=items, **opts)
         return value
 
     @staticmethod
-- 
2.43.0


From 33fc1a6d83609040188120fac4187073852ce295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:38 +0000
Subject: [PATCH 131/150] fix: values which do not conform to allOf are invalid

---
 ngoschema/protocols/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/validator.py b/ngoschema/protocols/validator.py
index d44d44a..a46b11a 100644
--- a/ngoschema/protocols/validator.py
+++ b/ngoschema/protocols/validator.py
@@ -54,7 +54,7 @@ class Validator(Converter, Context):
         if not with_type:
             excludes = list(excludes) + ['type']
         schema = {k: v for k, v in opts.get('schema', self._schema).items() if k not in excludes}
-        return {'/'.join(e.schema_path): e.message
+        return {'/'.join(map(str, e.schema_path)): e.message
                 for e in self._jsValidator.iter_errors(value, schema)}
 
     def _format_errors(self, value, **opts):
-- 
2.43.0


From 278aca3ba9ae962b60614b0c6ebc1646103cf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:20 +0000
Subject: [PATCH 132/150] fix: what is not validated in a collection does not
 apply to its items

---
 ngoschema/protocols/collection_protocol.py |  1 -
 ngoschema/types/array.py                   |  4 ++--
 ngoschema/types/collection.py              | 10 ++++++----
 ngoschema/types/object.py                  |  4 ++--
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 6b01049..046deea 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -76,7 +76,6 @@ class CollectionProtocol(Collection):
 
     @staticmethod
     def _validate(self, value, items=False, excludes=[], **opts):
-        excludes = list(self._notValidated.union(excludes))
         opts.setdefault('context', self._context)
         return self._collection._validate(self, value, items=items, excludes=excludes, **opts)
 
diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 500b1a9..1bb4a7f 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -183,10 +183,10 @@ class Array(Collection, ArraySerializer):
 
     @staticmethod
     def _validate(self, value, items=True, excludes=[], **opts):
-        excludes = list(excludes) + ['minItems', 'maxItems', 'uniqueItems', 'items']
+        keywords = ['minItems', 'maxItems', 'uniqueItems', 'items']
         # TODO add validate size, uniqueness as separate validation methods
         #value = self._deserializer._validate(self, value, excludes=excludes, **opts)
-        value = Collection._validate(self, value, items=items, excludes=excludes, **opts)
+        value = Collection._validate(self, value, items=items, excludes=excludes, keywords=keywords, **opts)
         return value
 
     @staticmethod
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 4842065..e756f47 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -98,13 +98,15 @@ class Collection(Type, CollectionSerializer):
         return value
 
     @staticmethod
-    def _validate(self, value, items=True, no_defaults=True, **opts):
-        value = self._deserializer._validate(self, value, **opts)
+    def _validate(self, value, items=True, no_defaults=True, excludes=[], keywords=[], **opts):
+        # keywords validated separately and items not validated only are excluded for this collection
+        not_validated = list(self._notValidated.union(excludes))
+        value = self._deserializer._validate(self, value, excludes=not_validated + list(keywords), **opts)
         if items:
             value = self._collType(value)  # make a copy to avoid modifying original object
             for k, t in self._items_types(self, value):
-                if self._is_included(k, value, no_defaults=no_defaults, **opts):
-                    value[k] = t._validate(t, value[k], items=items, **opts)
+                if self._is_included(k, value, no_defaults=no_defaults, excludes=not_validated, **opts):
+                    value[k] = t._validate(t, value[k], items=items, excludes=excludes, **opts)
         return value
 
     @staticmethod
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index a163414..0c34bd2 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -218,7 +218,7 @@ class Object(Collection, ObjectSerializer):
 
     @staticmethod
     def _validate(self, value, items=True, excludes=[], **opts):
-        excludes = list(excludes) + ['required', 'properties', 'propertiesAdditional', 'additionalProperties']
+        keywords = ['required', 'properties', 'propertiesAdditional', 'additionalProperties']
         #value = self._deserializer._validate(self, value, excludes=excludes, **opts)
         for k in set(value).difference(self._properties):
            for reg, _ in self._propertiesPattern:
@@ -228,7 +228,7 @@ class Object(Collection, ObjectSerializer):
                if not self._propertiesAdditional:
                    raise InvalidValue('No additional properties allowed for %s' % value)
         opts['with_type'] = False
-        value = Collection._validate(self, value, items=items, excludes=excludes, **opts)
+        value = Collection._validate(self, value, items=items, excludes=excludes, keywords=keywords, **opts)
         return value
 
     @staticmethod
-- 
2.43.0


From 60a24f220c1dfb8b882a4ee677199aab1c1685ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:39 +0000
Subject: [PATCH 133/150] fix: the types of a whole document with references
 are loaded by its identifier

---
 ngoschema/managers/type_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 31fd487..b883d1e 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -123,9 +123,12 @@ class TypeBuilder(GenericClassRegistry):
     @_locked
     def load(self, id):
         from ..protocols import TypeProxy
-        if id not in self._registry and id.endswith('#') and id[:-1] in self._registry:
+        if id not in self._registry and id.endswith('#') and (id[:-1] in self._registry or id[:-1] in self._on_construction):
             # same schema, with an empty fragment
             id = id[:-1]
+        elif id not in self._registry and id not in self._on_construction and '#' not in id:
+            # the schemas it contains are identified by a fragment
+            id = id + '#'
         if id not in self._registry:
             if self._is_waiting(id):
                 return TypeProxy.build(id)
-- 
2.43.0


From bfb360ecc130cc6a9aef2b3e074bc669c6c522a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:19 +0000
Subject: [PATCH 134/150] fix: arrays of items of a type they are part of are
 evaluated and validated

---
 ngoschema/types/array.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 1bb4a7f..28d683c 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -126,8 +126,11 @@ class Array(Collection, ArraySerializer):
 
     @staticmethod
     def _items_types(self, value, **opts):
-        value = self._items[:len(value)] if self._itemsIsList else [self._items] * len(value)
-        return [(i, v) for i, v in enumerate(value)]
+        if self._itemsIsList:
+            return [(i, self._items_type(self, i)) for i in range(min(len(value), len(self._items)))]
+        # references to types still on construction are replaced by the types
+        t = self._items_type(self, 0) if len(value) else None
+        return [(i, t) for i in range(len(value))]
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From e2b10a694959ef3413c080d15589b741bce466e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:38 +0000
Subject: [PATCH 135/150] fix: empty texts and zero are converted to paths as
 any other value

---
 ngoschema/types/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index ffda75f..ff5bccb 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -145,7 +145,7 @@ class Path(Uri):
         typed = value
         if isinstance(typed, urllib.parse.ParseResult):
             typed = pathlib.Path(urllib.parse.unquote(typed.geturl()))
-        elif typed:
+        elif typed is not None:
             # cast to str to make sure the path is converted
             typed = pathlib.Path(String.convert(str(typed), **opts))
         expand_user = opts.get('expand_user', self._expandUser)
-- 
2.43.0


From 4021cb7103759ec7d5599259764656b91771678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 136/150] fix: templates are found in all the folders
 registered for a module

---
 ngoschema/utils/jinja2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index bea7706..d9f0cd8 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -241,8 +241,8 @@ class ModulePrefixedJinja2Environment(jinja2.Environment):
 
     def update_loader(self):
         from ..loaders import templates_module_loader
+        # names are looked for in all the folders of the module, in the order of their registration
         self.loader.mapping = {
-            mname: jinja2.PackageLoader(mname, path.name)
+            mname: jinja2.ChoiceLoader([jinja2.FileSystemLoader(str(path)) for path in paths])
             for mname, paths in templates_module_loader.items()
-            for path in paths
         }
-- 
2.43.0


From de88800121fd9a7e5d30b665da58a2b1683c5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 137/150] fix: globals added once the default environment is
 there are known in templates

---
 ngoschema/utils/jinja2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index d9f0cd8..249812e 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -34,6 +34,9 @@ _jinja2_globals['list'] = list
 
 def extend_jinja2_globals(**globals):
     _jinja2_globals.update(**globals)
+    if _default_jinja_env is not None:
+        # the templates already made get them too
+        _default_jinja_env.globals.update(**globals)
 
 
 def default_jinja2_env():
-- 
2.43.0


From 06ed6601d9e0dc8886b411111cede6d813e07b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 138/150] fix: texts to translate in templates are given as
 they are without translations

---
 ngoschema/utils/jinja2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index 249812e..8491aa9 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -50,6 +50,7 @@ def default_jinja2_env():
         _default_jinja_env = ModulePrefixedJinja2Environment(extensions=extensions)
         _default_jinja_env.globals.update(**_jinja2_globals,
                                           Query=Query)
+        _default_jinja_env.install_null_translations()
     return _default_jinja_env
 
 
-- 
2.43.0


From 4c99e56b798d6ad263d64a7fbb749ff4463ee8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:13 +0000
Subject: [PATCH 139/150] fix: dates and times are serialized with the formats
 of tokens too

---
 ngoschema/types/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index bb6a4c0..6a00a8e 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -20,7 +20,10 @@ def _dt_serialize(cls, value, **opts):
         if '%' in format:
             return value.strftime(format)
         else:
-            return value.format(format)
+            if isinstance(value, datetime.time):
+                value = datetime.datetime.combine(datetime.date.min, value)
+            # only Arrow instances know these formats
+            return arrow.get(value).format(format)
     return value.isoformat() if value else None
 
 
-- 
2.43.0


From aa023ba901339d827548fe6d21fa6f6b1806ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:45 +0000
Subject: [PATCH 140/150] fix: namespaces declared by XML elements without
 attributes are kept with them

---
 ngoschema/utils/xmltodict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 85ddee8..d55af63 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -94,7 +94,8 @@ class _DictSAXHandler(object):
         self.in_text = False
         name = self._build_name(full_name)
         attrs = self._attrs_to_dict(attrs)
-        if attrs and self.namespace_declarations:
+        if self.namespace_declarations:
+            # they are part of the element which declares them, with or without attributes
             attrs['xmlns'] = self.namespace_declarations
             self.namespace_declarations = OrderedDict()
         self.path.append((name, attrs or None))
-- 
2.43.0


From 9ddff4d46fc443dd506a2957d92d7cb6c7db348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:25 +0000
Subject: [PATCH 141/150] fix: XML prefixes are written with ':' whatever
 separates namespaces in the keys

---
 ngoschema/utils/xmltodict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index d55af63..e2ccf43 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -366,9 +366,10 @@ def _process_namespace(name, namespaces, ns_sep=':', attr_prefix='@'):
         pass
     else:
         ns_res = namespaces.get(ns.strip(attr_prefix))
-        name = '{}{}{}{}'.format(
+        # whatever separates them in the keys, XML separates prefixes with ':'
+        name = '{}{}:{}'.format(
             attr_prefix if ns.startswith(attr_prefix) else '',
-            ns_res, ns_sep, name) if ns_res else name
+            ns_res, name) if ns_res else name
     return name
 
 
-- 
2.43.0


From 0829ebddf433f73c93fc789989dcf405bd55c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:26 +0000
Subject: [PATCH 142/150] fix: objects which are loaders or serializers too
 keep the dependencies of their properties

---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index e756f47..ca84a53 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -24,7 +24,7 @@ class CollectionDeserializer(Deserializer):
     def __init__(self, collType=None, dependencies=None, **opts):
         Deserializer.__init__(self, **opts)
         self._collType = collType or self._collType
-        self._dependencies = defaultdict(list, dependencies or {})
+        self._dependencies = defaultdict(list, dependencies or self._dependencies)
 
     @staticmethod
     def _call_order(self, value, **opts):
-- 
2.43.0


From 0d3001f114a8dd53b04cc461194fc9160fa57858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:26 +0000
Subject: [PATCH 143/150] fix: contents and informations of files follow the
 file and the mode they are of

---
 ngoschema/models/files.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 37afb55..ff2f724 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -56,7 +56,7 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
     def set_binary(self, binary):
         self._binary = binary
 
-    @depend_on_prop('filepath')
+    @depend_on_prop('filepath', 'binary')
     def get_contentRaw(self):
         fp = self.filepath
         if fp and fp.exists():
@@ -76,15 +76,19 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
         file = file or File(filepath=filepath, binary=True)
         ObjectProtocol.__init__(self, file=file, **opts)
 
+    @depend_on_prop('file.filepath')
     def get_dateCreated(self):
         return arrow.get(self.file.filepath.stat().st_ctime)
 
+    @depend_on_prop('file.filepath')
     def get_dateModified(self):
         return arrow.get(self.file.filepath.stat().st_mtime)
 
+    @depend_on_prop('file.filepath')
     def get_contentSize(self):
         return self.file.filepath.stat().st_size
 
+    @depend_on_prop('file.filepath')
     def get_mimetype(self):
         import magic
         return magic.Magic(mime=True).from_file(str(self.file.filepath))
@@ -98,6 +102,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
             num /= 1024.0
         return num
 
+    @depend_on_prop('file.filepath')
     def get_sha1(self):
         import hashlib
         sha = hashlib.sha1()
-- 
2.43.0


From c88308ed48932146d08fc4e94bea49172269f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:53 +0000
Subject: [PATCH 144/150] fix: inline objects given nothing or keywords do not
 hold the context of their evaluation

---
 ngoschema/types/object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0c34bd2..fda764b 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -149,7 +149,9 @@ class Object(Collection, ObjectSerializer):
         self._items_type_cache = {}
 
     def __call__(self, value=None, **opts):
-        value = value or opts  # to allow initialization by keywords
+        if value is None:
+            # to allow initialization by keywords
+            value = {k: v for k, v in opts.items() if k != 'context'}
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From de6c54bea33d17c0ee48a22408f6bf59c51e0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:01 +0000
Subject: [PATCH 145/150] fix: documents give what they have written

---
 ngoschema/models/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index ff2f724..44ddd86 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -220,6 +220,8 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
                 self._append_file(self, content, self.filepath, **opts)
             else:
                 self._write_file(self, content, self.filepath, **opts)
+            # the content is now the one written
+            self.contentRaw = None
         elif self.uri:
             raise Exception('impossible to write on a URL referenced document')
 
-- 
2.43.0


From a46c4590238b493aade37384244edad8fa885ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:39 +0000
Subject: [PATCH 146/150] fix: falsy values of expressions are printed rather
 than the expressions

---
 ngoschema/models/instances.py              | 2 +-
 ngoschema/protocols/array_protocol.py      | 2 +-
 ngoschema/protocols/collection_protocol.py | 5 +++++
 ngoschema/protocols/object_protocol.py     | 4 ++--
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 8ac4919..14d3154 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -26,7 +26,7 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     def __str__(self):
         # canonical name changes with the names of the instances which hold this one
         cn = self._canonicalName
-        a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
+        a = ([cn] if cn else []) + [f'{k}={str(self._printed(k))}' for k in self._required]
         return '<%s %s>' % (self.qualname(), ' '.join(a))
 
     @depend_on_prop('name', '_parentInstance._canonicalName')
diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 6212d68..fa5563d 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -112,7 +112,7 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
 
     def _str_list(self):
         hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
-        a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
+        a = [shorten(self._printed(i), str_fun=repr)
              for i, t in enumerate(self._items_types(self, self._data))
              if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
         return '[%s]' % (', '.join(a))
diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 046deea..4b7e014 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -199,6 +199,11 @@ class CollectionProtocol(Collection):
             self._data[item] = value
         self._dataValidated[item] = value
 
+    def _printed(self, item):
+        """ value as it was last read, falsy ones included, or as it was given """
+        v = self._dataValidated[item]
+        return self._data[item] if v is None else v
+
     def _is_outdated(self, item):
         return (self._dataValidated[item] is None and self._data[item] is not None
                 ) or (self._itemsInputs.get(item, {}) != self._items_inputs_evaluate(item))
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b0cbc60..2470ab6 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -527,7 +527,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         m = settings.PPRINT_MAX_EL
         ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True, excludes=self._print_excludes()))
         hidden = max(0, len(ks) - m)
-        a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a = ['%s=%s' % (k, shorten(self._printed(k), str_fun=repr)) for k in ks[:m]]
         a += ['+%i...' % hidden] if hidden else []
         return '%s(%s)' % (self.qualname(), ', '.join(a))
 
@@ -535,7 +535,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         m = settings.PPRINT_MAX_EL
         ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False, excludes=self._print_excludes()))
         hidden = max(0, len(ks) - m)
-        a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a = ['%s: %s' % (k, shorten(self._printed(k), str_fun=repr)) for k in ks[:m]]
         a += ['+%i...' % hidden] if hidden else []
         return '{%s}' % (', '.join(a))
 
-- 
2.43.0


From 0b48c281d7cde02cab26a4e0088dcb470e8f30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:13 +0000
Subject: [PATCH 147/150] fix: sessions resolve canonical names in the
 repositories bound to them

---
 ngoschema/session.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3550cad..89ef253 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -9,7 +9,6 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import weakref
-import functools
 import logging
 
 from sqlalchemy import exc as sa_exc
@@ -44,7 +43,6 @@ class Session(with_metaclass(SchemaMetaclass)):
     _id = "https://numengo.org/ngoschema#/$defs/session/$defs/Session"
 
     def __init__(self, **kwargs):
-        self._resolve_cname = functools.lru_cache(1024)(self._resolve_cname_cached)
         ObjectProtocol.__init__(self, value=kwargs)
         self._new = {}  # InstanceState->object, strong refs object
         self._deleted = {}  # same
@@ -65,14 +63,11 @@ class Session(with_metaclass(SchemaMetaclass)):
         return r(session=self)
 
     def resolve_cname(self, cname):
-        return self._resolve_cname(cname)
-
-    def _resolve_cname_cached(self, cname):
         from .models.instances import Entity
         cns = cname.split('.')
-        rn = cns[0]
+        rn = (cns[0], )
         cn = cns[1:]
-        for repo in [r for r in self._repos if issubclass(r.instanceClass, Entity)]:
+        for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
             if rn in repo:
                 v = repo.resolve_fkey(rn)
                 return v if not cn else v.resolve_cname(cn)
-- 
2.43.0


From c96f1e85a579a52681cde64c7344ec90ecbedd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:48 +0000
Subject: [PATCH 148/150] fix: loaders, savers and resolvers give their result
 when they are called

---
 ngoschema/protocols/loader.py   | 4 ++--
 ngoschema/protocols/resolver.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/loader.py b/ngoschema/protocols/loader.py
index b48ba03..827cbe0 100644
--- a/ngoschema/protocols/loader.py
+++ b/ngoschema/protocols/loader.py
@@ -30,7 +30,7 @@ class Loader(Deserializer):
 
     def __call__(self, value, **opts):
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
-        raise self._load(self, value, **opts)
+        return self._load(self, value, **opts)
 
     #@classmethod
     def load(self, value, **opts):
@@ -57,7 +57,7 @@ class Saver(Serializer, Loader):
 
     def __call__(self, value, load=False, **opts):
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
-        raise self._save(self, value, **opts)
+        return self._save(self, value, load=load, **opts)
 
     #@classmethod
     def save(self, value, **opts):
diff --git a/ngoschema/protocols/resolver.py b/ngoschema/protocols/resolver.py
index 42082f1..a818f98 100644
--- a/ngoschema/protocols/resolver.py
+++ b/ngoschema/protocols/resolver.py
@@ -19,7 +19,7 @@ class Resolver(Converter):
 
     def __call__(self, value, convert=True, **opts):
         value = self._convert(self, value, **opts) if convert else value
-        raise self._resolve(self, value, **opts)
+        return self._resolve(self, value, **opts)
 
     @classmethod
     def resolve(cls, value, convert=True, **opts):
-- 
2.43.0


From 7d6a72e8362190a0f9fd9cae1ba8ed9ad54d0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:44 +0000
Subject: [PATCH 149/150] fix: numbers leave the decimal context of their
 callers as it is

---
 ngoschema/types/numerics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index 47d0a6f..9a176d9 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -48,8 +48,9 @@ class Number(Numeric):
 
     @staticmethod
     def _evaluate(self, value, **opts):
-        decimal.setcontext(self._dcmContext)
-        return Primitive._evaluate(self, value, **opts)
+        # the context of the caller is left as it is
+        with decimal.localcontext(self._dcmContext):
+            return Primitive._evaluate(self, value, **opts)
 
 
 @register_type('integer')
-- 
2.43.0


From 07aa4f59ac5031ef7db756ea99e38c71503fc3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:02 +0000
Subject: [PATCH 150/150] fix: negative numbers and numbers which are not
 indices designate nothing in a list

---
 ngoschema/resolvers/uri_resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index e85457c..4c972a4 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -16,6 +16,7 @@ import logging
 import copy
 import functools
 import posixpath
+import re
 from os import path
 from urllib.parse import unquote, urlparse
 
@@ -61,6 +62,8 @@ def resolve_fragment(doc, fragment):
         try:
             part = part.replace(u"~1", u"/").replace(u"~0", u"~")
             if is_sequence(doc):
+                if not re.match(r'(0|[1-9][0-9]*)\Z', part):
+                    raise InvalidValue("'%s' is not an index." % part)
                 part = int(part)
             doc = doc[part]
         except:
-- 
2.43.0

