From f13a70c05faff6335c660d68d6a9a3afc9a8a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 01/79] fix: merge must not modify the value of the receiver

InstanceNode.merge worked on the receiver's own value in place (list +=,
dict.update), so an older instance - or a default value owned by the
schema - changed behind its holder's back.
---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..79a91a7 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -320,7 +320,7 @@ class InstanceNode:
         return self._merge_container(newval)
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
             inst.value += [
                 en for en in value if en in set(value) - set(self.value)]
@@ -338,7 +338,7 @@ class InstanceNode:
         return inst
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         rest = []
         for k in value:
             if k in self.value:
-- 
2.43.0


From 71a86f13003d8efda29e471a70140adc0b30affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 02/79] fix: identity queries must not modify the schema

derived_from and derived_from_all updated the sets of directly derived
identities in place, so a query (e.g. schema_digest) changed the answers
of later queries on the same data model.
---
 yangson/schemadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..23e2d24 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -472,7 +472,7 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            res = self.identity_adjs[identity].derivs.copy()
         except KeyError:
             return set()
         for id in res.copy():
-- 
2.43.0


From 01d047e5fe688304f6f0633d2cd9622e1ae94962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:37 +0000
Subject: [PATCH 03/79] fix: keep results of "when" evaluation out of the
 shared schema

The schema pattern objects belong to the data model. Storing the results
of "when" expressions in them made concurrent validations using the same
data model disturb each other. Results now live in a per-validation copy.
---
 yangson/schemanode.py |  3 +--
 yangson/schpattern.py | 45 ++++++++++++++++++++++++++++---------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..d6b6c7e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -651,8 +651,7 @@ class InternalNode(SchemaNode):
 
     def _check_schema_pattern(self, inst: InstanceNode,
                               ctype: ContentType) -> None:
-        p = self.schema_pattern
-        p._eval_when(inst)
+        p = self.schema_pattern._eval_when(inst)
         for m in inst:
             newp = p.deriv(m, ctype)
             if isinstance(newp, NotAllowed):
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..87cfcde 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -16,6 +16,7 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """This module defines classes for schema patterns."""
+from copy import copy
 from typing import Optional, TYPE_CHECKING
 from .enumerations import ContentType
 from .typealiases import InstanceName, _Singleton, YangIdentifier
@@ -49,8 +50,13 @@ class SchemaPattern:
         """Return ``True`` if the receiver is active in the current context."""
         return True
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        return
+    def _eval_when(self, cnode: "InstanceNode") -> "SchemaPattern":
+        """Return the receiver with "when" conditions evaluated.
+
+        The receiver belongs to the schema, which is shared by all users of
+        the data model, so the results are stored only in a copy.
+        """
+        return self
 
     def _mandatory_members(
             self, ctype: ContentType) -> Optional[list[InstanceName]]:
@@ -129,8 +135,10 @@ class Conditional(SchemaPattern):
     def check_when(self) -> bool:
         return not self.when or self._val_when
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
+    def _eval_when(self, cnode: "InstanceNode") -> "Conditional":
+        res = copy(self)
+        res._val_when = bool(self.when.evaluate(cnode))
+        return res
 
     def _active(self, ctype: ContentType) -> bool:
         return super()._active(ctype) and self.check_when()
@@ -158,9 +166,10 @@ class ConditionalPattern(Conditional):
         super().__init__(when)
         self.pattern = p
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        super()._eval_when(cnode)
-        self.pattern._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> "ConditionalPattern":
+        res = super()._eval_when(cnode)
+        res.pattern = self.pattern._eval_when(cnode)
+        return res
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -191,10 +200,11 @@ class Member(Typeable, Conditional):
         Conditional.__init__(self, when)
         self.name = name
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
+    def _eval_when(self, cnode: "InstanceNode") -> "Member":
         if self.when:
             dummy = cnode.put_member(self.name, (None,))
-            super()._eval_when(dummy)
+            return super()._eval_when(dummy)
+        return self
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -231,10 +241,11 @@ class Alternative(SchemaPattern):
         self.left = p
         self.right = q
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        super()._eval_when(cnode)
-        self.left._eval_when(cnode)
-        self.right._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> "Alternative":
+        res = copy(self)
+        res.left = self.left._eval_when(cnode)
+        res.right = self.right._eval_when(cnode)
+        return res
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -313,9 +324,11 @@ class Pair(SchemaPattern):
             Pair.combine(self.left.deriv(x, ctype), self.right),
             Pair.combine(self.right.deriv(x, ctype), self.left))
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        self.left._eval_when(cnode)
-        self.right._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> "Pair":
+        res = copy(self)
+        res.left = self.left._eval_when(cnode)
+        res.right = self.right._eval_when(cnode)
+        return res
 
     def tree(self, indent: int = 0):
         return (" " * indent + "Pair\n" +
-- 
2.43.0


From e7e90faab15ed03f241ed77ccd21f94e2e98515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 04/79] fix: keep error info of a failed type check separate
 for each thread

error_tag and error_message were attributes of the shared type object, so
a concurrent failed check could replace them between the check and the
creation of YangTypeError, which then reported another value's error.
---
 yangson/datatype.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..949d411 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -49,6 +49,7 @@ import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
+import threading
 from typing import (Any, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
 
@@ -72,6 +73,9 @@ class DataType(ABC, Generic[S, RS]):
     """Abstract class for YANG data types."""
 
     dtypes: ClassVar[dict[str, Type["DataType"]]]
+    _error_info = threading.local()
+    """Data about the last failed check, separate for each thread because
+    types are parts of the schema that is shared by all threads."""
     _option_template = '<option value="{}"{}>{}</option>'
 
     def __init__(self, sctx: SchemaContext, name: Optional[YangIdentifier]) -> None:
@@ -79,10 +83,21 @@ class DataType(ABC, Generic[S, RS]):
         self.sctx = sctx
         self.default: Optional[S] = None
         self.name = name
-        self.error_tag: Optional[str] = None
-        self.error_message: Optional[str] = None
         self.units: Optional[str] = None
 
+    @property
+    def error_tag(self) -> Optional[str]:
+        """Error tag of the receiver's failed check in the current thread."""
+        last = getattr(DataType._error_info, "last", None)
+        return last[1] if last and last[0] is self else None
+
+    @property
+    def error_message(self) -> Optional[str]:
+        """Error message of the receiver's failed check in the current thread.
+        """
+        last = getattr(DataType._error_info, "last", None)
+        return last[2] if last and last[0] is self else None
+
     @abstractmethod
     def __contains__(self, val: S) -> bool:
         """Return ``True`` if the receiver type contains `val`.
@@ -169,9 +184,9 @@ class DataType(ABC, Generic[S, RS]):
 
     def _set_error_info(self, error_tag: Optional[str] = None,
                         error_message: Optional[str] = None):
-        self.error_tag = error_tag if error_tag else "invalid-type"
-        self.error_message = (error_message if error_message else
-                              "expected " + str(self))
+        DataType._error_info.last = (
+            self, error_tag if error_tag else "invalid-type",
+            error_message if error_message else "expected " + str(self))
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
-- 
2.43.0


From 3bf544b17454554fb7e14627423be01ac52006a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 05/79] fix: publish the schema pattern of a subtree only when
 it is complete

RootNode builds schema patterns on first use and takes the presence of the
root pattern as a sign that all of them exist. The root pattern was set
first, so a concurrent first use failed with AttributeError, and after an
interrupted first use (e.g. KeyboardInterrupt) every validation did.
---
 yangson/schemanode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d6b6c7e..bd0b275 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -668,11 +668,15 @@ class InternalNode(SchemaNode):
                 "expected " + msg + ", ".join([repr(m) for m in mms]))
 
     def _make_schema_patterns(self) -> None:
-        """Build schema pattern for the receiver and its data descendants."""
-        self.schema_pattern = self._schema_pattern()
+        """Build schema pattern for the receiver and its data descendants.
+
+        The receiver's pattern is set last: its presence means that the
+        patterns are complete in the whole subtree.
+        """
         for dc in self.data_children():
             if isinstance(dc, InternalNode):
                 dc._make_schema_patterns()
+        self.schema_pattern = self._schema_pattern()
 
     def _schema_pattern(self) -> SchemaPattern:
         todo = [c for c in self.children if not (
-- 
2.43.0


From baa22f698a72c704946fcb7bd6cd810a7b53f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:08 +0000
Subject: [PATCH 06/79] fix: insert_after must return an entry with the right
 index

The new entry had the index of the receiver, so its path and JSON pointer
identified the wrong entry, as did those of entries reached from it.
---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 79a91a7..fc6265d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -941,7 +941,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From d5d6a7dacf2a5bfcb376585e0d6814ddf79b3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 07/79] fix: process modules and submodules in a reproducible
 order

The order followed the iteration order of sets of strings, that is, the
randomized string hash: the order of schema nodes, identities in the
schema digest and defaults differed between runs with the same input.
---
 yangson/datatype.py   |  2 +-
 yangson/schemadata.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 949d411..5c61033 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -817,7 +817,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
-            res["identities"] = list(
+            res["identities"] = sorted(
                 self.sctx.schema_data.derived_from_all(self.bases))
         return res
 
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 23e2d24..bebe93b 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -195,11 +195,11 @@ class SchemaData:
         raise ModuleNotFound(name, rev)
 
     def _process_imports(self) -> None:
-        impl = set(self.implement.items())
+        impl = list(self.implement.items())
         if len(impl) == 0:
             return
         deps = {mid: set() for mid in impl}
-        impby = {mid: set() for mid in impl}
+        impby = {mid: [] for mid in impl}
         for mid in self.modules:
             mod = self.modules[mid].statement
             for impst in mod.find_all("import"):
@@ -214,16 +214,17 @@ class SchemaData:
                     imid = self.last_revision(impn)
                 self.modules[mid].prefix_map[prefix] = imid
                 mm = self.modules[mid].main_module
-                if mm in impl and imid in impl:
+                if mm in deps and imid in deps and imid not in deps[mm]:
                     deps[mm].add(imid)
-                    impby[imid].add(mm)
+                    impby[imid].append(mm)
         free = [mid for mid in deps if len(deps[mid]) == 0]
         if not free:
             raise CyclicImports()
         while free:
             nid = free.pop()
             self._module_sequence.append(nid)
-            self._module_sequence.extend(self.modules[nid].submodules)
+            self._module_sequence.extend(
+                sorted(self.modules[nid].submodules))
             for mid in impby[nid]:
                 deps[mid].remove(nid)
                 if len(deps[mid]) == 0:
-- 
2.43.0


From 404e3e5f60948c996834e3af8e2cd547141e5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 08/79] fix: apply augments whose target is added by another
 augment

Whether such an augment was applied or silently dropped depended on the
order in which the modules and submodules happened to be processed.
---
 yangson/datamodel.py  | 10 ++++++++--
 yangson/schemanode.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..722c548 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -231,12 +231,18 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        todo = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+            todo.extend([(aug, sctx) for aug in mod.find_all("augment")])
+        while todo:     # the target may be added by another augment
+            rest = [(aug, sctx) for aug, sctx in todo
+                    if not self.schema._augment_stmt(aug, sctx)]
+            if len(rest) == len(todo):
+                break
+            todo = rest
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bd0b275..bbebf3f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -730,19 +730,24 @@ class InternalNode(SchemaNode):
         node._handle_substatements(stmt, sctx)
 
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement.
+
+        Returns:
+            ``False`` if the target node doesn't exist.
+        """
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
-            return
+            return False
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
-- 
2.43.0


From 73b4abbb14777d7486554f9ee5f1a0c825005c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 09/79] fix: do not add defaults of nodes under a false "when"
 of uses or augment

add_defaults turned valid data into data that fail validation.
---
 yangson/schemanode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bbebf3f..eee71b8 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -896,6 +896,13 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        """Extend the superclass method."""
+        if self.when and not self.when.evaluate(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _flatten(self) -> list[SchemaNode]:
         res = []
         for c in self.children:
-- 
2.43.0


From e376201a78c85ebaaf4546edc384d8e9bdfe406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 10/79] fix: report a missing mandatory choice as SchemaError

If a case of the choice had no mandatory nodes of its own or was disabled
by a false "when", validation failed with TypeError.
---
 yangson/schemanode.py | 3 +++
 yangson/schpattern.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index eee71b8..2cf5eb6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -662,6 +662,9 @@ class InternalNode(SchemaNode):
             p = newp
         if not p.nullable(ctype):
             mms = p._mandatory_members(ctype)
+            if not mms:
+                raise SchemaError(inst, "missing-data",
+                                  "expected data of a mandatory choice")
             msg = "one of " if len(mms) > 1 else ""
             raise SchemaError(
                 inst, "missing-data",
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 87cfcde..ae9a8ee 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -286,6 +286,12 @@ class ChoicePattern(Alternative, Typeable):
         return (super().deriv(x, ctype) if self.match_ctype(ctype) else
                 NotAllowed())
 
+    def _mandatory_members(
+            self, ctype: ContentType) -> Optional[list[InstanceName]]:
+        if self.match_ctype(ctype):
+            return ((self.left._mandatory_members(ctype) or []) +
+                    (self.right._mandatory_members(ctype) or []))
+
     def tree(self, indent: int = 0):
         return (" " * indent +
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
-- 
2.43.0


From 4919adaa2c9250481f38f42f654d27220e968cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 11/79] fix: do not use JSON escapes in instance identifiers

The quoted strings in YANG instance identifiers have no escape sequences,
so an instance route with e.g. a non-ASCII key or a double quote in it
was written out as an identifier of a different, usually nonexistent,
instance.
---
 yangson/instance.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index fc6265d..f55a291 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -1027,6 +1026,15 @@ class ArrayEntry(InstanceNode):
         return [self.up().up()]
 
 
+def _quoted(text: str) -> str:
+    """Return `text` as a quoted string of an instance identifier.
+
+    Like in XPath, there are no escape sequences.
+    """
+    quote = "'" if '"' in text else '"'
+    return quote + text + quote
+
+
 class MemberName:
     """Selectors of object members.
 
@@ -1129,7 +1137,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return self.value == other.value
@@ -1178,7 +1186,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 81630df13236da642cc806e414c64d0cf67fb276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 12/79] fix: structured values are equal only if their contents
 are equal

---
 docs/instvalue.rst   | 2 +-
 yangson/instvalue.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/docs/instvalue.rst b/docs/instvalue.rst
index ce7e6cd..8b59765 100644
--- a/docs/instvalue.rst
+++ b/docs/instvalue.rst
@@ -73,7 +73,7 @@ data structures with additional attributs and methods:
    .. method:: __eq__(val: StructuredValue) -> bool
 
       Return ``True`` if the receiver is equal to *val*. The equality
-      test is based on their hash values.
+      test is based on their contents, not on the time stamps.
 
    .. automethod:: __hash__
 
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..83a28c8 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -66,7 +66,11 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return self.__class__ == val.__class__ and super().__eq__(val)
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver is not equal to `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-- 
2.43.0


From 6c9ad1222fa4a70085cb6af0cc00ec6655bc67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 13/79] fix: annotated values can be hashed, malformed
 annotations are rejected

---
 yangson/instance.py   | 4 ++--
 yangson/schemanode.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f55a291..8227152 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -443,11 +443,11 @@ class InstanceNode:
         for key, value in list(objvalue.items()):
             if key not in self.value:
                 if isinstance(value, ObjectValue):
-                    metadata = objvalue[key].get('@', {})
+                    metadata = objvalue[key].get('@', ObjectValue())
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue[key]['@'] = metadata
                 else:
-                    metadata = objvalue.get('@'+key, {})
+                    metadata = objvalue.get('@'+key, ObjectValue())
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue['@'+key] = metadata
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2cf5eb6..d685c09 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -609,7 +609,9 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
-        res = {}
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "metadata object")
+        res = ObjectValue()
         ans = self.schema_root().annotations
         for mem in rmo:
             try:
@@ -617,7 +619,7 @@ class InternalNode(SchemaNode):
             except KeyError:
                 raise UndefinedAnnotation(jptr, mem)
             res[mem] = an.type.from_raw(rmo[mem])
-            if res[mem] not in an.type:
+            if res[mem] is None or res[mem] not in an.type:
                 raise AnnotationTypeError(jptr, mem, an.type.error_message)
         return res
 
-- 
2.43.0


From a8b7c4da2962f7ddbcaa03e318213f25c1df2b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 14/79] fix: keep annotations of list entries and empty entries
 in raw values

---
 yangson/instance.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 8227152..c26a546 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -486,16 +486,16 @@ class InstanceNode:
 
                         if m_attr:
                             if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
+                                value[m]['@'] = dict(m_attr)
                             else:
-                                value['@'+m] = attr[m]
+                                value['@'+m] = dict(m_attr)
 
             return value
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
+                if isinstance(en.value, ObjectValue) and '@' in en.value:
+                    e_attr = en.value['@']
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
@@ -503,9 +503,10 @@ class InstanceNode:
                     member_value = en.raw_value(filter)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and member_value != {}):
+                        and (member_value != {}
+                         or not en._member_names())):
                     if e_attr:
-                        member_value['@'] = e_attr
+                        member_value['@'] = dict(e_attr)
                     value.append(member_value)
             return value
         return self.schema_node.type.to_raw(self.value)
@@ -540,8 +541,9 @@ class InstanceNode:
 
                     if isinstance(m.schema_node, (ListNode, LeafListNode)):
                         for en in m:
-                            if isinstance(en, dict) and '@' in en.value:
-                                e_attr = en['@'].copy()
+                            if (isinstance(en.value, ObjectValue)
+                                    and '@' in en.value):
+                                e_attr = en.value['@'].copy()
                             else:
                                 e_attr = {}
                             add1 = filter.begin_element(m, en, e_attr)
-- 
2.43.0


From 933680616a3a9778cdb362a0a543c780696f0075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 15/79] fix: annotations are not children in XPath evaluation

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c26a546..ecbbb58 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -679,7 +679,7 @@ class InstanceNode:
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
-        for mn in wd.value:
+        for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
-- 
2.43.0


From fa949f5a0f7366d7161dcba58ed2822fdc291e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 16/79] fix: an annotation must not influence processing of
 other members

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d685c09..2d28817 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -539,12 +539,13 @@ class InternalNode(SchemaNode):
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
+                tptr = jptr
                 if qn != "@":
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
+                    tptr += '/' + tgt
+                res[qn] = self._process_metadata(rval[qn], tptr)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
-- 
2.43.0


From 74fabc1a38e13e1ee5daffabcb72c47581ada6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 17/79] fix: accept empty string, binary and bits values in XML

---
 yangson/datatype.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5c61033..9d0a706 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -69,6 +68,15 @@ if TYPE_CHECKING:
     from .schemanode import TerminalNode
 
 
+def xml_text(xml: ET.Element) -> Optional[str]:
+    """Return the text of an XML element, also if it is empty.
+
+    Args:
+        xml: XML element.
+    """
+    return "" if xml.text is None and len(xml) == 0 else xml.text
+
+
 class DataType(ABC, Generic[S, RS]):
     """Abstract class for YANG data types."""
 
@@ -317,10 +325,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(xml_text(xml))
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
@@ -492,7 +497,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml_text(xml))
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
@@ -532,7 +537,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -540,10 +545,7 @@ class BinaryType(LinearType[bytes]):
 
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
-        try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
-            return None
+        return self.from_raw(xml_text(xml))
 
     def to_raw(self, val: bytes) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From eee3f47e1496825ffa2c0c6da5f249308c17a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 18/79] fix: reject instance identifiers that are not strings

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 9d0a706..f2407ff 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -710,6 +710,8 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
         except ParserException:
-- 
2.43.0


From afb9c27494755f50779d8d84fe75c1967d81391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 19/79] fix: reject identityref values with an undeclared
 prefix

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f2407ff..1fd029d 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -783,7 +783,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         # the following code has issues (Issue #79)
         ns_url = xml.attrib.get('xmlns:'+i1)
         if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+            return None
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
             raise MissingModuleNamespace(ns_url)
-- 
2.43.0


From f77cceaa2f57acb21ab04bd12436d1efb190784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:49 +0000
Subject: [PATCH 20/79] fix: declare namespaces of annotations in XML

---
 yangson/instance.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index ecbbb58..bbbff7c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -514,8 +514,6 @@ class InstanceNode:
     def to_xml(self, filter: OutputFilter = OutputFilter(),
                elem: ET.Element = None):
         """put receiver's value into a XML element"""
-        has_default_ns = False
-
         if elem is None:
             element = ET.Element(self.schema_node.name)
 
@@ -557,8 +555,7 @@ class InstanceNode:
                                 en.to_xml(filter, child)
                             add2 = filter.end_element(m, en, e_attr)
                             if add1 and add2:
-                                for a in e_attr:
-                                    child.attrib[a] = str(e_attr[a])
+                                self._annotate_xml(child, e_attr)
                                 childs.append(child)
                     else:
                         child = ET.Element(sn.name)
@@ -572,13 +569,8 @@ class InstanceNode:
                         childs.append(child)
                 if filter.end_member(self, m, m_attr):
                     for c in childs:
-                        for a in m_attr:
-                            # should only happen if the child was no list
-                            if a == 'ietf-netconf-with-defaults:default':
-                                c.attrib['wd:default'] = str(m_attr[a])
-                                has_default_ns = True
-                            else:
-                                c.attrib[a] = str(m_attr[a])
+                        # should only happen if the child was no list
+                        self._annotate_xml(c, m_attr)
                         element.append(c)
             if elem is None and len(element) == 0:
                 return None
@@ -597,13 +589,22 @@ class InstanceNode:
                         'xmlns:'+self.value[1]] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
-        if elem is not None:
-            return element
-        else:
-            if has_default_ns:
+        return element
+
+    def _annotate_xml(self, element: ET.Element, attr: dict) -> None:
+        """Add annotations to an XML element."""
+        for a in attr:
+            if a == 'ietf-netconf-with-defaults:default':
                 element.attrib[
                     'xmlns:wd'] = 'urn:ietf:params:xml:ns:netconf:default:1.0'
-            return element
+                element.attrib['wd:default'] = str(attr[a])
+                continue
+            prefix, colon, _ = a.partition(':')
+            module = (self.schema_data.modules_by_name.get(prefix)
+                      if colon else None)
+            if module:
+                element.attrib['xmlns:'+prefix] = module.xml_namespace
+            element.attrib[a] = str(attr[a])
 
     def _member_names(self) -> list[InstanceName]:
         if isinstance(self.value, ObjectValue):
-- 
2.43.0


From 73f4fd7aa153c5e9ad98ddd43c2a37012bf7c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 21/79] fix: instance routes with different selectors can be
 compared

---
 yangson/instance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index bbbff7c..1f5dd0c 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1056,7 +1056,8 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (isinstance(other, MemberName) and self.name == other.name
+                and self.namespace == other.namespace)
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1109,7 +1110,7 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return isinstance(other, EntryIndex) and self.index == other.index
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1143,7 +1144,7 @@ class EntryValue:
         return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return isinstance(other, EntryValue) and self.value == other.value
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1193,7 +1194,7 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return isinstance(other, EntryKeys) and self.keys == other.keys
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
-- 
2.43.0


From 80d166feeb7065c6698a0d08bc454b95127589fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 22/79] fix: merge of a raw value with a list or leaf-list
 entry

---
 yangson/instance.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1f5dd0c..7ee2361 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -294,9 +294,11 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        newval = self.schema_node.from_raw(
+        return self._copy(self._cook_value(value, raw))
+
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(
             value, self.json_pointer()) if raw else value
-        return self._copy(newval)
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -309,11 +311,11 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
+        if (isinstance(self.schema_node, (LeafNode, AnyContentNode)) or
+                not isinstance(self.value, StructuredValue) or
                 not self.value):
             return self.update(value, raw)
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+        newval = self._cook_value(value, raw)
         if isinstance(self.value, ArrayValue):
             return self._merge_list(newval)
         return self._merge_container(newval)
@@ -1369,7 +1371,7 @@ class InstanceIdParser(Parser):
 
 
 from .schemanode import (       # NOQA
-            AnyContentNode, AnydataNode, CaseNode,
+            AnyContentNode, CaseNode,
             ChoiceNode, DataNode, InputNode,
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
-- 
2.43.0


From 66516f9f45f9aaa4974a539754453973eea74142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 23/79] fix: merge must not lose entries without keys

---
 yangson/instance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 7ee2361..961645f 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -328,14 +328,18 @@ class InstanceNode:
             return inst
         keys = self.schema_node._key_members
         mki = {}
+        rest = []
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            if keys and all(k in value[i] for k in keys):
+                mki[tuple([value[i][k] for k in keys])] = i
+            else:
+                rest.append(i)
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = tuple([self.value[i].get(k) for k in keys])
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
-        inst.value += [value[i] for i in sorted(mki.values())]
+        inst.value += [value[i] for i in sorted(rest + list(mki.values()))]
         return inst
 
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-- 
2.43.0


From 3391b2abaa6892df0f07ac1781195f7f9e3b951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 24/79] fix: merge of annotated values

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 961645f..614a01a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -346,7 +346,7 @@ class InstanceNode:
         inst = self._copy(self.value.copy())
         rest = []
         for k in value:
-            if k in self.value:
+            if k in self.value and k[0] != '@':
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
-- 
2.43.0


From f53b84f0b4726178a0679486874302c90373eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 25/79] fix: exit status of a failed dump must not be zero

---
 yangson/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..f567387 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -173,6 +173,7 @@ def main(infile: Optional[str] = None, pickled: bool = False,
                 return 0
             except pickle.PicklingError as e:
                 print("Pickling failed:", str(e), file=sys.stderr)
+                return 1
     if not validate:
         return 0
     try:
-- 
2.43.0


From 2cd6dad557c4ea054a2a8ade5a02864618fe0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 26/79] fix: conversion of YANG library data with deviations

---
 yangson/convert8525.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..c139bd6 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -31,6 +31,7 @@ from yangson import DataModel
 from yangson.enumerations import ContentType
 from yangson.exceptions import (
     NonexistentInstance, ValidationError, RawDataError)
+from yangson.instance import ArrayEntry
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
 
@@ -123,8 +124,9 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
+    def __init__(self, inst: ArrayEntry, import_only: bool) -> None:
         """Initialize the receiver."""
+        val = inst.value
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -135,7 +137,7 @@ class MainModuleData(ModuleData):
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
         if "deviation" in val:
-            for dev in val["deviation"]:
+            for dev in inst["deviation"]:
                 dmod = dev._deref()[0]
                 try:
                     rev = dmod.sibling("revision").value
@@ -226,11 +228,11 @@ def main() -> int:
         msentry = top["module-set"].look_up(name=ms.value)
         if "module" in msentry:
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(yam, import_only=False)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-                ment = MainModuleData(yam.value, import_only=True)
+                ment = MainModuleData(yam, import_only=True)
                 modules[ment.key()] = ment
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
-- 
2.43.0


From 7a29a5c97431abca6fb7e2c53f7eb1298bc4ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 27/79] fix: import-only entry must not override an implemented
 module

---
 yangson/convert8525.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index c139bd6..ecd8630 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -233,7 +233,7 @@ def main() -> int:
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
                 ment = MainModuleData(yam, import_only=True)
-                modules[ment.key()] = ment
+                modules.setdefault(ment.key(), ment)
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
-- 
2.43.0


From 9cb8bfef138403c4735e41ed2cb925ef0e08b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 28/79] fix: report incompatible instance routes as documented

---
 yangson/instance.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 614a01a..dbfc7f0 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -245,7 +245,8 @@ class InstanceNode:
             InstanceValueError: If the receiver's value is not a YANG list.
             NonexistentInstance: If no entry with matching keys exists.
         """
-        if not isinstance(self.schema_node, ListNode):
+        if not (isinstance(self.schema_node, ListNode) and
+                isinstance(self.value, ArrayValue)):
             raise InstanceValueError(self, "lookup on non-list")
         if raw:
             for k in keys:
@@ -650,6 +651,8 @@ class InstanceNode:
         return self.peek(irt)
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
+        if not isinstance(self.schema_node, InternalNode):
+            raise InstanceValueError(self, "no schema for members")
         qname = self.schema_node._iname2qname(name)
         res = self.schema_node.get_data_child(*qname)
         if res is None:
@@ -1074,11 +1077,12 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not (isinstance(sn, InternalNode) and isinstance(val, ObjectValue)):
+            return (None, sn)
         cn = sn.get_data_child(self.name, self.namespace)
-        try:
-            return (val[cn.iname()], cn)
-        except (IndexError, KeyError, TypeError):
-            return (None, cn)
+        if cn is None:
+            return (None, sn)
+        return (val.get(cn.iname()), cn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
         return inst[self.iname()]
@@ -1123,13 +1127,17 @@ class EntryIndex:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(val, ArrayValue):
+            return None, sn
         try:
             return val[self.index], sn
-        except (IndexError, KeyError, TypeError):
+        except IndexError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
-        return inst[self.index]
+        if not isinstance(inst.value, ArrayValue):
+            raise InstanceValueError(inst, "entry of non-array")
+        return inst._entry(self.index)
 
 
 class EntryValue:
@@ -1160,13 +1168,18 @@ class EntryValue:
         return res
 
     def peek_step(self, val: ObjectValue,
-                  sn: "DataNode") -> tuple[Value, "DataNode"]:
+                  sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not (isinstance(sn, LeafListNode) and isinstance(val, ArrayValue)):
+            return None, sn
         try:
             return (val[val.index(self.parse_value(sn))], sn)
         except ValueError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
+        if not (isinstance(inst.schema_node, LeafListNode) and
+                isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "entry value of non-leaf-list")
         try:
             return inst._entry(
                 inst.value.index(self.parse_value(inst.schema_node)))
@@ -1227,6 +1240,8 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
+        if not (isinstance(sn, ListNode) and isinstance(val, ArrayValue)):
+            return (None, sn)
         keys = self.parse_keys(sn)
         for en in val:
             flag = True
@@ -1247,6 +1262,8 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
+        if not isinstance(inst.schema_node, ListNode):
+            raise InstanceValueError(inst, "lookup on non-list")
         return inst.look_up(**self.parse_keys(inst.schema_node))
 
 
@@ -1274,6 +1291,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
-- 
2.43.0


From e3036009da6fcdc07a7b707d962fa2eb4db0d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 29/79] fix: values of other types are not members of bits

---
 yangson/datatype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 1fd029d..f54890f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -305,9 +305,12 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
         return True
 
-- 
2.43.0


From d903ba9572e6cca174c5618be5cee42dca7bf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 30/79] fix: instance identifiers of entries lead back to these
 entries

---
 yangson/instance.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index dbfc7f0..feb7352 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -980,7 +980,10 @@ class ArrayEntry(InstanceNode):
     def _instance_route_entry(self):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
+            val = sn.type.canonical_string(self.value)
+            if val is None or self.value in self.before:
+                return EntryIndex(self._key)
+            return EntryValue(val)
         if not sn.keys:
             return EntryIndex(self._key)
         kdict = {}
@@ -990,8 +993,12 @@ class ArrayEntry(InstanceNode):
                     kdict[(k[0], None)] = str(self[k[0]])
                 else:
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except NonexistentInstance:
+            except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
+        keys = sn._key_members
+        if any(all(en.get(k) == self.value[k] for k in keys)
+               for en in self.before):
+            return EntryIndex(self._key)
         return EntryKeys(kdict)
 
     def _ancestors_or_self(
-- 
2.43.0


From 4f646152f8fd85bf7e4cea76f87107f5cee8833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 31/79] fix: declare namespaces of all identities in XML

---
 yangson/datatype.py | 16 ++++++++++++++++
 yangson/instance.py | 11 ++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index f54890f..18d9ae3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -149,6 +149,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
 
+    def xml_prefix(self, val: S) -> Optional[YangIdentifier]:
+        """Return the namespace prefix used in the XML encoding of `val`."""
+        return None
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -675,6 +679,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
+    def xml_prefix(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        return self.ref_type.xml_prefix(val)
+
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
@@ -798,6 +805,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
+    def xml_prefix(self, val: QualName) -> Optional[YangIdentifier]:
+        return val[1]
+
     def from_yang(self, text: YangIdentifier) -> QualName:
         """Override the superclass method."""
         try:
@@ -1140,6 +1150,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def xml_prefix(self, val: ScalarValue) -> Optional[YangIdentifier]:
+        for t in self.types:
+            if val in t:
+                return t.xml_prefix(val)
+        return None
+
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         for t in self.types:
             if val in t:
diff --git a/yangson/instance.py b/yangson/instance.py
index feb7352..d3d0dbc 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -587,13 +587,12 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
+                prefix = sn.type.xml_prefix(self.value)
+                if prefix is not None:
+                    module = self.schema_data.modules_by_name.get(prefix)
                     if not module:
                         raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                    element.attrib['xmlns:'+prefix] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
         return element
@@ -1406,5 +1405,3 @@ from .schemanode import (       # NOQA
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
-from .datatype import (         # NOQA
-            IdentityrefType)
-- 
2.43.0


From 53b389bf7c54b1e54d13051f0c722bf41eafd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 32/79] fix: not a number is not a decimal64 value

---
 yangson/datatype.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 18d9ae3..525e180 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -915,20 +915,17 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         According to [RFC7951]_, a raw instance must be string.
         """
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            res = (decimal.Decimal(raw).quantize(self._epsilon)
+                   if isinstance(raw, str) else None)
         except decimal.InvalidOperation:
             return None
+        return res if res is None or res.is_finite() else None
 
     def parse_value(self, text: str) -> Optional[decimal.Decimal]:
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return self.from_raw(cast(str, xml.text))
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
-- 
2.43.0


From 528760dc50f23a8174a4808ceacf906f662ca752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 33/79] fix: unprefixed names do not match members of the top
 level

---
 yangson/schemanode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2d28817..34cda3d 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -464,6 +464,8 @@ class InternalNode(SchemaNode):
             ns: Child's namespace (= `self.ns` if absent).
         """
         ns = ns if ns else self.ns
+        if ns is None:
+            return None
         todo = []
         for child in self.children:
             if child.name is None:
@@ -497,6 +499,8 @@ class InternalNode(SchemaNode):
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
         ns = ns if ns else self.ns
+        if ns is None:
+            return None
         todo = []
         for child in self.children:
             if child.name == name and child.ns == ns:
-- 
2.43.0


From b75b64795a83cc20d75d86eea3f50d12a51c1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 34/79] fix: instance identifiers of edited and unquotable
 entries

---
 yangson/instance.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index d3d0dbc..3d60b1d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -180,7 +180,7 @@ class InstanceNode:
         inst = self
         while inst.parinst:
             res.append(inst._instance_route_entry())
-            inst = inst.parinst
+            inst = inst.up()
         res.reverse()
         return InstanceRoute(res)
 
@@ -980,7 +980,8 @@ class ArrayEntry(InstanceNode):
         sn = self.schema_node
         if isinstance(sn, LeafListNode):
             val = sn.type.canonical_string(self.value)
-            if val is None or self.value in self.before:
+            if (val is None or not _quotable(val)
+                    or self.value in self.before):
                 return EntryIndex(self._key)
             return EntryValue(val)
         if not sn.keys:
@@ -994,6 +995,8 @@ class ArrayEntry(InstanceNode):
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
             except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
+        if not all(_quotable(val) for val in kdict.values()):
+            return EntryIndex(self._key)
         keys = sn._key_members
         if any(all(en.get(k) == self.value[k] for k in keys)
                for en in self.before):
@@ -1044,6 +1047,11 @@ class ArrayEntry(InstanceNode):
         return [self.up().up()]
 
 
+def _quotable(text: str) -> bool:
+    """Return ``True`` if `text` can appear in an instance identifier."""
+    return not ("'" in text and '"' in text)
+
+
 def _quoted(text: str) -> str:
     """Return `text` as a quoted string of an instance identifier.
 
-- 
2.43.0


From d300e5ef43ae2c724bff44d0c2dd6e094bf91ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 35/79] fix: an update is an edit

Updating a node with a cooked structured value gave it the time stamp
of that value instead of the time of the edit.
---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 3d60b1d..d0879d0 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -295,7 +295,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        return self._copy(self._cook_value(value, raw))
+        return self._copy(self._cook_value(value, raw), datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
         return self.schema_node.from_raw(
-- 
2.43.0


From b0a18834cbe46ac32a1acef3918f886e914bebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 36/79] fix: objects with only an annotation have no members to
 get defaults

add_defaults() went up from such an object and failed in its parent.
---
 yangson/instance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index d0879d0..c3affb6 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -418,8 +418,9 @@ class InstanceNode:
             return self
         res = self
         if isinstance(val, ObjectValue):
-            if val:
-                for mn in self._member_names():
+            names = self._member_names()
+            if names:
+                for mn in names:
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
                 res = res.up()
-- 
2.43.0


From 7db74481cdc982472f1bf0f40b53f9995fd76663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 37/79] fix: moving up does not stamp the parent with the
 current time

Going up from a member created a value with the time of the move even
if nothing had been edited.
---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c3affb6..4ca7566 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -818,9 +818,9 @@ class ObjectMember(InstanceNode):
 
     def _zip(self) -> ObjectValue:
         """Zip the receiver into an object and return it."""
-        res = ObjectValue(self.siblings.copy(), self.timestamp)
+        res = dict(self.siblings)
         res[self.name] = self.value
-        return res
+        return ObjectValue(res, self.timestamp)
 
     def _copy(self, newval: Value, newts: datetime = None) -> "ObjectMember":
         if newts:
-- 
2.43.0


From 7c77e51fb8829967a31f331ee320545de54f189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 38/79] fix: adding defaults to input or output of an operation

It failed with AttributeError on the missing one of the two nodes.
---
 yangson/schemanode.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 34cda3d..88e84a6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1790,6 +1790,10 @@ class InputNode(InternalNode, DataNode):
         """Override the superclass method."""
         return self.ns + ":" + self.name
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
@@ -1813,6 +1817,10 @@ class OutputNode(InternalNode, DataNode):
         """Override the superclass method."""
         return self.ns + ":" + self.name
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        return pnode
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From 142883d687ad180fa0506cdcbf5ed7c9e6f13032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 39/79] fix: no defaults from a case under a false "when"

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 88e84a6..31e98d2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1492,6 +1492,8 @@ class ChoiceNode(InternalNode):
             return inst
         ac = self._active_case(inst.value)
         if ac:
+            if ac.when and not ac.when.evaluate(inst):
+                return inst
             return ac._add_defaults(inst, ctype)
         elif self.default_case:
             n = dc = self.get_child(*self.default_case)
-- 
2.43.0


From 235542bee78098ef9cd603939ada4f0b10513f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 40/79] fix: defaults of the active case are in use in XPath
 evaluation

---
 yangson/instance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 4ca7566..29e19db 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -683,10 +683,13 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                if cn.when and not cn.when.evaluate(self):
                     return []
+                if isinstance(cn, CaseNode):
+                    ac = cn.parent._active_case(self.value)
+                    if (ac is not cn if ac else
+                            cn.qual_name != cn.parent.default_case):
+                        return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
         for mn in wd._member_names():
-- 
2.43.0


From d7acf95c5ac8f97a409e309ac63e6e33370d6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 41/79] fix: instance identifiers may refer to default nodes in
 use

---
 yangson/datatype.py | 20 +++++++++++++++++---
 yangson/instance.py | 42 ++++++++++++++++++++++++++----------------
 2 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 525e180..debbc61 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -55,9 +55,10 @@ from typing import (Any, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, MissingModuleNamespace, NonexistentInstance,
+    XPathTypeError)
 from .schemadata import SchemaContext
-from .instance import InstanceNode, InstanceIdParser
+from .instance import InstanceNode, InstanceIdParser, MemberName
 from .instroute import InstanceRoute
 from .nodeset import NodeSet
 from .statement import Statement
@@ -747,7 +748,20 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+        inst = node.top()
+        for sel in cast(InstanceRoute, node.value):
+            try:
+                inst = sel.goto_step(inst)
+            except NonexistentInstance:
+                # perhaps it exists by default
+                if not isinstance(sel, MemberName):
+                    raise
+                m = inst._default_member(
+                    (sel.name, sel.namespace or inst.namespace))
+                if m is None:
+                    raise
+                inst = m
+        return [inst]
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/instance.py b/yangson/instance.py
index 29e19db..aa53757 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -674,28 +674,38 @@ class InstanceNode:
             if cn is None:
                 return []
             iname = cn.iname()
-            if iname in self.value:
-                return self._member(iname)._node_set()
-            wd = cn._default_instance(self, ContentType.all, lazy=True)
-            if iname not in wd.value:
-                return []
-            while True:
-                cn = cn.parent
-                if cn is sn:
-                    return wd._member(iname)._node_set()
-                if cn.when and not cn.when.evaluate(self):
-                    return []
-                if isinstance(cn, CaseNode):
-                    ac = cn.parent._active_case(self.value)
-                    if (ac is not cn if ac else
-                            cn.qual_name != cn.parent.default_case):
-                        return []
+            m = (self._member(iname) if iname in self.value
+                 else self._default_member(qname))
+            return [] if m is None else m._node_set()
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
         for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
+    def _default_member(self, qname: QualName) -> Optional["InstanceNode"]:
+        """Return receiver's member that exists only by default, if any."""
+        sn = self.schema_node
+        cn = (sn.get_data_child(*qname) if isinstance(sn, InternalNode)
+              else None)
+        if cn is None:
+            return None
+        iname = cn.iname()
+        wd = cn._default_instance(self, ContentType.all, lazy=True)
+        if iname not in wd.value:
+            return None
+        while True:
+            cn = cn.parent
+            if cn is sn:
+                return wd._member(iname)
+            if cn.when and not cn.when.evaluate(self):
+                return None
+            if isinstance(cn, CaseNode):
+                ac = cn.parent._active_case(self.value)
+                if (ac is not cn if ac else
+                        cn.qual_name != cn.parent.default_case):
+                    return None
+
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-- 
2.43.0


From 338f2a5a3f5c0aa118eec6b7340df75bfc98860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 42/79] fix: report unqualified XML elements at the top level
 as unknown members

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 31e98d2..e4f8b08 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -590,6 +590,8 @@ class InternalNode(SchemaNode):
         else:
             name = xmlchild.tag
             ns = self.ns
+            if ns is None:
+                raise RawMemberError(jptr + "/" + name)
             fqn = ns + ':' + name
         qn = fqn if ns != self.ns else name
 
-- 
2.43.0


From 792d2023c7c2acd273e8a91b95dff425a507c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 43/79] fix: anydata and anyxml in XML are refused as data
 errors

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e4f8b08..66f8bf3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1710,7 +1710,9 @@ class AnyContentNode(DataNode):
         return convert(value)
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        super().from_xml(rval, jptr)
+        """Override the superclass method (the content is not decodable)."""
+        raise RawTypeError(jptr, "JSON encoding of " + (
+            "anydata" if isinstance(self, AnydataNode) else "anyxml"))
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
                           lazy: bool = False) -> InstanceNode:
-- 
2.43.0


From 0c3ab050d08ddee954b6ea3d073ff42948831617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 44/79] fix: leafs with child elements are not accepted

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 66f8bf3..36facd4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1069,7 +1069,7 @@ class TerminalNode(SchemaNode):
         return res
 
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "") -> Value:
-        res = self.type.from_xml(rval)
+        res = None if len(rval) else self.type.from_xml(rval)
         if res is None:
             raise RawTypeError(jptr, self.type.yang_type() + " value")
         return res
-- 
2.43.0


From 1ff0d304ca9ea692757ecab81b3dc5a55fba6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 45/79] fix: errors in raw data name the list entry

---
 yangson/schemanode.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 36facd4..bf69d36 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1276,7 +1276,7 @@ class SequenceNode(DataNode):
         res = ArrayValue()
         idx = 0
         for i in range(len(rval)):
-            if isinstance(self, ListNode):
+            if isinstance(self, ListNode) and self.keys:
                 try:
                     keys = [str(rval[i].get(k[0], '<missing>'))
                             for k in self.keys]
@@ -1292,20 +1292,11 @@ class SequenceNode(DataNode):
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "",
                  tagname: str = None, isroot: bool = False) -> ArrayValue:
         res = ArrayValue()
-        idx = 0
         if isroot:
             return self._process_xmlarray_child(res, rval, None, jptr)
         else:
             for xmlchild in rval:
-                if isinstance(self, ListNode):
-                    keys = [str(xmlchild.findtext(
-                        k[0], default='<missing>')) for k in self.keys]
-                    element = "=" + ",".join(keys)
-                else:
-                    element = "/" + str(idx)
-                self._process_xmlarray_child(
-                    res, xmlchild, tagname, jptr + element)
-                idx = idx + 1
+                self._process_xmlarray_child(res, xmlchild, tagname, jptr)
         return res
 
     def _process_xmlarray_child(
@@ -1322,7 +1313,14 @@ class SequenceNode(DataNode):
             name = qn = xmlchild.tag
             ns = self.ns
         if tagname is None or qn == tagname:
-            child = self.entry_from_xml(xmlchild, jptr + "/" + str(len(res)))
+            if isinstance(self, ListNode) and self.keys:
+                xns = xmlchild.tag[:-len(name)]
+                keys = [xmlchild.findtext(xns + k[0], default='<missing>')
+                        for k in self.keys]
+                element = "=" + ",".join(keys)
+            else:
+                element = "/" + str(len(res))
+            child = self.entry_from_xml(xmlchild, jptr + element)
             res.append(child)
         else:
             child = None
-- 
2.43.0


From ea445737b77a4558505449723bf4173af39a16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 46/79] fix: unqualified XML entries of lists are not lost

---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bf69d36..bee5613 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1310,8 +1310,10 @@ class SequenceNode(DataNode):
             ns = module.yang_id[0]
             qn = ns + ':' + name
         else:
-            name = qn = xmlchild.tag
-            ns = self.ns
+            name = xmlchild.tag
+            dp = self.data_parent()
+            ns = dp.ns if dp else self.ns
+            qn = ns + ':' + name
         if tagname is None or qn == tagname:
             if isinstance(self, ListNode) and self.keys:
                 xns = xmlchild.tag[:-len(name)]
-- 
2.43.0


From 5e533d7d4f441f923e4c9932ea53f3458293ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 47/79] fix: parameters of operations are not members of their
 parent

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bee5613..9c52a3c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -506,8 +506,9 @@ class InternalNode(SchemaNode):
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
-                todo.insert(0, child)
-            elif not isinstance(child, DataNode):
+                if not isinstance(child, SchemaTreeNode):
+                    todo.insert(0, child)
+            elif not isinstance(child, (DataNode, SchemaTreeNode)):
                 todo.append(child)
         for c in todo:
             res = c.get_data_child(name, ns)
-- 
2.43.0


From c737503ea87a7ecb026b600d39e06e732fd616b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 48/79] fix: output of anydata content with a member that looks
 like an annotation

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index aa53757..95df1a0 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -468,7 +468,7 @@ class InstanceNode:
                 continue
 
             if (m[0] != '@' and isinstance(self.value[m], ObjectValue)
-                    and '@' in self.value[m]):
+                    and isinstance(self.value[m].get('@'), ObjectValue)):
                 attr[m] = self.value[m]['@']
             elif m[0] == '@':
                 attr[m[1:]] = self.value[m]
-- 
2.43.0


From 75a8a0957883a4df827dd5e3f89fa3a4c1b6c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 49/79] fix: raw values can be put into arrays within anydata

---
 yangson/instance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 95df1a0..9e32894 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -969,8 +969,10 @@ class ArrayEntry(InstanceNode):
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-        return super(SequenceNode, self.schema_node).from_raw(
-            value, self.json_pointer()) if raw else value
+        if isinstance(self.schema_node, SequenceNode):
+            return super(SequenceNode, self.schema_node).from_raw(
+                value, self.json_pointer()) if raw else value
+        return super()._cook_value(value, raw)
 
     def _zip(self) -> ArrayValue:
         """Zip the receiver into an array and return it."""
-- 
2.43.0


From 70ee1b548a554fd8ecccf3e7f161c532d8ba294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 50/79] fix: annotations follow the canonical name of their
 target

---
 yangson/schemanode.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 9c52a3c..075b755 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -545,12 +545,18 @@ class InternalNode(SchemaNode):
         for qn in rval:
             if qn.startswith("@"):
                 tptr = jptr
+                aname = qn
                 if qn != "@":
                     tgt = qn[1:]
                     if tgt not in rval:
                         raise MissingAnnotationTarget(jptr, tgt)
                     tptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], tptr)
+                    ch = self.get_data_child(*self._iname2qname(tgt))
+                    if ch:
+                        aname = "@" + (
+                            ch.name if jptr != "" and self.ns == ch.ns
+                            else '{1}:{0}'.format(*ch.qual_name))
+                res[aname] = self._process_metadata(rval[qn], tptr)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
-- 
2.43.0


From a467432429196d8eefdaaf8b9fffb23ef0645d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:59 +0000
Subject: [PATCH 51/79] fix: XML encoding of notifications and of empty
 operations

---
 yangson/instance.py   | 8 +++++++-
 yangson/schemanode.py | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 9e32894..def4e79 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -767,10 +767,16 @@ class RootNode(InstanceNode):
             tag: str = "content-data",
             urn: str = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"):
         """put receiver's value into a XML element"""
+        if isinstance(self.schema_node, NotificationNode):
+            tag = self.schema_node.name
+            urn = self.schema_data.modules_by_name[
+                self.schema_node.ns].xml_namespace
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
+        if isinstance(self.schema_node, RpcActionNode):
+            if len(et) == 0:
+                raise InstanceValueError(self, "neither input nor output")
             return et[0]
         return et
 
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 075b755..fcce9f7 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -611,7 +611,8 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
+        if (rval is not None and self.ns == ch.ns
+                and not isinstance(self, NotificationNode)):
             iname = ch.name
         else:
             iname = '{1}:{0}'.format(*ch.qual_name)
-- 
2.43.0


From 21b6a895f7f28018083440e2306f2cd3a09cc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:58 +0000
Subject: [PATCH 52/79] fix: conversion of values to numbers in XPath does not
 fail

---
 yangson/nodeset.py  | 22 +++++++++++++++-------
 yangson/xpathast.py | 18 ++++++++++--------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..5a77334 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -26,6 +26,14 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
+def to_float(val: Union[str, Number]) -> float:
+    """Convert `val` to a floating point number, possibly infinite."""
+    try:
+        return float(val)
+    except OverflowError:
+        return float("inf") if val > 0 else float("-inf")
+
+
 def comparison(meth):
     def wrap(self, arg):
         if isinstance(arg, NodeSet):
@@ -50,7 +58,7 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return (to_float(self[0].value) if self else float("nan"))
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
@@ -64,7 +72,7 @@ class NodeSet(list):
                 if str(n) == val:
                     return True
             elif isinstance(n.value, Number):
-                if float(n.value) == val:
+                if to_float(n.value) == val:
                     return True
             elif n.value == val:
                 return True
@@ -79,7 +87,7 @@ class NodeSet(list):
                 if str(n) != val:
                     return True
             elif isinstance(n.value, Number):
-                if float(n.value) != val:
+                if to_float(n.value) != val:
                     return True
             elif n.value != val:
                 return True
@@ -93,7 +101,7 @@ class NodeSet(list):
             return False
         for n in self:
             try:
-                if float(n.value) > val:
+                if to_float(n.value) > val:
                     return True
             except (ValueError, TypeError):
                 continue
@@ -107,7 +115,7 @@ class NodeSet(list):
             return False
         for n in self:
             try:
-                if float(n.value) < val:
+                if to_float(n.value) < val:
                     return True
             except (ValueError, TypeError):
                 continue
@@ -121,7 +129,7 @@ class NodeSet(list):
             return False
         for n in self:
             try:
-                if float(n.value) >= val:
+                if to_float(n.value) >= val:
                     return True
             except (ValueError, TypeError):
                 continue
@@ -135,7 +143,7 @@ class NodeSet(list):
             return False
         for n in self:
             try:
-                if float(n.value) <= val:
+                if to_float(n.value) <= val:
                     return True
             except (ValueError, TypeError):
                 continue
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..979f673 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -35,7 +35,7 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import NodeExpr, NodeSet, XPathValue, to_float
 from .typealiases import QualName
 
 
@@ -78,7 +78,7 @@ class Expr:
         val = self._eval(xctx)
         try:
             return float(val)
-        except ValueError:
+        except (ValueError, TypeError):
             return float('nan')
 
     def _eval_string(self, xctx: XPathContext) -> str:
@@ -551,7 +551,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        res = self.expr._eval_float(xctx)
+        return float(ceil(res)) if isfinite(res) else res
 
 
 class FuncConcat(Expr):
@@ -660,7 +661,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        res = self.expr._eval_float(xctx)
+        return float(floor(res)) if isfinite(res) else res
 
 
 class FuncLast(Expr):
@@ -722,8 +724,8 @@ class FuncNumber(UnaryExpr):
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
             try:
-                return float(xctx.cnode.value)
-            except ValueError:
+                return to_float(xctx.cnode.value)
+            except (ValueError, TypeError):
                 return float('nan')
         return self.expr._eval_float(xctx)
 
@@ -837,7 +839,7 @@ class FuncSum(UnaryExpr):
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
         try:
-            return float(sum([n.value for n in ns]))
+            return to_float(sum([n.value for n in ns]))
         except TypeError:
             return float('nan')
 
-- 
2.43.0


From 89a106a4953e79ac4448db3e6e4eeb1b02f1cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 53/79] fix: member names with an empty module name are unknown

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index fcce9f7..6c4b2ab 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -498,7 +498,7 @@ class InternalNode(SchemaNode):
     def get_data_child(self, name: YangIdentifier,
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
-        ns = ns if ns else self.ns
+        ns = self.ns if ns is None else ns
         if ns is None:
             return None
         todo = []
-- 
2.43.0


From 0bd55eea4ad8a7670aa01b7a39dbaa3d611c0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 54/79] fix: type errors in string values do not report an
 earlier check

---
 yangson/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index def4e79..fb1e841 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -127,6 +127,7 @@ class InstanceNode:
         else:
             res = sn.type.canonical_string(self.value)
             if res is None:
+                sn.type.__contains__(self.value)    # sets the error info
                 raise YangTypeError(self, sn.type.error_tag,
                                     sn.type.error_message)
             return res
-- 
2.43.0


From a9c5298856951b204d6f26cee96a9d5a30684dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 55/79] fix: containers are mandatory for the content types of
 their mandatory descendants

---
 yangson/schemanode.py | 26 +++++++++++++++++++-------
 yangson/schpattern.py | 27 +++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6c4b2ab..5723d1b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -124,6 +124,11 @@ class SchemaNode:
         """Is the receiver mandatory node in a configuration?"""
         return self.mandatory and self.config
 
+    @property
+    def mandatory_nonconfig(self) -> bool:
+        """Is the receiver mandatory node in state data?"""
+        return self.mandatory and not self.config
+
     @property
     def status(self) -> NodeStatus:
         """Return receiver's definition status."""
@@ -718,7 +723,7 @@ class InternalNode(SchemaNode):
         """Add `node` to the set of mandatory children."""
         if node.mandatory_config:
             self._mandatory_children[1].add(node)
-        else:
+        if node.mandatory_nonconfig:
             self._mandatory_children[0].add(node)
 
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
@@ -1162,15 +1167,21 @@ class ContainerNode(DataNode, InternalNode):
         """Override the superclass property."""
         return bool(self._mandatory_children[1])
 
+    @property
+    def mandatory_nonconfig(self) -> bool:
+        """Override the superclass property."""
+        return bool(self._mandatory_children[0])
+
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
         res["presence"] = self.presence
         return res
 
     def _add_mandatory_child(self, node: SchemaNode):
-        propagate = not (self.presence or self.mandatory)
+        before = self.mandatory_config, self.mandatory_nonconfig
         super()._add_mandatory_child(node)
-        if propagate:
+        if not self.presence and before != (
+                self.mandatory_config, self.mandatory_nonconfig):
             self.parent._add_mandatory_child(self)
 
     def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
@@ -1188,11 +1199,12 @@ class ContainerNode(DataNode, InternalNode):
         m = Member(self.iname(), self.content_type(), self.when)
         if self._status == NodeStatus.deprecated:
             return SchemaPattern.optional(m)
-        if self.mandatory:
-            return (m if self.mandatory_config else
-                    SchemaPattern.optional_config(m))
-        else:
+        if not self.mandatory:
             return SchemaPattern.optional(m)
+        if not self.mandatory_config:
+            return SchemaPattern.optional_config(m)
+        return (m if self.mandatory_nonconfig else
+                SchemaPattern.optional_nonconfig(m))
 
     def _presence_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         self.presence = True
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index ae9a8ee..c5ea7eb 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -38,6 +38,11 @@ class SchemaPattern:
         """Make `p` an optional in configuration."""
         return Alternative.combine(EmptyConfig(), p)
 
+    @staticmethod
+    def optional_nonconfig(p: "SchemaPattern") -> "SchemaPattern":
+        """Make `p` an optional in state data."""
+        return Alternative.combine(EmptyNonconfig(), p)
+
     def nullable(self, ctype: ContentType) -> bool:
         """Return ``True`` the receiver is nullable."""
         return False
@@ -107,6 +112,28 @@ class EmptyConfig(SchemaPattern, metaclass=_Singleton):
         return [] if ctype.value & ContentType.nonconfig.value else None
 
 
+class EmptyNonconfig(SchemaPattern, metaclass=_Singleton):
+    """A pattern empty in state data, not allowed otherwise."""
+
+    def nullable(self, ctype: ContentType) -> bool:
+        """Override the superclass method."""
+        return ctype == ContentType.nonconfig
+
+    def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
+        """Return derivative of the receiver."""
+        return NotAllowed()
+
+    def tree(self, indent: int = 0):
+        return " " * indent + "EmptyNonconfig"
+
+    def __str__(self) -> str:
+        return "EmptyNonconfig"
+
+    def _mandatory_members(
+            self, ctype: ContentType) -> Optional[list[InstanceName]]:
+        return [] if ctype.value & ContentType.config.value else None
+
+
 class NotAllowed(SchemaPattern, metaclass=_Singleton):
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
-- 
2.43.0


From b64de9d81207b466f029593e86a9d63d17ad3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:17 +0000
Subject: [PATCH 56/79] fix: a mandatory choice with a single case is mandatory

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5723d1b..1b10d95 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1537,8 +1537,8 @@ class ChoiceNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         if not self.children:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        for c in self.children[1:]:
+        prev = NotAllowed()
+        for c in self.children:
             prev = ChoicePattern(c._schema_pattern(), prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
-- 
2.43.0


From 84ff465776ba035480ac37865681b157234456fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 57/79] fix: a slash may end an unquoted argument

---
 yangson/statement.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..9576b99 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -355,19 +355,16 @@ class ModuleParser(Parser):
             EndOfInput: If past the end of input.
         """
         start = self.offset
+        end = {c: lambda: -1 for c in "; \t\r\n{"}
         self.dfa([
             {  # state 0: argument
                 "": lambda: 0,
-                ";": lambda: -1,
-                " ": lambda: -1,
-                "\t": lambda: -1,
-                "\r": lambda: -1,
-                "\n": lambda: -1,
-                "{": lambda: -1,
+                **end,
                 '/': lambda: 1
             },
             {  # state 1: comment?
                 "": lambda: 0,
+                **end,
                 "/": self._back_break,
                 "*": self._back_break
             }])
-- 
2.43.0


From 35a6a3579b1e510c80987f58e00779b15f340a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 58/79] fix: qualified names of members in put_member

---
 yangson/instance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index fb1e841..5265ac0 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -210,6 +210,9 @@ class InstanceNode:
         if not isinstance(self.value, ObjectValue):
             raise InstanceValueError(self, "member of non-object")
         csn = self._member_schema_node(name)
+        pts = name.partition(":")
+        if pts[1] and pts[0] == self.namespace:
+            name = pts[2]
         newval = self.value.copy()
         newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
                         else value)
-- 
2.43.0


From a6f18d4c96b407f16e87b1271a89dab342f87024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 59/79] fix: output filters do not modify the annotations of an
 instance

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 5265ac0..31b45bd 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -487,7 +487,7 @@ class InstanceNode:
             attr = self._get_attributes()
             for m in self.value:
                 if m[0] != '@':
-                    m_attr = attr.get(m, {})
+                    m_attr = attr.get(m, {}).copy()
                     member = self[m]
                     add1 = filter.begin_member(self, member, m_attr)
                     if add1:
@@ -507,7 +507,7 @@ class InstanceNode:
             value = list()
             for en in self:
                 if isinstance(en.value, ObjectValue) and '@' in en.value:
-                    e_attr = en.value['@']
+                    e_attr = en.value['@'].copy()
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
-- 
2.43.0


From b2f2d18568d2b65230061007b2d851af2a36ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 60/79] fix: add_defaults does not modify annotations of the
 receiver

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 31b45bd..142701e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -459,7 +459,7 @@ class InstanceNode:
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue[key]['@'] = metadata
                 else:
-                    metadata = objvalue.get('@'+key, ObjectValue())
+                    metadata = objvalue.get('@'+key, ObjectValue()).copy()
                     metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue['@'+key] = metadata
 
-- 
2.43.0


From 8c3aa9f746dc302abbee3045949b81ffbb83f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 61/79] fix: cases added by an augment with a condition exclude
 each other

---
 yangson/instance.py   |  7 +++++--
 yangson/schemanode.py | 42 +++++++++++++++++++++++++-----------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 142701e..c71dbc5 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -705,9 +705,12 @@ class InstanceNode:
             if cn.when and not cn.when.evaluate(self):
                 return None
             if isinstance(cn, CaseNode):
-                ac = cn.parent._active_case(self.value)
+                ch = cn.parent
+                while not isinstance(ch, ChoiceNode):
+                    ch = ch.parent
+                ac = ch._active_case(self.value)
                 if (ac is not cn if ac else
-                        cn.qual_name != cn.parent.default_case):
+                        cn.qual_name != ch.default_case):
                     return None
 
     def _descendants(self, qname: Union[QualName, bool] = None,
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1b10d95..3094dd7 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1512,34 +1512,42 @@ class ChoiceNode(InternalNode):
                       ctype: Optional[ContentType]) -> InstanceNode:
         if self.when and not self.when.evaluate(inst):
             return inst
-        ac = self._active_case(inst.value)
-        if ac:
-            if ac.when and not ac.when.evaluate(inst):
-                return inst
-            return ac._add_defaults(inst, ctype)
-        elif self.default_case:
-            n = dc = self.get_child(*self.default_case)
-            while n is not self:
-                if n.when and not n.when.evaluate(inst):
-                    return inst
-                n = n.parent
-            return dc._add_defaults(inst, ctype)
-        else:
+        case = self._active_case(inst.value)
+        if case is None and self.default_case:
+            case = self.get_child(*self.default_case)
+        if case is None:
             return inst
+        n = case
+        while n is not self:
+            if n.when and not n.when.evaluate(inst):
+                return inst
+            n = n.parent
+        return case._add_defaults(inst, ctype)
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
+        for c in self._cases():
             for cc in c.data_children():
                 if cc.iname() in value:
                     return c
 
+    def _cases(self) -> list["CaseNode"]:
+        """Return receiver's cases, including those in (augment) groups."""
+        return [cn for c in self.children for cn in c._flatten()]
+
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        cases = self._cases()
+        if not cases:
             return Empty()
         prev = NotAllowed()
-        for c in self.children:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
+        for c in cases:
+            cp = c._schema_pattern()
+            gr = c.parent
+            while gr is not self:
+                if gr.when:
+                    cp = ConditionalPattern(cp, gr.when)
+                gr = gr.parent
+            prev = ChoicePattern(cp, prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
-- 
2.43.0


From 6e21ec44df99a6fe4f9e26e20ea85fb11704ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 62/79] fix: refined defaults of a leaf-list replace the
 original ones

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 3094dd7..0efe3fa 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -793,6 +793,8 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 6734e43d8c28958e76f8853ca6626a4f6e616002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 63/79] fix: deviate delete finds defaults, unique and must
 statements

---
 yangson/schemanode.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 0efe3fa..32d1ec4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -356,7 +356,8 @@ class SchemaNode:
                 self.must = []
             self._must_stmt(stmt, sctx)
         elif action == "delete":
-            mstr = str(XPathParser(stmt.argument, sctx).parse())
+            mctx = SchemaContext(sctx.schema_data, self.ns, sctx.text_mid)
+            mstr = str(XPathParser(stmt.argument, mctx).parse())
             for i in range(len(self.must)):
                 if str(self.must[i].expression) == mstr:
                     del self.must[i]
@@ -1473,9 +1474,10 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uctx = SchemaContext(sctx.schema_data, self.ns, sctx.text_mid)
+            uniq = [str(x) for x in self._parse_unique(stmt, uctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [str(x) for x in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
@@ -1681,11 +1683,10 @@ class LeafListNode(SequenceNode, TerminalNode):
                 self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
-                    return
+            if stmt.argument in (self._default or ()):
+                self._default.remove(stmt.argument)
+                if not self._default:
+                    self._default = None
 
     def _post_process(self) -> None:
         super()._post_process()
-- 
2.43.0


From 1c6760cc97b056ac7037902a3f3726c9a67b17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 64/79] fix: config true in refine and deviate statements takes
 effect

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 32d1ec4..842e5ef 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -317,8 +317,8 @@ class SchemaNode:
         pass
 
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        if stmt.argument == "false":
-            self._ctype = ContentType.nonconfig
+        self._ctype = (ContentType.nonconfig if stmt.argument == "false"
+                       else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
-- 
2.43.0


From 6e3f8da3fc9016f608249a441c1b54b7605ec108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 65/79] fix: unprefixed default case in a deviation belongs to
 the choice

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 842e5ef..55ffc8f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1578,8 +1578,8 @@ class ChoiceNode(InternalNode):
             cn._handle_child(node, stmt, sctx)
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        self.default_case = sctx.schema_data.translate_node_id(
-            stmt.argument, sctx)
+        name, ns = sctx.schema_data.translate_node_id(stmt.argument, sctx)
+        self.default_case = (name, ns if ":" in stmt.argument else self.ns)
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
-- 
2.43.0


From 8fbf050cc06bcf67674d2bebe76bdb6ba1a2b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 66/79] fix: must statements of notifications are checked

---
 yangson/schemanode.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 55ffc8f..d24e286 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -263,6 +263,11 @@ class SchemaNode:
         """
         self.val_count += 1
 
+    def _check_must(self, inst: InstanceNode) -> None:
+        for m in self.must:
+            if not m.expression.evaluate(inst):
+                raise SemanticError(inst, m.error_tag, m.error_message)
+
     def _iname2qname(self, iname: InstanceName) -> QualName:
         """Translate instance name to qualified name in the receiver's context.
         """
@@ -768,7 +773,7 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return False
-        if stmt.find1("when"):
+        if stmt.find1("when") or stmt.find1("status"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
@@ -1038,11 +1043,6 @@ class DataNode(SchemaNode):
                 return wd.up()
         return pnode
 
-    def _check_must(self, inst: InstanceNode) -> None:
-        for m in self.must:
-            if not m.expression.evaluate(inst):
-                raise SemanticError(inst, m.error_tag, m.error_message)
-
     def _pattern_entry(self) -> SchemaPattern:
         m = Member(self.iname(), self.content_type(), self.when)
         return m if (self.mandatory and self._status !=
@@ -1871,6 +1871,13 @@ class NotificationNode(SchemaTreeNode):
         self.default_deny: DefaultDeny = DefaultDeny.none
         self._ctype = ContentType.nonconfig
 
+    def _validate(self, inst: InstanceNode, scope: ValidationScope,
+                  ctype: ContentType) -> None:
+        """Extend the superclass method."""
+        if scope.value & ValidationScope.semantics.value:
+            self._check_must(inst)
+        super()._validate(inst, scope, ctype)
+
     def _flatten(self) -> list[SchemaNode]:
         return [self]
 
-- 
2.43.0


From e01d1c3f5f57147434c5d7aa8fffc2acb8e4bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 67/79] fix: status of augments and groupings applies to their
 definitions

---
 yangson/instance.py   |  4 +++-
 yangson/schemanode.py | 29 +++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c71dbc5..eb488fe 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -37,7 +37,7 @@ from datetime import datetime
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
-from .enumerations import ContentType, ValidationScope
+from .enumerations import ContentType, NodeStatus, ValidationScope
 from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          InstanceValueError, InvalidKeyValue,
                          MissingModuleNamespace, NonexistentInstance,
@@ -699,6 +699,8 @@ class InstanceNode:
         if iname not in wd.value:
             return None
         while True:
+            if cn._status == NodeStatus.obsolete:
+                return None
             cn = cn.parent
             if cn is sn:
                 return wd._member(iname)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d24e286..5a5cf2c 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -287,6 +287,8 @@ class SchemaNode:
                     + ":" + s.keyword)
             else:
                 key = s.keyword
+            if key == "status" and stmt.keyword in ("augment", "grouping"):
+                continue
             mname = SchemaNode._stmt_callback.get(key, "_noop")
             method = getattr(self, mname)
             method(s, sctx)
@@ -727,6 +729,8 @@ class InternalNode(SchemaNode):
 
     def _add_mandatory_child(self, node: SchemaNode) -> None:
         """Add `node` to the set of mandatory children."""
+        if node._status in (NodeStatus.deprecated, NodeStatus.obsolete):
+            return
         if node.mandatory_config:
             self._mandatory_children[1].add(node)
         if node.mandatory_nonconfig:
@@ -735,6 +739,8 @@ class InternalNode(SchemaNode):
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         for c in self.filter_children(ctype):
+            if c._status == NodeStatus.obsolete:
+                continue
             if isinstance(c, DataNode):
                 inst = c._default_instance(inst, ctype, lazy)
             elif not isinstance(c, (RpcActionNode, NotificationNode)):
@@ -773,13 +779,27 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return False
-        if stmt.find1("when") or stmt.find1("status"):
+        if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
-        target._handle_substatements(stmt, sctx)
+        target._handle_definitions(stmt, sctx)
         return True
 
+    def _handle_definitions(self, stmt: Statement,
+                            sctx: SchemaContext) -> None:
+        """Handle definitions in an **augment** or **grouping** statement.
+
+        The status of `stmt` applies to its definitions, not to the receiver.
+        """
+        defined = len(self.children)
+        self._handle_substatements(stmt, sctx)
+        status = stmt.find1("status")
+        if status:
+            for c in self.children[defined:]:
+                if c._status is None:
+                    c._status_stmt(status, sctx)
+
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
         """Handle **deviation** statement."""
@@ -819,7 +839,7 @@ class InternalNode(SchemaNode):
             self._add_child(sn)
         else:
             sn = self
-        sn._handle_substatements(grp, gid)
+        sn._handle_definitions(grp, gid)
         for augst in stmt.find_all("augment"):
             sn._augment_stmt(augst, sctx)
         for refst in stmt.find_all("refine"):
@@ -1537,7 +1557,8 @@ class ChoiceNode(InternalNode):
 
     def _cases(self) -> list["CaseNode"]:
         """Return receiver's cases, including those in (augment) groups."""
-        return [cn for c in self.children for cn in c._flatten()]
+        return [cn for c in self.children for cn in c._flatten()
+                if NodeStatus.obsolete not in (c._status, cn._status)]
 
     def _pattern_entry(self) -> SchemaPattern:
         cases = self._cases()
-- 
2.43.0


From 2a1546e4a9101ce5c852d6346656feb7ed5af426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 68/79] fix: XPath comparisons convert their operands as XPath
 1.0 says

---
 yangson/nodeset.py  | 148 ++++++++++++++++----------------------------
 yangson/xpathast.py |  28 ++++-----
 2 files changed, 65 insertions(+), 111 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 5a77334..51c8794 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,8 +16,11 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
-from typing import Callable, Union
+import operator
+import re
+from math import isnan
 from numbers import Number
+from typing import Callable, Union
 from .instance import InstanceNode
 
 # Type aliases
@@ -26,25 +29,50 @@ NodeExpr = Callable[[InstanceNode], "NodeSet"]
 XPathValue = Union["NodeSet", str, float, bool]
 
 
-def to_float(val: Union[str, Number]) -> float:
-    """Convert `val` to a floating point number, possibly infinite."""
+_NUMBER = re.compile(r"[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*")
+"""Strings that the XPath function number() converts to a number."""
+
+
+def to_number(val: XPathValue) -> float:
+    """Convert `val` as the XPath function number() does."""
+    if isinstance(val, NodeSet):
+        return node_number(val[0]) if val else float("nan")
+    if isinstance(val, str):
+        m = _NUMBER.fullmatch(val)
+        return float(m.group(1)) if m else float("nan")
     try:
         return float(val)
     except OverflowError:
         return float("inf") if val > 0 else float("-inf")
 
 
-def comparison(meth):
-    def wrap(self, arg):
-        if isinstance(arg, NodeSet):
-            for n in arg:
-                if n.is_internal():
-                    continue
-                if meth(self, str(n)):
-                    return True
-            return False
-        return meth(self, arg)
-    return wrap
+def node_number(node: InstanceNode) -> float:
+    """Convert the value of `node` to a number."""
+    return to_number(node.value if isinstance(node.value, Number)
+                     else str(node))
+
+
+def to_boolean(val: XPathValue) -> bool:
+    """Convert `val` as the XPath function boolean() does."""
+    return bool(val) and not (isinstance(val, float) and isnan(val))
+
+
+def compare(left: XPathValue, right: XPathValue,
+            op: Callable[[XPathValue, XPathValue], bool]) -> bool:
+    """Compare two XPath values using `op` (see XPath 1.0, section 3.4)."""
+    if isinstance(left, bool) or isinstance(right, bool):
+        left, right = to_boolean(left), to_boolean(right)
+    numeric = (op not in (operator.eq, operator.ne) or
+               isinstance(left, Number) or isinstance(right, Number))
+    lvals, rvals = [_operands(v, numeric) for v in (left, right)]
+    return any(op(lv, rv) for lv in lvals for rv in rvals)
+
+
+def _operands(val: XPathValue, numeric: bool) -> list[XPathValue]:
+    if isinstance(val, NodeSet):
+        conv = node_number if numeric else str
+        return [conv(n) for n in val if not n.is_internal()]
+    return [to_number(val) if numeric else val]
 
 
 class NodeSet(list):
@@ -58,93 +86,25 @@ class NodeSet(list):
             {m.path: m for n in self for m in trans(n)}.values())
 
     def __float__(self) -> float:
-        return (to_float(self[0].value) if self else float("nan"))
+        return to_number(self)
 
     def __str__(self) -> str:
         return str(self[0]) if self else ""
 
-    @comparison
     def __eq__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) == val:
-                    return True
-            elif isinstance(n.value, Number):
-                if to_float(n.value) == val:
-                    return True
-            elif n.value == val:
-                return True
-        return False
-
-    @comparison
+        return compare(self, val, operator.eq)
+
     def __ne__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) != val:
-                    return True
-            elif isinstance(n.value, Number):
-                if to_float(n.value) != val:
-                    return True
-            elif n.value != val:
-                return True
-        return False
-
-    @comparison
+        return compare(self, val, operator.ne)
+
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if to_float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(self, val, operator.gt)
+
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if to_float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(self, val, operator.lt)
+
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if to_float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return compare(self, val, operator.ge)
+
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if to_float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        return compare(self, val, operator.le)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 979f673..f7afcfb 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,6 +24,7 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 import decimal
+import operator
 from math import ceil, copysign, floor, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
@@ -35,7 +36,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue, to_float
+from .nodeset import (NodeExpr, NodeSet, XPathValue, compare, node_number,
+                      to_number)
 from .typealiases import QualName
 
 
@@ -75,11 +77,7 @@ class Expr:
         return self._eval(XPathContext(node, node, 1, 1))
 
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except (ValueError, TypeError):
-            return float('nan')
+        return to_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
         val = self._eval(xctx)
@@ -246,7 +244,7 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
-        return lres != rres if self.negate else lres == rres
+        return compare(lres, rres, operator.ne if self.negate else operator.eq)
 
 
 class RelationalExpr(BinaryExpr):
@@ -272,8 +270,10 @@ class RelationalExpr(BinaryExpr):
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
         if self.less:
-            return lres <= rres if self.equal else lres < rres
-        return lres >= rres if self.equal else lres > rres
+            return compare(lres, rres,
+                           operator.le if self.equal else operator.lt)
+        return compare(lres, rres,
+                       operator.ge if self.equal else operator.gt)
 
 
 class AdditiveExpr(BinaryExpr):
@@ -723,10 +723,7 @@ class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return to_float(xctx.cnode.value)
-            except (ValueError, TypeError):
-                return float('nan')
+            return node_number(xctx.cnode)
         return self.expr._eval_float(xctx)
 
 
@@ -838,10 +835,7 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return to_float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return float(sum([node_number(n) for n in ns]))
 
 
 class FuncTranslate(BinaryExpr):
-- 
2.43.0


From cf1db055fed5d7e519c038494021e62fd9f26882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 69/79] fix: positions in XPath predicates are relative to the
 context node

---
 yangson/xpathast.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index f7afcfb..da7f72a 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -37,7 +37,7 @@ from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
 from .nodeset import (NodeExpr, NodeSet, XPathValue, compare, node_number,
-                      to_number)
+                      to_boolean, to_number)
 from .typealiases import QualName
 
 
@@ -132,18 +132,15 @@ class Expr:
 
     def _apply_predicates(self, ns: XPathValue,
                           xctx: XPathContext) -> XPathValue:
+        if self.predicates and not isinstance(ns, NodeSet):
+            raise XPathTypeError(str(ns))
         for p in self.predicates:
             res = NodeSet([])
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else to_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -429,8 +426,8 @@ class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return lres.bind(
+            lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
@@ -523,7 +520,11 @@ class Step(Expr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
         ns = NodeSet(self._node_trans()(xctx.cnode))
-        return self._apply_predicates(ns, xctx)
+        res = self._apply_predicates(ns, xctx)
+        if self.axis in (Axis.ancestor, Axis.ancestor_or_self,
+                         Axis.preceding_sibling):
+            res = NodeSet(reversed(res))    # document order
+        return res
 
 
 class FuncBitIsSet(BinaryExpr):
@@ -733,7 +734,7 @@ class FuncPosition(Expr):
         return "position()"
 
     def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
-- 
2.43.0


From 387819262f34dfc05941636211a42f7e49db313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 70/79] fix: NaN is false in XPath conditions

---
 yangson/instance.py   |  2 +-
 yangson/schemanode.py | 10 +++++-----
 yangson/schpattern.py |  2 +-
 yangson/xpathast.py   | 21 ++++++++++++++-------
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index eb488fe..cfd3976 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -704,7 +704,7 @@ class InstanceNode:
             cn = cn.parent
             if cn is sn:
                 return wd._member(iname)
-            if cn.when and not cn.when.evaluate(self):
+            if cn.when and not cn.when.is_true(self):
                 return None
             if isinstance(cn, CaseNode):
                 ch = cn.parent
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5a5cf2c..fdf03ab 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -265,7 +265,7 @@ class SchemaNode:
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.is_true(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _iname2qname(self, iname: InstanceName) -> QualName:
@@ -952,7 +952,7 @@ class GroupNode(InternalNode):
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         """Extend the superclass method."""
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.is_true(inst):
             return inst
         return super()._add_defaults(inst, ctype, lazy)
 
@@ -1057,7 +1057,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.is_true(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -1534,7 +1534,7 @@ class ChoiceNode(InternalNode):
 
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.is_true(inst):
             return inst
         case = self._active_case(inst.value)
         if case is None and self.default_case:
@@ -1543,7 +1543,7 @@ class ChoiceNode(InternalNode):
             return inst
         n = case
         while n is not self:
-            if n.when and not n.when.evaluate(inst):
+            if n.when and not n.when.is_true(inst):
                 return inst
             n = n.parent
         return case._add_defaults(inst, ctype)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index c5ea7eb..3d306da 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -164,7 +164,7 @@ class Conditional(SchemaPattern):
 
     def _eval_when(self, cnode: "InstanceNode") -> "Conditional":
         res = copy(self)
-        res._val_when = bool(self.when.evaluate(cnode))
+        res._val_when = self.when.is_true(cnode)
         return res
 
     def _active(self, ctype: ContentType) -> bool:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index da7f72a..20aa5d1 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -76,6 +76,14 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def is_true(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver and convert the result to boolean.
+
+        Args:
+            node: Context node for XPath evaluation.
+        """
+        return to_boolean(self.evaluate(node))
+
     def _eval_float(self, xctx: XPathContext) -> float:
         return to_number(self._eval(xctx))
 
@@ -208,7 +216,8 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return (to_boolean(self.left._eval(xctx)) or
+                to_boolean(self.right._eval(xctx)))
 
 
 class AndExpr(BinaryExpr):
@@ -219,7 +228,8 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return (to_boolean(self.left._eval(xctx)) and
+                to_boolean(self.right._eval(xctx)))
 
 
 class EqualityExpr(BinaryExpr):
@@ -543,10 +553,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return to_boolean(self.expr._eval(xctx))
 
 
 class FuncCeiling(UnaryExpr):
@@ -717,7 +724,7 @@ class FuncNormalizeSpace(UnaryExpr):
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not to_boolean(self.expr._eval(xctx))
 
 
 class FuncNumber(UnaryExpr):
-- 
2.43.0


From ea0a1ea6c0c8574199121940ed1d4ca0bb67e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 71/79] fix: XPath mod, div, substring() and translate() as
 XPath 1.0 says

---
 yangson/xpathast.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 20aa5d1..d6ab064 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -25,7 +25,7 @@ class is intended to be public:
 """
 import decimal
 import operator
-from math import ceil, copysign, floor, isfinite, isnan
+from math import ceil, copysign, floor, fmod, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -330,11 +330,11 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
+                return (float("nan") if lres == 0.0 or isnan(lres)
                         else copysign(float('inf'), lres))
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
@@ -808,14 +808,14 @@ class FuncSubstring(BinaryExpr):
         string = self.left._eval_string(xctx)
         rres = self.right._eval_float(xctx)
         try:
-            start = round(rres) - 1
+            start = floor(rres + 0.5) - 1
         except (ValueError, OverflowError):
             return "" if self.length or rres != float("-inf") else string
         if self.length is None:
             return string[max(start, 0):]
         length = self.length._eval_float(xctx)
         try:
-            end = start + round(length)
+            end = max(start + floor(length + 0.5), 0)
         except (ValueError, OverflowError):
             return string[max(start, 0):] if length == float('inf') else ""
         return string[max(start, 0):end]
@@ -862,7 +862,8 @@ class FuncTranslate(BinaryExpr):
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
         new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
+        ttab = dict.fromkeys(map(ord, old))
+        ttab.update(reversed(list(zip(map(ord, old), new))))
         return string.translate(ttab)
 
 
-- 
2.43.0


From 20c4ad75d852e691f552ed8e4e8ee5e990faf7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 72/79] fix: parent axis of XPath with a name and at the root

---
 yangson/instance.py | 4 ++++
 yangson/xpathast.py | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index cfd3976..ca2bb34 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -805,6 +805,10 @@ class RootNode(InstanceNode):
         """XPath - return the list of receiver's ancestors."""
         return []
 
+    def _parent(self) -> list[InstanceNode]:
+        """XPath - the root node has no parent."""
+        return []
+
 
 class ObjectMember(InstanceNode):
     """This class represents an object member."""
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index d6ab064..4b71fa0 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -518,9 +518,9 @@ class Step(Expr):
                 lambda n, qn=self.qname: n._descendants(qn, True),
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
-            Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+            Axis.parent:
+                lambda n, qn=self.qname: [p for p in n._parent() if not qn or
+                                          p.qual_name == qn],
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
-- 
2.43.0


From 4e06becad7362bb4f98bcb2b3f561f72b3045d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 73/79] fix: XPath functions and operators with arguments of an
 unexpected kind

---
 yangson/datatype.py |  4 ++++
 yangson/xpathast.py | 15 ++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index debbc61..2e6f053 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -175,6 +175,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        """Return the list of nodes that the value of `node` refers to."""
+        return []
+
     def from_yang(self, text: str) -> S:
         """Parse value specified as default in a YANG module.
 
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 4b71fa0..8481ffe 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -366,6 +366,9 @@ class UnionExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
         lres, rres = self._eval_ops(xctx)
+        for res in (lres, rres):
+            if not isinstance(res, NodeSet):
+                raise XPathTypeError(str(res))
         return lres.union(rres)
 
 
@@ -609,8 +612,7 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        return NodeSet(ns[0]._deref() if ns else [])
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -636,7 +638,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
@@ -700,12 +702,11 @@ class FuncName(UnaryExpr):
             node = xctx.cnode
         else:
             ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
+            if not isinstance(ns, NodeSet):
                 raise XPathTypeError(str(ns))
-            except IndexError:
+            if not ns:
                 return ""
+            node = ns[0]
         if node.parinst is None:
             return ""
         if self.local:
-- 
2.43.0


From c3e0afe4f6483bb344d80ea1336e60351b21bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 74/79] fix: text after an XPath expression is an error, root
 may be an operand

---
 yangson/xpathparser.py | 44 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..984b73e 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -65,7 +65,10 @@ class XPathParser(Parser):
                 that isn't supported by the implementation.
         """
         self.skip_ws()
-        return self._or_expr()
+        res = self._or_expr()
+        if not self.at_end():
+            raise InvalidXPath(self)
+        return res
 
     def _or_expr(self) -> Expr:
         op1 = self._and_expr()
@@ -230,7 +233,7 @@ class XPathParser(Parser):
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
             self.skip_ws()
-            if self.at_end():
+            if self.at_end() or self.peek() in "=!<>|+-,)]":
                 return Root()
             op1 = LocationPath(Root(), self._step())
         else:
@@ -321,29 +324,34 @@ class XPathParser(Parser):
         self.skip_ws()
         return res
 
+    def _argument(self) -> Expr:
+        """Parse an argument of a function."""
+        self.skip_ws()
+        return self._or_expr()
+
     def _opt_arg(self) -> Optional[Expr]:
-        return None if self.peek() == ")" else self.parse()
+        return None if self.peek() == ")" else self._argument()
 
     def _two_args(self) -> tuple[Expr, Expr]:
-        fst = self.parse()
+        fst = self._argument()
         self.char(",")
         self.skip_ws()
-        return fst, self.parse()
+        return fst, self._argument()
 
     def _func_bit_is_set(self) -> FuncBitIsSet:
         return FuncBitIsSet(*self._two_args())
 
     def _func_boolean(self) -> FuncBoolean:
-        return FuncBoolean(self.parse())
+        return FuncBoolean(self._argument())
 
     def _func_ceiling(self) -> FuncCeiling:
-        return FuncCeiling(self.parse())
+        return FuncCeiling(self._argument())
 
     def _func_concat(self) -> FuncConcat:
-        res = [self.parse()]
+        res = [self._argument()]
         while self.test_string(","):
             self.skip_ws()
-            res.append(self.parse())
+            res.append(self._argument())
         if len(res) < 2:
             raise InvalidXPath(self)
         return FuncConcat(res)
@@ -352,13 +360,13 @@ class XPathParser(Parser):
         return FuncContains(*self._two_args())
 
     def _func_count(self) -> FuncCount:
-        return FuncCount(self.parse())
+        return FuncCount(self._argument())
 
     def _func_current(self) -> FuncCurrent:
         return FuncCurrent()
 
     def _func_deref(self) -> FuncDeref:
-        return FuncDeref(self.parse())
+        return FuncDeref(self._argument())
 
     def _func_derived_from(self) -> FuncDerivedFrom:
         return FuncDerivedFrom(*self._two_args(), False, self.sctx)
@@ -367,13 +375,13 @@ class XPathParser(Parser):
         return FuncDerivedFrom(*self._two_args(), True, self.sctx)
 
     def _func_enum_value(self) -> FuncEnumValue:
-        return FuncEnumValue(self.parse())
+        return FuncEnumValue(self._argument())
 
     def _func_false(self) -> FuncFalse:
         return FuncFalse()
 
     def _func_floor(self) -> FuncFloor:
-        return FuncFloor(self.parse())
+        return FuncFloor(self._argument())
 
     def _func_last(self) -> FuncLast:
         return FuncLast()
@@ -388,7 +396,7 @@ class XPathParser(Parser):
         return FuncNormalizeSpace(self._opt_arg())
 
     def _func_not(self) -> FuncNot:
-        return FuncNot(self.parse())
+        return FuncNot(self._argument())
 
     def _func_number(self) -> FuncNumber:
         return FuncNumber(self._opt_arg())
@@ -400,7 +408,7 @@ class XPathParser(Parser):
         return FuncReMatch(*self._two_args())
 
     def _func_round(self) -> FuncRound:
-        return FuncRound(self.parse())
+        return FuncRound(self._argument())
 
     def _func_starts_with(self) -> FuncStartsWith:
         return FuncStartsWith(*self._two_args())
@@ -415,7 +423,7 @@ class XPathParser(Parser):
         string, start = self._two_args()
         if self.test_string(","):
             self.skip_ws()
-            length = self.parse()
+            length = self._argument()
         else:
             length = None
         return FuncSubstring(string, start, length)
@@ -427,13 +435,13 @@ class XPathParser(Parser):
         return FuncSubstringBefore(*self._two_args())
 
     def _func_sum(self) -> FuncSum:
-        return FuncSum(self.parse())
+        return FuncSum(self._argument())
 
     def _func_translate(self) -> FuncTranslate:
         s1, s2 = self._two_args()
         self.char(",")
         self.skip_ws()
-        return FuncTranslate(s1, s2, self.parse())
+        return FuncTranslate(s1, s2, self._argument())
 
     def _func_true(self) -> FuncTrue:
         return FuncTrue()
-- 
2.43.0


From 59cb97052850e1a415f661e93eb79657234f51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 75/79] fix: name tests in XPath steps that start at the root

---
 yangson/instance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index ca2bb34..c7bbf35 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -763,6 +763,11 @@ class RootNode(InstanceNode):
         """Override the superclass property."""
         return None
 
+    @property
+    def qual_name(self) -> None:
+        """The root node has no name."""
+        return None
+
     def up(self) -> None:
         """Override the superclass method.
 
-- 
2.43.0


From 0ad26da53517fa1c519a4fdb060bfa801f62f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 76/79] fix: descendants of a filter expression in XPath

---
 yangson/xpathparser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 984b73e..450be7f 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -200,7 +200,8 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            self.skip_ws()
+            return PathExpr(fexpr, self._relative_path(self._step()))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -235,9 +236,10 @@ class XPathParser(Parser):
             self.skip_ws()
             if self.at_end() or self.peek() in "=!<>|+-,)]":
                 return Root()
-            op1 = LocationPath(Root(), self._step())
-        else:
-            op1 = self._step()
+            return self._relative_path(LocationPath(Root(), self._step()))
+        return self._relative_path(self._step())
+
+    def _relative_path(self, op1: Expr) -> Expr:
         while self.test_string("/"):
             self.skip_ws()
             op2 = self._step()
-- 
2.43.0


From 7a5d4416b531a8834ef5f1f71d8b98937cb628c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 77/79] fix: anydata nodes in XPath expressions

---
 yangson/instance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c7bbf35..383e31d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -665,7 +665,8 @@ class InstanceNode:
 
     def _node_set(self) -> list["InstanceNode"]:
         """XPath - return the list of all receiver's nodes."""
-        return list(self) if isinstance(self.value, ArrayValue) else [self]
+        return (list(self) if isinstance(self.value, ArrayValue) and
+                isinstance(self.schema_node, SequenceNode) else [self])
 
     def _children(self,
                   qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
@@ -744,8 +745,8 @@ class InstanceNode:
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
-        return ([] if self.is_internal() else
-                self.schema_node.type._deref(self))
+        return (self.schema_node.type._deref(self)
+                if isinstance(self.schema_node, TerminalNode) else [])
 
 
 class RootNode(InstanceNode):
-- 
2.43.0


From 17e2ffe49d60f0ffa77e8c8323a5da2d7464d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 78/79] fix: unions of XPath node-sets are in document order

---
 yangson/nodeset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 51c8794..9ae1779 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -78,8 +78,9 @@ def _operands(val: XPathValue, numeric: bool) -> list[XPathValue]:
 class NodeSet(list):
 
     def union(self, ns: "NodeSet") -> "NodeSet":
-        paths = set([n.path for n in self])
-        return self.__class__(self + [n for n in ns if n.path not in paths])
+        """Return the union of the receiver and `ns` in document order."""
+        nodes = {n.path: n for n in ns + self}
+        return self.__class__(nodes[p] for p in sorted(nodes))
 
     def bind(self, trans: NodeExpr) -> "NodeSet":
         return self.__class__(
-- 
2.43.0


From 76bd791c8b84160a7f846fb6321d79d766d141f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 79/79] fix: deviate replace with several defaults of a
 leaf-list

---
 yangson/schemanode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index fdf03ab..8a1ddb4 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1697,11 +1697,15 @@ class LeafListNode(SequenceNode, TerminalNode):
         else:
             self._default.append(stmt.argument)
 
+    def _apply_deviate(self, stmt: Statement, sctx: SchemaContext) -> None:
+        """Extend the superclass method."""
+        if stmt.argument == "replace" and stmt.find1("default"):
+            self._default = None
+        super()._apply_deviate(stmt, sctx)
+
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
         if action in ("add", "replace"):
-            if action == "replace":
-                self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
             if stmt.argument in (self._default or ()):
-- 
2.43.0

