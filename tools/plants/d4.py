"""Planted bugs, fourth batch (see tools/plant.py)."""
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

XP = '''
from yangson.xpathparser import XPathParser
from yangson.typealiases import *
from yangson.schemadata import SchemaContext
def ev(dm, mod, expr, node):
    mid = [m for m in dm.schema_data.modules if m[0] == mod][0]
    return XPathParser(expr, SchemaContext(dm.schema_data, mod, mid)).parse().evaluate(node)
'''

bug("c21-last-of-step", "C21", [("xpathast.py",
"""        for p in self.predicates:
            res = NodeSet([])
            size = len(ns)
            for i in range(size):""",
"""        size = len(ns)
        for p in self.predicates:
            res = NodeSet([])
            for i in range(len(ns)):""")],
XP + """
dm = model({"m": "leaf-list a { type uint8; }"})
r = dm.from_raw({"m:a": [1, 2, 3, 4]})
assert [n.value for n in ev(dm, "m", "/a[. < 4][last()]", r)] == [3]
""", "two predicates of one step, the second of them uses last()",
"last() in a later predicate is the size before the earlier predicates")

bug("c21-current-in-group", "C21", [("xpathast.py",
"""        res = self.primary._eval(xctx)
        return self._apply_predicates(res, xctx)""",
"""        res = self.primary._eval(xctx)
        return self._apply_predicates(
            res, XPathContext(xctx.cnode, xctx.cnode, 1, 1))""")],
XP + """
dm = model({"m": "leaf k { type uint8; } list l { key k; leaf k { type uint8; } leaf-list v { type uint8; } }"})
r = dm.from_raw({"m:k": 2, "m:l": [{"k": 1, "v": [1, 2]}, {"k": 2, "v": [1, 5]}]})
assert ev(dm, "m", "count(/l[(v)[. = current()]])", r["m:k"]) == 1.0
""", "a parenthesized path with a predicate that uses current(), within the predicate of another path",
"current() is the node of the enclosing predicate instead of the context node of the expression")

bug("c21-descendant-prune", "C21", [("instance.py",
"""            if not qname or c.qual_name == qname:
                res.append(c)
            res += c._descendants(qname)""",
"""            if not qname or c.qual_name == qname:
                res.append(c)
            if not (qname and c.qual_name == qname):
                res += c._descendants(qname)""")],
XP + """
dm = model({"m": "list t { key k; leaf k { type string; } list t { key k; leaf k { type string; } } }"})
r = dm.from_raw({"m:t": [{"k": "a", "t": [{"k": "b"}]}, {"k": "c"}]})
assert ev(dm, "m", "count(descendant::t)", r) == 3.0
""", "a descendant step over a tree where a node of the name contains another one of the same name",
"matching descendants of a matching descendant are left out")

bug("c21-following-of-list", "C21", [("instance.py",
"""        res = []
        en = self
        for _ in self.after:
            en = en.next()
            res.append(en)
        return res""",
"""        res = []
        en = self
        for val in self.after:
            en = ArrayEntry(en.index + 1, en.before, en.after, val,
                            en.parinst, en.schema_node, en.timestamp)
            res.append(en)
        return res""")],
XP + """
dm = model({"m": "leaf-list a { type uint8; }"})
r = dm.from_raw({"m:a": [1, 2, 3, 4]})
e = r["m:a"][0]
assert ev(dm, "m", "count(following-sibling::a[1]/following-sibling::a)", e) == 2.0
""", "a step that goes on from a following sibling to other siblings",
"siblings found by following-sibling:: have wrong siblings themselves")

bug("c21-preceding-doc-positions", "C21", [("instance.py",
"""        for _ in self.before:
            en = en.previous()
            res.append(en)
        return res""",
"""        for _ in self.before:
            en = en.previous()
            res.insert(0, en)
        return res""")],
XP + """
dm = model({"m": "leaf-list a { type uint8; }"})
r = dm.from_raw({"m:a": [1, 2, 3, 4]})
e = r["m:a"][3]
assert [n.value for n in ev(dm, "m", "preceding-sibling::a[1]", e)] == [3]
""", "a positional predicate on the preceding-sibling axis with more than one sibling before",
"positions on the preceding-sibling axis count in document order")

bug("c21-ancestor-stops", "C21", [("instance.py",
"""        res = [] if qname and self.qual_name != qname else [self]
        return res + self.up()._ancestors_or_self(qname)""",
"""        if qname and self.qual_name == qname:
            return [self]
        res = [] if qname else [self]
        return res + self.up()._ancestors_or_self(qname)""")],
XP + """
dm = model({"m": "container t { container x { container t { leaf a { type string; } } } }"})
r = dm.from_raw({"m:t": {"x": {"t": {"a": "1"}}}})
a = r["m:t"]["x"]["t"]["a"]
assert ev(dm, "m", "count(ancestor::t)", a) == 2.0
""", "an ancestor step by name where two ancestors have the name",
"the ancestor axis ends at the first ancestor of the name")

bug("c21-parent-of-entry", "C21", [("instance.py",
"""                lambda n, qn=self.qname: [p for p in n._parent() if not qn or
                                          p.qual_name == qn],""", "")] if 0 else [("xpathast.py",
"""                lambda n, qn=self.qname: [p for p in n._parent() if not qn or
                                          p.qual_name == qn],""",
"""                lambda n, qn=self.qname: [p for p in n._parent() if not qn or
                                          p.name == qn[0]],""")],
XP + """
dm = model({"m": "container t { leaf a { type string; } }"})
r = dm.from_raw({"m:t": {"a": "1"}})
a = r["m:t"]["a"]
assert ev(dm, "m", "count(parent::t)", a) == 1.0
""", "parent:: with the name of a node whose instance name is qualified",
"parent::name does not match parents with qualified instance names")

bug("c21-derived-first", "C21", [("xpathast.py",
"""            if self.or_self and n.value == i:
                return True
            if self.sctx.schema_data.is_derived_from(n.value, i):
                return True
        return False""",
"""            if self.or_self and n.value == i:
                return True
            return self.sctx.schema_data.is_derived_from(n.value, i)
        return False""")],
XP + """
dm = model({"m": "identity b; identity c { base b; } identity d; leaf-list a { type identityref { base b; } }"
            .replace("identity d;", "identity d { base b; } identity e { base d; }")})
r = dm.from_raw({"m:a": ["c", "d", "e"]})
assert ev(dm, "m", "derived-from(a, 'd')", r) is True
""", "derived-from() of several nodes the first of which does not match",
"derived-from() decides by the first node")

bug("c21-translate-twice", "C21", [("xpathast.py",
"""        ttab = dict.fromkeys(map(ord, old))
        ttab.update(reversed(list(zip(map(ord, old), new))))
        return string.translate(ttab)""",
"""        for o, n in reversed(list(zip(old, new))):
            string = string.replace(o, n)
        return string.translate(dict.fromkeys(
            map(ord, set(old[len(new):]) - set(old[:len(new)]))))""")],
XP + """
dm = model({"m": "leaf a { type string; }"})
r = dm.from_raw({"m:a": "1"})
assert ev(dm, "m", "translate('abab', 'ab', 'ba')", r) == "baba"
""", "translate() with a character that is both a source and a target",
"characters are translated more than once")

bug("c21-enum-of-typedef", "C21", [("xpathast.py",
"""            node = ns[0]
            return float(node.schema_node.type.enum[node.value])
        except""",
"""            node = ns[0]
            return float(list(node.schema_node.type.enum).index(node.value))
        except""")],
XP + """
dm = model({"m": "leaf a { type enumeration { enum x; enum y { value 5; } enum z; } }"})
r = dm.from_raw({"m:a": "z"})
assert ev(dm, "m", "enum-value(a)", r) == 6.0
""", "enum-value() of an enumeration with explicit values",
"enum-value() is the position of the enum")

bug("c21-minus-right", "C21", [("xpathparser.py",
"""            self.adv_skip_ws()
            op2 = self._multiplicative_expr()
            op1 = AdditiveExpr(op1, op2, pm == "+")""",
"""            self.adv_skip_ws()
            op2 = (self._multiplicative_expr() if pm == "+"
                   else self._additive_expr())
            op1 = AdditiveExpr(op1, op2, pm == "+")""")],
XP + """
dm = model({"m": "leaf a { type string; }"})
r = dm.from_raw({"m:a": "1"})
assert ev(dm, "m", "5 - 2 - 1", r) == 2.0
""", "a subtraction that is followed by another addition or subtraction",
"subtraction is right associative")

bug("c21-double-minus", "C21", [("xpathparser.py",
"""            negate = not negate
            self.skip_ws()""",
"""            negate = True
            self.skip_ws()""")],
XP + """
dm = model({"m": "leaf a { type string; }"})
r = dm.from_raw({"m:a": "1"})
assert ev(dm, "m", "- -2", r) == 2.0
""", "two unary minus signs",
"an even number of minus signs negates")

bug("c21-less-equal-chain", "C21", [("xpathast.py",
"""        if self.less:
            return compare(lres, rres,
                           operator.le if self.equal else operator.lt)
        return""",
"""        if self.less:
            return not compare(lres, rres,
                               operator.gt if self.equal else operator.ge)
        return""")],
XP + """
dm = model({"m": "leaf-list a { type uint8; }"})
r = dm.from_raw({"m:a": [1, 9]})
assert ev(dm, "m", "a < 5", r) is True
""", "a relational comparison with several nodes, with none of them or with NaN",
"< asks for all nodes instead of some")

bug("c21-descendant-self-position", "C21", [("instance.py",
"""            if not qname or c.qual_name == qname:
                res.append(c)
            res += c._descendants(qname)
        return res""",
"""            if not qname or c.qual_name == qname:
                res.append(c)
        for c in self._children():
            res.extend(c._descendants(qname))
        return res""")],
XP + """
dm = model({"m": "list t { key k; leaf k { type string; } leaf-list v { type uint8; } }"})
r = dm.from_raw({"m:t": [{"k": "a", "v": [1]}, {"k": "c", "v": [2]}]})
assert [n.json_pointer() for n in ev(dm, "m", "descendant::*[2]", r)] == ["/m:t/0/k"]
""", "a positional predicate over descendants of several levels",
"descendants are numbered level by level instead of in document order")

bug("c21-substring-bounds", "C21", [("xpathast.py",
"""            start = floor(rres + 0.5) - 1""",
"""            start = max(floor(rres + 0.5) - 1, 0)""")],
XP + """
dm = model({"m": "leaf a { type string; }"})
r = dm.from_raw({"m:a": "1"})
assert ev(dm, "m", "substring('12345', 0, 3)", r) == "12"
""", "substring() that starts before the string and has a length",
"the length is counted from the first character")

bug("c21-union-order-path", "C21", [("xpathast.py",
"""        for n in ns:
            res = res.union(self.right._eval(xctx.update_cnode(n)))
        return res""",
"""        for n in ns:
            xctx.cnode = n
            res = res.union(self.right._eval(xctx))
        return res""")],
XP + """
dm = model({"m": "container c { leaf a { type uint8; } } leaf b { type uint8; }"})
r = dm.from_raw({"m:c": {"a": 1}, "m:b": 4})
assert ev(dm, "m", "(c)/a + b", r) == 5.0
""", "an operand after a path that starts with a parenthesized expression",
"the context node is changed for the rest of the expression")

bug("c01-peek-route-append", "C01", [("instance.py",
"""        for sel in iroute:
            val, sn = sel.peek_step(val, sn)
            if val is None:
                return None
        return val""",
"""        while iroute:
            val, sn = iroute.pop(0).peek_step(val, sn)
            if val is None:
                return None
        return val""")],
"""
dm = model({"m": "container c { leaf a { type string; } }"})
r = dm.from_raw({"m:c": {"a": "1"}})
route = dm.parse_resource_id("/m:c/a")
assert r.peek(route) == "1"
assert r.peek(route) == "1"
""", "an instance route is used again after peek()",
"peek() consumes the route it is given")

bug("c03-second-base", "C03", [("datatype.py",
"""        for b in self.bases:
            if not self.sctx.schema_data.is_derived_from(val, b):""",
"""        for b in self.bases[:1]:
            if not self.sctx.schema_data.is_derived_from(val, b):""")],
"""
dm = model({"m": "identity a; identity b; identity c { base a; } identity d { base a; base b; }"
            " leaf x { type identityref { base a; base b; } }"})
assert attempt(dm.from_raw({"m:x": "c"}).validate) == "YangTypeError"
dm.from_raw({"m:x": "d"}).validate()
""", "an identityref with two bases and an identity derived from the first one only",
"only the first base of an identityref is checked")

bug("c05-derived-grows", "C05", [("schemadata.py",
"""            res = self.identity_adjs[identity].derivs.copy()
        except KeyError:
            return set()
        for id in res.copy():""",
"""            res = self.identity_adjs[identity].derivs
        except KeyError:
            return set()
        for id in res.copy():""")],
"""
dm = model({"m": "identity a; identity b; identity c { base a; } identity d { base c; base b; } identity e { base c; }"
            " leaf x { type identityref { base a; base b; } }"})
sd = dm.schema_data
one = sd.derived_from(("a", "m"))
sd.derived_from_all([("a", "m"), ("b", "m")])
assert sd.derived_from(("a", "m")) == one and sd.derived_from_all([("a", "m")]) == one
""", "a digest or a query of the identities derived from several bases, then another one",
"a query of derived identities changes the set of identities")

bug("c01-merge-keeps-array", "C01", [("instance.py",
"""        inst = self._copy(self.value.copy())
        if isinstance(self.schema_node, LeafListNode):""",
"""        inst = self._copy(self.value)
        if isinstance(self.schema_node, LeafListNode):""")],
"""
dm = model({"m": "leaf-list a { type string; }"})
a = dm.from_raw({"m:a": ["1"]})["m:a"]
a.merge(["2"], raw=True)
assert list(a.value) == ["1"]
""", "an array is merged with another one and the receiver is used again",
"merge changes the array of the receiver")

bug("c19-choice-nested-default", "C19", [("schemanode.py",
"""            for cc in c.data_children():
                if cc.iname() in value:
                    return c""",
"""            for cc in c.children:
                if isinstance(cc, DataNode) and cc.iname() in value:
                    return c""")],
"""
dm = model({"m": "choice c { default a; case a { leaf a { type string; default x; } }"
            " case b { choice d { case e { leaf e { type string; } } } } }"})
assert dm.from_raw({"m:e": "1"}).add_defaults().raw_value() == {"m:e": "1"}
""", "a case that is active only because of data in a choice nested in it",
"defaults of the default case are added besides data of another case")

bug("c17-group-counters", "C17", [("schemanode.py",
"""PLACEHOLDER""", "")], "", "", "") if 0 else None

bug("c04-ukeys-attr", "C04", [("schemanode.py",
"""            den = en.add_defaults()
            uvals = []
            for uex in unique:
                uval = [n.value for n in uex.evaluate(den)]
                uvals.append(uval)
            tups = set(product(*uvals))""",
"""            den = en.add_defaults()
            self._uvals = []
            for uex in unique:
                uval = [n.value for n in uex.evaluate(den)]
                self._uvals.append(uval)
            tups = set(product(*self._uvals))""")],
"""
import threading, sys
sys.setswitchinterval(1e-5)
dm = model({"m": "list l { key k; unique 'a b'; leaf k { type uint16; } leaf a { type uint16; } leaf b { type uint16; } }"})
def doc(n):
    return dm.from_raw({"m:l": [{"k": i, "a": i // 16 + n, "b": i % 16 + n} for i in range(96)]})
bad = []
def work(d):
    for _ in range(6):
        try:
            d.validate()
        except Exception as e:
            bad.append(repr(e))
for _ in range(4):
    ts = [threading.Thread(target=work, args=(doc(100 * i),)) for i in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if bad:
        break
assert not bad, bad[:1]
""", "two threads checking a unique constraint of the same list at once",
"the values of unique leafs of one thread are mixed with those of another")

bug("c16-hash-order", "C16", [("instvalue.py",
"""PLACEHOLDER""", "")], "", "", "") if 0 else None

bug("c20-typedef-cache", "C20", [("datatype.py",
"""            res = cls._derived_type(stmt, sctx, loc if s else typ)""",
"""            tid = (typ, sctx.default_ns, sctx.text_mid)
            if s and not stmt.substatements and tid in DataType.known:
                return DataType.known[tid]
            res = DataType.known[tid] = cls._derived_type(
                stmt, sctx, loc if s else typ)"""),
("datatype.py",
"""    dtypes: ClassVar[dict[str, Type["DataType"]]]
""",
"""    dtypes: ClassVar[dict[str, Type["DataType"]]]
    known: ClassVar[dict] = {}
""")],
"""
def mk(where, feats):
    put(f"{where}/t.yang", mod("t", "feature f; typedef e { type enumeration { enum a; enum b { if-feature f; } } }"))
    put(f"{where}/m.yang", mod("m", "import t { prefix t; } leaf x { type t:e; }"))
    return DataModel(lib(entry("m"), entry("t", feature=feats)), (SCRATCH + "/" + where,))
a, b = mk("a", ["f"]), mk("a", [])
a.from_raw({"m:x": "b"}).validate()
assert attempt(b.from_raw({"m:x": "b"}).validate) == "YangTypeError"
""", "two models with different features of the module that defines a type",
"types made from typedefs of other modules are shared by all models")

bug("c05-tree-sorts", "C05", [("schemanode.py",
"""        cs = []
        for c in self.children:
            cs.extend(c._flatten())""",
"""        cs = []
        self.children.sort(key=lambda c: c.name or "")
        for c in self.children:
            cs.extend(c._flatten())""")] if 0 else [("schemanode.py",
"""        if not self.children:
            return ""
        cs = []
        for c in self.children:
            cs.extend(c._flatten())
        cs.sort(key""", "")],
"", "", "")
del BUGS["c05-tree-sorts"]

bug("c05-tree-sorts", "C05", [("schemanode.py",
"""        cs = []
        for c in self.children:
            cs.extend(c._flatten())
        cs.sort(key""",
"""        self.children.sort(key=lambda c: c.name or "")
        cs = [n for c in self.children for n in c._flatten()]
        cs.sort(key""")],
"""
dm = model({"m": "leaf b { type string; default x; } leaf a { type string; default y; }"})
d = dm.schema_digest()
k = list(dm.from_raw({}).add_defaults().raw_value())
dm.ascii_tree()
assert dm.schema_digest() == d
assert list(dm.from_raw({}).add_defaults().raw_value()) == k
""", "a tree diagram is made, then defaults are added",
"printing the tree reorders the schema, and with it results and digests")

bug("c17-syntax-uncounted", "C17", [("schemanode.py",
"""        self.val_count += 1

    def _check_must""",
"""        self.val_count += scope.value & ValidationScope.semantics.value > 0

    def _check_must""")],
"""
from yangson.enumerations import ValidationScope
dm = model({"m": "leaf a { type string; }"})
dm.from_raw({"m:a": "1"}).validate(ValidationScope.syntax)
assert dm.get_data_node("/m:a").val_count == 1
""", "a validation of the syntax only",
"validations of the syntax are not counted")

bug("c16-hash-sum", "C16", [("instvalue.py",
"""        sks = sorted(self.keys())
        return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()""",
"""        sks = sorted(self.keys())
        return (tuple(sks), sum([self[k].__hash__() for k in sks])).__hash__()""")],
"""
dm = model({"m": "container c { leaf a { type string; } leaf b { type string; } }"})
a = dm.from_raw({"m:c": {"a": "1", "b": "2"}})["m:c"].value
b = dm.from_raw({"m:c": {"a": "2", "b": "1"}})["m:c"].value
assert hash(a) != hash(b)
""", "two members of an object exchange their values",
"the hash of an object does not depend on which member has which value")

bug("c10-annotation-leaf", "C10", [("instance.py",
"""PLACEHOLDER""", "")], "", "", "") if 0 else None

bug("c12-identities-lost", "C12", [("schemadata.py",
"""PLACEHOLDER""", "")], "", "", "") if 0 else None

bug("c02-resource-key-unquote", "C02", [("instance.py",
"""            val = unquote(ks[j])""",
"""            val = unquote(ks[j]).strip()""")],
"""
dm = model({"m": "list l { key 'a b'; leaf a { type string; } leaf b { type string; } leaf v { type uint8; } }"})
r = dm.from_raw({"m:l": [{"a": " x", "b": "y", "v": 1}, {"a": "x", "b": "y", "v": 2}]})
assert r.goto(dm.parse_resource_id("/m:l=%20x,y"))["v"].value == 1
""", "a key with white space at an end in a resource identifier",
"keys are trimmed in resource identifiers")

bug("c02-insert-empty-index", "C02", [("instance.py",
"""            self.index + 1, nbef, self.after, self._cook_value(value, raw),""",
"""            self.index + len(nbef) - len(self.before), self.before, self.after,
            self._cook_value(value, raw),""")],
"""
dm = model({"m": "leaf-list a { type string; }"})
e = dm.from_raw({"m:a": ["1", "2"]})["m:a"][0].insert_after("9")
assert list(e.up().value) == ["1", "9", "2"]
""", "insert_after()", "the receiver is lost")
del BUGS["c02-insert-empty-index"]
for k in [k for k in BUGS if not BUGS[k]["demo"]]:
    del BUGS[k]
