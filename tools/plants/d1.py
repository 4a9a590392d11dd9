BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

# ---------------------------------------------------------------- C01
bug("c01-prev-shares", "C01", [("instance.py",
"""        naft = self.after.copy()
        naft.appendleft(self.value)
        return ArrayEntry(self.index - 1, nbef, naft, newval, self.parinst,""",
"""        naft = self.after if not self.after else self.after.copy()
        naft.appendleft(self.value)
        return ArrayEntry(self.index - 1, nbef, naft, newval, self.parinst,""")],
"""
dm = model({"m": "leaf-list x { type uint8; ordered-by user; }"})
r = dm.from_raw({"m:x": [1, 2, 3]})
last = r["m:x"][2]
last.previous()
assert last.up().raw_value() == [1, 2, 3], last.up().raw_value()
assert [n.value for n in last.parinst] == [1, 2, 3]
""", "previous() called on the last entry of an array, then the old entry used to go up or next",
"moving to the previous entry changes the entry it was called on: its following entries contain itself")

bug("c01-anydata-output-alias", "C01", [("schemanode.py",
"""        def convert(val):
            if isinstance(val, list):
                res = ArrayValue([convert(x) for x in val])
            elif isinstance(val, dict):""",
"""        def convert(val):
            if isinstance(val, ArrayValue):
                res = val
            elif isinstance(val, list):
                res = ArrayValue([convert(x) for x in val])
            elif isinstance(val, dict):""")],
"""
dm = model({"m": "anydata any;"})
a = ArrayValue([1, 2])
r = dm.from_raw({"m:any": {"l": a}})
a.append(3)
assert r.raw_value() == {"m:any": {"l": [1, 2]}}
""", "raw anydata that contains an array value (for example taken from another instance), modified by the caller afterwards",
"raw data passed in stays shared with the instance")

bug("c01-default-empty-shared", "C01", [("schemanode.py",
"""        inst.value = ObjectValue()
        return inst if lazy else self._add_defaults(inst, ctype)""",
"""        if lazy or not self.children:
            if not hasattr(self, "_np_value"):
                self._np_value = ObjectValue()
            inst.value = self._np_value
            return inst
        inst.value = ObjectValue()
        return self._add_defaults(inst, ctype)""")],
"""
dm = model({"m": "container e; container f { leaf d { type uint8; default 1; } }"})
r = dm.from_raw({})
plain = r.add_defaults()
before = json.dumps(plain.raw_value(), sort_keys=True)
r.add_defaults(tag=True)
assert json.dumps(plain.raw_value(), sort_keys=True) == before
""", "a childless default container, added once without and once with tagging",
"adding tagged defaults marks the default containers of instances obtained earlier")

# ---------------------------------------------------------------- C02
bug("c02-resource-id-comma", "C02", [("instance.py",
"""        ks = keys.split(",")""",
"""        ks = unquote(keys).split(",")"""),
("instance.py", """            val = unquote(ks[j])
            sel[""", """            val = ks[j]
            sel[""")],
"""
dm = model({"m": "list l { key 'a b'; leaf a { type string; } leaf b { type string; } }"})
r = dm.from_raw({"m:l": [{"a": "x,y", "b": "z"}]})
n = r.goto(dm.parse_resource_id("/m:l=x%2Cy,z"))
assert n.value["a"] == "x,y"
""", "a resource identifier whose key value contains a percent-encoded comma",
"the entry is not found (wrong number of keys)")

bug("c02-peek-missing-key", "C02", [("instance.py",
"""            except KeyError:
                continue
            if flag:
                return (en, sn)""",
"""            except KeyError:
                break
            if flag:
                return (en, sn)""")],
"""
dm = model({"m": "list l { key a; leaf a { type string; } leaf b { type uint8; } }"})
r = dm.from_raw({"m:l": [{"b": 1}, {"a": "x", "b": 2}]})
v = r.peek(dm.parse_instance_id("/m:l[a='x']/b"))
assert v == 2, v
""", "an entry without the key precedes the addressed one", "peek says that an existing node does not exist")

bug("c02-iid-value-strip", "C02", [("instance.py",
"""        val = self.up_to(quote)
        self.skip_ws()
        self.char("]")
        return val""",
"""        val = self.up_to(quote).strip()
        self.skip_ws()
        self.char("]")
        return val""")],
"""
dm = model({"m": "leaf-list x { type string; }"})
r = dm.from_raw({"m:x": ["a", "a "]})
n = r["m:x"][1]
assert r.goto(dm.parse_instance_id(str(n.instance_route()))).path == n.path
""", "a key or leaf-list value with leading or trailing white space",
"the instance identifier leads to another node or nowhere")

# ---------------------------------------------------------------- C03
bug("c03-max-elements-zero", "C03", [("schemanode.py",
"""        if (self.max_elements is not None and
                len(inst.value) > self.max_elements):""",
"""        if self.max_elements and len(inst.value) > self.max_elements:""")],
"""
dm = model({"m": "leaf-list x { type string; max-elements 0; }"})
assert attempt(dm.from_raw({"m:x": ["a"]}).validate) == "SemanticError"
""", "max-elements 0 (typically by a deviation)", "the limit is not enforced")

bug("c03-unique-first-value", "C03", [("schemanode.py",
"""                uvals.append(uval)
            tups""",
"""                uvals.append(uval[:1])
            tups""")],
"""
dm = model({"m": "list l { key k; unique 'c/x'; leaf k { type string; } "
                 "container c { leaf x { type uint8; default 4; } } }"})
assert attempt(dm.from_raw({"m:l": [{"k": "a"}, {"k": "b", "c": {"x": 4}}]}).validate) == "SemanticError"
assert attempt(dm.from_raw({"m:l": [{"k": "a"}, {"k": "b", "c": {"x": 5}}]}).validate) is None
dm = model({"m": "list l { key k; unique 'q/x'; leaf k { type string; } "
                 "list q { key x; leaf x { type uint8; } } }"}, where="two")
assert attempt(dm.from_raw({"m:l": [{"k": "a", "q": [{"x": 1}, {"x": 2}]}, {"k": "b", "q": [{"x": 2}]}]}).validate) == "SemanticError"
""", "a unique specification that leads through an inner list", "only the first inner value is compared")

bug("c03-unique-no-defaults", "C03", [("schemanode.py",
"""            den = en.add_defaults()
""", """            den = en.add_defaults(inst.schema_node.content_type())
            if not inst.schema_node.config:
                den = en
""")],
"""
dm = model({"m": "list l { config false; key k; unique x; leaf k { type string; } "
                 "leaf x { type uint8; default 4; } }"})
d = {"m:l": [{"k": "a"}, {"k": "b", "x": 4}]}
assert attempt(dm.from_raw(d).validate, ctype=ContentType.all) == "SemanticError"
""", "a state list with a unique leaf that has a default value, absent in one of the entries",
"duplicate values are accepted")

bug("c03-status-inherited", "C03", [("schemanode.py",
"""        if self._status == NodeStatus.deprecated:
            return SchemaPattern.optional(m)
        if not self.mandatory:""",
"""        if self._status == NodeStatus.deprecated or not self.config:
            return SchemaPattern.optional(m)
        if not self.mandatory:""")],
"""
dm = model({"m": "container s { config false; leaf x { type string; mandatory true; } }"})
assert attempt(dm.from_raw({}).validate, ctype=ContentType.all) == "SchemaError"
""", "a state container with a mandatory member that is missing as a whole", "missing mandatory state is accepted")

# ---------------------------------------------------------------- C04
bug("c04-when-shared", "C04", [("xpathast.py",
"""    def evaluate(self, node: InstanceNode) -> XPathValue:""",
"""    def _origin(self, node):
        self._org = node
        return self._org

    def evaluate(self, node: InstanceNode) -> XPathValue:"""),
("xpathast.py",
"""        return self._eval(XPathContext(node, node, 1, 1))""",
"""        return self._eval(XPathContext(self._origin(node), self._org, 1, 1))""")],
"""
import sys
dm = model({"m": "leaf a { type uint8; must 'current() < 10'; } list l { key k; leaf k { type uint16; } leaf v { type uint16; must \\"current() = ../k\\"; } }"})
good = dm.from_raw({"m:l": [{"k": i, "v": i} for i in range(25)]})
sys.setswitchinterval(1e-6)
errs = []
def work():
    for _ in range(60):
        try:
            good.validate()
        except Exception as e:
            errs.append(repr(e)); return
ts = [threading.Thread(target=work) for _ in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not errs, errs[0]
""", "two threads evaluating the same expression (must with current()), a switch between storing and reading the origin",
"the expression of one thread is evaluated for the node of the other one")
