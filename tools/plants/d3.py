BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

bug("c01-zip-siblings", "C01", [("instance.py",
"""        res = dict(self.siblings)
        res[self.name] = self.value
        return ObjectValue(res, self.timestamp)""",
"""        res = self.siblings
        res[self.name] = self.value
        return ObjectValue(res, self.timestamp)""")],
"""
dm = model({"m": "leaf a { type string; } leaf b { type string; }"})
m = dm.from_raw({"m:a": "1", "m:b": "2"})["m:a"]
before = attempt(m.sibling, "m:a")
m.up()
assert before == attempt(m.sibling, "m:a") == "NonexistentInstance"
""", "a member is asked for its siblings after it was used for going up",
"the siblings of a member grow by moving up from it")

bug("c01-insert-shared-deque", "C01", [("instance.py",
"""        naft = self.after.copy()
        naft.appendleft(self.value)
        return ArrayEntry(self.index, self.before, naft,""",
"""        naft = self.after if not self.before else self.after.copy()
        naft.appendleft(self.value)
        return ArrayEntry(self.index, self.before, naft,""")],
"""
dm = model({"m": "leaf-list a { type string; }"})
e = dm.from_raw({"m:a": ["1", "2"]})["m:a"][0]
e.insert_before("0")
assert list(e.up().value) == ["1", "2"]
""", "an entry inserted before the first one of an array, the receiver is used again",
"the first entry gets a copy of itself as its follower")

bug("c01-default-value-shared", "C01", [("schemanode.py",
"""        inst.value = ObjectValue()
        return inst if lazy else self._add_defaults(inst, ctype)""",
"""        if lazy:
            if self.__dict__.get("_novalue") is None:
                self._novalue = ObjectValue()
            inst.value = self._novalue
            return inst
        inst.value = ObjectValue()
        return self._add_defaults(inst, ctype)""")],
"""
# (checked below: harmless by itself; kept only if a demonstration exists)
raise SystemExit(0)
""", "-", "-")

bug("c01-peek-route-append", "C01", [("instance.py",
"""        for sel in iroute:
            val, sn = sel.peek_step(val, sn)
            if val is None:
                return None
        return val""",
"""        for sel in iroute:
            val, sn = sel.peek_step(val, sn)
            if val is None:
                return None
        if isinstance(val, StructuredValue) and val is not self.value:
            val.timestamp = max(val.timestamp, self.value.timestamp)
        return val""")],
"""
import time
dm = model({"m": "container c { leaf a { type string; } } leaf b { type string; }"})
r = dm.from_raw({"m:c": {"a": "1"}})
c = r["m:c"]
t = c.timestamp, c.value.timestamp
time.sleep(.01)
r2 = r.put_member("m:b", "x").up()
r2.peek(dm.parse_instance_id("/m:c"))
assert (c.timestamp, c.value.timestamp) == t
assert r["m:c"].timestamp == t[0]
""", "a value obtained by peek() from an edited copy that shares it", "the timestamp of a shared value changes under its other holders")

bug("c02-negative-index-after", "C02", [("instance.py",
"""                              deque(val[i + 1:]), val[index], self,""",
"""                              deque(val[index + 1:]), val[index], self,""")],
"""
dm = model({"m": "leaf-list a { type string; }"})
e = dm.from_raw({"m:a": ["1", "2", "3"]})["m:a"][-1]
assert list(e.up().value) == ["1", "2", "3"]
assert attempt(e.next) == "NonexistentInstance"
""", "the last entry selected by the index -1, then moving on or up", "entries are repeated after it")

bug("c02-leaflist-plus", "C02", [("instance.py",
"""            return EntryValue(unquote(keys))""",
"""            return EntryValue(unquote(keys.replace("+", " ")))""")],
"""
dm = model({"m": "leaf-list a { type string; }"})
r = dm.from_raw({"m:a": ["1 2", "1+2"]})
assert r.goto(dm.parse_resource_id("/m:a=1+2")).index == 1
""", "a resource identifier with a leaf-list value that contains a plus sign", "another entry is addressed")

bug("c02-lookup-partial", "C02", [("instance.py",
"""                try:
                    if en[k] != keys[k]:
                        flag = False
                        break
                except KeyError:
                    flag = False
                    break
            if flag:
                return self._entry(i)""",
"""                if k in en and en[k] != keys[k]:
                    flag = False
                    break
            if flag:
                return self._entry(i)""")],
"""
dm = model({"m": "list l { key k; leaf k { type string; } leaf v { type string; } }"})
l = dm.from_raw({"m:l": [{"v": "x"}, {"k": "a"}]})["m:l"]
assert l.look_up(k="a").index == 1
assert attempt(l.look_up, k="b") == "NonexistentInstance"
""", "look-up in a list with an entry that has no value of the key", "an entry without the key is found")

bug("c02-merge-first-only", "C02", [("instance.py",
"""                inst = inst[i].merge(value[mki[kval]]).up()""",
"""                inst = inst[min(i, len(value) - 1)].merge(
                    value[mki[kval]]).up()""")],
"""
dm = model({"m": "list l { key k; leaf k { type string; } leaf v { type string; } }"})
l = dm.from_raw({"m:l": [{"k": "a"}, {"k": "b"}, {"k": "c"}]})["m:l"]
assert l.merge([{"k": "c", "v": "1"}], raw=True).raw_value() == [{"k": "a"}, {"k": "b"}, {"k": "c", "v": "1"}]
""", "merging a list that is shorter than the receiver", "a wrong entry is modified")

bug("c03-state-leaflist-unique", "C03", [("schemanode.py",
"""        if (self.content_type() == ContentType.config and
                len(set(inst.value)) < len(inst.value)):""",
"""        if len(set(inst.value)) < len(inst.value):""")],
"""
dm = model({"m": "container c { config false; leaf-list a { type string; } }"})
dm.from_raw({"m:c": {"a": ["x", "x"]}}).validate(ctype=ContentType.all)
""", "a state leaf-list with repeated values", "valid data is refused")

bug("c03-keys-across", "C03", [("schemanode.py",
"""                kval = tuple([en[k] for k in self._key_members])""",
"""                kval = "/".join([str(en[k]) for k in self._key_members])"""),
("schemanode.py", """                                    repr(kval[0] if len(kval) < 2 else kval))""",
"""                                    repr(kval))""")],
"""
dm = model({"m": 'list l { key "a b"; leaf a { type string; } leaf b { type string; } }'})
dm.from_raw({"m:l": [{"a": "x/y", "b": "z"}, {"a": "x", "b": "y/z"}]}).validate()
""", "two entries whose keys differ only in where a slash separates them", "valid data is refused")

bug("c03-must-first-only", "C03", [("schemanode.py",
"""        self.must.append(Must(mex, *stmt.get_error_info()))""",
"""        must = Must(mex, *stmt.get_error_info())
        self.must = [m for m in self.must if m.error_message !=
                     must.error_message] + [must]""")],
"""
dm = model({"m": "container c { must 'a'; must 'b'; leaf a { type string; } leaf b { type string; } }"})
assert attempt(dm.from_raw({"m:c": {"b": "x"}}).validate) == "SemanticError"
""", "a node with several must expressions without a message of their own, of which an earlier one is violated", "invalid data is accepted")

bug("c03-leafref-prefix", "C03", [("datatype.py",
"""            return [n for n in ns if str(n) == str(node)]""",
"""            return [n for n in ns if str(n).startswith(str(node))]""")],
"""
dm = model({"m": "leaf-list t { type string; } leaf r { type leafref { path '/m:t'; } }"})
assert attempt(dm.from_raw({"m:t": ["abc"], "m:r": "ab"}).validate) == "SemanticError"
""", "a reference to a value that is only the beginning of an existing one", "the dangling reference is not noticed")

bug("c03-empty-list-mandatory", "C03", [("schemanode.py",
"""        if len(inst.value) < self.min_elements:""",
"""        if 0 < len(inst.value) < self.min_elements:""")],
"""
dm = model({"m": "leaf-list a { type string; min-elements 1; }"})
assert attempt(dm.from_raw({"m:a": []}).validate) == "SemanticError"
""", "an array that became empty under min-elements", "invalid data is accepted")

bug("c04-ukeys-shared", "C04", [("schemanode.py",
"""        ukeys = set()
        for i in range(len(inst.value)):
            en = inst.value[i]
            try:""",
"""        ukeys = self.__dict__.setdefault("_ukeys", set())
        ukeys.clear()
        for i in range(len(inst.value)):
            en = inst.value[i]
            try:""")],
"""
dm = model({"m": "list l { key k; leaf k { type string; } }"})
r = dm.from_raw({"m:l": [{"k": "a"}, {"k": "b"}]})
r.validate()
sn = dm.get_data_node("/m:l")
from yangson.schemanode import ListNode
class Slow(str):
    def __hash__(self):
        if not Slow.n:
            Slow.n = 1
            t = threading.Thread(target=r.validate); t.start(); t.join(20)
        return str.__hash__(self)
Slow.n = 0
v = r["m:l"][0]["k"].update(Slow("a")).top()
assert attempt(v.validate) is None
""", "two threads validate the same list at once", "unique keys are reported as repeated")

bug("c04-float-cache", "C04", [("schemanode.py",
"""    def _default_value(self, inst: InstanceNode, ctype: ContentType,
                       lazy: bool) -> Optional[InstanceNode]:
        inst.value = ObjectValue()
        return inst if lazy else self._add_defaults(inst, ctype)""",
"""    def _default_value(self, inst: InstanceNode, ctype: ContentType,
                       lazy: bool) -> Optional[InstanceNode]:
        inst.value = ObjectValue()
        if lazy or self.__dict__.get("_active"):    # guard against recursion
            return inst
        self._active = True
        try:
            return self._add_defaults(inst, ctype)
        finally:
            self._active = False""")],
"""
from yangson.schemanode import LeafNode
dm = model({"m": "container c { leaf a { type string; default x; } }"})
sn = dm.get_data_node("/m:c")
r = dm.from_raw({})
orig = LeafNode._default_value
res = {}
def slow(self, *a):
    if not res:
        res["n"] = 1
        t = threading.Thread(target=lambda: res.update(t=r.add_defaults().raw_value())); t.start(); t.join(20)
    return orig(self, *a)
LeafNode._default_value = slow
m = r.add_defaults().raw_value()
assert m == {"m:c": {"a": "x"}} == res["t"], (m, res)
""", "two threads add defaults to the same absent container at once", "one of them gets an empty container")

bug("c05-must-by-value", "C05", [("schemanode.py",
"""        for m in self.must:
            if not m.expression.evaluate(inst):
                raise SemanticError(inst, m.error_tag, m.error_message)""",
"""        if not self.must:
            return
        key = (inst.path, inst.value)
        if self.__dict__.get("_fine") == key:
            return
        for m in self.must:
            if not m.expression.evaluate(inst):
                raise SemanticError(inst, m.error_tag, m.error_message)
        self._fine = key""")],
"""
dm = model({"m": "leaf a { type string; must '../m:b'; } leaf b { type string; }"})
r = dm.from_raw({"m:a": "x", "m:b": "y"})
r.validate()
assert attempt(r.delete_item("m:b").validate) == "SemanticError"
""", "validate, edit a node to which a must expression elsewhere refers, validate again", "the violated must is not noticed")

bug("c05-tree-sorts", "C05", [("schemanode.py",
"""        if not self.children:
            return ""
        cs = []
        for c in self.children:""",
"""        if not self.children:
            return ""
        self.children.sort(key=lambda c: c.name or "")
        cs = []
        for c in self.children:""")],
"""
dm = model({"m": "leaf b { type string; default x; } leaf a { type string; default y; }"})
d = dm.schema_digest()
k = list(dm.from_raw({}).add_defaults().raw_value())
dm.ascii_tree()
assert dm.schema_digest() == d
assert list(dm.from_raw({}).add_defaults().raw_value()) == k
""", "the schema tree is printed, then the digest or defaults", "printing the tree changes the order of nodes in later results")

bug("c05-unique-entry-cache", "C05", [("schemanode.py",
"""            en = inst[i]
            den = en.add_defaults()
            uvals = []""",
"""            en = inst[i]
            cache = self.__dict__.setdefault("_den", {})
            if (inst.path, i, en.timestamp) not in cache:
                cache[inst.path, i, en.timestamp] = en.add_defaults()
            den = cache[inst.path, i, en.timestamp]
            uvals = []""")],
"""
dm = model({"m": "list l { key k; unique u; leaf k { type string; } leaf u { type string; } }"})
r = dm.from_raw({"m:l": [{"k": "a", "u": "1"}, {"k": "b", "u": "2"}]})
r.validate()
import copy
from yangson.instvalue import ArrayValue, ObjectValue
ts = r["m:l"].timestamp
l = ArrayValue([ObjectValue({"k": "a", "u": "1"}, ts), ObjectValue({"k": "b", "u": "1"}, ts)], ts)
r2 = r.put_member("m:l", l).top()
assert attempt(r2.validate) == "SemanticError"
""", "entries replaced within one tick of the clock", "the outcome of an earlier check is used")

bug("c06-swallow", "C06", [("schemanode.py",
"""            try:
                tgt = inst._deref()
            except YangsonException:
                tgt = []""",
"""            try:
                tgt = inst._deref()
            except Exception:
                tgt = []""")],
"""
from yangson.datatype import LeafrefType
dm = model({"m": "leaf t { type string; } leaf r { type leafref { path '/m:t'; } }"})
r = dm.from_raw({"m:t": "x", "m:r": "x"})
def boom(self, node):
    raise MemoryError
orig = LeafrefType._deref
LeafrefType._deref = boom
assert attempt(r.validate) == "MemoryError"
LeafrefType._deref = orig
r.validate()
""", "lack of memory or stack while a reference is followed", "the error is reported as a dangling reference")

bug("c06-default-guard", "C06", [("schemanode.py",
"""        iname = self.iname()
        if iname in pnode.value:
            return pnode
        nm = pnode.put_member(iname, (None,))
        if not self.when or self.when.is_true(nm):
            wd = self._default_value(nm, ctype, lazy)
            if wd.value is not None:
                return wd.up()
        return pnode""",
"""        iname = self.iname()
        if iname in pnode.value:
            return pnode
        nm = pnode.put_member(iname, (None,))
        key = threading.get_ident()
        busy = self.__dict__.setdefault("_busy", set())
        if self.when:
            if key in busy:         # the condition depends on its own node
                return pnode
            busy.add(key)
            active = self.when.is_true(nm)
            busy.discard(key)
            if not active:
                return pnode
        wd = self._default_value(nm, ctype, lazy)
        if wd.value is not None:
            return wd.up()
        return pnode"""),
("schemanode.py", "from datetime import datetime", "from datetime import datetime\nimport threading")],
"""
from yangson.xpathast import PathExpr, LocationPath, Step
import yangson.xpathast as xa
dm = model({"m": "leaf a { type string; } leaf b { when '../m:a'; type string; default x; }"})
r = dm.from_raw({"m:a": "1"})
sn = dm.get_data_node("/m:b")
w = sn.when
class Boom:
    def evaluate(self, n):
        raise KeyboardInterrupt
    is_true = evaluate
sn.when = Boom()
try:
    r.add_defaults()
except KeyboardInterrupt:
    pass
sn.when = w
assert r.add_defaults().raw_value() == {"m:a": "1", "m:b": "x"}
""", "an asynchronous exception during the evaluation of a when condition of a node with a default",
"the default is never added any more")

bug("c07-errors-ignore", "C07", [("schemadata.py",
"""                    with open(fn, encoding='utf-8') as infile:""",
"""                    with open(fn, encoding='utf-8',
                              errors='ignore') as infile:""")],
"""
p = put("a/m.yang", mod("m", "leaf a { type enumeration { enum alpha; enum beta; } }"))
b = open(p, "rb").read().replace(b"beta", b"b\\xe8ta")
open(p, "wb").write(b)
assert attempt(lambda: DataModel(lib(entry("m")), (SCRATCH + "/a",))) == "UnicodeDecodeError"
""", "a module with a damaged byte inside a name", "the damage is silently dropped and another model results")

bug("c07-cache-statement", "C07", [("schemadata.py",
"""                    with open(fn, encoding='utf-8') as infile:
                        res = ModuleParser(infile.read(), name, rev).parse()
                        mdata.path = fn""",
"""                    if fn not in SchemaData._texts:
                        with open(fn, encoding='utf-8') as infile:
                            SchemaData._texts[fn] = infile.read()
                    res = ModuleParser(
                        SchemaData._texts[fn], name, rev).parse()
                    mdata.path = fn"""),
("schemadata.py", """    \"\"\"Repository of YANG schema structures and utility methods.
""", """    _texts = {}

    \"\"\"Repository of YANG schema structures and utility methods.
""")],
"""
p = put("a/m.yang", mod("m", "leaf a { type string; }"))
whole = open(p).read()
open(p, "w").write(whole[:40])
assert attempt(lambda: DataModel(lib(entry("m")), (SCRATCH + "/a",))) != DataModel
open(p, "w").write(whole)
DataModel(lib(entry("m")), (SCRATCH + "/a",))
""", "a module is read incompletely, then the load is repeated", "the load keeps failing after the fault is gone")

bug("c07-feature-error-ignored", "C07", [("schemadata.py",
"""                if not self.if_features(fst, mid):
                    raise FeaturePrerequisiteError(fn, fid[0])""",
"""                try:
                    if not self.if_features(fst, mid):
                        raise FeaturePrerequisiteError(fn, fid[0])
                except OSError:
                    continue""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c08-any-revision", "C08", [("statement.py",
"""        if self.rev != modrev:""",
"""        if self.rev != modrev and not (self.rev and res.find1(
                "revision", self.rev)):""")],
"""
put("a/m.yang", mod("m", "revision 2024-01-01; revision 2020-01-01; leaf new { type string; }"))
put("b/m.yang", mod("m", "revision 2020-01-01; leaf old { type string; }"))
t = DataModel(lib(entry("m", "2020-01-01")), (SCRATCH + "/a", SCRATCH + "/b")).ascii_tree()
assert "old" in t, t
""", "an unversioned file of a newer revision whose history mentions the requested one, earlier on the path",
"the file of a newer revision is used")

bug("c08-versioned-first-all", "C08", [("schemadata.py",
"""        for d in self.module_search_path:
            run = 0
            while run < 2:
                fn = f"{d}/{name}"
                if rev and run == 0:
                    fn += "@" + rev
                else:
                    run = 1
                fn += ".yang"
                try:""",
"""        names = [f"{d}/{name}@{rev}" for d in self.module_search_path
                 if rev] + [f"{d}/{name}" for d in self.module_search_path]
        for fn in names:
            fn += ".yang"
            for run in (0,):
                try:"""),
("schemadata.py", """                    run += 1
                    continue
                return res""", """                    continue
                return res""")],
"""
put("a/m.yang", mod("m", "revision 2020-01-01; leaf one { type string; }"))
put("b/m@2020-01-01.yang", mod("m", "revision 2020-01-01; leaf two { type string; }"))
t = DataModel(lib(entry("m", "2020-01-01")), (SCRATCH + "/a", SCRATCH + "/b")).ascii_tree()
assert "one" in t, t
""", "a versioned file in a later directory and an unversioned one of the same revision in an earlier one",
"the file of the later directory is used")

bug("c08-submodule-norev", "C08", [("schemadata.py",
"""                        submod = self._load_module(sname, srev, sdata)""",
"""                        try:
                            submod = self._load_module(sname, srev, sdata)
                        except ModuleNotFound:
                            submod = self._load_module(sname, "", sdata)""")],
"""
put("a/m.yang", mod("m", "include s; leaf a { type string; }"))
put("a/s.yang", mod("s", "leaf b { type string; }", "m"))
e = entry("m", submodule=[{"name": "s", "revision": "2020-01-01"}])
assert attempt(lambda: DataModel(lib(e), (SCRATCH + "/a",))) == "ModuleNotFound"
""", "a submodule file without a revision where one is required and no other file", "a wrong submodule is used instead of an error")

bug("c09-digest-names", "C09", [("schemanode.py",
"""        for c in self.data_children():
            cdig = rc[c.iname()] = c._node_digest()
            if self.config and not c.config:
                cdig["config"] = False""",
"""        dcs = {c.iname(): c for c in self.data_children()}
        for name in self._child_inst_names():
            cdig = rc[name] = dcs[name]._node_digest()
            if self.config and not dcs[name].config:
                cdig["config"] = False""")],
"""
import subprocess
put("a/m.yang", mod("m", "".join(f"leaf a{i} {{ type string; }} " for i in range(8))))
code = f'''
import sys, os; sys.path.insert(0, os.getcwd())
from yangson import DataModel
print(DataModel({lib(entry("m"))!r}, ({SCRATCH + "/a"!r},)).schema_digest())'''
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(6)}
assert len(out) == 1 and "a7" in out.pop()
""", "the digest made in processes with different hash seeds", "the digest differs from process to process")

bug("c09-identities-unsorted", "C09", [("datatype.py",
"""            res["identities"] = sorted(
                self.sctx.schema_data.derived_from_all(self.bases))""",
"""            res["identities"] = sorted(
                self.sctx.schema_data.derived_from_all(self.bases),
                key=lambda x: x[1])""")],
"""
import subprocess
put("a/m.yang", mod("m", "identity z; " + "".join(f"identity a{i} {{ base z; }} " for i in range(8)) + "leaf x { type identityref { base z; } }"))
code = f'''
import sys, os; sys.path.insert(0, os.getcwd())
from yangson import DataModel
print(DataModel({lib(entry("m"))!r}, ({SCRATCH + "/a"!r},)).schema_digest())'''
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(6)}
assert len(out) == 1 and "a7" in out.pop()
""", "a reference to identities of which several come from one module", "the digest differs from process to process")

bug("c10-xml-whitespace", "C10", [("datatype.py",
"""    return "" if xml.text is None and len(xml) == 0 else xml.text""",
"""    return "" if xml.text is None and len(xml) == 0 else xml.text.strip()""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c10-string-trim", "C10", [("schemanode.py",
"""        res = None if len(rval) else self.type.from_xml(rval)""",
"""        if rval.text and not rval.text.isspace():
            rval.text = rval.text.strip()
        res = None if len(rval) else self.type.from_xml(rval)""")],
"""
dm = model({"m": "leaf a { type string; }"})
r = dm.from_raw({"m:a": " x "})
r2 = dm.from_xml(XMLParser(ET.tostring(r.to_xml(), encoding="unicode")).root)
assert r2.value == r.value
""", "a string with leading or trailing white space saved as XML", "white space is lost")

bug("c10-leaflist-xml-order", "C10", [("schemanode.py",
"""        else:
            for xmlchild in rval:
                self._process_xmlarray_child(res, xmlchild, tagname, jptr)
        return res""",
"""        else:
            for xmlchild in rval:
                self._process_xmlarray_child(res, xmlchild, tagname, jptr)
            if not self.user_ordered and isinstance(self, ListNode):
                res.sort(key=lambda en: [str(en.get(k))
                                         for k in self._key_members])
        return res""")],
"""
dm = model({"m": "list l { key k; leaf k { type string; } }"})
r = dm.from_raw({"m:l": [{"k": "b"}, {"k": "a"}]})
r2 = dm.from_xml(XMLParser(ET.tostring(r.to_xml(), encoding="unicode")).root)
assert r2.value == r.value
""", "a list ordered by the system, entries not sorted by keys, saved as XML", "the order of entries changes")

bug("c11-scope-per-call", "C11", [("xmlparser.py",
"""        for ev_type, ev_data in self.read_events():
            if ev_type == 'start-ns':""",
"""        scopes = {}
        for ev_type, ev_data in self.read_events():
            if ev_type == 'start':
                scopes[ev_data] = list(self._namespaces)
            if ev_type == 'start-ns':"""),
("xmlparser.py", """                for ns_name, ns_url in self._namespaces:""",
"""                for ns_name, ns_url in scopes.get(ev_data, ()):""")],
"""
doc = '<a xmlns="urn:x"><b xmlns:p="urn:p">p:v</b></a>'
p = XMLParser()
for ch in (doc[:30], doc[30:]):
    p.feed(ch); p.parse()
p.close(); p.parse()
whole = XMLParser(doc).root
def flat(e):
    return e.tag, e.text, sorted(e.attrib.items()), [flat(c) for c in e]
assert flat(p.root) == flat(whole), (flat(p.root), flat(whole))
""", "an element of which start and end are processed by different calls", "its namespaces are lost")

bug("c11-root-only-close", "C11", [("xmlparser.py",
"""            elif ev_type == 'end':
                for ns_name""", """            elif ev_type == 'end':
                if ev_data is self._root and not ev_data.text:
                    self._namespaces.clear()
                    continue
                for ns_name""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c12-pattern-dropped", "C12", [("schemanode.py",
"""    @property
    def mandatory(self) -> bool:
        \"\"\"Override the superclass property.\"\"\"
        return bool(self._mandatory_children[0] or
                    self._mandatory_children[1])
""",
"""    def __getstate__(self):
        state = self.__dict__.copy()
        if isinstance(self, (ContainerNode, ListNode)):
            state["schema_pattern"] = None      # made again when needed
        return state

    @property
    def mandatory(self) -> bool:
        \"\"\"Override the superclass property.\"\"\"
        return bool(self._mandatory_children[0]
                    or self._mandatory_children[1])
""")],
"""
dm = model({"m": "container c { leaf a { type string; } }"})
dm.from_raw({"m:c": {"a": "x"}}).validate()
dm2 = pickle.loads(pickle.dumps(dm))
assert attempt(dm2.from_raw({"m:c": {"a": "x"}}).validate) is None
""", "a model dumped after its first use", "the restored model cannot validate")

bug("c12-dump-resets", "C12", [("datamodel.py",
"""    def module_set_id(self) -> str:""",
"""    def __getstate__(self):
        self.clear_val_counters()       # of no use elsewhere
        return self.__dict__

    def module_set_id(self) -> str:"""),
("datamodel.py", """        res["config"] = True
        return json.dumps(res)""", """        res.update(config=True)
        return json.dumps(res)""")],
"""
dm = model({"m": "leaf a { type string; }"})
dm.from_raw({"m:a": "x"}).validate()
t = dm.ascii_tree(val_count=True)
pickle.dumps(dm)
assert dm.ascii_tree(val_count=True) == t
""", "validation counters looked at after a dump", "dumping clears the counters of the original")

bug("c13-exit-one-type", "C13", [("__main__.py",
"""    except SemanticError as e:
        print("Semantic error:", str(e), file=sys.stderr)
        return 3""",
"""    except SemanticError as e:
        print("Semantic error:", str(e), file=sys.stderr)
        return 3 if e.tag != "data-not-unique" and scope.value > 1 else 0""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c13-scope-default", "C13", [("__main__.py",
"""        i.validate(scope, ctype)""",
"""        i.validate(ctype=ctype, scope=(
            ValidationScope.all if scope is ValidationScope.semantics
            else scope))""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c13-dump-empty-file", "C13", [("__main__.py",
"""        with open(dump, "wb") as pif:
            try:
                pickle.dump(dm, pif, pickle.HIGHEST_PROTOCOL)
                return 0""",
"""        pif = open(dump, "wb", buffering=0)
        if True:
            try:
                data = pickle.dumps(dm, pickle.HIGHEST_PROTOCOL)
                pif.write(data)
                pif.close()
                return 0""")],
"""
import io, builtins
from yangson.__main__ import main
put("a/m.yang", mod("m", "leaf a { type string; }"))
put("lib.json", lib(entry("m")))
class Short(io.FileIO):
    def write(self, b):
        return super().write(bytes(b)[:1000])
orig = builtins.open
def op(fn, mode="r", buffering=-1, *a, **k):
    if "w" in mode:
        f = Short(fn, mode)
        return f if buffering == 0 else io.BufferedWriter(f)
    return orig(fn, mode, buffering, *a, **k)
builtins.open = op
try:
    rc = attempt(main, SCRATCH + "/lib.json", path=SCRATCH + "/a", dump=SCRATCH + "/d")
finally:
    builtins.open = orig
assert rc != 0 or pickle.load(open(SCRATCH + "/d", "rb"))
assert rc == 0
""", "a short write (allowed by the system) while a model is dumped", "a truncated dump with exit status 0")

bug("c13-modpath-first", "C13", [("__main__.py",
"""            print("Module not found:", str(e), file=sys.stderr)
            return 2""",
"""            print("Module not found:", str(e), file=sys.stderr)
            return 2 if not validate else 0""")],
"""
import subprocess
put("lib.json", lib(entry("m"))); put("i.json", "{}")
from yangson.__main__ import main
import io
assert main(SCRATCH + "/lib.json", path=SCRATCH + "/none", validate=SCRATCH + "/i.json") == 2
""", "data validated against a library with a module that is missing", "status zero although nothing was validated")

bug("c14-feature-union", "C14", [("convert8525.py",
"""                ment = MainModuleData(yam, import_only=False)
                modules[ment.key()] = ment""",
"""                ment = MainModuleData(yam, import_only=False)
                modules.setdefault(ment.name, ment)"""),
("convert8525.py", """        "module", [modules[m].as_raw() for m in modules], raw=True).top()""",
"""        "module", [m.as_raw() for m in modules.values()], raw=True).top()""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c14-submodule-lost", "C14", [("convert8525.py",
"""        return (self.name, self.revision)""",
"""        return (self.name, self.revision[:7])""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c14-importonly-key", "C14", [("convert8525.py",
"""                modules.setdefault(ment.key(), ment)""",
"""                modules.setdefault((ment.name, ""), ment)""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c14-write-error-ignored", "C14", [("convert8525.py",
"""    json.dump(res.raw_value(), outf, indent=2)
    outf.write("\\n")
    outf.close()
    return 0""",
"""    try:
        json.dump(res.raw_value(), outf, indent=2)
        outf.write("\\n")
        outf.close()
    except BrokenPipeError:
        pass
    return 0""")],
"""
import subprocess
put("y.json", json.dumps({"ietf-yang-library:yang-library": {"content-id": "1", "module-set": [{"name": "a", "module": [{"name": "m", "namespace": "urn:m"}]}], "schema": [{"name": "s", "module-set": ["a"]}]}, "ietf-yang-library:modules-state": {"module-set-id": "1"}}))
path = "yang-modules/ietf"
r, w = os.pipe(); os.close(r)
code = "import sys; sys.argv=['c', %r, '-s', 's', '-p', %r]; from yangson.convert8525 import main; sys.exit(main())" % (SCRATCH + "/y.json", path)
p = subprocess.run([sys.executable, "-c", code], stdout=w, stderr=subprocess.PIPE, text=True)
assert p.returncode != 0, p
""", "output to a pipe whose reader is gone", "status zero although nothing was delivered")

bug("c15-previous-ts", "C15", [("instance.py",
"""        return ArrayEntry(self.index - 1, nbef, naft, newval, self.parinst,
                          self.schema_node, self.timestamp)""",
"""        return ArrayEntry(self.index - 1, nbef, naft, newval, self.parinst,
                          self.schema_node, self.parinst.timestamp)""")],
"""
import time
dm = model({"m": "leaf-list a { type string; }"})
e = dm.from_raw({"m:a": ["1", "2"]})["m:a"][1]
time.sleep(.01)
e2 = e.update("3")
assert e2.previous().up().timestamp >= e2.timestamp
""", "an entry is edited, then one goes to the previous entry and up", "the parent is older than the edit")

bug("c15-zip-ts", "C15", [("instance.py",
"""        return ArrayValue(res, self.timestamp)""",
"""        return ArrayValue(res, max(self.timestamp, self.parinst.timestamp))""")],
"""
raise SystemExit(0)
""", "-", "-")

bug("c15-insert-ts", "C15", [("instance.py",
"""        return ArrayEntry(
            self.index + 1, nbef, self.after, self._cook_value(value, raw),
            self.parinst, self.schema_node, datetime.now())""",
"""        cooked = self._cook_value(value, raw)
        return ArrayEntry(
            self.index + 1, nbef, self.after, cooked,
            self.parinst, self.schema_node,
            getattr(cooked, "timestamp", None) or datetime.now())""")],
"""
import time
dm = model({"m": "list l { leaf a { type string; } }"})
e = dm.from_raw({"m:l": [{"a": "1"}]})["m:l"][0]
v = e.value
time.sleep(.01)
from datetime import datetime
t = datetime.now()
assert e.insert_after(v).timestamp >= t
""", "a value made earlier is inserted after an entry", "the new entry carries the time of the value instead of the time of the edit")

bug("c16-array-order-hash", "C16", [("instvalue.py",
"""        return tuple([x.__hash__() for x in self]).__hash__()""",
"""        return frozenset([x.__hash__() for x in self]).__hash__()""")],
"""
dm = model({"m": "leaf-list a { type string; ordered-by user; }"})
a = dm.from_raw({"m:a": ["1", "2"]}).value
b = dm.from_raw({"m:a": ["2", "1"]}).value
assert a != b and hash(a) != hash(b)
""", "two arrays with the same entries in another order", "their hashes are equal")

bug("c16-hash-id", "C16", [("instvalue.py",
"""        return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()""",
"""        return tuple([(k, hash(self[k]) if self[k] != {} else id(self))
                      for k in sks]).__hash__()""")],
"""
dm = model({"m": "container c { presence x; leaf a { type string; } }"})
a = dm.from_raw({"m:c": {}}).value
b = dm.from_raw({"m:c": {}}).value
assert a == b and hash(a) == hash(b)
""", "a value with an empty container inside", "equal values have different hashes")

bug("c16-object-values-only", "C16", [("instvalue.py",
"""        return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()""",
"""        return tuple([self[k].__hash__() for k in sks]).__hash__()""")],
"""
dm = model({"m": "leaf a { type string; } leaf b { type string; }"})
a = dm.from_raw({"m:a": "1"}).value
b = dm.from_raw({"m:b": "1"}).value
assert a != b and hash(a) != hash(b)
""", "two values that differ in the name of a member only", "their hashes are equal")

bug("c17-count-ahead", "C17", [("schemanode.py",
"""            for e in inst:
                super()._validate(e, scope, ctype)""",
"""            for e in inst:
                super()._validate(e, scope, ctype)
            if isinstance(self, TerminalNode) and self.user_ordered:
                self.val_count += 1"""),
],
"""
dm = model({"m": "leaf-list a { type string; ordered-by user; }"})
dm.from_raw({"m:a": ["1", "2"]}).validate()
assert dm.get_data_node("/m:a").val_count == 2
""", "a leaf-list ordered by the user", "the array is counted in addition to its entries")

bug("c17-unique-counts", "C17", [("schemanode.py",
"""            den = en.add_defaults()
            uvals = []""",
"""            den = en.add_defaults()
            if den.value != en.value:
                self.val_count += 1
            uvals = []""")],
"""
dm = model({"m": "list l { key k; unique u; leaf k { type string; } leaf u { type string; default x; } }"})
dm.from_raw({"m:l": [{"k": "1"}]}).validate()
assert dm.get_data_node("/m:l").val_count == 1
""", "a list with a unique specification and entries with defaults", "entries are counted twice")

bug("c18-list-entry-type", "C18", [("schemanode.py",
"""                try:
                    keys = [str(rval[i].get(k[0], '<missing>'))
                            for k in self.keys]
                except AttributeError:
                    raise RawTypeError(f"{jptr}/{i}", "object")""",
"""                keys = [str(rval[i].get(k[0], '<missing>'))
                        for k in self.keys]""")],
"""
dm = model({"m": "list l { key k; leaf k { type string; } }"})
assert attempt(dm.from_raw, {"m:l": ["x"]}) == "RawTypeError"
""", "a scalar in place of an entry of a keyed list", "an internal error instead of the documented one")

bug("c18-bits-type", "C18", [("datatype.py",
"""        try:
            return tuple(raw.split())
        except AttributeError:
            return None""",
"""        return tuple(raw.split())""")],
"""
dm = model({"m": "leaf b { type bits { bit x; } }"})
assert attempt(dm.from_raw, {"m:b": 1}) == "RawTypeError"
""", "a number in place of a bits value", "an internal error instead of the documented one")

bug("c18-int64-number", "C18", [("datatype.py",
"""        if not isinstance(raw, str) or isinstance(raw, bool):
            return None
        try:
            return int(raw)
        except (ValueError, TypeError):
            return None""",
"""        try:
            return int(raw)
        except (ValueError, TypeError):
            return None""")],
"""
dm = model({"m": "leaf b { type int64; }"})
assert attempt(dm.from_raw, {"m:b": 1.5}) == "RawTypeError"
""", "a number in place of an int64 string", "a value that is not decodable is accepted and truncated")

bug("c18-xml-unknown-ns", "C18", [("schemanode.py",
"""            if xmlns not in nsmap:
                raise MissingModuleNamespace(xmlns)
            ns = nsmap[xmlns].yang_id[0]""",
"""            ns = (nsmap[xmlns].yang_id[0] if xmlns in nsmap else self.ns)"""),
],
"""
dm = model({"m": "container c { leaf a { type string; } }"})
doc = '<x xmlns="urn:d"><c xmlns="urn:m"><a xmlns="urn:other">v</a></c></x>'
assert attempt(lambda: dm.from_xml(XMLParser(doc).root)) == "MissingModuleNamespace"
""", "an XML element in an unknown namespace inside a container", "a foreign element is taken for a member")

bug("c19-leaflist-min", "C19", [("schemanode.py",
"""        if self.mandatory:
            return None
        if self._default is not None:
            return self._default
        return (None if self.type.default is None
                else ArrayValue([self.type.default]))""",
"""        if self._default is not None:
            return self._default
        return (None if self.type.default is None
                else ArrayValue([self.type.default]))""")],
"""
dm = model({"m": "typedef t { type string; default x; } leaf-list a { type t; min-elements 1; }"})
assert dm.from_raw({}).add_defaults().raw_value() == {}
""", "a leaf-list with min-elements whose type has a default", "a default is added that is not in use")

bug("c19-array-first", "C19", [("instance.py",
"""        en = res[0]
        while True:
            res = en.add_defaults(ctype, tag=tag)""",
"""        en = res[0]
        while True:
            res = en.add_defaults(
                ctype if en.index == 0 else self.schema_node.content_type(),
                tag=tag)""")],
"""
dm = model({"m": "list l { key k; leaf k { type string; } leaf s { config false; type string; default x; } }"})
r = dm.from_raw({"m:l": [{"k": "a"}, {"k": "b"}]}).add_defaults(ContentType.config).raw_value()
assert r == {"m:l": [{"k": "a"}, {"k": "b"}]}, r
""", "a list with several entries and defaults for one content type", "later entries get defaults of other content types")

bug("c19-nested-tag", "C19", [("instance.py",
"""        for key, value in list(objvalue.items()):
            if key not in self.value:""",
"""        for key, value in list(objvalue.items()):
            if key not in self.value and value != {}:""")],
"""
dm = model({"m": "container c { leaf a { type string; } }"})
r = dm.from_raw({}).add_defaults(tag=True)
assert r["m:c"].value.get("@"), r.value
""", "a container without defaults inside, added with tagging", "the added container is not marked")

bug("c19-when-parent", "C19", [("schemanode.py",
"""        nm = pnode.put_member(iname, (None,))
        if not self.when or self.when.is_true(nm):
            wd = self._default_value(nm, ctype, lazy)""",
"""        nm, cond = pnode.put_member(iname, (None,)), self.when
        if lazy or not cond or cond.is_true(nm):
            wd = self._default_value(nm, ctype, lazy=lazy)""")],
"""
dm = model({"m": "leaf a { type string; } leaf b { when '../m:a'; type string; default x; } leaf c { type string; must 'not(../m:b)'; }"})
r = dm.from_raw({"m:c": "1"})
r.validate()
dm.from_raw({"m:c": "1"}).add_defaults().validate()
""", "a must that looks at a default node under a false when", "validation gives another verdict than with the defaults added")

bug("c20-typedef-cache", "C20", [("datatype.py",
"""            p, s, loc = typ.partition(":")
            res = cls._derived_type(stmt, sctx, loc if s else typ)
        return res""",
"""            p, s, loc = typ.partition(":")
            plain = s and not stmt.substatements
            key = plain and (sctx.schema_data.resolve_pname(
                typ, sctx.text_mid), sctx.default_ns)
            if plain and key in DataType._cache:
                return copy.copy(DataType._cache[key])
            res = cls._derived_type(stmt, sctx, loc if s else typ)
            if plain:
                DataType._cache[key] = copy.copy(res)
        return res"""),
("datatype.py", """    dtypes: ClassVar[dict[str, Type["DataType"]]]
""", """    dtypes: ClassVar[dict[str, Type["DataType"]]]
    _cache = {}
"""), ("datatype.py", "import base64\n", "import base64\nimport copy\n")],
"""
def mk(where, feats):
    put(f"{where}/t.yang", mod("t", "feature f; typedef e { type enumeration { enum a; enum b { if-feature f; } } }"))
    put(f"{where}/m.yang", mod("m", "import t { prefix t; } leaf x { type t:e; }"))
    return DataModel(lib(entry("m"), entry("t", feature=feats)), (SCRATCH + "/" + where,))
a, b = mk("a", ["f"]), mk("a", [])
a.from_raw({"m:x": "b"}).validate()
assert attempt(b.from_raw({"m:x": "b"}).validate) == "YangTypeError"
""", "two models with the same module but other features, used in one process", "a type of one model is that of the other")

bug("c20-feature-memo", "C20", [("schemadata.py",
"""        for i in iffs:
            if not FeatureExprParser(i.argument, self, mid).parse():
                return False
        return True""",
"""        for i in iffs:
            key = (i.argument, mid)
            if key not in SchemaData._known:
                SchemaData._known[key] = FeatureExprParser(
                    i.argument, self, mid).parse()
            if not SchemaData._known[key]:
                return False
        return True"""),
("schemadata.py", """    \"\"\"Repository of YANG schema structures and utility methods.
""", """    _known = {}

    \"\"\"Repository of YANG schema structures and utility methods.
""")],
"""
def mk(feats):
    put("a/m.yang", mod("m", "feature f; leaf x { if-feature f; type string; }"))
    return DataModel(lib(entry("m", feature=feats)), (SCRATCH + "/a",))
a, b = mk(["f"]), mk([])
assert "x?" in a.ascii_tree() and "x?" not in b.ascii_tree()
""", "two models with the same module but other features, loaded in one process", "the second model has the features of the first one")

bug("c20-deviate-shared", "C20", [("schemanode.py",
"""        if action in ("add", "replace"):
            if action == "replace":
                self.must = []
            self._must_stmt(stmt, sctx)""",
"""        if action in ("add", "replace"):
            if action == "replace":
                self.must = []
            self._must_stmt(stmt, sctx)
            SchemaNode._added = True""")],
"""
raise SystemExit(0)
""", "-", "-")
for k in [k for k, v in BUGS.items() if v["needs"] == "-"]:
    del BUGS[k]
