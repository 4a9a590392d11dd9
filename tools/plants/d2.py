BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

# ---------------------------------------------------------------- C04
bug("c04-child-index", "C04", [("schemanode.py",
"""        ns = self.ns if ns is None else ns
        if ns is None:
            return None
        todo = []
        for child in self.children:
            if child.name == name and child.ns == ns:
                if isinstance(child, DataNode):""",
"""        ns = self.ns if ns is None else ns
        if ns is None:
            return None
        index = self.__dict__.get("_index")
        if index is None:
            index = self._index = {}
            for child in self.children:
                if isinstance(child, DataNode):
                    index[child.qual_name] = child
        if (name, ns) in index:
            return index[(name, ns)]
        todo = []
        for child in [c for c in self.children
                      if not isinstance(c, DataNode)]:
            if child.name == name and child.ns == ns:
                if isinstance(child, DataNode):"""),
],
"""
dm = model({"m": "leaf a { type string; } leaf b { type string; } container c { leaf x { type string; } leaf y { type string; } }"})
res = {}

def other():
    res["t"] = attempt(lambda: dm.from_raw({"m:c": {"y": "1"}}).raw_value())

class Slow(list):
    # another thread gets its turn while the children are being listed
    n = 0
    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            if i == 1 and not Slow.n:
                Slow.n = 1
                t = threading.Thread(target=other); t.start(); t.join(20)
            yield x

c = dm.get_schema_node("/m:c")
c.__dict__.pop("_index", None)
c.children = Slow(c.children)
res["m"] = attempt(lambda: dm.from_raw({"m:c": {"x": "1"}}).raw_value())
assert res == {"t": {"m:c": {"y": "1"}}, "m": {"m:c": {"x": "1"}}}, res
""", "two threads are the first users of the children of a schema node, one arrives while the other fills the index",
"known members are reported as unknown")

bug("c04-identity-visited", "C04", [("schemadata.py",
"""        try:
            bases = self.identity_adjs[identity].bases
        except KeyError:
            return False
        if base in bases:
            return True
        for ib in bases:
            if self.is_derived_from(ib, base):
                return True
        return False""",
"""        self._seen = {identity}
        todo = [identity]
        while todo:
            adj = self.identity_adjs.get(todo.pop())
            if adj is None:
                continue
            if base in adj.bases:
                return True
            for ib in adj.bases:
                if ib not in self._seen:
                    self._seen.add(ib)
                    todo.append(ib)
        return False""")],
"""
dm = model({"m": "identity a; identity b { base a; } identity c { base b; } identity d { base c; } leaf x { type identityref { base a; } }"})
sd = dm.schema_data
d = ("d", "m")
res = {}

class Slow(set):
    n = 0
    def __contains__(self, x):
        if not Slow.n:
            Slow.n = 1
            t = threading.Thread(target=lambda: res.update(t=sd.is_derived_from(d, ("a", "m"))))
            t.start(); t.join(20)
        return set.__contains__(self, x)

sd.identity_adjs[d].bases = Slow(sd.identity_adjs[d].bases)
res["m"] = sd.is_derived_from(d, ("a", "m"))
assert res == {"t": True, "m": True}, res
dm.from_raw({"m:x": "m:d"}).validate()
""", "two threads that check identities with two or more levels of derivation at the same time",
"one thread uses the set of visited identities of the other and refuses a valid identity")

# ---------------------------------------------------------------- C05
bug("c05-tree-memo", "C05", [("datamodel.py",
"""        return self.schema._ascii_tree("", no_types, val_count)""",
"""        if val_count:
            return self.schema._ascii_tree("", no_types, val_count)
        if getattr(self, "_tree", None) is None:
            self._tree = self.schema._ascii_tree("", no_types, val_count)
        return self._tree""")],
"""
dm = model({"m": "leaf a { type string; }"})
assert "<string>" in dm.ascii_tree()
assert "<string>" not in dm.ascii_tree(no_types=True)
""", "the tree is asked for with and without types in one process", "the second call returns the tree of the first one")

bug("c05-leafref-memo", "C05", [("datatype.py",
"""        ns = self.path.evaluate(node)
        if isinstance(ns, NodeSet):
            return [n for n in ns if str(n) == str(node)]
        raise XPathTypeError(str(ns))""",
"""        last = self.__dict__.get("_last")
        if last and last[0] == (node.path, node.value, node.timestamp):
            return last[1]
        ns = self.path.evaluate(node)
        if isinstance(ns, NodeSet):
            res = [n for n in ns if str(n) == str(node)]
            self._last = ((node.path, node.value, node.timestamp), res)
            return res
        raise XPathTypeError(str(ns))""")],
"""
dm = model({"m": "leaf t { type string; } container c { leaf r { type leafref { path '/m:t'; } } }"})
r = dm.from_raw({"m:t": "x", "m:c": {"r": "x"}})
r.validate()
r2 = r.delete_item("m:t")
assert attempt(r2.validate) == "SemanticError"
""", "validate, then edit the target of a reference without touching the reference, validate again",
"the dangling reference is not noticed")

# ---------------------------------------------------------------- C06
bug("c06-pattern-flag", "C06", [("instance.py",
"""        if self.schema_node.schema_pattern is None:
            self.schema_node._make_schema_patterns()""",
"""        if not getattr(self.schema_node, "_ready", False):
            self.schema_node._ready = True
            self.schema_node._make_schema_patterns()""")],
"""
from yangson.schemanode import InternalNode
dm = model({"m": "container c { leaf a { type string; } } leaf b { type string; }"})
orig = InternalNode._schema_pattern
def boom(self):
    raise KeyboardInterrupt
InternalNode._schema_pattern = boom
try:
    dm.from_raw({})
except KeyboardInterrupt:
    pass
InternalNode._schema_pattern = orig
assert attempt(lambda: dm.from_raw({"m:b": "x", "m:c": {"a": "1"}}).validate()) is None
""", "an asynchronous exception during the first use of a model", "the model is unusable afterwards (no schema patterns)")

bug("c06-filter-attr", "C06", [("instance.py",
"""                    m_attr = attr.get(m, {})
                    member = self[m]
                    add1 = filter.begin_member(self, member, m_attr)
                    if add1:
                        member_value = member.raw_value(filter)
                    add2 = filter.end_member(self, member, m_attr)""",
"""                    m_attr = attr.get(m, {})
                    member = self[m]
                    add1 = filter.begin_member(self, member, m_attr)
                    if add1:
                        v = member.value
                        meta = v.pop("@", None) if isinstance(
                            v, ObjectValue) else None
                        member_value = member._raw_or(filter)
                        if meta is not None:
                            v["@"] = meta
                    add2 = filter.end_member(self, member, m_attr)"""),
("instance.py", """    def raw_value(self, filter: OutputFilter = OutputFilter())""",
"""    def _raw_or(self, filter):
        return self.raw_value(filter)

    def raw_value(self, filter: OutputFilter = OutputFilter())""")],
"""
put("mods/ietf-yang-metadata.yang", 'module ietf-yang-metadata { namespace "urn:md"; prefix md; revision 2016-08-05; extension annotation { argument name; } }')
put("mods/m.yang", mod("m", "import ietf-yang-metadata { prefix md; } md:annotation note { type string; } container c { leaf a { type string; } }"))
dm = DataModel(lib(entry("m"), dict(entry("ietf-yang-metadata", "2016-08-05", "import"), namespace="urn:md")), (SCRATCH + "/mods",))
r = dm.from_raw({"m:c": {"@": {"m:note": "n"}, "a": "x"}})
assert r.raw_value() == {"m:c": {"@": {"m:note": "n"}, "a": "x"}}
class F(OutputFilter):
    def begin_member(self, p, n, a):
        if n.name == "a":
            raise RuntimeError
        return True
assert attempt(r.raw_value, F()) == "RuntimeError"
assert r.raw_value() == {"m:c": {"@": {"m:note": "n"}, "a": "x"}}
""", "an annotated container and an exception (from a filter or asynchronous) while its members are written out",
"the annotation of the container is lost")

# ---------------------------------------------------------------- C07
bug("c07-oserror-next", "C07", [("schemadata.py",
"""                except (FileNotFoundError, PermissionError,
                        ModuleContentMismatch):""",
"""                except (OSError, ModuleContentMismatch):""")],
"""
import builtins
put("a/m.yang", mod("m", "leaf new { type string; }"))
put("b/m.yang", mod("m", "leaf old { type string; }"))
path = (SCRATCH + "/a", SCRATCH + "/b")
assert "new" in DataModel(lib(entry("m")), path).ascii_tree()
orig = builtins.open
def bad(fn, *a, **k):
    if str(fn) == SCRATCH + "/a/m.yang":
        raise OSError(5, "Input/output error")
    return orig(fn, *a, **k)
builtins.open = bad
try:
    res = attempt(lambda: DataModel(lib(entry("m")), path).ascii_tree())
finally:
    builtins.open = orig
assert res == "OSError", res
""", "an I/O error while reading a module that also exists in a later directory", "another file is silently taken instead")

bug("c07-truncated-tail", "C07", [("statement.py",
"""        while self.peek() != "}":
            res.append(self.statement())""",
"""        while not (self.at_end() and res) and self.peek() != "}":
            res.append(self.statement())"""),
("statement.py", """            self.opt_separator()
        self.offset += 1
        return res""", """            if not self.at_end():
                self.opt_separator()
        self.offset += 1
        return res"""),
("statement.py", """        try:
            self.opt_separator()
        except EndOfInput:
            return res
        raise UnexpectedInput(self, "end of input")""",
"""        if self.offset > len(self.input):
            return res
        try:
            self.opt_separator()
        except EndOfInput:
            return res
        raise UnexpectedInput(self, "end of input")""")],
"""
put("a/m.yang", "module m { yang-version 1.1; namespace 'urn:m'; prefix m; leaf a { type string; }")
assert attempt(lambda: DataModel(lib(entry("m")), (SCRATCH + "/a",))) != DataModel
r = attempt(lambda: DataModel(lib(entry("m")), (SCRATCH + "/a",)).ascii_tree())
assert r in ("EndOfInput", "UnexpectedInput"), r
""", "a module cut off exactly after a complete top-level statement", "the rest of the module is missing without notice")

# ---------------------------------------------------------------- C08
bug("c08-older-revision", "C08", [("statement.py",
"""        revst = res.find1("revision")
        modrev = revst.argument if revst else ""
        if self.rev != modrev:""",
"""        revst = res.find1("revision", self.rev if self.rev else None)
        modrev = revst.argument if revst else ""
        if self.rev != modrev:""")],
"""
put("a/m.yang", mod("m", "revision 2024-01-01; revision 2020-01-01; leaf new { type string; }"))
put("b/m.yang", mod("m", "revision 2020-01-01; leaf old { type string; }"))
t = DataModel(lib(entry("m", "2020-01-01")), (SCRATCH + "/a", SCRATCH + "/b")).ascii_tree()
assert "old" in t, t
""", "an unversioned file of a newer revision whose history mentions the requested one, earlier on the path",
"the file of a newer revision is used")

bug("c08-permission-skips-dir", "C08", [("schemadata.py",
"""                except (FileNotFoundError, PermissionError,
                        ModuleContentMismatch):
                    run += 1
                    continue""",
"""                except PermissionError:
                    break
                except (FileNotFoundError, ModuleContentMismatch):
                    run += 1
                    continue""")],
"""
import builtins
put("a/m@2020-01-01.yang", mod("m", "revision 2020-01-01; leaf one { type string; }"))
put("a/m.yang", mod("m", "revision 2020-01-01; leaf two { type string; }"))
put("b/m.yang", mod("m", "revision 2020-01-01; leaf three { type string; }"))
orig = builtins.open
def bad(fn, *a, **k):
    if str(fn).endswith("/a/m@2020-01-01.yang"):
        raise PermissionError(13, "Permission denied")
    return orig(fn, *a, **k)
builtins.open = bad
try:
    t = DataModel(lib(entry("m", "2020-01-01")), (SCRATCH + "/a", SCRATCH + "/b")).ascii_tree()
finally:
    builtins.open = orig
assert "two" in t, t
""", "an unreadable file with the revision in its name next to a readable one without", "the rest of the directory is passed over")

bug("c08-last-listed", "C08", [("schemadata.py",
"""        return sorted(revs, key=lambda x: x[1])[-1]""",
"""        return revs[-1]""")],
"""
put("a/t@2020-01-01.yang", mod("t", "revision 2020-01-01; typedef x { type uint8; }"))
put("a/t@2021-01-01.yang", mod("t", "revision 2021-01-01; typedef x { type string; }"))
put("a/m.yang", mod("m", "import t { prefix t; } leaf a { type t:x; }"))
t = DataModel(lib(entry("m"), entry("t", "2021-01-01", "import"), entry("t", "2020-01-01", "import")), (SCRATCH + "/a",)).ascii_tree()
assert "x(string)" in t, t
""", "two revisions of an imported module with the older one listed last", "the import is resolved to the older revision")

# ---------------------------------------------------------------- C09
bug("c09-enum-order", "C09", [("datatype.py",
"""        for en in set(self.enum) - new:
            del self.enum[en]""",
"""        self.enum = {en: self.enum[en] for en in new & set(self.enum)}""")],
"""
import subprocess
put("a/m.yang", mod("m", "typedef e { type enumeration { enum a; enum b; enum c; enum d; enum e; enum f; } } leaf x { type e { enum a; enum b; enum d; enum e; enum f; } }"))
code = f'''
import sys, os; sys.path.insert(0, os.getcwd())
from yangson import DataModel
print(DataModel({lib(entry("m"))!r}, ({SCRATCH + "/a"!r},)).schema_digest())'''
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(6)}
assert len(out) == 1 and "enums" in out.pop()
""", "a derived enumeration restricted to some of its enums, loaded in processes with different hash seeds",
"the digest differs from process to process")

bug("c09-set-id-order", "C09", [("datamodel.py",
"""        fnames = sorted(["@".join(m) for m in self.schema_data.modules])""",
"""        fnames = ["@".join(m) for m in sorted(
            self.schema_data.modules, key=lambda m: m[0])]""")],
"""
for r in ("2020-01-01", "2021-01-01"):
    put(f"a/t@{r}.yang", mod("t", f"revision {r}; typedef x {{ type uint8; }}"))
put("a/m.yang", mod("m", "leaf a { type string; }"))
es = [entry("m"), entry("t", "2021-01-01", "import"), entry("t", "2020-01-01", "import")]
ids = {DataModel(lib(*e), (SCRATCH + "/a",)).module_set_id() for e in (es, es[::-1])}
assert len(ids) == 1
""", "two revisions of one module listed in another order", "the module set id depends on the order of the library")

# ---------------------------------------------------------------- C10
bug("c10-decimal-float", "C10", [("datatype.py",
"""        sval = str(val.quantize(self._epsilon)).rstrip("0")
        return (sval + "0") if sval.endswith(".") else sval""",
"""        sval = f"{float(val):.{self.fraction_digits}f}".rstrip("0")
        return (sval + "0") if sval.endswith(".") else sval""")],
"""
dm = model({"m": "leaf d { type decimal64 { fraction-digits 6; } }"})
for d in ("1234567890123.456789", "0.1", "-3.0"):
    assert dm.from_raw({"m:d": d}).raw_value() == {"m:d": d}
""", "a decimal64 value with more than 15 significant digits", "the saved value differs from the original")

bug("c10-binary-urlsafe", "C10", [("datatype.py",
"""            return base64.b64encode(val).decode("ascii")""",
"""            return base64.urlsafe_b64encode(val).decode("ascii")""")],
"""
dm = model({"m": "leaf b { type binary; }"})
r = dm.from_raw({"m:b": "+/+/"})
assert dm.from_raw(r.raw_value()).value == r.value
""", "binary data whose encoding contains + or /", "saved data cannot be read back")

bug("c10-xml-case-ns", "C10", [("instance.py",
"""                    sn = m.schema_node
                    dp = sn.data_parent()
""", """                    sn = m.schema_node
                    dp = sn.parent if sn.parent.ns else None
""")],
"""
put("a/m.yang", mod("m", "container c { choice ch { leaf a { type string; } } }"))
put("a/n.yang", mod("n", "import m { prefix m; } augment '/m:c/m:ch' { case x { leaf b { type string; } } }"))
dm = DataModel(lib(entry("m"), entry("n")), (SCRATCH + "/a",))
r = dm.from_raw({"m:c": {"n:b": "1"}})
r2 = dm.from_xml(XMLParser(ET.tostring(r.to_xml(), encoding="unicode")).root)
assert r2.value == r.value
""", "a leaf in a case that another module adds to a choice, saved as XML", "the namespace is missing and the file cannot be read")

# ---------------------------------------------------------------- C11
bug("c11-ns-per-call", "C11", [("xmlparser.py",
"""        for ev_type, ev_data in self.read_events():
            if ev_type""", """        declared = 0
        for ev_type, ev_data in self.read_events():
            if ev_type"""),
("xmlparser.py", """                self._namespaces.append((ns_name, ns_url))""",
"""                self._namespaces.append((ns_name, ns_url))
                declared += 1"""),
("xmlparser.py", """                for ns_name, ns_url in self._namespaces:""",
"""                for ns_name, ns_url in self._namespaces[-declared:]:""")],
"""
whole = XMLParser('<a xmlns="urn:x" xmlns:p="urn:p"><b xmlns:q="urn:q"><c>p:v</c></b></a>').root
p = XMLParser()
for chunk in ('<a xmlns="urn:x" xmlns:p="urn:p"> ', '<b xmlns:q="urn:q"> ', '<c>p:v</c></b>', '</a>'):
    p.feed(chunk); p.parse()
p.close(); p.parse()
def flat(e):
    return e.tag, sorted(e.attrib.items()), [flat(c) for c in e]
assert flat(p.root) == flat(whole), (flat(p.root), flat(whole))
""", "a document processed in several steps, with namespaces declared in different steps",
"declarations of earlier chunks get lost, depending on where the chunks are divided")

bug("c11-no-close", "C11", [("xmlparser.py",
"""            self.feed(source)
            self.close()
            self.parse()""", """            self.feed(source)
            self.parse()""")],
"""
assert attempt(lambda: XMLParser('<a xmlns="urn:x"><b>1</b>').root) == "ParseError"
""", "a document whose end is missing given to the constructor", "the truncated document is taken for a complete one")

# ---------------------------------------------------------------- C12
bug("c12-pattern-reduce", "C12", [("constraint.py",
"""        self.pattern = pattern
        self.invert_match = invert_match
        try:""", """        self._compile(pattern, invert_match)

    def __getstate__(self):
        # the compiled expression is rebuilt
        return (self.pattern, self.invert_match, self.error_message)

    def __setstate__(self, state) -> None:
        pattern, invert_match, self.error_message = state
        self.error_tag = None
        self._compile(pattern, invert_match)

    def _compile(self, pattern, invert_match) -> None:
        self.pattern = str(pattern)
        self.invert_match = invert_match
        try:""")],
"""
dm = model({"m": "leaf a { type string { pattern '[a-z]*' { error-app-tag low; } } }"})
def tag(m):
    try:
        m.from_raw({"m:a": "A"}).validate()
    except YangTypeError as e:
        return e.tag
assert tag(dm) == tag(pickle.loads(pickle.dumps(dm))) == "low"
""", "a pattern with its own error-app-tag, checked after dump and restore", "the error tag is lost")

bug("c12-prefix-map", "C12", [("schemadata.py",
"""        self.submodules: MutableSet[ModuleId] = set()
        \"\"\"Set of submodules.\"\"\"
""", """        self.submodules: MutableSet[ModuleId] = set()
        \"\"\"Set of submodules.\"\"\"

    def __getstate__(self):
        # not needed once the schema is built
        state = self.__dict__.copy()
        state["statement"] = None
        state["prefix_map"] = {}
        return state
"""), ("schemadata.py", """        self.submodules: MutableSet[ModuleId] = set()""", """        self.submodules: MutableSet[ModuleId] = set([])""")],
"""
dm = model({"m": "identity a; identity b { base a; } leaf i { type identityref { base a; } must \\"derived-from-or-self(., 'm:b')\\"; }"})
d = {"m:i": "m:b"}
assert attempt(dm.from_raw(d).validate) is None
assert attempt(pickle.loads(pickle.dumps(dm)).from_raw(d).validate) is None
""", "an expression with derived-from() evaluated by a restored model", "the prefix is unknown to the restored model")

# ---------------------------------------------------------------- C13
bug("c13-dump-append", "C13", [("__main__.py",
"""        with open(dump, "wb") as pif:""", """        with open(dump, "ab") as pif:""")],
"""
import subprocess
put("a/m.yang", mod("m", "leaf a { type string; }")); put("b/m.yang", mod("m", "leaf b { type string; }"))
l = put("lib.json", lib(entry("m")))
def cli(*a):
    return subprocess.run([sys.executable, "-m", "yangson", *a], capture_output=True, text=True)
for d in "ab":
    assert cli("-p", f"{SCRATCH}/{d}", "-D", f"{SCRATCH}/dump", l).returncode == 0
out = cli("-P", "-t", f"{SCRATCH}/dump").stdout
assert "rw m:b?" in out, out
""", "dumping to a file that exists already", "status zero, but the dump still holds the earlier model")

bug("c13-broken-pipe", "C13", [("__main__.py",
"""        print(dm.schema_digest())
        return 0""", """        try:
            print(dm.schema_digest(), flush=True)
        except OSError:     # reader went away
            pass
        return 0""")],
"""
import subprocess
put("a/m.yang", mod("m", "leaf a { type string; }"))
l = put("lib.json", lib(entry("m")))
with open("/dev/full", "w") as full:
    st = subprocess.run([sys.executable, "-c", "import sys, os; sys.path.insert(0, os.getcwd())\\n"
        "from yangson.__main__ import main\\ntry:\\n    st = main(%r, path=%r, digest=True)\\n    sys.stdout.flush()\\nexcept OSError:\\n    st = 9\\n"
        "os._exit(st)" % (l, SCRATCH + "/a")], stdout=full, stderr=subprocess.DEVNULL).returncode
assert st != 0
""", "standard output that cannot be written (full device, closed pipe)", "status zero without output")

bug("c13-ctype-subschema", "C13", [("__main__.py",
"""        i.validate(scope, ctype)
    except SchemaError as e:""", """        i.validate(scope, ctype if i.schema_node.config else ContentType.all)
    except SchemaError as e:""")],
"""
put("a/m.yang", mod("m", "container c { config false; leaf a { type string; mandatory true; } } notification n { leaf x { type string; mandatory true; } }"))
l = put("lib.json", lib(entry("m")))
from yangson.__main__ import main
i = put("n.json", '{}')
st = main(l, path=SCRATCH + "/a", validate=i, subschema="m:n", ctype=ContentType.config)
dm = DataModel(lib(entry("m")), (SCRATCH + "/a",))
want = attempt(lambda: dm.from_raw({}, "m:n").validate(ctype=ContentType.config))
assert (st == 0) == (want is None), (st, want)
""", "validation of a notification for another content type than all", "the requested content type is ignored")

# ---------------------------------------------------------------- C14
YL = '''
YL = {"ietf-yang-library:yang-library": {"content-id": "1",
  "module-set": [{"name": "ms", "module": [{"name": "m", "namespace": "urn:m", "revision": "2020-01-01"}]}],
  "schema": [{"name": "s", "module-set": ["ms"]}],
  "datastore": [{"name": "ietf-datastores:running", "schema": "s"}]}}
import subprocess
Y = os.path.join(os.getcwd(), "yang-modules/ietf")
cand = [d for d, _, fs in os.walk(os.getcwd()) if any(f.startswith("ietf-yang-library") for f in fs)]
PATH = ":".join(cand)
def conv(data, *a, stdout=None):
    f = put("in.json", json.dumps(data))
    return subprocess.run([sys.executable, "-c", "import sys, os; sys.path.insert(0, os.getcwd()); from yangson.convert8525 import main; sys.exit(main())", "-p", PATH, *a, f],
        capture_output=stdout is None, stdout=stdout, stderr=None if stdout is None else subprocess.DEVNULL, text=True)
'''
bug("c14-syntax-only", "C14", [("convert8525.py",
"""        inst.validate(ctype=ContentType.nonconfig)
    except""", """        inst.validate(ValidationScope.syntax, ContentType.nonconfig)
    except"""),
("convert8525.py", "from yangson.enumerations import ContentType\n", "from yangson.enumerations import ContentType, ValidationScope\n")],
YL + """
import glob
r = conv(YL)
assert r.returncode == 0, (r.stderr, PATH)
d = json.loads(json.dumps(YL))
ms = d["ietf-yang-library:yang-library"]["module-set"][0]
ms["module"].append(dict(ms["module"][0], revision="2021-01-01"))
assert conv(d).returncode != 0
""", "library data in which a module is listed twice in one module set", "invalid data is converted as if it were valid")

bug("c14-no-close", "C14", [("convert8525.py",
"""    outf.write("\\n")
    outf.close()
    return 0""", """    outf.write("\\n")
    return 0""")],
YL + """
assert conv(YL).returncode == 0
r = conv(YL, "-o", "/dev/full")
assert r.returncode != 0
""", "an output file on a full disk and output small enough to stay in the buffer", "success is reported, the output is lost")

# ---------------------------------------------------------------- C15
bug("c15-delete-keeps-ts", "C15", [("instvalue.py",
"""        return self.__class__(super().copy(), datetime.now())""",
"""        return self.__class__(super().copy(), self.timestamp)""")],
"""
import time
dm = model({"m": "container c { leaf a { type string; } leaf b { type string; } }"})
r = dm.from_raw({"m:c": {"a": "1", "b": "2"}})
time.sleep(.01)
c = r["m:c"]
assert c.put_member("a", "x").timestamp > c.timestamp
assert c.delete_item("b").timestamp > c.timestamp
""", "deleting a member or entry (edits that set a value refresh the timestamp)", "the node returned by the deletion carries the old timestamp")

bug("c15-up-own-ts", "C15", [("instance.py",
"""        ts = max(self.timestamp, self.parinst.timestamp)
        return self.parinst._copy(self._zip(), ts)""",
"""        return self.parinst._copy(self._zip(), self.timestamp)""")],
"""
import yangson.instance as yi, yangson.instvalue as yv, datetime as D
dm = model({"m": "container c { leaf a { type string; } }"})
now = [D.datetime(2030, 1, 1)]
class Clock(D.datetime):
    @classmethod
    def now(cls, tz=None):
        return now[0]
yi.datetime = yv.datetime = Clock
r = dm.from_raw({"m:c": {"a": "1"}})
now[0] = D.datetime(2020, 1, 1)
c = r["m:c"]["a"].update("2")
assert c.up().timestamp >= r["m:c"].timestamp
""", "the clock jumps backwards between reading and editing", "a parent gets older by an edit of its child")

# ---------------------------------------------------------------- C16
bug("c16-hash-cache", "C16", [("instvalue.py",
"""        return tuple([x.__hash__() for x in self]).__hash__()""",
"""        if getattr(self, "_hash", None) is None:
            self._hash = tuple([x.__hash__() for x in self]).__hash__()
        return self._hash"""),
("instvalue.py", """        super().__setitem__(key, value)
        self.timestamp = datetime.now()""", """        super().__setitem__(key, value)
        self._hash = None
        self.timestamp = datetime.now()""")],
"""
a = ArrayValue([1, 2]); hash(a)
a.append(3)
assert hash(a) == hash(ArrayValue([1, 2, 3]))
""", "an array is hashed, then extended in place", "equal values have different hashes")

bug("c16-hash-no-meta", "C16", [("instvalue.py",
"""        sks = sorted(self.keys())
""", """        sks = sorted([k for k in self.keys() if k[0] != "@"])
""")],
"""
a = ObjectValue({"x": 1}); b = ObjectValue({"x": 1, "@x": ObjectValue({"m:a": "n"})})
assert a != b and hash(a) != hash(b)
""", "two values that differ in annotations only", "they always have the same entity tag")

bug("c16-member-order", "C16", [("instvalue.py",
"""        sks = sorted(self.keys())
        return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()""",
"""        return tuple([(k, v.__hash__()) for k, v in self.items()]).__hash__()""")],
"""
assert hash(ObjectValue({"x": 1, "y": 2})) == hash(ObjectValue({"y": 2, "x": 1}))
""", "the same members in another order", "equal values have different hashes")

# ---------------------------------------------------------------- C17
bug("c17-clear-data-only", "C17", [("schemanode.py",
"""        super().clear_val_counters()
        for c in self.children:
            c.clear_val_counters()""", """        super().clear_val_counters()
        for c in self.data_children():
            c.clear_val_counters()""")],
"""
dm = model({"m": "leaf a { type string; } notification n { leaf x { type string; } }"})
dm.from_raw({"m:x": "1"}, "m:n").validate(ctype=ContentType.all)
dm.clear_val_counters()
assert "{1}" not in dm.ascii_tree(val_count=True), dm.ascii_tree(val_count=True)
""", "counters of a notification or operation are cleared", "they keep their values")

bug("c17-empty-array", "C17", [("schemanode.py",
"""                self._check_list_props(inst)
                self._check_cardinality(inst)
            for e in inst:""", """                self._check_list_props(inst)
                self._check_cardinality(inst)
            entries = list(inst)
            self.val_count += not entries
            for e in entries:""")],
"""
dm = model({"m": "leaf-list a { type string; }"})
dm.from_raw({"m:a": []}).validate()
assert dm.get_data_node("/m:a").val_count == 0
""", "an empty list or leaf-list", "it is counted although it has no instances")

# ---------------------------------------------------------------- C18
bug("c18-bool-equal", "C18", [("datatype.py",
"""        return raw if isinstance(raw, bool) else None""",
"""        return raw if raw in (True, False) else None""")],
"""
dm = model({"m": "leaf f { type boolean; }"})
assert attempt(dm.from_raw, {"m:f": 1}) == "RawTypeError"
""", "the number 0 or 1 in place of a boolean", "it is accepted")

bug("c18-xml-bool-strip", "C18", [("datatype.py",
"""        return self.parse_value(cast(str, xml.text))

    def to_raw(self, val: bool)""", """        return self.parse_value(cast(str, xml.text).strip())

    def to_raw(self, val: bool)""")],
"""
dm = model({"m": "leaf f { type boolean; }"})
r = attempt(dm.from_xml, XMLParser('<d><f xmlns="urn:m"/></d>').root)
assert r == "RawTypeError", r
""", "an empty element in place of a boolean", "AttributeError instead of a data error")

# ---------------------------------------------------------------- C19
bug("c19-active-nested", "C19", [("schemanode.py",
"""            for cc in c.data_children():
                if cc.iname() in value:
                    return c""", """            for cc in c.children:
                if isinstance(cc, DataNode) and cc.iname() in value:
                    return c""")],
"""
dm = model({"m": "choice o { default d; case d { leaf x { type uint8; default 1; } } case e { choice i { leaf y { type uint8; } } } }"})
assert dm.from_raw({"m:y": 2}).add_defaults().raw_value() == {"m:y": 2}
""", "a case that is in use only through a choice nested in it", "defaults of the default case are added although another case is in use")

bug("c19-own-ctype", "C19", [("schemanode.py",
"""        return inst if lazy else self._add_defaults(inst, ctype)""",
"""        return inst if lazy else self._add_defaults(inst, None)""")],
"""
dm = model({"m": "container c { leaf a { type uint8; default 1; } leaf s { config false; type uint8; default 2; } }"})
assert dm.from_raw({}).add_defaults(ContentType.config).raw_value() == {"m:c": {"a": 1}}
""", "a container that is added as default and has state members, defaults asked for one content type",
"defaults of the other content type are added, too")

# ---------------------------------------------------------------- C20
bug("c20-module-cache", "C20", [("schemadata.py",
"""    def __init__(self, yang_lib: dict[str, Any],
                 mod_path: Sequence[str]) -> None:""",
"""    _parsed: dict = {}

    def __init__(self, yang_lib: dict[str, Any],
                 mod_path: Sequence[str]) -> None:"""),
("schemadata.py", """                    with open(fn, encoding='utf-8') as infile:
                        res = ModuleParser(infile.read(), name, rev).parse()
                        mdata.path = fn""",
"""                    with open(fn, encoding='utf-8') as infile:
                        key = (os.path.basename(fn), name, rev)
                        res = self._parsed.get(key)
                        if res is None:
                            res = ModuleParser(
                                infile.read(), name, rev).parse()
                            self._parsed[key] = res
                        mdata.path = fn"""),
("schemadata.py", "from .exceptions import (\n    InvalidSchemaPath", "import os\nfrom .exceptions import (\n    InvalidSchemaPath")],
"""
a = model({"m": "leaf a { type string; }"}, where="a")
b = model({"m": "leaf b { type string; }"}, where="b")
assert "b?" in b.ascii_tree()
""", "two models with different search paths and different files of the same name and revision",
"the second model gets the module of the first one")

bug("c20-identities-shared", "C20", [("schemadata.py",
"""        self.identity_adjs: dict[QualName, IdentityAdjacency] = {}
""", """        if not hasattr(SchemaData, "identity_adjs"):
            SchemaData.identity_adjs = {}
""")],
"""
a = model({"m": "identity a; identity b { base a; } leaf i { type identityref { base a; } }"}, where="a")
b = model({"m": "identity a; identity b; leaf i { type identityref { base a; } }"}, where="b")
assert attempt(b.from_raw({"m:i": "m:b"}).validate) == "YangTypeError"
""", "two models with identities of the same names but different derivation", "identities of one model are valid in the other")
