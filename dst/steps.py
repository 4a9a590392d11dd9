"""The step language: one step is a JSON list, executed by the real code and
by the reference (on plain JSON) alike."""
from urllib.parse import quote, unquote

from . import env, ref

NAV = ("member", "entry", "sibling", "next", "prev", "up", "top", "lookup",
       "goto", "rgoto", "gotores", "last")
GOTO_ERRS = {"NonexistentInstance", "InstanceValueError", "InvalidKeyValue",
             "NonexistentSchemaNode", "NonDataNode", "UnexpectedInput",
             "EndOfInput", "BadSchemaNodeType"}
RAW_ERRS = {"RawTypeError", "RawMemberError", "MissingAnnotationTarget",
            "UndefinedAnnotation", "AnnotationTypeError"}


class Ok:
    def __init__(self, root, path, result=None):
        self.root, self.path, self.result = root, list(path), result
        self.names = False


class Refused:
    def __init__(self, *classes):
        self.classes = set()
        for c in classes:
            self.classes |= c if isinstance(c, set) else {c}


class Skip:
    """The step makes no sense for the kind of node; not executed."""


def iid_of(root, path):
    """An instance identifier for the path, written independently."""
    out, n, v, i = "", ref.ROOT, root, 0
    prev = None
    while i < len(path):
        p = path[i]
        k = n.data[p][0]
        v = v[p]
        out += "/" + p
        n = k
        i += 1
        if i < len(path) and isinstance(path[i], int):
            e = v[path[i]]
            if k.kind == "leaflist":
                c = ref.canon(e)
                if any(ref.same(x, e) for x in v[:path[i]]):
                    out += f"[{path[i] + 1}]"
                else:
                    out += f"[.={q(c)}]"
            elif k.kind != "list":
                return None
            elif k.keys and all(x in e for x in k.keys):
                out += "".join(f"[{x}={q(ref.canon(e[x]))}]" for x in k.keys)
            else:
                out += f"[{path[i] + 1}]"
            v = e
            i += 1
        elif k.kind == "anydata" and i < len(path):
            return None
    return out or "/"


def q(s): return "'" + s + "'" if '"' in s else '"' + s + '"'


def resid_of(root, path, safe=""):
    """RESTCONF resource identifier, or None if there is none."""
    out, n, v, i = "", ref.ROOT, root, 0
    while i < len(path):
        p = path[i]
        k = n.data[p][0]
        v = v[p]
        out += "/" + p
        n = k
        i += 1
        if i < len(path) and isinstance(path[i], int):
            e = v[path[i]]
            if k.kind == "leaflist":
                vals = [e]
            elif k.kind == "list" and k.keys and all(x in e for x in k.keys):
                vals = [e[x] for x in k.keys]
            else:
                return None
            s = ",".join(quote(ref.canon(x), safe=safe) for x in vals)
            if not s:
                return None
            out += "=" + s
            v = e
            i += 1
        elif k.kind in ("list", "leaflist") and i < len(path):
            return None
        elif k.kind == "anydata" and i < len(path):
            return None
    return out


def resolve_resid(root, s):
    n, v, path = ref.ROOT, root, []
    for part in s.strip("/").split("/"):
        if not part:
            continue
        nm, eq, keys = part.partition("=")
        if not isinstance(v, dict):
            return None
        pfx, c, loc = nm.rpartition(":")
        want = (pfx if c else n.ns, loc)
        for iname, (k, _, _) in n.data.items():
            if (k.ns, k.name) == want:
                break
        else:
            return None
        if iname not in v:
            return None
        v, n = v[iname], k
        path.append(iname)
        if not eq:
            continue
        ks = [unquote(x) for x in keys.split(",")]
        if not isinstance(v, list):
            return None
        for i, e in enumerate(v):
            if k.kind == "leaflist":
                hit = ref.keyeq(e, unquote(keys))
            else:
                if len(ks) != len(k.keys):
                    return None
                hit = all(x in e and ref.keyeq(e[x], y)
                          for x, y in zip(k.keys, ks))
            if hit:
                path.append(i)
                v = e
                break
        else:
            return None
    return path


def kind_at(root, path):
    """(schema node or None inside anydata, is_entry)"""
    n = ref.ROOT
    ent = False
    for p in path:
        if n is None:
            return None, False
        if isinstance(p, int):
            if n.kind == "anydata":
                return None, False
            ent = True
        else:
            if n.kind == "anydata":
                return None, False
            n = n.data[p][0]
            ent = False
    return n, ent


def apply_ref(root, path, st):
    """Execute `st` on the reference cursor (root, path)."""
    op = st[0]
    v = ref.get(root, path)
    n, ent = kind_at(root, path)
    isobj, isarr = isinstance(v, dict), isinstance(v, list)
    if n is None or n.kind == "anydata":
        if op not in ("up", "top", "sibling", "update"):
            return Skip()
    elif n.kind == "leaf" or n.kind == "leaflist" and ent:
        isobj = isarr = False
    if op == "member":
        if isarr:
            return Refused("NonexistentInstance")
        if not isobj:
            return Refused("InstanceValueError")
        name = st[1]
        pfx, c, loc = name.partition(":")
        if c and path and pfx == n.ns:
            name = loc
        if name not in v:
            return Refused("NonexistentInstance", "NonexistentSchemaNode")
        return Ok(root, path + [name])
    if op in ("entry", "last"):
        i = st[1] if op == "entry" else -1
        if isobj:
            return Skip()
        if not isarr:
            return Refused("InstanceValueError")
        if not -len(v) <= i < len(v):
            return Refused("NonexistentInstance")
        return Ok(root, path + [i % len(v)])
    if op == "sibling":
        if not path or isinstance(path[-1], int):
            return Skip()
        par = ref.get(root, path[:-1])
        if st[1] == path[-1]:
            return Refused("NonexistentInstance", "NonexistentSchemaNode")
        if st[1] not in par:
            return Refused("NonexistentInstance", "NonexistentSchemaNode")
        return Ok(root, path[:-1] + [st[1]])
    if op in ("next", "prev"):
        if not path or not isinstance(path[-1], int):
            return Skip()
        i = path[-1] + (1 if op == "next" else -1)
        if not 0 <= i < len(ref.get(root, path[:-1])):
            return Refused("NonexistentInstance")
        return Ok(root, path[:-1] + [i])
    if op == "up":
        if not path:
            return Refused("NonexistentInstance")
        return Ok(root, path[:-1])
    if op == "top":
        return Ok(root, [])
    if op == "lookup":
        if n.kind != "list" or ent:
            return Refused("InstanceValueError")
        bad = False
        for k in st[1]:
            if k not in n.data:
                return Refused("NonexistentInstance", "NonexistentSchemaNode")
            if st[2] and not ref.decodable(n.data[k][0], st[1][k]):
                return Refused(RAW_ERRS)
        for i, e in enumerate(v):
            if all(k in e and ref.same(e[k], x) for k, x in st[1].items()):
                return Ok(root, path + [i])
        return Refused("NonexistentInstance")
    if op in ("goto", "peek"):
        if path:
            return Skip()
        p = ref.resolve_iid(root, st[1])
        if p is None:
            return Refused(GOTO_ERRS)
        if op == "peek":
            return Ok(root, path, [ref.get(root, p)])
        return Ok(root, p)
    if op in ("gotores", "peekres"):
        if path:
            return Skip()
        if st[1].endswith("/") or "//" in st[1]:
            return Skip()
        p = resolve_resid(root, st[1])
        if p is None:
            return Refused(GOTO_ERRS)
        if op == "peekres":
            return Ok(root, path, [ref.get(root, p)])
        return Ok(root, p)
    if op == "rgoto":
        # route relative to the cursor: the route of st[1] less the first
        # st[2] items, which must be the cursor's own
        p = ref.resolve_iid(root, st[1])
        own = iid_of(root, path)
        if own is None or not path or own != st[2] or (
                not isinstance(path[-1], int)
                and n.kind in ("list", "leaflist")) or \
                ref.resolve_iid(root, own) != list(path):
            return Skip()
        if p is None:
            return Refused(GOTO_ERRS)
        return Ok(root, p) if p[:len(path)] == path else Skip()
    if op == "put":
        if not isobj:
            return Refused("InstanceValueError")
        m = st[1]
        pfx, c, loc = m.partition(":")
        if c and path and pfx == n.ns:
            m = loc
        if m not in n.data:
            return Refused("NonexistentSchemaNode")
        if not ref.decodable(n.data[m][0], st[2]):
            return Refused(RAW_ERRS)
        return Ok(ref.set_at(root, path + [m], st[2]), path + [m])
    if op == "del":
        if not (isobj or isarr):
            return Refused("InstanceValueError")
        if isobj and st[1] not in v or \
                isarr and not (isinstance(st[1], int) and st[1] < len(v)):
            return Refused("NonexistentInstance")
        if isobj and "@" + st[1] in v:
            return Skip()     # (would leave its annotation behind)
        return Ok(ref.del_at(root, path + [st[1]]), path)
    if op in ("update", "merge", "insb", "insa"):
        if isinstance(getattr(n, "type", None), ref.Bits) and isinstance(
                st[1], str) and n.type.check(st[1]):
            return Skip()     # unknown bits: readable, but not printable
        if not ref.decodable(n, st[1], entry=ent):
            return Refused(RAW_ERRS) if op in ("update", "merge") or ent \
                else Skip()
        if op == "update":
            return Ok(ref.set_at(root, path, st[1]), path)
        if op == "merge":
            new = ref.merge_entry(n, v, st[1], ent)
            return Ok(ref.set_at(root, path, new), path)
        if not ent:
            return Skip()
        i = path[-1] + (op == "insa")
        arr = ref.get(root, path[:-1])
        return Ok(ref.set_at(root, path[:-1], arr[:i] + [st[1]] + arr[i:]),
                  path[:-1] + [i])
    if op == "defaults":
        if path:
            return Skip()
        try:
            return Ok(ref.with_defaults(root, st[1]), path)
        except ref.Clash:
            return Skip()
    if op == "iter":
        if isobj:
            res = Ok(root, path, [m for m in v if m[0] != "@"])
            res.names = True
            return res
        if isarr:
            return Ok(root, path, list(v))
        return Refused("InstanceValueError")
    raise AssertionError(op)


def uses_raw(st):
    return st[0] in ("put", "update", "merge", "insb", "insa")


AGE = 0.0       # how much older than the edit cooked values are


def _aged(fn):
    env.CLOCK.t -= AGE
    try:
        return fn()
    finally:
        env.CLOCK.t += AGE


def apply_real(dm, node, st, iid_class=None):
    """Execute `st` on a real instance; (node, result).  `st[-1] == "c"`
    passes cooked values instead of raw ones."""
    from yangson.enumerations import ContentType
    op = st[0]
    if op == "member":
        return node[st[1]], None
    if op == "entry":
        return node[st[1]], None
    if op == "last":
        return node[-1], None
    if op == "sibling":
        return node.sibling(st[1]), None
    if op == "next":
        return node.next(), None
    if op == "prev":
        return node.previous(), None
    if op == "up":
        return node.up(), None
    if op == "top":
        return node.top(), None
    if op == "lookup":
        if st[2]:
            return node.look_up(True, **st[1]), None
        keys = {}
        for k, x in st[1].items():
            try:
                sn = node._member_schema_node(k)
                keys[k] = sn.from_raw(x, "")
            except Exception:
                keys[k] = x
        return node.look_up(**keys), None
    if op == "goto":
        return node.goto(dm.parse_instance_id(st[1])), None
    if op == "gotores":
        return node.goto(dm.parse_resource_id(st[1])), None
    if op == "peek":
        return node, ("peek", node.peek(dm.parse_instance_id(st[1])))
    if op == "peekres":
        return node, ("peek", node.peek(dm.parse_resource_id(st[1])))
    if op == "rgoto":
        from yangson.instance import InstanceRoute
        full = dm.parse_instance_id(st[1])
        own = dm.parse_instance_id(st[2])
        return node.goto(InstanceRoute(full[len(own):])), None
    cooked = st[-1] == "c" and uses_raw(st)
    if op == "put":
        sn = None
        if cooked and isinstance(node.value, dict):
            sn = node._member_schema_node(st[1])
        if sn is not None:
            return node.put_member(st[1], _aged(
                lambda: sn.from_raw(st[2], "/x"))), None
        return node.put_member(st[1], st[2], raw=True), None
    if op == "del":
        return node.delete_item(st[1]), None
    if op in ("update", "merge", "insb", "insa"):
        f = {"update": node.update, "merge": node.merge,
             "insb": getattr(node, "insert_before", None),
             "insa": getattr(node, "insert_after", None)}[op]
        if cooked:
            return f(_aged(lambda: node._cook_value(st[1], True))), None
        return f(st[1], raw=True), None
    if op == "defaults":
        return node.add_defaults(ContentType[st[1]]), None
    if op == "iter":
        res = []
        for x in node:
            res.append(x if isinstance(x, str) else x.raw_value())
        return node, ("iter", res)
    raise AssertionError(op)


# ------------------------------------------------------------------ choice

class Chooser:
    """Chooses sensible (and some senseless) steps for a cursor."""

    def __init__(self, r, gen, wild=.06, edits=1.0, nav=1.0, defaults=.02):
        self.r, self.g = r, gen
        self.wild, self.edits, self.nav = wild, edits, nav
        self.defaults = defaults

    def raw_for(self, k, entry=False):
        r = self.r
        if k.kind != "anydata" and r.random() < self.wild:
            return r.choice([None, 5, "x", [], {}, [[]], {"zzz": 1}, True,
                             [{"zz": 0}], {"@": {"bad": 1}}]) \
                if k.kind not in ("leaf", "leaflist") or entry is None else (
                    k.type.wrong(r) if k.kind == "leaf" or entry
                    else [k.type.wrong(r)])
        if k.kind in ("list",) and entry:
            return self.g.entry(k) or {}
        if k.kind == "leaflist" and entry:
            return self.g.scalar(k)
        return self.g.value(k)

    def step(self, root, path):
        r = self.r
        v = ref.get(root, path)
        n, ent = kind_at(root, path)
        opts = []

        def add(w, *mk):
            opts.append((w, mk))
        if n is None or n.kind == "anydata":
            add(5 * self.nav, lambda: ["up"])
            add(2 * self.nav, lambda: ["top"])
            if n is not None:
                add(2 * self.edits, lambda: ["update", self.g.value(n)])
        isobj = isinstance(v, dict) and n is not None and n.kind != "anydata"
        isarr = isinstance(v, list) and n is not None and \
            n.kind in ("list", "leaflist") and not ent
        mem = [m for m in v if m[0] != "@"] if isobj else []
        if not opts:
            add(2 * self.nav, lambda: ["up"])
            add(1 * self.nav, lambda: ["top"])
        if mem:
            add(9 * self.nav, lambda: ["member", self._alias(
                n, path, r.choice(mem))])
        if isobj:
            add(self.wild * 3, lambda: ["member", r.choice(
                list(n.data) + ["nope", "sim-a:nope", "zz:host"])])
            if n.data:
                add(5 * self.edits, lambda: self._put(n, path))
            dl = [m for m in mem if "@" + m not in v]
            if dl:
                add(2 * self.edits, lambda: ["del", r.choice(dl)])
            add(self.wild * 3, lambda: ["del", r.choice(
                [m for m in list(n.data) if "@" + m not in v] + ["nope"])])
            add(self.wild * 3, lambda: ["put", r.choice(
                ["nope", "sim-a:zz", "zz:x", "pigeon", "one"]), 1])
        if isarr:
            if v:
                add(9 * self.nav, lambda: ["entry", r.randrange(len(v))])
                add(1 * self.nav, lambda: ["last"])
                add(1 * self.nav, lambda: ["entry", -r.randint(1, len(v))])
                add(1.5 * self.edits, lambda: ["del", r.randrange(len(v))])
            add(self.wild * 3, lambda: ["entry", r.choice(
                [len(v), len(v) + 3, -len(v) - 1])])
            add(self.wild * 3, lambda: ["del", len(v)])
            if n.kind == "list":
                add(3 * self.nav, lambda: self._lookup(n, v))
        if path and not isinstance(path[-1], int):
            par = ref.get(root, path[:-1])
            if isinstance(par, dict):
                sib = [m for m in par if m[0] != "@" and m != path[-1]]
                if sib:
                    add(4 * self.nav, lambda: ["sibling", r.choice(sib)])
                add(self.wild * 2, lambda: ["sibling", r.choice(
                    ["nope", "host", "sim-a:sys", "zz:q", path[-1]])])
        if ent:
            add(4 * self.nav, lambda: ["next"])
            add(4 * self.nav, lambda: ["prev"])
            add(3 * self.edits, lambda: ["insb", self.raw_for(n, True)])
            add(3 * self.edits, lambda: ["insa", self.raw_for(n, True)])
        if n is not None and n.kind != "anydata":
            if path or r.random() < .2:
                add(2 * self.edits, lambda: [
                    "update", self._upd(n, ent)])
            add(3 * self.edits, lambda: ["merge", self._mrg(n, v, ent)])
            add(.7 * self.nav, lambda: ["iter"])
        if not path:
            paths = ref.all_paths(root)

            def iid():
                s = iid_of(root, r.choice(paths))
                return self._mut(s) if s and r.random() < self.wild * 2 else s

            def rid():
                s = resid_of(root, r.choice(paths),
                             r.choice(["", "", "+", "+:;@!$&*()~'"]))
                return self._mut(s) if s and r.random() < self.wild * 2 else s
            add(6 * self.nav, lambda: ["goto", iid()])
            add(5 * self.nav, lambda: ["gotores", rid()])
            add(1 * self.nav, lambda: ["peek", iid()])
            add(1 * self.nav, lambda: ["peekres", rid()])
            add(self.defaults * 10, lambda: [
                "defaults", r.choice(["config", "all"])])
        elif n is not None and n.kind != "anydata" and not (
                n.kind in ("list", "leaflist") and not ent):
            own = iid_of(root, path)
            if own:
                below = [p for p in ref.all_paths(root)
                         if list(p[:len(path)]) == path]
                add(1.5 * self.nav, lambda: [
                    "rgoto", iid_of(root, r.choice(below)), own])
        for _ in range(5):
            tot = sum(o[0] for o in opts)
            x = r.random() * tot
            for w, mk in opts:
                x -= w
                if x <= 0:
                    break
            st = mk[0]()
            if None not in st[:2] or st[0] in ("update", "merge", "insb",
                                               "insa"):
                if uses_raw(st) and r.random() < .3:
                    st.append("c")
                return st
        return ["top"]

    def _alias(self, n, path, m):
        """Now and then the qualified name of a member."""
        if path and ":" not in m and self.r.random() < .1:
            return n.ns + ":" + m
        return m

    def _put(self, n, path):
        m = self.r.choice(list(n.data))
        return ["put", self._alias(n, path, m), self.raw_for(n.data[m][0])]

    def _upd(self, n, ent):
        if n.kind == "root":
            return self.g.obj(n)
        return self.raw_for(n, ent)

    def _mrg(self, n, v, ent):
        if n.kind == "root":
            new = self.g.obj(n)
        else:
            new = self.raw_for(n, ent)
        if n.kind == "list" and not ent and isinstance(new, list) and \
                isinstance(v, list) and v and self.r.random() < .7:
            # aim at existing entries
            for e in new:
                o = self.r.choice(v)
                if isinstance(e, dict) and self.r.random() < .6:
                    for k in n.keys:
                        if k in o:
                            e[k] = o[k]
        return ref.dedup(n, new, ent)

    def _lookup(self, n, v):
        r = self.r
        keys = list(n.keys) or [k.iname for k in n.kids if k.kind == "leaf"]
        if r.random() < .3:
            keys = [r.choice([k.iname for k in n.kids if k.kind == "leaf"])]
        if v and r.random() < .8:
            e = r.choice(v)
            ks = {k: e[k] for k in keys if k in e}
        else:
            ks = {k: n.data[k][0].type.gen(r) for k in keys}
        if not ks or r.random() < self.wild:
            ks["nope"] = 1
        return ["lookup", ks, r.random() < .5]

    def _mut(self, s):
        r = self.r
        i = r.randrange(len(s) + 1)
        k = r.randrange(5)
        if k == 0:
            return s[:i]
        if k == 1:
            return s + r.choice(["/", "/host", "[1]", "=1", "/nope",
                                 "[.='a']", "[id='1']", "/sim-a:item",
                                 "=1,2", "%", "=%2"])
        if k == 2:
            return s[:i] + r.choice("/[]='\",.:9az ") + s[i:]
        if k == 3:
            return s[:i] + s[i + 1:]
        return s.replace("sim-", "sim_", 1)


def disturb(r, gen, root):
    """Steps from the top that change one place, often one that another
    place refers to."""
    leafs = []
    for p in ref.all_paths(root):
        k, ent = kind_at(root, p)
        if k is not None and p and (k.kind == "leaf" or ent and
                                    k.kind == "leaflist"):
            leafs.append((list(p), k, ref.canon(ref.get(root, p))))
    if not leafs:
        return []
    ties = [a for a in leafs for b in leafs if a is not b and a[2] == b[2]
            and a[1] is not b[1]]
    p, k, _ = r.choice(ties if ties and r.random() < .75 else leafs)
    out = [["top"]]
    for x in p[:-1]:
        out.append(["entry" if isinstance(x, int) else "member", x])
    par = ref.get(root, p[:-1])
    x = r.random()
    if isinstance(par, dict) and "@" + p[-1] in par:
        x = 1
    if x < .5:
        out.append(["del", p[-1]])
    elif isinstance(par, dict) and x < .7:
        out.append(["put", p[-1], k.type.gen(r)])
    else:
        out.append(["entry" if isinstance(p[-1], int) else "member", p[-1]])
        out.append(["update", k.type.gen(r)])
    return out
