"""Operations on a data model and instances, with comparable outcomes.

An operation is a JSON list ["name", args...]; `i` refers to one of the
instances a scenario starts with.  do(ctx, op) gives
    ["ok", JSON]  or  ["exc", class, path of the instance, tag, message]
No operation modifies the instances of the context.
"""
import pickle
import re
import xml.etree.ElementTree as ET

from . import env, ref, steps, world

XPATHS = [
    "count(//*)", "string(/a:sys/a:mode)", "/a:item/a:id", "//a:sub/a:name",
    "/a:item[a:id > 100]/b:prio", "sum(/a:item/a:id)", "boolean(/a:sys/a:opt)",
    "/a:sys/a:tag[2]", "/a:sys/a:tag[last()]", "/a:sys/a:pri | /a:item/a:peer",
    "deref(/a:item/a:peer)/../a:grp", "deref(/a:ref/a:target)",
    "deref(/a:ref/a:link)/..",
    "derived-from-or-self(/a:sys/a:kind, 't:wired')",
    "derived-from(/a:sys/a:kind, 't:kind')", "enum-value(/a:sys/a:mode)",
    "bit-is-set(/a:sys/a:flags, 'read')", "re-match(/a:sys/a:host, '[a-z]+')",
    "../*", "..", "name()", "following-sibling::*", "preceding-sibling::*",
    "ancestor::*", "descendant-or-self::node()", "string-length(string(.))",
    "translate(string(.), 'abc', 'ABC')", "position() + last()",
    "concat(string(/a:sys/a:level), '-', string(/a:sys/a:tune/a:depth))",
    "/a:item[position() mod 2 = 1]/a:ep/a:port", "not(/c:reg)",
    "/c:reg[c:on = 'true']/c:kind", "/c:many/c:ints = /a:item/a:id",
    "/c:many/* > 3", "current()/../*[1]", "round(/a:sys/a:ratio * 10)",
    "/b:plane/b:row[b:who = /a:item/a:grp]/b:n", "//@*", "lang('cs')",
    "id('x')", "substring-after(string(.), ':')",
    "/a:sys/a:host/following::*", "/a:item/preceding::a:mode",
]
DATAPATHS = ["/sim-a:sys", "/sim-a:sys/mode", "/sim-a:item", "/sim-a:item/sub",
             "/sim-a:item/sim-b:prio", "/sim-a:carrier", "/sim-a:bore",
             "/sim-a:reset/input/delay", "/sim-a:item/poke/output/outcome",
             "/sim-c:reg/nest/x", "/sim-b:plane/row/who", "/sim-a:nope",
             "/sim-a:sys/nev"]
IDENTS = [["sim-t:wired", "sim-t:kind"], ["sim-b:fibre", "sim-t:kind"],
          ["sim-b:fibre", "sim-t:speed"], ["sim-t:kind", "sim-t:kind"],
          ["sim-b:wlan", "sim-t:radio"], ["sim-b:wlan", "sim-t:speed"],
          ["sim-t:nope", "sim-t:kind"]]


XCTX = ("sim-a", ("sim-c", "2024-05-05"))
LIST = ["sim-a:item", ["id", "grp"]]        # (operation "lookup")
LINKS = None                # tells the references of a generated model


class Ctx:
    """A model and the instances a scenario works with."""

    def __init__(self, dm, docs, clock=None):
        self.dm = dm
        self.inst = [dm.from_raw(d) for d in docs]


class NameFilter:
    """Output filter leaving out some nodes and changing the annotations it
    is given; may raise."""

    def __init__(self, salt, fail=None):
        self.salt, self.fail, self.n = salt, fail, 0

    def _say(self, node, what, attrs):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            raise world.Injected("filter")
        if self.salt in "bd":
            attrs.clear()
        elif self.salt in "ce" and what == 2:
            attrs["ietf-netconf-with-defaults:default"] = True
        s = f"{self.salt}{what}{node.name}"
        return sum(map(ord, s)) % 5 != 0

    def begin_member(self, parent, node, attrs):
        return self._say(node, 0, attrs)

    def end_member(self, parent, node, attrs):
        return self._say(node, 1, attrs)

    def begin_element(self, parent, node, attrs):
        return self._say(node, 2, attrs)

    def end_element(self, parent, node, attrs):
        return self._say(node, 3, attrs)


def at(inst, path):
    for p in path:
        inst = inst[p]
    return inst


def plain(x):
    """JSON form of an XPath result or another value."""
    if isinstance(x, list) and all(hasattr(n, "path") for n in x):
        # document order is not prescribed for the internal representation
        return ["nodes", [[list(n.path), n.raw_value()] for n in x]]
    if isinstance(x, float):
        return ["num", repr(x)]
    return [type(x).__name__, str(x)]


def tree_of(e):
    return [e.tag, e.text or "", sorted(e.attrib.items()),
            [tree_of(c) for c in e]]


def rep(x):
    from yangson.instvalue import StructuredValue
    if isinstance(x, StructuredValue):      # order of members means nothing
        if isinstance(x, dict):
            return "{" + ", ".join(f"{k}: {rep(x[k])}"
                                   for k in sorted(x)) + "}"
        return "[" + ", ".join(map(rep, x)) + "]"
    if type(x).__name__ == "InstanceRoute":
        return str(x)
    return re.sub(r" at 0x[0-9a-f]+", "", repr(x))


def do(ctx, op):
    try:
        return ["ok", _do(ctx, op)]
    except Exception as e:
        return ["exc"] + world.exc_info(e)


def _do(ctx, op):
    from yangson.enumerations import ContentType, ValidationScope
    k, dm = op[0], ctx.dm
    if k == "validate":
        ctx.inst[op[1]].validate(ValidationScope[op[2]], ContentType[op[3]])
        return None
    if k == "validate-at":
        at(ctx.inst[op[1]], op[2]).validate(ValidationScope[op[3]],
                                            ContentType[op[4]])
        return None
    if k == "defaults":
        n = ctx.inst[op[1]].add_defaults(
            None if op[2] is None else ContentType[op[2]])
        return n.raw_value()
    if k == "defval":            # validate the result of adding defaults
        n = ctx.inst[op[1]].add_defaults(ContentType.all)
        n.validate(ValidationScope.all, ContentType[op[2]])
        return n.raw_value()
    if k == "raw":
        return ctx.inst[op[1]].raw_value()
    if k == "xml":
        return ET.tostring(ctx.inst[op[1]].to_xml(), encoding="unicode")
    if k == "filtered":
        return ctx.inst[op[1]].raw_value(filter=NameFilter(op[2]))
    if k == "xmlfiltered":
        return ET.tostring(ctx.inst[op[1]].to_xml(filter=NameFilter(op[2])),
                           encoding="unicode")
    if k == "steps":
        node, out = ctx.inst[op[1]], []
        for st in op[2]:
            try:
                node, res = steps.apply_real(dm, node, st)
                out.append([list(node.path), rep(res) if res else None])
            except Exception as e:
                out.append(world.exc_info(e))
        s = str(node.instance_route())
        return [out, node.raw_value(), s, node.top().raw_value()]
    if k == "from_raw":
        return dm.from_raw(op[1]).raw_value()
    if k == "from_xml":
        return dm.from_xml(ET.fromstring(op[1])).raw_value()
    if k == "rpc":
        n = dm.from_raw(op[2], subschema=op[1])
        n.validate(ValidationScope.all, ContentType.all)
        return n.add_defaults(ContentType.all).raw_value()
    if k == "xpath":
        from yangson.schemadata import SchemaContext
        from yangson.xpathparser import XPathParser
        ex = XPathParser(op[3], SchemaContext(
            dm.schema_data, *XCTX)).parse()
        return [str(ex)[:2000], plain(ex.evaluate(at(ctx.inst[op[1]], op[2])))]
    if k == "deref":
        return [list(n.path) for n in at(ctx.inst[op[1]], op[2])._deref()]
    if k == "goto":
        n = ctx.inst[op[1]].goto(dm.parse_instance_id(op[2]))
        return [list(n.path), n.raw_value(), str(n.instance_route())]
    if k == "gotores":
        n = ctx.inst[op[1]].goto(dm.parse_resource_id(op[2]))
        return [list(n.path), n.raw_value(), str(n.instance_route())]
    if k == "peek":
        return rep(ctx.inst[op[1]].peek(dm.parse_instance_id(op[2])))
    if k == "digest":
        return dm.schema_digest()
    if k == "tree":
        return dm.ascii_tree(no_types=op[1])
    if k == "msid":
        return dm.module_set_id()
    if k == "schema":
        n = dm.get_data_node(op[1])
        m = dm.get_schema_node(op[1])
        return [str(n.qual_name) if n else None,
                n.data_path() if n else None, type(m).__name__]
    if k == "ident":
        i, b = (tuple(reversed(x.split(":"))) for x in op[1:3])
        sd = dm.schema_data
        return [sd.is_derived_from(i, b), sorted(map(str, sd.derived_from(b))),
                sorted(map(str, sd.derived_from_all([b, i])))]
    if k == "eq":
        a, b = (ctx.inst[x].value for x in op[1:3])
        return [a == b, hash(a) == hash(b), hash(a) == hash(a)]
    if k == "probe":
        from yangson.exceptions import YangsonException
        par, out = at(ctx.inst[op[1]], op[2]), []
        for v in op[4]:
            try:
                n = par.put_member(op[3], v, raw=True)
                out.append(rep(n.value))
                n.validate(ValidationScope.syntax, ContentType.all)
            except YangsonException as e:
                out.append(world.exc_info(e))
        return out
    if k == "lookup":
        n = ctx.inst[op[1]][op[3]].look_up(True, **op[2])
        return list(n.path)
    if k == "load":
        other = env.load(op[1])
        return [other.module_set_id(), other.schema_digest()]
    if k == "pickle":
        other = pickle.loads(pickle.dumps(dm))
        n = other.from_raw(op[1])
        try:
            n.validate()
            v = "valid"
        except Exception as e:
            v = world.exc_info(e)
        return [v, n.add_defaults(ContentType.all).raw_value()]
    raise AssertionError(op)


# ------------------------------------------------------------------ choice

def gen_docs(r, n, **kw):
    """Documents; some of them variants of each other, some invalid."""
    docs = []
    pbad = r.choice([0, 0, .05, .2])
    for i in range(n):
        g = ref.Gen(r, pbad=kw.get("pbad", pbad), state=r.random() < .3,
                    meta=kw.get("meta", r.random() < .2))
        d = g.document(valid=r.random() < .55)
        # (a raw document must be readable)
        if not ref.decodable(ref.ROOT, d):
            g = ref.Gen(r, pbad=0)
            d = g.document(valid=True)
        docs.append(d)
    return docs, ref.Gen(r, pbad=0)




def eps(spec):
    """List entries with values of a unique constraint of two leafs."""
    res = []
    for i, s in enumerate(spec.split()):
        ip, port = s.split(":")
        res.append({"id": i + 1, "grp": "a", "sim-b:prio": 1, "ep": {
            **({"ip": ip + ".0.0.1"} if ip else {}),
            **({"port": int(port)} if port else {})}})
    return res


TOGGLES = [(["sim-a:sys", "mode"], ["off", "on", "auto"]),
           (["sim-a:sys", "tune", "depth"], [4, 6, 13]),
           (["sim-a:sys", "tune", "gain"], [1]),
           (["sim-a:sys", "level"], [-3, 2, 9]),
           (["sim-a:sys", "host"], ["", "#", "abc", "q" * 13]),
           (["sim-a:sys", "sim-b:zone"], ["", "#", "abc", "q" * 13]),
           (["sim-a:two", "sel"], [0, 1]), (["sim-a:two", "lim"], [3]),
           (["sim-a:two", "plus"], [{"first": 1}, {"first": 3, "second": 1}]),
           (["sim-a:bore"], [2]), (["sim-a:wire"], ["w"]),
           (["sim-a:item"], [[{"id": 5, "grp": "a", "sim-b:prio": 1}],
                             [{"id": 105, "grp": "a", "sim-b:prio": 1}],
                             [{"id": 105, "grp": "a", "peer": 105}],
                             [{"id": 105, "grp": "a"}]]),
           (["sim-a:item"], [eps("1:1 1:2 2:1"), eps("1:1 2:1 1:1"),
                             eps("2:1 2:22 3:22 1:1"), eps("2: 2:22"),
                             eps("1: 2: 3: 1:2 :2")]),
           (["sim-b:plane"], [{"seats": 1}, {"seats": 2}])]


def variants(r, n):
    """Small documents that differ in a few sensitive places."""
    g = ref.Gen(r, pbad=0, p=r.choice([.1, .2]), maxlen=2, meta=False)
    base = g.document(valid=r.random() < .8)
    docs = []
    tg = r.sample(TOGGLES, min(len(TOGGLES), r.choice([1, 2, 3])))
    ps = [p for p in ref.all_paths(base)
          if p and steps.kind_at(base, p)[0].kind == "leaf"]
    spot = r.choice(ps) if ps and r.random() < .4 else None
    for _ in range(n):
        d = base
        for path, vals in tg:
            x = r.choice(vals + [None])
            if x is None:
                continue
            for j in range(1, len(path)):
                if ref.get(d, path[:j - 1]).get(path[j - 1]) is None:
                    d = ref.set_at(d, path[:j], {})
            d = ref.set_at(d, path, x)
        if spot and ref.decodable(ref.ROOT, d):
            k, _ = steps.kind_at(base, spot)
            v = k.type.bad(r) if r.random() < .7 else k.type.gen(r)
            try:
                if v is not None:
                    e = ref.set_at(d, list(spot), v)
                    if ref.decodable(ref.ROOT, e):
                        d = e
            except (KeyError, IndexError, TypeError):
                pass
        docs.append(d)
    return docs


SCOPES = ["all", "all", "all", "syntax", "semantics"]
CTYPES = ["config", "config", "all", "nonconfig"]
KINDS = {"validate": 8, "validate-at": 2, "defaults": 3, "defval": 2, "raw": 2,
         "xml": 2, "filtered": 1, "xmlfiltered": 1, "steps": 4, "from_raw": 3,
         "from_xml": 2, "rpc": 2, "xpath": 6, "deref": 2, "goto": 2,
         "gotores": 1, "peek": 1, "digest": 1, "tree": 1, "msid": 1,
         "schema": 1, "ident": 2, "eq": 1, "lookup": 1,
         "probe": 4}
RPCS = [["sim-a:reset", {"sim-a:input": {"delay": 3}}],
        ["sim-a:reset", {"sim-a:input": {"force": [None]}}],
        ["sim-a:reset", {"sim-a:input": {"delay": 601}}],
        ["sim-a:reset", {"sim-a:output": {"done": True}}],
        ["sim-a:reset", {"sim-a:output": {}}],
        ["sim-a:alarm", {"sim-a:what": "x"}], ["sim-a:alarm", {}],
        ["sim-a:nope", {}]]


def gen_op(r, docs, kinds=None, extra=()):
    ks = kinds or (list(KINDS) + list(extra))
    w = [KINDS.get(k, 1) for k in ks]
    k = r.choices(ks, w)[0]
    i = r.randrange(len(docs))
    doc = docs[i]

    def apath():
        ps = ref.all_paths(doc)
        return list(r.choice(ps))
    if k == "validate":
        return [k, i, r.choice(SCOPES), r.choice(CTYPES)]
    if k == "validate-at":
        return [k, i, apath(), r.choice(SCOPES), r.choice(CTYPES)]
    if k == "defaults":
        return [k, i, r.choice([None, "config", "all", "nonconfig"])]
    if k == "defval":
        return [k, i, r.choice(CTYPES)]
    if k in ("raw", "xml"):
        return [k, i]
    if k in ("filtered", "xmlfiltered"):
        return [k, i, r.choice("abcdefg")]
    if k == "steps":
        ch = steps.Chooser(r, ref.Gen(r, pbad=0), wild=.1)
        cur, out = (doc, []), []
        for _ in range(r.choice([2, 5, 9])):
            st = ch.step(*cur)
            e = steps.apply_ref(cur[0], cur[1], st)
            if isinstance(e, steps.Skip):
                continue
            out.append(st)
            if isinstance(e, steps.Ok):
                cur = (e.root, e.path)
        return [k, i, out]
    if k == "from_raw":
        d = ref.Gen(r, pbad=0, meta=r.random() < .2).document(valid=False)
        if r.random() < .3:
            d = dict(d, **{r.choice(["sim-a:zip", "sys", "sim-b:plane"]): 5})
        return [k, d]
    if k == "from_xml":
        d = ref.Gen(r, pbad=0, any=False).document(valid=False)
        return [k, toxml(d)]
    if k == "rpc":
        return [k] + r.choice(RPCS)
    if k == "xpath":
        p = [] if r.random() < .3 else apath()
        n, ent = steps.kind_at(doc, p)
        if n is None or n.kind == "anydata":
            p, n, ent = [], ref.ROOT, False
        ex = r.choice(XPATHS)
        while "string(.)" in ex and not (
                n.kind == "leaf" or n.kind == "leaflist" and ent):
            ex = r.choice(XPATHS)   # (string values of containers are repr's)
        return [k, i, p, ex]
    if k == "deref":
        ps = [list(p) for p in ref.all_paths(doc)
              if p and (p[-1] in ("peer", "soft", "target", "loose", "link",
                                  "who", "iid", "leafref") or LINKS
                        and LINKS(steps.kind_at(doc, p)))]
        return [k, i, r.choice(ps) if ps else apath()]
    if k in ("goto", "peek"):
        s = steps.iid_of(doc, apath()) or "/"
        if r.random() < .2:
            s = r.choice(["/sim-a:nope", "/sim-a:sys/zone", "/x[", s + "/y",
                          "/sim-a:item[id='x']", "sim-a:sys"])
        return [k, i, s]
    if k == "gotores":
        s = steps.resid_of(doc, apath()) or "/"
        if r.random() < .2:
            s = r.choice(["/sim-a:nope", "/sim-a:item=300,a", "/sim-a:item=1",
                          "/sim-a:sys/host=3", "x"])
        return [k, i, s]
    if k in ("digest", "msid"):
        return [k]
    if k == "tree":
        return [k, r.random() < .5]
    if k == "schema":
        return [k, r.choice(DATAPATHS)]
    if k == "ident":
        return [k] + r.choice(IDENTS)
    if k == "probe":
        ps = []
        for p in ref.all_paths(doc):
            n, ent = steps.kind_at(doc, p)
            if p and n is not None and not isinstance(p[-1], int) and \
                    n.kind == "leaf":
                ps.append((list(p), n.type))
        if not ps:
            return ["raw", i]
        p, t = r.choice(ps)
        vs = [t.gen(r)] + [t.bad(r) for _ in range(3)] + [t.wrong(r)]
        return [k, i, p[:-1], p[-1], [v for v in vs if v is not None]]
    if k == "eq":
        return [k, i, r.randrange(len(docs))]
    if k == "lookup":
        if not LIST:
            return ["raw", i]
        name, keys = LIST
        j = [x for x in range(len(docs)) if name in docs[x]]
        if not j:
            return ["raw", i]
        i = r.choice(j)
        e = r.choice(docs[i][name] or [{}])
        return [k, i, {x: e[x] for x in keys if x in e}, name]
    if k == "load":
        return [k, r.choice(["lib.json"])]
    if k == "pickle":
        return [k, doc]
    raise AssertionError(k)


# --------------------------------------------------------- XML, independently

XNS = {"sim-a": "urn:sim:a", "sim-b": "urn:sim:b", "sim-c": "urn:sim:c",
       "sim-t": "urn:sim:t"}


def toxml(doc, r=None):
    """An XML encoding of a raw document (without annotations), written
    independently of yangson."""
    from xml.sax.saxutils import escape
    out = []

    def text(n, v):
        if v == [None]:
            return ""
        if v is True or v is False:
            return "true" if v else "false"
        s = str(v)
        return escape(s)

    def extra(n, v):
        # prefixes of identities and instance identifiers
        ns = ""
        if isinstance(v, str):
            for m, u in XNS.items():
                if m + ":" in v:
                    ns += f' xmlns:{m}="{u}"'
        return ns

    def elem(k, v, parent_ns):
        x = f' xmlns="{XNS[k.ns]}"' if k.ns != parent_ns else ""
        if k.kind == "container":
            out.append(f"<{k.name}{x}>")
            obj(k, v)
            out.append(f"</{k.name}>")
        elif k.kind == "list":
            for e in v:
                out.append(f"<{k.name}{x}>")
                obj(k, e)
                out.append(f"</{k.name}>")
        elif k.kind == "leaflist":
            for e in v:
                out.append(f"<{k.name}{x}{extra(k, e)}>{text(k, e)}"
                           f"</{k.name}>")
        elif k.kind == "leaf":
            out.append(f"<{k.name}{x}{extra(k, v)}>{text(k, v)}</{k.name}>")

    def obj(n, o):
        for m, v in o.items():
            if m[0] != "@":
                k = n.data[m][0]
                elem(k, v, n.ns if n is not ref.ROOT else None)
    out.append("<data>")
    obj(ref.ROOT, doc)
    out.append("</data>")
    return "".join(out)
