"""C18: damaged or hostile documents are refused cleanly."""
import json
import random
import re
import xml.etree.ElementTree as ET

from .. import core, env, ops, ref, world
from ..core import Violation
from ..ref import N, leaf

PROP = "C18"
RULE = ("seeded streams of documents (JSON and XML, as trees and as texts) "
        "damaged by seeded sequences of corruptions and read by one model; "
        "verdict and reported place compared with a reference of "
        "decodability; accepted documents are then validated, edited and "
        "written; non-trivial: at least one corruption took effect; "
        "distinct by corruptions, verdict and reported place")
REAL = ["yangson", "xml.etree and json parsers"]
STUB = ["storage and transmission of the documents"]
LISTS = ("events", "events.*.muts")
LIMIT = 40.0
ASSUMPTIONS = [
    "numeric and base64 strings outside the canonical lexical forms, and "
    "repeated elements of a leaf or container in XML, are unspecified: "
    "either verdict is accepted", "anydata has no XML form"]
dm = None

JUNK = [None, True, False, 0, -1, 5, 300, 1.5, 1e300, float("nan"),
        10 ** 400, -10 ** 40, "", "x", "5", "-5", "true", "zzz", "\u0000",
        "a b", "1e5", "NaN", "Infinity", "9" * 30, "9" * 5000, "/", "//",
        "/sim-a:sys", "/zz:q", "[", "sim-a:", ":x", "::", "zz:wired",
        "sim-t:wired", "\U0001f600", "\u0660", "QUJD", "QQ", "=", "====",
        [], {}, [None], [[]], [{}], [None, None], {"x": 1}, {"": 1},
        {"@": {}}, {"@x": {}}, ["a", "a"], [1, "1", True], [[[[]]]],
        {"sim-a:sys": {}}, "q" * 3000]
NAMES = ["", ":", "@", "@@", "zz", "zz:zz", "sim-a:", ":host", "a:b:c",
         "sim-a:sys", "sys", "host", "sim-b:zone", "zone", "id", "input",
         "how", "plain", "carrier", "sim-a:carrier", "poke", "__class__",
         "value", "path", "sim-t:kind", "sim-a:fut", "nev", "\u017e",
         "sim-a:host", "name ", "=", "/", "item=1"]
ANNOTS = [{}, {"sim-a:note": "x"}, {"sim-a:note": 5}, {"note": "x"},
          {"sim-a:weight": 128}, {"sim-a:weight": None}, {"zz:q": 1},
          {"sim-a:weight": "3"}, {"sim-a:note": None}, {"": 1}, [], None,
          "x", 5, True, [None, {}], [{"sim-a:note": "x"}],
          {"sim-a:weight": -128}, {"sim-b:note": "x"}, {"sim-a:nope": 1}]


def _sub():
    rpc = N("root", None, kids=[
        N("container", "input", kids=[
            leaf("delay", ref.Int(0, 65535)), leaf("force", ref.Empty())]),
        N("container", "output", kids=[leaf("done", ref.Bool())])])
    note = N("root", None, kids=[
        leaf("what", ref.Str()), leaf("where", ref.Str())])
    for n in (rpc, note):
        ref._index(n)
        for k, _, _ in n.data.values():
            k.iname = "sim-a:" + k.name
    return {"sim-a:reset": rpc, "sim-a:alarm": note}


SUB = _sub()
SUBDOCS = {"sim-a:reset": [
    {"sim-a:input": {"delay": 3, "force": [None]}},
    {"sim-a:output": {"done": True}}, {"sim-a:input": {}}],
    "sim-a:alarm": [{"sim-a:what": "fire", "sim-a:where": "a"}]}


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (11000, 150) if tier == "quick" else (300000, 1500)


# ------------------------------------------------------------- generation

def gen(r, i, tier):
    ev = []
    n = r.choice([3, 6, 10]) if tier == "quick" else r.choice([10, 25])
    while len(ev) < n:
        media = r.choice(["json", "json", "json", "jsontext", "xml", "xml",
                          "xmltext"])
        sub = None
        if media == "json" and r.random() < .08:
            sub = r.choice(sorted(SUB))
            doc = r.choice(SUBDOCS[sub])
        else:
            g = ref.Gen(r, p=r.choice([.15, .3, .6]), maxlen=r.choice(
                [1, 2, 3]), state=r.random() < .4,
                meta=r.random() < .4 and media[0] == "j",
                any=media[0] == "j", pbad=r.choice([0, 0, .1]),
                printable=True)
            doc = g.document(valid=r.random() < .4)
        k = r.choice([0, 1, 1, 1, 2, 3, 6])
        muts = [[r.choice(KINDS[media]), r.randrange(1 << 30)]
                for _ in range(k)]
        ev.append({"media": media, "sub": sub, "doc": doc, "muts": muts,
                   "post": [r.randrange(1 << 30), r.choice([2, 5, 10])]})
    return {"events": ev}


# ------------------------------------------------------------- corruptions

def places(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            yield from places(v[k], path + (k,))
    elif isinstance(v, list):
        for i, e in enumerate(v):
            yield from places(e, path + (i,))


def put(v, path, new):
    if not path:
        return new
    v = dict(v) if isinstance(v, dict) else list(v)
    v[path[0]] = put(v[path[0]], path[1:], new)
    return v


def drop(v, path):
    par = ref.get(v, path[:-1])
    if isinstance(par, dict):
        par = {k: x for k, x in par.items() if k != path[-1]}
    else:
        par = par[:path[-1]] + par[path[-1] + 1:]
    return put(v, path[:-1], par)


def mut_json(v, kind, rng):
    ps = list(places(v))
    p = rng.choice(ps)
    x = ref.get(v, p)
    objs = [q for q in ps if isinstance(ref.get(v, q), dict)]
    if kind == "type":
        lf = [q for q in ps if not isinstance(ref.get(v, q), (dict, list))]
        if rng.random() < .7 and lf:
            p = rng.choice(lf)
        return put(v, p, rng.choice(JUNK))
    if kind == "lose":
        return drop(v, p) if p else v
    if kind == "duplicate":
        arrs = [q for q in ps if isinstance(ref.get(v, q), list)
                and ref.get(v, q)]
        if not arrs:
            return v
        q = rng.choice(arrs)
        a = ref.get(v, q)
        i = rng.randrange(len(a))
        return put(v, q, a[:i] + [a[i]] * rng.choice([2, 3]) + a[i + 1:])
    if kind == "swap":
        q = rng.choice(ps)
        if q[:len(p)] == p or p[:len(q)] == q:
            return v
        a, b = ref.get(v, p), ref.get(v, q)
        return put(put(v, p, b), q, a)
    if kind == "rename":
        if not objs:
            return v
        q = rng.choice(objs)
        o = ref.get(v, q)
        if not o:
            return v
        k = rng.choice(list(o))
        new = rng.choice(NAMES + [k.partition(":")[2] or k, "sim-b:" + k,
                                  "@" + k, k + "x", "sim-a:" + k, k[1:]])
        return put(v, q, {(new if m == k else m): y for m, y in o.items()})
    if kind == "intrude":
        if not objs:
            return v
        q = rng.choice(objs)
        o = dict(ref.get(v, q))
        o[rng.choice(NAMES)] = rng.choice(JUNK)
        return put(v, q, o)
    if kind == "misplace":
        if not objs or not p:
            return v
        q = rng.choice(objs)
        o = dict(ref.get(v, q))
        nm = p[-1] if isinstance(p[-1], str) else p[-2] if len(
            p) > 1 and isinstance(p[-2], str) else "x"
        o[nm] = x
        return put(v, q, o)
    if kind == "annotate":
        if not objs:
            return v
        q = rng.choice(objs)
        o = dict(ref.get(v, q))
        nm = rng.choice(["@"] + ["@" + m for m in o] + ["@nope"])
        o[nm] = rng.choice(ANNOTS)
        return put(v, q, o)
    if kind == "wrap":
        return put(v, p, rng.choice([[x], {"x": x}, {"sim-a:sys": x}]))
    if kind == "nest":
        for _ in range(rng.choice([5, 60])):
            x = [x] if rng.random() < .5 else {"x": x}
        return put(v, p, x)
    if kind == "unwrap":
        if isinstance(x, (dict, list)) and x:
            y = list(x.values()) if isinstance(x, dict) else x
            return put(v, p, rng.choice(y))
        return v
    raise AssertionError(kind)


def mut_text(s, kind, rng):
    if not s:
        return s
    i = rng.randrange(len(s))
    j = min(len(s), i + int(rng.paretovariate(.8)))
    if kind == "flip":
        return s[:i] + chr(ord(s[i]) ^ (1 << rng.randrange(7))) + s[i + 1:]
    if kind == "lose":
        return s[:i] + s[j:]
    if kind == "duplicate":
        return s[:j] + s[i:j] + s[j:]
    if kind == "truncate":
        return s[:i]
    if kind == "swap":
        k = min(len(s), j + j - i)
        return s[:i] + s[j:k] + s[i:j] + s[k:]
    if kind == "char":
        return s[:i] + rng.choice(list("\"'{}[]:,<>&/@= \n0a-.\u017e")) \
            + s[i + 1:]
    raise AssertionError(kind)


XTEXT = ["", " ", "x", "5", "-5", "+7", "1.5", "true", "0", "zz:q", "t:wired",
         "sim-t:wired", "999999999999999999999", "9" * 5000, "NaN", "\n5\n",
         "QUJD", "QQ", "/", "/sim-a:sys", "[", "a b", "\u0660", "1e5", "0x1f"]
XNS = ops.XNS


def elems(e):
    yield e
    for c in e:
        yield from elems(c)


def clone(e):
    n = ET.Element(e.tag, dict(e.attrib))
    n.text, n.tail = e.text, e.tail
    n.extend([clone(c) for c in e])
    return n


def mut_xml(root, kind, rng):
    """Changes the tree in place."""
    es = list(elems(root))
    e = rng.choice(es)
    parents = {c: p for p in es for c in p}
    p = parents.get(e)
    if kind == "text":
        lf = [x for x in es if not len(x)]
        rng.choice(lf).text = rng.choice(XTEXT) or None
    elif kind == "lose":
        if p is not None:
            p.remove(e)
    elif kind == "duplicate":
        if p is not None:
            p.insert(rng.randrange(len(p) + 1), clone(e))
    elif kind == "swap":
        f = rng.choice(es)
        if f not in list(elems(e)) and e not in list(elems(f)):
            q = parents[f]
            i, j = list(p).index(e), list(q).index(f)
            p[i], q[j] = f, e
    elif kind == "rename":
        ns = e.tag.rpartition("}")[0]
        e.tag = rng.choice([ns + "}" if ns else "", ""] + [
            "{%s}" % u for u in list(XNS.values()) + ["urn:none", ""]]) + \
            (e.tag.rpartition("}")[2] if rng.random() < .6 else rng.choice(
                ["host", "sys", "zz", "id", "item", "misc", "how", "plain",
                 "poke", "carrier", "row", "zone"]))
    elif kind == "intrude":
        n = ET.Element(rng.choice(["", "{urn:sim:a}", "{urn:sim:b}",
                                   "{urn:sim:c}", "{urn:none}"])
                       + rng.choice(["zz", "host", "misc", "id", "plain"]))
        n.text = rng.choice(XTEXT) or None
        e.insert(rng.randrange(len(e) + 1), n)
    elif kind == "misplace":
        if p is not None:
            q = rng.choice(es)
            if q not in list(elems(e)):
                q.insert(rng.randrange(len(q) + 1), clone(e))
    elif kind == "attribute":
        e.set(rng.choice(["x", "{urn:sim:a}note", "{urn:none}q", "xmlns:zz",
                          "xmlns:t"]), rng.choice(["", "x", "urn:none"]))
    elif kind == "unwrap":
        if p is not None and len(e):
            i = list(p).index(e)
            p.remove(e)
            for c in reversed(list(e)):
                p.insert(i, c)
    else:
        raise AssertionError(kind)


KINDS = {
    "json": ["type", "type", "type", "lose", "duplicate", "swap", "rename",
             "rename", "intrude", "misplace", "annotate", "annotate", "wrap",
             "nest", "unwrap"],
    "jsontext": ["flip", "lose", "duplicate", "truncate", "swap", "char"],
    "xmltext": ["flip", "lose", "duplicate", "truncate", "swap", "char"],
    "xml": ["text", "text", "text", "lose", "duplicate", "swap", "rename",
            "intrude", "misplace", "attribute", "unwrap"]}


# ------------------------------------------------------------- the reference

class Verdict:
    def __init__(self):
        self.faults = []        # (kind, path)
        self.unsure = False
        self.oddanno = False


def tdec(t, raw):
    """True, False or None (unspecified)."""
    if isinstance(raw, float) and not isinstance(t, (
            ref.Str, ref.Enum, ref.Bits, ref.Ident, ref.Bool, ref.Empty,
            ref.Iid, ref.Bin, ref.Dec)):
        return None if raw == raw and raw in (int(raw) if abs(
            raw) < 1e18 else 0,) else False if not isinstance(
                t, (ref.Pool, ref.Union)) else None
    if isinstance(raw, (list, dict)) and not isinstance(t, ref.Empty):
        return False
    if isinstance(t, ref.Int):
        if t.s64 and isinstance(raw, str):
            if re.fullmatch(r"[+-]?[0-9]+", raw) and len(raw) < 4000:
                return True
            return None if any(c.isdigit() for c in raw) else False
        return t.dec(raw)
    if isinstance(t, ref.Dec):
        if isinstance(raw, str):
            if t.dec(raw):
                return True
            return None if any(c.isdigit() for c in raw) else False
        return False if not isinstance(raw, (int, float)) or isinstance(
            raw, bool) else False
    if isinstance(t, ref.Bin):
        if not isinstance(raw, str):
            return False
        if t.dec(raw):
            return True
        if re.search(r"\s", raw) or "=" in raw:
            return None
        return False
    if isinstance(t, ref.Iid):
        if not isinstance(raw, str):
            return False
        if raw.isascii() and t.dec(raw) and "[0" not in raw:
            return True
        return None
    if isinstance(t, ref.Ident):
        if not isinstance(raw, str):
            return False
        return True if re.fullmatch(r"[a-z][\w-]*(:[a-z][\w-]*)?", raw) \
            else None
    if isinstance(t, (ref.Pool, ref.Union)):
        if raw is None:
            return False
        if isinstance(raw, str):
            if isinstance(t, ref.Pool) and raw in t.pool:
                return True
            if re.fullmatch("[a-z]{1,12}", raw):
                return t.dec(raw)
            return None
        if isinstance(raw, int) and not isinstance(raw, bool):
            return t.dec(raw)
        return None
    return t.dec(raw)


def judge(n, raw, out, jp=""):
    """Fill `out` with the faults of the JSON value `raw` at node n."""
    if n.kind == "anydata":
        return
    if n.kind in ("list", "leaflist"):
        if not isinstance(raw, list):
            out.faults.append(("type", jp))
            return
        for i, e in enumerate(raw):
            if n.kind == "leaflist":
                _scalar(n, e, out, f"{jp}/{i}")
            elif not isinstance(e, dict):
                out.faults.append(("type", f"{jp}/{i}"))
            else:
                judge_obj(n, e, out, entry_path(n, e, i, jp))
        return
    if n.kind == "leaf":
        _scalar(n, raw, out, jp)
        return
    judge_obj(n, raw, out, jp)


def entry_path(n, e, i, jp):
    if not n.keys:
        return f"{jp}/{i}"
    return jp + "=" + ",".join(str(e.get(k, "<missing>")) for k in n.keys)


def _scalar(n, raw, out, jp):
    d = tdec(n.type, raw)
    if d is None:
        out.unsure = True
    elif not d:
        out.faults.append(("type", jp))


def judge_obj(n, raw, out, jp):
    if not isinstance(raw, dict):
        out.faults.append(("type", jp))
        return
    seen = set()
    for m, v in raw.items():
        if m.startswith("@"):
            tp = jp
            if m != "@":
                if m[1:] not in raw:
                    out.faults.append(("target", jp))
                    continue
                tp += "/" + m[1:]
            if not isinstance(v, dict):
                out.faults.append(("type", tp))
                continue
            if n is ref.ROOT and m == "@" or \
                    m != "@" and isinstance(raw[m[1:]], dict):
                out.oddanno = True      # belongs inside the object
            for a, av in v.items():
                t = ref.ANNOT.get(ref.qname(n, a))
                if t is None:
                    out.faults.append(("annotation", tp))
                elif not t.dec(av) or t.check(av) is not None:
                    out.faults.append(("annvalue", tp))
            continue
        qn = ref.qname(n, m)
        for k, _, _ in n.data.values():
            if (k.ns, k.name) == qn:
                break
        else:
            if n is ref.ROOT and qn in ref.TOPNODES:
                out.unsure = True
            else:
                out.faults.append(("member", f"{jp}/{m}"))
            continue
        if qn in seen:
            out.unsure = True
        seen.add(qn)
        judge(k, v, out, f"{jp}/{m}")


def xdec(t, e):
    """Text of an XML element: True, False or None (unspecified)."""
    s = e.text or ""
    if isinstance(t, ref.Int):
        if re.fullmatch(r"[+-]?[0-9]+", s) and len(s) < 4000:
            return True
        return None if any(c.isdigit() for c in s) else False
    if isinstance(t, ref.Bool):
        if s in ("true", "false"):
            return True
        return None if s.strip() in ("true", "false", "0", "1") else False
    if isinstance(t, ref.Empty):
        return True if s == "" else None if s.isspace() else False
    if isinstance(t, ref.Enum):
        return True if s else None
    if isinstance(t, (ref.Str, ref.Bits)):
        return True
    if isinstance(t, (ref.Dec, ref.Bin, ref.Iid)):
        return tdec(t, s) or (None if s != s.strip() or isinstance(
            t, ref.Iid) else tdec(t, s))
    if isinstance(t, ref.Ident):
        m = re.fullmatch(r"([a-z][\w-]*):[a-z][\w-]*", s)
        if m and e.attrib.get("xmlns:" + m[1]) in XNS.values():
            return True
        return None
    if re.fullmatch("[a-z]{1,4}", s) and not isinstance(t, ref.Union):
        return tdec(t, s) or None
    return None


def xjudge(n, e, out, jp=""):
    """Faults of the children of element e, an instance of node n."""
    once, count = set(), {}
    bynum = {u: m for m, u in XNS.items()}
    for c in e:
        u, _, nm = c.tag.rpartition("}")
        if u:
            if u[1:] not in bynum:
                out.faults.append(("ns", u[1:]))
                continue
            ns = bynum[u[1:]]
        else:
            ns = n.ns
        pn = nm if ns == n.ns or ns is None else f"{ns}:{nm}"
        for k, _, _ in n.data.values():
            if (k.ns, k.name) == (ns, nm):
                break
        else:
            if n is ref.ROOT and (ns, nm) in ref.TOPNODES:
                out.unsure = True
            else:
                out.faults.append(("member", f"{jp}/{pn}"))
            continue
        kp = f"{jp}/{pn}"
        if k.kind == "anydata":
            out.faults.append(("type", kp))
            continue
        if k.kind in ("leaf", "container"):
            if k in once:
                out.unsure = True
            once.add(k)
        i = count[k] = count.get(k, -1) + 1
        if k.kind in ("leaf", "leaflist"):
            if k.kind == "leaflist":
                kp += f"/{i}"
            d = False if len(c) else xdec(k.type, c)
            if d is None:
                out.unsure = True
            elif not d:
                out.faults.append(("type", kp))
            continue
        if k.kind == "list":
            if k.keys:
                kp += "=" + ",".join(c.findtext(
                    (u + "}" if u else "") + x, default="<missing>")
                    for x in k.keys)
            else:
                kp += f"/{i}"
        xjudge(k, c, out, kp)


KIND_OF = {"RawTypeError": "type", "RawMemberError": "member",
           "MissingAnnotationTarget": "target",
           "UndefinedAnnotation": "annotation",
           "AnnotationTypeError": "annvalue", "MissingModuleNamespace": "ns"}


# ------------------------------------------------------------- execution

def deliver(ev):
    """('json', value) | ('xml', element) | ('lost', reason), effects"""
    doc, eff = ev["doc"], []
    media = ev["media"]
    if media == "json":
        for kind, seed in ev["muts"]:
            new = mut_json(doc, kind, random.Random(seed))
            if json.dumps(new) != json.dumps(doc):
                eff.append(kind)
            doc = new
            if len(json.dumps(doc)) > 60000:
                break
        return "json", doc, eff
    if media == "jsontext":
        s = json.dumps(doc, ensure_ascii=False)
        for kind, seed in ev["muts"]:
            s = mut_text(s, kind, random.Random(seed))
            eff.append(kind)
        try:
            return "json", json.loads(s), eff
        except ValueError:
            return "lost", "json", eff
    from yangson.xmlparser import XMLParser
    s = ops.toxml(doc)
    if media == "xml":
        root = XMLParser(s).root
        for kind, seed in ev["muts"]:
            before = ET.tostring(root)
            mut_xml(root, kind, random.Random(seed))
            if ET.tostring(root) != before:
                eff.append(kind)
            if len(before) > 60000:
                break
        return "xml", root, eff
    for kind, seed in ev["muts"]:
        s = mut_text(s, kind, random.Random(seed))
        eff.append(kind)
    try:
        root = XMLParser(s).root
        return ("xml", root, eff) if root is not None else ("lost", "xml", eff)
    except ET.ParseError:
        return "lost", "xml", eff
    except (ValueError, LookupError):       # declared encodings
        return "lost", "xml", eff


def has_any(v):
    return isinstance(v, dict) and "sim-a:misc" in v


def after(inst, ctx, seed, n, anyd):
    """Use an accepted document: documented results only."""
    from yangson.enumerations import ContentType, ValidationScope
    from yangson.exceptions import ValidationError, YangsonException
    rng = random.Random(seed)
    node = inst
    done = 0

    def attempt(what, fn, allowed):
        try:
            return fn()
        except allowed:
            return None
        except Exception as e:
            raise Violation("undocumented-result",
                            f"{ctx} accepted, then {what}: "
                            f"{type(e).__name__}: {e}")
    for _ in range(n):
        k = rng.randrange(10)
        done += 1
        if k < 2:
            sc = rng.choice(list(ValidationScope))
            ct = rng.choice([ContentType.all, ContentType.config])
            attempt("validate", lambda: inst.validate(sc, ct),
                    ValidationError)
        elif k == 2:
            attempt("raw_value", inst.raw_value, ())
        elif k == 3:
            if not anyd:
                attempt("to_xml", inst.to_xml, YangsonException)
        elif k == 4:
            attempt("add_defaults", inst.add_defaults, YangsonException)
        else:
            v = node.value
            if isinstance(v, dict) and v and node.schema_node is not None:
                m = rng.choice([x for x in v])
                if k < 7 and m[:1] != "@":
                    x = attempt("member", lambda: node[m], YangsonException)
                    node = x if x is not None else node
                elif k == 7:
                    x = attempt("delete_item", lambda: node.delete_item(m),
                                YangsonException)
                    node = x if x is not None else node
                else:
                    j = rng.choice(JUNK)
                    x = attempt("put_member", lambda: node.put_member(
                        m, j, raw=True), YangsonException)
                    if x is not None:
                        node = x.up()
            elif isinstance(v, list) and v:
                i = rng.randrange(len(v))
                x = attempt("entry", lambda: node[i], YangsonException)
                node = x if x is not None else node
            else:
                j = rng.choice(JUNK)
                x = attempt("update", lambda: node.update(j, raw=True),
                            YangsonException)
                node = x if x is not None else node
            if k == 9:
                attempt("up", lambda: node.top().raw_value(), ())
    return done


def typeok(n, raw):
    """All scalars decode surely and lie in the value spaces."""
    if n.kind == "anydata":
        return True
    if n.kind == "leaf":
        return tdec(n.type, raw) is True and n.type.check(raw) is None
    if n.kind == "leaflist":
        return all(tdec(n.type, e) is True and n.type.check(e) is None
                   for e in raw)
    if n.kind == "list":
        return all(typeobj(n, e) for e in raw)
    return typeobj(n, raw)


def typeobj(n, raw):
    for m, v in raw.items():
        if m[0] == "@":
            continue
        for k, _, _ in n.data.values():
            if (k.ns, k.name) == ref.qname(n, m):
                break
        if not typeok(k, v):
            return False
    return True


def run(scn):
    from yangson.exceptions import YangsonException
    sig = []
    st = {"documents": 0, "accepted": 0, "refused": 0, "unparsable": 0,
          "unspecified": 0, "used_operations": 0, "faults": {}}
    hit = False
    for num, ev in enumerate(scn["events"]):
        what, data, eff = deliver(ev)
        st["documents"] += 1
        for k in eff:
            st["faults"][ev["media"] + "-" + k] = st["faults"].get(
                ev["media"] + "-" + k, 0) + 1
        hit = hit or bool(eff)
        if what == "lost":
            st["unparsable"] += 1
            sig.append([eff, "lost"])
            continue
        v = Verdict()
        if what == "json":
            judge_obj(SUB[ev["sub"]] if ev["sub"] else ref.ROOT, data, v, "")
            shown = json.dumps(data)[:1500]
        else:
            xjudge(ref.ROOT, data, v)
            shown = ET.tostring(data, encoding="unicode")[:1500]
        ctx = f"document {num} ({what}) {shown}:"
        before = json.dumps(data) if what == "json" else ET.tostring(data)
        try:
            if what == "json":
                inst = dm.from_raw(data, subschema=ev["sub"])
            else:
                inst = dm.from_xml(data)
        except YangsonException as e:
            nm = type(e).__name__
            kind = KIND_OF.get(nm)
            if kind is None:
                raise Violation("wrong-exception", f"{ctx} {nm}: {e}")
            if kind == "ns" and what == "json":
                raise Violation("wrong-exception", f"{ctx} {nm}: {e}")
            place = e.modname if kind == "ns" and hasattr(
                e, "modname") else str(e) if kind == "ns" else e.path
            if v.unsure:
                st["unspecified"] += 1
                sig.append([eff, "?"])
                if not isinstance(place, str):
                    raise Violation("no-place", f"{ctx} {nm}: {place!r}")
                continue
            if not v.faults:
                raise Violation("wrongly-refused", f"{ctx} {nm}: {e}")
            if not any(k == kind and (p == place or kind == "ns"
                                      and p in place)
                       for k, p in v.faults):
                raise Violation(
                    "wrong-place", f"{ctx} {nm} at {place!r}; faults are "
                    f"{v.faults[:8]}")
            st["refused"] += 1
            sig.append([eff, nm, place])
            continue
        except Exception as e:
            raise Violation("wrong-exception",
                            f"{ctx} {type(e).__name__}: {e}")
        if (json.dumps(data) if what == "json" else ET.tostring(
                data)) != before:
            raise Violation("input-modified", ctx)
        if v.faults:
            raise Violation("wrongly-accepted",
                            f"{ctx} faults {v.faults[:8]}")
        st["accepted"] += 1
        sig.append([eff, "ok"])
        if v.unsure:
            st["unspecified"] += 1
            topn = what == "json" and isinstance(data, dict) and any(
                ref.qname(ref.ROOT, m) in ref.TOPNODES or ":" not in m
                for m in data)
            if topn or what == "xml":
                continue
        anyd = has_any(inst.value)
        if what == "json" and not v.unsure and not ev["sub"]:
            if typeobj(ref.ROOT, data):
                raw = inst.raw_value()
                try:
                    again = dm.from_raw(json.loads(json.dumps(raw)))
                except Exception as e:
                    raise Violation("unreadable-output",
                                    f"{ctx} output {json.dumps(raw)[:1000]} "
                                    f"gives {type(e).__name__}: {e}")
                if again.value != inst.value and not v.oddanno and "NaN" not in shown \
                        and not re.search(r'"@[^"]*": \{\}', json.dumps(data)):
                    raise Violation("unreadable-output",
                                    f"{ctx} output reads back differently: "
                                    + world.diff(again.raw_value(), raw)
                                    + world.diff(raw, data))
        st["used_operations"] += after(inst, ctx, *ev["post"], anyd)
    if hit:
        st["sig"] = core.digest(sig)
    return st
