"""C11: XML arriving in pieces gives the same data as XML arriving at once."""
import xml.etree.ElementTree as ET

from .. import core, env, ops, ref, world
from ..core import Violation
from .c10 import xmlable

PROP = "C11"
RULE = ("seeded deliveries of one to three XML documents in chunks of any "
        "size (also inside characters, tags and declarations), with any "
        "pattern of processing calls, interleaved, cut short or corrupted; "
        "non-trivial: at least 4 chunks; distinct by documents and events")
REAL = ["yangson.xmlparser, from_xml of the data model",
        "expat and xml.etree of the interpreter"]
STUB = ["the transport delivering chunks"]
LISTS = ("events", "docs")
ASSUMPTIONS = ["xml.etree of the standard library parses whole documents"]
# (the last two: encodings unknown to the parser)
REFUSED = (ET.ParseError, ValueError, LookupError)
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (6000, 150) if tier == "quick" else (300000, 1500)


# ------------------------------------------------------------- documents

PFX = ["a", "b", "c", "x1", "sim-a", "sim-b", "n"]


def wild_xml(doc, r):
    """XML encoding with arbitrary use of namespace declarations, comments,
    CDATA and so on; independent of yangson."""
    style = {"pfx": r.choice([0, .3, 1]), "junk": r.choice([0, 0, .1, .3]),
             "ws": r.choice([0, 0, .5]), "cdata": r.choice([0, .3]),
             "extra": r.choice([0, .2])}
    out = []

    def esc(s):
        if s and r.random() < style["cdata"] and "]]>" not in s:
            i = r.randrange(len(s) + 1)
            return esc1(s[:i]) + "<![CDATA[" + s[i:] + "]]>"
        return esc1(s)

    def esc1(s):
        res = []
        for ch in s:
            if ch in "<>&":
                res.append({"<": "&lt;", ">": "&gt;", "&": "&amp;"}[ch])
            elif r.random() < style["junk"] / 3:
                res.append(f"&#{ord(ch)};")
            else:
                res.append(ch)
        t = "".join(res)
        if t and r.random() < style["junk"] and "&" not in t:
            i = r.randrange(len(t) + 1)
            t = t[:i] + r.choice(["<!-- <z> -->", "<?pi x?>"]) + t[i:]
        return t

    def junk():
        s = ""
        if r.random() < style["ws"]:
            s += r.choice([" ", "\n  ", "\t"])
        if r.random() < style["junk"]:
            s += r.choice(["<!-- c -->", "<?p d?>", "<!--\u017e<a>&-->"])
        return s

    def elem(k, scope, decl, body):
        """One element of schema node k; `decl`: further declarations."""
        uri = ops.XNS[k.ns]
        scope = dict(scope)
        new = dict(decl)
        for p, u in new.items():
            scope[p] = u
        if r.random() < style["extra"]:
            p = r.choice(PFX)
            if p not in new:
                new[p] = scope[p] = r.choice(list(ops.XNS.values())
                                             + ["urn:else"])
        if r.random() < style["pfx"]:
            p = next((p for p in scope if scope[p] == uri and p), None)
            if p is None:
                p = r.choice([q for q in PFX if q not in new])
                new[p] = scope[p] = uri
        else:
            p = ""
            if scope.get("") != uri:
                new[""] = scope[""] = uri
        nm = f"{p}:{k.name}" if p else k.name
        at = [f' xmlns{":" if q else ""}{q}='
              + (f'"{u}"' if r.random() < .7 else f"'{u}'")
              for q, u in new.items()]
        r.shuffle(at)
        inner = body(scope)
        sp = " " if r.random() < style["junk"] else ""
        if inner == "" and r.random() < .5:
            return f"<{nm}{''.join(at)}{sp}/>"
        return f"<{nm}{''.join(at)}{sp}>{inner}</{nm}{sp}>"

    def scalar(k, v, scope):
        decl = {}
        if v == [None]:
            txt = ""
        elif isinstance(v, bool):
            txt = "true" if v else "false"
        else:
            txt = str(v)
            if isinstance(v, str) and v in ref.IDENT:
                m, _, loc = v.partition(":")
                have = [p for p in scope if scope[p] == ops.XNS[m] and p
                        and p not in ops.XNS]
                if have and r.random() < .6:
                    txt = f"{r.choice(have)}:{loc}"
                else:
                    p = m if r.random() < .4 else r.choice(PFX[:4])
                    decl[p] = ops.XNS[m]
                    txt = f"{p}:{loc}"
        return elem(k, scope, decl, lambda s: keep(k, v, s, decl, txt))

    def keep(k, v, s, decl, txt):
        # (the declarations made for the value may have been overridden)
        p, c, _ = txt.partition(":")
        if isinstance(v, str) and v in ref.IDENT:
            assert s.get(p) == ops.XNS[v.partition(":")[0]], (s, txt)
        return esc(txt)

    def obj(n, o, scope):
        res = []
        for m, v in o.items():
            k = n.data[m][0]
            if k.kind == "container":
                res.append(elem(k, scope, {}, lambda s: obj(k, v, s)))
            elif k.kind == "list":
                res += [elem(k, scope, {}, lambda s, e=e: obj(k, e, s))
                        for e in v]
            elif k.kind == "leaflist":
                res += [scalar(k, e, scope) for e in v]
            else:
                res.append(scalar(k, v, scope))
        return junk().join([""] + res) + junk() if res else ""

    scope, at = {}, ""
    for p in r.sample(PFX, r.choice([0, 0, 1, 3])):
        scope[p] = r.choice(list(ops.XNS.values()))
        at += f' xmlns:{p}="{scope[p]}"'
    body = obj(ref.ROOT, doc, scope)
    return f"<data{at}>{body}</data>"


def gen_text(r):
    for _ in range(50):
        g = ref.Gen(r, pbad=0, any=False, p=r.choice([.1, .25, .5]),
                    maxlen=r.choice([1, 2, 4]))
        doc = g.document(valid=r.random() < .5)
        if xmlable(doc):
            break
    else:
        doc = dict(ref.SIMPLE)
    if r.random() < .25:        # small ones exercise more
        doc = dict(list(doc.items())[:2])
    for _ in range(20):
        try:
            t = wild_xml(doc, r)
            break
        except AssertionError:
            continue
    else:
        t = ops.toxml(doc)
    enc = r.choice(["str", "str", "utf-8", "utf-8", "utf-16", "decl",
                    "us-ascii"])
    x = r.random()
    if enc == "us-ascii":
        if not t.isascii():
            enc = "utf-8"
        else:
            t = '<?xml version="1.0" encoding="us-ascii"?>' + t
    elif enc in ("decl", "utf-8") and x < .5:
        t = "<?xml version='1.0' encoding='utf-8'?>\n" + t
    elif x < .2 and enc != "utf-16":
        t = "<?xml version='1.0'?>" + t
    if r.random() < .2:
        t += r.choice(["\n", "<!-- end -->", "  "])
    return doc, t, "utf-8" if enc == "decl" else enc


def gen(r, i, tier):
    docs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        doc, t, enc = gen_text(r)
        d = {"doc": doc, "text": t, "enc": enc}
        n = len(encoded(d))
        x = r.random()
        if x < .3:
            d["cut"] = r.choice([r.randrange(n), n - 1, n - 2,
                                 max(0, n - r.randint(1, 12))])
        elif x < .4:
            d["flip"] = [r.randrange(n), r.randrange(1, 255)]
        docs.append(d)
    ev = []
    left = [len(encoded(d)) for d in docs]
    pp = r.choice([0, .1, .5, .9])
    size = r.choice(["one", "small", "mixed", "big"])
    while any(x > 0 for x in left) and len(ev) < 3000:
        s = r.choice([j for j, x in enumerate(left) if x > 0])
        k = {"one": 1, "small": r.randint(1, 6), "big": r.randint(50, 900),
             "mixed": int(r.paretovariate(.6))}[size]
        k = max(1, min(k, left[s]))
        ev.append(["feed", s, k])
        left[s] -= k
        if size == "one" and left[s] > 700:   # do not spend all the time
            k = left[s] - r.randint(100, 600)
            ev.append(["feed", s, k])
            left[s] -= k
        while r.random() < pp:
            ev.append(["parse", s])
    return {"docs": docs, "events": ev,
            "final": [r.choice(["close", "both"]) for _ in docs]}


def encoded(d):
    if d["enc"] == "str":
        return d["text"]
    return d["text"].encode(d["enc"])


def damaged(d):
    data = encoded(d)
    if "cut" in d:
        data = data[:d["cut"]]
    elif "flip" in d:
        j, x = d["flip"]
        if isinstance(data, str):
            c = chr(ord(data[j]) ^ x % 128)
            data = data[:j] + c + data[j + 1:]
        else:
            data = data[:j] + bytes([data[j] ^ x]) + data[j + 1:]
    return data


def tree(e):
    return [e.tag, e.text or "", e.tail or "", sorted(e.attrib.items()),
            [tree(c) for c in e]]


def instance(root):
    try:
        return ["ok", dm.from_xml(root).raw_value()]
    except Exception as e:
        return ["exc", type(e).__name__, str(e)]


def outcome(fn):
    """Result of parsing: ["tree", ..] | ["error", text]"""
    try:
        root = fn()
    except REFUSED as e:
        return ["error", type(e).__name__], None
    if root is None:
        return ["none"], None
    return ["tree", tree(root)], root


def whole(data):
    """A whole document given to the constructor, and xml.etree's opinion."""
    from yangson.xmlparser import XMLParser
    try:
        ET.fromstring(data)
        good = True
    except REFUSED:
        good = False
    if not data:
        return ["error", "empty"], None, False
    out, root = outcome(lambda: XMLParser(data).root)
    return out, root, good


def run(scn):
    from yangson.xmlparser import XMLParser
    docs = scn["docs"]
    data = [damaged(d) for d in docs]
    parsers = [None] * len(docs)
    pos = [0] * len(docs)
    res = [None] * len(docs)
    chunks = calls = 0
    faults = {}

    def guard(s, fn):
        if res[s] is not None:
            return
        try:
            fn()
        except REFUSED as e:
            res[s] = ["error", type(e).__name__]

    def feed(s, k):
        nonlocal chunks
        if parsers[s] is None:
            parsers[s] = XMLParser()
        part = data[s][pos[s]:pos[s] + k]
        pos[s] += k
        if part:
            chunks += 1
            guard(s, lambda: parsers[s].feed(part))

    for ev in scn["events"]:
        s = ev[1]
        if s >= len(docs):
            continue
        if ev[0] == "feed":
            feed(s, ev[2])
        elif parsers[s] is not None:
            calls += 1
            guard(s, parsers[s].parse)
    expected = [whole(x) for x in data]
    for s, d in enumerate(docs):
        ctx = f"document {s}"
        feed(s, len(data[s]))
        fin = scn["final"][s]
        p = parsers[s]
        exp, eroot, good = expected[s]
        root = None
        if fin == "both":
            guard(s, p.parse)
            guard(s, p.close)
            guard(s, p.parse)
        else:
            guard(s, p.close)
            guard(s, p.parse)
        if res[s] is None:
            root = p.root
            got = ["none"] if root is None else ["tree", tree(root)]
        else:
            got = res[s]
        if "cut" in d:
            faults["truncated"] = faults.get("truncated", 0) + 1
        elif "flip" in d:
            faults["corrupted"] = faults.get("corrupted", 0) + 1
        if not good and got[0] != "error":
            raise Violation("incomplete-taken-for-complete",
                            f"{ctx}: {data[s][-80:]!r} is accepted: "
                            f"{str(got)[:300]}")
        if not good and exp[0] != "error":
            raise Violation("incomplete-taken-for-complete",
                            f"{ctx}: {data[s][-80:]!r} is accepted at once")
        if good and got[0] != "tree":
            raise Violation("pieces-refused", f"{ctx}: {got}; a complete "
                            "document")
        if got[0] != exp[0] or got[0] == "tree" and got != exp:
            raise Violation("tree-differs", f"{ctx}: "
                            + str(difference(got, exp))[:1500])
        if got[0] != "tree":
            continue
        a, b = instance(root), instance(eroot)
        if a != b and not (a[0] == b[0] == "ok" and ref.same(a[1], b[1])):
            raise Violation("instance-differs", f"{ctx}: {str(a)[:500]} "
                            f"instead of {str(b)[:500]}")
        if "flip" not in d:
            if a[0] != "ok":
                raise Violation("document-refused", f"{ctx}: {a}")
            if not ref.same(a[1], d["doc"]):
                raise Violation(
                    "other-data", f"{ctx}: "
                    + str(world.diff(
                        a[1], d["doc"])))
    st = {"documents": len(docs), "chunks": chunks, "processing_calls": calls,
          "faults": faults}
    if chunks >= 4:
        st["sig"] = core.digest(scn)
    return st


def difference(a, b):
    if a[0] != "tree" or b[0] != "tree":
        return [a[:2], "instead of", b[:2]]

    def rec(x, y):
        if x[:4] != y[:4]:
            return [x[:4], "instead of", y[:4]]
        if len(x[4]) != len(y[4]):
            return [x[0], "children", len(x[4]), len(y[4])]
        for p, q in zip(x[4], y[4]):
            d = rec(p, q)
            if d:
                return d
    return rec(a[1], b[1])
