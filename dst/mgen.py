"""Generated data models: a JSON description from which the YANG modules, the
YANG library and the reference (a tree of ref.N) are made independently.

A description ("spec") is part of the scenario, so a scenario replays without
the generator.  The same schema tree is written down in many ways: directly,
by groupings with refinements, augments from other modules, submodules,
deviations, unsupported features, typedef chains and choice shorthands.
"""
import itertools
import json
import os
import re
import shutil
import tempfile
from contextlib import contextmanager
from decimal import Decimal

from . import env, ops, ref

MODS = ["ma", "mb", "mc"]
DEV = "zd"
NAMES = ["ab", "b", "c-1", "d_2", "e.x", "val", "id", "name", "cfg", "kx",
         "tt", "set", "u1", "w", "y9", "zed", "lo", "hi", "pos", "node",
         "text", "last", "div", "or", "mod", "self", "item", "count"]
CTX = None                  # the spec in use


# ------------------------------------------------------------------ types

PATS = [("[a-z]*", "[a-z]*"), ("[a-z0-9]+(-[a-z0-9]+)*",) * 2,
        ("[0-9]+(\\.[0-9]+){0,2}",) * 2, ("[^:]*",) * 2, ("(a|b|c)+",) * 2,
        ("[A-Z].{1,5}",) * 2, ("a.*|.*z",) * 2, ("\\S+",) * 2,
        ("[a-c]{1,3}|[x-z]{2}",) * 2, ("[^<>&]+",) * 2]
CAND = ["", "a", "b", "c", "abc", "cab", "a-b", "x1", "1", "1.2", "1.2.3",
        "12", "Abc", "Abcdef", "Ab", "A:b", "a:b", "a b", " a", "xz", "zz",
        "\u017elu\u0165", "\u65e5\u672c", "<&>", "'", '"', "a'b\"c", "aaz",
        "longlonglonglong", "q/r", "s,t", "u=v", "w%20", "[x]", "]]>", "B-9",
        "1+2", "+a", "100%", "%2B", "a;b", "a&b=c", "true", "null", "0", "-1",
        "x\ty", "\U0001f600", "Zz-z", "aa", "ba"]


class GStr(ref.T):
    def __init__(self, lens, pats, tag):
        self.lens, self.tag = lens, tag
        self.rx = [(re.compile(PATS[i][1]), inv) for i, inv in pats]
        self.pool = [c for c in CAND if self.check(c) is None]
        self.out = [c for c in CAND if self.check(c)]

    def ok(self, v):
        if self.lens and not any(a <= len(v) <= b for a, b in self.lens):
            return False
        return all(bool(x.fullmatch(v)) != inv for x, inv in self.rx)

    def check(self, v):
        return None if self.ok(v) else self.tag or "invalid-type"

    def gen(self, r): return r.choice(self.pool)

    def bad(self, r): return r.choice(self.out) if self.out else None

    def wrong(self, r): return r.choice([1, None, True, [None], {"x": 1}])


class GEnum(ref.Enum):
    def bad(self, r): return r.choice(["nope", "", self.vals[0] + " "])


class GBits(ref.T):
    def __init__(self, vals): self.vals = vals

    def gen(self, r):
        return " ".join(b for b in self.vals if r.random() < .5)

    def wrong(self, r): return r.choice([1, None, True])

    def check(self, v):
        return None if all(b in self.vals for b in v.split()) \
            else "invalid-type"


def dec_str(n, fd):
    """Canonical form of n * 10^-fd."""
    s = str(abs(n)).rjust(fd + 1, "0")
    frac = s[-fd:].rstrip("0") or "0"
    return ("-" if n < 0 else "") + s[:-fd] + "." + frac


class GDec(ref.T):
    def __init__(self, fd, ranges, tag):
        self.fd, self.tag = fd, tag
        self.ranges = ranges or [[-2**63, 2**63 - 1]]
        self.full = not ranges

    def gen(self, r):
        a, b = r.choice(self.ranges)
        n = r.choice([a, b, r.randint(a, b), r.randint(a, b)])
        if a <= 0 <= b and r.random() < .4:
            n = max(a, min(b, r.choice([0, 1, 10, 15, -1, 10**self.fd])))
        return dec_str(n, self.fd)

    def bad(self, r):
        if self.full:
            return None
        return dec_str(r.choice([self.ranges[0][0] - 1,
                                 self.ranges[-1][1] + 1]), self.fd)

    def wrong(self, r): return r.choice([1, "x", None, 1.5, "", "1,5"])

    def dec(self, raw):
        return isinstance(raw, str) and bool(
            re.fullmatch(r"[+-]?[0-9]+(\.[0-9]*)?", raw))

    def check(self, v):
        n = Decimal(v).scaleb(self.fd)
        return None if any(a <= n <= b for a, b in self.ranges) \
            else self.tag or "invalid-type"


class GInt(ref.Int):
    def __init__(self, bits, signed, ranges, tag, pool):
        lo = -2**(bits - 1) if signed else 0
        hi = 2**(bits - 1) - 1 if signed else 2**bits - 1
        super().__init__(lo, hi, ranges and [tuple(x) for x in ranges], pool,
                         s64=bits == 64)
        self.tag = tag

    def bad(self, r):
        v = super().bad(r)
        return v

    def check(self, v):
        return self.tag or "invalid-type" if super().check(v) else None


class GIdent(ref.Ident):
    def gen(self, r):
        return r.choice(sorted(i for i in ref.IDENT if self.check(i) is None))

    def bad(self, r):
        bad = sorted(i for i in ref.IDENT if self.check(i))
        # derived from one base but not from another
        near = [i for i in bad if any(b in ref.IDENT[i] for b in self.bases)]
        if near and r.random() < .7:
            return r.choice(near)
        return r.choice(bad + ["ma:none", "zz:fibre"])


class GUnion(ref.T):
    def __init__(self, members): self.members = members

    def gen(self, r): return r.choice(self.members).gen(r)

    def wrong(self, r): return r.choice([None, {"x": 1}, 1.5, "#!", [None]])

    def check(self, v):
        return None if self.dec(v) else "invalid-type"

    def dec(self, raw):
        return any(m.dec(raw) and m.check(raw) is None for m in self.members)


class GIid(ref.Iid):
    POOL = ["/"]

    def gen(self, r): return r.choice(GIid.POOL)

    def wrong(self, r): return r.choice(["ma:sys", "/ma:sys[", "//"])


class GRef(ref.T):
    """leafref: delegates to the type of its target."""

    def __init__(self): self.t = None

    def gen(self, r): return self.t.gen(r)

    def bad(self, r): return self.t.bad(r)

    def wrong(self, r): return self.t.wrong(r)

    def check(self, v): return self.t.check(v)

    def dec(self, raw): return self.t.dec(raw)


INTS = {"int8": (8, True), "uint8": (8, False), "int16": (16, True),
        "uint16": (16, False), "int32": (32, True), "uint32": (32, False),
        "int64": (64, True), "uint64": (64, False)}


def mktype(t):
    b = t["b"]
    if b in INTS:
        return GInt(*INTS[b], t.get("r"), t.get("tag"), t.get("pool", ()))
    if b == "string":
        return GStr(t.get("len"), t.get("pats", []), t.get("tag"))
    if b == "enumeration":
        return GEnum(*t["vals"])
    if b == "bits":
        return GBits(t["vals"])
    if b == "decimal64":
        return GDec(t["fd"], t.get("r"), t.get("tag"))
    if b == "boolean":
        return ref.Bool()
    if b == "empty":
        return ref.Empty()
    if b == "binary":
        return ref.Bin(*(t.get("len") or [[0, 10**6]])[0])
    if b == "identityref":
        return GIdent(*t["bases"])
    if b == "union":
        return GUnion([mktype(x) for x in t["members"]])
    if b == "instance-identifier":
        return GIid()
    if b == "leafref":
        return GRef()
    raise AssertionError(b)


# ------------------------------------------------------------------ conditions

class Cond:
    """Predicate of a `when` or `must` described by a small AST."""

    def __init__(self, ast, owner): self.ast, self.owner = ast, owner

    def __call__(self, ctx): return self.ev(self.ast, ctx)

    def values(self, p, ctx):
        n = self.owner
        chain = ctx.chain
        if not p["steps"] and not p.get("abs"):
            return [chain[-1]]
        return follow(n, chain, p)

    def ev(self, a, ctx):
        op = a[0]
        if op == "not":
            return not self.ev(a[1], ctx)
        if op == "and":
            return self.ev(a[1], ctx) and self.ev(a[2], ctx)
        if op == "or":
            return self.ev(a[1], ctx) or self.ev(a[2], ctx)
        vs = self.values(a[1], ctx)
        if op == "ex":
            return bool(vs)
        if op == "cnt":
            return len(vs) <= a[3] if a[2] == "<=" else len(vs) >= a[3]
        if op == "eqp":
            ws = [ref.canon(x) for x in self.values(a[2], ctx)]
            return any(ref.canon(v) in ws for v in vs)
        if op in ("eq", "ne"):
            c = a[2]
            if isinstance(c, int) and not isinstance(c, bool):
                hit = [Decimal(ref.canon(v)) == c for v in vs]
            else:
                hit = [ref.canon(v) == ref.canon(c) for v in vs]
            return any(hit) if op == "eq" else not all(hit)
        if op == "gt":
            return any(Decimal(ref.canon(v)) > a[2] for v in vs)
        if op == "lt":
            return any(Decimal(ref.canon(v)) < a[2] for v in vs)
        raise AssertionError(a)


def datanode(n):
    while not n.is_data() and n.kind != "root":
        n = n.parent
    return n


def child(n, m, name):
    for iname, (k, _, _) in n.data.items():
        if k.ns == m and k.name == name:
            return iname, k
    raise KeyError((m, name))


def follow(owner, chain, p, defaults=True):
    """Values of the nodes that a path leads to from the context chain."""
    n = datanode(owner)
    if p.get("abs"):
        chains, n = [chain[:1]], ref.ROOT
    else:
        up = p["up"]
        chains = [chain[:len(chain) - up]]
        for _ in range(up):
            n = n.dparent
    for m, name in p["steps"]:
        iname, k = child(n, m, name)
        nxt = []
        for c in chains:
            v = c[-1]
            if iname in v:
                x = v[iname]
                xs = x if k.kind in ("list", "leaflist") else [x]
            elif not defaults:
                continue
            elif k.kind == "leaf" and k.default is not None:
                xs = [k.default]
            elif k.kind == "leaflist" and k.default is not None:
                xs = k.default
            elif k.kind == "container" and not k.presence:
                xs = [{}]
            else:
                continue
            if iname in v or in_use(n, iname, c):
                nxt += [c + [x] for x in xs]
        chains, n = nxt, k
    return [c[-1] for c in chains]


def in_use(n, iname, chain):
    """Is the absent child of the object chain[-1] in use by default?"""
    k, conds, choices = n.data[iname]
    for w in conds:
        if not w(ref.C(chain + [None] if k.when is w else chain)):
            return False
    for ch, case in choices:
        act = [c for c in ch.kids for d in n.data.values()
               if (ch, c) in d[2] and d[0].iname in chain[-1]]
        if act:
            if act[0] is not case:
                return False
            continue
        dc = [c for c in ch.kids if c.name == ch.defcase]
        dc = [c for c in dc if c.ns == ch.ns] or dc
        if not dc or dc[0] is not case:
            return False
    return True


# ------------------------------------------------------------------ reference

def build(spec):
    """The tree of reference nodes."""
    late = []

    def node(s, cfg):
        k = s["k"]
        c = cfg and not s.get("state")
        kids = [node(x, c) for x in s.get("kids", [])]
        kw = {"ns": s["m"], "config": c, "kids": kids}
        if k in ("leaf", "leaflist"):
            kw["type"] = mktype(s["t"])
            if "d" in s:
                kw["default"] = s["d"]
        kw["mandatory"] = bool(s.get("mand"))
        if k == "container":
            kw["presence"] = bool(s.get("pres"))
        if k in ("list", "leaflist"):
            kw["mn"], kw["mx"] = s.get("mn", 0), s.get("mx")
            kw["user"] = bool(s.get("user"))
        if k == "list":
            kw["keys"] = s["keys"]
        if k == "choice":
            kw["defcase"] = s.get("dc")
        n = ref.N(k, s.get("n"), **kw)
        n.spec = s
        if s.get("when"):
            n.when = Cond(s["when"], n)
        n.must = [(Cond(a, n), tag or "must-violation")
                  for a, tag in s.get("must", [])]
        late.append((n, s))
        return n

    root = ref.N("root", None, ns=None, kids=[
        node(s, True) for s in spec["nodes"]])
    ref._index(root)
    for n, s in late:
        if s["k"] == "list":
            n.unique = [uniq(n, u) for u in s.get("uniq", [])]
            for kk in n.keys:
                n.data[kk][0].mandatory = True
    with using_root(root):
        for _ in range(3):              # references to references
            for n, s in late:
                t = s.get("t")
                if t and t["b"] == "leafref":
                    n.type.t = schema_target(n, t["path"]).type
                    if t.get("req", True):
                        n.req = reqfn(n, t["path"])
                elif t and t["b"] == "instance-identifier" and \
                        t.get("req", True):
                    n.req = "iid"
    return root


def reqfn(n, p): return lambda ctx: follow(n, ctx.chain, p)


def schema_target(n, p):
    n = ref.ROOT if p.get("abs") else n
    for _ in range(p.get("up", 0)):
        n = n.dparent
    for m, name in p["steps"]:
        n = child(n, m, name)[1]
    return n


def uniq(lst, paths):
    def f(e):
        cols = []
        for p in paths:
            cols.append({repr(v) for v in follow(
                lst, [e], {"up": 0, "steps": p})})
        return set(itertools.product(*cols))
    return f


@contextmanager
def using_root(root):
    old = ref.ROOT
    ref.ROOT = root
    try:
        yield
    finally:
        ref.ROOT = old


SAVED = [(ref, "ROOT"), (ref, "IDENT"), (ref, "ANNOT"), (ref, "TOPNODES"),
         (ref, "NOTES"), (ref, "SIMPLE"), (ops, "XPATHS"), (ops, "DATAPATHS"), (ops, "IDENTS"),
         (ops, "TOGGLES"), (ops, "XNS"), (ops, "RPCS"), (ops, "XCTX"),
         (ops, "LIST"), (ops, "LINKS")]


def install(spec):
    """Make the generated model the one that ref, steps and ops work with."""
    global CTX
    CTX = spec
    ref.IDENT = closure(spec["idents"])
    ref.ROOT = build(spec)
    ref.ANNOT = {("ma", "note"): ref.Str(),
                 ("ma", "weight"): ref.Int(-128, 127)}
    ref.NOTES = ("ma:note", "ma:weight")
    ref.TOPNODES = set()
    ref.SIMPLE = {}
    ops.XNS = {m: "urn:" + m for m in MODS}
    paths, tog = [], []
    last = spec["mods"][-1]
    px = Writer(spec).pfx

    def rec(n, sp, dp, cond):
        for iname, (k, conds, choices) in n.data.items():
            xp = sp + "/" + f"{px(last, k.ns)}:{k.name}"
            d = dp + [iname]
            paths.append(("/" + "/".join(d), xp, k, cond or conds or choices))
            if k.kind in ("container", "list"):
                rec(k, xp, d, cond or conds or choices or k.kind == "list"
                    or k.presence)
            elif k.kind == "leaf" and not cond:
                tog.append((d, k))
    rec(ref.ROOT, "", [], False)
    # (data path of yangson: names with the module where it changes)
    ops.DATAPATHS = [p for p, _, _, _ in paths][:40] + ["/ma:nope"]
    xs = ["count(//*)", "..", "../*", "ancestor::*", "name()", "//@*",
          "descendant-or-self::node()", "following-sibling::*",
          "preceding-sibling::*", "string-length(string(.))"]
    for p, x, k, _ in paths[:60]:
        if k.kind == "leaf":
            xs += [f"string({x})", f"{x} = 'a'", f"{x} > 2",
                   f"concat({x}, '-', position())"]
            if isinstance(k.type, (GRef, GIid)):
                xs += [f"deref({x})/.."]
        else:
            xs += [f"count({x})", f"{x}[last()]", f"{x}/*", f"not({x})"]
    ops.XPATHS = xs
    ops.XCTX = (last, (last, spec.get("rev", {}).get(last, "")))
    ops.IDENTS = [[a, b] for a in sorted(ref.IDENT) for b in sorted(ref.IDENT)
                  ][:30] or [["ma:none", "ma:none"]]
    GIid.POOL = iid_pool()
    ops.TOGGLES = [(d, toggle_values(k)) for d, k in tog] or \
        [([next(iter(ref.ROOT.data), "ma:none")], [None])]
    ops.RPCS = [["ma:nope", {}]] * 2
    ls = [[i, k.keys] for i, (k, _, _) in ref.ROOT.data.items()
          if k.kind == "list" and k.keys and all(
              isinstance(k.data[x][0].type, (GInt, GStr, GEnum))
              for x in k.keys)]
    ops.LIST = ls[0] if ls else None
    ops.LINKS = is_link


def is_link(kind):
    k, _ = kind
    return k is not None and isinstance(k.type, (GRef, GIid))


def toggle_values(k):
    import random
    r = random.Random(repr(k.spec))
    vs = [k.type.gen(r) for _ in range(3)]
    for b in [k.type.bad(r)]:
        if b is not None and k.type.dec(b):
            vs.append(b)
    return vs


@contextmanager
def using(spec):
    global CTX
    saved = [(m, a, getattr(m, a)) for m, a in SAVED]
    old, pool = CTX, GIid.POOL
    try:
        install(spec)
        yield
    finally:
        for m, a, v in saved:
            setattr(m, a, v)
        CTX, GIid.POOL = old, pool


def closure(idents):
    res = {f"{m}:{n}": set(b) for m, n, b in idents}
    for _ in range(len(res)):
        for s in res.values():
            for b in list(s):
                s |= res[b]
    return res


def iid_pool():
    import random
    r = random.Random(1)
    out = []

    def rec(n, txt, depth):
        for iname, (k, _, _) in n.data.items():
            t = txt + "/" + iname
            if k.kind == "leaf" or k.kind == "anydata":
                out.append(t)
            elif k.kind == "container":
                out.append(t)
                rec(k, t, depth + 1)
            elif k.kind == "leaflist":
                v = ref.canon(k.type.gen(r)) if not isinstance(
                    k.type, GIid) else "/"
                out.append(t + f"[.={q1(v)}]")
            elif k.keys:
                for _ in range(2):
                    ks = [(x, k.data[x][0].type) for x in k.keys]
                    t2 = t + "".join(
                        f"[{x}={q1(ref.canon(ty.gen(r)))}]" for x, ty in ks)
                    out.append(t2)
                    if depth < 2:
                        rec(k, t2, depth + 1)
            else:
                out.append(t + "[1]")
    GIid.POOL = ["/"]
    rec(ref.ROOT, "", 0)
    res = [x for x in out if x.count('"') % 2 == 0 and ref.parse_iid(x)]
    return res or ["/"]


def q1(s): return "'" + s + "'" if '"' in s else '"' + s + '"'


# ------------------------------------------------------------------ YANG text

class Writer:
    """Renders a spec as YANG modules."""

    def __init__(self, spec):
        self.spec = spec
        self.groupings = {m: [] for m in MODS}
        self.typedefs = {m: [] for m in MODS}
        self.augs = {m: [] for m in MODS}
        self.body = {m: [] for m in MODS}
        self.devs = []
        self.n = 0
        self.feats = {}

    def pfx(self, cur, m):
        """Prefix of module m in the text of module cur."""
        if cur == m:
            return "x"
        return {"ma": "a", "mb": "b" if cur != "mc" else "a1",
                "mc": "c"}[m]

    def q(self, s):
        """A YANG argument in one of the notations."""
        self.n += 1
        k = self.n % 4
        if k == 0 and re.fullmatch(r"[\w.:/-]+", s) and "//" not in s:
            return s
        if k == 1 and "'" not in s:
            return "'" + s + "'"
        e = s.replace("\\", "\\\\").replace('"', '\\"').replace(
            "\t", "\\t").replace("\n", "\\n")
        if k == 2 and len(s) > 3 and "\\" not in e:
            i = len(e) // 2
            return f'"{e[:i]}"\n   + "{e[i:]}"'
        return f'"{e}"'

    # -- XPath

    def path(self, cur, p):
        if not p["steps"] and not p.get("abs"):
            return "."
        st = "/".join(f"{self.pfx(cur, m)}:{n}" for m, n in p["steps"])
        if p.get("abs"):
            return "/" + st
        return "../" * p["up"] + st

    def const(self, c):
        if c is True or c is False:
            return "'true'" if c else "'false'"
        if isinstance(c, int):
            return str(c)
        return "'" + c + "'"

    def xpath(self, cur, a):
        op = a[0]
        if op == "not":
            return f"not({self.xpath(cur, a[1])})"
        if op in ("and", "or"):
            return f"({self.xpath(cur, a[1])}) {op} ({self.xpath(cur, a[2])})"
        p = self.path(cur, a[1])
        if op == "ex":
            return p
        if op == "cnt":
            return f"count({p}) {a[2]} {a[3]}"
        if op == "eqp":
            return f"{p} = {self.path(cur, a[2])}"
        return f"{p} {dict(eq='=', ne='!=', gt='>', lt='<')[op]} " \
               f"{self.const(a[2])}"

    # -- types

    def ranges(self, rs, fmt=str):
        return " | ".join(fmt(a) if a == b else f"{fmt(a)}..{fmt(b)}"
                          for a, b in rs)

    def restriction(self, kw, arg, tag):
        if tag:
            return f" {kw} {self.q(arg)} {{ error-app-tag {self.q(tag)}; " \
                   f"error-message {self.q('wrong ' + kw)}; }}"
        return f" {kw} {self.q(arg)};"

    def type_body(self, cur, t, part=None):
        """Substatements of a type; `part` selects the outer or the inner
        half of the restrictions of a derived type."""
        b, s = t["b"], ""
        outer = part == "outer"
        if b in INTS or b == "decimal64":
            fmt = (lambda n: dec_str(n, t["fd"])) if b == "decimal64" else str
            if b == "decimal64" and part != "inner":
                s += f" fraction-digits {t['fd']};"
            if outer and t.get("r0"):
                s += f" range {self.q(self.ranges(t['r0'], fmt))};"
            if not outer and t.get("r"):
                s += self.restriction("range", self.ranges(t["r"], fmt),
                                      t.get("tag"))
        elif b in ("string", "binary"):
            if outer and t.get("len0"):
                s += f" length {self.q(self.ranges(t['len0']))};"
            if not outer and t.get("len"):
                s += self.restriction("length", self.ranges(t["len"]),
                                      t.get("tag"))
            pats = t.get("pats", [])
            if part:
                h = len(pats) // 2
                pats = pats[:h] if outer else pats[h:]
            for i, inv in pats:
                sub = ""
                if inv:
                    sub += " modifier invert-match;"
                if t.get("tag"):
                    sub += f" error-app-tag {self.q(t['tag'])};"
                s += f" pattern '{PATS[i][0]}'" + (
                    f" {{{sub} }}" if sub else ";")
        elif b == "enumeration":
            vs = t["all"] if outer or not part else t["vals"]
            for v in vs:
                num = t.get("nums", {}).get(v)
                s += f" enum {self.q(v)}" + (
                    f" {{ value {num}; }}" if num is not None else ";")
        elif b == "bits":
            for v in sorted(t["all"]) if not part or outer else t["vals"]:
                s += f" bit {v} {{ position {t['pos'][v]}; }}"
        elif b == "identityref":
            if part != "inner":
                for x in t["bases"]:
                    m, n = x.split(":")
                    s += f" base {self.pfx(cur, m)}:{n};"
        elif b == "union":
            for x in t["members"]:
                s += " " + self.type(cur, x)
        elif b == "leafref":
            s += f" path {self.q(self.path(cur, t['path']))};"
            if not t.get("req", True):
                s += " require-instance false;"
        elif b == "instance-identifier":
            if not t.get("req", True):
                s += " require-instance false;"
        return s

    def type(self, cur, t, default=None):
        b = t["b"]
        if t.get("td"):
            self.n += 1
            name = f"t{self.n}"
            if t["td"] == 2:        # restrictions on two levels
                body = self.type_body(cur, t, "outer")
                td = f"type {b} {{{body} }}" if body else f"type {b};"
                use = self.type_body(cur, t, "inner")
            else:
                body = self.type_body(cur, t)
                td = f"type {b} {{{body} }}" if body else f"type {b};"
                use = ""
            if default is not None:
                td += f" default {self.q(default)};"
            self.typedefs[cur].append(f"typedef {name} {{ {td} }}")
            ref_ = f"{self.pfx(cur, cur)}:{name}" if self.n % 2 else name
            return f"type {ref_} {{{use} }}" if use else f"type {ref_};"
        body = self.type_body(cur, t)
        return f"type {b} {{{body} }}" if body else f"type {b};"

    def defval(self, cur, t, v):
        if t["b"] == "identityref":
            m, n = v.split(":")
            return n if m == cur and t.get("noprefix") else \
                f"{self.pfx(cur, m)}:{n}"
        return ref.canon(v)

    # -- nodes

    def props(self, s, cur):
        """[(keyword, argument or block)] of the properties that may be
        refined or deviated."""
        out = []
        if s["k"] == "leaf" and "d" in s and not s["t"].get("dt"):
            out.append(("default", self.defval(cur, s["t"], s["d"])))
        if s["k"] == "leaflist" and "d" in s and not s["t"].get("dt"):
            out += [("default", self.defval(cur, s["t"], v)) for v in s["d"]]
        if s.get("mand") and not s.get("iskey"):
            out.append(("mandatory", "true"))
        if s.get("pres"):
            out.append(("presence", "p"))
        if s.get("mn"):
            out.append(("min-elements", str(s["mn"])))
        if s.get("mx") is not None:
            out.append(("max-elements", str(s["mx"])))
        for a, tag in s.get("must", []):
            out.append(("must", self.xpath(cur, a), tag))
        if s["k"] == "choice" and s.get("dc"):
            out.append(("default", s["dc"]))
        return out

    def decoys(self, s, cur, dec):
        """Properties that a refinement or deviation replaces or removes."""
        out = []
        for kw, v in dec.items():
            if kw == "default" and s["k"] != "choice":
                out += [(kw, self.defval(cur, s["t"], x)) for x in v]
            elif kw == "unique":
                out += [(kw, " ".join(
                    "/".join(f"{self.pfx(cur, m)}:{n}" for m, n in p)
                    for p in u)) for u in v]
            elif kw == "must":
                out += [(kw, self.xpath(cur, a), None) for a in v]
            elif kw in ("default", "mandatory", "min-elements",
                        "max-elements", "units"):
                out.append((kw, str(v)))
        return out

    def prop(self, p):
        if p[0] == "must" and p[2]:
            return f" must {self.q(p[1])} {{ error-app-tag {self.q(p[2])}; }}"
        return f" {p[0]} {self.q(p[1])};"

    def node(self, s, cur, spath, hide=()):
        """Statement of a node; hidden properties are left out."""
        k = s["k"]
        if k == "group":
            return self.group(s, cur, spath)
        if s.get("via") and not hide:
            return self.indirect(s, cur, spath)
        kw = {"leaflist": "leaf-list"}.get(k, k)
        out = ""
        dec = s.get("dec", {}) if hide else {}
        if s.get("when") and not s.get("gw"):
            out += f" when {self.q(self.xpath(cur, s['when']))};"
        if s.get("feat"):
            out += f" if-feature {self.q(self.feature(s['feat'], cur))};"
        if "config" in dec:
            out += f" config {'true' if s.get('state') else 'false'};"
        elif s.get("state"):
            out += " config false;"
        if s.get("status"):
            out += f" status {s['status']};"
        if k in ("leaf", "leaflist"):
            d = s.get("d") if s["t"].get("dt") else None
            if d is None and "nod" in s and (
                    s.get("mand") or s.get("mn") or s.get("iskey")):
                d = s["nod"]        # (never in use)
            if isinstance(d, list):
                d = d[0]
            if d is not None:
                d = self.defval(cur, s["t"], d)
            out += " type string;" if "type" in dec else \
                " " + self.type(cur, s["t"], d)
        if k == "list" and s["keys"]:
            out += f" key {self.q(' '.join(s['keys']))};"
        for u in s.get("uniq", []):
            out += " unique " + self.q(" ".join(
                "/".join((f"{self.pfx(cur, m)}:" if self.n % 2 or m != cur
                          else "") + n for m, n in p) for p in u)) + ";"
        if s.get("user"):
            out += " ordered-by user;"
        for p in self.props(s, cur):
            if p[0] not in hide:
                out += self.prop(p)
        for p in self.decoys(s, cur, dec):
            out += self.prop(p)
        out += self.kids(s, cur, spath + [(s["m"], s["n"])])
        return f"{kw} {s['n']} {{{out} }}"

    def kids(self, s, cur, spath):
        out = ""
        cond = {}
        for x in s.get("kids", []):
            if x.get("gw") and x["m"] != cur and x.get("when"):
                cond.setdefault((x["m"], json.dumps(x["when"])),
                                []).append(x)
            elif x["m"] != cur and x["k"] != "group":
                self.augment(x, spath)
            elif x["m"] != cur:
                self.group(x, cur, spath)
            elif x["k"] == "case" and x.get("short"):
                sp = spath + [(x["m"], x["n"])]
                out += "\n " + self.node(x["kids"][0], cur, sp)
            else:
                out += "\n " + self.node(x, cur, spath)
        for (m, w), xs in cond.items():
            body = "".join("\n " + (
                self.node(x["kids"][0], m, spath + [(m, x["n"])])
                if x.get("short") else self.node(x, m, spath)) for x in xs)
            w = f" when {self.q(self.xpath(m, json.loads(w)))};"
            self.augs[m].append((
                len(spath), f"augment {self.q(self.target(m, spath))} "
                f"{{{w}{body} }}"))
        return out

    def target(self, cur, spath):
        return "/" + "/".join(f"{self.pfx(cur, m)}:{n}" for m, n in spath)

    def augment(self, x, spath, when=""):
        cur = x["m"]
        if x["k"] == "case" and x.get("short"):
            body = self.node(x["kids"][0], cur, spath + [(cur, x["n"])])
        else:
            body = self.node(x, cur, spath)
        self.augs[cur].append((len(spath),
            f"augment {self.q(self.target(cur, spath))} {{ {body} }}"))

    def group(self, s, cur, spath):
        """A group with a condition: uses, or augment if of another module"""
        j = s["m"]
        w = f" when {self.q(self.xpath(j, s['when']))};"
        body = "".join("\n " + self.node(x, j, spath) for x in s["kids"])
        if j != cur:
            self.augs[j].append((len(spath),
                f"augment {self.q(self.target(j, spath))} {{{w}{body} }}"))
            return ""
        self.n += 1
        g = f"g{self.n}"
        self.groupings[j].append(f"grouping {g} {{{body} }}")
        return f"uses {g} {{{w} }}"

    def indirect(self, s, cur, spath):
        props = self.props(s, cur)
        hide = tuple(s.get("hide", ()))
        hidden = [p for p in props if p[0] in hide]
        stmt = self.node(s, cur, spath, hide or ("-",))
        if s["via"] == "uses":
            self.n += 1
            g = f"g{self.n}"
            self.groupings[cur].append(f"grouping {g} {{ {stmt} }}")
            hidden += self.neutral(s, hidden)
            if not hidden:
                return f"uses {g};"
            return (f"uses {g} {{ refine {s['n']} {{"
                    + "".join(self.prop(p) for p in hidden) + " } }")
        dec = s.get("dec", {})
        add, rep, rem = [], [], []
        for p in hidden + self.neutral(s, hidden):
            if p[0] == "must":
                a = [x for x in s["must"]
                     if self.xpath(cur, x[0]) == p[1]][0]
                add.append(("must", self.xpath(DEV, a[0]), a[1]))
            elif p[0] == "default" and s.get("t", {}).get(
                    "b") == "identityref":
                pass
            else:
                (rep if p[0] in dec else add).append(p)
        if "type" in dec:
            rep.append(("type", s["t"]))
        for p in self.decoys(s, DEV, {
                k: v for k, v in dec.items() if k in ("must", "unique",
                                                      "units") or
                k == "default" and not any(q[0] == k for q in hidden)}):
            rem.append(p[:2] + (None,))
        out = ""
        for how, ps in (("delete", rem), ("replace", rep), ("add", add)):
            if ps:
                out += f" deviate {how} {{" + "".join(
                    " " + self.type(DEV, p[1]) if p[0] == "type" else
                    self.prop(p) for p in ps) + " }"
        if out:
            t = self.target(DEV, spath + [(s["m"], s["n"])])
            self.devs.append(f"deviation {self.q(t)} {{{out} }}")
        return stmt

    def neutral(self, s, hidden):
        """What undoes decoys of properties that the node does not have."""
        dec = s.get("dec", {})
        none = {"mandatory": "false", "min-elements": "0",
                "max-elements": "unbounded",
                "config": "false" if s.get("state") else "true"}
        return [(kw, none[kw]) for kw in dec if kw in none
                and not any(p[0] == kw for p in hidden)]

    DEVP = None

    def feature(self, f, cur):
        """if-feature expression that is true or false."""
        return {"yes": "fy", "no": "fn", "expr": "fy and not fn",
                "nexpr": "fn or not fy"}[f]

    def texts(self):
        sp = self.spec
        for s in sp["nodes"]:
            self.body[s["m"]].append(self.node(s, s["m"], []))
        for s in sp.get("ghosts", []):
            self.ghost(s)
        files = {}
        idx = {m: i for i, m in enumerate(MODS)}
        used = sp["mods"]
        for m in used:
            hdr = (f'yang-version 1.1; namespace "urn:{m}"; prefix x;\n'
                   + "".join(f"import {o} {{ prefix {self.pfx(m, o)}; }}\n"
                             for o in used if idx[o] < idx[m]))
            if m == "ma":
                hdr += ("import ietf-yang-metadata { prefix md; }\n"
                        "include ma-sub;\n")
            if m in sp.get("rev", {}):
                hdr += f"revision {sp['rev'][m]};\n"
            hdr += "feature fy; feature fn;\n"
            if m == "ma":
                hdr += ("md:annotation note { type string; }\n"
                        "md:annotation weight { type int8; }\n")
            ids = ""
            for im, n, bases in sp["idents"]:
                if im == m:
                    bs = "".join(" base " + self.pfx(m, b.split(":")[0])
                                 + ":" + b.split(":")[1] + ";" for b in bases)
                    ids += f"identity {n} {{{bs} }}\n" if bs else \
                        f"identity {n};\n"
            augs = [a for _, a in sorted(
                self.augs[m], key=lambda x: x[0])]
            if not sp.get("augorder"):
                augs = augs[::-1] if sp.get("augrev") else augs
            defs = self.typedefs[m] + self.groupings[m]
            body = self.body[m] + augs
            if m == "ma":
                # part of the definitions lives in the submodule
                cut = len(self.body[m]) // 2 if sp.get("sub") else 0
                subbody = self.body[m][:cut]
                body = self.body[m][cut:] + augs
                subdefs = defs if sp.get("subdefs") else []
                if cut and not sp.get("subdefs"):
                    subdefs, subbody, body = [], [], self.body[m] + augs
                if subdefs:
                    defs = []
                files["ma-sub"] = (
                    "submodule ma-sub { yang-version 1.1; belongs-to ma { "
                    "prefix x; }\n" + "feature fys;\n"
                    + "\n".join(subdefs + subbody) + "\n}\n")
            files[m] = (f"module {m} {{\n{hdr}{ids}" + "\n".join(defs + body)
                        + "\n}\n")
        if self.devs:
            files[DEV] = (
                f'module {DEV} {{ yang-version 1.1; namespace "urn:{DEV}"; '
                f"prefix zd;\n" + "".join(
                    f"import {o} {{ prefix {self.pfx(DEV, o)}; }}\n"
                    for o in used) + "\n".join(self.devs) + "\n}\n")
        return files

    def ghost(self, s):
        """Nodes that are not in the schema in the end."""
        sp = [tuple(x) for x in s["at"]]
        m = s["m"]
        how = s["how"]
        extra = f" if-feature {self.q('fn')};" if how == "feature" else ""
        st = f" status {how};" if how in ("obsolete", "deprecated") else ""
        lvl = s.get("lvl", "")
        stmt = f"container {s['n']} {{{extra}{st if lvl == 'own' else ''} " \
               "leaf g { type string; mandatory true; } }"
        if lvl == "grouping":
            self.n += 1
            g = f"g{self.n}"
            self.groupings[m].append(
                f"grouping {g} {{{st} {stmt} }}")
            stmt = f"uses {g};"
        if sp:
            w = st if lvl == "augment" else ""
            self.augs[m].append((len(sp), f"augment {self.q(self.target(m, sp))}"
                                 f" {{{w} {stmt} }}"))
        else:
            self.body[m].append(stmt)
        if how == "deviate":
            self.devs.append(
                f"deviation {self.q(self.target(DEV, sp + [(m, s['n'])]))} "
                "{ deviate not-supported; }")


def library(spec, files):
    mods = []
    for m in list(spec["mods"]) + ([DEV] if DEV in files else []):
        e = {"name": m, "revision": spec.get("rev", {}).get(m, ""),
             "namespace": "urn:" + m, "conformance-type": "implement"}
        if m in MODS:
            e["feature"] = ["fy"] + (["fys"] if m == "ma" else [])
        if m == "ma":
            e["submodule"] = [{"name": "ma-sub", "revision": ""}]
            if DEV in files:
                e["deviation"] = [{"name": DEV, "revision": ""}]
        mods.append(e)
    mods.append({"name": "ietf-yang-metadata", "revision": "2016-08-05",
                 "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-metadata",
                 "conformance-type": "import"})
    o = spec.get("order")
    if o:
        mods = [mods[i] for i in o if i < len(mods)] + \
            [m for i, m in enumerate(mods) if i not in o]
    return json.dumps({"ietf-yang-library:modules-state": {
        "module-set-id": "gen", "module": mods}})


def files(spec):
    """{file name: text} of the modules, and the library."""
    f = Writer(spec).texts()
    return ({n + ".yang": t for n, t in f.items()}, library(spec, f))


def write(spec, where):
    fs, lib = files(spec)
    for n, t in fs.items():
        with open(os.path.join(where, n), "w", encoding="utf-8") as f:
            f.write(t)
    return lib


def load(spec):
    from yangson import DataModel
    d = tempfile.mkdtemp(prefix="verif-mgen-", dir="/dev/shm" if os.path.isdir(
        "/dev/shm") else None)
    try:
        return DataModel(write(spec, d), (d, env.YANG))
    finally:
        shutil.rmtree(d, True)


# ------------------------------------------------------------------ generation

class Maker:
    """Makes specs."""

    def __init__(self, r, size=1.0):
        self.r = r
        self.size = size
        self.count = 0
        self.inmust = False
        self.swarm = {k: r.random() < .6 for k in (
            "choice", "when", "must", "leafref", "state", "unique", "uses",
            "dev", "aug", "limits", "group", "union", "iid", "typedef",
            "presence", "anydata", "ghost", "decoy", "gw")}
        self.mods = r.choice([["ma"], ["ma", "mb"], ["ma", "mb", "mc"],
                              ["ma", "mb", "mc"]])

    def on(self, what, p):
        return self.swarm[what] and self.r.random() < p

    def spec(self):
        r = self.r
        self.idents = self.mkidents()
        ref_old = ref.IDENT
        ref.IDENT = closure(self.idents)
        try:
            self.levels = []
            nodes = self.kids(0, "ma", True, "root")
        finally:
            ref.IDENT = ref_old
        sp = {"mods": self.mods, "idents": self.idents, "nodes": nodes}
        if r.random() < .5:
            sp["sub"] = True
            sp["subdefs"] = True
        if r.random() < .5:
            sp["rev"] = {m: r.choice(["2020-01-01", "2024-06-06"])
                         for m in self.mods if r.random() < .7}
        if r.random() < .5:
            sp["augrev"] = False
        n = len(self.mods) + 2
        o = list(range(n))
        r.shuffle(o)
        sp["order"] = o
        if self.swarm["ghost"]:
            sp["ghosts"] = self.ghosts(nodes)
        return sp

    def ghosts(self, nodes):
        r = self.r
        out = []
        for i in range(r.choice([1, 2])):
            m = r.choice(self.mods)
            at = []
            cs = [s for s in nodes if s["k"] in ("container", "list")
                  and not s.get("state")
                  and MODS.index(s["m"]) <= MODS.index(m)]
            if cs and r.random() < .7:
                c = r.choice(cs)
                if c["m"] != m:
                    at = [[c["m"], c["n"]]]
            how = r.choice(["feature", "deviate", "obsolete"])
            out.append({"n": f"ghost{i}", "m": m, "at": at, "how": how})
            if how == "obsolete":
                out[-1]["lvl"] = r.choice(
                    ["own", "grouping"] + ["augment"] * bool(at))
        return out

    def mkidents(self):
        r = self.r
        out = [["ma", "base", []]]
        names = ["alfa", "beta", "alfa", "gama", "beta", "dx", "e-1"]
        for n in names[:r.randint(2, 7)]:
            m = r.choice(self.mods)
            if any(o[0] == m and o[1] == n for o in out):
                continue
            bs = [f"{o[0]}:{o[1]}" for o in out
                  if MODS.index(o[0]) <= MODS.index(m)]
            out.append([m, n, r.sample(bs, min(len(bs),
                                               r.choice([0, 1, 1, 2, 2])))])
        r.shuffle(out)
        return out

    # -- types

    def mktype(self, m, key=False, anchor=False, depth=0):
        r = self.r
        kinds = ["int"] * 4 + ["string"] * 4 + ["enumeration"] * 2 + \
            ["boolean"]
        if not anchor:
            kinds += ["bits", "decimal64", "binary", "identityref",
                      "identityref", "union" if self.swarm["union"] and
                      not depth else "int"]
            if not key:
                kinds += ["empty"]
        k = r.choice(kinds)
        td = r.choice([0, 0, 1, 2]) if self.swarm["typedef"] else 0
        if k == "int":
            b = r.choice(sorted(INTS)) if not anchor else r.choice(
                ["int8", "uint8", "int16", "uint32"])
            bits, signed = INTS[b]
            lo = -2**(bits - 1) if signed else 0
            hi = 2**(bits - 1) - 1 if signed else 2**bits - 1
            t = {"b": b}
            x = r.random()
            if x < .35:
                a = r.choice([lo, 0, 1, 5, -5 if signed else 2])
                t["r"] = [[a, r.choice([hi, a + 3, 10, 100])]]
                if t["r"][0][1] < a:
                    t["r"][0][1] = a
            elif x < .5:
                t["r"] = [[1, 4], [7, 7], [20, r.choice([30, hi])]]
            if t.get("r"):
                if td == 2:
                    t["r0"] = [[lo, hi]] if t["r"][0][0] == lo else \
                        [[t["r"][0][0] - 1, hi]]
                if r.random() < .25:
                    t["tag"] = "tag-" + b
            if r.random() < .7:
                rs = t.get("r") or [[lo, hi]]
                vals = [v for v in (0, 1, 2, 3, 7, 10, 25, -1, -2, -5)
                        if any(a <= v <= b for a, b in rs)]
                vals += [rs[0][0], rs[-1][1]] if not anchor else []
                if vals:
                    t["pool"] = r.sample(vals, min(len(vals), r.choice(
                        [3, 4, 6])))
        elif k == "string":
            for _ in range(50):
                t = {"b": k}
                x = r.random()
                if x < .4:
                    a = r.choice([0, 1, 1, 2])
                    t["len"] = [[a, r.choice([a + 1, a + 2, 5, 255])]]
                    if r.random() < .3 and t["len"][0][1] < 6:
                        t["len"].append([t["len"][0][1] + 2, 17])
                    if td == 2:
                        t["len0"] = [[0, 255]]
                if r.random() < .5 or anchor:
                    t["pats"] = [[r.randrange(len(PATS)), r.random() < .2]
                                 for _ in range(r.choice([1, 1, 2]))]
                if anchor:
                    t["pats"] = [[r.choice([0, 4]), False]]
                if (("len" in t) != ("pats" in t)) and r.random() < .25:
                    t["tag"] = "str-tag"
                if len(GStr(t.get("len"), t.get("pats", []), None).pool) >= 3:
                    break
            else:
                t = {"b": "string"}
        elif k == "enumeration":
            al = r.sample(["on", "off", "auto", "x1", "up", "down", "none"],
                          r.choice([2, 3, 5]))
            if not anchor and r.random() < .3:
                al += r.sample(["a b", "1", "\u017e", "true", "-"], 2)
            t = {"b": k, "all": al, "vals": al}
            if r.random() < .3:
                t["nums"] = {v: n for v, n in zip(al, r.sample(
                    range(-3, 40), len(al)))}
            if td == 2:
                t["vals"] = [v for v in al if r.random() < .7] or al[:1]
        elif k == "bits":
            al = r.sample(["r", "w", "x", "up", "b-1", "q"], r.choice([2, 4]))
            t = {"b": k, "all": al, "pos": {v: n for v, n in zip(
                al, r.sample(range(0, 20), len(al)))}}
            al.sort(key=lambda v: t["pos"][v])
            t["vals"] = al
            if td == 2:
                t["vals"] = [v for v in al if r.random() < .7] or al[:1]
        elif k == "decimal64":
            t = {"b": k, "fd": r.choice([1, 2, 3, 6])}
            if r.random() < .6:
                a = r.choice([-1000, 0, -15, 5])
                t["r"] = [[a, a + r.choice([10, 100, 12345])]]
                if r.random() < .3:
                    t["r"].append([t["r"][0][1] + 10, t["r"][0][1] + 20])
                if td == 2:
                    t["r0"] = [[a - 5, 10**9]]
                if r.random() < .2:
                    t["tag"] = "dec-tag"
        elif k == "binary":
            t = {"b": k}
            if r.random() < .5:
                a = r.choice([0, 1])
                t["len"] = [[a, a + r.choice([1, 3, 6])]]
        elif k == "identityref":
            ok = [f"{i[0]}:{i[1]}" for i in self.idents
                  if MODS.index(i[0]) <= MODS.index(m)]
            for _ in range(20):
                t = {"b": k, "bases": r.sample(ok, min(len(ok), r.choice(
                    [1, 1, 2, 2])))}
                if any(GIdent(*t["bases"]).check(i) is None
                       for i in ref.IDENT):
                    break
            else:
                return {"b": "boolean"}
            t["noprefix"] = r.random() < .5
        elif k == "union":
            # (at most one kind of number: Python has 1 == 1.0 == True)
            num = r.choice([{"b": r.choice(["int8", "uint16"])},
                            {"b": "boolean"}, {"b": "decimal64", "fd": 2}])
            if num["b"] == "int8" and r.random() < .5:
                num["r"] = [[1, 50]]
            ms = [num, {"b": "string", "pats": [[8, False]]},
                  {"b": "enumeration", "all": ["ON", "OFF"],
                   "vals": ["ON", "OFF"]},
                  {"b": "bits", "all": ["P", "Q"], "vals": ["P", "Q"],
                   "pos": {"P": 3, "Q": 5}}]
            ms = r.sample(ms, r.choice([2, 3]))
            t = {"b": k, "members": ms}
        else:
            t = {"b": k}
        if td and (k not in ("union", "empty", "boolean") or td == 1):
            t["td"] = td
            if td == 1 and r.random() < .5:
                t["dt"] = True
        return t

    def gen_default(self, t, m):
        """A value that can be written in module m."""
        T = mktype(t)
        for _ in range(20):
            v = T.gen(self.r)
            if t["b"] != "identityref" or \
                    MODS.index(v.split(":")[0]) <= MODS.index(m):
                return v
        return None

    # -- nodes

    def name(self, used, m):
        r = self.r
        for _ in range(50):
            n = r.choice(NAMES)
            if used and r.random() < .3:
                n = r.choice(sorted(used))[1]   # same name, other module
            if (m, n) not in used:
                used.add((m, n))
                return n
        n = f"n{len(used)}"
        used.add((m, n))
        return n

    def kids(self, depth, m, cfg, kind, used=None, cond=False):
        """Nodes below a node of module m.  self.levels: what is known about
        the objects from the root down to the present one."""
        r = self.r
        lv = {"anchors": [], "lists": [], "refs": []}
        self.levels.append(lv)
        used = set() if used is None else used
        out = []
        n = r.choice([3, 5, 7]) if depth == 0 else r.choice([1, 2, 3, 4])
        if depth and r.random() < .12:
            n = 0
        if kind == "list":
            n = max(n, 1)
        for _ in range(n):
            mm = m
            if self.on("aug", .3) and kind != "group":
                later = [x for x in self.mods
                         if MODS.index(x) >= MODS.index(m)]
                mm = r.choice(later)
            elif kind == "root":
                mm = r.choice(self.mods)
            out.append(self.one(depth, mm, cfg, used, lv, kind))
        if kind == "root" and len(out) > 1 and r.random() < .5:
            pass
        self.levels.pop()
        return [x for x in out if x]

    def one(self, depth, m, cfg, used, lv, kind, incase=False):
        r = self.r
        x = r.random()
        if depth < 3 and x < (.6 if depth == 0 else .3):
            k = "container" if r.random() < .55 else "list"
        elif x < .42 + .2 * (depth < 3) and self.on("choice", .7) \
                and depth < 4:
            k = "choice"
        elif self.on("group", .12) and kind != "group" and not incase:
            k = "group"
        elif self.on("anydata", .08):
            k = "anydata"
        elif r.random() < .25:
            k = "leaflist"
        else:
            k = "leaf"
        if k == "group" and depth == 0 and m != "ma":
            k = "leaf"
        s = {"k": k, "n": self.name(used, m), "m": m}
        if cfg and self.on("state", .12) and k != "group":
            s["state"] = True
            cfg = False
        simple = not incase and kind != "group"
        if k == "leaf":
            self.leaf(s, m, cfg, lv, simple, kind)
        elif k == "leaflist":
            self.leaflist(s, m, cfg, lv, simple, kind)
        elif k == "anydata":
            pass
        elif k == "container":
            if self.on("presence", .35):
                s["pres"] = True
            np = not s.get("pres")
            self.conditions(s, m, cfg, lv, kind, simple)
            sub = set()
            s["kids"] = self.kids(depth + 1, m, cfg, "pres" if not np
                                  else "np", sub)
            if simple and np and not s.get("when"):
                self.export(s, lv)
        elif k == "list":
            self.list(s, m, cfg, depth, lv, kind, simple)
        elif k == "choice":
            self.choice(s, m, cfg, depth, used, lv, kind, simple)
        elif k == "group":
            w = self.cond(m, lv, 0, cfg)
            if not w:
                s = {"k": "leaf", "n": s["n"], "m": m}
                self.leaf(s, m, cfg, lv, simple, kind)
                return s
            s["when"] = w
            s["kids"] = [self.one(depth + 3, m, cfg, used, lv, "group")
                         for _ in range(r.choice([1, 2]))]
            return s
        self.indirect(s, cfg)
        return s

    def indirect(self, s, cfg):
        """Write the node through a grouping or with deviations."""
        r = self.r
        hideable = [h for h in ("default", "mandatory", "presence", "must",
                                "min-elements", "max-elements")
                    if r.random() < .6]
        b = s.get("t", {}).get("b")
        if self.on("uses", .3) and s["k"] not in ("case",):
            s["via"] = "uses"
            s["hide"] = [h for h in hideable if not (
                h == "presence" and s["k"] != "container")]
            if s["k"] == "choice":
                s["hide"] = [h for h in s["hide"] if h != "default"
                             or r.random() < .5]
        elif self.on("dev", .25) and s["k"] in ("leaf", "leaflist", "list",
                                                "container", "choice"):
            s["via"] = "dev"
            s["hide"] = [h for h in hideable if h != "presence" and not (
                h == "default" and b == "identityref")]
            if s["k"] == "container":
                s["hide"] = [h for h in s["hide"] if h == "must"]
        if s.get("via") and self.on("decoy", .7):
            d = self.decoys(s, cfg)
            if d:
                s["dec"] = d

    def decoys(self, s, cfg):
        """Properties of the original statement that do not last."""
        r, k, hide, via = self.r, s["k"], s["hide"], s["via"]
        b = s.get("t", {}).get("b")
        dec = {}
        dt = s.get("t", {}).get("dt")
        mand0 = s.get("mand") and "mandatory" not in hide
        mn0 = s.get("mn") and "min-elements" not in hide
        # config
        if cfg and k in ("leaf", "leaflist") and r.random() < .3:
            dec["config"] = True
        # default values
        if k in ("leaf", "leaflist") and not dt and not mand0 and not mn0 \
                and b not in ("leafref", "instance-identifier", "empty") and \
                (not s.get("t", {}).get("td")) and \
                "nod" not in s and r.random() < .5:
            has = "d" in s
            if has and "default" in hide or not has and via == "dev":
                ds = []
                for _ in range(1 if k == "leaf" else r.choice([1, 2])):
                    v = self.gen_default(s["t"], s["m"])
                    if v is not None and v not in ds:
                        ds.append(v)
                if ds and not (b == "identityref" and via == "dev"):
                    dec["default"] = ds
        if k == "choice" and "default" in hide and s.get("dc"):
            own = [c["n"] for c in s["kids"] if c["m"] == s["m"]]
            if r.random() < .6:
                dec["default"] = r.choice(own)
        # mandatory
        if k in ("leaf", "choice", "anydata") and r.random() < .4:
            if s.get("mand") and "mandatory" in hide:
                dec["mandatory"] = "false"
            elif not s.get("mand") and not dt and "default" not in dec and \
                    ("d" not in s or "default" in hide) and \
                    ("dc" not in s or "default" in hide):
                dec["mandatory"] = "true"
        # numbers of entries
        if k in ("list", "leaflist"):
            if (not s.get("mn") or "min-elements" in hide) and \
                    "default" not in dec and ("d" not in s or "default" in
                                              hide) and r.random() < .3:
                dec["min-elements"] = r.choice([1, 3])
            if (s.get("mx") is None or "max-elements" in hide) and \
                    r.random() < .3:
                dec["max-elements"] = max(r.choice([1, 2, 50]),
                                          dec.get("min-elements", 0))
        if via != "dev":
            return dec
        if r.random() < .3 and k in ("leaf", "leaflist", "container", "list"):
            c = self.must(s, s["m"], cfg, self.levels[-1])
            if c and not any(c == x for x, _ in s.get("must", [])):
                dec["must"] = [c]
        if k in ("leaf", "leaflist") and r.random() < .2:
            dec["units"] = "fathom"
        if k in ("leaf", "leaflist") and r.random() < .3 and flat(s["t"]) \
                and b not in ("leafref", "empty") and not (
                    "d" in s and b in ("identityref", "union")):
            dec["type"] = True
        if k == "list" and r.random() < .4:
            ls = [x for x in s["kids"] if x["k"] == "leaf" and not x.get(
                "iskey") and not x.get("when") and x["m"] == s["m"]
                and not x.get("state")]
            if ls and cfg and not s.get("uniq"):
                dec["unique"] = [[[[x["m"], x["n"]] for x in [r.choice(ls)]]]]
        return dec

    def export(self, s, lv):
        """Anchors inside a NP container are usable from its siblings."""
        for x in s["kids"]:
            if x["k"] == "leaf" and not x.get("when") and \
                    x["k"] == "leaf" and x.get("anchor"):
                lv["anchors"].append(
                    {"steps": [[s["m"], s["n"]], [x["m"], x["n"]]],
                     "t": x["t"], "cfg": not (x.get("state")
                                              or s.get("state"))})

    def leaf(self, s, m, cfg, lv, simple, kind):
        r = self.r
        if cfg and self.on("leafref", .25) and self.mkref(s, m, lv):
            pass
        elif self.on("iid", .08):
            s["t"] = {"b": "instance-identifier", "req": r.random() < .4}
        else:
            anchor = r.random() < .5
            s["t"] = self.mktype(m, anchor=anchor)
            s["anchor"] = anchor
        b = s["t"]["b"]
        plain = b not in ("leafref", "instance-identifier", "empty")
        x = r.random()
        if x < .35 and plain:
            s["d"] = self.gen_default(s["t"], m)
            if not isinstance(s["d"], (str, int)):
                del s["d"]
        elif x < .5:
            s["mand"] = True
        self.conditions(s, m, cfg, lv, kind, simple)
        if s.get("mand") and s.get("when") and kind not in ("root", "pres",
                                                            "list"):
            del s["mand"]
        if s.get("state") and s.get("mand") and r.random() < .5:
            del s["mand"]
        if "d" not in s:
            s["t"].pop("dt", None)
            if s.get("mand") and plain:
                self.nodefault(s, m)
        if simple and not s.get("when"):
            if s.get("anchor"):
                lv["anchors"].append({"steps": [[m, s["n"]]], "t": s["t"],
                                      "cfg": cfg})
            if plain and b not in ("union",) and cfg:
                lv["refs"].append({"steps": [[m, s["n"]]], "t": s["t"]})
        else:
            # (in use only under conditions)
            if s.get("anchor"):
                lv.setdefault("x" * (not simple) + "canchors", []).append(
                    {"steps": [[m, s["n"]]], "t": s["t"], "cfg": cfg})
            if plain and b not in ("union",) and cfg:
                lv.setdefault("crefs", []).append(
                    {"steps": [[m, s["n"]]], "t": s["t"]})
            s.pop("anchor", None)

    def nodefault(self, s, m):
        """A default of the type that the node does not have."""
        if s["t"].get("td") and self.r.random() < .5:
            v = self.gen_default(s["t"], m)
            if v is not None:
                s["nod"] = v

    def leaflist(self, s, m, cfg, lv, simple, kind):
        r = self.r
        s["t"] = self.mktype(m)
        if s["t"]["b"] == "empty":
            s["t"] = {"b": "boolean"}
        dt = s["t"].pop("dt", None)
        self.limits(s, lv, kind)
        if not s.get("mn") and s.get("mx") != 0 and r.random() < .35:
            ds = [self.gen_default(s["t"], m)
                  for _ in range(r.choice([1, 2]))]
            if None not in ds and (not cfg or len({repr(x) for x in ds}) == len(ds)):
                s["d"] = ds[:s.get("mx") or 9]
                if dt and len(s["d"]) == 1:
                    s["t"]["dt"] = True
        elif s.get("mn"):
            self.nodefault(s, m)
        if cfg and r.random() < .4:
            s["user"] = True
        self.conditions(s, m, cfg, lv, kind, simple)
        if s.get("when"):
            if kind not in ("root", "pres", "list"):
                s.pop("mn", None)
        elif simple and cfg:
            if "d" not in s:
                lv["lists"].append({"steps": [[m, s["n"]]], "cfg": cfg})
                if s["t"]["b"] != "union":
                    lv["refs"].append({"steps": [[m, s["n"]]],
                                       "t": s["t"]})

    def limits(self, s, lv, kind):
        r = self.r
        if self.on("limits", .4):
            s["mx"] = r.choice([0, 1, 2, 2, 3, 4, 5])
        if self.on("limits", .2):
            s["mn"] = r.choice([1, 1, 2])
            if s.get("mx") is not None and s["mx"] < s["mn"]:
                s["mx"] = s["mn"]

    def list(self, s, m, cfg, depth, lv, kind, simple):
        r = self.r
        self.limits(s, lv, kind)
        if cfg and r.random() < .4:
            s["user"] = True
        keys, used, kids = [], set(), []
        nk = r.choice([1, 1, 2, 3]) if cfg else r.choice([0, 0, 1])
        here = {"anchors": [], "lists": [], "refs": []}
        for _ in range(max(nk, 1)):
            n = self.name(used, m)
            t = self.mktype(m, key=True, anchor=r.random() < .6)
            while t["b"] in ("empty",):
                t = self.mktype(m, key=True)
            t.pop("dt", None)
            x = {"k": "leaf", "n": n, "m": m, "t": t}
            if nk:
                self.nodefault(x, m)
                keys.append(n)
                x["iskey"] = True
                if r.random() < .3:
                    x["mand"] = True
            kids.append(x)
            a = {"steps": [[m, n]], "t": t, "cfg": cfg}
            if t["b"] in ("int8", "uint8", "int16", "uint32", "enumeration",
                          "boolean") and nk:
                here["anchors"].append(a)
        s["keys"] = keys
        if nk > 1 and r.random() < .5:
            keys.reverse()
        self.conditions(s, m, cfg, lv, kind, simple)
        # (conditions on the entry may use what is inside)
        self.levels.append(here)
        n = r.choice([1, 2, 3])
        for _ in range(n):
            mm = m
            if self.on("aug", .25):
                mm = r.choice([x for x in self.mods
                               if MODS.index(x) >= MODS.index(m)])
            kids.append(self.one(depth + 1, mm, cfg, used, here, "list"))
        self.levels.pop()
        s["kids"] = kids
        if self.on("must", .25):
            self.inmust = True
            c = self.cond(m, here, 0, cfg)
            self.inmust = False
            if c:
                s.setdefault("must", []).append([c, self.tag()])
        if self.on("unique", .5):
            self.unique(s)
        if simple and not s.get("when") and cfg:
            lv["lists"].append({"steps": [[m, s["n"]]], "cfg": cfg})
            for x in kids:
                if x["k"] == "leaf" and x.get("iskey"):
                    lv["refs"].append({"steps": [[m, s["n"]],
                                                 [x["m"], x["n"]]],
                                       "t": x["t"], "from": s})
                    if x["t"]["b"] in INTS and INTS[x["t"]["b"]][0] < 64:
                        lv["anchors"].append(
                            {"steps": [[m, s["n"]], [x["m"], x["n"]]],
                             "t": x["t"], "cfg": cfg})

    def unique(self, s):
        r = self.r
        st = bool(s.get("state"))
        paths = []

        def rec(x, p, inlist, state):
            for k in x["kids"]:
                if k.get("when") or k["k"] in ("choice", "group") or \
                        k.get("iskey"):
                    continue
                sk = state or bool(k.get("state"))
                q = p + [[k["m"], k["n"]]]
                if k["k"] == "leaf" and k["t"]["b"] not in (
                        "instance-identifier", "empty"):
                    paths.append((q, sk))
                elif k["k"] == "container" and not k.get("pres"):
                    rec(k, q, inlist, sk)
                elif k["k"] == "list" and not inlist:
                    rec(k, q, True, sk)
        rec(s, [], False, st)
        ok = [p for p, sk in paths if sk == st and all(
            x[0] == s["m"] for x in p)]
        if ok:
            s["uniq"] = [r.sample(ok, min(len(ok), r.choice([1, 1, 2])))
                         for _ in range(r.choice([1, 1, 2]))]

    def choice(self, s, m, cfg, depth, used, lv, kind, simple):
        r = self.r
        cases = []
        later = [x for x in self.mods if MODS.index(x) > MODS.index(m)]
        more = r.choice(later) if later and self.on("gw", .4) else None
        for i in range(r.choice([1, 2, 2, 3]) + 2 * bool(more)):
            mm = m
            if more and i > 0 and r.random() < .8:
                mm = more
            elif self.on("aug", .3):
                mm = r.choice([x for x in self.mods
                               if MODS.index(x) >= MODS.index(m)])
            c = {"k": "case", "m": mm, "n": self.name(used, mm), "kids": []}
            c["kids"] = [self.one(depth + 1, mm, cfg, used, lv, "case", True)
                         for _ in range(r.choice([1, 1, 2, 3]))]
            if len(c["kids"]) == 1 and c["kids"][0]["k"] in (
                    "leaf", "leaflist", "container", "list", "anydata") \
                    and r.random() < .6:
                x = c["kids"][0]
                c["n"] = x["n"]
                c["short"] = True
                x.pop("via", None)
                if x.get("state"):
                    del c["short"]
            if not c.get("short") and self.on("when", .2):
                w = self.cond(mm, lv, 0, cfg)
                if w:
                    c["when"] = w
            cases.append(c)
        if more or self.on("gw", .3):
            # cases added together under a condition
            for mm in {c["m"]: 1 for c in cases}:
                xs = [c for c in cases if c["m"] == mm and not c.get("when")]
                if mm != m and xs:
                    w = self.cond(mm, lv, 0, cfg)
                    for c in xs if w else ():
                        c["when"], c["gw"] = w, True
        names = [(c["m"], c["n"]) for c in cases]
        if len(set(names)) < len(names):
            cases = cases[:1]
        s["kids"] = cases
        if simple and self.on("when", .2):
            w = self.cond(m, lv, 0, cfg)
            if w:
                s["when"] = w
        own = [c for c in cases if c["m"] == m and not self.hasmand(c)]
        if own and r.random() < .5:
            s["dc"] = r.choice(own)["n"]
        elif r.random() < .3 and not s.get("when") and simple and \
                any(self.somedata(c) for c in cases):
            s["mand"] = True

    def somedata(self, c):
        return any(x["k"] not in ("choice", "group") for x in c["kids"])

    def hasmand(self, s):
        """May a node below be mandatory (not behind presence or list)?"""
        for x in s.get("kids", []):
            if x.get("mand") or x.get("mn"):
                return True
            if x["k"] == "container" and x.get("pres") or x["k"] == "list":
                continue
            if self.hasmand(x):
                return True
        return False

    def tag(self):
        return self.r.choice([None, None, "tag-a", "tag-b"])

    def conditions(self, s, m, cfg, lv, kind, simple):
        r = self.r
        if self.on("when", .2) and not s.get("iskey"):
            w = self.cond(m, lv, 1, cfg)
            if w:
                s["when"] = w
                if kind not in ("root", "pres", "list"):
                    s.pop("mn", None)
        if self.on("must", .2) and s["k"] in ("leaf", "leaflist",
                                              "container"):
            ms = []
            for _ in range(r.choice([1, 1, 2])):
                c = self.must(s, m, cfg, lv)
                if c:
                    ms.append([c, self.tag()])
            if ms:
                s["must"] = ms

    def must(self, s, m, cfg, lv):
        r = self.r
        t = s.get("t")
        me = {"up": 0, "steps": []}
        if t and r.random() < .6:
            if t["b"] in INTS and INTS[t["b"]][0] < 64:
                v = GInt(*INTS[t["b"]], t.get("r"), None,
                         t.get("pool", ())).gen(r)
                return r.choice([["ne", me, v], ["gt", me, v - 3],
                                 ["lt", me, v + 2]])
            if t["b"] == "enumeration":
                v = r.choice(t["vals"])
                if re.fullmatch("[a-z0-9]+", v):
                    return ["ne", me, v]
            if t["b"] == "boolean":
                return ["eq", me, r.random() < .5]
        self.inmust = True
        c = self.cond(m, lv, 1, cfg)
        self.inmust = False
        return c

    def pick(self, m, lv, up, cfg, what):
        """A path to an anchor (or list) from a context `up` below lv."""
        r = self.r
        opts = []
        also = {"refs": ["crefs"], "anchors": ["canchors"] + [
            "xcanchors"] * self.inmust}.get(what, [])
        tops = list(self.levels)
        if not tops or tops[-1] is not lv:
            tops = tops + [lv]
        for i, L in enumerate(tops):
            for a, f in [(a, 1 + 3 * (x != what)) for x in [what] + also
                         for a in L.get(x, [])]:
                if not a.get("cfg", True) and cfg:
                    continue
                if any(MODS.index(x[0]) > MODS.index(m) for x in a["steps"]):
                    continue
                d = len(tops) - 1 - i
                opts.append((a, d, i == 0, f))
        if not opts:
            return None
        w = [f / (1 + d) for _, d, _, f in opts]
        a, d, top, _ = r.choices(opts, w)[0]
        if top and r.random() < .5:
            return a, {"abs": True, "steps": a["steps"]}
        return a, {"up": d + up, "steps": a["steps"]}

    def cond(self, m, lv, up, cfg, depth=0):
        r = self.r
        x = r.random()
        if depth < 1 and x < .2:
            a = self.cond(m, lv, up, cfg, 1)
            b = self.cond(m, lv, up, cfg, 1)
            return a and b and [r.choice(["and", "or"]), a, b]
        if x < .3 and depth < 2:
            a = self.cond(m, lv, up, cfg, 2)
            return a and ["not", a]
        if x < .45:
            p = self.pick(m, lv, up, cfg, "lists")
            if p:
                return ["cnt", p[1], r.choice(["<=", ">="]),
                        r.choice([1, 1, 2])]
        p = self.pick(m, lv, up, cfg, "anchors")
        if not p:
            return None
        a, path = p
        if r.random() < .15:
            return ["ex", path]
        t = a["t"]
        v = mktype(t).gen(r)
        if t["b"] in INTS:
            return [r.choice(["eq", "ne", "gt", "lt"]), path, v]
        if isinstance(v, str) and not re.fullmatch("[a-z0-9]*", v):
            return ["ex", path]
        return [r.choice(["eq", "eq", "ne"]), path, v]

    def mkref(self, s, m, lv):
        p = self.pick(m, lv, 1, True, "refs")
        if not p:
            return False
        a, path = p
        s["t"] = {"b": "leafref", "path": path, "req": self.r.random() < .75}
        return True


def flat(t):
    """Can the type be written without definitions of its own?"""
    return not t.get("td") and all(map(flat, t.get("members", [])))


def gen(r):
    """A spec whose documents can be generated."""
    return Maker(r).spec()


def names_of(spec):
    out = []

    def rec(ns):
        for s in ns:
            out.append(s)
            rec(s.get("kids", []))
    rec(spec["nodes"])
    return out


def smaller(spec):
    """Specs with something left out."""
    def cuts(nodes):
        for i, s in enumerate(nodes):
            yield nodes[:i] + nodes[i + 1:]
            for p in ("when", "must", "uniq", "mn", "mx", "d", "via", "mand",
                      "dc", "user", "feat", "dec"):
                if p in s:
                    x = {k: v for k, v in s.items() if k != p}
                    yield nodes[:i] + [x] + nodes[i + 1:]
            if s.get("kids"):
                for ks in cuts(s["kids"]):
                    yield nodes[:i] + [dict(s, kids=ks)] + nodes[i + 1:]
    if spec.get("ghosts"):
        yield dict(spec, ghosts=[])
    if spec.get("sub"):
        yield dict(spec, sub=False)
    for ns in cuts(spec["nodes"]):
        yield dict(spec, nodes=ns)


def vary(spec, r):
    """Another model with the same module names and much in common."""
    for _ in range(r.choice([1, 1, 2, 4])):
        x = r.random()
        cand = json.loads(json.dumps(spec))
        if x < .55:
            cs = list(smaller(spec))
            if not cs:
                break
            cand = json.loads(json.dumps(r.choice(cs)))
        elif x < .75 and len(cand["idents"]) > 1:
            e = r.choice(cand["idents"])
            if e[2]:
                e[2].remove(r.choice(e[2]))
        else:
            ts = [s for s in names_of(cand) if "t" in s and "d" not in s]
            if not ts:
                break
            t = r.choice(ts)["t"]
            for k in ("r", "len", "pats", "tag"):
                t.pop(k, None)
            if t["b"] in ("enumeration", "bits") and len(t["vals"]) > 1:
                if r.random() < .5:
                    t["vals"].reverse()
                else:
                    t["vals"].pop()
        try:
            with using(cand):
                files(cand)
        except (KeyError, IndexError, AttributeError, ValueError):
            continue
        spec = cand
    return spec


def loads(spec):
    """Whether the model can be loaded."""
    from . import core

    def attempt():
        try:
            load(spec)
            return True
        except Exception:
            return False
    return core.isolated(attempt)
