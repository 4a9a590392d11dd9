"""XPath 1.0 with the YANG functions, by the book: expressions as small trees,
their text, their generator and an evaluator over plain documents.

Shares no code with yangson.  The accessible tree is the document with all
defaults in use made explicit (ref.with_defaults).  Whatever the standards
leave open (order of members, string values of internal nodes, ...) raises
Open, and the generator drops the expression.
"""
import math
import re
from decimal import Decimal

from . import mgen, ref


class Open(Exception):
    """The result is not determined by the standards."""


class X:
    """A node of the accessible tree."""

    def __init__(self, path, n, v, parent, entry):
        self.path, self.n, self.v, self.parent = path, n, v, parent
        self.entry = entry          # of a list or leaf-list
        self.kids = []

    @property
    def terminal(self): return self.n.kind in ("leaf", "leaflist")

    def top(self):
        x = self
        while x.parent:
            x = x.parent
        return x

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def tree(doc):
    """Accessible tree of a raw document (may raise ref.Clash)."""
    root = X((), ref.ROOT, None, None, False)

    def rec(x, obj):
        for m, v in obj.items():
            if m[0] == "@":
                continue
            k = x.n.data[m][0]
            if k.kind in ("list", "leaflist"):
                for i, e in enumerate(v):
                    y = X(x.path + (m, i), k, e, x, True)
                    x.kids.append(y)
                    if k.kind == "list":
                        rec(y, e)
            else:
                y = X(x.path + (m,), k, v, x, False)
                x.kids.append(y)
                if k.kind == "container":
                    rec(y, v)
    rec(root, ref.with_defaults(doc))
    return root


def at(root, path):
    return next(x for x in root.walk() if x.path == tuple(path))


# ------------------------------------------------------------------ values

NUM = re.compile(r"[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*")


def strval(x):
    if not x.terminal:
        raise Open("string value of an internal node")
    return canonical(x.n.type, x.v)


def canonical(t, v):
    if isinstance(t, mgen.GRef):
        t = t.t
        if t is None:
            raise Open("reference")
    if isinstance(t, (ref.Str, ref.Enum, mgen.GStr, ref.Ident)):
        return v
    if isinstance(t, ref.Int):
        return str(int(v))
    if isinstance(t, ref.Bool):
        return "true" if v else "false"
    if isinstance(t, ref.Empty):
        return ""
    if isinstance(t, (ref.Dec, mgen.GDec)):
        s = format(Decimal(v), "f")
        if "." in s:
            s = s.rstrip("0")
        s = s + "0" if s.endswith(".") else s if "." in s else s + ".0"
        return s[1:] if s in ("-0.0",) else s
    if isinstance(t, mgen.GBits):
        return " ".join(b for b in t.vals if b in v.split())
    if isinstance(t, mgen.GUnion):
        ms = [m for m in t.members if m.dec(v) and m.check(v) is None]
        cs = {canonical(m, v) for m in ms}
        if len(cs) == 1:
            return cs.pop()
    raise Open(f"canonical form of {type(t).__name__}")


def number(v):
    if isinstance(v, str):
        return float(v) if NUM.fullmatch(v) else math.nan
    if isinstance(v, list):
        return nodenum(first(v)) if v else math.nan
    return float(v)


def nodenum(x):
    t = x.n.type
    t = t.t if isinstance(t, mgen.GRef) else t
    if isinstance(t, ref.Bool) or isinstance(x.v, bool):
        raise Open("number of a boolean node")     # (see DESIGN.md)
    return number(strval(x))


def boolean(v):
    if isinstance(v, float):
        return v == v and v != 0
    return bool(v)


def string(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        if v != v:
            return "NaN"
        if math.isinf(v):
            return "Infinity" if v > 0 else "-Infinity"
        if abs(v) > 1e15:
            raise Open("long number")
        if v == int(v):
            return str(int(v))
        if "e" in repr(v):
            raise Open("small number")
        return repr(v)
    if isinstance(v, list):
        return strval(first(v)) if v else ""
    return v


def ordered(nodes):
    """The nodes in document order, where this is defined."""
    def cmp(a, b):
        for p, q in zip(a.path, b.path):
            if p != q:
                if isinstance(p, int) and isinstance(q, int):
                    return p - q
                raise Open("order of members")
        return len(a.path) - len(b.path)
    import functools
    return sorted(nodes, key=functools.cmp_to_key(cmp))


def first(nodes): return ordered(nodes)[0]


def compare(op, a, b):
    eq = op in ("=", "!=")
    if isinstance(a, bool) or isinstance(b, bool):
        a, b = boolean(a), boolean(b)
    num = not eq or isinstance(a, float) or isinstance(b, float)

    def vals(v):
        if isinstance(v, list):
            return [(nodenum if num and x.terminal else strval)(x) for x in v]
        return [number(v) if num else v]
    f = {"=": lambda p, q: p == q, "!=": lambda p, q: p != q,
         "<": lambda p, q: p < q, ">": lambda p, q: p > q,
         "<=": lambda p, q: p <= q, ">=": lambda p, q: p >= q}[op]
    if isinstance(a, bool) and not eq:
        a, b = float(a), float(b)
    va, vb = vals(a), vals(b)
    return any(f(p, q) for p in va for q in vb)


# ------------------------------------------------------------------ evaluator

class Ctx:
    def __init__(self, node, origin, pos=1, size=1, vague=False):
        self.node, self.origin, self.pos, self.size = node, origin, pos, size
        self.vague = vague          # the position is not determined


def evaluate(ast, node): return ev(ast, Ctx(node, node))


def nodeset(v):
    if not isinstance(v, list):
        raise Open("not a node set")
    return v


def ev(a, c):
    op = a[0]
    if op == "lit":
        return a[1]
    if op == "ident":
        return a[2]
    if op == "num":
        return float(a[1])
    if op == "neg":
        return -number(ev(a[1], c))
    if op in ("or", "and"):
        x = boolean(ev(a[1], c))
        if x == (op == "or"):
            return x
        return boolean(ev(a[2], c))
    if op in ("=", "!=", "<", ">", "<=", ">="):
        return compare(op, ev(a[1], c), ev(a[2], c))
    if op in ("+", "-", "*", "div", "mod"):
        x, y = number(ev(a[1], c)), number(ev(a[2], c))
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "div":
            if y == 0:
                if x != x or x == 0:
                    return math.nan
                if math.copysign(1, y) < 0:
                    raise Open("negative zero")
                return math.copysign(math.inf, x)
            return x / y
        if y == 0 or math.isinf(x) or x != x or y != y:
            return math.nan
        return math.fmod(x, y)
    if op == "|":
        x, y = nodeset(ev(a[1], c)), nodeset(ev(a[2], c))
        seen = {n.path for n in x}
        return x + [n for n in y if n.path not in seen]
    if op == "path":
        start = {"/": [c.node.top()], ".": [c.node]}[a[1]]
        return steps(start, a[2], c)
    if op == "filt":
        ns = predicates(nodeset(ev(a[1], c)), a[2], c, False)
        return steps(ns, a[3], c)
    return func(op, a[1:], c)


def steps(nodes, sts, c):
    for axis, test, preds in sts:
        out = {}
        for n in nodes:
            ns = [x for x in axes(n, axis) if match(x, test)]
            rev = axis in ("ancestor", "ancestor-or-self",
                           "preceding-sibling")
            for x in predicates(ns, preds, c, rev):
                out.setdefault(x.path, x)
        nodes = list(out.values())
    return nodes


def match(x, test):
    if test is None or test == "*" and x.parent:
        return True
    if test == "*":
        raise Open("root as an element")    # (see DESIGN.md)
    return x.parent is not None and [x.n.ns, x.n.name] == list(test)


def axes(n, axis):
    if axis == "child":
        return n.kids
    if axis == "parent":
        return [n.parent] if n.parent else []
    if axis == "self":
        return [n]
    if axis == "descendant-or-self":
        return list(n.walk())
    if axis == "descendant":
        return list(n.walk())[1:]
    if axis in ("ancestor", "ancestor-or-self"):
        res = [n] if axis != "ancestor" else []
        while n.parent:
            n = n.parent
            res.append(n)
        return res
    sib = [x for x in n.parent.kids] if n.parent else []
    if any(x.n is not n.n for x in sib):
        # order among different members is not defined: entries only
        sib = [x for x in sib if x.n is n.n]
    if not n.entry:
        return []
    i = n.path[-1]
    if axis == "following-sibling":
        return [x for x in sib if x.path[-1] > i]
    return [x for x in reversed(sib) if x.path[-1] < i]


def predicates(ns, preds, c, reverse):
    for p in preds:
        try:
            o = ordered(ns)
            if reverse:
                o.reverse()
            ns, vague = o, False
        except Open:
            vague = True
        out = []
        for i, x in enumerate(ns):
            v = ev(p, Ctx(x, c.origin, i + 1, len(ns), vague))
            if isinstance(v, float):
                if vague and len(ns) > 1:
                    raise Open("position")
                v = v == i + 1
            if boolean(v):
                out.append(x)
        ns = out
    return ns


def xround(f):
    if f != f or math.isinf(f):
        return f
    return math.floor(f + .5)


def func(op, args, c):
    if op == "position":
        if c.vague and c.size > 1:
            raise Open("position")
        return float(c.pos)
    if op == "last":
        return float(c.size)
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "current":
        return [c.origin]
    if op in ("string", "number", "string-length", "normalize-space",
              "local-name") and not args:
        v = [c.node]
    else:
        vs = [ev(x, c) for x in args]
        v = vs[0]
    if op == "not":
        return not boolean(v)
    if op == "boolean":
        return boolean(v)
    if op == "number":
        return number(v)
    if op == "string":
        return string(v)
    if op == "count":
        return float(len(nodeset(v)))
    if op == "sum":
        return float(sum(nodenum(x) for x in v))
    if op in ("floor", "ceiling", "round"):
        f = number(v)
        if f != f or math.isinf(f):
            return f
        return float({"floor": math.floor, "ceiling": math.ceil,
                      "round": xround}[op](f))
    if op == "local-name":
        if not v:
            return ""
        x = first(v)
        return x.n.name if x.parent else ""
    if op == "string-length":
        return float(len(string(v)))
    if op == "normalize-space":
        return " ".join(re.split("[ \t\r\n]+", string(v).strip(" \t\r\n")))
    if op == "deref":
        return deref(first(v)) if v else []
    if op in ("derived-from", "derived-from-or-self"):
        i = args[1][2]
        if any(isinstance(reft(x), ref.Ident) and (
                x.n.name in ("refs", "kref") or reft(x) is not x.n.type)
               for x in nodeset(v)):
            raise Open("reference to an identityref")
        return any(isinstance(reft(x), ref.Ident) and
                   (i in ref.IDENT.get(x.v, ()) or
                    op != "derived-from" and x.v == i)
                   for x in nodeset(v))
    if op == "bit-is-set":
        if not v:
            return False
        x = first(v)
        if not isinstance(reft(x), (ref.Bits, mgen.GBits)):
            raise Open("bit-is-set")
        return vs[1] in x.v.split()
    if op == "enum-value":
        if not v:
            return math.nan
        return enumval(first(v))
    ss = [string(x) for x in vs]
    if op == "concat":
        return "".join(ss)
    if op == "contains":
        return ss[1] in ss[0]
    if op == "starts-with":
        return ss[0].startswith(ss[1])
    if op == "re-match":
        return re.fullmatch(PATS[ss[1]], ss[0], re.A) is not None
    if op == "substring-before":
        return ss[0].partition(ss[1])[0] if ss[1] and ss[1] in ss[0] else ""
    if op == "substring-after":
        i = ss[0].find(ss[1])
        return ss[0][i + len(ss[1]):] if i >= 0 else ""
    if op == "translate":
        out = ""
        for ch in ss[0]:
            i = ss[1].find(ch)
            out += ch if i < 0 else ss[2][i] if i < len(ss[2]) else ""
        return out
    if op == "substring":
        lo = xround(number(vs[1]))
        hi = lo + xround(number(vs[2])) if len(vs) > 2 else math.inf
        return "".join(ch for i, ch in enumerate(ss[0], 1) if lo <= i < hi)
    raise AssertionError(op)


def reft(x):
    t = getattr(x.n, "type", None)
    return t.t if isinstance(t, mgen.GRef) else t


def enumval(x):
    if isinstance(x.n.type, ref.Enum) and mgen.CTX:
        t = x.n.spec["t"]
        if t["b"] == "enumeration":
            nxt = 0
            for v in t["all"] if t.get("td") else t["vals"]:
                num = t.get("nums", {}).get(v)
                num = nxt if num is None else num
                if v == x.v:
                    return float(num)
                nxt = max(nxt, num + 1)
    raise Open("enum-value")


def deref(x):
    t = x.n.type if x.terminal else None
    if isinstance(t, mgen.GRef):
        p = x.n.spec["t"]["path"]
        nodes = [x.top()] if p.get("abs") else [x]
        for _ in range(p.get("up", 0)):
            nodes = [n.parent for n in nodes]
        for m, name in p["steps"]:
            nodes = [k for n in nodes for k in n.kids
                     if (k.n.ns, k.n.name) == (m, name)]
        return [n for n in nodes if strval(n) == strval(x)]
    if not x.terminal or isinstance(t, (ref.Str, ref.Int, ref.Bool, mgen.GStr,
                                        ref.Enum)) and mgen.CTX:
        return []
    raise Open("deref")


# ------------------------------------------------------------------ text

PREC = {"or": 0, "and": 1, "=": 2, "!=": 2, "<": 3, ">": 3, "<=": 3,
        ">=": 3, "+": 4, "-": 4, "*": 5, "div": 5, "mod": 5, "neg": 6, "|": 7}


class Text:
    def __init__(self, r, pfx):
        self.r, self.pfx = r, pfx

    def ws(self):
        return self.r.choice(["", "", "", " ", "  ", "\n "])

    def expr(self, a, need=0):
        op = a[0]
        p = PREC.get(op, 8)
        if op == "neg":
            s = "-" + self.ws() + self.expr(a[1], 6)
        elif op in PREC:
            sp = " " if self.r.random() < .9 else "  "
            s, t = self.expr(a[1], p), self.expr(a[2], p + 1)
            if s.endswith("/") and (op.isalpha() or op == "*"):
                s = f"({s})"        # (the name would be a step)
            s += f"{sp}{op}{sp}{t}"
        else:
            s = self.prim(a)
        if p < need or op != "lit" and self.r.random() < .03:
            return "(" + self.ws() + s + self.ws() + ")"
        return s

    def prim(self, a):
        op = a[0]
        if op == "lit":
            q = '"' if "'" in a[1] else "'"
            return q + a[1] + q
        if op == "num":
            return a[1]
        if op == "path":
            return self.steps(a[2], a[1] == "/")
        if op == "filt":
            p = a[1]
            s = self.expr(p) if p[0] in ("current", "deref") else \
                f"({self.expr(p)})"
            s += self.preds(a[2])
            return s + self.steps(a[3], True) if a[3] else s
        args = a[1:]
        if op.startswith("derived-from"):
            m, n = args[1][2].split(":")
            q = self.r.choice("'\"")
            return f"{op}({self.expr(args[0])}, {q}{self.pfx(m)}:{n}{q})"
        return op + "(" + ("," + self.ws()).join(
            self.ws() + self.expr(x) + self.ws() for x in args) + ")"

    def preds(self, ps):
        return "".join(self.ws() + "[" + self.ws() + self.expr(p) + self.ws()
                       + "]" for p in ps)

    def steps(self, sts, lead):
        out, sep = "", "/" if lead else ""
        i = 0
        if not sts:
            return "/"
        while i < len(sts):
            axis, test, preds = sts[i]
            if axis == "descendant-or-self" and test is None and not preds \
                    and i + 1 < len(sts) and (sep or out) and \
                    self.r.random() < .8:
                out += "/"
                i += 1
                continue
            t = "node()" if test is None else "*" if test == "*" else \
                f"{self.pfx(test[0])}:{test[1]}"
            if test is None and axis == "self" and not preds:
                t = "."
            elif test is None and axis == "parent" and not preds:
                t = ".."
            elif axis != "child" or self.r.random() < .05:
                t = axis + self.r.choice(["::", "::", ":: "]) + t
            out += sep + t + self.preds(preds)
            sep = "/"
            i += 1
        return out


def text(ast, seed, pfx):
    import random
    return Text(random.Random(seed), pfx).expr(ast)


def prefixes():
    """Translation of module names to prefixes in the context of ops.XCTX."""
    from . import ops
    if mgen.CTX:
        w = mgen.Writer(mgen.CTX)
        return lambda m: w.pfx(ops.XCTX[0], m)
    return lambda m: m[-1]


# ------------------------------------------------------------------ generator

STRS = ["", "a", "b", "1", "2", "-1", "x y", " 2 ", "true", "0", "NaN", "1e3",
        "abc", ".5", "+1"]
NUMS = ["0", "1", "2", "3", "0.5", "1.5", "2.5", "10", "100", "4", ".5"]


PATS = {"[a-z]+": "[a-z]+", "\\d*": "[0-9]*", ".*": "[^\r\n]*", "": "",
        "a|b": "a|b", "tr?ue?": "tr?ue?", "[\\-+]?\\d+": "[-+]?[0-9]+",
        "\\S{1,3}": "[^ \t\r\n]{1,3}", "^a": "\\^a", "b$": "b\\$"}


class Gen:
    def __init__(self, r, root, origin):
        self.r, self.root, self.origin = r, root, origin
        self.all = list(root.walk())

    def expr(self, x, d):
        k = self.r.random()
        if k < .4:
            return self.boolean(x, d)
        if k < .6:
            return self.num(x, d)
        if k < .75:
            return self.str(x, d)
        return self.ns(x, d, True)

    def boolean(self, x, d):
        r, k = self.r, self.r.random()
        if d <= 0:
            return r.choice([["true"], ["false"], self.ns(x, 0)])
        if k < .5:
            return self.compare(x, d - 1)
        if k < .62:
            return [r.choice(["and", "or"]), self.boolean(x, d - 1),
                    self.any(x, d - 1)]
        if k < .7:
            return ["not", self.any(x, d - 1)]
        if k < .76:
            return ["boolean", self.any(x, d - 1)]
        if k < .82:
            if r.random() < .3:
                return ["re-match", self.str(x, d - 1),
                        ["lit", r.choice(list(PATS))]]
            return [r.choice(["contains", "starts-with"]), self.str(x, d - 1),
                    self.str(x, d - 1)]
        if k < .88 and ref.IDENT:
            ids = [y for y in self.all if isinstance(reft(y), ref.Ident)]
            p = self.to(x, r.choice(ids)) if ids and r.random() < .9 else \
                self.ns(x, d - 1)
            if ids and r.random() < .2:
                p = ["|", p, self.ns(x, d - 1)]
            return [r.choice(["derived-from", "derived-from-or-self"]), p,
                    ["ident", None, r.choice(sorted(ref.IDENT))]]
        if k < .93:
            bs = [y for y in self.all
                  if isinstance(reft(y), (ref.Bits, mgen.GBits))]
            if bs:
                y = r.choice(bs)
                t = reft(y)
                return ["bit-is-set", self.to(x, y),
                        ["lit", r.choice(list(t.vals) + ["nope"])]]
        return self.ns(x, d - 1)

    def any(self, x, d):
        k = self.r.random()
        return (self.boolean if k < .5 else self.num if k < .65 else
                self.str if k < .75 else self.ns)(x, d)

    def compare(self, x, d):
        r, k = self.r, self.r.random()
        op = r.choice(["=", "=", "=", "!=", "!=", "<", ">", "<=", ">="])
        if k < .5:
            p = self.leafs(x, d)
            vals = []
            try:
                vals = [strval(y) for y in evaluate(p, x)]
            except Exception:
                pass
            vals = [v for v in vals if not ("'" in v and '"' in v)]
            z = r.random()
            if vals and z < .5:
                v = r.choice(vals)
                q = ["num", v] if NUM.fullmatch(v) and v.strip()[0] != "-" \
                    and r.random() < .5 else ["lit", v]
                if q[0] == "num":
                    q[1] = v.strip()
            elif z < .8:
                q = self.leafs(x, d)
            else:
                q = self.any(x, d)
        elif k < .65:
            p, q = self.num(x, d), self.num(x, d)
        elif k < .75:
            p, q = self.str(x, d), self.any(x, d)
        elif k < .85:
            p, q = self.boolean(x, d), self.any(x, d)
        else:
            p, q = self.num(x, d), self.any(x, d)
        if r.random() < .3:
            p, q = q, p
        return [op, p, q]

    def num(self, x, d):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .2:
            return r.choice([["num", r.choice(NUMS)], ["position"], ["last"],
                             ["neg", ["num", r.choice(NUMS)]]])
        if k < .45:
            return ["count", self.ns(x, d - 1)]
        if k < .53:
            return ["sum", self.leafs(x, d - 1)]
        if k < .6:
            return ["number", self.leafs(x, d - 1)]
        if k < .65:
            return ["number", self.any(x, d - 1)]
        if k < .85:
            return [r.choice(["+", "-", "*", "div", "mod"]),
                    self.num(x, d - 1), self.num(x, d - 1)]
        if k < .9:
            return [r.choice(["floor", "ceiling", "round"]),
                    self.num(x, d - 1)]
        if k < .94:
            if x.terminal and r.random() < .3:
                return [r.choice(["string-length", "number"])]
            return ["string-length", self.str(x, d - 1)]
        if k < .97:
            es = [y for y in self.all if isinstance(reft(y), ref.Enum)]
            if es:
                return ["enum-value", self.to(x, r.choice(es))]
        return ["neg", self.num(x, d - 1)]

    def str(self, x, d):
        r, k = self.r, self.r.random()
        if d <= 0 or k < .2:
            return ["lit", r.choice(STRS)]
        if k < .5:
            return ["string", self.leafs(x, d - 1)]
        if k < .58:
            return ["string", self.any(x, d - 1)]
        if k < .66:
            return ["concat"] + [self.any(x, d - 1) if r.random() < .3 else
                                 self.str(x, d - 1)
                                 for _ in range(r.choice([2, 2, 3]))]
        if k < .74:
            return ["substring", self.str(x, d - 1), self.num(x, d - 1)] + (
                [self.num(x, d - 1)] if r.random() < .6 else [])
        if k < .82:
            return [r.choice(["substring-before", "substring-after"]),
                    self.str(x, d - 1), self.str(x, d - 1)]
        if k < .88:
            return ["translate", self.str(x, d - 1),
                    ["lit", r.choice(["abc", "aa", "ba1", "", "1234"])],
                    ["lit", r.choice(["ABC", "x", "", "xyz"])]]
        if k < .93:
            return ["normalize-space", self.str(x, d - 1)]
        if k < .96 and x.terminal:
            return [r.choice(["string", "normalize-space"])]
        return ["local-name", self.ns(x, d - 1)] if r.random() < .8 else \
            ["local-name"]

    # -- node sets

    def leafs(self, x, d):
        ts = [y for y in self.all if y.terminal]
        near = [y for y in ts if y.path[:1] == x.path[:1]] or ts
        if not ts:
            return self.ns(x, d)
        y = self.r.choice(near if self.r.random() < .6 else ts)
        return self.to(x, y, d) if self.r.random() < .75 else self.ns(x, d)

    def wrap(self, p, x, d):
        r, k = self.r, self.r.random()
        if k < .05 and d > 0:
            return ["|", p, self.ns(x, d - 1)]
        if k < .1:
            return ["filt", p, self.preds(x, d - 1) if d > 0 and
                    r.random() < .5 else [], []]
        if k < .14 and p[0] == "path" and p[1] == ".":
            if x is self.origin or r.random() < .3:
                return ["filt", ["current"], [], p[2]]
        if k < .2 and p[0] == "path" and len(p[2]) > 1:
            # a part of the path in parentheses
            i = r.randrange(1, len(p[2]))
            q = ["path", p[1], p[2][:i]]
            return ["filt", q, self.same(x) if r.random() < .2 else [],
                    p[2][i:]]
        return p

    def same(self, x):
        """A predicate: the value is one that is found from current()."""
        r = self.r
        ts = [y for y in self.all if y.terminal]
        if not ts:
            return [["true"]]
        return [[r.choice(["=", "=", "=", "!="]),
                 ["path", ".", [["self", None, []]]], self.cur(r.choice(ts))]]

    def cur(self, y):
        """A path from current() to y, or to a leaf with the same value."""
        r = self.r
        if r.random() < .3:
            return ["filt", ["current"], [], []]
        if r.random() < .5:
            try:
                strval(y)
                y = r.choice([z for z in self.all
                              if z.terminal and z.v == y.v] or [y])
            except Open:
                pass
        chain, z, o = [], y, self.origin
        while z:
            chain.insert(0, z)
            z = z.parent
        sts = []
        while o not in chain:
            sts.append(["parent", None, []])
            o = o.parent
        return ["filt", ["current"], [], sts + [
            ["child", [z.n.ns, z.n.name], []]
            for z in chain[chain.index(o) + 1:]]]

    def to(self, x, y, d=0):
        """A path that leads from x to y."""
        r = self.r
        chain = []
        z = y
        while z:
            chain.insert(0, z)
            z = z.parent
        if r.random() < .35:
            start, i = "/", 0
            sts = []
            if r.random() < .15 and y.parent:
                sts = [["descendant-or-self", None, []],
                       self.step(y, "child", d)]
                return self.wrap(["path", "/", sts], x, d)
        else:
            start, sts = ".", []
            z = x
            while z not in chain:
                sts.append(["parent", None, []])
                z = z.parent
            i = chain.index(z)
            if r.random() < .1 and i and sts:
                # further up than necessary
                sts.append(["parent", None, []])
                i -= 1
            if len(sts) > 1 and r.random() < .3 and z.parent:
                sts = [["ancestor", [z.n.ns, z.n.name], []]]
                i = chain.index(z)
        for z in chain[i + 1:]:
            sts.append(self.step(z, "child", d))
        if start == "." and not sts:
            sts = [["self", None, []]]
        return self.wrap(["path", start, sts], x, d)

    def step(self, z, axis, d, wide=.08):
        r = self.r
        test = [z.n.ns, z.n.name] if z.parent else None
        if r.random() < wide:
            test = r.choice(["*", None])
        if d > 0 and axis.startswith("desc") and r.random() < .4:
            return [axis, test, [["num", str(r.choice([1, 2, 2, 3, 4]))]]]
        return [axis, test, self.preds(z, d - 1) if d > 0 and
                r.random() < .25 else []]

    def preds(self, z, d):
        r, out = self.r, []
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.random()
            if k < .2:
                out.append(["num", r.choice(["1", "2", "3", "1.5", "0"])])
            elif k < .28:
                out.append(["last"])
            elif k < .36:
                out.append(["-", ["last"], ["num", "1"]])
            elif k < .5:
                out.append([r.choice(["<", "=", ">", "!=", "<=", ">="]),
                            ["position"], r.choice([["last"], ["num", "1"],
                                                    ["num", "2"]])])
            elif k < .7 and z.kids:
                # like a key
                y = r.choice(z.kids)
                st = [self.step(y, "child", 0)]
                try:
                    v = strval(y)
                    lit = ["lit", v] if not ("'" in v and '"' in v) else \
                        ["lit", "a"]
                except Open:
                    lit = ["lit", "a"]
                p = ["path", ".", st]
                out.append(["=", p, lit] if r.random() < .8 else p)
            elif k < .75:
                out.append(["=", ["path", ".", [["self", None, []]]],
                            ["filt", ["current"], [], []]])
            elif k < .84:
                # values found from current(), perhaps in a group
                ts = [y for y in z.walk() if y.terminal][:20]
                if not ts:
                    out.append(["true"])
                    continue
                y = r.choice(ts)
                sts, w = [], y
                while w is not z:
                    sts.insert(0, ["child", [w.n.ns, w.n.name], []])
                    w = w.parent
                q = ["path", ".", sts or [["self", None, []]]]
                op = r.choice(["=", "=", "=", "!="])
                if r.random() < .5:
                    out.append([op, q, self.cur(y)])
                else:
                    out.append(["filt", q, [[op, ["path", ".", [
                        ["self", None, []]]], self.cur(y)]], []])
            else:
                out.append(self.any(z, d))
        return out

    def ns(self, x, d, whole=False):
        r = self.r
        if r.random() < .5:
            return self.to(x, r.choice(self.all), d)
        start = "/" if r.random() < .3 else "."
        z = self.root if start == "/" else x
        sts = []
        if start == "." and r.random() < .1 and reft(z) is not None:
            pass
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            st, z = self.move(z, d)
            sts.append(st)
        p = ["path", start, sts]
        if r.random() < .06:
            ls = [y for y in self.all if isinstance(
                getattr(y.n, "type", None), mgen.GRef)]
            y = r.choice(ls or self.all)
            p = ["filt", ["deref", self.to(x, y, 0)], [],
                 [["parent", None, []]] + sts if r.random() < .5 else []]
        return self.wrap(p, x, d)

    def move(self, z, d):
        r, k = self.r, self.r.random()
        if z.entry and k < .3:
            ax = r.choice(["following-sibling", "preceding-sibling"])
            sib = [y for y in axes(z, ax)] or [z]
            y = r.choice(sib)
            return self.step(y, ax, d, .4), y
        if k < .4 and z.parent:
            return self.step(z.parent, "parent", d, .7), z.parent
        if k < .5 and z.parent:
            ax = r.choice(["ancestor", "ancestor-or-self"])
            y = r.choice(axes(z, ax))
            return self.step(y, ax, d, .5), y
        if k < .58:
            return self.step(z, "self", d, .4), z
        if k < .72:
            ax = r.choice(["descendant", "descendant-or-self",
                           "descendant-or-self"])
            ys = axes(z, ax)
            if ys:
                y = r.choice(ys)
                return self.step(y, ax, d, .3), y
        if k < .95 and z.kids:
            y = r.choice(z.kids)
            return self.step(y, "child", d, .2), y
        # to something that is not there
        ks = [q for q, _, _ in getattr(z.n, "data", {}).values()] if \
            z.n.kind in ("root", "container", "list") else []
        if ks:
            q = r.choice(ks)
            return ["child", [q.ns, q.name], []], z
        return ["self", None, []], z


def gen(r, root, x, d=3):
    """A determined expression for context node x: (ast, value)."""
    g = Gen(r, root, x)
    for _ in range(30):
        a = g.expr(x, r.choice([1, 2, 2, d]))
        try:
            v = evaluate(a, x)
        except (Open, RecursionError, OverflowError):
            continue
        return a, v
    a = ["count", ["path", ".", [["child", "*", []]]]]
    return a, evaluate(a, x)
