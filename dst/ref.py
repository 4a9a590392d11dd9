"""Executable reference model of the simulated data model (yang/sim-*.yang).

Written by hand from the YANG text and RFC 7950/7951, on plain JSON values
(dict/list/str/int/bool); shares no code with yangson.
"""
import base64
import re
from decimal import Decimal

# ------------------------------------------------------------------ types

NAMES = ["a", "b", "cc", "d", "x/y", "p,q", "o'k", "w%20", "e=1", "s]1",
         "z@z", "m n", "q-r", "f\"g"]
NAME_RE = re.compile(r"[a-z][a-z0-9'/=,%@ \"\]-]*")
STRS = ["", "s", "t u", "zz", "<&>", "\u017elu\u0165", "tab\there", "x:y", "'",
        '"', "a'b\"c", "1", "true", "\U0001f600", "[.='x']", "1+2", "%2B",
        "long " * 4]


class T:
    def gen(self, r): raise NotImplementedError

    def bad(self, r):
        """A raw value that decodes but is outside the value space."""
        return None

    def wrong(self, r):
        """A raw value that cannot be decoded at all."""
        return r.choice([{"x": 1}, [1, 2]])

    def check(self, v):
        """None if `v` is in the value space, else the error tag."""
        return None

    def dec(self, raw):
        """Is `raw` a JSON encoding of some value of the base type?"""
        return isinstance(raw, str)


class Int(T):
    def __init__(self, lo, hi, ranges=None, pool=(), s64=False):
        self.lo, self.hi, self.s64 = lo, hi, s64
        self.ranges = ranges or [(lo, hi)]
        self.pool = list(pool)

    def enc(self, n): return str(n) if self.s64 else n

    def gen(self, r):
        if self.pool and r.random() < .8:
            return self.enc(r.choice(self.pool))
        lo, hi = r.choice(self.ranges)
        return self.enc(r.choice([lo, hi, r.randint(lo, hi)]))

    def bad(self, r):
        return self.enc(r.choice([self.ranges[0][0] - 1,
                                  self.ranges[-1][1] + 1, self.hi + 7]))

    def wrong(self, r):
        return r.choice(["abc", None, {"x": 1}, "", True, 1.5]
                        + ([3] if self.s64 else ["3"]))

    def dec(self, raw):
        if self.s64:
            return isinstance(raw, str) and bool(
                re.fullmatch(r"[+-]?[0-9]+", raw))
        return isinstance(raw, int) and not isinstance(raw, bool)

    def check(self, v):
        n = int(v)
        return None if any(a <= n <= b for a, b in self.ranges) \
            else "invalid-type"


def u8(pool=(), ranges=None): return Int(0, 255, ranges, pool)


class Str(T):
    def __init__(self, lo=None, hi=None, rx=None, pool=None, lentag=None):
        self.lo, self.hi, self.rx = lo, hi, rx
        self.pool, self.lentag = pool or STRS, lentag

    def gen(self, r):
        for _ in range(20):
            v = r.choice(self.pool)
            if self.check(v) is None:
                return v
        return v

    def bad(self, r):
        c = []
        if self.hi is not None:
            c.append("q" * (self.hi + 1))
        if self.lo:
            c.append("")
        if self.rx:
            c.append("#")
        return r.choice(c) if c else None

    def wrong(self, r): return r.choice([1, None, True, [None], {"x": 1}])

    def check(self, v):
        if (self.hi is not None and len(v) > self.hi) or \
                (self.lo is not None and len(v) < self.lo):
            return self.lentag or "invalid-type"
        if self.rx and not self.rx.fullmatch(v):
            return "invalid-type"


def name(): return Str(1, 12, NAME_RE, NAMES, "name-length")


class Enum(T):
    def __init__(self, *vals): self.vals = vals

    def gen(self, r): return r.choice(self.vals)

    def bad(self, r): return "nope"

    def wrong(self, r): return r.choice([1, None, True])

    def check(self, v):
        return None if v in self.vals else "invalid-type"


class Bits(T):
    def __init__(self, *vals): self.vals = vals

    def gen(self, r):
        return " ".join(b for b in self.vals if r.random() < .6)

    def bad(self, r): return "read fly"

    def wrong(self, r): return r.choice([1, None, True])

    def check(self, v):
        return None if all(b in self.vals for b in v.split()) \
            else "invalid-type"


class Dec(T):
    def __init__(self, lo, hi): self.lo, self.hi = Decimal(lo), Decimal(hi)

    def gen(self, r):
        return r.choice(["0.0", "1.5", "-10.0", "10.0", "3.14", "-0.01",
                         "2.0", "9.99"])      # all within -10..10

    def bad(self, r): return r.choice(["10.01", "-11.0", "99.5"])

    def wrong(self, r): return r.choice([1, "x", None, 1.5, "", "1,5"])

    def dec(self, raw):
        return isinstance(raw, str) and bool(
            re.fullmatch(r"[+-]?[0-9]+(\.[0-9]*)?", raw)) and len(raw) < 20

    def check(self, v):
        return None if self.lo <= Decimal(v) <= self.hi else "invalid-type"


class Bool(T):
    def gen(self, r): return r.random() < .5

    def wrong(self, r): return r.choice(["true", 0, 1, None])

    def dec(self, raw): return isinstance(raw, bool)


class Empty(T):
    def gen(self, r): return [None]

    def wrong(self, r): return r.choice([None, [], "", [None, None], True])

    def dec(self, raw): return raw == [None]


class Bin(T):
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

    def gen(self, r):
        n = r.randint(self.lo, min(self.hi, 4))
        return base64.b64encode(bytes(r.choice([0, 65, 255, 10])
                                      for _ in range(n))).decode()

    def bad(self, r):
        return None if self.hi > 1000 else \
            base64.b64encode(b"x" * (self.hi + 1)).decode()

    def wrong(self, r): return r.choice(["!!!!", "QQ", 3, None])

    def dec(self, raw):
        return isinstance(raw, str) and bool(re.fullmatch(
            r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?",
            raw))

    def check(self, v):
        return None if self.lo <= len(base64.b64decode(v)) <= self.hi \
            else "invalid-type"


IDENT = {"sim-t:wired": {"sim-t:kind"}, "sim-t:radio": {"sim-t:kind"},
         "sim-t:quick": {"sim-t:speed"},
         "sim-b:fibre": {"sim-t:kind", "sim-t:wired", "sim-t:speed"},
         "sim-b:wlan": {"sim-t:kind", "sim-t:radio"},
         "sim-t:kind": set(), "sim-t:speed": set()}


class Ident(T):
    def __init__(self, *bases): self.bases = bases

    def gen(self, r):
        return r.choice([i for i in IDENT if self.check(i) is None])

    def bad(self, r):
        return r.choice([i for i in IDENT if self.check(i)]
                        + ["sim-b:none", "sim-t:fibre"])

    def wrong(self, r): return r.choice([1, None, True])

    def check(self, v):
        return None if all(b in IDENT.get(v, ()) for b in self.bases) \
            else "invalid-type"


class Union(T):
    """union { uint16 1..100; enum any; name }"""

    def gen(self, r): return r.choice([1, 7, 100, "any", "a", "cc", "x/y"])

    def wrong(self, r):
        return r.choice([None, {"x": 1}, 1.5, True, 0, 101, "#", "Big"])

    def check(self, v):
        if isinstance(v, int):
            return None if 1 <= v <= 100 else "invalid-type"
        return None if v == "any" or (
            1 <= len(v) <= 12 and NAME_RE.fullmatch(v)) else "invalid-type"

    def dec(self, raw):
        return (isinstance(raw, (int, str)) and not isinstance(raw, bool)
                and self.check(raw) is None)


class Pool(T):
    """Union types: values from a pool, all of them unambiguous."""

    def __init__(self, pool, ok, wrongs):
        self.pool, self.ok, self.wrongs = pool, ok, wrongs

    def gen(self, r): return r.choice(self.pool)

    def wrong(self, r): return r.choice(self.wrongs)

    def check(self, v): return None if self.dec(v) else "invalid-type"

    def dec(self, raw):
        if isinstance(raw, bool):
            return True
        return isinstance(raw, (int, str)) and bool(self.ok(raw))


def _strs(s):
    return (all(b in ("r", "w") for b in s.split())
            or "sim-t:kind" in IDENT.get(s, ())
            or re.fullmatch(r"[+-]?[0-9]+(\.[0-9]*)?", s))


def any_scalar():
    return Pool([5, -3, 127, True, False, "sim-t:wired", "sim-b:wlan", "1.5",
                 "-0.1", "r w", "w", "zz", "QUE="],
                lambda v: -128 <= v <= 127 if isinstance(v, int)
                else len(v) <= 4 or _strs(v),
                [None, {"x": 1}, 1.5, 1000, "toolong", [None]])


def scalar_any():
    return Pool(["zq", "z", "r w", "1.5", "sim-b:fibre", "on", "off", True,
                 False, 5, 200],
                lambda v: 3 <= v <= 200 if isinstance(v, int)
                else _strs(v) or v in ("on", "off") or (
                    len(v) <= 4 and v.startswith("z")),
                [None, {"x": 1}, 1.5, 1, 201, "toolong", "ON", [None]])


class Iid(T):
    POOL = ["/sim-a:sys/host", "/sim-a:sys", "/sim-a:item[id=\"1\"][grp=\"a\"]",
            "/sim-a:item[id=\"2\"][grp=\"o'k\"]/ep/ip",
            "/sim-a:sys/tag[.=\"a\"]", "/sim-a:item[1]/sub[1]",
            "/sim-a:sys/sim-b:zone", "/sim-b:plane/row[n=\"3\"]",
            "/sim-a:item[id=\"1\"][grp=\"a\"]/sub[name=\"\u017e5\"]",
            "/sim-a:sys/pri[2]", "/sim-a:ref/target",
            "/sim-a:sys/tag[.='f\"g']"]

    def gen(self, r): return r.choice(self.POOL)

    def wrong(self, r): return r.choice(["sim-a:sys", "/sim-a:sys[", "/"*2])

    def dec(self, raw): return isinstance(raw, str) and bool(parse_iid(raw))


# ------------------------------------------------------------------ schema

class N:
    def __init__(self, kind, name=None, ns="sim-a", kids=(), type=None,
                 default=None, when=None, must=(), mandatory=False,
                 config=True, presence=False, keys=(), unique=(), mn=0,
                 mx=None, user=False, defcase=None, req=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.kids = list(kids)
        self.parent = None
        for k in self.kids:
            k.parent = self

    def __repr__(self): return f"<{self.kind} {self.name}>"

    def is_data(self):
        return self.kind in ("container", "list", "leaf", "leaflist",
                             "anydata")


class C:
    """Evaluation context: values from the root object down to the node."""

    def __init__(self, chain): self.chain = chain

    @property
    def v(self): return self.chain[-1]

    def up(self, n=1): return self.chain[-1 - n]

    @property
    def root(self): return self.chain[0]


def _sys(root): return root.get("sim-a:sys", {})


def _two_sel(c): return c.v.get("sel", 0) == 1


def _way(mix):
    """The case of choice `way` that is in use."""
    for k, c in (("f1", "right"), ("f2", "right"), ("r1", "right"),
                 ("cont", "cont")):
        if k in mix and not any(x in mix for x in ("lx", "l1", "l2", "l2b")):
            return c
    return "left"


def _link_targets(c):
    wid = c.up().get("wid")
    return [s.get("name") for it in c.root.get("sim-a:item", [])
            if wid is not None and it.get("id") == wid
            for s in it.get("sub", [])]


def leaf(n, t, **k): return N("leaf", n, type=t, **k)


def bleaf(n, t, **k): return N("leaf", n, ns="sim-b", type=t, **k)


def cleaf(n, t, **k): return N("leaf", n, ns="sim-c", type=t, **k)


def cll(n, t, **k): return N("leaflist", n, ns="sim-c", type=t, **k)


def two_group(lim):
    return [leaf("lim", u8(), default=lim),
            N("container", "plus", kids=[
                leaf("first", Int(-128, 127, pool=[1, 2, 3])),
                leaf("second", Int(-128, 127, pool=[1, 2, 3]), must=[
                    (lambda c: c.up().get("first") is None
                     or c.v > c.up()["first"], "must-violation")])])]


IDS = [1, 2, 3, 100, 101, 150]


def build():
    one_group = two_group(8)
    plus = one_group[1]
    third = leaf("third", name())
    third.parent = plus
    plus.kids.append(third)
    sys_ = N("container", "sys", kids=[
        leaf("host", name()),
        leaf("mode", Enum("off", "on", "auto"), default="on"),
        leaf("level", Int(-128, 127, [(-5, 5), (10, 10)]), default=0),
        leaf("big", Int(-2**63, 2**63 - 1, s64=True)),
        leaf("ubig", Int(0, 2**64 - 1, s64=True), must=[
            (lambda c: int(c.v) != 0, "must-violation")]),
        leaf("ratio", Dec("-10", "10")),
        leaf("flags", Bits("read", "write", "exec")),
        leaf("kind", Ident("sim-t:kind")),
        leaf("both-kind", Ident("sim-t:kind", "sim-t:speed")),
        leaf("blob", Bin(0, 6)),
        leaf("mark", Empty()),
        leaf("flag", Bool(), default=False),
        leaf("port", Union()),
        leaf("pct", u8(ranges=[(0, 100)]), default=50),
        N("leaflist", "tag", type=name(), user=True, mx=5),
        N("leaflist", "pri", type=u8(pool=[1, 2, 3, 4]), default=[3, 1]),
        N("container", "tune",
          when=lambda c: c.up().get("mode", "on") != "off", kids=[
              leaf("depth", u8(pool=[3, 5, 6, 7, 13]), default=7, must=[
                  (lambda c: c.v != 13, "unlucky")]),
              leaf("gain", Int(-32768, 32767),
                   when=lambda c: c.up().get(
                       "depth", 0 if c.up(2).get("mode", "on") == "off"
                       else 7) > 5),
              N("container", "inner", kids=[
                  leaf("z", Str(), default="zz")])]),
        N("container", "opt", presence=True, must=[
            (lambda c: len(c.v.get("hint", [])) <= 2, "must-violation")],
          kids=[
            leaf("need", Int(0, 2**32 - 1), mandatory=True),
            N("leaflist", "hint", type=Str(0, 20), mn=1)]),
        leaf("fut", Str()),
        bleaf("zone", name()),
        N("container", "more", ns="sim-b", kids=[
            bleaf("x", u8(), default=6), bleaf("y", name())]),
    ])
    item = N("list", "item", keys=["id", "grp"], mx=30,
             unique=[lambda e: ((e["ep"]["ip"], e["ep"].get("port", 22)),)
                     if "ip" in e.get("ep", {}) else ()],
             must=[(lambda c: c.v.get("peer") is None
                    or c.v.get("id") is not None
                    and c.v["peer"] != c.v["id"], "self-peer")],
             kids=[
        leaf("id", u8(pool=IDS), mandatory=True),
        leaf("grp", name(), mandatory=True),
        N("container", "ep", kids=[
            leaf("ip", Str(rx=re.compile(r"[0-9]+(\.[0-9]+){3}"),
                           pool=["1.1.1.1", "2.2.2.2", "10.0.0.9"])),
            leaf("port", Int(0, 65535, [(1, 65535)], [22, 80, 443]),
                 default=22)]),
        leaf("peer", u8(pool=IDS), req=lambda c: [
            i.get("id") for i in c.root.get("sim-a:item", [])]),
        leaf("soft", name()),
        N("list", "sub", keys=["name"], user=True, kids=[
            leaf("name", Str(1, 16, pool=["n1", "n2", "n/3", "n,4", "\u017e5"]),
                 mandatory=True),
            leaf("val", Int(-2**31, 2**31 - 1, pool=[-1, -2, 0, 5, -100]),
                 must=[(lambda c: c.v >= -100, "must-violation")]),
            N("leaflist", "mark", type=Int(-128, 127, pool=[-1, -2, 0, 1]))]),
        N("choice", "how", defcase="plain", kids=[
            N("case", "plain", kids=[
                leaf("cost", u8(), default=5), leaf("memo", Str())]),
            N("case", "fancy", kids=[
                leaf("style", Str(), mandatory=True),
                leaf("shade", u8(), default=9)]),
            N("case", "bare", kids=[leaf("bare", Empty())])]),
        N("group", when=lambda c: c.v.get("id") is not None
          and c.v["id"] > 100, kids=[
            bleaf("prio", u8(), default=1), bleaf("hot", Bool())]),
    ])
    ref = N("container", "ref", kids=[
        leaf("target", Iid(), req="iid"),
        leaf("loose", Iid()),
        leaf("link", Str(1, 16, pool=["n1", "n2", "n/3"]), req=_link_targets),
        leaf("wid", u8(pool=IDS))])
    carrier = N("choice", "carrier", mandatory=True, kids=[
        N("case", "pigeon", kids=[
            N("container", "pigeon", presence=True, kids=[
                leaf("coo", u8(), default=1)])]),
        N("case", "wire", kids=[leaf("wire", Str())]),
        N("case", "tube",
          when=lambda c: _sys(c.root).get("level", 0) >= 0, kids=[
              leaf("bore", Int(0, 65535)),
              leaf("coat", Str(), default="tin")]),
        N("case", "drone", ns="sim-b", kids=[
            bleaf("wings", u8()), bleaf("cargo", Str())])])
    state = N("container", "state", config=False, kids=[
        leaf("uptime", Int(0, 2**32 - 1), mandatory=True, config=False),
        N("list", "log", config=False, kids=[
            leaf("msg", Str(), config=False),
            leaf("sev", u8(), config=False)]),
        N("leaflist", "ev", type=u8(pool=[1, 2]), config=False)])
    one = N("container", "one", kids=[leaf("base", u8(), default=4)]
            + one_group)
    two = N("container", "two", kids=[
        leaf("sel", u8(pool=[0, 1]), default=0),
        N("group", when=_two_sel, kids=two_group(2)),
        N("container", "hook", kids=[
            leaf("own", Str(), default="o"), leaf("hooked", Str())])])
    plane = N("container", "plane", ns="sim-b", kids=[
        bleaf("seats", Int(0, 65535), default=2,
              must=[(lambda c: c.v % 2 == 0, "must-violation")]),
        N("list", "row", ns="sim-b", keys=["n"], kids=[
            bleaf("n", Int(0, 65535, pool=[1, 2, 3, 4, 5]), mandatory=True),
            bleaf("kind", Ident("sim-t:kind")),
            bleaf("who", name(), req=lambda c: [
                i.get("grp") for i in c.root.get("sim-a:item", [])])])])
    misc = N("anydata", "misc")
    many = N("container", "many", ns="sim-c", kids=[
        cll("bools", Bool()),
        cll("bitz", Bits("r", "w", "x"), user=True),
        cll("decs", Dec("-9000000000", "9000000000")),
        cll("kinds", Ident("sim-t:kind")),
        cll("enums", Enum("one", "two", "three"), mx=3),
        cll("bins", Bin(0, 10**6)),
        cll("unis", any_scalar()),
        cll("inus", scalar_any()),
        cll("bigs", Int(0, 2**64 - 1, s64=True),
            default=["18446744073709551615"]),
        cll("iids", Iid()),
        cll("refs", Ident("sim-t:kind"),
            req=lambda c: c.root["sim-c:many"].get("kinds", [])),
        cleaf("uni", any_scalar(), default="r w"),
        cleaf("inu", scalar_any(), default=77),
        cleaf("kref", Ident("sim-t:kind")),
        cleaf("rref", Dec("-9000000000", "9000000000"), req=lambda c: [
            e.get("ratio") for e in c.root.get("sim-c:reg", [])
            if e.get("kind") is not None
            and e["kind"] == c.up().get("kref")])])
    reg = N("list", "reg", ns="sim-c", keys=["kind", "on", "ratio"], kids=[
        cleaf("kind", Ident("sim-t:kind"), mandatory=True),
        cleaf("on", Bool(), mandatory=True),
        cleaf("ratio", Dec("-9000000000", "9000000000"), mandatory=True),
        cleaf("cnt", Int(0, 2**64 - 1, s64=True), default="5"),
        N("list", "nest", ns="sim-c", keys=["x"],
          unique=[lambda e: (e["cnt"],) if "cnt" in e else ()], kids=[
            cleaf("x", any_scalar(), mandatory=True),
            cleaf("cnt", Int(-128, 127, pool=[1, 2, 3, -1, -2])),
            cll("deep", Bits("r", "w"), mx=2, must=[
                (lambda c: c.v != "w" or len(c.up()["deep"]) > 1,
                 "must-violation")])])])
    def ccase(n, *kids, **k): return N("case", n, ns="sim-c",
                                       kids=list(kids), **k)
    mix = N("container", "mix", ns="sim-c", kids=[
        cleaf("want", u8(pool=[1, 5, 6]), default=1),
        cleaf("chk", u8(pool=[7, 8, 9]), must=[
            (lambda c: c.v != 9 or _way(c.up()) == "left",
             "must-violation"),
            (lambda c: c.v != 8 or c.up().get("l2", 0) > 3
             and _way(c.up()) == "left" or "l2b" in c.up(),
             "must-violation")]),
        cleaf("is", u8(), default=2, config=False),
        N("container", "obs", ns="sim-c", config=False, kids=[
            cleaf("seen", Str(), default="never", config=False),
            N("list", "hit", ns="sim-c", config=False, kids=[
                cleaf("at", u8(), config=False),
                cleaf("why", Str(), default="x", config=False)])]),
        N("list", "port", ns="sim-c", keys=["n"], kids=[
            cleaf("n", u8(pool=[1, 2, 3]), mandatory=True),
            cleaf("oper", Enum("up", "down"), default="down", config=False),
            cll("err", Str(), default=["none"], config=False)]),
        N("choice", "way", ns="sim-c", defcase="left", kids=[
            ccase("left",
                  N("choice", "hand", ns="sim-c", defcase="l1", kids=[
                      ccase("l1", cleaf("l1", u8(), default=1)),
                      ccase("l2", cleaf("l2", u8(pool=[3, 4])),
                            cleaf("l2b", Str(), default="b", when=lambda c:
                                  c.up().get("l2", 0) > 3))]),
                  cleaf("lx", Str(), default="lx")),
            ccase("right", cleaf("r1", u8()),
                  N("choice", "foot", ns="sim-c", mandatory=True, kids=[
                      ccase("f1", cleaf("f1", Empty())),
                      ccase("f2", cleaf("f2", Str()))])),
            ccase("cont", N("container", "cont", ns="sim-c", kids=[
                cleaf("deep", u8(), default=3),
                N("choice", "sub", ns="sim-c", defcase="s1", kids=[
                    ccase("s1", cleaf("s1", Str(), default="s"),
                          when=lambda c: c.up().get("want", 1) > 5),
                    ccase("s2", cleaf("s2", Empty()))])]))]),
        N("container", "pair", ns="sim-c", presence=True, kids=[
            N("list", "duo", ns="sim-c", keys=["k"], mn=2, mx=3, kids=[
                cleaf("k", u8(pool=[1, 2, 3, 4]), mandatory=True),
                cleaf("w", Str(), default="w")])])])
    root = N("root", None, ns=None, kids=[
        sys_, item, ref, carrier, state, mix,
        leaf("note-count", Int(0, 2**32 - 1), config=False), misc,
        one, two, plane, many, reg])
    _index(root)
    return root


def _index(n):
    n.data = {}

    def rec(x, conds, choices):
        for k in x.kids:
            c2 = conds + ([k.when] if k.when else [])
            if k.is_data():
                dp = n
                k.iname = k.name if dp.kind != "root" and dp.ns == k.ns \
                    else f"{k.ns}:{k.name}"
                k.dparent = n
                n.data[k.iname] = (k, c2, choices)
                _index(k)
            elif k.kind == "choice":
                for case in k.kids:
                    rec(_Wrap(case), c2 + ([case.when] if case.when else []),
                        choices + [(k, case)])
            else:
                rec(k, c2, choices)
    rec(n, [], [])


class _Wrap:
    def __init__(self, case): self.kids = case.kids


ROOT = build()


def node_at(path):
    """Schema node for an instance path (inames and indices)."""
    n = ROOT
    for p in path:
        if not isinstance(p, int):
            n = n.data[p][0]
    return n


# ------------------------------------------------------------------ access

def get(root, path):
    v = root
    for p in path:
        v = v[p]
    return v


def chain_to(root, path):
    """C.chain for the node at path: list arrays are skipped."""
    ch = [root]
    v = root
    for p in path:
        v = v[p]
        if isinstance(p, int):
            ch[-1] = v
        else:
            ch.append(v)
    return ch


def set_at(root, path, val):
    """Functional update; returns a new root sharing nothing mutable on the
    way."""
    if not path:
        return val
    p = path[0]
    if isinstance(root, list):
        new = list(root)
        new[p] = set_at(root[p], path[1:], val)
    else:
        new = dict(root)
        new[p] = set_at(root.get(p), path[1:], val)
    return new


def del_at(root, path):
    par = get(root, path[:-1])
    if isinstance(par, list):
        new = par[:path[-1]] + par[path[-1] + 1:]
    else:
        new = {k: v for k, v in par.items() if k != path[-1]}
    return set_at(root, path[:-1], new)


# ------------------------------------------------------------------ iids

_TOK = re.compile(r"/(?:([A-Za-z_][\w.-]*):)?([A-Za-z_][\w.-]*)")


def parse_iid(s):
    """[(ns, name, preds)]; preds: int | ('.', v) | {(ns,name): v}"""
    i, out = 0, []
    while i < len(s):
        m = _TOK.match(s, i)
        if not m:
            return None
        i = m.end()
        pred = None
        while i < len(s) and s[i] == "[":
            q = re.compile(r"\[\s*(\d+)\s*\]").match(s, i)
            if q:
                if pred is not None:
                    return None
                pred, i = int(q[1]) - 1, q.end()
                continue
            q = re.compile(r"\[\s*(?:([\w.-]+):)?([\w.-]+|\.)\s*=\s*"
                           r"('[^']*'|\"[^\"]*\")\s*\]").match(s, i)
            if not q:
                return None
            if pred is not None and (q[2] == "."
                                     or not isinstance(pred, dict)):
                return None
            if q[2] == ".":
                pred = (".", q[3][1:-1])
            else:
                pred = pred if isinstance(pred, dict) else {}
                pred[(q[1], q[2])] = q[3][1:-1]
            i = q.end()
        out.append((m[1], m[2], pred))
    return out


def canon(v):
    """Canonical string of a raw scalar."""
    if v is True:
        return "true"
    if v is False:
        return "false"
    if v == [None]:
        return ""
    return str(v)


def keyeq(v, text):
    """Does the text of a predicate denote the raw scalar v?"""
    c = canon(v)
    if c == text:
        return True
    t = text.strip()
    num = r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)"
    return isinstance(v, (int, str)) and not isinstance(v, bool) and \
        bool(re.fullmatch(num, t)) and bool(re.fullmatch(num, c)) and \
        Decimal(t) == Decimal(c)


def resolve_iid(root, s):
    """Path of the instance addressed by instance-identifier `s` or None."""
    n, v, path = ROOT, root, []
    if s == "/":
        return path
    if not s:
        return None
    p = parse_iid(s)
    if p is None:
        return None
    for ns, nm, pred in p:
        if not isinstance(v, dict):
            return None
        ns = ns or n.ns
        for iname, (k, _, _) in n.data.items():
            if (k.ns, k.name) == (ns, nm):
                break
        else:
            return None
        if iname not in v:
            return None
        v, n = v[iname], k
        path.append(iname)
        if pred is None:
            continue
        if not isinstance(v, list):
            return None
        if isinstance(pred, int):
            if pred >= len(v):
                return None
            path.append(pred)
        elif isinstance(pred, tuple):
            for i, e in enumerate(v):
                if keyeq(e, pred[1]):
                    path.append(i)
                    break
            else:
                return None
        else:
            for i, e in enumerate(v):
                if isinstance(e, dict) and all(
                        kk[1] in e and keyeq(e[kk[1]], vv)
                       for kk, vv in pred.items()):
                    path.append(i)
                    break
            else:
                return None
        v = v[path[-1]]
    return path


def exists_by_default(root, s):
    try:
        return resolve_iid(with_defaults(root), s) is not None
    except Clash:
        return False


# ------------------------------------------------------------------ validity

def needed(n, nonconfig):
    """Is the (data) node mandatory in its parent?"""
    if n.kind == "leaf" or n.kind == "anydata":
        return n.mandatory and (n.config or nonconfig)
    if n.kind in ("list", "leaflist"):
        return n.mn > 0 and (n.config or nonconfig)
    if n.kind == "container" and not n.presence:
        if not n.config and not nonconfig:
            return False
        return any(needed(k, nonconfig) for k in n.kids
                   if k.is_data() or k.kind == "choice")
    if n.kind == "choice":
        return n.mandatory and (n.config or nonconfig)
    return False


class V:
    """One violation."""

    def __init__(self, path, cls, tag, fix):
        self.path, self.cls, self.tag, self.fix = tuple(path), cls, tag, fix

    def key(self): return (self.path, self.cls, self.tag)

    def __repr__(self): return f"{self.cls}@{pointer(self.path)}:{self.tag}"


def pointer(path): return "/" + "/".join(map(str, path))


def validate(root, ctype="config", scope="all"):
    out = []
    _obj(ROOT, root, C([root]), [], ctype, scope, out)
    return out


def active_cases(n, obj, ctx):
    pass


def _obj(n, obj, ctx, path, ctype, scope, out):
    syn = scope in ("all", "syntax")
    nonc = ctype != "config"
    pre = "config " if ctype == "config" else ""
    # (when false, the parent reports the node, too)
    inactive = n.when and n.is_data() and not n.when(ctx)
    chosen = {}
    for m in obj:
        if m[0] == "@":
            continue
        k, conds, choices = n.data[m]
        if syn:
            bad = (not k.config and not nonc) or inactive
            for i, w in enumerate(conds):
                if k.when is w:
                    cc = C(ctx.chain + [obj[m]])
                else:
                    cc = ctx
                if not w(cc):
                    bad = True
            for ch, case in choices:
                if chosen.setdefault(ch, case) is not case:
                    bad = True
            if bad:
                out.append(V(path, "SchemaError", pre + "member-not-allowed",
                             ("del", path + [m])))
        _member(k, obj[m], ctx, path + [m], ctype, scope, out)
    if syn and not inactive:
        _missing(n, n, obj, ctx, path, nonc, chosen, out)


def _missing(n, x, obj, ctx, path, nonc, chosen, out):
    for k in x.kids:
        if k.is_data():
            if needed(k, nonc) and k.iname not in obj and (
                    not k.when or k.when(C(ctx.chain + [None]))):
                out.append(V(path, "SchemaError", "missing-data",
                             ("add", path, k)))
        elif k.kind == "group":
            if not k.when or k.when(ctx):
                _missing(n, k, obj, ctx, path, nonc, chosen, out)
        elif k.kind == "choice":
            if k.when and not k.when(ctx):
                continue
            act = chosen.get(k)
            if act is None:
                act2 = [c for c in k.kids for d in n.data.values()
                        if (k, c) in d[2] and d[0].iname in obj]
                act = act2[0] if act2 else None
            if act is None:
                if k.mandatory and (k.config or nonc):
                    out.append(V(path, "SchemaError", "missing-data",
                                 ("add", path, k)))
            elif not act.when or act.when(ctx):
                _missing(n, act, obj, ctx, path, nonc, chosen, out)


def _must(k, ctx, path, out):
    for f, tag in k.must:
        if not f(ctx):
            out.append(V(path, "SemanticError", tag, ("del", list(path))))


def _member(k, val, ctx, path, ctype, scope, out):
    sem = scope in ("all", "semantics")
    syn = scope in ("all", "syntax")
    if k.kind == "leaf":
        _leaf(k, val, C(ctx.chain + [val]), path, syn, sem, out)
    elif k.kind == "container":
        c = C(ctx.chain + [val])
        if sem:
            _must(k, c, path, out)
        _obj(k, val, c, path, ctype, scope, out)
    elif k.kind == "leaflist":
        if sem:
            if k.config and len({repr(v) for v in val}) < len(val):
                out.append(V(path, "SemanticError", "repeated-leaf-list-value",
                             ("del", path + [len(val) - 1])))
            _card(k, val, path, out)
        for i, e in enumerate(val):
            _leaf(k, e, C(ctx.chain + [e]), path + [i], syn, sem, out)
    elif k.kind == "list":
        if sem:
            seen = set()
            for i, e in enumerate(val):
                if any(kk not in e for kk in k.keys):
                    out.append(V(path + [i], "SchemaError",
                                 "list-key-missing", ("del", path + [i])))
                    break
                kv = tuple(repr(e[kk]) for kk in k.keys)
                if k.keys and kv in seen:
                    out.append(V(path, "SemanticError", "non-unique-key",
                                 ("del", path + [i])))
                seen.add(kv)
            for u in k.unique:
                su = set()
                for i, e in enumerate(val):
                    t = set(u(e))
                    if t & su:
                        out.append(V(path, "SemanticError", "data-not-unique",
                                     ("del", path + [i])))
                    su |= t
            _card(k, val, path, out)
        for i, e in enumerate(val):
            c = C(ctx.chain + [e])
            if sem:
                _must(k, c, path + [i], out)
            _obj(k, e, c, path + [i], ctype, scope, out)


def _card(k, val, path, out):
    if len(val) < k.mn:
        out.append(V(path, "SemanticError", "too-few-elements",
                     ("add", path, k)))
    if k.mx is not None and len(val) > k.mx:
        out.append(V(path, "SemanticError", "too-many-elements",
                     ("del", path + [len(val) - 1])))


def _leaf(k, v, ctx, path, syn, sem, out):
    if syn:
        t = k.type.check(v)
        if t:
            out.append(V(path, "YangTypeError", t, ("del", list(path))))
    if sem:
        if k.req == "iid":
            if resolve_iid(ctx.root, v) is None and \
                    not exists_by_default(ctx.root, v):
                out.append(V(path, "SemanticError", "instance-required",
                             ("del", list(path))))
        elif k.req:
            if canon(v) not in [canon(x) for x in k.req(ctx)
                                if x is not None]:
                out.append(V(path, "SemanticError", "instance-required",
                             ("del", list(path))))
        _must(k, ctx, path, out)


# ------------------------------------------------------------------ defaults

class Clash(Exception):
    """Data of several cases of one choice: defaults are undefined."""


def with_defaults(root, ctype="all"):
    """Tree with all defaults in use made explicit (NP containers too)."""
    # values defaults depend on are read through effective getters, so one
    # top-down pass is enough
    return _wd_obj(ROOT, root, [root], ctype)


def _wd_obj(n, obj, chain, ctype):
    res = {}
    for m, v in obj.items():
        if m[0] == "@":
            res[m] = v
            continue
        k = n.data[m][0]
        if k.kind == "container":
            res[m] = _wd_obj(k, v, chain + [v], ctype)
        elif k.kind == "list":
            res[m] = [_wd_obj(k, e, chain + [e], ctype) for e in v]
        else:
            res[m] = v
    _wd_kids(n, n, obj, chain, ctype, res)
    return res


def _wd_kids(n, x, obj, chain, ctype, res):
    ctx = C(chain)
    for k in x.kids:
        if k.is_data():
            if not k.config and ctype == "config":
                continue
            if k.config and ctype == "nonconfig" and k.kind in (
                    "leaf", "leaflist"):
                continue
            if k.iname in obj or k.iname in res:
                continue
            if k.when and not k.when(C(chain + [None])):
                continue
            if k.kind in ("leaf", "leaflist"):
                if k.default is not None:
                    res[k.iname] = k.default
            elif k.kind == "container" and not k.presence:
                res[k.iname] = _wd_obj(k, {}, chain + [{}], ctype)
        elif k.kind == "group":
            if not k.when or k.when(ctx):
                _wd_kids(n, k, obj, chain, ctype, res)
        elif k.kind == "choice":
            if k.when and not k.when(ctx):
                continue
            act = [c for c in k.kids for d in n.data.values()
                   if (k, c) in d[2] and d[0].iname in obj]
            if act:
                c = act[0]
                if len(set(map(id, act))) > 1:
                    raise Clash(k.kids[0].name)
                if c.when and not c.when(ctx):
                    continue
            else:
                dc = [c for c in k.kids if c.name == k.defcase]
                dc = [c for c in dc if c.ns == k.ns] or dc
                if not dc:
                    continue
                c = dc[0]
                if c.when and not c.when(ctx):
                    continue
            _wd_kids(n, c, obj, chain, ctype, res)


# ------------------------------------------------------------------ merge

def merge(n, old, new):
    """NETCONF merge of raw value `new` into `old` at schema node n."""
    if n.kind in ("leaf", "anydata"):
        return new
    if n.kind == "leaflist":
        return old + [e for e in new if not any(same(e, o) for o in old)]
    if n.kind == "list":
        def key(e):
            return tuple(repr(e[k]) for k in n.keys) if n.keys and all(
                k in e for k in n.keys) else None
        res = list(old)
        pos = {}
        for i, e in enumerate(old):
            if key(e) is not None:
                pos.setdefault(key(e), i)
        for e in new:
            if key(e) in pos:
                i = pos[key(e)]
                res[i] = merge_obj(n, old[i], e)
            else:
                res.append(e)
        return res
    return merge_obj(n, old, new)


def merge_obj(n, old, new):
    res = dict(old)
    for m, v in new.items():
        if m in old and m[0] != "@":
            res[m] = merge(n.data[m][0], old[m], v)
        else:
            res[m] = v
    return res


def merge_entry(n, old, new, entry):
    """Merge at a cursor; an entry of a list is merged like a container."""
    if n.kind == "root" or entry and n.kind == "list":
        return merge_obj(n, old, new) if old else new
    if entry or n.kind in ("leaf", "anydata") or not old:
        return new
    return merge(n, old, new)


def dedup(n, raw, entry=False):
    """Drop entries with the same keys as an earlier one (what merging does
    with such values is not specified)."""
    if n.kind in ("list",) and not entry and isinstance(raw, list):
        res, seen = [], set()
        for e in raw:
            if isinstance(e, dict) and n.keys and all(k in e for k in n.keys):
                kv = repr([e[k] for k in n.keys])
                if kv in seen:
                    continue
                seen.add(kv)
            res.append(dedup(n, e, True))
        return res
    if n.kind in ("root", "container", "list") and isinstance(raw, dict):
        return {m: dedup(n.data[m][0], x) if m in n.data else x
                for m, x in raw.items()}
    return raw


# ------------------------------------------------------------------ decoding

ANNOT = {("sim-a", "note"): Str(), ("sim-a", "weight"): Int(-128, 127)}
NOTES = ("sim-a:note", "sim-a:weight")
SIMPLE = {"sim-a:wire": "x"}       # a small valid document
TOPNODES = {("sim-a", "reset"), ("sim-a", "alarm")}


def decodable(n, raw, entry=False):
    """Can `raw` be read as a value of schema node n (or its entry)?"""
    if n.kind == "anydata":
        return True
    if n.kind == "list" and not entry:
        return isinstance(raw, list) and all(
            isinstance(e, dict) and decodable(n, e, True) for e in raw)
    if n.kind == "leaflist" and not entry:
        return isinstance(raw, list) and all(n.type.dec(e) for e in raw)
    if n.kind in ("leaf", "leaflist"):
        return n.type.dec(raw)
    if not isinstance(raw, dict):
        return False
    for m, v in raw.items():
        if m.startswith("@"):
            if m != "@" and m[1:] not in raw:
                return False
            if not isinstance(v, dict):
                return False
            for a, av in v.items():
                t = ANNOT.get(qname(n, a))
                if t is None or not t.dec(av) or t.check(av) is not None:
                    return False
            continue
        for k, _, _ in n.data.values():
            if (k.ns, k.name) == qname(n, m):
                break
        else:
            return False
        if not decodable(k, v):
            return False
    return True


def qname(n, iname):
    p, c, loc = iname.partition(":")
    return (p, loc) if c else (n.ns, p)


def same(a, b):
    """Equality that keeps booleans, numbers and strings apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


# ------------------------------------------------------------------ generator

class Gen:
    """Swarm-style generator of documents for the simulated data model."""

    def __init__(self, r, **cfg):
        self.r = r
        self.p = cfg.get("p", r.choice([.25, .4, .6]))
        self.maxlen = cfg.get("maxlen", r.choice([2, 3, 4, 7]))
        self.pbad = cfg.get("pbad", 0.0)
        self.state = cfg.get("state", False)
        self.meta = cfg.get("meta", False)
        self.any = cfg.get("any", True)
        self.printable = cfg.get("printable", False)

    def scalar(self, k):
        r = self.r
        if self.pbad and r.random() < self.pbad:
            b = k.type.bad(r)
            if b is not None and not (self.printable
                                      and isinstance(k.type, Bits)):
                return b
        return k.type.gen(r)

    def value(self, k, full=0.0):
        r = self.r
        if k.kind == "leaf":
            return self.scalar(k)
        if k.kind == "anydata":
            return r.choice([{"foo": [1, {"b": None}], "c": "x"}, "str", 4,
                             {"sim-a:x": {"y": [True, 1.5]}}, [1, "2"]])
        if k.kind == "leaflist":
            n = r.randint(0 if k.mn == 0 and r.random() < .1 else 1,
                          max(1, self.maxlen))
            res = []
            for _ in range(n):
                v = self.scalar(k)
                if r.random() < .95 and any(same(v, x) for x in res):
                    continue
                res.append(v)
            return res
        if k.kind == "list":
            n = r.randint(0 if r.random() < .1 else 1, self.maxlen)
            res, seen = [], set()
            for _ in range(n):
                e = self.entry(k) or {k.kids[0].name: k.kids[0].type.gen(r)}
                kv = repr([e.get(x) for x in k.keys])
                if k.keys and kv in seen and r.random() < .95:
                    continue
                seen.add(kv)
                res.append(e)
            return res
        return self.obj(k)

    def entry(self, k):
        e = self.obj(k)
        for kk in k.keys:
            if kk not in e and not (self.pbad and
                                    self.r.random() < self.pbad / 2):
                e[kk] = k.data[kk][0].type.gen(self.r)
        return e

    def obj(self, n):
        r = self.r
        res = {}
        names = list(n.data)
        r.shuffle(names)
        chosen = {}
        for m in names:
            k, conds, choices = n.data[m]
            if not k.config and not self.state:
                continue
            if k.kind == "anydata" and not self.any:
                continue
            ok = True
            for ch, case in choices:
                if chosen.setdefault(ch, case) is not case and \
                        not (self.pbad and r.random() < self.pbad):
                    ok = False
            if not ok:
                continue
            if r.random() < (0.9 if k.mandatory else self.p):
                res[m] = self.value(k)
                if self.meta and r.random() < .25:
                    if k.kind == "container":
                        res[m]["@"] = self.anno()
                    elif k.kind == "leaf":
                        res["@" + m] = self.anno()
        return res

    def anno(self):
        note, weight = NOTES
        return self.r.choice([{note: "hi"}, {weight: 3},
                              {note: "x", weight: -1}])

    def add_missing(self, root, path, k):
        if k.kind == "choice":
            n = k
            while not hasattr(n, "data"):
                n = n.parent
            case = self.r.choice(k.kids)
            for d in n.data.values():
                if (k, case) in d[2]:
                    root = set_at(root, list(path) + [d[0].iname],
                                  self.minimal(d[0]))
                    break
            return root
        if isinstance(get(root, path), list):     # too-few
            return set_at(root, path, get(root, path) + [self.minimal_entry(k)])
        return set_at(root, list(path) + [k.iname], self.minimal(k))

    def minimal_entry(self, k):
        return k.type.gen(self.r) if k.kind == "leaflist" else \
            {kk: k.data[kk][0].type.gen(self.r) for kk in k.keys}

    def minimal(self, k):
        if k.kind == "leaf":
            return k.type.gen(self.r)
        if k.kind in ("list", "leaflist"):
            res = []
            for _ in range(30):
                if len(res) >= max(1, k.mn):
                    break
                e = self.minimal_entry(k)
                if not any(same(e, x) for x in res):
                    res.append(e)
            return res
        return {c.iname: self.minimal(c) for c in k.kids
                if c.is_data() and needed(c, self.state)}

    def document(self, valid=None):
        """A raw document; `valid`: repair until the reference accepts it."""
        root = self.obj(ROOT)
        if valid is None:
            valid = self.r.random() < .6
        if valid:
            root = self.repair(root)
        return root

    def repair(self, root, ctype=None):
        ct = ctype or ("all" if self.state else "config")
        for _ in range(200):
            errs = validate(root, ct)
            if not errs:
                break
            e = errs[0]
            if e.fix[0] == "del":
                root = del_at(root, e.fix[1])
                m = e.fix[1][-1]
                if isinstance(m, str):      # annotation goes with its target
                    par = get(root, e.fix[1][:-1])
                    if "@" + m in par:
                        root = del_at(root, e.fix[1][:-1] + ["@" + m])
            else:
                root = self.add_missing(root, list(e.fix[1]), e.fix[2])
        return root


def strip_meta(v):
    if isinstance(v, dict):
        return {k: strip_meta(x) for k, x in v.items() if k[0] != "@"}
    if isinstance(v, list):
        return [strip_meta(x) for x in v]
    return v


def all_paths(root):
    """Every instance path of the document, in a fixed order."""
    out = []

    def rec(v, n, path):
        out.append(tuple(path))
        if n is not None and n.kind == "anydata":
            return
        if isinstance(v, dict):
            for k in v:
                if k[0] != "@":
                    rec(v[k], n.data[k][0], path + [k])
        elif isinstance(v, list) and n.kind in ("list", "leaflist"):
            for i, e in enumerate(v):
                rec(e, n, path + [i])
    rec(root, ROOT, [])
    return out


def no_any(root):
    """The document without the content that has no schema."""
    def rec(v, n):
        if isinstance(v, dict):
            return {m: x if m[0] == "@" else rec(x, n.data[m][0])
                 for m, x in v.items() if m[0] == "@" or
                 n.data[m][0].kind != "anydata"}
        if isinstance(v, list) and n.kind == "list":
            return [rec(x, n) for x in v]
        return v
    return rec(root, ROOT)
