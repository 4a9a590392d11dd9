"""C21: XPath expressions have the values the standards give them."""
import json
import math

from .. import core, env, mgen, ops, ref, sched, steps, world, xref
from ..core import Violation
from .c04 import gen_mode

PROP = "C21"
RULE = ("seeded histories of edits of several documents, with generated XPath "
        "expressions evaluated in between, in one or several threads and "
        "around asynchronous exceptions; every value is compared with an "
        "independent evaluator on plain JSON; non-trivial: at least 4 "
        "expressions compared; distinct by expressions and values")
REAL = ["yangson (all of it), with real threads run one at a time"]
STUB = ["clock", "locks", "thread scheduler", "asynchronous exceptions"]
LISTS = ("events", "docs")
ASSUMPTIONS = ["results that depend on the order of members of an object, and "
               "string values of internal nodes, are not looked at"]
dm = None
MODELS = .6


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (7000, 150) if tier == "quick" else (400000, 1500)


def gen(r, i, tier):
    nd = r.choice([1, 1, 2])
    g = ref.Gen(r, pbad=0, any=r.random() < .2, maxlen=r.choice([2, 3, 4]),
                state=r.random() < .4)
    docs = [g.document(valid=r.random() < .7) for _ in range(nd)]
    if nd == 2 and r.random() < .6:
        docs[1] = ops.variants(r, 2)[1]
    docs = [d if ref.decodable(ref.ROOT, d) and not bad_bits(d) else
            dict(ref.SIMPLE) for d in docs]
    ch = steps.Chooser(r, g, wild=0, edits=2, defaults=.05)
    cur = [(d, []) for d in docs]
    trees = {}
    ev, seen = [], []
    n = r.choice([6, 12, 20]) if tier == "quick" else r.choice([15, 40])

    def tree(c):
        d = cur[c][0]
        if c not in trees or trees[c][0] is not d:
            trees[c] = (d, xref.tree(d))
        return trees[c][1]

    def one(c=None):
        c = r.randrange(nd) if c is None else c
        if seen and r.random() < .25:
            # an expression used before, elsewhere
            a, s, old = r.choice(seen)
            xs = [x for x in tree(c).walk() if x.n is old] or \
                list(tree(c).walk())
            x = r.choice(xs)
            try:
                xref.evaluate(a, x)
                return [c, list(x.path), a, s]
            except (xref.Open, AttributeError, RecursionError,
                    OverflowError):
                pass
        x = r.choice(list(tree(c).walk()))
        a, _ = xref.gen(r, tree(c), x)
        s = r.randrange(1 << 30)
        seen.append((a, s, x.n))
        return [c, list(x.path), a, s]
    while len(ev) < n:
        x = r.random()
        try:
            if x < .25:
                c = r.randrange(nd)
                st = ch.step(*cur[c])
                out = steps.apply_ref(*cur[c], st)
                if isinstance(out, steps.Skip):
                    ev.append(["xp"] + one())
                    continue
                ev.append(["step", c, st])
                if isinstance(out, steps.Ok):
                    cur[c] = (out.root, out.path)
            elif x < .9:
                ev.append(["xp"] + one())
            elif x < .95:
                ev.append(["fault"] + one() + [
                    r.choice(sorted(world.EXCS)), r.random()])
            else:
                c = r.randrange(nd)
                nt = r.choice([2, 2, 3])
                e = one(c)
                ev.append(["threads", [[e if r.random() < .5 else one(c)]
                                       for _ in range(nt)], gen_mode(r, nt)])
        except ref.Clash:
            break
    if not ev:
        return {"docs": [], "events": []}
    return {"docs": docs, "events": ev}


def bad_bits(v):
    if isinstance(v, dict):
        return any(bad_bits(x) for x in v.values())
    if isinstance(v, list):
        return any(bad_bits(x) for x in v)
    return v == "read fly"


def compiled(memo, a, seed, pfx):
    t = xref.text(a, seed, pfx)
    if t not in memo:
        memo[t] = parse(t)
    return t, memo[t]


def parse(t):
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    return XPathParser(t, SchemaContext(dm.schema_data, *ops.XCTX)).parse()


def node(inst, path):
    """The node at `path`, which may exist by default."""
    for p in path:
        if isinstance(p, int):
            inst = inst[p]
            continue
        if p in inst.value:
            inst = inst[p]
            continue
        sn = inst.schema_node
        cn = next(c for c in sn.data_children() if c.iname() == p)
        m = inst._default_member(cn.qual_name)
        if m is None:
            return None
        inst = m
    return inst


def plain(v):
    if isinstance(v, list):
        ps = [tuple(n.path) for n in v]
        if len(set(ps)) != len(ps):
            return ["nodes, some twice", sorted(map(str, ps))]
        return ["nodes", sorted(map(list, map(fix, ps)), key=str)]
    if isinstance(v, bool):
        return ["boolean", v]
    if isinstance(v, str):
        return ["string", v]
    if v != v:
        return ["number", "NaN"]
    if math.isinf(v):
        return ["number", str(v)]
    return ["number", float(v) + 0.0]


def fix(p): return list(p)


def run(scn):
    docs = scn["docs"]
    pfx = xref.prefixes()
    memo = {}
    inst = [dm.from_raw(d) for d in docs]
    pos = list(inst)
    rf = [(d, []) for d in docs]
    rw = world.Real(dm)
    trees = {}
    sig, faults = [], {}
    ncmp = 0

    def tree(c):
        d = rf[c][0]
        if c not in trees or trees[c][0] is not d:
            trees[c] = (d, xref.tree(d))
        return trees[c][1]

    def expected(c, path, a):
        try:
            return plain(xref.evaluate(a, xref.at(tree(c), path)))
        except (xref.Open, StopIteration, ref.Clash, KeyError, IndexError,
                AttributeError):
            return None

    def check(num, got, exp, t, path):
        if got != exp:
            raise Violation("wrong-value", f"event {num}: {t!r} at "
                            f"{list(path)} is {short(got)}, not {short(exp)}")

    for num, e in enumerate(scn["events"]):
        if e[0] == "step":
            c = e[1]
            if c >= len(pos):
                continue
            try:
                exp = steps.apply_ref(*rf[c], e[2])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(pos[c], e[2])
            sig.append((e[2][0], out[0]))
            if not world.agrees(out, exp):
                break              # (not the business of this check)
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                pos[c] = out[1]
                inst[c] = out[1].top()
                rf[c] = (exp.root, exp.path)
            continue
        if e[0] == "threads":
            jobs = []
            for th in e[1]:
                for c, path, a, s in th:
                    if c >= len(inst):
                        continue
                    exp = expected(c, path, a)
                    nd = node(inst[c], path) if exp else None
                    if nd is not None:
                        t, ex = compiled(memo, a, s, pfx)
                        jobs.append((nd, ex, exp, t, path))
            if len(jobs) < 2:
                continue
            mode = e[2]
            fns = [lambda j=j: plain(j[1].evaluate(j[0])) for j in jobs]
            if "at" in mode:
                s = sched.Sched(fns, {"kind": "list", "switches": []})
                s.run()
                mode = dict(mode, points=[int(x * s.step) + 1
                                          for x in mode["at"]])
            s = sched.Sched(fns, mode)
            try:
                got = s.run()
            except sched.Deadlock as x:
                raise Violation("deadlock", str(x))
            faults["preemption"] = faults.get("preemption", 0) + \
                len(s.trace) - len(jobs)
            for (nd, ex, exp, t, path), g in zip(jobs, got):
                if isinstance(g, BaseException):
                    raise Violation("thread-died", f"event {num}: {t!r} at "
                                    f"{list(path)}: {g!r}")
                check(num, g, exp, t, path)
                ncmp += 1
            sig.append(len(s.sites))
            continue
        c, path, a, s = e[1:5]
        if c >= len(inst):
            continue
        exp = expected(c, path, a)
        if exp is None:
            continue
        nd = node(inst[c], path)
        if nd is None:
            raise Violation("no-default", f"event {num}: {list(path)} is not "
                            "in use by default")
        t, ex = compiled(memo, a, s, pfx)
        if e[0] == "fault":
            n = sched.count_lines(lambda: ex.evaluate(nd))
            exc = world.EXCS[e[5]]("injected")
            it = sched.Interrupt(int(e[6] * n), exc)
            try:
                with it:
                    ex.evaluate(nd)
            except BaseException as x:
                if x is not exc:
                    raise
                faults[e[5]] = faults.get(e[5], 0) + 1
        was = nd.top().raw_value() if num % 5 == 0 else None
        got = plain(ex.evaluate(nd))
        check(num, got, exp, t, path)
        if was is not None and nd.top().raw_value() != was:
            raise Violation("data-changed", f"event {num}: {t!r}")
        ncmp += 1
        sig.append((t, str(got)[:200]))
    st = {"expressions": ncmp, "faults": faults}
    if ncmp >= 4:
        st["sig"] = core.digest(sig)
    if len(scn["events"]) < 8:
        st["sample"] = str(scn["events"])[:800]
    return st


def short(x):
    x = str(x)
    return x if len(x) < 600 else x[:300] + " ... " + x[-300:]
