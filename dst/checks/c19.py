"""C19: adding defaults gives exactly the default values in use."""
import json

from .. import core, dstore, env, ops, ref, sched, steps, world
from ..core import Violation

PROP = "C19"
RULE = ("seeded histories of interleaved clients whose edits switch choices, "
        "conditions and members; defaults are added to whole trees and to "
        "subtrees, with every content type, with and without tagging, also "
        "interrupted and repeated; results are compared with an independent "
        "computation of the defaults in use; non-trivial: at least 3 "
        "comparisons; distinct by the sequence of edits and the defaults "
        "added")
REAL = ["yangson (all of it)"]
STUB = ["clock", "locks", "asynchronous exceptions"]
LISTS = ("events",)
ASSUMPTIONS = ["one hand-written data model with its defaults restated in "
               "dst/ref.py", "data with several cases of one choice (always "
               "invalid) are left out"]
TAG = "ietf-netconf-with-defaults:default"
dm = None
MODELS = .6

RPC_CASES = [
    ["sim-a:reset", {"sim-a:input": {}}, {"sim-a:input": {"delay": 5}}],
    ["sim-a:reset", {"sim-a:input": {"delay": 6, "force": [None]}}, None],
    ["sim-a:reset", {"sim-a:output": {"done": True}}, None],
    ["sim-a:reset", {}, None],
    ["sim-a:alarm", {"sim-a:what": "x"}, None],
]


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (5000, 150) if tier == "quick" else (250000, 1500)


CT = ["all", "all", "config", "config", None, "nonconfig"]


def gen(r, i, tier):
    state = r.random() < .4
    g = ref.Gen(r, pbad=r.choice([0, 0, 0, .03]), state=state,
                meta=r.random() < .25, p=r.choice([.1, .25, .5]))
    ct = "all" if state else "config"
    doc = g.document(valid=r.random() < .7)
    if r.random() < .3:
        doc = ops.variants(r, 1)[0]
    if not ref.decodable(ref.ROOT, doc):
        doc = ref.Gen(r, pbad=0).document(valid=True)
    ch = steps.Chooser(r, g, wild=0, edits=2, defaults=0)
    nc = r.choice([1, 2, 3])
    cur = [(doc, [])] * nc
    ev = []
    n = r.choice([6, 12, 20]) if tier == "quick" else r.choice([20, 40, 80])
    for _ in range(n):
        x = r.random()
        c = r.randrange(nc)
        if x < .5:
            sts, cur[c] = dstore.gen_edits(r, g, ch, cur[c], ct,
                                           p_toggle=.35, p_spoil=.1)
            ev += [["step", c, s] for s in sts]
        elif x < .82:
            at = r.choice(["top", "top", "cursor", "some"])
            if at == "some":
                at = list(r.choice(ref.all_paths(cur[c][0])))
            ev.append(["def", c, at, r.choice(CT), r.random() < .3])
        elif x < .88:
            ev.append(["verdict", c, r.choice(["config", "all"])])
        elif x < .94:
            ev.append(["cutdef", c, r.choice(CT), r.random() < .3,
                       r.random(), r.choice(sorted(world.EXCS))])
        elif x < .97:
            ev.append(["take", c, r.choice(["config", "all"])])
            try:
                cur[c] = (ref.with_defaults(cur[c][0], ev[-1][2]), [])
            except ref.Clash:
                ev.pop()
        elif ref.TOPNODES:      # (the simulated model)
            ev.append(["rpc", r.randrange(len(RPC_CASES))])
    for c in range(nc):
        ev.append(["def", c, "top", r.choice(CT), False])
        ev.append(["verdict", c, ct])
    return {"doc": doc, "clients": nc, "events": ev}


def expected(root, path, ctype):
    """The subtree at `path` with defaults; None if not specified."""
    ctype = ctype or "all"
    n, ent = steps.kind_at(root, path)
    if n is None:
        return None
    v = ref.get(root, path)
    try:
        ch = ref.chain_to(root, path)
        if n.kind in ("root", "container") or n.kind == "list" and ent:
            return ref._wd_obj(n, v, ch, ctype)
        if n.kind == "list":
            return [ref._wd_obj(n, e, ch[:-1] + [e], ctype) for e in v]
    except ref.Clash:
        return None
    return v


def marked(old, new, n):
    """`new` with marks on what is not in `old`."""
    if isinstance(new, dict) and isinstance(old, dict) and \
            n.kind != "anydata":
        res = {}
        for m, v in new.items():
            if m[0] == "@":
                res[m] = v
            elif m in old:
                res[m] = marked(old[m], v, n.data[m][0])
            elif isinstance(v, dict):
                res[m] = dict(v, **{"@": {TAG: True}})
            else:
                res[m] = v
                res["@" + m] = {TAG: True}
        return res
    if isinstance(new, list) and isinstance(old, list) and n.kind == "list":
        return [marked(a, b, n) for a, b in zip(old, new)]
    return new


def add(node, ctype, tag):
    from yangson.enumerations import ContentType
    return node.add_defaults(ctype and ContentType[ctype], tag=tag)


def count_added(old, new):
    if isinstance(new, dict) and isinstance(old, dict):
        return sum(count_added(old[m], v) if m in old else 1
                   for m, v in new.items())
    if isinstance(new, list) and isinstance(old, list):
        return sum(map(count_added, old, new))
    return 0


def raw(node, exp):
    """Raw value; null stands for values of a wrong type."""
    return fill(node.raw_value(), exp)


def fill(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: fill(v, b.get(k)) for k, v in a.items()}
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == len(b):
            return list(map(fill, a, b))
        if not any(isinstance(x, (dict, list)) for x in b):
            i = 0                   # (left out of leaf-lists)
            for x in a:
                while i < len(b) and not ref.same(b[i], x):
                    i += 1
                i += 1
            return b if i <= len(b) else a
    return b if a is None else a


def check(num, node, root, path, ctype, tag, what="add_defaults"):
    """Number of nodes added, or None."""
    exp = expected(root, path, ctype)
    if exp is None:
        return None
    n, _ = steps.kind_at(root, path)
    old = ref.get(root, path)
    if tag:
        exp = marked(old, exp, n)
    exp = world.own(exp)
    res = add(node, ctype, tag)
    got = raw(res, exp)
    ctx = f"event {num} {what}({ctype}, tag={tag}) at {path}"
    if not ref.same(got, exp):
        raise Violation("wrong-defaults", f"{ctx}: {world.diff(got, exp)}")
    if list(res.path) != list(path):
        raise Violation("elsewhere", f"{ctx}: result at {res.path}")
    was = raw(node, world.own(old))
    if not ref.same(was, world.own(old)):
        raise Violation("original-changed",
                        ctx + ": " + world.diff(was, world.own(old)))
    whole = ref.set_at(root, path, exp)
    top = raw(res.top(), whole)
    if not ref.same(top, whole) and not has_own(root, path):
        raise Violation("other-data-changed",
                        f"{ctx}: " + world.diff(top, whole))
    if not tag:
        again = raw(add(res, ctype, False), exp)
        if not ref.same(again, exp):
            raise Violation("not-idempotent",
                            f"{ctx}: {world.diff(again, exp)}")
    else:
        again = raw(add(res, ctype, True), exp)
        if not ref.same(again, exp):
            raise Violation("marked-again",
                            f"{ctx}: {world.diff(again, exp)}")
    return count_added(world.own(old), exp)


def has_own(root, path):
    v = ref.get(root, path)
    return isinstance(v, dict) and "@" in v


def accepts(node, ctype):
    from yangson.enumerations import ContentType
    from yangson.exceptions import YangsonException
    try:
        node.validate(ctype=ContentType[ctype])
        return True
    except YangsonException:
        return False


def run(scn):
    rw = world.Real(dm)
    top = dm.from_raw(scn["doc"])
    real = [top] * scn["clients"]
    rf = [(scn["doc"], [])] * scn["clients"]
    sig = []
    ncmp = nadd = cut = nv = 0
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        if k == "rpc":
            p, d, want = RPC_CASES[ev[1]]
            inst = dm.from_raw(json.loads(json.dumps(d)), subschema=p)
            for _ in range(2):
                inst = inst.add_defaults()
                if not ref.same(inst.raw_value(), want or d):
                    raise Violation("wrong-defaults", f"{p} {d}: "
                                    f"{inst.raw_value()}")
            continue
        c = ev[1]
        root, path = rf[c]
        if k == "step":
            try:
                exp = steps.apply_ref(root, path, ev[2])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(real[c], ev[2])
            if not world.agrees(out, exp):
                return {"foreign_deviation": 1}
            sig.append(ev[2][0])
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                real[c], rf[c] = out[1], (exp.root, exp.path)
        elif k == "def":
            node, at = real[c], path
            if ev[2] == "top":
                node, at = node.top(), []
            elif ev[2] != "cursor":
                try:
                    ref.get(root, ev[2])
                except (KeyError, IndexError, TypeError):
                    continue
                node, at = ops.at(node.top(), ev[2]), ev[2]
            r = check(num, node, root, at, ev[3], ev[4])
            if r is not None:
                ncmp += 1
                nadd += r
                sig.append(("def", ev[3], r))
        elif k == "cutdef":
            n = real[c].top()
            f = (lambda: add(n, ev[2], ev[3]))
            if expected(root, [], ev[2]) is None:
                continue
            lines = core.isolated(lambda: sched.count_lines(f))
            exc = world.EXCS[ev[5]]("injected")
            try:
                with sched.Interrupt(int(ev[4] * lines), exc):
                    f()
            except BaseException as e:
                if e is not exc:
                    raise
            cut += 1
            r = check(num, n, root, [], ev[2], ev[3], "interrupted, repeated "
                      "add_defaults")
            ncmp += 1
            nadd += r
            sig.append("cut")
        elif k == "take":
            exp = expected(root, [], ev[2])
            if exp is None:
                continue
            check(num, real[c].top(), root, [], ev[2], False)
            real[c] = add(real[c].top(), ev[2], False)
            rf[c] = (exp, [])
            sig.append("take")
        elif k == "verdict":
            if expected(root, [], "all") is None:
                continue
            n = real[c].top()
            a = accepts(n, ev[2])
            for ct in ("config", "all") if ev[2] == "all" else ("config",):
                b = accepts(add(n, ct, False), ev[2])
                if scn.get("model") and a != b:
                    # (a default value may violate its own restrictions)
                    root = rf[c][0]
                    full = ref.with_defaults(root, ct)
                    if bool(ref.validate(root, ev[2])) != bool(
                            ref.validate(full, ev[2])):
                        continue
                if a != b:
                    raise Violation(
                        "verdict-changed", f"event {num}: data are "
                        f"{'valid' if a else 'invalid'} ({ev[2]}), with "
                        f"defaults ({ct}) {'valid' if b else 'invalid'}")
            nv += 1
            sig.append(("v", a))
    st = {"compared": ncmp, "nodes_added": nadd, "verdicts": nv,
          "faults": {"interrupted addition": cut}}
    if ncmp >= 3:
        st["sig"] = core.digest(sig)
    return st
