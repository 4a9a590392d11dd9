"""C17: validation counters count validations."""
import json
import re

from .. import core, dstore, env, ops, ref, sched, steps, world
from ..core import Violation

PROP = "C17"
RULE = ("seeded histories of interleaved clients of one model: edits, other "
        "operations, validations of any scope and of any subtree (also "
        "failing, interrupted, of operations and notifications), clearing; "
        "after every event the counters in the schema tree are compared "
        "with counts of instances made independently; non-trivial: at least "
        "3 validations; distinct by the sequence of events and outcomes")
REAL = ["yangson (all of it)"]
STUB = ["clock", "locks", "asynchronous exceptions"]
LISTS = ("events",)
ASSUMPTIONS = ["one hand-written data model"]
dm = None
MODELS = .4
OTHER = [k for k in ops.KINDS if k not in ("validate", "validate-at",
                                           "defval", "rpc", "probe")] + ["pickle",
                                                                "load"]


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (3600, 150) if tier == "quick" else (200000, 1500)


def gen(r, i, tier):
    nc = r.choice([1, 2, 3])
    state = r.random() < .4
    g = ref.Gen(r, pbad=r.choice([0, 0, .04]), state=state, meta=False,
                p=r.choice([.2, .4, .6]))
    ct = "all" if state else "config"
    docs = []
    for _ in range(nc):
        d = g.document(valid=r.random() < .8)
        if not ref.decodable(ref.ROOT, d):
            d = dict(ref.SIMPLE)
        docs.append(d)
    ch = steps.Chooser(r, g, wild=.02, edits=2, defaults=.03)
    cur = [(d, []) for d in docs]
    ev = []
    n = r.choice([6, 12, 20]) if tier == "quick" else r.choice([20, 40, 80])
    while len(ev) < n:
        x = r.random()
        c = r.randrange(nc)
        if x < .3:
            sts, cur[c] = dstore.gen_edits(r, g, ch, cur[c], ct)
            ev += [["step", c, s] for s in sts]
        elif x < .66:
            w = r.choice([ct, ct, ct, "config", "all"])
            at = r.choice(["top", "top", "cursor", "some"])
            if at == "some":
                ps = [p for p in ref.all_paths(cur[c][0])]
                at = list(r.choice(ps))
                kn, ent = steps.kind_at(cur[c][0], at)
                if kn is None:
                    at = []
            ev.append(["validate", c, at, r.choice(ops.SCOPES + ["all"]), w])
        elif x < .71:
            ev.append(["defval", c, ct])
        elif x < .77:
            ev.append(["cutval", c, ct, r.random(),
                       r.choice(sorted(world.EXCS))])
        elif x < .83 and ref.TOPNODES:      # (the simulated model)
            ev.append(["rpc"] + r.choice(ops.RPCS[:-1]))
        elif x < .88:
            ev.append(["clear"])
        else:
            tops = [u[0] for u in cur]
            ev.append(["query", ops.gen_op(r, tops, OTHER)])
    ev.append(["validate", 0, "top", "all", ct])
    return {"docs": docs, "events": ev}


LINE = re.compile(r"^((?:\|  |   )*)[+xo]--(.)(.) ?([^ {]+)(.*?)(?: \{(\d+)\})?$")


def local(s):
    return s.rsplit(":", 1)[-1].rstrip("?!*#")


def qual(s, stack):
    """Qualified name; in trees the parent's module is left out."""
    s = s.rstrip("?!*#").strip("()")
    if s.startswith(":") or ":" not in s:
        return stack[-1][0].rsplit(":", 1)[0] + ":" + s.lstrip(":")
    return s.lstrip(":")


def counters(dm):
    """Counters by the path of (qualified) names of data nodes."""
    out, stack = {}, []
    for line in dm.ascii_tree(no_types=True, val_count=True).splitlines():
        m = LINE.match(line)
        if not m:
            raise core.HarnessError("tree line " + line)
        depth = len(m[1]) // 3
        nm = m[4]
        del stack[depth:]
        if m[6] is None:                  # choice or case
            stack.append((qual(nm, stack), False))
            continue
        stack.append((qual(nm, stack), True))
        key = "/".join(x for x, data in stack if data)
        if key in out:
            raise core.HarnessError("ambiguous " + key)
        out[key] = int(m[6])
    return out


def walk(root, path=(), entry_of=None):
    """Number of instances by schema node in the subtree at `path`."""
    out = {}

    def add(names):
        k = "/".join(names)
        if k:
            out[k] = out.get(k, 0) + 1

    def one(n, v, names):
        add(names)
        if n.kind in ("root", "container", "list") and isinstance(v, dict):
            for m, x in v.items():
                if m[0] != "@":
                    k = n.data[m][0]
                    rec(k, x, names + [f"{k.ns}:{k.name}"])

    def rec(n, v, names):
        if n.kind in ("list", "leaflist"):
            for e in v:
                one(n, e, names)
        else:
            one(n, v, names)
    n, ent = steps.kind_at(root, list(path))
    names, x = [], ref.ROOT
    for p in path:
        if isinstance(p, str):
            x = x.data[p][0]
            names.append(f"{x.ns}:{x.name}")
    v = ref.get(root, path)
    if ent:
        one(n, v, names)
    else:
        rec(n, v, names)
    return out


def before_failure(root, base, at):
    """Instances in entries that come before the entry in which the
    validation of the subtree `base` failed."""
    out = {}
    for i in range(len(base), len(at) - 1):
        if isinstance(at[i], int):
            for j in range(at[i]):
                for k, c in walk(root, list(at[:i]) + [j]).items():
                    out[k] = out.get(k, 0) + c
    return out


def rpc_walk(name, d):
    out = {name: 1}
    for m, v in d.items():
        out[f"{name}/{m}"] = 1
        if isinstance(v, dict):
            for x in v:
                out[f"{name}/{m}/sim-a:{local(x)}"] = 1
    return out


def run(scn):
    from yangson.enumerations import ContentType, ValidationScope
    from yangson.exceptions import YangsonException
    rw = world.Real(dm)
    ctx = ops.Ctx(dm, scn["docs"])
    real = list(ctx.inst)
    rf = [(d, []) for d in scn["docs"]]
    last = counters(dm)
    if any(last.values()):
        raise Violation("not-zero-at-first", str(last))
    sig = []
    nval = nok = cut = cleared = 0
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        lo = hi = {}                     # bounds of the increments
        if k == "step":
            c = ev[1]
            try:
                exp = steps.apply_ref(*rf[c], ev[2])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(real[c], ev[2])
            if not world.agrees(out, exp):
                return {"foreign_deviation": 1}
            sig.append(ev[2][0])
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                real[c], rf[c] = out[1], (exp.root, exp.path)
                ctx.inst[c] = out[1].top()
                if ev[2][0] == "defaults" and False:
                    pass
        elif k == "query":
            out = ops.do(ctx, ev[1])
            sig.append((ev[1][0], out[0]))
        elif k == "clear":
            dm.clear_val_counters()
            cleared += 1
            now = counters(dm)
            if any(now.values()):
                raise Violation("not-cleared", f"event {num}: {nz(now)}")
            last = now
            sig.append("clear")
        elif k == "rpc":
            inst = dm.from_raw(json.loads(json.dumps(ev[2])), subschema=ev[1])
            full = rpc_walk(ev[1], ev[2])
            ok = valid(lambda: inst.validate(ctype=ContentType.all))[0]
            lo, hi = (full if ok else {}), full
            nval += 1
            sig.append(("rpc", ok))
        elif k == "cutval":
            n = real[ev[1]].top()
            hi = walk(rf[ev[1]][0])
            f = (lambda: n.validate(ctype=ContentType[ev[2]]))
            lines = core.isolated(lambda: sched.count_lines(
                lambda: valid(f)))
            exc = world.EXCS[ev[4]]("injected")
            try:
                with sched.Interrupt(int(ev[3] * lines), exc):
                    valid(f)
            except BaseException as e:
                if e is not exc:
                    raise
            cut += 1
            sig.append("cut")
        else:
            c = ev[1]
            root, path = rf[c]
            node = real[c]
            if k == "defval":
                node = node.top().add_defaults(ContentType.all)
                try:
                    root, path = world.raw_of(node, ref.with_defaults(root)), []
                except (world.NoRaw, ref.Clash, KeyError):
                    return {"foreign_deviation": 1}
                scope, ctype = "all", ev[2]
            else:
                scope, ctype = ev[3], ev[4]
                if ev[2] == "top":
                    node, path = node.top(), []
                elif ev[2] != "cursor":
                    path = list(ev[2])
                    node = node.top()
                    try:
                        for p in path:
                            node = node[p]
                    except (YangsonException, TypeError):
                        continue
            kn, _ = steps.kind_at(root, path)
            if kn is None:
                continue
            if scope == "semantics" and any(
                    v.cls == "YangTypeError" for v in
                    ref.validate(root, "all", "syntax")):
                continue
            hi = walk(root, path)
            ok, at = valid(lambda: node.validate(
                ValidationScope[scope], ContentType[ctype]))
            nval += 1
            nok += ok
            if ok:
                lo = hi
            elif at is not None and list(at[:len(path)]) == list(path):
                try:
                    lo = before_failure(root, path, at)
                except (KeyError, IndexError, TypeError):
                    lo = {}
            sig.append((scope, ok))
        now = counters(dm)
        if now.keys() != last.keys():
            raise Violation("tree-changed", f"event {num}")
        for x in now:
            d = now[x] - last[x]
            if not lo.get(x, 0) <= d <= hi.get(x, 0):
                raise Violation(
                    "wrong-count", f"event {num} {str(ev)[:300]}: counter of "
                    f"{x} grew by {d}, expected between {lo.get(x, 0)} and "
                    f"{hi.get(x, 0)}")
        last = now
    st = {"validations": nval, "valid": nok, "cleared": cleared,
          "faults": {"interrupted validation": cut}}
    if nval >= 3:
        st["sig"] = core.digest(sig)
    return st


def nz(d):
    return {k: v for k, v in d.items() if v}


def valid(fn):
    from yangson.exceptions import YangsonException
    try:
        fn()
        return True, None
    except YangsonException as e:
        i = getattr(e, "instance", None)
        return False, tuple(i.path) if i is not None else None
