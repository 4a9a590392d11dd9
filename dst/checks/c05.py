"""C05: results depend on the data only, not on what was done before."""
import json

from .. import core, env, ops, ref, steps, world
from ..core import Violation

PROP = "C05"
RULE = ("seeded histories of edits, queries and failing operations, followed "
        "by queries that are compared with a process in which nothing else "
        "happened; non-trivial: at least 3 operations before the last "
        "compared query; distinct by the sequence of operations and outcomes")
REAL = ["yangson (all of it)", "the comparison process: a fork of the parent "
        "with a loaded and otherwise unused data model"]
STUB = ["clock", "locks", "asynchronous exceptions"]
LISTS = ("events",)
ASSUMPTIONS = ["one hand-written data model"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (3800, 150) if tier == "quick" else (200000, 1500)


def gen(r, i, tier):
    nc = r.choice([1, 2, 3])
    kinds = None
    if r.random() < .5:
        kinds = r.sample(sorted(ops.KINDS), r.choice([2, 4])) + ["validate"]
    x = r.random()
    if x < .35:
        docs = ops.variants(r, nc)
    elif x < .65:
        docs = [ref.Gen(r, pbad=0).document(valid=True) for _ in range(nc)]
    else:
        docs, _ = ops.gen_docs(r, nc)
    often = r.random() < .4
    docs = [d for d in docs if not unprintable(d)] or [dict(ref.SIMPLE)]
    nc = len(docs)
    g = ref.Gen(r, pbad=r.choice([0, .05]), printable=True)
    ch = steps.Chooser(r, g, wild=r.choice([0, .05]), edits=2,
                       defaults=.05)
    cur = [(d, []) for d in docs]
    ev = []
    n = r.choice([6, 10, 16]) if tier == "quick" else r.choice([15, 30, 60])
    while len(ev) < n:
        x = r.random()
        if often and r.random() < .3:
            x = .75
        c = r.randrange(nc)
        if x < .4:
            root, path = cur[c]
            st = ch.step(root, path)
            out = steps.apply_ref(root, path, st)
            if isinstance(out, steps.Skip):
                continue
            ev.append(["step", c, st])
            if isinstance(out, steps.Ok):
                cur[c] = (out.root, out.path)
        elif x < .7:
            tops = [u[0] for u in cur]
            ev.append(["query", ops.gen_op(r, tops, kinds)])
        elif x < .78:
            # the same query before and after a change somewhere
            tops = [u[0] for u in cur]
            op = ops.gen_op(r, tops, r.choice([
                kinds, ["validate", "deref", "defaults"]]))
            if r.random() < .6:
                op = ["validate", c, r.choice(["all", "semantics"]),
                      r.choice(["config", "all"])]
            ev.append([r.choice(["query", "query", "same"]), op])
            for st in steps.disturb(r, g, cur[c][0]):
                out = steps.apply_ref(*cur[c], st)
                if isinstance(out, steps.Skip):
                    break
                ev.append(["step", c, st])
                if isinstance(out, steps.Ok):
                    cur[c] = (out.root, out.path)
            ev.append(["same", op])
        elif x < .95:
            tops = [u[0] for u in cur]
            ev.append(["same", ops.gen_op(r, tops, kinds, extra=["pickle"])])
        else:
            ev.append(["other", r.choice(["load"])])
    return {"docs": docs, "events": ev}


def unprintable(v, n=ref.ROOT):
    """Contains unknown bits, which have no raw form."""
    if isinstance(v, dict):
        return any(unprintable(x) for x in v.values())
    if isinstance(v, list):
        return any(unprintable(x) for x in v)
    return v == "read fly"


def run(scn):
    docs = scn["docs"]
    fresh = core.Pristine(
        lambda q: norm(ops.do(ops.Ctx(dm, q[0]), q[1])))
    ctx = ops.Ctx(dm, docs)
    pos = list(ctx.inst)
    rf = [(d, []) for d in docs]
    sig = []
    n = same = 0
    lastcmp = 0
    rw = world.Real(dm)
    for num, ev in enumerate(scn["events"]):
        if ev[0] == "step":
            c = ev[1]
            if c >= len(pos):
                continue
            try:
                exp = steps.apply_ref(*rf[c], ev[2])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(pos[c], ev[2])
            sig.append((ev[2][0], out[0]))
            if not world.agrees(out, exp):
                break              # (not the business of this check)
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                pos[c] = out[1]
                ctx.inst[c] = out[1].top()
                rf[c] = (exp.root, exp.path)
        elif ev[0] == "query":
            out = ops.do(ctx, ev[1])
            sig.append((ev[1][0], out[0]))
        elif ev[0] == "other":
            env.load()
            sig.append("load")
        else:
            try:
                raws = [world.raw_of(t, q[0]) for t, q in zip(ctx.inst, rf)]
            except world.NoRaw:
                break
            was = [t.raw_value() for t in ctx.inst]
            got = norm(ops.do(ctx, ev[1]))
            exp = fresh.ask([raws, ev[1]])
            sig.append((ev[1][0], got[0]))
            same += 1
            lastcmp = n
            if got != exp:
                raise Violation(
                    "depends-on-history", f"event {num} {ev[1]}: "
                    f"{short(got)}, on a fresh model {short(exp)}")
            for a, t in zip(was, ctx.inst):
                if t.raw_value() != a:
                    raise Violation("query-changed-data",
                                    f"event {num} {ev[1]}")
        n += 1
    st = {"operations": n, "compared": same}
    if lastcmp >= 3:
        st["sig"] = core.digest(sig)
    if n < 12:
        st["sample"] = str(scn["events"])[:800]
    return st


def norm(x):
    return json.loads(json.dumps(x, default=str))


def short(x):
    x = str(x)
    return x if len(x) < 600 else x[:300] + " ... " + x[-300:]
