"""C06: an interrupted operation does no harm and can be repeated."""
import json
import sys

from .. import core, env, ops, ref, sched, steps, world
from ..core import Violation

PROP = "C06"
RULE = ("seeded sequences of operations interrupted at a chosen line of the "
        "library (by an injected exception, a small recursion limit or an "
        "exception from an output filter), then repeated; non-trivial: at "
        "least one interruption fired; distinct by the lines of interruption "
        "and the operations")
REAL = ["yangson (all of it)", "the comparison process: a fork of the parent "
        "with a loaded and otherwise unused data model"]
STUB = ["clock", "locks", "asynchronous exceptions"]
LISTS = ("events",)
ASSUMPTIONS = ["asynchronous exceptions arrive between source lines",
               "one hand-written data model"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (2200, 150) if tier == "quick" else (200000, 1500)


def gen(r, i, tier):
    nd = r.choice([1, 1, 2])
    if r.random() < .5:
        docs = ops.variants(r, nd)
    else:
        docs, _ = ops.gen_docs(r, nd)
    kinds = None
    if r.random() < .6:
        kinds = r.sample(sorted(ops.KINDS), r.choice([1, 2])) + \
            r.choice([["validate"], ["defaults"], ["steps"], []])
    ev = []
    n = r.choice([2, 3, 5]) if tier == "quick" else r.choice([4, 8, 15])
    for _ in range(n):
        op = ops.gen_op(r, docs, kinds, extra=["pickle"])
        if r.random() < .02:
            op = ["load", "lib.json"]
        x = r.random()
        if x < .75:
            # early lines matter most while the model is fresh
            frac = r.random() * r.choice([1, 1, 1, .1, .01])
            ev.append(["cut", op, frac, r.choice(sorted(world.EXCS))])
        elif x < .9:
            ev.append(["deep", op, r.choice([0, 1, 2, 3, 5, 8, 13, 20, 30])])
        else:
            i = r.randrange(nd)
            op = [r.choice(["filtered", "xmlfiltered"]), i, r.choice("abc")]
            ev.append(["filter", op, r.choice([1, 2, 3, 5, 9, 20, 50])])
        for _ in range(r.choice([0, 0, 1, 2])):
            ev.append(["op", ops.gen_op(r, docs, kinds)])
    ev.append(["op", ["validate", 0, "all", "config"]])
    return {"docs": docs, "events": ev}


class Cursor:
    """The operation under interruption, on the common context."""

    def __init__(self, ctx, op):
        self.ctx, self.op = ctx, op

    def raw(self):
        return ops._do(self.ctx, self.op)


def depth():
    f, n = sys._getframe(), 0
    while f:
        n += 1
        f = f.f_back
    return n


def interrupted(ctx, ev, st8):
    """Run an operation with an interruption.  Returns (fired, where) or the
    outcome if nothing was interrupted."""
    kind, op = ev[0], ev[1]
    if kind == "cut":
        n = core.isolated(lambda: sched.count_lines(
            lambda: ops.do(ctx, op)))
        if not n:
            return None
        exc = world.EXCS[ev[3]]("injected")
        it = sched.Interrupt(int(ev[2] * n), exc)
        try:
            with it:
                ops._do(ctx, op)
        except BaseException as e:
            if it.fired and e is not exc:
                raise Violation(
                    "wrong-exception", f"{op} interrupted by {ev[3]} at "
                    f"{it.fired} raised {type(e).__name__}: {e}")
            if not it.fired and not isinstance(e, Exception):
                raise
        else:
            if it.fired:
                # edits and other results inside a sequence of steps are
                # caught by the harness, elsewhere nothing may be swallowed
                if op[0] not in ("steps", "probe", "pickle"):
                    raise Violation("swallowed", f"{op} interrupted by "
                                    f"{ev[3]} at {it.fired} went on")
        if it.fired:
            st8["faults"][ev[3]] = st8["faults"].get(ev[3], 0) + 1
        return it.fired
    if kind == "deep":
        old = sys.getrecursionlimit()
        try:
            sys.setrecursionlimit(depth() + 6 + ev[2])
            try:
                ops._do(ctx, op)
            finally:
                sys.setrecursionlimit(old)
        except RecursionError:
            st8["faults"]["recursion_limit"] = \
                st8["faults"].get("recursion_limit", 0) + 1
            return ("recursion", ev[2])
        except Exception:
            pass
        return None
    f = ops.NameFilter(op[2], fail=ev[2])
    try:
        n = ctx.inst[op[1]]
        n.raw_value(filter=f) if op[0] == "filtered" else n.to_xml(filter=f)
    except world.Injected:
        st8["faults"]["filter_exception"] = \
            st8["faults"].get("filter_exception", 0) + 1
        return ("filter", ev[2])
    except Exception:
        pass
    return None


def look(ctx):
    return [[n.raw_value(), [list(m) for m in n.path]] for n in ctx.inst]


def run(scn):
    docs = scn["docs"]
    fresh = core.Pristine(lambda op: norm(ops.do(ops.Ctx(dm, docs), op)))
    ctx = ops.Ctx(dm, docs)
    want = core.isolated(lambda: norm(look(ctx)))
    st = {"faults": {}, "operations": 0, "repeated": 0}
    sig = []
    memo = {}

    def expected(op):
        k = json.dumps(op)
        if k not in memo:
            memo[k] = fresh.ask(op)
        return memo[k]
    done = []
    for num, ev in enumerate(scn["events"]):
        op = ev[1]
        where = ""
        if ev[0] != "op":
            fired = interrupted(ctx, ev, st)
            if fired:
                sig.append((op[0], fired))
                where = f"after {ev[0]} {ev[2:]} at {fired}: "
                st["repeated"] += 1
        got = norm(ops.do(ctx, op))
        st["operations"] += 1
        exp = expected(op)
        if got != exp:
            raise Violation("harmed", f"event {num} {where}{op}: "
                            f"{short(got)} instead of {short(exp)}")
        done.append(op)
        if norm(look(ctx)) != want:
            raise Violation("instance-changed", f"event {num} {where}{op}")
    for op in done:
        got = norm(ops.do(ctx, op))
        if got != expected(op):
            raise Violation("harmed", f"at the end, {op}: {short(got)} "
                            f"instead of {short(expected(op))}")
    if sig:
        st["sig"] = [core.digest(s) for s in sig]
    return st


def norm(x):
    return json.loads(json.dumps(x, default=str))


def short(x):
    x = str(x)
    return x if len(x) < 600 else x[:300] + " ... " + x[-300:]
