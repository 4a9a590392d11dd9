"""C12: a dumped and restored model behaves like the original."""
import base64
import io
import json
import pickle

from .. import core, env, ops, ref, sched, steps, world
from ..core import Violation

PROP = "C12"
RULE = ("seeded lives of a data model: operations, dumps at any moment (also "
        "after failed and interrupted operations), dumps cut short or hitting "
        "a full disk, restores, and operations on originals and restored "
        "models in any interleaving, each compared with a model that was "
        "loaded afresh; non-trivial: a restored model did at least 3 "
        "operations; distinct by the sequence of events and outcomes")
REAL = ["yangson (all of it)", "pickle of the standard library",
        "the comparison process: a fork with a newly loaded data model"]
STUB = ["clock", "locks", "disk receiving the dump", "asynchronous exceptions"]
LISTS = ("events",)
MODELS = .4
ASSUMPTIONS = ["the data models are a hand-written one and generated ones"]
first = make = None


def prepare(tier):
    # this process never loads a model: what a restored model needs must be
    # in the dump
    setup(env.load)


def use_model(spec):
    from .. import mgen
    setup(lambda: mgen.load(spec))


def setup(how):
    global first, make
    make = how
    first = base64.b64decode(core.isolated(lambda: base64.b64encode(
        pickle.dumps(make())).decode()))


def budget(tier):
    return (1500, 150) if tier == "quick" else (120000, 1500)


KINDS = [k for k in ops.KINDS if k != "load"]


def gen(r, i, tier):
    nd = r.choice([1, 2, 2])
    docs = ops.variants(r, nd) if r.random() < .4 else ops.gen_docs(r, nd)[0]
    docs = [d if ref.decodable(ref.ROOT, d) else dict(ref.SIMPLE)
            for d in docs]
    kinds = None
    if r.random() < .5:
        kinds = r.sample(KINDS, r.choice([2, 4])) + ["validate"]
    # model 0 is the one loaded, or restored from the first dump
    ev = []
    models, dumps = 1, 1
    n = r.choice([10, 16, 24]) if tier == "quick" else r.choice([20, 40, 80])
    for _ in range(n):
        x = r.random()
        m = r.randrange(models)
        if x < .5:
            ev.append(["op", m, ops.gen_op(r, docs, kinds)])
        elif x < .62:
            ev.append(["dump", m, r.choice([2, 3, 4, 5, None, -1])])
            dumps += 1
        elif x < .76 and models < 5:
            ev.append(["restore", r.randrange(dumps), r.random() < .3])
            models += 1
        elif x < .84:
            ev.append(["torn", r.randrange(dumps), r.choice(
                [r.random(), r.random(), .999, .001, 0, 1])])
        elif x < .88:
            ev.append(["full", m, r.random()])
        elif x < .94:
            ev.append(["cut", m, ops.gen_op(r, docs, kinds), r.random(),
                       r.choice(sorted(world.EXCS))])
        else:
            ev.append(["cross", m, r.randrange(models), r.randrange(nd),
                       ["goto", steps.iid_of(docs[0], list(r.choice(
                           ref.all_paths(docs[0])))) or "/"]])
    ev.append(["restore", r.randrange(dumps), False])
    for _ in range(3):
        ev.append(["op", models, ops.gen_op(r, docs, kinds)])
    return {"docs": docs, "events": ev, "loaded": r.random() < .6}


class Disk(io.RawIOBase):
    """A file on a disk with little space."""

    def __init__(self, room):
        self.room, self.got = room, 0

    def writable(self): return True

    def write(self, b):
        n = len(b)
        if self.got + n > self.room:
            raise OSError(28, "No space left on device")
        self.got += n
        return n


def run(scn):
    docs = scn["docs"]
    cache = {}

    def load():
        cache["dm"] = make()

    def answer(op):
        return norm(ops.do(ops.Ctx(cache["dm"], docs), op))
    fresh = core.Pristine(answer, load)
    dumps = [[first, None, 0]]
    ctxs = []
    st = {"operations": 0, "dumps": 0, "restores": 0, "faults": {}}
    sig = []
    used = {}

    def fault(k):
        st["faults"][k] = st["faults"].get(k, 0) + 1

    def restore(b, ctx):
        try:
            dm = pickle.loads(b)
        except Exception as e:
            raise Violation("not-restored", f"{ctx}: {type(e).__name__}: {e}"
                            ) from None
        return dm

    memo = {}

    def expected(op):
        k = json.dumps(op)
        if k not in memo:
            memo[k] = fresh.ask(op)
        return memo[k]
    dm0 = make() if scn["loaded"] else restore(first, "first dump")
    ctxs.append(ops.Ctx(dm0, docs))
    restored = [not scn["loaded"]]
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        ctx = f"event {num}"
        if k == "op" or k == "cut":
            if ev[1] >= len(ctxs):
                continue
            c = ctxs[ev[1]]
            if k == "cut":
                exc = world.EXCS[ev[4]]("injected")
                total = core.isolated(
                    lambda: sched.count_lines(lambda: ops.do(c, ev[2])))
                it = sched.Interrupt(int(ev[3] * total), exc)
                try:
                    with it:
                        ops._do(c, ev[2])
                except BaseException as e:
                    if not it.fired and not isinstance(e, Exception):
                        raise
                if it.fired:
                    fault(ev[4])
                sig.append(("cut", ev[2][0], it.fired))
                continue
            got = norm(ops.do(c, ev[2]))
            exp = expected(ev[2])
            st["operations"] += 1
            sig.append((ev[1], ev[2][0], got[0]))
            used[ev[1]] = used.get(ev[1], 0) + 1
            if got != exp:
                raise Violation(
                    "behaves-differently", f"{ctx}: "
                    + ("restored" if restored[ev[1]] else "original")
                    + f" model {ev[1]} {ev[2]}: {short(got)} instead of "
                    f"{short(exp)}")
        elif k == "dump":
            if ev[1] >= len(ctxs):
                continue
            dm = ctxs[ev[1]].dm
            before = counts(dm)
            try:
                b = pickle.dumps(dm) if ev[2] is None else \
                    pickle.dumps(dm, ev[2])
            except Exception as e:
                raise Violation("not-dumped", f"{ctx}: {type(e).__name__}: "
                                f"{e}") from None
            if counts(dm) != before:
                raise Violation("dump-changed-model", ctx)
            dumps.append([b, before, ev[1]])
            st["dumps"] += 1
            sig.append("D")
        elif k == "restore":
            if ev[1] >= len(dumps):
                continue
            b, cnt, _ = dumps[ev[1]]
            dm = restore(b, ctx)
            if cnt is not None and counts(dm) != cnt:
                raise Violation("state-lost", f"{ctx}: validation counters "
                                "or the tree differ from the original")
            st["restores"] += 1
            fault("restart")
            ctxs.append(ops.Ctx(dm, docs))
            restored.append(True)
            if ev[2]:       # and once more
                dm2 = restore(pickle.dumps(dm), ctx)
                ctxs[-1] = ops.Ctx(dm2, docs)
            sig.append("R")
        elif k == "torn":
            if ev[1] >= len(dumps):
                continue
            b = dumps[ev[1]][0]
            n = min(int(len(b) * ev[2]), len(b) - 1)
            fault("torn_dump")
            try:
                dm = pickle.loads(b[:n])
            except Exception:
                sig.append("T")
                continue
            raise Violation("torn-dump-accepted", f"{ctx}: {n} of {len(b)} "
                            f"bytes give a {type(dm).__name__}")
        elif k == "full":
            if ev[1] >= len(ctxs):
                continue
            dm = ctxs[ev[1]].dm
            before = counts(dm)
            room = int(len(first) * ev[2])
            try:
                pickle.dump(dm, Disk(room), pickle.HIGHEST_PROTOCOL)
            except OSError:
                fault("disk_full")
                sig.append("F")
            if counts(dm) != before:
                raise Violation("dump-changed-model", ctx)
        elif k == "cross":
            # routes and values made by one model used with another
            if max(ev[1], ev[2]) >= len(ctxs) or ev[3] >= len(docs):
                continue
            a, b = ctxs[ev[1]], ctxs[ev[2]]
            op = ["goto", ev[3], ev[4][1]]
            exp = expected(op)
            mixed = ops.Ctx.__new__(ops.Ctx)
            mixed.dm, mixed.inst = b.dm, a.inst
            got = norm(ops.do(mixed, op))
            sig.append(("X", got[0]))
            if got != exp:
                raise Violation("behaves-differently", f"{ctx} {ev}: "
                                f"{short(got)} instead of {short(exp)}")
            v1, v2 = a.inst[ev[3]], b.inst[ev[3]]
            if v1.value != v2.value or hash(v1.value) != hash(v2.value):
                raise Violation("behaves-differently", f"{ctx}: values made "
                                "by the two models are not equal")
            n = v1.update(v2.value)
            if not ref.same(n.raw_value(), v1.raw_value()):
                raise Violation("behaves-differently", f"{ctx}: values of "
                                "the other model")
    if any(restored[m] and used[m] >= 3 for m in used):
        st["sig"] = core.digest(sig)
    return st


def counts(dm):
    return dm.ascii_tree(val_count=True)


def norm(x):
    return json.loads(json.dumps(x, default=str))


def short(x):
    x = str(x)
    return x if len(x) < 600 else x[:300] + " ... " + x[-300:]
