"""C20: models in one process do not influence each other."""
import gc
import json

from .. import core, env, mgen, ops, ref, sched, variants
from ..core import Violation
from .c04 import gen_mode

PROP = "C20"
RULE = ("seeded histories of loading, using and dropping two to six data "
        "models that differ in modules, revisions, features, deviations or "
        "contents under the same names, sequentially and in threads; every "
        "result is compared with that of a process in which this model is "
        "the only one; non-trivial: at least 2 different models and 4 "
        "operations; distinct by events and outcomes")
REAL = ["yangson (all of it), with real threads run one at a time",
        "the comparison processes, each with one model only"]
STUB = ["clock", "locks", "thread scheduler"]
LISTS = ("events", "docs")
ASSUMPTIONS = ["the module sets are ten hand-written ones, generated ones "
               "and variations of these"]
MODELS = .4


def prepare(tier):
    pass        # this process must not load anything


def use_model(spec):
    pass


def budget(tier):
    return (800, 150) if tier == "quick" else (100000, 1500)


KINDS = [k for k in ops.KINDS if k != "load"]
NAMES = sorted(variants.VARIANTS)


def gen(r, i, tier):
    nd = r.choice([1, 2])
    docs = ops.variants(r, nd) if r.random() < .5 else ops.gen_docs(r, nd)[0]
    docs = [d if ref.decodable(ref.ROOT, d) else dict(ref.SIMPLE)
            for d in docs]
    pool = r.sample(NAMES, r.choice([2, 2, 3, 4]))
    if r.random() < .4:
        pool = [r.choice(["full", "undev"]), "alt"]
    others = []
    if mgen.CTX:
        docs = ops.gen_docs(r, nd)[0]
        others = [mgen.vary(mgen.CTX, r) if r.random() < .8 else
                  json.loads(json.dumps(mgen.gen(r)))
                  for _ in range(r.choice([1, 1, 2]))]
        others = [o for o in others if mgen.loads(o)] or [mgen.CTX]
        pool = ["gen0"] + [f"gen{j + 1}" for j in range(len(others))]
        if r.random() < .15:
            pool.append(r.choice(NAMES))
    kinds = None
    if r.random() < .5:
        kinds = r.sample(KINDS, r.choice([1, 2, 4])) + ["validate"]
    ev = [["load", r.choice(pool)], ["load", pool[0]], ["load", pool[-1]]]
    r.shuffle(ev)
    models = [e[1] for e in ev]
    ev = [["load", m] for m in models]
    if r.random() < .5:         # use some before the others are loaded
        ev.insert(r.choice([1, 2]), ["use", 0, ops.gen_op(r, docs, kinds)])
    n = r.choice([8, 14, 20]) if tier == "quick" else r.choice([20, 40])
    last = None
    for _ in range(n):
        x = r.random()
        m = r.randrange(len(models))
        if x < .62:
            # the same operation on different models, often
            op = last if last and r.random() < .5 else \
                ops.gen_op(r, docs, kinds)
            last = op
            ev.append(["use", m, op])
        elif x < .72:
            v = r.choice(pool)
            ev.append(["load", v])
            models.append(v)
        elif x < .78:
            ev.append(["badload", r.choice(pool), r.choice(
                ["nopath", "badlib", "cut", "revision", "twice"])])
        elif x < .83:
            ev.append(["drop", m])
        else:
            nt = r.choice([2, 2, 3])
            op = ops.gen_op(r, docs, kinds)
            ths = []
            for _ in range(nt):
                if r.random() < .05:
                    ths.append([-1, [["loadv", r.choice(pool)]]])
                else:
                    ths.append([r.randrange(len(models)),
                                [op if r.random() < .6 else
                                 ops.gen_op(r, docs, kinds)]])
            ev.append(["threads", ths, gen_mode(r, nt)])
    return {"docs": docs, "events": ev, "others": others}


class Ctx(ops.Ctx):
    def __init__(self, dm, docs):
        self.dm = dm
        self.inst = []
        for d in docs:
            try:
                self.inst.append(dm.from_raw(d))
            except Exception:       # not readable by this model
                self.inst.append(dm.from_raw(dict(ref.SIMPLE)))


def do(ctx, op):
    if op[0] == "loadv":
        dm = variants.load(op[1])
        return ["ok", [dm.schema_digest(), dm.module_set_id()]]
    return ops.do(ctx, op)


def bad_load(name, how):
    with variants.material(name) as (txt, path):
        bad_load_(txt, path, how)


def bad_load_(txt, path, how):
    from yangson import DataModel
    lib = json.loads(txt)
    mods = lib[variants.MS]["module"]
    if how == "nopath":
        path = ["/nonexistent"]
    elif how == "badlib":
        mods[-1].pop("name")
    elif how == "cut":
        txt = txt[:len(txt) // 2]
        DataModel(txt, tuple(path))
    elif how == "revision":
        mods[-1]["revision"] = "1999-01-01"
    else:
        mods.append(dict(mods[0], revision="2001-01-01"))
    DataModel(json.dumps(lib), tuple(path))


def run(scn):
    docs = scn["docs"]
    servers = {}
    memo = {}
    variants.GEN.clear()
    if scn.get("model"):
        for j, sp in enumerate([scn["model"]] + scn["others"]):
            variants.GEN[f"gen{j}"] = sp

    def server(name):
        if name not in servers:
            box = {}
            mine = [variants.prune(d, name) for d in docs]

            def load():
                box["dm"] = variants.load(name)

            def answer(op):
                return norm(do(Ctx(box["dm"], mine), op))
            servers[name] = core.Pristine(answer, load)
        return servers[name]

    def expected(name, op):
        k = json.dumps([name, op])
        if k not in memo:
            memo[k] = server(name).ask(op)
        return memo[k]
    names = [e[1] for e in scn["events"] if e[0] == "load"]
    for t in [t for e in scn["events"] if e[0] == "threads"
              for t in e[1] if t[0] < 0]:
        names.append(t[1][0][1])
    for n in sorted(set(names)):    # before anything is loaded here
        server(n)
    ctxs, kind = [], []
    sig = []
    st = {"operations": 0, "loads": 0, "faults": {}}
    used = set()

    def fault(k, n=1):
        st["faults"][k] = st["faults"].get(k, 0) + n

    def compare(ctx, m, op, got, trace=None):
        exp = expected(kind[m] if m >= 0 else op[1], op)
        st["operations"] += 1
        if m >= 0:
            used.add(kind[m])
        sig.append((kind[m] if m >= 0 else op[1], op[0], got[0]))
        if got != exp:
            raise Violation(
                "influenced", f"{ctx}: model {m} "
                f"({kind[m] if m >= 0 else op[1]}) {op}: {short(got)} "
                f"instead of {short(exp)}", trace=trace)

    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        ctx = f"event {num}"
        if k == "load":
            ctxs.append(Ctx(variants.load(ev[1]), [
                variants.prune(d, ev[1]) for d in docs]))
            kind.append(ev[1])
            st["loads"] += 1
        elif k == "use":
            if ev[1] >= len(ctxs) or ctxs[ev[1]] is None:
                continue
            compare(ctx, ev[1], ev[2], norm(do(ctxs[ev[1]], ev[2])))
        elif k == "badload":
            try:
                bad_load(ev[1], ev[2])
            except Exception:
                fault("failed_load")
        elif k == "drop":
            if ev[1] < len(ctxs):
                ctxs[ev[1]] = None
                gc.collect()
        elif k == "threads":
            ths = [t for t in ev[1] if t[0] < 0 or t[0] < len(ctxs)
                   and ctxs[t[0]] is not None]
            if len(ths) < 2:
                continue
            fns = [lambda t=t: [do(ctxs[t[0]] if t[0] >= 0 else None, op)
                                for op in t[1]] for t in ths]
            mode = ev[2]
            if "at" in mode:
                mode = dict(mode, points=[int(x * 20000) + 1
                                          for x in mode["at"]])
            s = sched.Sched(fns, mode)
            try:
                got = s.run()
            except sched.Deadlock as e:
                raise Violation("deadlock", f"{ctx}: {e}") from None
            fault("preemption", len(s.trace) - len(ths))
            for t, g in zip(ths, got):
                if isinstance(g, BaseException):
                    raise Violation("thread-died", f"{ctx}: {g!r}")
                for op, o in zip(t[1], g):
                    compare(ctx + " in threads", t[0], op, norm(o))
    # at the end, everything once more
    for m, c in enumerate(ctxs):
        if c is not None:
            compare("at the end", m, ["digest"], norm(do(c, ["digest"])))
            op = ["defval", 0, "all"]
            compare("at the end", m, op, norm(do(c, op)))
    if len(used) >= 2 and st["operations"] >= 4:
        st["sig"] = core.digest(sig)
    return st


def norm(x):
    return json.loads(json.dumps(x, default=str))


def short(x):
    x = str(x)
    return x if len(x) < 600 else x[:300] + " ... " + x[-300:]
