"""C04: threads sharing a model and instances get the results they get alone."""
import json

from .. import core, env, ops, ref, sched
from ..core import Violation

PROP = "C04"
RULE = ("seeded thread schedules; a run is non-trivial if at least 2 threads "
        "were pre-empted inside the library; distinct by the sequence of "
        "operations and the set of pre-emption sites")
REAL = ["yangson (all of it), with real threads run one at a time"]
STUB = ["thread scheduler (seeded, source line granularity)", "locks", "clock"]
LISTS = ("threads", "threads.*", "mode.switches", "warm")
ASSUMPTIONS = ["pre-emption between source lines and at calls, not between "
               "byte codes of one line", "one hand-written data model"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (1600, 150) if tier == "quick" else (400000, 1500)


def gen_mode(r, nthreads):
    seed = r.randrange(1 << 30)
    x = r.random()
    if x < .55:
        return {"kind": "walk", "seed": seed,
                "p": r.choice([.5, .5, .2, .05, .01, .002])}
    # change points as fractions of the length of the execution
    return {"kind": "pct", "seed": seed,
            "at": sorted(r.random() * r.choice([1, 1, .2, .02])
                         for _ in range(r.choice([1, 2, 3, 6])))}


def gen(r, i, tier):
    nt = r.choice([2, 2, 2, 3, 4])
    if r.random() < .6:
        # the same work on slightly different data, starting together
        docs = ops.variants(r, nt)
        k = r.choice(["validate"] * 5 + ["defaults", "defval", "from_raw",
                                         "xml", "steps", "from_xml", "raw"])
        threads = []
        op = ops.gen_op(r, docs, [k])
        for t in range(nt):
            o = list(op)
            if k == "from_raw":
                o[1] = docs[t]
            elif k == "from_xml":
                o[1] = ops.toxml(ref.no_any(docs[t]))
            elif k == "steps":
                o = ops.gen_op(r, docs[:1], [k])
            else:
                o[1] = t
            threads.append([o] * r.choice([1, 1, 2]))
        warm = [] if r.random() < .6 else [list(threads[0][0])]
        return {"docs": docs, "threads": threads, "warm": warm,
                "mode": gen_mode(r, nt)}
    docs, _ = ops.gen_docs(r, r.choice([1, 1, 2]))
    # swarm: few kinds of operations per run make collisions likely
    kinds = r.sample(sorted(ops.KINDS), r.choice([1, 2, 3, 6]))
    common = [ops.gen_op(r, docs, kinds) for _ in range(3)]
    threads = []
    for _ in range(nt):
        th = []
        for _ in range(r.choice([1, 1, 2, 3])):
            th.append(r.choice(common) if r.random() < .4
                      else ops.gen_op(r, docs, kinds))
        threads.append(th)
    warm = [ops.gen_op(r, docs) for _ in range(r.choice([0, 0, 0, 2]))]
    return {"docs": docs, "threads": threads, "warm": warm,
            "mode": gen_mode(r, nt)}


def alone(docs, oplist, memo):
    """Results of the operations, each alone on a fresh model."""
    res = []
    for op in oplist:
        k = json.dumps(op)
        if k not in memo:
            memo[k] = core.isolated(lambda: ops.do(ops.Ctx(dm, docs), op))
        res.append(memo[k])
    return res


def run(scn):
    docs, threads = scn["docs"], scn["threads"]
    if len(threads) < 1:
        return {}
    memo = {}
    exp = [alone(docs, th, memo) for th in threads]
    mode = scn["mode"]
    if "at" in mode:
        n = core.isolated(lambda: length(scn))
        mode = dict(mode, points=[int(x * n) + 1 for x in mode["at"]])
    before = core.isolated(lambda: [n.raw_value()
                                    for n in ops.Ctx(dm, docs).inst])
    ctx = ops.Ctx(dm, docs)
    for op in scn["warm"]:
        ops.do(ctx, op)

    def body(th):
        def fn():
            return [ops.do(ctx, op) for op in th]
        return fn
    s = sched.Sched([body(t) for t in threads], mode)
    try:
        got = s.run()
    except sched.Deadlock as e:
        raise Violation("deadlock", str(e), trace=s.trace)
    for t, th in enumerate(threads):
        if isinstance(got[t], BaseException):
            raise Violation("thread-died", f"thread {t}: {got[t]!r}",
                            trace=s.trace)
        for j, op in enumerate(th):
            if norm(got[t][j]) != norm(exp[t][j]):
                raise Violation(
                    "different-result", f"thread {t} operation {op}: "
                    f"{short(got[t][j])} instead of {short(exp[t][j])}",
                    trace=s.trace)
    # nothing is left behind
    for t, th in enumerate(threads):
        for j, op in enumerate(th):
            g = ops.do(ctx, op)
            if norm(g) != norm(exp[t][j]):
                raise Violation(
                    "lasting-damage", f"after the threads, {op}: {short(g)} "
                    f"instead of {short(exp[t][j])}", trace=s.trace)
    for i, n in enumerate(ctx.inst):
        if n.raw_value() != before[i]:
            raise Violation("instance-changed", f"instance {i}",
                            trace=s.trace)
    st = {"switches": len(s.trace), "lines": s.step,
          "operations": sum(map(len, threads)),
          "faults": {"preemption": len(s.trace) - len(threads)},
          "modes": {scn["mode"]["kind"]: 1}}
    if len(s.sites) >= 2:
        st["sig"] = core.digest([[o[0] for o in th] for th in threads]
                                + sorted(s.sites))
    return st


def length(scn):
    """Number of pre-emption points of the threads run one after another."""
    ctx = ops.Ctx(dm, scn["docs"])
    for op in scn["warm"]:
        ops.do(ctx, op)
    s = sched.Sched([lambda th=th: [ops.do(ctx, op) for op in th] and None
                     for th in scn["threads"]], {"kind": "list",
                                                 "switches": []})
    s.run()
    return s.step


def norm(x):
    return json.loads(json.dumps(x, default=str))


def short(x):
    x = str(x)
    return x if len(x) < 500 else x[:250] + " ... " + x[-250:]


def concretise(scn, res):
    tr = (res.get("detail") or {}).get("trace")
    if not tr:
        return scn
    return dict(scn, mode={"kind": "list", "switches": tr})
