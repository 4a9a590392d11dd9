"""C03: validation lets through exactly the states that satisfy the model."""
import json

from .. import core, dstore, env, ops, ref, sched, steps, world
from ..core import Violation

PROP = "C03"
RULE = ("seeded histories of interleaved clients whose edits break, repair "
        "and vary the data, with validation (whole tree or subtree, every "
        "scope and content type, also interrupted and repeated) at any "
        "point; every verdict is compared with an independent evaluation "
        "of all constraints; non-trivial: at least 3 verdicts; distinct by "
        "the sequence of edits and verdicts")
REAL = ["yangson validation, XPath, data types, instances"]
STUB = ["clock", "locks", "asynchronous exceptions"]
LISTS = ("events",)
ASSUMPTIONS = ["one hand-written data model with its constraints restated "
               "as Python predicates (dst/ref.py)"]
dm = None
MODELS = .4

RPC_CASES = [
    ["sim-a:reset", {"sim-a:input": {"delay": 3}}, None],
    ["sim-a:reset", {"sim-a:input": {"force": [None], "delay": 600}}, None],
    ["sim-a:reset", {"sim-a:input": {}}, None],
    ["sim-a:reset", {"sim-a:input": {"delay": 601}},
     ["YangTypeError", ["sim-a:input", "delay"], "invalid-type"]],
    ["sim-a:reset", {"sim-a:output": {"done": True}}, None],
    ["sim-a:reset", {"sim-a:output": {}},
     ["SchemaError", ["sim-a:output"], "missing-data"]],
    ["sim-a:alarm", {"sim-a:what": "x"}, None],
    ["sim-a:alarm", {}, ["SchemaError", [], "missing-data"]],
]


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (4500, 150) if tier == "quick" else (300000, 1500)


def gen(r, i, tier):
    state = r.random() < .35
    g = ref.Gen(r, pbad=r.choice([0, 0, .03, .1]), state=state,
                meta=r.random() < .2, p=r.choice([.2, .4, .6]))
    ct = "all" if state else "config"
    doc = g.document(valid=r.random() < .8)
    if r.random() < .2:
        doc = ops.variants(r, 1)[0]
    if not ref.decodable(ref.ROOT, doc):
        doc = ref.Gen(r, pbad=0).document(valid=True)
    ch = steps.Chooser(r, g, wild=r.choice([0, .04]), edits=2,
                       defaults=0 if g.meta else .03)
    nc = r.choice([1, 1, 2, 3])
    cur = [(doc, [])] * nc
    ev = []
    n = r.choice([8, 14, 24]) if tier == "quick" else r.choice([20, 40, 80])
    for _ in range(n):
        x = r.random()
        c = r.randrange(nc)
        if x < .55:
            sts, cur[c] = dstore.gen_edits(r, g, ch, cur[c], ct)
            ev += [["step", c, s] for s in sts]
        elif x < .85:
            ev.append(["validate", c, r.random() < .75,
                       r.choice(ops.SCOPES),
                       r.choice([ct, ct, ct, "config", "all"])])
        elif x < .87:
            ev += [["spot", c] + s for s in spots(r, cur[c][0], state)]
        elif x < .9:
            ev.append(["cutval", c, ct, r.random(),
                       r.choice(sorted(world.EXCS))])
        elif x < .93 and nc > 1:
            o = r.randrange(nc)
            ev.append(["branch", c, o])
            cur[c] = cur[o]
        elif x < .96:
            ev.append(["restart", c])
        elif ref.TOPNODES:      # (the simulated model)
            ev.append(["rpc", r.randrange(len(RPC_CASES))])
    for c in range(nc):
        ev.append(["validate", c, True, "all", ct])
    return {"doc": doc, "clients": nc, "events": ev}


def spots(r, root, state):
    """Places for one other value: [path, value] for each."""
    holes = []
    for p in ref.all_paths(root):
        v = ref.get(root, p)
        n = steps.kind_at(root, p)[0]
        if not isinstance(v, dict) or not hasattr(n, "data"):
            continue
        for m, (k, _, _) in n.data.items():
            if k.kind not in ("leaf", "leaflist") or m in getattr(
                    n, "keys", ()) or not (k.config or state):
                continue
            if k.kind == "leaf":
                holes.append((list(p) + [m], k))
            elif v.get(m):
                holes.append((list(p) + [m, r.randrange(len(v[m]))], k))
    out = []
    for p, k in r.sample(holes, min(len(holes), 8)):
        v = k.type.bad(r) if r.random() < .7 else k.type.gen(r)
        if v is not None:
            out.append([p, v])
    return out


def at_path(root, path, ctype, scope):
    """Violations in the subtree at `path`, or None if not specified."""
    if not path:
        return ref.validate(root, ctype, scope)
    n, ent = steps.kind_at(root, path)
    if n is None:
        return None
    out = []
    v = ref.get(root, path)
    chain = ref.chain_to(root, path)
    if not ent:
        ref._member(n, v, ref.C(chain[:-1]), list(path), ctype, scope, out)
    elif n.kind == "list":
        c = ref.C(chain)
        if scope != "syntax":
            ref._must(n, c, list(path), out)
        ref._obj(n, v, c, list(path), ctype, scope, out)
    elif n.kind == "leaflist":
        ref._leaf(n, v, ref.C(chain), list(path), scope != "semantics",
                  scope != "syntax", out)
    else:
        return None
    return out


def verdict(fn):
    from yangson.exceptions import YangsonException
    try:
        fn()
        return None
    except YangsonException as e:
        i = getattr(e, "instance", None)
        tag = getattr(e, "tag", None)
        if tag and tag.startswith("data-not-unique"):
            tag = "data-not-unique"
        return (tuple(i.path) if i is not None else None,
                type(e).__name__, tag)


def run(scn):
    from yangson.enumerations import ContentType, ValidationScope
    rw = world.Real(dm)
    doc = scn["doc"]
    top = dm.from_raw(doc)
    real = [top] * scn["clients"]
    rf = [(doc, [])] * scn["clients"]
    nv, ok, nsteps, interrupted, restarts = 0, 0, 0, 0, 0
    sig, tags = [], {}
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        if k == "rpc":
            p, d, want = RPC_CASES[ev[1]]
            inst = dm.from_raw(json.loads(json.dumps(d)), subschema=p)
            got = verdict(lambda: inst.validate(ctype=ContentType.all))
            got = got and [got[1], list(got[0]), got[2]]
            if got != want:
                raise Violation("wrong-verdict", f"{p} {d}: {got} instead of "
                                f"{want}")
            continue
        c = ev[1]
        if k == "branch":
            real[c], rf[c] = real[ev[2]], rf[ev[2]]
        elif k == "restart":
            raw = json.loads(json.dumps(rf[c][0]))
            real[c], rf[c] = dm.from_raw(raw), (rf[c][0], [])
            restarts += 1
        elif k == "step":
            try:
                exp = steps.apply_ref(*rf[c], ev[2])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(real[c], ev[2])
            if not world.agrees(out, exp):
                return {"foreign_deviation": 1}      # not this property
            nsteps += 1
            sig.append(ev[2][0])
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                real[c], rf[c] = out[1], (exp.root, exp.path)
        elif k == "spot":
            try:
                new = ref.set_at(rf[c][0], ev[2], ev[3])
            except (KeyError, IndexError, TypeError):
                continue
            if not ref.decodable(ref.ROOT, new):
                continue
            r = check(num, dm.from_raw(json.loads(json.dumps(new))), new, [],
                      "all", "all", tags)
            if r is not None:
                nv += 1
                sig.append(r)
        elif k == "cutval":
            interrupted += 1
            n = real[c].top()
            f = (lambda: n.validate(ctype=ContentType[ev[2]]))
            lines = core.isolated(lambda: sched.count_lines(
                lambda: verdict(f)))
            exc = world.EXCS[ev[4]]("injected")
            try:
                with sched.Interrupt(int(ev[3] * lines), exc):
                    verdict(f)
            except BaseException as e:
                if e is not exc:
                    raise
            sig.append("cut")
            check(num, n, rf[c][0], [], "all", ev[2], tags)
        elif k == "validate":
            n = real[c].top() if ev[2] else real[c]
            path = [] if ev[2] else rf[c][1]
            r = check(num, n, rf[c][0], path, ev[3], ev[4], tags)
            if r is not None:
                nv += 1
                ok += r == "valid"
                sig.append(r)
    st = {"verdicts": nv, "valid": ok, "steps": nsteps,
          "tags": tags, "faults": {"interrupted validation": interrupted,
                                   "restart": restarts}}
    if nv >= 3:
        st["sig"] = core.digest(sig)
    return st


def check(num, node, root, path, scope, ctype, tags):
    from yangson.enumerations import ContentType, ValidationScope
    exp = at_path(root, path, ctype, scope)
    if exp is None:
        return None
    if scope == "semantics" and any(
            v.cls == "YangTypeError" for v in ref.validate(root, "all",
                                                           "syntax")):
        return None     # conditions on values that the types do not admit
    if scope == "semantics" or path:
        try:
            ref.with_defaults(root)
        except ref.Clash:
            return None     # (defaults in conditions are not determined)
    got = verdict(lambda: node.validate(ValidationScope[scope],
                                        ContentType[ctype]))
    what = f"event {num} {scope}/{ctype} at {path}"
    if got is None and exp:
        raise Violation("accepted-invalid", f"{what}: accepted although "
                        f"{exp[:6]}")
    if got is None:
        return "valid"
    if not exp:
        raise Violation("refused-valid", f"{what}: {got}")
    keys = {e.key() for e in exp}
    if got not in keys and (got[2] or got[:2] not in
                            {k[:2] for k in keys}):
        raise Violation("wrong-refusal", f"{what}: {got}; violated are "
                        f"{exp[:6]}")
    t = f"{got[1]}/{got[2]}"
    tags[t] = tags.get(t, 0) + 1
    return t
