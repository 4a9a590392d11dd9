"""C02: histories of moves and edits agree with a plain JSON tree."""
from .. import core, env, ref, steps, world
from ..core import Violation

PROP = "C02"
RULE = ("seeded histories of several clients over one document; a history is "
        "non-trivial if it made at least 3 edits and 3 moves; distinct by the "
        "sequence of (operation, kind of node, outcome)")
REAL = ["yangson instances, schema and data types", "identifier parsers",
        "YANG parser and model loading (in the parent process)"]
STUB = ["clock (simulated)", "locks (simulated)",
        "asynchronous exceptions (injected)"]
LISTS = ("events",)
ASSUMPTIONS = ["one hand-written data model (yang/sim-*.yang)",
               "cooked values handed over are made by the schema itself"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (3500, 150) if tier == "quick" else (400000, 1500)


def gen(r, i, tier):
    state = r.random() < .4
    meta = r.random() < .25
    g, doc = world.gen_doc(r, state=state, meta=meta)
    ch = steps.Chooser(r, g, wild=r.choice([0, .03, .1]),
                       edits=r.choice([.5, 1, 2]),
                       defaults=0 if meta else .02)
    nc = r.choice([1, 2, 3])
    n = r.choice([12, 25, 40]) if tier == "quick" else r.choice([25, 60, 120])
    ev = world.gen_events(r, nc, n, ch, doc)
    return {"doc": doc, "clients": nc, "events": ev}


def run(scn):
    rw = world.Real(dm)
    doc = scn["doc"]
    top = dm.from_raw(doc)
    world.compare(dm, top, doc, [], "start")
    real = [top] * scn["clients"]
    rf = [(doc, [])] * scn["clients"]
    st8 = {"steps": 0, "edits": 0, "refused": 0, "faults": {}, "ops": {}}
    sig = []
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        ctx = f"event {num}"
        if k == "clock":
            rw.clock(ev[1])
            continue
        c = ev[1]
        if k == "branch":
            real[c], rf[c] = real[ev[2]], rf[ev[2]]
            continue
        if k == "reset":
            real[c], rf[c] = top, (doc, [])
            continue
        st = ev[2]
        root, path = rf[c]
        try:
            exp = steps.apply_ref(root, path, st)
        except (KeyError, IndexError, TypeError):
            continue          # (only in cut-down scenarios)
        if isinstance(exp, steps.Skip):
            continue
        if k == "fault":
            out = rw.faulted(real[c], st, ev[3], ev[4])
            if out[0] == "fired":
                world.compare(dm, real[c], root, path,
                              ctx + f" after interrupt at {out[1]}")
                continue
            if out[0] != "swallowed":
                world.check_step(st, out, exp, ctx)
            continue          # the client stays where it was
        else:
            out = rw.step(real[c], st)
        world.check_step(st, out, exp, ctx)
        st8["steps"] += 1
        st8["ops"][st[0]] = st8["ops"].get(st[0], 0) + 1
        n, ent = steps.kind_at(root, path)
        sig.append((st[0], n.kind if n else "any", ent, out[0]))
        if isinstance(exp, steps.Refused):
            st8["refused"] += 1
            world.compare(dm, real[c], root, path, ctx + " after refusal",
                          back=False)
            continue
        st8["edits"] += st[0] in ("put", "del", "update", "merge", "insb",
                                  "insa", "defaults")
        real[c], rf[c] = out[1], (exp.root, exp.path)
        world.compare(dm, real[c], exp.root, exp.path, f"{ctx} {st}")
    # the whole tree of every client, by walking up and by identifiers
    for c in range(scn["clients"]):
        node = real[c]
        root, path = rf[c]
        for j in range(len(path), -1, -1):
            world.compare(dm, node, root, path[:j], f"end, client {c}")
            if j:
                node = node.up()
        if not any(root is rf[d][0] for d in range(c)):
            walk(node, root, [], 0)
    st8["faults"] = dict(rw.nfault, clock_jump=rw.nclock)
    st8["simulated_seconds"] = rw.simtime
    if st8["edits"] >= 3 and st8["steps"] - st8["edits"] >= 3:
        st8["sig"] = core.digest(sig)
    if len(sig) < 30:
        st8["sample"] = {"doc": str(scn["doc"])[:300],
                         "events": str(scn["events"])[:900]}
    return st8


def walk(node, root, path, depth):
    """Visit the tree by names, entries, siblings and neighbours."""
    n, ent = steps.kind_at(root, path)
    if n is None or n.kind == "anydata":
        return
    world.compare(dm, node, root, path, "walk",
                  whole=depth == 0)
    v = ref.get(root, path)
    if isinstance(v, dict):
        mem = [m for m in v if m[0] != "@"]
        if sorted(node) != sorted(mem):
            raise Violation("wrong-iteration", f"{list(node)} {mem}")
        for m in mem:
            walk(node[m], root, path + [m], depth + 1)
        if len(mem) > 1:
            sib = node[mem[0]].sibling(mem[-1])
            world.compare(dm, sib, root, path + [mem[-1]], "sibling",
                          whole=False)
    elif isinstance(v, list) and n.kind in ("list", "leaflist") and not ent:
        es = list(node)
        if len(es) != len(v):
            raise Violation("wrong-iteration", f"{len(es)} {len(v)}")
        for i, e in enumerate(es):
            walk(e, root, path + [i], depth + 1)
        if v:
            e = node[-1]
            for i in range(len(v) - 1, -1, -1):
                world.compare(dm, e, root, path + [i], "previous", back=False)
                if i:
                    e = e.previous()
