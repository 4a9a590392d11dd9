"""C01: instances are immutable snapshots, whatever is done afterwards."""
import json
import xml.etree.ElementTree as ET

from .. import core, env, ops, ref, sched, steps, world
from ..core import Violation

PROP = "C01"
RULE = ("seeded interleavings of clients that edit, query and get interrupted "
        "while other clients hold snapshots that are looked at again after "
        "every event; non-trivial: at least 4 held snapshots and 5 "
        "operations; distinct by the sequence of operations and outcomes")
REAL = ["yangson instances, values, schema and data types"]
STUB = ["clock", "locks", "asynchronous exceptions"]
LISTS = ("events",)
ASSUMPTIONS = ["one hand-written data model",
               "cooked values handed out are not modified by the caller"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (2800, 150) if tier == "quick" else (200000, 1500)


def gen(r, i, tier):
    nc = r.choice([1, 2, 3])
    meta = r.random() < .4
    if r.random() < .25:
        docs = ops.variants(r, 1)
    else:
        docs, _ = ops.gen_docs(r, 1, meta=meta, pbad=0)
    doc = docs[0]
    g = ref.Gen(r, pbad=0, meta=meta)
    ch = steps.Chooser(r, g, wild=r.choice([0, .05]), edits=r.choice([1, 2]),
                       defaults=.05)
    cur = [(doc, []) for _ in range(nc)]
    ev = []
    n = r.choice([10, 16, 25]) if tier == "quick" else r.choice([25, 50, 90])
    often = r.random() < .2     # many defaults
    while len(ev) < n:
        x = r.random()
        if often and r.random() < .3:
            x = .76
        c = r.randrange(nc)
        root, path = cur[c]
        if x < .5:
            st = ch.step(root, path)
            out = steps.apply_ref(root, path, st)
            if isinstance(out, steps.Skip):
                continue
            ev.append(["step", c, st, r.random() < .3])
            if isinstance(out, steps.Ok):
                cur[c] = (out.root, out.path)
        elif x < .6:
            st = ch.step(root, path)
            if isinstance(steps.apply_ref(root, path, st), steps.Skip):
                continue
            ev.append(["cut", c, st, r.random(), r.choice(sorted(world.EXCS))])
        elif x < .75:
            ev.append(["query", c, ops.gen_op(r, [root])])
        elif x < .79:
            ev.append(["tag", c, r.choice([None, "config", "all"]),
                       r.random() < .6])
            if r.random() < .5:
                ev.append(["tag", c, ev[-1][2], not ev[-1][3]])
        elif x < .84:
            ev.append(["spoil-output", c])
        elif x < .88:
            o = r.randrange(nc)
            ev.append(["branch", c, o])
            cur[c] = cur[o]
        elif x < .9 and meta:
            ev.append(["orphan", c, r.choice([None, "config", "all"]),
                       r.random() < .8])
        elif x < .93:
            ev.append(["clock", world.clock_jump(r)])
        else:
            ev.append(["iterate", c])
    return {"doc": doc, "clients": nc, "events": ev,
            "spoil": r.random() < .5, "cook": r.choice([0, 0, 1, .5])}


def cook(x, part, k=0):
    """Raw data made of structured values, as taken from other instances."""
    from yangson.instvalue import ArrayValue, ObjectValue
    if isinstance(x, dict):
        x = {m: cook(v, part, k + i) for i, (m, v) in enumerate(x.items())}
    elif isinstance(x, list) and x != [None]:
        x = [cook(v, part, k + i) for i, v in enumerate(x)]
    else:
        return x
    # (a choice that depends on the place)
    if (k * 7 + len(x) * 3) % 10 >= part * 10:
        return x
    return ObjectValue(x) if isinstance(x, dict) else ArrayValue(x)


def spoil(x):
    """Modify raw data everywhere."""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
            if not isinstance(x[k], (dict, list)):
                x[k] = "spoiled"
        x["spoiled"] = 1
    elif isinstance(x, list):
        for e in x:
            spoil(e)
        for i, e in enumerate(x):
            if not isinstance(e, (dict, list)):
                x[i] = "spoiled"
        x.append("spoiled")


def stamps(v):
    if isinstance(v, dict):
        return [str(getattr(v, "timestamp", None)),
                [[k, stamps(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return [str(getattr(v, "timestamp", None)), [stamps(x) for x in v]]
    return ops.rep(v)


def inside_any(n):
    """Content of anydata has no schema: moving about in it is undefined."""
    from yangson.schemanode import AnyContentNode
    p = n.parinst
    while p is not None:
        if isinstance(p.schema_node, AnyContentNode):
            return True
        p = p.parinst
    return False


def fp(n, deep):
    """What a holder can observe."""
    if inside_any(n):
        deep = False
    res = [n.raw_value(), list(n.path), str(n.timestamp), stamps(n.value)]
    if not deep:
        return json.loads(json.dumps(res))
    res.append(n.json_pointer())
    try:
        res.append(str(n.instance_route()))
    except Exception as e:
        res.append(type(e).__name__)
    if n.parinst is not None:
        u = n.up()
        res += [u.raw_value(), str(u.timestamp), stamps(u.value)]
        res.append(stamps(n.top().value))
        if hasattr(n, "before"):
            for mv in (n.next, n.previous):
                try:
                    m = mv()
                    res += [m.raw_value(), list(m.path), str(m.timestamp)]
                except Exception as e:
                    res.append(type(e).__name__)
        else:
            for s in sorted(n.siblings):
                if s[0] != "@":
                    m = n.sibling(s)
                    res += [m.raw_value(), list(m.path), str(m.timestamp)]
    elif n.value:
        try:
            res.append(ET.tostring(n.to_xml(), encoding="unicode"))
        except Exception as e:
            res.append(type(e).__name__)
    return json.loads(json.dumps(res, default=str))


class Held:
    def __init__(self, node, num):
        self.node, self.num = node, num
        self.value = node.value
        self.fp = fp(node, False)
        self.deep = fp(node, True)

    def check(self, ctx, deep):
        if self.node.value is not self.value:
            raise Violation("snapshot-changed", f"{ctx}: value object replaced")
        now = fp(self.node, deep)
        was = self.deep if deep else self.fp
        if now != was:
            d = next((f"{a} -> {b}" for a, b in zip(was, now) if a != b),
                     "length")
            raise Violation(
                "snapshot-changed", f"{ctx}: instance {self.fp[1]} obtained "
                f"at event {self.num}: {d[:900]}")


def run(scn):
    from yangson.schemanode import AnyContentNode
    doc = json.loads(json.dumps(scn["doc"]))
    part = scn.get("cook", 0)
    doc = cook(doc, part)
    top = dm.from_raw(doc)
    held = [Held(top, "start")]
    if scn.get("spoil"):
        spoil(doc)
        held[0].check("after modifying the raw document", True)
    pos = [top] * scn["clients"]
    rw = world.Real(dm)
    sig = []
    faults = {"clock_jump": 0, "raw_data_modified": 0}
    nops = 0
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        if k == "clock":
            rw.clock(ev[1])
            faults["clock_jump"] += 1
            continue
        c = ev[1]
        nops += 1
        if k == "branch":
            pos[c] = pos[ev[2]]
            continue
        if k == "step":
            st = json.loads(json.dumps(ev[2]))
            st = [st[0]] + [cook(x, part) for x in st[1:]]
            out = rw.step(pos[c], st)
            sig.append((st[0], out[0]))
            if out[0] == "ok":
                h = Held(out[1], num)
                if ev[3]:
                    spoil(st)
                    faults["raw_data_modified"] += 1
                    h.check(f"event {num}: raw argument modified", True)
                pos[c] = out[1]
                held.append(h)
        elif k == "cut":
            st = json.loads(json.dumps(ev[2]))
            n = core.isolated(lambda: sched.count_lines(
                lambda: rw.step(pos[c], st)))
            rw.faulted(pos[c], st, int(ev[3] * n), ev[4])
            sig.append((st[0], "cut"))
        elif k == "query":
            op = ev[2]
            t = pos[c].top()
            ctx = ops.Ctx.__new__(ops.Ctx)
            ctx.dm, ctx.inst = dm, [t]
            out = ops.do(ctx, op)
            sig.append((op[0], out[0]))
        elif k == "tag":
            from yangson.enumerations import ContentType
            n = pos[c].add_defaults(
                None if ev[2] is None else ContentType[ev[2]], tag=ev[3])
            sig.append("tag")
            held.append(Held(n, num))
        elif k == "orphan":
            # annotations whose members are gone, then defaults
            from yangson.enumerations import ContentType
            n = pos[c]
            if not isinstance(n.value, dict) or inside_any(n) or isinstance(
                    n.schema_node, AnyContentNode):
                continue
            for m in [m for m in n.value if "@" + m in n.value]:
                n = n.delete_item(m)
                held.append(Held(n, num))
            held.append(Held(n.add_defaults(
                None if ev[2] is None else ContentType[ev[2]], tag=ev[3]),
                num))
            sig.append("orphan")
        elif k == "spoil-output":
            raw = pos[c].raw_value()
            spoil(raw)
            rt = pos[c].top().raw_value()
            spoil(rt)
            faults["raw_data_modified"] += 2
        elif k == "iterate":
            n = pos[c]
            if (isinstance(n.value, (dict, list))
                    and not isinstance(n.schema_node, AnyContentNode)
                    and not inside_any(n)):
                for x in n:
                    if isinstance(x, str) and x[0] == "@":
                        continue
                    y = n[x] if isinstance(x, str) else x
                    if len(held) < 60:
                        held.append(Held(y, num))
        if len(held) > 40:
            held = held[:10] + held[-25:]
        for h in held:
            h.check(f"event {num} {ev}"[:1500], False)
    for h in held:
        h.check("end", True)
    faults.update(rw.nfault)
    st = {"operations": nops, "held": len(held), "faults": faults,
          "simulated_seconds": rw.simtime}
    if len(held) >= 4 and nops >= 5:
        st["sig"] = core.digest(sig)
    return st
