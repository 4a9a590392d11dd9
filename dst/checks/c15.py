"""C15: modification timestamps follow edits even if the clock jumps."""
import datetime

from .. import core, dstore, env, ops, ref, steps, world
from ..core import Violation

PROP = "C15"
RULE = ("seeded histories of interleaved clients that edit, move and read "
        "under a simulated clock that advances, stands still or (in half of "
        "the runs) jumps backwards; non-trivial: at least 3 edits and 3 "
        "moves; distinct by the sequence of operations and clock moves")
REAL = ["yangson instances and values"]
STUB = ["clock (datetime.now)"]
LISTS = ("events",)
ASSUMPTIONS = ["the clock does not move during one library call"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (9000, 150) if tier == "quick" else (300000, 1500)


def gen(r, i, tier):
    g, doc = world.gen_doc(r, state=r.random() < .3, meta=False)
    if r.random() < .2:
        doc = ops.variants(r, 1)[0]
    ch = steps.Chooser(r, g, wild=0, edits=r.choice([1, 2]), defaults=.03)
    wild = r.random() < .5
    nc = r.choice([1, 1, 2, 3])
    cur = [(doc, [])] * nc
    ev = []
    n = r.choice([10, 20, 35]) if tier == "quick" else r.choice([30, 60, 120])
    while len(ev) < n:
        x = r.random()
        c = r.randrange(nc)
        if x < .6:
            sts, cur[c] = dstore.gen_edits(r, g, ch, cur[c], p_fix=.05)
            ev += [["step", c, s] for s in sts]
        elif x < .85:
            d = world.clock_jump(r)
            ev.append(["clock", d if wild else abs(d)])
        elif x < .9 and nc > 1:
            o = r.randrange(nc)
            ev.append(["branch", c, o])
            cur[c] = cur[o]
        else:
            ev.append(["read", c, r.choice(["validate", "raw", "defaults",
                                            "xml", "route", "walk", "hash"])])
    return {"doc": doc, "clients": nc, "wild": wild, "events": ev}


def stamps(v):
    """(timestamp, parts) of structured values, None of others."""
    if isinstance(v, dict):
        return [getattr(v, "timestamp", None),
                {k: stamps(x) for k, x in v.items()}]
    if isinstance(v, list):
        return [getattr(v, "timestamp", None), [stamps(x) for x in v]]
    return None


def times(s, out):
    if s is not None:
        out.add(s[0])
        for x in (s[1].values() if isinstance(s[1], dict) else s[1]):
            times(x, out)
    return out


def sub(s, path):
    for p in path:
        if s is None:
            return None
        s = s[1][p]
    return s


def read(n, what):
    from yangson.enumerations import ContentType
    try:
        if what == "validate":
            n.validate(ctype=ContentType.all)
        elif what == "raw":
            n.raw_value()
        elif what == "defaults":
            n.add_defaults(ContentType.all)
        elif what == "xml":
            n.to_xml()
        elif what == "route":
            str(n.instance_route())
            n.json_pointer()
        elif what == "hash":
            hash(n.value) if isinstance(n.value, (dict, list)) else None
        elif isinstance(n.value, (dict, list)) and n.value:
            for x in list(n)[:4]:
                m = n[x] if isinstance(x, str) else x
                m.up()
    except Exception:
        pass                # not the business of this check


EDITS = ("put", "del", "update", "merge", "insb", "insa")


def run(scn):
    T = set()
    now = [None]

    def tick():
        now[0] = env.SimDatetime.now()
        return now[0]
    tick()
    doc = scn["doc"]
    top = dm.from_raw(doc)
    T |= {now[0]}
    real = [top] * scn["clients"]
    rf = [(doc, [])] * scn["clients"]
    chain = [[] for _ in real]      # ancestors as visited: (path, timestamp)
    rw = world.Real(dm)
    sane = not scn["wild"]
    edits = moves = jumps = back = still = 0
    sig = []
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        if k == "clock":
            rw.clock(ev[1])
            jumps += 1
            back += ev[1] < 0
            still += ev[1] == 0
            sig.append("+" if ev[1] > 0 else "-" if ev[1] < 0 else "0")
            continue
        c = ev[1]
        if k == "branch":
            real[c], rf[c] = real[ev[2]], rf[ev[2]]
            chain[c] = list(chain[ev[2]])
            continue
        b = real[c]
        tick()
        if k == "read":
            s0, t0 = stamps(b.value), b.timestamp
            read(b, ev[2])
            if b.timestamp != t0 or stamps(b.value) != s0:
                raise Violation("read-stamps", f"event {num}: reading "
                                f"({ev[2]}) changed timestamps")
            sig.append("r" + ev[2])
            continue
        try:
            exp = steps.apply_ref(*rf[c], ev[2])
        except (KeyError, IndexError, TypeError):
            continue
        if isinstance(exp, steps.Skip):
            continue
        st = ev[2]
        P = rf[c][1]
        s0 = stamps(b.top().value)
        if st[-1] == "c" and steps.uses_raw(st):
            steps.AGE = num % 3 * 100.0     # value made before the edit
            T.add(now[0] - datetime.timedelta(seconds=steps.AGE))
        out = rw.step(b, st)
        steps.AGE = 0.0
        if not world.agrees(out, exp):
            return {"foreign_deviation": 1}
        sig.append((st[0], out[0]))
        if out[0] != "ok" or not isinstance(exp, steps.Ok):
            continue
        a = out[1]
        op, Q = st[0], exp.path
        ctx = f"event {num} {st} at {P}"
        if op in EDITS or op == "defaults":
            T.add(now[0])
            edits += 1
        else:
            moves += 1
        at = a.top()
        s1 = stamps(at.value)
        new = (times(s1, {a.timestamp, at.timestamp}) - T) - {None}
        if new:
            raise Violation("time-of-no-edit", f"{ctx}: timestamps "
                            f"{sorted(map(str, new))}, but nothing was "
                            "loaded or edited then")
        if op in EDITS:
            if a.timestamp != now[0]:
                raise Violation("edit-not-stamped", f"{ctx}: edited at "
                                f"{now[0]}, stamped {a.timestamp}")
            if at.timestamp < now[0]:
                raise Violation("parent-older", f"{ctx}: root stamped "
                                f"{at.timestamp}, edited at {now[0]}")
            if sane:
                exact(ctx, st, P, s0, s1, now[0], Q)
        elif op == "defaults":
            if sane and a.timestamp < b.timestamp:
                raise Violation("edit-not-stamped", f"{ctx}: older")
        else:
            if sane and s1 != s0:
                raise Violation("move-stamps", f"{ctx}: moving changed the "
                                f"timestamps of values: {first(s0, s1)}")
            if op in ("up", "top"):
                if a.timestamp < b.timestamp:
                    raise Violation("parent-older", f"{ctx}: {a.timestamp} "
                                    f"above {b.timestamp}")
                while chain[c] and len(chain[c][-1][0]) > len(Q):
                    chain[c].pop()
                if chain[c] and chain[c][-1][0] == list(Q):
                    was = chain[c].pop()[1]
                    if a.timestamp < was:
                        raise Violation(
                            "went-back", f"{ctx}: {a.timestamp}, was {was} "
                            "before")
            elif op in ("member", "entry", "last", "lookup", "goto",
                        "gotores", "rgoto"):
                if list(Q) != list(P):
                    chain[c].append((list(P), b.timestamp))
        v = a.value
        if sane and isinstance(v, (dict, list)) and \
                getattr(v, "timestamp", None) and a.timestamp < v.timestamp:
            raise Violation("node-older", f"{ctx}: {a.timestamp}, its value "
                            f"{v.timestamp}")
        if op == "put":
            chain[c].append((list(P), a.timestamp))
        elif op in EDITS and not P:
            chain[c] = []
        real[c], rf[c] = a, (exp.root, exp.path)
    st = {"edits": edits, "moves": moves,
          "simulated_seconds": round(rw.simtime, 3),
          "faults": {"clock jump": jumps, "clock backwards": back,
                     "clock standing": still}}
    if edits >= 3 and moves >= 3:
        st["sig"] = core.digest(sig)
    return st


def first(a, b, p=""):
    if a is None or b is None or a[0] != b[0]:
        return f"{p or '/'}: {a and a[0]} -> {b and b[0]}"
    if isinstance(a[1], dict):
        for k in a[1]:
            if a[1][k] != b[1].get(k):
                return first(a[1][k], b[1].get(k), f"{p}/{k}")
    else:
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return first(x, y, f"{p}/{i}")
    return p + " differs"


def exact(ctx, st, P, s0, s1, now, Q):
    """The edited branch carries the time of the edit, others theirs."""
    op = st[0]
    P = list(P)
    # where the edit happened: the container of the changed part
    if op == "put":
        where, key = P, Q[-1]       # (st[1] may be a qualified name)
    elif op == "del":
        where, key = P, st[1]
    elif op in ("insb", "insa"):
        where, key = P[:-1], P[-1] + (op == "insa")
    else:
        where, key = (P[:-1], P[-1]) if P else (None, None)
    if where is None:
        return
    for i in range(len(where) + 1):
        o, n = sub(s0, where[:i]), sub(s1, where[:i])
        if n[0] != now:
            raise Violation("edit-not-stamped", f"{ctx}: /"
                            f"{'/'.join(map(str, where[:i]))} stamped {n[0]},"
                            f" edited at {now}")
        nxt = where[i] if i < len(where) else None
        if isinstance(o[1], dict):
            for k in o[1]:
                if k == nxt or i == len(where) and k == key:
                    continue
                if n[1].get(k) != o[1][k]:
                    raise Violation("other-branch", f"{ctx}: {k} changed: "
                                    + first(o[1][k], n[1].get(k)))
        elif i < len(where):
            for j, (x, y) in enumerate(zip(o[1], n[1])):
                if j != nxt and x != y:
                    raise Violation("other-branch", f"{ctx}: entry {j} "
                                    "changed: " + first(x, y))
        else:
            rest_o, rest_n = list(o[1]), list(n[1])
            if op in ("insb", "insa"):
                del rest_n[key]
            elif op == "del":
                del rest_o[key]
            else:
                del rest_o[key], rest_n[key]
            if rest_o != rest_n:
                raise Violation("other-branch", f"{ctx}: other entries "
                                "changed")
    if op == "merge" and P:
        o, n = sub(s0, P), sub(s1, P)
        if o and n and isinstance(o[1], dict) and isinstance(st[1], dict):
            for k in o[1]:
                if k not in st[1] and n[1].get(k) != o[1][k]:
                    raise Violation("other-branch", f"{ctx}: {k} was not "
                                    "merged but changed")
