"""C16: equality and hashes of values are reliable entity tags."""
import json
import random

from .. import core, dstore, env, ops, ref, steps, world
from ..core import Violation

PROP = "C16"
RULE = ("seeded interleavings of optimistic read-modify-write transactions "
        "of several clients on one datastore, which is also saved and "
        "reloaded with members in another order; every decision to commit "
        "and every comparison of values is checked against the contents; "
        "non-trivial: at least 2 commits tried and 2 comparisons; distinct "
        "by the sequence of events and outcomes")
REAL = ["yangson instances and values"]
STUB = ["clock", "datastore and clients"]
LISTS = ("events",)
ASSUMPTIONS = ["union members that Python cannot tell apart (true and 1) "
               "do not occur at one place"]
dm = None
MODELS = .4


def prepare(tier):
    global dm
    dm = env.load()


def budget(tier):
    return (8000, 150) if tier == "quick" else (300000, 1500)


def gen(r, i, tier):
    meta = r.random() < .35
    small = r.random() < .5
    if small:
        doc = ops.variants(r, 1)[0]
        if not ref.decodable(ref.ROOT, doc):
            doc = dict(ref.SIMPLE)
        g = ref.Gen(r, pbad=0, p=.2, maxlen=2, meta=meta)
    else:
        g, doc = world.gen_doc(r, state=r.random() < .3, meta=meta)
    ch = steps.Chooser(r, g, wild=0, edits=2)
    nc = r.choice([2, 2, 3, 4])
    store = doc
    cur = [(doc, [])] * nc
    ev = []
    n = r.choice([10, 20, 30]) if tier == "quick" else r.choice([30, 60, 120])
    while len(ev) < n:
        x = r.random()
        c = r.randrange(nc)
        if x < .4:
            sts, cur[c] = dstore.gen_edits(
                r, g, ch, cur[c], p_fix=.02, p_toggle=.5 if small else .2,
                p_spoil=.1)
            ev += [["step", c, s] for s in sts]
        elif x < .5:
            ev.append(["read", c])
            cur[c] = (store, [])
        elif x < .68:
            ev.append(["commit", c, r.choice(["eq", "hash", "ne"])])
            # (what the store holds is not tracked here exactly; clients
            # only need plausible contents)
            store = cur[c][0]
        elif x < .74:
            ev.append(["restart", r.randrange(1000)])
        elif x < .82:
            ev.append(["rebuild", c, r.randrange(1000)])
        elif x < .86:
            ev.append(["clock", world.clock_jump(r)])
        elif x < .89:
            ev.append(["build", c, r.randrange(1 << 30)])
        elif x < .95:
            ev.append(["compare", c, r.randrange(nc), r.randrange(1 << 30)])
        else:
            ev.append(["vary", c, r.randrange(1 << 30)])
    return {"doc": doc, "clients": nc, "events": ev}


def shuffled(v, rng):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(v[k], rng) for k in ks}
    if isinstance(v, list):
        return [shuffled(x, rng) for x in v]
    return v


def norm(v):
    """Numbers as their own hashes, which may collide."""
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, dict):
        return [[k, norm(v[k])] for k in sorted(v)]
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, str):
        try:
            return hash(int(v))
        except ValueError:
            return v
    return hash(v)


def agree(ctx, a, b, ra, rb):
    """a, b: values; ra, rb: their contents."""
    if not isinstance(a, (dict, list)) or not isinstance(b, (dict, list)):
        return None
    want = ref.same(ra, rb)
    for x, y in ((a, b), (b, a)):
        eq, ne = x == y, x != y
        if eq is not want:
            raise Violation("wrong-equality", f"{ctx}: == gives {eq}: "
                            + (world.diff(ra, rb) or "contents are equal"))
        if ne is want:
            raise Violation("wrong-equality", f"{ctx}: != gives {ne}: "
                            + (world.diff(ra, rb) or "contents are equal"))
    heq = hash(a) == hash(b)
    if want and not heq:
        raise Violation("unequal-hashes", f"{ctx}: equal contents have "
                        f"different hashes")
    if heq and not want and norm(ra) != norm(rb):
        raise Violation("colliding-hashes", f"{ctx}: different contents "
                        "have equal hashes: " + world.diff(ra, rb))
    return want


def vary(root, rng):
    """The same contents with one small thing changed."""
    ps = [p for p in ref.all_paths(root) if p]
    if not ps:
        return None
    if rng.random() < .3:
        return exchange(root, ps, rng)
    p = list(rng.choice(ps))
    n, ent = steps.kind_at(root, p)
    if n is None or n.kind == "anydata":
        return None
    v = ref.get(root, p)
    if n.kind == "leaf" or n.kind == "leaflist" and ent:
        for _ in range(8):
            w = n.type.gen(rng)
            if not ref.same(v, w):
                return ref.set_at(root, p, w)
        return None
    if isinstance(v, list):
        if len(v) > 1 and rng.random() < .6:
            i = rng.randrange(len(v) - 1)
            return ref.set_at(root, p, v[:i] + [v[i + 1], v[i]] + v[i + 2:])
        if v:
            return ref.set_at(root, p, v[:-1] if rng.random() < .5
                              else v + [v[0]])
        return ref.del_at(root, p)
    if isinstance(v, dict):
        ms = [m for m in v if m[0] == "@" or "@" + m not in v]
        if ms:
            return ref.del_at(root, p + [rng.choice(ms)])
    return ref.del_at(root, p) if isinstance(p[-1], int) or \
        "@" + p[-1] not in ref.get(root, p[:-1]) else None


def exchange(root, ps, rng):
    """The same contents with the values of two places exchanged."""
    ls = []
    for p in ps:
        n, ent = steps.kind_at(root, p)
        if n is not None and (n.kind == "leaf" or n.kind == "leaflist"
                              and ent):
            ls.append(list(p))
    if len(ls) < 2:
        return None
    for _ in range(20):
        p = rng.choice(ls)
        near = [q for q in ls if q[:-1] == p[:-1] and q != p]
        q = rng.choice(near if near and rng.random() < .7 else ls)
        v, w = ref.get(root, p), ref.get(root, q)
        if ref.same(v, w):
            continue
        new = ref.set_at(ref.set_at(root, p, w), q, v)
        if ref.decodable(ref.ROOT, new):
            return new
    return None


def build(ctx, top, root, rng):
    """Values put together by the caller step by step."""
    ps = [p for p in ref.all_paths(root)
          if isinstance(ref.get(root, p), (dict, list))
          and steps.kind_at(root, p)[0] is not None
          and steps.kind_at(root, p)[0].kind in ("root", "container", "list",
                                                 "leaflist")]
    p = list(rng.choice(ps))
    raw0 = ref.get(root, p)
    if raw0 == [None]:          # (a leaf of type empty)
        return 0
    val0 = ops.at(top, p).value
    # a surrounding value, if any, which shares the one that is modified
    val, raw = val0.copy(), raw0.copy()
    outer = router = None
    if p and rng.random() < .6:
        outer = ops.at(top, p[:-1]).value.copy()
        outer[p[-1]] = val
        router = ref.get(root, p[:-1])
        agree(ctx, outer, ops.at(top, p[:-1]).value, router, router)
    agree(ctx, val, val0, raw, raw0)
    n = 1
    for _ in range(rng.choice([1, 2, 4])):
        if isinstance(raw, list):
            k = rng.choice(["append", "insert", "pop", "reverse", "set",
                            "extend", "del", "iadd"])
            if not raw:
                break
            i, j = rng.randrange(len(raw)), rng.randrange(len(raw))
            for v in (raw, val):
                if k == "append":
                    v.append(v[i])
                elif k == "insert":
                    v.insert(j, v[i])
                elif k == "pop":
                    v.pop(i)
                elif k == "reverse":
                    v.reverse()
                elif k == "set":
                    v[i] = v[j]
                elif k == "extend":
                    v.extend([v[i], v[j]])
                elif k == "del":
                    del v[i]
                else:
                    v += [v[j]]
        else:
            ms = [m for m in raw if m[0] != "@" and "@" + m not in raw]
            if not ms:
                break
            k = rng.choice(["del", "pop", "re-add", "update"])
            m = rng.choice(ms)
            for v in (raw, val):
                if k == "del":
                    del v[m]
                elif k == "pop":
                    v.pop(m)
                elif k == "re-add":
                    x = v.pop(m)
                    v[m] = x
                else:
                    x = dict(v)
                    v.clear()
                    v.update(x)
        if rng.random() < .7:
            agree(f"{ctx} {p} after {k}", val, val0, raw, raw0)
            n += 1
            if outer is not None:
                r2 = router.copy()
                r2[p[-1]] = raw
                agree(f"{ctx} {p} after {k}, around", outer,
                      ops.at(top, p[:-1]).value, r2, router)
    new = ref.set_at(root, p, raw) if p else raw
    if ref.decodable(ref.ROOT, new):
        fresh = ops.at(dm.from_raw(json.loads(json.dumps(new))), p).value
        agree(f"{ctx} {p} built and read", val, fresh, raw, raw)
        n += 1
    return n


def run(scn):
    doc = scn["doc"]
    top = dm.from_raw(doc)
    store, sref = top, doc
    n = scn["clients"]
    real = [top] * n
    rf = [(doc, [])] * n
    tag = [(top.value, hash(top.value), doc)] * n
    rw = world.Real(dm)
    sig = []
    tried = won = compared = equal = restarts = 0
    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        ctx = f"event {num}"
        if k == "clock":
            rw.clock(ev[1])
            continue
        if k == "restart":
            raw = shuffled(sref, random.Random(ev[1]))
            new = dm.from_raw(json.loads(json.dumps(raw)))
            agree(f"{ctx} restart", store.value, new.value, sref, sref)
            store = new
            restarts += 1
            sig.append("R")
            continue
        c = ev[1]
        if k == "read":
            real[c], rf[c] = store, (sref, [])
            tag[c] = (store.value, hash(store.value), sref)
            sig.append("r")
        elif k == "rebuild":
            root, path = rf[c]
            raw = shuffled(root, random.Random(ev[2]))
            new = dm.from_raw(json.loads(json.dumps(raw)))
            agree(f"{ctx} rebuild", real[c].top().value, new.value, root,
                  root)
            for p in path:
                new = new[p]
            agree(f"{ctx} rebuild {path}", real[c].value, new.value,
                  ref.get(root, path), ref.get(root, path))
            real[c] = new
            compared += 1
            equal += 1
            sig.append("b")
        elif k == "build":
            compared += build(f"{ctx} build", real[c].top(), rf[c][0],
                              random.Random(ev[2]))
            sig.append("B")
        elif k == "vary":
            root = rf[c][0]
            new = vary(root, random.Random(ev[2]))
            if new is None or not ref.decodable(ref.ROOT, new):
                continue
            v = dm.from_raw(json.loads(json.dumps(new))).value
            e = agree(f"{ctx} variation", real[c].top().value, v, root, new)
            compared += 1
            equal += bool(e)
            sig.append("v")
        elif k == "compare":
            rng = random.Random(ev[3])
            o = ev[2]
            ta, tb = real[c].top(), real[o].top()
            ra, rb = rf[c][0], rf[o][0]
            pa = rng.choice(ref.all_paths(ra))
            sp = [x for x in pa if isinstance(x, str)]
            pbs = [p for p in ref.all_paths(rb)
                   if [x for x in p if isinstance(x, str)] == sp]
            if not pbs:
                continue
            pb = rng.choice(pbs)
            if steps.kind_at(ra, pa)[0] is None or len(pa) and isinstance(
                    pa[-1], int) != (len(pb) > 0
                                     and isinstance(pb[-1], int)):
                continue
            e = agree(f"{ctx} {pa} {pb}", ops.at(ta, pa).value,
                      ops.at(tb, pb).value, ref.get(ra, pa),
                      ref.get(rb, pb))
            if e is not None:
                compared += 1
                equal += e
                sig.append(f"c{e}")
        elif k == "step":
            try:
                exp = steps.apply_ref(*rf[c], ev[2])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(real[c], ev[2])
            if not world.agrees(out, exp):
                return {"foreign_deviation": 1}
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                real[c], rf[c] = out[1], (exp.root, exp.path)
            sig.append(ev[2][0])
        elif k == "commit":
            val, hsh, base = tag[c]
            same = ref.same(base, sref)
            if ev[2] == "eq":
                go = store.value == val
            elif ev[2] == "ne":
                go = not store.value != val
            else:
                go = hash(store.value) == hsh
                if go and not same and norm(base) == norm(sref):
                    go = False      # accidental collision
            tried += 1
            sig.append(f"C{go}")
            if go and not same:
                raise Violation(
                    "lost-update", f"{ctx}: client {c} commits ({ev[2]}) "
                    "over a change: " + world.diff(sref, base))
            if same and not go:
                raise Violation(
                    "spurious-conflict", f"{ctx}: client {c} is refused "
                    f"({ev[2]}) although nothing changed")
            if go:
                won += 1
                store = real[c].top()
                sref = rf[c][0]
                tag[c] = (store.value, hash(store.value), sref)
    st = {"commits_tried": tried, "commits": won, "compared": compared,
          "equal": equal, "faults": {"restart": restarts,
                                     "clock_jump": rw.nclock}}
    if tried >= 2 and compared >= 2:
        st["sig"] = core.digest(sig)
    return st
