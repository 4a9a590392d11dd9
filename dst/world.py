"""Simulated datastore clients: scenario generation and common execution.

Events (JSON lists):
  ["step", client, step]            one step of the step language
  ["fault", client, step, k, exc]   the same, interrupted at library line k
  ["branch", client, other]         take over the cursor of another client
  ["clock", seconds]                the clock jumps
plus whatever a check adds.
"""
from . import env, ref, steps
from .core import Violation
from .sched import Interrupt

EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
        "RecursionError": RecursionError, "OSError": OSError}


class Injected(Exception):
    """Cancellation raised by the environment."""


EXCS["Injected"] = Injected


def doc_stats():
    return {}


def gen_doc(r, **kw):
    g = ref.Gen(r, pbad=kw.pop("pbad", 0), **kw)
    return g, g.document(valid=r.random() < .5)


def clock_jump(r):
    return r.choice([0, 0, 1, 1, 5, 60, 3600, -1, -30, -3600, 86400 * 400,
                     -86400 * 30, 0.000001, -0.000001])


def gen_events(r, nclients, nevents, chooser, doc, pfault=.08, pbranch=.06,
               pclock=.15, extra=None):
    """Events for clients that all start at the root of `doc`."""
    cur = [(doc, []) for _ in range(nclients)]
    ev = []
    while len(ev) < nevents:
        x = r.random()
        c = r.randrange(nclients)
        if x < pclock:
            ev.append(["clock", clock_jump(r)])
            continue
        if x < pclock + pbranch and nclients > 1:
            o = r.randrange(nclients)
            ev.append(["branch", c, o])
            cur[c] = cur[o]
            continue
        if extra:
            e = extra(r, c, cur)
            if e is not None:
                ev.append(e)
                continue
        root, path = cur[c]
        st = chooser.step(root, path)
        out = steps.apply_ref(root, path, st)
        if isinstance(out, steps.Skip):
            continue
        if r.random() < pfault:
            ev.append(["fault", c, st, int(r.paretovariate(.5)) - 1
                       if r.random() < .7 else r.randrange(400),
                       r.choice(sorted(EXCS))])
            continue
        ev.append(["step", c, st])
        if isinstance(out, steps.Ok):
            cur[c] = (out.root, out.path)
            if len(str(out.root)) > 20000:
                cur[c] = (doc, [])
                ev.append(["reset", c])
    return ev


def exc_info(e):
    inst = getattr(e, "instance", None)
    try:
        path = list(inst.path) if inst is not None else None
    except Exception:
        path = None
    tag = getattr(e, "tag", None)
    try:
        s = str(e)
    except Exception as x:
        s = f"<str failed: {type(x).__name__}: {x}>"
    return [type(e).__name__, path, tag, s]


class Real:
    """Execution of steps on the real code."""

    def __init__(self, dm):
        self.dm = dm
        self.nfault = {}
        self.nclock = 0
        self.simtime = 0.0

    def step(self, node, st):
        """('ok', node, result) | ('exc', exception)"""
        try:
            n, res = steps.apply_real(self.dm, node, st)
            return ("ok", n, res)
        except Exception as e:
            return ("exc", e)

    def faulted(self, node, st, k, excname):
        """Interrupted step: ('fired', site) or the outcome of step()."""
        exc = EXCS[excname]("injected")
        it = Interrupt(k, exc)
        try:
            with it:
                n, res = steps.apply_real(self.dm, node, st)
            out = ("ok", n, res)
        except BaseException as e:
            if it.fired and (e is exc):
                self.nfault[excname] = self.nfault.get(excname, 0) + 1
                return ("fired", it.fired)
            if not isinstance(e, Exception):
                raise
            out = ("exc", e)
        if it.fired:
            return ("swallowed", out)
        return out

    def clock(self, d):
        env.CLOCK.t += d
        self.nclock += 1
        self.simtime += abs(d)


def agrees(out, exp):
    """Did the real step and the reference's step both succeed or fail?"""
    if out[0] == "ok" and out[2] and out[2][0] == "peek" and \
            out[2][1] is None:
        return True
    return (out[0] == "ok") == isinstance(exp, steps.Ok)


def check_step(st, out, exp, ctx):
    """Compare the real outcome with the reference's."""
    if out[0] == "exc":
        e = out[1]
        nm = type(e).__name__
        if isinstance(exp, steps.Ok):
            if st[0] == "goto" and nm in steps.GOTO_ERRS and False:
                return
            raise Violation("step-refused", f"{ctx} {st}: {nm}: {e}")
        if nm not in exp.classes:
            raise Violation(
                "undocumented-refusal",
                f"{ctx} {st}: {nm}: {e}; expected {sorted(exp.classes)}")
        return
    if isinstance(exp, steps.Refused):
        if out[2] and out[2][0] == "peek" and out[2][1] is None:
            return
        raise Violation("impossible-step-done", f"{ctx} {st}: expected "
                        f"{sorted(exp.classes)}, got "
                        f"{getattr(out[1], 'path', None)} {out[2]}")
    if exp.result is not None:
        kind, got = out[2]
        if kind == "peek":
            want = exp.result[0]
            if not val_like(got, want):
                raise Violation("wrong-peek", f"{ctx} {st}: {got!r} "
                                f"instead of {want!r}")
            return
        want = exp.result
        if exp.names:
            got, want = sorted(got), sorted(want)
        if not ref.same(got, [own(x) for x in want]):
            raise Violation("wrong-iteration", f"{ctx} {got} != {want}")


def val_like(v, raw):
    """Structural agreement of a cooked value with raw data (scalars of
    typed values are only checked for presence)."""
    if isinstance(raw, dict):
        return isinstance(v, dict) and set(v) == set(raw) and all(
            val_like(v[k], raw[k]) for k in raw)
    if isinstance(raw, list) and raw != [None]:
        return isinstance(v, list) and len(v) == len(raw) and all(
            map(val_like, v, raw))
    if isinstance(raw, bool) or isinstance(v, bool):
        return v is raw
    if isinstance(raw, int):
        return v == raw
    return v is not None or raw is None


def own(v):
    """The annotation of an object itself belongs to the parent's raw value."""
    if isinstance(v, dict) and "@" in v:
        return {k: x for k, x in v.items() if k != "@"}
    return v


def compare(dm, node, root, path, ctx="", back=True, whole=True):
    """The real node is the reference node: value, path, identifiers."""
    want = own(ref.get(root, path))
    got = node.raw_value()
    if not ref.same(got, want):
        raise Violation("wrong-value", f"{ctx} at {path}: "
                        + diff(got, want))
    if list(node.path) != list(path):
        raise Violation("wrong-path", f"{ctx} {node.path} != {path}")
    jp = "/" + "/".join(map(str, path))
    if node.json_pointer() != jp:
        raise Violation("wrong-pointer", f"{ctx} {node.json_pointer()} "
                        f"!= {jp}")
    n, ent = steps.kind_at(root, path)
    if back and n is not None:
        s = str(node.instance_route())
        p = ref.resolve_iid(root, s) if path else []
        if p != list(path):
            raise Violation("identifier-elsewhere",
                            f"{ctx} {path} has identifier {s} -> {p}")
        top = node.top()
        if whole and not ref.same(top.raw_value(), root):
            raise Violation("wrong-root", f"{ctx} from {path}: "
                            + diff(top.raw_value(), root))
        b = top.goto(dm.parse_instance_id(s))
        if list(b.path) != list(path) or b.value != node.value:
            raise Violation("identifier-elsewhere",
                            f"{ctx} goto({s}) gives {b.path} not {path}")
        pk = top.peek(dm.parse_instance_id(s))
        if pk != node.value:
            raise Violation("identifier-elsewhere",
                            f"{ctx} peek({s}) gives {pk!r}")
        if b.instance_route() != node.instance_route():
            raise Violation("identifier-elsewhere", f"{ctx} routes differ")


def diff(a, b, p=""):
    """First difference of two JSON values."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f"{p}/{k} missing, expected {b[k]!r}"
            if k not in b:
                return f"{p}/{k} unexpected: {a[k]!r}"
            d = diff(a[k], b[k], f"{p}/{k}")
            if d:
                return d
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{p}: {a!r} instead of {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{p}/{i}")
            if d:
                return d
        return ""
    return "" if ref.same(a, b) else f"{p}: {a!r} instead of {b!r}"


class NoRaw(Exception):
    """The data have no raw form that could be read back."""


def raw_of(inst, refroot):
    """Raw form of a tree, members in the order of the instance.  Values of
    the wrong type, which raw_value() shows as null, come from `refroot`."""
    def rec(a, b, n):
        if isinstance(a, dict) and isinstance(b, dict):
            if n is not None and n.kind == "anydata":
                return b
            res = {}
            for k in a:
                if k[0] == "@":
                    res[k] = a[k]
                    continue
                if k not in b:
                    raise NoRaw
                res[k] = rec(a[k], b[k], n.data[k][0])
            return res
        if isinstance(a, list) and isinstance(b, list):
            if n.kind == "anydata":
                return b
            if len(a) != len(b):
                raise NoRaw
            return [rec(x, y, n) for x, y in zip(a, b)]
        return b if a is None else a
    return rec(inst.raw_value(), refroot, ref.ROOT)
