"""C10: saved data restores to the same data after any crash and restart."""
import base64
import json
import pickle
import random
import xml.etree.ElementTree as ET

from .. import core, dstore, env, ops, ref, steps, world
from ..core import Violation

PROP = "C10"
RULE = ("seeded histories of edits of one datastore with saves to a simulated "
        "disk in JSON or XML, crashes at any byte or rename of a save, and "
        "restarts by the same, an unpickled or a newly loaded model; "
        "non-trivial: at least one edit and two restarts that restored "
        "data; distinct by the sequence of events and outcomes")
REAL = ["yangson reading and writing of data in JSON and XML, XMLParser"]
STUB = ["clock", "disk (files with unsynchronised bytes)",
        "the datastore application (save and recovery discipline)"]
LISTS = ("events",)
ASSUMPTIONS = ["json and xml.etree of the standard library work",
               "XML text contains only characters XML can represent",
               "values of unions that are ambiguous in XML are not used"]
dm = None
MODELS = .4
blob = None
again = []          # makes the model anew
libtxt = None


def prepare(tier):
    global dm, blob
    dm = env.load()
    blob = pickle.dumps(dm)
    again[:] = [env.load]


def use_model(spec):
    """(made in another process: what pickling leaves behind is not here)"""
    global dm, blob
    from .. import mgen
    blob = base64.b64decode(core.isolated(lambda: base64.b64encode(
        pickle.dumps(mgen.load(spec))).decode()))
    dm = mgen.load(spec)
    again[:] = [lambda: mgen.load(spec)]


def budget(tier):
    return (2800, 150) if tier == "quick" else (120000, 1500)


def xmlable(v, n=ref.ROOT, entry=False):
    """Has an XML form: neither annotations, anydata nor empty lists."""
    if n.kind == "anydata":
        return False
    if isinstance(v, dict):
        return all(m[0] != "@" and m in n.data and xmlable(x, n.data[m][0])
                   for m, x in v.items())
    if isinstance(v, list) and n.kind in ("list", "leaflist") and not entry:
        return bool(v) and all(xmlable(x, n, True) for x in v)
    return True


def valid(doc):
    for ct in ("config", "all"):
        if not ref.validate(doc, ct):
            return ct
    return None


def gen(r, i, tier):
    meta = r.random() < .25
    anyd = r.random() < .4
    g = ref.Gen(r, pbad=0, meta=meta, any=anyd, state=r.random() < .3)
    doc = g.document(valid=True)
    ch = steps.Chooser(r, g, wild=0, edits=2, defaults=0)
    cur = (doc, [])
    ev = []
    n = r.choice([15, 25, 40]) if tier == "quick" else r.choice([20, 50, 90])

    def mend(cur):
        """Make the data valid, mostly."""
        for _ in range(12):
            errs = ref.validate(cur[0], "config")
            if not errs or not ref.validate(cur[0], "all"):
                break
            sts = dstore.fix_steps(g, cur[0], r.choice(errs))
            new = dstore.play(cur, sts) if sts else None
            if new is None:
                break
            ev.extend(["step", s] for s in sts)
            cur = new
        return cur

    def save():
        return [r.choice(["json", "json", "xml", "xml"]),
                r.randrange(1 << 30)]
    while len(ev) < n:
        x = r.random()
        if x < .5:
            sts, cur = dstore.gen_edits(r, g, ch, cur, p_fix=.5, p_toggle=.1,
                                        p_spoil=0)
            ev += [["step", s] for s in sts]
        elif x < .58:
            # a fresh valid document replaces everything
            new = g.document(valid=True)
            ev.append(["step", ["top"]])
            ev.append(["step", ["update", new]])
            cur = (new, [])
        elif x < .62:
            ev.append(["clock", world.clock_jump(r)])
        elif x < .8:
            cur = mend(cur)
            ev.append(["save"] + save() + [r.choice(["replace", "inplace"])])
            if r.random() < .6:
                ev.append(["restart", r.choice(["same", "new", "unpickled"])])
        else:
            cur = mend(cur)
            ev.append(["crash"] + save() + [
                r.choice(["replace", "inplace", "zeros"]),
                r.choice([r.random(), 1.0, 0.0, .97])])
            ev.append(["restart", r.choice(["same", "new", "unpickled"])])
    return {"doc": doc, "events": ev, "meta": meta or anyd}


def encode(inst, fmt, rng):
    """The text an application writes."""
    if fmt == "json":
        return json.dumps(inst.raw_value(),
                          ensure_ascii=rng.random() < .5,
                          indent=rng.choice([None, None, 1]),
                          sort_keys=rng.random() < .3)
    e = inst.to_xml()
    if rng.random() < .2:
        ET.indent(e)
    return ET.tostring(e, encoding="unicode")


class Refuse(Exception):
    pass


def decode(model, data, rng):
    """Data of a file -> instance; Refuse if the file is refused."""
    from yangson.xmlparser import XMLParser
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Refuse(str(e)) from None
    if text.lstrip().startswith("<"):
        try:
            x = rng.random()
            if x < .4:
                p = XMLParser(text)
            elif x < .6:
                p = XMLParser(data)
            else:
                p = XMLParser()
                size = rng.choice([1, 7, 64, 1000])
                for j in range(0, len(text), size):
                    p.feed(text[j:j + size])
                    if rng.random() < .5:
                        p.parse()
                p.close()
                p.parse()
        except ET.ParseError as e:
            raise Refuse(str(e)) from None
        root = p.root
        if root is None:
            raise Refuse("no root")
        return model.from_xml(root)
    try:
        raw = json.loads(text)
    except ValueError as e:
        raise Refuse(str(e)) from None
    return model.from_raw(raw)


def run(scn):
    from yangson.enumerations import ContentType, ValidationScope
    model = dm
    inst = dm.from_raw(json.loads(json.dumps(scn["doc"])))
    rf = (scn["doc"], [])
    pos = inst
    rw = world.Real(dm)
    disk = {}           # name -> bytes
    want = None         # contents of the last completed save: (ref, rep, fmt)
    torn = None         # contents of an interrupted save in place
    sig = []
    faults = {}
    saves = restores = refusals = edits = 0

    def fault(k):
        faults[k] = faults.get(k, 0) + 1

    for num, ev in enumerate(scn["events"]):
        k = ev[0]
        ctx = f"event {num}"
        if k == "clock":
            rw.clock(ev[1])
        elif k == "step":
            try:
                exp = steps.apply_ref(*rf, ev[1])
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(exp, steps.Skip):
                continue
            out = rw.step(pos, ev[1])
            if not world.agrees(out, exp):
                return {"foreign_deviation": 1}
            if out[0] == "ok" and isinstance(exp, steps.Ok):
                pos, rf = out[1], (exp.root, exp.path)
                edits += 1
            sig.append(ev[1][0])
        elif k in ("save", "crash"):
            ct = valid(rf[0])
            top = pos.top()
            if ct is None:
                continue
            raw = top.raw_value()
            if not ref.same(raw, rf[0]):
                raise Violation("output-differs", f"{ctx}: "
                                + (world.diff(raw, rf[0]) or "order"))
            fmt, rng = ev[1], random.Random(ev[2])
            if fmt == "xml" and not xmlable(rf[0]):
                fmt = "json"
            new = (rf[0], ops.rep(top.value), ct, fmt)
            text = encode(top, fmt, rng)
            if not ref.same(top.raw_value(), rf[0]):
                raise Violation("save-changed-data", f"{ctx} {fmt}")
            data = text.encode("utf-8")
            if k == "save":
                if ev[3] == "replace":
                    disk["tmp"] = data
                    disk["main"] = disk.pop("tmp")
                else:
                    disk["main"] = data
                disk["backup"] = data
                want, torn = new, None
                saves += 1
                sig.append("S" + fmt)
                continue
            mode, frac = ev[3], ev[4]
            cut = int(len(data) * frac)
            if mode == "replace":
                if frac == 1.0:         # between rename and acknowledgement
                    disk["main"] = disk["backup"] = data
                    want = new
                else:
                    disk["tmp"] = data[:cut]
                fault("crash_during_replace")
            elif mode == "inplace":
                disk["main"] = data[:cut]
                torn = new
                fault("torn_write")
            else:                       # size on disk, blocks not
                disk["main"] = data[:cut] + b"\0" * (len(data) - cut)
                torn = new
                fault("lost_blocks")
            sig.append("X" + mode)
        elif k == "restart":
            fault("restart_" + ev[1])
            rng = random.Random(num)
            if ev[1] == "new":
                model = again[0]()
            elif ev[1] == "unpickled":
                model = pickle.loads(blob)
            rw = world.Real(model)
            got = None
            goal = want
            if torn:
                # the file must be refused unless it happens to be complete
                try:
                    got = decode(model, disk["main"], rng)
                    goal = torn
                except Refuse:
                    refusals += 1
                    sig.append("r")
                except Exception:
                    refusals += 1
                    sig.append("r")
            if got is None:
                goal = want
                if want is None:
                    # nothing was ever saved completely: start again
                    inst = pos = model.from_raw(
                        json.loads(json.dumps(scn["doc"])))
                    rf = (scn["doc"], [])
                    torn = None
                    continue
                try:
                    got = decode(model, disk["backup"] if torn else
                                 disk["main"], rng)
                except Refuse as e:
                    raise Violation(
                        "unreadable-output", f"{ctx}: {e}: "
                        f"{disk['main'][:300]!r}") from None
                except Exception as e:
                    raise Violation(
                        "saved-data-refused", f"{ctx} {want[3]}: "
                        f"{type(e).__name__}: {e}; saved "
                        f"{str(want[0])[:500]}") from None
            check(got, goal, ctx + (" (torn file)" if goal is torn else ""))
            try:
                got.validate(ValidationScope.all, ContentType[goal[2]])
            except Exception as e:
                raise Violation("restored-data-invalid", f"{ctx}: "
                                f"{type(e).__name__}: {e}") from None
            inst = pos = got
            rf = (goal[0], [])
            want, torn = goal, None
            disk["backup"] = disk["main"] = encode(
                got, goal[3], rng).encode()
            restores += 1
            sig.append("R" + goal[3])
    st = {"saves": saves, "restores": restores, "refused_files": refusals,
          "edits": edits, "simulated_seconds": rw.simtime, "faults": dict(
              faults, clock_jump=rw.nclock)}
    if restores >= 2 and edits:
        st["sig"] = core.digest(sig)
    return st


def check(got, goal, ctx):
    raw = got.raw_value()
    if not ref.same(raw, goal[0]):
        raise Violation("restored-data-differ", f"{ctx} {goal[3]}: "
                        + (world.diff(raw, goal[0]) or "order of entries"))
    if ops.rep(got.value) != goal[1]:
        raise Violation("restored-values-differ", f"{ctx} {goal[3]}: "
                        f"{ops.rep(got.value)[:600]} instead of "
                        f"{goal[1][:600]}")
