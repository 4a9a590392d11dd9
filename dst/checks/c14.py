"""C14: conversion of YANG library data is faithful or fails visibly."""
import copy
import json
import os
import shutil
import tempfile

from .. import cli, core, env, simfs, variants
from ..core import Violation

PROP = "C14"
RULE = ("seeded library descriptions with several module sets, schemas and "
        "datastores, valid or damaged in a known way, converted by the "
        "converter with faults or a crash at any file operation; the output "
        "is compared with a conversion written independently, and the model "
        "loaded from it with the one described; non-trivial: converted or "
        "a fault hit; distinct by input, options and outcome")
REAL = ["yangson.convert8525 and the rest of yangson", "argparse, json",
        "Python's buffered and text streams"]
STUB = ["raw file streams, which inject the faults", "process exit", "clock"]
LISTS = ("calls",)
ASSUMPTIONS = ["module sets of one schema agree on the modules they share, "
               "as RFC 8525 demands"]
YL = "ietf-yang-library:yang-library"
REVS = ["2019-12-31", "2020-01-01", "2021-06-30"]
FEATS = ["f1", "f2", "fast-path", "z"]
IETF = os.path.join(env.YANG, "ietf")


def prepare(tier):
    pass


def budget(tier):
    return (2000, 150) if tier == "quick" else (100000, 1500)


def sim_modules(r):
    """Entries for the simulated modules, as (module, import_only)."""
    out = []
    drop = r.choice([[], [], ["sim-d"], ["sim-d", "sim-c"],
                     ["sim-b", "sim-c", "sim-d"]])
    for m in variants.LIB[variants.MS]["module"]:
        if m["name"] in drop:
            continue
        e = {"name": m["name"], "revision": m["revision"],
             "namespace": m["namespace"]}
        if "submodule" in m:
            e["submodule"] = copy.deepcopy(m["submodule"])
        if "feature" in m and r.random() < .7:
            e["feature"] = r.sample(m["feature"], r.randint(
                1, len(m["feature"])))
        if m["name"] == "sim-a" and "sim-d" not in drop:
            e["deviation"] = ["sim-d"]
        out.append([e, m["conformance-type"] == "import"])
    if r.random() < .3:
        out.append([{"name": "sim-t", "revision": "2023-05-05",
                     "namespace": "urn:sim:t"}, True])
    return out


def other_modules(r):
    out = []
    names = r.sample(["acme", "acme-x", "b2", "c_d", "e.f", "zz"],
                     r.randint(1, 5))
    for n in names:
        for _ in range(r.choice([1, 1, 2])):
            e = {"name": n, "namespace": f"urn:{n}:{r.randrange(3)}"}
            imp = r.random() < .35
            if imp or r.random() < .8:
                e["revision"] = r.choice(REVS) if not imp or \
                    r.random() < .8 else ""
            if r.random() < .3:
                e["location"] = [f"http://x/{n}/{k}" for k in
                                 range(r.choice([1, 2, 3]))]
            if r.random() < .4:
                e["submodule"] = []
                for s in range(r.choice([1, 2, 3])):
                    x = {"name": f"{n}-s{s}"}
                    if r.random() < .7:
                        x["revision"] = r.choice(REVS)
                    if r.random() < .2:
                        x["location"] = ["ftp://sub"]
                    e["submodule"].append(x)
            if not imp and r.random() < .5:
                e["feature"] = r.sample(FEATS, r.randint(1, 4))
            if not any(o[0]["name"] == n and
                       (o[1] == imp == False or o[0].get("revision", "") ==
                        e.get("revision", "")) for o in out):
                out.append([e, imp])
    return out


def gen(r, i, tier):
    mods = sim_modules(r) if r.random() < .45 else other_modules(r)
    sets = []
    for k in range(r.choice([1, 2, 3, 4])):
        name = r.choice(["s", "common", "set é", "x/y", "q'z"]) + str(k)
        ms = {"name": name}
        chosen = [m for m in mods if r.random() < (1 if k == 0 and
                                                   r.random() < .6 else .5)]
        alien = k > 0 and r.random() < .3   # may not share a schema
        r.shuffle(chosen)
        for e, imp in chosen:
            e = copy.deepcopy(e)
            if alien:
                e["revision"] = r.choice(REVS)
                e.pop("feature", None)
            if not imp and e.get("deviation") is None and r.random() < .2:
                # the very same module for reuse only, in this set
                if "revision" in e and not alien:
                    imp = True
            if imp:
                e.pop("feature", None)
                e.pop("deviation", None)
                lst = ms.setdefault("import-only-module", [])
                if any(x["name"] == e["name"] and x["revision"] ==
                       e["revision"] for x in lst):
                    continue
            else:
                lst = ms.setdefault("module", [])
                if any(x["name"] == e["name"] for x in lst):
                    continue
            lst.append(e)
        here = {e["name"] for e in ms.get("module", [])}
        for e in list(ms.get("module", [])):
            for d in e.get("deviation", []):
                if d not in here:       # must be in the same set
                    ms["module"].append(copy.deepcopy(next(
                        m for m, _ in mods if m["name"] == d)))
        ms["_alien"] = alien
        sets.append(ms)
    # additional deviations, equal wherever the module is implemented
    if r.random() < .4 and len(sets) == 1:
        here = [e["name"] for e in sets[0].get("module", [])]
        for e in sets[0].get("module", []):
            c = [d for d in here if d != e["name"]]
            if c and r.random() < .4 and not e["name"].startswith("sim"):
                e["deviation"] = r.sample(c, r.randint(1, min(3, len(c))))
    schemas = []
    for k in range(r.choice([1, 2, 3])):
        pool = [s["name"] for s in sets if not s["_alien"]]
        if not pool or r.random() < .25 and len(sets) > len(pool):
            pool = [r.choice(sets)["name"]]
        use = r.sample(pool, r.randint(1, len(pool)))
        schemas.append({"name": f"schema-{k}" + r.choice(["", " é", "'"]),
                        "module-set": use})
    dss = []
    for d in r.sample(["running", "operational", "candidate", "startup",
                       "intended", "running"], r.randint(1, 4)):
        if not any(x["name"].endswith(d) for x in dss):
            dss.append({"name": "ietf-datastores:" + d,
                        "schema": r.choice(schemas)["name"]})
    for s in sets:
        del s["_alien"]
    doc = {YL: {"content-id": r.choice(["1", "č 7", "", "a" * 40]),
                "module-set": sets, "schema": schemas, "datastore": dss}}
    calls = []
    for _ in range(r.choice([1, 2, 3])):
        c = {"out": r.choice(["-o", "-o", "stdout", "long"]),
             "how": r.choice(["-p", "env", "cwd"]), "faults": [], "bad": None}
        x = r.random()
        if x < .35:
            c["sel"] = None
        elif x < .65:
            c["sel"] = ["-s", r.choice(schemas)["name"]
                        if r.random() < .9 else "nope"]
        else:
            c["sel"] = ["-d", r.choice(["running", "operational",
                                        "candidate", "startup"])]
        if r.random() < .25:
            c["bad"] = [r.choice(BAD), r.randrange(1000)]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            c["faults"].append(gen_fault(r, c))
        if r.random() < .05:
            c["out"] = r.choice(["nodir", "isdir"])
        calls.append(c)
    return {"doc": doc, "calls": calls}


def gen_fault(r, c):
    if r.random() < .15:
        return {"kind": "crash", "at": r.choice([0, 1, 5, 10, 20, 30, 40,
                                                 r.randrange(60)])}
    t = r.choice(["in.json", "in.json", "ietf/", "yang-library@2019",
                  "yang-library@2016", ".stdout" if c["out"] == "stdout"
                  else "out.json", ".stdout" if c["out"] == "stdout"
                  else "out.json"])
    f = {"file": t, "at": r.choice([0, 0, 1]), "x": r.choice(
        [0, .999, r.random()])}
    if t == ".stdout" or t == "out.json" and r.random() < .85:
        f["kind"] = r.choice(["write-EIO", "write-EPIPE", "write-EDQUOT",
                              "ENOSPC", "ENOSPC", "short-write"]
                             + (["close-EIO"] if t == "out.json" else []))
        f["at"] = 0
    else:
        f["kind"] = r.choice(["ENOENT", "EACCES", "EMFILE", "EIO", "read-EIO",
                              "short", "trunc", "zeros", "flip"])
    if f["kind"] in ("short", "short-write") or r.random() < .3:
        f["sticky"] = True
    return f


BAD = ["nofile", "cut", "noschemaref", "nosetref", "nons", "noid", "dupset",
       "dupmod", "dupio", "unknown", "type", "dangdev", "badname", "badrev",
       "toplevel", "notjson", "dsname", "config", "noname", "dupsub"]


def spoil(doc, bad):
    """The document made invalid; text of the file, or None."""
    kind, n = bad
    if kind == "nofile":
        return None
    if kind == "notjson":
        return "<yang-library/>"
    doc = copy.deepcopy(doc)
    y = doc[YL]
    mods = [(s, e) for s in y["module-set"] for e in s.get("module", [])]
    ios = [(s, e) for s in y["module-set"]
           for e in s.get("import-only-module", [])]
    any_ = mods + ios
    subs = [e for _, e in any_ if e.get("submodule")]
    if kind == "cut":
        t = json.dumps(doc)
        return t[:n % len(t)]
    if kind == "noschemaref":
        y["datastore"][n % len(y["datastore"])]["schema"] = "none"
    elif kind == "nosetref":
        s = y["schema"][n % len(y["schema"])]
        s["module-set"][n % len(s["module-set"])] = "none"
    elif kind == "noid":
        del y["content-id"]
    elif kind == "dupset":
        y["module-set"].append(copy.deepcopy(y["module-set"][0]))
    elif kind == "unknown":
        y["x"] = 1
    elif kind == "type":
        y["content-id"] = 3
    elif kind == "toplevel":
        doc["ietf-yang-library:nope"] = {}
    elif kind == "dsname":
        y["datastore"][0]["name"] = "running"
    elif kind == "config":
        y["module-set"][0].pop("name")
    elif not any_:
        del y["content-id"]
    elif kind == "nons":
        del any_[n % len(any_)][1]["namespace"]
    elif kind == "noname":
        del any_[n % len(any_)][1]["name"]
    elif kind == "badname":
        any_[n % len(any_)][1]["name"] = "0x"
    elif kind == "badrev":
        any_[n % len(any_)][1]["revision"] = "2020-1-1"
    elif kind == "dupmod" and mods:
        s, e = mods[n % len(mods)]
        s["module"].append(dict(e, namespace="urn:dup"))
    elif kind == "dupio" and ios:
        s, e = ios[n % len(ios)]
        s["import-only-module"].append(dict(e, namespace="urn:dup"))
    elif kind == "dangdev" and mods:
        mods[n % len(mods)][1]["deviation"] = ["not-there"]
    elif kind == "dupsub" and subs:
        e = subs[n % len(subs)]
        e["submodule"].append(dict(e["submodule"][0]))
    else:
        del y["content-id"]
    return json.dumps(doc, ensure_ascii=False)


def convert(doc, sel):
    """Independent conversion: None if there is no such schema."""
    y = doc[YL]
    if sel and sel[0] == "-s":
        schema = sel[1]
    else:
        want = "ietf-datastores:" + (sel[1] if sel else "running")
        schema = next((d["schema"] for d in y["datastore"]
                       if d["name"] == want), None)
    sch = next((s for s in y["schema"] if s["name"] == schema), None)
    if sch is None:
        return None
    res = {}
    for ms in y["module-set"]:
        if ms["name"] not in sch["module-set"]:
            continue
        revs = {e["name"]: e.get("revision", "") for e in
                ms.get("module", [])}
        for imp, lst in ((False, ms.get("module", [])),
                         (True, ms.get("import-only-module", []))):
            for e in lst:
                key = (e["name"], e.get("revision", ""))
                if imp and key in res and not res[key]["import"]:
                    continue
                res[key] = {
                    "import": imp, "ns": e["namespace"],
                    "loc": sorted(e.get("location", [])),
                    "feature": sorted(e.get("feature", [])),
                    "dev": sorted([d, revs[d]]
                                  for d in e.get("deviation", [])),
                    "sub": sorted([s["name"], s.get("revision", ""),
                                   sorted(s.get("location", []))]
                                  for s in e.get("submodule", []))}
    return res


def as_7895(res):
    mods = []
    for (n, v), e in sorted(res.items()):
        m = {"name": n, "revision": v, "namespace": e["ns"],
             "conformance-type": "import" if e["import"] else "implement"}
        if e["feature"]:
            m["feature"] = e["feature"]
        if e["sub"]:
            m["submodule"] = [{"name": a, "revision": b}
                              for a, b, _ in e["sub"]]
        mods.append(m)
    return json.dumps({variants.MS: {"module-set-id": "x", "module": mods}})


def check_output(ctx, text, res, cid):
    try:
        out = json.loads(text)
    except ValueError:
        raise Violation("incomplete-output", f"{ctx}: status 0 but the "
                        f"output is not JSON: {text[-200:]!r}") from None
    top = out.get(variants.MS, {})
    if set(out) != {variants.MS} or top.get("module-set-id") != cid:
        raise Violation("wrong-output", f"{ctx}: {text[:300]}")
    got = {}
    locs = {}
    for m in top.get("module", []):
        key = (m["name"], m["revision"])
        if key in got:
            raise Violation("duplicate", f"{ctx}: {key} listed twice")
        ct = m["conformance-type"]
        if ct not in ("import", "implement"):
            raise Violation("wrong-output", f"{ctx}: {m}")
        got[key] = {"import": ct == "import", "ns": m["namespace"],
                    "feature": sorted(m.get("feature", [])),
                    "dev": sorted([d["name"], d["revision"]]
                                  for d in m.get("deviation", [])),
                    "sub": sorted([s["name"], s["revision"]]
                                  for s in m.get("submodule", []))}
        locs[key] = [m.get("schema")] + [
            s.get("schema") for s in sorted(
                m.get("submodule", []), key=lambda s: s["name"])]
    exp = {}
    for key, e in res.items():
        exp[key] = {k: e[k] for k in ("import", "ns", "feature", "dev")}
        exp[key]["sub"] = [s[:2] for s in e["sub"]]
    if got != exp:
        d = {str(k): [got.get(k), exp.get(k)] for k in set(got) | set(exp)
             if got.get(k) != exp.get(k)}
        raise Violation("wrong-output", f"{ctx}: [real, expected] {d}")
    for key, e in res.items():
        for have, may in zip(locs[key], [e["loc"]] + [s[2] for s in
                                                      e["sub"]]):
            if bool(have) != bool(may) or have and have not in may:
                raise Violation("wrong-location", f"{ctx}: {key}: {have} "
                                f"instead of one of {may}")


def run(scn):
    root = tempfile.mkdtemp(prefix="c14-")
    try:
        return _run(scn, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(scn, root):
    import yangson.convert8525
    shutil.copytree(IETF, os.path.join(root, "ietf"))
    os.mkdir(os.path.join(root, "adir"))
    st = {"invocations": 0, "faults": {}, "converted": 0, "models": 0}
    sig = []
    for n, c in enumerate(scn["calls"]):
        inp = os.path.join(root, "in.json")
        text = (spoil(scn["doc"], c["bad"]) if c["bad"] else
                json.dumps(scn["doc"], ensure_ascii=False))
        if os.path.exists(inp):
            os.unlink(inp)
        if text is not None:
            with open(inp, "w", encoding="utf-8") as f:
                f.write(text)
        outf = os.path.join(root, f"out.json{n}")
        argv, environ, cwd = arguments(c, root, inp, outf)
        want = None
        if not c["bad"] and c["out"] not in ("nodir", "isdir"):
            want = convert(scn["doc"], c["sel"])
        r = cli.invoke(root, yangson.convert8525.main, argv, c["faults"], cwd,
                       environ)
        st["invocations"] += 1
        for k, f in r["fired"]:
            st["faults"][k] = st["faults"].get(k, 0) + 1
        if c["bad"]:
            k = "input_" + c["bad"][0]
            st["faults"][k] = st["faults"].get(k, 0) + 1
        ctx = (f"call {n}: convert8525 {' '.join(argv[1:])}, bad={c['bad']}, "
               f"faults {r['fired']}")
        harmed = any(f[0] not in simfs.HARMLESS for f in r["fired"])
        status = r["status"]
        if status == 99:
            raise core.HarnessError(ctx + r["stderr"])
        if status == 0:
            if want is None:
                raise Violation("false-success", f"{ctx}: status 0")
            if c["out"] == "stdout":
                out = r["stdout"]
            else:
                try:
                    with open(outf, encoding="utf-8") as f:
                        out = f.read()
                except FileNotFoundError:
                    raise Violation("no-output", f"{ctx}: status 0 but no "
                                    "output file") from None
                if r["stdout"]:
                    raise Violation("stray-output", f"{ctx}: "
                                    f"{r['stdout'][:200]}")
            check_output(ctx, out, want, scn["doc"][YL]["content-id"])
            st["converted"] += 1
            if any(k[0].startswith("sim-") for k in want):
                same_model(ctx, out, want, st)
        elif want is not None and not harmed:
            raise Violation("false-failure", f"{ctx}: status {status}: "
                            f"{r['stderr'][-500:]}")
        if status == 0 or r["fired"]:
            sig.append([c["sel"], c["bad"], r["fired"], status])
    if sig:
        st["sig"] = core.digest([scn["doc"], sig])
    return st


def same_model(ctx, out, want, st):
    from yangson import DataModel

    def load(txt):
        try:
            dm = DataModel(txt, (env.YANG,))
        except Exception as e:
            return [type(e).__name__, str(e)]
        st["models"] += 1
        dg = json.loads(dm.schema_digest())
        dg.pop("description", None)     # the content-id of the library
        return [dm.module_set_id(), dg]
    a, b = load(out), load(as_7895(want))
    if a != b and (len(a[0]) == 40 or len(b[0]) == 40):
        raise Violation("wrong-model", f"{ctx}: the model loaded from the "
                        f"output is not the one described: {str(a)[:300]} "
                        f"{str(b)[:300]}")


def arguments(c, root, inp, outf):
    argv = ["convert8525"]
    environ = {"YANG_MODPATH": None}
    cwd = root
    ietf = os.path.join(root, "ietf")
    if c["how"] == "-p":
        argv += ["-p", os.path.join(root, "adir") + ":" + ietf]
    elif c["how"] == "env":
        environ["YANG_MODPATH"] = ietf
    else:
        cwd = ietf
    if c["sel"]:
        argv += c["sel"]
    if c["out"] == "nodir":
        outf = os.path.join(root, "none", "out.json")
    elif c["out"] == "isdir":
        outf = os.path.join(root, "adir")
    if c["out"] == "long":
        argv += ["--output", outf]
    elif c["out"] != "stdout":
        argv += ["-o", outf]
    argv.append(inp)
    return argv, environ, cwd


def simplify(scn):
    for i, c in enumerate(scn["calls"]):
        for j in range(len(c["faults"])):
            s = copy.deepcopy(scn)
            del s["calls"][i]["faults"][j]
            yield s
    y = scn["doc"][YL]
    for i, ms in enumerate(y["module-set"]):
        for k in ("module", "import-only-module"):
            for j in range(len(ms.get(k, []))):
                s = copy.deepcopy(scn)
                m = s["doc"][YL]["module-set"][i]
                gone = m[k].pop(j)["name"]
                if any(gone in e.get("deviation", [])
                       for e in m.get("module", [])):
                    continue
                if not m[k]:
                    del m[k]
                yield s
    for i in range(len(y["datastore"])):
        if len(y["datastore"]) > 1:
            s = copy.deepcopy(scn)
            del s["doc"][YL]["datastore"][i]
            yield s
