"""C13: the exit status of the command-line tool tells the truth."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from .. import cli, core, env, ops, ref, simfs, variants
from ..core import Violation

PROP = "C13"
RULE = ("seeded sequences of invocations of the command-line tool in one "
        "scratch directory (printing, dumping, validating, on libraries and "
        "on earlier dumps) with faults or a crash at any file operation, "
        "including those on standard output; status, output and dumps are "
        "compared with the results of the library in a process of its own; "
        "non-trivial: a fault hit or the data are invalid; distinct by "
        "invocations, faults and outcomes")
REAL = ["yangson.__main__ and the rest of yangson", "argparse, pickle, json",
        "Python's buffered and text streams",
        "a share of the invocations without faults and with a full device as "
        "standard output run as real processes"]
STUB = ["raw file streams, which inject the faults", "process exit", "clock"]
LISTS = ("calls", "docs")
ASSUMPTIONS = [
    "the status of a process is that of main() or of the exception leaving "
    "it, or 120 if standard output cannot be flushed at exit",
    "a dump damaged other than by truncation or torn writes is out of scope "
    "(pickle data is trusted)"]
NAMES = ["full", "plain", "undev", "base", "alt", "old"]
SUBS = ["sim-a:reset", "sim-a:nope", "reset", "sim-a:sys", "nope:reset",
        "sim-a:alarm", ":", "sim-a:"]
OPDOCS = ops.RPCS[:-1] + [
    ["sim-a:alarm", {"sim-a:what": 5}], ["sim-a:alarm", {"sim-a:nope": 5}],
    ["sim-a:alarm", {}], ["sim-a:reset", {}], ["sim-a:reset", {
        "sim-a:input": {"delay": "x"}}]]
RAWOK = {"RawMemberError", "RawTypeError", "InvalidArgument",
         "NonexistentSchemaNode", "SchemaError", "SemanticError",
         "YangTypeError"}


def prepare(tier):
    pass


def budget(tier):
    return (1500, 150) if tier == "quick" else (60000, 1500)


def gen_doc(r):
    x = r.random()
    if x < .45:
        return ["json", ref.Gen(r, pbad=0, state=r.random() < .5,
                                meta=False).document(valid=True)]
    if x < .7:
        return ["json", ops.variants(r, 1)[0]]
    if x < .82:
        return ["json", ops.gen_docs(r, 1)[0][0]]
    if x < .88:
        return ["json", r.choice([[], 3, None, "x", {"sim-a:nope": 1}, {},
                                  {"a": 1}, {"sim-a:sys": 3},
                                  {"@sim-a:nope": {}}])]
    return ["text", r.choice(["", "{", "{}}", "\x00", "{\"a\":}", "nan",
                              "[1,]", "<a/>", "{\"sim-a:wire\": \"x\"} x"])]


def gen_fault(r, call, ndocs):
    if r.random() < .12:
        return {"kind": "crash", "at": r.choice([0, 1, 2, 5, 20, 60,
                                                 r.randrange(100)])}
    targets = [".stdout"] * 2 if call["action"][0] in "itd" else []
    if call["action"][0] == "D":
        targets += ["out"] * 3
    if call["action"][0] == "v":
        targets += [".json"] * 2
    targets.append("dump" if call["in"].startswith("dump") else "lib.json")
    if not call["in"].startswith("dump"):
        targets += ["yang/", "sim-a", "sim-t@"]
    t = r.choice(targets)
    f = {"file": t, "at": 0}
    if t == ".stdout" or t == "out" and r.random() < .8:
        f["kind"] = r.choice(["write-EIO", "write-EPIPE", "write-EDQUOT",
                              "ENOSPC", "ENOSPC", "short-write"]
                             + (["close-EIO"] if t == "out" else []))
        f["at"] = r.choice([0, 0, 1, 2])
    else:
        f["kind"] = r.choice(["ENOENT", "EACCES", "EMFILE", "EIO", "read-EIO",
                              "short", "trunc", "zeros", "trunc"
                              if t == "dump" else "flip"])
    f["x"] = r.choice([0, .999, r.random()])
    if f["kind"] in ("short", "short-write") or r.random() < .3:
        f["sticky"] = True
    return f


def gen(r, i, tier):
    name = r.choice(NAMES)
    docs = [gen_doc(r) for _ in range(r.choice([1, 2, 3]))]
    docs = [[k, variants.prune(d, name) if k == "json" else d]
            for k, d in docs]
    calls = []
    dumps = 0
    for _ in range(r.choice([2, 3, 5])):
        c = {"in": "lib"}
        if dumps and r.random() < .45:
            c["in"] = f"dump{r.randrange(dumps)}"
        elif r.random() < .12:
            c["in"] = r.choice(["nolib", "badlib", "dir", "dump9", "notyang",
                                "wrongpath", "both"])
        x = r.random()
        if x < .4:
            c["action"] = ["v", r.randrange(len(docs))]
            if r.random() < .04:
                c["action"][1] = 99
        elif x < .6:
            c["action"] = ["D", dumps]
            dumps += 1
        elif x < .92:
            c["action"] = [r.choice("itdd")]
        else:
            c["action"] = r.choice([["none"], ["bad"]])
        c["scope"] = r.choice([None, None, "all", "syntax", "semantics"])
        c["ctype"] = r.choice([None, None, "all", "config", "nonconfig"])
        c["notypes"] = r.random() < .3
        c["sub"] = None
        if c["action"][0] == "v" and r.random() < .2:
            c["sub"] = r.choice(SUBS)
            if r.random() < .7:         # data meant for an operation
                c["sub"], d = r.choice(OPDOCS)
                c["action"][1] = len(docs)
                docs.append(["json", d])
        c["over"] = r.random() < .3     # dump over an existing file
        c["how"] = r.choice(["-p", "-p", "env", "cwd", "api"])
        c["faults"] = [gen_fault(r, c, len(docs)) for _ in range(
            r.choice([0, 0, 1, 1, 2]))]
        c["real"] = r.random() < .04
        calls.append(c)
    return {"name": name, "docs": docs, "calls": calls}


def answer(dm, q):
    """What the library says, for comparison."""
    from yangson.enumerations import ContentType, ValidationScope
    if q[0] == "i":
        return dm.module_set_id() + "\n"
    if q[0] == "t":
        return dm.ascii_tree(q[1]) + "\n"
    if q[0] == "d":
        return dm.schema_digest() + "\n"
    _, text, scope, ctype, sub = q
    try:
        raw = json.loads(text)
    except ValueError:
        return ["no-json"]
    try:
        inst = dm.from_raw(raw, sub) if sub else dm.from_raw(raw)
        inst.validate(getattr(ValidationScope, scope),
                      getattr(ContentType, ctype))
    except Exception as e:
        return ["refused", type(e).__name__]
    return ["valid"]


def run(scn):
    root = tempfile.mkdtemp(prefix="c13-")
    try:
        return _run(scn, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(scn, root):
    txt, path, _ = variants.VARIANTS[scn["name"]]
    ydir = os.path.join(root, "yang")
    shutil.copytree(path[0], ydir, ignore=shutil.ignore_patterns(
        "alt", "ietf"))
    lib = os.path.join(root, "lib.json")
    put(lib, txt)
    put(os.path.join(root, "badlib"), "{\"a\": 1}")
    put(os.path.join(root, "notyang"), "x")
    texts = []
    for n, (k, d) in enumerate(scn["docs"]):
        t = json.dumps(d) if k == "json" else d
        texts.append(t)
        put(os.path.join(root, f"doc{n}.json"), t)
    box = {}
    api = core.Pristine(lambda q: answer(box["dm"], q),
                        lambda: box.update(dm=variants.load(scn["name"])))
    dumps = {}          # number -> "good" or "doubtful"
    st = {"invocations": 0, "faults": {}, "statuses": {}}
    sig = []
    for n, c in enumerate(scn["calls"]):
        argv, kw, environ, cwd = arguments(c, root, ydir, lib)
        exp = expected(c, api, texts, dumps)
        if c["action"][0] == "D" and c["over"]:
            put(os.path.join(root, f"out-dump{c['action'][1]}"),
                "something old\n" * 20)
        res = cli.invoke(root, entry(), argv, c["faults"], cwd, environ, kw)
        ctx = (f"call {n}: yangson {' '.join(argv[1:]) if kw is None else kw}"
               f" ({c['how']}), faults {res['fired']}")
        st["invocations"] += 1
        for k, f in res["fired"]:
            st["faults"][k] = st["faults"].get(k, 0) + 1
        bump(st["statuses"], str(res["status"]))
        judge(ctx, c, res, exp, api, dumps, root, scn, st)
        if res["fired"] or exp["status"] != 0:
            sig.append([c["action"], c["in"], res["fired"], res["status"]])
        if c["real"] and not c["faults"] and kw is None and not (
                c["in"].startswith("dump") and
                dumps.get(int(c["in"][4:])) == "doubtful"):
            real(ctx, c, argv, environ, cwd, exp, st)
    if sig:
        st["sig"] = core.digest([scn["name"], sig])
    return st


def entry():
    import yangson.__main__
    return yangson.__main__.main


def put(fn, text):
    with open(fn, "w", encoding="utf-8") as f:
        f.write(text)


def bump(d, k):
    d[k] = d.get(k, 0) + 1


def arguments(c, root, ydir, lib):
    """Command line, or keyword arguments of main(), environment, cwd."""
    src = {"lib": lib, "wrongpath": lib, "both": lib,
           "nolib": os.path.join(root, "nolib"),
           "badlib": os.path.join(root, "badlib"),
           "notyang": os.path.join(root, "notyang"), "dir": root}.get(
               c["in"]) or os.path.join(root, c["in"])
    pick = c["in"].startswith("dump") or c["in"] == "both"
    ypath = ydir if c["in"] != "wrongpath" else os.path.join(root, "none")
    environ = {"YANG_MODPATH": None}
    cwd = root
    act = c["action"]
    # dumps are written under another name than they are read from, so that
    # faults can tell the two apart
    target = {"D": os.path.join(root, f"out-dump{act[-1]}"),
              "v": os.path.join(root, f"doc{act[-1]}.json")}.get(act[0])
    if c["how"] == "api":
        from yangson.enumerations import ContentType, ValidationScope
        kw = {"infile": src, "pickled": pick, "path": ypath}
        if c["scope"]:
            kw["scope"] = ValidationScope[c["scope"]]
        if c["ctype"]:
            kw["ctype"] = ContentType[c["ctype"]]
        if c["notypes"]:
            kw["no_types"] = True
        if c["sub"]:
            kw["subschema"] = c["sub"]
        k = {"i": "set_id", "t": "tree", "d": "digest"}.get(act[0])
        if k:
            kw[k] = True
        elif act[0] == "D":
            kw["dump"] = target
        elif act[0] == "v":
            kw["validate"] = target
        return ["yangson"], kw, environ, cwd
    argv = ["yangson"]
    if pick:
        argv.append("-P")
    if not pick or c["in"] == "both":
        if c["how"] == "-p" or c["in"] == "both":
            argv += ["-p", os.path.join(root, "none") + ":" + ypath]
        elif c["how"] == "env":
            environ["YANG_MODPATH"] = ypath + ":" + os.path.join(root, "x")
        else:
            cwd = ypath if os.path.isdir(ypath) else root
    if act[0] == "v":
        argv += ["-v", target]
    elif act[0] == "D":
        argv += ["--dump", target]
    elif act[0] == "bad":
        argv += ["-t", "-d"]
    elif act[0] != "none":
        argv.append("-" + act[0])
    if c["scope"]:
        argv += ["-s", c["scope"]]
    if c["ctype"]:
        argv += ["--ctype", c["ctype"]]
    if c["sub"]:
        argv += ["-S", c["sub"]]
    if c["notypes"]:
        argv.append("-n")
    argv.append(src)
    return argv, None, environ, cwd


def expected(c, api, texts, dumps):
    """Status (None: any but 0) and output without faults."""
    bad = {"status": None, "out": None}
    act = c["action"]
    if act[0] == "bad" and c["how"] != "api":
        return bad
    if c["in"] == "both":       # -p excludes -P; as keywords: not a dump
        return bad
    if c["in"].startswith("dump"):
        if int(c["in"][4:]) not in dumps:
            return bad
    elif c["in"] != "lib":
        return bad
    if act[0] in ("i", "t", "d"):
        q = [act[0]] + ([c["notypes"]] if act[0] == "t" else [])
        return {"status": 0, "out": api.ask(q)}
    if act[0] == "v":
        if act[1] >= len(texts):
            return bad
        a = api.ask(["v", texts[act[1]], c["scope"] or "all",
                     c["ctype"] or "all", c["sub"]])
        if a[0] == "valid":
            return {"status": 0, "out": ""}
        if a[0] == "refused" and a[1] in RAWOK:
            return {"status": 3, "out": None}
        return bad
    return {"status": 0, "out": ""}


def judge(ctx, c, res, exp, api, dumps, root, scn, st):
    status = res["status"]
    act = c["action"]
    doubtful = c["in"].startswith("dump") and \
        dumps.get(int(c["in"][4:])) == "doubtful"
    harmed = doubtful or any(f[0] not in simfs.HARMLESS
                             for f in res["fired"])
    err = res["stderr"][-300:]
    if status == 99:
        raise core.HarnessError(ctx + err)
    if status == 0:
        if exp["status"] != 0:
            raise Violation("false-success", f"{ctx}: status 0 instead of "
                            f"{exp['status'] or 'failure'}")
        if res["stdout"] != exp["out"]:
            raise Violation("incomplete-output", f"{ctx}: status 0 but "
                            f"{len(res['stdout'])} characters of output "
                            f"instead of {len(exp['out'])}, or others")
    elif not harmed:
        if exp["status"] == 0:
            raise Violation("false-failure", f"{ctx}: status {status}, "
                            f"nothing was wrong: {err}")
        if exp["status"] == 3 and status != 3:
            raise Violation("wrong-status", f"{ctx}: status {status} for "
                            f"invalid data: {err}")
    if act[0] == "D":
        src, dst = (os.path.join(root, f"{p}dump{act[1]}")
                    for p in ("out-", ""))
        if status == 0:
            if not os.path.exists(src):
                raise Violation("no-dump", f"{ctx}: status 0 without a dump")
            os.replace(src, dst)
            dumps[act[1]] = "good"
            r2 = cli.invoke(root, entry(), ["yangson", "-P", dst, "-d"])
            if r2["status"] or r2["stdout"] != api.ask(["d"]):
                raise Violation("bad-dump", f"{ctx}: status 0, using the "
                                f"dump gives status {r2['status']}: "
                                f"{r2['stderr'][-200:]}")
            bump(st, "dumps_verified")
        elif os.path.exists(src):
            os.replace(src, dst)
            dumps[act[1]] = "doubtful"
            bump(st, "damaged_dumps")


def real(ctx, c, argv, environ, cwd, exp, st):
    """The same invocation as a process of its own."""
    e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1")
    e.pop("YANG_MODPATH", None)
    e.update({k: v for k, v in environ.items() if v})
    cmd = [sys.executable, "-m", "yangson"] + argv[1:]
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                       timeout=50)
    bump(st, "real_processes")
    if exp["status"] == 0 and (p.returncode or p.stdout != exp["out"]) or \
            exp["status"] != 0 and not p.returncode or \
            exp["status"] == 3 and p.returncode != 3:
        raise Violation("real-process", f"{ctx}: as a process: status "
                        f"{p.returncode} {p.stderr[-300:]}")
    if c["action"][0] in ("t", "d") and exp["status"] == 0:
        with open("/dev/full", "w") as full:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=full,
                               stderr=subprocess.PIPE, timeout=50)
        bump(st["faults"], "device_full")
        if p.returncode == 0:
            raise Violation("false-success", f"{ctx}: status 0 although "
                            "standard output is full")


def simplify(scn):
    for i, c in enumerate(scn["calls"]):
        for j in range(len(c["faults"])):
            s = json.loads(json.dumps(scn))
            del s["calls"][i]["faults"][j]
            yield s
        for k, v in (("scope", None), ("ctype", None), ("notypes", False),
                     ("sub", None), ("how", "-p"), ("real", False)):
            if c[k] != v:
                s = json.loads(json.dumps(scn))
                s["calls"][i][k] = v
                yield s
