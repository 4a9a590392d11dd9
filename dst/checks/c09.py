"""C09: loading the same library always gives the same model."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .. import core, env, mgen, ops, variants
from ..core import Violation

PROP = "C09"
RULE = ("seeded sequences of loads in interpreters started with random hash "
        "seeds: libraries with entries, features and submodules in any "
        "order, after loads of other models; compared with one load in an "
        "interpreter of its own; non-trivial: at least one load from a "
        "permuted library; distinct by hash seed and loads")
REAL = ["yangson (all of it) in child interpreters", "the file system"]
STUB = ["clock", "hash seed of the interpreter"]
LISTS = ("jobs", "docs")
ASSUMPTIONS = ["the module sets are ten hand-written ones and generated ones"]
MODELS = .4
CHILD = os.path.join(env.VERIF, "dst", "child09.py")
NAMES = sorted(variants.VARIANTS)


def prepare(tier):
    pass


def use_model(spec):
    pass        # loaded in child interpreters only


def budget(tier):
    return (300, 150) if tier == "quick" else (30000, 1500)


def permuted(txt, seed):
    lib = json.loads(txt)
    if seed is None:
        return txt
    r = random.Random(seed)
    mods = lib[variants.MS]["module"]
    r.shuffle(mods)
    for m in mods:
        for k in ("feature", "submodule"):
            if k in m:
                r.shuffle(m[k])
    lib[variants.MS]["module"] = [dict(r.sample(sorted(m.items()), len(m)))
                                  for m in mods]
    return json.dumps(lib)


def gen(r, i, tier):
    docs = ops.variants(r, 2) + ops.gen_docs(r, 2)[0]
    jobs = []
    names = NAMES
    if mgen.CTX:
        names = ["gen"] * 4 + r.sample(NAMES, 1)
        docs = ops.gen_docs(r, 3)[0]
    for _ in range(r.choice([2, 3, 5])):
        jobs.append([r.choice(names), None if r.random() < .35 else
                     r.randrange(1 << 30)])
    return {"docs": docs, "jobs": jobs,
            "hash": [r.choice([0, 1, r.randrange(1 << 32)]),
                     r.randrange(1 << 32)]}


def ask(jobs, docs, hashseed, spec=None):
    if spec:
        d = tempfile.mkdtemp(prefix="verif-c09-", dir="/dev/shm" if
                             os.path.isdir("/dev/shm") else None)
        try:
            txt = mgen.write(spec, d)
            return ask_(jobs, docs, hashseed, (txt, [d, env.YANG]))
        finally:
            shutil.rmtree(d, True)
    return ask_(jobs, docs, hashseed)


def ask_(jobs, docs, hashseed, gen=None):
    req = []
    for name, seed in jobs:
        if name == "gen":
            txt, path = gen
        else:
            txt, path, _ = variants.VARIANTS[name]
        if gen:
            mine = docs if name == "gen" else []
        else:
            mine = [variants.prune(d, name) for d in docs]
        req.append({"lib": permuted(txt, seed), "path": path, "docs": mine})
    p = subprocess.run(
        [sys.executable, "-B", CHILD], input=json.dumps(
            {"jobs": req, "docs": []}), capture_output=True, text=True,
        env=dict(os.environ, PYTHONHASHSEED=str(hashseed)), timeout=50)
    if p.returncode:
        raise core.HarnessError("child: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def verdicts(docs):
    """What does not depend on the order of checks."""
    return [[d[0][0], d[1]] for d in docs]


def run(scn):
    names = sorted({j[0] for j in scn["jobs"]})
    h1, h2 = scn["hash"]
    spec = scn.get("model")
    # each in the plain order; the first of a process is alone there
    base = {}
    for n in names[:1]:
        base[n] = ask([[n, None]], scn["docs"], h1, spec)[0]
    got = ask(scn["jobs"], scn["docs"], h2, spec)
    rest = [n for n in names[1:]]
    for n in rest:
        base[n] = ask([[n, None]], scn["docs"], h1, spec)[0]
    for j, (n, seed) in enumerate(scn["jobs"]):
        ctx = f"load {j} of {n} under hash seed {h2}"
        a, b = base[n], got[j]
        if "error" in a or "error" in b:
            raise Violation("load-failed", f"{ctx}: {a.get('error')} "
                            f"{b.get('error')}")
        if a["msid"] != b["msid"]:
            raise Violation("module-set-id-differs", ctx)
        if seed is None:
            for k in ("digest", "tree"):
                if a[k] != b[k]:
                    raise Violation(k + "-differs", f"{ctx}: "
                                    + where(a[k], b[k]))
            if a["docs"] != b["docs"]:
                raise Violation("behaviour-differs", f"{ctx}: "
                                + where(str(a["docs"]), str(b["docs"])))
            continue
        ctx += f" in order {seed}"
        if json.loads(a["digest"]) != json.loads(b["digest"]):
            raise Violation("digest-differs", f"{ctx}: " + where(
                json.dumps(json.loads(a["digest"]), sort_keys=True),
                json.dumps(json.loads(b["digest"]), sort_keys=True)))
        if lines(a["tree"]) != lines(b["tree"]):
            raise Violation("tree-differs", f"{ctx}: "
                            f"{lines(a['tree']) ^ lines(b['tree'])}"[:600])
        if verdicts(a["docs"]) != verdicts(b["docs"]):
            raise Violation("behaviour-differs", f"{ctx}: " + where(
                str(verdicts(a["docs"])), str(verdicts(b["docs"]))))
    st = {"loads": len(scn["jobs"]) + len(names), "interpreters":
          1 + len(names), "documents": len(scn["docs"]) * len(scn["jobs"]),
          "faults": {"library_permuted": sum(
              j[1] is not None for j in scn["jobs"]), "hash_seed": 2}}
    if any(j[1] is not None for j in scn["jobs"]):
        st["sig"] = core.digest([scn["jobs"], scn["hash"]])
    return st


def lines(tree):
    return {x.strip(" |") for x in tree.splitlines()}


def where(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    return f"...{a[max(0, i - 80):i + 120]} | ...{b[max(0, i - 80):i + 120]}"
