"""C07: loading a model under I/O faults is all or nothing and can be retried."""
import json
import os
import shutil
import tempfile

from .. import core, env, ops, ref, simfs, variants
from ..core import Violation

PROP = "C07"
RULE = ("seeded sequences of loads from several search directories with "
        "faults aimed at any opening or reading of the YANG library or a "
        "module, between uses of a model loaded before, then a load without "
        "faults; compared with an undisturbed load; non-trivial: at least "
        "one fault hit; distinct by layout, faults that hit and outcomes")
REAL = ["yangson (all of it)", "Python's buffered and text streams",
        "files in a scratch directory"]
STUB = ["raw file streams, which inject the faults", "clock"]
LISTS = ("rounds", "rounds.*", "docs", "decoys", "layout")
ASSUMPTIONS = [
    "ten hand-written module sets",
    "a fault that replaces contents by other well-formed contents with the "
    "same module name and revision cannot be noticed and is not injected"]
NAMES = sorted(variants.VARIANTS)


def prepare(tier):
    pass


def budget(tier):
    return (1800, 150) if tier == "quick" else (60000, 1500)


def files_of(name):
    """Names of the files that a load of a variant reads."""
    lib = json.loads(variants.VARIANTS[name][0])
    out = []
    for m in lib[variants.MS]["module"]:
        for x in [m] + m.get("submodule", []):
            fn = x["name"] + "@" + x["revision"] + ".yang"
            if fn not in out:
                out.append(fn)
    return out


KINDS = ["ENOENT", "EACCES", "EMFILE", "EIO", "read-EIO", "read-EIO",
         "short", "trunc", "trunc", "zeros", "flip", "flip"]


def gen_fault(r, name, decoys=False):
    k = r.choice(KINDS)
    while decoys and k in ("ENOENT", "EACCES"):
        k = r.choice(KINDS)     # (these do let the next file be used)
    f = {"kind": k, "at": 0}
    x = r.random()
    if x < .2:
        f["file"] = "lib.json"
    elif x < .7:
        fn = r.choice(files_of(name))
        f["file"] = fn if r.random() < .5 else fn.partition("@")[0]
    else:
        f["at"] = r.randrange(20 if k in simfs.OPEN else 40)
    if "file" in f and k in simfs.READ and r.random() < .5:
        f["at"] = r.choice([1, 2, 3])
    if k in ("trunc", "zeros", "flip"):
        f["x"] = r.choice([0, 1, .999, r.random(), r.random()])
    if k == "short":
        f["n"] = r.choice([0, 1, 10, 100])
        f["sticky"] = r.random() < .7
    elif r.random() < .35:
        f["sticky"] = True
    return f


def gen(r, i, tier):
    name = r.choice(NAMES)
    files = files_of(name)
    nd = r.choice([1, 2, 2, 3])
    layout = []
    for fn in files:
        dirs = sorted(r.sample(range(nd), r.randint(1, nd)))
        for d in dirs:
            layout.append([d, fn, fn if r.random() < .7 else
                           fn.partition("@")[0] + ".yang"])
        if r.random() < .3:     # wrong contents under a right name
            layout.insert(r.randrange(len(layout) + 1),
                          [r.randrange(nd), r.choice(files), fn])
    # later entries overwrite earlier ones: drop what would hide a file
    seen, keep = set(), []
    for e in layout:
        k = (e[0], e[2])
        if k not in seen:
            seen.add(k)
            keep.append(e)
    have = {(e[1]) for e in keep if e[2].partition("@")[0].removesuffix(
        ".yang") == e[1].partition("@")[0]}
    for fn in files:
        if fn not in have:
            keep.append([nd, fn, fn])
    decoys = []
    if r.random() < .4:
        # copies that would be used if the right file were passed over
        first = {}
        for d, src, dst in sorted(keep, key=lambda e: (e[0], -len(e[2]))):
            if src.partition("@")[0] == dst.removesuffix(
                    ".yang").partition("@")[0]:
                first.setdefault(src, [d, dst])
        decoys = [[d, dst] for d, src, dst in keep if src in first
                  and [d, dst] != first[src]]
        for fn in files:
            d, dst = first[fn]
            short = fn.partition("@")[0] + ".yang"
            if dst != short and r.random() < .7 and not any(
                    e[0] == d and e[2] == short for e in keep):
                keep.append([d, fn, short])
                decoys.append([d, short])
    docs = ops.variants(r, 1) + ops.gen_docs(r, 1)[0]
    docs = [d for d in docs if ref.decodable(ref.ROOT, d)]
    rounds = [[gen_fault(r, name, bool(decoys)) for _ in range(r.choice([1, 1, 2, 3]))]
              for _ in range(r.choice([1, 2, 3]))]
    return {"name": name, "nd": nd + 1, "layout": keep, "decoys": decoys,
            "rounds": rounds,
            "docs": docs, "other": r.choice(NAMES),
            "how": r.choice(["file", "file", "text"])}


def build(root, scn):
    txt, path, _ = variants.VARIANTS[scn["name"]]
    dirs = [os.path.join(root, f"d{i}") for i in range(scn["nd"])]
    for d in dirs:
        os.mkdir(d)
    for d, src, dst in scn["layout"]:
        for p in path:
            s = os.path.join(p, src)
            if os.path.exists(s):
                shutil.copyfile(s, os.path.join(dirs[d], dst))
                break
    for d, dst in scn["decoys"]:
        f = os.path.join(dirs[d], dst)
        if os.path.exists(f):
            with open(f) as s:
                txt2 = s.read()
            i = txt2.rindex("}")
            with open(f, "w") as s:
                s.write(txt2[:i] + "leaf decoy { type string; } }")
    lib = os.path.join(root, "lib.json")
    with open(lib, "w") as f:
        f.write(txt)
    return lib, dirs


def load(scn, lib, dirs):
    from yangson import DataModel
    if scn["how"] == "file":
        return DataModel.from_file(lib, tuple(dirs))
    with open(lib, encoding="utf-8") as f:
        return DataModel(f.read(), tuple(dirs))


def norm(x):
    return json.loads(json.dumps(x, default=str))


def run(scn):
    root = tempfile.mkdtemp(prefix="c07-")
    try:
        return _run(scn, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(scn, root):
    lib, dirs = build(root, scn)
    docs = [variants.prune(d, scn["name"]) for d in scn["docs"]]
    odocs = [variants.prune(d, scn["other"]) for d in scn["docs"]]

    def undisturbed():
        return norm(variants.describe(load(scn, lib, dirs), docs))
    try:
        base = core.isolated(undisturbed)
    except core.HarnessError as e:
        if "ModuleNotFound" in str(e) or "ModuleParser" in str(e):
            return {"layouts_unusable": 1}      # cut by minimisation
        raise
    other = variants.load(scn["other"])
    oref = norm(variants.describe(other, odocs))
    st = {"loads": 0, "loads_failed": 0, "loads_succeeded": 0, "faults": {}}
    sig = []
    for n, faults in enumerate(scn["rounds"]):
        ctx = f"load {n} with {faults}"
        dm = None
        with simfs.Disk(root, faults) as disk:
            try:
                dm = load(scn, lib, dirs)
                what = "ok"
            except Exception as e:
                what = type(e).__name__
                text = str(e)
        st["loads"] += 1
        for k, fn in disk.fired:
            st["faults"][k] = st["faults"].get(k, 0) + 1
        sig.append([disk.fired, what])
        if dm is None:
            st["loads_failed"] += 1
            if not disk.damaging():
                raise Violation("failed-unharmed", f"{ctx}: {what}: {text} "
                                f"although only {disk.fired} happened")
        else:
            st["loads_succeeded"] += 1
            got = norm(variants.describe(dm, docs))
            for k in base:
                if got[k] != base[k]:
                    raise Violation(
                        "half-loaded", f"{ctx} gives a model with different "
                        f"{k} after {disk.fired}: {diff(base[k], got[k])}")
        if norm(variants.describe(other, odocs)) != oref:
            raise Violation("other-model-affected", f"{ctx}: "
                            f"{scn['other']} behaves differently")
    try:
        dm = load(scn, lib, dirs)
    except Exception as e:
        raise Violation("retry-failed", f"load after {sig}: "
                        f"{type(e).__name__}: {e}") from None
    got = norm(variants.describe(dm, docs))
    for k in base:
        if got[k] != base[k]:
            raise Violation("retry-differs", f"load after {sig} gives "
                            f"different {k}: {diff(base[k], got[k])}")
    if any(s[0] for s in sig):
        st["sig"] = core.digest([scn["name"], scn["layout"], sig])
    return st


def diff(a, b):
    a, b = str(a), str(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    return f"...{a[max(0, i - 60):i + 120]} | ...{b[max(0, i - 60):i + 120]}"


def simplify(scn):
    for i, r in enumerate(scn["rounds"]):
        for j, f in enumerate(r):
            if f.get("sticky"):
                s = json.loads(json.dumps(scn))
                s["rounds"][i][j].pop("sticky")
                yield s
    if scn["other"] != "base":
        yield dict(scn, other="base")
