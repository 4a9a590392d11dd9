"""C08: the right revision of each module is selected from the search path."""
import json
import os
import shutil
import tempfile

from .. import core, env, simfs
from ..core import Violation

PROP = "C08"
RULE = ("seeded sets of modules and submodules with several revisions and "
        "imports with and without revision, in seeded distributions of "
        "right, wrong, missing and unreadable files over the search path; "
        "each definition carries a mark telling the file it comes from, and "
        "the marks seen in defaults through the model are compared with "
        "those that the search rule gives; non-trivial: at least one file "
        "passed over; distinct by library, layout and outcome")
REAL = ["yangson (all of it)", "files in a scratch directory"]
STUB = ["raw file streams (permission denied)", "clock"]
LISTS = ("lib", "files", "path")
ASSUMPTIONS = ["files that are unreadable for other reasons than missing "
               "permission or absence belong to C07"]

NAMES = ["ma", "mb", "mc", "md"]
REVS = ["2019-12-31", "2020-01-01", "2020-01-02", "2021-06-30", "2100-01-01"]


def prepare(tier):
    pass


def budget(tier):
    return (9000, 150) if tier == "quick" else (400000, 1500)


def gen(r, i, tier):
    names = NAMES[:r.choice([1, 2, 3, 3, 4])]
    lib = []
    for n in names:
        revs = r.sample(REVS, r.choice([1, 1, 2, 3]))
        if r.random() < .15:
            revs[r.randrange(len(revs))] = ""
        impl = r.choice(revs) if r.random() < .8 or n == names[-1] else None
        for v in revs:
            m = {"name": n, "rev": v, "impl": v == impl, "imports": [],
                 "subs": []}
            for k in NAMES[:NAMES.index(n)]:
                if k not in names:
                    continue
                have = [x["rev"] for x in lib if x["name"] == k]
                if r.random() < .7:
                    m["imports"].append([k, None])
                if r.random() < .4:
                    m["imports"].append(
                        [k, r.choice([x for x in have if x] or [None])
                         if r.random() < .97 else "1999-01-01"])
            if r.random() < .3:
                m["subs"].append([n + "-s", r.choice(REVS)])
                if r.random() < .3:
                    m["subs"].append([n + "-t", r.choice(REVS)])
            lib.append(m)
    # submodules are identified by name and revision: share none
    seen = set()
    for m in lib:
        m["subs"] = [s for s in m["subs"] if tuple(s) not in seen]
        seen.update(map(tuple, m["subs"]))
    r.shuffle(lib)
    if r.random() < .03 and lib:
        lib.append({"name": r.choice(NAMES), "rev": "", "impl": False,
                    "imports": [], "subs": []})
        k = [(m["name"], m["rev"]) for m in lib]
        if k.count(k[-1]) > 1:
            lib.pop()
    nd = r.choice([1, 2, 3, 4])
    path = [r.randrange(nd) for _ in range(r.choice([nd, nd, nd + 1]))]
    if r.random() < .6:
        path = list(range(nd))
    if r.random() < .2:
        path.insert(r.randrange(len(path) + 1), -1)     # no such directory
    files = []
    units = [[m["name"], m["rev"]] for m in lib] + \
        [s for m in lib for s in m["subs"]]
    p_right = r.choice([.3, .5, .8])
    for d in range(nd):
        for u in units:
            for ver in (True, False):
                if ver and not u[1] or r.random() < .35:
                    continue
                x = r.random()
                if x < p_right:
                    what = r.choice(["right", "right", "right", "two"])
                else:
                    what = r.choice(["rev", "norev", "name", "denied",
                                     "newer", "denied"])
                files.append([d, u, ver, what, r.randrange(100)])
    # mostly there is one right file somewhere
    if r.random() < .85:
        for u in units:
            ok = [f for f in files if f[1] == u and f[3] in ("right", "two")]
            if not ok:
                ds = [d for d in range(nd) if d in path] or [0]
                files = [f for f in files if not (f[1][0] == u[0] and
                                                  f[0] == ds[-1]
                                                  and f[2] == bool(u[1])
                                                  and f[1] == u)]
                files.append([ds[-1], u, bool(u[1]), "right", 0])
    r.shuffle(files)
    return {"lib": lib, "nd": nd, "path": path, "files": files,
            "rel": r.random() < .2, "slash": r.random() < .1,
            "list": r.random() < .3}


def fname(u, ver):
    return u[0] + ("@" + u[1] if ver else "") + ".yang"


def text(scn, u, what, mark, salt):
    """Contents of a file for unit u = [name, revision]."""
    name, rev = u
    decl = list(contents(u, what, salt))
    if what in ("rev", "norev") and any(
            decl == [m["name"], m["rev"]] or decl in m["subs"]
            for m in scn["lib"]):
        u, what = decl, "right"     # what is wrong here is right elsewhere
        name, rev = u
    m = next((m for m in scn["lib"] if [m["name"], m["rev"]] == u), None)
    par = next((m for m in scn["lib"] if u in m["subs"]), None)
    others = [v for v in REVS if v != rev]
    revs = [rev] if rev else []
    n = name
    if what == "rev":
        revs = [others[salt % len(others)]]
    elif what == "norev":
        revs = [] if rev else [REVS[salt % 5]]
    elif what == "newer":
        revs = ["2101-01-01"] + revs
    elif what == "two":
        revs = revs + ["2000-01-01"] if rev else revs
    elif what == "name":
        n = name + "x" if salt % 2 else name[:-1] + "z"
    out = []
    if par:
        out.append(f"submodule {n} {{ yang-version 1.1; belongs-to "
                   f"{par['name']} {{ prefix {par['name']}; }}")
        imports = par["imports"][:1]
    else:
        out.append(f"module {n} {{ yang-version 1.1; "
                   f"namespace \"urn:{name}\"; prefix {name};")
        imports = m["imports"]
    for j, (k, v) in enumerate(imports):
        rd = f" revision-date {v};" if v else ""
        out.append(f"import {k} {{ prefix p{j};{rd} }}")
    if m:
        for s, v in m["subs"]:
            out.append(f"include {s} {{ revision-date {v}; }}")
    out.append(f"organization \"{mark}\";")
    for v in revs:
        out.append(f"revision {v};")
    tn = "t" if m else "t-" + name
    out.append(f"typedef {tn} {{ type string; default \"{mark}\"; }}")
    out.append(f"leaf own{'' if m else '-' + name} {{ type {tn}; }}")
    for j in range(len(imports)):
        out.append(f"leaf imp{j}{'' if m else '-' + name} "
                   f"{{ type p{j}:t; }}")
    out.append("}")
    return "\n".join(out)


def chosen(scn, u):
    """The mark of the file that the search rule selects, or None, and how
    many files were passed over."""
    passed = 0
    table = {}
    for d, w, ver, what, salt in scn["files"]:
        table[d, fname(w, ver)] = (w, what, salt)
    for d in scn["path"]:
        for ver in ([True, False] if u[1] else [False]):
            f = table.get((d, fname(u, ver)))
            if f is None:
                continue
            w, what, salt = f
            if what == "denied" or contents(w, what, salt) != tuple(u):
                passed += 1
                continue
            return f"d{d}/{fname(u, ver)}", passed
    return None, passed


def contents(w, what, salt):
    """Name and revision that a file for unit w declares."""
    name, rev = w
    if what == "name":
        return (name + "x" if salt % 2 else name[:-1] + "z", rev)
    if what == "rev":
        return (name, [v for v in REVS if v != rev][salt % len(
            [v for v in REVS if v != rev])])
    if what == "norev":
        return (name, "" if rev else REVS[salt % 5])
    if what == "newer":
        return (name, "2101-01-01")
    return (name, rev)


def run(scn):
    root = tempfile.mkdtemp(prefix="c08-")
    try:
        return _run(scn, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def _run(scn, root):
    from yangson import DataModel
    from yangson.exceptions import (ModuleNotFound, ModuleNotRegistered,
                                    MultipleImplementedRevisions)
    faults = []
    for d in range(scn["nd"]):
        os.mkdir(os.path.join(root, f"d{d}"))
    table = {}
    for d, u, ver, what, salt in scn["files"]:
        par = [m for m in scn["lib"] if u in m["subs"] or
               [m["name"], m["rev"]] == u]
        if not par:
            continue            # cut by minimisation
        table[d, fname(u, ver)] = (u, what, salt)
    scn = dict(scn, files=[[d, u, fn.count("@") > 0, what, salt]
                           for (d, fn), (u, what, salt) in table.items()])
    for (d, fn), (u, what, salt) in table.items():
        with open(os.path.join(root, f"d{d}", fn), "w") as f:
            f.write(text(scn, u, what, f"d{d}/{fn}", salt))
        if what == "denied":
            faults.append({"kind": "EACCES", "at": 0, "sticky": True,
                           "file": f"d{d}/{fn}"})
    lib = {"ietf-yang-library:modules-state": {"module-set-id": "x",
           "module": [dict({
               "name": m["name"], "revision": m["rev"],
               "namespace": "urn:" + m["name"], "conformance-type":
               "implement" if m["impl"] else "import"}, **({
                   "submodule": [{"name": s, "revision": v}
                                 for s, v in m["subs"]]}
                   if m["subs"] else {})) for m in scn["lib"]]}}
    os.chdir(root)
    path = []
    for d in scn["path"]:
        p = "nowhere" if d < 0 else f"d{d}"
        if not scn["rel"]:
            p = os.path.join(root, p)
        path.append(p + "/" if scn["slash"] else p)
    # what should happen
    want, missing, npassed = {}, set(), 0
    for m in scn["lib"]:
        for u in [[m["name"], m["rev"]]] + m["subs"]:
            w, n = chosen(scn, u)
            npassed += n
            want[tuple(u)] = w
            if w is None:
                missing.add(tuple(u))
    have = [(m["name"], m["rev"]) for m in scn["lib"]]

    def resolve(k, v):
        if v:
            return (k, v) if (k, v) in have else None
        c = [x for x in have if x[0] == k]
        return max(c, key=lambda x: x[1]) if c else None
    unreg = {(k, v) for m in scn["lib"] for k, v in m["imports"]
             if resolve(k, v) is None}
    st = {"loads": 1, "faults": {"denied": len(faults)},
          "files_passed_over": npassed}
    names = [m["name"] for m in scn["lib"] if m["impl"]]
    twice = len(names) != len(set(names))
    try:
        with simfs.Disk(root, faults):
            dm = DataModel(json.dumps(lib),
                           path if scn["list"] else tuple(path))
    except ModuleNotFound as e:
        st["not_found"] = 1
        if (e.name, e.rev or "") not in missing:
            raise Violation("wrongly-not-found", f"{e}; should be missing: "
                            f"{sorted(missing)}, expected {want}")
        if e.name not in str(e) or (e.rev or "") not in str(e):
            raise Violation("error-not-named", f"message {str(e)!r} for "
                            f"{e.name} {e.rev}")
        what = ["not-found"]
    except MultipleImplementedRevisions as e:
        if not twice:
            raise Violation("unexpected-error", repr(e))
        what = ["twice"]
    except ModuleNotRegistered as e:
        st["not_registered"] = 1
        if missing:
            raise Violation("missing-not-reported", f"{sorted(missing)}: "
                            f"{e!r}")
        if (e.name, e.rev or None) not in unreg:
            raise Violation("wrongly-not-registered", f"{e}; {unreg}")
        what = ["not-registered"]
    else:
        st["loaded"] = 1
        if missing or unreg or twice:
            raise Violation("loaded", f"although missing {sorted(missing)}, "
                            f"not registered {sorted(unreg)}")
        what = observe(scn, root, dm, want, resolve)
    if npassed:
        st["sig"] = core.digest([lib, scn["path"], sorted(
            map(str, scn["files"])), what])
    return st


def observe(scn, root, dm, want, resolve):
    exp = {}
    for m in scn["lib"]:
        mid = (m["name"], m["rev"])
        for u in [mid] + [tuple(s) for s in m["subs"]]:
            md = dm.schema_data.modules[u]
            if md.path is None or not os.path.samefile(md.path, want[u]):
                raise Violation("wrong-file", f"{u} from {md.path} instead "
                                f"of {want[u]}")
            mark = md.statement.find1("organization").argument
            if mark != want[u]:
                raise Violation("wrong-file", f"{u} has contents of {mark} "
                                f"instead of {want[u]}")
        if not m["impl"]:
            continue
        exp[f"{m['name']}:own"] = want[mid]
        for j, (k, v) in enumerate(m["imports"]):
            exp[f"{m['name']}:imp{j}"] = want[resolve(k, v)]
        for s, v in m["subs"]:
            exp[f"{m['name']}:own-{s}"] = want[s, v]
            for j, (k, w) in enumerate(m["imports"][:1]):
                exp[f"{m['name']}:imp{j}-{s}"] = want[resolve(k, w)]
    got = dm.from_raw({}).add_defaults().raw_value()
    if got != exp:
        d = {k: [got.get(k), exp.get(k)] for k in set(got) | set(exp)
             if got.get(k) != exp.get(k)}
        raise Violation("wrong-definition", "defaults [real, expected]: "
                        f"{d}")
    return sorted(got.items())
