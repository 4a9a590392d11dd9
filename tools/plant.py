#!/usr/bin/env python3
"""Make planted bugs out of definitions and confirm them (development tool).

usage: plant.py DEFS.py [id ...]      confirm, write seeded/<id>, run the check
       plant.py --check [id ...]      run the checks against the bugs kept

A definition file sets BUGS = {id: dict(prop=, edits=[(file, old, new)],
demo=text, needs=, breaks=)}.  Every step is done in a private copy of /repo
that is bind-mounted over /repo in a mount namespace of its own.
"""
import json, os, re, shutil, subprocess, sys, importlib.util
from concurrent.futures import ThreadPoolExecutor

V = "/verif"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **kw)


def inns(copy, cmd, timeout=900):
    try:
        return sh(f"unshare -m bash -c 'mount --bind {copy} /repo && cd /repo && {cmd}'", timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def original():
    out = sh("git -C /repo rev-list --max-parents=0 HEAD; git -C /repo log --format='%H %s'").stdout.split("\n")
    return out


def stable_list():
    for k in ("stable",):
        if k in BASE:
            v = BASE[k]
            return list(v)
    raise SystemExit(f"BASELINE keys {list(BASE)}")


def make(id, d):
    copy = f"/tmp/plant-{id}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(f"cp -a /repo {copy}")
    for f, old, new in d["edits"]:
        p = f"{copy}/yangson/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return id, f"edit: {s.count(old)} matches in {f}: {old[:60]!r}", copy
        # the changed lines must come from the original repository
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {copy} diff").stdout
    fixes = set(l.split()[0][:8] for l in sh("git -C /repo log --format='%h %s' --abbrev=8").stdout.split("\n")
                if " fix:" in l)
    bad, tot = 0, 0
    fname = None
    ln = 0
    blame = {}
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            fname = l[6:]
            blame = sh(f"git -C /repo blame -s --abbrev=7 HEAD -- {fname}").stdout.split("\n")
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("-") and not l.startswith("---"):
            tot += 1
            if blame[ln].lstrip("^")[:8].strip() in fixes or any(blame[ln].startswith(x) for x in fixes):
                bad += 1
            ln += 1
        elif l.startswith(" "):
            ln += 1
    note = f"orig {tot - bad}/{tot} "
    out = f"{V}/seeded/{id}"
    tmp = f"/tmp/plantout/{id}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(f"{tmp}/patch.diff", "w").write(diff)
    open(f"{tmp}/demo.py", "w").write("from kit import *\n" + d["demo"].lstrip("\n"))
    shutil.copy("/verif/tools/kit.py", f"{tmp}/kit.py")
    open(f"{tmp}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{tmp}/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(f"{tmp}/meta.json", "w"), indent=1)
    r = sh(f"cd /repo && bash {tmp}/demo.sh", timeout=300)
    if r.returncode:
        return id, note + "demo fails on clean: " + (r.stdout + r.stderr)[-900:], copy
    r = inns(copy, f"bash {tmp}/demo.sh", 300)
    if not r.returncode:
        return id, note + "demo passes with bug", copy
    why = (r.stdout + r.stderr).strip().split("\n")[-1][-160:]
    r = inns(copy, "bash /opt/vp/build.sh")
    if r.returncode:
        return id, note + "build failed", copy
    r = inns(copy, f"bash /opt/vp/test.sh /tmp/plantout/{id}.json")
    try:
        res = json.load(open(f"/tmp/plantout/{id}.json"))
    except Exception as e:
        return id, note + f"no test output {e}", copy
    failed = res.get("failed", [])
    passed = set(res.get("passed", []))
    miss = [t for t in stable_list() if t not in passed]
    if miss:
        return id, note + f"tests fail: {miss[:4]}", copy
    if tot and bad == tot:
        return id, note + "only my own lines", copy
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out, ignore=shutil.ignore_patterns("__pycache__"))
    return id, note + "KEPT (" + why + ")", copy


def check(id, tier="quick", extra=""):
    d = json.load(open(f"{V}/seeded/{id}/meta.json"))
    copy = f"/tmp/plant-{id}"
    if not os.path.isdir(copy):
        sh(f"cp -a /repo {copy}")
        r = sh(f"git -C {copy} apply {V}/seeded/{id}/patch.diff")
        if r.returncode:
            return id, "patch does not apply: " + r.stderr, copy
    r = sh(f"cd {V} && VERIF_REPO={copy} VERIF_SEED=1 timeout 900 /opt/venv/bin/python run.py {d['property']} {extra}")
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    txt = [l for l in r.stdout.split("\n") if "RULE" in l or "violat" in l.lower()]
    return id, f"{d['property']} exit {r.returncode} " + (v[0] if v else "NOT CAUGHT " + r.stderr[-200:]), copy


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            id, msg, copy = check(i)
            print(id, msg, flush=True)
            shutil.rmtree(copy, ignore_errors=True)
        sys.exit()
    spec = importlib.util.spec_from_file_location("defs", a[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = a[1:] or list(m.BUGS)
    os.makedirs("/tmp/plantout", exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        kept = []
        for id, msg, copy in ex.map(lambda i: make(i, m.BUGS[i]), ids):
            print(id, msg, flush=True)
            if "KEPT" in msg:
                kept.append(id)
            shutil.rmtree(copy, ignore_errors=True)
