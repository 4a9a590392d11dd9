"""Runner: seeds -> scenarios -> forked runs -> verdict, minimised replay, evidence.

A check module provides
  PROP, TITLE
  prepare(tier)            load models etc. in the parent (never *used* there)
  gen(rng, i, tier)        scenario: a JSON value, a pure function of the rng
  run(scn)                 raises Violation, or returns a dict of statistics
  LISTS                    names of the lists in the scenario that may be cut
Each run executes in a process forked from a pristine parent, so nothing one
run does (caches, schema state) is visible to another, and a scenario replays
from its file alone.
"""
import gc
import hashlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import env

VERIF = env.VERIF
NPROC = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold; `cls` names the kind of violation."""

    def __init__(self, cls, text, **detail):
        super().__init__(f"{cls}: {text}")
        self.cls, self.text, self.detail = cls, text, detail


class HarnessError(Exception):
    pass


class NotGenerated(Exception):
    pass


def seed_of(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_of(*parts):
    return random.Random(seed_of(*parts))


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def from_code_under_test(exc):
    """True if the innermost frame of the traceback is in the repository."""
    tb = exc.__traceback__
    last = None
    anyrepo = False
    while tb:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(env.REPO + "/"):
            anyrepo = True
        elif last.startswith(VERIF + "/"):
            anyrepo = False
        tb = tb.tb_next
    return anyrepo


# ---------------------------------------------------------------- forked runs

def generate(check, rng, idx, tier):
    """Scenario of a run, possibly over a generated data model."""
    part = float(os.environ.get("VERIF_MODELS") or
                 getattr(check, "MODELS", 0)) if hasattr(
                     check, "MODELS") else 0
    if not part:
        return check.gen(rng, idx, tier)
    if rng.random() >= part:
        return check.gen(rng, idx, tier)
    from . import mgen
    spec = json.loads(json.dumps(mgen.gen(rng)))
    with mgen.using(spec):
        scn = check.gen(rng, idx, tier)
    return dict(scn, model=spec)


def execute(check, scn):
    if scn.get("model"):
        from . import mgen
        mgen.install(scn["model"])
        if hasattr(check, "use_model"):
            check.use_model(scn["model"])
        else:
            check.dm = mgen.load(scn["model"])
        st = check.run(scn) or {}
        st["generated_models"] = 1
        return st
    return check.run(scn) or {}


def _child(check, scn, wfd):
    """`scn` is a scenario or (rng, index, tier, verbose) to make it."""
    code = 0
    try:
        sys.setrecursionlimit(3000)
        env.CLOCK.reset()
        made = isinstance(scn, tuple)
        log = False
        try:
            if made:
                rng, idx, tier, log = scn
                try:
                    scn = json.loads(json.dumps(
                        generate(check, rng, idx, tier)))
                except Exception:
                    raise NotGenerated(traceback.format_exc())
            random.seed(0)
            res = {"ok": True, "stats": execute(check, scn)}
        except NotGenerated as e:
            # the generator met a document that it cannot handle
            res = {"ok": None, "gen_error": str(e), "error": str(e)}
        except Violation as v:
            res = {"ok": False, "cls": v.cls, "text": v.text,
                   "detail": v.detail}
        except BaseException as e:
            tb = traceback.format_exc()
            if from_code_under_test(e):
                res = {"ok": False, "cls": "unexpected-" + type(e).__name__,
                       "text": f"{type(e).__name__}: {e}",
                       "detail": {"traceback": tb[-3000:]}}
            else:
                res = {"ok": None, "error": tb}
        if log:
            res["digest"] = digest([scn, res])
        if made and (not res["ok"] or idx < 40) and not isinstance(
                scn, tuple):
            res["scn"] = scn
        data = json.dumps(res, default=str).encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    except BaseException:
        code = 3
        try:
            sys.stderr.write(traceback.format_exc())
        except BaseException:
            pass
    finally:
        os._exit(code)


class Job:
    __slots__ = ("idx", "scn", "pid", "fd", "buf", "t0")


class Pool:
    """Run scenarios in forked children, at most NPROC at a time."""

    def __init__(self, check, limit_s):
        self.check, self.limit = check, limit_s
        self.jobs = {}
        self.poll = select.poll()

    def start(self, idx, scn):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for j in self.jobs.values():
                os.close(j.fd)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(self.check, scn, w)
        os.close(w)
        j = Job()
        j.idx, j.scn, j.pid, j.fd, j.buf, j.t0 = idx, scn, pid, r, b"", \
            env.real_monotonic()
        self.jobs[r] = j
        self.poll.register(r, select.POLLIN | select.POLLHUP)

    def wait(self):
        """Yield (idx, scn, result) of finished children."""
        done = []
        for fd, _ in self.poll.poll(200):
            j = self.jobs[fd]
            data = os.read(fd, 1 << 16)
            if data:
                j.buf += data
                continue
            done.append(self._reap(j))
        now = env.real_monotonic()
        for j in list(self.jobs.values()):
            if now - j.t0 > self.limit:
                try:
                    os.kill(j.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                self._reap(j)
                done.append((j.idx, j.scn, {"ok": None, "timeout": True,
                             "error": f"run exceeded {self.limit} s"}))
        return done

    def _reap(self, j):
        self.poll.unregister(j.fd)
        os.close(j.fd)
        del self.jobs[j.fd]
        _, st = os.waitpid(j.pid, 0)
        try:
            res = json.loads(j.buf.decode())
        except Exception:
            res = {"ok": None, "error": f"child died, status {st}"}
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (
                    signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                    signal.SIGFPE, signal.SIGILL):
                res = {"ok": False, "cls": "process-died", "detail": {},
                       "text": f"signal {os.WTERMSIG(st)}"}
        return j.idx, j.scn, res

    def kill(self):
        for j in list(self.jobs.values()):
            try:
                os.kill(j.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self._reap(j)


def isolated(fn, limit=60.0):
    """Result of fn() (a JSON value) computed in a forked process, so that
    it leaves no trace in this one."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                res = {"ok": fn()}
            except Violation as v:
                res = {"viol": [v.cls, v.text, v.detail]}
            except BaseException:
                res = {"error": traceback.format_exc()}
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    t0 = env.real_monotonic()
    while True:
        if not select.select([r], [], [], 5.0)[0]:
            if env.real_monotonic() - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                raise Violation("no-progress", "isolated run did not finish")
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        res = json.loads(buf.decode())
    except ValueError:
        raise HarnessError("isolated run died")
    if "viol" in res:
        raise Violation(res["viol"][0], res["viol"][1], **res["viol"][2])
    if "error" in res:
        raise HarnessError(res["error"])
    return res["ok"]


class Pristine:
    """A process forked now, before anything is used, that runs each request
    in a fork of its own.  fn(request) must return a JSON value."""

    def __init__(self, fn, init=None):
        """`init` is called in the new process, before any request."""
        self.fn = fn
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                if init:
                    init()
                self._serve(os.fdopen(r1, "r"), os.fdopen(w2, "w"))
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.rf, self.wf = os.fdopen(self.r, "r"), os.fdopen(self.w, "w")

    def _serve(self, rf, wf):
        for line in rf:
            req = json.loads(line)
            try:
                res = {"ok": isolated(lambda: self.fn(req))}
            except Violation as v:
                res = {"viol": [v.cls, v.text, v.detail]}
            except BaseException:
                res = {"error": traceback.format_exc()}
            wf.write(json.dumps(res) + "\n")
            wf.flush()

    def ask(self, req):
        self.wf.write(json.dumps(req) + "\n")
        self.wf.flush()
        line = self.rf.readline()
        if not line:
            raise HarnessError("pristine process died")
        res = json.loads(line)
        if "viol" in res:
            raise Violation(res["viol"][0], res["viol"][1], **res["viol"][2])
        if "error" in res:
            raise HarnessError(res["error"])
        return res["ok"]


def run_one(check, scn, limit=60.0):
    p = Pool(check, limit)
    p.start(0, scn)
    while True:
        for d in p.wait():
            return d[2]


# ---------------------------------------------------------------- minimise

def minimise(check, scn, cls, budget_s=40.0):
    """ddmin over the scenario's lists, then shrink numbers in operations."""
    t0 = env.real_monotonic()
    tried = [0]

    def fails(s):
        if env.real_monotonic() - t0 > budget_s:
            return False
        tried[0] += 1
        r = run_one(check, s, 30.0)
        return r.get("ok") is False and r["cls"] == cls

    def with_list(s, name, lst):
        s = json.loads(json.dumps(s))
        tgt = s
        ks = name.split(".")
        for k in ks[:-1]:
            tgt = tgt[k]
        tgt[ks[-1]] = lst
        return s

    def get(s, name):
        for k in name.split("."):
            s = s[k]
        return s

    def names(s):
        for n in getattr(check, "LISTS", ()):
            if n.endswith(".*"):
                try:
                    base = get(s, n[:-2])
                except (KeyError, TypeError):
                    continue
                for i in range(len(base)):
                    yield n[:-2], i
            else:
                try:
                    get(s, n)
                except (KeyError, TypeError):
                    continue
                yield n, None

    def cut(cur, name, sub):
        lst = get(cur, name)
        if sub is not None:
            if sub >= len(lst):
                return cur
            inner = lst[sub]
        else:
            inner = lst
        if not isinstance(inner, list):
            return cur
        n = 2
        while len(inner) >= 1:
            size = max(1, len(inner) // n)
            hit = False
            for st in range(0, len(inner), size):
                cand = inner[:st] + inner[st + size:]
                if sub is not None:
                    full = list(lst)
                    full[sub] = cand
                else:
                    full = cand
                s = with_list(cur, name, full)
                if fails(s):
                    cur, inner, hit = s, cand, True
                    lst = get(cur, name)
                    n = max(2, n - 1)
                    break
            if not hit:
                if size == 1:
                    break
                n = min(len(inner), n * 2)
            if env.real_monotonic() - t0 > budget_s:
                break
        return cur

    cur = scn
    for _ in range(2):
        before = json.dumps(cur)
        for name, sub in list(names(cur)):
            cur = cut(cur, name, sub)
        if json.dumps(cur) == before:
            break
    # domain-specific simplifications, and of the generated model
    def simpler(s):
        if s.get("model"):
            from . import mgen
            for m in mgen.smaller(s["model"]):
                yield dict(s, model=m)
        if hasattr(check, "simplify"):
            yield from check.simplify(s)

    if isinstance(cur, dict):
        changed = True
        while changed and env.real_monotonic() - t0 < budget_s:
            changed = False
            for cand in simpler(cur):
                if fails(cand):
                    cur, changed = cand, True
                    break
    return cur, tried[0]


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            allf = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in allf.get("findings", []) if k["property"] == prop]


def write_evidence(check, a, cov, hits, wall, nviol):
    ev = {"property": check.PROP, "tier": a.tier, "seed": a.seed,
          "level": "exploration", "coverage": cov,
          "assumptions": getattr(check, "ASSUMPTIONS", []),
          "known_findings_met": hits,
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.PROP}.json"),
              "w") as f:
        json.dump(ev, f, indent=1, default=str)


# ---------------------------------------------------------------- main

def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--log", action="store_true",
                    help="print the digest of every run (determinism test)")
    ap.add_argument("--all", action="store_true",
                    help="do not stop at the first violation")
    a = ap.parse_args(argv)
    prop = check.PROP
    try:
        check.prepare(a.tier)
        gc.collect()
        gc.freeze()     # children need not walk the parent's objects
    except Exception as e:
        if not from_code_under_test(e):
            raise
        # the code under test cannot even load the data model
        traceback.print_exc()
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = a.replay or os.path.join(
            VERIF, "evidence", "replays", f"{prop}-prepare.json")
        if not a.replay:
            with open(path, "w") as f:
                json.dump({"property": prop, "class": "prepare",
                           "scenario": "prepare", "tier": a.tier,
                           "text": traceback.format_exc()[-3000:]}, f)
            write_evidence(check, a, {
                "evaluations": 1, "distinct_nontrivial": 0,
                "rule": "loading the simulated data model", "samples":
                    [f"{type(e).__name__}: {e}"]}, {}, 0, 1)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        if rep["scenario"] == "prepare":
            print("replay: property held")
            return 0
        res = run_one(check, rep["scenario"], 300.0)
        if res.get("ok") is False:
            print(f"replayed: {res['cls']}: {res['text']}")
            print(json.dumps(res.get("detail"), indent=1)[:4000])
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        if res.get("ok") is None:
            print(res.get("error"))
            return 2
        print("replay: property held")
        return 0

    t0 = env.real_monotonic()
    print(f"{prop} seed={a.seed} tier={a.tier} repo={env.REPO}", flush=True)
    nruns, cap_s = check.budget(a.tier)
    if a.runs:
        nruns = a.runs
    findings = known_findings(prop)
    hits = {}
    stats, sigs, samples, hist = {}, set(), [], {}
    viol = []       # (idx, scn, res)
    errors = []
    pool = Pool(check, getattr(check, "LIMIT", 60.0))
    nxt = done = gen_errors = 0
    last_gen_error = None
    stop_at = None

    def add(st):
        for k, v in st.items():
            if k == "sig":
                for s in (v if isinstance(v, list) else [v]):
                    sigs.add(s)
            elif k == "sample":
                if len(samples) < 3:
                    samples.append(v)
            elif isinstance(v, dict):
                d = stats.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                stats[k] = stats.get(k, 0) + v

    while True:
        while (len(pool.jobs) < NPROC and nxt < nruns and stop_at is None
               and env.real_monotonic() - t0 < cap_s):
            rng = rng_of(a.seed, prop, a.tier, nxt)
            pool.start(nxt, (rng, nxt, a.tier, a.log))
            nxt += 1
        if not pool.jobs:
            break
        for idx, scn, res in pool.wait():
            if "gen_error" in res:
                gen_errors += 1
                last_gen_error = res["gen_error"]
                if gen_errors > max(5, nxt // 50):
                    raise HarnessError(last_gen_error)
                continue
            done += 1
            if a.log:
                hist[idx] = res.get("digest")
            if isinstance(scn, tuple):
                scn = res.pop("scn", None)
            if res.get("ok"):
                add(res["stats"])
                if scn and len(samples) < 2 and "sig" in res["stats"]:
                    samples.append({"run": idx, "scenario": json.dumps(scn)[
                        :4000], "result": {
                            k: v for k, v in res["stats"].items()
                            if k != "sig"}})
            elif res.get("ok") is False:
                kf = [f for f in findings
                      if f["cls"] == res["cls"] and f["match"] in res["text"]]
                if kf:
                    hits.setdefault(kf[0]["what"], 0)
                    hits[kf[0]["what"]] += 1
                    continue
                viol.append((idx, scn, res))
                if not a.all:
                    stop_at = idx
            else:
                errors.append((idx, scn, res))
                if len(errors) > 40 or res.get("timeout"):
                    stop_at = idx
    # a run that timed out or died has not told its scenario
    errors = [(i, s or json.loads(json.dumps(generate(
        check, rng_of(a.seed, prop, a.tier, i), i, a.tier))), r)
        for i, s, r in errors]
    viol = [(i, s or json.loads(json.dumps(generate(
        check, rng_of(a.seed, prop, a.tier, i), i, a.tier))), r)
        for i, s, r in viol]
    # a timed-out run is retried alone before it counts as a hang
    for e in [e for e in errors if e[2].get("timeout")][:2]:
        if e[2].get("timeout"):
            r = run_one(check, e[1], 150.0)
            errors.remove(e)
            if r.get("timeout"):
                viol.append((e[0], e[1], {
                    "ok": False, "cls": "no-progress", "detail": {},
                    "text": "run did not finish within 150 s"}))
            elif r.get("ok"):
                add(r["stats"])
            elif r.get("ok") is False:
                viol.append((e[0], e[1], r))
            else:
                errors.append((e[0], e[1], r))
    if a.log:
        for i in sorted(hist):
            print("LOG", i, hist[i])
    wall = env.real_monotonic() - t0
    rc = 0
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']} "
              f"(met in {hits.get(f['what'], 0)} runs)")
    if viol:
        viol.sort(key=lambda v: v[0])
        rc = 1
        if a.all:
            byc = {}
            for v in viol:
                byc.setdefault(v[2]["cls"], []).append(v)
            for c, vs in byc.items():
                print(f"--- {c}: {len(vs)} runs; e.g. run {vs[0][0]}: "
                      f"{vs[0][2]['text'][:700]}")
        idx, scn, res = viol[0]
        if hasattr(check, "concretise") and res["cls"] != "no-progress":
            # replace seeded choices by the explicit ones that were made
            conc = check.concretise(scn, res)
            r2 = run_one(check, conc, 120.0)
            if r2.get("ok") is False and r2["cls"] == res["cls"]:
                scn, res = conc, r2
        if res["cls"] == "no-progress":
            small, tried = scn, 0
        else:
            small, tried = minimise(check, scn, res["cls"])
        final = run_one(check, small, 300.0)
        if final.get("ok") is not False:
            small, final = scn, res
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replays",
                            f"{prop}-seed{a.seed}-run{idx}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": a.seed, "run": idx,
                       "tier": a.tier, "class": final["cls"],
                       "text": final["text"], "detail": final.get("detail"),
                       "minimise_trials": tried, "scenario": small},
                      f, indent=1)
        print(f"{final['cls']}: {final['text']}"[:3000])
        print(f"run {idx} of seed {a.seed}; minimised with {tried} trials")
        print(f"replay: {sys.executable} run.py {prop} --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
    if errors:
        for e in errors[:3]:
            print(f"HARNESS ERROR in run {e[0]}:\n{e[2].get('error')}",
                  file=sys.stderr)
        if not rc:
            rc = 2
    cov = {"evaluations": done, "distinct_nontrivial": len(sigs),
           "rule": check.RULE, "samples": samples or ["(none)"],
           "runs_per_hour": int(done / max(wall, 1e-6) * 3600),
           "seeds": f"{a.seed}/{prop}/{a.tier}/0..{max(nxt - 1, 0)}",
           "planned_runs": nruns,
           "real_components": check.REAL, "stubbed_components": check.STUB}
    if gen_errors:
        cov["scenarios_not_generated"] = gen_errors
        print(f"{gen_errors} scenarios not generated; {last_gen_error}",
              file=sys.stderr)
    cov.update(stats)
    write_evidence(check, a, cov, hits, wall, len(viol))
    print(f"{prop}: {done} runs, {len(sigs)} distinct, {wall:.1f} s, rc={rc}; "
          + ", ".join(f"{k}={v}" for k, v in sorted(stats.items())
                      if not isinstance(v, dict))[:600])
    return rc
