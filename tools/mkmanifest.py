#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in dst/checks."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python run.py"
BASE = ("Seeded search: each run is one simulated history determined by its "
        "seed, executed by the real library; assurance is that of the runs "
        "explored (counted in the evidence), not a proof. ")
T = {
 "C01": ("deterministic simulation: interleaved clients with injected interrupts, snapshots compared after every event",
         "Trusts the fingerprint of a snapshot taken when it was obtained."),
 "C02": ("deterministic simulation: interleaved edit histories refined against a plain-JSON reference tree",
         "Trusts the reference tree (dst/ref.py, dst/steps.py)."),
 "C03": ("deterministic simulation: interleaved edit histories, every verdict compared with an independent constraint evaluation",
         "Trusts the restatement of the constraints of the simulated models as predicates."),
 "C04": ("deterministic simulation of threads: seeded line-level scheduler (random walk and PCT), results compared with isolated execution",
         "Preemption at source lines and calls of the library; C-level atomicity is that of CPython with the GIL."),
 "C05": ("deterministic simulation: long histories compared with the same query on a pristine model",
         "Trusts forked pristine processes as the reference."),
 "C06": ("deterministic simulation with fault injection: asynchronous exceptions at seeded library lines, then repetition",
         "Interrupts are delivered at source lines of the library, not within C code."),
 "C07": ("deterministic simulation with I/O fault injection into every file operation of a model load",
         "Faults are injected at open() and raw reads of the module and library files."),
 "C08": ("deterministic simulation with fault injection over seeded file layouts, refined against a reference of the search rules",
         "Trusts the reference of the search rules."),
 "C09": ("deterministic simulation: the same load under seeded hash seeds, entry orders and load histories, results compared",
         "The order of a Python set is controlled through the hash seed only."),
 "C10": ("deterministic simulation: edit and save histories with crashes and torn writes, restored data compared with the reference",
         "A crash keeps a prefix of the bytes written."),
 "C11": ("deterministic simulation: seeded chunking, processing calls and truncation of a byte stream",
         "Streams are fed to the real XML pull parser."),
 "C12": ("deterministic simulation: dump, crash and restore at seeded points of operation histories",
         "Pickle protocol versions 2 to 5; restored in the same or a fresh process."),
 "C13": ("deterministic simulation with I/O fault injection: the command-line tool as a whole against an independent oracle",
         "main() runs in a forked child; standard streams and files are simulated."),
 "C14": ("deterministic simulation with I/O fault injection: the converter as a whole against an independent reference conversion",
         "Trusts the reference conversion."),
 "C15": ("deterministic simulation: interleaved edits under a simulated clock that stalls and jumps, timestamps checked after every event",
         "The clock does not move within one library call."),
 "C16": ("deterministic simulation: optimistic transactions of interleaved clients, lost updates and tag collisions checked",
         "Accidental hash collisions are recognised by equality."),
 "C17": ("deterministic simulation: validation histories against a reference count of visited nodes",
         "Trusts the reference count."),
 "C18": ("deterministic simulation with fault injection: corrupted documents against a reference of decodability",
         "Trusts the reference of decodability."),
 "C19": ("deterministic simulation: edit histories, added defaults compared with a reference",
         "Trusts the reference of defaults in use."),
 "C20": ("deterministic simulation: interleaved and threaded use of several models compared with each model alone",
         "Trusts forked processes holding one model as the reference."),
 "C21": ("deterministic simulation with fault injection: expressions evaluated along edit histories, in scheduled threads and around injected asynchronous exceptions, against an independent XPath evaluator",
         "Trusts the independent evaluator; results that depend on the order of members of an object or on string values of internal nodes are not looked at."),
}
NA = {
 "C30": "Lexical rules of a type are a pure function of one value; no schedule, clock, fault, history or second party can influence them, so simulation adds nothing to plain input generation.",
 "C32": "Acceptance of a text by the YANG parser is a pure function of the text; no nondeterminism or fault enters (damaged files are covered by C07).",
 "C33": "Schema construction is a pure function of the modules; deciding it needs a second implementation of RFC 7950 over generated modules, not simulation (faults, orders and hash seeds are covered by C07-C09).",
 "C34": "The printed tree and digest are pure functions of the schema; no nondeterminism or fault enters (their stability is covered by C05 and C09).",
 "C35": "Translation of a pattern is a pure function of the pattern and the string; no nondeterminism or fault enters.",
}
checks = []
for p in sorted(T):
    if not os.path.exists(os.path.join(here, "dst", "checks", p.lower() + ".py")):
        continue
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": f"{PY} {p} --tier quick",
                   "thorough_cmd": f"{PY} {p} --tier thorough",
                   "technique": tech, "level": "exploration",
                   "level_note": BASE + note})
props = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
claimed = {c["property"] for c in checks}
na = [{"property": p, "reason": NA.get(p, "No check has been built for it yet.")}
      for p in props if p not in claimed]
man = {"version": 1,
       "setup_cmd": "/opt/venv/bin/python tools/setup.py",
       "hooks": {"guard": "VERIF_HOOKS (reserved, unused)",
                 "enable": "No hook was needed in /repo: the seams are patched from outside (dst/env.py, dst/simfs.py, dst/sched.py) before the library is imported.",
                 "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "See DESIGN.md. Every check runs the library of /repo's working tree (VERIF_REPO overrides)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
