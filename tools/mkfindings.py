#!/usr/bin/env python3
"""Writes known_findings.json: defects repaired by fix: commits, and those
recorded only (kept by hand in OPEN below)."""
import json
import os
import subprocess

OPEN = []
FIXED = """f13a70c C01
71a86f1 C05
01d047e C04
e7e90fa C04
3bf544b C06
baa22f6 C02
d5d6a7d C09
404e3e5 C09
73b4abb C19
e376201 C03
4919ada C02
81630df C16
6c9ad12 C16
a8b7c4d C10
9336806 C03
fa949f5 C18
74fabc1 C10
eee3f47 C18
afb9c27 C18
f77ccea C10
73f4fd7 C02
80d166f C02
66516f9 C02
3391b2a C02
f53b84f C13
2cd6dad C14
7a29a5c C14
9cb8bfe C02
e303600 C18
d903ba9 C02
4f64615 C10
53b389b C18
528760d C18
b75b647 C02
d300e5e C15
b0a1883 C19
7db7448 C15
7c77e51 C19
142883d C19
235542b C03
d7acf95 C19
338f2a5 C18
792d202 C18
0c3ab05 C18
1ff0d30 C18
ea44573 C18
5e533d7 C18
c737503 C18
75a8a09 C18
70ee1b5 C18
35a6a35 C02
a6f18d4 C01
a467432 C18
21b6a89 C18
a9c5298 C03
b64de9d C03
84ff465 C03
89a106a C18
0bd55ee C05
b2f2d18 C01
8c3aa9f C19
6e21ec4 C19
6734e43 C03
1c6760c C03
6e3f8da C19
8fbf050 C03
e01d1c3 C03
2a1546e C21
cf1db05 C21
3878192 C21
ea0a1ea C21
20c4ad7 C21
4e06bec C21
c3e0afe C21
59cb970 C21
0ad26da C21
7a5d441 C21
17e2ffe C21
76bd791 C19"""
log = dict(x.split(" ", 1) for x in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h fix: %f", "a7821de..HEAD"],
    capture_output=True, text=True, check=True).stdout.splitlines())
full = dict(x.split(" ", 1) for x in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h %s", "a7821de..HEAD"],
    capture_output=True, text=True, check=True).stdout.splitlines())
out = []
seen = set()
for line in FIXED.splitlines():
    h, p = line.split()
    seen.add(h)
    out.append(f"fixed: property={p} {h} {full[h][5:]}")
for h in full:
    if h not in seen and full[h].startswith("fix:"):
        print("not listed:", h, full[h])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump({"findings": OPEN, "fixed": out}, f, indent=1)
    f.write("\n")
