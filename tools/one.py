#!/usr/bin/env python3
"""one.py CXX SEED RUN [TIER]: execute one run in this process, with traceback."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env
env.install()
from dst import core
chk = importlib.import_module("dst.checks." + sys.argv[1].lower())
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
chk.prepare(tier)
scn = chk.gen(core.rng_of(int(sys.argv[2]), chk.PROP, tier, int(sys.argv[3])), int(sys.argv[3]), tier)
sys.setrecursionlimit(3000)
env.CLOCK.reset()
print(json.dumps(chk.run(scn), default=str)[:3000])
