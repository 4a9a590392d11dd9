#!/usr/bin/env python3
"""Nothing has to be built; make sure that everything needed is there."""
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence", "replays"), exist_ok=True)
sys.dont_write_bytecode = True
sys.path.insert(0, here)
from dst import env
env.install()
print("python", sys.version.split()[0], "library", env.REPO,
      "model", env.load().module_set_id())
