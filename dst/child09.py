"""Child interpreter of C09: loads models as told on standard input."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env  # noqa: E402
env.install()
from dst.variants import describe  # noqa: E402


def main():
    from yangson import DataModel
    req = json.load(sys.stdin)
    out = []
    for job in req["jobs"]:
        try:
            dm = DataModel(job["lib"], tuple(job["path"]))
            out.append(describe(dm, req["docs"]) if job["docs"] is None
                       else describe(dm, job["docs"]))
        except Exception as e:
            out.append({"error": [type(e).__name__, str(e)]})
    json.dump(out, sys.stdout)


main()
