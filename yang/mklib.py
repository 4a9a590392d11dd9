import json
def mod(name, rev, ns, conf, feats=(), subs=()):
    d = {"name": name, "revision": rev, "namespace": ns, "conformance-type": conf}
    if feats: d["feature"] = list(feats)
    if subs: d["submodule"] = [{"name": n, "revision": r} for n, r in subs]
    return d
lib = {"ietf-yang-library:modules-state": {"module-set-id": "sim", "module": [
  mod("sim-a", "2024-02-02", "urn:sim:a", "implement", ["extra", "both"],
      [("sim-a-one", "2024-02-02"), ("sim-a-two", "2024-02-02")]),
  mod("sim-b", "2024-03-03", "urn:sim:b", "implement"),
  mod("sim-c", "2024-05-05", "urn:sim:c", "implement"),
  mod("sim-d", "2024-04-04", "urn:sim:d", "implement"),
  mod("sim-t", "2024-01-10", "urn:sim:t", "implement", ["turbo"]),
  mod("ietf-yang-metadata", "2016-08-05", "urn:ietf:params:xml:ns:yang:ietf-yang-metadata", "import"),
]}}
open("lib.json", "w").write(json.dumps(lib, indent=1))
