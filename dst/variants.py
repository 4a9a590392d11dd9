"""Other data models made of the simulated modules."""
import copy
import json
import os
import shutil
import tempfile
from contextlib import contextmanager

from . import env

with open(os.path.join(env.YANG, "lib.json"), encoding="utf-8") as _f:
    LIB = json.load(_f)
MS = "ietf-yang-library:modules-state"


def lib(drop=(), features=None, extra=()):
    """The library without some modules, with other features."""
    res = copy.deepcopy(LIB)
    mods = [m for m in res[MS]["module"] if m["name"] not in drop]
    for m in mods:
        if features is not None:
            m.pop("feature", None)
            if features.get(m["name"]):
                m["feature"] = features[m["name"]]
    res[MS]["module"] = mods + list(extra)
    res[MS]["module-set-id"] = "v" + "".join(sorted(drop))
    return json.dumps(res)


ALT = [os.path.join(env.YANG, "alt")]
OLD = {"name": "sim-t", "revision": "2023-05-05", "namespace": "urn:sim:t",
       "conformance-type": "import"}
# name -> (library text, search path, what is absent)
VARIANTS = {
    "full": (lib(), [env.YANG], ()),
    "plain": (lib(features={}), [env.YANG], ("fut",)),
    "extra": (lib(features={"sim-a": ["extra"]}), [env.YANG], ("fut",)),
    "never": (lib(features={"sim-a": ["extra", "both", "never"],
                            "sim-t": ["turbo"]}), [env.YANG], ()),
    "undev": (lib(drop=["sim-d"]), [env.YANG], ()),
    "noc": (lib(drop=["sim-d", "sim-c"]), [env.YANG], ("sim-c:",)),
    "base": (lib(drop=["sim-b", "sim-c", "sim-d"]), [env.YANG],
             ("sim-c:", "sim-b:")),
    "old": (lib(extra=[OLD]), [env.YANG], ()),
    "alt": (lib(), ALT, ()),
    "altbase": (lib(drop=["sim-b", "sim-c", "sim-d"]), ALT,
                ("sim-c:", "sim-b:")),
}


GEN = {}        # name -> generated data model (see mgen)


@contextmanager
def material(name):
    """Library text and search path."""
    if name not in GEN:
        yield VARIANTS[name][:2]
        return
    from . import mgen
    d = tempfile.mkdtemp(prefix="verif-var-", dir="/dev/shm" if
                         os.path.isdir("/dev/shm") else None)
    try:
        yield mgen.write(GEN[name], d), [d, env.YANG]
    finally:
        shutil.rmtree(d, True)


def load(name):
    from yangson import DataModel
    with material(name) as (txt, path):
        return DataModel(txt, tuple(path))


def prune(v, name):
    """The part of a document that a variant knows."""
    if name in GEN:
        return v
    absent = VARIANTS[name][2]

    def bad(s):
        return isinstance(s, str) and any(a in s for a in absent)
    if isinstance(v, dict):
        return {k: prune(x, name) for k, x in v.items()
                if not bad(k) and not bad(x) and k.lstrip("@") not in absent
                and not bad(v.get(k[1:]))}
    if isinstance(v, list):
        return [prune(x, name) for x in v if not bad(x)]
    return v



def describe(dm, docs):
    """What a model looks like and makes of some documents."""
    from yangson.enumerations import ContentType, ValidationScope
    res = {"digest": dm.schema_digest(), "tree": dm.ascii_tree(),
           "msid": dm.module_set_id(), "docs": []}
    for d in docs:
        out = []
        try:
            inst = dm.from_raw(d)
        except Exception as e:
            res["docs"].append([["unreadable", type(e).__name__, str(e)],
                                None])
            continue
        try:
            inst.validate(ValidationScope.all, ContentType.all)
            out.append(["valid"])
        except Exception as e:
            out.append(["invalid", type(e).__name__, str(e),
                        getattr(e, "tag", None)])
        try:
            out.append(inst.add_defaults(ContentType.all).raw_value())
        except Exception as e:
            out.append([type(e).__name__, str(e)])
        res["docs"].append(out)
    return res
