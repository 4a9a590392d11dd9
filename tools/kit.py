"""Small helpers of the demonstrations: models from inline modules."""
import atexit
import json
import os
import pickle
import re
import shutil
import sys
import tempfile
import threading
import xml.etree.ElementTree as ET

sys.path.insert(0, os.getcwd())

from yangson import DataModel                                  # noqa
from yangson.enumerations import ContentType, ValidationScope  # noqa
from yangson.exceptions import *                               # noqa
from yangson.instance import OutputFilter                      # noqa
from yangson.instvalue import ArrayValue, ObjectValue          # noqa
from yangson.xmlparser import XMLParser                        # noqa
import yangson.exceptions as yex                               # noqa

SCRATCH = tempfile.mkdtemp()
atexit.register(shutil.rmtree, SCRATCH, True)


def put(path, text):
    path = os.path.join(SCRATCH, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path


def mod(name, body, sub=None):
    if sub:
        return (f"submodule {name} {{ yang-version 1.1; "
                f"belongs-to {sub} {{ prefix {sub}; }} {body} }}\n")
    return (f'module {name} {{ yang-version 1.1; namespace "urn:{name}"; '
            f"prefix {name}; {body} }}\n")


def entry(name, rev="", conf="implement", **kw):
    return dict({"name": name, "revision": rev, "namespace": "urn:" + name,
                 "conformance-type": conf}, **kw)


def lib(*entries):
    return json.dumps({"ietf-yang-library:modules-state": {
        "module-set-id": "x", "module": list(entries)}})


def model(mods, where="mods", **kw):
    """Model of the modules {name: body}; kw: extra items of a lib entry."""
    for n, b in mods.items():
        put(f"{where}/{n}.yang", mod(n, b))
    return DataModel(lib(*[entry(n, **kw.get(n, {})) for n in mods]),
                     (os.path.join(SCRATCH, where),))


def attempt(fun, *args, **kw):
    """Result or class name of the exception."""
    try:
        return fun(*args, **kw)
    except Exception as e:
        return type(e).__name__
