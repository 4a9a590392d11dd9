#!/usr/bin/env python3
"""python run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" and not os.environ.get("VERIF_ANYHASH"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("LANG", "C.UTF-8")
    os.environ["TZ"] = "UTC"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib

from dst import env
env.install()
from dst import core

check = importlib.import_module("dst.checks." + sys.argv[1].lower())
sys.exit(core.main(check, sys.argv[1:]))
