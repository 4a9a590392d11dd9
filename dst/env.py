"""The seams: simulated clock, simulated locks, import of the code under test.

Must be imported before anything from yangson.  Every process that runs the
code under test goes through here, so wall clock and locks always belong to
the simulator.
"""
import datetime as _dt
import os
import sys
import threading
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
YANG = os.path.join(VERIF, "yang")
sys.dont_write_bytecode = True

real_datetime = _dt.datetime
real_time = _time.time
real_monotonic = _time.monotonic
real_Lock = threading.Lock
real_RLock = threading.RLock


class SimClock:
    """Clock owned by the simulator: fixed until told to move."""

    def __init__(self):
        self.reset()

    def reset(self, start=1_000_000_000.0, tick=0.0):
        self.t = float(start)
        self.tick = tick
        self.reads = 0
        self.script = None      # optional list of jumps applied per read

    def read(self):
        self.reads += 1
        if self.script:
            self.t += self.script[self.reads % len(self.script)]
        else:
            self.t += self.tick
        return self.t

    def peek(self):
        return self.t


CLOCK = SimClock()
class _Meta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, real_datetime)


class SimDatetime(real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        d = _EPOCH + _dt.timedelta(seconds=CLOCK.read())
        if tz is not None:
            return d.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
        return d

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


_EPOCH = SimDatetime(1970, 1, 1)
SimDatetime.__module__ = "datetime"
SimDatetime.__qualname__ = SimDatetime.__name__ = "datetime"


class SimLock:
    """Cooperative lock: inside a simulated schedule a blocked thread gives
    the baton back instead of blocking the process."""
    _reentrant = False

    def __init__(self):
        self._l = real_RLock() if self._reentrant else real_Lock()

    def acquire(self, blocking=True, timeout=-1):
        from . import sched
        s = sched.CURRENT
        if s is None or not s.is_sim_thread():
            return self._l.acquire(blocking, timeout)
        while True:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            s.blocked()

    def release(self):
        self._l.release()

    def locked(self):
        if self._l.acquire(False):
            self._l.release()
            return False
        return True

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self): return self._l._is_owned()

    def _release_save(self): return self._l._release_save()

    def _acquire_restore(self, st): return self._l._acquire_restore(st)


_installed = False


def install():
    """Patch the seams and make /repo's yangson importable."""
    global _installed
    if _installed:
        return
    _installed = True
    # preload what yangson imports, so that only yangson sees the seams
    import json, re, pickle, hashlib, base64, decimal, itertools  # noqa
    import urllib.parse, xml.etree.ElementTree, collections, argparse  # noqa
    import typing, enum, functools, copy, logging, concurrent.futures  # noqa
    import queue, weakref, tempfile, subprocess  # noqa
    import elementpath.regex  # noqa
    try:
        import yaml  # noqa
    except ImportError:
        pass
    _dt.datetime = SimDatetime
    _time.time = CLOCK.read
    _time.time_ns = lambda: int(CLOCK.read() * 1e9)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    sys.path.insert(0, REPO)
    import yangson
    if not os.path.abspath(yangson.__file__).startswith(REPO + "/"):
        raise RuntimeError("yangson imported from " + yangson.__file__)
    import yangson.datamodel, yangson.xmlparser, yangson.instance  # noqa
    import yangson.exceptions, yangson.enumerations  # noqa


PKG = os.path.join(REPO, "yangson") + os.sep


def load(lib="lib.json", path=None):
    from yangson import DataModel
    return DataModel.from_file(os.path.join(YANG, lib), path or [YANG])
