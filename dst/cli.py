"""Command-line entry points run in a forked process on the simulated disk."""
import os
import sys
import traceback

from . import core, env, simfs


def invoke(root, fn, argv, faults=(), cwd=None, environ=None, kwargs=None,
           limit=60.0):
    """Run fn() as a program: returns status, standard output, fired faults.

    Standard output is the file root/.stdout on the simulated disk, so faults
    can hit it; what the interpreter does at exit (flush, status 120 if that
    fails) is done here."""
    out = os.path.join(root, ".stdout")
    err = os.path.join(root, ".stderr")
    for f in (out, err):
        if os.path.exists(f):
            os.unlink(f)

    def child():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.close(r)
                code = program(w)
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            data += d
        os.close(r)
        _, st = os.waitpid(pid, 0)
        fired = [ln.split(" ", 1) for ln in data.decode().splitlines()]
        return [os.waitstatus_to_exitcode(st), fired]

    def program(w):
        env.CLOCK.reset()
        if cwd:
            os.chdir(cwd)
        for k, v in (environ or {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        real_err = sys.stderr
        sys.argv = argv
        disk = simfs.Disk(root, faults)

        def tell(d):
            os.write(w, "".join(f"{k} {f}\n" for k, f in d.fired).encode())
        disk.on_crash = tell
        with disk:
            disk.faults, saved = [], disk.faults
            sys.stdout = open(out, "w", encoding="utf-8")
            sys.stderr = disk._open(err, "w", encoding="utf-8")
            disk.faults = saved
            try:
                res = fn(**(kwargs or {}))
                code = res if isinstance(res, int) else 0 if res is None \
                    else 1
            except SystemExit as e:
                code = (0 if e.code is None else e.code
                        if isinstance(e.code, int) else 1)
            except BaseException:
                traceback.print_exc(file=sys.stderr)
                code = 1
            so = sys.stdout
            try:
                if so is not None and not so.closed:
                    so.flush()
            except BaseException:
                code = 120
            sys.stderr.close()
        sys.stderr = real_err
        tell(disk)
        return code & 255
    status, fired = core.isolated(child, limit)

    def text(f):
        try:
            with open(f, "rb") as x:
                return x.read().decode("utf-8", "replace")
        except FileNotFoundError:
            return ""
    return {"status": status, "fired": fired, "stdout": text(out),
            "stderr": text(err)}
