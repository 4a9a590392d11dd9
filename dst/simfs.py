"""Files under the control of the simulator.

Inside `with Disk(root, faults) as d` every file below `root` that the code
under test opens (built-in open, io.open, os.open, pathlib) is read and
written through a raw stream that counts the operations and lets a fault hit
the one it is aimed at.  Everything that really happens, happens in the
scratch directory `root`.

A fault is {"at": n, "kind": k, ...}: it hits the first operation number >= n
(of its class) to which it applies, once, or for ever if "sticky".  With
"file" it applies to files whose name contains that text only; n then counts
the operations on such files.

Kinds for opening: ENOENT EACCES EMFILE EIO; for reading: read-EIO, short
(fewer bytes than asked for, legal), trunc (the end of the file is reached
early), zeros (the tail was never written back: NULs), flip (a byte is
replaced by one that cannot occur in UTF-8); for writing: write-EIO,
write-EPIPE, write-EDQUOT, write-EFBIG, ENOSPC, short-write (legal),
close-EIO; crash: the process dies at that operation (of any class).
"""
import builtins
import errno
import io
import os

CRASHED = 137
OPEN = {"ENOENT", "EACCES", "EMFILE", "EIO"}
READ = {"read-EIO", "short", "trunc", "zeros", "flip"}
WRITE = {"write-EIO", "write-EPIPE", "write-EDQUOT", "write-EFBIG", "ENOSPC",
         "short-write", "close-EIO"}
HARMLESS = {"short", "short-write"}


class Disk:
    """The patch; one at a time."""

    def __init__(self, root, faults=(), wfd=None):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.counts = [0] * len(self.faults)
        self.fired = []             # (kind, file, what) of faults that hit
        self.ops = 0
        self.opened = []
        self.on_crash = None

    # ------------------------------------------------------------ seam
    def __enter__(self):
        self._open, self._ioopen = builtins.open, io.open
        self._osopen = os.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self._open, self._ioopen

    def mine(self, fn):
        if isinstance(fn, int):
            return False
        p = os.path.abspath(os.fspath(fn))
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.realpath(os.path.dirname(p)).startswith(self.root)

    def hit(self, fn, cls):
        """The fault that hits this operation, if any."""
        self.ops += 1
        name = os.path.relpath(os.path.abspath(fn), self.root)
        res = None
        for i, f in enumerate(self.faults):
            if f.get("file") is not None and f["file"] not in name:
                continue
            k = f["kind"]
            if k == "crash":
                applies = True
            else:
                applies = k in cls
            if not applies:
                continue
            self.counts[i] += 1
            if f.get("done") and not f.get("sticky"):
                continue
            if self.counts[i] > f["at"] and res is None:
                f["done"] = True
                self.fired.append([k, name])
                res = f
        if res is not None and res["kind"] == "crash":
            if self.on_crash:
                self.on_crash(self)
            os._exit(CRASHED)
        return res

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if opener is not None or not self.mine(file):
            return self._open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        file = os.fspath(file)
        if isinstance(file, bytes):
            file = os.fsdecode(file)
        self.opened.append(os.path.relpath(os.path.abspath(file), self.root))
        f = self.hit(file, OPEN)
        if f:
            e = getattr(errno, f["kind"])
            raise OSError(e, os.strerror(e), file)
        raw = Raw(self, file, mode)
        if buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline,
                                buffering == 1)

    def damaging(self):
        return [f for f in self.fired if f[0] not in HARMLESS]


class Raw(io.RawIOBase):
    """Raw stream with faults."""

    def __init__(self, disk, fn, mode):
        m = mode.replace("b", "").replace("t", "")
        self.disk, self.fn, self.name, self.mode = disk, fn, fn, mode
        up = "+" in m
        fl = {"r": 0, "w": os.O_CREAT | os.O_TRUNC,
              "x": os.O_CREAT | os.O_EXCL,
              "a": os.O_CREAT | os.O_APPEND}[m[0]]
        self._r, self._w = m[0] == "r" or up, m[0] != "r" or up
        fl |= os.O_RDWR if up else os.O_WRONLY if self._w else os.O_RDONLY
        if os.path.isdir(fn):
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR),
                                    fn)
        self.fd = os.open(fn, fl | os.O_CLOEXEC, 0o666)
        self.eof = False

    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return not self.eof
    def fileno(self): return self.fd
    def isatty(self): return False

    def seek(self, pos, how=0):
        return os.lseek(self.fd, pos, how)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self.fd, self.tell() if size is None else size)

    def readinto(self, b):
        f = self.disk.hit(self.fn, READ)
        n = len(b)
        if f:
            k = f["kind"]
            if k == "read-EIO":
                raise OSError(errno.EIO, os.strerror(errno.EIO), self.fn)
            if k == "short":
                n = min(n, 1 + f.get("n", 0))
            elif k in ("trunc", "zeros"):
                # only a part of the rest is there
                pos = os.lseek(self.fd, 0, 1)
                rest = os.fstat(self.fd).st_size - pos
                keep = int(rest * f.get("x", .5))
                if self.eof:
                    return 0
                data = os.read(self.fd, min(keep, n))
                if k == "zeros":
                    data = (data + b"\0" * (rest - keep))[:n]
                b[:len(data)] = data
                self.eof = True
                return len(data)
        if self.eof:
            return 0
        data = os.read(self.fd, n)
        if f and f["kind"] == "flip" and data:
            i = min(int(len(data) * f.get("x", .5)), len(data) - 1)
            data = data[:i] + b"\xff" + data[i + 1:]
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = b""
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def write(self, b):
        f = self.disk.hit(self.fn, WRITE - {"close-EIO"})
        data = bytes(b)
        if f:
            k = f["kind"]
            if k[:6] == "write-":
                e = getattr(errno, k[6:])
                raise OSError(e, os.strerror(e), self.fn)
            if k == "ENOSPC":
                part = data[:int(len(data) * f.get("x", .5))]
                if part and not f.get("sticky"):
                    # what fits is written; the next write fails
                    f["sticky"] = True
                    f["x"] = 0
                    return os.write(self.fd, part)
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC),
                              self.fn)
            if k == "short-write":
                data = data[:max(1, int(len(data) * f.get("x", .5)))]
        return os.write(self.fd, data)

    def close(self):
        if not self.closed:
            try:
                super().close()
                f = (self.disk.hit(self.fn, {"close-EIO"}) if self._w
                     else None)
            finally:
                os.close(self.fd)
            if f:
                raise OSError(errno.EIO, os.strerror(errno.EIO), self.fn)
