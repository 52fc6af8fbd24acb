"""A simulated storage layer: builtins.open (and io.open, which pathlib uses)
serve the simulator's files with scheduled faults.

Everything lives in one scratch directory.  Reads go through a raw file that
may deliver fewer bytes than asked for, or fail; writes go through one that may
run out of space, fail, or lose its tail at close.  Paths outside the directory
are served by the real open, and writes there are recorded as escapes.
"""
import builtins
import contextlib
import errno
import io
import os


def oserr(code, path=None):
    return OSError(code, "injected: " + os.strerror(code), path)


class Raw(io.RawIOBase):
    """The bytes of a real file, behind the fault schedule of a Disk."""

    def __init__(self, disk, path, mode):
        self._f = io.FileIO(path, mode)
        self._disk, self._path = disk, path
        self.name, self.mode = path, mode

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def readinto(self, buf):
        n = self._disk.on_read(self._path, len(buf))
        return self._f.readinto(memoryview(buf)[:n]) if n else 0

    def write(self, data):
        data = bytes(data)
        n = self._disk.on_write(self._path, len(data))
        return self._f.write(data[:n])

    def close(self):
        if not self.closed:
            super().close()
            self._f.close()


def _finalised(self):
    if not self.closed:
        self.sim_disk.finalised.append(self.sim_path)


class Reader(io.BufferedReader):
    def __del__(self):
        _finalised(self)


class Writer(io.BufferedWriter):
    sim_counted = False

    def close(self):
        if not self.closed and not self.sim_counted:
            self.sim_counted = True
            self.sim_disk.on_close(self.sim_path)
        super().close()

    def __del__(self):
        _finalised(self)


class Random(io.BufferedRandom):
    sim_counted = False

    def close(self):
        if not self.closed and not self.sim_counted:
            self.sim_counted = True
            self.sim_disk.on_close(self.sim_path)
        super().close()

    def __del__(self):
        _finalised(self)


class Text(io.TextIOWrapper):
    pass


class Disk:
    """Fault schedule and account of one simulated disk.

    fault: {"op": "open"|"read"|"write"|"close", "at": k, "error": errno,
            "partial": bytes written before failing, "match": substring,
            "sticky": the fault persists}
    """

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.real_open = builtins.open
        self.fault, self.short = None, 0
        self.fired = 0
        self.calls = {"open": 0, "read": 0, "write": 0, "close": 0}
        self.handles, self.finalised, self.escapes, self.written = [], [], [], []

    def arm(self, fault=None, short=0):
        self.fault = dict(fault, left=fault["at"]) if fault else None
        self.short, self.fired = short, 0
        self.calls = dict.fromkeys(self.calls, 0)

    def disarm(self):
        self.fault, self.short = None, 0

    def _due(self, op, path):
        self.calls[op] += 1
        f = self.fault
        if not f or f["op"] != op or (f.get("match") and f["match"] not in path):
            return False
        if f["left"] > 0:
            f["left"] -= 1
            return False
        self.fired += 1
        if not f.get("sticky"):
            self.fault = None
        return True

    def error(self, f, path):
        if f["error"] == "memory":
            return MemoryError("injected: allocation failed")
        return oserr(getattr(errno, f["error"]), path)

    def on_read(self, path, n):
        f = self.fault
        if self._due("read", path):
            raise self.error(f, path)
        return min(n, self.short) if self.short else n

    def on_write(self, path, n):
        f = self.fault
        if self._due("write", path):
            part = min(n, f.get("partial", 0))
            if part:
                f2 = dict(f, left=0, partial=0)
                self.fault = f2
                self.fired -= 1
                return part
            raise self.error(f, path)
        return min(n, self.short) if self.short else n

    def on_close(self, path):
        f = self.fault
        if self._due("close", path):
            raise self.error(f, path)

    def inside(self, path):
        real = os.path.realpath(path)
        return real == self.root or real.startswith(self.root + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if isinstance(file, int) or opener is not None:
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.fspath(file)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        writing = any(c in mode for c in "wax+")
        if not self.inside(path):
            if writing and not os.path.realpath(path).startswith("/dev/"):
                self.escapes.append(path)
                raise PermissionError(errno.EACCES, "outside the simulated disk", path)
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        f = self.fault
        if self._due("open", path):
            raise self.error(f, path)
        raw = Raw(self, path, mode.replace("b", "").replace("t", ""))
        if writing:
            self.written.append(os.path.realpath(path))
        if buffering == 0 and "b" in mode:
            self.handles.append(raw)
            return raw
        cls = Random if "+" in mode else Writer if writing else Reader
        h = cls(raw, 4096)
        h.sim_disk, h.sim_path = self, path
        self.handles.append(raw)
        if "b" in mode:
            return h
        return Text(h, encoding or "utf-8", errors, newline)

    def leaks(self):
        """Files still open, and files only closed by their finaliser."""
        out = [h._path for h in self.handles if not h.closed] + self.finalised
        self.handles, self.finalised = [], []
        return out

    @contextlib.contextmanager
    def mounted(self):
        old = builtins.open, io.open
        builtins.open = io.open = self.open
        try:
            yield self
        finally:
            builtins.open, io.open = old
