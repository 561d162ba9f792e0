"""control of the preloaded file I/O seam (shim/fsshim.c) for one simulated run"""
import ctypes
import errno
import os
import shutil
import struct

OPENW, WRITE, CLOSEW, FSYNC, OPENR, READ, UNLINK, RENAME, TRUNC, CLOSER = range(10)
KIND = ["open-write", "write", "close", "fsync", "open-read", "read", "unlink", "rename", "truncate", "close-read"]
_lib = None


class NoShim(Exception):
    pass


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("LD_PRELOAD", "")
        if not so.endswith("fsshim.so"):
            raise NoShim("build/fsshim.so is not preloaded: run setup.sh first")
        _lib = ctypes.CDLL(so)
        _lib.fs_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long]
        for f in ("fs_budget", "fs_readcap", "fs_writecap"):
            getattr(_lib, f).argtypes = [ctypes.c_long]
        for f in ("fs_count", "fs_fired", "fs_loglen"):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.fs_log.restype = ctypes.c_void_p
        _lib.fs_name.restype = ctypes.c_char_p
    return _lib


class FS:
    """one directory whose files are under the simulator"""

    def __init__(self, sim):
        self.sim = sim
        root = os.environ["DST_SCRATCH"]
        self.dir = os.path.join(root, "disk")
        self.aside = os.path.join(root, "aside")
        for d in (self.dir, self.aside):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        self.l = lib()
        self.l.fs_reset()
        self.l.fs_enable(self.dir.encode())
        sim.cleanups.append(self.close)

    def close(self):
        self.l.fs_reset()
        self.l.fs_disable()
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.aside, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def calm(self):
        """no faults any more; counters restart"""
        self.l.fs_reset()

    def fail(self, kind, nth, err):
        """the nth operation of this kind (negative -k: every one from the (k-1)-th on) fails"""
        self.l.fs_plan(kind, nth, 1, err)

    def short(self, kind, nth, n):
        self.l.fs_plan(kind, nth, 2, n)

    def eof(self, nth):
        self.l.fs_plan(READ, nth, 3, 0)

    def budget(self, n):
        self.l.fs_budget(n)

    def readcap(self, n):
        self.l.fs_readcap(n)

    def writecap(self, n):
        self.l.fs_writecap(n)

    def record(self):
        self.l.fs_record(1)

    def count(self, kind):
        return self.l.fs_count(kind)

    def errors(self):
        """how many operations failed (not counting short ones)"""
        return self.l.fs_fired(1) + self.l.fs_fired(0)

    def shorts(self):
        return self.l.fs_fired(2)

    def eofs(self):
        return self.l.fs_fired(3)

    def open_for_writing(self):
        return self.l.fs_leaked()

    def oplog(self):
        """[(kind, path, offset, data-or-length, other)]"""
        n = self.l.fs_loglen()
        raw = ctypes.string_at(self.l.fs_log(), n) if n else b""
        names = []
        while True:
            x = self.l.fs_name(len(names))
            if x is None:
                break
            names.append(x.decode())
        res = []
        i = 0
        while i < n:
            kind, f = struct.unpack_from("<ii", raw, i)
            off, ln = struct.unpack_from("<qq", raw, i + 8)
            i += 24
            data = None
            if kind == WRITE:
                data = raw[i:i + ln]
                i += ln
            res.append((kind, names[f], off, data, names[off] if kind == RENAME else None))
        return res


def disk_after(ops, k, torn=None, base=None, drop=()):
    """content of the disk after the first k operations; torn: only so many bytes of operation k-1 (a write) arrived;
    drop: indices of writes that never reached the disk (not synced before the crash)"""
    files = dict((n, bytearray(b)) for n, b in (base or {}).items())
    for i, (kind, name, off, data, other) in enumerate(ops[:k]):
        if kind == OPENW:
            if name not in files or off == 1:
                files[name] = bytearray()
        elif kind == WRITE:
            if i in drop:
                data = b"\0" * len(data)
            if torn is not None and i == k - 1:
                data = data[:torn]
            b = files.setdefault(name, bytearray())
            if len(b) < off:
                b.extend(b"\0" * (off - len(b)))
            b[off:off + len(data)] = data
        elif kind == TRUNC:
            b = files.setdefault(name, bytearray())
            if len(b) > off:
                del b[off:]
            else:
                b.extend(b"\0" * (off - len(b)))
        elif kind == UNLINK:
            files.pop(name, None)
        elif kind == RENAME and name in files:
            files[other] = files.pop(name)
    return files


ERRNOS = [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EINTR]
