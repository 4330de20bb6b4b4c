"""File system calls of the code under test: recorded, interruptible, and made to fail on demand.

The files are real (in the scratch directory). Only paths below the scratch directory,
or declared virtual, are touched; everything else passes through unchanged.
"""
import builtins
import errno
import io
import os
import shutil

from . import boot, core

_real = {}

READ_OPS = frozenset(["stat", "lstat", "access", "listdir", "scandir", "scandir.next", "entry.is_dir", "entry.is_file",
                      "entry.stat", "entry.inode", "entry.is_symlink", "statvfs", "open.r", "read", "seek", "tell", "close",
                      "fstat", "readlink"])


class Fs(object):
    """Per execution state; install with env.s.fs = Fs(env)."""

    def __init__(self, env, points=False, fault=None, after=None, torn=False, read_max=None, spare=()):
        self.env = env
        self.points = points  # is every operation a scheduling point?
        self.fault = fault  # fn(n, name, path) -> exception or None
        self.after = after  # fn(n, name, path): after every operation that changes something
        self.torn = torn  # writes reach the disk in two halves
        self.log = []
        self.n = 0
        self.on = True
        self.virtual = {}  # path -> bytes or exception
        self.statvfs = None  # fn(path) -> object
        self.spare = spare

    def covers(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        if path in self.virtual:
            return True
        return path.startswith(boot.SCRATCH)

    def op(self, name, path):
        if not self.on:
            return
        n = self.n
        self.n += 1
        self.log.append((name, path))
        if self.points:
            core.S.point("fs." + name)
        if self.fault is not None:
            e = self.fault(n, name, path)
            if e is not None:
                core.S.obs("fault", n, name)
                raise e

    def done(self, name, path):
        if not self.on:
            return
        if self.after is not None and name not in READ_OPS:
            self.after(self.n - 1, name, path)
        if self.points and name not in READ_OPS:
            core.S.point("fs." + name + ".done")


def _fs(path=None):
    s = core.S
    f = getattr(s, "fs", None)
    if f is None or not f.on or s.current is None or s.current.kind == "env":
        return None
    if path is not None and not f.covers(path):
        return None
    return f


class File(object):
    """A file object that reports its operations."""

    def __init__(self, fs, f, path, mode):
        self.__dict__.update(_fs=fs, _f=f, _path=path, _mode=mode)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        return iter(self.readline, b"" if "b" in self._mode else "")

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    next = __next__

    def _do(self, name, *a):
        self._fs.op("read" if name.startswith("read") else name, self._path)
        r = getattr(self._f, name)(*a)
        self._fs.done("read" if name.startswith("read") else name, self._path)
        return r

    def read(self, *a):
        return self._do("read", *a)

    def read1(self, *a):
        return self._do("read1", *a)

    def readline(self, *a):
        return self._do("readline", *a)

    def readlines(self, *a):
        return self._do("readlines", *a)

    def readinto(self, b):
        return self._do("readinto", b)

    def seek(self, *a):
        return self._do("seek", *a)

    def tell(self):
        return self._do("tell")

    def truncate(self, *a):
        return self._do("truncate", *a)

    def flush(self):
        return self._do("flush")

    def write(self, data):
        fs = self._fs
        if fs.torn and len(data) > 1:
            half = len(data) // 2
            fs.op("write", self._path)
            self._f.write(data[:half])
            self._f.flush()
            fs.done("write", self._path)
            fs.op("write", self._path)
            self._f.write(data[half:])
            self._f.flush()
            fs.done("write", self._path)
            return len(data)
        return self._do("write", data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def fileno(self):
        # only for calls that do not move data (fstat, fsync)
        return self._f.fileno()

    def close(self):
        if self._f.closed:
            return
        try:
            self._fs.op("close", self._path)
        except BaseException:
            self._f.close()
            raise
        self._f.close()
        self._fs.done("close" if "r" in self._mode and "+" not in self._mode else "close.w", self._path)


def v_open(file, mode="r", *a, **kw):
    fs = _fs(file) if not isinstance(file, int) else None
    if fs is None:
        return _real["open"](file, mode, *a, **kw)
    if file in fs.virtual:
        v = fs.virtual[file]
        fs.op("open.r", file)
        if isinstance(v, BaseException):
            raise v
        if callable(v):
            return v(mode)
        if "b" in mode:
            return io.BytesIO(v)
        return io.TextIOWrapper(io.BytesIO(v), encoding=kw.get("encoding") or "utf-8",
                                errors=kw.get("errors"))
    name = "open.r" if not set(mode) & set("wax+") else "open.w"
    fs.op(name, file)
    f = _real["open"](file, mode, *a, **kw)
    fs.done(name, file)
    return File(fs, f, file, mode)


class Entry(object):
    def __init__(self, fs, e):
        self._fs, self._e = fs, e
        self.name, self.path = e.name, e.path

    def __fspath__(self):
        return self.path

    def _do(self, name, *a, **kw):
        self._fs.op("entry." + name, self.path)
        return getattr(self._e, name)(*a, **kw)

    def is_dir(self, **kw):
        return self._do("is_dir", **kw)

    def is_file(self, **kw):
        return self._do("is_file", **kw)

    def is_symlink(self):
        return self._do("is_symlink")

    def stat(self, **kw):
        st = self._do("stat", **kw)
        f = getattr(self._fs, "stat_of", None)
        return f(self.path, st) if f else st

    def inode(self):
        n = self._do("inode")
        f = getattr(self._fs, "inode_of", None)
        return f(self.path, n) if f else n


class Scan(object):
    def __init__(self, fs, it, path):
        self._fs, self._it, self._path = fs, it, path
        # a fixed order: that of the directory on disk depends on its history
        self._list = None

    def __iter__(self):
        return self

    def __next__(self):
        if self._list is None:
            self._list = sorted(self._it, key=lambda e: e.name)
            if getattr(self._fs, "reverse", False):
                self._list.reverse()
            self._it.close()
        self._fs.op("scandir.next", self._path)
        if not self._list:
            raise StopIteration
        return Entry(self._fs, self._list.pop(0))

    next = __next__

    def close(self):
        self._it.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def v_scandir(path="."):
    fs = _fs(path)
    if fs is None:
        return _real["scandir"](path)
    fs.op("scandir", path)
    return Scan(fs, _real["scandir"](path), path)


def v_listdir(path="."):
    fs = _fs(path)
    if fs is None:
        return _real["listdir"](path)
    fs.op("listdir", path)
    return sorted(_real["listdir"](path))


def v_statvfs(path):
    fs = _fs(path)
    if fs is None:
        return _real["statvfs"](path)
    fs.op("statvfs", path)
    if fs.statvfs is not None:
        return fs.statvfs(path)
    return _real["statvfs"](path)


def _wrap1(name):
    real = getattr(os, name)
    _real[name] = real

    def f(path, *a, **kw):
        fs = _fs(path) if not isinstance(path, int) else None
        if fs is None:
            return real(path, *a, **kw)
        if path in fs.virtual and name in ("stat", "lstat", "access"):
            fs.op(name, path)
            if isinstance(fs.virtual[path], FileNotFoundError):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            if name == "access":
                return True
            return os.stat_result((0o100644, 1, 1, 1, 0, 0, len(fs.virtual[path])
                                   if isinstance(fs.virtual[path], bytes) else 0, 0, 0, 0))
        fs.op(name, path)
        r = real(path, *a, **kw)
        fs.done(name, path)
        return r
    f.__name__ = name
    return f


def _wrap2(name):
    real = getattr(os, name)
    _real[name] = real

    def f(src, dst, *a, **kw):
        fs = _fs(src) or _fs(dst)
        if fs is None:
            return real(src, dst, *a, **kw)
        fs.op(name, (src, dst))
        r = real(src, dst, *a, **kw)
        fs.done(name, (src, dst))
        return r
    f.__name__ = name
    return f


def v_os_open(path, flags, *a, **kw):
    fs = _fs(path)
    if fs is None:
        return _real["os.open"](path, flags, *a, **kw)
    name = "open.w" if flags & (os.O_WRONLY | os.O_RDWR) else "open.r"
    fs.op(name, path)
    r = _real["os.open"](path, flags, *a, **kw)
    fs.done(name, path)
    return r


def install():
    if _real:
        return
    _real["open"] = builtins.open
    _real["scandir"] = os.scandir
    _real["listdir"] = os.listdir
    _real["statvfs"] = os.statvfs
    _real["os.open"] = os.open
    builtins.open = v_open
    io.open = v_open
    os.scandir = v_scandir
    os.listdir = v_listdir
    os.statvfs = v_statvfs
    os.open = v_os_open
    for n in ("stat", "lstat", "access", "mkdir", "remove", "unlink", "rmdir", "chmod", "utime", "truncate", "readlink"):
        setattr(os, n, _wrap1(n))
    for n in ("rename", "replace", "link", "symlink"):
        setattr(os, n, _wrap2(n))
    # copies go through read and write
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_HAS_FCOPYFILE"):
        shutil._HAS_FCOPYFILE = False
    shutil.open = v_open


def open_real(*a, **kw):
    return _real.get("open", open)(*a, **kw)
