"""Remote files: a directory tree of its own for every execution, and the server's side of the protocol."""
import os
import shutil
import stat
import tempfile

from . import agent, boot, core

SCAN_NAME = "__dataplicity_remote_directory_scan___.json"


class Dirs(object):
    """remote/ and tmp/ for one execution (workers run side by side: one place each)."""

    def __init__(self, tree=None, remote="remote"):
        self.base = os.path.join(boot.SCRATCH, "w%d" % os.getpid())
        if os.path.isdir(self.base):
            for root, dirs, _ in os.walk(self.base):
                for d in dirs:
                    p = os.path.join(root, d)
                    if not os.path.islink(p):
                        os.chmod(p, 0o755)
            shutil.rmtree(self.base)
        os.mkdir(self.base)
        self.remote = os.path.join(self.base, remote)
        self.tmp = os.path.join(self.base, "tmp")
        os.mkdir(self.tmp)
        tempfile.tempdir = self.tmp
        os.environ["HOME"] = self.base
        if tree is not None:
            os.makedirs(self.remote)
            self.make(self.remote, tree)

    def make(self, path, tree):
        for name, what in tree.items():
            p = os.path.join(path, name)
            if isinstance(what, dict):
                os.mkdir(p)
                self.make(p, what)
            elif isinstance(what, tuple):
                os.symlink(what[0], p)
            elif what is None:
                os.mkfifo(p)
            else:
                with open(p, "wb") as f:
                    f.write(what)

    @property
    def snapshots(self):
        d = os.path.join(self.tmp, "dataplicity_remote")
        return sorted(os.listdir(d)) if os.path.isdir(d) else []

    @property
    def scan_path(self):
        return os.path.join(self.tmp, SCAN_NAME)

    @property
    def downloads(self):
        return os.path.join(self.tmp, "dataplicity_remote_downloads")


def tree(path, skip=()):
    """Everything below a path: name -> content / kind."""
    out = {}
    for root, dirs, files in os.walk(path):
        rel = os.path.relpath(root, path)
        rel = "" if rel == "." else rel + "/"
        if any((root + "/").startswith(s + "/") for s in skip):
            dirs[:] = []
            continue
        for d in dirs:
            p = os.path.join(root, d)
            out[rel + d] = ("link", os.readlink(p)) if os.path.islink(p) else "dir"
        for f in files:
            p = os.path.join(root, f)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel + f] = ("link", os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                if p in skip:
                    continue
                with open(p, "rb") as fh:
                    out[rel + f] = fh.read()
            else:
                out[rel + f] = "special"
    return out


class Remote(object):
    """The server's requests and the replies to them."""

    def __init__(self, env):
        self.env = env
        self.sv = env.server

    def ask(self, name, *fields):
        """Send a request, wait, and return the replies it got."""
        n = len(self.sv.sent)
        self.sv.packet(name, *fields)
        self.env.settle()
        return self.sv.sent[n:]

    def _one(self, request, reply, fields):
        got = self.ask(request, *fields)
        if [s.type for s in got] != [agent.P[reply]]:
            raise core.Violation("%s %r was answered by %r" % (request, fields, [(s.type, s.fields) for s in got]))
        return got[0].fields

    def open(self, id, path):
        f = self._one("open_remote_file", "open_remote_file_result", [id, path])
        self.env.check(f[0] == id, "open %r: the reply is for %r", id, f[0])
        self.env.check((f[2] == 0) == (f[3] == b"") and f[2] in (0, 1), "open %r: fail %r, reason %r", id, f[2], f[3])
        self.env.check(f[2] == 0 or f[1] == -1, "open %r failed with size %r", id, f[1])
        return None if f[2] else f[1]

    def read(self, id, offset, size):
        f = self._one("read_remote_file", "read_remote_file_result", [id, offset, size])
        self.env.check(f[:3] == [id, offset, size], "read %r: the reply is for %r", (id, offset, size), f[:3])
        self.env.check((f[4] == 0) == (f[5] == b"") and f[4] in (0, 1), "read %r: fail %r, reason %r", id, f[4], f[5])
        self.env.check(f[4] == 0 or f[3] == b"", "read %r failed with data", id)
        return None if f[4] else f[3]

    def close(self, id):
        got = self.ask("close_remote_file", id)
        self.env.check(not got, "close %r was answered by %r", id, [(s.type, s.fields) for s in got])

    def write(self, id, path, device_path, offset, data, final):
        f = self._one("write_remote_file", "write_remote_file_result", [id, path, device_path, offset, data, final])
        self.env.check(f[0] == id, "write %r: the reply is for %r", id, f[0])
        self.env.check(f[2] == len(data), "write %r: the reply is for %r bytes, not %r", id, f[2], len(data))
        want = offset if f[4] else offset + len(data)
        self.env.check(f[1] == want, "write %r: the reply is for position %r, not %r", id, f[1], want)
        self.env.check((f[4] == 0) == (f[5] == b""), "write %r: fail %r, reason %r", id, f[4], f[5])
        return f[4], f[3]

    def scan(self, wait=None):
        n = len(self.sv.sent)
        self.sv.packet("scan_remote_directory")
        self.env.settle(wait)
        got = self.sv.sent[n:]
        if [s.type for s in got] != [agent.P["scan_remote_directory_result"]]:
            raise core.Violation("a scan request was answered by %r" % ([(s.type, s.fields) for s in got],))
        return got[0].fields[0]
