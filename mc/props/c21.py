"""C21: every remote file request gets exactly one matching reply."""
import errno
import itertools
import os

from .. import agent, boot, core, files, kit, vfs, vthread
from ..main import Family

M = "dataplicity."
ERRORS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.ENOENT, errno.EROFS, errno.EMFILE, errno.EDQUOT, errno.ENAMETOOLONG, errno.EISDIR]
TREE = {"f": b"file f" * 20, "sub": {"g": b"file g"}}


def start(env):
    d = files.Dirs(TREE)
    env.start_agent(remote_dir=d.remote)
    env.up()
    return d, files.Remote(env)


def requests(d):
    dl = d.downloads.encode()
    return [
        ("open", b"u2", b"f"), ("open", b"u1", b"sub/g"), ("open", b"u2", b"\0scan.json"), ("open", b"u2", b"sub"), ("open", b"u2", b"missing"),
        ("read", b"u1", 0, 10), ("read", b"u1", 100, 100), ("read", b"u9", 0, 10),
        ("write", b"d2", b"new", b"", 0, b"data", 0), ("write", b"d2", b"new", b"", 0, b"data", 1), ("write", b"d1", b"new", dl + b"/d1", 4, b"more", 0),
        ("write", b"d1", b"sub/new", dl + b"/d1", 4, b"more", 1), ("write", b"d1", b"new", dl + b"/d1", 0, b"", 1),
        ("write", b"d1", b"f", dl + b"/d1", 4, b"x", 1), ("write", b"d9", b"new", dl + b"/d9", 0, b"x", 0),
        ("scan",), ("close", b"u1"), ("close", b"u9"),
    ]


def faults(ex):
    """Every file system call of every request fails, once or from then on, in every way; the next requests are answered."""
    mode = ex.params
    env = agent.Env(ex, preempt=False)
    at = [None]

    def main():
        d, r = start(env)
        env.check(r.open(b"u1", b"f") == 120, "open")
        f, dev = r.write(b"d1", b"new", b"", 0, b"begin", 0)
        env.check(not f, "write")
        env.check(r.scan() == b"", "scan")
        req = ex.pick(requests(d), label="request")
        err = ex.pick(ERRORS, label="error")
        count = [0]

        def fault(n, name, path):
            k = count[0]
            count[0] += 1
            if at[0] is None and ex.choose(2, label="fail"):
                at[0] = k
            if at[0] is not None and (k == at[0] or mode == "from"):
                return OSError(err, os.strerror(err))
        env.s.fs = fs = vfs.Fs(env, fault=fault)
        if req[0] == "scan":
            got = r.scan(1)
        else:
            got = getattr(r, req[0])(*req[1:])
        fs.fault = None
        ex.note(req[0], err, at[0])
        env.ping()
        env.check(r.open(b"n", b"sub/g") == 6, "the next open failed")
        env.check(r.read(b"n", 1, 3) == b"ile", "the next read failed")
        r.close(b"n")
        f, dev = r.write(b"n", b"nn", b"", 0, b"next", 1)
        env.check(not f, "the next write failed")
        env.check(r.scan() == b"", "the next scan failed")

    env.run(main)


VALUES = {
    "id": [b"", b"x", b"..", b"a/b", b"\0", b"\xff\xfe", b"x" * 5000, u"\u00e9".encode("utf-8"), b"%s", b"u1"],
    "path": [b"", b"f", b"..", b"../x", b"\0", b"\0scan.json", b"\xff", b"x" * 5000, b"a\0b", b"missing/f", b"sub"],
    "offset": [0, 1, -1, 10 ** 6, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 70, 10 ** 30],
    "size": [0, 1, -1, 10 ** 6, 2 ** 31, 2 ** 62, 2 ** 64, 10 ** 30],
}


def values(ex):
    """Requests with every kind of value are answered, with those values."""
    kind = ex.pick(["open", "read", "write", "close"], label="request")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env)
        r.open(b"u1", b"f")
        if kind == "open":
            a = (ex.pick(VALUES["id"], label="id"), ex.pick(VALUES["path"], label="path"))
        elif kind == "close":
            a = (ex.pick(VALUES["id"], label="id"),)
        elif kind == "read":
            a = (ex.pick(VALUES["id"], label="id"), ex.pick(VALUES["offset"], label="offset"), ex.pick(VALUES["size"], label="size"))
        else:
            dev = ex.pick([b"", d.downloads.encode() + b"/u1", b"/x", b"\xff", b"x" * 5000], label="device")
            a = (ex.pick(VALUES["id"], label="id"), ex.pick(VALUES["path"], label="path"), dev,
                 ex.pick([0, 5, -1, 2 ** 63, 10 ** 30], label="offset"), ex.pick([b"", b"data"], label="data"), ex.pick([0, 1], label="final"))
        ex.note(kind, [x if isinstance(x, int) else x[:10] for x in a])
        got = getattr(r, kind)(*a)
        env.ping()
        env.check(r.open(b"n", b"sub/g") == 6, "the next open failed")
        env.check(r.read(b"n", 1, 3) == b"ile", "the next read failed")

    env.run(main)


def piled(ex):
    """Requests that arrive all at once: each is answered once; only scans may be answered later."""
    k = ex.params
    env = agent.Env(ex, preempt=False, horizon=1000000)
    names = {"open": "open_remote_file", "read": "read_remote_file", "write": "write_remote_file", "scan": "scan_remote_directory",
             "close": "close_remote_file"}

    def main():
        d, r = start(env)
        r.open(b"u1", b"f")
        r.write(b"d1", b"new", b"", 0, b"begin", 0)
        n = len(env.server.sent)
        reqs = []
        for i in range(ex.cycled(k)):
            q = ex.pick(requests(d), label="request")
            reqs.append(q)
            env.server.packet(names[q[0]], *q[1:])
        ex.note([q[0] for q in reqs])
        env.settle(1)
        got = env.server.sent[n:]
        P = agent.P
        want = [(P[names[q[0]] + "_result"], q[1]) for q in reqs if q[0] in ("open", "read", "write")]
        have = [(s.type, s.fields[0]) for s in got if s.type != P["scan_remote_directory_result"]]
        env.check(have == want, "%r were answered by %r", want, have)
        scans = [s for s in got if s.type == P["scan_remote_directory_result"]]
        env.check(len(scans) == len([q for q in reqs if q[0] == "scan"]), "%d scan replies for %r", len(scans), reqs)
        env.check(all(s.fields == [b""] for s in scans), "scans failed: %r", [s.fields for s in scans])

    env.run(main)


def scans(ex):
    """Scan requests, several at a time, among failing scans and threads that can not start, statement by statement."""
    how = ex.params
    env = agent.Env(ex, points=(M + "directory_scanner", M + "m2m.wsclient"))

    def main():
        env.s.preempt = False
        d, r = start(env)
        sv = env.server
        n = len(sv.sent)
        env.s.fs = fs = vfs.Fs(env)
        if how == "instruction":
            env.s.preempt = True
            sv.instruct(action=b"scan-directory")
            sv.packet("scan_remote_directory")
            want = 1
        elif how == "fail":
            first = []

            def fault(k, name, path):
                if name == "open.w" and not first:
                    first.append(1)
                    return OSError(28, "No space left on device")
            fs.fault = fault
            env.s.preempt = True
            sv.packet("scan_remote_directory")
            sv.packet("scan_remote_directory")
            want = 2
        elif how == "thread":
            count = []

            def bad(t):
                count.append(1)
                return len(count) == 1
            vthread.HOOK.thread_start_fault = bad
            env.s.preempt = True
            sv.packet("scan_remote_directory")
            sv.packet("scan_remote_directory")
            want = 2
        elif how == "missing":
            import shutil
            shutil.rmtree(d.remote)
            env.s.preempt = True
            sv.packet("scan_remote_directory")
            sv.instruct(action=b"scan-directory")
            want = 1
        elif how == "memory":
            fs.fault = lambda k, name, path: MemoryError() if name == "scandir" or name == "open.w" else None
            env.s.preempt = True
            sv.packet("scan_remote_directory")
            want = 1
        else:
            env.s.preempt = True
            for i in range(2):
                sv.packet("scan_remote_directory")
            want = 2
        env.settle(1)
        env.s.preempt = False
        env.settle(1)
        got = [s.fields for s in sv.sent[n:]]
        env.check(all(s.type == agent.P["scan_remote_directory_result"] for s in sv.sent[n:]), "sent %r", got)
        env.check(len(got) == want, "%d scan requests were answered by %r", want, got)
        bad = [f for f in got if f != [b""]]
        env.check(len(bad) == {"fail": 1, "thread": 1, "missing": 1, "memory": 1}.get(how, 0), "failures reported: %r", bad)
        fs.fault = None
        vthread.HOOK.thread_start_fault = None
        if how != "missing":
            env.check(r.scan(1) == b"", "the next scan failed")
        env.ping()
        ex.note(how, len(bad))

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    out = [
        Family("fault-once", faults, 0, "once", about="every file system call of every request failing"),
        Family("fault-from", faults, 0, "from", about="file systems failing from some call on"),
        Family("values", values, 0, about="every kind of value"),
        Family("piled", piled, 0, 3 if deep else 2, about="requests in one go"),
        Family("cycles", piled, 0, core.Cycled(2, 40), about="the same few requests, over and over"),
    ]
    for h in ("instruction", "fail", "thread", "missing", "memory", "two"):
        out.append(Family("scan-" + h, scans, 3 if deep else 2, h, about=h))
    return out
