"""C23: a published scan is always a complete one."""
import errno
import json
import os
import shutil

from .. import agent, boot, core, files, kit, vfs, vthread
from ..main import Family

M = "dataplicity."
TREE = {"f": b"1234", "sub": {"g": b"56", "deep": {"h": b""}}}


def start(env, tree=TREE):
    d = files.Dirs(tree)
    env.start_agent(remote_dir=d.remote)
    env.up()
    return d, files.Remote(env)


class Published(object):
    """Reads the published scan whenever asked: what is there must be complete, and never go back."""

    def __init__(self, env, d):
        self.env, self.d = env, d
        self.version = 0
        self.seen = set()
        self.reads = 0
        self.trees = {}  # version -> number of entries
        self.last = None

    def bump(self):
        """A new state of the directory; each has one file more, or is much smaller than the one before."""
        v = len(self.trees) + 1
        with vfs.open_real(os.path.join(self.d.remote, "v%d" % v), "wb") as f:
            f.write(b"x" * v)
        self.trees[v] = 1
        return v

    def read(self, *a):
        self.reads += 1
        try:
            with vfs.open_real(self.d.scan_path, "rb") as f:
                data = f.read()
        except FileNotFoundError:
            self.env.check(self.last is None, "the published scan has gone")
            return 0
        if data == self.last:
            return self.version
        self.last = data
        try:
            s = json.loads(data.decode("utf-8"))
            dirs = s["directories"]
            names = dict(map(tuple, dirs[""].get("files", [])))
        except Exception as e:
            raise core.Violation("the published scan can not be read (%s): %r" % (e, data[:200]))
        env = self.env
        env.check(s["root"] == self.d.remote and set(s) == {"root", "time", "directories"}, "published: %r", s)
        vs = sorted(int(n[1:]) for n in names if n[0] == "v")
        env.check(vs == list(range(1, len(vs) + 1)), "a scan with the versions %r", vs)
        want = {"f": 4}
        want.update(("v%d" % v, v) for v in vs)
        env.check(names == want, "the files of the root: %r", names)
        env.check(sorted(dirs) == ["", "sub", "sub/deep"] and dirs["sub"] == {"files": [["g", 2]], "dirs": ["deep"]} and
                  dirs["sub/deep"] == {"files": [["h", 0]]} and dirs[""]["dirs"] == ["sub"], "the published scan: %r", dirs)
        env.check(len(vs) >= self.version, "the published scan went back from %d to %d", self.version, len(vs))
        self.version = len(vs)
        self.seen.add(self.version)
        return self.version


ERRORS = [errno.EIO, errno.ENOSPC, errno.EACCES]


def crash(ex):
    """A reader, and an end of the agent, after every file system operation of a scan; then the next scan of a smaller tree."""
    before = ex.choose(2, label="published before")
    torn = ex.choose(2, label="torn writes")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env)
        pub = Published(env, d)
        pub.bump()
        if before:
            env.check(r.scan(1) == b"", "scan")
            env.check(pub.read() == 1, "nothing is published")
            pub.bump()
        state = {"dead": False}

        def fault(n, name, path):
            pub.read()
            if not state["dead"] and ex.choose(2, label="crash"):
                state["dead"] = True
                ex.note("crash", name)
            if state["dead"]:
                return OSError(errno.EIO, "the agent is no more")
        env.s.fs = fs = vfs.Fs(env, fault=fault, after=pub.read, torn=bool(torn))
        sv = env.server
        n = len(sv.sent)
        sv.packet("scan_remote_directory")
        env.settle(1)
        v = pub.read()
        if state["dead"]:
            env.check(v in ((1, 2) if before else (0, 1)), "published: %r", v)
        else:
            env.check(v == 1 + before and sv.sent[n].fields == [b""], "the scan was not published")
        # the machine starts again
        env.s.fs = None
        tmp = d.tmp
        shutil.rmtree(os.path.join(d.remote, "sub"))
        got = r.scan(1)
        env.check(got == b"", "the scan after a crash failed: %r", got)
        s = json.loads(open(d.scan_path).read())
        env.check(sorted(s["directories"]) == [""], "published after a crash: %r", s)
        env.check(len(s["directories"][""]["files"]) == 2 + before, "published after a crash: %r", s)
        ex.note(before, torn, state["dead"])

    env.run(main)


def faults(ex):
    """Every operation of a scan fails (once, or from then on): what is published is complete, and success is told truly."""
    before = ex.choose(2, label="published before")
    torn = ex.choose(2, label="torn writes")
    mode = ex.pick(["once", "from"], label="mode")
    err = ex.pick(ERRORS, label="error")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env)
        pub = Published(env, d)
        pub.bump()
        if before:
            env.check(r.scan(1) == b"" and pub.read() == 1, "scan")
            pub.bump()
        at = []

        def fault(n, name, path):
            # (what is left out of a scan because it can not be read is the matter of C22)
            if name.startswith("entry.") or name.startswith("scandir"):
                return None
            pub.read()
            if not at and ex.choose(2, label="fail"):
                at.append(n)
                ex.note(name)
                return OSError(err, os.strerror(err))
            if at and mode == "from":
                return OSError(err, os.strerror(err))
        env.s.fs = vfs.Fs(env, fault=fault, after=pub.read, torn=bool(torn))
        got = r.scan(1)
        v = pub.read()
        env.check(got != b"" or v == 1 + before, "success was told, but version %r is published", v)
        env.check(at or got == b"", "nothing failed, but the scan did: %r", got)
        env.s.fs = None
        pub.bump()
        got = r.scan(1)
        env.check(got == b"" and pub.read() == 2 + before, "the next scan: %r, published %r", got, pub.read())
        ex.note(before, torn, mode, err, bool(at))

    env.run(main)


def requests(ex):
    """Scans asked for at every moment of others, with the directory changing, in every schedule."""
    kinds, when = ex.params
    env = agent.Env(ex, points=(M + "directory_scanner",))

    def main():
        env.s.preempt = False
        d, r = start(env)
        sv = env.server
        pub = Published(env, d)
        answers = []

        def on_send(s):
            if s.type == agent.P["scan_remote_directory_result"]:
                env.check(s.fields == [b""], "a scan failed: %r", s.fields)
                answers.append(pub.read())
                # replies are not numbered: the j-th can only belong to one of the requests made before what is published
                fit = len([v for v in asked if v <= answers[-1]])
                env.check(len(answers) <= fit, "answer %d came when version %d was published; the requests were made at %r",
                          len(answers), answers[-1], asked)
        sv.on_send = on_send
        asked = []
        todo = list(kinds)

        def ask():
            kind = todo.pop(0)
            v = pub.bump()
            if kind == "packet":
                asked.append(v)
                sv.packet("scan_remote_directory")
            else:
                sv.instruct(action=b"scan-directory")

        def fault(n, name, path):
            if when == "meanwhile" and todo and ex.choose(2, label="ask now"):
                ask()
        env.s.fs = vfs.Fs(env, fault=fault, after=pub.read, points=True)
        env.s.preempt = True
        ask()
        if when == "at once":
            while todo:
                ask()
        env.settle(1)
        while todo:
            ask()
            env.settle(1)
        env.s.preempt = False
        env.settle(5)
        env.check(len(answers) == len(asked), "%d requests, %d answers", len(asked), len(answers))
        env.check(not asked or pub.read() >= asked[-1], "the last request was not followed by a scan: %r published", pub.read())
        env.check(pub.version > 0, "nothing was published")
        got = sorted(os.listdir(d.tmp))
        env.s.fs = None
        sv.on_send = None
        pub.bump()
        env.check(r.scan(1) == b"" and pub.read() == len(pub.trees), "the next scan")
        ex.note(kinds, when, answers, len(got))

    env.run(main)


def uploaded(ex):
    """The server fetches the published scan while scans go on: what it opened stays one complete scan."""
    env = agent.Env(ex, points=(M + "directory_scanner",))

    def main():
        env.s.preempt = False
        d, r = start(env)
        sv = env.server
        pub = Published(env, d)
        pub.bump()
        env.check(r.scan(1) == b"", "scan")
        env.s.fs = vfs.Fs(env, points=True)
        pub.bump()
        n = len(sv.sent)
        env.s.preempt = True
        sv.packet("scan_remote_directory")
        sv.packet("open_remote_file", b"up", b"\0scan.json")
        env.settle(1)
        env.s.preempt = False
        env.settle(1)
        P = agent.P
        got = sv.sent[n:]
        opened = [s for s in got if s.type == P["open_remote_file_result"]]
        env.check(len(opened) == 1 and opened[0].fields[2] == 0, "opening the scan: %r", [s.fields for s in opened])
        size = opened[0].fields[1]
        data = b""
        while True:
            more = r.read(b"up", len(data), 50)
            if not more:
                break
            data += more
        env.check(len(data) == size, "the scan had %r bytes, read %r", size, len(data))
        s = json.loads(data.decode("utf-8"))
        v = len([f for f in s["directories"][""]["files"] if f[0][0] == "v"])
        env.check(v in (1, 2) and sorted(s["directories"]) == ["", "sub", "sub/deep"], "uploaded: %r", s)
        ex.note(v)

    env.run(main)


def repeats(ex):
    """Scan after scan, some of which fail, a few events over and over; nothing but the published scan is left."""
    depth = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env)
        pub = Published(env, d)
        pub.bump()
        for step in range(ex.cycled(depth)):
            env.fresh()
            what = ex.pick(["packet", "instruction", "burst", "unchanged", "no space", "no rename", "fetched"], label="event")
            ex.note(what)
            v = pub.bump() if what != "unchanged" else len(pub.trees)
            before = pub.version
            if what in ("packet", "unchanged"):
                env.check(r.scan(1) == b"", "the scan failed")
            elif what == "instruction":
                env.server.instruct(action=b"scan-directory")
                env.settle(1)
            elif what == "burst":
                n = len(env.server.of("scan_remote_directory_result"))
                for _ in range(5):
                    env.server.packet("scan_remote_directory")
                env.settle(1)
                got = env.server.of("scan_remote_directory_result")[n:]
                env.check([s.fields for s in got] == [[b""]] * 5, "5 requests were answered by %r", [s.fields for s in got])
            elif what == "fetched":
                size = r.open(b"up", b"\0scan.json")
                if before:
                    data = r.read(b"up", 0, 1 << 20)
                    env.check(data is not None and len(data) == size and data == pub.last, "fetched %r, published %r", data, pub.last)
                    r.close(b"up")
            else:
                def fault(n, name, path):
                    if name.startswith("rename" if what == "no rename" else "write") or name.startswith("replace") and what == "no rename":
                        return OSError(errno.ENOSPC, "No space left on device")
                env.s.fs = vfs.Fs(env, fault=fault, torn=True)
                env.check(r.scan(1) != b"", "a scan that can not be stored succeeded")
                env.s.fs = None
            ok = what in ("packet", "instruction", "burst", "unchanged")
            env.check(pub.read() == (v if ok else before), "%s: version %r is published, not %r", what, pub.read(), v if ok else before)
        env.check(r.scan(1) == b"" and pub.read() == len(pub.trees), "the last scan")

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    b = 3 if deep else 2
    p, i = "packet", "instruction"
    out = [
        Family("repeats", repeats, 0, core.Cycled(3, 12) if deep else core.Cycled(2, 15), about="scan after scan"),
        Family("crash", crash, 0, about="a reader and a crash after every operation"),
        Family("faults", faults, 0, about="every operation failing"),
        Family("uploaded", uploaded, b, about="fetched while being written"),
    ]
    for kinds in [(p, p), (p, i), (i, p)] + ([(i, i), (p, p, p), (i, p, i)] if deep else []):
        name = "".join(k[0] for k in kinds)
        out.append(Family("at-once-" + name, requests, b, (kinds, "at once"), about="requested together"))
        out.append(Family("meanwhile-" + name, requests, b - 1, (kinds, "meanwhile"), about="requested at every moment of a scan"))
    return out
