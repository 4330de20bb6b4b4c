"""C19: remote file requests can not reach outside their directories."""
import os

from .. import agent, boot, core, files, kit, vfs
from ..main import Family

TREE = {"f": b"file f", "sub": {"g": b"file g", "deep": {"h": b"file h"}}, "remote": {"f": b"inner f"}, ".hid": b"hidden",
        "w..x": b"dots", "...": b"three", "scan.json": b"not the scan"}
SECRET = b"TOP-SECRET"


class Rig(object):
    def __init__(self, env, remote="remote", scan=True):
        self.env = env
        d = self.d = files.Dirs(None, remote="remote")
        os.mkdir(d.remote)
        d.make(d.remote, TREE)
        d.make(d.base, {"outside": {"secret": SECRET, "sub": {"secret2": SECRET + b"2"}}, "remote-evil": {"x": SECRET + b"x"},
                        "remote2": SECRET, "passwd": SECRET + b"p", "f": SECRET + b"f", "...": SECRET + b"...", "..x": SECRET + b"..x", "sub": {"g": SECRET + b"g"}})
        d.make(d.tmp, {"other": SECRET + b"o", "dataplicity_remote_evil": {"e": SECRET},
                       "dataplicity_remote_downloads2": SECRET, "x.json": SECRET, "scan.json": SECRET + b"s"})
        if scan:
            d.make(d.tmp, {files.SCAN_NAME: b'{"the": "scan"}'})
        spell = {"remote": d.remote, "slash": d.remote + "/", "dots": d.base + "/outside/../remote", "home": "~/remote",
                 "double": d.base + "//remote"}[remote]
        env.start_agent(remote_dir=spell)
        env.up()
        self.r = files.Remote(env)
        self.before = self.tree()

    def tree(self):
        return files.tree(self.d.base)

    def own(self, p):
        """Is this a place the agent may write to?"""
        return p.startswith("remote/") or p == "remote" or p.startswith("tmp/dataplicity_remote/") or \
            p.startswith("tmp/dataplicity_remote_downloads/") or p in ("tmp/dataplicity_remote", "tmp/dataplicity_remote_downloads")

    def check(self, what, changed=None, kept=True):
        """Nothing outside changed; and nothing at all, if the request was refused."""
        now = self.tree()
        diff = {p for p in set(now) | set(self.before) if now.get(p) != self.before.get(p)}
        bad = sorted(p for p in diff if not self.own(p))
        self.env.check(not bad, "%r changed %r", what, [(p, self.before.get(p), now.get(p)) for p in bad][:3])
        gone = sorted(p for p in diff if p in self.before and p.startswith("remote"))
        self.env.check(not gone, "%r changed %r in the remote directory", what, gone)
        if changed is False:
            left = sorted(p for p in diff if p.startswith("remote/") or now.get(p) != "dir" and p in now and p not in self.before)
            self.env.check(not left, "%r was refused but made %r", what, left)
        self.before = now
        return diff

    def inside(self, path):
        """The content a path names within the remote directory, or None."""
        if path == b"\0scan.json":
            return b'{"the": "scan"}'
        try:
            p = os.path.normpath("/" + path.decode("utf-8").lstrip("/"))
        except UnicodeDecodeError:
            return None
        c = self.before.get("remote" + p)
        return c if isinstance(c, bytes) else None


def ids(d):
    b = d.base.encode()
    return [b"up-1", b"", b".", b"..", b"/", b"../other", b"../x.json", b"../../outside/secret", b"../../remote/f", b"../../f",
            b + b"/outside/secret", b + b"/remote/f", b"a/b", b"a/../../other", b"./x", b"..\0", b"a\0b", b"\0", b"...", b"..x",
            b"\xff\xfe", b"../dataplicity_remote_evil/e", b"//" + b[1:] + b"/passwd", b"~/passwd", b"~", b"up-1/", b"up-1/..",
            b"x" * 300, b"..\\other", b"%2e%2e", b"../" + files.SCAN_NAME.encode()]


def paths(d):
    b = d.base.encode()
    t = d.tmp.encode()
    return [b"f", b"/f", b"sub/g", b"sub/deep/h", b"", b"/", b".", b"..", b"../f", b"../outside/secret", b"sub/../../outside/secret",
            b"sub/../f", b"/../outside/secret", b"//../f", b"./../f", b"./f", b"../remote-evil/x", b"-evil/x", b"2", b"../remote2",
            b + b"/outside/secret", b"/" + b + b"/passwd", b"//" + b[1:] + b"/passwd", b"\0scan.json", b"\0", b"\0f", b"\0../scan.json",
            b"\0scan.json/../x", b"\0../other", b"\0/etc/passwd", b"f\0", b"f\0/../..", b"..\0/f", b".../f", b"...", b"....//f", b"w..x",
            b"..%2f..", b"sub/..", b"sub/../..", b"sub/deep/../../../outside/secret", b"\xff", b"..\\..\\f", b"~/passwd", b"~",
            b"missing", b"sub/missing", b"missing/../../f", b"remote/f", b"../remote/f", b"f/", b"f/..", b"f/../..", b" ..", b".. /f",
            b"/..", b"x" * 300, b"\n../f", b"sub/.../g", b"scan.json", b"/scan.json", b"sub/scan.json", t + b"/scan.json", b"x" + t + b"/scan.json",
            b"/" + t + b"/scan.json", t + b"/" + files.SCAN_NAME.encode(), b"\0" + t + b"/scan.json", b"\0\0scan.json", b"scan.json\0",
            b"0scan.json", b"\0SCAN.json", b"\0scan.json "]


def devices(d):
    b = d.downloads.encode()
    t = d.tmp.encode()
    o = d.base.encode()
    return [b"", b + b"/dl-1", b + b"/dl-9", b, b + b"/", b + b"/.", b + b"/..", b + b"/../other", b + b"/../../outside/secret",
            b + b"/sub/x", b + b"//dl-1", b + b"/./dl-1", b + b"2", b + b"/../dataplicity_remote_downloads/dl-1", t + b"/other",
            t + b"/" + files.SCAN_NAME.encode(), o + b"/outside/secret", o + b"/remote/f", o + b"/f", b"f", b"../f", b"dl-1",
            b"/etc/hostname", b"~/f", b"\0", b + b"/a\0b", b"\xff", b"/", b".", o + b"/remote/newfile", b + b"/dl-1/",
            b"/proc/self/mem", t + b"/dataplicity_remote/up-1", t + b"/dataplicity_remote"]


SPELL = ["remote", "slash", "dots", "home", "double"]


def opens(ex):
    """Every id and path: open, read, close."""
    spell = ex.pick(SPELL if ex.params else ["remote"], label="remote directory")
    made = ex.pick([False, True], label="a snapshot exists")
    env = agent.Env(ex, preempt=False)

    def main():
        rig = Rig(env, spell)
        d, r = rig.d, rig.r
        if made:
            env.check(r.open(b"mine", b"sub/g") == 6, "a plain open failed")
            rig.check("open")
        if ex.params:
            id, path = b"up-1", ex.pick(paths(d), label="path")
        else:
            id = ex.pick(ids(d), label="id")
            path = ex.pick([b"f", b"../outside/secret", b"\0scan.json", b"\0x"], label="path")
        what = (id, path)
        inside = rig.inside(path)
        size = r.open(id, path)
        diff = rig.check(("open",) + what, changed=size is not None)
        if size is not None:
            env.check(inside is not None, "open%r succeeded", what)
            env.check(size == len(inside), "open%r: size %r", what, size)
            new = [p for p in diff if rig.before.get(p) != "dir"]
            env.check(len(new) == 1 and new[0].startswith("tmp/dataplicity_remote/"), "open%r made %r", what, new)
        elif path in (b"f", b"/f", b"sub/g", b"w..x", b"...", b"\0scan.json", b"remote/f") and id in (b"up-1", b"...", b"..x", b"~"):
            env.fail("open%r failed", what)
        got = r.read(id, 0, 1000)
        env.check(got is None or size is not None and got == inside, "read%r returned %r", what, got)
        rig.check(("read",) + what, changed=False)
        r.close(id)
        diff = rig.check(("close",) + what)
        kept = [p for p in rig.before if p.startswith("tmp/dataplicity_remote/")]
        env.check(kept == (["tmp/dataplicity_remote/mine"] if made else []), "after close%r: %r", what, kept)
        env.ping()
        ex.note(spell, made, id[-20:], path[-30:])

    env.run(main)


def strays(ex):
    """Reads and closes of every id, nothing opened; with and without other snapshots and downloads."""
    kind = ex.pick(["read", "close"], label="kind")
    made = ex.pick([False, True], label="others")
    env = agent.Env(ex, preempt=False)

    def main():
        rig = Rig(env)
        d, r = rig.d, rig.r
        if made:
            r.open(b"mine", b"f")
            r.write(b"dl-1", b"new", b"", 0, b"part", 0)
            rig.before = rig.tree()
        id = ex.pick([i for i in ids(d)], label="id")
        if kind == "read":
            for o, n in ((0, 100), (2, 3), (-1, 5), (0, -1)):
                got = r.read(id, o, n)
                env.check(not got, "read of %r returned %r", id, got)
        else:
            r.close(id)
        rig.check((kind, id), changed=False)
        env.check(not made or "tmp/dataplicity_remote/mine" in rig.before, "%r removed another snapshot", (kind, id))
        env.check(not made or "tmp/dataplicity_remote_downloads/dl-1" in rig.before, "%r removed a download", (kind, id))
        env.ping()
        ex.note(kind, made, id[-20:])

    env.run(main)


def writes(ex):
    """Every id, path and device path of a write, final or not, first or following another."""
    which = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        rig = Rig(env, ex.pick(SPELL, label="remote directory") if which == "path" else "remote")
        d, r = rig.d, rig.r
        if which == "path" or ex.choose(2, label="a download exists"):
            fail, dev = r.write(b"dl-1", b"new", b"", 0, b"part", 0)
            env.check(fail == 0 and dev == d.downloads.encode() + b"/dl-1", "a plain write: %r", (fail, dev))
            rig.check("write")
        id, path, dev = b"dl-2", b"got.bin", b""
        if which == "id":
            id = ex.pick(ids(d), label="id")
        elif which == "path":
            path = ex.pick(paths(d), label="path")
            dev = ex.pick([b"", d.downloads.encode() + b"/dl-1"], label="device path")
        elif which == "device":
            dev = ex.pick(devices(d), label="device path")
            path = ex.pick([b"got.bin", b"../escape"], label="path")
        final = ex.pick([0, 1, 2], label="final")
        offset = ex.pick([0, 4] if which != "path" else [0], label="offset")
        data = ex.pick([b"DATA", b""], label="data")
        what = ("write", id, path, dev, offset, data, final)
        had = dict(rig.before)
        fail, back = r.write(id, path, dev, offset, data, final)
        now = rig.tree()
        diff = rig.check(what, changed=None)
        new = sorted(p for p in now if p not in had and p.startswith("remote/"))
        if fail:
            env.check(not new, "%r failed but made %r", what, new)
        else:
            env.check(len(new) == (1 if final else 0), "%r made %r", what, new)
        if fail and path == b"got.bin" and id == b"dl-2" and dev == b"":
            env.fail("%r failed", what)
        # whatever the reply names stays inside when it is used
        if not fail and not final:
            fail, back = r.write(id, b"end.bin", back, 0, b"more", 1)
            rig.check(("final after",) + what)
            env.check(not fail or dev, "the device path of the reply can not be used: %r", back)
        env.ping()
        ex.note(which, id[-20:], path[-30:], dev[-30:], offset, data, final)

    env.run(main)


PARTS = [b"..", b".", b"", b"...", b"..x", b"f", b"sub", b"remote", b"outside", b"secret"]


def grammar(ex):
    """All paths of a few components, for an open and for a write."""
    kind, depth = ex.params
    head = [ex.pick(PARTS, label="component") for _ in range(depth - 1)]
    env = agent.Env(ex, preempt=False, horizon=500000, time_horizon=1e7)

    def main():
        rig = Rig(env)
        r = rig.r
        for last in [None] + PARTS:
            env.fresh()
            path = b"/".join(head + ([] if last is None else [last]))
            inside = rig.inside(path)
            if kind == "id":
                size = r.open(path, b"sub/g")
                rig.check(("open as", path), changed=size is not None)
                got = r.read(path, 0, 1000)
                env.check(got == (None if size is None else b"file g"), "read of the snapshot %r returned %r", path, got)
                r.close(path)
                rig.check(("close of", path))
                fail, back = r.write(path, b"sub/got", b"", 0, b"DATA", 1)
                now = rig.tree()
                rig.check(("write as", path))
                env.check(("remote/sub/got" in now) == (not fail), "the write as %r: %r", path, fail)
                if not fail:
                    os.unlink(os.path.join(rig.d.remote, "sub/got"))
            elif kind == "open":
                size = r.open(b"up-1", path)
                rig.check(("open", path), changed=size is not None)
                got = r.read(b"up-1", 0, 1000)
                env.check(size is None or inside is not None and size == len(inside), "open of %r: size %r", path, size)
                env.check(got == (None if size is None else inside), "read of %r returned %r", path, got)
                r.close(b"up-1")
                env.check(not [p for p in rig.tree() if p.startswith("tmp/dataplicity_remote/")], "a snapshot of %r is left", path)
            else:
                had = rig.tree()
                fail, _ = r.write(b"dl-1", path, b"", 0, b"DATA", 1)
                now = rig.tree()
                rig.check(("write", path))
                new = sorted(p for p in now if p not in had and p.startswith("remote/"))
                env.check(len(new) == (0 if fail else 1), "the write of %r made %r", path, new)
                for p in new:
                    os.unlink(os.path.join(rig.d.base, p))
                left = rig.d.downloads + "/dl-1"
                if os.path.lexists(left):
                    os.unlink(left)
            rig.before = rig.tree()
        env.ping()
        ex.note(*head)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("ids", opens, 0, False, about="opens: every id"),
        Family("paths", opens, 0, True, about="opens: every path"),
        Family("path-grammar", grammar, 0, ("open", 4 if deep else 3), about="opens: all paths of a few components"),
        Family("id-grammar", grammar, 0, ("id", 4 if deep else 3), about="all ids of a few components"),
        Family("write-grammar", grammar, 0, ("write", 4 if deep else 3), about="writes: all paths of a few components"),
        Family("strays", strays, 0, about="reads and closes of every id"),
        Family("write-ids", writes, 0, "id", about="writes: every id"),
        Family("write-paths", writes, 0, "path", about="writes: every path"),
        Family("write-devices", writes, 0, "device", about="writes: every device path"),
    ]
