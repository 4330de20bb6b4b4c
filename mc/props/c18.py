"""C18: remote file reads serve the snapshot taken at open."""
import os

from .. import agent, boot, core, files, kit, vfs
from ..main import Family

MARGIN = 50 * 1000 * 1000


def blob(n, k=0):
    one = bytes(bytearray((j * 7 + k + j // 251) & 255 for j in range(min(n, 5003))))
    return (one * (n // max(1, len(one)) + 1))[:n]


FILES = ["a.bin", "sub/b.bin"]
IDS = [b"up-1", b"up-2"]


def start(env, tree):
    d = files.Dirs(tree)
    env.start_agent(remote_dir=d.remote)
    env.up()
    return d, files.Remote(env)


def histories(ex):
    """Every order of opens, reads, closes and changes to the files themselves."""
    depth = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"a.bin": b"first content", "sub": {"b.bin": b"the other"}})
        live = {"a.bin": b"first content", "sub/b.bin": b"the other"}
        snaps = {}
        n = 0
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = [("open", i, f) for i in range(2) for f in FILES]
            menu += [(k, i) for k in ("read", "close") for i in range(2)]
            menu += [(k, f) for k in ("rewrite", "truncate", "append", "delete", "replace") for f in FILES[:1 + (step == 0)]]
            ev = ex.pick(menu, label="event")
            ex.note(*ev)
            k = ev[0]
            if k == "open":
                i, f = ev[1:]
                size = r.open(IDS[i], f.encode())
                if f in live:
                    env.check(size == len(live[f]), "opened %s: size %r, not %d", f, size, len(live[f]))
                    snaps[i] = live[f]
                else:
                    env.check(size is None, "opened %s, which is not there", f)
            elif k == "read":
                pass
            elif k == "close":
                r.close(IDS[ev[1]])
                snaps.pop(ev[1], None)
            else:
                f = ev[1]
                p = os.path.join(d.remote, f)
                n += 1
                new = b"changed %d" % n + b"     "[n // 10:]  # as long as the first content
                new = new[:13]
                if k == "delete":
                    if f in live:
                        os.remove(p)
                        del live[f]
                else:
                    if k == "truncate":
                        new = b""
                    elif k == "append":
                        new = live.get(f, b"") + new
                    if k == "replace":
                        with open(p + ".x", "wb") as fh:
                            fh.write(new)
                        os.rename(p + ".x", p)
                    else:
                        with open(p, "r+b" if os.path.exists(p) else "wb") as fh:
                            fh.truncate(0)
                            fh.write(new)
                    live[f] = new
            for i in range(2):
                got = r.read(IDS[i], 0, 1000)
                if i in snaps:
                    env.check(got == snaps[i], "snapshot %d reads %r, not %r", i, got, snaps[i])
                    got = r.read(IDS[i], 3, 4)
                    env.check(got == snaps[i][3:7], "snapshot %d reads %r at 3", i, got)
                else:
                    env.check(got is None, "%r is not open but reads %r", IDS[i], got)
            env.check(d.snapshots == sorted(IDS[i].decode() for i in snaps), "snapshots kept: %r, open: %r", d.snapshots, sorted(snaps))
            for f in FILES:
                p = os.path.join(d.remote, f)
                now = open(p, "rb").read() if os.path.exists(p) else None
                env.check(now == live.get(f), "the file %s itself changed", f)

    env.run(main)


def reads(ex):
    """Every offset and size, in every order of two reads; sizes around the copy's block size."""
    n = ex.pick([0, 1, 2, 6, 65535, 65536, 65537, 200000, 5 << 20], label="size")
    env = agent.Env(ex, preempt=False)

    def main():
        data = blob(n, 3)
        d, r = start(env, {"f": data, "g": blob(n, 90)})
        env.check(r.open(b"x", b"f") == n, "size")
        env.check(r.open(b"y", b"/g") == n, "size")
        if n <= 6:
            offs, sizes = range(0, n + 3), list(range(0, n + 4)) + [10 ** 6]
        else:
            offs = [0, 1, n // 2, 65535, 65536, 65537, n - 1, n, n + 1, 2 ** 31, 2 ** 40]
            sizes = [0, 1, 65535, 65536, 65537, n, n - 1, 2 * n]
        a = ex.pick(offs, label="offset")
        s = ex.pick(sizes, label="size")
        for o, k in ((a, s), (0, 5), (a, s)):
            env.fresh()
            got = r.read(b"x", o, k)
            env.check(got == data[o:o + k], "read(%d, %d) of %d bytes returned %r", o, k, n, got if got is None else len(got))
            got = r.read(b"y", o, k)
            env.check(got == blob(n, 90)[o:o + k], "read(%d, %d) of the other file", o, k)
        r.close(b"x")
        env.check(r.read(b"x", a, s) is None, "read after close")
        env.check(r.read(b"y", 0, n) == blob(n, 90), "closing one file closed the other")
        r.close(b"y")
        env.check(not d.snapshots, "left %r", d.snapshots)
        r.close(b"y")
        ex.note(n, a, s)

    env.run(main)


def pieces(ex):
    """The whole file, read in pieces, is the snapshot."""
    n = ex.pick([1, 10, 4096, 70001], label="size")
    chunk = ex.pick([1, 3, 1024, 4096, 65536], label="chunk")
    if n // chunk > 2000:
        return
    name = ex.pick(["f", u"d/\u00e9t\u00e9.txt", "name with spaces", u"..x", "d/.hidden", "scan.json", "d/scan.json",
                    files.SCAN_NAME, "d/" + files.SCAN_NAME], label="name")
    env = agent.Env(ex, preempt=False, horizon=400000)

    def main():
        dirs, r = start(env, {"d": {}})
        with open(os.path.join(dirs.remote, name), "wb") as f:
            f.write(blob(n))
        size = r.open(b"id", name.encode("utf-8"))
        env.check(size == n, "size %r, not %d", size, n)
        os.remove(os.path.join(dirs.remote, name))
        out = b""
        while len(out) < n:
            env.fresh()
            got = r.read(b"id", len(out), chunk)
            env.check(got, "no data at %d", len(out))
            out += got
        env.check(out == blob(n), "the pieces differ from the file")
        env.check(r.read(b"id", n, chunk) == b"", "data after the end")
        r.close(b"id")
        env.check(not dirs.snapshots, "left %r", dirs.snapshots)
        ex.note(n, chunk, name)

    env.run(main)


class Vfs(object):
    def __init__(self, total, free, frsize):
        self.f_frsize = self.f_bsize = frsize
        self.f_blocks = total // frsize
        self.f_bfree = self.f_bavail = free // frsize


def margin(ex):
    """Disk space around the margin: opened exactly if 50 MB stay free."""
    n = ex.pick([0, 1, 5000, 100000], label="size")
    total = ex.pick([60 * 10 ** 6, 10 ** 9, 10 ** 12], label="total")
    frsize = ex.pick([1, 512], label="block")
    delta = ex.pick([-10 ** 6, -4096, -512, -1, 0, 1, 512, 4096, 10 ** 6, None], label="delta")
    scan = ex.pick([False, True], label="the scan itself")
    other = ex.pick(["same", "full", "empty"], label="the disk of the remote directory")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"f": blob(n), "small": b""})
        if scan:
            with open(d.scan_path, "wb") as f:
                f.write(blob(n))
        free = MARGIN + n + (0 if delta is None else delta)
        if delta is None:
            free = 0
        tot = total - total % frsize
        free -= free % frsize
        env.s.fs = fs = vfs.Fs(env)

        def statvfs(p):
            # the copy is made on the disk of the temporary directory
            if str(p).startswith(d.remote) and other != "same":
                return Vfs(tot, 0 if other == "full" else tot, frsize)
            return Vfs(tot, free, frsize)
        fs.statvfs = statvfs
        size = r.open(b"id", b"\0scan.json" if scan else b"f")
        if free - n >= MARGIN:
            env.check(size == n, "%d free, %d to copy: %r", free, n, size)
            env.check(d.snapshots == ["id"], "snapshots %r", d.snapshots)
            env.check(r.read(b"id", 0, n) == blob(n), "content")
            r.close(b"id")
        else:
            env.check(size is None, "%d free, %d to copy: opened", free, n)
            env.check(r.read(b"id", 0, n) is None, "a file that was not opened can be read")
        env.check(not d.snapshots, "left %r", d.snapshots)
        # and when there is room again
        fs.statvfs = lambda p: Vfs(tot, tot, frsize)
        if tot - n >= MARGIN:
            env.check(r.open(b"id", b"f") == n, "it can not be opened when there is room")
        ex.note(n, total, frsize, delta, scan, other)

    env.run(main)


def changing(ex):
    """The file changes while it is opened, at every step: the size reported is that of what can be read."""
    how = ex.pick(["append", "truncate", "rewrite", "replace", "delete", "grow-replace"], label="how")
    n = ex.pick([10, 200000], label="size")
    scan = ex.pick([False, True], label="the scan itself")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"f": blob(n)})
        p = os.path.join(d.remote, "f")
        if scan:
            os.rename(p, d.scan_path)
            p = d.scan_path
        old = blob(n)
        new = {"append": old + b"appended", "truncate": b"", "rewrite": b"12345678", "replace": b"replaced", "delete": None,
               "grow-replace": blob(n + 70000, 7)}[how]
        done = []

        def fault(i, name, path):
            if not done and ex.choose(2, label="now"):
                done.append((i, name))
                fs.on = False
                if how == "delete":
                    os.remove(p)
                elif how in ("replace", "grow-replace"):
                    with open(p + ".x", "wb") as f:
                        f.write(new)
                    os.rename(p + ".x", p)
                elif how == "append":
                    with open(p, "ab") as f:
                        f.write(b"appended")
                else:
                    with open(p, "r+b") as f:
                        f.truncate(0)
                        f.write(new)
                fs.on = True
            return None
        env.s.fs = fs = vfs.Fs(env, fault=fault, read_max=70000)
        size = r.open(b"id", b"\0scan.json" if scan else b"f")
        fs.on = False
        got = r.read(b"id", 0, 10 ** 6)
        if size is None:
            env.check(how == "delete" and done, "the open failed")
            env.check(got is None, "the open failed, but there is %r to read", got)
        else:
            env.check(got is not None and len(got) == size, "size %d, but %r bytes to read", size, None if got is None else len(got))
            if how in ("append", "replace", "grow-replace", "delete"):
                env.check(got in (old, new), "neither the old content nor the new: %d bytes", len(got))
            for off in (0, 5, size - 1, size):
                if off >= 0:
                    env.check(r.read(b"id", off, 3) == got[off:off + 3], "another read at %d", off)
        r.close(b"id")
        env.check(not d.snapshots, "left %r", d.snapshots)
        ex.note(how, n, scan, done)

    env.run(main)


def ids(ex):
    """Two files open under ids that look alike, closed and read in every order."""
    a, b = ex.pick([(b"a", b"A"), (b"1", b"01"), (b"x", b"x "), (b"x", b"x.1"), (b"id", b"id-2"), (b"id", b"di"),
                    (b"\xc3\xa9", b"e"), (b"a" * 200, b"a" * 201), (b"-", b"--"), (b"scan.json", b"a.bin")], label="ids")
    order = ex.pick([(0, 1), (1, 0)], label="order")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"f": b"content of f", "g": b"content of g!"})
        env.check(r.open(a, b"f") == 12 and r.open(b, b"g") == 13, "open")
        want = {a: b"content of f", b: b"content of g!"}
        for i in order:
            x = (a, b)[i]
            y = (a, b)[1 - i]
            for z in want:
                env.check(r.read(z, 0, 99) == want[z], "%r reads %r", z, r.read(z, 0, 99))
            r.close(x)
            del want[x]
            env.check(r.read(x, 0, 99) is None, "%r is closed but reads", x)
            if want:
                env.check(r.read(y, 0, 99) == want[y], "%r reads %r", y, r.read(y, 0, 99))
        ex.note(a, b, order)

    env.run(main)


def links(ex):
    """Files reached by links, soft and hard: the snapshot is of what they led to when it was opened."""
    kind = ex.pick(["soft", "soft-soft", "soft-dir", "hard"], label="link")
    how = ex.pick(["write", "replace", "remove", "relink", "truncate"], label="change")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"real": b"the real content", "other": b"OTHER", "dir": {"real": b"the real content"}})
        p = lambda *n: os.path.join(d.remote, *n)
        name = "link"
        target = p("real")
        if kind == "hard":
            os.link(target, p(name))
        elif kind == "soft":
            os.symlink("real", p(name))
        elif kind == "soft-soft":
            os.symlink("real", p("l2"))
            os.symlink("l2", p(name))
        else:
            os.symlink("dir", p("ld"))
            name = "ld/real"
            target = p("dir", "real")
        env.check(r.open(b"x", name.encode()) == 16, "opened with another size")
        if how == "write":
            with open(target, "r+b") as f:
                f.write(b"overwritten")
        elif how == "truncate":
            open(target, "wb").close()
        elif how == "remove":
            os.remove(target)
        elif how == "replace":
            os.rename(p("other"), target)
        else:
            os.remove(p(name))
            os.symlink(p("other"), p(name))
        env.fresh()
        got = r.read(b"x", 0, 100)
        env.check(got == b"the real content", "reads %r after %s", got, how)
        before = files.tree(d.remote)
        r.close(b"x")
        env.check(not d.snapshots, "left %r", d.snapshots)
        env.check(files.tree(d.remote) == before, "closing changed the files")
        ex.note(kind, how)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("histories", histories, 0, 4 if deep else 3, about="every order of requests and changes"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("reads", reads, 0, about="every offset and size"),
        Family("pieces", pieces, 0, about="files read in pieces"),
        Family("margin", margin, 0, about="free space around the margin"),
        Family("changing", changing, 0, about="a file that changes while it is opened"),
        Family("ids", ids, 0, about="ids that look alike"),
        Family("links", links, 0, about="files that are links"),
    ]
