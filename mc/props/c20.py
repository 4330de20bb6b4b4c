"""C20: a completed download is stored whole, beside and never over existing files."""
import errno
import itertools
import os

from .. import agent, boot, core, files, kit, vfs
from ..main import Family


def blob(n, k=0):
    one = bytes(bytearray((j * 7 + k + j // 251) & 255 for j in range(min(n, 5003))))
    return (one * (n // max(1, len(one)) + 1))[:n]


def start(env, tree):
    d = files.Dirs(tree)
    env.start_agent(remote_dir=d.remote)
    env.up()
    return d, files.Remote(env)


class Download(object):
    def __init__(self, r, id, path):
        self.r, self.id, self.path = r, id, path
        self.dev = b""
        self.content = bytearray()

    def put(self, offset, data, final=0):
        fail, dev = self.r.write(self.id, self.path, self.dev, offset, data, final)
        if not fail:
            if data:
                if len(self.content) < offset:
                    self.content += b"\0" * (offset - len(self.content))
                self.content[offset:offset + len(data)] = data
            self.dev = dev
        return fail


def new_files(before, after):
    out = {p: after[p] for p in after if p not in before}
    changed = [p for p in before if after.get(p) != before[p]]
    return out, changed


def chunks(ex):
    """A content in up to four chunks, in every order, also overlapping and with gaps."""
    size = ex.pick([1, 5, 4096, 100000], label="size")
    k = ex.pick([1, 2, 3, 4], label="chunks")
    if k > size:
        return
    perm = ex.pick(list(itertools.permutations(range(k))), label="order")
    mode = ex.pick(["plain", "overlap", "gap", "again", "empty-final", "empty-first"], label="mode")
    env = agent.Env(ex, preempt=False)

    def main():
        tree = {"keep": b"keep me", "sub": {}}
        d, r = start(env, tree)
        before = files.tree(d.remote)
        data = blob(size)
        cuts = [size * i // k for i in range(k + 1)]
        dl = Download(r, b"dl", b"sub/got.bin")
        if mode == "empty-first":
            env.check(dl.put(0, b"") == 0, "an empty chunk failed")
        for n, i in enumerate(perm):
            a, b = cuts[i], cuts[i + 1]
            if mode == "overlap" and a > 0:
                a -= 1
            if mode == "gap" and i == 1:
                continue
            last = n == k - 1 or (mode == "gap" and n == k - 2 and perm[-1] == 1)
            fail = dl.put(a, data[a:b], 1 if last and mode != "empty-final" else 0)
            env.check(not fail, "chunk %d failed: %r", i, fail)
            now = files.tree(d.remote)
            new, changed = new_files(before, now)
            env.check(not changed, "changed %r", changed)
            done = last and mode != "empty-final"
            env.check(bool(new) == done, "after chunk %d there is %r", i, sorted(new))
            if mode == "again" and not last:
                dl.put(a, data[a:b])
        if mode == "empty-final" or (mode == "gap" and k == 1):
            pass
        if mode == "empty-final":
            env.check(not dl.put(0, b"", 1), "the final chunk failed")
        new, changed = new_files(before, files.tree(d.remote))
        if mode == "gap" and perm == (1,):
            return
        env.check(new == {"sub/got.bin": bytes(dl.content)}, "stored %r, not the %d bytes sent", {k: len(v) for k, v in new.items()}, len(dl.content))
        if mode not in ("gap",):
            env.check(bytes(dl.content) == data, "harness")
        env.check(not os.listdir(d.downloads), "left %r", os.listdir(d.downloads))
        ex.note(size, k, perm, mode)

    env.run(main)


def variants(name, n=200):
    """The names a download may get, in order of preference."""
    i = name.rfind(".")
    base, ext = (name, "") if i <= 0 or not name[:i].strip(".") else (name[:i], name[i:])
    yield name
    for k in range(1, n):
        yield "%s(%d)%s" % (base, k, ext)


NAMES = [u"a.txt", u"noext", u"two.tar.gz", u".hidden", u"..x", u"ends.", u"sp ace.txt", u"\u00e9.txt", u"a(1).txt", u"%s.d", u"-x",
         u"a.b.c.d", u"~", u"~root", u"$HOME", u"%41.txt", u"*.txt", u"a long name of a file.jpeg", u"n" * 200 + u".t", u"a\nb.c",
         u"\\x.txt", u"A.TXT", u"con.", u"a .txt ", u"e\u0301.txt"]


def names(ex):
    """Names taken and free, as files, folders and links; folders that exist or not."""
    name = ex.pick(NAMES, label="name")
    taken = ex.pick([(), (0,), (0, 1), (0, 1, 2), (1,), (0, 2), (1, 2), tuple(range(10)), tuple(range(11))], label="taken")
    kind = ex.pick(["file", "dir", "link", "dangling"], label="as")
    folder = ex.pick(["", "sub/", "missing/", "sub/missing/", "/", "/sub/", "a/b/c/", "plain/", "sub//"], label="folder")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"sub": {}, "plain": b"a file, not a folder"})
        where = "" if folder in ("", "/", "missing/", "sub/missing/", "a/b/c/", "plain/") else "sub"
        vs = list(itertools.islice(variants(name), 0, 120))
        base = os.path.join(d.remote, where)
        for t in taken:
            p = os.path.join(base, vs[t])
            if kind == "file":
                with open(p, "wb") as f:
                    f.write(b"existing %d" % t)
            elif kind == "dir":
                os.mkdir(p)
            elif kind == "link":
                os.symlink(os.path.join(d.remote, "plain"), p)
            else:
                os.symlink(os.path.join(d.base, "nowhere"), p)
        before = files.tree(d.base)
        dl = Download(r, b"id 1", (folder + name).encode("utf-8"))
        env.check(not dl.put(0, b"new content"), "failed")
        env.check(not dl.put(11, b"!", 1), "failed")
        want = next(vs[i] for i in range(120) if i not in taken)
        want = "remote/" + (where + "/" if where else "") + want
        new, changed = new_files(before, files.tree(d.base))
        new.pop("tmp/dataplicity_remote_downloads", None)
        env.check(not changed, "changed %r", changed)
        env.check(new == {want: b"new content!"}, "stored %r, not %r", new, want)
        ex.note(name, taken, kind, folder)

    env.run(main)


def full(ex):
    """All the variants are taken up to some number: stored at the first free one or refused, nothing overwritten."""
    n = ex.pick([50, 99, 100, 101, 102, 150], label="taken")
    hole = ex.pick([None, 0, 1, 57, 98], label="free")
    env = agent.Env(ex, preempt=False)

    def main():
        vs = list(itertools.islice(variants("a.txt"), 0, 180))
        tree = {vs[i]: b"%d" % i for i in range(n) if i != hole}
        d, r = start(env, tree)
        before = files.tree(d.remote)
        dl = Download(r, b"x", b"a.txt")
        fail = dl.put(0, b"new", 1)
        new, changed = new_files(before, files.tree(d.remote))
        env.check(not changed, "changed %r", changed)
        want = hole if hole is not None and hole < n else n
        if fail:
            env.check(want > 100 and not new, "refused though %r is free; made %r", vs[want], new)
        else:
            env.check(new == {vs[want]: b"new"}, "stored %r, not %r", new, vs[want])
        ex.note(n, hole, fail)

    env.run(main)


def interleaved(ex):
    """Several downloads at once: their chunks in every order, the same or different names."""
    k = ex.params
    same = ex.pick([True, False], label="same name")
    order = []
    left = [2] * k
    while any(left):
        i = ex.pick([j for j in range(k) if left[j]], label="next")
        left[i] -= 1
        order.append(i)
    closeids = ex.pick([(b"a", b"b", b"c"), (b"1", b"10", b"100"), (b"x", b"X", b"x x")], label="ids")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"keep": b"k", "sub": {}})
        before = files.tree(d.remote)
        dls = [Download(r, closeids[i], b"same.txt" if same else b"n%d.txt" % i) for i in range(k)]
        sent = [0] * k
        done = []
        for i in order:
            d_ = dls[i]
            if sent[i] == 0:
                f = d_.put(0, b"start of %d " % i)
            else:
                f = d_.put(11, b"end of %d" % i, 1)
                done.append(i)
            env.check(not f, "failed")
            sent[i] += 1
        new, changed = new_files(before, files.tree(d.remote))
        vs = list(itertools.islice(variants("same.txt"), 0, 9))
        want = {}
        for n, i in enumerate(done):
            want[vs[n] if same else "n%d.txt" % i] = b"start of %d end of %d" % (i, i)
        env.check(not changed and new == want, "stored %r, not %r", new, want)
        ex.note(same, order, closeids)

    env.run(main)


def restarts(ex):
    """Downloads begun again under the same id, at every moment: what an earlier attempt sent is forgotten."""
    depth = ex.params
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"keep": b"k", "sub": {}})
        want = {"keep": b"k", "sub": "dir"}
        ids = [b"dl", b"other"]
        cur = {}
        n = 0
        for step in range(ex.cycled(depth)):
            env.fresh()
            menu = [("start", i, k, f) for i in (0, 1) for k in ("long", "short", "none", "gap") for f in (0, 1) if i == 0 or k == "long"]
            menu += [("next", i, k, f) for i in cur for k in ("append", "over", "none") for f in (0, 1)]
            ev = ex.pick(menu, label="event")
            ex.note(*ev)
            what, i, k, final = ev
            name = "n%d.txt" % i
            if what == "start":
                dl = Download(r, ids[i], name.encode())
            else:
                dl = cur[i]
            data = {"long": b"a long beginning %d" % step, "short": b"s%d" % step, "none": b"", "gap": b"later",
                    "append": b" and more %d" % step, "over": b"OVER"}[k]
            offset = {"gap": 3, "append": len(dl.content)}.get(k, 0)
            fail = dl.put(offset, data, final)
            env.check(not fail, "%r failed: %r", ev, fail)
            if final:
                vs = variants(name)
                want[next(v for v in vs if v not in want)] = bytes(dl.content)
                cur.pop(i, None)
                n += 1
            else:
                cur[i] = dl
            now = files.tree(d.remote)
            env.check(now == want, "after %r the directory is %r, not %r", ev, now, want)
            left = sorted(os.listdir(d.downloads))
            env.check(left == sorted(ids[j].decode() for j in cur), "downloads in progress: %r, kept: %r", sorted(cur), left)

    env.run(main)


ERRORS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.ENOENT]


def faults(ex):
    """Every file system call of a download fails once, or from then on, or the devices differ."""
    mode = ex.pick(["once", "from", "partial"], label="mode")
    cross = ex.pick([False, True], label="different devices")
    err = ex.pick(ERRORS, label="error")
    taken = ex.pick([False, True], label="name taken")
    at = [None]
    env = agent.Env(ex, preempt=False)

    def main():
        tree = {"keep": b"keep", "sub": {"x.bin": b"existing x"} if taken else {}}
        d, r = start(env, tree)
        before = files.tree(d.base)
        count = [0]

        def fault(n, name, path):
            if cross and name in ("rename", "replace", "link"):
                return OSError(errno.EXDEV, "Invalid cross-device link")
            if name in ("stat", "lstat", "access"):
                return None  # cannot fail like this for what exists
            k = count[0]
            count[0] += 1
            if at[0] is None:
                if ex.choose(2, label="fail"):
                    at[0] = k
            if at[0] is not None and (mode == "from" or k == at[0] or (mode == "partial" and name == "write" and k >= at[0])):
                return OSError(err, os.strerror(err))
            return None
        env.s.fs = vfs.Fs(env, fault=fault, torn=mode == "partial")
        dl = Download(r, b"dl", b"sub/x.bin")
        fails = [dl.put(0, b"first part, ")]
        if not fails[0]:
            fails.append(dl.put(12, b"second part", 1))
        env.s.fs.on = False
        now = files.tree(d.base)
        new, changed = new_files(before, now)
        new = {p: v for p, v in new.items() if p.startswith("remote/")}
        env.check(not changed, "changed %r", changed)
        if any(fails):
            if mode == "once" and not cross:
                env.check(not new, "a failed download left %r", new)
            else:
                env.check(not new or mode == "from", "a failed download left %r", new)
        else:
            want = "remote/sub/x(1).bin" if taken else "remote/sub/x.bin"
            env.check(new == {want: b"first part, second part"}, "stored %r", new)
        # and it works when nothing fails
        before = files.tree(d.remote)
        dl = Download(r, b"again", b"fine.bin")
        env.check(not dl.put(0, b"fine", 1), "a later download failed")
        new, changed = new_files(before, files.tree(d.remote))
        env.check(new == {"fine.bin": b"fine"} and not changed, "stored %r", new)
        env.ping()
        ex.note(mode, cross, err, taken, at[0], fails)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("chunks", chunks, 0, about="chunks in every order"),
        Family("names", names, 0, about="names and folders, taken and free"),
        Family("full", full, 0, about="many variants taken"),
        Family("interleaved", interleaved, 0, 2, about="two downloads"),
        Family("interleaved-3", interleaved, 0, 3, about="three downloads"),
        Family("restarts", restarts, 0, 4 if deep else 3, about="downloads begun again"),
        Family("cycles", restarts, 0, core.Cycled(2, 25), about="the same few events, over and over"),
        Family("faults", faults, 0, about="every file system call failing"),
    ]
