"""C22: a scan lists exactly the visible tree, and ends."""
import errno
import json
import os

from .. import agent, boot, core, files, kit, vfs
from ..main import Family

LEVELS = 10  # directories, the root being the first


def start(env, tree=None):
    d = files.Dirs({} if tree is None else tree)
    env.start_agent(remote_dir=d.remote)
    env.up()
    return d, files.Remote(env)


def scan(env, d, r):
    t0 = env.s.now
    reply = r.scan(1)
    env.check(reply == b"", "the scan failed: %r", reply)
    s = json.load(open(d.scan_path))
    env.check(set(s) == {"root", "time", "directories"}, "the scan has %r", sorted(s))
    env.check(s["root"] == d.remote, "the scan is of %r", s["root"])
    env.check(t0 - 1 <= s["time"] <= env.s.now + 1, "the scan is of %r", s["time"])
    return s["directories"]


def listing(path):
    """Visible entries of a directory: (files with sizes, directories); None if it can not be read."""
    try:
        names = os.listdir(path)
    except OSError:
        return None
    fs, ds = {}, {}
    for n in names:
        if n.startswith("."):
            continue
        p = os.path.join(path, n)
        if os.path.isdir(p):
            st = os.stat(p)
            ds[n] = (st.st_dev, st.st_ino)
        elif os.path.isfile(p):
            fs[n] = os.stat(p).st_size
    return fs, ds


def verify(env, root, dirs, level=LEVELS):
    """The scan against the tree as it is: each directory at exactly one of its paths, with all its files."""
    env.check("" in dirs, "the root is not listed")
    seen = {}
    reach = {}
    st = os.stat(root)
    todo = [("", (st.st_dev, st.st_ino), 1)]
    reach[todo[0][1]] = {""}
    # all paths of all visible directories (links followed, cycles cut by identity along the path)
    stack = [("", (st.st_dev, st.st_ino), (), 1)]
    unreadable = set()
    while stack:
        p, ident, up, lev = stack.pop()
        reach.setdefault(ident, set()).add(p)
        if ident in up:
            continue
        got = listing(os.path.join(root, p))
        if got is None:
            unreadable.add(ident)
            continue
        if lev < level:
            for n, i in got[1].items():
                stack.append((os.path.join(p, n), i, up + (ident,), lev + 1))
    keys = {}
    for p in dirs:
        hit = [i for i, ps in reach.items() if p in ps]
        env.check(hit, "%r is listed but is not a visible directory", p)
        keys.setdefault(hit[0], []).append(p)
        e = dirs[p]
        env.check(set(e) <= {"files", "dirs"}, "%r: %r", p, sorted(e))
        fs, ds = listing(os.path.join(root, p))
        names = [f[0] for f in e.get("files", [])]
        env.check(sorted(names) == sorted(fs), "%r lists the files %r, not %r", p, sorted(names), sorted(fs))
        for n, size in e.get("files", []):
            env.check(size == fs[n], "%r lists %r with size %r, not %r", p, n, size, fs[n])
        sub = e.get("dirs", [])
        env.check(len(set(sub)) == len(sub) and set(sub) <= set(ds), "%r lists the directories %r, of %r", p, sub, sorted(ds))
        for n in sub:
            i = ds[n]
            seen.setdefault(i, []).append(os.path.join(p, n))
            env.check(i in unreadable or os.path.join(p, n) in dirs, "%r is named but not listed", os.path.join(p, n))
    for i, ps in reach.items():
        if "" in ps:
            env.check(keys.get(i) == [""], "the root is listed as %r", keys.get(i))
            env.check(not seen.get(i), "the root is named as %r", seen.get(i))
            continue
        env.check(len(seen.get(i, [])) == 1, "the directory %r is named %d times: %r", sorted(ps)[0], len(seen.get(i, [])), seen.get(i))
        if i not in unreadable:
            env.check(keys.get(i) == seen[i], "the directory %r is listed as %r", sorted(ps)[0], keys.get(i))


ENTRIES = ["-", "file", "empty", "dir", "hidden-file", "hidden-dir", "to-file", "to-dir", "to-root", "to-self", "up", "dangling", "loop",
           "fifo", "locked", "out", "to-hidden"]


def put(d, path, name, kind, target="zz"):
    p = os.path.join(path, name)
    if kind == "file":
        with open(p, "wb") as f:
            f.write(b"x" * (len(name) * 3))
    elif kind == "empty":
        open(p, "wb").close()
    elif kind == "dir":
        os.mkdir(p)
        return p
    elif kind == "hidden-file":
        with open(os.path.join(path, "." + name), "wb") as f:
            f.write(b"hidden")
    elif kind == "hidden-dir":
        os.mkdir(os.path.join(path, "." + name))
        with open(os.path.join(path, "." + name, "inside"), "wb") as f:
            f.write(b"inside hidden")
    elif kind == "to-file":
        os.symlink(os.path.join(d.remote, "zfile"), p)
    elif kind == "to-dir":
        os.symlink(os.path.join(d.remote, target), p)
    elif kind == "out":
        # a directory somewhere else
        o = os.path.join(d.base, "outside")
        if not os.path.isdir(o):
            os.makedirs(os.path.join(o, "deeper"))
            with open(os.path.join(o, "deeper", "far"), "wb") as f:
                f.write(b"far away")
        os.symlink(o, p)
    elif kind == "to-hidden":
        os.symlink(".hh", p)
        if not os.path.isdir(os.path.join(path, ".hh")):
            os.mkdir(os.path.join(path, ".hh"))
            with open(os.path.join(path, ".hh", "visible"), "wb") as f:
                f.write(b"through a link")
    elif kind == "to-root":
        os.symlink(d.remote, p)
    elif kind == "to-self":
        os.symlink(".", p)
    elif kind == "up":
        os.symlink("..", p)
    elif kind == "dangling":
        os.symlink("nowhere", p)
    elif kind == "loop":
        os.symlink(name, p)
    elif kind == "fifo":
        os.mkfifo(p)
    elif kind == "locked":
        os.mkdir(p)
        with open(os.path.join(p, "in"), "wb") as f:
            f.write(b"can not be seen")
        os.chmod(p, 0)
    return None


def trees(ex):
    """Every tree of a few entries of every kind, in both orders of reading."""
    width, deep = ex.params
    rev = ex.choose(2, label="order")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"zfile": b"12345", "zz": {"in zz": b"q"}})
        # "up" from the root would leave it: only below
        def fill(path, prefix, level):
            for i in range(width if level == 0 else width - 1):
                kind = ex.pick([e for e in ENTRIES if level or e != "up"], label="entry")
                if level and kind in ("hidden-file", "empty", "loop", "fifo"):
                    pass
                sub = put(d, path, prefix + "abc"[i], kind)
                if sub and level < deep:
                    fill(sub, prefix + "abc"[i], level + 1)
        fill(d.remote, "", 0)
        env.s.fs = vfs.Fs(env)
        env.s.fs.reverse = bool(rev)
        dirs = scan(env, d, r)
        verify(env, d.remote, dirs)
        ex.note(sorted(dirs), len(json.dumps(dirs)))

    env.run(main)


def depth(ex):
    """Chains of directories around the limit, with files and side branches on every level."""
    n = ex.pick(list(range(0, 14)), label="depth")
    side = ex.pick(["none", "file", "dir", "both"], label="beside")
    rev = ex.choose(2, label="order")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env)
        p = d.remote
        want = {}
        rel = ""
        for i in range(n + 1):
            e = {}
            if side in ("file", "both"):
                with open(os.path.join(p, "f%d" % i), "wb") as f:
                    f.write(b"x" * i)
                e["files"] = [["f%d" % i, i]]
            names = []
            if side in ("dir", "both"):
                os.mkdir(os.path.join(p, "s%d" % i))
                names.append("s%d" % i)
                if i + 1 < LEVELS:
                    want[os.path.join(rel, "s%d" % i)] = {}
            if i < n:
                os.mkdir(os.path.join(p, "d%d" % i))
                names.append("d%d" % i)
            if names and i + 1 < LEVELS:
                e["dirs"] = sorted(names)
            if i < LEVELS:
                want[rel] = e
            p = os.path.join(p, "d%d" % i)
            rel = os.path.join(rel, "d%d" % i)
        env.s.fs = vfs.Fs(env)
        env.s.fs.reverse = bool(rev)
        dirs = scan(env, d, r)
        for v in dirs.values():
            if "dirs" in v:
                v["dirs"].sort()
        extra = sorted(set(dirs) - set(want))
        missing = sorted(set(want) - set(dirs))
        env.check(not extra and not missing, "depth %d: listed too much: %r, missing: %r", n, extra, missing)
        for k in want:
            env.check(dirs[k] == want[k], "%r is listed as %r, not %r", k, dirs[k], want[k])
        ex.note(n, side, rev)

    env.run(main)


NAMES = [u"plain", u"sp ace", u"\u00e9t\u00e9", u"new\nline", u"quote\"'", u"back\\slash", u"~", u"a.b", u"b.", u"-x", u"%s{}", u"\u65e5\u672c",
         u"bad\udcff", u"x" * 200, u"..."[:0] + u"z..", u"*", u"json:{}"]


def names(ex):
    """Names and sizes, as files and directories, visible and hidden."""
    name = ex.pick(NAMES + [u".h", u"..h", u"...", u".x y"], label="name")
    kind = ex.pick(["file", "dir"], label="kind")
    size = ex.pick([0, 1, 4095, 4096, 70000, 5 * 10 ** 9] if kind == "file" else [0], label="size")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"other": b"o"})
        p = os.path.join(d.remote, name)
        if kind == "file":
            with open(p, "wb") as f:
                f.truncate(size)
        else:
            os.mkdir(p)
            with open(os.path.join(p, name), "wb") as f:
                f.write(b"abc")
        dirs = scan(env, d, r)
        verify(env, d.remote, dirs)
        ex.note(name, kind, size)

    env.run(main)


BIG = {"a.txt": b"aa", "d1": {"b.txt": b"bbb", "d2": {"c.txt": b"cccc", "d3": {"e.txt": b"e"}}, "x": {}}, "d4": {"g": b"g"}, "z.txt": b"z"}


def faults(ex):
    """Every call on every entry fails once: the scan succeeds and lists everything else."""
    err = ex.pick([errno.EIO, errno.EACCES, errno.ENOENT, errno.ESTALE], label="error")
    env = agent.Env(ex, preempt=False)
    at = []

    def main():
        d, r = start(env, BIG)
        full = scan(env, d, r)
        verify(env, d.remote, full)

        def fault(n, name, path):
            if not (name.startswith("entry.") or name.startswith("scandir")):
                return None
            if not at and ex.choose(2, label="fail"):
                at.append((name, os.path.relpath(path, d.remote)))
                return OSError(err, os.strerror(err))
        env.s.fs = vfs.Fs(env, fault=fault)
        env.s.fs.reverse = bool(ex.choose(2, label="order"))
        dirs = scan(env, d, r)
        env.s.fs.fault = None
        if not at:
            ex.note(err, None)
            verify(env, d.remote, dirs)
            return
        name, bad = at[0]
        ex.note(err, name, bad)
        bad = "" if bad == "." else bad
        below = lambda p: p == bad or bad == "" or p.startswith(bad + "/")
        for p, e in full.items():
            if below(p):
                continue
            env.check(p in dirs, "%s of %r failed: %r is missing", name, bad, p)
            for f in e.get("files", []):
                if os.path.join(p, f[0]) != bad:
                    env.check(f in dirs[p].get("files", []), "%s of %r failed: the file %r is missing", name, bad, os.path.join(p, f[0]))
            for s in e.get("dirs", []):
                if os.path.join(p, s) != bad:
                    env.check(s in dirs[p].get("dirs", []), "%s of %r failed: the directory %r is missing", name, bad, os.path.join(p, s))
        where, base = os.path.split(bad)
        if name == "entry.stat" and err != errno.ENOENT and where in full and base in [f[0] for f in full[where].get("files", [])]:
            # it is there, only its size is not known
            size = [f[1] for f in dirs[where].get("files", []) if f[0] == base]
            env.check(len(size) == 1 and size[0] in (-1, [f[1] for f in full[where]["files"] if f[0] == base][0]),
                      "the size of %r is not known: listed %r", bad, size)
        for p, e in dirs.items():
            env.check(p in full, "%s of %r failed: %r is listed", name, bad, p)
            for f in e.get("files", []):
                env.check(f in full[p]["files"] or os.path.join(p, f[0]) == bad, "%s of %r failed: %r is listed in %r", name, bad, f, p)
        env.s.fs = None
        dirs = scan(env, d, r)
        env.check(dirs == full, "the next scan differs")

    env.run(main)


def vanishing(ex):
    """Entries are removed, or become something else, before any of the calls of a scan."""
    victim = ex.pick(["a.txt", "d1", "d1/d2", "d1/d2/c.txt", "d4", "d1/x"], label="victim")
    how = ex.pick(["remove", "file", "dir", "lock", "link"], label="how")
    env = agent.Env(ex, preempt=False)
    at = []

    def main():
        import shutil
        d, r = start(env, BIG)
        full = scan(env, d, r)
        p = os.path.join(d.remote, victim)
        other = d.remote + "-other"  # (a link within the tree would make one directory appear at another of its paths)
        os.mkdir(other)

        def fault(n, name, path):
            if not at and ex.choose(2, label="now"):
                at.append(n)
                fs.on = False
                try:
                    if os.path.isdir(p):
                        if how == "lock":
                            os.chmod(p, 0)
                            return None
                        shutil.rmtree(p)
                    elif os.path.exists(p):
                        os.remove(p)
                    if how == "file":
                        open(p, "wb").close()
                    elif how == "dir":
                        os.mkdir(p)
                    elif how == "link":
                        os.symlink(other, p)
                finally:
                    fs.on = True
        env.s.fs = fs = vfs.Fs(env, fault=fault)
        dirs = scan(env, d, r)
        fs.fault = None
        ex.note(victim, how, at)
        below = lambda q: q == victim or q.startswith(victim + "/")
        for q, e in full.items():
            if below(q):
                continue
            env.check(q in dirs, "%r is missing", q)
            for f in e.get("files", []):
                env.check(below(os.path.join(q, f[0])) or f in dirs[q].get("files", []), "the file %r is missing", os.path.join(q, f[0]))
            for s in e.get("dirs", []):
                env.check(below(os.path.join(q, s)) or s in dirs[q].get("dirs", []), "the directory %r is missing", os.path.join(q, s))
        extra = [q for q in dirs if q not in full and not below(q)]
        env.check(not extra, "listed as well: %r", extra)

    env.run(main)


def devices(ex):
    """Directories on different devices may have equal inode numbers: all are listed."""
    same = ex.pick([("d1", "d4"), ("d1", "d1/d2"), ("d1/d2", "d1/x"), ("d1/d2/d3", "d4")], label="equal inodes")
    rev = ex.choose(2, label="order")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, BIG)
        env.s.fs = fs = vfs.Fs(env)
        fs.reverse = bool(rev)
        a, b = [os.path.join(d.remote, s) for s in same]
        ino = os.stat(a).st_ino

        def stat_of(path, st):
            if path == b:
                t = list(st)
                t[1], t[2] = ino, st.st_dev + 7
                return os.stat_result(t)
            return st
        fs.stat_of = stat_of
        fs.inode_of = lambda path, n: ino if path == b else n
        dirs = scan(env, d, r)
        fs.on = False
        verify(env, d.remote, dirs)
        ex.note(same, rev)

    env.run(main)


def roots(ex):
    """The root itself: missing, a file, a link, changed between scans, empty."""
    kind = ex.pick(["missing", "file", "link", "empty", "link-missing", "changed"], label="root")
    env = agent.Env(ex, preempt=False)

    def main():
        d, r = start(env, {"x": b"x", "s": {"y": b"yy"}})
        p = d.remote
        if kind in ("missing", "file", "link", "link-missing"):
            os.rename(p, p + "-real")
        if kind == "file":
            open(p, "wb").close()
        elif kind == "link":
            os.symlink(p + "-real", p)
        elif kind == "link-missing":
            os.symlink("nowhere", p)
        elif kind == "empty":
            import shutil
            shutil.rmtree(p)
            os.mkdir(p)
        ex.note(kind)
        if kind in ("missing", "file", "link-missing"):
            env.check(r.scan(1) != b"", "a scan of nothing succeeded")
            env.check(not os.path.exists(d.scan_path), "published")
            return
        verify(env, p, scan(env, d, r))
        if kind == "changed":
            for i in range(3):
                with open(os.path.join(p, "new%d" % i), "wb") as f:
                    f.write(b"n" * i)
                os.mkdir(os.path.join(p, "s", "t%d" % i))
                verify(env, p, scan(env, d, r))
            os.remove(os.path.join(p, "new1"))
            os.rmdir(os.path.join(p, "s", "t0"))
            verify(env, p, scan(env, d, r))

    env.run(main)


def wide(ex):
    """Many entries in one directory, and many directories."""
    n = ex.pick([99, 100, 101, 255, 256, 257, 1000, 1025, 3000], label="files")
    m = ex.pick([0, 10, 101, 257], label="directories")
    env = agent.Env(ex, preempt=False, horizon=10000000)

    def main():
        tree = {"f%04d" % i: b"x" * (i % 7) for i in range(n)}
        tree.update({"d%04d" % i: {"in%d" % j: b"%d" % i for j in range(1 + i % 3)} for i in range(m)})
        d, r = start(env, tree)
        verify(env, d.remote, scan(env, d, r))
        ex.note(n, m)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    out = [
        Family("trees", trees, 0, (2, 2), about="trees of a few entries of every kind"),
        Family("wide", wide, 0, about="many entries"),
        Family("depth", depth, 0, about="depths around the limit"),
        Family("names", names, 0, about="names and sizes"),
        Family("faults", faults, 0, about="every call failing"),
        Family("vanishing", vanishing, 0, about="entries that vanish or change meanwhile"),
        Family("devices", devices, 0, about="equal inode numbers on different devices"),
        Family("roots", roots, 0, about="the root itself"),
    ]
    if deep:
        out.append(Family("trees-3", trees, 0, (3, 1), about="wider trees"))
    return out
