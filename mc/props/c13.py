"""C13: a requested file arrives whole, and its channel is closed."""
import errno
import os

from .. import agent, boot, core, kit, vfs
from ..main import Family

BOOT = {"constants": {"CHUNK_SIZE": 4}}
M = "dataplicity."
POINTS = (M + "m2m.fileservice", M + "m2m.wsclient", M + "limiter")
CHUNK = 4
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 40, 1001]
DIR = None


def blob(n, k=0):
    return bytes(bytearray((j * 3 + k + 1) & 255 for j in range(n)))


NAMES = [u"name with spaces.bin", u"\u00e9t\u00e9.txt", u"%s%d{}", u"-rf", u"trailing ", u"quote'\".x", u"new\nline",
         u"..hidden", u"back\\slash", u"dir.d/inner file", u"$HOME", u"${HOME}x", u"%HOME%", u"~", u"a*", u"[ab]?", u"UPPER",
         u"e\u0301", u"tab\tname", u"+x", u"a%20b"]


def setup():
    global DIR
    DIR = os.path.join(boot.SCRATCH, "files")
    os.mkdir(DIR)
    os.mkdir(os.path.join(DIR, "dir.d"))
    for n in SIZES:
        with open(os.path.join(DIR, "f%d" % n), "wb") as f:
            f.write(blob(n))
        with open(os.path.join(DIR, "g%d" % n), "wb") as f:
            f.write(blob(n, 100))
    for i, n in enumerate(NAMES):
        with open(os.path.join(DIR, n), "wb") as f:
            f.write(b"content of " + n.encode("utf-8"))
    with open(os.path.join(DIR, "secret"), "wb") as f:
        f.write(b"unreadable")
    os.chmod(os.path.join(DIR, "secret"), 0)
    with open(os.path.join(DIR, "lines"), "wb") as f:
        f.write(b"one\r\ntwo\nthree\r\x00\xff\xfe\x1a end")
    os.symlink("f13", os.path.join(DIR, "link"))
    os.mkdir(os.path.join(DIR, "dir.d", "sub"))
    os.symlink("dir.d/sub", os.path.join(DIR, "linkdir"))
    with open(os.path.join(DIR, "dir.d", "f9"), "wb") as f:
        f.write(b"in the directory")
    os.symlink("/dev/zero", os.path.join(DIR, "zeros"))
    os.symlink("nowhere", os.path.join(DIR, "dangling"))


def path(name):
    return os.path.join(DIR, name).encode("utf-8")


def verify(env, ch, want, conn=None, error=False):
    sv = env.server
    got = sv.data(ch, conn)
    env.check(got == want, "channel %d carried %r, not %r", ch, got[:60], want[:60])
    closes = sv.closes(ch, conn)
    env.check(len(closes) == 1, "channel %d was closed %d times", ch, len(closes))
    i = sv.sent.index(closes[0])
    env.check(not [s for s in sv.sent[i:] if s.type in (agent.P["request_send"], agent.P["request_send_control"])
                   and s.fields[0] == ch], "channel %d: data after its close", ch)
    ctl = sv.controls(ch, conn)
    if error:
        env.check(len(ctl) == 1 and ctl[0].get("type") == "error" and ctl[0].get("service") == "remote-file",
                  "channel %d: error messages %r", ch, ctl)
    else:
        env.check(not ctl, "channel %d: messages %r", ch, ctl)


def singles(ex):
    """Every file, name and kind of failure; then another file on the next channel."""
    menu = [("f%d" % n, blob(n)) for n in SIZES]
    menu += [(n, b"content of " + n.encode("utf-8")) for n in NAMES]
    menu += [("lines", b"one\r\ntwo\nthree\r\x00\xff\xfe\x1a end"), ("link", blob(13)),
             ("linkdir/../f9", b"in the directory"), ("dir.d/../f9", blob(9)), ("upper", None), ("a b", None), ("axx", None),
             (None, None), ("dir.d//./f9", b"in the directory")]
    menu += [("missing", None), ("secret", None), ("dangling", None), ("", None), ("dir.d", None), ("f1/x", None), ("f9/", None),
             ("x" * 300, None), ("nul\0byte", None)]
    name, want = ex.pick(menu, label="file")
    rel = ex.choose(2, label="without leading slash")
    env = agent.Env(ex, preempt=False)

    def main():
        env.start_agent()
        env.up()
        p = path(name) if name is not None else (u"~/" + u"../" * 20 + DIR[1:] + "/f9").encode("utf-8")
        if rel:
            p = p.lstrip(b"/")
        kit.open_file(env.server, 3, p)
        env.settle()
        verify(env, 3, want or b"", error=want is None)
        kit.open_file(env.server, 4, path("f9"))
        env.settle()
        verify(env, 4, blob(9))
        env.ping()
        ex.note(name, rel)

    env.run(main)


def faults(ex):
    """An error at every file system call of a transfer: what was sent is a beginning of the file, then one error."""
    n = ex.pick([0, 3, 4, 9, 40], label="size")
    env = agent.Env(ex, preempt=False)
    kind = ex.pick([errno.EIO, errno.EACCES, errno.ENOENT, "memory"], label="kind")
    done = []

    def fault(i, name, p):
        if not done and name != "close" and ex.choose(2, label="fault in %s" % name):
            done.append(name)
            return MemoryError() if kind == "memory" else OSError(kind, os.strerror(kind))

    def main():
        env.start_agent()
        env.up()
        env.s.fs = vfs.Fs(env, fault=fault)
        kit.open_file(env.server, 3, path("f%d" % n))
        env.settle()
        got = env.server.data(3)
        if not done:
            verify(env, 3, blob(n))
        else:
            env.check(blob(n).startswith(got), "the channel carried %r", got)
            verify(env, 3, got, error=True)
        env.s.fs = None
        kit.open_file(env.server, 4, path("f13"))
        env.settle()
        verify(env, 4, blob(13))
        ex.note(n, kind, done)

    env.run(main)


def stops(ex):
    """The channel closes, or the connection is lost, at any point of the transfer."""
    how, n, points = ex.params
    env = agent.Env(ex, points=points, time_horizon=1e5)

    def main():
        env.s.preempt = False
        env.start_agent()
        env.up()
        sv = env.server
        env.s.fs = vfs.Fs(env, points=True)
        env.s.preempt = True
        kit.open_file(sv, 3, path("f%d" % n))
        if how == "other":
            kit.open_file(sv, 4, path("g%d" % n))
        elif how == "close":
            sv.close_channel(3)
        elif how == "drop":
            sv.disconnect()
        elif how == "close-reuse":
            sv.close_channel(3)
            sv.instruct(action=b"open-echo", port=3)
            sv.route(3, b"echo me")
        env.settle(1)
        env.s.preempt = False
        env.settle(5)
        got = sv.data(3)
        threads = [t for t in env.s.tasks if t.name == "FileService" and not t.done]
        env.check(not threads, "the transfer goes on")
        if how == "other":
            verify(env, 3, blob(n))
            verify(env, 4, blob(n, 100))
        elif how == "close":
            env.check(blob(n).startswith(got), "the channel carried %r", got)
            env.check(len(sv.closes(3)) <= 1, "closed %d times", len(sv.closes(3)))
        elif how == "drop":
            env.check(blob(n).startswith(got), "the channel carried %r", got)
            sv.connect()
            env.settle(40)
            env.check(not sv.data(3, 2) and not sv.closes(3, 2), "the old transfer goes on on the new connection")
            kit.open_file(sv, 3, path("f%d" % n))
            env.settle()
            verify(env, 3, blob(n), conn=2)
        else:
            env.check(got.endswith(b"echo me"), "the echo on the re-used channel: %r", got)
            env.check(blob(n).startswith(got[:-7]), "the channel carried %r", got)
            sent = len(sv.sent)
            sv.route(3, b"again")
            env.settle()
            env.check([s.fields for s in sv.sent[sent:]] == [[3, b"again"]], "then %r", sv.sent[sent:])
        ex.note(how, len(got))
        env.ping()

    env.run(main)


def endless(ex):
    """A source without an end: the transfer ends with its channel, or with the connection."""
    how = ex.pick(["close", "drop", "close-reuse"], label="how")
    after = ex.pick([0, 1, 2, 5], label="after")
    env = agent.Env(ex, preempt=False, time_horizon=1e5, horizon=20000)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        gate = []
        count = [0]

        def on_send(s):
            if s.type == agent.P["request_send"] and s.fields[0] == 3:
                count[0] += 1
                if count[0] > after and not gate:
                    core.S.block(lambda: bool(gate), None, "a slow network")
        sv.on_send = on_send
        # reading takes time, too
        env.s.fs = vfs.Fs(env, fault=lambda i, name, p: core.S.sleep(0.01) and None)
        kit.open_file(sv, 3, path("zeros"))
        env.settle(1)
        env.check(count[0] == after + 1, "%d pieces before the network stalls", count[0])
        sv.on_send = None
        if how == "drop":
            sv.disconnect()
        else:
            sv.close_channel(3)
        # the close may have to wait for the piece on its way
        gate.append(1)
        env.settle(2)
        threads = [t for t in env.s.tasks if t.name == "FileService" and not t.done]
        env.check(not threads, "the transfer goes on")
        env.s.fs = None
        if how == "drop":
            sv.connect()
            env.settle(40)
        kit.open_file(sv, 3 if how == "close-reuse" else 4, path("f9"))
        env.settle()
        got = sv.data(3)
        env.check(not got[(after + 20) * CHUNK:], "%d bytes were sent", len(got))
        if how == "close-reuse":
            env.check(got.endswith(blob(9)) and not got[:-9].strip(b"\0"), "the channel carried %r", got)
        else:
            verify(env, 4, blob(9))
        ex.note(how, after)

    env.run(main)


def histories(ex):
    """Sequences of transfers on the same or different channels, with closes in between."""
    depth = ex.params
    env = agent.Env(ex, preempt=False, time_horizon=1e5)

    def main():
        env.start_agent()
        env.up()
        sv = env.server
        kit.open_echo(sv, 9)
        for step in range(ex.cycled(depth)):
            env.fresh()
            ch, name, want = ex.pick([(c, "%s%d" % (f, n), blob(n, k)) for c in (3, 4) for f, k in (("f", 0), ("g", 100))
                                      for n in (0, 5, 8)] + [(3, "missing", None), (4, "secret", None)], label="request")
            ex.note(ch, name)
            first = len(sv.sent)
            kit.open_file(sv, ch, path(name))
            sv.route(9, b"tick%d" % step)
            env.settle()
            new = sv.sent[first:]
            data = b"".join(s.fields[1] for s in new if s.type == agent.P["request_send"] and s.fields[0] == ch)
            env.check(data == (want or b""), "%s arrived as %r", name, data)
            env.check(len([s for s in new if s.type == agent.P["request_close"] and s.fields[0] == ch]) == 1,
                      "channel %d not closed once", ch)
            ctl = [s for s in new if s.type == agent.P["request_send_control"]]
            env.check(len(ctl) == (want is None), "control messages %r", ctl)
            env.check(len([s for s in new if s.fields == [9, b"tick%d" % step]]) == 1, "the echo channel is disturbed")
            if ex.choose(2, label="acknowledged"):
                sv.close_channel(ch)
                env.settle()

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("singles", singles, 0, about="every file and failure"),
        Family("faults", faults, 0, about="an error at every file system call"),
        Family("endless", endless, 0, about="an endless source"),
        Family("histories", histories, 0, 3 if deep else 2, about="sequences of transfers"),
        Family("cycles", histories, 0, core.Cycled(3, 30) if deep else core.Cycled(2, 30), about="the same few events, over and over"),
        Family("two", stops, 3 if deep else 2, ("other", 9, POINTS), about="two transfers at once"),
        Family("close", stops, 3 if deep else 2, ("close", 9, POINTS), about="the channel closes"),
        Family("drop", stops, 3 if deep else 2, ("drop", 9, POINTS), about="the connection is lost"),
        Family("reuse", stops, 3 if deep else 2, ("close-reuse", 9, POINTS), about="the channel is used again"),
    ]
