"""C32: nothing of finished work is left behind."""
import collections
import errno
import os
import subprocess
import types
import urllib.error

from .. import agent, boot, core, files, kit, vfs, vos, vthread
from ..main import Family

M = "dataplicity."
TREE = {"f": b"file f" * 20, "sub": {"g": b"file g"}}
PLAIN = (type(None), bool, int, float, complex, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.CodeType, types.GeneratorType)


def reachable(roots):
    """Everything the agent remembers: (objects, bytes in strings, the virtual sockets and pipes and open files among them)."""
    seen = set()
    keep = []  # (ids stay unique)
    work = list(roots)
    n = size = 0
    ends = []
    while work:
        v = work.pop()
        if isinstance(v, PLAIN) or v is None:
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        keep.append(v)
        if isinstance(v, (bytes, str, bytearray)):
            size += len(v)
            n += 1
            continue
        t = type(v)
        if t.__module__.startswith("mc.") and t.__module__ != "mc.vthread":
            if t in (vos.VSocket, vos.VPipe, vfs.File):
                ends.append(v)
            elif t is vos.VPopen:
                work += [v.stdout, v.stderr, v.stdin]
            continue
        n += 1
        if isinstance(v, dict):
            for k, x in list(v.items()):
                work += [k, x]
        elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
            work += list(v)
        elif isinstance(v, types.MethodType):
            work.append(v.__self__)
        elif t.__name__ in ("partial",) and hasattr(v, "func"):
            work += [v.func, v.args, v.keywords]
        else:
            d = getattr(v, "__dict__", None)
            if isinstance(d, dict):
                work += [x for k, x in d.items() if k not in ("_task", "owner")]
            for c in t.__mro__:
                for s in getattr(c, "__slots__", ()) if isinstance(getattr(c, "__slots__", ()), (tuple, list)) else ():
                    if hasattr(v, s):
                        work.append(getattr(v, s))
    return n, size, ends


def closures(v):
    return [c.cell_contents for c in v.__closure__ or () if c.cell_contents is not None]


def globals_of_agent():
    import sys
    out = []
    for name in sorted(sys.modules):
        if name == "dataplicity" or name.startswith("dataplicity."):
            for k, v in vars(sys.modules[name]).items():
                if isinstance(v, type) and v.__module__ == name:
                    out += [x for x in vars(v).values() if isinstance(x, (dict, list, set, collections.deque))]
                elif isinstance(v, (dict, list, set, collections.deque)) or type(v).__module__ == name:
                    if not k.startswith("__"):
                        out.append(v)
    return out


class Node(object):
    """An agent that polls, and everything it works with."""

    def __init__(self, ex, points=(), preempt=False):
        self.ex = ex
        self.env = env = agent.Env(ex, points=points, preempt=preempt, horizon=10 ** 7, time_horizon=10 ** 7)
        self.ch = 100

    def begin(self, **kw):
        env = self.env
        self.d = d = files.Dirs(TREE)
        self.fail_fs = None
        env.s.fs = self.fs = vfs.Fs(env, fault=lambda n, name, path: self.fail_fs(name, path) if self.fail_fs else None)
        env.start_agent(remote_dir=d.remote, **kw)
        self.r = files.Remote(env)
        self.sv = env.server
        self.api_down = False
        self.tags = b"a,b"
        env.api.behave = lambda n, calls: urllib.error.URLError("down") if self.api_down else "ok"
        env.w.check_output = self.check_output
        self.shells = kit.Shells(env)
        self.cmds = kit.Commands(env)
        self.local = kit.Local(env)
        env.w.listeners[("127.0.0.1", 82)] = "timeout"
        self.sv.on_send = self.sent
        env.s.spawn(env.client.run_forever, "main", kind="agent")
        env.up()
        env.settle(1)

    def check_output(self, args):
        if isinstance(self.tags, BaseException):
            raise self.tags
        return self.tags

    def sent(self, s):
        # the server confirms that a channel is closed
        if s.type == agent.P["request_close"]:
            self.sv.close_channel(s.fields[0])

    def new(self):
        self.ch += 1
        return self.ch

    def reconnect(self):
        self.sv.disconnect()
        self.env.settle(1)
        self.env.up()

    def measure(self):
        """What the agent holds: threads, descriptors, unfinished files, temporary files, memory."""
        env = self.env
        threads = collections.Counter(t.name for t in env.s.tasks if not t.done and t.kind == "agent")
        n, size, ends = reachable([env.client] + globals_of_agent())
        held = {id(e) for e in ends}
        fds = [o for o in env.w.fds.values() if isinstance(o, vos.VPty) or id(o) in held]
        return {"threads": sum(threads.values()), "descriptors": len(fds),
                "files": sum(1 for e in ends if isinstance(e, vfs.File) and not e._f.closed),
                "temporary files": sum(len(fs) for _, _, fs in os.walk(self.d.tmp)),
                "processes": sum(1 for p in self.shells.procs if not p.reaped),
                "objects": n, "bytes": size}, threads

    def forget(self):
        """The harness does not need what is over either."""
        env = self.env
        for t in env.s.tasks:
            if t.done:
                t.g = None
        env.s.tasks[:] = [t for t in env.s.tasks if not t.done]
        del self.sv.sent[:], env.api.requests[:], env.w.popen_log[:], env.w.conns[:], self.cmds.started[:], self.local.conns[:], self.fs.log[:]
        env.fresh()


# -- work: each starts, and returns what ends it --------------------------

def echo(w):
    ch = w.new()
    kit.open_echo(w.sv, ch)
    w.sv.route(ch, b"hello")
    return lambda: w.sv.close_channel(ch)


def terminal(w, how="close"):
    ch = w.new()
    kit.open_term(w.sv, ch)
    w.env.settle()
    p = w.shells.procs[-1]
    w.sv.route(ch, b"ls\n")
    p.pty.out += b"files\n"
    w.sv.control(ch, {"type": "window_resize", "size": [100, 30]})

    def end():
        if how == "exit":
            p.exit(0)
            w.env.settle(1)
            w.sv.close_channel(ch)
        elif how == "lost":
            w.reconnect()
        elif how == "ignores":
            p.ignores = {1}
            w.sv.close_channel(ch)
        else:
            w.sv.close_channel(ch)
    return end


def no_terminal(w):
    ch = w.new()
    w.shells.on_fork = lambda n: (_ for _ in ()).throw(OSError(errno.EAGAIN, "no more processes"))
    kit.open_term(w.sv, ch)
    w.env.settle(1)
    w.shells.on_fork = None
    return lambda: w.sv.close_channel(ch)


def unknown_terminal(w):
    ch = w.new()
    w.sv.instruct(action=b"open-terminal", port=ch, name=b"nope")
    return lambda: w.sv.close_channel(ch)


def forward(w, how="close", redirect=False, port=80):
    ch = w.new()
    up = w.env.w.listeners[("127.0.0.1", 80)]
    if how in ("refuse", "timeout"):
        w.env.w.listeners[("127.0.0.1", 80)] = how
    if redirect:
        kit.open_redirect(w.sv, ch, port)
    else:
        kit.open_forward(w.sv, ch, b"web")
    w.env.settle(1)
    w.env.w.listeners[("127.0.0.1", 80)] = up
    c = w.local.conns[-1] if port == 80 and how not in ("refuse", "timeout") else None
    w.sv.route(ch, b"GET / HTTP/1.0\n\n")
    if c is not None:
        c.server_send(b"HTTP/1.0 200 OK\n")

    def end():
        if how == "local":
            c.server_close()
        elif how == "reset":
            c.server_reset()
        elif how == "lost":
            w.reconnect()
        else:
            w.sv.close_channel(ch)
    return end


def unknown_service(w):
    ch = w.new()
    kit.open_forward(w.sv, ch, b"nope")
    return lambda: None


def file(w, path="f", how="done"):
    ch = w.new()
    kit.open_file(w.sv, ch, os.path.join(w.d.remote, path).encode())
    if how == "close":
        return lambda: w.sv.close_channel(ch)
    if how == "broken":
        def fail(name, path):
            if name == "read":
                return OSError(errno.EIO, "broken")
        w.fail_fs = fail
        w.env.settle(1)
        w.fail_fs = None
    if how == "lost":
        return w.reconnect
    return lambda: None


def command(w, how="done"):
    ch = w.new()
    if how == "no":
        w.env.w.popen = None
    kit.open_command(w.sv, ch)
    w.env.settle(0.1)
    w.env.w.popen = w.cmds.popen
    if how == "no":
        return lambda: None
    p = w.cmds.started[-1]
    p.stdout.feed(b"output")
    p.stderr.feed(b"errors")

    def end():
        if how == "done":
            p.proc.exit(3)
        elif how == "eof":
            p.stdout.hangup()
        elif how == "lost":
            w.reconnect()
        else:
            w.sv.close_channel(ch)
    return end


def remote(w, path=b"f", how="ok"):
    id = b"u%d" % w.new()
    if how == "full":
        w.fail_fs = lambda name, path: OSError(errno.ENOSPC, "full") if name == "write" else None
    w.sv.packet("open_remote_file", id, path)
    w.env.settle()
    w.fail_fs = None
    w.sv.packet("read_remote_file", id, 1, 5)
    w.sv.packet("read_remote_file", id, 1, -5)
    if how == "full":
        # it was not opened: there is nothing to close
        return lambda: None
    return lambda: w.sv.packet("close_remote_file", id)


def download(w, how="ok"):
    id = b"d%d" % w.new()
    dev = w.d.downloads.encode() + b"/" + id
    w.sv.packet("write_remote_file", id, b"new", b"", 0, b"abc", 0)
    w.env.settle()

    def end():
        if how == "broken":
            w.fail_fs = lambda name, path: OSError(errno.ENOSPC, "full") if name == "write" else None
        w.sv.packet("write_remote_file", id, b"new", dev, 3, b"def", 1)
        w.env.settle()
        w.fail_fs = None
        # (the new file is not the agent's)
        for n in os.listdir(w.d.remote):
            if n not in TREE:
                os.remove(os.path.join(w.d.remote, n))
    return end


def scan(w, how="ok"):
    if how == "broken":
        w.fail_fs = lambda name, path: OSError(errno.EIO, "broken") if name in ("scandir", "listdir", "open.w") else None
    w.sv.packet("scan_remote_directory")
    w.sv.instruct(action=b"scan-directory")
    w.env.settle(1)
    w.fail_fs = None
    return lambda: None


def talk(w):
    w.sv.packet("ping", b"x" * 2000)
    w.sv.packet("log", b"message %d" % w.new())
    w.sv.raw(b"garbage %d" % w.new())
    w.sv.raw(b"i%de" % w.new())
    w.sv.packet(w.new() + 1000, b"what")
    w.sv.packet("ping")
    w.sv.packet("route", 5)
    w.sv.packet("notify_login_success", b"user%d" % w.new())
    return lambda: None


def instructions(w):
    w.sv.instruct(action=b"nope%d" % w.new())
    w.sv.instruct(port=w.new())
    w.sv.instruct(action=b"open-echo")
    w.sv.instruct(action=b"open-terminal", port=w.new())
    w.sv.instruct(action=b"sync")
    return lambda: None


def opened(w):
    ch = w.new()
    w.sv.packet("notify_open", ch)
    w.sv.route(ch, b"nobody listens")
    w.sv.control(ch, {"type": "x"})
    return lambda: w.sv.close_channel(ch)


def callbacks(w, how="response"):
    n = w.new()
    w.env.client.m2m.m2m_client.add_callback(n, lambda result: None)
    w.sv.packet("response", n + 500000, {b"x": 1})

    def end():
        if how == "response":
            w.sv.packet("response", n, {b"x": 1})
        else:
            w.reconnect()
    return end


def polls(w, how="ok"):
    if how == "down":
        w.api_down = True
    w.tags = {"ok": b"tag%d" % w.new(), "down": b"tag%d" % w.new(), "script": subprocess.CalledProcessError(1, "tags")}[how]
    w.env.settle(61)
    w.sv.push("poll")
    w.env.settle()
    w.api_down = False
    return lambda: None


def identities(w):
    w.sv.packet("set_identity", b"node%d" % w.new())
    return lambda: None


def reconnects(w, how="fail"):
    def end():
        w.sv.disconnect(how)
        w.env.settle(1)
        w.sv.push("fail")
        w.env.settle(40)
        w.env.up()
    return end


def busy(w):
    """No thread can be started."""
    a, b, c = w.new(), w.new(), w.new()
    vthread.HOOK.thread_start_fault = lambda t: True
    kit.open_term(w.sv, a)
    kit.open_redirect(w.sv, b, 80)
    kit.open_command(w.sv, c)
    kit.open_file(w.sv, w.new(), b"/x")
    w.sv.packet("scan_remote_directory")
    w.env.settle(1)
    vthread.HOOK.thread_start_fault = None
    return lambda: None


def k(f, *a, **kw):
    name = " ".join([f.__name__] + [str(x) for x in list(a) + sorted("%s=%s" % i for i in kw.items())])
    return name, lambda w: f(w, *a, **kw)


WORK = [k(echo), k(terminal), k(terminal, "exit"), k(terminal, "lost"), k(terminal, "ignores"), k(no_terminal), k(unknown_terminal),
        k(forward), k(forward, "local"), k(forward, "reset"), k(forward, "lost"), k(forward, "refuse"), k(forward, "timeout"), k(forward, redirect=True),
        k(forward, redirect=True, port=99), k(forward, redirect=True, port=82), k(unknown_service),
        k(file), k(file, "missing"), k(file, how="close"), k(file, how="broken"), k(file, how="lost"),
        k(command), k(command, "close"), k(command, "eof"), k(command, "lost"), k(command, "no"),
        k(remote), k(remote, b"missing"), k(remote, b"../../x"), k(remote, b"f", "full"), k(download), k(download, "broken"), k(scan), k(scan, "broken"),
        k(talk), k(instructions), k(opened), k(callbacks), k(callbacks, "lost"), k(polls), k(polls, "down"), k(polls, "script"),
        k(identities), k(reconnects), k(reconnects, "bye"), k(reconnects, "silent"), k(busy)]
NAMES = [n for n, _ in WORK]
FN = dict(WORK)


def one_round(w, todo):
    ends = [FN[name](w) for name in todo]
    w.env.settle(1)
    for end in ends:
        end()
        w.env.settle(1)
    w.env.settle(150)
    w.forget()


def growth(ex):
    """The same work, over and over: the agent holds no more after it than before."""
    pairs, rounds = ex.params
    first = ex.pick(NAMES, label="work")
    todo = [first]
    if pairs:
        second = ex.pick(NAMES, label="meanwhile")
        if second != first:
            todo.append(second)
    w = Node(ex)
    env = w.env

    def main():
        w.begin()
        for _ in range(rounds):
            one_round(w, todo)
        before, _ = w.measure()
        for _ in range(rounds):
            one_round(w, todo)
        after, threads = w.measure()
        grown = [x for x in after if after[x] - before[x] >= rounds]
        if grown:
            # something limited (a history of the last ones, say) stops growing
            more = 20 * rounds
            for _ in range(more):
                one_round(w, todo)
            before = w.measure()[0]
            for _ in range(rounds):
                one_round(w, todo)
            after, threads = w.measure()
            grown = [x for x in after if after[x] - before[x] >= rounds]
        ex.note(todo, sorted(after.items()))
        env.check(not grown, "%r, %d more times: %s (threads: %r)", todo, rounds,
                  ", ".join("%s %d -> %d" % (x, before[x], after[x]) for x in grown), dict(threads))
        env.ping()

    env.run(main)


def faults(ex):
    """The disk fails at any call, three times at the same one: nothing is left of what failed."""
    name = ex.pick(["remote", "remote b'missing'", "remote b'sub/g'", "remote b'\\x00scan.json'", "file", "file missing", "scan", "download"], label="work")
    err = ex.pick([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT], label="error")
    w = Node(ex)
    env = w.env
    at = [None, 0, False]

    def main():
        w.begin()
        one_round(w, ["scan"])
        one_round(w, ["download"])
        base, _ = w.measure()

        def fault(op, path):
            i = at[1]
            at[1] += 1
            if op in ("remove", "unlink", "rename", "replace"):
                # (what can not be removed stays; a download that can not be stored is still there to be stored)
                return None
            if at[0] is None and at[2] and ex.choose(2, label="fail"):
                at[0] = i
            if at[0] == i:
                return OSError(err, os.strerror(err))
        for n in range(3):
            at[1:] = [0, n == 0]
            w.fail_fs = fault
            end = FN[name](w) if not name.startswith("remote b's") and "scan.json" not in name else remote(w, b"sub/g" if "sub" in name else b"\0scan.json")
            w.env.settle(1)
            w.fail_fs = fault if name == "download" else None
            end()
            w.env.settle(1)
            w.fail_fs = None
            w.env.settle(30)
            w.forget()
        now, threads = w.measure()
        ex.note(name, err, at[0])
        for x in ("threads", "descriptors", "files"):
            env.check(now[x] <= base[x], "%s, error %d at call %r: %s %d -> %d (%r)", name, err, at[0], x, base[x], now[x], dict(threads))
        # (a scan that failed may leave one file, which the next one uses)
        env.check(now["temporary files"] < base["temporary files"] + (2 if name == "scan" else 1), "%s, error %d at call %r: temporary files %d -> %d",
                  name, err, at[0], base["temporary files"], now["temporary files"])
        env.ping()

    env.run(main)


RACES = ["echo", "terminal", "terminal exit", "terminal lost", "forward", "forward local", "forward lost", "forward refuse", "forward redirect=True", "file", "file how=close",
         "file how=lost", "command", "command close", "command eof", "command lost"]


def races(ex):
    """Work that is ended while it goes on, under every schedule: no thread, process or descriptor is left."""
    name = ex.params
    w = Node(ex, points=(M + "portforward", M + "m2m.remoteprocess", M + "m2m.proxy", M + "m2mmanager", M + "m2m.commandservice", M + "m2m.fileservice"),
             preempt=True)
    env = w.env

    def main():
        w.begin()
        base, _ = w.measure()
        FN[name](w)()
        env.settle(150)
        now, threads = w.measure()
        ex.note(name, now["threads"])
        for x in ("threads", "descriptors", "files", "temporary files", "processes"):
            env.check(now[x] <= base[x], "%s: %s %d -> %d (%r)", name, x, base[x], now[x], dict(threads))
        env.ping()

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    out = [Family("growth", growth, 0, (False, 6), about="the same work over and over"),
           Family("growth-pairs", growth, 0, (True, 8 if deep else 4), about="two kinds of work over and over, one during the other"),
           Family("faults", faults, 0, about="the disk fails at any call")]
    for name in RACES:
        out.append(Family("races-" + name.replace("how=", "").replace(" ", "-"), races, 2 if deep else 1, name, about="ended at any moment"))
    return out
