"""C17: each instruction starts exactly what it names."""
import errno
import grp
import itertools
import json
import os
import pwd

from .. import agent, boot, core, kit, vfs, vos
from ..main import Family

M = "dataplicity."
REMOTE = None
SCAN = None
PORTS = {b"web": 80, b"ext": 81, b"extalt": 8000, b"alt": 8080}


def setup():
    global REMOTE
    REMOTE = os.path.join(boot.SCRATCH, "remote")
    os.mkdir(REMOTE)
    with open(os.path.join(REMOTE, "hello.txt"), "wb") as f:
        f.write(b"hello")
    with open(os.path.join(REMOTE, "other.txt"), "wb") as f:
        f.write(b"other file")
    os.chmod(REMOTE, 0o755)


def path(name):
    return os.path.join(REMOTE, name).encode("utf-8")


class Rig(object):
    def __init__(self, env):
        self.env = env
        env.start_agent(remote_dir=REMOTE)
        self.shells = kit.Shells(env)
        self.local = kit.Local(env, ports=(80, 81, 8000, 8080, 22, 5900, 65535, 1))
        self.cmds = kit.Commands(env)
        env.s.fs = vfs.Fs(env)
        # details are never accepted, so that every sync shows
        env.api.behave = self.api
        env.up()
        self.mark()

    def api(self, n, calls):
        return [{"jsonrpc": "2.0", "id": c["id"], "result": True} if c["method"] in ("device.check_auth", "m2m.associate") else
                {"jsonrpc": "2.0", "id": c["id"], "error": {"code": 1, "message": "no"}} for c in calls if "id" in c]

    def mark(self):
        env = self.env
        self.m = (len(env.api.requests), len(self.shells.procs), len(env.w.connect_log), len(env.w.popen_log),
                  len(env.s.fs.log), len(env.server.sent))

    def effects(self):
        """Everything the agent has started since the mark."""
        env = self.env
        a, f, c, p, l, s = self.m
        out = []
        for r in env.api.requests[a:]:
            out.append(("api", tuple(sorted(x["method"] for x in r))))
        out += [("fork",)] * (len(self.shells.procs) - f)
        out += [("connect", x) for x in env.w.connect_log[c:]]
        out += [("popen", x["args"] if isinstance(x["args"], str) else tuple(x["args"]), bool(x["shell"])) for x in env.w.popen_log[p:]]
        for name, pth in env.s.fs.log[l:]:
            if name == "scandir" and str(pth).rstrip("/") == REMOTE:
                out.append(("scan",))
            elif name == "open.r":
                out.append(("read", pth))
            elif name not in vfs.READ_OPS and not (
                    "remote_directory_scan" in str(pth)):
                out.append((name, str(pth)))
        for m in env.server.sent[s:]:
            out.append(("sent", m.type, repr(m.fields)))
        self.mark()
        return sorted(out, key=repr)


META = tuple(sorted(["device.check_auth", "device.set_agent_version", "device.set_machine_revision", "device.set_model_name",
                     "device.set_os_version", "device.set_uname", "device.set_ip_addresses"]))


def P(n):
    return agent.P[n]


def menu():
    """(name, instruction, effects expected; a function of the channel)"""
    out = []

    def add(name, ins, eff, after=None):
        out.append((name, ins, eff, after))
    add("sync", lambda ch: dict(action=b"sync"), lambda ch: [("api", META)])
    add("terminal", lambda ch: dict(action=b"open-terminal", port=ch, name=b"shell"), lambda ch: [("fork",)], "terminal")
    add("terminal-size", lambda ch: dict(action=b"open-terminal", port=ch, name=b"shell", size=[100, 40]), lambda ch: [("fork",)], "terminal")
    add("echo", lambda ch: dict(action=b"open-echo", port=ch), lambda ch: [], "echo")
    for s in sorted(PORTS):
        add("forward-" + s.decode(), lambda ch, s=s: dict(action=b"open-portforward", service=s, route=[b"node-2", 1, b"node-1", ch]),
            lambda ch, s=s: [("connect", ("127.0.0.1", PORTS[s]))], "forward")
    for p in (22, 5900, 80, 65535, 1):
        add("redirect-%d" % p, lambda ch, p=p: dict(action=b"open-portredirect", device_port=p, m2m_port=ch),
            lambda ch, p=p: [("connect", ("127.0.0.1", p))], "forward")
    for n, c in (("hello.txt", b"hello"), ("other.txt", b"other file")):
        add("file-" + n, lambda ch, n=n: dict(action=b"read-file", port=ch, path=path(n)),
            lambda ch, n=n, c=c: [("read", os.path.join(REMOTE, n)), ("sent", P("request_send"), repr([ch, c])),
                                  ("sent", P("request_close"), repr([ch]))])
    for c in (b"uptime", b"echo 'x y' | wc"):
        add("command-%d" % len(c), lambda ch, c=c: dict(action=b"run-command", port=ch, command=c),
            lambda ch, c=c: [("popen", c.decode(), True)], "command")
    add("scan", lambda ch: dict(action=b"scan-directory"), lambda ch: [("scan",)])
    add("reboot", lambda ch: dict(action=b"reboot-device"), lambda ch: [("popen", ("/usr/bin/sudo", "/sbin/reboot"), False)])
    # what the instruction says beyond its arguments changes nothing
    add("sync-extra", lambda ch: dict(action=b"sync", port=ch, command=b"reboot", name=b"shell", x=[1, {}]), lambda ch: [("api", META)])
    add("echo-extra", lambda ch: dict(action=b"open-echo", port=ch, command=b"id", path=path("hello.txt")), lambda ch: [], "echo")
    none = lambda ch: []
    for name, d in NOTHING:
        add(name, lambda ch, d=d: d(ch) if callable(d) else d, none)
    return out


NOTHING = [("unknown-%d" % i, dict(action=a)) for i, a in enumerate([
    b"", b"dance", b"open_terminal", b"open-terminal ", b"SYNC", b"Sync", b"reboot", b"reboot-device\0", b"run-command2",
    b"open-", b"scan", b"scan_directory", b"read-files", b"exit", b"restart-agent", b"\xff\xfe", b"sync\n"])]
NOTHING += [("unknown-type-%d" % i, dict(action=a)) for i, a in enumerate([0, 1, [], [b"sync"], {}, {b"action": b"sync"}])]
NOTHING += [
    ("empty", {}), ("no-action", dict(port=9, name=b"shell")), ("Action", {b"Action": b"sync"}),
    ("terminal-noname", lambda ch: dict(action=b"open-terminal", port=ch)),
    ("terminal-noport", lambda ch: dict(action=b"open-terminal", name=b"shell")),
    ("terminal-unknown", lambda ch: dict(action=b"open-terminal", port=ch, name=b"root")),
    ("terminal-case", lambda ch: dict(action=b"open-terminal", port=ch, name=b"Shell")),
    ("terminal-command", lambda ch: dict(action=b"open-terminal", port=ch, name=b"bash -i")),
    ("echo-noport", dict(action=b"open-echo")),
    ("forward-noservice", lambda ch: dict(action=b"open-portforward", route=[b"a", 1, b"b", ch])),
    ("forward-noroute", dict(action=b"open-portforward", service=b"web")),
    ("forward-unknown", lambda ch: dict(action=b"open-portforward", service=b"ssh", route=[b"a", 1, b"b", ch])),
    ("redirect-nodevice", lambda ch: dict(action=b"open-portredirect", m2m_port=ch)),
    ("redirect-nom2m", dict(action=b"open-portredirect", device_port=22)),
    ("file-nopath", lambda ch: dict(action=b"read-file", port=ch)),
    ("file-noport", lambda ch: dict(action=b"read-file", path=path("hello.txt"))),
    ("command-nocommand", lambda ch: dict(action=b"run-command", port=ch)),
    ("command-noport", dict(action=b"run-command", command=b"id")),
]


def probe(rig, name, ch, after):
    """What was started works on its own channel."""
    env, sv = rig.env, rig.env.server
    n = len(sv.data(ch))
    if after == "echo":
        sv.route(ch, b"marco %d" % ch)
        env.settle()
        env.check(sv.data(ch)[n:] == b"marco %d" % ch, "%s on %d: echoed %r", name, ch, sv.data(ch)[n:])
    elif after == "terminal":
        p = rig.shells.procs[-1]
        p.pty.out += b"prompt"
        sv.route(ch, b"typed")
        env.settle()
        env.check(sv.data(ch)[n:] == b"prompt" and bytes(p.pty.inp) == b"typed", "%s on %d: %r %r", name, ch, sv.data(ch)[n:], bytes(p.pty.inp))
        env.check(p.pty.size == ((40, 100) if name == "terminal-size" else (24, 80)), "%s: size %r", name, p.pty.size)
    elif after == "forward":
        c = rig.local.conns[-1]
        c.server_send(b"from local")
        sv.route(ch, b"to local")
        env.settle(1)
        env.check(bytes(c.to_server) == b"to local" and sv.data(ch)[n:] == b"from local", "%s on %d: %r %r", name, ch,
                  bytes(c.to_server), sv.data(ch)[n:])
    elif after == "command":
        p = rig.cmds.started[-1]
        p.stdout.feed(b"output")
        env.settle(1)
        env.check(sv.data(ch)[n:] == b"output", "%s on %d: %r", name, ch, sv.data(ch)[n:])
    rig.mark()


def sequences(ex):
    """Every sequence of instructions; after each of them exactly its own effects have happened."""
    depth = ex.params
    items = menu()
    env = agent.Env(ex, preempt=False)
    base = ex.pick([3, 70000], label="channels")

    def main():
        rig = Rig(env)
        for i in range(depth):
            env.fresh()
            name, ins, eff, after = ex.pick(items, label="instruction")
            ch = base + i
            ex.note(name)
            env.server.instruct(**{k if isinstance(k, str) else k.decode(): v for k, v in ins(ch).items()})
            env.settle()
            got = rig.effects()
            want = sorted(eff(ch), key=repr)
            env.check(got == want, "%s did %r, not %r", name, got, want)
            probe(rig, name, ch, after)
        env.ping()

    env.run(main)


def together(ex):
    """Several instructions before the agent gets to the first; senders and other fields vary."""
    items = [m for m in menu() if m[2](3) or m[3] or m[0] in ("unknown-1", "empty", "terminal-noname", "command-nocommand", "forward-unknown")]
    items = [m for m in items if m[0] != "scan"]
    env = agent.Env(ex, preempt=False)

    def main():
        rig = Rig(env)
        want = []
        names = []
        for i in range(ex.params):
            name, ins, eff, after = ex.pick(items, label="instruction")
            env.server.packet("instruction", [b"sender", b"", b"\xff"][i % 3], ins(3 + i))
            want += eff(3 + i)
            names.append(name)
        env.settle()
        got = rig.effects()
        env.check(got == sorted(want, key=repr), "%r did %r, not %r", names, got, sorted(want, key=repr))
        ex.note(names)
        env.ping()

    env.run(main)


def failing(ex):
    """An instruction whose action fails does not keep the next one from being carried out."""
    items = [m for m in menu() if m[2](3) or m[3]]
    first = ex.pick(["api", "fork", "refuse", "popen", "file", "scan", "thread"], label="failure")
    second = ex.pick(items, label="next")
    env = agent.Env(ex, preempt=False)

    def main():
        from .. import vthread
        rig = Rig(env)
        sv = env.server
        if first == "api":
            env.api.behave = lambda n, c: OSError(110, "timed out")
            sv.instruct(action=b"sync")
        elif first == "fork":
            f, env.w.ptyfork = env.w.ptyfork, None
            kit.open_term(sv, 90)
        elif first == "refuse":
            kit.open_redirect(sv, 90, 7777)
        elif first == "popen":
            env.w.popen = None
            sv.instruct(action=b"reboot-device")
        elif first == "file":
            kit.open_file(sv, 90, path("missing"))
        elif first == "scan":
            env.s.fs.fault = lambda n, name, p: OSError(5, "io") if name == "scandir" else None
            sv.instruct(action=b"scan-directory")
        elif first == "thread":
            vthread.HOOK.thread_start_fault = lambda t: True
            kit.open_forward(sv, 90)
            sv.instruct(action=b"scan-directory")
        env.settle(2)
        vthread.HOOK.thread_start_fault = None
        env.api.behave = rig.api
        env.s.fs.fault = None
        env.w.popen = rig.cmds.popen
        env.w.ptyfork = rig.shells.fork
        rig.mark()
        name, ins, eff, after = second
        sv.instruct(**ins(4))
        env.settle()
        got = rig.effects()
        env.check(got == sorted(eff(4), key=repr), "after a failed %s, %s did %r, not %r", first, name, got, eff(4))
        probe(rig, name, 4, after)
        ex.note(first, name)
        env.ping()

    env.run(main)


def executes(ex):
    """The terminal's process becomes the command that was configured, as the user and group that were, or nothing."""
    size = ex.pick([None, [100, 40]], label="size")
    user = ex.pick([None, "nobody", "daemon"], label="user")
    group = ex.pick([None, "nogroup", "daemon"], label="group")
    fails = ex.pick([None, errno.ENOENT, errno.EACCES, errno.ENOMEM], label="exec")
    command = ex.pick(["bash -i", "/bin/login", "sh -c 'echo \"a  b\" c'"] if size is None else ["bash -i"], label="command")
    env = agent.Env(ex, preempt=False)

    def main():
        rig = Rig(env)
        w = env.w
        if command != "bash -i" or user or group:
            env.client.m2m.add_terminal("shell", command, user=user, group=group)
        t = vos.VPty(w)
        w.ptyfork = lambda: (0, t.fd)
        w.exec_error = None if fails is None else OSError(fails, os.strerror(fails))
        rig.mark()
        kw = {} if size is None else {"size": size}
        kit.open_term(env.server, 3, **kw)
        env.settle()
        argv = {"bash -i": ("bash", "-i"), "/bin/login": ("/bin/login",)}.get(command, ("sh", "-c", 'echo "a  b" c'))
        ids = (pwd.getpwnam(user).pw_uid if user else 0, grp.getgrnam(group).gr_gid if group else 0)
        want = [(argv[0], argv) + ((ids,) if ids != (0, 0) else ())]
        env.check(w.exec_log == want, "the terminal's process executed %r, not %r", w.exec_log, want)
        # what runs is the child: the connection is its parent's
        env.check(not env.server.data(3) and not env.server.closes(3) and not rig.effects(), "the child sent %r, %d closes; %r",
                  env.server.data(3), len(env.server.closes(3)), rig.effects())
        ex.note(size, user, group, fails, command)

    env.run(main)


def families(tier):
    deep = tier == "thorough"
    return [
        Family("singles", sequences, 0, 1, about="every instruction"),
        Family("pairs", sequences, 0, 2, about="every pair of instructions"),
        Family("together", together, 0, 3 if deep else 2, about="instructions in one go"),
        Family("failing", failing, 0, about="an instruction after one that failed"),
        Family("executes", executes, 0, about="what a terminal's process runs"),
    ]
