"""Common pieces of the virtual machine for the property harnesses: local servers, shells, commands."""
import os

from . import core, vos


class Shells(object):
    """pty.fork(): every terminal launched gets a process and a pty."""

    def __init__(self, env, ignores=(), on_fork=None, auto_exit=True):
        self.env = env
        self.procs = []
        self.ptys = []
        self.ignores = ignores
        self.on_fork = on_fork
        self.auto_exit = auto_exit
        env.w.ptyfork = self.fork

    def fork(self):
        w = self.env.w
        if self.on_fork is not None:
            self.on_fork(len(self.procs))
        p = vos.VProcess(w, self.ignores)
        t = vos.VPty(w)
        p.on_death.append(lambda: setattr(t, "slave_open", False))
        self.procs.append(p)
        self.ptys.append(t)
        p.pty = t
        core.S.obs("fork", p.pid - vos.PID_BASE)
        return p.pid, t.fd

    @property
    def live(self):
        return [p for p in self.procs if p.alive]


class Local(object):
    """Local TCP servers; connections in the order they were accepted, by port."""

    def __init__(self, env, ports=(80, 81, 8000, 8080), capacity=None):
        self.env = env
        self.conns = []
        self.capacity = capacity
        for p in ports:
            env.w.listeners[("127.0.0.1", p)] = self.accept

    def accept(self, conn):
        conn.send_capacity = self.capacity
        self.conns.append(conn)
        return None

    def on(self, port):
        return [c for c in self.conns if c.host_port[1] == port]


class Commands(object):
    """subprocess.Popen: every command gets a virtual process with pipes."""

    def __init__(self, env, on_start=None):
        self.env = env
        self.started = []
        self.on_start = on_start
        env.w.popen = self.popen

    def popen(self, p, rec):
        p.rec = rec

        def dead():
            for f in (p.stdout, p.stderr):
                if f is not None:
                    f.hangup()
        p.proc.on_death.append(dead)
        self.started.append(p)
        if self.on_start is not None:
            self.on_start(p)


def open_echo(sv, ch):
    sv.instruct(action=b"open-echo", port=ch)


def open_term(sv, ch, **kw):
    sv.instruct(action=b"open-terminal", port=ch, name=b"shell", **kw)


def open_forward(sv, ch, service=b"web"):
    sv.instruct(action=b"open-portforward", service=service, route=[b"node-2", 1, b"node-1", ch])


def open_redirect(sv, ch, port):
    sv.instruct(action=b"open-portredirect", device_port=port, m2m_port=ch)


def open_file(sv, ch, path):
    sv.instruct(action=b"read-file", port=ch, path=path)


def open_command(sv, ch, command=b"cmd"):
    sv.instruct(action=b"run-command", port=ch, command=command)


def chatter(env, feed, going, every):
    """Something keeps talking: feed() every so often, while going()."""
    def body():
        while going():
            feed()
            core.S.sleep(every)
    env.s.spawn(body, "chatter", kind="env")
