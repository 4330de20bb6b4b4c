"""The virtual machine against the kernel: every sequence of operations up to a depth gives the same results.

    /opt/venv/bin/python -B -m mc.conformance [depth]

Sockets, pipes, pseudo terminals and child processes: after every operation the answer (data, error) and
what poll() says are compared. Nothing blocks: an operation that would block is not part of the sequence.
"""
from __future__ import print_function

import errno
import fcntl
import itertools
import os
import pty
import select
import signal
import socket
import struct
import subprocess
import sys
import tty

from . import agent, boot, core, vos

R = {}
MASK = select.POLLIN | select.POLLERR | select.POLLHUP
EVENTS = select.POLLIN | select.POLLPRI | select.POLLERR | select.POLLHUP


def outcome(f, *a):
    try:
        return f(*a)
    except OSError as e:
        return "errno %d" % e.errno


def real_poll(fd, timeout=0):
    p = R["poll"]()
    p.register(fd, EVENTS)
    r = p.poll(timeout)
    return r[0][1] & MASK if r else 0


def virtual_poll(fd):
    p = vos.VPoll()
    p.register(fd, EVENTS)
    r = p._ready()
    return r[0][1] & MASK if r else 0


# -- sockets

class RealTcp(object):
    listener = None

    def __init__(self):
        if RealTcp.listener is None:
            RealTcp.listener = R["socket"](socket.AF_INET, socket.SOCK_STREAM)
            RealTcp.listener.bind(("127.0.0.1", 0))
            RealTcp.listener.listen(5)
        self.a = R["socket"](socket.AF_INET, socket.SOCK_STREAM)
        self.a.connect(RealTcp.listener.getsockname())
        # (accept() would make one of the virtual sockets)
        self.b = R["socket"](fileno=RealTcp.listener._accept()[0])
        self.a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.a.setblocking(False)

    def server_send(self):
        try:
            self.b.sendall(b"ab")
        except OSError:
            pass  # the server's own trouble

    def server_close(self):
        try:
            self.b.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def server_exit(self):
        # having read everything
        self.b.setblocking(False)
        try:
            while self.b.recv(100):
                pass
        except OSError:
            pass
        self.b.close()

    def server_reset(self):
        self.b.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.b.close()

    def poll(self):
        return real_poll(self.a.fileno())

    def end(self):
        for s in (self.b, self.a):
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            s.close()


class VirtualTcp(object):
    def __init__(self):
        self.a = vos.VSocket()
        self.conn = vos.VConn(vos.W, ("127.0.0.1", 1))
        self.a.conn = self.conn
        self.a.setblocking(False)

    def server_send(self):
        self.conn.server_send(b"ab")

    def server_close(self):
        self.conn.server_close()

    def server_exit(self):
        self.conn.server_exit()

    def server_reset(self):
        self.conn.server_reset()

    def poll(self):
        return virtual_poll(self.a.fileno())

    def end(self):
        self.a.close()


TCP = {
    "server sends": lambda x: x.server_send(),
    "server shuts": lambda x: x.server_close(),
    "server exits": lambda x: x.server_exit(),
    "server resets": lambda x: x.server_reset(),
    "recv 1": lambda x: x.a.recv(1),
    "recv 9": lambda x: x.a.recv(9),
    "send": lambda x: x.a.send(b"x"),
    "shut read": lambda x: x.a.shutdown(socket.SHUT_RD),
    "shut write": lambda x: x.a.shutdown(socket.SHUT_WR),
}


def tcp_possible(done):
    over = "server exits" in done or "server resets" in done
    for op in TCP:
        if op.startswith("server"):
            if over or op == "server sends" and "server shuts" in done or op == "server shuts" and op in done:
                continue
            # what the server has not read when it exits makes it a reset
        yield op


# -- pipes

class RealPipe(object):
    def __init__(self):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)

    def feed(self):
        R["write"](self.w, b"ab")

    def hangup(self):
        R["close"](self.w)
        self.w = None

    def read(self, n):
        return R["read"](self.r, n)

    def poll(self):
        return real_poll(self.r)

    def end(self):
        R["close"](self.r)
        if self.w is not None:
            R["close"](self.w)


class VirtualPipe(object):
    def __init__(self):
        self.p = vos.VPipe(vos.W)

    def feed(self):
        self.p.feed(b"ab")

    def hangup(self):
        self.p.hangup()

    def read(self, n):
        if not self.p.readable():
            raise BlockingIOError(errno.EAGAIN, "")
        return vos.v_read(self.p.fd, n)

    def poll(self):
        return virtual_poll(self.p.fd)

    def end(self):
        self.p.close()


PIPE = {
    "feed": lambda x: x.feed(),
    "hang up": lambda x: x.hangup(),
    "read 1": lambda x: x.read(1),
    "read 9": lambda x: x.read(9),
}


def pipe_possible(done):
    for op in PIPE:
        if not ("hang up" in done and op in ("feed", "hang up")):
            yield op


# -- pseudo terminals

class RealPty(object):
    def __init__(self):
        self.m, self.s = pty.openpty()
        tty.setraw(self.s)
        os.set_blocking(self.m, False)
        os.set_blocking(self.s, False)

    @staticmethod
    def carried(to, write):
        """Write; the kernel carries it over in its own time."""
        def waiting():
            return struct.unpack("i", R["ioctl"](to, vos.termios.FIONREAD, b"\0" * 4))[0]
        n = waiting()
        done = write()
        for _ in range(1000):
            if waiting() >= n + done:
                break
            R["select"]([], [], [], 0.001)
        return done

    def out(self):
        self.carried(self.m, lambda: R["write"](self.s, b"ab"))

    def close_slave(self):
        R["close"](self.s)
        self.s = None

    def read(self, n):
        return R["read"](self.m, n)

    def write(self):
        if self.s is None:
            return R["write"](self.m, b"x")
        return self.carried(self.s, lambda: R["write"](self.m, b"x"))

    def inp(self):
        return R["read"](self.s, 100)

    def resize(self, rows, cols):
        R["ioctl"](self.m, vos.termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        return None

    def size(self):
        return struct.unpack("HHHH", R["ioctl"](self.s, vos.termios.TIOCGWINSZ, b"\0" * 8))[:2]

    def poll(self):
        return real_poll(self.m)

    def end(self):
        R["close"](self.m)
        if self.s is not None:
            R["close"](self.s)


class VirtualPty(object):
    def __init__(self):
        self.p = vos.VPty(vos.W)
        self.seen = 0

    def out(self):
        self.p.out += b"ab"

    def close_slave(self):
        self.p.slave_open = False

    def read(self, n):
        if not self.p.readable():
            raise BlockingIOError(errno.EAGAIN, "")
        return vos.v_read(self.p.fd, n)

    def write(self):
        return vos.v_write(self.p.fd, b"x")

    def inp(self):
        data = bytes(self.p.inp[self.seen:])
        self.seen = len(self.p.inp)
        if not data:
            raise BlockingIOError(errno.EAGAIN, "")
        return data

    def resize(self, rows, cols):
        vos.v_ioctl(self.p.fd, vos.termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))

    def size(self):
        return self.p.size

    def poll(self):
        return virtual_poll(self.p.fd)

    def end(self):
        vos.v_close(self.p.fd)


PTY = {
    "process writes": lambda x: x.out(),
    "process reads": lambda x: x.inp(),
    "process ends": lambda x: x.close_slave(),
    "read 1": lambda x: x.read(1),
    "read 9": lambda x: x.read(9),
    "write": lambda x: x.write(),
    "resize": lambda x: (x.resize(7, 9), x.size())[1],
}


def pty_possible(done):
    for op in PTY:
        if not ("process ends" in done and (op.startswith("process") or op == "resize")):
            yield op


# -- processes

class RealChild(object):
    def __init__(self, ignore):
        trap = "trap '' HUP; " if ignore else ""
        self.p = R["Popen"](["/bin/sh", "-c", trap + "echo; read x; exit 3"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.pid = self.p.pid
        self.p.stdout.readline()
        self.gone = False

    def exit(self):
        self.p.stdin.close()
        self.settle()

    def settle(self):
        # until the kernel has made it a zombie
        for _ in range(5000):
            with open("/proc/%d/stat" % self.pid) as f:
                if f.read().rpartition(")")[2].split()[0] == "Z":
                    return
            R["select"]([], [], [], 0.001)

    def kill(self, sig):
        if self.gone:
            raise ProcessLookupError(errno.ESRCH, "")
        R["kill"](self.pid, sig)

    def kill_settle(self, sig, ignored):
        self.kill(sig)
        if not ignored:
            self.settle()

    def wait(self):
        pid, status = R["waitpid"](self.pid, os.WNOHANG)
        if pid:
            self.gone = True
        return pid == self.pid, status

    def end(self):
        if not self.gone:
            R["kill"](self.pid, signal.SIGKILL)
            R["waitpid"](self.pid, 0)
        self.p.returncode = 0
        self.p.stdin.close()
        self.p.stdout.close()


class VirtualChild(object):
    def __init__(self, ignore):
        self.p = vos.VProcess(vos.W, (signal.SIGHUP,) if ignore else ())

    def exit(self):
        self.p.exit(3)

    def kill_settle(self, sig, ignored):
        vos.v_kill(self.p.pid, sig)

    def wait(self):
        pid, status = vos.v_waitpid(self.p.pid, os.WNOHANG)
        return pid == self.p.pid, status

    def end(self):
        pass


def child_ops(ignore):
    return {
        "exit": lambda x: x.exit(),
        "wait": lambda x: x.wait(),
        "hup": lambda x: x.kill_settle(signal.SIGHUP, ignore),
        "kill": lambda x: x.kill_settle(signal.SIGKILL, False),
        "null": lambda x: x.kill_settle(0, True),
    }


def child_possible(ops):
    def possible(done):
        for op in ops:
            if not ("exit" in done and op == "exit" or op == "exit" and ("kill" in done or "hup" in done)):
                yield op
    return possible


def sequences(possible, depth, done=()):
    if done:
        yield done
    if len(done) < depth:
        for op in possible(done):
            for s in sequences(possible, depth, done + (op,)):
                yield s


def compare(name, real, virtual, ops, possible, depth):
    """Every maximal sequence; returns (sequences, operations) or raises."""
    n = steps = 0
    for seq in sequences(possible, depth):
        if len(seq) < depth and any(True for _ in possible(seq)):
            continue
        n += 1
        a, b = real(), virtual()
        try:
            for i, op in enumerate(seq):
                x, y = outcome(ops[op], a), outcome(ops[op], b)
                steps += 1
                if hasattr(a, "poll"):
                    x, y = (x, a.poll()), (y, b.poll())
                    for _ in range(50):
                        if x == y:
                            break
                        # the kernel may need a moment
                        R["select"]([], [], [], 0.002)
                        x = (x[0], a.poll())
                if x != y:
                    raise AssertionError("%s: after %r the kernel says %r, the model %r" % (name, seq[:i + 1], x, y))
        finally:
            a.end()
            b.end()
    return n, steps


def run(depth):
    R.update(vos.REAL)
    results = []

    def harness(ex):
        env = agent.Env(ex, preempt=False)
        env.s.atomic = 1

        def main():
            results.append(("tcp",) + compare("tcp", RealTcp, VirtualTcp, TCP, tcp_possible, depth))
            results.append(("pipe",) + compare("pipe", RealPipe, VirtualPipe, PIPE, pipe_possible, depth + 2))
            results.append(("pty",) + compare("pty", RealPty, VirtualPty, PTY, pty_possible, depth))
            for ignore in (False, True):
                ops = child_ops(ignore)
                results.append(("child",) + compare("child", lambda: RealChild(ignore), lambda: VirtualChild(ignore), ops,
                                                    child_possible(ops), min(depth, 3)))
        env.run(main)
    _, msg = core.run_one(harness, (), None)
    return msg, results


def main(argv):
    boot.boot()
    boot.drop()
    try:
        msg, results = run(int(argv[0]) if argv else 4)
    finally:
        boot.regain()
        boot.remove_scratch()
    for r in results:
        print("%-6s %6d sequences, %7d operations: as the kernel" % r)
    if msg:
        print(msg)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
