"""Virtual operating system: loopback sockets, poll, pipes, ptys, processes, HTTP API.

Installed over the stdlib entry points before the agent is imported. Calls whose
descriptor / pid is not virtual fall through to the real function, except for
signals: a signal to a pid that is not virtual is never delivered, only recorded.
The behaviour of sockets, pipes and poll follows Linux; mc/conformance.py replays
the same operation sequences against the real kernel and compares.
"""
import errno
import fcntl
import os
import pty
import select
import signal
import socket
import subprocess
import termios
import urllib.request

from . import core

FD_BASE = 1000000
PID_BASE = 5000000

REAL = {
    "socket": socket.socket, "poll": select.poll, "select": select.select,
    "read": os.read, "write": os.write, "close": os.close, "kill": os.kill,
    "killpg": os.killpg, "waitpid": os.waitpid, "fork": os.fork, "pty.fork": pty.fork,
    "execlp": os.execlp, "execvp": os.execvp, "ioctl": fcntl.ioctl, "Popen": subprocess.Popen,
    "check_output": subprocess.check_output, "urlopen": urllib.request.urlopen,
    "create_connection": socket.create_connection, "call": subprocess.call,
    "system": os.system, "getpgid": os.getpgid, "setuid": os.setuid, "setgid": os.setgid,
    "set_blocking": os.set_blocking,
}


class World(object):
    """Everything outside of the agent, for one execution."""

    def __init__(self, ex, sched):
        self.ex = ex
        self.s = sched
        self.fds = {}
        self.reuse_fds = False
        self.next_fd = FD_BASE
        self.procs = {}
        self.reuse_pids = False  # the numbers of processes that are gone are used again, at once
        self.next_pid = PID_BASE
        self.listeners = {}  # (host, port) -> factory(conn) or "refuse"/"timeout"
        self.conns = []
        self.connect_log = []
        self.foreign_signals = []
        self.signals = []  # (time, pid, sig, alive)
        self.popen = None  # factory(args, kwargs) -> VProcess
        self.popen_log = []
        self.ptyfork = None
        self.exec_log = []
        self.exec_error = None  # an exception: no program can be executed
        self.ids = [0, 0]  # user and group of the process the agent is, or of its child
        self.ioctls = []
        self.api = None  # fn(url, data) -> bytes or raises
        self.api_log = []
        self.check_output = None
        self.interfaces = None  # [(name, address)] or an exception: the network interfaces, as the kernel tells them
        self.dgram_fault = None
        self.waits = 0
        self.websockets = []
        self.ptys = []

    def alloc(self, obj):
        fd = self.next_fd
        if self.reuse_fds:
            # like the kernel: the lowest free descriptor
            fd = min(f for f in range(FD_BASE, self.next_fd + 1) if f not in self.fds)
        self.next_fd = max(self.next_fd, fd + 1)
        self.fds[fd] = obj
        return fd

    def choose(self, n, cost=0, label=""):
        return self.ex.choose(n, cost, label)


W = None


def set_world(w):
    global W
    W = w


def _point(why):
    s = core.S
    if s is not None:
        s.point(why)


# -- byte streams -------------------------------------------------------

class VPipe(object):
    """A pipe read by the agent, written by a virtual process."""

    def __init__(self, w):
        self.w = w
        self.buf = bytearray()
        self.writers = 1
        self.fd = w.alloc(self)
        self.closed = False
        self.max_read = None

    # write side (environment)
    def feed(self, data):
        self.buf += data

    def hangup(self):
        self.writers = 0

    # read side
    def events(self):
        ev = 0
        if self.buf:
            ev |= select.POLLIN
        if not self.writers:
            ev |= select.POLLHUP
        return ev

    def readable(self):
        return bool(self.buf) or not self.writers

    def os_read(self, n):
        if not self.readable():
            core.S.block(self.readable, None, "pipe read")
        if self.max_read:
            n = min(n, self.max_read)
        data = bytes(self.buf[:n])
        del self.buf[:n]
        return data

    def os_close(self):
        self.closed = True
        self.w.fds.pop(self.fd, None)

    # file object interface
    def fileno(self):
        return self.fd

    def read(self, n=-1):
        _point("pipe.read")
        if n is None or n < 0:
            core.S.block(lambda: not self.writers, None, "pipe read all")
            data = bytes(self.buf)
            del self.buf[:]
            return data
        # buffered file: blocks until n bytes or EOF
        core.S.block(lambda: len(self.buf) >= n or not self.writers, None, "pipe read n")
        return self.os_read(n)

    def read1(self, n=65536):
        _point("pipe.read1")
        return self.os_read(n if n > 0 else 65536)

    def readline(self):
        _point("pipe.readline")
        core.S.block(lambda: b"\n" in self.buf or not self.writers, None, "pipe readline")
        i = self.buf.find(b"\n")
        n = len(self.buf) if i < 0 else i + 1
        return self.os_read(n)

    def __iter__(self):
        return iter(self.readline, b"")

    def close(self):
        if not self.closed:
            self.os_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class VPty(object):
    """Master side of a pty; the slave belongs to a virtual process."""

    def __init__(self, w):
        self.w = w
        self.out = bytearray()  # process -> master
        self.inp = bytearray()  # master -> process
        self.writes = []
        self.slave_open = True
        self.size = None
        self.fd = w.alloc(self)
        self.closed = False
        self.write_plan = None  # fn(n) -> bytes accepted
        self.max_read = 4095  # what Linux returns at most
        self.capacity = None  # bytes the process has room for, None: any number
        w.ptys.append(self)

    def events(self):
        ev = 0
        if self.out:
            ev |= select.POLLIN
        if not self.slave_open:
            ev |= select.POLLHUP
        if self.writable():
            ev |= select.POLLOUT
        return ev

    def readable(self):
        return bool(self.out) or not self.slave_open

    def os_read(self, n):
        if not self.readable():
            core.S.block(self.readable, None, "pty read")
        if self.out:
            n = min(n, self.max_read)
            data = bytes(self.out[:n])
            del self.out[:n]
            return data
        raise OSError(errno.EIO, "Input/output error")

    def writable(self):
        # (closing the other end does not make room)
        return self.capacity is None or self.capacity > 0

    def os_write(self, data):
        if not self.writable():
            core.S.block(self.writable, None, "pty write")
        if not self.slave_open:
            return len(data)  # Linux takes it, and nobody gets it
        n = len(data)
        if self.capacity is not None:
            n = min(n, self.capacity)
            self.capacity -= n
        if self.write_plan is not None:
            n = self.write_plan(n)
        self.inp += bytes(data[:n])
        self.writes.append(bytes(data[:n]))
        return n

    def os_close(self):
        self.closed = True
        self.w.fds.pop(self.fd, None)


class VConn(object):
    """One TCP connection: the agent's end is a VSocket, the other end is the local server."""

    def __init__(self, w, host_port):
        self.w = w
        self.host_port = host_port
        self.to_server = bytearray()
        self.from_server = bytearray()
        self.server_fin = False
        self.refused = False
        self.gone = False  # the server is gone: what is sent to it is answered by a reset
        self.rst = False
        self.err_pending = 0
        self.shut_rd = False
        self.shut_wr = False
        self.closed = False
        self.send_capacity = None  # bytes the server is willing to take, None = unlimited
        self.sends = []

    # server side
    def server_send(self, data):
        if self.refused:
            return
        if self.rst or self.server_fin:
            raise core.HarnessError("server_send after fin/rst")
        if self.shut_rd and self.shut_wr:
            # nobody is going to read it: the kernel resets the connection
            self.refused = self.rst = True
            self.err_pending = errno.ECONNRESET
            return
        self.from_server += data

    def server_close(self):
        if not self.refused:
            self.server_fin = True

    def server_exit(self):
        """The server closes its socket, having read everything it was sent."""
        if self.refused:
            return
        self.server_fin = True
        self.gone = True

    def server_reset(self):
        """The server closes its socket with something unread, or crashes."""
        if self.refused:
            return
        self.rst = True
        if not self.server_fin:
            self.err_pending = errno.ECONNRESET
        elif not self.shut_wr:
            self.err_pending = errno.EPIPE

    @property
    def server_sees_eof(self):
        return self.shut_wr or self.closed


class VSocket(object):
    """socket.socket(AF_INET, SOCK_STREAM)"""

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        self.w = W
        self.family = family
        self.type = type
        self.proto = proto
        self.conn = None
        self.timeout = None
        self.opts = []
        self._closed = False
        self.connecting = False
        self.fd = self.w.alloc(self)

    def fileno(self):
        return -1 if self._closed else self.fd

    def setsockopt(self, *a):
        self.opts.append(a)

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def connect(self, addr):
        _point("socket.connect")
        if not isinstance(addr[1], int):
            raise TypeError("expected integer, got %s object" % type(addr[1]).__name__)
        if not 0 <= addr[1] <= 65535:
            raise OverflowError("port must be 0-65535.")
        self.w.connect_log.append(tuple(addr))
        core.S.obs("connect", tuple(addr))
        beh = self.w.listeners.get(tuple(addr), "refuse")
        if callable(beh):
            conn = VConn(self.w, tuple(addr))
            r = beh(conn)
            if r == "refuse":
                raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
            if r == "timeout":
                self._hopeless()
            self.conn = conn
            self.w.conns.append(conn)
            _point("socket.connected")
            return
        if beh == "timeout":
            self._hopeless()
        if isinstance(beh, Exception):
            raise beh
        raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")

    def _hopeless(self):
        """Nobody answers: the socket goes on trying after the time the agent waits."""
        if not self.timeout or self.timeout >= 120.0:
            core.S.sleep(120.0)
            raise TimeoutError(errno.ETIMEDOUT, "Connection timed out")
        core.S.sleep(self.timeout)
        self.connecting = True
        raise socket.timeout("timed out")

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or errno.ETIMEDOUT
        return 0

    def getpeername(self):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "not connected")
        return self.conn.host_port

    def _need(self):
        if self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if self.connecting:
            core.S.block(lambda: not self.connecting, self.timeout, "connecting")
            if self.connecting:
                raise socket.timeout("timed out")
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return self.conn

    def events(self):
        c = self.conn
        if self.connecting:
            return 0
        if c is None:
            return select.POLLOUT | select.POLLHUP
        ev = 0
        if c.from_server or c.server_fin or c.rst or c.shut_rd:
            ev |= select.POLLIN
        if c.rst or ((c.server_fin or c.shut_rd) and c.shut_wr):
            ev |= select.POLLHUP
        if c.err_pending:
            ev |= select.POLLERR
        if c.send_capacity is None or c.send_capacity > 0:
            ev |= select.POLLOUT
        return ev

    def _readable(self):
        c = self.conn
        return bool(c.from_server or c.server_fin or c.rst or c.shut_rd)

    def recv(self, n, flags=0):
        _point("socket.recv")
        c = self._need()
        if not self._readable():
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if not core.S.block(self._readable, self.timeout, "recv"):
                raise socket.timeout("timed out")
        if c.from_server:
            data = bytes(c.from_server[:n])
            if not flags & socket.MSG_PEEK:
                del c.from_server[:n]
            return data
        if c.err_pending and not c.server_fin:
            e, c.err_pending = c.err_pending, 0
            raise ConnectionResetError(e, "Connection reset by peer")
        return b""

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buf), flags)
        buf[: len(data)] = data
        return len(data)

    def _send_some(self, data):
        c = self._need()
        if c.shut_wr and not c.err_pending:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if c.rst:
            e, c.err_pending = c.err_pending or errno.EPIPE, 0
            if e == errno.ECONNRESET:
                raise ConnectionResetError(e, "Connection reset by peer")
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if c.gone and len(data):
            # taken by the network, but nobody is there
            c.rst = True
            c.err_pending = errno.EPIPE
            return len(data)
        n = len(data)
        if c.send_capacity is not None:
            n = min(n, c.send_capacity)
            c.send_capacity -= n
        c.to_server += bytes(data[:n])
        return n

    def _writable(self):
        c = self.conn
        return c.rst or c.shut_wr or c.send_capacity is None or c.send_capacity > 0

    def send(self, data, flags=0):
        _point("socket.send")
        self._need()
        if not self._writable():
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
            if not core.S.block(self._writable, self.timeout, "send"):
                raise socket.timeout("timed out")
        return self._send_some(data)

    def sendall(self, data, flags=0):
        _point("socket.sendall")
        self._need()
        data = bytes(data)
        if self.conn is not None:
            self.conn.sends.append(data)
        while True:
            n = self._send_some(data)
            data = data[n:]
            if not data:
                return None
            if not core.S.block(self._writable, self.timeout, "sendall"):
                raise socket.timeout("timed out")

    def shutdown(self, how):
        _point("socket.shutdown")
        if self.connecting:
            self.connecting = False
            return
        c = self._need()
        if c.rst or c.server_fin and c.shut_wr:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            c.shut_rd = True
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            c.shut_wr = True

    def close(self):
        _point("socket.close")
        if not self._closed:
            self._closed = True
            self.w.fds.pop(self.fd, None)
            if self.conn is not None:
                self.conn.closed = True

    def detach(self):
        return self.fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def v_socket(family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
    if W is not None and core.S is not None and W.interfaces is not None and type & 0xF == socket.SOCK_DGRAM:
        if W.dgram_fault is not None:
            raise W.dgram_fault
        return VSocket(family, type, proto, fileno)
    if W is None or core.S is None or type & 0xF != socket.SOCK_STREAM:
        return REAL["socket"](family, type, proto, fileno)
    return VSocket(family, type, proto, fileno)


def v_create_connection(address, timeout=None, source_address=None):
    s = v_socket()
    if timeout is not None:
        s.settimeout(timeout)
    s.connect(address)
    return s


class VPoll(object):
    def __init__(self):
        self.reg = {}

    @staticmethod
    def _fd(fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def register(self, fd, eventmask=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self.reg[self._fd(fd)] = eventmask

    def modify(self, fd, eventmask):
        if self._fd(fd) not in self.reg:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        self.reg[self._fd(fd)] = eventmask

    def unregister(self, fd):
        del self.reg[self._fd(fd)]

    def _ready(self):
        out = []
        for fd in sorted(self.reg):
            obj = W.fds.get(fd)
            if obj is None:
                out.append((fd, select.POLLNVAL))
                continue
            ev = obj.events() & (self.reg[fd] | select.POLLERR | select.POLLHUP)
            if ev:
                out.append((fd, ev))
        return out

    def poll(self, timeout=None):
        _point("poll")
        r = self._ready()
        if r:
            return r
        if timeout is not None and timeout < 0:
            timeout = None
        core.S.block(lambda: bool(self._ready()), None if timeout is None else timeout / 1000.0, "poll")
        return self._ready()


def v_poll():
    if W is None or core.S is None:
        return REAL["poll"]()
    return VPoll()


def v_select(r, w, x, timeout=None):
    if W is None or core.S is None:
        return REAL["select"](r, w, x, timeout)
    fd = VPoll._fd

    def ready():
        rr = [f for f in r if W.fds.get(fd(f)) is not None and
              W.fds[fd(f)].events() & (select.POLLIN | select.POLLHUP | select.POLLERR)]
        ww = [f for f in w if W.fds.get(fd(f)) is not None and W.fds[fd(f)].events() & select.POLLOUT]
        return rr, ww, []

    _point("select")
    res = ready()
    if any(res):
        return res
    core.S.block(lambda: any(ready()), timeout, "select")
    return ready()


# -- fds ----------------------------------------------------------------

def v_read(fd, n):
    if fd < FD_BASE:
        return REAL["read"](fd, n)
    _point("os.read")
    obj = W.fds.get(fd)
    if obj is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return obj.os_read(n)


def v_write(fd, data):
    if fd < FD_BASE:
        return REAL["write"](fd, data)
    _point("os.write")
    obj = W.fds.get(fd)
    if obj is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return obj.os_write(data)


def v_close(fd):
    if fd < FD_BASE:
        return REAL["close"](fd)
    _point("os.close")
    obj = W.fds.get(fd)
    if obj is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    return obj.os_close()


SIOCGIFCONF = 0x8912


def _ifconf(arg):
    """As many entries as fit into the caller's buffer, like the kernel."""
    import ctypes
    import struct
    if isinstance(W.interfaces, BaseException):
        raise W.interfaces
    size, pointer = struct.unpack("iL", bytes(arg))
    data = b""
    for name, address in W.interfaces:
        e = name[:15].ljust(16, b"\0") + struct.pack("=HH", socket.AF_INET, 0) + socket.inet_aton(address) + b"\0" * 8
        e = e.ljust(40, b"\0")
        if len(data) + len(e) > size:
            break
        data += e
    ctypes.memmove(pointer, data, len(data))
    core.S.obs("ifconf", len(data) // 40)
    return struct.pack("iL", len(data), pointer)


def v_ioctl(fd, request, arg=0, mutate_flag=True):
    n = fd if isinstance(fd, int) else fd.fileno()
    if n < FD_BASE:
        return REAL["ioctl"](fd, request, arg, mutate_flag)
    obj = W.fds.get(n)
    if obj is None:
        raise OSError(errno.EBADF, "Bad file descriptor")
    if request == SIOCGIFCONF and W.interfaces is not None:
        return _ifconf(arg)
    if request == termios.TIOCSWINSZ:
        import struct
        raw = bytes(arg) if not hasattr(arg, "tobytes") else arg.tobytes()
        rows, cols = struct.unpack("HH", raw[:4])
        obj.size = (rows, cols)
        core.S.obs("winsz", rows, cols)
    return 0


# -- processes ----------------------------------------------------------

class VProcess(object):
    """A child process: killed, reaped, or exits by itself."""

    def __init__(self, w, ignores=()):
        self.w = w
        gone = sorted(n for n, p in w.procs.items() if p.reaped) if w.reuse_pids else None
        if gone:
            self.pid = gone[0]
        else:
            self.pid = w.next_pid
            w.next_pid += 1
        self.alive = True
        self.reaped = False
        self.status = None  # wait status
        self.signals = []
        self.ignores = set(ignores)
        self.on_death = []
        self.unkillable = False  # in an uninterruptible state
        w.procs[self.pid] = self

    def exit(self, code=0, sig=0):
        if not self.alive:
            return
        self.alive = False
        self.status = sig if sig else (code & 0xFF) << 8
        for f in self.on_death:
            f()

    def deliver(self, sig):
        self.signals.append((core.S.now, sig))
        if not self.alive:
            return
        if sig == 0 or self.unkillable or (sig in self.ignores and sig != signal.SIGKILL):
            return
        self.exit(sig=sig)


def v_kill(pid, sig):
    w = W
    if w is None or core.S is None:
        raise core.HarnessError("kill outside of an execution")
    _point("os.kill")
    core.S.obs("kill", pid - PID_BASE, int(sig))
    p = w.procs.get(pid)
    if p is None or p.reaped:
        w.foreign_signals.append((pid, int(sig)))
        raise ProcessLookupError(errno.ESRCH, "No such process")
    w.signals.append((core.S.now, pid, int(sig), p.alive))
    p.deliver(int(sig))


def v_killpg(pgid, sig):
    return v_kill(pgid, sig)


def v_getpgid(pid):
    if W is not None and pid in W.procs:
        return pid
    return REAL["getpgid"](pid)


def v_waitpid(pid, options):
    w = W
    if w is None or core.S is None or (pid > 0 and pid < PID_BASE):
        return REAL["waitpid"](pid, options)
    w.waits += 1
    _point("os.waitpid")
    if pid == -1:
        cands = [p for p in w.procs.values() if not p.reaped]
        if not cands:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        dead = [p for p in cands if not p.alive]
        if not dead:
            if options & os.WNOHANG:
                return (0, 0)
            core.S.block(lambda: any(not p.alive for p in cands), None, "waitpid")
            dead = [p for p in cands if not p.alive]
        p = dead[0]
    else:
        p = w.procs.get(pid)
        if p is None or p.reaped:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if p.alive:
            if options & os.WNOHANG:
                return (0, 0)
            core.S.block(lambda: not p.alive, None, "waitpid")
            if p.reaped:
                raise ChildProcessError(errno.ECHILD, "No child processes")
    p.reaped = True
    core.S.obs("reaped", p.pid - PID_BASE)
    return (p.pid, p.status)


class ChildExec(BaseException):
    """Raised in place of replacing the process image (child side of a fork)."""


def v_pty_fork():
    w = W
    if w is None or core.S is None:
        raise core.HarnessError("pty.fork outside of an execution")
    _point("pty.fork")
    if w.ptyfork is None:
        raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
    return w.ptyfork()


def _v_exec(file, args):
    if W is None or core.S is None:
        raise core.HarnessError("exec outside of an execution")
    W.exec_log.append((file, tuple(args)) + ((tuple(W.ids),) if W.ids != [0, 0] else ()))
    if W.exec_error is not None:
        raise W.exec_error
    raise ChildExec()


def v_execlp(file, *args):
    _v_exec(file, args)


def v_execvp(file, args):
    _v_exec(file, args)


def v_setuid(uid):
    if W.ids[0] not in (0, uid):
        raise PermissionError(errno.EPERM, "Operation not permitted")
    W.ids[0] = uid


def v_setgid(gid):
    if W.ids[0] != 0 and W.ids[1] != gid:
        raise PermissionError(errno.EPERM, "Operation not permitted")
    W.ids[1] = gid


def v_setgroups(*a):
    if W.ids[0] != 0:
        raise PermissionError(errno.EPERM, "Operation not permitted")


class VPopen(object):
    """subprocess.Popen"""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, **kw):
        w = W
        if w is None or core.S is None:
            raise core.HarnessError("Popen outside of an execution")
        _point("Popen")
        rec = {"args": args, "shell": shell, "stdout": stdout, "stderr": stderr, "kw": kw}
        w.popen_log.append(rec)
        core.S.obs("popen", args if isinstance(args, (str, bytes)) else tuple(args), bool(shell))
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        if w.popen is None:
            raise FileNotFoundError(errno.ENOENT, "No such file")
        self.proc = VProcess(w)
        self.pid = self.proc.pid
        if stdout == subprocess.PIPE:
            self.stdout = VPipe(w)
        if stderr == subprocess.PIPE:
            self.stderr = VPipe(w)
        elif stderr == subprocess.STDOUT:
            self.merged = True
        w.popen(self, rec)

    def poll(self):
        _point("Popen.poll")
        if self.returncode is None and not self.proc.alive:
            if self.proc.reaped:
                self.returncode = 0  # somebody else has waited for it: its status is lost
                return 0
            self.proc.reaped = True
            st = self.proc.status
            self.returncode = -(st & 0x7F) if st & 0x7F else st >> 8
        return self.returncode

    def wait(self, timeout=None):
        _point("Popen.wait")
        if self.returncode is None and self.proc.alive:
            if not core.S.block(lambda: not self.proc.alive, timeout, "Popen.wait"):
                raise subprocess.TimeoutExpired(self.args, timeout)
        return self.poll()

    def send_signal(self, sig):
        if self.returncode is None:
            v_kill(self.pid, sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read() if self.stdout else None
        err = self.stderr.read() if self.stderr else None
        self.wait(timeout)
        return out, err

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr):
            if f is not None:
                f.close()
        self.wait()


def v_check_output(args, *a, **kw):
    w = W
    if w is None or core.S is None:
        raise core.HarnessError("check_output outside of an execution")
    _point("check_output")
    if w.check_output is None:
        raise FileNotFoundError(errno.ENOENT, "No such file")
    return w.check_output(args)


def v_call(args, *a, **kw):
    p = VPopen(args, **{k: v for k, v in kw.items() if k in ("shell",)})
    return p.wait()


def v_system(cmd):
    p = VPopen(cmd, shell=True)
    return p.wait()


# -- HTTP ---------------------------------------------------------------

class VResponse(object):
    def __init__(self, data):
        self.data = data
        self.closed = False
        self.status = self.code = 200

    def read(self, n=-1):
        if isinstance(self.data, Exception):
            raise self.data
        d, self.data = self.data, b""
        return d

    def getcode(self):
        return 200

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class NoAnswer(VResponse):
    """The web API takes the request; then nothing more (or only a part of the answer) comes."""

    def __init__(self, first=b"", connects=True):
        VResponse.__init__(self, first)
        self.connects = connects
        self.timeout = None

    def read(self, n=-1):
        raise never(self.timeout)


def never(timeout):
    """Waits for something that does not come: the error at the end of the timeout."""
    if timeout is None:
        core.S.block(lambda: False, None, "an answer that never comes")
    core.S.sleep(timeout)
    return socket.timeout("timed out")


def v_urlopen(url, data=None, timeout=None, **kw):
    w = W
    if w is None or core.S is None:
        raise core.HarnessError("urlopen outside of an execution")
    if not isinstance(url, str):
        data = url.data if data is None else data
        url = url.full_url
    _point("urlopen")
    if w.api is None:
        import urllib.error
        raise urllib.error.URLError("unreachable")
    r = w.api(url, data)
    if isinstance(r, NoAnswer):
        r.timeout = socket.getdefaulttimeout() if timeout is None else timeout
        if not r.connects:
            import urllib.error
            raise urllib.error.URLError(never(r.timeout))
        if not r.data:
            raise never(r.timeout)
    _point("urlopen.done")
    return r if isinstance(r, VResponse) else VResponse(r)


def _deny(name):
    def f(*a, **kw):
        raise core.HarnessError("%s called by the code under test: %r" % (name, a))
    return f


def install():
    socket.socket = v_socket
    socket.create_connection = v_create_connection
    select._mc_real_select = select.select
    select.poll = v_poll
    select.select = v_select
    os._mc_real_read = os.read
    os._mc_real_write = os.write
    os._mc_real_close = os.close
    os._mc_real_waitpid = os.waitpid
    os.read = v_read
    os.write = v_write
    os.close = v_close
    os.kill = v_kill
    os.killpg = v_killpg
    os.getpgid = v_getpgid
    os.waitpid = v_waitpid
    os.system = v_system
    os.setuid = v_setuid
    os.setgid = v_setgid
    os.setgroups = os.initgroups = v_setgroups
    os.execlp = v_execlp
    os.execvp = v_execvp
    pty.fork = v_pty_fork
    fcntl.ioctl = v_ioctl
    subprocess.Popen = VPopen
    subprocess.check_output = v_check_output
    subprocess.call = v_call
    urllib.request.urlopen = v_urlopen
